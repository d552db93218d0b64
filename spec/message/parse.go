package message

// Contracts of the parser: C01 (safety, no stale data) and C02 (exact layouts).

import (
	pld "github.com/qbeon/webwire-go/payload"
	"github.com/qbeon/webwire-go/vrt"
)

// specFrame is the documented decoding of a frame: section bounds into the received bytes.
type specFrame struct {
	known        bool // documented type byte
	ok           bool // instance of the layout
	id           bool // carries an identifier (bytes 1..9)
	nameA, nameB int
	payA, payB   int
	enc          pld.Encoding
	conf         bool
	anyEnc       bool // the encoding of an error reply's message is not documented (a test pins Binary)
}

// specDecode states the documented layouts (docs and the layout comments of message.go).
func specDecode(in []byte) (f specFrame) {
	n := len(in)
	f.known = true
	switch in[0] {
	case 0: // error reply
		f.id = true
		if n < 11 {
			return
		}
		c := int(in[9])
		if c < 1 || n < 10+c {
			return
		}
		f.ok, f.nameA, f.nameB, f.payA, f.payB, f.anyEnc = true, 10, 10+c, 10+c, n, true
	case 1, 2, 3, 4, 5: // special replies
		f.id = true
		f.ok = n >= 9
	case 21: // session created
		f.ok, f.payA, f.payB = n >= 2, 1, n
	case 22: // session closed
		f.ok = n == 1
	case 23: // server configuration
		f.ok, f.conf = n >= 11, true
	case 31: // close session
		f.id = true
		f.ok = n == 9
	case 32: // restore session
		f.id = true
		f.ok, f.payA, f.payB = n >= 10, 9, n
	case 33: // heartbeat
		f.ok = n == 1
	case 63, 64: // signal
		if n < 3 {
			return
		}
		c := int(in[1])
		f.ok, f.nameA, f.nameB, f.payA, f.payB = n >= 2+c, 2, 2+c, 2+c, n
		if in[0] == 64 {
			f.enc = pld.Utf8
		}
	case 65: // UTF-16 signal
		if n < 4 {
			return
		}
		c := int(in[1])
		p := c % 2
		f.ok, f.nameA, f.nameB, f.payA, f.payB, f.enc = n%2 == 0 && n >= 2+c+p, 2, 2+c, 2+c+p, n, pld.Utf16
	case 127, 128: // request
		f.id = true
		if n < 11 {
			return
		}
		c := int(in[9])
		f.ok, f.nameA, f.nameB, f.payA, f.payB = n >= 10+c, 10, 10+c, 10+c, n
		if in[0] == 128 {
			f.enc = pld.Utf8
		}
	case 129: // UTF-16 request
		f.id = true
		if n < 11 {
			return
		}
		c := int(in[9])
		p := c % 2
		f.ok, f.nameA, f.nameB, f.payA, f.payB, f.enc = n%2 == 0 && n >= 10+c+p, 10, 10+c, 10+c+p, n, pld.Utf16
	case 191, 192: // reply
		f.id = true
		f.ok, f.payA, f.payB = n >= 9, 9, n
		if in[0] == 192 {
			f.enc = pld.Utf8
		}
	case 193: // UTF-16 reply
		f.id = true
		f.ok, f.payA, f.payB, f.enc = n%2 == 0 && n >= 10, 10, n, pld.Utf16
	default:
		f.known = false
	}
	return
}

// specAnyMessage is a message with a buffer of any size and any earlier contents.
func specAnyMessage() *Message {
	buf := vrt.Bytes("buf")
	m := &Message{MsgBuffer: Buffer{buf: buf}}
	m.MsgBuffer.len = vrt.Int("prevLen", 0, len(buf))
	m.MsgType = vrt.Byte("prevType")
	m.MsgIdentifier = vrt.Bytes8("prevId")
	m.MsgIdentifierBytes = vrt.Bytes("prevIdBytes")
	m.MsgName = vrt.Bytes("prevName")
	m.MsgPayload = pld.Payload{Encoding: pld.Encoding(vrt.Int("prevEnc", 0, 2)), Data: vrt.Bytes("prevPayload")}
	m.ServerConfiguration = ServerConfiguration{
		MajorProtocolVersion: vrt.Byte("prevMajor"),
		SubProtocolName:      vrt.Bytes("prevSub"),
		MessageBufferSize:    vrt.U32("prevSize"),
		ReadTimeout:          vrt.Dur("prevTimeout"),
	}
	return m
}

func specZeros(b []byte) bool {
	return vrt.Forall(0, len(b), func(i int) bool { return b[i] == 0 })
}

func spZeroID(id [8]byte) bool { return id == [8]byte{} }

// specNoStale: every exposed slice lies inside the received bytes (or is empty / zero), after any parse.
func specNoStale(m *Message, rcv []byte) {
	vrt.Assert("C01.name-inside-received", vrt.Inside(m.MsgName, rcv))
	vrt.Assert("C01.payload-inside-received", vrt.Inside(m.MsgPayload.Data, rcv))
	vrt.Assert("C01.subprotocol-inside-received", vrt.Inside(m.ServerConfiguration.SubProtocolName, rcv))
	vrt.Assert("C01.identifier-bytes-inside-received", vrt.Inside(m.MsgIdentifierBytes, rcv) || specZeros(m.MsgIdentifierBytes))
	if len(rcv) >= 9 {
		id := [8]byte{rcv[1], rcv[2], rcv[3], rcv[4], rcv[5], rcv[6], rcv[7], rcv[8]}
		vrt.Assert("C01.identifier-from-received", m.MsgIdentifier == id || m.MsgIdentifier == [8]byte{})
	} else {
		vrt.Assert("C01.identifier-from-received", m.MsgIdentifier == [8]byte{})
	}
}

// specParsed checks the result of a parse of the bytes in against the documented layouts.
func specParsed(m *Message, in []byte, parsed bool, err error) {
	f := specDecode(in)
	vrt.Assert("C02.type-determined-iff-documented", parsed == f.known)
	vrt.Assert("C02.accepted-iff-layout", (err == nil) == (f.known && f.ok))
	if !f.known || !f.ok {
		vrt.Cover("rejected")
		return
	}
	vrt.Cover("accepted")
	vrt.Assert("C02.type", m.MsgType == in[0])
	if f.id {
		id := [8]byte{in[1], in[2], in[3], in[4], in[5], in[6], in[7], in[8]}
		vrt.Assert("C02.identifier", m.MsgIdentifier == id)
		vrt.Assert("C02.identifier-bytes", vrt.BytesEq(m.MsgIdentifierBytes, in[1:9]))
	} else {
		vrt.Assert("C01.no-identifier", m.MsgIdentifier == [8]byte{} && specZeros(m.MsgIdentifierBytes))
	}
	vrt.Assert("C02.name", vrt.BytesEq(m.MsgName, in[f.nameA:f.nameB]))
	vrt.Assert("C02.payload", vrt.BytesEq(m.MsgPayload.Data, in[f.payA:f.payB]))
	vrt.Assert("C02.encoding", f.anyEnc || m.MsgPayload.Encoding == f.enc)
	c := m.ServerConfiguration
	if f.conf {
		vrt.Cover("configuration")
		vrt.Assert("C02.conf-version", c.MajorProtocolVersion == in[1] && c.MinorProtocolVersion == in[2])
		vrt.Assert("C02.conf-timeout", int(c.ReadTimeout) == (int(in[3])+256*int(in[4])+65536*int(in[5])+16777216*int(in[6]))*1000000)
		vrt.Assert("C02.conf-buffer-size", int(c.MessageBufferSize) == int(in[7])+256*int(in[8])+65536*int(in[9])+16777216*int(in[10]))
		vrt.Assert("C02.conf-sub-protocol", vrt.BytesEq(c.SubProtocolName, in[11:]))
	} else {
		vrt.Assert("C01.no-configuration", c.MajorProtocolVersion == 0 && c.MinorProtocolVersion == 0 && c.ReadTimeout == 0 &&
			c.MessageBufferSize == 0 && len(c.SubProtocolName) == 0)
	}
}

func prove_C01_C02_ReadBytes() {
	vrt.Expect("accepted")
	vrt.Expect("rejected")
	vrt.Expect("configuration")
	vrt.Expect("overflow")
	vrt.Expect("empty")
	m := specAnyMessage()
	in := vrt.Bytes("input")
	in0 := vrt.Snap(in)
	size := len(m.MsgBuffer.buf)
	buf := m.MsgBuffer.buf
	parsed, err := m.ReadBytes(in)
	vrt.Assert("C01.input-unchanged", vrt.BytesEq(in, in0))
	vrt.Assert("C01.buffer-kept", vrt.SameSlice(m.MsgBuffer.buf, buf))
	vrt.Assert("C01.buffer-bounds", m.MsgBuffer.len >= 0 && m.MsgBuffer.len <= size)
	if len(in) == 0 {
		vrt.Cover("empty")
		vrt.Assert("C02.empty-not-determined", !parsed)
		specNoStale(m, buf[:0])
		return
	}
	if len(in) > size {
		vrt.Cover("overflow")
		vrt.Assert("C01.overflow-refused", err != nil && !parsed)
		specNoStale(m, buf[:0])
		return
	}
	specNoStale(m, buf[:len(in)])
	vrt.Assert("C01.buffer-holds-input", m.MsgBuffer.len == len(in) && vrt.BytesEq(buf[:len(in)], in0))
	specParsed(m, in0, parsed, err)
}
