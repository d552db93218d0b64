package message

// Contracts of Message.Read (C07): independence of the chunking of the stream.

import (
	"errors"
	"io"

	"github.com/qbeon/webwire-go/vrt"
)

var specErrRead = errors.New("spec: read failure")

// specStream is any reader of the given contents: it splits them arbitrarily, may return no bytes,
// may report the end together with the last bytes or alone, and may fail at any point if faulty.
type specStream struct {
	data   []byte
	pos    int
	faulty bool
	failed bool
	ended  bool
}

func (r *specStream) Read(p []byte) (int, error) {
	rest := len(r.data) - r.pos
	max := len(p)
	if rest < max {
		max = rest
	}
	n := vrt.Int("chunk", 0, max)
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == len(r.data) && vrt.Bool("end") {
		r.ended = true
		return n, io.EOF
	}
	if r.faulty && vrt.Bool("fail") {
		r.failed = true
		return n, specErrRead
	}
	return n, nil
}

func prove_C07_C01_Read() {
	vrt.Expect("complete")
	vrt.Expect("overflow")
	vrt.Expect("failed")
	m := specAnyMessage()
	data := vrt.Bytes("stream")
	data0 := vrt.Snap(data)
	r := &specStream{data: data, faulty: vrt.Bool("faulty")}
	buf := m.MsgBuffer.buf
	size := len(buf)
	parsed, err := m.Read(r)
	vrt.Assert("C07.buffer-kept", vrt.SameSlice(m.MsgBuffer.buf, buf))
	vrt.Assert("C01.buffer-bounds", m.MsgBuffer.len >= 0 && m.MsgBuffer.len <= size)
	if len(data) > size {
		vrt.Cover("overflow")
		vrt.Assert("C07.overflow-refused", err != nil && !parsed)
		vrt.Assert("C07.overflow-leaves-empty", m.MsgBuffer.len == 0)
		specNoStale(m, buf[:0])
		return
	}
	if r.failed {
		vrt.Cover("failed")
		vrt.Assert("C07.reader-error-returned", err == specErrRead && !parsed)
		vrt.Assert("C07.error-leaves-empty", m.MsgBuffer.len == 0)
		specNoStale(m, buf[:0])
		return
	}
	vrt.Cover("complete")
	vrt.Assert("C07.read-to-the-end", r.ended && r.pos == len(data))
	vrt.Assert("C07.length", m.MsgBuffer.len == len(data))
	vrt.Assert("C07.contents", vrt.BytesEq(buf[:len(data)], data0))
	if len(data) > 0 {
		f := specDecode(data0)
		vrt.Assert("C07.accepted-as-whole", (err == nil) == (f.known && f.ok) && parsed == f.known)
		specNoStale(m, buf[:len(data)])
	} else {
		specNoStale(m, buf[:0])
	}
}

// What users of the package rely on when they read a message from bytes (C24): the message holds all of
// it, in memory of its own, or is refused.
func contract_C24_ReadBytes(msg *Message, b []byte) (typeParsed bool, err error) {
	vrt.Requires(msg != nil && len(msg.MsgBuffer.buf) > 0)
	buf := msg.MsgBuffer.buf
	vrt.Modifies(msg, buf)
	fits := len(b) <= len(buf)
	in := append([]byte{}, b...)
	typeParsed, err = msg.ReadBytes(b)
	vrt.Ensures("C24.read-keeps-buffer", vrt.SameSlice(msg.MsgBuffer.buf, buf))
	vrt.Ensures("C24.read-holds-all", !fits || msg.MsgBuffer.len == len(in) && vrt.BytesEq(buf[:len(in)], in))
	vrt.Ensures("C24.read-refuses-too-big", fits || !typeParsed)
	return
}

var _ = vrt.Boundary((*Message).ReadBytes, contract_C24_ReadBytes)
