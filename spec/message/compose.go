package message

// Contracts of the composers: C03 (exact frame or nothing), C05 (writer discipline), C04 (round trip).

import (
	"errors"
	"time"

	pld "github.com/qbeon/webwire-go/payload"
	"github.com/qbeon/webwire-go/vrt"
)

var errSpecWriter = errors.New("spec: writer failure")

// specWriter is the environment of a composer: any write and the close may fail.
type specWriter struct {
	out    []byte // bytes accepted so far
	writes int
	closes int
	late   bool // written to after close
	failed bool
	works  bool // never fails
}

func (w *specWriter) Write(p []byte) (int, error) {
	w.writes++
	if w.closes > 0 {
		w.late = true
	}
	if !w.works && vrt.Bool("write-fails") {
		w.failed = true
		n := vrt.Int("written", 0, len(p))
		w.out = append(w.out, p[:n]...)
		return n, errSpecWriter
	}
	w.out = append(w.out, p...)
	return len(p), nil
}

func (w *specWriter) Close() error {
	w.closes++
	if !w.works && vrt.Bool("close-fails") {
		w.failed = true
		return errSpecWriter
	}
	return nil
}

func spPrintable(b []byte) bool {
	return vrt.Forall(0, len(b), func(i int) bool { return b[i] >= 32 && b[i] <= 126 })
}

func specCat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

// specComposed states the outcome of a composer: frame is the documented frame, ok whether the arguments are allowed.
func specComposed(w *specWriter, err error, ok bool, frame []byte) {
	vrt.Assert("C05.closed-once", w.closes == 1)
	vrt.Assert("C05.no-write-after-close", !w.late)
	vrt.Assert("C05.failure-reported", !w.failed || err != nil)
	if !ok {
		vrt.Cover("refused")
		vrt.Assert("C03.forbidden-refused", err != nil)
		vrt.Assert("C03.forbidden-writes-nothing", w.writes == 0)
		return
	}
	if w.failed {
		vrt.Cover("writer-failed")
		vrt.Assert("C03.prefix-of-frame", len(w.out) <= len(frame) && vrt.BytesEq(w.out, frame[:len(w.out)]))
		return
	}
	vrt.Cover("composed")
	vrt.Assert("C03.allowed-succeeds", err == nil)
	vrt.Assert("C03.exact-frame", vrt.BytesEq(w.out, frame))
}

func specExpectAll(refusable bool) {
	vrt.Expect("composed")
	vrt.Expect("writer-failed")
	if refusable {
		vrt.Expect("refused")
	}
}

func specID() []byte {
	id := vrt.Bytes8("id")
	return id[:]
}

func specEnc() pld.Encoding { return pld.Encoding(vrt.Int("enc", 0, 2)) }

func specPad(enc pld.Encoding, name []byte) []byte {
	if enc == pld.Utf16 && len(name)%2 != 0 {
		return []byte{0}
	}
	return nil
}

func specType(enc pld.Encoding, binary byte) []byte { return []byte{binary + byte(enc)} }

func prove_C03_C05_WriteMsgReplyError() {
	specExpectAll(true)
	w := &specWriter{}
	id, code, text, safe := specID(), vrt.Bytes("code"), vrt.Bytes("message"), vrt.Bool("safe")
	err := WriteMsgReplyError(w, id, code, text, safe)
	ok := len(code) >= 1 && len(code) <= 255 && (!safe || spPrintable(code))
	specComposed(w, err, ok, specCat([]byte{0}, id, []byte{byte(len(code))}, code, text))
}

func prove_C03_C05_WriteMsgHeartbeat() {
	specExpectAll(false)
	w := &specWriter{}
	err := WriteMsgHeartbeat(w)
	specComposed(w, err, true, []byte{33})
}

func prove_C03_C05_WriteMsgNamelessRequest() {
	specExpectAll(false)
	w := &specWriter{}
	id := specID()
	if vrt.Bool("restore") {
		key := vrt.Bytes("key")
		err := WriteMsgNamelessRequest(w, MsgRequestRestoreSession, id, key)
		specComposed(w, err, true, specCat([]byte{32}, id, key))
	} else {
		err := WriteMsgNamelessRequest(w, MsgRequestCloseSession, id, nil)
		specComposed(w, err, true, specCat([]byte{31}, id))
	}
}

func prove_C03_C05_WriteMsgReply() {
	specExpectAll(true)
	w := &specWriter{}
	id, enc, data := specID(), specEnc(), vrt.Bytes("payload")
	err := WriteMsgReply(w, id, enc, data)
	if enc == pld.Utf16 {
		specComposed(w, err, len(data)%2 == 0, specCat([]byte{193}, id, []byte{0}, data))
	} else {
		specComposed(w, err, true, specCat(specType(enc, 191), id, data))
	}
}

func prove_C03_C05_WriteMsgRequest() {
	specExpectAll(true)
	w := &specWriter{}
	id, enc, name, data, safe := specID(), specEnc(), vrt.Bytes("name"), vrt.Bytes("payload"), vrt.Bool("safe")
	err := WriteMsgRequest(w, id, name, enc, data, safe)
	ok := len(name)+len(data) > 0 && len(name) <= 255 && (enc != pld.Utf16 || len(data)%2 == 0) && (!safe || spPrintable(name))
	specComposed(w, err, ok, specCat(specType(enc, 127), id, []byte{byte(len(name))}, name, specPad(enc, name), data))
}

func prove_C03_C05_WriteMsgSignal() {
	specExpectAll(true)
	w := &specWriter{}
	enc, name, data, safe := specEnc(), vrt.Bytes("name"), vrt.Bytes("payload"), vrt.Bool("safe")
	err := WriteMsgSignal(w, name, enc, data, safe)
	ok := len(name) <= 255 && (enc != pld.Utf16 || len(data)%2 == 0) && (!safe || spPrintable(name))
	specComposed(w, err, ok, specCat(specType(enc, 63), []byte{byte(len(name))}, name, specPad(enc, name), data))
}

func prove_C03_C05_WriteMsgNotifySessionClosed() {
	specExpectAll(false)
	w := &specWriter{}
	err := WriteMsgNotifySessionClosed(w)
	specComposed(w, err, true, []byte{22})
}

func prove_C03_C05_WriteMsgNotifySessionCreated() {
	specExpectAll(false)
	w := &specWriter{}
	info := vrt.Bytes("info")
	err := WriteMsgNotifySessionCreated(w, info)
	specComposed(w, err, true, specCat([]byte{21}, info))
}

func prove_C03_C05_WriteMsgSpecialRequestReply() {
	specExpectAll(true)
	w := &specWriter{}
	id, typ := specID(), vrt.Byte("type")
	err := WriteMsgSpecialRequestReply(w, typ, id)
	specComposed(w, err, typ >= 1 && typ <= 5, specCat([]byte{typ}, id))
}

func spLE32(n int, i int) byte {
	d := 1
	if i == 1 {
		d = 256
	} else if i == 2 {
		d = 65536
	} else if i == 3 {
		d = 16777216
	}
	return byte(n / d % 256)
}

func specConf() ServerConfiguration {
	return ServerConfiguration{
		MajorProtocolVersion: vrt.Byte("major"),
		MinorProtocolVersion: vrt.Byte("minor"),
		SubProtocolName:      vrt.Bytes("sub"),
		ReadTimeout:          vrt.Dur("timeout"),
		MessageBufferSize:    vrt.U32("size"),
	}
}

func prove_C03_C23_NewAcceptConfMessage() {
	vrt.Expect("composed")
	vrt.Expect("refused")
	c := specConf()
	buf, err := NewAcceptConfMessage(c)
	ms := int(c.ReadTimeout / time.Millisecond)
	if ms < 0 || ms > 4294967295 {
		vrt.Cover("refused")
		vrt.Assert("C03.forbidden-refused", err != nil)
		vrt.Assert("C23.unfit-timeout-refused", err != nil)
		return
	}
	vrt.Cover("composed")
	size := int(c.MessageBufferSize)
	vrt.Assert("C03.allowed-succeeds", err == nil)
	frame := specCat([]byte{23, c.MajorProtocolVersion, c.MinorProtocolVersion,
		spLE32(ms, 0), spLE32(ms, 1), spLE32(ms, 2), spLE32(ms, 3),
		spLE32(size, 0), spLE32(size, 1), spLE32(size, 2), spLE32(size, 3)}, c.SubProtocolName)
	vrt.Assert("C03.exact-frame", vrt.BytesEq(buf, frame))
	vrt.Assert("C23.configuration-frame", vrt.BytesEq(buf, frame))
}

// ---- C04: compose, then parse ----

// specRoundTrip parses composed bytes with the real parser into a message of sufficient size.
func specRoundTrip(w *specWriter, err error) (m *Message) {
	vrt.Assert("C04.composed", err == nil)
	m = specAnyMessage()
	vrt.Assume(len(m.MsgBuffer.buf) >= len(w.out))
	parsed, perr := m.ReadBytes(w.out)
	vrt.Cover("parsed-back")
	vrt.Assert("C04.parses-back", parsed && perr == nil)
	return m
}

func specBack(m *Message, typ byte, id, name, data []byte) {
	vrt.Assert("C04.same-type", m.MsgType == typ)
	if id != nil {
		vrt.Assert("C04.same-identifier", m.MsgIdentifier == [8]byte{id[0], id[1], id[2], id[3], id[4], id[5], id[6], id[7]})
		vrt.Assert("C04.same-identifier-bytes", vrt.BytesEq(m.MsgIdentifierBytes, id))
	}
	vrt.Assert("C04.same-name", vrt.BytesEq(m.MsgName, name))
	vrt.Assert("C04.same-payload", vrt.BytesEq(m.MsgPayload.Data, data))
}

func prove_C04_RequestRoundTrip() {
	vrt.Expect("parsed-back")
	w := &specWriter{works: true}
	id, enc, name, data := specID(), specEnc(), vrt.Bytes("name"), vrt.Bytes("payload")
	vrt.Assume(len(name)+len(data) > 0 && len(name) <= 255 && (enc != pld.Utf16 || len(data)%2 == 0))
	m := specRoundTrip(w, WriteMsgRequest(w, id, name, enc, data, false))
	specBack(m, 127+byte(enc), id, name, data)
	vrt.Assert("C04.same-encoding", m.MsgPayload.Encoding == enc)
}

func prove_C04_SignalRoundTrip() {
	vrt.Expect("parsed-back")
	w := &specWriter{works: true}
	enc, name, data := specEnc(), vrt.Bytes("name"), vrt.Bytes("payload")
	vrt.Assume(len(name)+len(data) > 0 && len(name) <= 255 && (enc != pld.Utf16 || len(data)%2 == 0))
	m := specRoundTrip(w, WriteMsgSignal(w, name, enc, data, false))
	specBack(m, 63+byte(enc), nil, name, data)
	vrt.Assert("C04.same-encoding", m.MsgPayload.Encoding == enc)
}

func prove_C04_ReplyRoundTrip() {
	vrt.Expect("parsed-back")
	w := &specWriter{works: true}
	id, enc, data := specID(), specEnc(), vrt.Bytes("payload")
	vrt.Assume(enc != pld.Utf16 || len(data)%2 == 0)
	m := specRoundTrip(w, WriteMsgReply(w, id, enc, data))
	specBack(m, 191+byte(enc), id, nil, data)
	vrt.Assert("C04.same-encoding", m.MsgPayload.Encoding == enc)
}

func prove_C04_ErrorReplyRoundTrip() {
	vrt.Expect("parsed-back")
	w := &specWriter{works: true}
	id, code, text := specID(), vrt.Bytes("code"), vrt.Bytes("message")
	vrt.Assume(len(code) >= 1 && len(code) <= 255)
	m := specRoundTrip(w, WriteMsgReplyError(w, id, code, text, false))
	specBack(m, 0, id, code, text)
}

func prove_C04_SpecialReplyRoundTrip() {
	vrt.Expect("parsed-back")
	w := &specWriter{works: true}
	id, typ := specID(), vrt.Byte("type")
	vrt.Assume(typ >= 1 && typ <= 5)
	m := specRoundTrip(w, WriteMsgSpecialRequestReply(w, typ, id))
	specBack(m, typ, id, nil, nil)
}

func prove_C04_NamelessRequestRoundTrip() {
	vrt.Expect("parsed-back")
	w := &specWriter{works: true}
	id := specID()
	if vrt.Bool("restore") {
		key := vrt.Bytes("key")
		vrt.Assume(len(key) > 0)
		m := specRoundTrip(w, WriteMsgNamelessRequest(w, MsgRequestRestoreSession, id, key))
		specBack(m, 32, id, nil, key)
	} else {
		m := specRoundTrip(w, WriteMsgNamelessRequest(w, MsgRequestCloseSession, id, nil))
		specBack(m, 31, id, nil, nil)
	}
}

func prove_C04_PushesRoundTrip() {
	vrt.Expect("parsed-back")
	w := &specWriter{works: true}
	switch vrt.Int("kind", 0, 2) {
	case 0:
		m := specRoundTrip(w, WriteMsgHeartbeat(w))
		specBack(m, 33, nil, nil, nil)
	case 1:
		m := specRoundTrip(w, WriteMsgNotifySessionClosed(w))
		specBack(m, 22, nil, nil, nil)
	default:
		info := vrt.Bytes("info")
		vrt.Assume(len(info) > 0)
		m := specRoundTrip(w, WriteMsgNotifySessionCreated(w, info))
		specBack(m, 21, nil, nil, info)
	}
}

func prove_C04_AcceptConfRoundTrip() {
	vrt.Expect("parsed-back")
	c := specConf()
	buf, err := NewAcceptConfMessage(c)
	if err != nil {
		return
	}
	m := specAnyMessage()
	vrt.Assume(len(m.MsgBuffer.buf) >= len(buf))
	parsed, perr := m.ReadBytes(buf)
	vrt.Cover("parsed-back")
	vrt.Assert("C04.parses-back", parsed && perr == nil)
	d := m.ServerConfiguration
	vrt.Assert("C04.same-type", m.MsgType == 23)
	vrt.Assert("C04.same-version", d.MajorProtocolVersion == c.MajorProtocolVersion && d.MinorProtocolVersion == c.MinorProtocolVersion)
	vrt.Assert("C04.same-timeout", d.ReadTimeout == c.ReadTimeout/time.Millisecond*time.Millisecond)
	vrt.Assert("C04.same-buffer-size", d.MessageBufferSize == c.MessageBufferSize)
	vrt.Assert("C04.same-sub-protocol", vrt.BytesEq(d.SubProtocolName, c.SubProtocolName))
}

func prove_C06_CalcMsgLen() {
	w := &specWriter{works: true}
	enc, name, data := specEnc(), vrt.Bytes("name"), vrt.Bytes("payload")
	vrt.Assume(len(name) <= 255 && (enc != pld.Utf16 || len(data)%2 == 0))
	if vrt.Bool("signal") {
		vrt.Cover("signal")
		err := WriteMsgSignal(w, name, enc, data, false)
		vrt.Assert("C06.signal-size-exact", err == nil && CalcMsgLenSignal(name, enc, data) == len(w.out))
	} else if len(name)+len(data) > 0 {
		vrt.Cover("request")
		err := WriteMsgRequest(w, specID(), name, enc, data, false)
		vrt.Assert("C06.request-size-exact", err == nil && CalcMsgLenRequest(name, enc, data) == len(w.out))
	}
}
