package message

// Contracts of the message life cycle (C09).

import (
	pld "github.com/qbeon/webwire-go/payload"
	"github.com/qbeon/webwire-go/vrt"
)

func specPanics(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return
}

// specCleared: nothing of the message is left.
func specCleared(m *Message) bool {
	c := m.ServerConfiguration
	return m.MsgBuffer.len == 0 && m.MsgType == 0 && m.MsgIdentifier == [8]byte{} && specZeros(m.MsgIdentifierBytes) &&
		len(m.MsgName) == 0 && m.MsgPayload.Encoding == pld.Binary && len(m.MsgPayload.Data) == 0 &&
		c.MajorProtocolVersion == 0 && c.MinorProtocolVersion == 0 && c.ReadTimeout == 0 && c.MessageBufferSize == 0 && len(c.SubProtocolName) == 0
}

func prove_C09_Close() {
	vrt.Expect("open")
	vrt.Expect("closed before")
	m := specAnyMessage()
	had := m.MsgBuffer.len > 0
	buf := m.MsgBuffer.buf
	typ, payload := m.MsgType, m.MsgPayload.Data
	closed := 0
	cleared := false
	m.onClose = func() {
		closed++
		cleared = specCleared(m)
		// the next user of the recycled message
		m.MsgBuffer.len = 0
		m.MsgType = 77
		m.MsgName = buf
	}
	m.Close()
	if !had {
		vrt.Cover("closed before")
		vrt.Assert("C09.closed-again-does-nothing", closed == 0 && m.MsgType == typ && vrt.SameSlice(m.MsgPayload.Data, payload))
		return
	}
	vrt.Cover("open")
	vrt.Assert("C09.handed-back-exactly-once", closed == 1)
	vrt.Assert("C09.cleared-when-handed-back", cleared)
	vrt.Assert("C09.not-touched-after-hand-back", m.MsgType == 77 && vrt.SameSlice(m.MsgName, buf))
	vrt.Assert("C09.buffer-kept", vrt.SameSlice(m.MsgBuffer.buf, buf) && m.MsgBuffer.len == 0)
	m.Close()
	vrt.Assert("C09.second-close-does-nothing", closed == 1 && m.MsgType == 77)
}

func prove_C09_CloseWithoutPool() {
	vrt.Expect("open")
	size := vrt.U32("size")
	vrt.Assume(size >= 1 && size < 1<<20)
	m := NewMessage(size)
	vrt.Assert("C09.new-message-empty", specCleared(m) && len(m.MsgBuffer.buf) == int(size))
	in := vrt.Bytes("input")
	m.ReadBytes(in)
	if m.MsgBuffer.len > 0 {
		vrt.Cover("open")
	}
	m.Close()
	vrt.Assert("C09.cleared", specCleared(m))
	m.Close()
	vrt.Assert("C09.cleared", specCleared(m))
}

func prove_C09_Accessors() {
	vrt.Expect("open")
	vrt.Expect("closed")
	m := specAnyMessage()
	m.onClose = func() {}
	m.MsgPayload.Encoding = pld.Binary
	name, payload, id := m.MsgName, m.MsgPayload.Data, m.MsgIdentifier
	if vrt.Bool("close") {
		m.Close()
	}
	empty := m.MsgBuffer.len == 0
	pName := specPanics(func() {
		vrt.Assert("C09.name", vrt.SameSlice(m.Name(), name))
	})
	pPayload := specPanics(func() {
		vrt.Assert("C09.payload", vrt.SameSlice(m.Payload(), payload))
	})
	pUtf8 := specPanics(func() {
		b, err := m.PayloadUtf8()
		vrt.Assert("C09.payload-utf8", err == nil && vrt.SameSlice(b, payload))
	})
	pEnc := specPanics(func() {
		vrt.Assert("C09.encoding", m.PayloadEncoding() == pld.Binary)
	})
	pId := specPanics(func() {
		vrt.Assert("C09.identifier", m.Identifier() == id)
	})
	if empty {
		vrt.Cover("closed")
		vrt.Assert("C09.closed-name-refused", pName)
		vrt.Assert("C09.closed-payload-refused", pPayload && pUtf8)
		vrt.Assert("C09.closed-encoding-refused", pEnc)
		vrt.Assert("C09.closed-identifier-refused", pId)
	} else {
		vrt.Cover("open")
		vrt.Assert("C09.open-readable", !pName && !pPayload && !pUtf8 && !pEnc && !pId)
	}
}

func prove_C09_RequiresReply() {
	m := specAnyMessage()
	t := m.MsgType
	vrt.Assert("C09.requires-reply", m.RequiresReply() == (t == MsgRequestCloseSession || t == MsgRequestRestoreSession ||
		t == MsgRequestBinary || t == MsgRequestUtf8 || t == MsgRequestUtf16))
	vrt.Assert("C09.request-types", MsgRequestCloseSession == 31 && MsgRequestRestoreSession == 32 && MsgRequestBinary == 127 &&
		MsgRequestUtf8 == 128 && MsgRequestUtf16 == 129)
}

func prove_C09_Pool() {
	vrt.Expect("used")
	size := vrt.U32("size")
	vrt.Assume(size >= 1 && size < 1<<20)
	p := NewSyncPool(size, vrt.U32("prealloc"))
	m := p.Get()
	vrt.Assert("C09.pool-message-usable", m != nil && m.MsgBuffer.len == 0 && len(m.MsgBuffer.buf) == int(size))
	m.ReadBytes(vrt.Bytes("input"))
	used := m.MsgBuffer.len > 0
	m.Close()
	m.Close()
	vrt.Assert("C09.cleared", specCleared(m))
	if used {
		vrt.Cover("used")
		vrt.Assert("C09.put-exactly-once", vrt.PoolPuts() == 1 && vrt.PoolLast(m))
	} else {
		vrt.Assert("C09.put-at-most-once", vrt.PoolPuts() <= 1)
	}
}

func prove_C08_C09_PayloadUtf8() {
	vrt.Expect("converted")
	vrt.Expect("odd")
	vrt.Expect("passed through")
	vrt.Expect("closed")
	m := specAnyMessage()
	m.MsgPayload.Encoding = pld.Encoding(vrt.Int("encoding", -1, 4))
	m.MsgPayload.Data = vrt.Bytes("payload")
	d, enc := m.MsgPayload.Data, m.MsgPayload.Encoding
	d0 := vrt.Snap(d)
	n := len(d)
	text := vrt.Scan(n, func(i int) vrt.ScanStep { return vrt.Utf16Step(d0, n, i) })
	if m.MsgBuffer.len == 0 {
		vrt.Cover("closed")
		vrt.Assert("C09.read-after-close-refused", specPanics(func() { m.PayloadUtf8() }))
		return
	}
	r, err := m.PayloadUtf8()
	vrt.Assert("C08.payload-unchanged", m.MsgPayload.Encoding == enc && vrt.SameSlice(m.MsgPayload.Data, d) && vrt.BytesEq(d, d0))
	switch {
	case enc != pld.Utf16:
		vrt.Cover("passed through")
		vrt.Assert("C08.passed-through", err == nil && vrt.BytesEq(r, d0))
	case n%2 != 0:
		vrt.Cover("odd")
		vrt.Assert("C08.odd-length-refused", err != nil)
	default:
		vrt.Cover("converted")
		vrt.Assert("C08.text", err == nil && vrt.ScanIs(text, r))
	}
}
