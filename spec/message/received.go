package message

// SpecReceived is a message read into a recycled buffer. Once released, another message is read
// into it: whoever still uses it finds that one.
func SpecReceived(frame, next []byte, released func()) *Message {
	m := &Message{MsgBuffer: Buffer{buf: frame, len: len(frame)}}
	m.onClose = func() {
		released()
		copy(frame, next)
		m.MsgBuffer.len = len(frame)
		m.MsgType = 77
		m.MsgName = frame
	}
	return m
}

// SpecUntouched: the message that was read into the buffer of a released one is as it was.
func SpecUntouched(m *Message, frame []byte) bool {
	return m.MsgType == 77 && m.MsgBuffer.len == len(frame) && len(m.MsgName) == len(frame)
}
