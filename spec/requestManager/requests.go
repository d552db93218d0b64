package requestmanager

// Contracts of the pending request table (C10) and of awaiting a reply (C28).

import (
	"context"
	"errors"
	"time"

	"github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
	"github.com/qbeon/webwire-go/vrt"
)

// ---- the lock of the pending table ----
//
// The right to put the one value into a request's reply channel belongs to the table: a request in
// the table was not resolved yet. Who takes it out of the table owns that right.

const vguard_RequestManager_lock = "pending map:map[[8]byte]*ww/requestManager.Request state:chan#n"
const vprop_RequestManager_lock = "C10"

func vinv_RequestManager_lock(m *RequestManager) bool {
	return m.pending != nil && vrt.ForallKeys(m.pending, m.pending, func(k [8]byte) bool {
		r, ok := m.pending[k]
		return !ok || r != nil && r.Reply != nil && vrt.ChanCap(r.Reply) == 1 && vrt.ChanLen(r.Reply) == 0 && !vrt.ChanClosed(r.Reply) &&
			r.Identifier == k
	})
}

// others do not replace a pending request: identifiers are unique (C10.identifiers-distinct)
func vstep_RequestManager_lock(old, m *RequestManager) bool {
	return vrt.ForallKeys(old.pending, m.pending, func(k [8]byte) bool {
		a, ok1 := old.pending[k]
		b, ok2 := m.pending[k]
		return !ok1 || !ok2 || a == b
	})
}

// others resolve only requests they took out of the table (every Request has its own channel)
func vstable_RequestManager_lock(old, m *RequestManager) bool {
	return vrt.ForallRefs(func(r *Request) bool {
		p, ok := old.pending[r.Identifier]
		return ok && p == r || vrt.ChanLen(vrt.Old(old, r).Reply) == vrt.ChanLen(r.Reply)
	})
}

// identifiers only grow; the environment is assumed to create fewer than 2^63 requests
func vatomic_RequestManager_lastID(prev, next uint64) bool { return next >= prev || prev >= 1<<63 }
func vatrely_RequestManager_lastID(prev, next uint64) bool { return next >= prev && next < 1<<63 }

const vprop_RequestManager_lastID = "C10"

func specManager() *RequestManager {
	m := NewRequestManager()
	return &m
}

var specErrFail = errors.New("spec: failure of a request")

// specCtx is a context that ended or not, for one of the reasons.
type specCtx struct {
	done chan struct{}
	err  error
}

func (c *specCtx) Deadline() (time.Time, bool)       { return time.Time{}, false }
func (c *specCtx) Done() <-chan struct{}             { return c.done }
func (c *specCtx) Err() error                        { return c.err }
func (c *specCtx) Value(key interface{}) interface{} { return nil }

func specIdent(r *Request) bool {
	b := r.IdentifierBytes
	return len(b) == 8 && r.Identifier == [8]byte{b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]}
}

// prove_C10_Sequence: a manager with pending requests, resolved in any order.
func prove_C10_Sequence() {
	m := specManager()
	m.lastID = vrt.U64("lastID")
	vrt.Assume(m.lastID < 1<<64-4)
	vrt.Assert("C10.none-pending", m.PendingRequests() == 0)
	a := m.Create()
	b := m.Create()
	vrt.Assert("C10.identifiers-distinct", a.Identifier != b.Identifier)
	vrt.Assert("C10.identifier-bytes", specIdent(a) && specIdent(b))
	vrt.Assert("C10.created-are-pending", m.IsPending(a.Identifier) && m.IsPending(b.Identifier) && m.PendingRequests() == 2)
	other := vrt.Bytes8("other")
	if other != a.Identifier && other != b.Identifier {
		vrt.Assert("C10.unknown-not-pending", !m.IsPending(other))
		vrt.Assert("C10.unknown-not-resolved", !m.Fail(other, specErrFail) && !m.Fulfill(&message.Message{MsgIdentifier: other}))
		vrt.Assert("C10.unknown-has-no-effect", m.PendingRequests() == 2 && vrt.ChanLen(a.Reply) == 0 && vrt.ChanLen(b.Reply) == 0)
	}
	first, second := a, b
	if vrt.Bool("swap") {
		first, second = b, a
	}
	p := pld.Payload{Encoding: pld.Encoding(vrt.Int("enc", 0, 2)), Data: vrt.Bytes("payload")}
	msg := &message.Message{MsgIdentifier: first.Identifier, MsgPayload: p}
	fulfil := vrt.Bool("fulfil")
	if fulfil {
		vrt.Assert("C10.pending-resolved", m.Fulfill(msg))
	} else {
		vrt.Assert("C10.pending-resolved", m.Fail(first.Identifier, specErrFail))
	}
	vrt.Assert("C10.resolved-not-pending", !m.IsPending(first.Identifier) && m.IsPending(second.Identifier) && m.PendingRequests() == 1)
	// a second resolution reports that nothing was pending, and changes nothing
	late := &message.Message{MsgIdentifier: first.Identifier}
	if vrt.Bool("late") {
		vrt.Assert("C10.second-resolution-refused", !m.Fulfill(late))
	} else {
		vrt.Assert("C10.second-resolution-refused", !m.Fail(first.Identifier, errors.New("late")))
	}
	vrt.Assert("C10.one-resolution-delivered", vrt.ChanLen(first.Reply) == 1 && vrt.ChanLen(second.Reply) == 0)
	r, err := first.AwaitReply(context.Background())
	if fulfil {
		vrt.Assert("C10.first-reply-delivered", err == nil && r != nil)
		if err == nil && r != nil {
			vrt.Assert("C10.reply-of-first-resolver", r.PayloadEncoding() == p.Encoding && vrt.SameSlice(r.Payload(), p.Data))
		}
	} else {
		vrt.Assert("C10.first-error-delivered", err == specErrFail && r == nil)
	}
}

// prove_C10_FulfilConcurrent: others create, resolve and deregister at any time.
func prove_C10_FulfilConcurrent() {
	vrt.Expect("resolved")
	vrt.Expect("lost")
	vrt.BlockProp("C10")
	m := specManager()
	m.lastID = vrt.U64("lastID")
	vrt.Assume(m.lastID < 1<<63)
	vrt.Share(m)
	r := m.Create()
	vrt.Assert("C10.identifier-bytes", specIdent(r))
	sent := vrt.Sent()
	msg := &message.Message{MsgIdentifier: r.Identifier}
	var ok bool
	if vrt.Bool("fulfil") {
		ok = m.Fulfill(msg)
	} else {
		ok = m.Fail(r.Identifier, specErrFail)
	}
	if ok {
		vrt.Cover("resolved")
		vrt.Assert("C10.reported-resolution-delivered", vrt.Sent() == sent+1 && vrt.ChanLen(r.Reply) == 1)
	} else {
		vrt.Cover("lost")
		vrt.Assert("C10.lost-resolution-delivers-nothing", vrt.Sent() == sent)
	}
}

// prove_C10_AnyIdentConcurrent: a resolution of an arbitrary identifier never blocks.
func prove_C10_AnyIdentConcurrent() {
	vrt.Expect("resolved")
	vrt.Expect("lost")
	vrt.BlockProp("C10")
	m := specManager()
	vrt.Share(m)
	id := vrt.Bytes8("id")
	var ok bool
	if vrt.Bool("fulfil") {
		ok = m.Fulfill(&message.Message{MsgIdentifier: id})
	} else {
		ok = m.Fail(id, specErrFail)
	}
	if ok {
		vrt.Cover("resolved")
		vrt.Assert("C10.one-delivery", vrt.Sent() == 1)
	} else {
		vrt.Cover("lost")
		vrt.Assert("C10.no-delivery", vrt.Sent() == 0)
	}
	m.IsPending(id)
	vrt.Assert("C10.count-not-negative", m.PendingRequests() >= 0)
}

func prove_C10_CreateConcurrent() {
	m := specManager()
	m.lastID = vrt.U64("lastID")
	vrt.Assume(m.lastID < 1<<62)
	vrt.Share(m)
	a := m.Create()
	b := m.Create()
	vrt.Assert("C10.identifiers-distinct", a.Identifier != b.Identifier)
	vrt.Assert("C10.channels-distinct", a.Reply != b.Reply)
}

// prove_C28_AwaitReply: the outcome of waiting.
func prove_C28_AwaitReply() {
	vrt.Expect("reply")
	vrt.Expect("failure")
	vrt.Expect("deadline")
	vrt.Expect("canceled")
	vrt.BlockProp("C28")
	m := specManager()
	r := m.Create()
	other := m.Create()
	p := pld.Payload{Encoding: pld.Encoding(vrt.Int("enc", 0, 2)), Data: vrt.Bytes("payload")}
	resolved := vrt.Int("resolved", 0, 2)
	reason := vrt.Int("ctx", 0, 3)
	vrt.Assume(resolved > 0 || reason > 0)
	ctx := &specCtx{done: make(chan struct{})}
	switch reason {
	case 1:
		ctx.err = context.DeadlineExceeded
	case 2:
		ctx.err = context.Canceled
	case 3:
		ctx.err = errors.New("spec: other reason")
	}
	if reason > 0 {
		close(ctx.done)
	}
	switch resolved {
	case 1:
		m.Fulfill(&message.Message{MsgIdentifier: r.Identifier, MsgPayload: p})
	case 2:
		m.Fail(r.Identifier, specErrFail)
	}
	rep, err := r.AwaitReply(ctx)
	switch {
	case err == nil:
		vrt.Cover("reply")
		vrt.Assert("C28.reply-delivered", resolved == 1 && rep != nil && rep.PayloadEncoding() == p.Encoding && vrt.SameSlice(rep.Payload(), p.Data))
	case err == specErrFail:
		vrt.Cover("failure")
		vrt.Assert("C28.failure-delivered", resolved == 2 && rep == nil)
	default:
		vrt.Assert("C28.context-end", reason > 0 && rep == nil)
		if reason == 1 {
			vrt.Cover("deadline")
			vrt.Assert("C28.deadline-exceeded", vrt.IsType[webwire.ErrDeadlineExceeded](err))
		} else if reason == 2 {
			vrt.Cover("canceled")
			vrt.Assert("C28.canceled", vrt.IsType[webwire.ErrCanceled](err))
		}
		vrt.Assert("C28.timeout-predicate", webwire.IsErrTimeout(err) == (reason == 1))
		vrt.Assert("C28.canceled-predicate", webwire.IsErrCanceled(err) == (reason == 2))
	}
	vrt.Assert("C28.no-longer-pending", !m.IsPending(r.Identifier) && m.PendingRequests() == 1)
	vrt.Assert("C28.others-stay-pending", m.IsPending(other.Identifier))
}

func prove_C28_Predicates() {
	var err error
	k := vrt.Int("kind", 0, 5)
	switch k {
	case 0:
		err = webwire.ErrTimeout{}
	case 1:
		err = webwire.ErrDeadlineExceeded{}
	case 2:
		err = webwire.ErrCanceled{}
	case 3:
		err = errors.New("spec: other")
	case 4:
		err = webwire.ErrDialTimeout{}
	}
	vrt.Assert("C28.timeout-predicate", webwire.IsErrTimeout(err) == (k == 0 || k == 1))
	vrt.Assert("C28.canceled-predicate", webwire.IsErrCanceled(err) == (k == 2))
	d := webwire.TranslateContextError(context.DeadlineExceeded)
	c := webwire.TranslateContextError(context.Canceled)
	vrt.Assert("C28.translation", webwire.IsErrTimeout(d) && !webwire.IsErrCanceled(d) && webwire.IsErrCanceled(c) && !webwire.IsErrTimeout(c))
	vrt.Assert("C28.translation-types", vrt.IsType[webwire.ErrDeadlineExceeded](d) && vrt.IsType[webwire.ErrCanceled](c))
}
