package vsched

import (
	"iter"
	"unsafe"
)

type sel struct {
	fired bool
	idx   int
	val   any
	ok    bool
	// a sender woken up because the channel was closed has to panic
	closed bool
}

type waiter struct {
	s   *sel
	idx int
	val any
}

type chanState struct {
	keep   any
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	sent   vclock
	recvd  vclock
}

func ptrOf[T any](ch chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

// chanOf returns the shadow of a channel. The content a channel already has
// when it is first used in an execution is taken over.
func (e *Exec) chanOf(p uintptr, capacity int, keep any, drain func(*chanState)) *chanState {
	cs := e.chans[p]
	if cs == nil {
		cs = &chanState{keep: keep, cap: capacity}
		e.chans[p] = cs
		if drain != nil {
			drain(cs)
		}
	}
	return cs
}

func stateR[T any](e *Exec, ch <-chan T) *chanState {
	p := *(*uintptr)(unsafe.Pointer(&ch))
	return e.chanOf(p, cap(ch), ch, func(cs *chanState) {
		for {
			select {
			case v, ok := <-ch:
				if !ok {
					cs.closed = true
					return
				}
				cs.buf = append(cs.buf, v)
				continue
			default:
			}
			return
		}
	})
}

func stateS[T any](e *Exec, ch chan<- T) *chanState {
	p := *(*uintptr)(unsafe.Pointer(&ch))
	bi := *(*chan T)(unsafe.Pointer(&ch))
	if cs := e.chans[p]; cs != nil {
		return cs
	}
	return stateR[T](e, bi)
}

func (cs *chanState) popRecv() *waiter {
	for len(cs.recvq) > 0 {
		w := cs.recvq[0]
		cs.recvq = cs.recvq[1:]
		if !w.s.fired {
			return w
		}
	}
	return nil
}

func (cs *chanState) popSend() *waiter {
	for len(cs.sendq) > 0 {
		w := cs.sendq[0]
		cs.sendq = cs.sendq[1:]
		if !w.s.fired {
			return w
		}
	}
	return nil
}

func hasLive(q []*waiter) bool {
	for _, w := range q {
		if !w.s.fired {
			return true
		}
	}
	return false
}

func (cs *chanState) canSend() bool {
	return cs.closed || hasLive(cs.recvq) || len(cs.buf) < cs.cap
}

func (cs *chanState) canRecv() bool {
	return len(cs.buf) > 0 || hasLive(cs.sendq) || cs.closed
}

func (cs *chanState) trySend(v any) bool {
	if cs.closed {
		panic("send on closed channel")
	}
	if w := cs.popRecv(); w != nil {
		w.s.fired, w.s.idx, w.s.val, w.s.ok = true, w.idx, v, true
		return true
	}
	if len(cs.buf) < cs.cap {
		cs.buf = append(cs.buf, v)
		return true
	}
	return false
}

func (cs *chanState) tryRecv() (v any, ok, done bool) {
	if len(cs.buf) > 0 {
		v = cs.buf[0]
		cs.buf = cs.buf[1:]
		if w := cs.popSend(); w != nil {
			cs.buf = append(cs.buf, w.val)
			w.s.fired, w.s.idx = true, w.idx
		}
		return v, true, true
	}
	if w := cs.popSend(); w != nil {
		w.s.fired, w.s.idx = true, w.idx
		return w.val, true, true
	}
	if cs.closed {
		return nil, false, true
	}
	return nil, false, false
}

func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		e := active()
		if e == nil {
			ch <- v
			return
		}
		if e.ending {
			goexit()
		}
		e.point("send")
		if ch == nil {
			e.block("send on nil channel", func() bool { return false })
		}
		cs := stateS(e, ch)
		e.release(&cs.sent)
		if cs.trySend(v) {
			e.acquire(cs.recvd)
			return
		}
		s := &sel{}
		cs.sendq = append(cs.sendq, &waiter{s: s, val: v})
		e.block("channel send", func() bool { return s.fired })
		e.acquire(cs.recvd)
		if s.closed {
			panic("send on closed channel")
		}
	}
}

func Recv2[T any](ch <-chan T) (T, bool) {
	e := active()
	if e == nil {
		v, ok := <-ch
		return v, ok
	}
	if e.ending {
		goexit()
	}
	e.point("recv")
	var zero T
	if ch == nil {
		e.block("receive from nil channel", func() bool { return false })
	}
	cs := stateR(e, ch)
	e.release(&cs.recvd)
	v, ok, done := cs.tryRecv()
	if !done {
		s := &sel{}
		cs.recvq = append(cs.recvq, &waiter{s: s})
		e.block("channel receive", func() bool { return s.fired })
		v, ok = s.val, s.ok
	}
	e.acquire(cs.sent)
	if v == nil {
		return zero, ok
	}
	return v.(T), ok
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Close[T any](ch chan<- T) {
	e := active()
	if e == nil {
		close(ch)
		return
	}
	if e.ending {
		return
	}
	e.point("close")
	if ch == nil {
		panic("close of nil channel")
	}
	cs := stateS(e, ch)
	if cs.closed {
		panic("close of closed channel")
	}
	cs.closed = true
	e.release(&cs.sent)
	for {
		w := cs.popRecv()
		if w == nil {
			break
		}
		w.s.fired, w.s.idx, w.s.val, w.s.ok = true, w.idx, nil, false
	}
	for {
		w := cs.popSend()
		if w == nil {
			break
		}
		w.s.fired, w.s.idx, w.s.closed = true, w.idx, true
	}
}

func Len[T any](ch <-chan T) int {
	e := active()
	if e == nil {
		return len(ch)
	}
	if ch == nil {
		return 0
	}
	return len(stateR(e, ch).buf)
}

func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok {
				return
			}
			if !yield(v) {
				return
			}
		}
	}
}

// Case is one case of a select statement.
type Case interface {
	state(*Exec) *chanState
	isSend() bool
	sendVal() any
	set(v any, ok bool)
	real() (recv func() bool, try func() bool)
}

type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) state(e *Exec) *chanState {
	if c.ch == nil {
		return nil
	}
	return stateR(e, c.ch)
}
func (c *RecvCase[T]) isSend() bool { return false }
func (c *RecvCase[T]) sendVal() any { return nil }
func (c *RecvCase[T]) set(v any, ok bool) {
	c.OK = ok
	if v != nil {
		c.V = v.(T)
	}
}

type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func CaseSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: ch, v: v} }
}

func (c *SendCase[T]) state(e *Exec) *chanState {
	if c.ch == nil {
		return nil
	}
	return stateS(e, c.ch)
}
func (c *SendCase[T]) isSend() bool       { return true }
func (c *SendCase[T]) sendVal() any       { return c.v }
func (c *SendCase[T]) set(v any, ok bool) {}

// Select returns the index of the chosen case, -1 for the default case.
func Select(hasDefault bool, cases ...Case) int {
	e := active()
	if e == nil {
		return realSelect(hasDefault, cases)
	}
	if e.ending {
		goexit()
	}
	e.point("select")
	states := make([]*chanState, len(cases))
	var ready []int
	for i, c := range cases {
		cs := c.state(e)
		states[i] = cs
		if cs == nil {
			continue
		}
		if c.isSend() && cs.canSend() || !c.isSend() && cs.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[e.choose(len(ready), len(ready), "select")]
		cs := states[i]
		if cases[i].isSend() {
			e.release(&cs.sent)
			cs.trySend(cases[i].sendVal())
			e.acquire(cs.recvd)
		} else {
			e.release(&cs.recvd)
			v, ok, _ := cs.tryRecv()
			cases[i].set(v, ok)
			e.acquire(cs.sent)
		}
		return i
	}
	if hasDefault {
		return -1
	}
	s := &sel{}
	for i, c := range cases {
		cs := states[i]
		if cs == nil {
			continue
		}
		w := &waiter{s: s, idx: i, val: c.sendVal()}
		if c.isSend() {
			e.release(&cs.sent)
			cs.sendq = append(cs.sendq, w)
		} else {
			e.release(&cs.recvd)
			cs.recvq = append(cs.recvq, w)
		}
	}
	e.block("select", func() bool { return s.fired })
	if s.closed {
		panic("send on closed channel")
	}
	if !cases[s.idx].isSend() {
		cases[s.idx].set(s.val, s.ok)
		e.acquire(states[s.idx].sent)
	} else {
		e.acquire(states[s.idx].recvd)
	}
	return s.idx
}

// Forever is an empty select statement.
func Forever() {
	e := active()
	if e == nil {
		select {}
	}
	e.block("select{}", func() bool { return false })
}
