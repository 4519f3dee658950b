package vsched

import (
	"sync"
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	mu   sync.Mutex
	e    *Exec
	held bool
	vc   vclock
}

func (m *Mutex) enter(e *Exec) {
	if m.e != e {
		m.e, m.held, m.vc = e, false, nil
	}
}

func (m *Mutex) Lock() {
	e := active()
	if e == nil {
		m.mu.Lock()
		return
	}
	if e.ending {
		return
	}
	m.enter(e)
	e.point("lock")
	if m.held {
		e.block("mutex", func() bool { return !m.held })
	}
	m.held = true
	e.acquire(m.vc)
}

func (m *Mutex) TryLock() bool {
	e := active()
	if e == nil {
		return m.mu.TryLock()
	}
	if e.ending {
		return true
	}
	m.enter(e)
	e.point("trylock")
	if m.held {
		return false
	}
	m.held = true
	e.acquire(m.vc)
	return true
}

func (m *Mutex) Unlock() {
	e := active()
	if e == nil {
		m.mu.Unlock()
		return
	}
	if e.ending {
		return
	}
	m.enter(e)
	if !m.held {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.held = false
	e.release(&m.vc)
	e.point("unlock")
}

// RWMutex replaces sync.RWMutex. As in package sync, a waiting writer keeps
// new readers out.
type RWMutex struct {
	mu      sync.RWMutex
	e       *Exec
	readers int
	writer  bool
	waiting int
	wvc     vclock
	rvc     vclock
}

func (m *RWMutex) enter(e *Exec) {
	if m.e != e {
		m.e, m.readers, m.writer, m.waiting, m.wvc, m.rvc = e, 0, false, 0, nil, nil
	}
}

func (m *RWMutex) Lock() {
	e := active()
	if e == nil {
		m.mu.Lock()
		return
	}
	if e.ending {
		return
	}
	m.enter(e)
	e.point("lock")
	if m.writer || m.readers > 0 {
		m.waiting++
		e.block("rwmutex", func() bool { return !m.writer && m.readers == 0 })
		m.waiting--
	}
	m.writer = true
	e.acquire(m.wvc)
	e.acquire(m.rvc)
}

func (m *RWMutex) TryLock() bool {
	e := active()
	if e == nil {
		return m.mu.TryLock()
	}
	if e.ending {
		return true
	}
	m.enter(e)
	e.point("trylock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	e.acquire(m.wvc)
	e.acquire(m.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	e := active()
	if e == nil {
		m.mu.Unlock()
		return
	}
	if e.ending {
		return
	}
	m.enter(e)
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	e.release(&m.wvc)
	e.point("unlock")
}

func (m *RWMutex) RLock() {
	e := active()
	if e == nil {
		m.mu.RLock()
		return
	}
	if e.ending {
		return
	}
	m.enter(e)
	e.point("rlock")
	if m.writer || m.waiting > 0 {
		e.block("rwmutex read", func() bool { return !m.writer && m.waiting == 0 })
	}
	m.readers++
	e.acquire(m.wvc)
}

func (m *RWMutex) TryRLock() bool {
	e := active()
	if e == nil {
		return m.mu.TryRLock()
	}
	if e.ending {
		return true
	}
	m.enter(e)
	e.point("tryrlock")
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	e.acquire(m.wvc)
	return true
}

func (m *RWMutex) RUnlock() {
	e := active()
	if e == nil {
		m.mu.RUnlock()
		return
	}
	if e.ending {
		return
	}
	m.enter(e)
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	e.release(&m.rvc)
	e.point("runlock")
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	e  *Exec
	n  int
	vc vclock
}

func (w *WaitGroup) enter(e *Exec) {
	if w.e != e {
		w.e, w.n, w.vc = e, 0, nil
	}
}

func (w *WaitGroup) Add(d int) {
	e := active()
	if e == nil {
		w.wg.Add(d)
		return
	}
	if e.ending {
		return
	}
	w.enter(e)
	w.n += d
	e.release(&w.vc)
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	e.point("wg")
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	e := active()
	if e == nil {
		w.wg.Wait()
		return
	}
	if e.ending {
		goexit()
	}
	w.enter(e)
	e.point("wg.wait")
	if w.n > 0 {
		e.block("waitgroup", func() bool { return w.n == 0 })
	}
	e.acquire(w.vc)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once. A Once that ran in an earlier execution runs again,
// as it would in a new process.
type Once struct {
	once  sync.Once
	e     *Exec
	done  bool
	busy  bool
	plain bool
	vc    vclock
}

func (o *Once) Do(f func()) {
	e := active()
	if e == nil {
		o.once.Do(func() { o.plain = true; f() })
		return
	}
	if e.ending || o.plain {
		return
	}
	if o.e != e {
		o.e, o.done, o.busy, o.vc = e, false, false, nil
	}
	e.point("once")
	if o.busy {
		e.block("once", func() bool { return !o.busy })
	}
	if o.done {
		e.acquire(o.vc)
		return
	}
	o.busy = true
	defer func() {
		o.busy, o.done = false, true
		e.release(&o.vc)
	}()
	f()
}

// Pool replaces sync.Pool by a last-in first-out free list, which makes the
// re-use of objects deterministic.
type Pool struct {
	New  func() any
	mu   sync.Mutex
	e    *Exec
	free []any
	vc   vclock
}

func (p *Pool) Get() any {
	e := active()
	if e != nil {
		e.point("pool")
	}
	p.mu.Lock()
	if p.e != e {
		p.e, p.free, p.vc = e, nil, nil
	}
	var v any
	if n := len(p.free); n > 0 {
		v = p.free[n-1]
		p.free = p.free[:n-1]
	}
	p.mu.Unlock()
	if e != nil {
		e.acquire(p.vc)
	}
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	e := active()
	p.mu.Lock()
	if p.e != e {
		p.e, p.free, p.vc = e, nil, nil
	}
	p.free = append(p.free, v)
	p.mu.Unlock()
	if e != nil {
		e.release(&p.vc)
		e.point("pool")
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L    sync.Locker
	once sync.Once
	c    *sync.Cond
	q    []*sel
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) realCond() *sync.Cond {
	c.once.Do(func() { c.c = sync.NewCond(c.L) })
	return c.c
}

func (c *Cond) Wait() {
	e := active()
	if e == nil {
		c.realCond().Wait()
		return
	}
	if e.ending {
		goexit()
	}
	s := &sel{}
	c.q = append(c.q, s)
	c.L.Unlock()
	e.block("cond", func() bool { return s.fired })
	c.L.Lock()
}

func (c *Cond) Signal() {
	e := active()
	if e == nil {
		c.realCond().Signal()
		return
	}
	e.point("cond")
	if len(c.q) > 0 {
		c.q[0].fired = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	e := active()
	if e == nil {
		c.realCond().Broadcast()
		return
	}
	e.point("cond")
	for _, s := range c.q {
		s.fired = true
	}
	c.q = nil
}

// Go replaces the go statement.
func Go(f func()) {
	e := active()
	if e == nil {
		go f()
		return
	}
	if e.ending {
		return
	}
	e.spawn("", f)
	e.point("go")
}

// Point is inserted before statements that may touch shared memory.
func Point() {
	e := current.Load()
	if e == nil || e.cfg.SyncOnly {
		return
	}
	e.point("s")
}

// PointIO is a scheduling point before an operation on a file.
func PointIO() {
	if e := current.Load(); e != nil {
		e.point("io")
	}
}

// PointFine is a scheduling point before an access to a message or to elements
// of local collections, used if the exploration asks for it.
func PointFine() {
	e := current.Load()
	if e == nil || !e.cfg.Fine {
		return
	}
	e.point("f")
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	if e := active(); e != nil {
		e.point("gosched")
	}
}
