package vsched

import (
	"time"
)

type vtimer struct {
	when   int64
	seq    int
	period int64
	fire   func()
	on     bool
}

func (e *Exec) addTimer(t *vtimer) {
	e.tseq++
	t.seq = e.tseq
	t.on = true
	e.timers = append(e.timers, t)
}

func (e *Exec) dropTimer(t *vtimer) bool {
	if !t.on {
		return false
	}
	t.on = false
	for i, x := range e.timers {
		if x == t {
			e.timers = append(e.timers[:i:i], e.timers[i+1:]...)
			break
		}
	}
	return true
}

func (e *Exec) nextTimer() *vtimer {
	var best *vtimer
	for _, t := range e.timers {
		if best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	return best
}

// advance moves the clock to the next timer and fires all timers due then.
func (e *Exec) advance() {
	nt := e.nextTimer()
	if nt == nil {
		return
	}
	if nt.when > e.now {
		e.now = nt.when
	}
	if e.keepLog {
		e.logf("clock +%v", time.Duration(e.now-e.start))
	}
	var due []*vtimer
	for _, t := range e.timers {
		if t.when <= e.now {
			due = append(due, t)
		}
	}
	sortTimers(due)
	for _, t := range due {
		e.dropTimer(t)
		if t.period > 0 {
			t.when += t.period
			e.addTimer(t)
		}
		t.fire()
	}
}

// clockOverride is used outside of executions.
var clockOverride func() time.Time

// SetClockFunc overrides the clock outside of executions (nil restores it).
func SetClockFunc(f func() time.Time) { clockOverride = f }

func Now() time.Time {
	if e := active(); e != nil {
		return time.Unix(0, e.now)
	}
	if clockOverride != nil {
		return clockOverride()
	}
	return time.Now()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	e := active()
	if e == nil {
		time.Sleep(d)
		return
	}
	if e.ending {
		goexit()
	}
	if d <= 0 {
		e.point("sleep0")
		return
	}
	fired := false
	e.addTimer(&vtimer{when: e.now + int64(d), fire: func() { fired = true }})
	e.block("sleep", func() bool { return fired })
}

// Timer mirrors time.Timer with the semantics of Go 1.23 and later.
type Timer struct {
	C    <-chan time.Time
	real *time.Timer
	e    *Exec
	c    chan time.Time
	vt   *vtimer
	f    func()
}

func NewTimer(d time.Duration) *Timer {
	e := active()
	if e == nil || e.ending {
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, e: e}
	t.arm(d)
	return t
}

func (t *Timer) arm(d time.Duration) {
	e := t.e
	if d < 0 {
		d = 0
	}
	var armed vclock
	e.release(&armed)
	t.vt = &vtimer{when: e.now + int64(d), fire: func() {
		if t.f != nil {
			e.spawn("timerfunc", t.f).vc.join(armed)
			return
		}
		cs := e.chanOf(ptrOf(t.c), 1, t.c, nil)
		cs.sent.join(armed)
		if len(cs.buf) == 0 {
			cs.trySend(time.Unix(0, e.now))
		}
	}}
	e.addTimer(t.vt)
}

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	e := t.e
	if e.ending {
		return false
	}
	e.point("timer.Stop")
	was := e.dropTimer(t.vt)
	if t.c != nil {
		cs := e.chanOf(ptrOf(t.c), 1, t.c, nil)
		if len(cs.buf) > 0 {
			cs.buf = nil
			was = true
		}
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	if t.e.ending {
		return false
	}
	was := t.Stop()
	t.arm(d)
	return was
}

func AfterFunc(d time.Duration, f func()) *Timer {
	e := active()
	if e == nil || e.ending {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	t := &Timer{e: e, f: f}
	t.arm(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	real *time.Ticker
	e    *Exec
	c    chan time.Time
	vt   *vtimer
}

func NewTicker(d time.Duration) *Ticker {
	e := active()
	if e == nil || e.ending {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, e: e}
	t.arm(d)
	return t
}

func (t *Ticker) arm(d time.Duration) {
	e := t.e
	t.vt = &vtimer{when: e.now + int64(d), period: int64(d), fire: func() {
		cs := e.chanOf(ptrOf(t.c), 1, t.c, nil)
		if len(cs.buf) == 0 {
			cs.trySend(time.Unix(0, e.now))
		}
	}}
	e.addTimer(t.vt)
}

func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	t.e.dropTimer(t.vt)
}

func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.e.dropTimer(t.vt)
	t.arm(d)
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
