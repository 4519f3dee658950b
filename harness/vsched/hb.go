package vsched

import (
	"fmt"
	"unsafe"
)

// Unsynchronised accesses to maps end a Go program. They are found by tracking
// which accesses are ordered by synchronisation: two accesses to a map, one of
// them a write, that are not ordered can happen at the same time in some
// schedule, whether or not that schedule is explored. Anything the driver does
// orders everything, so that only what the code under test leaves unordered
// counts.

type vclock []int32

func (v *vclock) join(o vclock) {
	if len(o) > len(*v) {
		n := make(vclock, len(o))
		copy(n, *v)
		*v = n
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

func (v vclock) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type access struct {
	tid   int
	clk   int32
	where string
}

type mapState struct {
	keep  any
	write access
	reads []access
}

// clock returns the clock of the running thread, nil if nothing is tracked.
func (e *Exec) clock() *vclock {
	if e.cfg.Serial || e.ending || e.cur == nil {
		return nil
	}
	t := e.cur
	if t.vc.at(t.id) == 0 {
		t.tick()
	}
	return &t.vc
}

func (t *thread) tick() {
	if len(t.vc) <= t.id {
		n := make(vclock, t.id+1)
		copy(n, t.vc)
		t.vc = n
	}
	t.vc[t.id]++
}

// release publishes everything the running thread did so far under vc.
func (e *Exec) release(vc *vclock) {
	if c := e.clock(); c != nil {
		vc.join(*c)
		e.cur.tick()
	}
}

// acquire orders everything published under vc before what follows.
func (e *Exec) acquire(vc vclock) {
	if c := e.clock(); c != nil && len(vc) > 0 {
		c.join(vc)
	}
}

// acquireAll orders everything that happened so far before what follows.
func (e *Exec) acquireAll() {
	if c := e.clock(); c != nil {
		for _, t := range e.threads {
			if t != e.cur {
				c.join(t.vc)
				t.tick()
			}
		}
	}
}

func mapAccess[M ~map[K]V, K comparable, V any](m M, write bool) {
	e := current.Load()
	if e == nil || e.cfg.Serial || e.ending || m == nil {
		return
	}
	c := e.clock()
	if c == nil {
		return
	}
	p := *(*uintptr)(unsafe.Pointer(&m))
	s := e.maps[p]
	if s == nil {
		if e.maps == nil {
			e.maps = map[uintptr]*mapState{}
		}
		s = &mapState{keep: m, write: access{tid: -1}}
		e.maps[p] = s
	}
	me := access{tid: e.cur.id, clk: c.at(e.cur.id)}
	if e.keepLog {
		me.where = where()
	}
	conflict := func(a access) bool { return a.tid >= 0 && a.tid != me.tid && a.clk > c.at(a.tid) }
	if conflict(s.write) {
		e.raced(s.write, me, "write", write)
	}
	if write {
		for _, r := range s.reads {
			if conflict(r) {
				e.raced(r, me, "read", write)
			}
		}
		s.write, s.reads = me, s.reads[:0]
		return
	}
	for i := range s.reads {
		if s.reads[i].tid == me.tid {
			s.reads[i] = me
			return
		}
	}
	s.reads = append(s.reads, me)
}

func (e *Exec) raced(a, b access, first string, write bool) {
	second := "read"
	if write {
		second = "write"
	}
	if e.keepLog {
		e.logf("map %s by %s at %s, %s by %s at %s", first, e.threads[a.tid].name, a.where, second, e.threads[b.tid].name, b.where)
	}
	e.fail(fmt.Sprintf("fatal error: concurrent map %s and map %s", first, second))
}

// MapR is wrapped around maps that are read.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	mapAccess(m, false)
	return m
}

// MapW is wrapped around maps that are written.
func MapW[M ~map[K]V, K comparable, V any](m M) M {
	mapAccess(m, true)
	return m
}

// Atomic is wrapped around the addresses of atomic values. All atomic
// operations are taken to order each other.
func Atomic[T any](p *T) *T {
	if e := current.Load(); e != nil {
		e.acquire(e.atomics)
		e.release(&e.atomics)
	}
	return p
}
