package main

import (
	"fmt"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p03: capacity, eviction order, garbage collection, flush.

type lruModel struct {
	cap   int
	order []string // most recent first
	exp   map[string]time.Time
	ttl   map[string]uint32
}

func (m *lruModel) drop(k string) {
	for i, x := range m.order {
		if x == k {
			m.order = append(append([]string(nil), m.order[:i]...), m.order[i+1:]...)
			return
		}
	}
}

func (m *lruModel) has(k string) bool {
	for _, x := range m.order {
		if x == k {
			return true
		}
	}
	return false
}

// get looks a key up like a query does.
func (m *lruModel) get(k string) bool {
	if !m.has(k) {
		return false
	}
	m.drop(k)
	if vsched.Now().After(m.exp[k]) {
		return false
	}
	m.order = append([]string{k}, m.order...)
	return true
}

func (m *lruModel) put(k string, ttl uint32) {
	m.drop(k)
	m.order = append([]string{k}, m.order...)
	m.exp[k] = vsched.Now().Add(time.Duration(ttl) * time.Second)
	if m.cap > 0 && len(m.order) > m.cap {
		m.order = m.order[:m.cap]
	}
}

func (m *lruModel) gc() {
	for _, k := range append([]string(nil), m.order...) {
		if vsched.Now().After(m.exp[k]) {
			m.drop(k)
		}
	}
}

func p03Body(capacity int, keys []string, ttls []uint32, steps []time.Duration, depth int) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		const gcPeriod = 30 * time.Second
		asked := 0
		up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			asked++
			i := int(q.Question[0].Name[1] - '0')
			return reply(q, 0, aRec(q, ttls[i], i)), nil
		}}
		b := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Capacity: capacity, GCPeriod: gcPeriod})
		c := rdns.NewCache("c", up, rdns.CacheOptions{Backend: b, FlushQuery: "flush."})
		m := &lruModel{cap: capacity, exp: map[string]time.Time{}}
		lastGC := int64(0)
		e.Settle()
		for i := 0; i < depth; i++ {
			op := e.Choose(len(keys)+len(steps)+1, "op")
			switch {
			case op < len(keys):
				k := keys[op]
				asked = 0
				a, err := c.Resolve(query(k, dns.TypeA), rdns.ClientInfo{})
				if err != nil || a == nil {
					e.Fail("query failed: %v", err)
				}
				hit := m.get(k)
				if !hit {
					m.put(k, ttls[op])
				}
				if hit != (asked == 0) {
					e.Fail("query %s: hit=%v, expected hit=%v (recency %v)", k, asked == 0, hit, m.order)
				}
			case op < len(keys)+len(steps):
				d := steps[op-len(keys)]
				target := e.Elapsed() + d
				// Collections happen every period; the model collects at the
				// same instants.
				for g := (lastGC + 1) * int64(gcPeriod); g <= int64(target); g = (lastGC + 1) * int64(gcPeriod) {
					e.Advance(time.Duration(g) - e.Elapsed())
					m.gc()
					lastGC++
				}
				e.Advance(target - e.Elapsed())
			default:
				c.Resolve(query("flush.", dns.TypeA), rdns.ClientInfo{})
				m.order = nil
			}
			if n := b.Size(); n != len(m.order) {
				e.Fail("size %d, expected %d (recency %v)", n, len(m.order), m.order)
			}
			if capacity > 0 && b.Size() > capacity {
				e.Fail("size %d exceeds capacity %d", b.Size(), capacity)
			}
		}
		e.Outcome("%s@%s", strings.Join(m.order, ""), e.Elapsed())
	}
}

// p03Async has queries whose upstream answers later, so that an entry can be
// stored while it already exists and after others were used.
func p03Async(capacity int, keys []string, depth int) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		type pending struct{ key string }
		var out []*pending
		var slow *pending
		asked := 0
		up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			asked++
			if p := slow; p != nil {
				slow = nil
				out = append(out, p)
				e.Wait("upstream", func() bool { return p.key == "" })
			}
			return reply(q, 0, aRec(q, 100, 1)), nil
		}}
		b := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Capacity: capacity, GCPeriod: time.Hour})
		c := rdns.NewCache("c", up, rdns.CacheOptions{Backend: b})
		m := &lruModel{cap: capacity, exp: map[string]time.Time{}}
		e.Settle()
		for i := 0; i < depth; i++ {
			n := 2 * len(keys)
			if len(out) > 0 {
				n++
			}
			if len(out) > 1 {
				n++
			}
			op := e.Choose(n, "op")
			switch {
			case op < 2*len(keys):
				k := keys[op%len(keys)]
				hit := m.get(k)
				asked = 0
				if op < len(keys) {
					c.Resolve(query(k, dns.TypeA), rdns.ClientInfo{})
					if !hit {
						m.put(k, 100)
					}
				} else {
					slow = &pending{key: k}
					e.Go("slow", func() { c.Resolve(query(k, dns.TypeA), rdns.ClientInfo{}) })
					e.Settle()
					slow = nil
				}
				if hit != (asked == 0) {
					e.Fail("query %s: hit=%v, expected hit=%v (recency %v)", k, asked == 0, hit, m.order)
				}
			default:
				// The first or the last outstanding query is answered.
				j := 0
				if op > 2*len(keys) {
					j = len(out) - 1
				}
				p := out[j]
				out = append(append([]*pending(nil), out[:j]...), out[j+1:]...)
				k := p.key
				p.key = ""
				e.Settle()
				m.put(k, 100)
			}
			if n := b.Size(); n != len(m.order) {
				e.Fail("size %d, expected %d (recency %v)", n, len(m.order), m.order)
			}
		}
		e.Outcome("%s %d", strings.Join(m.order, ""), len(out))
		for _, p := range out {
			p.key = ""
		}
		e.Settle()
	}
}

func init() {
	register(&Check{
		ID:          "P03",
		Level:       "model_checking",
		Rule:        "every sequence of queries, clock steps (with garbage collection) and flushes up to the stated depth for each capacity, on the real memory cache, compared after every operation (hit or miss, size) with a reference LRU; a state is a distinct (recency list, time)",
		Assumptions: []string{"two different keys never have the same 64-bit hash"},
		Scenarios: func(tier string) []Scenario {
			keys := []string{"k0.", "k1.", "k2.", "k3."}
			depth := 7
			if tier == "thorough" {
				depth = 8
			}
			var out []Scenario
			steps := []time.Duration{1500 * time.Millisecond, 31 * time.Second}
			for cap := 0; cap <= 4; cap++ {
				for i, ttls := range [][]uint32{{100, 100, 100, 100}, {1, 100, 1, 40}} {
					out = append(out, Scenario{Name: fmt.Sprintf("cap%d-ttl%d", cap, i), Cfg: vsched.Config{Serial: true},
						Body: p03Body(cap, keys[:4-i], ttls, steps, depth-1)})
				}
			}
			// Longer runs without expiry: eviction order only.
			for cap := 1; cap <= 3; cap++ {
				out = append(out, Scenario{Name: fmt.Sprintf("order-cap%d", cap), Cfg: vsched.Config{Serial: true}, Weight: 5,
					Body: p03Body(cap, keys, []uint32{100, 100, 100, 100}, nil, depth+1)})
			}
			for cap := 1; cap <= 3; cap++ {
				out = append(out, Scenario{Name: fmt.Sprintf("late-cap%d", cap), Cfg: vsched.Config{Serial: true}, Weight: 5,
					Body: p03Async(cap, keys[:3], depth-1)})
			}
			return out
		},
	})
}
