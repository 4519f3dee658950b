package main

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p04: concurrent use of the cache.

type p04Fetch struct {
	key      string
	ttl      uint32
	fetched  int64 // sequence number at which the upstream returned
	stored   int64 // by when it was stored for sure, 0 if unknown
	tFetched time.Duration
	tStored  time.Duration
}

type p04Opt struct {
	capacity  int
	preload   []string // stored before the concurrent part
	age       time.Duration
	trigger   uint32
	gc        time.Duration
	instants  []time.Duration
	ttl       uint32
	threads   []string // "q:name", "flush", "save", "size"
	file      bool
	nx        bool
	harden    bool
	failFirst bool
}

func p04Body(o p04Opt) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		dir := ""
		file := ""
		if o.file {
			dir = scratchDir()
			defer os.RemoveAll(dir)
			file = filepath.Join(dir, "cache.json")
		}
		var fetches []*p04Fetch
		owner := map[string][]*p04Fetch{} // by caller marker
		type flush struct{ start, end int64 }
		var flushes []*flush
		concurrent := false
		up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			f := &p04Fetch{key: q.Question[0].Name, ttl: o.ttl}
			n := len(fetches)
			fetches = append(fetches, f)
			owner[ci.DoHPath] = append(owner[ci.DoHPath], f)
			if concurrent {
				e.Pause()
			}
			f.fetched = e.Seq()
			f.tFetched = e.Elapsed()
			a := reply(q, 0, rr(fmt.Sprintf("%s %d IN A 10.1.0.%d", q.Question[0].Name, o.ttl, n)), rr(fmt.Sprintf("%s %d IN TXT tag%d", q.Question[0].Name, o.ttl, n)))
			return a, nil
		}}
		e.Quiet(true)
		b := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Capacity: o.capacity, GCPeriod: o.gc, Filename: file})
		c := rdns.NewCache("c", up, rdns.CacheOptions{Backend: b, FlushQuery: "flush.", PrefetchTrigger: o.trigger})
		resolve := func(who, name string, id uint16) {
			q := query(name, dns.TypeA)
			q.Id = id
			start, tStart := e.Seq(), e.Elapsed()
			mine := len(owner[who])
			a, err := c.Resolve(q, rdns.ClientInfo{DoHPath: who})
			end, tEnd := e.Seq(), e.Elapsed()
			if err != nil || a == nil {
				e.Fail("%s: no response: %v", who, err)
			}
			if a.Id != id || len(a.Question) != 1 || a.Question[0].Name != name {
				e.Fail("%s: response has the wrong ID or question: %s", who, full(a))
			}
			tag := -1
			if len(a.Answer) == 2 {
				fmt.Sscanf(a.Answer[1].(*dns.TXT).Txt[0], "tag%d", &tag)
			}
			if tag < 0 || tag >= len(fetches) || fetches[tag].key != name || a.Answer[0].(*dns.A).A.To4()[3] != byte(tag) || a.Answer[0].Header().Name != name {
				e.Fail("%s: %s answered with %s", who, name, full(a))
			}
			f := fetches[tag]
			if f.fetched == 0 {
				e.Fail("%s: response %d served before the upstream returned it", who, tag)
			}
			own := false
			for _, x := range owner[who][mine:] {
				if x == f {
					own = true
				}
			}
			if own && a.Answer[0].Header().Ttl == f.ttl {
				f.stored, f.tStored = end, tEnd
			} else {
				// Served from the cache.
				for _, fl := range flushes {
					if f.stored != 0 && fl.start > f.stored && fl.end != 0 && fl.end < start {
						e.Fail("%s: response %d served although flushed before", who, tag)
					}
				}
				for n, g := range fetches {
					if f.stored != 0 && g.key == f.key && g.fetched > f.stored && g.stored != 0 && g.stored < start {
						e.Fail("%s: response %d served although replaced by %d before", who, tag, n)
					}
				}
				// Remaining lifetime.
				oldest, youngest := tEnd-f.tFetched, tStart-f.tFetched
				if f.stored != 0 {
					youngest = tStart - f.tStored
				} else {
					youngest = 0
				}
				if youngest < 0 {
					youngest = 0
				}
				for _, r := range a.Answer {
					t := int64(r.Header().Ttl)
					if t > int64(f.ttl)-int64(youngest/time.Second) || t < int64(f.ttl)-int64(oldest/time.Second) || t <= 0 {
						e.Fail("%s: response %d served with TTL %d after %s-%s of %d", who, tag, t, youngest, oldest, f.ttl)
					}
				}
			}
			e.Outcome("%s=%d", who, tag)
			before := full(a)
			e.Point()
			if full(a) != before {
				e.Fail("%s: response changed after it was handed out", who)
			}
			for _, r := range a.Answer {
				r.Header().Ttl = 9999
				r.Header().Name = "scribble."
				if x, ok := r.(*dns.A); ok {
					x.A.To4()[3] = 0xff
				}
			}
			a.Answer = a.Answer[:1]
		}
		for i, n := range o.preload {
			resolve(fmt.Sprintf("pre%d", i), n, uint16(i))
		}
		if o.age > 0 {
			e.Advance(o.age)
		}
		e.Settle()
		concurrent = true
		e.Quiet(false)
		for _, d := range o.instants {
			e.Instant(d)
		}
		var ts []*vsched.Thread
		for i, t := range o.threads {
			name := fmt.Sprintf("t%d", i)
			var f func()
			switch {
			case t[:2] == "q:":
				f = func() { resolve(name, t[2:], uint16(100+i)) }
			case t == "flush":
				f = func() {
					fl := &flush{start: e.Seq()}
					flushes = append(flushes, fl)
					c.Resolve(query("flush.", dns.TypeA), rdns.ClientInfo{})
					fl.end = e.Seq()
				}
			case t == "save":
				f = func() {
					if err := b.Close(); err != nil {
						e.Fail("save failed: %v", err)
					}
				}
			case t == "size":
				f = func() {
					if n := b.Size(); n < 0 || o.capacity > 0 && n > o.capacity {
						e.Fail("size %d exceeds capacity %d", n, o.capacity)
					}
				}
			}
			ts = append(ts, e.Go(name, f))
		}
		e.Join(ts...)
		e.Settle()
		concurrent = false
		e.Quiet(true)
		if o.capacity > 0 && b.Size() > o.capacity {
			e.Fail("size %d exceeds capacity %d", b.Size(), o.capacity)
		}
		// The structure is intact: a full set of new names fits and is hit.
		k := o.capacity
		if k == 0 {
			k = 2
		}
		for round := 0; round < 2; round++ {
			for i := k - 1; i >= 0; i-- {
				n := len(fetches)
				resolve(fmt.Sprintf("end%d%d", i, round), fmt.Sprintf("end%d.", i), 7)
				if got := len(fetches) - n; got != 1-round {
					e.Fail("after concurrent use: %d upstream queries for end%d in round %d", got, i, round)
				}
			}
		}
		if o.capacity > 0 && b.Size() != o.capacity {
			e.Fail("after concurrent use: size %d instead of %d", b.Size(), o.capacity)
		}
		if o.file {
			if _, err := os.Stat(file); err != nil {
				e.Fail("cache file missing after save")
			}
			left, _ := os.ReadDir(dir)
			if len(left) != 1 {
				e.Fail("files left behind by saving: %v", left)
			}
			// What was saved must load completely.
			b2 := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: file})
			data, _ := os.ReadFile(file)
			lines := 0
			for _, x := range data {
				if x == '\n' {
					lines++
				}
			}
			if b2.Size() != lines || len(data) > 0 && data[len(data)-1] != '\n' {
				e.Fail("saved file of %d records loads %d entries", lines, b2.Size())
			}
		}
	}
}

// p04Shuffle: answers that are rotated on every hit, for names asked for at
// the same time and when old state is removed.
func p04Shuffle(names []string, instants []time.Duration) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		e.Quiet(true)
		up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			n := q.Question[0].Name
			return reply(q, 0, rr(n+" 60 IN A 10.0.0.1"), rr(n+" 60 IN A 10.0.0.2"), rr(n+" 60 IN A 10.0.0.3")), nil
		}}
		c := rdns.NewCache("c", up, rdns.CacheOptions{Backend: rdns.NewMemoryBackend(rdns.MemoryBackendOptions{}), ShuffleAnswerFunc: rdns.AnswerShuffleRoundRobin})
		ask := func(name string) string {
			a, err := c.Resolve(query(name, dns.TypeA), rdns.ClientInfo{})
			if err != nil || a == nil || len(a.Answer) != 3 {
				e.Fail("%s: %v %v", name, a, err)
				return ""
			}
			var order []string
			for _, r := range a.Answer {
				if r.Header().Name != name {
					e.Fail("%s answered with %s", name, full(a))
				}
				order = append(order, r.(*dns.A).A.String())
			}
			if s := fmt.Sprint(sorted(order)); s != "[10.0.0.1 10.0.0.2 10.0.0.3]" {
				e.Fail("%s: answer has records %s", name, s)
			}
			return order[0]
		}
		seen := map[string]bool{}
		for _, n := range names {
			if !seen[n] {
				ask(n)
			}
			seen[n] = true
		}
		e.Settle()
		e.Quiet(false)
		for _, d := range instants {
			e.Instant(d)
		}
		var ts []*vsched.Thread
		for i, n := range names {
			ts = append(ts, e.Go(fmt.Sprintf("t%d", i), func() { ask(n); e.Point(); ask(n) }))
		}
		e.Join(ts...)
		e.Settle()
		e.Quiet(true)
		// Every record gets its turn.
		for _, n := range names {
			if instants != nil {
				break // unless the answer is fetched anew
			}
			first := map[string]bool{}
			for i := 0; i < 3; i++ {
				first[ask(n)] = true
			}
			if len(first) != 3 {
				e.Fail("%s: three answers start with %d different records", n, len(first))
			}
		}
		e.Outcome("done")
	}
}

func init() {
	register(&Check{
		ID:          "P04",
		Level:       "model_checking",
		Rule:        "every schedule, within the deviation bound (pre-emptions and clock jumps at any instrumented access), of small concurrent workloads on the real cache; each response is checked against the recorded history of fetches, flushes and stores; a state is a distinct assignment of responses to queries",
		Assumptions: []string{"sequentially consistent memory; unordered accesses to maps are reported, other data races only if they have a visible effect"},
		Scenarios: func(tier string) []Scenario {
			d := 2
			if tier == "thorough" {
				d = 3
			}
			ms := time.Millisecond
			cases := []struct {
				name string
				o    p04Opt
				time bool
				d    int
				sh   int
			}{
				{"same-key2", p04Opt{ttl: 60, threads: []string{"q:a.", "q:a."}}, false, d, 4},
				{"same-key", p04Opt{ttl: 60, threads: []string{"q:a.", "q:a.", "q:a."}}, false, d - 1, 8},
				{"evict", p04Opt{ttl: 60, capacity: 1, threads: []string{"q:a.", "q:b.", "q:a."}}, false, d - 1, 8},
				{"evict-2t", p04Opt{ttl: 60, capacity: 1, threads: []string{"q:a.", "q:b."}}, false, d, 4},
				{"evict2", p04Opt{ttl: 60, capacity: 2, preload: []string{"a.", "b."}, threads: []string{"q:a.", "q:c.", "q:b."}}, false, d, 8},
				{"flush-preloaded", p04Opt{ttl: 60, preload: []string{"a."}, threads: []string{"q:a.", "flush", "q:a."}}, false, d, 8},
				{"flush-miss", p04Opt{ttl: 60, capacity: 1, threads: []string{"q:a.", "flush", "q:b."}}, false, d, 8},
				{"flush-2", p04Opt{ttl: 60, preload: []string{"a."}, threads: []string{"flush", "q:a."}}, false, d + 1, 4},
				{"hit-hit", p04Opt{ttl: 60, capacity: 2, preload: []string{"a.", "b."}, threads: []string{"q:a.", "q:b."}}, false, d + 1, 4},
				{"prefetch", p04Opt{ttl: 60, preload: []string{"a."}, age: 50 * time.Second, trigger: 20, threads: []string{"q:a.", "q:a."}}, false, d, 8},
				{"prefetch-flush", p04Opt{ttl: 60, preload: []string{"a."}, age: 50 * time.Second, trigger: 20, threads: []string{"q:a.", "flush"}}, false, d, 8},
				{"expiry", p04Opt{ttl: 5, preload: []string{"a.", "b."}, instants: []time.Duration{5100 * ms}, threads: []string{"q:a.", "q:a."}}, true, d, 8},
				{"expiry-gc", p04Opt{ttl: 5, capacity: 2, gc: 5200 * ms, preload: []string{"a.", "b."}, threads: []string{"q:a.", "q:b."}}, true, d, 8},
				{"gc-miss", p04Opt{ttl: 5, capacity: 2, gc: 5200 * ms, preload: []string{"a.", "b."}, age: 5150 * ms, threads: []string{"q:c.", "size"}}, true, d, 8},
				{"save", p04Opt{ttl: 60, file: true, capacity: 2, preload: []string{"a."}, threads: []string{"save", "q:a.", "q:b."}}, false, d, 8},
				{"save-flush", p04Opt{ttl: 60, file: true, preload: []string{"a.", "b."}, threads: []string{"save", "flush"}}, false, d, 8},
				{"save-save", p04Opt{ttl: 60, file: true, preload: []string{"a."}, threads: []string{"save", "save", "q:b."}}, false, d, 8},
				{"size", p04Opt{ttl: 60, capacity: 1, preload: []string{"a."}, threads: []string{"size", "q:b.", "q:a."}}, false, d, 8},
			}
			var out []Scenario
			for _, c := range cases {
				if len(c.o.threads) == 2 || tier == "thorough" {
					// The same with scheduling points inside message handling.
					out = append(out, sharded(c.sh, Scenario{Name: c.name + "-fine", Cfg: vsched.Config{Deviations: c.d - 1, TimeDev: c.time, Fine: true}, Body: p04Body(c.o)})...)
				}
				s := Scenario{Name: c.name, Cfg: vsched.Config{Deviations: c.d, TimeDev: c.time}, Body: p04Body(c.o)}
				out = append(out, sharded(c.sh, s)...)
			}
			for _, s := range []struct {
				name  string
				names []string
			}{{"shuffle-same", []string{"a.", "a."}}, {"shuffle-two", []string{"a.", "b."}}} {
				out = append(out, sharded(4, Scenario{Name: s.name, Cfg: vsched.Config{Deviations: d}, Body: p04Shuffle(s.names, nil)})...)
				out = append(out, sharded(4, Scenario{Name: s.name + "-clean", Cfg: vsched.Config{Deviations: d - 1, TimeDev: true}, Body: p04Shuffle(s.names, []time.Duration{59500 * ms, 90 * time.Second})})...)
			}
			return out
		},
	})
}
