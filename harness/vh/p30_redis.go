package main

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/redis/go-redis/v9"
)

// p30: a failing shared store never breaks resolution.

type p30Fault struct {
	name  string
	reply string // empty: no reply; "-": close the connection
	only  string // command it applies to, any if empty
	cost  int
}

func p30Faults() []p30Fault {
	value := func(b ...byte) string { return bulk(string(b)) }
	hdr := func(wire string) string {
		b := make([]byte, 10)
		b[0] = 1
		binary.BigEndian.PutUint64(b[2:], uint64(time.Now().Unix()))
		return bulk(string(b) + wire)
	}
	return []p30Fault{
		{"error reply", "-ERR broken\r\n", "", 1},
		{"out of memory", "-OOM command not allowed\r\n", "", 1},
		{"read only", "-READONLY You can't write against a read only replica.\r\n", "", 1},
		{"loading", "-LOADING Redis is loading the dataset in memory\r\n", "", 1},
		{"closed connection", "-", "", 1},
		{"silence", "", "", 2},
		{"protocol garbage", "\x00\xff\r\n", "", 1},
		{"cut reply", "$100\r\nabc", "", 2},
		{"number", ":7\r\n", "", 1},
		{"array", "*1\r\n" + bulk("x"), "", 1},
		{"nil", "$-1\r\n", "", 1},
		{"empty value", value(), "GET", 1},
		{"short value", value(1, 0, 0), "GET", 1},
		{"header only", hdr(""), "GET", 1},
		{"foreign value", bulk("hello world, this is not ours at all"), "GET", 1},
		{"other version", bulk("\x02" + strings.Repeat("\x00", 40)), "GET", 1},
		{"undecodable message", hdr("\x12\x67\x81\x80\x00\x01\x00\x01\x00\x00\x00\x00\x05ab"), "GET", 1},
		{"compression loop", hdr("\x12\x67\x81\x80\x00\x01\x00\x01\x00\x00\x00\x00\xc0\x0c\x00\x01\x00\x01"), "GET", 1},
		{"json value", bulk(`{"Timestamp":"2020-01-01T00:00:00Z","Msg":{}}`), "GET", 1},
	}
}

// chooser enumerates all sequences of choices depth first.
type chooser struct{ seq, lim []int }

func (c *chooser) at(pos, n int) int {
	if pos == len(c.seq) {
		c.seq, c.lim = append(c.seq, 0), append(c.lim, n)
	}
	return c.seq[pos]
}

func (c *chooser) next(used int) bool {
	c.seq, c.lim = c.seq[:used], c.lim[:used]
	for len(c.seq) > 0 {
		k := len(c.seq) - 1
		if c.seq[k]++; c.seq[k] < c.lim[k] {
			return true
		}
		c.seq, c.lim = c.seq[:k], c.lim[:k]
	}
	return false
}

var p30Names = map[string]string{"a": "a.x.", "A": "A.X.", "b": "big.x.", "f": "flush."}

// p30Run enumerates fault assignments for one sequence of queries.
func p30Run(ops []string, budget int, sync bool, retries int) func(*C) {
	return func(c *C) {
		faults := p30Faults()
		srv := newFakeRedis()
		defer srv.close()
		ch := &chooser{}
		for more := true; more && !c.Full(); {
			used, spent, serial := 0, 0, 0
			var plan []string
			srv.mu.Lock()
			srv.data, srv.ttl = map[string]string{}, map[string]time.Time{}
			active := true
			srv.hook = func(cmd []string) ([]byte, bool) {
				name := strings.ToUpper(cmd[0])
				switch name {
				case "GET", "SET", "SCAN", "DEL":
				default:
					return nil, false
				}
				if !active || spent >= budget {
					return nil, false
				}
				var cand []p30Fault
				for _, f := range faults {
					slow := f.cost > 1 && (name == "SCAN" || name == "DEL") && strings.Join(ops, "") != "afa" // flushing waits for seconds
					if (f.only == "" || f.only == name) && spent+f.cost <= budget && !slow {
						cand = append(cand, f)
					}
				}
				k := ch.at(used, len(cand)+1)
				used++
				if k == 0 {
					plan = append(plan, name+" ok")
					return nil, false
				}
				f := cand[k-1]
				spent += f.cost
				plan = append(plan, name+" "+f.name)
				switch f.reply {
				case "-":
					return nil, true
				case "":
					return []byte{}, true
				}
				return []byte(f.reply), true
			}
			srv.mu.Unlock()

			given := map[string][]string{} // answers the upstream gave per name
			up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				serial++
				n := strings.ToLower(q.Question[0].Name)
				txt := fmt.Sprintf("s%d", serial)
				given[n] = append(given[n], txt)
				a := reply(q, 0, rr(q.Question[0].Name+" 600 IN TXT "+txt))
				if strings.HasPrefix(n, "big") {
					for i := 0; i < 40; i++ {
						a.Answer = append(a.Answer, rr(q.Question[0].Name+" 600 IN TXT "+strings.Repeat("z", 100)))
					}
				}
				return a, nil
			}}
			backend := rdns.NewRedisBackend(rdns.RedisBackendOptions{
				RedisOptions: redis.Options{Addr: srv.ln.Addr().String(), ContextTimeoutEnabled: true, MaxRetries: retries, DisableIndentity: true},
				KeyPrefix:    "p:", SyncSet: sync})
			cache := rdns.NewCache("c", up, rdns.CacheOptions{Backend: backend, FlushQuery: "flush."})
			ask := func(op string) string {
				q := query(p30Names[op], dns.TypeTXT)
				q.Id = uint16(100 + serial)
				before, start := serial, time.Now()
				a, err := cache.Resolve(q, rdns.ClientInfo{})
				took := time.Since(start)
				switch {
				case err != nil:
					return "failed: " + err.Error()
				case a == nil:
					return "dropped"
				case took > 3*time.Second && op != "f" || took > 8*time.Second:
					return fmt.Sprintf("took %v", took)
				case a.Id != q.Id || len(a.Question) != 1 || a.Question[0] != q.Question[0] || !a.Response:
					return "answered with " + full(a)
				case op == "f":
					return ""
				}
				n := strings.ToLower(q.Question[0].Name)
				want := 1
				if op == "b" {
					want = 41
				}
				if len(a.Answer) != want {
					return fmt.Sprintf("%d records instead of %d", len(a.Answer), want)
				}
				txt := a.Answer[0].(*dns.TXT).Txt[0]
				known := false
				for _, g := range given[n] {
					known = known || g == txt
				}
				if !known {
					return "served " + txt + " which the upstream never gave for this name"
				}
				if t := a.Answer[0].Header().Ttl; t > 600 || t < 595 || serial > before && t != 600 {
					return fmt.Sprintf("TTL %d", t)
				}
				return ""
			}
			settle := func() { // wait for a write in the background
				if sync {
					return
				}
				last, same := -1, 0
				for i := 0; i < 400 && same < 3; i++ {
					srv.mu.Lock()
					n := len(srv.log)
					srv.mu.Unlock()
					if n == last {
						same++
					} else {
						last, same = n, 0
					}
					time.Sleep(200 * time.Microsecond)
				}
			}
			fail := ""
			c.Guard(func() {
				for i, op := range ops {
					if fail = ask(op); fail != "" {
						fail = fmt.Sprintf("query %d (%s): %s", i+1, op, fail)
						return
					}
					settle()
				}
				// With the store back, answers are shared through it again.
				srv.mu.Lock()
				active = false
				srv.mu.Unlock()
				for i := 0; i < 2; i++ {
					if fail = ask("a"); fail != "" {
						fail = "after recovery: " + fail
						return
					}
					settle()
				}
				for i := 0; ; i++ {
					before := serial
					if fail = ask("a"); fail != "" {
						fail = "after recovery: " + fail
						return
					}
					if serial == before {
						break
					}
					if i > 100 {
						fail = "after recovery: answers don't come from the store"
						return
					}
					settle()
				}
				if ask("f"); sync {
					before := serial
					if fail = ask("a"); fail == "" && serial == before {
						fail = "served from the store after a flush"
					}
				}
			})
			srv.mu.Lock()
			srv.hook, srv.log = nil, nil
			srv.mu.Unlock()
			backend.Close()
			c.Case(fmt.Sprintf("queries %v, store: %s", ops, strings.Join(plan, ", ")))
			c.Step()
			c.State("%v %v", ops, plan)
			if fail != "" {
				c.Violation("%s", fail)
			}
			more = ch.next(used)
		}
	}
}

// p30Down: the store can't be reached at all, or comes and goes.
func p30Down(c *C) {
	for _, sync := range []bool{true, false} {
		for _, retries := range []int{-1, 0} {
			c.Case(fmt.Sprintf("unreachable, sync %v, retries %d", sync, retries))
			c.Step()
			srv := newFakeRedis()
			addr := srv.ln.Addr().String()
			srv.close()
			backend := rdns.NewRedisBackend(rdns.RedisBackendOptions{RedisOptions: redis.Options{Addr: addr, ContextTimeoutEnabled: true, MaxRetries: retries}, SyncSet: sync})
			cache := rdns.NewCache("c", &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				return reply(q, 0, rr(q.Question[0].Name+" 60 IN A 1.2.3.4")), nil
			}}, rdns.CacheOptions{Backend: backend, FlushQuery: "flush."})
			for i, n := range []string{"a.", "a.", "flush.", "b."} {
				start := time.Now()
				a, err := cache.Resolve(query(n, 1), rdns.ClientInfo{})
				if err != nil || a == nil || (n != "flush." && len(a.Answer) != 1) {
					c.Violation("query %d: %s", i+1, shortMsg(a, err))
				}
				if d := time.Since(start); n != "flush." && d > 3*time.Second || d > 8*time.Second {
					c.Violation("query %d took %v", i+1, d)
				}
				c.State("%v %d %s", sync, retries, n)
			}
			backend.Size()
			backend.Close()
		}
	}
}

func init() {
	register(&Check{
		ID:    "P30",
		Level: "fault_enumeration",
		Rule:  "every sequence of queries up to the length over two names (one with a large response, one in two spellings) and flushes, with every assignment of up to the stated number of faults from the alphabet to the store's commands; a state is a distinct assignment",
		Assumptions: []string{"a value that decodes as a response stored under the same key is believed", "store client configured as by the program",
			"time limits are judged with a margin of seconds"},
		Scenarios: func(tier string) []Scenario {
			alpha := []string{"a", "b", "f"}
			depth, budget := 3, 2
			var out []Scenario
			tuples(len(alpha), depth, func(t []int) {
				var seq []string
				for _, k := range t {
					seq = append(seq, alpha[k])
				}
				name := strings.Join(seq, "")
				out = append(out, Scenario{Name: "sync-" + name, Run: p30Run(seq, budget, true, -1), CrashIsViolation: true})
				out = append(out, Scenario{Name: "async-" + name, Run: p30Run(seq, 1, false, -1), CrashIsViolation: true})
				if tier == "thorough" {
					out = append(out, Scenario{Name: "deep-" + name, Run: p30Run(seq, 3, true, -1), CrashIsViolation: true})
					out = append(out, Scenario{Name: "retry-" + name, Run: p30Run(seq, 2, true, 0), CrashIsViolation: true})
				}
			})
			for _, name := range []string{"aAa", "Aba", "afA"} {
				out = append(out, Scenario{Name: "case-" + name, Run: p30Run(strings.Split(name, ""), budget, true, -1), CrashIsViolation: true})
			}
			return append(out, Scenario{Name: "down", Run: p30Down, CrashIsViolation: true})
		},
	})
}
