package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p06: save and reload.

type p06Entry struct {
	name string
	q    func() *dns.Msg
	a    func(q *dns.Msg) *dns.Msg
}

func p06Entries() []p06Entry {
	return []p06Entry{
		{"short", func() *dns.Msg { return query("short.x.", dns.TypeA) }, func(q *dns.Msg) *dns.Msg {
			return reply(q, 0, rr("short.x. 5 IN A 1.1.1.1"), rr("short.x. 100 IN A 1.1.1.2"))
		}},
		{"negative", func() *dns.Msg { return query("Missing.X.", dns.TypeAAAA) }, func(q *dns.Msg) *dns.Msg {
			a := reply(q, dns.RcodeNameError)
			a.Ns = []dns.RR{rr("x. 80 IN SOA ns.x. h.x. 1 2 3 4 80")}
			a.AuthenticatedData = true
			return a
		}},
		{"subnet", func() *dns.Msg { return withOpt(query("e.x.", dns.TypeTXT), true, subnet("10.1.2.0", 24)) }, func(q *dns.Msg) *dns.Msg {
			a := reply(q, 0, rr(`e.x. 70 IN TXT "a\"b\\\255<&>" "\226\130\172"`))
			a.Extra = []dns.RR{rr("y.x. 90 IN A 9.9.9.9")}
			return a
		}},
		{"odd", func() *dns.Msg {
			q := query("\\000\\200\\.\\\"<.x.", 65280)
			q.CheckingDisabled = true
			return q
		}, func(q *dns.Msg) *dns.Msg { return reply(q, 0, rr("\\000\\200\\.\\\"<.x. 60 IN TYPE65280 \\# 2 abcd")) }},
		{"v6net", func() *dns.Msg { return withOpt(query("e.x.", dns.TypeTXT), false, subnet("2001:db8::", 48)) }, func(q *dns.Msg) *dns.Msg {
			return reply(q, 0, rr(`e.x. 75 IN TXT "v6"`))
		}},
		{"failed", func() *dns.Msg { return query("f.x.", dns.TypeMX) }, func(q *dns.Msg) *dns.Msg { return reply(q, dns.RcodeServerFailure) }},
	}
}

type p06Cache struct {
	c     *rdns.Cache
	b     interface{ Close() error }
	size  func() int
	asked int
}

func p06Open(path string, capacity int, opt rdns.CacheOptions, es []p06Entry, gen *int) *p06Cache {
	p := &p06Cache{}
	up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		p.asked++
		for _, e := range es {
			eq := e.q()
			if eq.Question[0] == q.Question[0] && (eq.IsEdns0() == nil) == (q.IsEdns0() == nil) && (eq.IsEdns0() == nil || eq.IsEdns0().Do() == q.IsEdns0().Do()) {
				a := e.a(q)
				if gen != nil {
					a.Extra = append(a.Extra, rr(fmt.Sprintf("gen.x. 500 IN TXT g%d", *gen)))
				}
				return a, nil
			}
		}
		return reply(q, 0, rr(q.Question[0].Name+" 300 IN A 7.7.7.7")), nil
	}}
	b := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: path, Capacity: capacity, GCPeriod: 1000 * time.Hour})
	opt.Backend = b
	p.c = rdns.NewCache("c", up, opt)
	p.b = b
	p.size = b.Size
	return p
}

// p06Restart compares a cache that is restarted with one that is not.
func p06Restart(capacity, depth int, opt rdns.CacheOptions, pick []int, steps []time.Duration) func(*vsched.Exec) {
	all := p06Entries()
	var es []p06Entry
	for _, i := range pick {
		es = append(es, all[i])
	}
	return func(e *vsched.Exec) {
		dir := scratchDir()
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "c.json")
		gen := 0
		a := p06Open("", capacity, opt, es, &gen)
		b := p06Open(path, capacity, opt, es, &gen)
		e.Settle()
		ask := func(q *dns.Msg, what string) {
			gen++
			a.asked, b.asked = 0, 0
			ra, ea := a.c.Resolve(q.Copy(), rdns.ClientInfo{})
			rb, eb := b.c.Resolve(q.Copy(), rdns.ClientInfo{})
			e.Settle()
			if a.asked != b.asked {
				e.Fail("%s: %d upstream queries after restart, %d without restart", what, b.asked, a.asked)
			}
			if full(ra) != full(rb) || (ea == nil) != (eb == nil) {
				e.Fail("%s: after restart %s, without restart %s", what, shortMsg(rb, eb), shortMsg(ra, ea))
			}
			if a.size() != b.size() {
				e.Fail("%s: size %d after restart, %d without restart", what, b.size(), a.size())
			}
		}
		restart := func() {
			if err := b.b.Close(); err != nil {
				e.Fail("save failed: %v", err)
			}
			b = p06Open(path, capacity, opt, es, &gen)
			e.Settle()
			if a.size() != b.size() {
				e.Fail("size %d after restart, %d without restart", b.size(), a.size())
			}
		}
		restarted := false
		for i := 0; i < depth; i++ {
			op := e.Choose(len(es)+len(steps)+2, "op")
			switch {
			case op < len(es):
				ask(es[op].q(), es[op].name)
			case op < len(es)+len(steps):
				e.Advance(steps[op-len(es)])
			case op == len(es)+len(steps):
				a.c.Resolve(query("flush.", dns.TypeA), rdns.ClientInfo{})
				b.c.Resolve(query("flush.", dns.TypeA), rdns.ClientInfo{})
			default:
				restart()
				restarted = true
			}
		}
		if !restarted {
			restart()
		}
		// New entries push out the old ones in order.
		for i := 0; i < 2; i++ {
			ask(query(fmt.Sprintf("new%d.x.", i), dns.TypeA), "new entry")
			for _, x := range es {
				if i == 0 && capacity > 0 && len(es) > 2 {
					break
				}
				ask(x.q(), x.name+" at the end")
			}
		}
		e.Outcome("%d %s", b.size(), e.Elapsed())
	}
}

// p06Damage starts a cache with damaged files.
func p06Damage(kind string) func(*C) {
	return func(c *C) {
		es := p06Entries()
		start := time.Now()
		dir := scratchDir()
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "c.json")
		var want []string
		c.Exec(vsched.Config{Start: start}, func(e *vsched.Exec) {
			p := p06Open(path, 0, rdns.CacheOptions{}, es, nil)
			for _, x := range es {
				p.c.Resolve(x.q(), rdns.ClientInfo{})
			}
			for _, x := range es {
				p.asked = 0
				a, _ := p.c.Resolve(x.q(), rdns.ClientInfo{})
				want = append(want, full(a))
				if p.asked > 0 && x.name != "failed" {
					e.Fail("entry %s not cached", x.name)
				}
			}
			p.b.Close()
		})
		good, err := os.ReadFile(path)
		if err != nil || len(good) == 0 {
			c.Violation("no cache file written: %v", err)
			return
		}
		// judge starts a cache from the content. An entry for which may is
		// false must be fetched; the others must not be served differently from
		// what was stored. With free, only continued service is checked.
		judge := func(desc string, content []byte, may func(i int) bool, free bool) {
			if c.Full() {
				return
			}
			c.Case(desc)
			if err := os.WriteFile(path, content, 0o600); err != nil {
				c.ToolError("%v", err)
			}
			served := ""
			c.Exec(vsched.Config{Start: start}, func(e *vsched.Exec) {
				p := p06Open(path, 0, rdns.CacheOptions{}, es, nil)
				for round := 0; round < 2; round++ {
					for i, x := range es {
						p.asked = 0
						q := x.q()
						a, err := p.c.Resolve(q, rdns.ClientInfo{})
						if err != nil || a == nil || a.Id != q.Id || len(a.Question) != 1 || a.Question[0] != q.Question[0] {
							e.Fail("query %s not answered: %s", x.name, shortMsg(a, err))
							continue
						}
						if p.asked == 0 && round == 0 {
							served += x.name + ","
							if !free && !may(i) {
								e.Fail("%s served from the file though it is not recorded completely", x.name)
							}
						}
						if !free && full(a) != want[i] {
							e.Fail("%s: %s, recorded %s", x.name, full(a), want[i])
						}
					}
				}
				if err := p.b.Close(); err != nil {
					e.Fail("cannot save afterwards: %v", err)
				}
				p = p06Open(path, 0, rdns.CacheOptions{}, es, nil)
				for _, x := range es {
					p.asked = 0
					a, err := p.c.Resolve(x.q(), rdns.ClientInfo{})
					if err != nil || a == nil || !free && p.asked > 0 && x.name != "failed" {
						e.Fail("%s not cached after saving over the damaged file", x.name)
					}
				}
			})
			c.Step()
			c.State("%s %s", kind, served)
		}
		// Which entries each line holds, found by loading it alone.
		lines := bytes.SplitAfter(good, []byte("\n"))
		if len(lines[len(lines)-1]) == 0 {
			lines = lines[:len(lines)-1]
		}
		holds := func(content []byte) map[int]bool {
			m := map[int]bool{}
			os.WriteFile(path, content, 0o600)
			c.Exec(vsched.Config{Start: start}, func(e *vsched.Exec) {
				p := p06Open(path, 0, rdns.CacheOptions{}, es, nil)
				for i, x := range es {
					p.asked = 0
					p.c.Resolve(x.q(), rdns.ClientInfo{})
					if p.asked == 0 {
						m[i] = true
					}
				}
			})
			return m
		}
		all := func(int) bool { return true }
		none := func(int) bool { return false }
		switch kind {
		case "intact":
			c.Case("intact")
			h := holds(good)
			for i, x := range es {
				if !h[i] && x.name != "failed" {
					c.Violation("%s not served after restart", x.name)
				}
			}
			judge("intact", good, all, false)
		case "truncate":
			// The entries completely contained in a prefix.
			end := make([]int, len(es))
			for i := range end {
				end[i] = len(good) + 1
			}
			off := 0
			for _, l := range lines {
				off += len(l)
				for i := range holds(l) {
					if off < end[i] {
						end[i] = off - 1 // the line break is not needed
					}
				}
			}
			for n := 0; n <= len(good); n++ {
				may := func(i int) bool { return n >= end[i] }
				judge(fmt.Sprintf("cut at %d", n), good[:n], may, false)
				judge(fmt.Sprintf("zeroes from %d", n), append(append([]byte(nil), good[:n]...), make([]byte, len(good)-n)...), may, false)
				judge(fmt.Sprintf("cut at %d and restarted from the beginning", n), append(append([]byte(nil), good[:n]...), good...), all, false)
			}
		case "lines":
			join := func(idx ...int) (b []byte) {
				for _, i := range idx {
					b = append(b, lines[i]...)
				}
				return
			}
			sub := func(idx ...int) func(int) bool {
				m := map[int]bool{}
				for _, j := range idx {
					for i := range holds(lines[j]) {
						m[i] = true
					}
				}
				return func(i int) bool { return m[i] }
			}
			n := len(lines)
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					judge(fmt.Sprintf("lines %d %d", i, j), join(i, j), sub(i, j), false)
					for k := 0; k < n; k++ {
						judge(fmt.Sprintf("lines %d %d %d", i, j, k), join(i, j, k), sub(i, j, k), false)
					}
				}
			}
			// Pieces of a line in the middle of others.
			for i := 0; i < n; i++ {
				for cut := 0; cut < len(lines[i]); cut += 7 {
					b := append([]byte(nil), lines[(i+1)%n]...)
					b = append(b, lines[i][:cut]...)
					b = append(b, lines[(i+2)%n]...)
					judge(fmt.Sprintf("line %d cut at %d between others", i, cut), b, all, false)
				}
			}
		case "foreign":
			for _, s := range []string{"", "\n", "\n\n\n", " ", "null", "null\nnull\n", "{}", "{}\n{}\n", "[]", "[{}]", "1", "\"x\"", "true", "<html></html>", "\x00", "\xff\xfe", "\xef\xbb\xbf", "{", "}", "{\"Key\":", "{\"Key\":null,\"Answer\":null}",
				"{\"Key\":{},\"Answer\":{}}", "{\"Key\":[],\"Answer\":1}", "{\"Key\":{\"Question\":{\"Name\":\"short.x.\",\"Qtype\":1,\"Qclass\":1}},\"Answer\":{}}",
				"{\"Key\":{\"Question\":{\"Name\":\"short.x.\",\"Qtype\":1,\"Qclass\":1}},\"Answer\":{\"Msg\":\"\"}}",
				"{\"Key\":{\"Question\":{\"Name\":\"short.x.\",\"Qtype\":1,\"Qclass\":1}},\"Answer\":{\"Msg\":\"AAAA\"}}",
				"{\"Key\":{\"Question\":{\"Name\":\"short.x.\",\"Qtype\":70000,\"Qclass\":1}},\"Answer\":{\"Msg\":\"AAAA\"}}",
				"{\"Key\":{\"Question\":{\"Name\":\"short.x.\",\"Qtype\":1,\"Qclass\":1}},\"Answer\":{\"Msg\":\"!\"}}",
				strings.Repeat("[", 20000), strings.Repeat("{\"a\":", 20000), strings.Repeat("x", 200000), "\"" + strings.Repeat("x", 200000),
				"{\"Key\":{\"Question\":{\"Name\":\"" + strings.Repeat("a", 70000) + "\"}}}", "short.x. 5 IN A 1.1.1.1\n", "# comment\n",
			} {
				judge(fmt.Sprintf("foreign content %.60q", s), []byte(s), none, false)
				judge(fmt.Sprintf("foreign content %.60q and records", s), append([]byte(s), good...), all, false)
				judge(fmt.Sprintf("foreign content %.60q on a line and records", s), append([]byte(s+"\n"), good...), all, false)
				judge(fmt.Sprintf("records and foreign content %.60q", s), append(append([]byte(nil), good...), s...), all, false)
			}
		case "fields":
			// Every field of every record replaced.
			for li, l := range lines {
				var rec any
				if json.Unmarshal(l, &rec) != nil {
					continue // not JSON any more: covered by the byte-wise damage
				}
				var walk func(v any, put func(any))
				try := func(put func(any), orig any) {
					for _, x := range []any{nil, "", "x", ".", 0, -1, 1.5, 70000, 1e300, true, []any{}, map[string]any{}, "AAAAAAAAAAAAAAAA", "AAAAAQAAAAAAAAAAAAEAAQ==", "0001-01-01T00:00:00Z", "2999-01-01T00:00:00Z", strings.Repeat("a.", 300)} {
						put(x)
						b, err := json.Marshal(rec)
						if err != nil {
							continue
						}
						judge(fmt.Sprintf("record %d with a field set to %.40v", li, x), append(b, '\n'), nil, true)
					}
					put(orig)
				}
				walk = func(v any, put func(any)) {
					if put != nil {
						try(put, v)
					}
					switch m := v.(type) {
					case map[string]any:
						for _, k := range sortedKeys(m) {
							walk(m[k], func(x any) { m[k] = x })
						}
					case []any:
						for i := range m {
							walk(m[i], func(x any) { m[i] = x })
						}
					}
				}
				walk(rec, nil)
			}
		case "bytes":
			for n := range good {
				for _, x := range []byte{0, 0xff, good[n] ^ 1, good[n] ^ 0x20, '"', '}', '0'} {
					if x == good[n] {
						continue
					}
					b := append([]byte(nil), good...)
					b[n] = x
					judge(fmt.Sprintf("byte %d set to %#x", n, x), b, nil, true)
				}
			}
		case "path":
			// Things that are not a readable file.
			judgePath := func(desc string, setup func(p string)) {
				c.Case(desc)
				d := scratchDir()
				defer os.RemoveAll(d)
				p := filepath.Join(d, "c.json")
				setup(p)
				c.Exec(vsched.Config{Start: start}, func(e *vsched.Exec) {
					pc := p06Open(p, 0, rdns.CacheOptions{}, es, nil)
					for i, x := range es {
						a, err := pc.c.Resolve(x.q(), rdns.ClientInfo{})
						if err != nil || full(a) != want[i] {
							e.Fail("query %s not answered: %s", x.name, shortMsg(a, err))
						}
					}
					pc.b.Close()
				})
				c.Step()
				c.State("path %s", desc)
			}
			judgePath("missing", func(string) {})
			judgePath("directory", func(p string) { os.Mkdir(p, 0o700) })
			judgePath("dangling link", func(p string) { os.Symlink(p+"x", p) })
			judgePath("link to itself", func(p string) { os.Symlink(p, p) })
			judgePath("directory missing", func(p string) { os.Remove(filepath.Dir(p)) })
		}
	}
}

func sortedKeys(m map[string]any) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return sorted(out)
}

func init() {
	register(&Check{
		ID:    "P06",
		Level: "model_checking",
		Rule:  "every history of queries, clock steps, flushes and restarts up to the stated depth run on two caches, one of which is really saved and restarted, compared after every operation; every truncation point, zero-filled tail, line selection, foreign content and field or byte replacement of a cache file loaded by the real code. A state is a distinct (size, time) or set of entries served",
		Assumptions: []string{
			"garbage collection of expired entries does not take place during the histories (its phase depends on the start time)",
			"for replaced bytes and fields only continued service is demanded: a value that is valid after the replacement is served",
		},
		Scenarios: func(tier string) []Scenario {
			depth := 6
			if tier == "thorough" {
				depth = 7
			}
			var out []Scenario
			opt := rdns.CacheOptions{FlushQuery: "flush."}
			pre := opt
			pre.PrefetchTrigger, pre.PrefetchEligible = 66, 65
			steps := []time.Duration{2500 * time.Millisecond, 40 * time.Second}
			add := func(name string, cap int, o rdns.CacheOptions, pick []int) {
				depth := depth
				if cap == 1 || cap == 3 {
					depth--
				}
				out = append(out, Scenario{Name: name, Weight: 4, Cfg: vsched.Config{Serial: true}, Body: p06Restart(cap, depth, o, pick, steps)})
			}
			for _, cap := range []int{0, 1, 2, 3} {
				add(fmt.Sprintf("restart-cap%d", cap), cap, opt, []int{0, 1, 2})
				add(fmt.Sprintf("restart2-cap%d", cap), cap, opt, []int{3, 4, 5})
			}
			add("restart-prefetch", 0, pre, []int{0, 1, 2})
			add("restart-prefetch2", 2, pre, []int{2, 3, 4})
			for _, k := range []string{"intact", "truncate", "lines", "foreign", "fields", "bytes", "path"} {
				out = append(out, Scenario{Name: "file-" + k, Weight: 4, Run: p06Damage(k), CrashIsViolation: true})
			}
			return out
		},
	})
}
