package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p15Kind is one of the elements that reload lists.
type p15Kind struct {
	name string
	bad  string                 // a rule that is refused
	rule func(probe int) string // rule for a probe
	mk   func(loaders []rdns.BlocklistLoader, stub bool) (rdns.Resolver, error)
	// ask gives the probes that were judged to be listed.
	ask func(r rdns.Resolver) string
}

const p15Refresh = 10 * time.Second

func p15Kinds() []p15Kind {
	up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return reply(q, 0), nil }}
	alt := &fn{"alt", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return reply(q, dns.RcodeRefused), nil }}
	domainRule := func(i int) string { return fmt.Sprintf("p%d.x", i) }
	cidrRule := func(i int) string { return fmt.Sprintf("10.0.0.%d", i) }
	names := func(good int) func(rdns.Resolver) string {
		return func(r rdns.Resolver) string {
			s := ""
			for i := 0; i < 3; i++ {
				a, err := r.Resolve(query(fmt.Sprintf("p%d.x.", i), 1), rdns.ClientInfo{})
				if err != nil || a == nil {
					return "failed"
				}
				if a.Rcode != good {
					s += fmt.Sprint(i)
				}
			}
			return s
		}
	}
	mkDB := func(f func(string, rdns.BlocklistLoader) (rdns.BlocklistDB, error)) func(ls []rdns.BlocklistLoader, stub bool) (rdns.BlocklistDB, error) {
		return func(ls []rdns.BlocklistLoader, stub bool) (rdns.BlocklistDB, error) {
			var dbs []rdns.BlocklistDB
			for _, l := range ls {
				g := f
				if stub {
					g = newStubNames
				}
				db, err := g("l", l)
				if err != nil {
					return nil, err
				}
				dbs = append(dbs, db)
			}
			if len(dbs) == 1 {
				return dbs[0], nil
			}
			return rdns.NewMultiDB(dbs...)
		}
	}
	domainDB := mkDB(func(n string, l rdns.BlocklistLoader) (rdns.BlocklistDB, error) { return rdns.NewDomainDB(n, l) })
	regexpDB := mkDB(func(n string, l rdns.BlocklistLoader) (rdns.BlocklistDB, error) { return rdns.NewRegexpDB(n, l) })
	cidrDB := func(ls []rdns.BlocklistLoader, stub bool) (rdns.IPBlocklistDB, error) {
		var dbs []rdns.IPBlocklistDB
		for _, l := range ls {
			var db rdns.IPBlocklistDB
			var err error
			if stub {
				db, err = newStubIPs(l)
			} else {
				db, err = rdns.NewCidrDB("l", l)
			}
			if err != nil {
				return nil, err
			}
			dbs = append(dbs, &closableDB{IPBlocklistDB: db})
		}
		if len(dbs) == 1 {
			return dbs[0], nil
		}
		return rdns.NewMultiIPDB(dbs...)
	}
	return []p15Kind{
		{"blocklist", "a*b.x", domainRule, func(ls []rdns.BlocklistLoader, stub bool) (rdns.Resolver, error) {
			db, err := domainDB(ls, stub)
			if err != nil {
				return nil, err
			}
			return rdns.NewBlocklist("b", up, rdns.BlocklistOptions{BlocklistDB: db, BlocklistRefresh: p15Refresh})
		}, names(0)},
		{"allowlist", "a(", domainRule, func(ls []rdns.BlocklistLoader, stub bool) (rdns.Resolver, error) {
			db, err := regexpDB(ls, stub)
			if err != nil {
				return nil, err
			}
			all, _ := rdns.NewRegexpDB("all", rdns.NewStaticLoader([]string{"."}))
			return rdns.NewBlocklist("b", up, rdns.BlocklistOptions{BlocklistDB: all, AllowlistDB: db, AllowlistRefresh: p15Refresh})
		}, names(dns.RcodeNameError)},
		{"client", "10.0.0.0/99", cidrRule, func(ls []rdns.BlocklistLoader, stub bool) (rdns.Resolver, error) {
			db, err := cidrDB(ls, stub)
			if err != nil {
				return nil, err
			}
			return rdns.NewClientBlocklist("b", up, rdns.ClientBlocklistOptions{BlocklistDB: db, BlocklistRefresh: p15Refresh})
		}, func(r rdns.Resolver) string {
			s := ""
			for i := 0; i < 3; i++ {
				a, err := r.Resolve(query("q.x.", 1), rdns.ClientInfo{SourceIP: net.IP{10, 0, 0, byte(i)}})
				if err != nil || a == nil {
					return "failed"
				}
				if a.Rcode != 0 {
					s += fmt.Sprint(i)
				}
			}
			return s
		}},
		{"response-ip-filter", "10.0.0.0/99", cidrRule, func(ls []rdns.BlocklistLoader, stub bool) (rdns.Resolver, error) {
			db, err := cidrDB(ls, stub)
			if err != nil {
				return nil, err
			}
			u := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				return reply(q, 0, rrs("q.x. 1 IN A 10.0.0.0", "q.x. 1 IN A 10.0.0.1", "q.x. 1 IN A 10.0.0.2", "q.x. 1 IN A 10.0.0.9")...), nil
			}}
			return rdns.NewResponseBlocklistIP("b", u, rdns.ResponseBlocklistIPOptions{BlocklistDB: db, BlocklistRefresh: p15Refresh, Filter: true})
		}, func(r rdns.Resolver) string {
			a, err := r.Resolve(query("q.x.", 1), rdns.ClientInfo{})
			if err != nil || a == nil {
				return "failed"
			}
			s := ""
			for i := 0; i < 3; i++ {
				if !strings.Contains(sections(a), fmt.Sprintf(" 10.0.0.%d", i)) {
					s += fmt.Sprint(i)
				}
			}
			return s
		}},
		{"response-ip", "10.0.0.0/99", cidrRule, func(ls []rdns.BlocklistLoader, stub bool) (rdns.Resolver, error) {
			db, err := cidrDB(ls, stub)
			if err != nil {
				return nil, err
			}
			u := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				a := reply(q, 0)
				for _, c := range q.Question[0].Name[1:] {
					if c == '.' {
						break
					}
					a.Answer = append(a.Answer, rr(fmt.Sprintf("q.x. 1 IN A 10.0.0.%c", c)))
				}
				return a, nil
			}}
			return rdns.NewResponseBlocklistIP("b", u, rdns.ResponseBlocklistIPOptions{BlocklistDB: db, BlocklistRefresh: p15Refresh, BlocklistResolver: alt})
		}, names(0)},
		{"response-name", "a*b.x", domainRule, func(ls []rdns.BlocklistLoader, stub bool) (rdns.Resolver, error) {
			db, err := domainDB(ls, stub)
			if err != nil {
				return nil, err
			}
			u := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				a := reply(q, 0)
				for _, c := range q.Question[0].Name[1:] {
					if c == '.' {
						break
					}
					a.Answer = append(a.Answer, rr(fmt.Sprintf("q.x. 1 IN NS p%c.x.", c)))
				}
				return a, nil
			}}
			return rdns.NewResponseBlocklistName("b", u, rdns.ResponseBlocklistNameOptions{BlocklistDB: db, BlocklistRefresh: p15Refresh})
		}, names(0)},
	}
}

// stubNames and stubIPs are lists without inner structure, for the schedules.
type stubNames struct {
	l     rdns.BlocklistLoader
	rules []string
}

func stubRules(l rdns.BlocklistLoader) ([]string, error) {
	rules, err := l.Load()
	if err != nil {
		return nil, err
	}
	for _, r := range rules {
		if strings.ContainsAny(r, "*(/") {
			return nil, errors.New("bad rule")
		}
	}
	return rules, nil
}

func newStubNames(_ string, l rdns.BlocklistLoader) (rdns.BlocklistDB, error) {
	rules, err := stubRules(l)
	return &stubNames{l, rules}, err
}

func (s *stubNames) Reload() (rdns.BlocklistDB, error) {
	rules, err := stubRules(s.l)
	if err != nil {
		return nil, err
	}
	return &stubNames{s.l, rules}, nil
}

func (s *stubNames) Match(q *dns.Msg) ([]net.IP, []string, *rdns.BlocklistMatch, bool) {
	for _, r := range s.rules {
		if r == strings.TrimSuffix(q.Question[0].Name, ".") {
			return nil, nil, &rdns.BlocklistMatch{}, true
		}
	}
	return nil, nil, nil, false
}

func (s *stubNames) String() string { return "stub" }

type stubIPs struct {
	l     rdns.BlocklistLoader
	rules []string
}

func newStubIPs(l rdns.BlocklistLoader) (rdns.IPBlocklistDB, error) {
	rules, err := stubRules(l)
	return &stubIPs{l, rules}, err
}

func (s *stubIPs) Reload() (rdns.IPBlocklistDB, error) {
	rules, err := stubRules(s.l)
	if err != nil {
		return nil, err
	}
	return &stubIPs{s.l, rules}, nil
}

func (s *stubIPs) Match(ip net.IP) (*rdns.BlocklistMatch, bool) {
	for _, r := range s.rules {
		if r == ip.String() {
			return &rdns.BlocklistMatch{}, true
		}
	}
	return nil, false
}

func (s *stubIPs) Close() error   { return nil }
func (s *stubIPs) String() string { return "stub" }

// closableDB notices use after being closed.
type closableDB struct {
	rdns.IPBlocklistDB
	closed bool
}

func (d *closableDB) Match(ip net.IP) (*rdns.BlocklistMatch, bool) {
	if d.closed {
		panic("list used after it was closed")
	}
	vsched.Point()
	if d.closed {
		panic("list closed while in use")
	}
	return d.IPBlocklistDB.Match(ip)
}

func (d *closableDB) Reload() (rdns.IPBlocklistDB, error) {
	db, err := d.IPBlocklistDB.Reload()
	if err != nil {
		return nil, err
	}
	return &closableDB{IPBlocklistDB: db}, nil
}

func (d *closableDB) Close() error {
	d.closed = true
	return d.IPBlocklistDB.Close()
}

// stubLoader returns what the scenario prepared.
type stubLoader struct {
	f func() ([]string, error)
}

func (l stubLoader) Load() ([]string, error) { return l.f() }

// p15Concurrent: callers query while the list is replaced. Version v of the
// list holds exactly rule v%3, spread over one or two lists.
func p15Concurrent(k p15Kind, lists, callers, reloads int) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		e.Quiet(true)
		loads := make([]int, lists)
		outcome := make([]int, reloads+1)
		for v := 1; v <= reloads; v++ {
			outcome[v] = e.Choose(3, "reload")
		}
		inForce := []int{0}
		for v := 1; v <= reloads; v++ {
			if outcome[v] == 0 {
				inForce = append(inForce, v)
			} else {
				inForce = append(inForce, inForce[v-1])
			}
		}
		var ls []rdns.BlocklistLoader
		for i := 0; i < lists; i++ {
			ls = append(ls, stubLoader{func() ([]string, error) {
				v := loads[i]
				loads[i]++
				if v > reloads {
					v = inForce[reloads]
				} else if i == lists-1 {
					// The last list decides about the outcome.
					switch outcome[v] {
					case 1:
						return nil, errUpstream
					case 2:
						return []string{k.rule(v % 3), k.bad}, nil
					}
				}
				if v%lists != i {
					return nil, nil
				}
				return []string{k.rule(v % 3)}, nil
			}})
		}
		r, err := k.mk(ls, true)
		if err != nil {
			e.Fail("not created: %v", err)
		}
		e.Settle()
		e.Quiet(false)
		done := make([]bool, callers)
		multiRec := k.name == "response-ip" || k.name == "response-name"
		judge := func() {
			if multiRec {
				// Blocked by every version: anything else is a mixture.
				for _, set := range []string{"012", "210"} {
					a, err := r.Resolve(query("p"+set+".x.", 1), rdns.ClientInfo{})
					if err != nil || a == nil || a.Rcode == 0 {
						e.Fail("response with addresses listed in every version passed: %s", shortMsg(a, err))
					}
				}
			}
		}
		for i := 0; i < callers; i++ {
			e.Go(fmt.Sprintf("client%d", i), func() {
				defer func() { done[i] = true }()
				vsched.Sleep(p15Refresh)
				last := -1
				for n := 0; n < 2; n++ {
					judge()
					if multiRec {
						continue
					}
					s := p15Ask(e, k, r)
					// The verdict must be that of one version, not older than before.
					ok := false
					for v := 0; v <= reloads; v++ {
						if s == fmt.Sprint(inForce[v]%3) && v >= last {
							ok = true
							last = v
							break
						}
					}
					if !ok {
						e.Fail("client %d: verdict %q is not that of one version (in force %v, at least %d)", i, s, inForce, last)
					}
				}
			})
		}
		e.Wait("clients", func() bool {
			for _, d := range done {
				if !d {
					return false
				}
			}
			return true
		})
		e.Quiet(true)
		e.Advance(time.Duration(reloads)*p15Refresh - e.Elapsed() + time.Second)
		if got, want := k.ask(r), fmt.Sprint(inForce[reloads]%3); got != want {
			e.Fail("after all reloads: listed %q, want %q", got, want)
		}
		e.Outcome("%v", inForce)
	}
}

// p15Ask asks in one go where the element allows it.
func p15Ask(e *vsched.Exec, k p15Kind, r rdns.Resolver) string {
	if k.name == "response-ip-filter" {
		return k.ask(r)
	}
	// One probe per query: ask the probes until one is listed.
	for {
		for i := 0; i < 3; i++ {
			var a *dns.Msg
			var err error
			if k.name == "client" {
				a, err = r.Resolve(query("q.x.", 1), rdns.ClientInfo{SourceIP: net.IP{10, 0, 0, byte(i)}})
			} else {
				a, err = r.Resolve(query(fmt.Sprintf("p%d.x.", i), 1), rdns.ClientInfo{})
			}
			if err != nil || a == nil {
				e.Fail("query failed: %v", err)
			}
			hit := a.Rcode != 0
			if k.name == "allowlist" {
				hit = a.Rcode == 0
			}
			if hit {
				return fmt.Sprint(i)
			}
		}
	}
}

// p15Outcome is what a source delivers.
type p15Outcome struct {
	name  string
	ok    bool
	rules []int // -1: a rule that is refused
	serve func(body string) (int, io.Reader, error)
	file  func(path, body string)
}

type failingReader struct {
	data string
	done bool
}

func (r *failingReader) Read(p []byte) (int, error) {
	if r.done {
		return 0, io.ErrUnexpectedEOF
	}
	r.done = true
	return copy(p, r.data), nil
}

func p15Outcomes() []p15Outcome {
	ok := func(name string, rules ...int) p15Outcome {
		return p15Outcome{name, true, rules,
			func(b string) (int, io.Reader, error) { return 200, strings.NewReader(b), nil },
			func(p, b string) { os.WriteFile(p, []byte(b), 0o600) }}
	}
	long := "# " + strings.Repeat("x", 70000)
	return []p15Outcome{
		ok("list-0", 0), ok("list-12", 1, 2), ok("empty"), ok("bad-rule", 0, 1, -1),
		{"missing", false, nil, func(b string) (int, io.Reader, error) { return 404, strings.NewReader("p0.x\n"), nil },
			func(p, b string) { os.Remove(p) }},
		{"unreadable", false, nil, func(b string) (int, io.Reader, error) { return 0, nil, errors.New("unreachable") },
			func(p, b string) { os.Mkdir(p, 0o700) }},
		{"cut-off", false, []int{2}, func(b string) (int, io.Reader, error) { return 200, &failingReader{data: b}, nil },
			func(p, b string) { os.WriteFile(p, []byte(b+long+"\n"), 0o600) }},
		{"server-error", false, []int{2}, func(b string) (int, io.Reader, error) { return 500, strings.NewReader(b), nil }, nil},
	}
}

type p15Transport struct {
	next func() (int, io.Reader, error)
}

func (t *p15Transport) RoundTrip(req *http.Request) (*http.Response, error) {
	code, body, err := t.next()
	if err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(body), ContentLength: -1, Request: req}, nil
}

// p15History: start, reloads and restarts with every outcome of the source at
// every step.
func p15History(k p15Kind, src string, allow, cache bool, plan []int, start int) func(*C) {
	return func(c *C) {
		outs := p15Outcomes()
		if src == "file" {
			outs = outs[:7]
		}
		steps := 0
		for _, n := range plan {
			steps += 1 + n
		}
		body := func(o p15Outcome) string {
			s := ""
			for _, p := range o.rules {
				if p < 0 {
					s += k.bad + "\n"
				} else {
					s += k.rule(p) + "\n"
				}
			}
			return s
		}
		tr := &p15Transport{}
		saved := http.DefaultClient.Transport
		http.DefaultClient.Transport = tr
		defer func() { http.DefaultClient.Transport = saved }()
		dir := scratchDir()
		defer os.RemoveAll(dir)
		tuples(len(outs), steps-1, func(t0 []int) {
			if c.Full() {
				return
			}
			t := append([]int{start}, t0...)
			var nm []string
			for _, i := range t {
				nm = append(nm, outs[i].name)
			}
			c.Case(fmt.Sprintf("%v plan %v", nm, plan))
			for _, f := range []string{"cache", "list"} {
				if err := os.RemoveAll(filepath.Join(dir, f)); err != nil {
					panic(err)
				}
			}
			os.Mkdir(filepath.Join(dir, "cache"), 0o700)
			path := filepath.Join(dir, "list")
			var disk, last []int
			haveDisk := false
			pos := 0
			next := func() p15Outcome {
				o := outs[t[pos]]
				pos++
				if src == "file" {
					if err := os.RemoveAll(path); err != nil {
						panic(err)
					}
					o.file(path, body(o))
				} else {
					tr.next = func() (int, io.Reader, error) { return o.serve(body(o)) }
				}
				return o
			}
			// load models one load of the source.
			load := func(o p15Outcome, first bool) ([]int, bool) {
				if first && cache && haveDisk {
					last = disk
					return disk, true
				}
				if o.ok {
					last = o.rules
					if cache {
						disk, haveDisk = o.rules, true
					}
					return o.rules, true
				}
				if allow {
					return last, true
				}
				return nil, false
			}
			valid := func(rules []int) bool {
				for _, r := range rules {
					if r < 0 {
						return false
					}
				}
				return true
			}
			show := func(rules []int) string {
				var s []bool = make([]bool, 3)
				for _, r := range rules {
					s[r] = true
				}
				o := ""
				for i, b := range s {
					if b {
						o += fmt.Sprint(i)
					}
				}
				return o
			}
			for _, n := range plan {
				stop := false
				c.Exec(vsched.Config{}, func(e *vsched.Exec) {
					last = nil
					o := next()
					var l rdns.BlocklistLoader
					if src == "file" {
						l = rdns.NewFileLoader(path, rdns.FileLoaderOptions{AllowFailure: allow})
					} else {
						opt := rdns.HTTPLoaderOptions{AllowFailure: allow}
						if cache {
							opt.CacheDir = filepath.Join(dir, "cache")
						}
						l = rdns.NewHTTPLoader("http://lists.invalid/l", opt)
					}
					r, err := k.mk([]rdns.BlocklistLoader{l}, false)
					c.Step()
					want, ok := load(o, true)
					if ok && !valid(want) {
						ok = false
					}
					if ok != (err == nil) {
						e.Fail("start with %s: %v, want success %v", o.name, err, ok)
					}
					if !ok {
						pos += n
						stop = haveDisk // a stored list with a bad rule: not pursued
						return
					}
					for i := 0; ; i++ {
						if got := k.ask(r); got != show(want) {
							e.Fail("step %d: listed %q, want %q", i, got, show(want))
						}
						c.State("%s %q %v %v %v", k.name, show(want), disk, last, haveDisk)
						if i == n {
							break
						}
						o := next()
						e.Advance(p15Refresh)
						c.Step()
						if rules, ok := load(o, false); ok && valid(rules) {
							want = rules
						}
					}
					if haveDisk && !valid(disk) {
						stop = true
					}
				})
				if stop {
					break
				}
			}
		})
	}
}

func init() {
	register(&Check{
		ID:    "P15",
		Level: "model_checking",
		Rule:  "schedules: every interleaving up to the bound of queries with one or two reloads of one or two lists, each reload succeeding, failing or delivering a bad rule; histories: every outcome of the source at the start, at each reload and after a restart, for every loader and its options. A state is a distinct (rules in force, stored copy, last good copy)",
		Assumptions: []string{
			"HTTP responses are supplied below the HTTP client, files are real files in a scratch directory",
			"a list with a bad rule that was stored for the next start is not restarted from",
		},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			d := 3
			if tier == "thorough" {
				d = 4
			}
			for _, k := range p15Kinds() {
				for lists := 1; lists <= 2; lists++ {
					out = append(out, sharded(4, Scenario{Name: fmt.Sprintf("concurrent-%s-%d", k.name, lists), Weight: 4,
						Cfg: vsched.Config{Deviations: d, Delay: true}, Body: p15Concurrent(k, lists, 2, 2)})...)
				}
			}
			plan := []int{2, 1}
			if tier == "thorough" {
				plan = []int{2, 2}
			}
			kinds := p15Kinds()
			for o := range p15Outcomes() {
				for _, v := range []struct {
					src          string
					allow, cache bool
				}{{"file", false, false}, {"file", true, false}, {"http", false, false}, {"http", true, false}, {"http", false, true}, {"http", true, true}} {
					if v.src == "file" && o >= 7 {
						continue
					}
					p := plan
					if !v.cache {
						p = []int{plan[0] + 1}
					}
					out = append(out, Scenario{Name: fmt.Sprintf("history-%s-%v-%v-%d", v.src, v.allow, v.cache, o), Weight: 3,
						Run: p15History(kinds[0], v.src, v.allow, v.cache, p, o)})
				}
				for i := 1; i < len(kinds); i++ {
					out = append(out, Scenario{Name: fmt.Sprintf("history-%s-%d", kinds[i].name, o), Weight: 3,
						Run: p15History(kinds[i], "http", true, true, []int{2}, o)})
				}
			}
			return out
		},
	})
}
