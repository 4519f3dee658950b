package main

import (
	"fmt"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// Upstream responses used by the cache drivers.
type upResp struct {
	name string
	mk   func(q *dns.Msg, tag int) (*dns.Msg, error)
}

func aRec(q *dns.Msg, ttl uint32, tag int) dns.RR {
	return rr(fmt.Sprintf("%s %d IN A 10.0.%d.%d", q.Question[0].Name, ttl, tag/256, tag%256))
}

func soa(ttl uint32, tag int) dns.RR {
	return rr(fmt.Sprintf("test. %d IN SOA ns.test. host.test. %d 1 1 1 1", ttl, tag))
}

var cacheResponses = map[string]func(q *dns.Msg, tag int) (*dns.Msg, error){
	"a10":  func(q *dns.Msg, tag int) (*dns.Msg, error) { return reply(q, 0, aRec(q, 10, tag)), nil },
	"a3":   func(q *dns.Msg, tag int) (*dns.Msg, error) { return reply(q, 0, aRec(q, 3, tag)), nil },
	"a100": func(q *dns.Msg, tag int) (*dns.Msg, error) { return reply(q, 0, aRec(q, 100, tag)), nil },
	"a0":   func(q *dns.Msg, tag int) (*dns.Msg, error) { return reply(q, 0, aRec(q, 0, tag)), nil },
	"a20+10": func(q *dns.Msg, tag int) (*dns.Msg, error) {
		return reply(q, 0, aRec(q, 20, tag), aRec(q, 10, tag+128)), nil
	},
	"chain": func(q *dns.Msg, tag int) (*dns.Msg, error) {
		n := q.Question[0].Name
		return reply(q, 0, rr(n+" 20 IN CNAME c.test."), rr("c.test. 20 IN A 1.0.0.1"), rr("c.test. 15 IN TXT x"), rr("c.test. 20 IN A 1.0.0.2"), rr("c.test. 20 IN AAAA 2001:db8::1")), nil
	},
	"a10/extra3": func(q *dns.Msg, tag int) (*dns.Msg, error) {
		a := reply(q, 0, aRec(q, 10, tag))
		a.Ns = rrs("test. 12 IN NS ns.test.")
		a.Extra = rrs("ns.test. 3 IN A 9.9.9.9")
		return a, nil
	},
	"a10/opt": func(q *dns.Msg, tag int) (*dns.Msg, error) {
		a := reply(q, 0, aRec(q, 10, tag))
		a.AuthenticatedData = true
		a.RecursionAvailable = true
		withOpt(a, true, &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "00112233"})
		return a, nil
	},
	"nx-soa5": func(q *dns.Msg, tag int) (*dns.Msg, error) {
		a := reply(q, dns.RcodeNameError)
		a.Ns = []dns.RR{soa(5, tag)}
		return a, nil
	},
	"nx":     func(q *dns.Msg, tag int) (*dns.Msg, error) { return reply(q, dns.RcodeNameError), nil },
	"nodata": func(q *dns.Msg, tag int) (*dns.Msg, error) { return reply(q, 0), nil },
	"nodata-soa7": func(q *dns.Msg, tag int) (*dns.Msg, error) {
		a := reply(q, 0)
		a.Ns = []dns.RR{soa(7, tag)}
		return a, nil
	},
	"servfail": func(q *dns.Msg, tag int) (*dns.Msg, error) { return reply(q, dns.RcodeServerFailure), nil },
	"refused":  func(q *dns.Msg, tag int) (*dns.Msg, error) { return reply(q, dns.RcodeRefused), nil },
	"notimp":   func(q *dns.Msg, tag int) (*dns.Msg, error) { return reply(q, dns.RcodeNotImplemented), nil },
	"formerr":  func(q *dns.Msg, tag int) (*dns.Msg, error) { return reply(q, dns.RcodeFormatError), nil },
	"yxdomain": func(q *dns.Msg, tag int) (*dns.Msg, error) { return reply(q, dns.RcodeYXDomain, aRec(q, 10, tag)), nil },
	"trunc": func(q *dns.Msg, tag int) (*dns.Msg, error) {
		a := reply(q, 0, aRec(q, 10, tag))
		a.Truncated = true
		return a, nil
	},
	"error": func(q *dns.Msg, tag int) (*dns.Msg, error) { return nil, errUpstream },
	"drop":  func(q *dns.Msg, tag int) (*dns.Msg, error) { return nil, nil },
}

// cacheModel is the reference: what may be served for a key, and when.
type cacheEntry struct {
	wire     []byte
	stored   time.Time
	limit    time.Duration // lifetime of the whole entry
	rcode    int
	eligible bool
}

type cacheModel struct {
	opt     rdns.CacheOptions
	entries map[string]*cacheEntry
}

func modelMin(a *dns.Msg) (uint32, bool) {
	var min uint32
	found := false
	for _, sec := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
		for _, r := range sec {
			if r.Header().Rrtype == dns.TypeOPT {
				continue
			}
			if !found || r.Header().Ttl < min {
				min, found = r.Header().Ttl, true
			}
		}
	}
	return min, found
}

func (m *cacheModel) store(key string, a *dns.Msg) bool {
	if a == nil || a.Truncated {
		return false
	}
	neg := m.opt.NegativeTTL
	if neg == 0 {
		neg = 60
	}
	min, ok := modelMin(a)
	e := &cacheEntry{stored: vsched.Now(), rcode: a.Rcode}
	switch a.Rcode {
	case dns.RcodeSuccess, dns.RcodeNameError, dns.RcodeRefused, dns.RcodeNotImplemented, dns.RcodeFormatError:
		l := neg
		if ok {
			l = min
			e.eligible = min > m.opt.PrefetchEligible
		}
		e.limit = time.Duration(l) * time.Second
	case dns.RcodeServerFailure:
		if neg > 300 {
			neg = 300
		}
		e.limit = time.Duration(neg) * time.Second
	default:
		return false
	}
	if l, ok := m.opt.CacheRcodeMaxTTL[a.Rcode]; ok && e.limit > time.Duration(l)*time.Second {
		e.limit = time.Duration(l) * time.Second
	}
	w, err := a.Copy().Pack()
	if err != nil {
		panic(err)
	}
	e.wire = w
	m.entries[key] = e
	return true
}

// lookup returns the expected response, or nil. boundary reports that the
// entry is exactly at the end of its lifetime, where both are acceptable.
func (m *cacheModel) lookup(key string, q *dns.Msg) (a *dns.Msg, entry *cacheEntry, boundary bool) {
	e := m.entries[key]
	if e == nil {
		return nil, nil, false
	}
	age := vsched.Now().Sub(e.stored)
	if age > e.limit {
		return nil, nil, false
	}
	a = new(dns.Msg)
	if err := a.Unpack(e.wire); err != nil {
		panic(err)
	}
	a.Id = q.Id
	a.Question = append([]dns.Question(nil), q.Question...)
	secs := uint32(age / time.Second)
	for _, sec := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
		for _, r := range sec {
			if r.Header().Rrtype == dns.TypeOPT {
				continue
			}
			if r.Header().Ttl <= secs {
				return nil, nil, false
			}
			r.Header().Ttl -= secs
		}
	}
	return a, e, age == e.limit
}

// Histories of queries and time steps. All choices are enumerated.
func p01Body(opt rdns.CacheOptions, responses []string, names []string, gaps []time.Duration, queries int, flush bool) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		m := &cacheModel{opt: opt, entries: map[string]*cacheEntry{}}
		tag := 0
		type call struct {
			key string
			msg *dns.Msg
			err error
		}
		var calls []call
		up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			tag++
			r := responses[e.Choose(len(responses), "response")]
			a, err := cacheResponses[r](q, tag)
			e.Logf("upstream answers %s with %s", q.Question[0].Name, r)
			c := call{key: strings.ToLower(q.Question[0].Name), err: err}
			if a != nil {
				c.msg = a.Copy()
			}
			calls = append(calls, c)
			return a, err
		}}
		opt := opt
		opt.Backend = rdns.NewMemoryBackend(rdns.MemoryBackendOptions{})
		cache := rdns.NewCache("c", up, opt)
		for i := 0; i < queries; i++ {
			if i > 0 {
				n := len(gaps)
				if flush {
					n++
				}
				g := e.Choose(n, "gap")
				if g == len(gaps) {
					q := query("flush.test.", dns.TypeA)
					a, err := cache.Resolve(q, rdns.ClientInfo{})
					if err != nil || a == nil || a.Id != q.Id {
						e.Fail("flush query not answered: %s", shortMsg(a, err))
					}
					m.entries = map[string]*cacheEntry{}
				} else {
					e.Advance(gaps[g])
				}
			}
			name := names[e.Choose(len(names), "name")]
			key := strings.ToLower(name)
			q := query(name, dns.TypeA)
			q.Id = uint16(100 + i)
			before := full(q)
			calls = nil
			a, err := cache.Resolve(q, rdns.ClientInfo{})
			if full(q) != before {
				e.Fail("query modified: %s", full(q))
			}
			e.Logf("query %s -> %s", name, shortMsg(a, err))
			want, ent, boundary := m.lookup(key, q)
			fromModel := want != nil
			below := false
			if want == nil && opt.HardenBelowNXDOMAIN {
				labels := strings.Split(key, ".")
				for j := 1; j < len(labels)-1; j++ {
					if _, pe, b := m.lookup(strings.Join(labels[j:], "."), q); pe != nil {
						if pe.rcode == dns.RcodeNameError {
							below = true
							boundary = b
						}
						break
					}
				}
			}
			sync := calls // upstream calls made before Resolve returned
			hit := len(sync) == 0
			switch {
			case hit && err != nil:
				e.Fail("error without asking the upstream: %v", err)
			case hit && below:
				if a == nil || a.Rcode != dns.RcodeNameError || a.Id != q.Id || len(a.Answer) != 0 || len(a.Question) != 1 || a.Question[0] != q.Question[0] {
					e.Fail("%s below a non-existent name answered with %s", name, full(a))
				}
			case hit && !fromModel:
				e.Fail("%s served from the cache although nothing valid is stored: %s", name, full(a))
			case hit:
				if opt.ShuffleAnswerFunc != nil {
					// Address records may trade places, nothing else.
					if len(a.Answer) != len(want.Answer) {
						e.Fail("%s served as %s instead of %s", name, full(a), full(want))
					}
					var x, y []string
					for k := range want.Answer {
						if t := want.Answer[k].Header().Rrtype; t == dns.TypeA || t == dns.TypeAAAA {
							x = append(x, a.Answer[k].String())
							y = append(y, want.Answer[k].String())
						} else if a.Answer[k].String() != want.Answer[k].String() {
							e.Fail("%s: record moved by shuffling: %s instead of %s", name, full(a), full(want))
						}
					}
					if strings.Join(sorted(x), "|") != strings.Join(sorted(y), "|") {
						e.Fail("%s: records changed by shuffling: %s instead of %s", name, full(a), full(want))
					}
					a.Answer = want.Answer
				}
				if full(a) != full(want) {
					e.Fail("%s served as %s instead of %s", name, full(a), full(want))
				}
			case (fromModel || below) && !boundary:
				e.Fail("%s fetched again although a valid response is stored", name)
			default:
				if len(sync) != 1 {
					e.Fail("%d upstream queries for one query", len(sync))
				}
				c := sync[0]
				if (c.err != nil) != (err != nil) {
					e.Fail("upstream error not passed on: %v", err)
				}
				if full(c.msg) != full(a) {
					e.Fail("upstream response %s returned as %s", full(c.msg), full(a))
				}
				m.store(key, c.msg)
			}
			// Let a background refresh finish.
			calls = nil
			var remaining uint32
			if hit && fromModel {
				remaining, _ = modelMin(want)
			}
			if a != nil {
				for _, r := range a.Answer {
					r.Header().Ttl = 7777
					r.Header().Name = "scribble."
				}
				a.Rcode = 15
			}
			e.Settle()
			for _, c := range calls {
				if !hit || !fromModel || opt.PrefetchTrigger == 0 {
					e.Fail("unexpected upstream query in the background for %s", c.key)
				}
				if remaining >= opt.PrefetchTrigger || !ent.eligible {
					e.Fail("refresh of %s although not due", c.key)
				}
				if c.msg == nil || c.err != nil {
					continue
				}
				if min, ok := modelMin(c.msg); !ok || min < remaining {
					continue
				}
				m.store(c.key, c.msg)
			}
			e.Outcome("%s%s", map[bool]string{true: "h", false: "m"}[hit], shortMsg(want, nil))
		}
	}
}

func init() {
	register(&Check{
		ID:    "P01",
		Level: "model_checking",
		Rule:  "every history of up to the stated number of queries, upstream response kinds, time gaps and flushes for each cache configuration, executed on the real cache under a virtual clock and compared step by step with a reference cache; a state is a distinct sequence of (hit or miss, expected response)",
		Assumptions: []string{"memory store; the shared store is covered by P30",
			"background refreshes finish before the next query here; their interleaving is covered by P04"},
		Scenarios: func(tier string) []Scenario {
			all := []string{"a10", "a0", "a20+10", "a10/extra3", "a10/opt", "nx-soa5", "nx", "nodata", "nodata-soa7", "servfail", "refused", "notimp", "formerr", "yxdomain", "trunc", "error", "drop"}
			gaps := []time.Duration{400 * time.Millisecond, 1700 * time.Millisecond, 4900 * time.Millisecond, 9900 * time.Millisecond, 59900 * time.Millisecond, 301 * time.Second}
			ser := vsched.Config{Serial: true}
			limits := map[int]uint32{0: 4, 3: 2, 2: 1}
			type cfgT struct {
				name string
				opt  rdns.CacheOptions
			}
			cfgs := []cfgT{
				{"default", rdns.CacheOptions{}},
				{"neg7", rdns.CacheOptions{NegativeTTL: 7}},
				{"neg400", rdns.CacheOptions{NegativeTTL: 400}},
				{"rcodemax", rdns.CacheOptions{CacheRcodeMaxTTL: limits}},
				{"rcodemax0", rdns.CacheOptions{NegativeTTL: 7, CacheRcodeMaxTTL: map[int]uint32{3: 0, 0: 1000, 2: 500}}},
			}
			var out []Scenario
			for _, c := range cfgs {
				out = append(out, Scenario{Name: "one-" + c.name, Cfg: ser, Body: p01Body(c.opt, all, []string{"a.test."}, gaps, 3, false), Weight: 5})
				// The instants at which something runs out.
				out = append(out, Scenario{Name: "exact-" + c.name, Cfg: ser, Body: p01Body(c.opt, all, []string{"a.test."}, []time.Duration{3 * time.Second, 5 * time.Second, 10 * time.Second, 60 * time.Second, 300 * time.Second}, 3, false), Weight: 5})
			}
			few := []string{"a10", "a3", "nx-soa5", "servfail", "drop"}
			n := 4
			if tier == "thorough" {
				n = 5
				for _, c := range cfgs {
					for _, g := range gaps {
						out = append(out, Scenario{Name: fmt.Sprintf("four-%s-%s", c.name, g), Cfg: ser, Body: p01Body(c.opt, all, []string{"a.test."}, []time.Duration{g, 2300 * time.Millisecond}, 4, false), Weight: 9})
					}
				}
			}
			for _, r := range few[1:] {
				out = append(out, Scenario{Name: "names-" + r, Cfg: ser, Body: p01Body(rdns.CacheOptions{FlushQuery: "flush.test."}, []string{"a10", r}, []string{"a.test.", "A.Test.", "b.test."}, []time.Duration{1700 * time.Millisecond, 4900 * time.Millisecond}, n, true), Weight: 8})
			}
			// Background refresh.
			pre := []string{"a10", "a3", "a100", "a0", "nx-soa5", "nodata", "servfail", "trunc", "error", "drop", "yxdomain"}
			pg := []time.Duration{400 * time.Millisecond, 4900 * time.Millisecond, 9900 * time.Millisecond}
			for _, el := range []uint32{0, 9, 10, 50} {
				out = append(out, Scenario{Name: fmt.Sprintf("prefetch-%d", el), Cfg: ser, Body: p01Body(rdns.CacheOptions{PrefetchTrigger: 8, PrefetchEligible: el}, pre, []string{"a.test."}, pg, 3, false), Weight: 6})
				for _, r := range pre {
					if tier == "thorough" || r == "a3" || r == "servfail" || r == "nx-soa5" {
						out = append(out, Scenario{Name: fmt.Sprintf("prefetch4-%d-%s", el, r), Cfg: ser, Body: p01Body(rdns.CacheOptions{PrefetchTrigger: 8, PrefetchEligible: el}, []string{"a10", r}, []string{"a.test."}, pg, n, false), Weight: 6})
					}
				}
			}
			for name, f := range map[string]rdns.AnswerShuffleFunc{"random": rdns.AnswerShuffleRandom, "rr": rdns.AnswerShuffleRoundRobin} {
				out = append(out, Scenario{Name: "shuffle-" + name, Cfg: ser, Weight: 6,
					Body: p01Body(rdns.CacheOptions{ShuffleAnswerFunc: f}, []string{"chain", "a20+10", "nx-soa5", "a10"}, []string{"a.test."}, gaps[:3], 4, false)})
			}
			// Names below a non-existent one.
			for _, r := range []string{"nx-soa5", "nx", "a10", "servfail"} {
				out = append(out, Scenario{Name: "below-" + r, Cfg: ser, Body: p01Body(rdns.CacheOptions{HardenBelowNXDOMAIN: true}, []string{r, "a3", "nx-soa5"}, []string{"a.test.", "x.A.test.", "y.x.a.test.", "test."}, []time.Duration{400 * time.Millisecond, 4900 * time.Millisecond}, n-1, false), Weight: 6})
			}
			return out
		},
	})
}
