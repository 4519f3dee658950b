package main

import (
	"fmt"
	"math"
	"net"
	"regexp"
	"strings"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p21: response modifiers, p22: EDNS0 modifiers, p23: DNS64.

// p21Up is an upstream that records the queries it got and answers with copies.
type p21Up struct {
	seen []string
	msgs []*dns.Msg
	f    func(q *dns.Msg) (*dns.Msg, error)
}

func (u *p21Up) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	u.seen = append(u.seen, full(q))
	u.msgs = append(u.msgs, q.Copy())
	return u.f(q)
}
func (u *p21Up) String() string { return "up" }

// p21Responses calls f with responses to q: records per section from small
// alphabets, all response codes and flags of interest.
func p21Responses(q *dns.Msg, deep bool, f func(desc string, mk func() (*dns.Msg, error))) {
	n := q.Question[0].Name
	answers := []string{
		n + " 0 IN A 1.1.1.1",
		n + " 50 IN A 1.1.1.2",
		"other.x. 300 IN A 1.1.1.3",
		n + " 100 IN CNAME other.x.",
		"other.x. 60 IN AAAA ::1",
		n + " 61 CH A 1.1.1.4",
		"other.x. 4294967295 IN TXT t",
	}
	nss := []string{"", "x. 20 IN SOA ns.x. h.x. 1 2 3 4 5", "x. 5000 IN NS ns.x."}
	extras := []string{"", "ns.x. 1 IN A 2.2.2.2", "OPT", "OPT ns.x. 59 IN AAAA ::2"}
	max := 2
	if deep {
		max = 3
	}
	var lists [][]int
	for k := 0; k <= max; k++ {
		tuples(len(answers), k, func(t []int) { lists = append(lists, append([]int(nil), t...)) })
	}
	build := func(list []int, ns, extra string, rcode int, flags int) *dns.Msg {
		a := reply(q, rcode)
		for _, i := range list {
			a.Answer = append(a.Answer, rr(answers[i]))
		}
		if ns != "" {
			a.Ns = []dns.RR{rr(ns)}
		}
		if strings.HasPrefix(extra, "OPT") {
			a.SetEdns0(1400, true)
			o := a.IsEdns0()
			o.Option = append(o.Option, &dns.EDNS0_EDE{InfoCode: 3, ExtraText: "stale"})
			extra = strings.TrimPrefix(strings.TrimPrefix(extra, "OPT"), " ")
		}
		if extra != "" {
			a.Extra = append(a.Extra, rr(extra))
		}
		a.RecursionAvailable = flags&1 != 0
		a.AuthenticatedData = flags&1 != 0
		a.Truncated = flags&2 != 0
		a.Authoritative = flags&2 != 0
		return a
	}
	for li, list := range lists {
		for ni, ns := range nss {
			for ei, extra := range extras {
				if len(list) == max && (ni+ei)%2 == 1 {
					continue
				}
				for _, rcode := range []int{0, 2, 3, 5} {
					if rcode != 0 && len(list) > 1 {
						continue
					}
					for flags := 0; flags < 4; flags++ {
						if len(list) > 1 && flags != li%4 {
							continue
						}
						f(fmt.Sprintf("answers %v, authority %q, additional %q, rcode %d, flags %d", list, ns, extra, rcode, flags), func() (*dns.Msg, error) {
							return build(list, ns, extra, rcode, flags), nil
						})
					}
				}
			}
		}
	}
	f("drop", func() (*dns.Msg, error) { return nil, nil })
	f("error", func() (*dns.Msg, error) { return nil, errUpstream })
}

func eachRR(m *dns.Msg, f func(h *dns.RR_Header)) {
	for _, s := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		for _, r := range s {
			if r.Header().Rrtype != dns.TypeOPT {
				f(r.Header())
			}
		}
	}
}

// p21Mod is a modifier with its reference behaviour.
type p21Mod struct {
	name  string
	mk    func(up rdns.Resolver) rdns.Resolver
	query func(q *dns.Msg) *dns.Msg    // what the upstream is asked; nil: the same
	model func(q, a *dns.Msg) *dns.Msg // expected response
}

func ttlMods() (out []p21Mod) {
	sel := []struct {
		name string
		f    rdns.TTLSelectFunc
		m    func(ttls []uint32) uint32
	}{
		{"none", nil, nil},
		{"lowest", rdns.TTLSelectLowest, func(t []uint32) uint32 {
			m := t[0]
			for _, x := range t {
				m = min(m, x)
			}
			return m
		}},
		{"highest", rdns.TTLSelectHighest, func(t []uint32) uint32 {
			m := t[0]
			for _, x := range t {
				m = max(m, x)
			}
			return m
		}},
		{"average", rdns.TTLSelectAverage, func(t []uint32) uint32 {
			var s uint64
			for _, x := range t {
				s += uint64(x)
			}
			return uint32(s / uint64(len(t)))
		}},
		{"first", rdns.TTLSelectFirst, func(t []uint32) uint32 { return t[0] }},
		{"last", rdns.TTLSelectLast, func(t []uint32) uint32 { return t[len(t)-1] }},
	}
	for _, s := range sel {
		for _, l := range [][2]uint32{{0, 0}, {60, 0}, {0, 60}, {60, 60}, {55, 100}, {1, math.MaxUint32}} {
			s, l := s, l
			out = append(out, p21Mod{
				name: fmt.Sprintf("ttl-%s-%d-%d", s.name, l[0], l[1]),
				mk: func(up rdns.Resolver) rdns.Resolver {
					return rdns.NewTTLModifier("m", up, rdns.TTLModifierOptions{SelectFunc: s.f, MinTTL: l[0], MaxTTL: l[1]})
				},
				model: func(q, a *dns.Msg) *dns.Msg {
					var ttls []uint32
					eachRR(a, func(h *dns.RR_Header) { ttls = append(ttls, h.Ttl) })
					eachRR(a, func(h *dns.RR_Header) {
						if s.m != nil {
							h.Ttl = s.m(ttls)
						}
						if h.Ttl < l[0] {
							h.Ttl = l[0]
						}
						if l[1] != 0 && h.Ttl > l[1] {
							h.Ttl = l[1]
						}
					})
					return a
				},
			})
		}
	}
	return
}

func otherMods() []p21Mod {
	var out []p21Mod
	for _, rc := range []int{0, 3, 5} {
		out = append(out, p21Mod{
			name: fmt.Sprintf("collapse-%d", rc),
			mk: func(up rdns.Resolver) rdns.Resolver {
				return rdns.NewResponseCollapse("m", up, rdns.ResponseCollapseOptions{NullRCode: rc})
			},
			model: func(q, a *dns.Msg) *dns.Msg {
				if a.Rcode != 0 {
					return a
				}
				var keep []dns.RR
				for _, r := range a.Answer {
					if r.Header().Rrtype == q.Question[0].Qtype && r.Header().Class == q.Question[0].Qclass {
						r.Header().Name = q.Question[0].Name
						keep = append(keep, r)
					}
				}
				a.Answer = keep
				if len(keep) == 0 {
					b := new(dns.Msg)
					b.SetRcode(q, rc)
					b.RecursionAvailable = true
					return b
				}
				return a
			},
		})
	}
	out = append(out, p21Mod{
		name:  "minimize",
		mk:    func(up rdns.Resolver) rdns.Resolver { return rdns.NewResponseMinimize("m", up) },
		model: func(q, a *dns.Msg) *dns.Msg { a.Ns, a.Extra = nil, nil; return a },
	})
	for i, ops := range [][]rdns.ReplaceOperation{
		{{From: `\.old\.$`, To: ".new."}},
		{{From: `^a\.`, To: "b."}, {From: `\.old\.$`, To: "."}},
		{{From: `^([a-z])\.(old|OLD)\.$`, To: "other.x."}},
		{{From: `nomatch`, To: "x"}},
	} {
		apply := func(n string) string {
			for _, o := range ops {
				n = regexp.MustCompile(o.From).ReplaceAllString(n, o.To)
			}
			return n
		}
		out = append(out, p21Mod{
			name: fmt.Sprintf("replace-%d", i),
			mk: func(up rdns.Resolver) rdns.Resolver {
				r, err := rdns.NewReplace("m", up, ops...)
				if err != nil {
					panic(err)
				}
				return r
			},
			query: func(q *dns.Msg) *dns.Msg { q.Question[0].Name = apply(q.Question[0].Name); return q },
			model: func(q, a *dns.Msg) *dns.Msg {
				old := q.Question[0].Name
				n := apply(old)
				if n == old {
					return a
				}
				a.Question[0].Name = old
				for _, r := range a.Answer {
					if strings.EqualFold(r.Header().Name, n) {
						r.Header().Name = old
					}
				}
				return a
			},
		})
	}
	return out
}

func p21Queries() []*dns.Msg {
	var out []*dns.Msg
	for _, n := range []string{"a.old.", "A.OLD.", "z.y.old.", "x.", "."} {
		for _, t := range []uint16{dns.TypeA, dns.TypeAAAA, dns.TypeANY} {
			if n != "a.old." && t != dns.TypeA {
				continue
			}
			out = append(out, query(n, t))
		}
	}
	out = append(out, withOpt(query("a.old.", dns.TypeA), true, subnet("10.0.0.0", 8)))
	q := query("a.old.", dns.TypeA)
	q.Question[0].Qclass = dns.ClassCHAOS
	q.CheckingDisabled = true
	return append(out, q)
}

func p21Run(mods []p21Mod, deep bool) func(*C) {
	return func(c *C) {
		for _, m := range mods {
			for _, q0 := range p21Queries() {
				up := &p21Up{}
				r := m.mk(up)
				// What the upstream sees, so that records can carry that name,
				// also in another spelling.
				sent := q0.Copy()
				if m.query != nil {
					sent = m.query(sent)
				}
				variants := []*dns.Msg{sent}
				if m.query != nil {
					v := sent.Copy()
					v.Question[0].Name = strings.ToUpper(v.Question[0].Name)
					variants = append(variants, v)
				}
				for vi, v := range variants {
					p21Responses(v, deep, func(desc string, mk func() (*dns.Msg, error)) {
						if c.Full() {
							return
						}
						c.Case(fmt.Sprintf("%s: %s %s, spelling %d, %s", m.name, q0.Question[0].Name, dns.TypeToString[q0.Question[0].Qtype], vi, desc))
						c.Step()
						q := q0.Copy()
						up.seen, up.msgs = nil, nil
						up.f = func(*dns.Msg) (*dns.Msg, error) { return mk() }
						a, err := r.Resolve(q, rdns.ClientInfo{SourceIP: net.IP{1, 2, 3, 4}})
						if full(q) != full(q0) {
							c.Violation("query changed: %s", full(q))
						}
						if len(up.seen) != 1 || up.seen[0] != full(sent) {
							c.Violation("upstream asked %v, expected %s", up.seen, full(sent))
						}
						want, wantErr := mk()
						if want != nil {
							want = m.model(q0.Copy(), want)
						}
						if (err != nil) != (wantErr != nil) || full(a) != full(want) {
							c.Violation("got %s, expected %s", full(a), full(want))
						}
						c.State("%s %s", m.name, shortMsg(a, err))
					})
				}
			}
		}
	}
}

// p21Random: every value the random TTL can take.
func p21Random(lo, hi uint32) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			return reply(q, 0, rr("a. 1 IN A 1.1.1.1"), rr("a. 100 IN A 1.1.1.2")), nil
		}}
		r := rdns.NewTTLModifier("m", up, rdns.TTLModifierOptions{SelectFunc: rdns.TTLSelectRandom, MinTTL: lo, MaxTTL: hi})
		a, err := r.Resolve(query("a.", dns.TypeA), rdns.ClientInfo{})
		if err != nil || len(a.Answer) != 2 {
			e.Fail("bad response %s", shortMsg(a, err))
			return
		}
		eachRR(a, func(h *dns.RR_Header) {
			if h.Ttl < lo || hi != 0 && h.Ttl > max(hi, lo) {
				e.Fail("TTL %d outside %d..%d", h.Ttl, lo, hi)
			}
		})
		e.Outcome("%s", sections(a))
	}
}

// p21Retry: truncated responses are retried once.
func p21Retry() func(*C) {
	return func(c *C) {
		for _, q0 := range p21Queries() {
			p21Responses(q0, false, func(desc string, mk func() (*dns.Msg, error)) {
				for i, second := range []func(q *dns.Msg) (*dns.Msg, error){
					func(q *dns.Msg) (*dns.Msg, error) { return reply(q, 0, rr("x. 1 IN A 9.9.9.9")), nil },
					func(q *dns.Msg) (*dns.Msg, error) { return nil, nil },
					func(q *dns.Msg) (*dns.Msg, error) { return nil, errUpstream },
					func(q *dns.Msg) (*dns.Msg, error) { a := reply(q, 3); a.Truncated = true; return a, nil },
				} {
					if c.Full() {
						return
					}
					c.Case(fmt.Sprintf("%s, first %s, second %d", full(q0), desc, i))
					c.Step()
					u1, u2 := &p21Up{f: func(q *dns.Msg) (*dns.Msg, error) { return mk() }}, &p21Up{f: second}
					q := q0.Copy()
					a, err := rdns.NewTruncateRetry("m", u1, u2, rdns.TruncateRetryOptions{}).Resolve(q, rdns.ClientInfo{})
					want, werr := mk()
					n := 0
					if want != nil && want.Truncated {
						want, werr = second(q0)
						n = 1
					}
					if len(u1.seen) != 1 || len(u2.seen) != n || u1.seen[0] != full(q0) || n == 1 && u2.seen[0] != full(q0) {
						c.Violation("asked %v and %v", u1.seen, u2.seen)
					}
					if full(a) != full(want) || (err != nil) != (werr != nil) || full(q) != full(q0) {
						c.Violation("got %s, expected %s", full(a), full(want))
					}
					c.State("%s %d", shortMsg(a, err), n)
				}
			})
		}
	}
}

// ------------------------------------------------------------------ EDNS0

func p22Options() []dns.EDNS0 {
	return []dns.EDNS0{
		subnet("10.1.2.0", 24), subnet("10.1.2.3", 32), subnet("10.1.0.0", 16), subnet("0.0.0.0", 0),
		subnet("2001:db8:1:200::", 56), subnet("2001:db8:1:2:3:4:5:6", 128), subnet("2000::", 4),
		&dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET},
		&dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0123456789abcdef"},
		&dns.EDNS0_NSID{Code: dns.EDNS0NSID},
		&dns.EDNS0_LOCAL{Code: 65001, Data: []byte{1, 2}},
		&dns.EDNS0_LOCAL{Code: 65002, Data: []byte{3}},
	}
}

func isECS(o dns.EDNS0) bool { return o.Option() == dns.EDNS0SUBNET }

// cut keeps the first n bits of an address.
func cut(ip net.IP, n int) net.IP {
	out := append(net.IP(nil), ip...)
	for i := range out {
		for b := 0; b < 8; b++ {
			if i*8+b >= n {
				out[i] &^= 1 << (7 - b)
			}
		}
	}
	return out
}

type p22Op struct {
	name  string
	f     rdns.ECSModifierFunc
	g     rdns.EDNS0ModifierFunc
	model func(c *C, in []dns.EDNS0, ci rdns.ClientInfo, had bool) (opts []string, opt bool)
}

func optStr(o dns.EDNS0) string {
	if s, ok := o.(*dns.EDNS0_SUBNET); ok {
		ip := s.Address
		switch s.Family {
		case 0:
			ip = nil
		case 1:
			ip = ip.To4()
		}
		return fmt.Sprintf("ecs family %d %s/%d scope %d", s.Family, ip, s.SourceNetmask, s.SourceScope)
	}
	return fmt.Sprintf("%d:%s", o.Option(), o)
}

func p22Ops() []p22Op {
	var ops []p22Op
	without := func(in []dns.EDNS0) (out []string) {
		for _, o := range in {
			if !isECS(o) {
				out = append(out, optStr(o))
			}
		}
		return
	}
	ecs := func(ip net.IP, p4, p6 uint8) string {
		s := &dns.EDNS0_SUBNET{Family: 2, SourceNetmask: p6, Address: cut(ip, int(p6))}
		if v4 := ip.To4(); v4 != nil {
			s = &dns.EDNS0_SUBNET{Family: 1, SourceNetmask: p4, Address: cut(v4, int(p4))}
		}
		return optStr(s)
	}
	ops = append(ops, p22Op{name: "delete", f: rdns.ECSModifierDelete, model: func(c *C, in []dns.EDNS0, ci rdns.ClientInfo, had bool) ([]string, bool) {
		return without(in), had
	}})
	p4s, p6s := []uint8{0, 1, 20, 24, 32}, []uint8{0, 1, 48, 56, 128}
	for i, p4 := range p4s {
		for j, p6 := range p6s {
			if i != j && i != 3 && j != 3 {
				continue
			}
			for _, addr := range []net.IP{nil, net.IP{192, 0, 2, 255}, net.ParseIP("192.0.2.254"), net.ParseIP("2001:db8:ffff:ffff:ffff::ffff")} {
				add := func(in []dns.EDNS0, ci rdns.ClientInfo, had bool) ([]string, bool) {
					ip := addr
					if ip == nil {
						ip = ci.SourceIP
					}
					if ip == nil {
						return without(in), had // no address to add
					}
					return append(without(in), ecs(ip, p4, p6)), true
				}
				ops = append(ops, p22Op{name: fmt.Sprintf("add %s /%d /%d", addr, p4, p6), f: rdns.ECSModifierAdd(addr, p4, p6),
					model: func(c *C, in []dns.EDNS0, ci rdns.ClientInfo, had bool) ([]string, bool) { return add(in, ci, had) }})
				ops = append(ops, p22Op{name: fmt.Sprintf("add-if-missing %s /%d /%d", addr, p4, p6), f: rdns.ECSModifierAddIfMissing(addr, p4, p6),
					model: func(c *C, in []dns.EDNS0, ci rdns.ClientInfo, had bool) ([]string, bool) {
						for _, o := range in {
							if isECS(o) {
								var all []string
								for _, o := range in {
									all = append(all, optStr(o))
								}
								return all, had
							}
						}
						return add(in, ci, had)
					}})
			}
			// Privacy: judged on the result, see p22Run.
			ops = append(ops, p22Op{name: fmt.Sprintf("privacy /%d /%d", p4, p6), f: rdns.ECSModifierPrivacy(p4, p6)})
		}
	}
	for _, code := range []uint16{65001, 65003, dns.EDNS0COOKIE, dns.EDNS0SUBNET} {
		keep := func(in []dns.EDNS0) (out []string) {
			for _, o := range in {
				if o.Option() != code {
					out = append(out, optStr(o))
				}
			}
			return
		}
		ops = append(ops, p22Op{name: fmt.Sprintf("edns0-delete %d", code), g: rdns.EDNS0ModifierDelete(code), model: func(c *C, in []dns.EDNS0, ci rdns.ClientInfo, had bool) ([]string, bool) {
			return keep(in), had
		}})
		if code < 65000 {
			continue
		}
		ops = append(ops, p22Op{name: fmt.Sprintf("edns0-add %d", code), g: rdns.EDNS0ModifierAdd(code, []byte{9, 8}), model: func(c *C, in []dns.EDNS0, ci rdns.ClientInfo, had bool) ([]string, bool) {
			return append(keep(in), optStr(&dns.EDNS0_LOCAL{Code: code, Data: []byte{9, 8}})), true
		}})
	}
	return ops
}

func p22Run(max int, part, parts int) func(*C) {
	return func(c *C) {
		alpha := p22Options()
		clients := []net.IP{{203, 0, 113, 77}, net.ParseIP("203.0.113.78"), net.ParseIP("2001:db8::ff:ffff:ffff"), nil}
		type optSet struct {
			idx []int
			has bool
		}
		sets := []optSet{{nil, false}, {nil, true}}
		for k := 1; k <= max; k++ {
			tuples(len(alpha), k, func(t []int) { sets = append(sets, optSet{append([]int(nil), t...), true}) })
		}
		for oi, op := range p22Ops() {
			if oi%parts != part {
				continue
			}
			var prefix4, prefix6 int
			privacy := op.model == nil
			if privacy {
				fmt.Sscanf(op.name, "privacy /%d /%d", &prefix4, &prefix6)
			}
			up := &p21Up{f: func(q *dns.Msg) (*dns.Msg, error) { return reply(q, 0, rr("x. 1 IN A 9.9.9.9")), nil }}
			var r rdns.Resolver
			if op.f != nil {
				r, _ = rdns.NewECSModifier("m", up, op.f)
			} else {
				r, _ = rdns.NewEDNS0Modifier("m", up, op.g)
			}
			for _, set := range sets {
				for _, ip := range clients {
					for _, do := range []bool{false, true} {
						if c.Full() {
							return
						}
						if do && !set.has {
							continue
						}
						q := query("Name.x.", dns.TypeA)
						q.CheckingDisabled = do
						var in []dns.EDNS0
						if set.has {
							q.SetEdns0(1357, do)
							for _, i := range set.idx {
								in = append(in, alpha[i])
							}
							q.IsEdns0().Option = append([]dns.EDNS0(nil), in...)
							q = q.Copy()
						}
						before := full(q)
						c.Case(fmt.Sprintf("%s, client %s, options %v, edns0 %v", op.name, ip, set.idx, set.has))
						c.Step()
						ci := rdns.ClientInfo{SourceIP: append(net.IP(nil), ip...)}
						if ip == nil {
							ci.SourceIP = nil
						}
						up.seen, up.msgs = nil, nil
						a, err := r.Resolve(q, ci)
						if err != nil || a == nil || a.Id != q.Id {
							c.Violation("no response: %s", shortMsg(a, err))
							continue
						}
						if full(q) != before {
							c.Violation("the client's query was changed: %s", full(q))
						}
						if ip != nil && !ci.SourceIP.Equal(ip) {
							c.Violation("client address changed to %s", ci.SourceIP)
						}
						if len(up.msgs) != 1 {
							c.Violation("%d upstream queries", len(up.msgs))
							continue
						}
						// As it goes out.
						b, err := up.msgs[0].Pack()
						if err != nil {
							c.Violation("query cannot be sent: %v", err)
							continue
						}
						out := new(dns.Msg)
						if err := out.Unpack(b); err != nil {
							c.Violation("query cannot be read: %v", err)
							continue
						}
						if out.Id != q.Id || len(out.Question) != 1 || out.Question[0] != q.Question[0] || out.MsgHdr != q.MsgHdr || len(out.Answer)+len(out.Ns) > 0 {
							c.Violation("query changed to %s", full(out))
						}
						opt := out.IsEdns0()
						if len(out.Extra) > 1 || len(out.Extra) == 1 && opt == nil {
							c.Violation("additional records: %s", full(out))
						}
						if opt != nil && set.has && (opt.Do() != do || opt.UDPSize() != 1357 || opt.Version() != 0) {
							c.Violation("EDNS0 changed: %s", opt)
						}
						var got []string
						if opt != nil {
							for _, o := range opt.Option {
								got = append(got, optStr(o))
							}
						}
						if !privacy {
							want, has := op.model(c, in, ci, set.has)
							if has != (opt != nil) || strings.Join(got, "|") != strings.Join(want, "|") {
								c.Violation("options %q (EDNS0 %v), expected %q (%v)", got, opt != nil, want, has)
							}
						} else {
							if (opt != nil) != set.has || opt != nil && len(opt.Option) != len(in) {
								c.Violation("options %q", got)
								continue
							}
							for i, o := range in {
								x := opt.Option[i]
								if !isECS(o) {
									if optStr(o) != optStr(x) {
										c.Violation("option %s changed to %s", optStr(o), optStr(x))
									}
									continue
								}
								s, ok := x.(*dns.EDNS0_SUBNET)
								orig := o.(*dns.EDNS0_SUBNET)
								if !ok || s.Family != orig.Family {
									c.Violation("subnet %s changed to %s", optStr(o), optStr(x))
									continue
								}
								if s.Family == 0 {
									continue
								}
								limit, addr := prefix4, orig.Address.To4()
								gotAddr := s.Address.To4()
								if s.Family == 2 {
									limit, addr, gotAddr = prefix6, orig.Address.To16(), s.Address.To16()
								}
								if int(s.SourceNetmask) > limit || !gotAddr.Equal(cut(addr, limit)) {
									c.Violation("subnet %s changed to %s with limit %d", optStr(o), optStr(x), limit)
								}
							}
						}
						c.State("%s %q", op.name, got)
					}
				}
			}
		}
	}
}

// ------------------------------------------------------------------ DNS64

// embed places an IPv4 address behind a prefix: bit by bit, skipping bits 64 to
// 71.
func embed(prefix net.IP, n int, v4 net.IP) net.IP {
	out := make(net.IP, 16)
	bit := func(ip net.IP, i int) byte { return ip[i/8] >> (7 - i%8) & 1 }
	pos := 0
	put := func(b byte) {
		out[pos/8] |= b << (7 - pos%8)
		pos++
	}
	for i := 0; i < n; i++ {
		put(bit(prefix, i))
	}
	for i := 0; i < 32; i++ {
		for pos >= 64 && pos < 72 {
			pos++
		}
		put(bit(v4, i))
	}
	return out
}

func p23Run() func(*C) {
	return func(c *C) {
		addrs := []string{"1.2.3.4", "0.0.0.0", "255.255.255.255", "192.0.2.33", "128.1.254.127", "10.0.0.1"}
		base := "2001:db8:f1e2:d3c4:a5:b6c7:d8e9:f0a1"
		var prefixSets [][]string
		for _, n := range []int{32, 40, 48, 56, 64, 96} {
			prefixSets = append(prefixSets, []string{fmt.Sprintf("%s/%d", base, n)})
		}
		prefixSets = append(prefixSets, nil, []string{"64:ff9b::/96", "2001:db8::/32"}, []string{"fd00:1:2::/48", "64:ff9b::/96", "fd00:1:2::/56"}, []string{"ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff/64"})
		type outcome struct {
			name string
			f    func(q *dns.Msg) (*dns.Msg, error)
		}
		mk := func(name string, rcode int, rs ...string) outcome {
			return outcome{name, func(q *dns.Msg) (*dns.Msg, error) {
				a := reply(q, rcode)
				a.RecursionAvailable = true
				for _, s := range rs {
					a.Answer = append(a.Answer, rr(s))
				}
				if len(rs) == 0 {
					a.Ns = rrs("x. 30 IN SOA ns.x. h.x. 1 2 3 4 30")
				}
				return a, nil
			}}
		}
		drop := outcome{"drop", func(*dns.Msg) (*dns.Msg, error) { return nil, nil }}
		fail := outcome{"error", func(*dns.Msg) (*dns.Msg, error) { return nil, errUpstream }}
		six := []outcome{
			mk("nodata", 0), mk("native", 0, "h.x. 10 IN AAAA 2001:db8::1"), mk("two", 0, "h.x. 10 IN AAAA 2001:db8::1", "h.x. 10 IN AAAA 2001:db8::2"),
			mk("alias-only", 0, "h.x. 10 IN CNAME t.x."), mk("alias", 0, "h.x. 10 IN CNAME t.x.", "t.x. 10 IN AAAA 2001:db8::3"),
			mk("nxdomain", 3), mk("servfail", 2), mk("refused", 5), drop, fail,
		}
		four := []outcome{mk("nodata", 0), mk("nxdomain", 3), mk("servfail", 2), drop, fail,
			mk("alias-only", 0, "h.x. 10 IN CNAME t.x.")}
		for i, a := range addrs {
			four = append(four, mk("a-"+a, 0, "h.x. 77 IN A "+a))
			four = append(four, mk("alias-"+a, 0, "h.x. 10 IN CNAME t.x.", "t.x. 20 IN CNAME u.x.", "u.x. 5 IN A "+a))
			b := addrs[(i+1)%len(addrs)]
			four = append(four, mk("two-"+a, 0, "h.x. 100 IN A "+a, "h.x. 50 IN A "+b))
			for _, x := range addrs {
				four = append(four, mk("three-"+a, 0, "h.x. 100 IN A "+a, "h.x. 50 IN A "+b, "h.x. 0 IN A "+x))
			}
		}
		four = append(four, outcome{"truncated", func(q *dns.Msg) (*dns.Msg, error) {
			a := reply(q, 0, rr("h.x. 77 IN A 1.2.3.4"))
			a.Truncated = true
			return a, nil
		}})
		type qv struct {
			name string
			q    *dns.Msg
		}
		plain := query("h.x.", dns.TypeAAAA)
		cd := query("H.X.", dns.TypeAAAA)
		cd.CheckingDisabled = true
		ch := query("h.x.", dns.TypeAAAA)
		ch.Question[0].Qclass = dns.ClassCHAOS
		qs := []qv{{"plain", plain}, {"cd", cd}, {"opt", withOpt(query("h.x.", dns.TypeAAAA), false, subnet("10.0.0.0", 8))}, {"do", withOpt(query("h.x.", dns.TypeAAAA), true)},
			{"A", query("h.x.", dns.TypeA)}, {"ANY", query("h.x.", dns.TypeANY)}, {"PTR", query("1.0.0.0.x.ip6.arpa.", dns.TypePTR)}, {"TXT", query("h.x.", dns.TypeTXT)}}
		for _, ps := range prefixSets {
			for _, o6 := range six {
				for _, o4 := range four {
					for _, qx := range qs {
						if c.Full() {
							return
						}
						c.Case(fmt.Sprintf("prefixes %v, query %s, AAAA %s, A %s", ps, qx.name, o6.name, o4.name))
						c.Step()
						up := &p21Up{f: func(q *dns.Msg) (*dns.Msg, error) {
							if q.Question[0].Qtype == dns.TypeA {
								return o4.f(q)
							}
							return o6.f(q)
						}}
						r, err := rdns.NewDNS64("m", up, rdns.DNS64Options{Prefixes: ps})
						if err != nil {
							c.Violation("prefixes refused: %v", err)
							continue
						}
						q := qx.q.Copy()
						a, err := r.Resolve(q, rdns.ClientInfo{})
						if full(q) != full(qx.q) {
							c.Violation("the client's query was changed: %s", full(q))
						}
						first, ferr := o6.f(qx.q)
						if qx.q.Question[0].Qtype == dns.TypeA {
							first, ferr = o4.f(qx.q)
						}
						native := false
						if first != nil {
							for _, x := range first.Answer {
								native = native || x.Header().Rrtype == dns.TypeAAAA
							}
						}
						if len(up.seen) == 0 || up.seen[0] != full(qx.q) {
							c.Violation("upstream asked %v", up.seen)
							continue
						}
						synth := qx.q.Question[0].Qtype == dns.TypeAAAA && qx.name != "do" && ferr == nil && first != nil && first.Rcode == 0 && !native
						if synth {
							second, err := o4.f(qx.q)
							n := 0
							if err == nil && second != nil && second.Rcode == 0 {
								for _, x := range second.Answer {
									if x.Header().Rrtype == dns.TypeA {
										n++
									}
								}
							}
							synth = n > 0
							if len(up.seen) != 2 {
								c.Violation("%d upstream queries", len(up.seen))
								continue
							}
							q4 := qx.q.Copy()
							q4.Question[0].Qtype = dns.TypeA
							if up.seen[1] != full(q4) {
								c.Violation("upstream asked %v", up.seen)
							}
						} else if len(up.seen) != 1 {
							c.Violation("%d upstream queries", len(up.seen))
						}
						if !synth {
							if full(a) != full(first) || (err != nil) != (ferr != nil) {
								c.Violation("got %s, expected %s", shortMsg(a, err), shortMsg(first, ferr))
							}
							c.State("pass %s %s", qx.name, shortMsg(a, err))
							continue
						}
						second, _ := o4.f(qx.q)
						nets := ps
						if len(nets) == 0 {
							nets = []string{"64:ff9b::/96"}
						}
						// Aliases first, then each address under the owner name of
						// the original record.
						var want []string
						for _, x := range second.Answer {
							if x.Header().Rrtype == dns.TypeCNAME {
								want = append(want, x.String())
							}
						}
						for _, x := range second.Answer {
							if v4, ok := x.(*dns.A); ok {
								for _, p := range nets {
									_, n, _ := net.ParseCIDR(p)
									ones, _ := n.Mask.Size()
									want = append(want, (&dns.AAAA{Hdr: dns.RR_Header{Name: v4.Hdr.Name, Rrtype: dns.TypeAAAA, Class: qx.q.Question[0].Qclass, Ttl: v4.Hdr.Ttl}, AAAA: embed(n.IP, ones, v4.A.To4())}).String())
								}
							}
						}
						if err != nil || a == nil || a.Rcode != 0 || a.Id != qx.q.Id || !a.Response || len(a.Question) != 1 || a.Question[0] != qx.q.Question[0] || a.Truncated != second.Truncated {
							c.Violation("got %s", full(a))
							continue
						}
						var got []string
						for _, x := range a.Answer {
							got = append(got, x.String())
						}
						if !strings.EqualFold(strings.Join(sorted(got), "|"), strings.Join(sorted(want), "|")) {
							c.Violation("got %q, expected %q", got, want)
						}
						c.State("synth %q", got)
					}
				}
			}
		}
		for _, bad := range []string{"1.2.3.0/24", "2001:db8::/33", "2001:db8::/128", "2001:db8::/0", "x", "2001:db8::", "2001:db8::/16", "2001:db8::/72"} {
			c.Case("bad prefix " + bad)
			if _, err := rdns.NewDNS64("m", &p21Up{}, rdns.DNS64Options{Prefixes: []string{"64:ff9b::/96", bad}}); err == nil {
				c.Violation("accepted")
			}
		}
	}
}

func init() {
	register(&Check{
		ID:          "P21",
		Level:       "model_checking",
		Rule:        "every modifier configuration of the alphabet applied to every query and every response of up to two (thorough: three) answer records, authority, additional, response code and flag variants, drops and errors, compared with a reference; a state is a distinct result",
		Assumptions: []string{"responses carry exactly one question", "transaction signatures are not present"},
		Scenarios: func(tier string) []Scenario {
			deep := tier == "thorough"
			var out []Scenario
			ttl := ttlMods()
			for i := 0; i < 4; i++ {
				out = append(out, Scenario{Name: fmt.Sprintf("ttl-%d", i), Run: p21Run(ttl[i*len(ttl)/4:(i+1)*len(ttl)/4], deep), CrashIsViolation: true})
			}
			for _, m := range otherMods() {
				out = append(out, Scenario{Name: m.name, Run: p21Run([]p21Mod{m}, deep), CrashIsViolation: true})
			}
			out = append(out, Scenario{Name: "retry", Run: p21Retry(), CrashIsViolation: true})
			for _, l := range [][2]uint32{{0, 5}, {3, 8}, {7, 7}} {
				out = append(out, Scenario{Name: fmt.Sprintf("ttl-random-%d-%d", l[0], l[1]), Cfg: vsched.Config{Serial: true}, Body: p21Random(l[0], l[1])})
			}
			return out
		},
	})
	register(&Check{
		ID:          "P22",
		Level:       "model_checking",
		Rule:        "every operation and prefix length of the alphabet applied to every query with up to three (thorough: four) EDNS0 options, every client address; the query is packed and read back as the upstream would see it and compared with a reference; a state is a distinct outgoing option list",
		Assumptions: []string{"a query has at most one EDNS0 record", "when the client address is unknown no subnet can be added"},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			max := 3
			if tier == "thorough" {
				max = 4
			}
			for i := 0; i < 8; i++ {
				out = append(out, Scenario{Name: fmt.Sprintf("options-%d", i), Run: p22Run(max, i, 8), CrashIsViolation: true})
			}
			return out
		},
	})
	register(&Check{
		ID:    "P23",
		Level: "model_checking",
		Rule:  "every prefix set of the alphabet (each permitted length, several prefixes) with every pair of upstream outcomes for the two address types and every query variant, compared with a bit-wise reference of the standard embedding; a state is a distinct result",
		Scenarios: func(tier string) []Scenario {
			return []Scenario{{Name: "dns64", Run: p23Run(), CrashIsViolation: true}}
		},
	})
}
