package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p17: queries and responses are private to their request.

type p17Elem struct {
	name string
	mk   func(up rdns.Resolver) rdns.Resolver
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func p17Static() rdns.Resolver {
	ede := must(rdns.NewEDNS0EDETemplate(15, "blocked {{ .Question }}"))
	return must(rdns.NewStaticResolver("static", rdns.StaticResolverOptions{
		Answer: []string{"x. 60 IN A 7.7.7.7", "x. 60 IN TXT \"t\" \"u\"", "x. 60 IN CNAME target.x."}, NS: []string{"x. 60 IN SOA ns.x. h.x. 1 2 3 4 5"},
		Extra: []string{"ns.x. 60 IN AAAA 2001:db8::7"}, EDNS0EDETemplate: ede}))
}

func p17Elems() []p17Elem {
	domains := func(rules ...string) rdns.BlocklistDB {
		return must(rdns.NewDomainDB("d", rdns.NewStaticLoader(rules)))
	}
	cidr := func(rules ...string) rdns.IPBlocklistDB {
		return must(rdns.NewCidrDB("c", rdns.NewStaticLoader(rules)))
	}
	return []p17Elem{
		{"blocklist", func(up rdns.Resolver) rdns.Resolver {
			return must(rdns.NewBlocklist("e", up, rdns.BlocklistOptions{BlocklistDB: domains(".block."), BlocklistResolver: p17Static()}))
		}},
		{"blocklist-ede", func(up rdns.Resolver) rdns.Resolver {
			return must(rdns.NewBlocklist("e", up, rdns.BlocklistOptions{BlocklistDB: domains(".block."), EDNS0EDETemplate: must(rdns.NewEDNS0EDETemplate(15, "{{ .Question }}"))}))
		}},
		{"hosts", func(up rdns.Resolver) rdns.Resolver {
			return must(rdns.NewBlocklist("e", up, rdns.BlocklistOptions{BlocklistDB: must(rdns.NewHostsDB("h", rdns.NewStaticLoader([]string{"1.2.3.4 h.block", "1.2.3.5 h.block", "::9 h.block"})))}))
		}},
		{"client-blocklist", func(up rdns.Resolver) rdns.Resolver {
			return must(rdns.NewClientBlocklist("e", up, rdns.ClientBlocklistOptions{BlocklistDB: cidr("10.0.0.0/8"), UseECS: true, BlocklistResolver: p17Static()}))
		}},
		{"response-ip", func(up rdns.Resolver) rdns.Resolver {
			return must(rdns.NewResponseBlocklistIP("e", up, rdns.ResponseBlocklistIPOptions{BlocklistDB: cidr("1.1.1.1/32"), Filter: true}))
		}},
		{"response-ip-alt", func(up rdns.Resolver) rdns.Resolver {
			return must(rdns.NewResponseBlocklistIP("e", up, rdns.ResponseBlocklistIPOptions{BlocklistDB: cidr("1.1.1.1/32"), BlocklistResolver: p17Static()}))
		}},
		{"response-name", func(up rdns.Resolver) rdns.Resolver {
			return must(rdns.NewResponseBlocklistName("e", up, rdns.ResponseBlocklistNameOptions{BlocklistDB: domains(".bad."), EDNS0EDETemplate: must(rdns.NewEDNS0EDETemplate(15, "{{ .BlocklistRule }}"))}))
		}},
		{"cache", func(up rdns.Resolver) rdns.Resolver {
			return rdns.NewCache("e", up, rdns.CacheOptions{Backend: rdns.NewMemoryBackend(rdns.MemoryBackendOptions{})})
		}},
		{"cache-refresh", func(up rdns.Resolver) rdns.Resolver {
			return rdns.NewCache("e", up, rdns.CacheOptions{Backend: rdns.NewMemoryBackend(rdns.MemoryBackendOptions{}), PrefetchTrigger: 1000, HardenBelowNXDOMAIN: true})
		}},
		{"dedup", func(up rdns.Resolver) rdns.Resolver { return rdns.NewRequestDedup("e", up) }},
		{"dns64", func(up rdns.Resolver) rdns.Resolver { return must(rdns.NewDNS64("e", up, rdns.DNS64Options{})) }},
		{"ecs-add", func(up rdns.Resolver) rdns.Resolver {
			return must(rdns.NewECSModifier("e", up, rdns.ECSModifierAdd(nil, 24, 56)))
		}},
		{"ecs-delete", func(up rdns.Resolver) rdns.Resolver {
			return must(rdns.NewECSModifier("e", up, rdns.ECSModifierDelete))
		}},
		{"ecs-privacy", func(up rdns.Resolver) rdns.Resolver {
			return must(rdns.NewECSModifier("e", up, rdns.ECSModifierPrivacy(4, 4)))
		}},
		{"edns0-add", func(up rdns.Resolver) rdns.Resolver {
			return must(rdns.NewEDNS0Modifier("e", up, rdns.EDNS0ModifierAdd(65001, []byte{1, 2, 3})))
		}},
		{"edns0-delete", func(up rdns.Resolver) rdns.Resolver {
			return must(rdns.NewEDNS0Modifier("e", up, rdns.EDNS0ModifierDelete(dns.EDNS0SUBNET)))
		}},
		{"replace", func(up rdns.Resolver) rdns.Resolver {
			return must(rdns.NewReplace("e", up, rdns.ReplaceOperation{From: `^(.*)\.block\.$`, To: "$1.other."}))
		}},
		{"ttl", func(up rdns.Resolver) rdns.Resolver {
			return rdns.NewTTLModifier("e", up, rdns.TTLModifierOptions{SelectFunc: rdns.TTLSelectLowest, MinTTL: 10, MaxTTL: 50})
		}},
		{"collapse", func(up rdns.Resolver) rdns.Resolver {
			return rdns.NewResponseCollapse("e", up, rdns.ResponseCollapseOptions{})
		}},
		{"minimize", func(up rdns.Resolver) rdns.Resolver { return rdns.NewResponseMinimize("e", up) }},
		{"rate-limiter", func(up rdns.Resolver) rdns.Resolver {
			return rdns.NewRateLimiter("e", up, rdns.RateLimiterOptions{Requests: 100, Window: 3600, Prefix4: 24, Prefix6: 56})
		}},
		{"fail-rotate", func(up rdns.Resolver) rdns.Resolver {
			return rdns.NewFailRotate("e", rdns.FailRotateOptions{ServfailError: true}, up, p17Static())
		}},
		{"fail-back", func(up rdns.Resolver) rdns.Resolver {
			return rdns.NewFailBack("e", rdns.FailBackOptions{ServfailError: true, ResetAfter: time.Hour}, up, p17Static())
		}},
		{"round-robin", func(up rdns.Resolver) rdns.Resolver { return rdns.NewRoundRobin("e", up, p17Static()) }},
		{"load-balance", func(up rdns.Resolver) rdns.Resolver { return rdns.NewLoadBalance("e", rdns.LoadBalanceOptions{}, up) }},
		{"random", func(up rdns.Resolver) rdns.Resolver {
			return rdns.NewRandom("e", rdns.RandomOptions{ResetAfter: time.Hour, ServfailError: true}, up)
		}},
		{"fastest", func(up rdns.Resolver) rdns.Resolver { return rdns.NewFastest("e", up, up) }},
		{"fastest-tcp", func(up rdns.Resolver) rdns.Resolver {
			return rdns.NewFastestTCP("e", up, rdns.FastestTCPOptions{SuccessTTLMin: 600})
		}},
		{"router", func(up rdns.Resolver) rdns.Resolver {
			r := rdns.NewRouter("e")
			r.Add(must(rdns.NewRoute(`nowhere`, "", nil, nil, "", "", "", "", "", "", "", p17Static())), must(rdns.NewRoute("", "", nil, nil, "", "", "", "", "", "", "", up)))
			return r
		}},
		{"truncate-retry", func(up rdns.Resolver) rdns.Resolver {
			return rdns.NewTruncateRetry("e", up, p17Static(), rdns.TruncateRetryOptions{})
		}},
		{"prefetch", func(up rdns.Resolver) rdns.Resolver {
			return rdns.NewPrefetch("e", up, rdns.PrefetchOptions{PrefetchWindow: time.Hour, PrefetchThreshold: 1000})
		}},
	}
}

// p17Leaves answer at the end of the pipeline. Those that are not part of the
// product return fresh messages.
func p17Leaves() []p17Elem {
	leaf := func(name string, f func(q *dns.Msg) (*dns.Msg, error)) p17Elem {
		return p17Elem{name, func(rdns.Resolver) rdns.Resolver {
			return &fn{"leaf", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return f(q) }}
		}}
	}
	return []p17Elem{
		leaf("answer", func(q *dns.Msg) (*dns.Msg, error) {
			n := q.Question[0].Name
			a := reply(q, 0, rr(n+" 100 IN CNAME c.x."), rr("c.x. 90 IN A 1.1.1.1"), rr("c.x. 80 IN A 1.1.1.2"), rr("c.x. 70 IN TXT a b"))
			a.Ns = rrs("x. 60 IN NS ns.x.")
			a.Extra = rrs("ns.x. 60 IN A 1.1.1.3")
			if o := q.IsEdns0(); o != nil {
				a.SetEdns0(1400, o.Do())
				a.IsEdns0().Option = []dns.EDNS0{subnet("10.0.0.0", 8), &dns.EDNS0_EDE{InfoCode: 1, ExtraText: "e"}}
			}
			return a, nil
		}),
		leaf("nodata", func(q *dns.Msg) (*dns.Msg, error) {
			a := reply(q, 0)
			if q.Question[0].Qtype == dns.TypeA {
				a.Answer = rrs(q.Question[0].Name + " 100 IN A 1.1.1.9")
			}
			a.Ns = rrs("x. 60 IN SOA ns.x. h.x. 1 2 3 4 60")
			return a, nil
		}),
		leaf("nxdomain", func(q *dns.Msg) (*dns.Msg, error) {
			a := reply(q, 3)
			a.Ns = rrs("x. 60 IN SOA ns.x. h.x. 1 2 3 4 60")
			return a, nil
		}),
		leaf("truncated", func(q *dns.Msg) (*dns.Msg, error) { a := reply(q, 0); a.Truncated = true; return a, nil }),
		leaf("bad-name", func(q *dns.Msg) (*dns.Msg, error) {
			return reply(q, 0, rr(q.Question[0].Name+" 100 IN CNAME c.bad.")), nil
		}),
		leaf("servfail", func(q *dns.Msg) (*dns.Msg, error) { return reply(q, 2), nil }),
		leaf("error", func(q *dns.Msg) (*dns.Msg, error) { return nil, errUpstream }),
		leaf("drop", func(q *dns.Msg) (*dns.Msg, error) { return nil, nil }),
		{"static", func(rdns.Resolver) rdns.Resolver { return p17Static() }},
		{"template", func(rdns.Resolver) rdns.Resolver {
			return must(rdns.NewStaticTemplateResolver("t", rdns.StaticResolverOptions{Answer: []string{"{{ .Question }} 60 IN A 8.8.8.8"}, NS: []string{"x. 60 IN NS ns.x."}, RCode: 0}))
		}},
	}
}

func p17Queries() []*dns.Msg {
	q := query("H.block.", dns.TypeA)
	q.AuthenticatedData = true
	e := withOpt(query("h.block.", dns.TypeAAAA), true, subnet("10.1.2.3", 32), &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0123456789abcdef"})
	e.CheckingDisabled = true
	return []*dns.Msg{q, e, query("a.y.", dns.TypeAAAA), withOpt(query("a.y.", dns.TypeA), false, subnet("11.1.2.3", 32)), query("4.3.2.1.in-addr.arpa.", dns.TypePTR)}
}

// scribble overwrites a message in place the way elements of a pipeline do:
// header, question, record headers and names, options, section contents. The
// bytes of addresses are values that nothing rewrites.
func scribble(m *dns.Msg) {
	if m == nil {
		return
	}
	m.Id ^= 0xffff
	m.Rcode = 9
	m.Response = !m.Response
	m.CheckingDisabled = !m.CheckingDisabled
	for i := range m.Question {
		m.Question[i] = dns.Question{Name: "scribble.", Qtype: 1234, Qclass: 77}
	}
	for _, s := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		for i, r := range s {
			switch x := r.(type) {
			case *dns.OPT:
				for j, o := range x.Option {
					switch o := o.(type) {
					case *dns.EDNS0_SUBNET:
						o.Address, o.SourceNetmask = net.IP{9, 9, 9, 9}, 1
					case *dns.EDNS0_COOKIE:
						o.Cookie = "ee"
					case *dns.EDNS0_EDE:
						o.ExtraText = "scribble"
					case *dns.EDNS0_LOCAL:
						o.Data = []byte{9}
					}
					x.Option[j] = &dns.EDNS0_NSID{Code: dns.EDNS0NSID}
				}
				x.Hdr.Ttl = 0
				x.Hdr.Class = 1
				s[i] = rr("scribble. 9 IN A 9.9.9.9")
				continue
			case *dns.TXT:
				for j := range x.Txt {
					x.Txt[j] = "scribble"
				}
			case *dns.CNAME:
				x.Target = "scribble."
			case *dns.NS:
				x.Ns = "scribble."
			case *dns.SOA:
				x.Minttl, x.Ns = 1, "scribble."
			case *dns.PTR:
				x.Ptr = "scribble."
			}
			h := r.Header()
			h.Name, h.Ttl, h.Class = "scribble.", 77777, 99
			s[i] = rr("scribble. 9 IN A 9.9.9.9")
		}
	}
}

func p17Run(chains [][]int, leaves []p17Elem) func(*C) {
	return func(c *C) {
		elems := p17Elems()
		refused := func(ctx context.Context, network, addr string) (net.Conn, error) {
			return nil, errors.New("refused")
		}
		for _, ch := range chains {
			for _, leaf := range leaves {
				name := leaf.name
				for i := len(ch) - 1; i >= 0; i-- {
					name = elems[ch[i]].name + " > " + name
				}
				for qi := range p17Queries() {
					if c.Full() {
						return
					}
					c.Case(fmt.Sprintf("%s: query %d", name, qi))
					run := func(dirty bool) (out []string) {
						c.Exec(vsched.Config{RandFixed: true}, func(e *vsched.Exec) {
							e.OnDial(refused)
							end := leaf.mk(nil)
							var r rdns.Resolver = &fn{"log", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
								out = append(out, "asked "+full(q))
								return end.Resolve(q, ci)
							}}
							for i := len(ch) - 1; i >= 0; i-- {
								r = elems[ch[i]].mk(r)
							}
							for n := 0; n < 3; n++ {
								q := p17Queries()[qi]
								q.Id += uint16(n)
								before := full(q)
								ci := rdns.ClientInfo{SourceIP: net.IP{192, 0, 2, 77}, Listener: "l"}
								a, err := r.Resolve(q, ci)
								if full(q) != before {
									e.Fail("query changed from %s to %s", before, full(q))
								}
								if a != nil && err == nil && a.Id != q.Id {
									e.Fail("response %d has ID %d", n, a.Id)
								}
								out = append(out, fmt.Sprint(full(a), err))
								if dirty {
									scribble(a)
									scribble(q)
								}
								e.Settle()
							}
						})
						return
					}
					c.Step()
					want, got := run(false), run(true)
					for i := range want {
						if len(got) != len(want) {
							c.Violation("%d upstream queries and responses when earlier messages were overwritten, otherwise %d", len(got), len(want))
							break
						}
						if got[i] != want[i] {
							c.Violation("step %d is %s when earlier messages were overwritten, otherwise %s", i+1, got[i], want[i])
							break
						}
					}
					if len(want) > 0 {
						c.State("%s", strings.Join(want, "\n"))
					}
				}
			}
		}
	}
}

func init() {
	register(&Check{
		ID:          "P17",
		Level:       "model_checking",
		Rule:        "every element alone and every chain of two, and a third of the chains of three (thorough: all) in front of every leaf, every query resolved three times with response and query overwritten in between, compared with the same run without overwriting; a state is a distinct sequence of upstream queries and outcomes",
		Assumptions: []string{"one thread; concurrent use is covered by the checks of the elements", "address probing is refused"},
		Scenarios: func(tier string) []Scenario {
			n := len(p17Elems())
			var chains [][]int
			for i := 0; i < n; i++ {
				chains = append(chains, []int{i})
				for j := 0; j < n; j++ {
					chains = append(chains, []int{i, j})
					for k := 0; k < n; k++ {
						if tier == "thorough" || (i+j+k)%3 == 0 {
							chains = append(chains, []int{i, j, k})
						}
					}
				}
			}
			var out []Scenario
			const parts = 16
			for p := 0; p < parts; p++ {
				var mine [][]int
				for i, ch := range chains {
					if i%parts == p {
						mine = append(mine, ch)
					}
				}
				out = append(out, Scenario{Name: fmt.Sprintf("chains-%d", p), Run: p17Run(mine, p17Leaves()), CrashIsViolation: true})
			}
			return out
		},
	})
}
