package main

import (
	"fmt"
	"net"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p16: rate limiter.

type p16Client struct {
	name string
	ip   net.IP
}

func p16Net(ip net.IP, p4, p6 int) string {
	if ip4 := ip.To4(); ip4 != nil {
		return "4/" + ip4.Mask(net.CIDRMask(p4, 32)).String()
	}
	return "6/" + ip.Mask(net.CIDRMask(p6, 128)).String()
}

// Sequential histories of queries and clock movements against a counter.
func p16Seq(opt rdns.RateLimiterOptions, alt bool, clients []p16Client, steps []time.Duration, depth int) func(*C) {
	return func(c *C) {
		p4, p6, win := int(opt.Prefix4), int(opt.Prefix6), int64(opt.Window)
		if p4 == 0 {
			p4 = 24
		}
		if p6 == 0 {
			p6 = 56
		}
		if win == 0 {
			win = 60
		}
		n := len(clients) + len(steps)
		tuples(n, depth, func(t []int) {
			if c.Full() {
				return
			}
			ops := append([]int(nil), t...)
			// Clock movements at the end decide nothing.
			if ops[len(ops)-1] >= len(clients) {
				return
			}
			var name []string
			for _, o := range ops {
				if o < len(clients) {
					name = append(name, clients[o].name)
				} else {
					name = append(name, "+"+steps[o-len(clients)].String())
				}
			}
			c.Case(strings.Join(name, " "))
			c.Exec(vsched.Config{Start: time.Date(2026, 1, 7, 12, 0, 0, 0, time.UTC)}, func(e *vsched.Exec) {
				passed, limited := 0, 0
				up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
					passed++
					return reply(q, 0, rr("a.test. 1 IN A 1.1.1.1")), nil
				}}
				o := opt
				if alt {
					o.LimitResolver = &fn{"alt", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
						limited++
						return reply(q, dns.RcodeRefused), nil
					}}
				}
				l := rdns.NewRateLimiter("rl", up, o)
				counts := map[string]int{}
				for _, op := range ops {
					c.Step()
					if op >= len(clients) {
						e.Advance(steps[op-len(clients)])
						continue
					}
					w := (vsched.Now().Unix()) / win
					key := fmt.Sprintf("%d|%s", w, p16Net(clients[op].ip, p4, p6))
					counts[key]++
					admit := counts[key] <= int(opt.Requests)
					passed, limited = 0, 0
					ip := append(net.IP(nil), clients[op].ip...)
					a, err := l.Resolve(query("a.test.", 1), rdns.ClientInfo{SourceIP: ip})
					if !ip.Equal(clients[op].ip) {
						e.Fail("client address modified")
					}
					if err != nil {
						e.Fail("unexpected error %v", err)
					}
					got := fmt.Sprintf("passed=%d limited=%d nil=%v", passed, limited, a == nil)
					want := "passed=1 limited=0 nil=false"
					if !admit {
						want = "passed=0 limited=0 nil=true"
						if alt {
							want = "passed=0 limited=1 nil=false"
						}
					}
					if got != want {
						e.Fail("query from %s: %s, expected %s", clients[op].name, got, want)
					}
				}
				c.State("%v", counts)
			})
		})
	}
}

// Concurrent queries around a window boundary.
func p16Sched(requests uint, callers []net.IP, boundary bool) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		const win = 10
		type rec struct {
			start, end int64
			admitted   bool
			net        string
		}
		recs := make([]rec, len(callers))
		window := func() int64 { return vsched.Now().Unix() / win }
		up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			recs[q.Id].admitted = true
			return reply(q, 0), nil
		}}
		l := rdns.NewRateLimiter("rl", up, rdns.RateLimiterOptions{Requests: requests, Window: win})
		if boundary {
			e.Instant(10 * time.Second)
		}
		var ts []*vsched.Thread
		for i := range callers {
			ts = append(ts, e.Go(fmt.Sprintf("client%d", i), func() {
				q := query("a.test.", 1)
				q.Id = uint16(i)
				recs[i].start = window()
				recs[i].net = p16Net(callers[i], 24, 56)
				l.Resolve(q, rdns.ClientInfo{SourceIP: callers[i]})
				recs[i].end = window()
			}))
		}
		e.Join(ts...)
		// Some assignment of each query to a window it was active in must make
		// every decision right: within a window and network exactly
		// min(limit, queries) are admitted.
		ok := false
		tuples(2, len(recs), func(t []int) {
			total, adm := map[string]int{}, map[string]int{}
			for i, r := range recs {
				w := r.start
				if t[i] == 1 {
					w = r.end
				}
				k := fmt.Sprintf("%d|%s", w, r.net)
				total[k]++
				if r.admitted {
					adm[k]++
				}
			}
			for k, n := range total {
				if n > int(requests) {
					n = int(requests)
				}
				if adm[k] != n {
					return
				}
			}
			ok = true
		})
		var o []string
		for i, r := range recs {
			o = append(o, fmt.Sprintf("%d:%d-%d:%v", i, r.start%100, r.end%100, r.admitted))
		}
		e.Outcome("%s", strings.Join(o, " "))
		if !ok {
			e.Fail("limit %d per window not kept: %s", requests, strings.Join(o, " "))
		}
	}
}

func init() {
	register(&Check{
		ID:    "P16",
		Level: "model_checking",
		Rule:  "every sequence of queries and clock movements up to the stated depth against a counting model, and every schedule of 2-4 concurrent queries around a window boundary within the deviation bound; a state is a distinct counter table or outcome vector",
		Assumptions: []string{"the clock does not step backwards",
			"a query belongs to a window that is current at some moment while it is being processed"},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			clients := []p16Client{
				{"10.0.0.1", net.IP{10, 0, 0, 1}},
				{"10.0.0.1/16byte", net.ParseIP("10.0.0.1")},
				{"10.0.0.129", net.IP{10, 0, 0, 129}},
				{"10.0.1.1", net.IP{10, 0, 1, 1}},
				{"2001:db8::1", net.ParseIP("2001:db8::1")},
				{"2001:db8:0:ff::1", net.ParseIP("2001:db8:0:ff::1")},
				{"2001:db8:0:100::1", net.ParseIP("2001:db8:0:100::1")},
			}
			few := []p16Client{clients[0], clients[1], clients[3], clients[4]}
			depth, fewDepth := 4, 6
			if tier == "thorough" {
				depth, fewDepth = 5, 7
			}
			for _, alt := range []bool{false, true} {
				for _, req := range []uint{0, 1, 2, 3} {
					for _, pf := range [][2]uint8{{0, 0}, {25, 64}, {16, 48}, {32, 128}} {
						if alt && pf[0] != 0 {
							continue
						}
						opt := rdns.RateLimiterOptions{Requests: req, Window: 10, Prefix4: pf[0], Prefix6: pf[1]}
						out = append(out, Scenario{Name: fmt.Sprintf("clients-r%d-p%d-%d-alt%v", req, pf[0], pf[1], alt),
							Run: p16Seq(opt, alt, clients, []time.Duration{9 * time.Second}, depth)})
					}
					opt := rdns.RateLimiterOptions{Requests: req, Window: 10}
					out = append(out, Scenario{Name: fmt.Sprintf("windows-r%d-alt%v", req, alt),
						Run: p16Seq(opt, alt, few[:3], []time.Duration{time.Second, 9 * time.Second, 10 * time.Second}, fewDepth)})
				}
			}
			out = append(out, Scenario{Name: "default-window", Run: p16Seq(rdns.RateLimiterOptions{Requests: 1}, false, few[:2], []time.Duration{time.Second, 59 * time.Second, 60 * time.Second}, fewDepth)})
			d := 3
			if tier == "thorough" {
				d = 4
			}
			a, b := net.IP{10, 0, 0, 1}, net.IP{10, 0, 0, 2}
			x := net.IP{10, 0, 1, 2}
			for r := uint(1); r <= 2; r++ {
				out = append(out,
					Scenario{Name: fmt.Sprintf("sched-2-r%d", r), Weight: 10, Cfg: vsched.Config{Deviations: d + 1}, Body: p16Sched(r, []net.IP{a, b}, false)},
					Scenario{Name: fmt.Sprintf("sched-3-r%d", r), Weight: 10, Cfg: vsched.Config{Deviations: d}, Body: p16Sched(r, []net.IP{a, b, x}, false)},
					Scenario{Name: fmt.Sprintf("boundary-2-r%d", r), Weight: 10, Cfg: vsched.Config{Deviations: d + 1, TimeDev: true}, Body: p16Sched(r, []net.IP{a, b}, true)},
					Scenario{Name: fmt.Sprintf("boundary-3-r%d", r), Weight: 10, Cfg: vsched.Config{Deviations: d, TimeDev: true}, Body: p16Sched(r, []net.IP{a, b, a}, true)},
				)
				out = append(out, sharded(8, Scenario{Name: fmt.Sprintf("boundary-4-r%d", r), Weight: 20, Cfg: vsched.Config{Deviations: d - 1, TimeDev: true}, Body: p16Sched(r, []net.IP{a, b, a, x}, true)})...)
			}
			return out
		},
	})
}
