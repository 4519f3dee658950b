package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

type nopConn struct{ net.Conn }

func (nopConn) Close() error { return nil }

// p11Probe: every outcome and completion order of the connection probes of a
// response with n addresses.
func p11Probe(n int, v6, waitAll bool, ttlMin uint32, layout string) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		typ, other := dns.TypeA, dns.TypeAAAA
		rec := func(t uint16, i int) dns.RR {
			if t == dns.TypeA {
				return rr(fmt.Sprintf("b.test. %d IN A 10.0.0.%d", 10*(i+1), i))
			}
			return rr(fmt.Sprintf("b.test. %d IN AAAA 2001:db8::%d", 10*(i+1), i+1))
		}
		if v6 {
			typ, other = other, typ
		}
		// kind: 0 connects, 1 refused, 2 silent
		kind := make([]int, n)
		at := make([]time.Duration, n)
		e.Quiet(true)
		free := []int{}
		for i := 0; i < n; i++ {
			free = append(free, i+1)
		}
		for i := range kind {
			kind[i] = e.Choose(3, "probe")
			k := e.Choose(len(free), "time")
			at[i] = time.Duration(free[k]) * 100 * time.Millisecond
			free = append(append([]int{}, free[:k]...), free[k+1:]...)
			if kind[i] == 2 {
				at[i] = time.Hour
			}
		}
		e.Quiet(false)
		e.OnDial(func(ctx context.Context, network, addr string) (net.Conn, error) {
			host, port, _ := net.SplitHostPort(addr)
			if port != "8443" || (network == "tcp6") != v6 {
				e.Fail("probe of %s %s", network, addr)
			}
			i := -1
			for k := 0; k < n; k++ {
				if f := strings.Fields(rec(typ, k).String()); f[4] == host {
					i = k
				}
			}
			if i < 0 {
				e.Fail("probe of unknown address %s", addr)
			}
			t := vsched.After(at[i])
			c1 := vsched.CaseRecv(t)
			c2 := vsched.CaseRecv(ctx.Done())
			if vsched.Select(false, c1, c2) == 1 {
				return nil, ctx.Err()
			}
			if kind[i] == 1 {
				return nil, errors.New("refused")
			}
			return nopConn{}, nil
		})
		var answer []dns.RR
		k := 0
		for _, c := range layout {
			switch c {
			case 'c':
				answer = append(answer, rr("a.test. 5 IN CNAME b.test."))
			case 'o':
				answer = append(answer, rec(other, 77))
			case 'x':
				answer = append(answer, rec(typ, k))
				k++
			}
		}
		up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			a := reply(q, 0, answer...)
			a.Ns = rrs("test. 7 IN NS ns.test.")
			return a, nil
		}}
		g := rdns.NewFastestTCP("g", up, rdns.FastestTCPOptions{Port: 8443, WaitAll: waitAll, SuccessTTLMin: ttlMin})
		q := query("a.test.", typ)
		start := e.Elapsed()
		a, err := g.Resolve(q, rdns.ClientInfo{})
		took := e.Elapsed() - start
		if err != nil || a == nil {
			e.Fail("failed: %v", err)
		}
		// Expected order of the addresses.
		order := make([]int, n)
		for i := range order {
			order[i] = i
		}
		byTime := append([]int{}, order...)
		sort.Slice(byTime, func(x, y int) bool { return at[byTime[x]] < at[byTime[y]] })
		success := false
		limit := 2 * time.Second
		if n >= 2 {
			if waitAll {
				success = true
				for i := range kind {
					if kind[i] != 0 {
						success = false
					}
				}
				if success {
					order = byTime
					limit = at[byTime[n-1]]
				}
			} else {
				f := byTime[0]
				if kind[f] == 0 {
					success = true
					limit = at[f]
					order = []int{f}
					for i := 0; i < n; i++ {
						if i != f {
							order = append(order, i)
						}
					}
				}
			}
		} else {
			limit = 0
		}
		var want []string
		k = 0
		for _, c := range layout {
			var r dns.RR
			switch c {
			case 'c':
				r = rr("a.test. 5 IN CNAME b.test.")
			case 'o':
				r = rec(other, 77)
			case 'x':
				r = rec(typ, order[k])
				if success && r.Header().Ttl < ttlMin {
					r.Header().Ttl = ttlMin
				}
				k++
			}
			want = append(want, strings.ReplaceAll("0:"+r.String(), "\t", " "))
		}
		want = append(want, "1:test. 7 IN NS ns.test.")
		if sections(a) != strings.Join(want, "; ") {
			e.Fail("probes %v at %v (wait-all %v): got %s, want %s", kind, at, waitAll, sections(a), strings.Join(want, "; "))
		}
		if took > limit {
			e.Fail("probes %v at %v: answered after %v instead of %v", kind, at, took, limit)
		}
		e.Outcome("%v %v", kind, order)
		e.Quiet(true)
		e.Advance(10 * time.Second)
		e.Settle()
		if e.Alive() > 1 {
			e.Fail("%d probes left behind", e.Alive()-1)
		}
	}
}

func p11TCP(tier string) []Scenario {
	var out []Scenario
	x := 0
	if tier == "thorough" {
		x = 1
	}
	for _, w := range []bool{false, true} {
		for _, v6 := range []bool{false, true} {
			for _, ttl := range []uint32{0, 15} {
				name := fmt.Sprintf("-%v-%v-%d", w, v6, ttl)
				out = append(out,
					Scenario{Name: "probe-1" + name, Cfg: vsched.Config{Delay: true, Deviations: 1 + x}, Body: p11Probe(1, v6, w, ttl, "cxo")},
					Scenario{Name: "probe-2" + name, Cfg: vsched.Config{Delay: true, Deviations: 2 + x}, Body: p11Probe(2, v6, w, ttl, "xox")},
					Scenario{Name: "probe-3" + name, Weight: 5, Cfg: vsched.Config{Delay: true, Deviations: 1 + x}, Body: p11Probe(3, v6, w, ttl, "cxxox")})
			}
		}
		out = append(out, Scenario{Name: fmt.Sprintf("probe-4-%v", w), Weight: 5, Cfg: vsched.Config{Serial: true}, Body: p11Probe(4, false, w, 15, "cxxxx")})
	}
	return out
}
