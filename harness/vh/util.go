package main

import (
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// fn is a resolver made from a function.
type fn struct {
	name string
	f    func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error)
}

func (f *fn) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return f.f(q, ci) }
func (f *fn) String() string                                           { return f.name }

var errUpstream = errors.New("upstream failure")

func query(name string, typ uint16) *dns.Msg {
	q := new(dns.Msg)
	q.SetQuestion(name, typ)
	q.Id = 4711
	return q
}

func rr(s string) dns.RR {
	r, err := dns.NewRR(s)
	if err != nil {
		panic(err)
	}
	return r
}

func rrs(ss ...string) []dns.RR {
	var out []dns.RR
	for _, s := range ss {
		out = append(out, rr(s))
	}
	return out
}

func reply(q *dns.Msg, rcode int, answer ...dns.RR) *dns.Msg {
	a := new(dns.Msg)
	a.SetReply(q)
	a.Rcode = rcode
	a.Answer = answer
	return a
}

// sections renders the records of a message, without header and question.
func sections(m *dns.Msg) string {
	if m == nil {
		return "nil"
	}
	var s []string
	for i, sec := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		for _, r := range sec {
			s = append(s, fmt.Sprintf("%d:%s", i, strings.ReplaceAll(r.String(), "\t", " ")))
		}
	}
	return strings.Join(s, "; ")
}

// full renders everything observable about a message.
func full(m *dns.Msg) string {
	if m == nil {
		return "nil"
	}
	return fmt.Sprintf("%+v %v | %s", m.MsgHdr, m.Question, sections(m))
}

func shortMsg(m *dns.Msg, err error) string {
	if err != nil {
		return "error"
	}
	if m == nil {
		return "drop"
	}
	return dns.RcodeToString[m.Rcode] + "{" + sections(m) + "}"
}

func subnet(addr string, mask uint8) *dns.EDNS0_SUBNET {
	ip := net.ParseIP(addr)
	f := uint16(2)
	if ip4 := ip.To4(); ip4 != nil {
		f, ip = 1, ip4
	}
	return &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: f, SourceNetmask: mask, Address: ip}
}

func withOpt(q *dns.Msg, do bool, opts ...dns.EDNS0) *dns.Msg {
	q.SetEdns0(1232, do)
	o := q.IsEdns0()
	o.Option = append(o.Option, opts...)
	return q
}

func sorted(s []string) []string {
	out := append([]string(nil), s...)
	sort.Strings(out)
	return out
}

// permutations calls f with every ordering of 0..n-1.
func permutations(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// tuples calls f with every element of {0..n-1}^k.
func tuples(n, k int, f func([]int)) {
	t := make([]int, k)
	for {
		f(t)
		i := k - 1
		for i >= 0 {
			t[i]++
			if t[i] < n {
				break
			}
			t[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// subsets calls f with every subset of 0..n-1 of at most max elements.
func subsets(n, max int, f func([]int)) {
	var rec func(start int, cur []int)
	rec = func(start int, cur []int) {
		f(cur)
		if len(cur) == max {
			return
		}
		for i := start; i < n; i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
}
