package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// p32: fixed responders, p33: query logs.

// p32Rec is a configured record and what becomes of it; nil: left out.
type p32Rec struct {
	text string
	want func(q dns.Question, id uint16) string
}

// p32Const is a record that does not depend on the query. The name "@" stands
// for the name in the query.
func p32Const(text, want string) p32Rec {
	return p32Rec{text, func(q dns.Question, _ uint16) string { return strings.Replace(want, "@", q.Name, 1) }}
}

type p32Ede struct {
	code uint16
	text string
	want func(q dns.Question, id uint16) string
}

func p32Edes() []p32Ede {
	c := func(s string) func(dns.Question, uint16) string {
		return func(dns.Question, uint16) string { return s }
	}
	return []p32Ede{
		{0, "", nil},
		{15, "", c("")},
		{0, "other", c("other")},
		{17, "{{ .Question }}/{{ .QuestionType }}/{{ .QuestionClass }}/{{ .ID }}[{{ .Blocklist }}{{ .BlocklistRule }}]", func(q dns.Question, id uint16) string {
			return fmt.Sprintf("%s/%s/%s/%d[]", q.Name, dns.TypeToString[q.Qtype], dns.ClassToString[q.Qclass], id)
		}},
	}
}

func p32Queries(last string) (out []*dns.Msg) {
	for i, name := range []string{"a.test.", "10.0.0.1.rebind.", "1-2-3-4.Rebind.", last} {
		for j, typ := range []uint16{dns.TypeA, dns.TypeTXT, dns.TypeANY} {
			for k, class := range []uint16{dns.ClassINET, dns.ClassCHAOS} {
				for e := 0; e < 3; e++ {
					q := query(name, typ)
					q.Question[0].Qclass = class
					q.Id = uint16(1 + 7*i + 100*j)
					q.RecursionDesired = (i+j+k)%2 == 0
					q.CheckingDisabled = (i+k+e)%2 == 0
					if e > 0 {
						withOpt(q, e == 2)
					}
					out = append(out, q)
				}
			}
		}
	}
	return out
}

// p32Text renders a record with single spaces.
func p32Text(r dns.RR) string { return strings.ReplaceAll(r.String(), "\t", " ") }

// p32Judge compares a response with what was configured.
func p32Judge(q, a *dns.Msg, err error, secs [3][]p32Rec, rcode int, tc bool, ede p32Ede) string {
	if err != nil {
		return fmt.Sprintf("failed: %v", err)
	}
	if a == nil {
		return "dropped"
	}
	qu := q.Question[0]
	if a.Id != q.Id || !a.Response || a.Opcode != q.Opcode || len(a.Question) != 1 || a.Question[0] != qu {
		return fmt.Sprintf("is no reply to the query: %s", full(a))
	}
	if a.Rcode != rcode || a.Truncated != tc {
		return fmt.Sprintf("response code %d and truncation %v, configured are %d and %v", a.Rcode, a.Truncated, rcode, tc)
	}
	if a.RecursionDesired != q.RecursionDesired || !a.RecursionAvailable {
		return fmt.Sprintf("recursion flags are wrong: %+v", a.MsgHdr)
	}
	for i, got := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
		var want, have []string
		for _, r := range secs[i] {
			if s := r.want(qu, q.Id); s != "" {
				want = append(want, s)
			}
		}
		for _, r := range got {
			if r == nil {
				return "contains an empty record, it can't be sent"
			}
			if r.Header().Rrtype != dns.TypeOPT {
				have = append(have, p32Text(r))
			}
		}
		if strings.Join(want, "\n") != strings.Join(have, "\n") {
			return fmt.Sprintf("section %d is %q, configured is %q", i, have, want)
		}
	}
	var edes []*dns.EDNS0_EDE
	opts := 0
	for _, r := range a.Extra {
		if o, ok := r.(*dns.OPT); ok {
			opts++
			for _, x := range o.Option {
				if e, ok := x.(*dns.EDNS0_EDE); ok {
					edes = append(edes, e)
				}
			}
		}
	}
	switch {
	case opts > 1 || len(edes) > 1:
		return fmt.Sprintf("repeated EDNS0 data: %s", full(a))
	case ede.want == nil && len(edes) > 0:
		return fmt.Sprintf("extended error %v, none is configured", edes[0])
	case ede.want != nil && len(edes) == 0 && q.IsEdns0() != nil:
		return "the configured extended error is missing"
	case len(edes) == 1:
		if e := edes[0]; e.InfoCode != ede.code || e.ExtraText != ede.want(qu, q.Id) {
			return fmt.Sprintf("extended error %d %q, want %d %q", e.InfoCode, e.ExtraText, ede.code, ede.want(qu, q.Id))
		}
	}
	if _, err := a.Pack(); err != nil {
		return fmt.Sprintf("can't be sent: %v", err)
	}
	return ""
}

// p32Spoil overwrites a response like an element that modifies it.
func p32Spoil(a *dns.Msg) {
	for _, s := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
		for i, r := range s {
			r.Header().Name, r.Header().Ttl = "spoilt.", 1
			s[i] = rr("spoilt. 1 IN A 9.9.9.9")
		}
	}
	a.Rcode, a.Truncated = 4, !a.Truncated
}

// p32Run checks a kind of responder with all configurations whose answer
// records are from part of the space.
func p32Run(kind string, deep bool, part, parts int) func(*C) {
	return func(c *C) {
		rest := func(text string) p32Rec { return p32Const(text, text) }
		var answers []p32Rec
		if kind == "static" {
			answers = []p32Rec{
				p32Const("IN A 1.2.3.4", "@ 3600 IN A 1.2.3.4"),
				p32Const(". 86400 IN A 1.2.3.5", "@ 86400 IN A 1.2.3.5"),
				p32Const("other.test. 0 IN AAAA ::1", "@ 0 IN AAAA ::1"),
				p32Const("IN HINFO RFC8482 ANY", "@ 3600 IN HINFO \"RFC8482\" \"ANY\""),
				p32Const("x. 4 CH TXT \"a b\"", "@ 4 CH TXT \"a b\""),
				p32Const("x. 5 IN CNAME target.test.", "@ 5 IN CNAME target.test."),
			}
		} else {
			first := func(n string) string { return strings.Split(n, ".")[0] }
			answers = []p32Rec{
				{`{{ .Question }} IN A {{ trimSuffix .Question ".rebind." }}`, func(q dns.Question, _ uint16) string {
					if q.Name == "10.0.0.1.rebind." {
						return "10.0.0.1.rebind. 3600 IN A 10.0.0.1"
					}
					return ""
				}},
				{`{{ .Question }} 9 {{ .QuestionClass }} {{ .QuestionType }} {{ replaceAll ( index ( split .Question "." ) 0 ) "-" "." }}`, func(q dns.Question, _ uint16) string {
					v := strings.ReplaceAll(first(q.Name), "-", ".")
					switch {
					case q.Qtype == dns.TypeA && net.ParseIP(v) != nil:
					case q.Qtype == dns.TypeTXT && v != "":
						v = strconv.Quote(v)
					default:
						return ""
					}
					return fmt.Sprintf("%s 9 %s %s %s", q.Name, dns.ClassToString[q.Qclass], dns.TypeToString[q.Qtype], v)
				}},
				{`{{ .Question }} 60 IN TXT "{{ .ID }}"`, func(q dns.Question, id uint16) string {
					return fmt.Sprintf("%s 60 IN TXT \"%d\"", q.Name, id)
				}},
				{`{{ if eq .QuestionType "A" }}{{ .Question }} 7 IN A 1.1.1.1{{ end }}`, func(q dns.Question, _ uint16) string {
					if q.Qtype != dns.TypeA {
						return ""
					}
					return q.Name + " 7 IN A 1.1.1.1"
				}},
				{`fixed.test. 5 IN CNAME x{{ join ( split .Question "." ) "-" }}x.`, func(q dns.Question, _ uint16) string {
					return "fixed.test. 5 IN CNAME x" + strings.Join(strings.Split(q.Name, "."), "-") + "x."
				}},
				{`{{ index ( split .Question "." ) 3 }}.test. 1 IN TXT "{{ trimPrefix .Question "10." }}"`, func(q dns.Question, _ uint16) string {
					if p := strings.Split(q.Name, "."); len(p) > 3 {
						return fmt.Sprintf("%s.test. 1 IN TXT %q", p[3], strings.TrimPrefix(q.Name, "10."))
					}
					return ""
				}},
			}
		}
		nss := []p32Rec{rest("x.test. 18000 IN NS ns1.x.test."), rest("x.test. 20 IN NS ns2.x.test.")}
		extras := []p32Rec{rest("ns1.x.test. 1800 IN A 127.0.0.1"), rest("ns1.x.test. 1 IN AAAA ::1")}
		pick := func(from []p32Rec, idx []int) (out []p32Rec) {
			for _, i := range idx {
				out = append(out, from[i])
			}
			return out
		}
		var lists [][]int
		max := 2
		if deep {
			max = 3
		}
		for k := 0; k <= max; k++ {
			tuples(len(answers), k, func(t []int) { lists = append(lists, append([]int(nil), t...)) })
		}
		last := "."
		if kind != "static" {
			last = "b."
		}
		queries := p32Queries(last)
		texts := func(s []p32Rec) (out []string) {
			for _, r := range s {
				out = append(out, r.text)
			}
			return out
		}
		edes := p32Edes()
		n := 0
		for _, list := range lists {
			for _, ns := range [][]int{{}, {0}, {1, 0}} {
				for _, ex := range [][]int{{}, {1}, {0, 1}} {
					for ei, ede := range edes {
						for ri, rcode := range []int{0, 2, 3, 5} {
							n++
							if n%parts != part || len(list) == max && (ei+ri)%4 != 0 {
								continue
							}
							tc := (len(ns)+ri)%2 == 1
							secs := [3][]p32Rec{pick(answers, list), pick(nss, ns), pick(extras, ex)}
							tpl, err := rdns.NewEDNS0EDETemplate(ede.code, ede.text)
							if err != nil {
								c.Violation("extended error %d %q refused: %v", ede.code, ede.text, err)
								return
							}
							opt := rdns.StaticResolverOptions{Answer: texts(secs[0]), NS: texts(secs[1]), Extra: texts(secs[2]), RCode: rcode, Truncate: tc, EDNS0EDETemplate: tpl}
							var r rdns.Resolver
							if kind == "static" {
								r, err = rdns.NewStaticResolver("s", opt)
							} else {
								r, err = rdns.NewStaticTemplateResolver("s", opt)
							}
							desc := fmt.Sprintf("%s answer %q, ns %q, extra %q, rcode %d, truncate %v, error %d %q", kind, opt.Answer, opt.NS, opt.Extra, rcode, tc, ede.code, ede.text)
							c.Case(desc)
							if err != nil {
								c.Violation("%s: refused: %v", desc, err)
								return
							}
							// Every query follows a response that was
							// overwritten by whoever got it.
							for _, q := range queries {
								c.Step()
								before := full(q)
								a, err := r.Resolve(q, rdns.ClientInfo{})
								if msg := p32Judge(q, a, err, secs, rcode, tc, ede); msg != "" {
									c.Violation("%s: query %v: %s", desc, q.Question[0], msg)
									return
								}
								if full(q) != before {
									c.Violation("%s: the query was modified: %s, was %s", desc, full(q), before)
									return
								}
								c.State("%s", full(a))
								p32Spoil(a)
							}
						}
					}
				}
			}
		}
	}
}

// p32Odd: records that are none, and the element that drops queries.
func p32Odd() func(*C) {
	return func(c *C) {
		bad := []string{"IN A nonsense", "x. IN", "x. 5 IN A ::1", "x. 5 IN NOTYPE y"}
		empty := []string{"", "; comment"}
		set := func(sec int, s string) (o rdns.StaticResolverOptions) {
			good := ". 5 IN A 1.1.1.1"
			*[]*[]string{&o.Answer, &o.NS, &o.Extra}[sec] = []string{good, s, good}
			return o
		}
		for sec := 0; sec < 3; sec++ {
			for _, s := range bad {
				c.Case(fmt.Sprintf("static section %d %q", sec, s))
				c.Step()
				if _, err := rdns.NewStaticResolver("s", set(sec, s)); err == nil {
					c.Violation("broken record %q in section %d accepted", s, sec)
				}
			}
			for _, s := range []string{"{{ .Question", "{{ .Question | nosuch }}", "{{ end }}"} {
				c.Case(fmt.Sprintf("template section %d %q", sec, s))
				c.Step()
				if _, err := rdns.NewStaticTemplateResolver("s", set(sec, s)); err == nil {
					c.Violation("broken template %q in section %d accepted", s, sec)
				}
			}
			// Output that is no record is left out, the rest is sent.
			for _, kind := range []string{"static", "template"} {
				for _, s := range append(append([]string{}, empty...), bad...) {
					o := set(sec, s)
					c.Case(fmt.Sprintf("%s section %d without record %q", kind, sec, s))
					c.Step()
					var r rdns.Resolver
					var err error
					if kind == "static" {
						r, err = rdns.NewStaticResolver("s", o)
						if err != nil {
							continue
						}
					} else if r, err = rdns.NewStaticTemplateResolver("s", o); err != nil {
						c.Violation("template %q refused: %v", s, err)
						continue
					}
					want := func(q dns.Question, _ uint16) string {
						if kind == "static" && sec == 0 {
							return q.Name + " 5 IN A 1.1.1.1"
						}
						return ". 5 IN A 1.1.1.1"
					}
					var secs [3][]p32Rec
					secs[sec] = []p32Rec{{want: want}, {want: want}}
					q := query("a.test.", dns.TypeA)
					a, err := r.Resolve(q, rdns.ClientInfo{})
					if msg := p32Judge(q, a, err, secs, 0, false, p32Ede{}); msg != "" {
						c.Violation("%s responder with %q in section %d: %s", kind, s, sec, msg)
						continue
					}
					c.State("%s", full(a))
				}
			}
		}
		for _, s := range []string{"{{ .Question", "{{ .Question | nosuch }}"} {
			c.Case(fmt.Sprintf("extended error text %q", s))
			c.Step()
			if _, err := rdns.NewEDNS0EDETemplate(15, s); err == nil {
				c.Violation("broken extended error text %q accepted", s)
			}
		}
		drop := rdns.NewDropResolver("d")
		for _, q := range p32Queries(".") {
			c.Case("drop " + full(q))
			c.Step()
			if a, err := drop.Resolve(q, rdns.ClientInfo{}); a != nil || err != nil {
				c.Violation("query %s is to be dropped, got %s", full(q), shortMsg(a, err))
			}
		}
	}
}

// p33Outcomes are what is behind a log.
var p33Outcomes = []struct {
	name string
	f    func(q *dns.Msg) (*dns.Msg, error)
}{
	{"one", func(q *dns.Msg) (*dns.Msg, error) {
		return reply(q, 0, rr(q.Question[0].Name+" 5 IN A 1.1.1.1")), nil
	}},
	{"mixed", func(q *dns.Msg) (*dns.Msg, error) {
		return reply(q, 0, rr(q.Question[0].Name+" 5 IN CNAME x.test."), rr("x.test. 6 IN A 1.1.1.1"), rr("x.test. 7 IN A 1.1.1.2"), rr("x.test. 8 IN TXT \"a b=\\\"c\"")), nil
	}},
	{"nodata", func(q *dns.Msg) (*dns.Msg, error) { return reply(q, 0), nil }},
	{"nxdomain", func(q *dns.Msg) (*dns.Msg, error) { return reply(q, 3), nil }},
	{"servfail", func(q *dns.Msg) (*dns.Msg, error) { return reply(q, 2), nil }},
	{"drop", func(q *dns.Msg) (*dns.Msg, error) { return nil, nil }},
	{"error", func(q *dns.Msg) (*dns.Msg, error) { return nil, errUpstream }},
}

type p33Query struct {
	q  *dns.Msg
	ip string
}

func p33Queries() (out []p33Query) {
	for i, name := range []string{"a.test.", "A\\032b\\\"c=d.Test.", "."} {
		for j, typ := range []uint16{dns.TypeA, dns.TypeTXT} {
			for k, ip := range []string{"10.0.0.1", "2001:db8::1", ""} {
				for e := 0; e < 3; e++ {
					q := query(name, typ)
					q.Id = uint16(1000 + 100*i + 10*j + k)
					if j == 1 && k == 1 {
						q.Question[0].Qclass = dns.ClassCHAOS
					}
					switch e {
					case 1:
						withOpt(q, true, subnet("192.0.2.0", 24))
					case 2:
						withOpt(q, false, subnet("2001:db8:1::", 56))
					}
					out = append(out, p33Query{q, ip})
				}
			}
		}
	}
	return out
}

// p33Resolve sends a query through a log and says whether it was left alone.
func p33Resolve(mk func(up rdns.Resolver) rdns.Resolver, r *rdns.Resolver, up *p21Up, x p33Query, out int) string {
	q := x.q.Copy()
	before := full(q)
	var given *dns.Msg
	var givenErr error
	up.seen, up.msgs = nil, nil
	up.f = func(q *dns.Msg) (*dns.Msg, error) {
		given, givenErr = p33Outcomes[out].f(q)
		return given, givenErr
	}
	if *r == nil {
		*r = mk(up)
	}
	// What the upstream has given, before the log sees it.
	want, wantErr := p33Outcomes[out].f(x.q.Copy())
	a, err := (*r).Resolve(q, rdns.ClientInfo{SourceIP: net.ParseIP(x.ip)})
	if len(up.seen) != 1 || up.seen[0] != before {
		return fmt.Sprintf("query %s reached the resolver as %q", before, up.seen)
	}
	if shortMsg(a, err) != shortMsg(want, wantErr) || full(a) != full(want) || err != givenErr {
		return fmt.Sprintf("query %s: got %s (%v), the resolver answered %s (%v)", before, full(a), err, full(want), wantErr)
	}
	return ""
}

// p33Line reads the fields of a line of a log of text format.
func p33Line(s string) (map[string]string, bool) {
	m := map[string]string{}
	for s = strings.TrimSpace(s); s != ""; s = strings.TrimLeft(s, " ") {
		k, rest, ok := strings.Cut(s, "=")
		if !ok {
			return nil, false
		}
		var v string
		if strings.HasPrefix(rest, "\"") {
			p, err := strconv.QuotedPrefix(rest)
			if err != nil {
				return nil, false
			}
			v, _ = strconv.Unquote(p)
			rest = rest[len(p):]
		} else {
			v, rest, _ = strings.Cut(rest, " ")
		}
		m[k], s = v, rest
	}
	return m, true
}

func p33Missing(got, want map[string]string) string {
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			return fmt.Sprintf("%s is %q, want %q", k, g, v)
		}
	}
	return ""
}

// p33File checks a query log file over all sequences of queries and outcomes
// of a length, with the element made anew after each number of queries.
func p33File(format string, depth int, part, parts int) func(*C) {
	return func(c *C) {
		file := filepath.Join(scratchDir(), "log")
		queries := p33Queries()
		// Sequences use a few queries, single queries all of them.
		few := []p33Query{queries[0], queries[10], queries[20], queries[len(queries)-1]}
		runs := 0
		run := func(seq []p33Query, outs []int, restart int) bool {
			desc := fmt.Sprintf("%s log, restart after %d:", format, restart)
			for i, x := range seq {
				desc += fmt.Sprintf(" %v from %q (%s);", x.q.Question[0], x.ip, p33Outcomes[outs[i]].name)
			}
			c.Case(desc)
			if runs++; runs%200 == 0 {
				runtime.GC() // closes the files of elements no longer used
			}
			os.WriteFile(file, []byte("first line\n"), 0600)
			up := &p21Up{}
			var r rdns.Resolver
			for i, x := range seq {
				if i == restart {
					r = nil
				}
				c.Step()
				bad := p33Resolve(func(up rdns.Resolver) rdns.Resolver {
					r, err := rdns.NewQueryLogResolver("l", up, rdns.QueryLogResolverOptions{OutputFile: file, OutputFormat: rdns.LogFormat(format)})
					if err != nil {
						panic(err)
					}
					return r
				}, &r, up, x, outs[i])
				if bad != "" {
					c.Violation("%s %s", desc, bad)
					return false
				}
				b, _ := os.ReadFile(file)
				lines := strings.Split(string(b), "\n")
				if lines[0] != "first line" || len(lines) != i+3 || lines[i+2] != "" {
					c.Violation("%s after query %d the log has not one line more: %q", desc, i+1, b)
					return false
				}
				got := map[string]string{}
				ok := true
				if format == "json" {
					d := json.NewDecoder(bytes.NewReader([]byte(lines[i+1])))
					var m map[string]any
					ok = d.Decode(&m) == nil
					for k, v := range m {
						got[k] = fmt.Sprint(v)
					}
				} else {
					got, ok = p33Line(lines[i+1])
				}
				want := map[string]string{
					"question-name":  x.q.Question[0].Name,
					"question-class": dns.ClassToString[x.q.Question[0].Qclass],
					"question-type":  dns.TypeToString[x.q.Question[0].Qtype],
				}
				if x.ip != "" {
					want["source-ip"] = x.ip
				}
				if o := x.q.IsEdns0(); o != nil {
					want["ecs-addr"] = o.Option[0].(*dns.EDNS0_SUBNET).Address.String()
				} else if _, there := got["ecs-addr"]; there {
					ok = false
				}
				if _, there := got["time"]; !there {
					ok = false
				}
				if bad := p33Missing(got, want); !ok || bad != "" {
					c.Violation("%s query %d is logged as %q: %s", desc, i+1, lines[i+1], bad)
					return false
				}
				delete(got, "time")
				c.State("%v", got)
			}
			return true
		}
		n := 0
		mine := func() bool { n++; return n%parts == part }
		for _, x := range queries {
			for o := range p33Outcomes {
				if mine() && !run([]p33Query{x}, []int{o}, -1) {
					return
				}
			}
		}
		ok := true
		for k := 2; k <= depth; k++ {
			tuples(len(few)*2, k, func(t []int) {
				for restart := 0; restart < k && ok; restart++ {
					if !mine() {
						continue
					}
					var seq []p33Query
					var outs []int
					for i, v := range t {
						seq = append(seq, few[v/2])
						outs = append(outs, (v%2*6+i)%len(p33Outcomes))
					}
					ok = run(seq, outs, restart)
				}
			})
		}
		if part == 0 {
			c.Case("settings")
			c.Step()
			if _, err := rdns.NewQueryLogResolver("l", &p21Up{}, rdns.QueryLogResolverOptions{OutputFile: file, OutputFormat: "xml"}); err == nil {
				c.Violation("unknown log format accepted")
			}
			if _, err := rdns.NewQueryLogResolver("l", &p21Up{}, rdns.QueryLogResolverOptions{OutputFile: filepath.Join(file, "x"), OutputFormat: rdns.LogFormat(format)}); err == nil {
				c.Violation("a log file that can't be opened is accepted")
			}
		}
	}
}

// p33Sock is a log server.
type p33Sock struct {
	path string
	conn *net.UnixConn
}

func (s *p33Sock) up() {
	if s.conn == nil {
		os.Remove(s.path)
		c, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: s.path, Net: "unixgram"})
		if err != nil {
			panic(err)
		}
		s.conn = c
	}
}

func (s *p33Sock) down() {
	if s.conn != nil {
		s.conn.Close()
		s.conn = nil
		os.Remove(s.path)
	}
}

// read returns what has been received. Messages are queued once written.
func (s *p33Sock) read() (out []string) {
	if s.conn == nil {
		return nil
	}
	rc, err := s.conn.SyscallConn()
	if err != nil {
		panic(err)
	}
	buf := make([]byte, 65536)
	rc.Control(func(fd uintptr) {
		for {
			n, _, err := syscall.Recvfrom(int(fd), buf, syscall.MSG_DONTWAIT)
			if err == syscall.EINTR {
				continue
			}
			if err != nil {
				return
			}
			out = append(out, string(buf[:n]))
		}
	})
	return out
}

// p33Syslog checks all settings with all queries and outcomes, and sequences
// of queries with the server going away and coming back.
func p33Syslog(settings int, depth int) func(*C) {
	return func(c *C) {
		sock := &p33Sock{path: filepath.Join(scratchDir(), "s")}
		defer sock.down()
		opt := rdns.SyslogOptions{Network: "unixgram", Address: sock.path, Priority: 6 | 3<<3, Tag: "tag",
			LogRequest: settings&1 != 0, LogResponse: settings&2 != 0, Verbose: settings&4 != 0}
		mk := func(up rdns.Resolver) rdns.Resolver { return rdns.NewSyslog("l", up, opt) }
		expect := func(x p33Query, out int) (want []map[string]string) {
			qu := x.q.Question[0]
			base := func(kv ...string) {
				m := map[string]string{"id": "l", "qid": fmt.Sprint(x.q.Id), "qtype": dns.TypeToString[qu.Qtype], "qname": qu.Name}
				for i := 0; i < len(kv); i += 2 {
					m[kv[i]] = kv[i+1]
				}
				want = append(want, m)
			}
			if opt.LogRequest {
				if x.ip != "" {
					base("type", "query", "client", x.ip)
				} else {
					base("type", "query")
				}
			}
			a, err := p33Outcomes[out].f(x.q.Copy())
			if !opt.LogResponse || err != nil || a == nil {
				return want
			}
			if a.Rcode != 0 {
				base("type", "answer", "rcode", dns.RcodeToString[a.Rcode])
				return want
			}
			var recs []string
			for _, r := range a.Answer {
				if opt.Verbose || r.Header().Rrtype == qu.Qtype {
					recs = append(recs, p32Text(r))
				}
			}
			for i, s := range recs {
				base("type", "answer", "answer-num", fmt.Sprintf("%d/%d", i+1, len(recs)), "answer", s)
			}
			if len(recs) == 0 {
				base("type", "answer", "rcode", "NODATA")
			}
			return want
		}
		ask := func(desc string, r *rdns.Resolver, up *p21Up, x p33Query, out int, judge bool) bool {
			c.Step()
			if bad := p33Resolve(mk, r, up, x, out); bad != "" {
				c.Violation("%s %s", desc, bad)
				return false
			}
			got := sock.read()
			if !judge {
				return true
			}
			want := expect(x, out)
			if len(got) != len(want) {
				c.Violation("%s %v: %d messages, want %d: %q", desc, x.q.Question[0], len(got), len(want), got)
				return false
			}
			for i, g := range got {
				head, body, _ := strings.Cut(g, "]: ")
				m, ok := p33Line(body)
				if !ok || !strings.HasPrefix(head, "<30>") || !strings.Contains(head, " tag[") {
					c.Violation("%s %v: message %q", desc, x.q.Question[0], g)
					return false
				}
				if bad := p33Missing(m, want[i]); bad != "" {
					c.Violation("%s %v: message %q: %s", desc, x.q.Question[0], g, bad)
					return false
				}
				c.State("%s", body)
			}
			return true
		}
		name := fmt.Sprintf("syslog requests=%v responses=%v verbose=%v", opt.LogRequest, opt.LogResponse, opt.Verbose)
		var queries []p33Query
		for _, x := range p33Queries() {
			// Fields are separated by blanks, names with escapes are not judged.
			if !strings.Contains(x.q.Question[0].Name, "\\") {
				queries = append(queries, x)
			}
		}
		sock.up()
		for _, x := range queries {
			for o, out := range p33Outcomes {
				desc := fmt.Sprintf("%s from %q (%s)", name, x.ip, out.name)
				c.Case(desc + " " + full(x.q))
				var r rdns.Resolver
				if !ask(desc, &r, &p21Up{}, x, o, true) {
					return
				}
			}
		}
		runs := 0
		// Each step: the server is up or down, and an outcome.
		ok := true
		for k := 1; k <= depth; k++ {
			tuples(2*len(p33Outcomes), k, func(t []int) {
				if !ok {
					return
				}
				desc := name + " history"
				for _, v := range t {
					desc += fmt.Sprintf(" %s/%s", []string{"up", "down"}[v%2], p33Outcomes[v/2].name)
				}
				c.Case(desc)
				if runs++; runs%200 == 0 {
					runtime.GC() // closes the connections no longer used
				}
				var r rdns.Resolver
				up := &p21Up{}
				sock.down()
				for i, v := range t {
					if v%2 == 0 {
						sock.up()
					} else {
						sock.down()
					}
					// Without a server at the start nothing is promised.
					if !ask(desc, &r, up, queries[(i*5)%len(queries)], v/2, v%2 == 0 && t[0]%2 == 0) {
						ok = false
						return
					}
				}
			})
		}
	}
}

func init() {
	register(&Check{
		ID:          "P32",
		Level:       "model_checking",
		Rule:        "every configuration of up to two (thorough: three) answer records, authority, additional, response code, truncation and extended error of the alphabet, asked every query of the alphabet in turn with each response overwritten before the next query, compared with a reference; a state is a distinct response",
		Assumptions: []string{"queries have one question of a known type and class", "the flags AA, AD and CD and the EDNS0 size of responses are not judged"},
		Scenarios: func(tier string) []Scenario {
			out := []Scenario{{Name: "odd", Run: p32Odd(), CrashIsViolation: true}}
			for _, k := range []string{"static", "template"} {
				for i := 0; i < 4; i++ {
					out = append(out, Scenario{Name: fmt.Sprintf("%s-%d", k, i), Run: p32Run(k, tier == "thorough", i, 4), CrashIsViolation: true})
				}
			}
			return out
		},
	})
	register(&Check{
		ID:          "P33",
		Level:       "fault_enumeration",
		Rule:        "every query and upstream outcome of the alphabet through every log format and setting, all sequences up to a length with the element restarted or the log server going away and coming back at each point, compared with the query, the upstream's response and the expected log entries; a state is a distinct log entry",
		Assumptions: []string{"queries have one question", "a log server that was unreachable at the start need not get anything later", "fields are identified by their present names"},
		Scenarios: func(tier string) []Scenario {
			depth := 3
			if tier == "thorough" {
				depth = 4
			}
			var out []Scenario
			for _, f := range []string{"", "text", "json"} {
				for i := 0; i < 2; i++ {
					out = append(out, Scenario{Name: fmt.Sprintf("file-%s-%d", f, i), Run: p33File(f, depth, i, 2), CrashIsViolation: true})
				}
			}
			for s := 0; s < 8; s++ {
				out = append(out, Scenario{Name: fmt.Sprintf("syslog-%d", s), Run: p33Syslog(s, depth), CrashIsViolation: true})
			}
			return out
		},
	})
}
