package main

import (
	"fmt"
	"net"
	"regexp"
	"strings"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// Name lists. Names are compared label by label, with "labels" taken from the
// wire form so that dots inside labels do not separate anything.

func wireLabels(name string) []string {
	b := make([]byte, 300)
	n, err := dns.PackDomainName(dns.Fqdn(name), b, 0, nil, false)
	if err != nil {
		panic(fmt.Sprintf("%q: %v", name, err))
	}
	var out []string
	for i := 0; i < n && b[i] != 0; i += int(b[i]) + 1 {
		out = append(out, strings.ToLower(string(b[i+1:i+1+int(b[i])])))
	}
	return out
}

func labelsEqual(a, b []string) bool { return strings.Join(a, "\x00") == strings.Join(b, "\x00") }

func isBelow(name, apex []string) bool {
	return len(name) > len(apex) && labelsEqual(name[len(name)-len(apex):], apex)
}

// domainMatch is the documented meaning of a domain rule.
func domainMatch(rule string, sub bool, name []string) bool {
	rule = strings.TrimSuffix(strings.TrimSpace(rule), ".")
	switch {
	case rule == "":
		return false
	case strings.HasPrefix(rule, "*."):
		return isBelow(name, wireLabels(rule[2:]))
	case strings.HasPrefix(rule, "."):
		l := wireLabels(rule[1:])
		return labelsEqual(name, l) || isBelow(name, l)
	}
	l := wireLabels(rule)
	return labelsEqual(name, l) || sub && isBelow(name, l)
}

var p13DomainRules = []string{
	"x", ".x", "*.x",
	"a.x", ".a.x", "*.a.x",
	"b.a.x", ".b.a.x", "*.b.a.x",
	"b.x", ".b.x", "*.b.x",
	"A.X.", " .B.x ", "",
}

var p13Names = []string{
	".", "x.", "a.x.", "b.x.", "c.x.", "A.x.", "b.a.x.", "a.a.x.", "a.b.x.", "B.A.X.", "c.b.a.x.", "a.b.a.x.", "d.c.b.a.x.",
	"a.", "xx.", "ax.", "aa.x.", "a.x.x.", `c\.a.x.`, `a\.x.`, `b\.a.x.`, "*.x.", "*.a.x.", "c.d.b.x.",
}

func blockQuery(db rdns.BlocklistDB, q *dns.Msg) bool {
	_, _, _, ok := db.Match(q)
	return ok
}

func p13Domain(first int, depth int, sub bool) func(*C) {
	return func(c *C) {
		type nm struct {
			q *dns.Msg
			l []string
		}
		var names []nm
		for _, n := range p13Names {
			names = append(names, nm{query(n, dns.TypeA), wireLabels(n)})
		}
		truth := make([][]bool, len(p13DomainRules))
		for i, r := range p13DomainRules {
			for _, n := range names {
				truth[i] = append(truth[i], domainMatch(r, sub, n.l))
			}
		}
		for k := 0; k < depth; k++ {
			tuples(len(p13DomainRules), k, func(t []int) {
				if c.Full() {
					return
				}
				idx := append([]int{first}, t...)
				var rules []string
				for _, i := range idx {
					rules = append(rules, p13DomainRules[i])
				}
				c.Case(fmt.Sprintf("%q", rules))
				mk := rdns.NewDomainDB
				if sub {
					mk = rdns.NewDomainSubdomainDB
				}
				db, err := mk("l", rdns.NewStaticLoader(rules))
				if err != nil {
					c.Violation("rules %q refused: %v", rules, err)
					return
				}
				sum := 0
				for j, n := range names {
					want := false
					for _, i := range idx {
						want = want || truth[i][j]
					}
					c.Step()
					if blockQuery(db, n.q) != want {
						c.Violation("rules %q match %s: %v, want %v", rules, p13Names[j], !want, want)
						return
					}
					if want {
						sum |= 1 << j
					}
				}
				c.State("%x", sum)
			})
		}
	}
}

var p13HostLines = []string{
	"192.0.2.1 a.x", "192.0.2.2 a.x b.x", "2001:db8::1\ta.x", "0.0.0.0 c.x", "0.0.0.0 a.x", ":: d.x b.x",
	"# 192.0.2.9 z.x", "", "  192.0.2.1   B.X.  ", "2001:db8::1 c.x",
}

// hostsModel is the list as a table.
type hostsModel struct {
	listed map[string]bool
	a      map[string][]string // "name/type" -> addresses
	ptr    map[string][]string
}

func newHostsModel(lines []string) *hostsModel {
	m := &hostsModel{map[string]bool{}, map[string][]string{}, map[string][]string{}}
	for _, l := range lines {
		f := strings.Fields(l)
		if len(f) < 2 || strings.HasPrefix(f[0], "#") {
			continue
		}
		typ := "A"
		if strings.Contains(f[0], ":") {
			typ = "AAAA"
		}
		rev, _ := dns.ReverseAddr(f[0])
		for _, n := range f[1:] {
			key := strings.ToLower(strings.TrimSuffix(n, "."))
			m.listed[key] = true
			if f[0] != "0.0.0.0" && f[0] != "::" {
				m.a[key+"/"+typ] = append(m.a[key+"/"+typ], f[0])
			}
			m.ptr[rev] = append(m.ptr[rev], strings.TrimSuffix(n, ".")+".")
		}
	}
	return m
}

// expect gives the outcome for a query: "" means not listed.
func (m *hostsModel) expect(name string, typ uint16) string {
	if typ == dns.TypePTR {
		if p, ok := m.ptr[strings.ToLower(name)]; ok {
			return "PTR " + strings.Join(p, ",")
		}
		return ""
	}
	key := strings.ToLower(strings.TrimSuffix(name, "."))
	if !m.listed[key] {
		return ""
	}
	if ips := m.a[key+"/"+dns.TypeToString[typ]]; len(ips) > 0 {
		return dns.TypeToString[typ] + " " + strings.Join(ips, ",")
	}
	return "NXDOMAIN"
}

func p13Rendered(q, a *dns.Msg) string {
	if a.Id != q.Id || len(a.Question) != 1 || a.Question[0] != q.Question[0] || !a.Response {
		return "reply does not match the query: " + full(a)
	}
	if a.Rcode == dns.RcodeNameError && len(a.Answer) == 0 {
		return "NXDOMAIN"
	}
	var v []string
	typ := ""
	for _, r := range a.Answer {
		if r.Header().Name != q.Question[0].Name || r.Header().Rrtype != q.Question[0].Qtype {
			return "foreign record " + r.String()
		}
		typ = dns.TypeToString[r.Header().Rrtype]
		switch x := r.(type) {
		case *dns.A:
			v = append(v, x.A.String())
		case *dns.AAAA:
			v = append(v, x.AAAA.String())
		case *dns.PTR:
			v = append(v, x.Ptr)
		}
	}
	return typ + " " + strings.Join(v, ",")
}

func p13Hosts(first, depth int) func(*C) {
	return func(c *C) {
		pass := reply(query("pass.", 1), 0)
		up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return pass, nil }}
		var qs []*dns.Msg
		for _, n := range []string{"a.x.", "A.X.", "b.x.", "c.x.", "d.x.", "z.x.", "x.", "a.a.x."} {
			for _, t := range []uint16{dns.TypeA, dns.TypeAAAA, dns.TypeTXT} {
				qs = append(qs, query(n, t))
			}
		}
		for _, ip := range []string{"192.0.2.1", "192.0.2.2", "2001:db8::1", "192.0.2.9", "0.0.0.0"} {
			rev, _ := dns.ReverseAddr(ip)
			qs = append(qs, query(rev, dns.TypePTR), query(strings.ToUpper(rev), dns.TypePTR), query(rev, dns.TypeA))
		}
		for k := 0; k < depth; k++ {
			tuples(len(p13HostLines), k, func(t []int) {
				if c.Full() {
					return
				}
				lines := []string{p13HostLines[first]}
				for _, i := range t {
					lines = append(lines, p13HostLines[i])
				}
				c.Case(fmt.Sprintf("%q", lines))
				m := newHostsModel(lines)
				db, err := rdns.NewHostsDB("h", rdns.NewStaticLoader(lines))
				if err != nil {
					c.Violation("lines %q refused: %v", lines, err)
					return
				}
				bl, _ := rdns.NewBlocklist("bl", up, rdns.BlocklistOptions{BlocklistDB: db})
				var sig []string
				for _, q := range qs {
					a, err := bl.Resolve(q, rdns.ClientInfo{})
					c.Step()
					got := ""
					if err != nil || a == nil {
						got = shortMsg(a, err)
					} else if a != pass {
						got = p13Rendered(q, a)
					}
					want := m.expect(q.Question[0].Name, q.Question[0].Qtype)
					if got != want {
						c.Violation("hosts %q, query %v: %q, want %q", lines, q.Question[0].String(), got, want)
						return
					}
					sig = append(sig, got)
				}
				c.State("%v", sig)
			})
		}
	}
}

// p13Element checks what the blocklist element does with matches, for
// combinations of several lists.
func p13Element() func(*C) {
	return func(c *C) {
		type list struct {
			desc  string
			db    rdns.BlocklistDB
			match func(name string, typ uint16) bool
			spoof *hostsModel
		}
		must := func(db rdns.BlocklistDB, err error) rdns.BlocklistDB {
			if err != nil {
				panic(err)
			}
			return db
		}
		var basic []list
		for _, r := range [][]string{{".a.x"}, {"*.x", "b.y"}, {}} {
			basic = append(basic, list{"domain" + fmt.Sprint(r), must(rdns.NewDomainDB("d", rdns.NewStaticLoader(r))), func(n string, t uint16) bool {
				for _, x := range r {
					if domainMatch(x, false, wireLabels(n)) {
						return true
					}
				}
				return false
			}, nil})
		}
		for _, r := range [][]string{{`(^|\.)a\.x\.$`, "# .*", "", `^b`}, {`a.*y`}, {`^[^.]*\.$`}} {
			basic = append(basic, list{"regexp" + fmt.Sprint(r), must(rdns.NewRegexpDB("r", rdns.NewStaticLoader(r))), func(n string, t uint16) bool {
				for _, x := range r {
					if x != "" && x[0] != '#' && regexp.MustCompile(x).MatchString(strings.ToLower(n)) {
						return true
					}
				}
				return false
			}, nil})
		}
		for _, r := range [][]string{{"192.0.2.1 a.x", "0.0.0.0 b.y"}, {"2001:db8::1 b.x a.x"}} {
			hm := newHostsModel(r)
			basic = append(basic, list{"hosts" + fmt.Sprint(r), must(rdns.NewHostsDB("h", rdns.NewStaticLoader(r))), func(n string, t uint16) bool { return hm.expect(n, t) != "" }, hm})
		}
		// Combinations of up to two lists.
		lists := []list{}
		multi := map[string]func(string, uint16) *hostsModel{}
		lists = append(lists, basic...)
		for _, a := range basic {
			for _, b := range basic {
				m, _ := rdns.NewMultiDB(a.db, b.db)
				// The first list that matches provides the addresses.
				d := a.desc + "+" + b.desc
				lists = append(lists, list{d, m, func(n string, t uint16) bool { return a.match(n, t) || b.match(n, t) }, nil})
				multi[d] = func(n string, t uint16) *hostsModel {
					if a.match(n, t) {
						return a.spoof
					}
					return b.spoof
				}
			}
		}
		rev, _ := dns.ReverseAddr("192.0.2.1")
		var qs []*dns.Msg
		for _, n := range []string{"x.", "a.x.", "b.x.", "B.y.", "c.a.X.", "a.y.", rev} {
			for _, t := range []uint16{dns.TypeA, dns.TypeAAAA, dns.TypePTR} {
				qs = append(qs, query(n, t))
			}
		}
		mark := func(n string) (rdns.Resolver, *dns.Msg) {
			m := reply(query(n, 1), 0)
			return &fn{n, func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return m, nil }}, m
		}
		up, upM := mark("up.")
		blk, blkM := mark("block.")
		alw, alwM := mark("allow.")
		ede, _ := rdns.NewEDNS0EDETemplate(15, "{{ .Question }} {{ .BlocklistRule }}")
		for _, bl := range lists {
			for ai := -1; ai < len(basic); ai++ {
				for opt := 0; opt < 8; opt++ {
					if c.Full() {
						return
					}
					o := rdns.BlocklistOptions{BlocklistDB: bl.db}
					if ai >= 0 {
						o.AllowlistDB = basic[ai].db
					}
					if opt&1 != 0 {
						o.BlocklistResolver = blk
					}
					if opt&2 != 0 {
						o.AllowListResolver = alw
					}
					if opt&4 != 0 {
						o.EDNS0EDETemplate = ede
					}
					al := "none"
					if ai >= 0 {
						al = basic[ai].desc
					}
					c.Case(fmt.Sprintf("block %s allow %s options %03b", bl.desc, al, opt))
					r, _ := rdns.NewBlocklist("bl", up, o)
					for _, q := range qs {
						n, t := q.Question[0].Name, q.Question[0].Qtype
						a, err := r.Resolve(q, rdns.ClientInfo{})
						c.Step()
						var got string
						switch {
						case err != nil || a == nil:
							got = shortMsg(a, err)
						case a == upM:
							got = "up"
						case a == blkM:
							got = "block"
						case a == alwM:
							got = "allow"
						default:
							got = p13Rendered(q, a)
						}
						sp := bl.spoof
						if f := multi[bl.desc]; f != nil {
							sp = f(n, t)
						}
						want := "up"
						switch {
						case ai >= 0 && basic[ai].match(n, t):
							if opt&2 != 0 {
								want = "allow"
							}
						case bl.match(n, t):
							want = "NXDOMAIN"
							if sp != nil {
								want = sp.expect(n, t)
							}
							if opt&1 != 0 && !strings.HasPrefix(want, "PTR") {
								want = "block"
							}
						}
						if got != want {
							c.Violation("query %s: %q, want %q", q.Question[0].String(), got, want)
							break
						}
						c.State("%s %d %s %d %s", bl.desc, ai, n, t, got)
					}
				}
			}
		}
	}
}

// Address lists.

var p14Nets = []string{
	"0.0.0.0/0", "10.0.0.0/8", "10.128.0.0/9", "10.1.0.0/16", "10.1.2.3", "10.1.2.2/31", "10.1.2.3/8", " 10.1.2.4/30 ", "# x", "",
	"2001:db8::/32", "2001:db8::1", "2001:db8::/127", "2001:db8:8000::/33", "::/0", "::ffff:10.1.2.3", "::ffff:10.200.0.0/112", "::1",
}

var p14Addrs = []string{
	"0.0.0.0", "9.255.255.255", "10.0.0.0", "10.127.255.255", "10.128.0.0", "10.255.255.255", "11.0.0.0", "10.1.0.0", "10.1.255.255", "10.2.0.0",
	"10.1.2.1", "10.1.2.2", "10.1.2.3", "10.1.2.4", "10.1.2.7", "10.1.2.8", "10.200.0.1", "10.200.255.255", "10.201.0.0", "255.255.255.255",
	"::", "::1", "::2", "2001:db8::", "2001:db8::1", "2001:db8::2", "2001:db8:7fff::", "2001:db8:8000::", "2001:db8:ffff:ffff:ffff:ffff:ffff:ffff", "2001:db9::", "2001:db7:ffff::", "ffff::",
}

// cidrMatch compares bit by bit; an IPv4 address in IPv6 notation is the IPv4
// address.
func cidrMatch(rule string, ip net.IP) bool {
	rule = strings.TrimSpace(rule)
	if rule == "" || rule[0] == '#' {
		return false
	}
	addr, bits := rule, -1
	if i := strings.IndexByte(rule, '/'); i >= 0 {
		addr = rule[:i]
		fmt.Sscan(rule[i+1:], &bits)
	}
	v4 := !strings.Contains(addr, ":")
	b := []byte(net.ParseIP(addr))
	if bits < 0 {
		bits = 128
	} else if v4 {
		bits += 96
	}
	if v4 || bits >= 96 && net.IP(b).To4() != nil {
		if ip.To4() == nil {
			return false
		}
	} else if ip.To4() != nil {
		return false
	}
	x := ip.To16()
	for k := 0; k < bits; k++ {
		if (b[k/8]^x[k/8])&(0x80>>(k%8)) != 0 {
			return false
		}
	}
	return true
}

func p14Cidr(first, depth int) func(*C) {
	return func(c *C) {
		var ips []net.IP
		for _, a := range p14Addrs {
			ip := net.ParseIP(a)
			ips = append(ips, ip)
			if ip4 := ip.To4(); ip4 != nil {
				ips = append(ips, ip4)
			}
		}
		truth := make([][]bool, len(p14Nets))
		for i, n := range p14Nets {
			for _, ip := range ips {
				truth[i] = append(truth[i], cidrMatch(n, ip))
			}
		}
		for k := 0; k < depth; k++ {
			tuples(len(p14Nets), k, func(t []int) {
				if c.Full() {
					return
				}
				idx := append([]int{first}, t...)
				var rules []string
				for _, i := range idx {
					rules = append(rules, p14Nets[i])
				}
				c.Case(fmt.Sprintf("%q", rules))
				var dbs []rdns.IPBlocklistDB
				db, err := rdns.NewCidrDB("c", rdns.NewStaticLoader(rules))
				if err != nil {
					c.Violation("rules %q refused: %v", rules, err)
					return
				}
				dbs = append(dbs, db)
				if len(rules) > 1 {
					d1, err1 := rdns.NewCidrDB("c", rdns.NewStaticLoader(rules[:1]))
					d2, err2 := rdns.NewCidrDB("c", rdns.NewStaticLoader(rules[1:]))
					if err1 != nil || err2 != nil {
						c.Violation("rules %q refused", rules)
						return
					}
					m, _ := rdns.NewMultiIPDB(d1, d2)
					dbs = append(dbs, m)
				}
				sum := int64(0)
				for _, db := range dbs {
					for j, ip := range ips {
						want := false
						for _, i := range idx {
							want = want || truth[i][j]
						}
						_, got := db.Match(ip)
						c.Step()
						if got != want {
							c.Violation("%T of %q contains %v: %v, want %v", db, rules, ip, got, want)
							return
						}
						if want {
							sum |= 1 << j
						}
					}
					if _, ok := db.Match(nil); ok {
						c.Violation("no address is contained in %q", rules)
					}
				}
				c.State("%x", sum)
			})
		}
	}
}

func p14Client() func(*C) {
	return func(c *C) {
		upM, blkM := reply(query("up.", 1), 0), reply(query("block.", 1), 0)
		up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return upM, nil }}
		blk := &fn{"blk", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return blkM, nil }}
		ecs := [][]dns.EDNS0{nil, {}, {subnet("10.1.2.3", 32)}, {subnet("11.0.0.0", 16)}, {subnet("2001:db8::", 48)}, {&dns.EDNS0_LOCAL{Code: 65001, Data: []byte{1}}, subnet("10.1.2.3", 24)}}
		tuples(len(p14Nets), 2, func(t []int) {
			rules := []string{p14Nets[t[0]], p14Nets[t[1]]}
			for opt := 0; opt < 4 && !c.Full(); opt++ {
				c.Case(fmt.Sprintf("client list %q options %02b", rules, opt))
				db, err := rdns.NewCidrDB("c", rdns.NewStaticLoader(rules))
				if err != nil {
					c.Violation("rules refused: %v", err)
					return
				}
				o := rdns.ClientBlocklistOptions{BlocklistDB: db, UseECS: opt&2 != 0}
				if opt&1 != 0 {
					o.BlocklistResolver = blk
				}
				r, _ := rdns.NewClientBlocklist("cb", up, o)
				for _, s := range append([]string{""}, p14Addrs...) {
					for _, e := range ecs {
						q := query("q.x.", dns.TypeA)
						if e != nil {
							withOpt(q, false, e...)
						}
						ci := rdns.ClientInfo{SourceIP: net.ParseIP(s)}
						ip := ci.SourceIP
						if opt&2 != 0 {
							for _, x := range e {
								if sn, ok := x.(*dns.EDNS0_SUBNET); ok {
									ip = sn.Address
									break
								}
							}
						}
						want := "up"
						if ip != nil && (cidrMatch(rules[0], ip) || cidrMatch(rules[1], ip)) {
							want = "REFUSED"
							if opt&1 != 0 {
								want = "block"
							}
						}
						a, err := r.Resolve(q, ci)
						c.Step()
						got := shortMsg(a, err)
						switch a {
						case upM:
							got = "up"
						case blkM:
							got = "block"
						default:
							if err == nil && a != nil && a.Rcode == dns.RcodeRefused && a.Id == q.Id && len(a.Answer) == 0 {
								got = "REFUSED"
							}
						}
						if got != want {
							c.Violation("client %v ecs %v: %s, want %s", s, e, got, want)
							return
						}
					}
				}
				c.State("%q %d", rules, opt)
			}
		})
	}
}

// p14Mac checks lists of hardware addresses.
func p14Mac() func(*C) {
	return func(c *C) {
		macs := []string{"01:23:45:ab:cd:ef", "01:23:45:AB:CD:EE", " 00:00:00:00:00:00 ", "# 01:01:01:01:01:01", ""}
		opt := func(code uint16, b ...byte) dns.EDNS0 { return &dns.EDNS0_LOCAL{Code: code, Data: b} }
		vals := [][]byte{{1, 0x23, 0x45, 0xab, 0xcd, 0xef}, {1, 0x23, 0x45, 0xab, 0xcd, 0xee}, {0, 0, 0, 0, 0, 0}, {1, 1, 1, 1, 1, 1}, {1, 0x23, 0x45, 0xab, 0xcd}, {}}
		listed := [][]byte{vals[0], vals[1], vals[2]}
		for k := 0; k <= 3; k++ {
			tuples(len(macs), k, func(t []int) {
				var rules []string
				on := map[string]bool{}
				for _, i := range t {
					rules = append(rules, macs[i])
					if i < 3 {
						on[string(listed[i])] = true
					}
				}
				c.Case(fmt.Sprintf("%q", rules))
				db, err := rdns.NewMACDB("m", rdns.NewStaticLoader(rules))
				if err != nil {
					c.Violation("rules %q refused: %v", rules, err)
					return
				}
				try := func(want bool, opts ...dns.EDNS0) {
					q := withOpt(query("a.x.", 1), false, opts...)
					c.Step()
					if blockQuery(db, q) != want {
						c.Violation("rules %q, options %v: match %v, want %v", rules, opts, !want, want)
					}
				}
				if blockQuery(db, query("a.x.", 1)) {
					c.Violation("query without hardware address matched %q", rules)
				}
				try(false)
				for _, v := range vals {
					try(on[string(v)], opt(65001, v...))
					try(false, opt(65002, v...))
					try(on[string(v)], opt(65001, v...), subnet("10.0.0.0", 8))
					try(on[string(v)], opt(65002, vals[0]...), opt(65001, v...))
				}
				c.State("%v", on)
			})
		}
	}
}

// p14Response checks the lists applied to responses.
func p14Response(tier string) []Scenario {
	type rec struct {
		s    string
		ip   string
		name string
	}
	recs := []rec{
		{"q.x. 60 IN A 10.1.2.3", "10.1.2.3", ""}, {"q.x. 60 IN A 11.0.0.1", "11.0.0.1", ""},
		{"q.x. 60 IN AAAA 2001:db8::1", "2001:db8::1", ""}, {"q.x. 60 IN AAAA 2001:db9::1", "2001:db9::1", ""},
		{"q.x. 60 IN CNAME a.bad.", "", "a.bad."}, {"q.x. 60 IN MX 1 good.", "", "good."}, {"x. 60 IN NS BAD.", "", "BAD."},
		{"q.x. 60 IN PTR good.", "", "good."}, {"q.x. 60 IN SRV 1 2 3 bad.", "", "bad."}, {"x. 60 IN SOA bad. m. 1 2 3 4 5", "", "bad."},
		{"q.x. 60 IN TXT \"hello\"", "", "hello"}, {"q.x. 60 IN HTTPS 1 bad. alpn=h2", "", "bad. alpn=h2"}, {"q.x. 60 IN CAA 0 issue \"bad\"", "", ""},
		{"bad. 60 IN DNAME good.", "", ""},
	}
	rcodes := []int{0, 3, 2}
	upstream := func(t []int, secs int, rcode int, q *dns.Msg) *dns.Msg {
		a := reply(q, rcode)
		s := secs
		for _, i := range t {
			r := rr(recs[i].s)
			switch s % 3 {
			case 0:
				a.Answer = append(a.Answer, r)
			case 1:
				a.Ns = append(a.Ns, r)
			case 2:
				a.Extra = append(a.Extra, r)
			}
			s /= 3
		}
		return a
	}
	ipLists := [][]string{{"10.0.0.0/8"}, {"2001:db8::/32", "11.0.0.0/8"}, {"10.1.2.3", "2001:db8::1", "192.0.2.0/24"}, {"192.0.2.0/24"}}
	nameLists := [][]string{{".bad"}, {"*.bad", "good"}, {"hello"}, {"none"}}
	max := 3
	pow := []int{1, 3, 9, 27}
	var out []Scenario
	run := func(kind string, first int) func(*C) {
		return func(c *C) {
			blkM := reply(query("block.", 1), 0)
			blk := &fn{"blk", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return blkM, nil }}
			var cur *dns.Msg
			up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return cur, nil }}
			q := query("q.x.", dns.TypeA)
			q.Question[0].Name = "Q.x."
			ede, _ := rdns.NewEDNS0EDETemplate(15, "{{ .Question }} {{ .BlocklistRule }} {{ .Blocklist }}")
			lists := ipLists
			if kind == "name" {
				lists = nameLists
			}
			for li, l := range lists {
				for opt := 0; opt < 8; opt++ {
					inv, filter := opt&1 != 0, opt&2 != 0
					if kind == "name" && filter {
						continue
					}
					var r rdns.Resolver
					var alt rdns.Resolver
					if opt&4 != 0 {
						alt = blk
					}
					if kind == "ip" {
						var db rdns.IPBlocklistDB
						db, err := rdns.NewCidrDB("c", rdns.NewStaticLoader(l))
						if err != nil {
							panic(err)
						}
						if li == 2 {
							db, _ = rdns.NewMultiIPDB(db)
						}
						r, _ = rdns.NewResponseBlocklistIP("rb", up, rdns.ResponseBlocklistIPOptions{BlocklistDB: db, BlocklistResolver: alt, Filter: filter, Inverted: inv, EDNS0EDETemplate: ede})
					} else {
						var db rdns.BlocklistDB
						db, err := rdns.NewDomainDB("c", rdns.NewStaticLoader(l))
						if err != nil {
							panic(err)
						}
						if li == 2 {
							db, _ = rdns.NewMultiDB(db)
						}
						r, _ = rdns.NewResponseBlocklistName("rb", up, rdns.ResponseBlocklistNameOptions{BlocklistDB: db, BlocklistResolver: alt, Inverted: inv, EDNS0EDETemplate: ede})
					}
					hit := func(x rec) bool {
						m := false
						switch {
						case kind == "ip" && x.ip != "":
							for _, n := range l {
								m = m || cidrMatch(n, net.ParseIP(x.ip))
							}
						case kind == "name" && x.name != "":
							if strings.ContainsAny(x.name, " ") {
								m = false
							} else {
								for _, n := range l {
									m = m || domainMatch(n, false, wireLabels(x.name))
								}
							}
						default:
							return false
						}
						return m != inv
					}
					for k := 0; k <= max-1; k++ {
						if first < 0 && k > 0 {
							break
						}
						tuples(len(recs), k, func(t0 []int) {
							var t []int
							if first >= 0 {
								t = append([]int{first}, t0...)
							}
							for secs := 0; secs < pow[len(t)]; secs++ {
								for _, rc := range rcodes {
									if c.Full() {
										return
									}
									c.Case(fmt.Sprintf("%s list %q options %03b upstream %v sections %d rcode %d", kind, l, opt, t, secs, rc))
									cur = upstream(t, secs, rc, q)
									want := full(cur)
									any, anyAns := false, false
									s := secs
									var keep [3][]dns.RR
									for _, i := range t {
										if hit(recs[i]) {
											any = true
											anyAns = anyAns || s%3 == 0
										} else {
											keep[s%3] = append(keep[s%3], rr(recs[i].s))
										}
										s /= 3
									}
									blocked := any
									if kind == "ip" && rc != 0 {
										blocked, any = false, false
									}
									if filter && any {
										blocked = anyAns && len(keep[0]) == 0
										f := upstream(nil, 0, rc, q)
										f.Answer, f.Ns, f.Extra = keep[0], keep[1], keep[2]
										want = full(f)
									}
									if blocked {
										want = "NXDOMAIN"
										if alt != nil {
											want = "block"
										}
									}
									a, err := r.Resolve(q, rdns.ClientInfo{})
									c.Step()
									got := shortMsg(a, err)
									if err == nil && a != nil {
										got = full(a)
										if a == blkM {
											got = "block"
										} else if blocked && alt == nil && a.Rcode == dns.RcodeNameError && len(a.Answer)+len(a.Ns) == 0 && a.Id == q.Id && a.Question[0] == q.Question[0] {
											got = "NXDOMAIN"
										}
									}
									if got != want {
										c.Violation("got %s want %s", got, want)
										return
									}
								}
							}
						})
					}
					c.State("%s %d %d", kind, li, opt)
				}
			}
		}
	}
	for _, kind := range []string{"ip", "name"} {
		for f := -1; f < len(recs); f++ {
			out = append(out, Scenario{Name: fmt.Sprintf("response-%s-%d", kind, f), Weight: 4, Run: run(kind, f)})
		}
	}
	return out
}

func init() {
	register(&Check{
		ID:    "P13",
		Level: "model_checking",
		Rule:  "every ordered list of up to 4 (thorough: 5) domain rules, up to 4 hosts lines, and every combination of two lists with an allow list and options, from the rule alphabets, each asked every name and type of the query alphabet; a state is a distinct match outcome over the query alphabet",
		Assumptions: []string{
			"rules consisting of a lone star, comments in domain lists and more than ten addresses for one name are not part of the alphabet: their meaning is not documented",
		},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			d, h := 4, 4
			if tier == "thorough" {
				d, h = 5, 5
			}
			for i := range p13DomainRules {
				out = append(out, Scenario{Name: fmt.Sprintf("domain-%d", i), Weight: 5, Run: p13Domain(i, d, false)},
					Scenario{Name: fmt.Sprintf("subdomain-%d", i), Weight: 5, Run: p13Domain(i, d, true)})
			}
			for i := range p13HostLines {
				out = append(out, Scenario{Name: fmt.Sprintf("hosts-%d", i), Weight: 5, Run: p13Hosts(i, h)})
			}
			return append(out, Scenario{Name: "element", Weight: 9, Run: p13Element()})
		},
	})
	register(&Check{
		ID:    "P14",
		Level: "model_checking",
		Rule:  "every ordered list of up to 4 (thorough: 5) networks asked every boundary address; every pair of networks x client x client subnet x options; every list of up to 3 hardware addresses; every response of up to 3 records in any sections x list x options; a state is a distinct match outcome or element configuration",
		Assumptions: []string{
			"country and AS number lists need a licensed database that is not available and are not exercised",
		},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			d := 4
			if tier == "thorough" {
				d = 5
			}
			for i := range p14Nets {
				out = append(out, Scenario{Name: fmt.Sprintf("cidr-%d", i), Weight: 5, Run: p14Cidr(i, d)})
			}
			out = append(out, Scenario{Name: "client", Weight: 5, Run: p14Client()}, Scenario{Name: "mac", Weight: 1, Run: p14Mac()})
			return append(out, p14Response(tier)...)
		},
	})
}
