package main

import (
	"encoding/binary"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// P34: lists of locations and networks of operators, with databases written
// for the check.

// mmdb values: string, uint64, []any, and maps as pairs.
type mmPair struct {
	k string
	v any
}

func mmEncode(b []byte, v any) []byte {
	head := func(typ, size int) {
		var ext []byte
		c := typ << 5
		if typ > 7 {
			c, ext = 0, []byte{byte(typ - 7)}
		}
		if size < 29 {
			b = append(append(b, byte(c|size)), ext...)
		} else {
			b = append(append(append(b, byte(c|29)), ext...), byte(size-29))
		}
	}
	switch v := v.(type) {
	case string:
		head(2, len(v))
		b = append(b, v...)
	case uint16:
		head(5, 2)
		b = binary.BigEndian.AppendUint16(b, v)
	case uint32:
		head(6, 4)
		b = binary.BigEndian.AppendUint32(b, v)
	case uint64:
		head(9, 8)
		b = binary.BigEndian.AppendUint64(b, v)
	case []any:
		head(11, len(v))
		for _, x := range v {
			b = mmEncode(b, x)
		}
	case []mmPair:
		head(7, len(v))
		for _, p := range v {
			b = mmEncode(mmEncode(b, p.k), p.v)
		}
	default:
		panic(v)
	}
	return b
}

type mmNode struct {
	kid  [2]*mmNode
	data int // number of the record, 0: none
	num  int
}

// geoNet is a network and its record; later ones in the list are inside
// earlier ones or apart from them.
type geoNet struct {
	cidr string
	asn  uint32
	ids  [5]uint32 // continent, country, city, two subdivisions; 0: none
}

func (g geoNet) net() *net.IPNet {
	_, n, err := net.ParseCIDR(g.cidr)
	if err != nil {
		panic(err)
	}
	return n
}

// bits are the bits of an address in a tree.
func mmBits(ip net.IP, v6 bool) []byte {
	if ip4 := ip.To4(); ip4 != nil && !v6 {
		return ip4
	} else if ip4 != nil {
		return append(make([]byte, 12), ip4...)
	}
	return ip.To16()
}

func mmWrite(file string, v6 bool, kind string, nets []geoNet) {
	root := &mmNode{}
	for i, g := range nets {
		n := g.net()
		ones, _ := n.Mask.Size()
		if v6 && n.IP.To4() != nil {
			ones += 96
		}
		bits := mmBits(n.IP, v6)
		at := root
		for b := 0; b < ones; b++ {
			if at.kid[0] == nil {
				at.kid = [2]*mmNode{{data: at.data}, {data: at.data}}
				at.data = 0
			}
			at = at.kid[bits[b/8]>>(7-b%8)&1]
		}
		*at = mmNode{data: i + 1}
	}
	if root.kid[0] == nil {
		root.kid = [2]*mmNode{{data: root.data}, {data: root.data}}
	}
	var nodes []*mmNode
	var walk func(n *mmNode)
	walk = func(n *mmNode) {
		if n.kid[0] != nil {
			n.num = len(nodes)
			nodes = append(nodes, n)
			walk(n.kid[0])
			walk(n.kid[1])
		}
	}
	walk(root)
	var data []byte
	offs := []int{0}
	for _, g := range nets {
		offs = append(offs, len(data))
		var rec []mmPair
		if kind == "asn" {
			if g.asn != 0 {
				rec = append(rec, mmPair{"autonomous_system_number", g.asn}, mmPair{"autonomous_system_organization", "org"})
			}
		} else {
			for i, k := range []string{"continent", "country", "city"} {
				if g.ids[i] != 0 {
					rec = append(rec, mmPair{k, []mmPair{{"code", "xx"}, {"geoname_id", g.ids[i]}}})
				}
			}
			var subs []any
			for _, id := range g.ids[3:] {
				if id != 0 {
					subs = append(subs, []mmPair{{"geoname_id", id}})
				}
			}
			if subs != nil {
				rec = append(rec, mmPair{"subdivisions", subs})
			}
		}
		data = mmEncode(data, rec)
	}
	var out []byte
	for _, n := range nodes {
		for _, k := range n.kid {
			v := len(nodes)
			if k.kid[0] != nil {
				v = k.num
			} else if k.data != 0 {
				v = len(nodes) + 16 + offs[k.data]
			}
			out = append(out, byte(v>>16), byte(v>>8), byte(v))
		}
	}
	out = append(append(out, make([]byte, 16)...), data...)
	out = append(out, "\xab\xcd\xefMaxMind.com"...)
	ver := uint16(4)
	if v6 {
		ver = 6
	}
	out = mmEncode(out, []mmPair{
		{"binary_format_major_version", uint16(2)}, {"binary_format_minor_version", uint16(0)},
		{"build_epoch", uint64(1700000000)}, {"database_type", "Test-" + kind},
		{"description", []mmPair{}}, {"ip_version", ver}, {"languages", []any{}},
		{"node_count", uint32(len(nodes))}, {"record_size", uint16(24)},
	})
	// As real tools do, replace the file rather than overwrite it.
	if err := os.WriteFile(file+".new", out, 0600); err != nil {
		panic(err)
	}
	if err := os.Rename(file+".new", file); err != nil {
		panic(err)
	}
}

// p34Truth is the record of an address: that of the innermost network.
func p34Truth(nets []geoNet, ip net.IP) (out geoNet) {
	for _, g := range nets {
		if g.net().Contains(ip) && (ip.To4() == nil) == (g.net().IP.To4() == nil) {
			out = g
		}
	}
	return out
}

func p34IDs(kind string, g geoNet) (out []uint32) {
	if kind == "asn" {
		out = []uint32{g.asn}
	} else {
		out = g.ids[:]
	}
	return out
}

var p34Nets = []geoNet{
	{"10.0.0.0/8", 100, [5]uint32{1, 11, 0, 0, 0}},
	{"10.1.0.0/16", 101, [5]uint32{1, 11, 21, 31, 0}},
	{"10.1.2.0/24", 0, [5]uint32{0, 0, 22, 31, 32}},
	{"10.1.2.7/32", 100, [5]uint32{2, 12, 0, 0, 32}},
	{"192.0.2.0/25", 102, [5]uint32{0, 12, 0, 0, 0}},
	{"2001:db8::/32", 101, [5]uint32{2, 0, 21, 0, 0}},
	{"2001:db8:1::/48", 4200000000, [5]uint32{0, 0, 0, 33, 31}},
}

func p34Addrs(nets []geoNet) (out []net.IP) {
	seen := map[string]bool{}
	add := func(ip net.IP) {
		if !seen[ip.String()] {
			seen[ip.String()] = true
			out = append(out, ip)
		}
	}
	step := func(ip net.IP, d int) net.IP {
		o := append(net.IP(nil), ip...)
		for i := len(o) - 1; i >= 0; i-- {
			o[i] += byte(d)
			if d == 1 && o[i] != 0 || d == -1 && o[i] != 255 {
				break
			}
		}
		return o
	}
	for _, g := range nets {
		n := g.net()
		last := append(net.IP(nil), n.IP...)
		for i := range last {
			last[i] |= ^n.Mask[i]
		}
		for _, ip := range []net.IP{n.IP, last} {
			add(ip)
			add(step(ip, 1))
			add(step(ip, -1))
		}
	}
	return out
}

type p34Loader struct{ rules []string }

func (l *p34Loader) Load() ([]string, error) {
	if l.rules == nil {
		return nil, errUpstream
	}
	return l.rules, nil
}

func p34Run(kind string, v6 bool, max int) func(*C) {
	return func(c *C) {
		dir := scratchDir()
		mk := func(l rdns.BlocklistLoader, file string) (rdns.IPBlocklistDB, error) {
			if kind == "asn" {
				return rdns.NewASNDB("list", l, file)
			}
			return rdns.NewGeoIPDB("list", l, file)
		}
		pool := []uint32{1, 2, 11, 12, 21, 22, 31, 32, 33, 999}
		if kind == "asn" {
			pool = []uint32{100, 101, 102, 4200000000, 999}
		}
		forms := []string{"%d", "  %d\t", "%d # comment %[1]d1", "%d#1"}
		// Every sub-database with every rule list.
		subsets(len(p34Nets), len(p34Nets), func(pick []int) {
			if len(pick) > 3 && len(pick) < len(p34Nets) {
				return
			}
			var nets []geoNet
			for _, i := range pick {
				if !v6 && p34Nets[i].net().IP.To4() == nil {
					return
				}
				nets = append(nets, p34Nets[i])
			}
			file := filepath.Join(dir, "db")
			mmWrite(file, v6, kind, nets)
			addrs := p34Addrs(p34Nets)
			judge := func(desc string, db rdns.IPBlocklistDB, ids map[uint32]bool, nets []geoNet) bool {
				for _, ip := range addrs {
					if !v6 && ip.To4() == nil {
						continue
					}
					c.Step()
					want := map[string]bool{}
					for _, id := range p34IDs(kind, p34Truth(nets, ip)) {
						if id != 0 && ids[id] {
							want[fmt.Sprint(id)] = true
						}
					}
					m, ok := db.Match(ip)
					if ok != (len(want) > 0) || ok && (m == nil || !want[m.Rule] || m.List != "list") {
						c.Violation("%s: %v matched %v (%+v), want one of %v", desc, ip, ok, m, want)
						return false
					}
					c.State("%v %v", ip, want)
				}
				// Through the element that blocks clients.
				up := &p21Up{f: func(q *dns.Msg) (*dns.Msg, error) { return reply(q, 0), nil }}
				r, err := rdns.NewClientBlocklist("c", up, rdns.ClientBlocklistOptions{BlocklistDB: db})
				if err != nil {
					c.Violation("%s: %v", desc, err)
					return false
				}
				for _, ip := range append([]net.IP{nil}, addrs...) {
					if ip != nil && !v6 && ip.To4() == nil {
						continue
					}
					c.Step()
					want := false
					for _, id := range p34IDs(kind, p34Truth(nets, ip)) {
						want = want || ip != nil && id != 0 && ids[id]
					}
					up.seen = nil
					a, err := r.Resolve(query("a.test.", dns.TypeA), rdns.ClientInfo{SourceIP: ip})
					if err != nil || a == nil || (a.Rcode == dns.RcodeRefused) != want || (len(up.seen) == 0) != want {
						c.Violation("%s: client %v: %s, blocked is to be %v", desc, ip, shortMsg(a, err), want)
						return false
					}
				}
				return true
			}
			lim := max
			if len(pick) < 2 {
				lim = 1
			}
			n := 0
			subsets(len(pool), lim, func(t []int) {
				ids := map[uint32]bool{}
				rules := []string{"# 1", ""}
				for _, i := range t {
					ids[pool[i]] = true
					rules = append(rules, fmt.Sprintf(forms[n%len(forms)], pool[i]))
					n++
				}
				desc := fmt.Sprintf("%s database of networks %v, rules %q", kind, pick, rules)
				c.Case(desc)
				l := &p34Loader{rules}
				db, err := mk(l, file)
				if err != nil {
					c.Violation("%s: %v", desc, err)
					return
				}
				defer db.Close()
				if !judge(desc, db, ids, nets) || len(t) != 1 {
					return
				}
				// A refresh brings new rules and a new database; the list in use
				// is not affected, not even by a failed one.
				l.rules = nil
				if _, err := db.Reload(); err == nil {
					c.Violation("%s: a failed refresh is not reported", desc)
				}
				l.rules = []string{"nonsense"}
				if _, err := db.Reload(); err == nil {
					c.Violation("%s: broken rules are accepted on refresh", desc)
				}
				other := pool[(t[0]+1)%len(pool)]
				l.rules = []string{fmt.Sprint(other)}
				mmWrite(file, v6, kind, p34Nets[:5])
				next, err := db.Reload()
				mmWrite(file, v6, kind, nets)
				if err != nil {
					c.Violation("%s: refresh: %v", desc, err)
					return
				}
				if judge(desc+" while refreshed", db, ids, nets) {
					judge(desc+" after refresh to "+fmt.Sprint(other), next, map[uint32]bool{other: true}, p34Nets[:5])
				}
				next.Close()
			})
		})
		for _, r := range []string{"x", "-1", "1.5", "1 2", "AS100", "18446744073709551616"} {
			c.Case("rule " + r)
			c.Step()
			file := filepath.Join(dir, "db")
			if _, err := mk(&p34Loader{[]string{r}}, file); err == nil {
				c.Violation("%s: rule %q accepted", kind, r)
			}
		}
		for _, f := range []string{"", "garbage", strings.Repeat("\x00", 300)} {
			c.Case("file")
			c.Step()
			file := filepath.Join(dir, "broken")
			os.WriteFile(file, []byte(f), 0600)
			if _, err := mk(&p34Loader{[]string{"1"}}, file); err == nil {
				c.Violation("%s: broken database accepted", kind)
			}
		}
		if _, err := mk(&p34Loader{[]string{"1"}}, filepath.Join(dir, "none")); err == nil {
			c.Violation("%s: missing database accepted", kind)
		}
	}
}

func init() {
	register(&Check{
		ID:          "P34",
		Level:       "model_checking",
		Rule:        "databases of all sets of up to three networks of a nested alphabet and of all of them, all rule lists of up to two (thorough: three) identifiers, all addresses at the edges of the networks, before, during and after a refresh, compared with the innermost network containing the address; a state is an address with its expected rules",
		Assumptions: []string{"identifier 0 is not used in rules", "the database library decodes as specified"},
		Scenarios: func(tier string) []Scenario {
			max := 2
			if tier == "thorough" {
				max = 3
			}
			var out []Scenario
			for _, k := range []string{"asn", "geo"} {
				for _, v6 := range []bool{false, true} {
					out = append(out, Scenario{Name: fmt.Sprintf("%s-v6-%v", k, v6), Run: p34Run(k, v6, max), CrashIsViolation: true})
				}
			}
			return out
		},
	})
}
