package main

import (
	"fmt"
	"slices"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p24: nothing but authentic data passes for signed zones.

// piece is something an attacker can put into a response.
type piece struct {
	name string
	rrs  []dns.RR
}

func renamed(set []dns.RR, owner string) []dns.RR {
	var out []dns.RR
	for _, r := range set {
		r = dns.Copy(r)
		r.Header().Name = owner
		out = append(out, r)
	}
	return out
}

func pieces(ps ...piece) []dns.RR {
	var out []dns.RR
	for _, p := range ps {
		for _, r := range p.rrs {
			out = append(out, dns.Copy(r))
		}
	}
	return out
}

// evilSign signs with the attacker's key in the name of any zone, optionally
// with the tag of the zone's own key.
func (w *dworld) evilSign(set []dns.RR, signer string, like *dkey) []dns.RR {
	k := w.evil
	kk := *k.DNSKEY
	kk.Hdr.Name = signer
	s := signSet(set, signer, dkey{&kk, k.priv}, w.from, w.from.Add(240*time.Hour))
	if like != nil {
		s.KeyTag = like.KeyTag()
	}
	return append(append([]dns.RR{}, set...), s)
}

// ownSign signs with the key of a zone the attacker owns.
func (w *dworld) ownSign(set []dns.RR, top string) []dns.RR {
	z := w.zones["b."+top]
	s := signSet(set, z.name, *z.zsk, w.from, w.from.Add(240*time.Hour))
	return append(append([]dns.RR{}, set...), s)
}

// judgeForged says whether a response the element let through claims anything
// about a signed zone that is not true.
func (w *dworld) judgeForged(a *dns.Msg) string {
	q := a.Question[0]
	got := claim(a)
	allSecure := true
	for i, n := range got.chain {
		t := query(n, q.Qtype)
		_, want := w.resolve(t)
		if !w.secure(w.zoneOf(n, q.Qtype)) || want.optout {
			allSecure = false
			break
		}
		if z := w.zones[n]; q.Qtype == dns.TypeDS && z != nil && !w.secure(z) && i+1 < len(got.chain) {
			allSecure = false // an alias is on the child's side
			break
		}
		if len(want.chain) > 1 {
			if i+1 >= len(got.chain) || got.chain[i+1] != want.chain[1] {
				return fmt.Sprintf("passed on %s, true is %s", got, want)
			}
			continue
		}
		if i+1 < len(got.chain) || got.rcode != want.rcode || fmt.Sprint(got.data) != fmt.Sprint(want.data) {
			return fmt.Sprintf("passed on %s, true is %s", got, want)
		}
	}
	if a.AuthenticatedData && !allSecure {
		_, want := w.resolve(query(q.Name, q.Qtype))
		if !want.optout {
			return fmt.Sprintf("%s is marked as authenticated", got)
		}
	}
	for _, r := range a.Answer {
		h := r.Header()
		if h.Rrtype == dns.TypeRRSIG || !w.secure(w.zoneOf(h.Name, h.Rrtype)) {
			continue
		}
		_, want := w.resolve(query(h.Name, h.Rrtype))
		ok := want.optout
		for _, d := range want.data {
			ok = ok || len(want.chain) == 1 && d == rdata(r)
		}
		if !ok {
			return fmt.Sprintf("passed on %s", r)
		}
	}
	return ""
}

// answerPieces are the sets an attacker can answer a question with.
func (w *dworld) answerPieces(top, qname string, qtype uint16) []piece {
	var out []piece
	add := func(name string, rs ...dns.RR) { out = append(out, piece{name, rs}) }
	z := w.zoneOf(qname, qtype)
	forgedType := qtype
	var forged dns.RR
	switch forgedType {
	case dns.TypeTXT:
		forged = rr(qname + ` 3600 IN TXT "forged"`)
	case dns.TypeDS:
		k := *w.evil.DNSKEY
		k.Hdr.Name = qname
		forged = k.ToDS(dns.SHA256)
	case dns.TypeCNAME:
		forged = rr(qname + " 3600 IN CNAME forged.plain.")
	default:
		forged = rr(qname + " 3600 IN A 6.6.6.6")
	}
	fs := []dns.RR{forged}
	cn := []dns.RR{rr(qname + " 3600 IN CNAME www.plain.")}
	add("forged unsigned", fs...)
	add("forged, signed with an unknown key", w.evilSign(fs, z.name, nil)...)
	add("forged CNAME to an unsigned zone", cn...)
	add("forged CNAME with an unknown key", w.evilSign(cn, z.name, nil)...)
	if z.signed {
		add("forged, with the tag of a known key", w.evilSign(fs, z.name, z.zsk)...)
		if e := w.zones[top]; e != nil {
			add("forged, signed by the zone above", w.evilSign(fs, e.name, e.zsk)...)
		}
	}
	add("forged, signed by a neighbour", w.evilSign(fs, "evil."+top, nil)...)
	add("forged, signed by a signed neighbour", w.ownSign(fs, top)...)
	add("forged CNAME, signed by a signed neighbour", w.ownSign(cn, top)...)
	add("forged, signed as its own zone", w.evilSign(fs, qname, nil)...)
	add("forged CNAME, signed as its own zone", w.evilSign(cn, qname, nil)...)
	if node := z.rrs[strings.ToLower(qname)]; node != nil && z.signed {
		if set := node[qtype]; set != nil {
			old := signSet(set, z.name, *z.zsk, w.from.Add(-200*time.Hour), w.from.Add(47*time.Hour))
			add("expired", append(append([]dns.RR{}, set...), old)...)
			soon := signSet(set, z.name, *z.zsk, w.from.Add(50*time.Hour), w.from.Add(240*time.Hour))
			add("not yet valid", append(append([]dns.RR{}, set...), soon)...)
			add("unsigned", set...)
			sig := w.signedSet(z, set)
			add("forged with the authentic signature", append(append([]dns.RR{}, fs...), sig[len(sig)-1])...)
			add("authentic and forged in one set", append(append([]dns.RR{}, fs...), sig...)...)
			if len(set) > 1 {
				add("part of the set", sig[1:]...)
			}
			add("only the signature", sig[len(sig)-1])
		}
	}
	// everything authentic in the neighbourhood
	for _, zn := range sortedZones(w, top) {
		zz := w.zones[zn]
		for n, node := range zz.rrs {
			for t, set := range node {
				switch t {
				case dns.TypeA, dns.TypeTXT, dns.TypeCNAME, dns.TypeDNAME, dns.TypeDS:
				default:
					continue
				}
				if n != zn && zz.cut(n) != "" && t != dns.TypeDS {
					continue
				}
				s := w.signedSet(zz, set)
				add("authentic "+n+" "+dns.TypeToString[t], s...)
				if base, ok := strings.CutPrefix(n, "*."); ok && qname != base && dns.IsSubDomain(base, qname) {
					add("expanded "+n+" "+dns.TypeToString[t], renamed(s, qname)...)
				}
				if t == dns.TypeCNAME && zz.signed {
					add("signature of "+n, s[len(s)-1])
				}
				if t == dns.TypeDNAME && qname != n && dns.IsSubDomain(n, qname) {
					add("DNAME with a changed CNAME", append(append([]dns.RR{}, s...), rr(qname+" 3600 IN CNAME www.plain."))...)
				}
			}
		}
	}
	add("unrelated unsigned", rr("www.plain. 3600 IN A 10.5.0.1"))
	add("forged DNAME", rr(up(qname)+" 3600 IN DNAME plain."), rr(qname+" 3600 IN CNAME "+strings.TrimSuffix(qname, up(qname))+"plain."))
	sortPieces(out)
	return out
}

func sortPieces(ps []piece) {
	for i := range ps {
		for j := i; j > 0 && ps[j].name < ps[j-1].name; j-- {
			ps[j], ps[j-1] = ps[j-1], ps[j]
		}
	}
}

func sortedZones(w *dworld, top string) []string {
	var out []string
	for n := range w.zones {
		if dns.IsSubDomain(top, n) || n == "plain." {
			out = append(out, n)
		}
	}
	return sorted(out)
}

// denialPieces are the proofs an attacker can use: all authentic ones, and some
// others. The second result says which have to do with the name.
func (w *dworld) denialPieces(top, qname string) (all, near []piece) {
	qname = strings.ToLower(qname)
	var names []string
	for n := qname; ; n = up(n) {
		names = append(names, n)
		if n != qname {
			names = append(names, sub("*", n))
		}
		if n == "." {
			break
		}
	}
	for _, zn := range append(sortedZones(w, top), ".") {
		z := w.zones[zn]
		for _, d := range z.denial {
			s := w.signedSet(z, []dns.RR{d})
			p := piece{d.Header().Name + " of " + zn, s}
			all = append(all, p)
			rel := false
			for _, n := range names {
				if !dns.IsSubDomain(zn, n) {
					continue
				}
				switch r := d.(type) {
				case *dns.NSEC:
					rel = rel || r.Hdr.Name == n || canonLess(r.Hdr.Name, n) && (canonLess(n, r.NextDomain) || !canonLess(r.Hdr.Name, r.NextDomain))
				case *dns.NSEC3:
					rel = rel || r.Match(n) || r.Cover(n)
				}
			}
			if rel {
				near = append(near, p)
			}
			if base, ok := strings.CutPrefix(d.Header().Name, "*."); ok && qname != base && dns.IsSubDomain(base, qname) {
				near = append(near, piece{"expanded " + p.name, renamed(s, qname)})
			}
		}
	}
	z := w.zoneOf(qname, dns.TypeA)
	n := &dns.NSEC{Hdr: dns.RR_Header{Name: qname, Rrtype: dns.TypeNSEC, Class: 1, Ttl: 300}, NextDomain: sub("zzzz", qname), TypeBitMap: []uint16{dns.TypeNSEC}}
	near = append(near, piece{"forged", []dns.RR{n}}, piece{"forged signed", w.evilSign([]dns.RR{n}, z.name, nil)}, piece{"forged by a signed neighbour", w.ownSign([]dns.RR{n}, top)})
	return all, near
}

var p24Names = []string{"", "www.", "alias.", "lost.", "out.", "w.", "x.w.", "foo.w.", "y.x.w.", "k.wa.", "ent.", "b.ent.", "b.tree.", "missing.",
	"sub.", "www.sub.", "q.w.sub.", "missing.sub.", "gap.", "deep.gap.", "www.deep.gap.", "no.deep.gap.", "ins.", "www.ins.", "hole.", "un.hole."}

// p24Main has an attacker write the response to the client's query.
func p24Main(top string, part, parts int, thorough bool) func(*C) {
	return func(c *C) {
		w := newWorld(time.Now())
		env := &p24Env{w: w}
		v := p25New(w, env)
		i := 0
		for _, n := range p24Names {
			for _, t := range []uint16{dns.TypeA, dns.TypeTXT, dns.TypeDS, dns.TypeCNAME} {
				if t == dns.TypeCNAME && n != "alias." && n != "www." && n != "k.wa." && n != "b.tree." {
					continue
				}
				if i++; i%parts != part {
					continue
				}
				qname := n + top
				q := p25Query(qname, t, 2)
				env.main = nil
				if a, err := v.Resolve(q, rdns.ClientInfo{}); p25Judge(w, q, a, err) != "" {
					c.Case(fmt.Sprintf("%s %s", qname, dns.TypeToString[t]))
					c.Violation("%s", p25Judge(w, q, a, err))
				}
				try := func(desc string, ans, ns []dns.RR) {
					for _, rcode := range []int{0, 3} {
						if c.Full() {
							return
						}
						c.Case(fmt.Sprintf("%s %s, %s, %s", qname, dns.TypeToString[t], dns.RcodeToString[rcode], desc))
						c.Step()
						m := reply(q, rcode)
						m.AuthenticatedData = true
						m.Answer, m.Ns = ans, ns
						env.main = m
						var a *dns.Msg
						var err error
						c.Guard(func() { a, err = v.Resolve(q, rdns.ClientInfo{}) })
						if err != nil || a == nil || a.Rcode == dns.RcodeServerFailure {
							continue
						}
						c.State("%s %d %s", qname, t, claim(a))
						if bad := w.judgeForged(a); bad != "" {
							c.Violation("%s", bad)
						}
					}
				}
				ans := w.answerPieces(top, qname, t)
				all, near := w.denialPieces(top, qname)
				auth, _ := w.resolve(q)
				// denials
				try("no answer", nil, nil)
				try("no answer, all proofs", nil, pieces(all...))
				for x, p := range all {
					try("no answer, "+p.name, nil, pieces(p))
					for _, p2 := range all[x+1:] {
						try("no answer, "+p.name+", "+p2.name, nil, pieces(p, p2))
					}
				}
				for x, p := range near {
					try("no answer, "+p.name, nil, pieces(p))
					for y := x + 1; y < len(near); y++ {
						try("no answer, "+p.name+", "+near[y].name, nil, pieces(p, near[y]))
						for z := y + 1; z < len(near); z++ {
							try("no answer, "+p.name+", "+near[y].name+", "+near[z].name, nil, pieces(p, near[y], near[z]))
						}
					}
				}
				// answers
				for x, p := range ans {
					try(p.name, pieces(p), nil)
					try(p.name+", all proofs", pieces(p), pieces(all...))
					try(p.name+", authentic proofs", pieces(p), auth.Ns)
					for _, d := range near {
						try(p.name+", "+d.name, pieces(p), pieces(d))
					}
					for y, p2 := range ans {
						if y == x || !thorough && !strings.Contains(p2.name, "forged") && !strings.Contains(p2.name, "unsigned") && !strings.Contains(p2.name, "expanded") {
							continue
						}
						try(p.name+" + "+p2.name, pieces(p, p2), nil)
						if thorough {
							try(p.name+" + "+p2.name+", all proofs", pieces(p, p2), pieces(all...))
						}
					}
				}
			}
		}
	}
}

// p24Chain has an attacker answer the client's query and the validator's own
// lookups. All combinations of up to budget changed lookups are tried.
func p24Chain(top string, part, parts, budget int, thorough bool) func(*C) {
	return func(c *C) {
		w := newWorld(time.Now())
		i := 0
		for _, qn := range []string{"www.", "missing.", "sub.", "www.sub.", "www.deep.gap.", "b.ent.", "www.ins."} {
			for how := 0; how < 6; how++ {
				if i++; i%parts != part {
					continue
				}
				if budget > 1 && !thorough && (how == 3 || how == 5) {
					continue
				}
				qname := qn + top
				z := w.zoneOf(qname, dns.TypeA)
				q := p25Query(qname, dns.TypeA, 2)
				m := reply(q, 0)
				forged := []dns.RR{rr(qname + " 3600 IN A 6.6.6.6")}
				switch how {
				case 0:
					m.Answer = forged
				case 1:
					m.Answer = w.evilSign(forged, z.name, nil)
				case 2:
					m.Answer = w.evilSign(forged, top, nil)
				case 3:
					m.Answer = w.evilSign(forged, qname, nil)
				case 4: // nothing there
				case 5: // what is true
					m, _ = w.resolve(q)
				}
				desc := []string{"forged unsigned", "forged and signed", "forged and signed by the zone above", "forged and signed as a zone", "no answer", "authentic"}[how]
				ch := &chooser{}
				for more := true; more && !c.Full(); {
					used, left := 0, budget
					var plan []string
					env := &p24Env{w: w, main: m}
					env.lookup = func(lq *dns.Msg) (*dns.Msg, error) {
						a, _ := w.resolve(lq)
						if left == 0 {
							return a, nil
						}
						ways := w.lookupAttacks(top, lq, a)
						if budget > 1 && !thorough { // pairs, without the single proofs
							ways = slices.DeleteFunc(ways, func(x p24Way) bool { return strings.Contains(x.name, " of ") })
						}
						k := ch.at(used, len(ways)+1)
						used++
						if k == 0 {
							return a, nil
						}
						left--
						plan = append(plan, fmt.Sprintf("%s %s: %s", lq.Question[0].Name, dns.TypeToString[lq.Question[0].Qtype], ways[k-1].name))
						if ways[k-1].m == nil {
							return nil, ways[k-1].err
						}
						return ways[k-1].m, nil
					}
					v := p25New(w, env)
					ask := func(what string, m *dns.Msg) {
						env.main = m
						var a *dns.Msg
						var err error
						c.Guard(func() { a, err = v.Resolve(q, rdns.ClientInfo{}) })
						c.Case(fmt.Sprintf("%s %s, %s", qname, desc, strings.Join(plan, "; ")))
						c.Step()
						if err != nil || a == nil || a.Rcode == dns.RcodeServerFailure {
							return
						}
						c.State("%s %s %s", qname, claim(a), what)
						if bad := w.judgeForged(a); bad != "" {
							c.Violation("%s%s", what, bad)
						}
					}
					ask("", m)
					// What was learnt from the attack must not help later.
					left = 0
					for _, signer := range []string{z.name, top} {
						f := reply(q, 0)
						f.Answer = w.evilSign(forged, signer, nil)
						ask("afterwards: ", f)
					}
					more = ch.next(used)
				}
			}
		}
	}
}

type p24Way struct {
	name string
	m    *dns.Msg
	err  error
}

// lookupAttacks are the ways to answer one of the validator's own lookups.
func (w *dworld) lookupAttacks(top string, q, authentic *dns.Msg) []p24Way {
	name, qtype := q.Question[0].Name, q.Question[0].Qtype
	var out []p24Way
	add := func(desc string, rcode int, ans, ns []dns.RR) {
		m := reply(q, rcode)
		m.Answer, m.Ns = nil, nil
		for _, r := range ans {
			m.Answer = append(m.Answer, dns.Copy(r))
		}
		for _, r := range ns {
			m.Ns = append(m.Ns, dns.Copy(r))
		}
		out = append(out, p24Way{name: desc, m: m})
	}
	out = append(out, p24Way{name: "error", err: errUpstream}, p24Way{name: "dropped"})
	add("SERVFAIL", 2, nil, nil)
	add("empty", 0, nil, nil)
	evil := *w.evil.DNSKEY
	evil.Hdr.Name = name
	evilSet := []dns.RR{&evil}
	switch qtype {
	case dns.TypeDNSKEY:
		add("the attacker's key", 0, w.evilSign(evilSet, name, nil), nil)
		add("the attacker's key unsigned", 0, evilSet, nil)
		if z := w.zones[name]; z != nil && z.signed {
			keys := z.rrs[name][dns.TypeDNSKEY]
			sig := w.signedSet(z, keys)
			add("the attacker's key added", 0, append(append([]dns.RR{}, sig...), &evil), nil)
			both := append(append([]dns.RR{}, keys...), &evil)
			add("the attacker's key added and signing", 0, w.evilSign(both, name, nil), nil)
			add("the attacker's key added and signing next to the zone", 0, append(w.evilSign(both, name, nil), sig[len(sig)-1]), nil)
			add("unsigned", 0, keys, nil)
		}
		add("the keys for another zone", 0, w.signedSet(w.zones[top], w.zones[top].rrs[top][dns.TypeDNSKEY]), nil)
		add("the keys for another zone renamed", 0, renamed(w.signedSet(w.zones[top], w.zones[top].rrs[top][dns.TypeDNSKEY]), name), nil)
	case dns.TypeDS:
		ds := evil.ToDS(dns.SHA256)
		ds.Hdr.Ttl = worldTTL
		add("DS for the attacker's key unsigned", 0, []dns.RR{ds}, nil)
		for _, signer := range []string{up(name), ".", name} {
			add("DS for the attacker's key signed by it for "+signer, 0, w.evilSign([]dns.RR{ds}, signer, nil), nil)
		}
		add("DS for the attacker's key signed by a signed neighbour", 0, w.ownSign([]dns.RR{ds}, top), nil)
		add("a neighbour's DS", 0, w.signedSet(w.zones[top], w.zones[top].rrs["evil."+top][dns.TypeDS]), nil)
		add("a neighbour's DS renamed", 0, renamed(w.signedSet(w.zones[top], w.zones[top].rrs["evil."+top][dns.TypeDS]), name), nil)
		add("a neighbour's DS added", 0, append(append([]dns.RR{}, authentic.Answer...), w.signedSet(w.zones[top], w.zones[top].rrs["evil."+top][dns.TypeDS])...), nil)
		if len(authentic.Answer) > 1 {
			add("with the attacker's", 0, append(append([]dns.RR{}, authentic.Answer...), ds), nil)
			add("signature only", 0, authentic.Answer[len(authentic.Answer)-1:], nil)
			add("unsigned", 0, authentic.Answer[:len(authentic.Answer)-1], nil)
		}
		all, _ := w.denialPieces(top, name)
		for _, p := range all {
			add("denied by "+p.name, 0, nil, p.rrs)
		}
		add("denied by everything", 0, nil, pieces(all...))
		add("not existing by everything", 3, nil, pieces(all...))
		n := &dns.NSEC{Hdr: dns.RR_Header{Name: name, Rrtype: dns.TypeNSEC, Class: 1, Ttl: 300}, NextDomain: sub("zzzz", name), TypeBitMap: []uint16{dns.TypeNS, dns.TypeNSEC}}
		add("denied unsigned", 0, nil, []dns.RR{n})
		add("denied by a signed neighbour", 0, nil, w.ownSign([]dns.RR{n}, top))
		add("denied by the attacker's key", 0, nil, w.evilSign([]dns.RR{n}, up(name), nil))
		if base, ok := strings.CutPrefix(name, "*."); !ok {
			for _, d := range w.zones[top].denial {
				if b, ok := strings.CutPrefix(d.Header().Name, "*."); ok && dns.IsSubDomain(b, name) && b != name {
					add("denied by an expanded wildcard", 0, nil, renamed(w.signedSet(w.zones[top], []dns.RR{d}), name))
				}
			}
			_ = base
		}
	}
	return out
}

// p24Expiry replays what was once authentic.
func p24Expiry(c *C) {
	start := time.Date(2026, 1, 2, 3, 4, 5, 0, time.UTC)
	for _, qname := range []string{"www.nsec.", "www.sub.hash.", "missing.nsec.", "missing.hash.", "foo.w.nsec.", "www.deep.gap.nsec.", "lost.hash."} {
		for _, stale := range []string{"data", "keys", "delegation", "nothing"} {
			for _, zone := range []string{".", "nsec.", "hash.", "sub.hash.", "deep.gap.nsec."} {
				tuples(3, 3, func(t []int) {
					if c.Full() {
						return
					}
					waits := []time.Duration{100 * time.Second, 1900 * time.Second, 4000 * time.Second}
					c.Case(fmt.Sprintf("%s, %s of %s expire after 1800s, asked after %v", qname, stale, zone, t))
					c.Step()
					c.Exec(vsched.Config{Serial: true, Start: start}, func(e *vsched.Exec) {
						w := newWorld(start)
						w.expiry = func(z *dzone, set []dns.RR) time.Time {
							rt := set[0].Header().Rrtype
							kind := "data"
							if rt == dns.TypeDNSKEY {
								kind = "keys"
							} else if rt == dns.TypeDS {
								kind = "delegation"
							}
							if kind == stale && (z.name == zone && kind != "delegation" || kind == "delegation" && set[0].Header().Name == zone) {
								return start.Add(1800 * time.Second)
							}
							return time.Time{}
						}
						q := p25Query(qname, dns.TypeA, 2)
						env := &p24Env{w: w}
						v := p25New(w, env)
						ans, _ := w.resolve(q)
						uses := map[string]bool{}
						names := []string{qname}
						if strings.HasPrefix(qname, "lost.") {
							names = append(names, "missing.hash.")
						}
						for _, n := range names {
							for z := w.zoneOf(n, dns.TypeA); ; z = w.zoneOf(up(z.name), dns.TypeA) {
								uses[z.name] = true
								if z.name == "." {
									break
								}
							}
						}
						direct := map[string]bool{w.zoneOf(qname, dns.TypeA).name: true}
						for _, x := range t {
							env.main = ans
							a, err := v.Resolve(q, rdns.ClientInfo{})
							expired := e.Elapsed() > 1800*time.Second
							bad := expired && (stale == "data" || stale == "keys") && direct[zone]
							// What was validated before can be used until it expires itself.
							either := expired && stale != "data" && uses[zone]
							passed := err == nil && a != nil && a.Rcode != dns.RcodeServerFailure
							if passed && bad {
								e.Fail("after %v: passed on although a signature has expired: %s", e.Elapsed(), claim(a))
							}
							if !passed && !bad && !either {
								e.Fail("after %v: rejected although all signatures are valid: %s", e.Elapsed(), shortMsg(a, err))
							}
							e.Advance(waits[x])
						}
					})
					c.State("%s %s %s %v", qname, stale, zone, t)
				})
			}
		}
	}
}

type p24Env struct {
	w    *dworld
	main *dns.Msg // the response to anything but lookups of the validator
	// lookup answers the validator's own.
	lookup func(q *dns.Msg) (*dns.Msg, error)
}

func (e *p24Env) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	if !q.CheckingDisabled && e.main != nil { // the validator's own have it
		a := e.main.Copy()
		a.Id = q.Id
		return a, nil
	}
	if q.CheckingDisabled && e.lookup != nil {
		return e.lookup(q)
	}
	a, _ := e.w.resolve(q)
	return a, nil
}
func (e *p24Env) String() string { return "attacker" }

func init() {
	register(&Check{
		ID:          "P24",
		Level:       "model_checking",
		Rule:        "every response assembled from up to two authentic or forged sets with every combination of proofs within the bound, and every way to answer the validator's own lookups within the bound; a state is a distinct claim passed on",
		Assumptions: []string{"one algorithm (ECDSA P-256) and digest (SHA-256); signatures can't be forged", "claims about names in opt-out spans are not judged, they are not protected"},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			for _, top := range []string{"nsec.", "hash.", "opt."} {
				for i := 0; i < 8; i++ {
					out = append(out, Scenario{Name: fmt.Sprintf("main-%s%d", top, i), Run: p24Main(top, i, 8, tier == "thorough"), CrashIsViolation: true})
				}
			}
			for _, top := range []string{"nsec.", "hash.", "opt."} {
				for i := 0; i < 16; i++ {
					if tier != "thorough" {
						out = append(out, Scenario{Name: fmt.Sprintf("chain-%s%d", top, i), Run: p24Chain(top, i, 16, 1, false), CrashIsViolation: true})
					}
					out = append(out, Scenario{Name: fmt.Sprintf("chains-%s%d", top, i), Run: p24Chain(top, i, 16, 2, tier == "thorough"), CrashIsViolation: true})
				}
			}
			out = append(out, Scenario{Name: "expiry", Run: p24Expiry, CrashIsViolation: true})
			return out
		},
	})
}
