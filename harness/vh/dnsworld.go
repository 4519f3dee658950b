package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/miekg/dns"
)

// A small tree of signed and unsigned zones with every kind of node, and the
// responses a recursive resolver gives about it.

type dkey struct {
	*dns.DNSKEY
	priv crypto.Signer
}

type dzone struct {
	name   string
	signed bool
	nsec3  bool
	optout bool
	iter   uint16
	salt   string
	keys   []dkey // all published
	ksk    *dkey
	zsk    *dkey
	rrs    map[string]map[uint16][]dns.RR // includes delegations
	denial []dns.RR                       // NSEC or NSEC3 records
}

type dworld struct {
	zones map[string]*dzone
	from  time.Time
	sigs  map[string]*dns.RRSIG
	mu    sync.Mutex
	// evil is a key nobody trusts.
	evil dkey
	// expiry sets when the signature of a set ends, if not by default.
	expiry func(z *dzone, set []dns.RR) time.Time
}

const worldTTL = 3600

func newDKey(owner string, flags uint16) dkey {
	for i := 0; ; i++ {
		k := &dns.DNSKEY{Hdr: dns.RR_Header{Name: owner, Rrtype: dns.TypeDNSKEY, Class: 1, Ttl: worldTTL}, Flags: flags, Protocol: 3, Algorithm: dns.ECDSAP256SHA256}
		d := sha256.Sum256(fmt.Appendf(nil, "%s %d %d", owner, flags, i)) // the same in every run
		p := must(ecdsa.ParseRawPrivateKey(elliptic.P256(), d[:]))
		k.PublicKey = base64.StdEncoding.EncodeToString(must(p.PublicKey.Bytes())[1:])
		if k.KeyTag() != 0 { // can't be used to sign
			return dkey{k, p}
		}
	}
}

func canonLess(a, b string) bool {
	al, bl := dns.SplitDomainName(strings.ToLower(a)), dns.SplitDomainName(strings.ToLower(b))
	for i := 1; i <= len(al) && i <= len(bl); i++ {
		if c := strings.Compare(al[len(al)-i], bl[len(bl)-i]); c != 0 {
			return c < 0
		}
	}
	return len(al) < len(bl)
}

func (w *dworld) zone(name string, kind string) *dzone {
	z := &dzone{name: name, signed: kind != "unsigned", rrs: map[string]map[uint16][]dns.RR{}}
	if z.signed {
		switch {
		case strings.Contains(kind, "csk"):
			z.keys = []dkey{newDKey(name, 257)}
			z.ksk, z.zsk = &z.keys[0], &z.keys[0]
		default:
			z.keys = []dkey{newDKey(name, 257), newDKey(name, 256)}
			z.ksk, z.zsk = &z.keys[0], &z.keys[1]
		}
		if strings.Contains(kind, "revoked") {
			z.keys = append(z.keys, newDKey(name, 257|128))
		}
		z.nsec3 = strings.Contains(kind, "nsec3") || strings.Contains(kind, "optout")
		z.optout = strings.Contains(kind, "optout")
		z.iter, z.salt = 1, "AB"
		if strings.Contains(kind, "salt2") {
			z.iter, z.salt = 0, ""
		}
		for _, k := range z.keys {
			z.add(k.DNSKEY)
		}
		if z.nsec3 {
			f := 0
			s := z.salt
			if s == "" {
				s = "-"
			}
			z.add(rr(fmt.Sprintf("%s 3600 IN NSEC3PARAM 1 %d %d %s", name, f, z.iter, s)))
		}
	}
	apex := name
	z.add(rr(apex + " 3600 IN SOA ns." + strings.TrimPrefix(name, ".") + " h." + strings.TrimPrefix(name, ".") + " 1 3600 900 86400 300"))
	z.add(rr(apex + " 3600 IN NS ns.nowhere."))
	w.zones[name] = z
	return z
}

func (z *dzone) add(rs ...dns.RR) {
	for _, r := range rs {
		n := strings.ToLower(r.Header().Name)
		if z.rrs[n] == nil {
			z.rrs[n] = map[uint16][]dns.RR{}
		}
		z.rrs[n][r.Header().Rrtype] = append(z.rrs[n][r.Header().Rrtype], r)
	}
}

// delegate makes child a child of z.
func (z *dzone) delegate(child *dzone) {
	z.add(rr(child.name + " 3600 IN NS ns.nowhere."))
	if child.signed {
		ds := child.ksk.ToDS(dns.SHA256)
		ds.Hdr.Ttl = worldTTL
		z.add(ds)
	}
}

// cut returns the delegation at or above name within z, if any.
func (z *dzone) cut(name string) string {
	for n := strings.ToLower(name); n != z.name && n != "."; n = up(n) {
		if z.rrs[n][dns.TypeNS] != nil {
			return n
		}
	}
	return ""
}

func up(n string) string {
	_, p, ok := strings.Cut(n, ".")
	if !ok || p == "" {
		return "."
	}
	return p
}

func sub(label, zone string) string {
	if zone == "." {
		return label + "."
	}
	return label + "." + zone
}

// exists says whether a name has records or names below it.
func (z *dzone) exists(name string) bool {
	for n := range z.rrs {
		if dns.IsSubDomain(name, n) {
			return true
		}
	}
	return false
}

func (z *dzone) types(n string) []uint16 {
	isCut := n != z.name && z.rrs[n][dns.TypeNS] != nil
	var out []int
	signed := false
	for t := range z.rrs[n] {
		if isCut && t != dns.TypeNS && t != dns.TypeDS {
			continue
		}
		out = append(out, int(t))
		signed = signed || !isCut || t == dns.TypeDS
	}
	if !z.nsec3 {
		out = append(out, int(dns.TypeNSEC))
		signed = true
	}
	if signed {
		out = append(out, int(dns.TypeRRSIG))
	}
	sort.Ints(out)
	var t []uint16
	for _, x := range out {
		t = append(t, uint16(x))
	}
	return t
}

// finish makes the denial chain.
func (z *dzone) finish() {
	if !z.signed {
		return
	}
	names := map[string]bool{}
	for n := range z.rrs {
		if c := z.cut(n); c != "" && c != n {
			continue // glue
		}
		if z.nsec3 {
			if z.optout && n != z.name && z.rrs[n][dns.TypeNS] != nil && z.rrs[n][dns.TypeDS] == nil {
				continue
			}
			for p := n; p != z.name; p = up(p) {
				names[p] = true
			}
		}
		names[n] = true
	}
	var list []string
	for n := range names {
		list = append(list, n)
	}
	if !z.nsec3 {
		sort.Slice(list, func(i, j int) bool { return canonLess(list[i], list[j]) })
		for i, n := range list {
			z.denial = append(z.denial, &dns.NSEC{Hdr: dns.RR_Header{Name: n, Rrtype: dns.TypeNSEC, Class: 1, Ttl: 300}, NextDomain: list[(i+1)%len(list)], TypeBitMap: z.types(n)})
		}
		return
	}
	byHash := map[string]string{}
	var hashes []string
	for _, n := range list {
		h := dns.HashName(n, 1, z.iter, z.salt)
		byHash[h] = n
		hashes = append(hashes, h)
	}
	sort.Strings(hashes)
	for i, h := range hashes {
		var types []uint16
		if z.rrs[byHash[h]] != nil {
			types = z.types(byHash[h])
		}
		r := &dns.NSEC3{Hdr: dns.RR_Header{Name: sub(strings.ToLower(h), z.name), Rrtype: dns.TypeNSEC3, Class: 1, Ttl: 300}, Hash: 1, Iterations: z.iter, SaltLength: uint8(len(z.salt) / 2), Salt: z.salt, HashLength: 20, NextDomain: hashes[(i+1)%len(hashes)], TypeBitMap: types}
		if z.optout {
			r.Flags = 1
		}
		z.denial = append(z.denial, r)
	}
}

// sign returns the signature of a set, made once.
func (w *dworld) sign(z *dzone, set []dns.RR) *dns.RRSIG {
	if !z.signed {
		return nil
	}
	h := set[0].Header()
	key := fmt.Sprintf("%s|%s|%d", z.name, strings.ToLower(h.Name), h.Rrtype)
	w.mu.Lock()
	defer w.mu.Unlock()
	if s := w.sigs[key]; s != nil {
		return s
	}
	k := z.zsk
	if h.Rrtype == dns.TypeDNSKEY {
		k = z.ksk
	}
	to := w.from.Add(240 * time.Hour)
	if w.expiry != nil {
		if t := w.expiry(z, set); !t.IsZero() {
			to = t
		}
	}
	s := signSet(set, z.name, *k, w.from, to)
	w.sigs[key] = s
	return s
}

func signSet(set []dns.RR, signer string, k dkey, from, to time.Time) *dns.RRSIG {
	s := &dns.RRSIG{Hdr: dns.RR_Header{Ttl: set[0].Header().Ttl}, Algorithm: k.Algorithm, KeyTag: k.KeyTag(), SignerName: signer, Inception: uint32(from.Unix()), Expiration: uint32(to.Unix())}
	if err := s.Sign(k.priv, set); err != nil {
		panic(err)
	}
	return s
}

// signedSet is a set with its signature.
func (w *dworld) signedSet(z *dzone, set []dns.RR) []dns.RR {
	var out []dns.RR
	for _, r := range set {
		out = append(out, dns.Copy(r))
	}
	if s := w.sign(z, set); s != nil {
		out = append(out, dns.Copy(s))
	}
	return out
}

// zoneOf returns the zone that answers for a name and type.
func (w *dworld) zoneOf(name string, qtype uint16) *dzone {
	name = strings.ToLower(name)
	if qtype == dns.TypeDS && w.zones[name] != nil && name != "." {
		name = up(name)
	}
	for n := name; ; n = up(n) {
		if z := w.zones[n]; z != nil {
			return z
		}
	}
}

// secure says whether the data of a zone is covered by the chain of trust.
func (w *dworld) secure(z *dzone) bool {
	for {
		if !z.signed {
			return false
		}
		if z.name == "." {
			return true
		}
		p := w.zoneOf(up(z.name), dns.TypeA)
		if p.rrs[z.name][dns.TypeDS] == nil {
			return false
		}
		z = p
	}
}

func (z *dzone) covering(name string) dns.RR { // NSEC or NSEC3 proving the name is not there
	for _, r := range z.denial {
		switch r := r.(type) {
		case *dns.NSEC:
			o, x := r.Hdr.Name, r.NextDomain
			if canonLess(o, name) && (canonLess(name, x) || !canonLess(o, x)) {
				return r
			}
		case *dns.NSEC3:
			if r.Cover(name) && !r.Match(name) {
				return r
			}
		}
	}
	return nil
}

func (z *dzone) matching(name string) dns.RR {
	for _, r := range z.denial {
		switch r := r.(type) {
		case *dns.NSEC:
			if r.Hdr.Name == name {
				return r
			}
		case *dns.NSEC3:
			if r.Match(name) {
				return r
			}
		}
	}
	return nil
}

// outcome is what is true about a question.
type outcome struct {
	rcode  int
	chain  []string // names, first the one asked for
	data   []string // records of the type asked for at the end
	secure bool     // every step is covered by the chain of trust
	optout bool     // absence rests on an opt-out span
}

func (o outcome) String() string {
	return fmt.Sprintf("%s %v %v", dns.RcodeToString[o.rcode], o.chain, o.data)
}

// resolve gives the authentic response and what is true.
func (w *dworld) resolve(q *dns.Msg) (*dns.Msg, outcome) {
	a := new(dns.Msg)
	a.SetReply(q)
	a.RecursionAvailable = true
	name, qtype := strings.ToLower(q.Question[0].Name), q.Question[0].Qtype
	out := outcome{secure: true, chain: []string{name}}
	var proofs []dns.RR
	prove := func(z *dzone, rs ...dns.RR) {
		for _, r := range rs {
			if r == nil {
				continue
			}
			dup := false
			for _, p := range proofs {
				dup = dup || p.String() == r.String()
			}
			if !dup {
				proofs = append(proofs, w.signedSet(z, []dns.RR{r})...)
			}
		}
	}
	put := func(z *dzone, set []dns.RR, owner string) {
		for _, r := range w.signedSet(z, set) {
			r.Header().Name = owner
			a.Answer = append(a.Answer, r)
		}
	}
	optout := func(z *dzone) { // an unsigned delegation in an opt-out span
		if len(z.denial) == 0 {
			return
		}
		out.optout = true
		ce := up(name)
		for !(ce == z.name || z.matching(ce) != nil) {
			ce = up(ce)
		}
		nc := name
		for up(nc) != ce {
			nc = up(nc)
		}
		prove(z, z.matching(ce), z.covering(nc))
	}
	for hop := 0; hop < 8; hop++ {
		z := w.zoneOf(name, qtype)
		out.secure = out.secure && w.secure(z)
		negative := func() {
			proofs = append(proofs, w.signedSet(z, z.rrs[z.name][dns.TypeSOA])...)
		}
		if node := z.rrs[name]; node != nil {
			if set := node[qtype]; set != nil {
				put(z, set, name)
				for _, r := range set {
					out.data = append(out.data, rdata(r))
				}
				break
			}
			if c := node[dns.TypeCNAME]; c != nil {
				put(z, c, name)
				name = strings.ToLower(c[0].(*dns.CNAME).Target)
				out.chain = append(out.chain, name)
				continue
			}
			negative()
			if m := z.matching(name); m != nil {
				prove(z, m)
			} else {
				optout(z)
			}
			break
		}
		if z.exists(name) { // empty non-terminal
			negative()
			if m := z.matching(name); m != nil {
				prove(z, m)
			} else if z.nsec3 {
				optout(z)
			} else {
				prove(z, z.covering(name))
			}
			break
		}
		// Not there: a DNAME above, a wildcard, or nothing.
		ce := up(name)
		for !z.exists(ce) {
			ce = up(ce)
		}
		nc := name
		for up(nc) != ce {
			nc = up(nc)
		}
		dname := ""
		for n := ce; ; n = up(n) {
			if z.rrs[n][dns.TypeDNAME] != nil {
				dname = n
			}
			if n == z.name {
				break
			}
		}
		if dname != "" {
			put(z, z.rrs[dname][dns.TypeDNAME], dname)
			target := strings.TrimSuffix(name, dname) + z.rrs[dname][dns.TypeDNAME][0].(*dns.DNAME).Target
			a.Answer = append(a.Answer, rr(name+" 3600 IN CNAME "+target))
			if qtype == dns.TypeCNAME {
				out.data = append(out.data, target)
				break
			}
			name = strings.ToLower(target)
			out.chain = append(out.chain, name)
			continue
		}
		out.optout = out.optout || z.optout
		denyName := func() []dns.RR { // that the name itself is not there
			if z.nsec3 {
				return []dns.RR{z.matching(ce), z.covering(nc)}
			}
			return []dns.RR{z.covering(name)}
		}
		wild := sub("*", ce)
		if node := z.rrs[wild]; node != nil {
			if set := node[qtype]; set != nil {
				put(z, set, name)
				if z.nsec3 {
					prove(z, z.covering(nc))
				} else {
					prove(z, z.covering(name))
				}
				for _, r := range set {
					out.data = append(out.data, rdata(r))
				}
				break
			}
			if c := node[dns.TypeCNAME]; c != nil {
				put(z, c, name)
				if z.nsec3 {
					prove(z, z.covering(nc))
				} else {
					prove(z, z.covering(name))
				}
				name = strings.ToLower(c[0].(*dns.CNAME).Target)
				out.chain = append(out.chain, name)
				continue
			}
			negative()
			prove(z, denyName()...)
			prove(z, z.matching(wild))
			break
		}
		out.rcode = dns.RcodeNameError
		negative()
		prove(z, denyName()...)
		prove(z, z.covering(wild))
		break
	}
	a.Rcode = out.rcode
	a.Ns = proofs
	sort.Strings(out.data)
	if o := q.IsEdns0(); o != nil {
		a.SetEdns0(4096, o.Do())
		if !o.Do() {
			a.Answer, a.Ns = withoutDNSSEC(a.Answer, qtype), withoutDNSSEC(a.Ns, qtype)
		}
	}
	return a, out
}

func withoutDNSSEC(in []dns.RR, qtype uint16) []dns.RR {
	var out []dns.RR
	for _, r := range in {
		switch t := r.Header().Rrtype; t {
		case dns.TypeRRSIG, dns.TypeNSEC, dns.TypeNSEC3:
			if t != qtype {
				continue
			}
		}
		out = append(out, r)
	}
	return out
}

func rdata(r dns.RR) string {
	return strings.ToLower(strings.TrimSpace(strings.TrimPrefix(r.String(), r.Header().String())))
}

// claim is what a client takes from a response.
func claim(a *dns.Msg) outcome {
	q := a.Question[0]
	name := strings.ToLower(q.Name)
	o := outcome{rcode: a.Rcode, chain: []string{name}}
	for hop := 0; hop < 8; hop++ {
		next := ""
		for _, r := range a.Answer {
			if !strings.EqualFold(r.Header().Name, name) {
				continue
			}
			if r.Header().Rrtype == q.Qtype {
				o.data = append(o.data, rdata(r))
			} else if c, ok := r.(*dns.CNAME); ok {
				next = strings.ToLower(c.Target)
			}
		}
		if len(o.data) > 0 || next == "" {
			break
		}
		name = next
		o.chain = append(o.chain, name)
	}
	sort.Strings(o.data)
	o.data = slices.Compact(o.data)
	return o
}

// newWorld builds the tree. The two top level zones nsec. and hash. have the
// same nodes and differ in how they deny.
func newWorld(now time.Time) *dworld {
	w := &dworld{zones: map[string]*dzone{}, sigs: map[string]*dns.RRSIG{}, from: now.Add(-48 * time.Hour)}
	w.evil = newDKey("evil.", 257)
	root := w.zone(".", "nsec revoked")
	for _, kind := range []string{"nsec", "nsec3", "optout"} {
		top := map[string]string{"nsec": "nsec.", "nsec3": "hash.", "optout": "opt."}[kind]
		z := w.zone(top, kind)
		z.add(rrs("www."+top+" 3600 IN A 10.0.0.1", "www."+top+" 3600 IN A 10.0.0.2", "www."+top+` 3600 IN TXT "t"`,
			"alias."+top+" 3600 IN CNAME www."+top,
			"away."+top+" 3600 IN CNAME www.sub."+top,
			"lost."+top+" 3600 IN CNAME missing."+top,
			"mute."+top+" 3600 IN CNAME text."+top,
			"out."+top+" 3600 IN CNAME www.plain.",
			"text."+top+` 3600 IN TXT "only"`,
			"*.w."+top+" 3600 IN A 10.0.0.3",
			"x.w."+top+" 3600 IN A 10.0.0.4",
			"*.wa."+top+" 3600 IN CNAME www."+top,
			"b.ent."+top+" 3600 IN A 10.0.0.5",
			"tree."+top+" 3600 IN DNAME ent."+top)...)
		sub1 := w.zone("sub."+top, kind+" csk salt2")
		sub1.add(rrs("sub."+top+" 3600 IN A 10.1.0.9", "www.sub."+top+" 3600 IN A 10.1.0.1", "alias.sub."+top+" 3600 IN CNAME www."+top, "*.w.sub."+top+" 3600 IN A 10.1.0.3")...)
		sub1.finish()
		deep := w.zone("deep.gap."+top, "nsec revoked")
		deep.add(rrs("www.deep.gap." + top + " 3600 IN A 10.2.0.1")...)
		deep.finish()
		ins := w.zone("ins."+top, "unsigned")
		ins.add(rrs("www.ins."+top+" 3600 IN A 10.3.0.1", "alias.ins."+top+" 3600 IN CNAME www."+top)...)
		un := w.zone("un.hole."+top, "unsigned")
		un.add(rrs("www.un.hole." + top + " 3600 IN A 10.4.0.1")...)
		z.delegate(sub1)
		z.delegate(deep)
		z.delegate(ins)
		z.delegate(un)
		// A neighbour whose delegation holds whatever its owner asked for: the
		// digest of a key of their own, under the names of others.
		for _, victim := range []string{"sub." + top, top, "deep.gap." + top} {
			k := *w.evil.DNSKEY
			k.Hdr.Name = victim
			ds := k.ToDS(dns.SHA256)
			ds.Hdr.Name = "evil." + top
			ds.Hdr.Ttl = worldTTL
			z.add(ds)
		}
		z.add(rr("evil." + top + " 3600 IN NS ns.nowhere."))
		// A neighbour with a zone of their own. The text of its name ends the
		// names of others.
		own := w.zone("b."+top, "nsec csk")
		own.finish()
		z.delegate(own)
		z.finish()
		root.delegate(z)
	}
	plain := w.zone("plain.", "unsigned")
	plain.add(rrs("www.plain. 3600 IN A 10.5.0.1", "alias.plain. 3600 IN CNAME www.nsec.")...)
	root.delegate(plain)
	root.finish()
	return w
}
