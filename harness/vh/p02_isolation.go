package main

import (
	"fmt"
	"os"
	"path/filepath"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p02: isolation of cache entries.

func cacheVariants() []qvar {
	v := queryVariants()
	add := func(name, key string, mk func() *dns.Msg) { v = append(v, qvar{name, mk, key}) }
	add("opt", "base", func() *dns.Msg { return withOpt(query("a.test.", 1), false) })
	add("ecs4-zero", "ecs4-zero", func() *dns.Msg { return withOpt(query("a.test.", 1), false, subnet("0.0.0.0", 0)) })
	add("ecs6-zero", "ecs6-zero", func() *dns.Msg { return withOpt(query("a.test.", 1), false, subnet("::", 0)) })
	add("ecs4-cd", "ecs4-cd", func() *dns.Msg {
		q := withOpt(query("a.test.", 1), false, subnet("1.2.3.0", 24))
		q.CheckingDisabled = true
		return q
	})
	add("ecs4-16", "ecs4-16", func() *dns.Msg { return withOpt(query("a.test.", 1), false, subnet("1.2.0.0", 16)) })
	add("ecs4-32", "ecs4-32", func() *dns.Msg { return withOpt(query("a.test.", 1), false, subnet("1.2.3.1", 32)) })
	add("type-257", "type-257", func() *dns.Msg { return query("a.test.", 257) })
	add("type-any", "type-any", func() *dns.Msg { return query("a.test.", 255) })
	add("sub", "sub", func() *dns.Msg { return query("x.a.test.", 1) })
	add("escaped", "escaped", func() *dns.Msg { return query("x\\.a.test.", 1) })
	add("prefix", "prefix", func() *dns.Msg { return query("a.test.test.", 1) })
	add("root", "root", func() *dns.Msg { return query(".", 1) })
	add("colon", "colon", func() *dns.Msg { return query("a.test.:in:a:.", 1) })
	return v
}

type p02Store interface {
	open(up rdns.Resolver, opt rdns.CacheOptions) *rdns.Cache
	reopen(up rdns.Resolver, opt rdns.CacheOptions) *rdns.Cache
	close()
}

type memStore struct {
	file string
	b    rdns.CacheBackend
	dir  string
}

func (m *memStore) open(up rdns.Resolver, opt rdns.CacheOptions) *rdns.Cache {
	b := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: m.file})
	m.b = b
	opt.Backend = b
	return rdns.NewCache("c", up, opt)
}

func (m *memStore) reopen(up rdns.Resolver, opt rdns.CacheOptions) *rdns.Cache {
	m.b.Close()
	return m.open(up, opt)
}

func (m *memStore) close() {}

func scratchDir() string {
	base := os.TempDir()
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		base = "/dev/shm"
	}
	d, err := os.MkdirTemp(base, "vh-scratch-")
	if err != nil {
		panic(err)
	}
	return d
}

func p02Run(kind string, first, last int) func(*C) {
	return func(c *C) {
		vars := cacheVariants()
		dir := scratchDir()
		defer os.RemoveAll(dir)
		tag := 0
		wantRcode := 0
		up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			tag++
			a := reply(q, wantRcode, rr(fmt.Sprintf(". 1000 IN TXT tag%d", tag)))
			return a, nil
		}}
		tagOf := func(a *dns.Msg) string {
			if a == nil || len(a.Answer) != 1 {
				return "none"
			}
			return a.Answer[0].(*dns.TXT).Txt[0]
		}
		inExec := func(f func(e *vsched.Exec)) {
			if kind == "redis" {
				f(nil)
				return
			}
			c.Exec(vsched.Config{}, f)
		}
		mkStore := func() p02Store {
			if kind == "redis" {
				return newRedisStore()
			}
			s := &memStore{}
			if kind == "reload" {
				s.file = filepath.Join(dir, "cache.json")
				os.Remove(s.file)
			}
			return s
		}
		check := func(label string, v qvar, q, a *dns.Msg, err error) {
			if err != nil || a == nil {
				c.Violation("%s: query failed: %v", label, err)
				return
			}
			if a.Id != q.Id {
				c.Violation("%s: response ID %d instead of %d", label, a.Id, q.Id)
			}
			if len(a.Question) != 1 || a.Question[0] != v.mk().Question[0] {
				c.Violation("%s: response question %v instead of %v", label, a.Question, v.mk().Question)
			}
		}
		for i := first; i < last && i < len(vars); i++ {
			for j := range vars {
				for _, harden := range []bool{false, true} {
					if c.Full() {
						return
					}
					if harden && kind == "redis" {
						continue
					}
					v, w := vars[i], vars[j]
					c.Case(fmt.Sprintf("%s: %s then %s harden=%v", kind, v.name, w.name, harden))
					inExec(func(e *vsched.Exec) {
						st := mkStore()
						defer st.close()
						opt := rdns.CacheOptions{HardenBelowNXDOMAIN: harden}
						cache := st.open(up, opt)
						tag = 0
						q1 := v.mk()
						q1.Id = 1
						a1, err := cache.Resolve(q1, rdns.ClientInfo{})
						check("first", v, q1, a1, err)
						if kind == "reload" {
							cache = st.reopen(up, opt)
						}
						q2 := w.mk()
						q2.Id = 2
						a2, err := cache.Resolve(q2, rdns.ClientInfo{})
						check("second", w, q2, a2, err)
						c.res.Steps += 2
						if got := tagOf(a2); v.key != w.key && got == "tag1" {
							c.Violation("query %s was given the response stored for %s", w.name, v.name)
						}
						c.State("%s %s %v", v.key, w.key, tagOf(a2))
						// The first is still answered by its own response.
						q3 := v.mk()
						q3.Id = 3
						a3, err := cache.Resolve(q3, rdns.ClientInfo{})
						check("third", v, q3, a3, err)
						if got := tagOf(a3); v.key != w.key && got == tagOf(a2) {
							c.Violation("query %s was given the response stored for %s", v.name, w.name)
						}
					})
					// A name below a non-existent one: only if all else is equal.
					if harden && kind == "memory" {
						c.Case(fmt.Sprintf("%s: NXDOMAIN for %s then a name below with %s", kind, v.name, w.name))
						inExec(func(e *vsched.Exec) {
							st := mkStore()
							cache := st.open(up, rdns.CacheOptions{HardenBelowNXDOMAIN: true})
							tag = 0
							wantRcode = dns.RcodeNameError
							cache.Resolve(v.mk(), rdns.ClientInfo{})
							wantRcode = 0
							q2 := w.mk()
							parent := q2.Question[0].Name
							if parent == "." {
								return
							}
							q2.Question[0].Name = "sub." + parent
							a, err := cache.Resolve(q2, rdns.ClientInfo{})
							if err != nil || a == nil || a.Id != q2.Id {
								c.Violation("query failed: %v", err)
								return
							}
							if tag == 1 && v.key != w.key && !below(v, w) {
								c.Violation("sub name with %s answered from non-existence stored for %s", w.name, v.name)
							}
						})
					}
				}
			}
			if i == first {
				// Everything at once.
				c.Case(fmt.Sprintf("%s: all variants starting with %s", kind, vars[i].name))
				inExec(func(e *vsched.Exec) {
					st := mkStore()
					defer st.close()
					cache := st.open(up, rdns.CacheOptions{})
					tag = 0
					tags := map[string]string{}
					for k := range vars {
						v := vars[(i+k)%len(vars)]
						q := v.mk()
						a, err := cache.Resolve(q, rdns.ClientInfo{})
						check("all", v, q, a, err)
						if t, ok := tags[v.key]; !ok {
							tags[v.key] = tagOf(a)
							for o, x := range tags {
								if o != v.key && x == tagOf(a) {
									c.Violation("%s shares the response of %s", v.name, o)
								}
							}
						} else if kind != "redis" && t != tagOf(a) {
							tags[v.key] = tagOf(a)
						}
						c.Step()
					}
					if kind == "reload" {
						cache = st.reopen(up, rdns.CacheOptions{})
					}
					for _, v := range vars {
						q := v.mk()
						a, err := cache.Resolve(q, rdns.ClientInfo{})
						check("again", v, q, a, err)
						for o, x := range tags {
							if o != v.key && x == tagOf(a) {
								c.Violation("%s shares the response of %s", v.name, o)
							}
						}
					}
				})
			}
		}
	}
}

// below reports whether w's name with a label in front is below v's name with
// everything else equal.
func below(v, w qvar) bool {
	a, b := v.mk(), w.mk()
	if !dns.IsSubDomain(a.Question[0].Name, b.Question[0].Name) {
		return false
	}
	b.Question[0].Name = a.Question[0].Name
	return full(a) == full(b) || (v.key == "base" && (w.name == "opt" || w.name == "upper" || w.name == "sub"))
}

func init() {
	register(&Check{
		ID:    "P02",
		Level: "model_checking",
		Rule:  "every ordered pair of 31 query variants (each differing in one key component) stored and looked up, on the memory store, after a save and reload, and on the shared store (in-process server speaking its protocol); a state is a distinct (first key, second key, response served)",
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			n := len(cacheVariants())
			for _, k := range []string{"memory", "reload", "redis"} {
				step := 4
				for i := 0; i < n; i += step {
					out = append(out, Scenario{Name: fmt.Sprintf("%s-%02d", k, i), Run: p02Run(k, i, i+step)})
				}
			}
			return out
		},
	})
}
