package main

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vos"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// Crash states are computed from the recorded operations.
//
// Killed process: every completed operation took effect; a write in progress
// may have stored any part of its data.
//
// Power cut: operations on the directory take effect in order but any number
// of the last ones may be lost unless the directory was synced; of the data
// written to a file and not synced, any number of the last writes may be lost
// or half done, or only the size may have been recorded.

type p05File struct {
	data []byte
	mode os.FileMode
}

type p05Crash struct {
	w   *vos.FS
	log []vos.Op
}

func p05Meta(k string) bool { return k == "create" || k == "rename" || k == "unlink" || k == "link" }

// content applies the first n writes of an inode.
func (p *p05Crash) writes(ino, upto int) (ops []vos.Op, synced int) {
	for _, o := range p.log[:upto] {
		if o.Ino != ino || o.Err {
			continue
		}
		switch o.Kind {
		case "write", "truncate":
			ops = append(ops, o)
		case "sync":
			synced = len(ops)
		}
	}
	return
}

func (p *p05Crash) base(ino int) []byte {
	for _, f := range p.w.Init {
		if f.Ino == ino {
			return f.Data
		}
	}
	return nil
}

func (p *p05Crash) mode(ino, upto int) os.FileMode {
	var m os.FileMode
	for _, f := range p.w.Init {
		if f.Ino == ino {
			m = f.Mode
		}
	}
	for _, o := range p.log[:upto] {
		if o.Ino == ino && !o.Err && (o.Kind == "create" || o.Kind == "chmod") {
			m = o.Mode
		}
	}
	return m
}

func apply(b []byte, ops []vos.Op) []byte {
	b = append([]byte(nil), b...)
	for _, o := range ops {
		end := o.Off + int64(len(o.Data))
		if o.Kind == "truncate" {
			end = o.Size
			if int64(len(b)) > end {
				b = b[:end]
			}
		}
		for int64(len(b)) < end {
			b = append(b, 0)
		}
		copy(b[o.Off:], o.Data)
	}
	return b
}

// dir returns the directory after the first m directory operations among the
// first upto operations.
func (p *p05Crash) dir(upto, m int) map[string]int {
	d := map[string]int{}
	for path, f := range p.w.Init {
		d[path] = f.Ino
	}
	for _, o := range p.log[:upto] {
		if !p05Meta(o.Kind) || o.Err {
			continue
		}
		if m == 0 {
			break
		}
		m--
		switch o.Kind {
		case "create":
			d[o.Path] = o.Ino
		case "rename":
			d[o.To] = d[o.Path]
			delete(d, o.Path)
		case "unlink":
			delete(d, o.Path)
		case "link":
			d[o.To] = d[o.Path]
		}
	}
	return d
}

// each visits the state of the target in every crash state. tag is that of the
// last operation begun.
func (p *p05Crash) each(target string, visit func(desc string, power bool, tag int, f *p05File)) {
	for n := 0; n <= len(p.log); n++ {
		meta, forced, tag := 0, 0, 0
		for _, o := range p.log[:n] {
			if p05Meta(o.Kind) && !o.Err {
				meta++
			}
			if o.Kind == "syncdir" && !o.Err && o.Path == filepath.Dir(target) {
				forced = meta
			}
			tag = o.Tag
		}
		file := func(ino int, data []byte) *p05File { return &p05File{data, p.mode(ino, n)} }
		// Killed.
		d := p.dir(n, meta)
		if ino, ok := d[target]; ok {
			ops, _ := p.writes(ino, n)
			visit(fmt.Sprintf("killed after operation %d", n), false, tag, file(ino, apply(p.base(ino), ops)))
			if n < len(p.log) && p.log[n].Kind == "write" && p.log[n].Ino == ino {
				for _, k := range []int{1, len(p.log[n].Data) / 2, len(p.log[n].Data) - 1} {
					if k <= 0 || k >= len(p.log[n].Data) {
						continue
					}
					o := p.log[n]
					o.Data = o.Data[:k]
					visit(fmt.Sprintf("killed in operation %d, %d bytes written", n, k), false, p.log[n].Tag, file(ino, apply(p.base(ino), append(ops[:len(ops):len(ops)], o))))
				}
			}
		} else {
			visit(fmt.Sprintf("killed after operation %d", n), false, tag, nil)
		}
		// Power cut.
		for m := forced; m <= meta; m++ {
			d := p.dir(n, m)
			ino, ok := d[target]
			if !ok {
				visit(fmt.Sprintf("power cut after operation %d, %d of %d directory changes stored", n, m, meta), true, tag, nil)
				continue
			}
			ops, synced := p.writes(ino, n)
			for k := synced; k <= len(ops); k++ {
				pre := fmt.Sprintf("power cut after operation %d, %d of %d directory changes and %d of %d writes stored", n, m, meta, k, len(ops))
				visit(pre, true, tag, file(ino, apply(p.base(ino), ops[:k])))
				if k < len(ops) {
					o := ops[k]
					if o.Kind == "write" && len(o.Data) > 1 {
						h := o
						h.Data = o.Data[:len(o.Data)/2]
						visit(pre+" and half of the next", true, tag, file(ino, apply(p.base(ino), append(ops[:k:k], h))))
						z := o
						z.Data = make([]byte, len(o.Data))
						visit(pre+" and the size of the next", true, tag, file(ino, apply(p.base(ino), append(ops[:k:k], z))))
					}
				}
			}
		}
	}
}

// p05Subject is something that saves a file. run performs its saves, calling
// begin(i) before save i (from 1), and returns whether save i reported an error
// if it reports anything.
type p05Subject struct {
	name   string
	target string // file name
	saves  int
	before [][]byte // candidates for the previous content; nil: no file
	run    func(e *vsched.Exec, path string, begin func(i int)) []error
	has    func(path string, i int) error // whether the file is complete after save i
}

// p05CacheHas checks that a cache starting from the file answers names 0 to n-1.
func p05CacheHas(path string, n int) (err error) {
	b := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: path})
	c := rdns.NewCache("c", &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return nil, errUpstream }}, rdns.CacheOptions{Backend: b})
	for i := 0; i < n; i++ {
		if a, e := c.Resolve(query(fmt.Sprintf("n%d.x.", i), dns.TypeTXT), rdns.ClientInfo{}); e != nil || len(a.Answer) != 1 {
			err = fmt.Errorf("entry %d of %d is not in the file", i, n)
		}
	}
	return
}

func p05ListHas(path string, n int) error {
	saved := http.DefaultClient.Transport
	http.DefaultClient.Transport = &p15Transport{next: func() (int, io.Reader, error) { return 404, strings.NewReader(""), nil }}
	defer func() { http.DefaultClient.Transport = saved }()
	rules, err := rdns.NewHTTPLoader(p05URL, rdns.HTTPLoaderOptions{CacheDir: filepath.Dir(path)}).Load()
	if err != nil || len(rules) != n {
		return fmt.Errorf("%d of %d lines are in the file: %v", len(rules), n, err)
	}
	return nil
}

func p05Cache(e *vsched.Exec, path string, interval time.Duration) (rdns.Resolver, interface {
	Close() error
	Size() int
}) {
	b := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: path, SaveInterval: interval})
	c := rdns.NewCache("c", &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		return reply(q, 0, rr(q.Question[0].Name+" 3600 IN TXT "+strings.Repeat("x", 100))), nil
	}}, rdns.CacheOptions{Backend: b})
	return c, b
}

func p05Fill(r rdns.Resolver, from, to int) {
	for i := from; i < to; i++ {
		r.Resolve(query(fmt.Sprintf("n%d.x.", i), dns.TypeTXT), rdns.ClientInfo{})
	}
}

func p05Subjects() []p05Subject {
	var old []byte
	{
		d := scratchDir()
		p := filepath.Join(d, "cache.json")
		vsched.RunSequential(vsched.Config{}, func(e *vsched.Exec) {
			r, b := p05Cache(e, p, 0)
			p05Fill(r, 100, 103)
			b.Close()
		})
		old, _ = os.ReadFile(p)
		os.RemoveAll(d)
	}
	sizes := func(name string, n int) p05Subject {
		return p05Subject{name, "cache.json", 1, [][]byte{nil, old, []byte("{damaged"), {}}, func(e *vsched.Exec, path string, begin func(int)) []error {
			r, b := p05Cache(e, path, 0)
			p05Fill(r, 0, n)
			begin(1)
			return []error{b.Close()}
		}, func(path string, i int) error { return p05CacheHas(path, n) }}
	}
	list := func(name string, lines ...int) p05Subject {
		return p05Subject{name, "", len(lines), [][]byte{nil, []byte("old.x\n"), {}}, func(e *vsched.Exec, path string, begin func(int)) []error {
			tr := &p15Transport{}
			saved := http.DefaultClient.Transport
			http.DefaultClient.Transport = tr
			defer func() { http.DefaultClient.Transport = saved }()
			l := rdns.NewHTTPLoader(p05URL, rdns.HTTPLoaderOptions{CacheDir: filepath.Dir(path)})
			if _, err := os.Stat(path); err == nil {
				l.Load() // uses the stored list
			}
			for i, n := range lines {
				tr.next = func() (int, io.Reader, error) {
					return 200, strings.NewReader(strings.Repeat(fmt.Sprintf("version-%d.x\n", i), n)), nil
				}
				begin(i + 1)
				rules, err := l.Load()
				if err != nil || len(rules) != n {
					e.Fail("list %d not loaded: %d rules, %v", i, len(rules), err)
				}
			}
			return nil
		}, func(path string, i int) error { return p05ListHas(path, lines[i-1]) }}
	}
	return []p05Subject{
		sizes("cache-small", 3), sizes("cache-empty", 0), sizes("cache-large", 700),
		{"cache-interval", "cache.json", 3, [][]byte{nil, old}, func(e *vsched.Exec, path string, begin func(int)) []error {
			r, b := p05Cache(e, path, 10*time.Second)
			p05Fill(r, 0, 2)
			begin(1)
			e.Advance(10 * time.Second)
			p05Fill(r, 2, 5)
			begin(2)
			e.Advance(10 * time.Second)
			p05Fill(r, 5, 6)
			begin(3)
			return []error{nil, nil, b.Close()}
		}, func(path string, i int) error { return p05CacheHas(path, []int{2, 5, 6}[i-1]) }},
		list("list", 3), list("list-twice", 4, 2), list("list-large", 6000),
	}
}

func p05Down(n int) (out []int) {
	for ; n >= 0; n-- {
		out = append(out, n)
	}
	return
}

const p05URL = "http://lists.invalid/l"

// p05Target is the name of the file a subject saves to.
func p05Target(s p05Subject) string {
	if s.target != "" {
		return s.target
	}
	// Found by letting it save.
	d := scratchDir()
	defer os.RemoveAll(d)
	vsched.RunSequential(vsched.Config{}, func(e *vsched.Exec) { s.run(e, filepath.Join(d, "none"), func(int) {}) })
	es, _ := os.ReadDir(d)
	if len(es) == 0 {
		return ""
	}
	return es[0].Name()
}

func p05Run(s p05Subject, pairs bool) func(*C) {
	return func(c *C) {
		start := time.Now()
		target := p05Target(s)
		if target == "" {
			c.Violation("nothing was saved")
			return
		}
		for bi, before := range s.before {
			for _, mode := range []os.FileMode{0o600, 0o644} {
				if before == nil && mode != 0o600 {
					continue
				}
				if c.Full() {
					return
				}
				name := fmt.Sprintf("previous file %d mode %o", bi, mode)
				wantMode := mode
				// One run with given faults; returns the log and the contents after each save.
				type result struct {
					w        *vos.FS
					errs     []error
					contents [][]byte // after each save
					left     []string
					ops      int
				}
				run := func(fail func(n int, op vos.Op) (bool, error)) result {
					dir := scratchDir()
					defer os.RemoveAll(dir)
					path := filepath.Join(dir, target)
					if before != nil {
						if err := os.WriteFile(path, before, mode); err != nil {
							panic(err)
						}
						os.Chmod(path, mode)
					}
					var r result
					r.w = vos.Watch(dir)
					defer vos.Stop()
					read := func() {
						b, err := os.ReadFile(path)
						if err != nil {
							b = nil
						} else if b == nil {
							b = []byte{}
						}
						r.contents = append(r.contents, b)
					}
					r.w.Fail = func(n int, op vos.Op) (bool, error) {
						r.ops++
						if fail == nil || r.w.Tag == 0 {
							return false, nil
						}
						return fail(n, op)
					}
					c.Exec(vsched.Config{Start: start}, func(e *vsched.Exec) {
						r.errs = s.run(e, path, func(i int) {
							read()
							r.w.Tag = i
						})
					})
					read()
					es, _ := os.ReadDir(dir)
					for _, x := range es {
						if x.Name() != target {
							r.left = append(r.left, x.Name())
						}
					}
					return r
				}
				c.Case(name + ", no faults")
				clean := run(nil)
				versions := clean.contents
				if len(clean.w.Log) == 0 || len(versions) != s.saves+1 {
					c.ToolError("no operations recorded for %s", s.name)
					return
				}
				for i := 1; i <= s.saves; i++ {
					if versions[i] == nil || clean.errs != nil && clean.errs[i-1] != nil {
						c.Violation("save %d did not produce a file", i)
						return
					}
				}
				for i := 1; i <= s.saves; i++ {
					dir := scratchDir()
					os.WriteFile(filepath.Join(dir, target), versions[i], 0o600)
					c.Exec(vsched.Config{Start: start}, func(e *vsched.Exec) {
						if err := s.has(filepath.Join(dir, target), i); err != nil {
							e.Fail("save %d without faults: %v", i, err)
						}
					})
					os.RemoveAll(dir)
				}
				// The latest version up to max this can be, or else any.
				which := func(f *p05File, max int) int {
					for _, i := range append(p05Down(max), p05Down(len(versions)-1)...) {
						if f == nil && versions[i] == nil || f != nil && versions[i] != nil && bytes.Equal(f.data, versions[i]) {
							return i
						}
					}
					return -1
				}
				crash := func(what string, r result) {
					p := &p05Crash{r.w, r.w.Log}
					path := filepath.Join(r.w.Dir, target)
					last := map[bool]int{}
					p.each(path, func(desc string, power bool, tag int, f *p05File) {
						if c.Full() {
							return
						}
						c.Step()
						v := which(f, tag)
						got := "missing"
						if f != nil {
							got = fmt.Sprintf("%d bytes, not a complete version", len(f.data))
						}
						switch {
						case v < 0:
							c.Violation("%s, %s: file is %s", what, desc, got)
						case v > tag:
							c.Violation("%s, %s: version %d before it was saved", what, desc, v)
						case !power && v < last[power] && versions[v] == nil:
							c.Violation("%s, %s: file is gone", what, desc)
						case f != nil && f.mode != wantMode:
							c.Violation("%s, %s: mode %o instead of %o", what, desc, f.mode, wantMode)
						}
						if !power {
							last[power] = v
						}
						c.State("%s %s %s %s %d %v", s.name, name, what, desc, v, power)
					})
				}
				if len(clean.left) > 0 {
					c.Violation("left behind: %v", clean.left)
				}
				crash("no faults", clean)
				// Every operation failing, every write also after half of its data.
				type fault struct {
					n     int
					short bool
				}
				try := func(fs ...fault) (kinds []string, ops int) {
					hitUnlink := false
					kinds = make([]string, len(fs))
					r := run(func(n int, op vos.Op) (bool, error) {
						for i, f := range fs {
							if f.n == n {
								kinds[i] = op.Kind
								if f.short {
									if op.Kind != "write" {
										kinds[i] = ""
										return false, nil
									}
									return true, syscall.ENOSPC
								}
								if op.Kind == "unlink" {
									hitUnlink = true
								}
								return false, syscall.EIO
							}
						}
						return false, nil
					})
					what := fmt.Sprintf("faults %v %v", fs, kinds)
					for i, b := range r.contents {
						v := -1
						for j := range versions {
							if bytes.Equal(b, versions[j]) && (b == nil) == (versions[j] == nil) {
								v = j
							}
						}
						if v < 0 {
							c.Violation("%s: file after save %d is not a complete version", what, i)
						}
						if i > 0 && r.errs != nil && i == len(r.contents)-1 {
							if err := r.errs[i-1]; err == nil && !bytes.Equal(b, versions[i]) {
								c.Violation("%s: save %d reported success but the file is version %d", what, i, v)
							}
						}
					}
					if len(r.left) > 0 && !hitUnlink {
						c.Violation("%s: left behind %v", what, r.left)
					}
					crash(what, r)
					return kinds, r.ops
				}
				first := 0
				for i, o := range clean.w.Log {
					if o.Tag > 0 {
						first = i
						break
					}
				}
				for n := first; n < clean.ops && !c.Full(); n++ {
					for _, short := range []bool{false, true} {
						c.Case(fmt.Sprintf("%s, operation %d fails, short %v", name, n, short))
						kinds, ops := try(fault{n, short})
						if kinds[0] == "" {
							continue
						}
						if !pairs {
							continue
						}
						for n2 := n + 1; n2 < ops && !c.Full(); n2++ {
							c.Case(fmt.Sprintf("%s, operations %d and %d fail, short %v", name, n, n2, short))
							try(fault{n, short}, fault{n2, false})
						}
					}
				}
			}
		}
	}
}

// p05Load: failures while a stored file is read never change it or prevent the
// start.
func p05Load() func(*C) {
	return func(c *C) {
		for _, s := range p05Subjects() {
			target := p05Target(s)
			for bi, before := range s.before {
				if before == nil {
					continue
				}
				for n := 0; n < 40; n++ {
					if c.Full() {
						return
					}
					c.Case(fmt.Sprintf("%s: previous file %d, operation %d fails while loading", s.name, bi, n))
					dir := scratchDir()
					path := filepath.Join(dir, target)
					os.WriteFile(path, before, 0o600)
					w := vos.Watch(dir)
					hit := false
					w.Fail = func(k int, op vos.Op) (bool, error) {
						if k == n {
							hit = true
							return false, syscall.EIO
						}
						return false, nil
					}
					c.Exec(vsched.Config{Start: time.Now()}, func(e *vsched.Exec) {
						if strings.HasPrefix(s.name, "cache") {
							r, _ := p05Cache(e, path, 0)
							a, err := r.Resolve(query("n1.x.", dns.TypeTXT), rdns.ClientInfo{})
							if err != nil || a == nil || len(a.Answer) != 1 {
								e.Fail("query not answered: %s", shortMsg(a, err))
							}
							return
						}
						tr := &p15Transport{next: func() (int, io.Reader, error) { return 404, strings.NewReader(""), nil }}
						saved := http.DefaultClient.Transport
						http.DefaultClient.Transport = tr
						defer func() { http.DefaultClient.Transport = saved }()
						rdns.NewHTTPLoader(p05URL, rdns.HTTPLoaderOptions{CacheDir: dir}).Load()
					})
					c.Step()
					vos.Stop()
					b, err := os.ReadFile(path)
					if err != nil || !bytes.Equal(b, before) {
						c.Violation("stored file changed by loading it: %v", err)
					}
					c.State("%s %d %d", s.name, bi, n)
					os.RemoveAll(dir)
					if !hit {
						break
					}
				}
			}
		}
	}
}

// p05Sweep: what the clean-up of leftovers removes.
func p05Sweep() func(*C) {
	return func(c *C) {
		// The names of temporary files, observed.
		var tmp []string
		d := scratchDir()
		defer os.RemoveAll(d)
		for i := 0; i < 2; i++ {
			w := vos.Watch(d)
			vsched.RunSequential(vsched.Config{}, func(e *vsched.Exec) {
				r, b := p05Cache(e, filepath.Join(d, "cache.json"), 0)
				p05Fill(r, 0, 1)
				b.Close()
			})
			vos.Stop()
			for _, o := range w.Log {
				if o.Kind == "create" && filepath.Base(o.Path) != "cache.json" {
					tmp = append(tmp, filepath.Base(o.Path))
				}
			}
		}
		if len(tmp) < 2 {
			c.Violation("no temporary file used: %v", tmp)
			return
		}
		prefix := tmp[0]
		for !strings.HasPrefix(tmp[1], prefix) {
			prefix = prefix[:len(prefix)-1]
		}
		type name struct {
			n    string
			temp bool
		}
		names := []name{{tmp[0], true}, {tmp[1], true}}
		for _, n := range []string{"cache", "cache.json.bak", "routedns", "routedns1", "routedns20260101", "x" + prefix + "1", strings.TrimPrefix(prefix, ".") + "7", strings.ToUpper(prefix) + "7",
			"a.tmp", "tmp1", ".hidden", ".cache.json.tmp", "cache.json~", prefix[:len(prefix)/2] + "9", ".routedns", "0"} {
			if prefix != "" && strings.HasPrefix(n, prefix) {
				continue
			}
			names = append(names, name{n, false})
		}
		ages := []time.Duration{0, 5 * time.Minute, 2 * time.Hour, 1000 * time.Hour, -time.Hour}
		kinds := []string{"file", "dir", "symlink", "dangling", "fifo"}
		now := time.Now()
		type who struct {
			name string
			f    func(dir string)
		}
		starters := []who{
			{"cache", func(dir string) {
				rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: filepath.Join(dir, "cache.json")})
			}},
			{"list", func(dir string) { rdns.NewHTTPLoader(p05URL, rdns.HTTPLoaderOptions{CacheDir: dir}) }},
			{"cache-bare-name", func(dir string) {
				wd, _ := os.Getwd()
				os.Chdir(dir)
				defer os.Chdir(wd)
				rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: "cache.json"})
			}},
			{"no-file", func(dir string) {
				wd, _ := os.Getwd()
				os.Chdir(dir)
				defer os.Chdir(wd)
				rdns.NewMemoryBackend(rdns.MemoryBackendOptions{})
				rdns.NewHTTPLoader(p05URL, rdns.HTTPLoaderOptions{})
			}},
		}
		for _, st := range starters {
			for _, n := range names {
				for _, k := range kinds {
					for _, age := range ages {
						if c.Full() {
							return
						}
						c.Case(fmt.Sprintf("%s start, %s %q %v old", st.name, k, n.n, age))
						dir := scratchDir()
						out := scratchDir()
						p := filepath.Join(dir, n.n)
						victim := filepath.Join(out, tmp[0])
						os.WriteFile(victim, []byte("v"), 0o600)
						os.Chtimes(victim, now.Add(-age), now.Add(-age))
						switch k {
						case "file":
							os.WriteFile(p, []byte("x"), 0o600)
						case "dir":
							os.Mkdir(p, 0o700)
						case "symlink":
							os.Symlink(victim, p)
						case "dangling":
							os.Symlink(filepath.Join(out, "none"), p)
						case "fifo":
							syscall.Mkfifo(p, 0o600)
						}
						if k != "symlink" && k != "dangling" {
							os.Chtimes(p, now.Add(-age), now.Add(-age))
						}
						c.Exec(vsched.Config{Start: now}, func(e *vsched.Exec) { st.f(dir) })
						c.Step()
						_, err := os.Lstat(p)
						gone := err != nil
						may := n.temp && k == "file" && age > time.Hour && (st.name == "cache" || st.name == "list")
						if gone && !may {
							c.Violation("%s was removed", k)
						}
						if !gone && may {
							c.Violation("leftover was not removed")
						}
						if _, err := os.Lstat(victim); err != nil {
							c.Violation("file outside the directory was removed")
						}
						c.State("%s %s %v %v %v", st.name, k, n.temp, age, gone)
						os.RemoveAll(dir)
						os.RemoveAll(out)
					}
				}
			}
		}
	}
}

// p05Inflight: another process starts up in the same directory at every point
// of a save.
func p05Inflight() func(*C) {
	return func(c *C) {
		for _, s := range p05Subjects() {
			target := p05Target(s)
			for at := 0; at < 60; at++ {
				if c.Full() {
					return
				}
				c.Case(fmt.Sprintf("%s: another start at operation %d", s.name, at))
				dir := scratchDir()
				path := filepath.Join(dir, target)
				w := vos.Watch(dir)
				hit := false
				var errs []error
				c.Exec(vsched.Config{Start: time.Now()}, func(e *vsched.Exec) {
					w.Step = func(n int) {
						if n == at {
							hit = true
							rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: filepath.Join(dir, "other.json")})
							rdns.NewHTTPLoader("http://other.invalid/", rdns.HTTPLoaderOptions{CacheDir: dir})
						}
					}
					errs = s.run(e, path, func(int) {})
				})
				vos.Stop()
				c.Step()
				for _, err := range errs {
					if err != nil {
						c.Violation("save failed: %v", err)
					}
				}
				if _, err := os.Stat(path); err != nil {
					c.Violation("not saved: %v", err)
				}
				c.State("%s %d", s.name, at)
				os.RemoveAll(dir)
				if !hit {
					break
				}
			}
		}
	}
}

// p05Concurrent: two writers of one file, in one process (interval save and
// shutdown) or two.
func p05Concurrent(same bool) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		dir := scratchDir()
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "cache.json")
		e.Quiet(true)
		old := []byte("old\n")
		os.WriteFile(path, old, 0o600)
		r1, b1 := p05Cache(e, path, 0)
		p05Fill(r1, 0, 2)
		b2 := b1
		if !same {
			var r2 rdns.Resolver
			r2, b2 = p05Cache(e, path, 0)
			p05Fill(r2, 5, 6)
		}
		w := vos.Watch(dir)
		defer vos.Stop()
		w.Tag = 1
		e.Quiet(false)
		t1 := e.Go("save1", func() {
			if err := b1.Close(); err != nil {
				e.Fail("save failed: %v", err)
			}
		})
		t2 := e.Go("save2", func() {
			if err := b2.Close(); err != nil {
				e.Fail("save failed: %v", err)
			}
		})
		e.Join(t1, t2)
		e.Quiet(true)
		final, _ := os.ReadFile(path)
		vos.Stop()
		// Complete versions, produced one at a time.
		b1.Close()
		v1, _ := os.ReadFile(path)
		b2.Close()
		v2, _ := os.ReadFile(path)
		if len(w.Log) == 0 || bytes.Equal(v1, old) {
			e.Fail("nothing saved")
		}
		if !bytes.Equal(final, v1) && !bytes.Equal(final, v2) {
			e.Fail("file is neither version")
		}
		es, _ := os.ReadDir(dir)
		if len(es) != 1 {
			e.Fail("left behind: %v", es)
		}
		n := 0
		(&p05Crash{w, w.Log}).each(path, func(desc string, power bool, tag int, f *p05File) {
			n++
			if f == nil || !bytes.Equal(f.data, old) && !bytes.Equal(f.data, v1) && !bytes.Equal(f.data, v2) {
				e.Fail("%s: file is not a complete version", desc)
			}
		})
		var kinds []string
		for _, o := range w.Log {
			kinds = append(kinds, o.Kind)
		}
		sort.Strings(kinds)
		e.Outcome("%v %v", bytes.Equal(final, v1), kinds)
	}
}

func init() {
	register(&Check{
		ID:    "P05",
		Level: "model_checking",
		Rule:  "all file operations of every save are recorded; every crash point between and inside operations, killed or power cut with every loss of unsynced data, for the run without faults and for every run in which one (thorough: up to two) operations fail; every kind, name and age of directory entry for the clean-up; all schedules of two writers. A state is a distinct crash state or directory entry outcome",
		Assumptions: []string{
			"directory changes reach the disk in order and atomically, as on journaling file systems",
			"leftovers are files with a name like those observed to be created while saving, older than two hours",
		},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			d := 3
			if tier == "thorough" {
				d = 4
			}
			for _, s := range p05Subjects() {
				out = append(out, Scenario{Name: "crash-" + s.name, Weight: 5, Run: p05Run(s, tier == "thorough" || s.saves == 1 && !strings.HasSuffix(s.name, "large"))})
			}
			out = append(out, Scenario{Name: "load", Weight: 1, Run: p05Load()}, Scenario{Name: "sweep", Weight: 3, Run: p05Sweep()}, Scenario{Name: "inflight", Weight: 1, Run: p05Inflight()})
			for _, same := range []bool{true, false} {
				out = append(out, sharded(4, Scenario{Name: fmt.Sprintf("writers-same-%v", same), Weight: 5,
					Cfg: vsched.Config{Deviations: d, SyncOnly: true, RandFixed: true, Delay: true, Start: time.Now()}, Body: p05Concurrent(same)})...)
			}
			return out
		},
	})
}
