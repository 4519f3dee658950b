//go:build vcmd

package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vroutedns"
	"github.com/folbricht/routedns/internal/vsched"
)

// p27: listeners bound to a namespace run while it exists. The namespaces are
// entries of a scratch directory, watched through the kernel. They stand for
// the namespace of this process; no other is entered.

type nsEnv struct {
	e      *vsched.Exec
	dir    string
	gen    int  // of the namespace, 0 if there is none
	last   int  // generation used last
	ready  bool // mounted
	lns    []*nsListener
	builds int // left to fail
	starts int
	noops  int
}

var nsDir = sync.OnceValue(func() string {
	d, err := os.MkdirTemp("/dev/shm", "vh-netns-") // in memory if possible
	if err != nil {
		d, err = os.MkdirTemp("", "vh-netns-")
	}
	if err != nil {
		panic(err)
	}
	scratch = append(scratch, d)
	return d
})

func newNSEnv(e *vsched.Exec) *nsEnv {
	env := &nsEnv{e: e, dir: nsDir()}
	for _, d := range []string{"ns", "mnt"} {
		d = filepath.Join(env.dir, d)
		os.Mkdir(d, 0o700)
		es, err := os.ReadDir(d)
		env.check(err)
		for _, x := range es {
			env.check(os.Remove(filepath.Join(d, x.Name())))
		}
	}
	return env
}

func (env *nsEnv) check(err error) {
	if err != nil {
		panic(err)
	}
}

func (env *nsEnv) entry() string  { return filepath.Join(env.dir, "ns", "n") }
func (env *nsEnv) target() string { return filepath.Join(env.dir, "mnt", fmt.Sprint(env.gen)) }

// appear adds the entry; it is a placeholder until mounted.
func (env *nsEnv) appear(ready, moved bool) {
	env.last++
	env.gen = env.last
	env.ready = false
	if ready {
		env.mount()
	} else {
		env.check(os.WriteFile(env.target(), nil, 0o600))
	}
	if moved {
		tmp := filepath.Join(env.dir, "mnt", "moved")
		env.check(os.Symlink(env.target(), tmp))
		env.check(os.Rename(tmp, env.entry()))
		return
	}
	env.check(os.Symlink(env.target(), env.entry()))
}

// mount makes it a namespace; nothing changes in the watched directory.
func (env *nsEnv) mount() {
	tmp := filepath.Join(env.dir, "mnt", "new")
	env.check(os.Symlink("/proc/self/ns/net", tmp))
	env.check(os.Rename(tmp, env.target()))
	env.ready = true
}

func (env *nsEnv) disappear(moved bool) {
	if moved {
		env.check(os.Rename(env.entry(), filepath.Join(env.dir, "mnt", fmt.Sprintf("old%d", env.gen))))
	} else {
		env.check(os.Remove(env.entry()))
	}
	env.gen, env.ready = 0, false
}

func (env *nsEnv) running() (out []*nsListener) {
	for _, l := range env.lns {
		if l.serving {
			out = append(out, l)
		}
	}
	return out
}

// nsListener serves in the namespace that is there when it is started.
type nsListener struct {
	env     *nsEnv
	id      string
	gen     int
	started bool
	serving bool
	stop    bool
	crash   bool
	noops   int
}

func (l *nsListener) Start() error {
	env := l.env
	if l.started {
		env.e.Fail("%s: started twice", l.id)
	}
	l.started = true
	env.e.Point()
	if env.gen == 0 || !env.ready {
		return errors.New("no such namespace")
	}
	if env.starts > 0 {
		env.starts--
		return errors.New("address in use")
	}
	l.gen = env.gen
	for _, o := range env.running() {
		if o.id == l.id {
			env.e.Fail("%s: two instances are running", l.id)
		}
	}
	l.serving = true
	env.e.Wait("serving", func() bool { return l.stop || l.crash })
	l.serving = false
	if l.crash {
		return errors.New("failed")
	}
	return nil
}

func (l *nsListener) Stop() error {
	l.env.e.Point()
	if !l.serving {
		return errors.New("server not started")
	}
	if l.noops > 0 {
		l.noops--
		return errors.New("not yet")
	}
	l.stop = true
	return nil
}

func (l *nsListener) String() string { return l.id }

func (env *nsEnv) supervise(id string, events <-chan rdns.NetNSState) {
	vroutedns.VHSupervise(id, "n", events, func() (rdns.Listener, error) {
		env.e.Point()
		if env.builds > 0 {
			env.builds--
			return nil, errors.New("can't be built")
		}
		l := &nsListener{env: env, id: id, noops: env.noops}
		env.lns = append(env.lns, l)
		return l, nil
	})
}

type p27Cfg struct {
	ops      int
	gaps     []time.Duration // after every operation; negative: let the others run
	failures bool
	moves    bool
	early    bool // the listeners are started while the namespace changes
	two      bool // two listeners
	flaps    int  // times it comes and goes in between
}

func p27Body(cfg p27Cfg) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		env := newNSEnv(e)
		if cfg.failures {
			env.builds = e.Choose(3, "builds")
			env.starts = e.Choose(2, "starts")
			env.noops = e.Choose(2, "noops")
		}
		subscribe, err := rdns.VHWatchNetNS(filepath.Join(env.dir, "ns"))
		env.check(err)
		switch e.Choose(3, "initial") {
		case 1:
			env.appear(true, false)
		case 2:
			env.appear(false, false)
		}
		ids := []string{"l"}
		if cfg.two {
			ids = append(ids, "k")
		}
		for _, id := range ids {
			e.Go(id, func() {
				events, _ := subscribe("n")
				env.supervise(id, events)
			})
		}
		if !cfg.early {
			e.Settle()
		}
		var history []string
		for i := 0; i < cfg.ops; i++ {
			type op struct {
				name string
				f    func()
			}
			var ops []op
			add := func(name string, f func()) { ops = append(ops, op{name, f}) }
			if env.gen == 0 {
				add("appear", func() { env.appear(true, false) })
				add("placeholder", func() { env.appear(false, false) })
				if cfg.moves {
					add("moved in", func() { env.appear(true, true) })
				}
			} else {
				add("disappear", func() { env.disappear(false) })
				add("replace", func() { env.disappear(false); env.appear(true, false) })
				if cfg.moves {
					add("moved out", func() { env.disappear(true) })
				}
				if !env.ready {
					add("mount", env.mount)
				}
			}
			if cfg.flaps > 0 {
				add("come and go", func() {
					for k := e.Choose(cfg.flaps, "flaps") + 1; k > 0; k-- {
						if env.gen == 0 {
							env.appear(k%2 == 0, false)
							e.Point()
							env.disappear(false)
						} else {
							env.disappear(false)
							e.Point()
							env.appear(k%2 == 0, false)
						}
						e.Point()
					}
				})
			}
			if r := env.running(); len(r) > 0 {
				add("listener fails", func() { r[0].crash = true })
			}
			o := ops[e.Choose(len(ops), "op")]
			o.f()
			gap := cfg.gaps[e.Choose(len(cfg.gaps), "gap")]
			history = append(history, fmt.Sprintf("%s %v", o.name, gap))
			switch {
			case gap < 0:
				e.Settle()
			case gap > 0:
				e.Advance(gap)
			default:
				e.Point()
			}
		}
		e.Quiet(true)
		if env.gen != 0 && !env.ready {
			if e.Choose(2, "end") == 1 {
				env.mount()
				history = append(history, "mount")
			}
		}
		e.Logf("%v", history)
		// Long enough for all retries.
		for i := 0; i < 6; i++ {
			e.Advance(5 * time.Second)
		}
		r := env.running()
		for _, l := range r {
			if l.gen != env.gen {
				e.Fail("%v: %s is still running although its namespace has gone", history, l.id)
			}
		}
		if env.ready {
			for _, id := range ids {
				n := 0
				for _, l := range r {
					if l.id == id {
						n++
					}
				}
				if n != 1 {
					e.Fail("%v: %d instances of %s are running in the namespace", history, n, id)
				}
			}
		}
		e.Outcome("%d %v %d %d", env.gen, env.ready, len(env.lns), len(r))
	}
}

func init() {
	register(&Check{
		ID:          "P27",
		Level:       "model_checking",
		Rule:        "every sequence of namespace and listener events within the bounds with every schedule within the deviation bound, with the watcher and the supervisor as they are and the kernel's own notifications; a state is a distinct outcome",
		Assumptions: []string{"a listener that is serving obeys the second request to stop at the latest", "an entry is not replaced by renaming another over it"},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			add := func(name string, shards, dev int, cfg p27Cfg) {
				out = append(out, sharded(shards, Scenario{Name: name, Cfg: vsched.Config{Deviations: dev, TimeDev: true, Delay: true}, Body: p27Body(cfg)})...)
			}
			deep := 0
			if tier == "thorough" {
				deep = 1
			}
			const s = time.Second
			add("events", 8, 1+deep, p27Cfg{ops: 3, gaps: []time.Duration{0, -1, 2 * s, 6 * s}})
			add("long", 8, 0, p27Cfg{ops: 4 + deep, gaps: []time.Duration{0, -1, 6 * s}})
			add("failures", 8, 0+deep, p27Cfg{ops: 3, gaps: []time.Duration{0, -1, 2 * s, 6 * s}, failures: true})
			add("moves", 8, 1, p27Cfg{ops: 3, gaps: []time.Duration{0, -1}, moves: true})
			add("subscribe", 8, 2, p27Cfg{ops: 2 + deep, gaps: []time.Duration{0, -1}, early: true, two: false})
			add("flaps", 8, deep, p27Cfg{ops: 2, gaps: []time.Duration{0, -1, 200 * time.Millisecond}, flaps: 12})
			add("two", 8, 1, p27Cfg{ops: 2 + deep, gaps: []time.Duration{0, -1}, early: true, two: true})
			return out
		},
	})
}
