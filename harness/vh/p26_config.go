package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/miekg/dns"
)

// p26: only complete, acyclic configurations start. The program itself is run
// with the configuration in a scratch directory.

// cfgElem is an element of a configuration.
type cfgElem struct {
	name string
	kind string
	refs []string
}

// cfgAnswer is what an element answers: the way the query took, and what else
// elements downstream can see of it.
type cfgAnswer struct {
	text  string // as found in the TXT record; no record if empty
	rcode int
	tc    bool
	bare  bool // only records of the queried type
	none  bool // there is no reply
}

type cfgModel struct {
	elems map[string]*cfgElem
	count map[string]int
}

type cfgKind struct {
	name string
	refs int
	few  bool // combined with everything
	// text is the definition in the configuration file.
	text    func(e *cfgElem, env *cfgEnv) string
	resolve func(m *cfgModel, e *cfgElem, q string) cfgAnswer
}

func cfgBlocked(q string) bool {
	return strings.HasPrefix(q, "block.") || strings.Contains(q, ".block.")
}

const cfgBlock = `(^|\.)block\.`

func (m *cfgModel) ask(name, q string) cfgAnswer {
	e := m.elems[name]
	return cfgKindOf(e.kind).resolve(m, e, q)
}

func cfgFirst(m *cfgModel, e *cfgElem, q string) cfgAnswer { return m.ask(e.refs[0], q) }

func cfgGroup(typ, more string) func(*cfgElem, *cfgEnv) string {
	return func(e *cfgElem, env *cfgEnv) string {
		s := fmt.Sprintf("[groups.%s]\ntype = %q\n", e.name, typ)
		if len(e.refs) > 0 {
			s += fmt.Sprintf("resolvers = [%q]\n", e.refs[0])
		}
		if more != "" {
			s += more + "\n"
		}
		return s
	}
}

// cfgSecond is a group with its second reference in an option.
func cfgSecond(typ, option, more string) func(*cfgElem, *cfgEnv) string {
	return func(e *cfgElem, env *cfgEnv) string {
		return cfgGroup(typ, more)(e, env) + fmt.Sprintf("%s = %q\n", option, e.refs[1])
	}
}

// cfgList is a group with a list of references.
func cfgList(typ, more string) func(*cfgElem, *cfgEnv) string {
	return func(e *cfgElem, env *cfgEnv) string {
		var r []string
		for _, x := range e.refs {
			r = append(r, fmt.Sprintf("%q", x))
		}
		return fmt.Sprintf("[groups.%s]\ntype = %q\nresolvers = [%s]\n%s\n", e.name, typ, strings.Join(r, ", "), more)
	}
}

func cfgLeaf(more string) func(e *cfgElem, env *cfgEnv) string {
	return func(e *cfgElem, env *cfgEnv) string {
		return fmt.Sprintf("[groups.%s]\ntype = \"static-template\"\nanswer = ['{{ .Question }} 60 IN TXT \"%s:{{ .Question }}\"', 'ip.test. 60 IN A 10.0.0.1', 'mx.test. 60 IN MX 1 block.test.']\n%s\n", e.name, e.name, more)
	}
}

var cfgKinds []cfgKind

func init() {
	k := func(name string, refs int, text func(*cfgElem, *cfgEnv) string, resolve func(*cfgModel, *cfgElem, string) cfgAnswer) {
		cfgKinds = append(cfgKinds, cfgKind{name: name, refs: refs, text: text, resolve: resolve})
	}
	k("template", 0, cfgLeaf(""), func(m *cfgModel, e *cfgElem, q string) cfgAnswer { return cfgAnswer{text: e.name + ":" + q} })
	k("replace", 1, func(e *cfgElem, env *cfgEnv) string {
		return cfgGroup("replace", fmt.Sprintf("replace = [{from = '^', to = '%s.'}]", e.name))(e, env)
	}, func(m *cfgModel, e *cfgElem, q string) cfgAnswer { return m.ask(e.refs[0], e.name+"."+q) })
	k("router", 2, func(e *cfgElem, env *cfgEnv) string {
		return fmt.Sprintf("[routers.%s]\nroutes = [{name = '%s', resolver = %q}, {resolver = %q}]\n", e.name, cfgBlock, e.refs[1], e.refs[0])
	}, func(m *cfgModel, e *cfgElem, q string) cfgAnswer {
		if cfgBlocked(q) {
			return m.ask(e.refs[1], q)
		}
		return m.ask(e.refs[0], q)
	})
	// The rest is not used in graphs of three.
	k("truncated", 0, cfgLeaf("truncate = true"), func(m *cfgModel, e *cfgElem, q string) cfgAnswer {
		return cfgAnswer{text: e.name + ":" + q, tc: true}
	})
	k("static", 0, func(e *cfgElem, env *cfgEnv) string {
		return fmt.Sprintf("[groups.%s]\ntype = \"static-responder\"\nanswer = ['x.test. 60 IN TXT \"%s:\"']\n", e.name, e.name)
	}, func(m *cfgModel, e *cfgElem, q string) cfgAnswer { return cfgAnswer{text: e.name + ":", bare: true} })
	k("upstream", 0, func(e *cfgElem, env *cfgEnv) string {
		return fmt.Sprintf("[resolvers.%s]\naddress = %q\nprotocol = \"udp\"\n", e.name, env.stub(e.name))
	}, func(m *cfgModel, e *cfgElem, q string) cfgAnswer {
		return cfgAnswer{text: e.name + ":" + q, bare: true}
	})
	k("upstream-tcp", 0, func(e *cfgElem, env *cfgEnv) string {
		return fmt.Sprintf("[resolvers.%s]\naddress = %q\nprotocol = \"tcp\"\n", e.name, env.stub(e.name))
	}, func(m *cfgModel, e *cfgElem, q string) cfgAnswer {
		return cfgAnswer{text: e.name + ":" + q, bare: true}
	})
	for _, g := range []struct{ typ, more string }{
		{"ttl-modifier", "ttl-max = 30"}, {"request-dedup", ""}, {"fastest-tcp", ""}, {"ecs-modifier", `ecs-op = "delete"`},
		{"edns0-modifier", "edns0-op = \"delete\"\nedns0-code = 15"}, {"cache", ""}, {"prefetch", ""}, {"response-minimize", ""},
		{"query-log", ""}, {"syslog", "network = \"udp\"\naddress = \"127.0.0.1:9\""}, {"dns64", ""}, {"round-robin", ""}, {"fastest", ""}, {"random", ""},
		{"blocklist", "blocklist = ['(^|\\.)nothing\\.']"},
	} {
		k(g.typ, 1, cfgGroup(g.typ, g.more), cfgFirst)
	}
	k("response-collapse", 1, cfgGroup("response-collapse", ""), func(m *cfgModel, e *cfgElem, q string) cfgAnswer {
		a := m.ask(e.refs[0], q)
		a.bare = true
		return a
	})
	k("rate-limiter-only", 1, cfgGroup("rate-limiter", "requests = 1\nwindow = 3600"), func(m *cfgModel, e *cfgElem, q string) cfgAnswer {
		if m.count[e.name]++; m.count[e.name] > 1 {
			return cfgAnswer{none: true}
		}
		return m.ask(e.refs[0], q)
	})
	blockable := func(yes func(m *cfgModel, e *cfgElem, q string) bool) func(*cfgModel, *cfgElem, string) cfgAnswer {
		return func(m *cfgModel, e *cfgElem, q string) cfgAnswer {
			if yes(m, e, q) {
				return m.ask(e.refs[1], q)
			}
			return m.ask(e.refs[0], q)
		}
	}
	k("blocklist-v2", 2, cfgSecond("blocklist-v2", "blocklist-resolver", "blocklist = ['"+cfgBlock+"']"), blockable(func(m *cfgModel, e *cfgElem, q string) bool { return cfgBlocked(q) }))
	k("blocklist-v2-allow", 2, cfgSecond("blocklist-v2", "allowlist-resolver", "allowlist = ['"+cfgBlock+"']"), blockable(func(m *cfgModel, e *cfgElem, q string) bool { return cfgBlocked(q) }))
	k("client-blocklist", 2, cfgSecond("client-blocklist", "blocklist-resolver", "blocklist = ['127.0.0.0/8']"), blockable(func(m *cfgModel, e *cfgElem, q string) bool { return true }))
	k("client-blocklist-other", 2, cfgSecond("client-blocklist", "blocklist-resolver", "blocklist = ['10.0.0.0/8']"), blockable(func(m *cfgModel, e *cfgElem, q string) bool { return false }))
	after := func(yes func(a cfgAnswer) bool) func(*cfgModel, *cfgElem, string) cfgAnswer {
		return func(m *cfgModel, e *cfgElem, q string) cfgAnswer {
			a := m.ask(e.refs[0], q)
			if yes(a) {
				return m.ask(e.refs[1], q)
			}
			return a
		}
	}
	k("response-blocklist-ip", 2, cfgSecond("response-blocklist-ip", "blocklist-resolver", "blocklist = ['10.0.0.0/8']"), after(func(a cfgAnswer) bool { return !a.bare }))
	k("response-blocklist-name", 2, cfgSecond("response-blocklist-name", "blocklist-resolver", "blocklist = ['^block\\.test\\.$']"), after(func(a cfgAnswer) bool { return !a.bare }))
	k("truncate-retry", 2, cfgSecond("truncate-retry", "retry-resolver", ""), after(func(a cfgAnswer) bool { return a.tc }))
	k("rate-limiter", 2, cfgSecond("rate-limiter", "limit-resolver", "requests = 1\nwindow = 3600"), blockable(func(m *cfgModel, e *cfgElem, q string) bool {
		m.count[e.name]++
		return m.count[e.name] > 1
	}))
	k("round-robin-two", 2, cfgList("round-robin", ""), blockable(func(m *cfgModel, e *cfgElem, q string) bool {
		m.count[e.name]++
		return m.count[e.name]%2 == 0
	}))
	k("fail-rotate", 2, cfgList("fail-rotate", ""), cfgFirst)
	k("fail-back", 2, cfgList("fail-back", ""), cfgFirst)
	k("lua", 2, cfgList("lua", "lua-script = '''function Resolve(msg, ci)\nif string.find(\".\" .. msg.questions[1].name, \"%.block%.\") then return Resolvers[2]:resolve(msg, ci) end\nreturn Resolvers[1]:resolve(msg, ci)\nend'''"),
		blockable(func(m *cfgModel, e *cfgElem, q string) bool { return cfgBlocked(q) }))
}

func init() {
	for _, n := range []string{"template", "truncated", "static", "upstream", "replace", "router"} {
		cfgKindOf(n).few = true
	}
}

func cfgKindOf(name string) *cfgKind {
	for i := range cfgKinds {
		if cfgKinds[i].name == name {
			return &cfgKinds[i]
		}
	}
	panic(name)
}

// cfgValid says whether a configuration has to start, must not start, or either.
func cfgValid(elems []*cfgElem) string {
	by := map[string]*cfgElem{}
	for _, e := range elems {
		if by[e.name] != nil {
			return "no: " + e.name + " is defined twice"
		}
		by[e.name] = e
	}
	verdict := "yes"
	for _, e := range elems {
		for _, r := range e.refs {
			if by[r] == nil {
				return fmt.Sprintf("no: %s does not exist", r)
			}
		}
		seen := map[string]bool{}
		var visit func(n string) bool
		visit = func(n string) bool {
			for _, r := range by[n].refs {
				if by[r] == nil {
					continue
				}
				if r == e.name {
					return true
				}
				if !seen[r] {
					seen[r] = true
					if visit(r) {
						return true
					}
				}
			}
			return false
		}
		if visit(e.name) {
			return "no: " + e.name + " depends on itself"
		}
		// The same element twice in a group is not settled.
		if e.kind != "router" && len(e.refs) == 2 && e.refs[0] == e.refs[1] {
			verdict = "either"
		}
	}
	return verdict
}

// cfgEnv runs the program.
type cfgEnv struct {
	c     *C
	bin   string
	dir   string
	ports []int
	mu    sync.Mutex
	stubs map[string]string
	n     int
}

func newCfgEnv(c *C) *cfgEnv {
	self, err := os.Executable()
	if err != nil {
		c.ToolError("%v", err)
		return nil
	}
	bin := filepath.Join(filepath.Dir(self), "routedns")
	if _, err := os.Stat(bin); err != nil {
		c.ToolError("%v", err)
		return nil
	}
	dir, err := os.MkdirTemp("", "vh-config-")
	if err != nil {
		c.ToolError("%v", err)
		return nil
	}
	env := &cfgEnv{c: c, bin: bin, dir: dir, stubs: map[string]string{}}
	// Ports outside of the range used for outgoing connections.
	for p := 10000 + os.Getpid()%1000*8; len(env.ports) < 2; p++ {
		if l, err := net.ListenPacket("udp", fmt.Sprintf("127.0.0.1:%d", p)); err == nil {
			l.Close()
			env.ports = append(env.ports, p)
		}
	}
	return env
}

func (env *cfgEnv) close() { os.RemoveAll(env.dir) }

// stub is the address of an upstream server for an element.
func (env *cfgEnv) stub(name string) string {
	if a := env.stubs[name]; a != "" {
		return a
	}
	pc, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	l, err := net.Listen("tcp", pc.LocalAddr().String())
	if err != nil {
		panic(err)
	}
	h := dns.HandlerFunc(func(w dns.ResponseWriter, q *dns.Msg) {
		a := reply(q, 0)
		a.Answer = rrs(fmt.Sprintf("%s 60 IN TXT %q", q.Question[0].Name, name+":"+q.Question[0].Name))
		w.WriteMsg(a)
	})
	go (&dns.Server{PacketConn: pc, Handler: h}).ActivateAndServe()
	go (&dns.Server{Listener: l, Handler: h}).ActivateAndServe()
	env.stubs[name] = pc.LocalAddr().String()
	return env.stubs[name]
}

func cfgListener(name string, port int, ref string) string {
	return fmt.Sprintf("[listeners.%s]\naddress = \"127.0.0.1:%d\"\nprotocol = \"udp\"\nresolver = %q\n", name, port, ref)
}

// cfgBound says whether someone listens on a port.
func cfgBound(port int) bool {
	b, err := os.ReadFile("/proc/net/udp")
	if err != nil {
		panic(err)
	}
	return bytes.Contains(b, fmt.Appendf(nil, ": 0100007F:%04X ", port))
}

// run starts the program. If it starts, f is called with a function to send a
// query to a listener. The result is what went wrong.
func (env *cfgEnv) run(files []string, order int, f func(ask func(port int, q string) (*dns.Msg, error)) string) (started bool, out string, bad string) {
	var args []string
	for i, s := range files {
		n := filepath.Join(env.dir, fmt.Sprintf("c%d.toml", i))
		if err := os.WriteFile(n, []byte(s), 0o600); err != nil {
			env.c.ToolError("%v", err)
			return false, "", ""
		}
		args = append(args, n)
	}
	cmd := exec.Command(env.bin, args...)
	cmd.Dir = env.dir
	cmd.Env = append(os.Environ(), fmt.Sprintf("VH_MAPORDER=%d", order))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	if err := cmd.Start(); err != nil {
		env.c.ToolError("%v", err)
		return false, "", ""
	}
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	errExit := errors.New("the program has ended")
	isOver := false
	var exit error
	over := func() bool {
		if !isOver {
			select {
			case exit = <-exited:
				isOver = true
			default:
			}
		}
		return isOver
	}
	ask := func(port int, name string) (*dns.Msg, error) {
		for end := time.Now().Add(10 * time.Second); !cfgBound(port); time.Sleep(time.Millisecond) {
			if over() {
				return nil, errExit
			}
			if time.Now().After(end) {
				return nil, errors.New("the listener is not there")
			}
		}
		conn, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", port))
		if err != nil {
			return nil, err
		}
		defer conn.Close()
		q := query(name, dns.TypeTXT)
		q.Id = uint16(env.n)
		env.n++
		b, err := q.Pack()
		if err != nil {
			return nil, err
		}
		if _, err := conn.Write(b); err != nil {
			return nil, err
		}
		buf := make([]byte, 4096)
		for end := time.Now().Add(10 * time.Second); time.Now().Before(end); {
			conn.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
			n, err := conn.Read(buf)
			if err != nil {
				if over() {
					return nil, errExit
				}
				continue
			}
			a := new(dns.Msg)
			if err := a.Unpack(buf[:n]); err != nil {
				return nil, err
			}
			if a.Id == q.Id {
				return a, nil
			}
		}
		return nil, errNone
	}
	for end := time.Now().Add(10 * time.Second); !over(); time.Sleep(time.Millisecond) {
		if started = cfgBound(env.ports[0]); started {
			break
		}
		if time.Now().After(end) {
			bad = "the program neither starts nor ends"
			break
		}
	}
	if started && f != nil {
		bad = f(ask)
		if over() {
			bad = fmt.Sprintf("the program ended: %v (%s)", exit, bad)
		}
	}
	if !over() {
		cmd.Process.Kill()
		exit = <-exited
	} else if bad == "" && !started && exit == nil {
		bad = "the program ended without an error code"
	}
	s := strings.TrimSpace(stderr.String())
	if i := strings.Index(s, "panic:"); i >= 0 {
		bad = "the program crashed: " + strings.SplitN(s[i:], "\n", 2)[0]
	}
	if !started {
		lines := strings.Split(s, "\n")
		out = lines[len(lines)-1]
	}
	return started, out, bad
}

var cfgQueries = []string{"p1.test.", "block.p2.test.", "p3.test.", "block.p4.test."}

// queries compares what a listener answers with the model.
func cfgCompare(m *cfgModel, ref string, port int, ask func(int, string) (*dns.Msg, error)) string {
	for _, q := range cfgQueries {
		want := m.ask(ref, q)
		if want.none {
			return ""
		}
		a, err := ask(port, q)
		if err != nil {
			return fmt.Sprintf("query for %s: %v", q, err)
		}
		got := cfgAnswer{rcode: a.Rcode, tc: a.Truncated}
		for _, r := range a.Answer {
			if t, ok := r.(*dns.TXT); ok {
				got.text += strings.Join(t.Txt, "")
			}
		}
		if got.text != want.text || got.rcode != want.rcode || got.tc != want.tc {
			return fmt.Sprintf("query for %s is answered by %q (rcode %d, truncated %v), expected %q (rcode %d, truncated %v)", q, got.text, got.rcode, got.tc, want.text, want.rcode, want.tc)
		}
	}
	return ""
}

func cfgText(elems []*cfgElem, env *cfgEnv) string {
	var s string
	for _, e := range elems {
		s += cfgKindOf(e.kind).text(e, env)
	}
	return s
}

func cfgDesc(elems []*cfgElem) string {
	var s []string
	for _, e := range elems {
		s = append(s, fmt.Sprintf("%s is %s%v", e.name, e.kind, e.refs))
	}
	return strings.Join(s, ", ")
}

func newCfgModel(elems []*cfgElem) *cfgModel {
	m := &cfgModel{elems: map[string]*cfgElem{}, count: map[string]int{}}
	for _, e := range elems {
		m.elems[e.name] = e
	}
	return m
}

// judge runs one configuration with a listener for ref.
func (env *cfgEnv) judge(elems []*cfgElem, ref string, order int, files []string) {
	c := env.c
	c.Step()
	verdict := cfgValid(elems)
	if verdict == "yes" || verdict == "either" {
		if !slices.ContainsFunc(elems, func(e *cfgElem) bool { return e.name == ref }) {
			verdict = "no: the listener's element does not exist"
		}
	}
	started, out, bad := env.run(files, order, func(ask func(int, string) (*dns.Msg, error)) string {
		if strings.HasPrefix(verdict, "no") {
			return ""
		}
		return cfgCompare(newCfgModel(elems), ref, env.ports[0], ask)
	})
	switch {
	case bad != "":
		c.Violation("%s", bad)
	case started && strings.HasPrefix(verdict, "no"):
		c.Violation("starts although it should not (%s)", verdict)
	case !started && verdict == "yes":
		c.Violation("does not start: %s", out)
	}
	c.State("%s %v %v", verdict, started, len(elems))
}

// cfgOptions are all definitions of an element of some kinds.
func cfgOptions(name string, names []string, kinds []cfgKind) []*cfgElem {
	var out []*cfgElem
	for _, k := range kinds {
		tuples(len(names), k.refs, func(t []int) {
			e := &cfgElem{name: name, kind: k.name}
			for _, x := range t {
				e.refs = append(e.refs, names[x])
			}
			out = append(out, e)
		})
	}
	return out
}

// p26Pairs has two elements of every kind.
func p26Pairs(part, parts, orders int, all bool) func(*C) {
	return func(c *C) {
		env := newCfgEnv(c)
		if env == nil {
			return
		}
		defer env.close()
		names := []string{"a", "b", "m"}
		i := 0
		for _, a := range cfgOptions("a", names, cfgKinds) {
			for _, b := range cfgOptions("b", names, cfgKinds) {
				few := func(e *cfgElem) bool { return cfgKindOf(e.kind).few }
				if !all && !few(a) && !few(b) {
					continue
				}
				// The second element alone was seen as the first.
				if !slices.Contains(a.refs, "b") && b.kind != "template" && !slices.Contains(b.refs, "a") {
					continue
				}
				if i++; i%parts != part || c.Full() {
					continue
				}
				elems := []*cfgElem{a, b}
				for o := 0; o < orders; o++ {
					c.Case(fmt.Sprintf("%s, map order %d", cfgDesc(elems), o))
					env.judge(elems, "a", o, []string{cfgListener("l", env.ports[0], "a") + cfgText(elems, env)})
				}
			}
		}
	}
}

// p26Triples has all graphs of three elements.
func p26Triples(part, parts int, orders []int) func(*C) {
	return func(c *C) {
		env := newCfgEnv(c)
		if env == nil {
			return
		}
		defer env.close()
		names := []string{"a", "b", "c", "m"}
		i := 0
		for _, x := range cfgOptions("a", names, cfgKinds[:3]) {
			for _, y := range cfgOptions("b", names, cfgKinds[:3]) {
				for _, z := range cfgOptions("c", names, cfgKinds[:3]) {
					if i++; i%parts != part || c.Full() {
						continue
					}
					elems := []*cfgElem{x, y, z}
					for _, o := range orders {
						c.Case(fmt.Sprintf("%s, map order %d", cfgDesc(elems), o))
						env.judge(elems, "a", o, []string{cfgListener("l", env.ports[0], "a") + cfgText(elems, env)})
					}
				}
			}
		}
	}
}

// p26Mixed has every kind of element that needs two others on top of two
// others, under all names.
func p26Mixed(part, parts int, orders []int) func(*C) {
	return func(c *C) {
		env := newCfgEnv(c)
		if env == nil {
			return
		}
		defer env.close()
		i := 0
		permutations(3, func(p []int) {
			names := []string{[]string{"a", "b", "c"}[p[0]], []string{"a", "b", "c"}[p[1]], []string{"a", "b", "c"}[p[2]]}
			for _, k := range cfgKinds {
				if k.refs != 2 {
					continue
				}
				below := cfgOptions(names[1], []string{names[2]}, cfgKinds)
				for _, x := range below {
					if !cfgKindOf(x.kind).few {
						continue
					}
					for _, y := range cfgOptions(names[2], names[:1], cfgKinds) { // also with a way back
						if !cfgKindOf(y.kind).few {
							continue
						}
						if i++; i%parts != part || c.Full() {
							continue
						}
						elems := []*cfgElem{{names[0], k.name, names[1:]}, x, y}
						for _, o := range orders {
							c.Case(fmt.Sprintf("%s, map order %d", cfgDesc(elems), o))
							env.judge(elems, names[0], o, []string{cfgListener("l", env.ports[0], names[0]) + cfgText(elems, env)})
						}
					}
				}
			}
		})
	}
}

// p26Layout has the same elements in every order in every number of files, the
// same name in several places, and every listener.
func p26Layout(c *C) {
	env := newCfgEnv(c)
	if env == nil {
		return
	}
	defer env.close()
	elems := []*cfgElem{{"a", "router", []string{"b", "c"}}, {"b", "replace", []string{"c"}}, {"c", "upstream", nil}}
	sections := []string{cfgListener("l", env.ports[0], "a")}
	for _, e := range elems {
		sections = append(sections, cfgKindOf(e.kind).text(e, env))
	}
	permutations(len(sections), func(p []int) {
		for cuts := 0; cuts < 1<<(len(sections)-1); cuts++ {
			files := []string{""}
			for i, s := range p {
				if i > 0 && cuts&(1<<(i-1)) != 0 {
					files[len(files)-1] = strings.TrimSuffix(files[len(files)-1], "\n") // no newline at the end of the file
					files = append(files, "")
				}
				files[len(files)-1] += sections[s]
			}
			if c.Full() {
				return
			}
			c.Case(fmt.Sprintf("sections in order %v, files %b", p, cuts))
			env.judge(elems, "a", cuts%6, files)
		}
	})
	// Every reference of a listener, to every kind of element.
	for _, k := range []string{"router", "replace", "upstream", "template"} {
		for _, ref := range []string{"a", "b", "c", "m", "l", ""} {
			elems := []*cfgElem{{"a", k, []string{"b", "c"}[:cfgKindOf(k).refs]}, {"b", "upstream", nil}, {"c", "template", nil}}
			c.Case(fmt.Sprintf("%s, listener for %q", cfgDesc(elems), ref))
			env.judge(elems, ref, 0, []string{cfgListener("l", env.ports[0], ref) + cfgText(elems, env)})
		}
	}
	// Two listeners.
	for _, r1 := range []string{"a", "b", "c", "m"} {
		for _, r2 := range []string{"a", "b", "c", "m"} {
			for order := 0; order < 2; order++ {
				c.Case(fmt.Sprintf("%s, listeners for %s and %s, map order %d", cfgDesc(elems), r1, r2, order))
				c.Step()
				ok := r1 != "m" && r2 != "m"
				started, out, bad := env.run([]string{cfgListener("l", env.ports[0], r1) + cfgListener("k", env.ports[1], r2) + cfgText(elems, env)}, order, func(ask func(int, string) (*dns.Msg, error)) string {
					if !ok {
						return ""
					}
					m := newCfgModel(elems)
					if bad := cfgCompare(m, r1, env.ports[0], ask); bad != "" {
						return bad
					}
					return cfgCompare(m, r2, env.ports[1], ask)
				})
				if bad != "" {
					c.Violation("%s", bad)
				} else if started != ok {
					c.Violation("started: %v, expected %v: %s", started, ok, out)
				}
			}
		}
	}
	// The same name twice, in one file or two.
	for _, k1 := range cfgKinds {
		for _, k2 := range cfgKinds {
			for two := 0; two < 2; two++ {
				if c.Full() {
					return
				}
				one := &cfgElem{"a", k1.name, []string{"b", "b"}[:k1.refs]}
				other := &cfgElem{"a", k2.name, []string{"b", "b"}[:k2.refs]}
				if k1.refs == 2 && k1.name != "router" || k2.refs == 2 && k2.name != "router" {
					continue
				}
				elems := []*cfgElem{{"b", "template", nil}, one, other}
				files := []string{cfgListener("l", env.ports[0], "a") + cfgText(elems[:2], env), cfgText(elems[2:], env)}
				if two == 0 {
					files = []string{files[0] + files[1]}
				}
				c.Case(fmt.Sprintf("%s, in %d files", cfgDesc(elems), len(files)))
				env.judge(elems, "a", two, files)
			}
		}
	}
	// The same listener twice.
	for two := 0; two < 2; two++ {
		files := []string{cfgListener("l", env.ports[0], "a") + cfgText(elems, env), cfgListener("l", env.ports[1], "b")}
		if two == 0 {
			files = []string{files[0] + files[1]}
		}
		c.Case(fmt.Sprintf("a listener twice, in %d files", len(files)))
		c.Step()
		if started, _, bad := env.run(files, 0, nil); started || bad != "" {
			c.Violation("started: %v, %s", started, bad)
		}
	}
	// Nothing where something is needed.
	for _, k := range cfgKinds {
		if k.refs == 0 || k.name == "router" {
			continue
		}
		for _, s := range []string{"", "resolvers = []\n"} {
			for order := 0; order < 2; order++ {
				text := k.text(&cfgElem{"a", k.name, []string{"b", "b"}[:k.refs]}, env)
				var keep []string
				for _, l := range strings.Split(text, "\n") {
					if !strings.HasPrefix(l, "resolvers") {
						keep = append(keep, l)
					}
				}
				c.Case(fmt.Sprintf("%s without resolvers (%q)", k.name, s))
				c.Step()
				files := []string{cfgListener("l", env.ports[0], "a") + strings.Join(keep, "\n") + s + cfgText([]*cfgElem{{"b", "template", nil}}, env)}
				started, _, bad := env.run(files, order, nil)
				if bad != "" {
					c.Violation("%s", bad)
				} else if started && k.name != "lua" {
					c.Violation("starts although it should not")
				}
			}
		}
	}
	for _, s := range []string{"[groups.a]\ntype = \"no-such-type\"\nresolvers = [\"b\"]\n", "[groups.a]\nresolvers = [\"b\"]\n", "[resolvers.a]\naddress = \"127.0.0.1:53\"\nprotocol = \"no-such\"\n",
		"[resolvers.a]\naddress = \"127.0.0.1:53\"\n", "[routers.a]\nroutes = [{name = \"a(\", resolver = \"b\"}]\n", "[routers.a]\nroutes = [{name = \"a\"}]\n", "[groups.a\n", "[groups.a]\ntype = 1\n"} {
		c.Case(s)
		c.Step()
		started, _, bad := env.run([]string{cfgListener("l", env.ports[0], "a") + cfgText([]*cfgElem{{"b", "template", nil}}, env) + s}, 0, nil)
		if bad != "" {
			c.Violation("%s", bad)
		} else if started {
			c.Violation("starts although it should not")
		}
	}
}

func init() {
	register(&Check{
		ID:          "P26",
		Level:       "model_checking",
		Rule:        "the program is run with every configuration within the bounds and answers queries along the way the model predicts, or refuses to start; a state is a distinct verdict",
		Assumptions: []string{"the same element twice in one group may be accepted or refused", "maps are iterated in the same relative order everywhere", "the types fastest, load-balance and random have one resolver; syslog, query-log and dnssec-validator are not looked into"},
		Scenarios: func(tier string) []Scenario {
			var out []Scenario
			orders, perms := 1, []int{0, 5}
			if tier == "thorough" {
				orders, perms = 2, []int{0, 1, 2, 3, 4, 5}
			}
			out = append(out, Scenario{Name: "layout", Run: p26Layout})
			for i := 0; i < 16; i++ {
				out = append(out, Scenario{Name: fmt.Sprintf("pairs-%d", i), Run: p26Pairs(i, 16, orders, tier == "thorough")})
				out = append(out, Scenario{Name: fmt.Sprintf("mixed-%d", i), Run: p26Mixed(i, 16, perms)})
				out = append(out, Scenario{Name: fmt.Sprintf("triples-%d", i), Run: p26Triples(i, 16, perms)})
			}
			return out
		},
	})
}
