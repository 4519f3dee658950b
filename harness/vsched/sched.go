// Package vsched is a controlled scheduler with a virtual clock. Instrumented
// code calls it instead of the go statement, channel operations, package sync,
// the clock and the random number generator. Outside of an execution every
// call passes through to the real thing.
package vsched

import (
	"context"
	"fmt"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Config bounds one exploration.
type Config struct {
	Deviations int           // pre-emptions and early clock jumps allowed per execution
	TimeDev    bool          // the clock may jump to the next timer at any point (costs a deviation)
	SyncOnly   bool          // scheduling points only at synchronisation operations
	Fine       bool          // scheduling points also at accesses to messages
	MapOrder   bool          // enumerate map iteration orders
	RandFixed  bool          // random numbers are fixed instead of enumerated
	MaxSteps   int           // per execution, exceeding it is reported as non-termination
	Horizon    time.Duration // virtual time after which blocked drivers are reported as hung
	Start      time.Time
	Serial     bool // no scheduling choices at all, only those of the driver
	Delay      bool // delay bounding: when a thread blocks, the next one in turn runs; any other choice costs a deviation
	Shards     int  // explore only the executions whose first deviation falls to Shard
	Shard      int
}

type choice struct {
	N, Idx, DevFrom int
	Label           string
}

// Thread is a thread of an execution.
type Thread = thread

type thread struct {
	id     int
	name   string
	wake   chan struct{}
	exited chan struct{}
	ready  func() bool
	done   bool
	killed bool
	where  string
	vc     vclock
}

// Exec is one execution under the control of the scheduler.
type Exec struct {
	cfg     Config
	dial    func(context.Context, string, string) (net.Conn, error)
	threads []*thread
	cur     *thread
	now     int64
	start   int64
	lastAct int64 // virtual time of last harness progress
	timers  []*vtimer
	tseq    int
	chans   map[uintptr]*chanState
	prefix  []choice
	trace   []choice
	used    int
	steps   int64
	ending  bool
	fin     chan struct{}

	Violation string
	outcome   []string
	log       []string
	keepLog   bool
	toolErr   string
	devSpots  int
	quiet     bool
	fds       []int
	maps      map[uintptr]*mapState
	atomics   vclock
}

var current atomic.Pointer[Exec]

func active() *Exec { return current.Load() }

// Active reports whether an execution is running.
func Active() bool { return current.Load() != nil }

func goexit() { runtime.Goexit() }

// ---------------------------------------------------------------- choices

func (e *Exec) choose(n, devFrom int, label string) int {
	if n <= 1 {
		return 0
	}
	i := len(e.trace)
	idx := 0
	if i < len(e.prefix) {
		p := e.prefix[i]
		if p.N != n || p.DevFrom != devFrom || p.Label != label {
			e.toolErr = fmt.Sprintf("replay diverged at choice %d: expected %s/%d/%d, got %s/%d/%d", i, p.Label, p.N, p.DevFrom, label, n, devFrom)
			e.finish()
			goexit()
		}
		idx = p.Idx
	}
	e.trace = append(e.trace, choice{N: n, Idx: idx, DevFrom: devFrom, Label: label})
	if idx >= devFrom {
		e.used++
	}
	return idx
}

// Choose enumerates 0..n-1.
func (e *Exec) Choose(n int, label string) int {
	if e.ending {
		return 0
	}
	i := e.choose(n, n, "c:"+label)
	if e.keepLog {
		e.logf("choose %s = %d/%d", label, i, n)
	}
	return i
}

// ---------------------------------------------------------------- scheduling

func (e *Exec) enabledOthers() []*thread {
	var out []*thread
	for _, t := range e.threads {
		if t == e.cur || t.done {
			continue
		}
		if t.ready == nil || t.ready() {
			out = append(out, t)
		}
	}
	return out
}

func (e *Exec) step() {
	e.steps++
	progress.Add(1)
	if e.cfg.MaxSteps > 0 && e.steps > int64(e.cfg.MaxSteps) {
		e.fail("no termination after " + fmt.Sprint(e.cfg.MaxSteps) + " steps")
	}
}

// point is a scheduling point at which the current thread can continue.
func (e *Exec) point(label string) {
	if e.ending {
		return
	}
	e.step()
	if e.used >= e.cfg.Deviations || e.quiet {
		return
	}
	for {
		others := e.enabledOthers()
		n := 1 + len(others)
		clock := e.cfg.TimeDev && e.nextTimer() != nil
		if clock {
			n++
		}
		if n == 1 {
			return
		}
		e.devSpots++
		i := e.choose(n, 1, "p:"+label)
		if i == 0 {
			return
		}
		if clock && i == n-1 {
			e.advance()
			if e.used >= e.cfg.Deviations {
				return
			}
			continue
		}
		if e.keepLog {
			e.logf("pre-empt %s (%s) -> %s", e.cur.name, where(), others[i-1].name)
		}
		e.switchFrom(e.cur, others[i-1])
		return
	}
}

func where() string {
	var pcs [16]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "internal/vsched") && f.File != "" {
			return fmt.Sprintf("%s:%d", f.File[strings.LastIndex(f.File, "/")+1:], f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// switchFrom hands the token to next and waits until it comes back.
func (e *Exec) switchFrom(me, next *thread) {
	if me == next {
		return
	}
	e.cur = next
	next.wake <- struct{}{}
	<-me.wake
	if me.killed {
		goexit()
	}
}

// block waits until ready reports true, running other threads meanwhile.
func (e *Exec) block(what string, ready func() bool) {
	if e.ending {
		goexit()
	}
	me := e.cur
	me.ready = ready
	me.where = what
	next := e.pickNext()
	e.switchFrom(me, next)
	me.ready = nil
	me.where = ""
}

// pickNext chooses who runs next when the current thread cannot.
func (e *Exec) pickNext() *thread {
	for {
		e.step()
		var en []*thread
		for _, t := range e.threads {
			if !t.done && (t.ready == nil || t.ready()) {
				en = append(en, t)
			}
		}
		if len(en) == 0 {
			nt := e.nextTimer()
			if nt == nil {
				e.fail("deadlock: " + e.describe())
			}
			if e.cfg.Horizon > 0 && nt.when-e.lastAct > int64(e.cfg.Horizon) {
				e.fail("hang: no progress within " + e.cfg.Horizon.String() + " of virtual time: " + e.describe())
			}
			e.advance()
			continue
		}
		if e.cfg.Serial || e.quiet {
			return en[0]
		}
		n := len(en)
		free := n
		if e.cfg.Delay {
			k := 0
			for k < n && en[k].id <= e.cur.id {
				k++
			}
			en = append(append([]*thread(nil), en[k:]...), en[:k]...)
			if e.used >= e.cfg.Deviations {
				return en[0]
			}
			free = 1
		}
		clock := e.cfg.TimeDev && e.used < e.cfg.Deviations && e.nextTimer() != nil
		if clock {
			n++
		}
		i := e.choose(n, free, "b")
		if i == len(en) {
			e.advance()
			continue
		}
		return en[i]
	}
}

func (e *Exec) describe() string {
	var s []string
	for _, t := range e.threads {
		if !t.done && t.ready != nil {
			s = append(s, t.name+" waits for "+t.where)
		}
	}
	return strings.Join(s, "; ")
}

// fail records a violation and ends the execution.
func (e *Exec) fail(msg string) {
	if e.Violation == "" && !e.ending {
		e.Violation = msg
		if e.keepLog {
			e.logf("VIOLATION %s", msg)
		}
	}
	e.finish()
	goexit()
}

func (e *Exec) finish() {
	if !e.ending {
		e.ending = true
		close(e.fin)
	}
}

// Fail reports a violation of the property.
func (e *Exec) Fail(format string, args ...any) {
	if e.ending {
		return
	}
	e.fail(fmt.Sprintf(format, args...))
}

// Outcome adds to the description of what this execution observed.
func (e *Exec) Outcome(format string, args ...any) {
	e.outcome = append(e.outcome, fmt.Sprintf(format, args...))
}

// Logf adds to the replay log.
func (e *Exec) Logf(format string, args ...any) {
	if e.keepLog {
		e.logf(format, args...)
	}
}

func (e *Exec) logf(format string, args ...any) {
	name := "-"
	if e.cur != nil {
		name = e.cur.name
	}
	e.log = append(e.log, fmt.Sprintf("%8.3fs %-10s %s", float64(e.now-e.start)/1e9, name, fmt.Sprintf(format, args...)))
}

func (e *Exec) spawn(name string, f func()) *thread {
	t := &thread{id: len(e.threads), name: name, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	if t.name == "" {
		t.name = fmt.Sprintf("go%d", t.id)
	}
	e.threads = append(e.threads, t)
	if e.cur != nil {
		e.release(&t.vc)
	}
	go func() {
		defer close(t.exited)
		<-t.wake
		if t.killed {
			return
		}
		normal := false
		defer func() {
			if normal {
				return
			}
			if r := recover(); r != nil {
				if !e.ending {
					e.Violation = fmt.Sprintf("panic: %v", r)
					if e.keepLog {
						e.logf("panic: %v\n%s", r, debug.Stack())
					}
				}
			}
			// Goexit or panic: the execution is over, except for a thread
			// that called runtime.Goexit on its own.
			t.done = true
			if !e.ending && e.Violation != "" {
				e.finish()
				return
			}
			if e.ending {
				return
			}
			e.exit(t)
		}()
		f()
		normal = true
		t.done = true
		if e.ending {
			return
		}
		e.exit(t)
	}()
	return t
}

// exit passes the token on from a finished thread.
func (e *Exec) exit(t *thread) {
	next := e.pickNext()
	e.cur = next
	next.wake <- struct{}{}
}

// Go starts a driver thread.
func (e *Exec) Go(name string, f func()) *thread {
	if e.ending {
		return &thread{done: true}
	}
	return e.spawn(name, f)
}

// Join waits until the given threads have finished.
func (e *Exec) Join(ts ...*thread) {
	e.block("join", func() bool {
		for _, t := range ts {
			if !t.done {
				return false
			}
		}
		return true
	})
	e.acquireAll()
}

// Wait blocks the calling thread until cond holds.
func (e *Exec) Wait(what string, cond func() bool) {
	e.block(what, cond)
	e.lastAct = e.now
	e.acquireAll()
}

// Point is an explicit scheduling point.
func (e *Exec) Point() { e.point("h") }

// Yield gives every other thread the chance to run until it blocks: the caller
// continues when nothing else is enabled.
func (e *Exec) Settle() {
	me := e.cur
	e.block("settle", func() bool {
		for _, t := range e.threads {
			if t == me || t.done || t.where == "settle" {
				continue
			}
			if t.ready == nil || t.ready() {
				return false
			}
		}
		return true
	})
	e.acquireAll()
}

// Now returns the virtual time elapsed since the start.
func (e *Exec) Elapsed() time.Duration { return time.Duration(e.now - e.start) }

// Advance moves the clock forward by d, firing timers and letting woken
// threads run until they block, in order.
func (e *Exec) Advance(d time.Duration) {
	target := e.now + int64(d)
	for {
		e.Settle()
		nt := e.nextTimer()
		if nt == nil || nt.when > target {
			break
		}
		e.advance()
	}
	e.now = target
	e.lastAct = e.now
	e.Settle()
}

// SetClock moves the clock without firing timers first (clock step).
func (e *Exec) StepClock(d time.Duration) { e.now += int64(d) }

// Instant registers a point in time the clock deviation can stop at.
func (e *Exec) Instant(d time.Duration) {
	e.addTimer(&vtimer{when: e.now + int64(d), fire: func() {}})
}

// Spent returns the number of deviations used so far.
func (e *Exec) Spent() int { return e.used }

// Threads alive, for leak reporting.
func (e *Exec) Alive() int {
	n := 0
	for _, t := range e.threads {
		if !t.done {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------- running

var progress atomic.Int64

// watchdog ends the process if an execution makes no progress: an
// instrumented thread blocked in code the scheduler does not control.
func init() {
	go func() {
		last := int64(-1)
		idle := 0
		for {
			time.Sleep(time.Second)
			if current.Load() == nil {
				idle = 0
				continue
			}
			p := progress.Load()
			if p == last {
				idle++
			} else {
				idle = 0
			}
			last = p
			if idle >= 60 {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "TOOL-ERROR: execution stuck outside of the scheduler\n%s\n", buf)
				os.Exit(2)
			}
		}
	}()
}

func runOnce(cfg Config, prefix []choice, keepLog bool, body func(*Exec)) *Exec {
	if cfg.Start.IsZero() {
		cfg.Start = time.Date(2026, 1, 7, 12, 0, 0, 0, time.UTC)
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 2_000_000
	}
	if cfg.Horizon == 0 {
		cfg.Horizon = time.Hour
	}
	e := &Exec{cfg: cfg, prefix: prefix, chans: map[uintptr]*chanState{}, fin: make(chan struct{}), keepLog: keepLog}
	e.now = cfg.Start.UnixNano()
	e.start = e.now
	e.lastAct = e.now
	if !current.CompareAndSwap(nil, e) {
		panic("nested execution")
	}
	main := e.spawn("main", func() {
		body(e)
		e.finish()
	})
	e.cur = main
	main.wake <- struct{}{}
	<-e.fin
	// Kill what is left, one at a time.
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		select {
		case <-t.exited:
			continue
		default:
		}
		t.killed = true
		select {
		case t.wake <- struct{}{}:
		default:
		}
		select {
		case <-t.exited:
		case <-time.After(60 * time.Second):
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "TOOL-ERROR: thread %s does not end\n%s\n", t.name, buf)
			os.Exit(2)
		}
	}
	e.closeFiles()
	current.Store(nil)
	return e
}

// Result of an exploration.
type Result struct {
	Executions  int64            `json:"executions"`
	Steps       int64            `json:"steps"`
	ChoiceNodes int64            `json:"choice_nodes"`
	MaxDepth    int              `json:"max_depth"`
	Outcomes    map[string]int64 `json:"outcomes"`
	Bound       int              `json:"bound"`
	Complete    bool             `json:"complete"`
	Violation   string           `json:"violation,omitempty"`
	Choices     []int            `json:"choices,omitempty"`
	Log         []string         `json:"log,omitempty"`
	ToolError   string           `json:"tool_error,omitempty"`
}

// Explore enumerates all executions of body within the bounds of cfg.
func Explore(cfg Config, deadline time.Time, body func(*Exec)) Result {
	r := Result{Outcomes: map[string]int64{}, Bound: cfg.Deviations}
	var prefix []choice
	// Warm-up: process-wide state that is only set up once.
	runOnce(cfg, nil, false, body)
	for {
		e := runOnce(cfg, prefix, false, body)
		if cfg.Shard == 0 || e.used > 0 {
			r.Executions++
			r.Steps += e.steps
		}
		if len(e.trace) > r.MaxDepth {
			r.MaxDepth = len(e.trace)
		}
		r.ChoiceNodes += int64(len(e.trace) - len(prefix))
		if e.toolErr != "" {
			r.ToolError = e.toolErr
			return r
		}
		if e.Violation != "" {
			r.Violation = e.Violation
			for _, c := range e.trace {
				r.Choices = append(r.Choices, c.Idx)
			}
			// Confirm by replaying.
			full := e.trace
			for i := 0; i < 5; i++ {
				e2 := runOnce(cfg, full, true, body)
				if e2.toolErr != "" || e2.Violation == "" {
					r.ToolError = fmt.Sprintf("violation %q did not replay: %q %s", e.Violation, e2.Violation, e2.toolErr)
					r.Violation = ""
					return r
				}
				r.Log = e2.log
			}
			return r
		}
		o := strings.Join(e.outcome, ",")
		if len(r.Outcomes) < 20000 || r.Outcomes[o] > 0 {
			r.Outcomes[o]++
		}
		// Next prefix: the deepest choice that has an alternative left.
		prefix = e.trace
		for len(prefix) > 0 && exhausted(cfg, prefix) {
			prefix = prefix[:len(prefix)-1]
		}
		if len(prefix) == 0 {
			r.Complete = true
			return r
		}
		prefix = append([]choice(nil), prefix...)
		prefix[len(prefix)-1].Idx++
		if !deadline.IsZero() && time.Now().After(deadline) {
			return r
		}
	}
}

// exhausted reports whether the last choice of the prefix has no alternative
// left for this shard.
func exhausted(cfg Config, prefix []choice) bool {
	last := prefix[len(prefix)-1]
	if last.Idx+1 >= last.N {
		return true
	}
	if cfg.Shards > 1 && last.Idx+1 >= last.DevFrom && len(prefix)%cfg.Shards != cfg.Shard {
		for _, c := range prefix[:len(prefix)-1] {
			if c.Idx >= c.DevFrom {
				return false
			}
		}
		return true
	}
	return false
}

// Replay runs one execution with the given choice indices.
func Replay(cfg Config, choices []int, body func(*Exec)) (string, []string) {
	// Indices only: rebuild the records by running with growing prefixes.
	var prefix []choice
	for {
		e := runOnce(cfg, prefix, true, body)
		if len(prefix) >= len(choices) || e.toolErr != "" {
			return e.Violation + e.toolErr, e.log
		}
		// find first position where the default differs from the request
		i := len(prefix)
		for i < len(e.trace) && i < len(choices) && e.trace[i].Idx == choices[i] {
			i++
		}
		if i >= len(choices) || i >= len(e.trace) {
			return e.Violation, e.log
		}
		prefix = append([]choice(nil), e.trace[:i+1]...)
		prefix[i].Idx = choices[i]
	}
}

// RunSequential runs body in a single default execution (no deviations), for
// sequential histories under the virtual clock.
func RunSequential(cfg Config, body func(*Exec)) (violation string, toolErr string) {
	e := runOnce(cfg, nil, false, body)
	return e.Violation, e.toolErr
}

func sortTimers(ts []*vtimer) {
	sort.SliceStable(ts, func(i, j int) bool {
		if ts[i].when != ts[j].when {
			return ts[i].when < ts[j].when
		}
		return ts[i].seq < ts[j].seq
	})
}

// Pause is a scheduling point at which every enabled thread may continue, free
// of charge: the calling thread models something that takes time.
func (e *Exec) Pause() {
	if e.ending {
		return
	}
	e.block("pause", func() bool { return true })
}

// Quiet turns scheduling choices off and on, for the set-up and the final
// probing of a scenario.
func (e *Exec) Quiet(on bool) { e.quiet = on }

// Seq returns a number that grows with every scheduling step, for ordering
// events in monitors.
func (e *Exec) Seq() int64 { return e.steps }
