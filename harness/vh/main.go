// Command vh runs the model-checking drivers. It is compiled into the module
// under test through a build overlay.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
)

// Scenario is one independently explored space.
type Scenario struct {
	Name string
	// Schedule exploration: all executions of Body within Cfg.
	Cfg  vsched.Config
	Body func(*vsched.Exec)
	// Sequential exploration: Run enumerates cases itself.
	Run func(*C)
	// The death of the process is a violation of the property.
	CrashIsViolation bool
	Weight           int
}

// Check decides one property.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Scenarios   func(tier string) []Scenario
}

var checks = map[string]*Check{}

// scratch directories are removed when a worker ends.
var scratch []string

func register(c *Check) { checks[c.ID] = c }

// sharded splits a schedule scenario into n parts.
func sharded(n int, s Scenario) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		t := s
		t.Name = fmt.Sprintf("%s#%d", s.Name, k)
		t.Cfg.Shards = n
		t.Cfg.Shard = k
		out = append(out, t)
	}
	return out
}

// C is the context of a sequential scenario.
type C struct {
	Tier    string
	res     *workerResult
	states  map[uint64]struct{}
	cur     string
	nextLog time.Time
}

type viol struct {
	Case string `json:"case"`
	Msg  string `json:"msg"`
}

type workerResult struct {
	Scenario   string   `json:"scenario"`
	Cases      int64    `json:"cases"`
	Steps      int64    `json:"steps"`
	States     int64    `json:"states"`
	StateSum   []uint64 `json:"state_sum,omitempty"`
	Samples    []string `json:"samples,omitempty"`
	Violations []viol   `json:"violations,omitempty"`
	ToolError  string   `json:"tool_error,omitempty"`
	Complete   bool     `json:"complete"`
	Choices    []int    `json:"choices,omitempty"`
	Log        []string `json:"log,omitempty"`
	Bound      int      `json:"bound"`
	Sched      bool     `json:"sched"`
	WallMS     int64    `json:"wall_ms"`
	MaxDepth   int      `json:"max_depth"`
}

// Case announces the next case, identified by desc.
func (c *C) Case(desc string) {
	c.cur = desc
	c.res.Cases++
	if len(c.res.Samples) < 2 {
		c.res.Samples = append(c.res.Samples, desc)
	}
}

// Step counts operations executed on the implementation.
func (c *C) Step() { c.res.Steps++ }

// State records an observed state.
func (c *C) State(format string, args ...any) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, args...)
	c.states[h.Sum64()] = struct{}{}
}

// Violation reports that the current case breaks the property.
func (c *C) Violation(format string, args ...any) {
	if len(c.res.Violations) < 5 {
		c.res.Violations = append(c.res.Violations, viol{c.cur, fmt.Sprintf(format, args...)})
	}
}

func (c *C) ToolError(format string, args ...any) {
	if c.res.ToolError == "" {
		c.res.ToolError = fmt.Sprintf(format, args...)
	}
}

// Full reports whether enough violations were collected.
func (c *C) Full() bool { return len(c.res.Violations) >= 5 || c.res.ToolError != "" }

// Exec runs body as a sequential execution under the virtual clock.
func (c *C) Exec(cfg vsched.Config, body func(e *vsched.Exec)) {
	v, te := vsched.RunSequential(cfg, body)
	if te != "" {
		c.ToolError("%s", te)
	}
	if v != "" {
		c.Violation("%s", v)
	}
}

// Guard runs f and reports a panic as a violation.
func (c *C) Guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			c.Violation("panic: %v at %s", r, panicSite(st))
		}
	}()
	f()
}

func panicSite(stack string) string {
	re := regexp.MustCompile(`(?m)^\s+(\S*/(?:repo|src)/\S+\.go:\d+)`)
	for _, m := range re.FindAllStringSubmatch(stack, -1) {
		if !strings.Contains(m[1], "/harness/") && !strings.Contains(m[1], "/go1.") && !strings.Contains(m[1], "internal/v") {
			return m[1]
		}
	}
	return "?"
}

func runScenario(s Scenario, tier string, deadline time.Time) *workerResult {
	start := time.Now()
	res := &workerResult{Scenario: s.Name}
	if s.Body != nil {
		res.Sched = true
		var r vsched.Result
		b0 := 0
		if s.Cfg.Shards > 1 {
			b0 = s.Cfg.Deviations
		}
		for b := b0; b <= s.Cfg.Deviations; b++ {
			// Smaller bounds first: short counterexamples, and a complete
			// smaller space if time runs out.
			cfg := s.Cfg
			cfg.Deviations = b
			rb := vsched.Explore(cfg, deadline, s.Body)
			if !rb.Complete && rb.Violation == "" && rb.ToolError == "" && b > b0 {
				r.Complete = false
				break
			}
			r = rb
			if !r.Complete {
				break
			}
		}
		res.Cases = r.Executions
		res.Steps = r.Steps
		res.Complete = r.Complete
		res.Bound = r.Bound
		res.ToolError = r.ToolError
		res.MaxDepth = r.MaxDepth
		for o := range r.Outcomes {
			h := fnv.New64a()
			io.WriteString(h, o)
			res.StateSum = append(res.StateSum, h.Sum64())
			if len(res.Samples) < 1 {
				res.Samples = append(res.Samples, s.Name+": "+o)
			}
		}
		if r.Violation != "" {
			res.Violations = append(res.Violations, viol{s.Name, r.Violation})
			res.Choices = r.Choices
			res.Log = r.Log
		}
	} else {
		c := &C{Tier: tier, res: res, states: map[uint64]struct{}{}}
		s.Run(c)
		for h := range c.states {
			res.StateSum = append(res.StateSum, h)
		}
		res.Complete = true
	}
	res.WallMS = time.Since(start).Milliseconds()
	return res
}

// ---------------------------------------------------------------- worker

func worker(chk *Check, tier string, deadline time.Time) {
	byName := map[string]Scenario{}
	for _, s := range chk.Scenarios(tier) {
		byName[s.Name] = s
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<20)
	// Results go to the original stdout; anything the code under test prints
	// is diverted.
	out := os.Stdout
	os.Stdout = os.Stderr
	w := bufio.NewWriter(out)
	for in.Scan() {
		s, ok := byName[in.Text()]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown scenario", in.Text())
			os.Exit(2)
		}
		res := runScenario(s, tier, deadline)
		json.NewEncoder(w).Encode(res)
		w.Flush()
	}
}

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<19 {
		t.b = t.b[len(t.b)-1<<18:]
	}
	return len(p), nil
}

func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func startProc(id, tier string, deadline time.Time) (*proc, error) {
	cmd := exec.Command(os.Args[0], "-prop", id, "-tier", tier, "-worker", "-deadline", strconv.FormatInt(deadline.Unix(), 10))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	t := &tailBuf{}
	cmd.Stderr = t
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd, in, bufio.NewReaderSize(out, 1<<20), t}, nil
}

func dispatch(chk *Check, tier string, scs []Scenario, deadline time.Time, par int) []*workerResult {
	sort.SliceStable(scs, func(i, j int) bool { return scs[i].Weight > scs[j].Weight })
	var (
		mu   sync.Mutex
		next int
		out  = make([]*workerResult, len(scs))
		wg   sync.WaitGroup
	)
	if par > len(scs) {
		par = len(scs)
	}
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(scs) {
					if p != nil {
						p.in.Close()
						p.cmd.Wait()
					}
					return
				}
				s := scs[i]
				if p == nil {
					var err error
					if p, err = startProc(chk.ID, tier, deadline); err != nil {
						out[i] = &workerResult{Scenario: s.Name, ToolError: err.Error()}
						continue
					}
				}
				fmt.Fprintln(p.in, s.Name)
				line, err := p.out.ReadBytes('\n')
				res := &workerResult{}
				if err == nil {
					err = json.Unmarshal(line, res)
				}
				if err != nil {
					p.in.Close()
					p.cmd.Wait()
					st := p.stderr.String()
					res = &workerResult{Scenario: s.Name}
					isPanic := strings.Contains(st, "panic: ") || strings.Contains(st, "fatal error: ")
					if isPanic && !strings.Contains(st, "TOOL-ERROR") && s.CrashIsViolation {
						msg := crashLine(st)
						cse := ""
						if k := strings.LastIndex(st, "CASE "); k >= 0 {
							cse, _, _ = strings.Cut(st[k+5:], "\n")
						}
						res.Violations = []viol{{cse, "process crashed: " + msg}}
						res.Log = strings.Split(st, "\n")
					} else {
						if len(st) > 6000 {
							st = st[:3000] + "\n...\n" + st[len(st)-3000:]
						}
						res.ToolError = "worker died: " + st
					}
					p = nil
				}
				out[i] = res
			}
		}()
	}
	wg.Wait()
	return out
}

func crashLine(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			return l + " at " + panicSite(st)
		}
	}
	return "?"
}

// ---------------------------------------------------------------- parent

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	Commit   string `json:"commit,omitempty"`
	Scenario string `json:"scenario,omitempty"` // regular expression
	Case     string `json:"case,omitempty"`     // regular expression
	Msg      string `json:"msg,omitempty"`      // regular expression
	What     string `json:"what"`
}

func loadKnown(path, prop string) []knownFinding {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if strings.TrimSpace(sc.Text()) == "" {
			continue
		}
		var k knownFinding
		if err := json.Unmarshal(sc.Bytes(), &k); err != nil {
			fmt.Fprintln(os.Stderr, "bad known-findings line:", err)
			os.Exit(2)
		}
		if k.Property == prop && k.Status == "open" {
			out = append(out, k)
		}
	}
	return out
}

func matches(re, s string) bool {
	return re == "" || regexp.MustCompile(re).MatchString(s)
}

func main() {
	var (
		prop     = flag.String("prop", "", "")
		tier     = flag.String("tier", "quick", "")
		isWorker = flag.Bool("worker", false, "")
		dl       = flag.Int64("deadline", 0, "")
		verif    = flag.String("verif", "/verif", "")
		replay   = flag.String("replay", "", "")
		only     = flag.String("only", "", "regular expression of scenarios to run")
		list     = flag.Bool("list", false, "")
		budget   = flag.Duration("budget", 0, "")
		verbose  = flag.Bool("v", false, "")
	)
	flag.Parse()
	rdns.Log = slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.Level(100)}))
	chk := checks[*prop]
	if *replay != "" {
		doReplay(*replay)
		return
	}
	if chk == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *isWorker {
		worker(chk, *tier, time.Unix(*dl, 0))
		for _, d := range scratch {
			os.RemoveAll(d)
		}
		return
	}
	scs := chk.Scenarios(*tier)
	if *only != "" {
		re := regexp.MustCompile(*only)
		var f []Scenario
		for _, s := range scs {
			if re.MatchString(s.Name) {
				f = append(f, s)
			}
		}
		scs = f
	}
	if *list {
		for _, s := range scs {
			fmt.Println(s.Name)
		}
		return
	}
	names := map[string]bool{}
	for _, s := range scs {
		if names[s.Name] {
			fmt.Fprintln(os.Stderr, "duplicate scenario", s.Name)
			os.Exit(2)
		}
		names[s.Name] = true
	}
	start := time.Now()
	b := *budget
	if b == 0 {
		b = 420 * time.Second
		if *tier == "thorough" {
			b = 780 * time.Second
		}
	}
	deadline := start.Add(b)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	par := runtime.NumCPU()
	results := dispatch(chk, *tier, scs, deadline, par)

	known := loadKnown(filepath.Join(*verif, "known-findings.jsonl"), *prop)
	byName := map[string]Scenario{}
	for _, s := range scs {
		byName[s.Name] = s
	}
	var (
		cases, steps    int64
		states          = map[uint64]struct{}{}
		complete        = true
		samples         []string
		toolErr         string
		newViol         []*workerResult
		unconfirmed     int
		violations      int
		incomplete      []string
		maxDepth        int
		schedN, seqN    int
		schedExecutions int64
		bounds          = map[string]int{}
	)
	knownPrinted := map[string]bool{}
	for _, r := range results {
		cases += r.Cases
		steps += r.Steps
		for _, h := range r.StateSum {
			h2 := fnv.New64a()
			base, _, _ := strings.Cut(r.Scenario, "#")
			fmt.Fprintf(h2, "%s|%d", base, h)
			states[h2.Sum64()] = struct{}{}
		}
		if !r.Complete && len(r.Violations) == 0 {
			complete = false
			incomplete = append(incomplete, r.Scenario)
		}
		if len(samples) < 6 {
			samples = append(samples, r.Samples...)
		}
		if r.MaxDepth > maxDepth {
			maxDepth = r.MaxDepth
		}
		if r.Sched {
			schedN++
			schedExecutions += r.Cases
			bounds[strconv.Itoa(r.Bound)]++
		} else {
			seqN++
		}
		if r.ToolError != "" && toolErr == "" {
			toolErr = r.Scenario + ": " + r.ToolError
		}
		if *verbose {
			fmt.Fprintf(os.Stderr, "%-50s cases=%d steps=%d outcomes=%d depth=%d complete=%v %dms %v %s\n", r.Scenario, r.Cases, r.Steps, len(r.StateSum), r.MaxDepth, r.Complete, r.WallMS, r.Violations, r.ToolError)
		}
		var fresh []viol
		for _, v := range r.Violations {
			hit := false
			for _, k := range known {
				if matches(k.Scenario, r.Scenario) && matches(k.Case, v.Case) && matches(k.Msg, v.Msg) {
					hit = true
					if !knownPrinted[k.What] {
						knownPrinted[k.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
					}
					break
				}
			}
			if !hit {
				fresh = append(fresh, v)
			}
		}
		if len(fresh) > 0 {
			r.Violations = fresh
			newViol = append(newViol, r)
		}
	}
	replayPath := ""
	for _, r := range newViol {
		if !r.Sched {
			// Confirm sequential violations by running the scenario again.
			again := 0
			for i := 0; i < 3 && again == 0; i++ {
				rr := dispatch(chk, *tier, []Scenario{byName[r.Scenario]}, time.Now().Add(b), 1)
				for _, v := range rr[0].Violations {
					if v.Msg == r.Violations[0].Msg || v.Case == r.Violations[0].Case {
						again++
						break
					}
				}
			}
			if again == 0 {
				unconfirmed++
				fmt.Fprintf(os.Stderr, "unconfirmed: %s %v\n", r.Scenario, r.Violations)
				continue
			}
		}
		violations += len(r.Violations)
		if replayPath == "" {
			dir := filepath.Join(*verif, "evidence", "replay")
			os.MkdirAll(dir, 0o755)
			replayPath = filepath.Join(dir, *prop+".json")
			j, _ := json.MarshalIndent(map[string]any{"property": *prop, "tier": *tier, "scenario": r.Scenario, "sched": r.Sched,
				"choices": r.Choices, "violations": r.Violations, "log": r.Log,
				"how": "build with tools/check.sh " + *prop + ", then build/vh -replay " + replayPath}, "", " ")
			os.WriteFile(replayPath, j, 0o644)
		}
		fmt.Fprintf(os.Stderr, "violation in %s: %s\n", r.Scenario, r.Violations[0].Msg)
		if r.Violations[0].Case != r.Scenario {
			fmt.Fprintf(os.Stderr, "  case: %s\n", r.Violations[0].Case)
		}
		for i, l := range r.Log {
			if i > 60 {
				break
			}
			fmt.Fprintln(os.Stderr, "  ", l)
		}
	}
	cov := map[string]any{
		"scenarios":            len(scs),
		"exhaustive":           complete && *only == "",
		"samples":              samples,
		"rule":                 chk.Rule,
		"max_choice_depth":     maxDepth,
		"schedule_scenarios":   schedN,
		"sequential_scenarios": seqN,
	}
	if schedN > 0 {
		cov["schedules"] = schedExecutions
		cov["scenarios_per_deviation_bound"] = bounds
	}
	if chk.Level == "fault_enumeration" || chk.Level == "exploration" {
		cov["evaluations"] = cases
		cov["distinct_nontrivial"] = len(states)
	} else {
		cov["states"] = len(states)
		cov["transitions"] = steps
		cov["traces_validated_against_impl"] = cases
	}
	if len(incomplete) > 0 {
		cov["incomplete"] = incomplete
	}
	if unconfirmed > 0 {
		cov["unconfirmed"] = unconfirmed
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": chk.Level,
		"coverage": cov, "assumptions": chk.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(j, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("%s: scenarios=%d cases=%d steps=%d states=%d complete=%v wall=%.1fs\n", *prop, len(scs), cases, steps, len(states), complete, time.Since(start).Seconds())
	if violations > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replayPath)
		os.Exit(1)
	}
	if toolErr != "" {
		fmt.Fprintln(os.Stderr, "TOOL-ERROR:", toolErr)
		os.Exit(2)
	}
}

func doReplay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r struct {
		Property, Tier, Scenario string
		Sched                    bool
		Choices                  []int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, s := range checks[r.Property].Scenarios(r.Tier) {
		if s.Name != r.Scenario {
			continue
		}
		if r.Sched {
			v, log := vsched.Replay(s.Cfg, r.Choices, s.Body)
			for _, l := range log {
				fmt.Println(l)
			}
			fmt.Println("result:", v)
			if v != "" {
				os.Exit(1)
			}
			return
		}
		res := runScenario(s, r.Tier, time.Time{})
		for _, v := range res.Violations {
			fmt.Println("case:", v.Case)
			fmt.Println("result:", v.Msg)
		}
		if len(res.Violations) > 0 {
			os.Exit(1)
		}
	}
}
