package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/internal/vsched"
	"github.com/miekg/dns"
)

// p28: scripts are confined, and every query gets its own interpreter.

// The script does what the first label of the name says and notes in a global
// whether another query is running in the same interpreter.
const p28Script = `
busy = 0
function Resolve(msg, ci)
	if busy ~= 0 then return nil, Error.new("interpreter shared") end
	busy = 1
	local what = string.match(msg.questions[1].name, "^(%w+)")
	local ok, a, e = pcall(act, what, msg, ci)
	busy = 0
	if not ok then error(a) end
	if what == "string" then return "x", nil end
	if what == "number" then return 1, nil end
	if what == "errnumber" then return a, 1 end
	if what == "bool" then return true, nil end
	if what == "errbool" then return a, true end
	if what == "table" then return {}, nil end
	if what == "errtable" then return a, {} end
	if what == "func" then return act, nil end
	if what == "errfunc" then return a, act end
	if what == "question" then return msg.questions[1], nil end
	if what == "client" then return ci, nil end
	if what == "swapped" then return Error.new("x"), a end
	if what == "errstring" then return a, "x" end
	if what == "none" then return end
	if what == "one" then return a end
	if what == "three" then return a, nil, 3 end
	if what == "five" then return a, nil, 3, 4, 5 end
	if what == "both" then return a, Error.new("both") end
	return a, e
end

function act(what, msg, ci)
	if what == "raise" then error("raised") end
	if what == "raisetable" then error({}) end
	if what == "nilindex" then return nothing.field end
	if what == "badfield" then return msg.nosuchfield end
	if what == "badset" then msg.answer = { 1, 2 } end
	if what == "badtype" then msg.id = "x" end
	if what == "recurse" then return act(what, msg, ci) + 1 end
	if what == "deep" then local f; f = function(n) return 1 + f(n + 1) end; f(1) end
	if what == "badargs" then return Resolvers[1]:resolve(ci, msg) end
	if what == "noargs" then return Resolvers[1].resolve() end
	if what == "yield" then coroutine.yield(1) end
	if what == "coroutine" then
		local co = coroutine.create(function() return Resolvers[1]:resolve(msg, ci) end)
		local ok, a, e = coroutine.resume(co)
		return a, e
	end
	return Resolvers[1]:resolve(msg, ci)
end
`

// p28Good are the scripts' outcomes that pass the upstream's response on.
var p28Good = map[string]bool{"pass": true, "one": true, "three": true, "five": true, "coroutine": true}

var p28Acts = []string{"pass", "one", "three", "five", "coroutine", "none", "both", "string", "number", "errnumber", "bool", "errbool", "table", "errtable",
	"func", "errfunc", "question", "client", "swapped", "errstring", "raise", "raisetable", "nilindex", "badfield", "badset", "badtype", "recurse", "deep",
	"badargs", "noargs", "yield", "uperror", "updrop", "uppanic"}

func p28Up(point func()) rdns.Resolver {
	return &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		if point != nil {
			point()
		}
		switch n := q.Question[0].Name; {
		case strings.HasPrefix(n, "uperror"):
			return nil, errUpstream
		case strings.HasPrefix(n, "updrop"):
			return nil, nil
		case strings.HasPrefix(n, "uppanic"):
			panic("upstream panic")
		}
		return reply(q, 0, rr(q.Question[0].Name+" 60 IN TXT "+ci.Listener)), nil
	}}
}

// p28Verdict says what is wrong with the outcome of one query.
func p28Verdict(act string, q, a *dns.Msg, err error, who string) string {
	switch {
	case err != nil && strings.Contains(err.Error(), "shared"):
		return "two queries ran in one interpreter"
	case p28Good[act]:
		if err != nil {
			return "error: " + err.Error()
		}
		if a == nil || a.Id != q.Id || len(a.Answer) != 1 || a.Answer[0].Header().Name != q.Question[0].Name || a.Answer[0].(*dns.TXT).Txt[0] != who {
			return "answered " + shortMsg(a, err)
		}
	case act == "updrop" || act == "none":
		if a != nil || err != nil {
			return "expected nothing, got " + shortMsg(a, err)
		}
	default:
		if err == nil {
			return "no error but " + shortMsg(a, err)
		}
	}
	return ""
}

func p28Query(act, id string) *dns.Msg { return query(act+"."+id+".", dns.TypeTXT) }

// p28Sched runs queries concurrently in fewer interpreters.
func p28Sched(n, pool int, acts []string) func(*vsched.Exec) {
	return func(e *vsched.Exec) {
		lua := must(rdns.NewLua("lua", rdns.LuaOptions{Script: p28Script, Concurrency: uint(pool)}, p28Up(e.Point)))
		one := func(act, who string) {
			q := p28Query(act, who)
			a, err := lua.Resolve(q, rdns.ClientInfo{Listener: who})
			if v := p28Verdict(act, q, a, err, who); v != "" {
				e.Fail("query %s of %s: %s", act, who, v)
			}
			e.Outcome("%s %s %v", who, shortMsg(a, err), err != nil)
		}
		for i := 0; i < n; i++ {
			act := acts[e.Choose(len(acts), "outcome")]
			who := fmt.Sprintf("c%d", i)
			e.Go(who, func() { one(act, who) })
		}
		e.Join()
		// Every interpreter is back: as many queries as there are run at once.
		e.Quiet(true)
		for i := 0; i < pool; i++ {
			who := fmt.Sprintf("d%d", i)
			e.Go(who, func() { one("pass", who) })
		}
		e.Join()
	}
}

// p28History repeats one outcome many times in one interpreter, then asks for
// a plain one.
func p28History(acts []string, repeat int) func(*C) {
	return func(c *C) {
		for _, act := range acts {
			lua := must(rdns.NewLua("lua", rdns.LuaOptions{Script: p28Script, Concurrency: 1}, p28Up(nil)))
			for i := 0; i < repeat; i++ {
				if c.Full() {
					return
				}
				for _, act := range []string{act, "pass"} {
					c.Case(fmt.Sprintf("%s, repeated %d times", act, i))
					c.Step()
					who := fmt.Sprintf("c%d", i%7)
					q := p28Query(act, who)
					var v string
					c.Guard(func() {
						a, err := lua.Resolve(q, rdns.ClientInfo{Listener: who})
						v = p28Verdict(act, q, a, err, who)
					})
					if v != "" {
						c.Violation("query %s: %s", act, v)
						return
					}
					if i == 0 {
						c.State("%s", act)
					}
				}
			}
		}
	}
}

// p28Pairs runs all sequences of three outcomes in one interpreter.
func p28Sequences(part, parts int) func(*C) {
	return func(c *C) {
		n := len(p28Acts)
		lua := must(rdns.NewLua("lua", rdns.LuaOptions{Script: p28Script, Concurrency: 1}, p28Up(nil)))
		for k := part; k < n*n*n; k += parts {
			if c.Full() {
				return
			}
			seq := []string{p28Acts[k/n/n], p28Acts[k/n%n], p28Acts[k%n]}
			c.Case(strings.Join(seq, ", "))
			for i, act := range seq {
				c.Step()
				who := fmt.Sprintf("c%d", i)
				q := p28Query(act, who)
				a, err := lua.Resolve(q, rdns.ClientInfo{Listener: who})
				if v := p28Verdict(act, q, a, err, who); v != "" {
					c.Violation("query %d: %s", i+1, v)
				}
			}
			c.State("%v", seq)
		}
	}
}

// The probe walks everything reachable from the globals, through fields,
// metatables and environments, and calls every function it finds.
const p28Probe = `
local seen, funcs = {}, {}
local function visit(v, path)
	local t = type(v)
	if t ~= "table" and t ~= "function" and t ~= "userdata" and t ~= "string" and t ~= "thread" then return end
	if t == "string" then
		local m = getmetatable(v)
		if m then v = m; path = path .. ":meta"; t = "table" else return end
	end
	if seen[v] then return end
	seen[v] = true
	if t == "function" then
		funcs[#funcs + 1] = { v, path }
		local ok, env = pcall(getfenv, v)
		if ok then visit(env, path .. ":env") end
		return
	end
	local m = getmetatable(v)
	if m then visit(m, path .. ":meta") end
	if t == "table" then
		for k, x in next, v do
			visit(k, path .. ":key")
			visit(x, path .. "." .. tostring(k))
		end
	end
end

local function leaks(v, depth)
	if type(v) == "string" then return string.find(v, "SEC" .. "RET", 1, true) ~= nil and v or nil end
	if depth > 2 then return nil end
	if type(v) == "function" then
		local r = { pcall(v) }
		for i = 2, #r do if leaks(r[i], depth + 1) then return "function giving " .. r[i] end end
	end
	if type(v) == "table" then
		for k, x in next, v do if leaks(x, depth + 1) then return "table with " .. tostring(k) end end
	end
	if type(v) == "userdata" then
		local ok, r = pcall(function() return v:read("*a") end)
		if ok and leaks(r, depth + 1) then return "readable object" end
	end
	return nil
end

function Resolve(msg, ci)
	-- Functions of the script itself are not what it can reach.
	seen[visit], seen[leaks], seen[Resolve], seen[seen], seen[funcs] = true, true, true, true, true
	local dir = string.match(ci.listener, "^(.*)$")
	visit(_G, "_G")
	visit(msg, "message")
	visit(ci, "client")
	visit(coroutine.create(function() end), "thread")
	local found = ""
	local code = "return 'SEC'..'RET'"
	local args = {
		{ dir .. "/file" }, { dir .. "/file", "r" }, { dir .. "/new", "w" }, { dir .. "/code.lua" }, { code }, { "VERIF_PROBE" },
		{ "touch " .. dir .. "/run" }, { "echo SEC''RET", "r" }, { dir .. "/victim" }, { dir .. "/victim", dir .. "/moved" }, { "code" },
	}
	local names = {}
	for i, f in ipairs(funcs) do
		names[#names + 1] = f[2]
		for j, a in ipairs(args) do
			local r = { pcall(f[1], unpack(a)) }
			if r[1] then
				for k = 2, #r do
					local l = leaks(r[k], 0)
					if l then found = found .. f[2] .. "(" .. a[1] .. ") gives " .. l .. "; " end
				end
			end
		end
		local once = true
		local r = { pcall(f[1], function() if once then once = false return code end return nil end) }
		if r[1] then
			for k = 2, #r do
				local l = leaks(r[k], 0)
				if l and l ~= code then found = found .. f[2] .. "(reader) gives " .. l .. "; " end
			end
		end
	end
	for i, n in ipairs({ "io", "os", "package", "debug", "channel" }) do
		if _G[n] ~= nil then found = found .. "global " .. n .. "; " end
	end
	return nil, Error.new(#funcs .. "|" .. found .. "|" .. table.concat(names, " "))
end
`

func p28Confined(c *C) {
	dir, err := os.MkdirTemp("", "verif-lua")
	if err != nil {
		c.ToolError("scratch: %v", err)
		return
	}
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir)
	defer os.Unsetenv("TMPDIR")
	os.Setenv("VERIF_PROBE", "SECRET")
	defer os.Unsetenv("VERIF_PROBE")
	wd, _ := os.Getwd()
	if err := os.Chdir(dir); err != nil {
		c.ToolError("scratch: %v", err)
		return
	}
	defer os.Chdir(wd)
	files := map[string]string{"file": "SECRET", "victim": "x", "code.lua": "return 'SECRET'"}
	for f, s := range files {
		os.WriteFile(filepath.Join(dir, f), []byte(s), 0o600)
	}
	for _, conc := range []uint{0, 1, 2} {
		c.Case(fmt.Sprintf("concurrency %d", conc))
		lua := must(rdns.NewLua("lua", rdns.LuaOptions{Script: p28Probe, Concurrency: conc}, p28Up(nil)))
		_, err := lua.Resolve(query("x.", 1), rdns.ClientInfo{Listener: dir})
		if err == nil {
			c.ToolError("probe returned nothing")
			return
		}
		p := strings.SplitN(err.Error(), "|", 3)
		if len(p) != 3 {
			c.ToolError("probe failed: %v", err)
			return
		}
		if p[1] != "" {
			c.Violation("a script reaches out of its confinement: %s", p[1])
		}
		for _, n := range strings.Fields(p[2]) {
			c.Step()
			c.State("%s", n)
		}
		ents, _ := os.ReadDir(dir)
		for _, e := range ents {
			b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
			if want, ok := files[e.Name()]; !ok || want != string(b) {
				c.Violation("a script created or changed the file %s", e.Name())
			}
		}
		if len(ents) != len(files) {
			c.Violation("a script changed the files: %d left of %d", len(ents), len(files))
		}
	}
}

func init() {
	register(&Check{
		ID:          "P28",
		Level:       "model_checking",
		Rule:        "all schedules of concurrent queries over fewer interpreters with every choice of script outcome, all sequences of three outcomes in one interpreter, each outcome repeated beyond the interpreter's stack size, and every function reachable from a script called with arguments that would reveal a file, a process, the environment or loaded code; a state is a distinct outcome vector, sequence or reachable function",
		Assumptions: []string{"the interpreter library itself is not instrumented: threads interleave where scripts call resolvers", "scripts end"},
		Scenarios: func(tier string) []Scenario {
			two := []string{"pass", "raise", "errbool", "uperror", "uppanic"}
			dev := 3
			if tier == "thorough" {
				dev = 4
			}
			var out []Scenario
			out = append(out, sharded(4, Scenario{Name: "two-one", Cfg: vsched.Config{Deviations: dev, SyncOnly: true}, Body: p28Sched(2, 1, two), CrashIsViolation: true})...)
			out = append(out, sharded(8, Scenario{Name: "three-one", Cfg: vsched.Config{Deviations: dev, SyncOnly: true}, Body: p28Sched(3, 1, two[:2]), CrashIsViolation: true})...)
			out = append(out, sharded(8, Scenario{Name: "three-two", Cfg: vsched.Config{Deviations: dev, SyncOnly: true}, Body: p28Sched(3, 2, two[:2]), CrashIsViolation: true})...)
			for i := 0; i < 8; i++ {
				out = append(out, Scenario{Name: fmt.Sprintf("sequences-%d", i), Run: p28Sequences(i, 8), CrashIsViolation: true})
			}
			for i := 0; i < len(p28Acts); i += 5 {
				out = append(out, Scenario{Name: fmt.Sprintf("repeat-%d", i/5), Run: p28History(p28Acts[i:min(i+5, len(p28Acts))], 6000), CrashIsViolation: true})
			}
			return append(out, Scenario{Name: "confined", Run: p28Confined, CrashIsViolation: true})
		},
	})
}
