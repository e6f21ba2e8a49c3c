package main

// One harness: a contract (or lemma) verified against the current source.

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type OblResult struct {
	Name   string
	Kind   string
	Props  []string
	Pos    string
	Status string // proved, failed, unknown
	Solver string
	Ms     int64
	Out    string
	Query  string
}

type HarnessResult struct {
	Name        string // contract name
	Impl        string
	Target      string
	Props       []string
	Error       string // outside the verifier's reach, or internal error
	Obls        []OblResult
	Used        []string
	Inlined     []string
	Unspec      []string
	Assumes     []string
	Facts       int
	Rounds      int
	Invariants  []string
	Unrolled    []string
	SolverMs    map[string]int64
	SolverCalls map[string]int
	WallMs      int64
	Vacuous     bool
	Undecided   bool    // some obligations were only tried with the first solvers
	Models      [][]any // arguments in solver models of failed obligations
}

var queryCache = os.Getenv("GOCV_CACHE")

func cachedRun(js []*job) {
	if queryCache == "" {
		runJobs(js)
		return
	}
	var todo []*job
	var files []string
	for _, j := range js {
		if j.level < 0 {
			continue
		}
		h := sha256.Sum256([]byte(fmt.Sprint(j.level) + j.texts[0]))
		f := filepath.Join(queryCache, hex.EncodeToString(h[:12]))
		if b, err := os.ReadFile(f); err == nil {
			w := strings.Fields(string(b))
			j.res = solveResult{w[0], w[1] + "(cached)", 0}
			continue
		}
		todo = append(todo, j)
		files = append(files, f)
	}
	runJobs(todo)
	for i, j := range todo {
		os.WriteFile(files[i], []byte(j.res.res+" "+j.res.solver), 0o644)
	}
}

func (p *Program) lookupType(pkg *types.Package, name string) types.Type {
	ptr := strings.HasPrefix(name, "*")
	n := strings.TrimPrefix(name, "*")
	scope := pkg.Scope()
	if i := strings.LastIndexByte(n, '.'); i > 0 {
		scope = nil
		for _, q := range p.Pkgs {
			if q.Pkg.Name() == n[:i] {
				scope = q.Pkg.Scope()
			}
		}
		n = n[i+1:]
	}
	if scope == nil {
		return nil
	}
	o := scope.Lookup(n)
	if o == nil {
		return nil
	}
	if ptr {
		return types.NewPointer(o.Type())
	}
	return o.Type()
}

// symbolic executes the harness once.
func (p *Program) symbolic(c *Contract, impl string, disabled map[string]bool, h *Hints) (x *Exec, end *State, err error) {
	resetTerms()
	x = newExec(p)
	x.h = h
	for k := range disabled {
		x.disabled[k] = true
	}
	x.orc = newOracle()
	defer func() {
		x.orc.close()
		x.P.inInit = false
		if r := recover(); r != nil {
			switch e := r.(type) {
			case restart:
				err = errRestart{e.why}
			case unsupportedErr:
				err = fmt.Errorf("outside the verifier's subset: %s (at %s)", e.msg, x.posStr())
			default:
				if debugOn {
					panic(r)
				}
				err = fmt.Errorf("verifier failure: %v (at %s)", r, x.posStr())
			}
		}
	}()
	st := x.runInit()
	x.target = c
	var args []any
	for i, prm := range c.Fn.Params {
		if i == 0 && c.Method != nil && impl != "" {
			t := p.lookupType(c.Fn.Pkg.Pkg, impl)
			if t == nil {
				return x, st, fmt.Errorf("no type %s", impl)
			}
			v := x.freshVal(st, "recv", t)
			args = append(args, x.makeIface(st, v, prm.Type()))
			x.topArgs = append(x.topArgs, namedVal{prm.Name(), v})
			continue
		}
		v := x.freshVal(st, prm.Name(), prm.Type())
		args = append(args, v)
		x.topArgs = append(x.topArgs, namedVal{prm.Name(), v})
	}
	x.entry = st
	x.probeSt = st.clone()
	fr := &Frame{fn: c.Fn, path: "", contract: c}
	end, _ = x.execFn(fr, args, st)
	if !c.Lemma && !fr.holeDone {
		err = fmt.Errorf("contract %s does not reach its call of %s", c.Name, c.TName)
	}
	return x, end, err
}

type errRestart struct{ why string }

func (e errRestart) Error() string { return "restart: " + e.why }

// houdini drops the candidate invariants that are not inductive; reports whether
// a new symbolic round is needed.
func (x *Exec) houdini() bool {
	h := x.h
	dropped := map[string]bool{}
	memo := map[string]bool{}
	for round := 0; round < 80; round++ {
		var js []*job
		var os []*Oblig
		for _, o := range x.obls {
			if o.Kind != "inv" || dropped[o.Cand] {
				continue
			}
			var facts []*Term
			for i := 0; i < o.NF; i++ {
				if c, ok := x.candOf[i]; ok && dropped[c] {
					continue
				}
				facts = append(facts, x.facts[i])
			}
			j := mkJob(facts, o.Goal, 0)
			if j.level >= 0 {
				if x.target.has("hard") && strings.Contains(o.Cand, "#user.") {
					j.level = 3
				}
				j.first = o.Name + " " + o.Cand
				if memo[j.texts[0]] {
					continue
				}
			}
			js = append(js, j)
			os = append(os, o)
		}
		cachedRun(js)
		any := false
		var hard []string
		for i, j := range js {
			if j.res.res == "unsat" {
				if j.level >= 0 {
					memo[j.texts[0]] = true
				}
				continue
			}
			c := os[i].Cand
			if strings.HasPrefix(c, "mem|") || strings.HasPrefix(c, "leaf|") {
				hard = append(hard, c)
			}
			if !dropped[c] {
				debugf("  drop %s (%s, %s)\n", c, os[i].Name, j.res.res)
			}
			dropped[c] = true
			any = true
		}
		if len(hard) > 0 {
			for _, c := range hard {
				if strings.HasPrefix(c, "mem|") {
					h.memFull[strings.TrimPrefix(c, "mem|")] = true
				} else {
					h.mode[strings.TrimPrefix(c, "leaf|")] = lUnknown
				}
			}
			return true
		}
		if !any {
			break
		}
	}
	for c := range dropped {
		h.disabled[c] = true
	}
	return len(dropped) > 0
}

// fastMode: only the first solver attempts are made; what they leave open is
// reported as undecided.
var fastMode bool

func (p *Program) runHarness(c *Contract, impl string, disabled map[string]bool) *HarnessResult {
	start := time.Now()
	res := &HarnessResult{Name: c.Name, Impl: impl, Target: c.Short, Props: c.Props}
	h := newHints()
	var x *Exec
	var end *State
	for round := 0; ; round++ {
		res.Rounds = round + 1
		if round > 60 || time.Since(start) > 10*time.Minute {
			res.Error = "loop invariants do not stabilise"
			break
		}
		t0 := time.Now()
		var err error
		x, end, err = p.symbolic(c, impl, disabled, h)
		if e, ok := err.(errRestart); ok {
			debugf("%s: %s\n", c.Name, e.Error())
			continue
		}
		debugf("%s: round %d symbolic %v oracle %v (%d q) facts %d obls %d\n", c.Name, round, time.Since(t0), x.orc.spent, x.orc.n, len(x.facts), len(x.obls))
		if err != nil {
			res.Error = err.Error()
			break
		}
		t0 = time.Now()
		again := x.houdini()
		debugf("%s: houdini %v again=%v\n", c.Name, time.Since(t0), again)
		if !again {
			break
		}
	}
	if res.Error == "" {
		x.final(c, end, res)
	}
	if x != nil {
		for k := range x.used {
			res.Used = append(res.Used, k)
		}
		for k := range x.uninlined {
			res.Inlined = append(res.Inlined, k)
		}
		for k := range x.unspec {
			res.Unspec = append(res.Unspec, k)
		}
		for k := range x.assumes {
			res.Assumes = append(res.Assumes, k)
		}
		inv := map[string]bool{}
		for _, k := range x.candOf {
			inv[k] = true
		}
		for k := range inv {
			res.Invariants = append(res.Invariants, k)
		}
		for k := range x.unrolled {
			res.Unrolled = append(res.Unrolled, k)
		}
		for _, s := range []*[]string{&res.Used, &res.Inlined, &res.Unspec, &res.Assumes, &res.Invariants, &res.Unrolled} {
			sort.Strings(*s)
		}
		res.Facts = len(x.facts)
	}
	res.SolverMs = map[string]int64{}
	res.SolverCalls = map[string]int{}
	for k, v := range solverStats.time {
		res.SolverMs[k] = v.Milliseconds()
	}
	for k, v := range solverStats.queries {
		res.SolverCalls[k] = v
	}
	res.WallMs = time.Since(start).Milliseconds()
	return res
}

// final discharges the obligations that decide the contract.
func (x *Exec) final(c *Contract, end *State, res *HarnessResult) {
	type item struct {
		o    *Oblig
		jobs []*job
	}
	var items []*item
	var all []*job
	for _, o := range x.obls {
		if o.Kind == "inv" {
			continue
		}
		it := &item{o: o}
		if o.Kind == "term" {
			for _, g := range o.Alts {
				j := mkJob(x.facts[:o.NF], g, 0)
				j.first = o.Name
				it.jobs = append(it.jobs, j)
			}
		} else {
			for gi, g := range splitGoal(o.Goal, 40) {
				j := mkJob(x.facts[:o.NF], g, 1)
				if debugOn {
					debugf("  obl %s [%s] part %d: %d bytes\n", o.Name, o.Kind, gi, len(fmt.Sprint(j.texts)))
				}
				j.first = o.Name
				it.jobs = append(it.jobs, j)
			}
		}
		all = append(all, it.jobs...)
		items = append(items, it)
	}
	// reachability of the end: must not be refutable
	vac := mkJob(x.facts, Not(end.pc), 0)
	vac.first = "vacuity"
	all = append(all, vac)
	cachedRun(all)
	// split further what is undecided
	undecided := func(j *job) bool { return j.res.res != "unsat" && j.res.res != "sat" }
	nu := 0
	for _, it := range items {
		for _, j := range it.jobs {
			if it.o.Kind != "term" && undecided(j) {
				nu++
			}
		}
	}
	if nu > 0 && nu <= 6 && !fastMode {
		var sub []*job
		for _, it := range items {
			if it.o.Kind == "term" {
				continue
			}
			var js []*job
			for _, j := range it.jobs {
				if undecided(j) {
					if gs := splitGoal(j.goal, 40); len(gs) > 1 {
						for _, g := range gs {
							k := mkJob(x.facts[:it.o.NF], g, 1)
							k.first = it.o.Name
							js = append(js, k)
							sub = append(sub, k)
						}
						continue
					}
				}
				js = append(js, j)
			}
			it.jobs = js
		}
		cachedRun(sub)
	}
	// second chance for what is undecided
	var again []*job
	for _, it := range items {
		if it.o.Kind == "term" {
			continue
		}
		for _, j := range it.jobs {
			if j.res.res != "unsat" && j.res.res != "sat" {
				j.level = 2
				again = append(again, j)
			}
		}
	}
	if len(again) > 0 && fastMode {
		res.Undecided = true
	} else if len(again) <= 24 {
		cachedRun(again)
	}
	var bad [][2]any
	for _, it := range items {
		r := OblResult{Name: it.o.Name, Kind: it.o.Kind, Props: it.o.Props, Pos: it.o.Pos, Status: "proved"}
		solvers := map[string]bool{}
		if it.o.Kind == "term" {
			r.Status = "unknown"
			for _, j := range it.jobs {
				if j.res.res == "unsat" {
					r.Status = "proved"
					solvers[j.res.solver] = true
					break
				}
			}
		} else {
			for _, j := range it.jobs {
				r.Ms += j.res.dur.Milliseconds()
				solvers[j.res.solver] = true
				if j.res.res != "unsat" {
					if len(bad) < 3 {
						bad = append(bad, [2]any{x.facts[:it.o.NF], j.goal})
					}
					if r.Status == "proved" || j.res.res == "sat" {
						r.Status = "unknown"
						if j.res.res == "sat" {
							r.Status = "failed"
						}
						r.Out = j.out
						if len(j.texts) > 0 {
							r.Query = j.texts[0]
						}
					}
				}
			}
		}
		var ss []string
		for s := range solvers {
			ss = append(ss, s)
		}
		sort.Strings(ss)
		r.Solver = strings.Join(ss, ",")
		res.Obls = append(res.Obls, r)
	}
	if len(bad) > 0 {
		res.Models = x.models(bad)
	}
	if vac.level < 0 || vac.res.res == "unsat" {
		if _, ok := c.Opt["diverges"]; !ok {
			res.Vacuous = true
			res.Obls = append(res.Obls, OblResult{Name: "the end of the contract is reachable", Kind: "vacuity", Status: "failed"})
		}
	}
}
