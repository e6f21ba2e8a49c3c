package main

// The check of one property: all its harnesses, the contracts they rely on, the
// native search for a failing input, and the evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type unit struct {
	c    *Contract
	impl string
}

func (u unit) id() string {
	if u.impl != "" {
		return u.c.Name + "/" + u.impl
	}
	return u.c.Name
}

type driver struct {
	p        *Program
	repo     string
	dir      string
	work     string
	prop     string
	bounded  []map[string]any
	tier     string
	seed     int64
	start    time.Time
	deadline time.Time
	disabled map[string]bool
	why      map[string]string
	results  map[string]*HarnessResult
	units    map[string]unit
	mu       sync.Mutex
	known    map[string]string
}

func hasProp(ps []string, p string) bool {
	for _, q := range ps {
		if q == p {
			return true
		}
	}
	return false
}

func (d *driver) unitsOf(c *Contract) []unit {
	if c.External {
		return nil
	}
	if c.Method != nil {
		var us []unit
		for _, im := range c.Impl {
			us = append(us, unit{c, im})
		}
		return us
	}
	return []unit{{c, ""}}
}

// run verifies a set of units in subprocesses.
func (d *driver) run(us []unit, fast bool) {
	sem := make(chan struct{}, 6)
	var wg sync.WaitGroup
	var dis []string
	for k := range d.disabled {
		dis = append(dis, k)
	}
	sort.Strings(dis)
	self, _ := os.Executable()
	for _, u := range us {
		wg.Add(1)
		go func(u unit) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			res := &HarnessResult{Name: u.c.Name, Impl: u.impl, Target: u.c.Short, Props: u.c.Props}
			left := time.Until(d.deadline)
			if left < 2*time.Second {
				res.Error = "time budget of the check exhausted"
			} else {
				out := filepath.Join(d.work, "res-"+strings.NewReplacer("/", "_", "*", "p").Replace(u.id())+".json")
				os.Remove(out)
				args := []string{"-repo", d.repo, "-contracts", d.dir, "-disabled", strings.Join(dis, ";"), "-out", out}
				if fast {
					args = append([]string{"-fast"}, args...)
				}
				if u.impl != "" {
					args = append(args, "-impl", u.impl)
				}
				args = append(args, "harness", u.c.Name)
				cmd := exec.Command(self, args...)
				cmd.Env = append(os.Environ(), "GOCV_SLOTS="+d.work)
				done := make(chan error, 1)
				var txt strings.Builder
				cmd.Stdout, cmd.Stderr = &txt, &txt
				if err := cmd.Start(); err != nil {
					res.Error = err.Error()
				} else {
					go func() { done <- cmd.Wait() }()
					select {
					case <-done:
						b, err := os.ReadFile(out)
						if err != nil || json.Unmarshal(b, res) != nil {
							res.Error = "verifier process: " + tail(txt.String(), 600)
						}
					case <-time.After(left):
						cmd.Process.Kill()
						<-done
						res.Error = "time budget of the check exhausted"
					}
				}
			}
			d.mu.Lock()
			d.results[u.id()] = res
			d.units[u.id()] = u
			d.mu.Unlock()
			debugf("%s: %d obligations, %d not discharged, %dms %s\n", u.id(), len(res.Obls), len(res.bad()), res.WallMs, res.Error)
		}(u)
	}
	wg.Wait()
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (r *HarnessResult) bad() []OblResult {
	var out []OblResult
	for _, o := range r.Obls {
		if o.Status != "proved" {
			out = append(out, o)
		}
	}
	return out
}

func (d *driver) disable(k, why string) bool {
	if d.disabled[k] {
		return false
	}
	d.disabled[k] = true
	d.why[k] = why
	debugf("disable %s: %s\n", k, why)
	return true
}

// clauseOf returns the clause key of an ensures obligation of contract c.
func relevantFor(o OblResult, prop string) bool {
	if len(o.Props) == 0 {
		return true
	}
	return hasProp(o.Props, prop)
}

// weaken disables what was not shown, for the benefit of callers.
func (d *driver) weaken(u unit, r *HarnessResult) bool {
	ch := false
	if u.c.Lemma {
		return false
	}
	if r.Error != "" {
		return d.disable(u.c.Name, r.Error)
	}
	for _, o := range r.bad() {
		switch o.Kind {
		case "ensures":
			if d.disable(o.Name, "clause not discharged") {
				ch = true
			}
		case "assert", "inv":
		case "term":
			if _, ok := u.c.Opt["noterm"]; !ok && d.disable(u.c.Name, o.Name) {
				ch = true
			}
		case "requires":
			// handled by inlining the callee
		default:
			if d.disable(u.c.Name, o.Kind+": "+o.Name) {
				ch = true
			}
		}
	}
	return ch
}

// alarms lists the undischarged obligations of r that matter for the property.
func (d *driver) alarms(u unit, r *HarnessResult) []OblResult {
	if r.Error != "" {
		return []OblResult{{Name: u.id() + ": " + r.Error, Kind: "error", Status: "unknown"}}
	}
	var out []OblResult
	for _, o := range r.bad() {
		switch o.Kind {
		case "ensures", "assert":
			if hasProp(o.Props, d.prop) {
				out = append(out, o)
			}
		case "frame":
			if hasProp(strings.Fields(u.c.Opt["frame"]), d.prop) {
				out = append(out, o)
			}
		case "term":
			if _, ok := u.c.Opt["noterm"]; !ok {
				out = append(out, o)
			}
		case "inv":
		default:
			out = append(out, o)
		}
	}
	return out
}

func checkMain(repo, dir string, args []string) int {
	prop := args[0]
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	verif := filepath.Dir(dir)
	work, err := os.MkdirTemp("", "gocv")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	d := &driver{repo: repo, dir: dir, work: work, prop: prop, tier: tier, seed: seed, start: time.Now(), disabled: map[string]bool{}, why: map[string]string{}, results: map[string]*HarnessResult{}, units: map[string]unit{}, known: map[string]string{}}
	d.deadline = d.start.Add(650 * time.Second)
	if tier == "thorough" {
		d.deadline = d.start.Add(3000 * time.Second)
	}
	d.loadKnown(filepath.Join(verif, "known-findings.txt"))
	replay := filepath.Join(verif, "replays", prop+".json")
	p, err := loadProgram(repo, dir)
	if err != nil {
		d.report(verif, replay, nil, []string{"the code cannot be loaded: " + err.Error()})
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		return 1
	}
	d.p = p
	os.Setenv("GCV_TIER", d.tier)
	for _, s := range p.Dropped {
		fmt.Println("note: contract not applicable to this tree:", s)
	}
	byName := map[string]*Contract{}
	var own []unit
	for _, c := range p.Contracts {
		byName[c.Name] = c
		if hasProp(c.Props, prop) {
			own = append(own, d.unitsOf(c)...)
		}
	}
	if len(own) == 0 {
		d.report(verif, replay, nil, []string{"no contract of " + prop + " applies to this tree: " + strings.Join(p.Dropped, "; ")})
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		return 1
	}
	var found *nativeFail
	var foundSub string
	todo := own
	for round := 0; round < 12 && len(todo) > 0; round++ {
		if found, foundSub = d.decide(todo, own); found != nil {
			break
		}
		// the contracts relied upon
		var next []unit
		have := map[string]bool{}
		for id := range d.results {
			have[id] = true
		}
		queued := map[string]bool{}
		ch := false
		before := map[string]bool{}
		for k := range d.disabled {
			before[k] = true
		}
		for id, r := range d.results {
			u := d.units[id]
			if d.weaken(u, r) {
				ch = true
			}
			for _, o := range r.bad() {
				if o.Kind == "requires" {
					if c := byNameShort(p, strings.TrimPrefix(o.Name, "precondition of ")); c != nil && !c.External && c.Method == nil {
						if d.disable(c.Name, "precondition not established in "+id) {
							ch = true
						}
					}
				}
			}
			for _, n := range r.Used {
				c := byName[n]
				if c == nil || d.disabled[n] {
					continue
				}
				for _, v := range d.unitsOf(c) {
					if !have[v.id()] && !queued[v.id()] {
						queued[v.id()] = true
						next = append(next, v)
					}
				}
			}
		}
		if ch {
			for id, r := range d.results {
				hit := false
				for _, n := range r.Used {
					for k := range d.disabled {
						if !before[k] && (k == n || strings.HasPrefix(k, n+":")) {
							hit = true
						}
					}
				}
				if hit && !queued[id] {
					queued[id] = true
					next = append(next, d.units[id])
				}
			}
		}
		todo = next
	}
	// verdict
	type alarm struct {
		u unit
		o OblResult
	}
	var alarms []alarm
	knownHit := map[string]bool{}
	for _, u := range own {
		r := d.results[u.id()]
		if r == nil {
			continue
		}
		for _, o := range d.alarms(u, r) {
			if what, ok := d.known[o.Name]; ok {
				if !knownHit[o.Name] {
					knownHit[o.Name] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, what)
				}
				continue
			}
			alarms = append(alarms, alarm{u, o})
		}
	}
	var msgs []string
	if len(alarms) > 0 {
		hs := map[string]unit{}
		for _, a := range alarms {
			fmt.Printf("not discharged: %s  [%s, %s, %s] in %s of %s\n", a.o.Name, a.o.Kind, a.o.Status, a.o.Pos, a.u.id(), a.u.c.Short)
			hs[a.u.id()] = a.u
		}
		if found == nil {
			found, foundSub = d.search(hs, 20000)
		}
		if found != nil {
			fmt.Printf("failing input for %s: %s\n  %s\n", found.Harness, strings.Join(found.Args, ", "), found.Failure)
		}
		for _, a := range alarms {
			msgs = append(msgs, fmt.Sprintf("%s [%s %s at %s] %s", a.o.Name, a.o.Kind, a.o.Status, a.o.Pos, a.o.Out))
		}
		var obs []OblResult
		for _, a := range alarms {
			obs = append(obs, a.o)
		}
		d.writeReplay(replay, found, foundSub, obs)
	}
	var bf *nativeFail
	if len(alarms) == 0 {
		var sub string
		if bf, sub = d.runBounded(); bf != nil {
			fmt.Printf("failing input of the bounded check %s: %s\n  %s\n", bf.Harness, strings.Join(bf.Args, ", "), bf.Failure)
			msgs = append(msgs, "bounded check "+bf.Harness+": "+bf.Failure)
			d.writeReplay(replay, bf, sub, nil)
		}
	}
	d.report(verif, "", own, msgs)
	if bf != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	if len(alarms) > 0 {
		if found != nil {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
		return 1
	}
	return 0
}

// decide runs units with the first solver attempts; before the long attempts on what
// is left open, the contracts of the property are run natively on the real code.
func (d *driver) decide(us, own []unit) (*nativeFail, string) {
	d.run(us, true)
	var again []unit
	hs := map[string]unit{}
	for _, u := range us {
		r := d.results[u.id()]
		if r == nil || !r.Undecided {
			continue
		}
		again = append(again, u)
		for _, o := range own {
			if o.id() == u.id() && len(d.unknownTo(u, r)) > 0 {
				hs[u.id()] = u
			}
		}
	}
	if len(hs) > 0 {
		if f, s := d.search(hs, 12000); f != nil {
			return f, s
		}
	}
	if len(again) > 0 {
		d.run(again, false)
	}
	return nil, ""
}

// unknownTo: the alarms that are not known findings.
func (d *driver) unknownTo(u unit, r *HarnessResult) (out []OblResult) {
	for _, o := range d.alarms(u, r) {
		if _, ok := d.known[o.Name]; !ok {
			out = append(out, o)
		}
	}
	return
}

func byNameShort(p *Program, short string) *Contract {
	for _, c := range p.Contracts {
		if c.Short == short {
			return c
		}
	}
	return nil
}

func (d *driver) loadKnown(f string) {
	b, err := os.ReadFile(f)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C15 obligation=<name> | what fails
		if !strings.HasPrefix(l, "known: property="+d.prop+" obligation=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+d.prop+" obligation=")
		i := strings.Index(l, " | ")
		if i < 0 {
			continue
		}
		d.known[l[:i]] = l[i+3:]
	}
}

func contractSub(c *Contract) string {
	for s, pk := range subPkg {
		if strings.HasPrefix(c.Name, pk+".") {
			return s
		}
	}
	return "root"
}

// search looks for a failing input of the given harnesses, then of everything that
// is tagged with the property.
func (d *driver) search(hs map[string]unit, ms int) (*nativeFail, string) {
	dict := writeDict(d.repo, d.dir, d.work)
	var us []unit
	for _, u := range hs {
		if _, ok := u.c.Opt["nonative"]; !ok {
			us = append(us, u)
		}
	}
	if d.p != nil {
		for _, c := range d.p.Contracts {
			if _, ok := c.Opt["nonative"]; ok || !hasProp(c.Props, d.prop) || c.External {
				continue
			}
			dup := false
			for _, u := range us {
				if u.c == c {
					dup = true
				}
			}
			if !dup {
				us = append(us, unit{c, ""})
			}
		}
	}
	sort.Slice(us, func(i, j int) bool { return us[i].id() < us[j].id() })
	bins := map[string]string{}
	for _, u := range us {
		s := contractSub(u.c)
		if _, ok := bins[s]; !ok {
			b, err := buildNative(d.repo, d.dir, s, d.work)
			if err != nil {
				debugf("%v\n", err)
			}
			bins[s] = b
		}
	}
	if len(us) > 8 {
		ms = ms * 8 / len(us)
	}
	if d.tier == "thorough" {
		ms *= 6
	}
	var mu sync.Mutex
	var best *nativeFail
	var sub string
	sem := make(chan struct{}, 6)
	var wg sync.WaitGroup
	for _, u := range us {
		s := contractSub(u.c)
		if bins[s] == "" {
			continue
		}
		wg.Add(1)
		go func(u unit) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			mu.Lock()
			stop := best != nil
			mu.Unlock()
			if stop {
				return
			}
			cands := ""
			if r := d.results[u.id()]; r != nil && len(r.Models) > 0 {
				b, _ := json.Marshal(r.Models)
				cands = filepath.Join(d.work, "cand-"+strings.NewReplacer("/", "_", "*", "p").Replace(u.id())+".json")
				os.WriteFile(cands, b, 0o644)
			}
			f, n, skip, txt := runNative(bins[s], dict, u.c.Fn.Name(), d.seed, ms, -1, d.work, cands)
			debugf("native %s: %d runs, %d skipped, %v %s\n", u.id(), n, skip, f, tail(txt, 300))
			if f != nil && !d.ownFailure(f, u) {
				f = nil
			}
			if f != nil {
				mu.Lock()
				if best == nil {
					best, sub = f, s
				}
				mu.Unlock()
			}
		}(u)
	}
	wg.Wait()
	return best, sub
}

// ownFailure: a failing clause must belong to the property (panics and hangs count
// for every property of the harness).
func (d *driver) ownFailure(f *nativeFail, u unit) bool {
	if !strings.HasPrefix(f.Failure, "clause ") {
		return true
	}
	ps, _ := splitProps(strings.TrimPrefix(f.Failure, "clause "))
	return hasProp(ps, d.prop)
}

// runBounded runs the bounded stand-ins of the property: contracts executed on the
// real code over every input of a stated bound.
func (d *driver) runBounded() (*nativeFail, string) {
	for _, c := range d.p.Bounded {
		if !hasProp(c.Props, d.prop) {
			continue
		}
		s := contractSub(c)
		bin, err := buildNative(d.repo, d.dir, s, d.work)
		if err != nil {
			d.bounded = append(d.bounded, map[string]any{"check": c.Name, "bound": c.Bounded, "result": "not run: " + err.Error()})
			continue
		}
		f, n, skip, txt := runNative(bin, writeDict(d.repo, d.dir, d.work), c.Fn.Name(), d.seed, 0, -1, d.work, "")
		res := "no failure"
		if f != nil {
			res = f.Failure
		} else if txt != "" {
			res = "not run: " + tail(txt, 300)
		}
		d.bounded = append(d.bounded, map[string]any{"check": c.Name, "bound": c.Bounded, "inputs": n, "outside_the_precondition": skip, "result": res})
		if f != nil {
			return f, s
		}
	}
	return nil, ""
}

func (d *driver) writeReplay(file string, f *nativeFail, sub string, obs []OblResult) {
	os.MkdirAll(filepath.Dir(file), 0o755)
	var os2 []map[string]string
	for _, o := range obs {
		q := o.Query
		if len(q) > 200000 {
			q = q[:200000]
		}
		os2 = append(os2, map[string]string{"obligation": o.Name, "kind": o.Kind, "status": o.Status, "at": o.Pos, "verifier_output": o.Out, "query": q})
	}
	m := map[string]any{"property": d.prop, "undischarged": os2}
	if f != nil {
		m["failing_input"] = f
		m["package"] = sub
		m["replay"] = "bin/gocv replay " + file
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(file, b, 0o644)
}

// report writes the evidence of this run.
func (d *driver) report(verif, replay string, own []unit, problems []string) {
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	total, ok := 0, 0
	var fns, trusted, assume, perUnit []string
	solver := map[string]int64{}
	calls := map[string]int{}
	by := map[string]int{}
	inlined := map[string]bool{}
	tset := map[string]bool{}
	aset := map[string]bool{}
	inv := 0
	var ids []string
	for id := range d.results {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		r := d.results[id]
		u := d.units[id]
		if d.disabled[u.c.Name] && !hasProp(u.c.Props, d.prop) {
			continue
		}
		n, k := 0, 0
		for _, o := range r.Obls {
			if len(o.Props) > 0 && hasProp(u.c.Props, d.prop) && !hasProp(o.Props, d.prop) {
				continue
			}
			n++
			if o.Status == "proved" {
				k++
				for _, s := range strings.Split(o.Solver, ",") {
					by[s]++
				}
			}
		}
		total += n
		ok += k
		perUnit = append(perUnit, fmt.Sprintf("%s: %d/%d obligations, %d loop invariants, %d ms", id, k, n, len(r.Invariants), r.WallMs))
		inv += len(r.Invariants)
		if !u.c.Lemma {
			fns = append(fns, r.Target)
		}
		for s, ms := range r.SolverMs {
			solver[s] += ms
		}
		for s, c := range r.SolverCalls {
			calls[s] += c
		}
		for _, f := range r.Inlined {
			if !strings.Contains(f, ".c_") && !strings.Contains(f, ".s_") && !strings.Contains(f, ".l_") {
				inlined[f] = true
			}
		}
		for _, n := range r.Used {
			for _, c := range d.p.Contracts {
				if c.Name == n && c.External {
					kind := "contract on "
					if c.Model {
						kind = "definition of "
					}
					tset["assumed "+kind+c.TName] = true
				}
			}
		}
		for _, s := range r.Unspec {
			tset["no contract (arbitrary result, writes only what its arguments point to): "+s] = true
		}
		for _, s := range r.Assumes {
			aset[s] = true
		}
	}
	for _, s := range sortedKeys(tset) {
		trusted = append(trusted, s)
	}
	trusted = append(trusted, "go/ssa construction, this generator, z3 and cvc5", "assumed axioms of the memory model: allocation yields fresh memory, no slice or string larger than 2^40 bytes, no loop iterated more than 2^47 times, allocation never fails")
	for _, s := range sortedKeys(aset) {
		assume = append(assume, s)
	}
	for k, v := range d.why {
		assume = append(assume, "not relied upon: "+k+" ("+v+")")
	}
	sort.Strings(assume)
	cov := map[string]any{
		"obligations":              total,
		"discharged":               ok,
		"checker_cmd":              "bash check.sh " + d.prop + " " + d.tier,
		"trusted_base":             trusted,
		"functions_under_contract": fns,
		"functions_inlined":        sortedKeys(inlined),
		"per_harness":              perUnit,
		"solver_ms":                solver,
		"solver_queries":           calls,
		"discharged_by":            by,
		"loop_invariants":          inv,
		"integers":                 "machine integers modelled exactly (wrap-around at their width) over mathematical integers",
		"termination":              "a decreasing measure is proved for every loop that is not unrolled",
	}
	if len(problems) > 0 {
		cov["undischarged"] = problems
	}
	if len(d.bounded) > 0 {
		cov["bounded_stand_ins_not_proved"] = d.bounded
	}
	ev := map[string]any{
		"property": d.prop, "tier": d.tier, "seed": d.seed, "level": "proof",
		"coverage": cov, "assumptions": assume, "wall_s": time.Since(d.start).Seconds(), "violations": len(problems),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", d.prop+".json"), b, 0o644)
	if replay != "" {
		os.MkdirAll(filepath.Dir(replay), 0o755)
		b, _ := json.MarshalIndent(map[string]any{"property": d.prop, "problems": problems}, "", " ")
		os.WriteFile(replay, b, 0o644)
	}
	fmt.Printf("%s: %d/%d obligations discharged over %d harnesses in %.1fs\n", d.prop, ok, total, len(perUnit), time.Since(d.start).Seconds())
}

// nativeAll runs every contract natively (development: the oracles must be quiet).
func nativeAll(repo, dir string, ms int, only string, seed int64) {
	work, _ := os.MkdirTemp("", "gocvn")
	defer os.RemoveAll(work)
	p, err := loadProgram(repo, dir)
	if err != nil {
		fmt.Println(err)
		return
	}
	dict := writeDict(repo, dir, work)
	bins := map[string]string{}
	for _, s := range []string{"root", "sdata", "timequality"} {
		b, err := buildNative(repo, dir, s, work)
		if err != nil {
			fmt.Println(err)
		}
		bins[s] = b
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, c := range append(p.Contracts, p.Bounded...) {
		if only != "" && !strings.Contains(c.Name, only) {
			continue
		}
		if _, ok := c.Opt["nonative"]; ok || bins[contractSub(c)] == "" {
			continue
		}
		wg.Add(1)
		go func(c *Contract) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			f, n, s, txt := runNative(bins[contractSub(c)], dict, c.Fn.Name(), seed, ms, -1, work, "")
			if f != nil {
				fmt.Printf("FAIL %s: %s\n   %s\n", c.Name, f.Failure, strings.Join(f.Args, "\n   "))
			} else {
				fmt.Printf("ok   %s: %d runs, %d skipped %s\n", c.Name, n, s, tail(txt, 500))
			}
		}(c)
	}
	wg.Wait()
}

func replayMain(repo, dir, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var m struct {
		Property     string      `json:"property"`
		Package      string      `json:"package"`
		FailingInput *nativeFail `json:"failing_input"`
	}
	json.Unmarshal(b, &m)
	if m.FailingInput == nil {
		fmt.Println("no failing input recorded; undischarged obligations are in", file)
		return 1
	}
	work, _ := os.MkdirTemp("", "gocvr")
	defer os.RemoveAll(work)
	dict := writeDict(repo, dir, work)
	bin, err := buildNative(repo, dir, m.Package, work)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	cands := filepath.Join(work, "cands.json")
	if len(m.FailingInput.Candidates) > 0 {
		os.WriteFile(cands, m.FailingInput.Candidates, 0o644)
	}
	f, _, _, txt := runNative(bin, dict, m.FailingInput.Harness, m.FailingInput.Seed, 1000, m.FailingInput.Iteration, work, cands)
	if f != nil {
		fmt.Printf("%s fails on %s\n  %s\n", f.Harness, strings.Join(f.Args, ", "), f.Failure)
		return 1
	}
	fmt.Println("does not fail", txt)
	return 0
}
