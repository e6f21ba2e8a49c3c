package main

// SMT-LIB printing and the solver driver.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type printer struct {
	decl    map[string]string // name -> declaration line
	order   []string
	defs    bytes.Buffer
	names   map[int]string // term id -> defined name
	refs    map[int]int
	axioms  bytes.Buffer
	seenAx  map[string]bool
	strings []int
	quants  bool
	scope   map[int]bool   // bound variables in scope
	lets    map[int]string // shared subterms named by an enclosing let
	letN    int
}

func newPrinter() *printer {
	return &printer{decl: map[string]string{}, names: map[int]string{}, refs: map[int]int{}, seenAx: map[string]bool{}, scope: map[int]bool{}, lets: map[int]string{}}
}

func (p *printer) count(t *Term) {
	p.refs[t.id]++
	if p.refs[t.id] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
}

func bigS(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func sym(s string) string { return "|" + s + "|" }

func (p *printer) declare(name, sig string) {
	if _, ok := p.decl[name]; !ok {
		p.decl[name] = "(declare-fun " + sym(name) + " " + sig + ")\n"
		p.order = append(p.order, name)
		p.defs.WriteString(p.decl[name])
	}
}

// str prints a term; ground shared subterms become definitions.
func (p *printer) str(t *Term) string {
	if n, ok := p.names[t.id]; ok {
		return n
	}
	if n, ok := p.lets[t.id]; ok {
		return n
	}
	s := p.str1(t)
	if t.op == OIte && !t.bv && t.sort == SArr {
		n := sym(fmt.Sprintf("ite%d", t.id))
		fmt.Fprintf(&p.defs, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, t.sort, n, s)
		p.names[t.id] = n
		return n
	}
	if !t.bv && len(t.args) > 0 && (p.refs[t.id] > 1 && len(s) > 12 || t.op == OCopy || t.op == OSelect || t.op == OApp) {
		n := fmt.Sprintf("t%d", t.id)
		if t.op == OForall {
			// a shared quantified formula: keep as definition
		}
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", n, t.sort, s)
		p.names[t.id] = n
		if t.sort == SInt && (t.op == OSelect || t.op == OApp) {
			p.boundAx(n, t)
		}
		return n
	}
	return s
}

func (p *printer) boundAx(n string, t *Term) {
	if t.lo != nil {
		fmt.Fprintf(&p.axioms, "(assert (<= %s %s))\n", bigS(t.lo), n)
	}
	if t.hi != nil {
		fmt.Fprintf(&p.axioms, "(assert (<= %s %s))\n", n, bigS(t.hi))
	}
}

// scoped prints the body of a quantifier; its shared subterms are named by let.
func (p *printer) scoped(b, bv *Term) string {
	p.scope[bv.id] = true
	defer delete(p.scope, bv.id)
	refs := map[int]int{}
	var post []*Term
	var walk func(t *Term) bool // every bound variable of t is in scope
	okm := map[int]bool{}
	walk = func(t *Term) bool {
		if !t.bv {
			return true
		}
		refs[t.id]++
		if refs[t.id] > 1 {
			return okm[t.id]
		}
		if t.op == OBVar {
			okm[t.id] = p.scope[t.id]
			return okm[t.id]
		}
		ok := true
		if t.op == OForall || t.op == OExists {
			walk(t.args[1])
			ok = false // not worth a name
		} else {
			for _, a := range t.args {
				if !walk(a) {
					ok = false
				}
			}
		}
		okm[t.id] = ok
		if ok {
			post = append(post, t)
		}
		return ok
	}
	walk(b)
	var open strings.Builder
	n := 0
	var mine []int
	for _, t := range post {
		if refs[t.id] < 2 || len(t.args) == 0 || p.lets[t.id] != "" || t == b {
			continue
		}
		s := p.str(t)
		if len(s) < 24 {
			continue
		}
		p.letN++
		nm := fmt.Sprintf("l!%d", p.letN)
		open.WriteString("(let ((" + nm + " " + s + ")) ")
		p.lets[t.id] = nm
		mine = append(mine, t.id)
		n++
	}
	s := open.String() + p.str(b) + strings.Repeat(")", n)
	for _, id := range mine {
		delete(p.lets, id)
	}
	return s
}

func (p *printer) str1(t *Term) string {
	list := func(op string, ts []*Term) string {
		var b strings.Builder
		b.WriteString("(" + op)
		for _, a := range ts {
			b.WriteByte(' ')
			b.WriteString(p.str(a))
		}
		b.WriteByte(')')
		return b.String()
	}
	switch t.op {
	case OConst:
		return bigS(t.val)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		if _, ok := p.decl[t.name]; !ok {
			p.declare(t.name, "() "+t.sort)
			p.names[t.id] = sym(t.name)
			if t.sort == SInt {
				p.boundAx(sym(t.name), t)
			}
			if s, ok := cstr[t.id]; ok && len(s) <= 200 {
				for i := 0; i < len(s); i++ {
					fmt.Fprintf(&p.axioms, "(assert (= (select %s %d) %d))\n", sym(t.name), i, s[i])
				}
			}
		}
		return sym(t.name)
	case OBVar:
		return sym(t.name)
	case OSum:
		var parts []string
		if t.val.Sign() != 0 {
			parts = append(parts, bigS(t.val))
		}
		for i, a := range t.args {
			x := p.str(a)
			if t.coefs[i].Cmp(bigOne) == 0 {
				parts = append(parts, x)
			} else {
				parts = append(parts, "(* "+bigS(t.coefs[i])+" "+x+")")
			}
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case OMul:
		return list("*", t.args)
	case ODiv:
		return list("div", t.args)
	case OMod:
		return list("mod", t.args)
	case OIte:
		return list("ite", t.args)
	case OEq:
		if t.args[0].sort == SInt && t.args[0].op == OSum {
			a, b := p.splitSum(t.args[0])
			return "(= " + a + " " + b + ")"
		}
		return list("=", t.args)
	case OLe:
		a, b := p.splitSum(t.args[0])
		return "(<= " + a + " " + b + ")"
	case ONot:
		return list("not", t.args)
	case OAnd:
		return list("and", t.args)
	case OOr:
		return list("or", t.args)
	case OSelect:
		if t.bv {
			p.elemAx(t.args[0])
		}
		return list("select", t.args)
	case OStore:
		return list("store", t.args)
	case OConstArr:
		return "((as const " + t.sort + ") " + p.str(t.args[0]) + ")"
	case OCopy:
		return p.copyTerm(t)
	case OApp:
		var as []string
		for _, a := range t.args {
			as = append(as, a.sort)
		}
		p.declare(t.name, "("+strings.Join(as, " ")+") "+t.sort)
		if len(t.args) == 0 {
			return sym(t.name)
		}
		return list(sym(t.name), t.args)
	case OForall:
		p.quants = true
		return p.forall(t)
	}
	panic("print")
}

// elemAx: bounds of all the elements of an array whose selects occur under a quantifier.
func (p *printer) elemAx(a *Term) {
	if a.bv || a.sort != SArr || a.elo == nil {
		return
	}
	k := fmt.Sprintf("elem%d", a.id)
	if p.seenAx[k] {
		return
	}
	p.seenAx[k] = true
	n := p.str(a)
	if a.ehi == nil {
		fmt.Fprintf(&p.axioms, "(assert (forall ((j Int)) (! (<= %s (select %s j)) :pattern ((select %s j)))))\n", bigS(a.elo), n, n)
		return
	}
	fmt.Fprintf(&p.axioms, "(assert (forall ((j Int)) (! (and (<= %s (select %s j)) (<= (select %s j) %s)) :pattern ((select %s j)))))\n", bigS(a.elo), n, n, bigS(a.ehi), n)
}

func (p *printer) splitSum(s *Term) (string, string) {
	if s.op != OSum {
		return p.str(s), "0"
	}
	var l, r []string
	for i, a := range s.args {
		k := s.coefs[i]
		x := p.str(a)
		neg := k.Sign() < 0
		ka := new(big.Int).Abs(k)
		if ka.Cmp(bigOne) != 0 {
			x = "(* " + ka.String() + " " + x + ")"
		}
		if neg {
			r = append(r, x)
		} else {
			l = append(l, x)
		}
	}
	if s.val.Sign() > 0 {
		l = append(l, s.val.String())
	} else if s.val.Sign() < 0 {
		r = append(r, new(big.Int).Neg(s.val).String())
	}
	f := func(x []string) string {
		switch len(x) {
		case 0:
			return "0"
		case 1:
			return x[0]
		}
		return "(+ " + strings.Join(x, " ") + ")"
	}
	return f(l), f(r)
}

// copyTerm names a block copy and axiomatises it.
func (p *printer) copyTerm(t *Term) string {
	if t.bv {
		panic("copy under binder")
	}
	n := sym(fmt.Sprintf("cpy%d", t.id))
	A, lo, cnt, B, src := p.str(t.args[0]), p.str(t.args[1]), p.str(t.args[2]), p.str(t.args[3]), p.str(Sub(t.args[4], t.args[1]))
	fmt.Fprintf(&p.defs, "(declare-fun %s () %s)\n", n, t.sort)
	p.quants = true
	fmt.Fprintf(&p.axioms, "(assert (forall ((j Int)) (! (= (select %s j) (ite (and (<= %s j) (< j (+ %s %s))) (select %s (+ j %s)) (select %s j))) :pattern ((select %s j)))))\n",
		n, lo, lo, cnt, B, src, A, n)
	p.names[t.id] = n
	return n
}

// forall prints a quantified formula; the bound variable is shifted so that some
// (select A j) is a pattern. Several arrays give several copies.
func (p *printer) forall(t *Term) string {
	bv, body := t.args[0], t.args[1]
	type cand struct {
		arr *Term
		c   *Term // idx = s*bv + c
		neg bool
	}
	var cands []cand
	seen := map[int]bool{}
	vis := map[int]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if !x.bv || vis[x.id] {
			return
		}
		vis[x.id] = true
		if x.op == OSelect && !x.args[0].bv && !seen[x.args[0].id] {
			if c, neg, ok := linIn(x.args[1], bv); ok {
				seen[x.args[0].id] = true
				cands = append(cands, cand{x.args[0], c, neg})
			}
		}
		if x.op == OForall {
			walk(x.args[1])
			return
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(body)
	var outs []string
	if len(cands) > 4 {
		cands = cands[:4]
	}
	for _, c := range cands {
		j := tc.mk(&Term{op: OBVar, sort: SInt, name: fmt.Sprintf("j!%d.%d", t.id, c.arr.id)})
		var rep *Term
		if c.neg {
			rep = Sub(c.c, j)
		} else {
			rep = Sub(j, c.c)
		}
		b := SubstB(body, bv, rep)
		pat := "(select " + p.str(c.arr) + " " + sym(j.name) + ")"
		outs = append(outs, "(forall (("+sym(j.name)+" Int)) (! "+p.scoped(b, j)+" :pattern ("+pat+")))")
	}
	if len(outs) == 0 {
		// look for an application directly on the bound variable
		pat := ""
		var find func(x *Term)
		find = func(x *Term) {
			if pat != "" || !x.bv || x.op == OForall {
				return
			}
			if x.op == OApp {
				for _, a := range x.args {
					if a == bv {
						ok := true
						for _, a := range x.args {
							if a != bv && a.bv {
								ok = false
							}
						}
						if ok {
							pat = p.str(x)
							return
						}
					}
				}
			}
			for _, a := range x.args {
				find(a)
			}
		}
		find(body)
		b := p.scoped(body, bv)
		if pat != "" {
			return "(forall ((" + sym(bv.name) + " Int)) (! " + b + " :pattern (" + pat + ")))"
		}
		return "(forall ((" + sym(bv.name) + " Int)) " + b + ")"
	}
	if len(outs) == 1 {
		return outs[0]
	}
	return "(and " + strings.Join(outs, " ") + ")"
}

func linIn(idx, bv *Term) (c *Term, neg, ok bool) {
	if idx == bv {
		return I(0), false, true
	}
	if idx.op != OSum {
		return nil, false, false
	}
	l := newLin()
	l.c.Set(idx.val)
	found := false
	for i, a := range idx.args {
		if a == bv {
			if idx.coefs[i].Cmp(bigOne) == 0 {
				found = true
			} else if idx.coefs[i].Cmp(big64(-1)) == 0 {
				found = true
				neg = true
			} else {
				return nil, false, false
			}
			continue
		}
		if a.bv {
			return nil, false, false
		}
		l.atom(a, idx.coefs[i])
	}
	return l.term(), neg, found
}

// goalForm splits a goal into skolemised (hypotheses, conclusion).
func skolem(g *Term) *Term {
	switch g.op {
	case OForall:
		v := Fresh("sk", SInt)
		return skolem(SubstB(g.args[1], g.args[0], v))
	case OOr:
		var out []*Term
		ch := false
		for _, a := range g.args {
			b := skolem(a)
			if b != a {
				ch = true
			}
			out = append(out, b)
		}
		if ch {
			return Or(out...)
		}
	}
	return g
}

// splitGoal splits a goal into at most limit conjuncts that can be proved separately.
func splitGoal(g *Term, limit int) []*Term {
	var done []*Term
	work := []*Term{g}
	for len(work) > 0 {
		t := skolem(work[0])
		work = work[1:]
		var parts []*Term
		switch t.op {
		case OTrue:
			continue
		case OAnd:
			parts = t.args
		case OOr:
			// distribute over one conjunction
			for i, a := range t.args {
				if a.op != OAnd || len(done)+len(work)+len(a.args) > limit {
					continue
				}
				var rest []*Term
				rest = append(rest, t.args[:i]...)
				rest = append(rest, t.args[i+1:]...)
				for _, c := range a.args {
					parts = append(parts, Or(append([]*Term{c}, rest...)...))
				}
				break
			}
		case OIte:
			if t.sort == SBool {
				parts = []*Term{Or(Not(t.args[0]), t.args[1]), Or(t.args[0], t.args[2])}
			}
		}
		if parts == nil || len(done)+len(work)+len(parts) > limit {
			done = append(done, t)
			continue
		}
		work = append(work, parts...)
	}
	if len(done) == 0 {
		return []*Term{True()}
	}
	return done
}

// skolemGoal replaces the universally quantified variables of a goal by constants.
func skolemGoal(g *Term, n *int) *Term {
	switch g.op {
	case OAnd, OOr:
		as := make([]*Term, len(g.args))
		for i, a := range g.args {
			as[i] = skolemGoal(a, n)
		}
		if g.op == OAnd {
			return And(as...)
		}
		return Or(as...)
	case OForall:
		if g.bv {
			return g
		}
		*n++
		w := tc.mk(&Term{op: OVar, sort: SInt, name: fmt.Sprintf("sk!%d", *n), refE: -1})
		return skolemGoal(SubstB(g.args[1], g.args[0], w), n)
	}
	return g
}

// query builds the SMT text asserting all facts and the negation of goal.
func query(facts []*Term, goal *Term, opts string) (string, bool) {
	p := newPrinter()
	for _, f := range facts {
		p.count(f)
	}
	nsk := 0
	ng := Not(skolemGoal(goal, &nsk))
	p.count(ng)
	var body bytes.Buffer
	for _, f := range facts {
		fmt.Fprintf(&body, "(assert %s)\n", p.str(f))
	}
	for _, c := range conjuncts(ng) {
		fmt.Fprintf(&body, "(assert %s)\n", p.str(c))
	}
	var b bytes.Buffer
	b.WriteString(opts)
	b.WriteString("(set-logic ALL)\n")
	b.Write(p.defs.Bytes())
	b.Write(p.axioms.Bytes())
	b.Write(body.Bytes())
	b.WriteString("(check-sat)\n")
	return b.String(), p.quants
}

// relevant keeps the facts connected to the goal through shared symbols.
func relevant(facts []*Term, goal *Term) []*Term {
	symOf := func(t *Term) []int { return symbols(t) }
	inGoal := map[int]bool{}
	for _, s := range symOf(goal) {
		inGoal[s] = true
	}
	used := make([]bool, len(facts))
	fs := make([][]int, len(facts))
	for i, f := range facts {
		fs[i] = symOf(f)
	}
	for changed := true; changed; {
		changed = false
		for i := range facts {
			if used[i] {
				continue
			}
			hit := len(fs[i]) == 0
			for _, s := range fs[i] {
				if inGoal[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, s := range fs[i] {
					inGoal[s] = true
				}
			}
		}
	}
	var out []*Term
	for i, f := range facts {
		if used[i] {
			out = append(out, f)
		}
	}
	return out
}

var symMemo = map[*Term][]int{}

func symbols(t *Term) []int {
	if r, ok := symMemo[t]; ok {
		return r
	}
	seen := map[int]bool{}
	vis := map[int]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if vis[x.id] {
			return
		}
		vis[x.id] = true
		if x.op == OVar {
			seen[x.id] = true
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(t)
	var r []int
	for k := range seen {
		r = append(r, k)
	}
	sort.Ints(r)
	symMemo[t] = r
	return r
}

// ---- solving

type solveResult struct {
	res    string // unsat, sat, unknown
	solver string
	dur    time.Duration
}

func runSolver(args []string, text string, to time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := out.String()
	line := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		line = s[:i]
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat", "sat", "unknown":
		return line, s
	}
	if strings.Contains(line, "error") {
		return "error", s
	}
	return "unknown", s
}

type attempt struct {
	name string
	args []string
	opts string
	to   time.Duration
}

func attempts(level int) []attempt {
	rl := func(n int) string { return fmt.Sprintf("(set-option :rlimit %d)\n", n) }
	nombqi := "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"
	switch level {
	case 0: // candidate invariants
		return []attempt{{"z3-new", []string{"z3-new", "-in"}, rl(3000000) + nombqi, 20 * time.Second}}
	case 3: // candidate invariants from the contract files
		return []attempt{
			{"z3-new", []string{"z3-new", "-in"}, rl(3000000) + nombqi, 20 * time.Second},
			{"z3/auto", []string{"z3", "-in"}, rl(40000000), 20 * time.Second},
		}
	case 1:
		return []attempt{
			{"z3-new", []string{"z3-new", "-in"}, rl(8000000) + nombqi, 40 * time.Second},
			{"z3-new/arith6", []string{"z3-new", "-in"}, rl(12000000) + nombqi + "(set-option :smt.arith.solver 6)\n(set-option :smt.random_seed 7)\n", 40 * time.Second},
			{"z3", []string{"z3", "-in"}, rl(12000000) + nombqi, 40 * time.Second},
			{"cvc5", []string{"cvc5", "--lang=smt2", "--rlimit=400000"}, "", 40 * time.Second},
			{"z3-new/mbqi", []string{"z3-new", "-in"}, rl(12000000), 40 * time.Second},
		}
	default:
		return []attempt{
			{"z3-new", []string{"z3-new", "-in"}, rl(40000000) + nombqi, 120 * time.Second},
			{"z3", []string{"z3", "-in"}, rl(40000000) + nombqi, 120 * time.Second},
			{"cvc5", []string{"cvc5", "--lang=smt2", "--rlimit=2000000"}, "", 120 * time.Second},
			{"z3-new/seed", []string{"z3-new", "-in"}, rl(40000000) + nombqi + "(set-option :smt.random_seed 13)\n", 120 * time.Second},
			{"z3-new/mbqi", []string{"z3-new", "-in"}, rl(40000000), 120 * time.Second},
		}
	}
}

var solverSlots = make(chan struct{}, 8)

var solverStats = struct {
	sync.Mutex
	time    map[string]time.Duration
	queries map[string]int
}{time: map[string]time.Duration{}, queries: map[string]int{}}

var dumpDir string
var dumpN int

// discharge tries to prove goal from facts. Texts must be produced before
// going parallel (terms are not thread-safe).
type job struct {
	texts []string
	level int
	first string
	goal  *Term
	res   solveResult
	out   string
}

func mkJob(facts []*Term, goal *Term, level int) *job {
	if goal.isTrue() {
		return &job{res: solveResult{"unsat", "simplifier", 0}, level: -1}
	}
	facts = relevant(facts, goal)
	j := &job{level: level, goal: goal}
	t, _ := query(facts, goal, "")
	j.texts = []string{t}
	if !solverQuantFree(t) {
		return j
	}
	return j
}

func solverQuantFree(t string) bool { return !strings.Contains(t, "(forall ") }

func (j *job) run() {
	if j.level < 0 {
		return
	}
	solverSlots <- struct{}{}
	defer func() { <-solverSlots }()
	defer takeSlot()()
	qf := solverQuantFree(j.texts[0])
	sawSat := false
	as := attempts(j.level)
	if fastMode && j.level == 1 {
		as = as[:2]
	}
	for _, a := range as {
		if qf && strings.HasSuffix(a.name, "/mbqi") {
			continue
		}
		st := time.Now()
		text := a.opts + j.texts[0]
		r, out := runSolver(a.args, text, a.to)
		d := time.Since(st)
		solverStats.Lock()
		solverStats.time[a.name] += d
		solverStats.queries[a.name]++
		if dumpDir != "" {
			dumpN++
			writeFile(fmt.Sprintf("%s/q%05d.%s.smt2", dumpDir, dumpN, r), "; "+j.first+"\n"+text)
		}
		solverStats.Unlock()
		j.out = a.name + ": " + strings.TrimSpace(out)
		if r == "error" {
			j.res = solveResult{"error", a.name, d}
			if j.level == 0 {
				return
			}
			continue
		}
		j.res = solveResult{r, a.name, d}
		if r == "unsat" {
			return
		}
		if r == "sat" {
			sawSat = true
			if qf || strings.HasSuffix(a.name, "/mbqi") {
				return
			}
		}
	}
	if sawSat {
		j.res.res = "sat"
	} else if j.res.res != "error" {
		j.res.res = "unknown"
	}
}

func runJobs(js []*job) {
	var wg sync.WaitGroup
	for _, j := range js {
		if j.level < 0 {
			continue
		}
		wg.Add(1)
		go func(j *job) { defer wg.Done(); j.run() }(j)
	}
	wg.Wait()
}

// ---- incremental oracle used during execution (quantifier-free facts only)

type oracle struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	nf    int // facts already sent
	p     *printer
	n     int
	memo  map[string]bool
	dead  bool
	spent time.Duration
	marks []oracleMark
	gen   int
}

func newOracle() *oracle {
	o := &oracle{p: newPrinter(), memo: map[string]bool{}}
	o.cmd = exec.Command("z3-new", "-in")
	in, _ := o.cmd.StdinPipe()
	out, _ := o.cmd.StdoutPipe()
	o.in = in
	o.out = bufio.NewReader(out)
	if err := o.cmd.Start(); err != nil {
		o.dead = true
		return o
	}
	io.WriteString(in, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :rlimit 400000)\n(set-logic ALL)\n")
	return o
}

type oracleMark struct {
	nf    int
	decl  map[string]string
	order []string
	names map[int]string
	refs  map[int]int
	seen  map[string]bool
}

// push opens a scope that pop forgets.
func (o *oracle) push() {
	m := oracleMark{nf: o.nf, decl: map[string]string{}, names: map[int]string{}, refs: map[int]int{}, seen: map[string]bool{}, order: o.p.order}
	for k, v := range o.p.decl {
		m.decl[k] = v
	}
	for k, v := range o.p.names {
		m.names[k] = v
	}
	for k, v := range o.p.refs {
		m.refs[k] = v
	}
	for k, v := range o.p.seenAx {
		m.seen[k] = v
	}
	o.marks = append(o.marks, m)
	if !o.dead {
		io.WriteString(o.in, "(push)\n")
	}
}

// keep makes the last scope permanent.
func (o *oracle) keep() { o.marks = o.marks[:len(o.marks)-1] }

func (o *oracle) pop() {
	m := o.marks[len(o.marks)-1]
	o.marks = o.marks[:len(o.marks)-1]
	o.nf = m.nf
	o.p.decl, o.p.names, o.p.refs, o.p.seenAx, o.p.order = m.decl, m.names, m.refs, m.seen, m.order
	o.p.defs.Reset()
	o.p.axioms.Reset()
	o.gen++
	if !o.dead {
		io.WriteString(o.in, "(pop)\n")
	}
}

func (o *oracle) close() {
	if o.cmd != nil && o.cmd.Process != nil {
		o.in.Close()
		o.cmd.Process.Kill()
		o.cmd.Wait()
	}
}

// hasQuant reports whether a quantifier (or block copy) occurs.
func hasQuant(t *Term) bool {
	if r, ok := quantMemo[t]; ok {
		return r
	}
	r := t.op == OForall || t.op == OCopy
	if !r {
		for _, a := range t.args {
			if hasQuant(a) {
				r = true
				break
			}
		}
	}
	quantMemo[t] = r
	return r
}

var quantMemo = map[*Term]bool{}

func (o *oracle) flush(b *bytes.Buffer) {
	b.Write(o.p.defs.Bytes())
	o.p.defs.Reset()
	b.Write(o.p.axioms.Bytes())
	o.p.axioms.Reset()
}

// proves asks whether facts entail goal (quick, incomplete).
func (o *oracle) proves(facts []*Term, goal *Term) bool {
	if goal.isTrue() {
		return true
	}
	if goal.isFalse() && len(facts) == 0 || o.dead {
		return false
	}
	if hasQuant(goal) {
		return false
	}
	var b bytes.Buffer
	for ; o.nf < len(facts); o.nf++ {
		f := facts[o.nf]
		if hasQuant(f) {
			continue
		}
		o.p.count(f)
		s := o.p.str(f)
		o.flush(&b)
		fmt.Fprintf(&b, "(assert %s)\n", s)
	}
	k := fmt.Sprintf("%d:%d:%d", o.gen, o.nf, goal.id)
	if r, ok := o.memo[k]; ok {
		return r
	}
	g := Not(goal)
	o.p.count(g)
	s := o.p.str(g)
	o.flush(&b)
	o.n++
	fmt.Fprintf(&b, "(push)\n(assert %s)\n(check-sat)\n(pop)\n(echo \"done%d\")\n", s, o.n)
	st := time.Now()
	if _, err := o.in.Write(b.Bytes()); err != nil {
		o.dead = true
		return false
	}
	res := false
	mark := fmt.Sprintf("done%d", o.n)
	for {
		line, err := o.out.ReadString('\n')
		if err != nil {
			o.dead = true
			return false
		}
		line = strings.TrimSpace(line)
		if strings.Contains(line, mark) {
			break
		}
		if line == "unsat" {
			res = true
		}
		if strings.Contains(line, "error") && !strings.Contains(line, "canceled") {
			debugf("oracle: %s\n", line)
			res = false
		}
	}
	o.spent += time.Since(st)
	o.memo[k] = res
	return res
}

// takeSlot bounds the solver processes of all the verifier processes of a check.
func takeSlot() func() {
	dir := os.Getenv("GOCV_SLOTS")
	if dir == "" {
		return func() {}
	}
	for {
		for i := 0; i < 8; i++ {
			f, err := os.OpenFile(fmt.Sprintf("%s/slot%d", dir, i), os.O_CREATE|os.O_RDWR, 0o644)
			if err != nil {
				return func() {}
			}
			if syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil {
				return func() { f.Close() }
			}
			f.Close()
		}
		time.Sleep(3 * time.Millisecond)
	}
}
