package main

// Symbolic execution of go/ssa functions: verification condition generation.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Name  string // stable name
	Kind  string // ensures, assert, safety, requires, frame, inv, term, vacuity
	Props []string
	Goal  *Term // already includes the path condition
	NF    int   // facts available
	Pos   string
	Loop  string // loop key for inv obligations
	Cand  string
	jobs  []*job
	Alts  []*Term
}

type Exec struct {
	P      *Program
	facts  []*Term
	obls   []*Oblig
	epochs int
	ncell  int
	cellOf map[int]cellInfo
	wfSeen map[[2]int]bool
	named  map[int]*Term
	defsOf map[int]*Term

	inSpecForm int // inside a quantified specification body
	noOblig    int // obligations suppressed (assumed contracts' own code)
	orc        *oracle
	depth      int
	stack      []*ssa.Function

	target      *Contract // the contract being verified
	entry       *State
	entryAl     *Term
	mods        []modRegion // modifies of the verified contract
	modsOpen    bool        // frame checking active
	funcs       []funcVal
	funcIDs     map[*ssa.Function]int
	disabled    map[string]bool // contract or clause names disabled
	used        map[string]bool // contracts used
	usedBy      map[string]bool
	unspec      map[string]bool
	assumes     map[string]bool
	uninlined   map[string]bool
	dry         int
	writes      *writeLog
	unrolled    map[string]int
	skeys       []skey
	noUnroll    map[string]bool
	typeIDs     map[string]int
	typeOf      []types.Type
	tagVal      map[int]bool
	quickLvl    bool
	ghostRet    []string
	epochVars   map[int]*Term
	loopFrames  []*loopCtx
	candOf      map[int]string
	known       map[int][]knownAt
	h           *Hints
	assumeDepth int
	refOrigin   map[int][]*Term
	topArgs     []namedVal
	ghosts      []namedVal
	frames      []*Frame
	unwind      *unwindSpec
	unwinding   bool
	guards      []guardSpec
	keying      bool
	probeSt     *State
	extGlob     map[string]*ssa.Global
	curPos      token.Pos
	curFn       *ssa.Function
	loopAct     []string
}

type skey struct {
	t *Term
	s Str
}

type namedVal struct {
	name string
	v    Val
}

type funcVal struct {
	fn   *ssa.Function
	bind []any
}

type modRegion struct {
	r      *Term
	keys   map[string]bool // memory keys covered; nil: every key
	lo, hi *Term           // index window (nil: all)
}

type writeLog struct {
	keys map[string]map[int]*Term
}

type edge struct {
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	st   *State
}

type deferRec struct {
	cond *Term
	call *ssa.CallCommon
	fn   any
	args []any
	pos  token.Pos
}

type Frame struct {
	fn       *ssa.Function
	path     string
	binds    []any
	defers   []deferRec
	rets     []retRec
	contract *Contract
	assume   bool
	holeDone bool
	hole     *holeInfo
	mods     []modSpec
	preDone  bool
	loops    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	rpo      map[*ssa.BasicBlock]int
	spec     bool
}

type holeInfo struct {
	alloc *Term
	res   []*Term
	open  bool // the called function runs
}

type retRec struct {
	st *State
	v  []*Term
}

func newExec(p *Program) *Exec {
	return &Exec{P: p, wfSeen: map[[2]int]bool{}, named: map[int]*Term{}, defsOf: map[int]*Term{}, funcIDs: map[*ssa.Function]int{}, disabled: map[string]bool{}, used: map[string]bool{}, unspec: map[string]bool{}, assumes: map[string]bool{}, uninlined: map[string]bool{}, unrolled: map[string]int{}, typeIDs: map[string]int{}, noUnroll: map[string]bool{}, tagVal: map[int]bool{}, epochVars: map[int]*Term{}, candOf: map[int]string{}, cellOf: map[int]cellInfo{}, known: map[int][]knownAt{}, refOrigin: map[int][]*Term{}}
}

// ---- facts and obligations

func (x *Exec) fact(t *Term) {
	if t.isTrue() || x.inSpecForm > 0 && t.bv {
		return
	}
	if t.bv {
		panic("fact with bound variable: " + termString(t))
	}
	if t.op == OAnd {
		for _, a := range t.args {
			x.fact(a)
		}
		return
	}
	if t.op == OOr && hasQuant(t) {
		// the parts without quantifier are worth more on their own
		for i, a := range t.args {
			if a.op != OAnd || !hasQuant(a) {
				continue
			}
			rest := append(append([]*Term(nil), t.args[:i]...), t.args[i+1:]...)
			for _, c := range a.args {
				x.fact(Or(append([]*Term{c}, rest...)...))
			}
			return
		}
	}
	x.facts = append(x.facts, t)
	x.noteKnown(t, len(x.facts)-1)
}

// knownAt records where a condition was assumed: under pc, by the given fact.
type knownAt struct {
	pc   *Term
	fact int
	f    *Term
}

func (x *Exec) noteKnown(t *Term, i int) {
	pc := True()
	c := t
	if t.op == OOr {
		// not pc or c: one conclusion that is a disequality
		c = nil
		var ps []*Term
		for _, a := range t.args {
			if a.op == ONot && a.args[0].op == OEq && c == nil {
				c = a
			} else {
				ps = append(ps, Not(a))
			}
		}
		if c == nil {
			return
		}
		pc = And(ps...)
	}
	for _, a := range conjuncts(c) {
		if a.op == ONot && a.args[0].op == OEq {
			x.known[a.id] = append(x.known[a.id], knownAt{pc, i, t})
		}
	}
}

// knownTrue: the condition follows from an assumption made on the way here.
func (x *Exec) knownTrue(st *State, c *Term) bool {
	ks := x.known[c.id]
	if len(ks) == 0 {
		return false
	}
	have := map[int]bool{}
	for _, a := range conjuncts(st.pc) {
		have[a.id] = true
	}
	if have[c.id] {
		return true
	}
	for _, k := range ks {
		if k.fact >= len(x.facts) || x.facts[k.fact] != k.f {
			continue
		}
		ok := true
		for _, a := range conjuncts(k.pc) {
			if !have[a.id] {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (x *Exec) assume(st *State, t *Term) { x.fact(Imp(st.pc, t)) }

func (x *Exec) posStr() string {
	p := x.P.Fset.Position(x.curPos)
	if !p.IsValid() {
		return "?"
	}
	f := p.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (x *Exec) oblig(st *State, kind, name string, props []string, cond *Term) {
	if x.inSpecForm > 0 || x.noOblig > 0 {
		return
	}
	g := Imp(st.pc, cond)
	if !g.isTrue() || kind == "ensures" || kind == "assert" {
		x.obls = append(x.obls, &Oblig{Name: name, Kind: kind, Props: props, Goal: g, NF: len(x.facts), Pos: x.posStr()})
	}
	if kind != "inv" && kind != "frame" && kind != "term" {
		x.fact(g)
	}
}

func (x *Exec) safety(st *State, what string, cond *Term) {
	if x.inSpecForm > 0 || x.assumeDepth > 0 {
		return
	}
	if cond.isTrue() {
		return
	}
	if x.curFn != nil && specFn(x.curFn) {
		return // specification functions are total
	}
	if x.knownTrue(st, cond) {
		return
	}
	fn := "?"
	if x.curFn != nil {
		fn = shortFn(x.curFn)
	}
	x.oblig(st, "safety", "no-panic:"+what+" in "+fn, nil, cond)
}

func specFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return strings.HasPrefix(f.Name(), "s_") || strings.HasPrefix(f.Name(), "inv_")
}

// entails is the quick oracle.
func (x *Exec) entails(st *State, cond *Term) bool {
	g := Imp(st.pc, cond)
	if g.isTrue() {
		return true
	}
	if x.inSpecForm > 0 || g.bv {
		return false
	}
	return x.orc.proves(x.facts, g)
}

func (x *Exec) newEpoch(st *State, lower ...*Term) *Term {
	if x.P.inInit {
		// references are names: leaving a gap for what was made meanwhile keeps them distinct
		m := I(0)
		for _, l := range lower {
			if m == nil || !l.isConst() {
				m = nil
			} else if l.val.Cmp(m.val) > 0 {
				m = l
			}
		}
		if m != nil {
			return Add(m, I(1000000000000))
		}
	}
	x.epochs++
	v := Fresh("alloc", SInt)
	v.allocE = x.epochs
	x.epochVars[x.epochs] = v
	v.lo = bigOne
	for _, l := range lower {
		x.fact(Imp(st.pc, Le(l, v)))
	}
	return v
}

func (x *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, I(1))
	return r
}

// ---- CFG helpers

func (x *Exec) initFrame(fr *Frame) {
	fn := fr.fn
	fr.rpo = map[*ssa.BasicBlock]int{}
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range order {
		fr.rpo[b] = len(order) - i
	}
	fr.loops = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if !seen[b] {
			continue
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := fr.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fr.loops[s] = body
				}
				var up func(c *ssa.BasicBlock)
				up = func(c *ssa.BasicBlock) {
					if body[c] || !seen[c] {
						return
					}
					body[c] = true
					for _, p := range c.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
}

// mergeStates joins states arriving over several edges.
func (x *Exec) mergeStates(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0], []*Term{True()}
	}
	// relative conditions: drop the common conjuncts
	common := map[int]int{}
	for _, s := range sts {
		for _, c := range conjuncts(s.pc) {
			common[c.id]++
		}
	}
	conds := make([]*Term, len(sts))
	var pcs []*Term
	for i, s := range sts {
		var cs []*Term
		for _, c := range conjuncts(s.pc) {
			if common[c.id] < len(sts) {
				cs = append(cs, c)
			}
		}
		conds[i] = And(cs...)
		pcs = append(pcs, s.pc)
	}
	out := sts[0].clone()
	out.pc = Or(pcs...)
	// memory
	sameBase := true
	for _, s := range sts {
		if s.base != sts[0].base {
			sameBase = false
		}
	}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.mem {
			keys[k] = true
		}
	}
	if !sameBase {
		for k := range memReg {
			keys[k] = true
		}
		b := sts[len(sts)-1].base
		for i := len(sts) - 2; i >= 0; i-- {
			if sts[i].base != b {
				b = &membase{cond: conds[i], a: sts[i].base, b: b}
			}
		}
		out.base = b
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t := sts[len(sts)-1].getMem(k)
		for i := len(sts) - 2; i >= 0; i-- {
			t = Ite(conds[i], sts[i].getMem(k), t)
		}
		out.mem[k] = t
	}
	// cells
	out.cells = map[int][]*Term{}
	for id, c0 := range sts[0].cells {
		all := true
		vs := [][]*Term{c0}
		for _, s := range sts[1:] {
			c, ok := s.cells[id]
			if !ok {
				all = false
				break
			}
			vs = append(vs, c)
		}
		if !all {
			continue
		}
		out.cells[id] = mergeLeaves(conds, vs)
	}
	// environment
	env := map[ssa.Value]any{}
	for v, a := range sts[0].env {
		same := true
		vs := []any{a}
		ok := true
		for _, s := range sts[1:] {
			b, has := s.env[v]
			if !has {
				ok = false
				break
			}
			if !sameVal(a, b) {
				same = false
			}
			vs = append(vs, b)
		}
		if !ok {
			continue
		}
		if same {
			env[v] = a
			continue
		}
		if m, ok := mergeAny(conds, vs); ok {
			env[v] = m
		}
	}
	out.env = env
	// allocation counter
	same := true
	for _, s := range sts {
		if s.alloc != sts[0].alloc {
			same = false
		}
	}
	if !same {
		// references are names: a gap on some paths keeps them distinct
		max := sts[0].alloc
		for _, s := range sts[1:] {
			if max == nil {
				break
			}
			if d := Sub(s.alloc, max); !d.isConst() {
				max = nil
			} else if d.val.Sign() > 0 {
				max = s.alloc
			}
		}
		if max != nil {
			out.alloc = max
			return out, conds
		}
		x.epochs++
		v := Fresh("alloc", SInt)
		v.allocE = x.epochs
		x.epochVars[x.epochs] = v
		v.lo = bigOne
		for _, s := range sts {
			x.fact(Imp(s.pc, Le(s.alloc, v)))
		}
		out.alloc = v
	}
	return out, conds
}

func mergeLeaves(conds []*Term, vs [][]*Term) []*Term {
	n := len(vs[0])
	out := make([]*Term, n)
	for k := 0; k < n; k++ {
		if vs[0][k].sort == SBool && len(vs) > 1 {
			// all but one path give the same constant
			f, t, o := 0, 0, -1
			for i := range vs {
				switch {
				case vs[i][k].isFalse():
					f++
				case vs[i][k].isTrue():
					t++
				default:
					o = i
				}
			}
			if f == len(vs)-1 && o >= 0 {
				out[k] = And(conds[o], vs[o][k])
				continue
			}
			if t == len(vs)-1 && o >= 0 {
				out[k] = Or(Not(conds[o]), vs[o][k])
				continue
			}
		}
		t := vs[len(vs)-1][k]
		for i := len(vs) - 2; i >= 0; i-- {
			t = Ite(conds[i], vs[i][k], t)
		}
		out[k] = t
	}
	return out
}

func sameVal(a, b any) bool {
	switch a := a.(type) {
	case Val:
		b, ok := b.(Val)
		if !ok || len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if a.L[i] != b.L[i] {
				return false
			}
		}
		return true
	case Addr:
		b, ok := b.(Addr)
		if !ok || a.cell != b.cell || a.off != b.off || a.r != b.r || a.i != b.i || a.ctk != b.ctk || a.coff != b.coff || len(a.idx) != len(b.idx) {
			return false
		}
		for i := range a.idx {
			if a.idx[i] != b.idx[i] {
				return false
			}
		}
		return true
	case *iterVal:
		return a == b
	}
	return false
}

func mergeAny(conds []*Term, vs []any) (any, bool) {
	switch a := vs[0].(type) {
	case Val:
		var ls [][]*Term
		for _, v := range vs {
			b, ok := v.(Val)
			if !ok || len(b.L) != len(a.L) {
				return nil, false
			}
			ls = append(ls, b.L)
		}
		return Val{a.T, mergeLeaves(conds, ls)}, true
	case Addr:
		out := a
		for i, v := range vs[1:] {
			b, ok := v.(Addr)
			if !ok || b.ctk != a.ctk || b.coff != a.coff || b.cell != a.cell || b.off != a.off || len(b.idx) != len(a.idx) {
				return nil, false
			}
			_ = i
		}
		if a.cell > 0 {
			out.idx = make([]*Term, len(a.idx))
			for k := range a.idx {
				t := vs[len(vs)-1].(Addr).idx[k]
				for i := len(vs) - 2; i >= 0; i-- {
					t = Ite(conds[i], vs[i].(Addr).idx[k], t)
				}
				out.idx[k] = t
			}
			return out, true
		}
		r, ix := vs[len(vs)-1].(Addr).r, vs[len(vs)-1].(Addr).i
		for i := len(vs) - 2; i >= 0; i-- {
			r = Ite(conds[i], vs[i].(Addr).r, r)
			ix = Ite(conds[i], vs[i].(Addr).i, ix)
		}
		out.r, out.i = r, ix
		return out, true
	}
	return nil, false
}

// runDefers runs the deferred calls of a frame.
func (x *Exec) runDefers(fr *Frame, st *State) *State {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		on := st.clone()
		on.pc = And(st.pc, d.cond)
		if on.pc.isFalse() {
			continue
		}
		off := st.clone()
		off.pc = And(st.pc, Not(d.cond))
		on, _ = x.doCall(fr, on, d.call, d.fn, d.args)
		if off.pc.isFalse() || x.impliesPC(st.pc, d.cond) {
			st = on
		} else {
			m, _ := x.mergeStates([]*State{on, off})
			st = m.clone()
		}
	}
	return st
}

// ---- functions

// execFn runs fn on args from st and returns the merged final state and results.
func (x *Exec) execFn(fr *Frame, args []any, st *State) (*State, []*Term) {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	x.depth++
	if x.depth > 60 {
		panic(unsupported("inlining too deep at " + fn.String()))
	}
	x.stack = append(x.stack, fn)
	x.frames = append(x.frames, fr)
	savedFn, savedPos := x.curFn, x.curPos
	x.curFn = fn
	defer func() {
		x.depth--
		x.stack = x.stack[:len(x.stack)-1]
		x.frames = x.frames[:len(x.frames)-1]
		x.curFn, x.curPos = savedFn, savedPos
	}()
	x.initFrame(fr)
	callerEnv := st.env
	st = st.clone()
	st.env = map[ssa.Value]any{}
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		st.env[fv] = fr.binds[i]
	}
	x.region(fr, fn.Blocks[0], nil, []edge{{nil, fn.Blocks[0], st}}, nil)
	if len(fr.rets) == 0 {
		out := st.clone()
		out.pc = False()
		out.env = callerEnv
		return out, zeroVal(fn.Signature.Results()).L
	}
	var sts []*State
	var vs [][]*Term
	for _, r := range fr.rets {
		r.st.env = nil
		sts = append(sts, r.st)
		vs = append(vs, r.v)
	}
	out, conds := x.mergeStates(sts)
	out = out.clone()
	out.env = callerEnv
	if specFn(fn) && x.P.isSpecPkg(fn) {
		out.pc = st.pc // specification functions are total
	}
	return out, mergeLeaves(conds, vs)
}

// region executes the blocks reachable from the given edges; within a loop body
// (body != nil) edges to header are returned as backs and edges leaving as exits.
func (x *Exec) region(fr *Frame, start *ssa.BasicBlock, header *ssa.BasicBlock, in []edge, body map[*ssa.BasicBlock]bool) (exits, backs []edge) {
	pending := map[*ssa.BasicBlock][]edge{}
	pending[start] = in
	first := true
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for c := range pending {
			if b == nil || fr.rpo[c] < fr.rpo[b] {
				b = c
			}
		}
		es := pending[b]
		delete(pending, b)
		var outs []edge
		if fr.loops[b] != nil && !(first && b == header) {
			outs = x.execLoop(fr, b, es)
		} else {
			st := x.joinEdges(fr, b, es)
			outs = x.execBlock(fr, b, st, 0)
		}
		first = false
		for _, e := range outs {
			if e.st.pc.isFalse() {
				continue
			}
			if body != nil {
				if e.to == header {
					backs = append(backs, e)
					continue
				}
				if !body[e.to] {
					exits = append(exits, e)
					continue
				}
			}
			pending[e.to] = append(pending[e.to], e)
		}
	}
	return
}

// joinEdges merges incoming edges and evaluates phis.
func (x *Exec) joinEdges(fr *Frame, b *ssa.BasicBlock, es []edge) *State {
	var sts []*State
	for _, e := range es {
		sts = append(sts, e.st)
	}
	st, conds := x.mergeStates(sts)
	st = st.clone()
	type pv struct {
		p *ssa.Phi
		v any
	}
	var ps []pv
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []any
		for _, e := range es {
			if e.from == nil { // pre-assigned (loop header with symbolic phis)
				vs = append(vs, e.st.env[p])
				continue
			}
			vs = append(vs, x.eval(e.st, phiArg(p, e.from)))
		}
		same := true
		for _, v := range vs[1:] {
			if !sameVal(vs[0], v) {
				same = false
			}
		}
		if same {
			ps = append(ps, pv{p, vs[0]})
			continue
		}
		m, ok := mergeAny(conds, vs)
		if !ok {
			panic(unsupported("phi of addresses"))
		}
		ps = append(ps, pv{p, m})
	}
	for _, q := range ps {
		st.env[q.p] = q.v
	}
	return st
}

func phiArg(p *ssa.Phi, from *ssa.BasicBlock) ssa.Value {
	for i, pr := range p.Block().Preds {
		if pr == from {
			return p.Edges[i]
		}
	}
	panic("phiArg")
}

// eval gives the symbolic value of an SSA operand.
func (x *Exec) eval(st *State, v ssa.Value) any {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return Val{v.Type(), []*Term{x.funcCode(v, nil)}}
	case *ssa.Global:
		return x.globalAddr(v)
	case *ssa.Builtin:
		return v
	}
	r, ok := st.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s of %s not available", v.Name(), v.Parent())))
	}
	return r
}

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch r := x.eval(st, v).(type) {
	case Val:
		return r
	case Addr:
		return x.addrVal(r, v.Type())
	}
	panic(unsupported("value of " + v.String()))
}

// addrVal turns an address into a pointer value.
func (x *Exec) addrVal(a Addr, pt types.Type) Val {
	if a.cell > 0 {
		panic(unsupported("address of a local cell escapes"))
	}
	if a.ctk != "" {
		panic(unsupported("pointer to a scalar field escapes"))
	}
	return Val{pt, []*Term{a.r, a.i}}
}

func (x *Exec) addr(st *State, v ssa.Value) Addr {
	switch r := x.eval(st, v).(type) {
	case Addr:
		return r
	case Val:
		pt := r.T.Underlying().(*types.Pointer)
		return Addr{T: pt.Elem(), r: r.L[0], i: r.L[1]}
	}
	panic(unsupported("address of " + v.String()))
}

func (x *Exec) globalAddr(g *ssa.Global) Addr {
	id, ok := x.P.globalIDs[g]
	if !ok {
		id = len(x.P.globalIDs) + 1
		x.P.globalIDs[g] = id
	}
	return Addr{T: g.Type().(*types.Pointer).Elem(), r: I(int64(id)), i: I(0)}
}

func (x *Exec) funcCode(fn *ssa.Function, binds []any) *Term {
	if len(binds) == 0 {
		if id, ok := x.funcIDs[fn]; ok {
			return I(int64(id))
		}
	}
	x.funcs = append(x.funcs, funcVal{fn, binds})
	id := len(x.funcs)
	if len(binds) == 0 {
		x.funcIDs[fn] = id
	}
	return I(int64(id))
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if constant.BoolVal(c.Value) {
				return Val{t, []*Term{True()}}
			}
			return Val{t, []*Term{False()}}
		case u.Info()&types.IsInteger != 0:
			b, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return Val{t, []*Term{IB(b)}}
		case u.Info()&types.IsString != 0:
			s := constStr(constant.StringVal(c.Value))
			return Val{t, []*Term{s.a, s.o, s.l}}
		default:
			return Val{t, []*Term{App("const:"+sanitize(c.Value.ExactString()), SInt)}}
		}
	}
	panic(unsupported("constant " + c.String()))
}

// typeID numbers concrete types (interface tags); 0 is nil.
func (x *Exec) typeID(t types.Type) int {
	k := types.TypeString(t, nil)
	if id, ok := x.typeIDs[k]; ok {
		return id
	}
	x.typeOf = append(x.typeOf, t)
	id := len(x.typeOf)
	x.typeIDs[k] = id
	return id
}

func (x *Exec) makeIface(st *State, v Val, it types.Type) Val {
	if _, ok := v.T.Underlying().(*types.Interface); ok {
		return Val{it, v.L}
	}
	id := x.typeID(v.T)
	if len(v.L) == 0 {
		return Val{it, []*Term{I(int64(id)), I(0)}}
	}
	name := fmt.Sprintf("box.%d", id)
	p := App(name, SInt, v.L...)
	if !p.bv {
		for k, l := range v.L {
			x.fact(Eq(appRaw(fmt.Sprintf("unbox.%d.%d", id, k), l.sort, p), l))
		}
		x.fact(Ne(p, I(0)))
	}
	return Val{it, []*Term{I(int64(id)), p}}
}

func (x *Exec) unbox(st *State, pay *Term, t types.Type) []*Term {
	id := x.typeID(t)
	ls := leaves(t)
	out := make([]*Term, len(ls))
	name := fmt.Sprintf("box.%d", id)
	var rec func(p *Term, k int) *Term
	rec = func(p *Term, k int) *Term {
		if p.op == OApp && p.name == name {
			return p.args[k]
		}
		if p.op == OIte {
			return Ite(p.args[0], rec(p.args[1], k), rec(p.args[2], k))
		}
		fn := fmt.Sprintf("unbox.%d.%d", id, k)
		appAttr[fn] = ls[k]
		u := App(fn, ls[k].sort, p)
		x.noteLeaf(st, u, ls[k])
		return u
	}
	for k := range ls {
		out[k] = rec(pay, k)
	}
	x.wellFormed(st, t, out)
	return out
}

// ---- block execution

func (x *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, from int) []edge {
	for _, ins := range b.Instrs[from:] {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if ins.Pos().IsValid() {
			x.curPos = ins.Pos()
		}
		switch ins := ins.(type) {
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.If:
			c := x.val(st, ins.Cond).L[0]
			if st.pc.isFalse() {
				return nil
			}
			s2 := st.clone()
			st.pc = And(st.pc, c)
			s2.pc = And(s2.pc, Not(c))
			return []edge{{b, b.Succs[0], st}, {b, b.Succs[1], s2}}
		case *ssa.Return:
			var out []*Term
			for _, r := range ins.Results {
				out = append(out, x.val(st, r).L...)
			}
			fr.rets = append(fr.rets, retRec{st, out})
			return nil
		case *ssa.Panic:
			x.safety(st, "panic", False())
			return nil
		}
		st = x.instr(fr, st, ins)
		if st.pc.isFalse() {
			return nil
		}
	}
	return nil
}

func (x *Exec) set(st *State, v ssa.Value, r any) { st.env[v] = r }

func (x *Exec) nonNil(st *State, a Addr) {
	if a.cell > 0 {
		return
	}
	x.safety(st, "nil dereference", Ne(a.r, I(0)))
}

func (x *Exec) instr(fr *Frame, st *State, ins ssa.Instruction) *State {
	switch ins := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := ins.Type().Underlying().(*types.Pointer).Elem()
		if x.cellable(ins) {
			x.ncell++
			st.cells[x.ncell] = zeroVal(t).L
			x.cellOf[x.ncell] = cellInfo{t, ins.Comment, ins.Parent()}
			x.set(st, ins, Addr{T: t, cell: x.ncell})
			return st
		}
		r := x.newRef(st)
		x.storeObj(st, t, r, I(0), zeroVal(t).L)
		x.zeroGhost(st, t, r, I(0))
		x.set(st, ins, Val{ins.Type(), []*Term{r, I(0)}})
	case *ssa.UnOp:
		x.unop(fr, st, ins)
	case *ssa.BinOp:
		x.set(st, ins, x.binop(st, ins.Op, x.val(st, ins.X), x.val(st, ins.Y), ins.Type()))
	case *ssa.Store:
		a := x.addr(st, ins.Addr)
		x.nonNil(st, a)
		v := x.val(st, ins.Val)
		if a.cell == 0 {
			x.guardCheck(st, a.T, a.r, a.i)
		}
		x.store(st, a, v)
	case *ssa.FieldAddr:
		a := x.addr(st, ins.X)
		x.nonNil(st, a)
		x.set(st, ins, x.fieldAddr(a, ins.Field))
	case *ssa.Field:
		v := x.val(st, ins.X)
		s := v.T.Underlying().(*types.Struct)
		off := fieldOff(s, ins.Field)
		ft := s.Field(ins.Field).Type()
		x.set(st, ins, Val{ft, v.L[off : off+nleaves(ft)]})
	case *ssa.IndexAddr:
		x.indexAddr(st, ins)
	case *ssa.Index:
		v := x.val(st, ins.X)
		ix := x.val(st, ins.Index).L[0]
		switch u := v.T.Underlying().(type) {
		case *types.Array:
			x.safety(st, "index out of range", And(Ge(ix, I(0)), Lt(ix, I(u.Len()))))
			var out []*Term
			for _, l := range v.L {
				out = append(out, Select(l, ix))
			}
			x.set(st, ins, Val{ins.Type(), out})
		case *types.Basic:
			s := strOf(v)
			x.safety(st, "index out of range", And(Ge(ix, I(0)), Lt(ix, s.l)))
			x.set(st, ins, Val{ins.Type(), []*Term{s.at(ix)}})
		default:
			panic(unsupported("index"))
		}
	case *ssa.Lookup:
		v := x.val(st, ins.X)
		if _, ok := v.T.Underlying().(*types.Map); ok {
			x.set(st, ins, x.mapLookup(st, v, x.val(st, ins.Index), ins.CommaOk, ins.Type()))
			return st
		}
		s := strOf(v)
		ix := x.val(st, ins.Index).L[0]
		x.safety(st, "index out of range", And(Ge(ix, I(0)), Lt(ix, s.l)))
		x.set(st, ins, Val{ins.Type(), []*Term{s.at(ix)}})
	case *ssa.Slice:
		x.slice(st, ins)
	case *ssa.MakeSlice:
		l, c := x.val(st, ins.Len).L[0], x.val(st, ins.Cap).L[0]
		et := ins.Type().Underlying().(*types.Slice).Elem()
		sz := types.SizesFor("gc", "amd64").Sizeof(et)
		if sz < 1 {
			sz = 1
		}
		lim := new(big.Int).Div(new(big.Int).Lsh(bigOne, 47), big64(sz))
		x.safety(st, "makeslice: length out of range", And(Ge(l, I(0)), Le(l, c), Le(c, IB(lim))))
		x.assume(st, Le(c, IB(lenMax(et)))) // no allocation beyond the address space succeeds
		r := x.newRef(st)
		x.initElems(st, et, r, c)
		x.set(st, ins, Val{ins.Type(), []*Term{r, I(0), l, c}})
	case *ssa.MakeMap:
		r := x.newRef(st)
		x.makeMap(st, ins.Type(), r)
		x.set(st, ins, Val{ins.Type(), []*Term{r}})
	case *ssa.MakeChan:
		r := x.newRef(st)
		x.makeChan(st, ins.Type(), r, x.val(st, ins.Size).L[0])
		x.set(st, ins, Val{ins.Type(), []*Term{r}})
	case *ssa.MapUpdate:
		x.mapUpdate(st, x.val(st, ins.Map), x.val(st, ins.Key), x.val(st, ins.Value))
	case *ssa.MakeInterface:
		x.set(st, ins, x.makeIface(st, x.val(st, ins.X), ins.Type()))
	case *ssa.ChangeInterface:
		v := x.val(st, ins.X)
		x.set(st, ins, Val{ins.Type(), v.L})
	case *ssa.ChangeType:
		switch v := x.eval(st, ins.X).(type) {
		case Val:
			x.set(st, ins, Val{ins.Type(), v.L})
		default:
			x.set(st, ins, v)
		}
	case *ssa.Convert:
		x.set(st, ins, x.convert(st, x.val(st, ins.X), ins.Type()))
	case *ssa.TypeAssert:
		x.typeAssert(st, ins)
	case *ssa.Extract:
		v := x.val(st, ins.Tuple)
		tt := v.T.(*types.Tuple)
		off := 0
		for k := 0; k < ins.Index; k++ {
			off += nleaves(tt.At(k).Type())
		}
		t := tt.At(ins.Index).Type()
		x.set(st, ins, Val{t, v.L[off : off+nleaves(t)]})
	case *ssa.MakeClosure:
		var binds []any
		for _, b := range ins.Bindings {
			binds = append(binds, x.eval(st, b))
		}
		x.set(st, ins, Val{ins.Type(), []*Term{x.funcCode(ins.Fn.(*ssa.Function), binds)}})
	case *ssa.Call:
		return x.call(fr, st, ins, &ins.Call)
	case *ssa.Defer:
		var args []any
		for _, a := range ins.Call.Args {
			args = append(args, x.eval(st, a))
		}
		var fv any
		if ins.Call.IsInvoke() || ins.Call.StaticCallee() == nil {
			fv = x.eval(st, ins.Call.Value)
		} else if mc, ok := ins.Call.Value.(*ssa.MakeClosure); ok {
			fv = x.eval(st, mc)
		}
		fr.defers = append(fr.defers, deferRec{st.pc, &ins.Call, fv, args, ins.Pos()})
	case *ssa.RunDefers:
		st = x.runDefers(fr, st)
	case *ssa.Go:
		x.goStmt(fr, st, ins)
	case *ssa.Send:
		x.chanSend(st, x.val(st, ins.Chan), x.val(st, ins.X))
	case *ssa.Select:
		x.selectStmt(fr, st, ins)
	case *ssa.Range:
		v := x.val(st, ins.X)
		if _, ok := v.T.Underlying().(*types.Map); ok {
			it := &iterVal{m: &v}
			// how many entries are left, and the set of the keys visited
			x.ncell++
			it.cell = x.ncell
			left := Fresh("left", SInt)
			left.lo = bigZero
			st.cells[it.cell] = []*Term{left}
			it.seen = Val{v.T, []*Term{x.newRef(st)}}
			x.makeMap(st, v.T, it.seen.L[0])
			it.dom0 = Select(st.getMem(x.mapKeys(v.T)[0]), v.L[0])
			x.set(st, ins, it)
			return st
		}
		// string iterator: position kept in a cell
		x.ncell++
		st.cells[x.ncell] = []*Term{I(0)}
		s := strOf(v)
		x.set(st, ins, &iterVal{s: &s, cell: x.ncell})
	case *ssa.Next:
		x.next(st, ins)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ins)))
	}
	return st
}

func (x *Exec) impliesPC(a, b *Term) bool {
	has := map[int]bool{}
	for _, c := range conjuncts(a) {
		has[c.id] = true
	}
	for _, c := range conjuncts(b) {
		if !has[c.id] {
			return false
		}
	}
	return true
}

type iterVal struct {
	seen Val   // ghost: the keys of the map visited so far
	dom0 *Term // the keys of the map when the iteration began

	s    *Str
	cell int
	m    *Val
}

// cellable: every use is a direct load, store or sub-address.
func (x *Exec) cellable(a *ssa.Alloc) bool {
	if r, ok := x.P.cellMemo[a]; ok {
		return r
	}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp:
			case *ssa.Store:
				if r.Val == v {
					return false
				}
			case *ssa.FieldAddr:
				if !ok(r) {
					return false
				}
			case *ssa.IndexAddr:
				if r.X != v || !ok(r) {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	r := ok(a)
	t := a.Type().Underlying().(*types.Pointer).Elem()
	if arr, isArr := t.Underlying().(*types.Array); isArr && arr.Len() > 1<<20 {
		r = false
	}
	if hasGhost(t) {
		r = false
	}
	x.P.cellMemo[a] = r
	return r
}

func (x *Exec) fieldAddr(a Addr, f int) Addr {
	s := a.T.Underlying().(*types.Struct)
	ft := s.Field(f).Type()
	off := fieldOff(s, f)
	if a.cell > 0 {
		return Addr{T: ft, cell: a.cell, off: a.off + off, idx: a.idx}
	}
	tk := typeKey(a.T)
	if isAgg(ft) {
		return Addr{T: ft, r: emb(tk, s.Field(f).Name(), a.r, a.i), i: I(0)}
	}
	return Addr{T: ft, r: a.r, i: a.i, ctk: tk, coff: off}
}

func (x *Exec) indexAddr(st *State, ins *ssa.IndexAddr) {
	ix := x.val(st, ins.Index).L[0]
	switch u := ins.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.val(st, ins.X)
		x.safety(st, "index out of range", And(Ge(ix, I(0)), Lt(ix, s.L[2])))
		x.set(st, ins, x.elemAddr(u.Elem(), s.L[0], Add(s.L[1], ix)))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a := x.addr(st, ins.X)
		x.nonNil(st, a)
		x.safety(st, "index out of range", And(Ge(ix, I(0)), Lt(ix, I(at.Len()))))
		if a.cell > 0 {
			x.set(st, ins, Addr{T: at.Elem(), cell: a.cell, off: a.off, idx: append(append([]*Term(nil), a.idx...), ix)})
			return
		}
		x.set(st, ins, x.elemAddr(at.Elem(), a.r, ix))
	default:
		panic(unsupported("indexaddr"))
	}
}

func (x *Exec) elemAddr(et types.Type, r, k *Term) Addr {
	if _, ok := et.Underlying().(*types.Array); ok {
		return Addr{T: et, r: emb("arr", "e", r, k), i: I(0)}
	}
	return Addr{T: et, r: r, i: k}
}

// initElems zeroes the elements of a fresh block.
func (x *Exec) initElems(st *State, et types.Type, r, n *Term) {
	switch u := et.Underlying().(type) {
	case *types.Struct:
		off := 0
		tk := typeKey(et)
		for f := 0; f < u.NumFields(); f++ {
			ft := u.Field(f).Type()
			if isAgg(ft) {
				off += nleaves(ft)
				continue // contents of aggregates inside fresh slices stay unknown
			}
			for k, l := range leaves(ft) {
				key := leafMemKey(tk, off+k, l)
				st.mem[key] = Store(st.getMem(key), r, ConstArr(zeroLeaf(l)))
				x.noteWrite(st, key, r, nil, nil)
			}
			off += nleaves(ft)
		}
		return
	case *types.Array:
		return
	}
	tk := typeKey(et)
	for k, l := range leaves(et) {
		key := leafMemKey(tk, k, l)
		st.mem[key] = Store(st.getMem(key), r, ConstArr(zeroLeaf(l)))
		x.noteWrite(st, key, r, nil, nil)
	}
}

func (x *Exec) slice(st *State, ins *ssa.Slice) {
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.val(st, v).L[0]
	}
	lo := get(ins.Low, I(0))
	switch u := ins.X.Type().Underlying().(type) {
	case *types.Basic:
		s := strOf(x.val(st, ins.X))
		hi := get(ins.High, s.l)
		x.safety(st, "slice bounds out of range", And(Le(I(0), lo), Le(lo, hi), Le(hi, s.l)))
		x.set(st, ins, Val{ins.Type(), []*Term{s.a, Add(s.o, lo), Sub(hi, lo)}})
	case *types.Slice:
		s := x.val(st, ins.X)
		hi := get(ins.High, s.L[2])
		mx := get(ins.Max, s.L[3])
		conds := []*Term{Le(I(0), lo), Le(lo, hi), Le(hi, mx)}
		if ins.Max != nil {
			conds = append(conds, Le(mx, s.L[3]))
		}
		x.safety(st, "slice bounds out of range", And(conds...))
		x.set(st, ins, Val{ins.Type(), []*Term{s.L[0], Add(s.L[1], lo), Sub(hi, lo), Sub(mx, lo)}})
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a := x.addr(st, ins.X)
		x.nonNil(st, a)
		if a.cell > 0 {
			panic(unsupported("slice of a cell array"))
		}
		n := I(at.Len())
		hi := get(ins.High, n)
		mx := get(ins.Max, n)
		x.safety(st, "slice bounds out of range", And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		x.set(st, ins, Val{ins.Type(), []*Term{a.r, lo, Sub(hi, lo), Sub(mx, lo)}})
	default:
		panic(unsupported("slice"))
	}
}

func (x *Exec) unop(fr *Frame, st *State, ins *ssa.UnOp) {
	switch ins.Op {
	case token.MUL:
		if g, ok := ins.X.(*ssa.Global); ok && (g.Pkg == nil || !x.P.inRepo(g.Pkg.Pkg)) {
			x.set(st, ins, x.externGlobal(st, g))
			return
		}
		a := x.addr(st, ins.X)
		x.nonNil(st, a)
		if g, ok := ins.X.(*ssa.Global); ok && x.P.volatileGlobal(g) {
			v := x.freshVal(st, "glob."+g.Name(), a.T)
			if _, ok := a.T.Underlying().(*types.Signature); ok {
				x.assume(st, Ne(v.L[0], I(0)))
				x.assumes["the function variable "+g.Name()+" is not set to nil"] = true
			}
			x.set(st, ins, v)
			return
		}
		if a.cell == 0 {
			x.guardCheck(st, a.T, a.r, a.i)
		}
		x.set(st, ins, x.load(st, a))
	case token.NOT:
		x.set(st, ins, Val{ins.Type(), []*Term{Not(x.val(st, ins.X).L[0])}})
	case token.SUB:
		v := x.val(st, ins.X)
		if isFloat(v.T) {
			x.set(st, ins, x.freshVal(st, "fneg", ins.Type()))
			return
		}
		x.set(st, ins, Val{ins.Type(), []*Term{x.wrap(st, Neg(v.L[0]), ins.Type())}})
	case token.XOR:
		v := x.val(st, ins.X)
		x.set(st, ins, Val{ins.Type(), []*Term{x.wrap(st, Sub(I(-1), v.L[0]), ins.Type())}})
	case token.ARROW:
		x.set(st, ins, x.chanRecv(st, x.val(st, ins.X), ins.CommaOk, ins.Type()))
	default:
		panic(unsupported("unop " + ins.Op.String()))
	}
}

// externGlobal: variables of other packages are taken as constants.
func (x *Exec) externGlobal(st *State, g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	name := "glob." + g.String()
	var out []*Term
	for k, l := range leaves(t) {
		v := Var(fmt.Sprintf("%s.%d", name, k), l.sort)
		if l.sort == SInt {
			v.lo, v.hi = l.lo, l.hi
		} else if l.sort != SBool {
			v.elo, v.ehi = l.lo, l.hi
		}
		if l.kind == kRef {
			refAttr[v.id] = [2]int{1, 0}
			if e, ok := x.epochVars[1]; ok {
				x.fact(Lt(v, e))
			}
		}
		out = append(out, v)
	}
	x.wellFormed(st, t, out)
	if _, ok := t.Underlying().(*types.Interface); ok || len(out) == 2 {
		x.fact(Ne(out[0], I(0)))
	} else if _, ok := t.Underlying().(*types.Pointer); ok {
		x.fact(Ne(out[0], I(0)))
	}
	x.assumes["variables of other packages (such as io.EOF) keep their non-nil initial values"] = true
	return Val{t, out}
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// wrap reduces a mathematical integer into the range of t.
func (x *Exec) wrap(st *State, v *Term, t types.Type) *Term {
	b := t.Underlying().(*types.Basic)
	lo, hi := intRange(b)
	if lo == nil {
		return v
	}
	if v.lo != nil && v.hi != nil && v.lo.Cmp(lo) >= 0 && v.hi.Cmp(hi) <= 0 {
		return v
	}
	if v.op == OIte {
		return Ite(v.args[0], x.wrap(st, v.args[1], t), x.wrap(st, v.args[2], t))
	}
	if !v.bv && x.inSpecForm == 0 {
		if x.entails(st, And(Le(IB(lo), v), Le(v, IB(hi)))) {
			x.assume(st, And(Le(IB(lo), v), Le(v, IB(hi))))
			return v
		}
	} else if hi.Cmp(maxI64) == 0 {
		return v // specification arithmetic on 64-bit integers is mathematical
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	if lo.Sign() == 0 {
		return EMod(v, IB(m))
	}
	return Add(EMod(Sub(v, IB(lo)), IB(m)), IB(lo))
}

func tdiv(a, b *Term) *Term { // truncated, b > 0 constant
	if a.lo != nil && a.lo.Sign() >= 0 {
		return EDiv(a, b)
	}
	return Ite(Ge(a, I(0)), EDiv(a, b), Neg(EDiv(Neg(a), b)))
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, rt types.Type) Val {
	bt := a.T.Underlying()
	mkb := func(t *Term) Val { return Val{rt, []*Term{t}} }
	switch op {
	case token.EQL:
		return mkb(x.eqVal(st, a, b))
	case token.NEQ:
		return mkb(Not(x.eqVal(st, a, b)))
	}
	if isString(a.T) {
		switch op {
		case token.ADD:
			s := x.concat(strOf(a), strOf(b))
			return Val{rt, []*Term{s.a, s.o, s.l}}
		}
		// lexicographic order: uninterpreted
		r := App("strless", SBool, append(append([]*Term{}, a.L...), b.L...)...)
		switch op {
		case token.LSS:
			return mkb(r)
		}
		return mkb(Fresh("strcmp", SBool))
	}
	if isFloat(a.T) {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return mkb(App("f"+op.String(), SBool, a.L[0], b.L[0]))
		}
		return mkb(App("f"+op.String(), SInt, a.L[0], b.L[0]))
	}
	if bb, ok := bt.(*types.Basic); ok && bb.Info()&types.IsBoolean != 0 {
		p, q := a.L[0], b.L[0]
		switch op {
		case token.AND:
			return mkb(And(p, q))
		case token.OR:
			return mkb(Or(p, q))
		case token.XOR:
			return mkb(Not(Eq(p, q)))
		}
	}
	p, q := a.L[0], b.L[0]
	switch op {
	case token.LSS:
		return mkb(Lt(p, q))
	case token.LEQ:
		return mkb(Le(p, q))
	case token.GTR:
		return mkb(Gt(p, q))
	case token.GEQ:
		return mkb(Ge(p, q))
	case token.ADD:
		return mkb(x.wrap(st, Add(p, q), rt))
	case token.SUB:
		return mkb(x.wrap(st, Sub(p, q), rt))
	case token.MUL:
		return mkb(x.wrap(st, Mul(p, q), rt))
	case token.QUO, token.REM:
		x.safety(st, "division by zero", Ne(q, I(0)))
		if q.isConst() && q.val.Sign() > 0 {
			d := tdiv(p, q)
			if op == token.QUO {
				return mkb(d)
			}
			if p.lo != nil && p.lo.Sign() >= 0 {
				return mkb(EMod(p, q))
			}
			return mkb(Ite(Ge(p, I(0)), EMod(p, q), Neg(EMod(Neg(p), q))))
		}
		r := x.freshVal(st, "div", rt)
		return r
	case token.AND, token.AND_NOT:
		if op == token.AND_NOT && q.isConst() {
			lo, hi := intRange(bt.(*types.Basic))
			if lo.Sign() == 0 {
				q = Sub(IB(hi), q)
			} else {
				q = Sub(I(-1), q)
			}
			op = token.AND
		}
		if op == token.AND {
			if p.isConst() {
				p, q = q, p
			}
			if q.isConst() {
				return mkb(x.maskConst(st, p, q.val, rt))
			}
		}
		r := x.freshVal(st, "and", rt)
		return r
	case token.OR:
		return mkb(x.bitOr(st, p, q, rt))
	case token.XOR:
		r := x.freshVal(st, "xor", rt)
		return r
	case token.SHL:
		if q.isConst() && q.val.IsInt64() && q.val.Int64() < 64 {
			return mkb(x.wrap(st, Mul(p, IB(new(big.Int).Lsh(bigOne, uint(q.val.Int64())))), rt))
		}
		return x.freshVal(st, "shl", rt)
	case token.SHR:
		if q.isConst() && q.val.IsInt64() && q.val.Int64() < 64 {
			return mkb(EDiv(p, IB(new(big.Int).Lsh(bigOne, uint(q.val.Int64())))))
		}
		return x.freshVal(st, "shr", rt)
	}
	panic(unsupported("binop " + op.String()))
}

func (x *Exec) maskConst(st *State, p *Term, m *big.Int, rt types.Type) *Term {
	b := rt.Underlying().(*types.Basic)
	lo, hi := intRange(b)
	neg := m.Sign() < 0
	mm := m
	if neg { // two's complement: p & m = p - (p & ^m)
		mm = new(big.Int).Sub(new(big.Int).Neg(m), bigOne)
	}
	_ = lo
	_ = hi
	var sum []*Term
	bit := 0
	for bit < mm.BitLen() {
		if mm.Bit(bit) == 0 {
			bit++
			continue
		}
		e := bit
		for e < mm.BitLen() && mm.Bit(e) == 1 {
			e++
		}
		t := EMod(p, IB(new(big.Int).Lsh(bigOne, uint(e))))
		if bit > 0 {
			t = Sub(t, EMod(p, IB(new(big.Int).Lsh(bigOne, uint(bit)))))
		}
		sum = append(sum, t)
		bit = e
	}
	r := Add(append(sum, I(0))...)
	if neg {
		return Sub(p, r)
	}
	return r
}

func (x *Exec) bitOr(st *State, p, q *Term, rt types.Type) *Term {
	if p.isConst() && q.isConst() && p.val.Sign() >= 0 && q.val.Sign() >= 0 {
		return IB(new(big.Int).Or(p.val, q.val))
	}
	if iteConstLeaves(p, 64) && iteConstLeaves(q, 64) {
		return mapIte(p, func(a *Term) *Term {
			return mapIte(q, func(b *Term) *Term { return IB(new(big.Int).Or(a.val, b.val)) })
		})
	}
	// disjoint bits: p multiple of 2^n, 0 <= q < 2^n
	try := func(p, q *Term) *Term {
		if q.lo == nil || q.lo.Sign() < 0 {
			if !x.entails(st, Ge(q, I(0))) {
				return nil
			}
		}
		ns := []int{3, 8}
		if q.hi != nil && q.hi.BitLen() < 62 {
			ns = append([]int{q.hi.BitLen()}, ns...)
		}
		for _, n := range ns {
			m := IB(new(big.Int).Lsh(bigOne, uint(n)))
			if x.entails(st, Lt(q, m)) && x.entails(st, Eq(EMod(p, m), I(0))) {
				return Add(p, q)
			}
		}
		return nil
	}
	if r := try(p, q); r != nil {
		return x.wrap(st, r, rt)
	}
	if r := try(q, p); r != nil {
		return x.wrap(st, r, rt)
	}
	return x.freshVal(st, "or", rt).L[0]
}

// eqVal compares two values of the same (or comparable) types.
func (x *Exec) eqVal(st *State, a, b Val) *Term {
	switch u := a.T.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return x.strEq(strOf(a), strOf(b))
		}
		return Eq(a.L[0], b.L[0])
	case *types.Slice: // only against nil
		return Eq(a.L[0], b.L[0])
	case *types.Pointer:
		return And(Eq(a.L[0], b.L[0]), Eq(a.L[1], b.L[1]))
	case *types.Struct:
		cs := []*Term{}
		off := 0
		for f := 0; f < u.NumFields(); f++ {
			ft := u.Field(f).Type()
			n := nleaves(ft)
			cs = append(cs, x.eqVal(st, Val{ft, a.L[off : off+n]}, Val{ft, b.L[off : off+n]}))
			off += n
		}
		return And(cs...)
	case *types.Interface:
		if _, ok := b.T.Underlying().(*types.Interface); !ok {
			b = x.makeIface(st, b, a.T)
		}
		return x.eqIface(st, a, b)
	}
	if _, ok := b.T.Underlying().(*types.Interface); ok {
		return x.eqIface(st, x.makeIface(st, a, b.T), b)
	}
	cs := []*Term{}
	for k := range a.L {
		cs = append(cs, Eq(a.L[k], b.L[k]))
	}
	return And(cs...)
}

func (x *Exec) eqIface(st *State, a, b Val) *Term {
	if a.L[0] == b.L[0] && a.L[1] == b.L[1] {
		return True()
	}
	base := And(Eq(a.L[0], b.L[0]), Eq(a.L[1], b.L[1]))
	exact := func(v Val) bool {
		t := v.L[0]
		if !t.isConst() {
			return false
		}
		id := int(t.val.Int64())
		if id == 0 {
			return true
		}
		return !hasString(x.typeOf[id-1])
	}
	if exact(a) {
		if a.L[0].val.Sign() == 0 {
			return Eq(b.L[0], I(0))
		}
		return base
	}
	if exact(b) {
		if b.L[0].val.Sign() == 0 {
			return Eq(a.L[0], I(0))
		}
		return base
	}
	if a.L[0].isConst() && b.L[0].isConst() && a.L[0] == b.L[0] {
		t := x.typeOf[int(a.L[0].val.Int64())-1]
		return x.eqVal(st, Val{t, x.unbox(st, a.L[1], t)}, Val{t, x.unbox(st, b.L[1], t)})
	}
	if a.L[0].isConst() && b.L[0].isConst() {
		return False()
	}
	if x.inSpecForm > 0 {
		return base
	}
	v := Fresh("ieq", SBool)
	x.fact(Imp(base, v))
	x.fact(Imp(v, Eq(a.L[0], b.L[0])))
	return v
}

func hasString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasString(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasString(u.Elem())
	case *types.Interface:
		return true
	}
	return false
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func byteKey() string { return leafMemKey("byte", 0, leaves(types.Typ[types.Uint8])[0]) }

// bytesStr is the current content of a byte slice.
func (x *Exec) bytesStr(st *State, v Val) Str {
	return Str{Select(st.getMem(byteKey()), v.L[0]), v.L[1], v.L[2]}
}

// newBytes allocates a byte slice with the given content.
func (x *Exec) newBytes(st *State, s Str, t types.Type) Val {
	r := x.newRef(st)
	key := byteKey()
	st.mem[key] = Store(st.getMem(key), r, s.a)
	x.noteWrite(st, key, r, nil, nil)
	c := Fresh("cap", SInt)
	c.lo, c.hi = bigZero, maxLen
	x.fact(Le(s.l, c))
	return Val{t, []*Term{r, s.o, s.l, c}}
}

func (x *Exec) convert(st *State, v Val, t types.Type) Val {
	ft, tt := v.T.Underlying(), t.Underlying()
	if isString(v.T) {
		if isByteSlice(t) {
			return x.newBytes(st, strOf(v), t)
		}
		if isString(t) {
			return Val{t, v.L}
		}
		return x.freshVal(st, "runes", t)
	}
	if isString(t) {
		if isByteSlice(v.T) {
			s := x.bytesStr(st, v)
			return Val{t, []*Term{s.a, s.o, s.l}}
		}
		if fb, ok := ft.(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
			// string(rune): exact below 128
			r := x.freshVal(st, "runestr", t)
			c := v.L[0]
			asc := And(Ge(c, I(0)), Lt(c, I(128)))
			x.fact(Imp(asc, And(Eq(r.L[2], I(1)), Eq(Select(r.L[0], I(0)), c))))
			x.fact(And(Ge(r.L[2], I(1)), Le(r.L[2], I(4))))
			x.fact(Imp(Not(asc), Ge(Select(r.L[0], I(0)), I(128))))
			return r
		}
		return x.freshVal(st, "str", t)
	}
	fb, ok1 := ft.(*types.Basic)
	tb, ok2 := tt.(*types.Basic)
	if ok1 && ok2 {
		fi, ti := fb.Info()&types.IsInteger != 0, tb.Info()&types.IsInteger != 0
		if fi && ti {
			return Val{t, []*Term{x.wrap(st, v.L[0], t)}}
		}
		if fi || ti || isFloat(v.T) {
			r := App("conv."+fb.Name()+"."+tb.Name(), SInt, v.L[0])
			if ti {
				r.lo, r.hi = intRange(tb)
			}
			return Val{t, []*Term{r}}
		}
	}
	if len(v.L) == len(leaves(t)) {
		return Val{t, v.L}
	}
	panic(unsupported("convert " + v.T.String() + " to " + t.String()))
}

// hasType: the tag condition that an interface value implements/has type t.
func (x *Exec) hasType(st *State, tag *Term, t types.Type) *Term {
	if it, ok := t.Underlying().(*types.Interface); ok {
		var f func(tag *Term) *Term
		f = func(tag *Term) *Term {
			if tag.isConst() {
				id := int(tag.val.Int64())
				if id == 0 {
					return False()
				}
				if types.Implements(x.typeOf[id-1], it) {
					return True()
				}
				return False()
			}
			if tag.op == OIte {
				return Ite(tag.args[0], f(tag.args[1]), f(tag.args[2]))
			}
			k := types.TypeString(t, nil)
			v := App("implements."+sanitize(k), SBool, tag)
			if !tag.bv {
				x.fact(Imp(v, Ne(tag, I(0))))
			}
			return v
		}
		return f(tag)
	}
	return Eq(tag, I(int64(x.typeID(t))))
}

func (x *Exec) typeAssert(st *State, ins *ssa.TypeAssert) {
	v := x.val(st, ins.X)
	t := ins.AssertedType
	ok := x.hasType(st, v.L[0], t)
	var out []*Term
	if _, isI := t.Underlying().(*types.Interface); isI {
		out = v.L
	} else {
		out = x.unbox(st, v.L[1], t)
	}
	if !ins.CommaOk {
		x.safety(st, "type assertion", ok)
		x.set(st, ins, Val{t, out})
		return
	}
	z := zeroVal(t).L
	m := make([]*Term, len(out))
	for k := range out {
		m[k] = Ite(ok, out[k], z[k])
	}
	x.set(st, ins, Val{ins.Type(), append(m, ok)})
}

// next advances a range iterator.
func (x *Exec) next(st *State, ins *ssa.Next) {
	it := x.eval(st, ins.Iter).(*iterVal)
	if it.m != nil {
		left := st.cells[it.cell][0]
		ok := Gt(left, I(0))
		st.cells[it.cell] = []*Term{Ite(ok, Sub(left, I(1)), left)}
		tt := ins.Type().(*types.Tuple)
		mt := it.m.T.Underlying().(*types.Map)
		k := x.freshVal(st, "key", mt.Key())
		val := x.mapLookup(st, *it.m, k, true, types.NewTuple(types.NewVar(0, nil, "", mt.Elem()), types.NewVar(0, nil, "", types.Typ[types.Bool])))
		n := len(val.L) - 1
		x.assume(st, Imp(ok, val.L[n]))
		dk := x.mapKeys(it.m.T)[0]
		d := st.getMem(dk)
		seen := Select(d, it.seen.L[0])
		kt := x.keyTerm(k)
		x.assume(st, Imp(ok, Not(Select(seen, kt))))
		bv := BVar()
		x.assume(st, Imp(Not(ok), Forall(bv, Or(Not(Select(it.dom0, bv)), Not(Select(Select(d, it.m.L[0]), bv)), Select(seen, bv)))))
		st.mem[dk] = Store(d, it.seen.L[0], Store(seen, kt, Or(ok, Select(seen, kt))))
		x.noteWrite(st, dk, it.seen.L[0], nil, nil)
		var out []*Term
		out = append(out, ok)
		// components may be typed invalid when unused
		if nleaves(tt.At(1).Type()) > 0 {
			out = append(out, k.L...)
		}
		if nleaves(tt.At(2).Type()) > 0 {
			out = append(out, val.L[:n]...)
		}
		x.set(st, ins, Val{ins.Type(), out})
		return
	}
	s := *it.s
	i := st.cells[it.cell][0]
	ok := Lt(i, s.l)
	b0 := s.at(i)
	hi := Fresh("rune", SInt)
	hi.lo, hi.hi = big64(128), big64(0x10ffff)
	w := Fresh("w", SInt)
	w.lo, w.hi = bigOne, big64(4)
	x.assume(st, Imp(And(ok, Lt(b0, I(128))), Eq(w, I(1))))
	x.assume(st, Imp(ok, Le(Add(i, w), s.l)))
	for k := int64(1); k < 4; k++ {
		x.assume(st, Imp(And(ok, Lt(I(k), w)), Ge(s.at(Add(i, I(k))), I(128))))
	}
	r := Ite(Lt(b0, I(128)), b0, hi)
	st.cells[it.cell] = []*Term{Ite(ok, Add(i, w), i)}
	tt := ins.Type().(*types.Tuple)
	out := []*Term{ok}
	if nleaves(tt.At(1).Type()) > 0 {
		out = append(out, i)
	}
	if nleaves(tt.At(2).Type()) > 0 {
		out = append(out, r)
	}
	x.set(st, ins, Val{ins.Type(), out})
}

func termString(t *Term) string {
	p := newPrinter()
	p.count(t)
	s := p.str(t)
	return p.defs.String() + s
}

func shortFn(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/nathanaelle/syslog5424/v2/sdata/", "")
	s = strings.ReplaceAll(s, "github.com/nathanaelle/syslog5424/v2/", "")
	s = strings.ReplaceAll(s, "github.com/nathanaelle/syslog5424/v2", "syslog5424")
	return s
}
