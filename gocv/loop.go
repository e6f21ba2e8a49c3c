package main

// Loops: full unrolling when the trip count is bounded, otherwise invariants
// found by classification of the loop variables and Houdini over candidates.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const unrollLimit = 10

// Hints survive the symbolic rounds of one harness.
type Hints struct {
	noUnroll map[string]bool
	mode     map[string]int  // loop+leaf -> forced mode
	memFull  map[string]bool // loop+memory key havocked entirely
	memKey   map[string]bool // loop+memory key known to be written
	disabled map[string]bool // candidates and clauses found not to hold
}

func newHints() *Hints {
	return &Hints{map[string]bool{}, map[string]int{}, map[string]bool{}, map[string]bool{}, map[string]bool{}}
}

type restart struct{ why string }

const (
	lConst = iota
	lAffine
	lUnknown
)

type loopLeaf struct {
	phi   *ssa.Phi
	cell  int
	k     int
	name  string
	l     leaf
	entry *Term
	mode  int
	group int // affine: index in groups
	coef  int64
	unk   *Term // unknown: header variable
}

type loopGroup struct {
	v *Term // counter, 0 at entry
}

type loopMem struct {
	key  string
	full bool
	ws   []*Term
	nv   *Term // fresh memory at the header
	old  *Term
}

type loopCtx struct {
	key    string
	alloc0 *Term
	allocH *Term
	maxID  int
	n      *Term
	leaves []*loopLeaf
	groups []*loopGroup
	mem    map[string]*loopMem
	memOrd []string
	st0    *State
	strict bool // final run: record frame obligations
	pcH    *Term
}

type snap struct {
	nf, no, nfuncs, nsk int
	rets, defers        int
	wf                  map[[2]int]bool
	named, defs         map[int]*Term
	attr                map[int][2]int
	cand                map[int]string
	orig                map[int][]*Term
}

func (x *Exec) snapshot(fr *Frame) *snap {
	s := &snap{nf: len(x.facts), no: len(x.obls), nfuncs: len(x.funcs), nsk: len(x.skeys), rets: len(fr.rets), defers: len(fr.defers),
		wf: map[[2]int]bool{}, named: map[int]*Term{}, defs: map[int]*Term{}, attr: map[int][2]int{}, cand: map[int]string{}, orig: map[int][]*Term{}}
	for k, v := range x.wfSeen {
		s.wf[k] = v
	}
	for k, v := range x.named {
		s.named[k] = v
	}
	for k, v := range x.defsOf {
		s.defs[k] = v
	}
	for k, v := range refAttr {
		s.attr[k] = v
	}
	for k, v := range x.candOf {
		s.cand[k] = v
	}
	for k, v := range x.refOrigin {
		s.orig[k] = v
	}
	x.orc.push()
	return s
}

func (x *Exec) rollback(fr *Frame, s *snap) {
	x.facts = x.facts[:s.nf:s.nf]
	x.obls = x.obls[:s.no:s.no]
	x.skeys = x.skeys[:s.nsk:s.nsk]
	fr.rets = fr.rets[:s.rets:s.rets]
	fr.defers = fr.defers[:s.defers:s.defers]
	x.wfSeen, x.named, x.defsOf, refAttr, x.candOf, x.refOrigin = s.wf, s.named, s.defs, s.attr, s.cand, s.orig
	x.orc.pop()
}

func (x *Exec) execLoop(fr *Frame, b *ssa.BasicBlock, in []edge) []edge {
	st0 := x.joinEdges(fr, b, in)
	body := fr.loops[b]
	key := fmt.Sprintf("%s@%s.%d", fr.path, shortFn(fr.fn), b.Index)
	if x.target != nil && !specFn(fr.fn) {
		if _, ok := x.target.Opt["nounroll"]; ok {
			x.h.noUnroll[key] = true
		}
	}
	if !x.h.noUnroll[key] {
		s := x.snapshot(fr)
		wl := x.writes
		x.writes = &writeLog{map[string]map[int]*Term{}}
		exits, ok := x.unroll(fr, b, st0.clone(), body)
		w := x.writes
		x.writes = wl
		if ok {
			x.orc.keep()
			x.mergeWrites(w)
			return exits
		}
		x.rollback(fr, s)
		x.h.noUnroll[key] = true
	}
	return x.loopInv(fr, b, st0, body, key)
}

func (x *Exec) mergeWrites(w *writeLog) {
	if x.writes == nil {
		return
	}
	for k, m := range w.keys {
		for _, r := range m {
			mm := x.writes.keys[k]
			if mm == nil {
				mm = map[int]*Term{}
				x.writes.keys[k] = mm
			}
			mm[r.id] = r
		}
	}
}

func (x *Exec) unroll(fr *Frame, b *ssa.BasicBlock, st *State, body map[*ssa.BasicBlock]bool) ([]edge, bool) {
	cur := []edge{{nil, b, st}}
	var all []edge
	nobl := len(x.obls)
	for it := 0; it < unrollLimit; it++ {
		exits, backs := x.region(fr, b, b, cur, body)
		all = append(all, exits...)
		cur = nil
		for _, e := range backs {
			if x.infeasible(e.st) {
				continue
			}
			cur = append(cur, e)
		}
		if len(cur) == 0 {
			return all, true
		}
		if len(x.obls)-nobl > 400 {
			return nil, false
		}
	}
	return nil, false
}

func (x *Exec) infeasible(st *State) bool {
	if st.pc.isFalse() {
		return true
	}
	s := *st
	s.pc = True()
	return x.entails(&s, Not(st.pc))
}

func (x *Exec) collectLeaves(b *ssa.BasicBlock, st *State, L *loopCtx) {
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v, ok := st.env[p].(Val)
		if !ok {
			continue
		}
		ls := leaves(v.T)
		for k := range ls {
			L.leaves = append(L.leaves, &loopLeaf{phi: p, k: k, name: fmt.Sprintf("%s.%d", p.Comment, k), l: ls[k], entry: v.L[k]})
		}
	}
	var ids []int
	for id := range st.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for ci, id := range ids {
		var ls []leaf
		if ci, ok := x.cellOf[id]; ok {
			if ls = leaves(ci.T); len(ls) != len(st.cells[id]) {
				ls = nil
			}
		}
		for k, t := range st.cells[id] {
			if ls != nil {
				L.leaves = append(L.leaves, &loopLeaf{cell: id, k: k, name: fmt.Sprintf("cell%d.%d", ci, k), l: ls[k], entry: t})
				continue
			}
			L.leaves = append(L.leaves, &loopLeaf{cell: id, k: k, name: fmt.Sprintf("cell%d.%d", ci, k), l: leaf{sort: t.sort, kind: kOpaq}, entry: t})
		}
	}
	for i, f := range L.leaves {
		f.name = fmt.Sprintf("%d:%s", i, f.name)
		if m, ok := x.h.mode[L.key+"/"+f.name]; ok {
			f.mode = m
		}
	}
}

func (L *loopCtx) headTerm(x *Exec, f *loopLeaf) *Term {
	switch f.mode {
	case lConst:
		return f.entry
	case lAffine:
		return Add(f.entry, Mul(I(f.coef), L.groups[f.group].v))
	}
	if f.unk == nil {
		v := Fresh("lv."+strings.TrimLeft(f.name, "0123456789:"), f.l.sort)
		if f.l.sort == SInt {
			v.lo, v.hi = f.l.lo, f.l.hi
		} else if f.l.sort != SBool {
			v.elo, v.ehi = f.l.lo, f.l.hi
		}
		f.unk = v
	}
	return f.unk
}

// header builds the state at the loop head for an arbitrary iteration.
func (x *Exec) header(b *ssa.BasicBlock, L *loopCtx) *State {
	h := L.st0.clone()
	if L.n == nil {
		L.n = Fresh("n", SInt)
		L.n.lo, L.n.hi = bigZero, new(big.Int).Lsh(bigOne, 47)
		L.groups = append([]*loopGroup{{v: L.n}}, L.groups...)
	}
	if L.allocH == nil {
		L.allocH = x.newEpoch(h, L.alloc0)
	} else {
		x.fact(Imp(h.pc, Le(L.alloc0, L.allocH)))
	}
	h.alloc = L.allocH
	for _, key := range L.memOrd {
		m := L.mem[key]
		if m.nv == nil {
			mi := memReg[key]
			m.nv = Fresh("ML."+key, mi.sort)
			m.nv.elo, m.nv.ehi = mi.elo, mi.ehi
			h.noteMem(m.nv)
		}
		m.old = L.st0.getMem(key)
		if m.full {
			h.mem[key] = m.nv
		} else {
			h.mem[key] = FrameArr(m.nv, m.old, L.alloc0, m.ws...)
		}
	}
	vals := map[*ssa.Phi][]*Term{}
	cells := map[int][]*Term{}
	for _, f := range L.leaves {
		t := L.headTerm(x, f)
		_, typed := x.cellOf[f.cell]
		if f.phi != nil || typed && f.mode != lConst {
			if f.mode != lConst && f.l.sort == SInt && !t.bv {
				if f.l.lo != nil && (t.lo == nil || t.lo.Cmp(f.l.lo) < 0) {
					x.fact(Imp(h.pc, Le(IB(f.l.lo), t)))
				}
				if f.l.hi != nil && (t.hi == nil || t.hi.Cmp(f.l.hi) > 0) {
					x.fact(Imp(h.pc, Le(t, IB(f.l.hi))))
				}
			}
			if f.mode == lUnknown {
				x.noteLeaf(h, t, f.l)
				if f.l.kind == kRef {
					x.refOrigin[t.id] = []*Term{f.entry}
				}
			}
		}
		if f.phi != nil {
			vals[f.phi] = append(vals[f.phi], t)
		} else {
			cells[f.cell] = append(cells[f.cell], t)
		}
	}
	for p, v := range vals {
		h.env[p] = Val{p.Type(), v}
		x.wellFormedPC(h, p.Type(), v)
	}
	for id, v := range cells {
		h.cells[id] = v
		if ci, ok := x.cellOf[id]; ok {
			same := true
			for k := range v {
				same = same && v[k] == L.st0.cells[id][k]
			}
			if !same {
				x.wellFormedPC(h, ci.T, v)
			}
		}
	}
	return h
}

// wellFormedPC states the representation invariant even when the parts were seen before.
type cellInfo struct {
	T    types.Type
	name string
	fn   *ssa.Function
}

func (x *Exec) wellFormedPC(st *State, t types.Type, v []*Term) {
	if _, ok := t.Underlying().(*types.Slice); ok {
		delete(x.wfSeen, [2]int{v[2].id, v[3].id})
	}
	x.wellFormed(st, t, v)
}

func (x *Exec) backVal(f *loopLeaf, b *ssa.BasicBlock, e edge) *Term {
	if f.phi != nil {
		switch v := x.eval(e.st, phiArg(f.phi, e.from)).(type) {
		case Val:
			return v.L[f.k]
		case Addr:
			return x.addrVal(v, f.phi.Type()).L[f.k]
		}
		panic(unsupported("loop variable"))
	}
	c, ok := e.st.cells[f.cell]
	if !ok {
		panic(unsupported("cell lost in loop"))
	}
	return c[f.k]
}

// classify refines the modes from the back edges; reports whether something changed.
func (x *Exec) classify(b *ssa.BasicBlock, L *loopCtx, backs []edge, w *writeLog) bool {
	changed := false
	type dl struct {
		f *loopLeaf
		d []*Term
	}
	var aff []dl
	for _, f := range L.leaves {
		if f.mode == lUnknown {
			continue
		}
		h := L.headTerm(x, f)
		same := true
		var ds []*Term
		for _, e := range backs {
			v := x.backVal(f, b, e)
			if v != h {
				same = false
			}
			if f.l.sort == SInt {
				ds = append(ds, Sub(v, h))
			}
		}
		if f.mode == lConst && same {
			continue
		}
		if f.l.sort != SInt || f.l.kind == kRef || f.l.kind == kTag || f.l.kind == kPay || f.l.kind == kFunc || x.h.mode[L.key+"/"+f.name] == lUnknown {
			f.mode = lUnknown
			changed = true
			continue
		}
		aff = append(aff, dl{f, ds})
	}
	// group the integer leaves by their steps
	groups := []*loopGroup{{v: L.n}}
	var reps [][]*Term
	one := make([]*Term, len(backs))
	for i := range one {
		one[i] = I(1)
	}
	reps = append(reps, one)
	for _, a := range aff {
		found := false
		// constant step: multiple of n
		c, isC := int64(0), true
		for i, d := range a.d {
			if !d.isConst() || !d.val.IsInt64() || i > 0 && d.val.Int64() != c {
				isC = false
				break
			}
			c = d.val.Int64()
		}
		if isC {
			if a.f.mode != lAffine || a.f.group != 0 || a.f.coef != c {
				changed = true
			}
			a.f.mode, a.f.group, a.f.coef = lAffine, 0, c
			continue
		}
		for g := 1; g < len(reps); g++ {
			for _, s := range []int64{1, -1} {
				ok := true
				for i := range a.d {
					if Mul(I(s), reps[g][i]) != a.d[i] {
						ok = false
						break
					}
				}
				if ok {
					if a.f.mode != lAffine || a.f.group != g || a.f.coef != s {
						changed = true
					}
					a.f.mode, a.f.group, a.f.coef = lAffine, g, s
					found = true
					break
				}
			}
			if found {
				break
			}
		}
		if found {
			continue
		}
		reps = append(reps, a.d)
		groups = append(groups, nil)
		g := len(reps) - 1
		s := int64(1)
		if a.f.mode != lAffine || a.f.group != g || a.f.coef != s {
			changed = true
		}
		a.f.mode, a.f.group, a.f.coef = lAffine, g, s
	}
	for g := 1; g < len(groups); g++ {
		if g < len(L.groups) {
			groups[g] = L.groups[g]
		} else {
			v := Fresh("g", SInt)
			groups[g] = &loopGroup{v: v}
		}
	}
	if len(L.groups) > len(groups) {
		L.groups = L.groups[:len(groups)]
	}
	L.groups = groups
	// memory
	var keys []string
	for k := range w.keys {
		keys = append(keys, k)
	}
	for k := range x.h.memKey {
		if strings.HasPrefix(k, L.key+"|") {
			kk := strings.TrimPrefix(k, L.key+"|")
			if w.keys[kk] == nil {
				keys = append(keys, kk)
			}
		}
	}
	sort.Strings(keys)
	for _, key := range keys {
		m := L.mem[key]
		if m == nil {
			m = &loopMem{key: key}
			L.mem[key] = m
			L.memOrd = append(L.memOrd, key)
			changed = true
		}
		if x.h.memFull[L.key+"|"+key] && !m.full {
			m.full = true
			changed = true
		}
		if m.full {
			continue
		}
		var ids []int
		for id := range w.keys[key] {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			for _, r := range iteLeaves(w.keys[key][id]) {
				if x.addLoopWrite(L, m, r, 0) {
					changed = true
				}
			}
		}
	}
	sort.Strings(L.memOrd)
	return changed
}

func iteLeaves(t *Term) []*Term {
	var out []*Term
	vis := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if vis[t.id] {
			return
		}
		vis[t.id] = true
		if t.op == OIte {
			walk(t.args[1])
			walk(t.args[2])
			return
		}
		out = append(out, t)
	}
	walk(t)
	return out
}

func (x *Exec) addLoopWrite(L *loopCtx, m *loopMem, r *Term, d int) bool {
	if m.full {
		return false
	}
	if freshSince(r, L.alloc0).isTrue() {
		return false
	}
	for _, w := range m.ws {
		if w == r {
			return false
		}
	}
	if o, ok := x.refOrigin[r.id]; ok && d < 6 {
		ch := false
		for _, t := range o {
			for _, q := range iteLeaves(t) {
				if x.addLoopWrite(L, m, q, d+1) {
					ch = true
				}
			}
		}
		return ch
	}
	if x.preLoop(L, r) {
		m.ws = append(m.ws, r)
		m.nv = nil
		return true
	}
	m.full = true
	m.nv = nil
	return true
}

// preLoop: the term only mentions symbols that existed before the loop.
func (x *Exec) preLoop(L *loopCtx, t *Term) bool {
	for _, s := range symbols(t) {
		if s > L.maxID {
			return false
		}
	}
	return true
}

func (x *Exec) checkLoopWrite(st *State, L *loopCtx, key string, r *Term) {
	if !L.strict {
		return
	}
	m := L.mem[key]
	if m == nil {
		x.h.memKey[L.key+"|"+key] = true
		panic(restart{"memory " + key + " written in " + L.key})
	}
	if m.full {
		return
	}
	cs := []*Term{freshSince(r, L.alloc0)}
	for _, w := range m.ws {
		cs = append(cs, Eq(r, w))
	}
	c := Or(cs...)
	if c.isTrue() {
		return
	}
	x.obls = append(x.obls, &Oblig{Name: "loop frame " + key, Kind: "inv", Goal: Imp(st.pc, c), NF: len(x.facts), Loop: L.key, Cand: "mem|" + L.key + "|" + key, Pos: x.posStr()})
}

type cand struct {
	key string
	t   *Term
}

func (x *Exec) loopInv(fr *Frame, b *ssa.BasicBlock, st0 *State, body map[*ssa.BasicBlock]bool, key string) []edge {
	L := &loopCtx{key: key, alloc0: st0.alloc, maxID: tc.next, mem: map[string]*loopMem{}, st0: st0, pcH: st0.pc}
	x.collectLeaves(b, st0, L)
	for k := range x.h.memKey {
		if strings.HasPrefix(k, key+"|") {
			kk := strings.TrimPrefix(k, key+"|")
			L.mem[kk] = &loopMem{key: kk, full: x.h.memFull[k]}
			L.memOrd = append(L.memOrd, kk)
		}
	}
	sort.Strings(L.memOrd)
	x.loopFrames = append(x.loopFrames, L)
	defer func() { x.loopFrames = x.loopFrames[:len(x.loopFrames)-1] }()
	outerW := x.writes
	var cands []cand
	var hs *State
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("loop classification does not converge in " + shortFn(fr.fn)))
		}
		s := x.snapshot(fr)
		x.noOblig++
		hs = x.header(b, L)
		x.writes = &writeLog{map[string]map[int]*Term{}}
		w := x.writes
		_, backs := x.region(fr, b, b, []edge{{nil, b, hs.clone()}}, body)
		x.noOblig--
		var bk []edge
		for _, e := range backs {
			if !x.infeasible(e.st) {
				bk = append(bk, e)
			}
		}
		ch := x.classify(b, L, bk, w)
		if !ch {
			cands = x.candidates(fr, b, L, hs, bk)
		}
		x.rollback(fr, s)
		if !ch {
			break
		}
	}
	// the final run
	L.strict = true
	hs = x.header(b, L)
	ent := x.entrySubst(L)
	var live []cand
	for _, c := range cands {
		if x.h.disabled[c.key] {
			continue
		}
		live = append(live, c)
		g := Subst(c.t, ent)
		x.obls = append(x.obls, &Oblig{Name: "loop invariant established", Kind: "inv", Goal: Imp(st0.pc, g), NF: len(x.facts), Loop: key, Cand: c.key, Pos: x.posStr()})
	}
	for _, c := range live {
		f := Imp(hs.pc, c.t)
		if f.isTrue() {
			continue
		}
		x.facts = append(x.facts, f)
		x.candOf[len(x.facts)-1] = c.key
	}
	x.writes = &writeLog{map[string]map[int]*Term{}}
	w := x.writes
	exits, backs := x.region(fr, b, b, []edge{{nil, b, hs.clone()}}, body)
	x.writes = outerW
	x.mergeWrites(w)
	// writes to the header memories belong to the enclosing loop's writes too
	if x.writes != nil {
		for _, k := range L.memOrd {
			m := L.mem[k]
			mm := x.writes.keys[k]
			if mm == nil {
				mm = map[int]*Term{}
				x.writes.keys[k] = mm
			}
			if m.full {
				t := Fresh("anyref", SInt)
				mm[t.id] = t
				continue
			}
			for _, r := range m.ws {
				mm[r.id] = r
			}
		}
	}
	for k := range w.keys {
		if L.mem[k] == nil {
			x.h.memKey[key+"|"+k] = true
			panic(restart{"memory " + k})
		}
	}
	var bk []edge
	for _, e := range backs {
		if !x.infeasible(e.st) {
			bk = append(bk, e)
		}
	}
	for _, e := range bk {
		sub := x.backSubst(b, L, e)
		// affine and constant leaves keep their form
		for _, f := range L.leaves {
			if f.mode == lUnknown {
				continue
			}
			want := Subst(L.headTerm(x, f), sub)
			got := x.backVal(f, b, e)
			if want == got {
				continue
			}
			if f.l.sort != SInt && f.l.sort != SBool {
				x.h.mode[L.key+"/"+f.name] = lUnknown
				panic(restart{"leaf form " + f.name})
			}
			x.obls = append(x.obls, &Oblig{Name: "loop variable form", Kind: "inv", Goal: Imp(e.st.pc, Eq(want, got)), NF: len(x.facts), Loop: key, Cand: "leaf|" + L.key + "/" + f.name, Pos: x.posStr()})
		}
		for _, c := range live {
			g := Imp(e.st.pc, Subst(c.t, sub))
			if g.isTrue() {
				continue
			}
			x.obls = append(x.obls, &Oblig{Name: "loop invariant preserved", Kind: "inv", Goal: g, NF: len(x.facts), Loop: key, Cand: c.key, Pos: x.posStr()})
		}
	}
	x.termination(fr, b, L, hs, bk)
	return exits
}

// entrySubst maps the header variables to their values on entry.
func (x *Exec) entrySubst(L *loopCtx) map[int]*Term {
	m := map[int]*Term{}
	for _, g := range L.groups {
		m[g.v.id] = I(0)
	}
	for _, f := range L.leaves {
		if f.mode == lUnknown {
			m[L.headTerm(x, f).id] = f.entry
		}
	}
	for _, k := range L.memOrd {
		m[L.mem[k].nv.id] = L.mem[k].old
	}
	return m
}

func (x *Exec) backSubst(b *ssa.BasicBlock, L *loopCtx, e edge) map[int]*Term {
	m := map[int]*Term{}
	for i, g := range L.groups {
		if i == 0 {
			m[g.v.id] = Add(g.v, I(1))
			continue
		}
		for _, f := range L.leaves {
			if f.mode == lAffine && f.group == i {
				d := Sub(x.backVal(f, b, e), L.headTerm(x, f))
				m[g.v.id] = Add(g.v, Mul(I(f.coef), d))
				break
			}
		}
	}
	for _, f := range L.leaves {
		if f.mode == lUnknown {
			m[L.headTerm(x, f).id] = x.backVal(f, b, e)
		}
	}
	for _, k := range L.memOrd {
		m[L.mem[k].nv.id] = e.st.getMem(k)
	}
	return m
}

// ---- candidate invariants

func (x *Exec) candidates(fr *Frame, b *ssa.BasicBlock, L *loopCtx, hs *State, backs []edge) []cand {
	var out []cand
	seen := map[int]bool{}
	cnt := map[string]int{}
	add := func(kind string, t *Term) {
		cnt[kind]++
		if t.isTrue() || t.isFalse() || seen[t.id] || t.bv {
			return
		}
		seen[t.id] = true
		out = append(out, cand{fmt.Sprintf("%s#%s%d", L.key, kind, cnt[kind]), t})
	}
	hv := map[int]bool{}
	for _, g := range L.groups {
		hv[g.v.id] = true
	}
	var unk []*loopLeaf
	for _, f := range L.leaves {
		if f.mode == lUnknown {
			hv[L.headTerm(x, f).id] = true
			unk = append(unk, f)
		}
	}
	memv := map[int]bool{}
	for _, k := range L.memOrd {
		memv[L.mem[k].nv.id] = true
	}
	headConj := map[int]bool{}
	for _, c := range conjuncts(hs.pc) {
		headConj[c.id] = true
	}
	// user templates
	for i, t := range x.userInvs(fr, b, L, hs) {
		_ = i
		for _, c := range conjuncts(t.t) {
			add("user."+t.key, c)
		}
	}
	// groups grow
	for i, g := range L.groups {
		if i > 0 {
			add("mono", Ge(g.v, I(0)))
			add("anti", Le(g.v, I(0)))
			add("rel", Le(L.n, g.v))
		}
	}
	// unknown references: the entry object or something allocated in the loop
	for _, f := range unk {
		t := L.headTerm(x, f)
		if f.l.kind == kRef && f.l.depth == 0 {
			add("ref", Or(Eq(t, f.entry), Ge(t, L.alloc0)))
		}
		if f.l.sort == SInt && (f.l.kind == kInt || f.l.kind == kLen) {
			add("lo", Ge(t, f.entry))
			add("hi", Le(t, f.entry))
			if f.l.kind == kLen {
				add("ln", Le(Add(f.entry, L.n), t))
			}
		}
	}
	// what held on every completed iteration
	only := func(t *Term, okv func(id int) bool) bool {
		for _, s := range symbols(t) {
			if s > L.maxID && !okv(s) {
				return false
			}
		}
		return true
	}
	var disj []*Term
	perEdge := [][]*Term{}
	for _, e := range backs {
		var cs []*Term
		for _, c := range conjuncts(e.st.pc) {
			if !headConj[c.id] {
				cs = append(cs, c)
			}
		}
		perEdge = append(perEdge, cs)
		disj = append(disj, And(cs...))
	}
	D := Or(disj...)
	var conj []*Term
	for _, c := range conjuncts(D) {
		conj = append(conj, c)
	}
	if len(perEdge) > 1 {
		// weakened disjunction without the parts that cannot be generalised
		var ws []*Term
		for _, cs := range perEdge {
			var k []*Term
			for _, c := range cs {
				if only(c, func(id int) bool { return hv[id] }) {
					k = append(k, c)
				}
			}
			ws = append(ws, And(k...))
		}
		W := Or(ws...)
		conj = append(conj, conjuncts(W)...)
	}
	for gi, g := range L.groups {
		for _, c := range conj {
			if !mentions(c, g.v) {
				continue
			}
			if !only(c, func(id int) bool { return id == g.v.id }) {
				continue
			}
			if gi == 0 && !selectDepends(c, g.v) {
				add("prev", Or(Eq(g.v, I(0)), Subst(c, map[int]*Term{g.v.id: Sub(g.v, I(1))})))
			} else {
				k := BVar()
				add("all", Forall(k, Or(Lt(k, I(0)), Ge(k, g.v), Subst(c, map[int]*Term{g.v.id: k}))))
			}
		}
	}
	for _, c := range conj {
		ground := only(c, func(id int) bool { return false })
		if ground {
			add("once", Or(Eq(L.n, I(0)), c))
			continue
		}
		if len(unk) == 0 && len(L.groups) <= 1 {
			continue
		}
		if !only(c, func(id int) bool { return hv[id] }) {
			continue
		}
		// relaxations of linear atoms over the loop variables
		for _, a := range atomsOf(c) {
			if a.op == OLe {
				add("at", a)
				add("at1", Le(a.args[0], I(1)))
			} else if a.op == ONot && a.args[0].op == OEq || a.op == OEq {
				e := a
				if a.op == ONot {
					e = a.args[0]
				}
				if e.args[0].sort == SInt {
					add("le", Le(e.args[0], e.args[1]))
					add("ge", Ge(e.args[0], e.args[1]))
				}
			} else {
				add("b", a)
			}
		}
	}
	// bounds that mention the affine leaves against the entry lengths
	for _, f := range L.leaves {
		if f.mode == lAffine && f.group > 0 && f.l.kind == kLen {
			add("rng", Ge(L.headTerm(x, f), I(0)))
		}
	}
	// pairs of unknown integers
	var ints []*loopLeaf
	for _, f := range unk {
		if f.l.sort == SInt && f.l.kind == kInt {
			ints = append(ints, f)
		}
	}
	if len(ints) <= 4 {
		for i, f := range ints {
			for _, g := range ints[i+1:] {
				a, c := L.headTerm(x, f), L.headTerm(x, g)
				add("ple", Le(a, c))
				add("pge", Ge(a, c))
			}
			add("pn", Le(L.headTerm(x, f), Add(f.entry, L.n)))
		}
	}
	x.pointwise(L, hs, backs, add)
	return out
}

func mentions(t, v *Term) bool {
	for _, s := range symbols(t) {
		if s == v.id {
			return true
		}
	}
	return false
}

// selectDepends: some array index, application or quantifier depends on v.
func selectDepends(t, v *Term) bool {
	vis := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if vis[t.id] {
			return false
		}
		vis[t.id] = true
		if (t.op == OSelect || t.op == OApp || t.op == OForall || t.op == OCopy || t.op == OStore) && mentions(t, v) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func atomsOf(t *Term) []*Term {
	var out []*Term
	vis := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if vis[t.id] || len(out) > 200 {
			return
		}
		vis[t.id] = true
		if t.op == OAnd || t.op == OOr {
			for _, a := range t.args {
				walk(a)
			}
			return
		}
		out = append(out, t)
	}
	walk(t)
	return out
}

// pointwise recognises loops that rewrite one element per iteration.
func (x *Exec) pointwise(L *loopCtx, hs *State, backs []edge, add func(string, *Term)) {
	if len(backs) == 0 {
		return
	}
	for _, key := range L.memOrd {
		m := L.mem[key]
		if m.full || len(m.ws) == 0 || len(m.ws) > 3 {
			continue
		}
		for _, w := range m.ws {
			h := Select(m.nv, w)
			a0 := Select(m.old, w)
			var idx *Term
			ok := true
			var hb *Term
			for i := len(backs) - 1; i >= 0; i-- {
				t := Select(backs[i].st.getMem(key), w)
				if hb == nil {
					hb = t
				} else {
					hb = Ite(backs[i].st.pc, t, hb)
				}
			}
			vis := map[int]bool{}
			var walk func(t *Term)
			walk = func(t *Term) {
				if vis[t.id] || !ok {
					return
				}
				vis[t.id] = true
				switch t.op {
				case OIte:
					walk(t.args[1])
					walk(t.args[2])
				case OStore:
					if idx == nil {
						idx = t.args[1]
					} else if idx != t.args[1] {
						ok = false
					}
					walk(t.args[0])
				default:
					if t != h {
						ok = false
					}
				}
			}
			walk(hb)
			if !ok || idx == nil {
				continue
			}
			c, neg, lin := linIn(idx, L.n)
			if !lin || !x.preLoop(L, c) {
				continue
			}
			V := Select(hb, idx)
			V = Subst(V, map[int]*Term{Select(h, idx).id: Select(a0, idx)})
			k := BVar()
			var n, touched *Term
			if neg {
				n = Sub(c, k)
				touched = And(Lt(Sub(c, L.n), k), Le(k, c))
			} else {
				n = Sub(k, c)
				touched = And(Le(c, k), Lt(k, Add(c, L.n)))
			}
			good := true
			for _, s := range symbols(V) {
				if s > L.maxID && s != L.n.id {
					good = false
				}
			}
			if good {
				Vk := Subst(V, map[int]*Term{L.n.id: n})
				add("upd", Forall(k, Or(Not(touched), Eq(Select(h, k), Vk))))
			}
			add("keep", Forall(k, Or(touched, Eq(Select(h, k), Select(a0, k)))))
		}
	}
}

// ---- termination

func (x *Exec) termination(fr *Frame, b *ssa.BasicBlock, L *loopCtx, hs *State, backs []edge) {
	if len(backs) == 0 || x.noOblig > 0 {
		return
	}
	var ms []*Term
	seen := map[int]bool{}
	addm := func(t *Term) {
		if !seen[t.id] {
			seen[t.id] = true
			ms = append(ms, t)
		}
	}
	for _, f := range L.leaves {
		if f.mode != lConst && f.l.kind == kLen {
			addm(L.headTerm(x, f))
		}
	}
	for _, e := range backs {
		for _, c := range conjuncts(e.st.pc) {
			for _, a := range atomsOf(c) {
				switch a.op {
				case OLe:
					addm(Neg(a.args[0]))
				case ONot:
					if a.args[0].op == OEq && a.args[0].args[0].sort == SInt {
						addm(Sub(a.args[0].args[0], a.args[0].args[1]))
						addm(Sub(a.args[0].args[1], a.args[0].args[0]))
					}
				case OEq:
				}
			}
		}
	}
	var good []*Term
	for _, m := range ms {
		dep := false
		for _, g := range L.groups {
			if mentions(m, g.v) {
				dep = true
			}
		}
		for _, f := range L.leaves {
			if f.mode == lUnknown && f.unk != nil && mentions(m, f.unk) {
				dep = true
			}
		}
		if !dep || hasQuant(m) {
			continue
		}
		ok := true
		for _, s := range symbols(m) {
			if s > L.maxID {
				isH := false
				for _, g := range L.groups {
					if g.v.id == s {
						isH = true
					}
				}
				for _, f := range L.leaves {
					if f.mode == lUnknown && f.unk != nil && f.unk.id == s {
						isH = true
					}
				}
				if !isH {
					ok = false
				}
			}
		}
		if ok {
			good = append(good, m)
		}
	}
	var goals []*Term
	for _, m := range good {
		var cs []*Term
		for _, e := range backs {
			sub := x.backSubst(b, L, e)
			mb := Subst(m, sub)
			cs = append(cs, Imp(e.st.pc, And(Ge(m, I(0)), Lt(mb, m))))
		}
		g := And(cs...)
		goals = append(goals, g)
	}
	if x.target.has("noterm") {
		return
	}
	x.obls = append(x.obls, &Oblig{Name: "loop terminates in " + shortFn(fr.fn), Kind: "term", Alts: goals, Goal: False(), NF: len(x.facts), Loop: L.key, Pos: x.posStr()})
}

// ---- user supplied invariant templates

// userInvs instantiates the inv_ predicates over the values available at the loop head.
// A template parameter is bound by type (and by name where several fit).
func (x *Exec) userInvs(fr *Frame, b *ssa.BasicBlock, L *loopCtx, hs *State) []cand {
	var out []cand
	for _, fn := range x.P.Invs {
		if fn.Pkg != fr.fn.Pkg && fr.fn.Pkg != nil {
			continue
		}
		if t := x.target; t == nil || t.Opt["inv"] == "" || !wordIn(t.Opt["inv"], strings.TrimPrefix(fn.Name(), "inv_")) {
			continue
		}
		combos := [][]any{nil}
		for _, p := range fn.Params {
			var opts []any
			var named []any
			try := func(name string, v any) {
				vv, ok := v.(Val)
				if !ok {
					return
				}
				if !types.Identical(vv.T, p.Type()) {
					// a ghost of interface type has lost its static type
					if i, ok := vv.T.(*types.Interface); !ok || !i.Empty() || !types.IsInterface(p.Type()) || name != p.Name() {
						return
					}
				}
				opts = append(opts, Val{p.Type(), vv.L})
				if name == strings.TrimPrefix(p.Name(), "phi_") {
					named = append(named, Val{p.Type(), vv.L})
				}
			}
			for _, ins := range b.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				v := hs.env[ph]
				if vv, ok := v.(Val); ok && ph.Comment == "rangeindex" { // the index the next iteration visits
					v = Val{vv.T, []*Term{Add(vv.L[0], I(1))}}
				}
				try(ph.Comment, v)
			}
			var ids []int
			for id := range hs.cells {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			for _, id := range ids {
				ci, ok := x.cellOf[id]
				if !ok || ci.fn != fr.fn {
					continue
				}
				v := Val{ci.T, hs.cells[id]}
				try(ci.name, v)
				if s, ok := ci.T.Underlying().(*types.Struct); ok {
					at := 0
					for i := 0; i < s.NumFields(); i++ {
						n := len(leaves(s.Field(i).Type()))
						try(s.Field(i).Name(), Val{s.Field(i).Type(), v.L[at : at+n]})
						at += n
					}
				}
			}
			if !strings.HasPrefix(p.Name(), "phi") {
				for _, q := range fr.fn.Params {
					try(q.Name(), hs.env[q])
				}
				for _, q := range fr.fn.FreeVars {
					try(q.Name(), hs.env[q])
				}
				for _, bl := range fr.fn.Blocks {
					if !bl.Dominates(b) || bl == b {
						continue
					}
					for _, ins := range bl.Instrs {
						v, ok := ins.(ssa.Value)
						if !ok {
							continue
						}
						if r, ok := hs.env[v]; ok {
							if it, ok := r.(*iterVal); ok && it.m != nil {
								try("seen", it.seen)
								continue
							}
							try(v.Name(), r)
						}
					}
				}
				// the arguments of the verified function and its ghosts
				ghost := map[string]bool{}
				for _, f := range x.ghosts {
					try(f.name, f.v)
					ghost[f.name] = true
				}
				for _, f := range x.topArgs {
					if !ghost[f.name] {
						try(f.name, f.v)
					}
				}
			}
			if debugOn {
				debugf("  %s at %s: %s: %d values, %d of that name\n", fn.Name(), L.key, p.Name(), len(opts), len(named))
			}
			if len(named) > 0 {
				opts = named
			}
			opts = dedupVals(opts)
			var next [][]any
			for _, c := range combos {
				for _, o := range opts {
					next = append(next, append(append([]any(nil), c...), o))
				}
			}
			combos = next
			if len(combos) > 64 {
				combos = combos[:64]
			}
		}
		for _, c := range combos {
			x.inSpecForm++
			s := hs.clone()
			s.pc = True()
			nf := len(x.facts)
			_, r := x.inline(&Frame{fn: fr.fn, path: fr.path}, s, fn, nil, c)
			x.facts = x.facts[:nf]
			x.inSpecForm--
			out = append(out, cand{fn.Name(), r[0]})
		}
	}
	return out
}

func dedupVals(vs []any) []any {
	var out []any
	for _, v := range vs {
		dup := false
		for _, w := range out {
			if sameVal(v, w) {
				dup = true
			}
		}
		if !dup {
			out = append(out, v)
		}
	}
	return out
}

func wordIn(s, w string) bool {
	for _, f := range strings.Fields(s) {
		if f == w {
			return true
		}
	}
	return false
}
