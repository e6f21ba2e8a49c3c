package main

// Calls: contracts, specification vocabulary, intrinsics, maps, channels.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *Frame, st *State, v ssa.Value, c *ssa.CallCommon) *State {
	var args []any
	for _, a := range c.Args {
		args = append(args, x.eval(st, a))
	}
	var fv any
	if c.IsInvoke() {
		fv = x.val(st, c.Value)
	} else if c.StaticCallee() == nil {
		fv = x.eval(st, c.Value)
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		fv = x.eval(st, mc)
	}
	st, res := x.doCall(fr, st, c, fv, args)
	if st.env != nil {
		st.env[v] = Val{v.Type(), res}
	}
	return st
}

func (x *Exec) doCall(fr *Frame, st *State, c *ssa.CallCommon, fv any, args []any) (*State, []*Term) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b.Name(), c, args)
	}
	if c.IsInvoke() {
		return x.invoke(fr, st, fv.(Val), c.Method, args)
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []any
		if v, ok := fv.(Val); ok && len(fn.FreeVars) > 0 {
			binds = x.funcs[v.L[0].val.Int64()-1].bind
		}
		return x.callFn(fr, st, fn, binds, args)
	}
	return x.callDyn(fr, st, fv.(Val), c.Signature(), args)
}

// split runs f under c and not c and merges.
func (x *Exec) split(st *State, c *Term, f, g func(*State) (*State, []*Term)) (*State, []*Term) {
	a := st.clone()
	a.pc = And(st.pc, c)
	b := st.clone()
	b.pc = And(st.pc, Not(c))
	if b.pc.isFalse() {
		return f(a)
	}
	if a.pc.isFalse() {
		return g(b)
	}
	a, ra := f(a)
	b, rb := g(b)
	if a.pc.isFalse() {
		return b, rb
	}
	if b.pc.isFalse() {
		return a, ra
	}
	m, conds := x.mergeStates([]*State{a, b})
	return m.clone(), mergeLeaves(conds, [][]*Term{ra, rb})
}

func (x *Exec) callDyn(fr *Frame, st *State, fv Val, sig *types.Signature, args []any) (*State, []*Term) {
	code := fv.L[0]
	if code.op == OIte && !code.bv {
		return x.split(st, code.args[0],
			func(s *State) (*State, []*Term) { return x.callDyn(fr, s, Val{fv.T, []*Term{code.args[1]}}, sig, args) },
			func(s *State) (*State, []*Term) { return x.callDyn(fr, s, Val{fv.T, []*Term{code.args[2]}}, sig, args) })
	}
	if code.isConst() {
		k := code.val.Int64()
		if k == 0 {
			x.safety(st, "call of nil function", False())
			st.pc = False()
			return st, zeroVal(sig.Results()).L
		}
		f := x.funcs[k-1]
		return x.callFn(fr, st, f.fn, f.bind, args)
	}
	x.safety(st, "call of nil function", Ne(code, I(0)))
	x.assumes["calls through a function value of type "+types.TypeString(fv.T, relQual)+" return an arbitrary value and change no memory of this package"] = true
	st.alloc = x.newEpoch(st, st.alloc)
	return st, x.freshVal(st, "dyn", sig.Results()).L
}

func relQual(p *types.Package) string { return p.Name() }

func (x *Exec) invoke(fr *Frame, st *State, recv Val, m *types.Func, args []any) (*State, []*Term) {
	tag := recv.L[0]
	sig := m.Type().(*types.Signature)
	if fr.contract != nil && !fr.holeDone && fr.contract.Method != nil && fr.contract.Method == m {
		if fr.assume {
			return x.holeAssume(fr, st, sig, args)
		}
		if !tag.isConst() {
			panic(unsupported("interface hole on a symbolic value"))
		}
		return x.holeVerify(fr, st, func(s *State) (*State, []*Term) {
			fn, rv := x.concrete(s, recv, m)
			return x.inline(fr, s, fn, nil, append([]any{rv}, args...))
		})
	}
	if tag.isConst() {
		if tag.val.Sign() == 0 {
			x.safety(st, "nil interface method call "+m.Name(), False())
			st.pc = False()
			return st, zeroVal(sig.Results()).L
		}
		fn, rv := x.concrete(st, recv, m)
		if fn != nil {
			return x.callFn(fr, st, fn, nil, append([]any{rv}, args...))
		}
	}
	if tag.op == OIte && !tag.bv {
		return x.split(st, tag.args[0],
			func(s *State) (*State, []*Term) {
				return x.invoke(fr, s, Val{recv.T, []*Term{tag.args[1], underCond(recv.L[1], tag.args[0], true)}}, m, args)
			},
			func(s *State) (*State, []*Term) {
				return x.invoke(fr, s, Val{recv.T, []*Term{tag.args[2], underCond(recv.L[1], tag.args[0], false)}}, m, args)
			})
	}
	x.safety(st, "nil interface method call "+m.Name(), Ne(tag, I(0)))
	if c := x.P.methodContract(m); c != nil && !x.P.inInit && !x.disabled[c.Name] {
		if c.has("maypanic") {
			x.unwindCheck(st, m.Name())
		}
		return x.applyContract(fr, st, c, append([]any{recv}, args...))
	}
	return x.unknownCall(st, "interface method "+types.TypeString(recv.T, relQual)+"."+m.Name(), sig, args)
}

// unwindSpec is a condition that holds when a panic of a called function leaves the
// verified function.
type unwindSpec struct {
	fr   *Frame
	name string
	cond Val
}

// guardSpec: the value at (r,i) is touched only while the lock (lr,li) is held.
type guardSpec struct {
	fr           *Frame
	name         string
	key          string
	r, i, lr, li *Term
}

// guardCheck: a value of type t at (r,i) is read or written here.
func (x *Exec) guardCheck(st *State, t types.Type, r, i *Term) {
	if len(x.guards) == 0 || x.inSpecForm > 0 || x.assumeDepth > 0 || x.unwinding {
		return
	}
	for _, g := range x.guards {
		if g.fr.hole != nil && g.fr.hole.open && typeKey(t) == g.key {
			props, _ := splitProps(g.name)
			held := Eq(Select(Select(st.getMem(x.mutexKey()), g.lr), g.li), I(1))
			x.oblig(st, "ensures", g.fr.contract.Name+":"+g.name+" in "+shortFn(x.curFn), props, Or(Ne(g.r, r), Ne(g.i, i), held))
		}
	}
}

// unwindCheck: the called function may panic here; the deferred calls run and the
// condition must hold.
func (x *Exec) unwindCheck(st *State, what string) {
	u := x.unwind
	if u == nil || x.unwinding || x.inSpecForm > 0 || x.assumeDepth > 0 {
		return
	}
	at := -1
	for k, f := range x.frames {
		if f == u.fr {
			at = k
		}
	}
	if at < 0 || u.fr.hole == nil || !u.fr.hole.open {
		return
	}
	x.unwinding = true
	defer func() { x.unwinding = false }()
	s := st.clone()
	for k := len(x.frames) - 1; k > at; k-- {
		s = x.runDefers(x.frames[k], s)
	}
	code := u.cond.L[0]
	if !code.isConst() {
		panic(unsupported("g_unwind with an unknown function"))
	}
	fv := x.funcs[code.val.Int64()-1]
	x.inSpecForm++
	_, r := x.inline(&Frame{fn: u.fr.fn, path: u.fr.path}, s, fv.fn, fv.bind, nil)
	x.inSpecForm--
	props, _ := splitProps(u.name)
	x.oblig(s, "ensures", u.fr.contract.Name+":"+u.name+" when "+what+" panics", props, r[0])
}

// concrete resolves a method on an interface value with known dynamic type.
func (x *Exec) concrete(st *State, recv Val, m *types.Func) (*ssa.Function, any) {
	t := x.typeOf[int(recv.L[0].val.Int64())-1]
	fn := x.P.Prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		return nil, nil
	}
	return fn, Val{t, x.unbox(st, recv.L[1], t)}
}

func (x *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, binds []any, args []any) (*State, []*Term) {
	name := fn.Name()
	if fn.Signature.Recv() == nil && x.P.isSpecPkg(fn) {
		if strings.HasPrefix(name, "g_") {
			return x.specCall(fr, st, fn, args)
		}
		if strings.HasPrefix(name, "uf_") || strings.HasPrefix(name, "ufk_") {
			return st, x.ufCall(st, fn, args)
		}
	}
	if fr.contract != nil && !fr.holeDone && fr.contract.Target == fn {
		if fr.assume {
			return x.holeAssume(fr, st, fn.Signature, args)
		}
		return x.holeVerify(fr, st, func(s *State) (*State, []*Term) {
			return x.inline(fr, s, fn, binds, args)
		})
	}
	if x.P.inInit && (fn.Name() == "init" || fn.Pkg == nil) && len(fn.Blocks) == 0 {
		return st, nil
	}
	if x.P.inInit && fn.Name() == "init" && x.P.inRepo(fn.Pkg.Pkg) {
		return st, nil // run in dependency order by runInit
	}
	if r, s, ok := x.intrinsic(fr, st, fn, args); ok {
		return s, r
	}
	if c := x.P.contractOf(fn, x.target); c != nil && !x.disabled[c.Name] && !(x.target != nil && (x.target.Inline[c.Name] || x.target.Inline[c.Fn.Name()])) && x.inSpecForm == 0 && !c.has("noframe") {
		if c.Model {
			x.used[c.Name] = true
			return x.inline(fr, st, c.Fn, nil, args)
		}
		return x.applyContract(fr, st, c, args)
	}
	if len(fn.Blocks) > 0 {
		return x.inline(fr, st, fn, binds, args)
	}
	return x.unknownCall(st, fn.String(), fn.Signature, args)
}

func (x *Exec) inline(fr *Frame, st *State, fn *ssa.Function, binds []any, args []any) (*State, []*Term) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	for _, f := range x.stack {
		if f == fn && fn.Parent() == nil && !x.P.isSpecPkg(fn) {
			panic(unsupported("recursion through " + fn.String()))
		}
	}
	if len(x.stack) > 50 {
		panic(unsupported("recursion through " + fn.String()))
	}
	x.uninlined[shortFn(fn)] = true
	nf := &Frame{fn: fn, path: fr.path + "/" + fn.Name(), binds: binds}
	return x.execFn(nf, args, st)
}

// unknownCall: a function without body or contract. Its result is arbitrary; it may
// overwrite what its arguments directly point to.
func (x *Exec) unknownCall(st *State, name string, sig *types.Signature, args []any) (*State, []*Term) {
	if x.inSpecForm > 0 {
		panic(unsupported("unknown call in specification: " + name))
	}
	if !x.P.pure[name] && !x.P.inInit {
		x.unspec[name] = true
	}
	if !x.P.inInit {
		st.alloc = x.newEpoch(st, st.alloc)
	}
	if !x.P.pure[name] && !x.P.inInit {
		for _, a := range args {
			if v, ok := a.(Val); ok {
				x.havocReach(st, v)
			} else if _, ok := a.(Addr); ok {
				panic(unsupported("cell address passed to " + name))
			}
		}
	}
	return st, x.freshVal(st, "res", sig.Results()).L
}

func (x *Exec) havocReach(st *State, v Val) {
	switch u := v.T.Underlying().(type) {
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && !x.P.inRepo(n.Obj().Pkg()) {
				return // state of foreign types is not modelled
			}
		}
		x.storeObj(st, u.Elem(), v.L[0], v.L[1], x.freshVal(st, "hv", u.Elem()).L)
	case *types.Slice:
		x.havocWindow(st, u.Elem(), v.L[0], v.L[1], v.L[2])
	}
}

func (x *Exec) elemKeys(et types.Type) []string {
	tk := typeKey(et)
	var out []string
	if u, ok := et.Underlying().(*types.Struct); ok {
		off := 0
		for f := 0; f < u.NumFields(); f++ {
			ft := u.Field(f).Type()
			if isAgg(ft) {
				if nleaves(ft) > 0 {
					panic(unsupported("slice elements with nested aggregates: " + et.String()))
				}
				continue
			}
			for k, l := range leaves(ft) {
				out = append(out, leafMemKey(tk, off+k, l))
			}
			off += nleaves(ft)
		}
		return out
	}
	if _, ok := et.Underlying().(*types.Array); ok {
		panic(unsupported("slice of arrays"))
	}
	for k, l := range leaves(et) {
		out = append(out, leafMemKey(tk, k, l))
	}
	return out
}

func (x *Exec) havocWindow(st *State, et types.Type, r, o, n *Term) {
	for _, key := range x.elemKeys(et) {
		m := st.getMem(key)
		inner := Select(m, r)
		f := Fresh("hvw", inner.sort)
		f.elo, f.ehi = memReg[key].elo, memReg[key].ehi
		st.noteMem(f)
		st.mem[key] = Store(m, r, CopyArr(inner, o, n, f, o))
		x.noteWrite(st, key, r, o, n)
	}
}

// ---- contracts

func (x *Exec) applyContract(fr *Frame, st *State, c *Contract, args []any) (*State, []*Term) {
	x.used[c.Name] = true
	if len(x.guards) > 0 {
		for _, a := range args {
			if v, ok := a.(Val); ok {
				if u, ok := v.T.Underlying().(*types.Pointer); ok {
					x.guardCheck(st, u.Elem(), v.L[0], v.L[1])
				}
			}
		}
	}
	nf := &Frame{fn: c.Fn, path: fr.path + "/" + c.Fn.Name(), contract: c, assume: true}
	saved := x.curFn
	x.assumeDepth++
	st, res := x.execFn(nf, args, st)
	x.assumeDepth--
	x.curFn = saved
	return st, res
}

func (x *Exec) holeAssume(fr *Frame, st *State, sig *types.Signature, args []any) (*State, []*Term) {
	fr.holeDone = true
	fr.hole = &holeInfo{alloc: st.alloc}
	st.alloc = x.newEpoch(st, st.alloc)
	for _, m := range fr.mods {
		m.havoc(st)
	}
	res := x.freshVal(st, fr.contract.ResName(), sig.Results()).L
	fr.hole.res = res
	return st, res
}

func (x *Exec) holeVerify(fr *Frame, st *State, body func(*State) (*State, []*Term)) (*State, []*Term) {
	fr.holeDone = true
	fr.hole = &holeInfo{alloc: st.alloc, open: true}
	x.mods = nil
	for _, m := range fr.mods {
		x.mods = append(x.mods, m.modRegion)
	}
	x.modsOpen = !fr.contract.has("noframe") // such a contract is not used by callers
	x.entryAl = st.alloc
	st, res := body(st)
	x.modsOpen = false
	fr.hole.open = false
	fr.hole.res = res
	return st, res
}

type modSpec struct {
	modRegion
	havoc func(*State)
}

func (x *Exec) modsOf(st *State, v Val) []modSpec {
	switch u := v.T.Underlying().(type) {
	case *types.Pointer:
		r, i := v.L[0], v.L[1]
		var out []modSpec
		x.objMods(u.Elem(), r, i, &out)
		if out == nil {
			out = append(out, modSpec{modRegion{r: r, keys: map[string]bool{}}, func(s *State) {}})
		}
		hv := func(s *State) { x.storeObj(s, u.Elem(), r, i, x.freshVal(s, "mod", u.Elem()).L) }
		for k := range out {
			out[k].havoc = func(s *State) {}
		}
		out[0].havoc = hv
		x.ghostMods(u.Elem(), r, i, &out)
		return out
	case *types.Slice:
		keys := map[string]bool{}
		for _, k := range x.elemKeys(u.Elem()) {
			keys[k] = true
		}
		return []modSpec{{modRegion{r: v.L[0], keys: keys, lo: v.L[1], hi: Add(v.L[1], v.L[2])}, func(s *State) { x.havocWindow(s, u.Elem(), v.L[0], v.L[1], v.L[2]) }}}
	case *types.Map:
		keys := x.mapKeys(v.T)
		km := map[string]bool{}
		for _, k := range keys {
			km[k] = true
		}
		return []modSpec{{modRegion{r: v.L[0], keys: km}, func(s *State) { x.havocKeys(s, keys, v.L[0]) }}}
	case *types.Chan:
		keys := x.chanKeys(v.T)
		km := map[string]bool{}
		for _, k := range keys {
			km[k] = true
		}
		return []modSpec{{modRegion{r: v.L[0], keys: km}, func(s *State) { x.havocKeys(s, keys, v.L[0]) }}}
	}
	panic(unsupported("g_modifies of " + v.T.String()))
}

func (x *Exec) havocKeys(st *State, keys []string, r *Term) {
	for _, key := range keys {
		m := st.getMem(key)
		f := Fresh("hvk", elemSort(m.sort))
		f.elo, f.ehi = memReg[key].elo, memReg[key].ehi
		st.noteMem(f)
		st.mem[key] = Store(m, r, f)
		x.noteWrite(st, key, r, nil, nil)
	}
}

func (x *Exec) objMods(t types.Type, r, i *Term, out *[]modSpec) {
	tk := typeKey(t)
	one := func(tk string, off int, t types.Type) {
		for k, l := range leaves(t) {
			*out = append(*out, modSpec{modRegion: modRegion{r: r, keys: map[string]bool{leafMemKey(tk, off+k, l): true}, lo: i, hi: Add(i, I(1))}})
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		off := 0
		for f := 0; f < u.NumFields(); f++ {
			ft := u.Field(f).Type()
			if isAgg(ft) {
				x.objMods(ft, emb(tk, u.Field(f).Name(), r, i), I(0), out)
			} else {
				one(tk, off, ft)
			}
			off += nleaves(ft)
		}
	case *types.Array:
		keys := map[string]bool{}
		for _, k := range x.elemKeys(u.Elem()) {
			keys[k] = true
		}
		*out = append(*out, modSpec{modRegion: modRegion{r: r, keys: keys, lo: I(0), hi: I(u.Len())}})
	default:
		one(tk, 0, t)
	}
}

func rootRef(r *Term) *Term {
	for r.op == OApp && strings.HasPrefix(r.name, "emb.") {
		r = r.args[0]
	}
	return r
}

// freshSince: the reference was allocated at or after alloc.
func freshSince(r, alloc *Term) *Term {
	if r.op == OIte {
		return Ite(r.args[0], freshSince(r.args[1], alloc), freshSince(r.args[2], alloc))
	}
	r = rootRef(r)
	if r.isConst() && alloc.isConst() {
		return Ge(r, alloc)
	}
	if e, k, ok := refFresh(r); ok {
		e2, k2 := allocEK(alloc)
		if e > e2 || e == e2 && k >= k2 {
			return True()
		}
	}
	if e, k, ok := refBelow(r); ok {
		e2, k2 := allocEK(alloc)
		if e < e2 || e == e2 && k <= k2 {
			return False()
		}
	}
	return Ge(r, alloc)
}

// noteWrite records a write to memory key at reference r (elements [lo,lo+n)).
func (x *Exec) noteWrite(st *State, key string, r, lo, n *Term) {
	if x.unwinding {
		return
	}
	if x.writes != nil {
		m := x.writes.keys[key]
		if m == nil {
			m = map[int]*Term{}
			x.writes.keys[key] = m
		}
		m[r.id] = r
	}
	if st == nil {
		return
	}
	for _, lf := range x.loopFrames {
		x.checkLoopWrite(st, lf, key, r)
	}
	if !x.modsOpen {
		return
	}
	fr := freshSince(r, x.entryAl)
	if fr.isTrue() {
		return
	}
	ok := []*Term{fr}
	for _, m := range x.mods {
		if m.keys != nil && !m.keys[key] {
			continue
		}
		c := Eq(m.r, r)
		if m.lo != nil {
			if lo == nil {
				continue
			}
			hi := Add(lo, n)
			c = And(c, Or(Le(n, I(0)), And(Le(m.lo, lo), Le(hi, m.hi))))
		}
		ok = append(ok, c)
	}
	if n != nil {
		ok = append(ok, Le(n, I(0)))
	}
	x.oblig(st, "frame", "frame: writes only what it declares ("+key+")", nil, Or(ok...))
}

// ---- specification vocabulary

func (x *Exec) specCall(fr *Frame, st *State, fn *ssa.Function, args []any) (*State, []*Term) {
	arg := func(k int) Val {
		v, ok := args[k].(Val)
		if !ok {
			panic(unsupported("address argument of " + fn.Name()))
		}
		return v
	}
	b := func(t *Term) (*State, []*Term) { return st, []*Term{t} }
	str := func(v Val) string {
		if s, ok := cstr[v.L[0].id]; ok {
			return s
		}
		panic(unsupported("specification names must be constants"))
	}
	switch name := fn.Name(); name {
	case "g_requires":
		if fr.contract == nil {
			panic(unsupported("g_requires outside a contract"))
		}
		c := arg(0).L[0]
		if fr.assume {
			x.oblig(st, "requires", "precondition of "+fr.contract.Short, nil, c)
		} else {
			x.assume(st, c)
		}
		return st, nil
	case "g_ensures", "g_assert":
		nm := str(arg(0))
		c := arg(1).L[0]
		if fr.contract != nil && fr.assume {
			// clauses whose name ends with "!" are proved but not used by callers
			if name == "g_ensures" && !x.target.forgets(nm) && !x.disabled[fr.contract.Name+":"+nm] && !strings.HasSuffix(nm, "!") {
				x.assume(st, c)
			}
			return st, nil
		}
		kind := "ensures"
		if name == "g_assert" {
			kind = "assert"
		}
		props, clause := splitProps(nm)
		cn := ""
		if fr.contract != nil {
			cn = fr.contract.Name
		} else if x.target != nil {
			cn = x.target.Name
		}
		_ = clause
		x.oblig(st, kind, cn+":"+nm, props, c)
		return st, nil
	case "g_unwind":
		if fr.contract != nil && !fr.assume {
			x.unwind = &unwindSpec{fr, str(arg(0)), arg(1)}
		}
		return st, nil
	case "g_guarded": // the value behind the pointer is touched only while the lock is held
		if fr.contract != nil && !fr.assume {
			t := arg(1).L[0]
			if !t.isConst() || t.val.Sign() == 0 {
				panic(unsupported("g_guarded of an interface of unknown type"))
			}
			pt := x.typeOf[t.val.Int64()-1]
			u, ok := pt.Underlying().(*types.Pointer)
			if !ok {
				panic(unsupported("g_guarded of " + pt.String()))
			}
			p, l := x.unbox(st, arg(1).L[1], pt), arg(2).L
			x.guards = append(x.guards, guardSpec{fr, str(arg(0)), typeKey(u.Elem()), p[0], p[1], l[0], l[1]})
		}
		return st, nil
	case "g_define":
		x.assumes["definition of specification functions in "+shortFn(x.curFn)] = true
		x.assume(st, arg(0).L[0])
		return st, nil
	case "g_modifies":
		// variadic ...interface{}: recover the boxed values from the argument slice
		if fr.contract == nil || fr.holeDone {
			panic(unsupported("g_modifies must precede the call in a contract"))
		}
		s := arg(0)
		n, ok := constLen(s.L[2])
		if !ok {
			panic(unsupported("g_modifies arguments"))
		}
		it := s.T.Underlying().(*types.Slice).Elem()
		for k := int64(0); k < n; k++ {
			e := x.load(st, x.elemAddr(it, s.L[0], Add(s.L[1], I(k))))
			fr.mods = append(fr.mods, x.unboxMods(st, e)...)
		}
		return st, nil
	case "g_ghost": // names values for the loop invariant templates
		s := arg(0)
		n, ok := constLen(s.L[2])
		if !ok {
			panic(unsupported("g_ghost arguments"))
		}
		if x.target == nil || fr.fn != x.target.Fn {
			return st, nil
		}
		x.ghosts = nil
		it := s.T.Underlying().(*types.Slice).Elem()
		for k := int64(0); k < n; k++ {
			e := x.load(st, x.elemAddr(it, s.L[0], Add(s.L[1], I(k))))
			if t := e.L[0]; t.isConst() && t.val.Sign() != 0 && x.noOblig == 0 {
				ct := x.typeOf[t.val.Int64()-1]
				nm := "ghost"
				if ns := x.P.ghostNames[fr.fn]; int(k) < len(ns) {
					nm = ns[k]
				}
				x.ghosts = append(x.ghosts, namedVal{nm, Val{ct, x.unbox(st, e.L[1], ct)}})
			} else if ns := x.P.ghostNames[fr.fn]; !t.isConst() && int(k) < len(ns) && x.noOblig == 0 {
				x.ghosts = append(x.ghosts, namedVal{ns[k], e})
			}
		}
		return st, nil
	case "g_imp":
		return b(Imp(arg(0).L[0], arg(1).L[0]))
	case "g_iff":
		return b(Eq(arg(0).L[0], arg(1).L[0]))
	case "g_all", "g_any":
		return b(x.quant(fr, st, arg(0).L[0], arg(1).L[0], arg(2), name == "g_any"))
	case "g_eq": // content equality of byte sequences
		return b(x.strEq(x.asStr(st, arg(0)), x.asStr(st, arg(1))))
	case "g_sub": // g_sub(r, buf, lo): r is the part of buf that starts at lo
		r, bf := arg(0), arg(1)
		return b(And(Eq(r.L[0], bf.L[0]), Eq(r.L[1], Add(bf.L[1], arg(2).L[0]))))
	case "g_fresh":
		a := x.holeOf(fr).alloc
		s := arg(0)
		return b(Or(Eq(s.L[0], I(0)), freshSince(s.L[0], a)))
	case "g_first":
		s := x.asStr(st, arg(0))
		c := arg(1).L[0]
		i := Fresh("first", SInt)
		i.lo = big64(-1)
		x.assume(st, And(Ge(i, I(-1)), Lt(i, s.l)))
		x.assume(st, Or(Lt(i, I(0)), Eq(s.at(i), c)))
		k := BVar()
		x.assume(st, Forall(k, Or(Lt(k, I(0)), Ge(k, s.l), And(Ge(i, I(0)), Ge(k, i)), Ne(s.at(k), c))))
		return b(i)
	case "g_isnil":
		return b(Eq(arg(0).L[0], I(0)))
	case "g_buf", "g_hist": // the content of a buffer, what a connection received
		p := arg(0)
		s := x.bufStr(st, p)
		return st, []*Term{s.a, s.o, s.l}
	case "g_locked":
		p := arg(0)
		return b(Eq(Select(Select(st.getMem(x.mutexKey()), p.L[0]), p.L[1]), I(1)))
	case "g_apart": // the slices lie in different arrays
		p, q := arg(0), arg(1)
		return b(Ne(p.L[0], q.L[0]))
	case "g_sameobj":
		p, q := arg(0), arg(1)
		return b(Eq(p.L[0], q.L[0]))
	case "g_samestr": // the same bytes at the same place
		p, q := arg(0), arg(1)
		return b(And(Eq(p.L[0], q.L[0]), Eq(p.L[1], q.L[1]), Eq(p.L[2], q.L[2])))
	case "g_same": // the same dynamic type and value
		p, q := arg(0), arg(1)
		return b(And(Eq(p.L[0], q.L[0]), Eq(p.L[1], q.L[1])))
	case "g_samefunc":
		return b(Eq(arg(0).L[0], arg(1).L[0]))
	case "g_sentcount":
		return b(Select(Select(st.getMem(x.chanN()), arg(0).L[0]), I(0)))
	}
	if strings.HasPrefix(fn.Name(), "g_allvals_") || strings.HasPrefix(fn.Name(), "g_keyed_") {
		return b(x.quantMap(fr, st, arg(0), arg(1), strings.HasPrefix(fn.Name(), "g_keyed_")))
	}
	if strings.HasPrefix(fn.Name(), "g_sentcount_") {
		return b(Select(Select(st.getMem(x.chanN()), arg(0).L[0]), I(0)))
	}
	if strings.HasPrefix(fn.Name(), "g_closed_") {
		return b(Eq(Select(Select(st.getMem(x.chanClosed()), arg(0).L[0]), I(0)), I(1)))
	}
	if strings.HasPrefix(fn.Name(), "g_apart_") {
		return b(Ne(arg(0).L[0], arg(1).L[0]))
	}
	if strings.HasPrefix(fn.Name(), "g_sub_") {
		r, bf := arg(0), arg(1)
		return b(And(Eq(r.L[0], bf.L[0]), Eq(r.L[1], Add(bf.L[1], arg(2).L[0]))))
	}
	if strings.HasPrefix(fn.Name(), "g_sent_") {
		ch := arg(0)
		et := ch.T.Underlying().(*types.Chan).Elem()
		var out []*Term
		for k, l := range leaves(et) {
			out = append(out, Select(Select(st.getMem(x.chanVKey(et, k, l)), ch.L[0]), arg(1).L[0]))
		}
		x.wellFormed(st, et, out)
		return st, out
	}
	if strings.HasPrefix(fn.Name(), "g_tag_") { // type test on interface without panics
		panic(unsupported(fn.Name()))
	}
	if len(fn.Blocks) > 0 && !strings.HasPrefix(fn.Name(), "g_native") {
		return x.inline(fr, st, fn, nil, args)
	}
	panic(unsupported("specification builtin " + fn.Name()))
}

func (x *Exec) holeOf(fr *Frame) *holeInfo {
	if fr.hole == nil {
		panic(unsupported("g_fresh before the call"))
	}
	return fr.hole
}

func (x *Exec) asStr(st *State, v Val) Str {
	if isString(v.T) {
		return strOf(v)
	}
	return x.bytesStr(st, v)
}

func (x *Exec) unboxMods(st *State, e Val) []modSpec {
	t := e.L[0]
	if t.op == OIte {
		panic(unsupported("g_modifies of a conditional value"))
	}
	if !t.isConst() {
		panic(unsupported("g_modifies of an interface of unknown type"))
	}
	if t.val.Sign() == 0 {
		return nil
	}
	ct := x.typeOf[t.val.Int64()-1]
	return x.modsOf(st, Val{ct, x.unbox(st, e.L[1], ct)})
}

// quant builds a bounded quantifier from a closure.
func (x *Exec) quant(fr *Frame, st *State, lo, hi *Term, f Val, exists bool) *Term {
	code := f.L[0]
	if !code.isConst() {
		panic(unsupported("quantifier over an unknown function"))
	}
	fv := x.funcs[code.val.Int64()-1]
	at := func(k *Term) *Term {
		s := st.clone()
		s.pc = True()
		x.inSpecForm++
		defer func() { x.inSpecForm-- }()
		_, r := x.inline(fr, s, fv.fn, fv.bind, []any{Val{types.Typ[types.Int], []*Term{k}}})
		return r[0]
	}
	d := Sub(hi, lo)
	if n, ok := constLen(d); ok && n <= 40 {
		var cs []*Term
		for k := int64(0); k < n; k++ {
			cs = append(cs, at(Add(lo, I(k))))
		}
		if exists {
			return Or(cs...)
		}
		return And(cs...)
	}
	k := BVar()
	body := at(k)
	out := Or(Lt(k, lo), Ge(k, hi))
	var q *Term
	if exists {
		q = Not(Forall(k, Or(out, Not(body))))
	} else {
		q = Forall(k, Or(out, body))
	}
	if x.inSpecForm > 0 || !hasQuant(q) || q.bv {
		return q
	}
	u := q
	if exists {
		u = Not(q)
	}
	v := x.nameBool(u, func() *Term {
		w := Fresh("w", SInt)
		return Not(SubstB(u.args[1], u.args[0], w))
	})
	if u.op != OForall {
		// simplified away
	}
	if exists {
		return Not(v)
	}
	return v
}

// quantMap: every value of the map satisfies f, or (keyed) is stored under the key f gives.
func (x *Exec) quantMap(fr *Frame, st *State, m, f Val, keyed bool) *Term {
	code := f.L[0]
	if !code.isConst() {
		panic(unsupported("quantifier over an unknown function"))
	}
	fv := x.funcs[code.val.Int64()-1]
	mt := m.T.Underlying().(*types.Map)
	keys := x.mapKeys(m.T)
	k := BVar()
	var vs []*Term
	for _, key := range keys[1:] {
		vs = append(vs, Select(Select(st.getMem(key), m.L[0]), k))
	}
	s := st.clone()
	s.pc = True()
	x.inSpecForm++
	_, r := x.inline(fr, s, fv.fn, fv.bind, []any{Val{mt.Elem(), vs}})
	x.inSpecForm--
	body := r[0]
	if keyed {
		body = Eq(x.keyTerm(Val{mt.Key(), r}), k)
	}
	return Or(Eq(m.L[0], I(0)), Forall(k, Or(Not(Select(Select(st.getMem(keys[0]), m.L[0]), k)), body)))
}

// ufCall applies an uninterpreted specification function.
func (x *Exec) ufCall(st *State, fn *ssa.Function, args []any) []*Term {
	var as []*Term
	byKey := strings.HasPrefix(fn.Name(), "ufk_")
	for _, a := range args {
		v, ok := a.(Val)
		if !ok {
			panic(unsupported("uf argument"))
		}
		if byKey && (isString(v.T) || isByteSlice(v.T)) {
			s := x.asStr(st, v)
			as = append(as, x.keyTerm(Val{types.Typ[types.String], []*Term{s.a, s.o, s.l}}))
			continue
		}
		if isByteSlice(v.T) {
			s := x.bytesStr(st, v)
			as = append(as, s.a, s.o, s.l)
			continue
		}
		if u, ok := v.T.Underlying().(*types.Slice); ok { // by contents
			for _, key := range x.elemKeys(u.Elem()) {
				as = append(as, Select(st.getMem(key), v.L[0]))
			}
			as = append(as, v.L[1], v.L[2])
			continue
		}
		as = append(as, v.L...)
	}
	// a string value of a known dynamic type inside an interface etc. is passed leafwise
	rt := fn.Signature.Results()
	var out []*Term
	for k, l := range leaves(rt) {
		if isStringOff(rt, k) {
			out = append(out, I(0))
			continue
		}
		t := App(fmt.Sprintf("%s.%d", fn.Name(), k), l.sort, as...)
		if l.sort == SInt {
			t.lo, t.hi = l.lo, l.hi
		} else if l.sort != SBool {
			t.elo, t.ehi = l.lo, l.hi
		}
		out = append(out, t)
	}
	if rt.Len() == 1 {
		// ghost objects and channels exist before the verified code makes its own
		switch rt.At(0).Type().Underlying().(type) {
		case *types.Pointer:
			out[1] = I(0)
			x.fact(Lt(out[0], st.alloc))
		case *types.Chan:
			x.fact(Lt(out[0], st.alloc))
		}
	}
	return out
}

// splitProps: "C01,C14.name" -> [C01 C14], name
func splitProps(s string) ([]string, string) {
	i := strings.IndexByte(s, '.')
	if i < 0 {
		return nil, s
	}
	var ps []string
	for _, p := range strings.Split(s[:i], ",") {
		if len(p) == 3 && p[0] == 'C' {
			ps = append(ps, p)
		}
	}
	if ps == nil {
		return nil, s
	}
	return ps, s[i+1:]
}

// ---- language builtins

func (x *Exec) builtin(fr *Frame, st *State, name string, c *ssa.CallCommon, args []any) (*State, []*Term) {
	val := func(k int) Val {
		switch v := args[k].(type) {
		case Val:
			return v
		case Addr:
			return x.addrVal(v, c.Args[k].Type())
		}
		panic(unsupported("builtin argument"))
	}
	switch name {
	case "len", "cap":
		v := val(0)
		switch u := v.T.Underlying().(type) {
		case *types.Basic:
			return st, []*Term{v.L[2]}
		case *types.Slice:
			if name == "cap" {
				return st, []*Term{v.L[3]}
			}
			return st, []*Term{v.L[2]}
		case *types.Array:
			return st, []*Term{I(u.Len())}
		case *types.Pointer:
			return st, []*Term{I(u.Elem().Underlying().(*types.Array).Len())}
		}
		r := Fresh("len", SInt)
		r.lo, r.hi = bigZero, maxLen
		return st, []*Term{r}
	case "append":
		v := x.appendTo(st, val(0), val(1))
		return st, v.L
	case "copy":
		return st, []*Term{x.copyTo(st, val(0), val(1))}
	case "close":
		ch := val(0)
		x.safety(st, "close of nil channel", Ne(ch.L[0], I(0)))
		key := x.chanClosed()
		x.safety(st, "close of closed channel", Eq(Select(Select(st.getMem(key), ch.L[0]), I(0)), I(0)))
		m := st.getMem(key)
		st.mem[key] = Store(m, ch.L[0], Store(Select(m, ch.L[0]), I(0), I(1)))
		x.noteWrite(st, key, ch.L[0], I(0), I(1))
		return st, nil
	case "delete":
		m := val(0)
		x.mapDelete(st, m, val(1))
		return st, nil
	case "min", "max":
		v := val(0)
		t := v.L[0]
		for k := 1; k < len(args); k++ {
			u := val(k).L[0]
			if name == "min" {
				t = Ite(Le(t, u), t, u)
			} else {
				t = Ite(Ge(t, u), t, u)
			}
		}
		return st, []*Term{t}
	case "recover":
		return st, []*Term{I(0), I(0)}
	case "print", "println":
		return st, nil
	case "ssa:wrapnilchk":
		v := args[0]
		if a, ok := v.(Addr); ok {
			return st, x.addrVal(a, c.Args[0].Type()).L
		}
		x.safety(st, "nil dereference", Ne(v.(Val).L[0], I(0)))
		return st, v.(Val).L
	}
	panic(unsupported("builtin " + name))
}

func (x *Exec) appendTo(st *State, s, t Val) Val {
	et := s.T.Underlying().(*types.Slice).Elem()
	r, o, l, c := s.L[0], s.L[1], s.L[2], s.L[3]
	var n *Term
	var srcOf func(key string) (*Term, *Term)
	if isString(t.T) {
		q := strOf(t)
		n = q.l
		srcOf = func(string) (*Term, *Term) { return q.a, q.o }
	} else {
		n = t.L[2]
		srcOf = func(key string) (*Term, *Term) { return Select(st.getMem(key), t.L[0]), t.L[1] }
	}
	if k, ok := constLen(n); ok && k == 0 {
		return s
	}
	nl := Add(l, n)
	x.assume(st, Le(nl, IB(lenMax(et))))
	x.assumes["no slice or string grows beyond 2^40 bytes"] = true
	fits := Le(nl, c)
	if !fits.isTrue() && !fits.isFalse() {
		if x.entails(st, fits) {
			fits = True()
		} else if x.entails(st, Not(fits)) {
			fits = False()
		}
	}
	nr := r
	nc := c
	if !fits.isTrue() {
		fr := x.newRef(st)
		cc := Fresh("cap", SInt)
		cc.lo, cc.hi = bigZero, lenMax(et)
		x.fact(Le(nl, cc))
		nr = Ite(fits, r, fr)
		nc = Ite(fits, c, cc)
	}
	for _, key := range x.elemKeys(et) {
		src, so := srcOf(key)
		m := st.getMem(key)
		st.mem[key] = Store(m, nr, CopyArr(Select(m, r), Add(o, l), n, src, so))
		x.noteWrite(st, key, nr, Add(o, l), n)
	}
	return Val{s.T, []*Term{nr, o, nl, nc}}
}

func (x *Exec) copyTo(st *State, d, s Val) *Term {
	et := d.T.Underlying().(*types.Slice).Elem()
	sl := s.L[2]
	n := Ite(Le(d.L[2], sl), d.L[2], sl)
	if d.L[2] != sl && !n.isConst() {
		if x.entails(st, Le(d.L[2], sl)) {
			n = d.L[2]
		} else if x.entails(st, Le(sl, d.L[2])) {
			n = sl
		}
	}
	for _, key := range x.elemKeys(et) {
		m := st.getMem(key)
		var src, so *Term
		if isString(s.T) {
			src, so = s.L[0], s.L[1]
		} else {
			src, so = Select(m, s.L[0]), s.L[1]
		}
		st.mem[key] = Store(m, d.L[0], CopyArr(Select(m, d.L[0]), d.L[1], n, src, so))
		x.noteWrite(st, key, d.L[0], d.L[1], n)
	}
	return n
}

// ---- maps

type mapEntry struct {
	k, v Val
}

func (x *Exec) mapBase(t types.Type) string {
	m := t.Underlying().(*types.Map)
	return "map:" + typeKey(m.Key()) + ":" + typeKey(m.Elem())
}
func (x *Exec) mapKeys(t types.Type) []string {
	m := t.Underlying().(*types.Map)
	b := x.mapBase(t)
	regMem(b+".dom", arr(arr(SBool)), nil, nil)
	out := []string{b + ".dom"}
	for k, l := range leaves(m.Elem()) {
		key := fmt.Sprintf("%s.v%d%s", b, k, l.path)
		regMem(key, arr(arr(l.sort)), l.lo, l.hi)
		out = append(out, key)
	}
	return out
}

func (x *Exec) makeMap(st *State, t types.Type, r *Term) {
	keys := x.mapKeys(t)
	st.mem[keys[0]] = Store(st.getMem(keys[0]), r, ConstArr(False()))
	x.noteWrite(st, keys[0], r, nil, nil)
	if r.isConst() {
		x.P.constMaps[r.val.Int64()] = []mapEntry{}
	}
}

func (x *Exec) keyTerm(v Val) *Term {
	if isString(v.T) {
		s := strOf(v)
		t := App("skey", SInt, s.a, s.o, s.l)
		for _, k := range x.skeys {
			if k.t == t {
				return t
			}
		}
		if t.bv {
			return t
		}
		if !x.target.has("nokeys") {
			for _, k := range x.skeys {
				x.fact(Eq(Eq(t, k.t), x.strEq(s, k.s)))
			}
		}
		x.skeys = append(x.skeys, skey{t, s})
		return t
	}
	if len(v.L) == 1 && v.L[0].sort == SInt {
		return v.L[0]
	}
	return App("mkey."+typeKey(v.T), SInt, v.L...)
}

func (x *Exec) mapLookup(st *State, m, k Val, commaOk bool, rt types.Type) Val {
	mt := m.T.Underlying().(*types.Map)
	r := m.L[0]
	var out []*Term
	var ok *Term
	if r.isConst() && x.P.constMap(r, m.T) {
		z := zeroVal(mt.Elem()).L
		out = append([]*Term(nil), z...)
		ok = False()
		es := x.P.constMaps[r.val.Int64()]
		for i := len(es) - 1; i >= 0; i-- {
			c := x.eqVal(st, k, es[i].k)
			for j := range out {
				out[j] = Ite(c, es[i].v.L[j], out[j])
			}
			ok = Ite(c, True(), ok)
		}
	} else {
		keys := x.mapKeys(m.T)
		kt := x.keyTerm(k)
		ok = And(Ne(r, I(0)), Select(Select(st.getMem(keys[0]), r), kt))
		z := zeroVal(mt.Elem()).L
		ls := leaves(mt.Elem())
		var vs []*Term
		for j, key := range keys[1:] {
			t := Select(Select(st.getMem(key), r), kt)
			x.noteLeaf(st, t, ls[j])
			vs = append(vs, t)
		}
		x.wellFormed(st, mt.Elem(), vs)
		for j := range vs {
			out = append(out, Ite(ok, vs[j], z[j]))
		}
	}
	if commaOk {
		return Val{rt, append(out, ok)}
	}
	return Val{rt, out}
}

func (x *Exec) mapUpdate(st *State, m, k, v Val) {
	x.safety(st, "assignment to entry in nil map", Ne(m.L[0], I(0)))
	r := m.L[0]
	if x.P.inInit && r.isConst() && st.pc.isTrue() {
		x.P.constMaps[r.val.Int64()] = append(x.P.constMaps[r.val.Int64()], mapEntry{k, v})
		if x.P.constMap(r, m.T) {
			return
		}
	}
	keys := x.mapKeys(m.T)
	kt := x.keyTerm(k)
	d := st.getMem(keys[0])
	st.mem[keys[0]] = Store(d, r, Store(Select(d, r), kt, True()))
	x.noteWrite(st, keys[0], r, nil, nil)
	for j, key := range keys[1:] {
		d := st.getMem(key)
		st.mem[key] = Store(d, r, Store(Select(d, r), kt, v.L[j]))
		x.noteWrite(st, key, r, nil, nil)
	}
}

func (x *Exec) mapDelete(st *State, m, k Val) {
	keys := x.mapKeys(m.T)
	kt := x.keyTerm(k)
	d := st.getMem(keys[0])
	st.mem[keys[0]] = Store(d, m.L[0], Store(Select(d, m.L[0]), kt, False()))
	x.noteWrite(st, keys[0], m.L[0], nil, nil)
}

// ---- channels: the ghost log of what this goroutine sent

func (x *Exec) chanN() string {
	regMem("chan.n", arr(SArr), bigZero, maxLen)
	return "chan.n"
}
func (x *Exec) chanClosed() string {
	regMem("chan.closed", arr(SArr), bigZero, bigOne)
	return "chan.closed"
}
func (x *Exec) chanVKey(et types.Type, k int, l leaf) string {
	key := fmt.Sprintf("chanv:%s#%d%s", typeKey(et), k, l.path)
	regMem(key, arr(arr(l.sort)), l.lo, l.hi)
	return key
}
func (x *Exec) chanKeys(t types.Type) []string {
	et := t.Underlying().(*types.Chan).Elem()
	out := []string{x.chanN()}
	for k, l := range leaves(et) {
		out = append(out, x.chanVKey(et, k, l))
	}
	return out
}
func (x *Exec) makeChan(st *State, t types.Type, r, size *Term) {
	x.safety(st, "makechan: size out of range", Ge(size, I(0)))
	for _, key := range []string{x.chanN(), x.chanClosed()} {
		m := st.getMem(key)
		st.mem[key] = Store(m, r, ConstArr(I(0)))
		x.noteWrite(st, key, r, nil, nil)
	}
}

func (x *Exec) chanSend(st *State, ch, v Val) {
	et := ch.T.Underlying().(*types.Chan).Elem()
	if _, ok := et.Underlying().(*types.Interface); ok {
		v = x.makeIface(st, v, et)
	}
	r := ch.L[0]
	x.safety(st, "send on nil channel blocks for ever", Ne(r, I(0)))
	nk := x.chanN()
	n := Select(Select(st.getMem(nk), r), I(0))
	for k, l := range leaves(et) {
		key := x.chanVKey(et, k, l)
		m := st.getMem(key)
		st.mem[key] = Store(m, r, Store(Select(m, r), n, v.L[k]))
		x.noteWrite(st, key, r, n, I(1))
	}
	m := st.getMem(nk)
	st.mem[nk] = Store(m, r, Store(Select(m, r), I(0), Add(n, I(1))))
	x.noteWrite(st, nk, r, I(0), I(1))
}

func (x *Exec) chanRecv(st *State, ch Val, commaOk bool, rt types.Type) Val {
	et := ch.T.Underlying().(*types.Chan).Elem()
	v := x.freshVal(st, "recv", et)
	if commaOk {
		ok := Fresh("open", SBool)
		z := zeroVal(et)
		var out []*Term
		for k := range v.L {
			out = append(out, Ite(ok, v.L[k], z.L[k]))
		}
		return Val{rt, append(out, ok)}
	}
	return Val{rt, v.L}
}

func (x *Exec) selectStmt(fr *Frame, st *State, ins *ssa.Select) {
	tt := ins.Type().(*types.Tuple)
	n := len(ins.States)
	idx := Fresh("sel", SInt)
	idx.hi = big64(int64(n - 1))
	idx.lo = bigZero
	if !ins.Blocking {
		idx.lo = big64(-1)
	}
	out := []*Term{idx, Fresh("open", SBool)}
	for k := 2; k < tt.Len(); k++ {
		out = append(out, x.freshVal(st, "recv", tt.At(k).Type()).L...)
	}
	for k, s := range ins.States {
		if s.Dir == types.SendOnly {
			on := st.clone()
			on.pc = And(st.pc, Eq(idx, I(int64(k))))
			off := st.clone()
			off.pc = And(st.pc, Ne(idx, I(int64(k))))
			x.chanSend(on, x.val(st, s.Chan), x.val(st, s.Send))
			m, _ := x.mergeStates([]*State{on, off})
			*st = *m.clone()
		}
	}
	st.env[ins] = Val{ins.Type(), out}
}

func (x *Exec) goStmt(fr *Frame, st *State, ins *ssa.Go) {
	name := "a dynamic function"
	if fn := ins.Call.StaticCallee(); fn != nil {
		name = shortFn(fn)
		if c := x.P.contractOf(fn, x.target); c != nil && !x.disabled[c.Name] && len(c.Fn.Params) == len(ins.Call.Args) {
			// the precondition must hold at the start of the goroutine; its effects are its own
			var args []any
			for _, a := range ins.Call.Args {
				args = append(args, x.eval(st, a))
			}
			s := st.clone()
			sm := x.modsOpen
			x.modsOpen = false
			x.applyContract(fr, s, c, args)
			x.modsOpen = sm
		}
	}
	x.assumes["goroutine started ("+name+"): its interleaving with the caller is not modelled"] = true
}

// ---- intrinsics with ghost state

func hasGhost(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "sync.Mutex", "sync.RWMutex", "bytes.Buffer", "strings.Builder", "net.UnixConn":
			return true
		}
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if hasGhost(s.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) mutexKey() string {
	regMem("mutex", arr(SArr), bigZero, bigOne)
	return "mutex"
}
func (x *Exec) bufKeys() (a, l string) {
	regMem("buf.a", arr(arr(SArr)), bigZero, big64(255))
	regMem("buf.l", arr(SArr), bigZero, maxLen)
	return "buf.a", "buf.l"
}

func (x *Exec) ghostMods(t types.Type, r, i *Term, out *[]modSpec) {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "sync.Mutex", "sync.RWMutex":
			k := x.mutexKey()
			*out = append(*out, modSpec{modRegion{r: r, keys: map[string]bool{k: true}}, func(s *State) { x.havocKeys(s, []string{k}, r) }})
			return
		case "bytes.Buffer", "strings.Builder", "net.UnixConn":
			a, l := x.bufKeys()
			*out = append(*out, modSpec{modRegion{r: r, keys: map[string]bool{a: true, l: true}}, func(s *State) { x.havocKeys(s, []string{a, l}, r) }})
			return
		}
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for f := 0; f < s.NumFields(); f++ {
			if hasGhost(s.Field(f).Type()) {
				x.ghostMods(s.Field(f).Type(), emb(typeKey(t), s.Field(f).Name(), r, i), I(0), out)
			}
		}
	}
}

// zeroGhost initialises ghost state of a fresh object.
func (x *Exec) zeroGhost(st *State, t types.Type, r, i *Term) {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "sync.Mutex", "sync.RWMutex":
			k := x.mutexKey()
			m := st.getMem(k)
			st.mem[k] = Store(m, r, Store(Select(m, r), i, I(0)))
			return
		case "bytes.Buffer", "strings.Builder", "net.UnixConn":
			x.setBuf(st, Val{nil, []*Term{r, i}}, Str{ConstArr(I(0)), I(0), I(0)})
			return
		}
	}
	if s, ok := t.Underlying().(*types.Struct); ok && hasGhost(t) {
		for f := 0; f < s.NumFields(); f++ {
			if hasGhost(s.Field(f).Type()) {
				x.zeroGhost(st, s.Field(f).Type(), emb(typeKey(t), s.Field(f).Name(), r, i), I(0))
			}
		}
	}
}

func (x *Exec) bufStr(st *State, p Val) Str {
	a, l := x.bufKeys()
	return Str{Select(Select(st.getMem(a), p.L[0]), p.L[1]), I(0), Select(Select(st.getMem(l), p.L[0]), p.L[1])}
}

func (x *Exec) setBuf(st *State, p Val, s Str) {
	a, l := x.bufKeys()
	m := st.getMem(a)
	st.mem[a] = Store(m, p.L[0], Store(Select(m, p.L[0]), p.L[1], s.a))
	x.noteWrite(st, a, p.L[0], p.L[1], I(1))
	m = st.getMem(l)
	st.mem[l] = Store(m, p.L[0], Store(Select(m, p.L[0]), p.L[1], s.l))
	x.noteWrite(st, l, p.L[0], p.L[1], I(1))
}

// bufAppend keeps buffer contents at offset 0.
func (x *Exec) bufAppend(st *State, p Val, s Str) {
	b := x.bufStr(st, p)
	x.assume(st, Le(Add(b.l, s.l), IB(maxLen)))
	x.setBuf(st, p, Str{CopyArr(b.a, b.l, s.l, s.a, s.o), I(0), Add(b.l, s.l)})
}

func (x *Exec) intrinsic(fr *Frame, st *State, fn *ssa.Function, args []any) ([]*Term, *State, bool) {
	name := fn.String()
	ptr := func() Val {
		switch v := args[0].(type) {
		case Val:
			return v
		case Addr:
			return x.addrVal(v, fn.Signature.Recv().Type())
		}
		panic("ptr")
	}
	nilErr := []*Term{I(0), I(0)}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		p := ptr()
		x.safety(st, "nil mutex", Ne(p.L[0], I(0)))
		k := x.mutexKey()
		m := st.getMem(k)
		x.safety(st, "self-deadlock: lock already held", Eq(Select(Select(m, p.L[0]), p.L[1]), I(0)))
		st.mem[k] = Store(m, p.L[0], Store(Select(m, p.L[0]), p.L[1], I(1)))
		x.noteWrite(st, k, p.L[0], p.L[1], I(1))
		return nil, st, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		p := ptr()
		x.safety(st, "nil mutex", Ne(p.L[0], I(0)))
		k := x.mutexKey()
		m := st.getMem(k)
		x.safety(st, "unlock of unlocked mutex", Eq(Select(Select(m, p.L[0]), p.L[1]), I(1)))
		st.mem[k] = Store(m, p.L[0], Store(Select(m, p.L[0]), p.L[1], I(0)))
		x.noteWrite(st, k, p.L[0], p.L[1], I(1))
		return nil, st, true
	case "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		p := ptr()
		x.safety(st, "nil buffer", Ne(p.L[0], I(0)))
		b := args[1].(Val)
		x.bufAppend(st, p, x.bytesStr(st, b))
		return append([]*Term{b.L[2]}, nilErr...), st, true
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		p := ptr()
		x.safety(st, "nil buffer", Ne(p.L[0], I(0)))
		s := strOf(args[1].(Val))
		x.bufAppend(st, p, s)
		return append([]*Term{s.l}, nilErr...), st, true
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		p := ptr()
		x.safety(st, "nil buffer", Ne(p.L[0], I(0)))
		x.bufAppend(st, p, Str{ConstArr(args[1].(Val).L[0]), I(0), I(1)})
		return nilErr, st, true
	case "(*bytes.Buffer).Bytes":
		p := ptr()
		v := x.newBytes(st, x.bufStr(st, p), fn.Signature.Results().At(0).Type())
		x.assumes["(*bytes.Buffer).Bytes is modelled as a snapshot of the content"] = true
		return v.L, st, true
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		s := x.bufStr(st, ptr())
		return []*Term{s.a, s.o, s.l}, st, true
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return []*Term{x.bufStr(st, ptr()).l}, st, true
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		x.setBuf(st, ptr(), Str{ConstArr(I(0)), I(0), I(0)})
		return nil, st, true
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		return nil, st, true
	case "bytes.Equal":
		a, b := args[0].(Val), args[1].(Val)
		return []*Term{x.strEq(x.bytesStr(st, a), x.bytesStr(st, b))}, st, true
	case "errors.New":
		et := fn.Pkg.Pkg.Scope().Lookup("errorString").Type()
		r := x.newRef(st)
		tk := typeKey(et)
		x.storeDirect(st, tk, 0, et.Underlying().(*types.Struct).Field(0).Type(), r, I(0), args[0].(Val).L)
		v := x.makeIface(st, Val{types.NewPointer(et), []*Term{r, I(0)}}, fn.Signature.Results().At(0).Type())
		return v.L, st, true
	case "bytes.NewBuffer", "bytes.NewBufferString":
		r := x.newRef(st)
		v := Val{fn.Signature.Results().At(0).Type(), []*Term{r, I(0)}}
		x.setBuf(st, v, Str{ConstArr(I(0)), I(0), I(0)})
		x.bufAppend(st, v, x.asStr(st, args[0].(Val)))
		return v.L, st, true
	}
	return nil, st, false
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = token.NoPos

// has: the contract carries the directive.
func (c *Contract) has(opt string) bool {
	if c == nil {
		return false
	}
	_, ok := c.Opt[opt]
	return ok
}

// forgets: the harness does not use clauses of callees with this name.
func (c *Contract) forgets(clause string) bool {
	if c == nil {
		return false
	}
	for _, p := range strings.Fields(c.Opt["forget"]) {
		if strings.HasPrefix(clause, p) {
			return true
		}
	}
	return false
}
