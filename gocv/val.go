package main

// Layout of Go values as tuples of terms, symbolic state and memory.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	kInt = iota
	kBool
	kRef  // memory reference
	kLen  // slice/string length, offset or capacity
	kArr  // string content
	kTag  // interface type tag
	kPay  // interface payload
	kFunc // function code
	kOpaq // float, complex
	kIdx  // pointer index
)

type leaf struct {
	sort   string
	kind   int
	lo, hi *big.Int
	path   string
	depth  int // array nesting
}

var maxLen = new(big.Int).Lsh(bigOne, 40)

// lenMax bounds the length of a slice: no object is larger than 2^40 bytes.
func lenMax(et types.Type) *big.Int {
	sz := types.SizesFor("gc", "amd64").Sizeof(et)
	if sz < 1 {
		sz = 1
	}
	return new(big.Int).Div(maxLen, big64(sz))
}

func intRange(b *types.Basic) (lo, hi *big.Int) {
	sh := func(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }
	sub1 := func(x *big.Int) *big.Int { return new(big.Int).Sub(x, bigOne) }
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return minI64, maxI64
	case types.Int8:
		return big64(-128), big64(127)
	case types.Int16:
		return big64(-32768), big64(32767)
	case types.Int32, types.UntypedRune:
		return big64(-2147483648), big64(2147483647)
	case types.Uint, types.Uint64, types.Uintptr:
		return bigZero, sub1(sh(64))
	case types.Uint8:
		return bigZero, big64(255)
	case types.Uint16:
		return bigZero, big64(65535)
	case types.Uint32:
		return bigZero, big64(4294967295)
	}
	return nil, nil
}

var leafMemo = map[types.Type][]leaf{}

func leaves(t types.Type) []leaf {
	if r, ok := leafMemo[t]; ok {
		return r
	}
	r := leaves1(t)
	leafMemo[t] = r
	return r
}

func leaves1(t types.Type) []leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{sort: SBool, kind: kBool}}
		case u.Info()&types.IsInteger != 0:
			lo, hi := intRange(u)
			return []leaf{{sort: SInt, kind: kInt, lo: lo, hi: hi}}
		case u.Info()&types.IsString != 0:
			return []leaf{{sort: SArr, kind: kArr, lo: bigZero, hi: big64(255), path: "a"}, {sort: SInt, kind: kLen, lo: bigZero, hi: maxLen, path: "o"}, {sort: SInt, kind: kLen, lo: bigZero, hi: maxLen, path: "l"}}
		case u.Kind() == types.UnsafePointer:
			return []leaf{{sort: SInt, kind: kOpaq}}
		case u.Kind() == types.UntypedNil:
			return []leaf{{sort: SInt, kind: kOpaq}}
		case u.Kind() == types.Invalid:
			return nil
		}
		return []leaf{{sort: SInt, kind: kOpaq}}
	case *types.Slice:
		m := lenMax(u.Elem())
		return []leaf{{sort: SInt, kind: kRef, path: "r"}, {sort: SInt, kind: kLen, lo: bigZero, hi: m, path: "o"}, {sort: SInt, kind: kLen, lo: bigZero, hi: m, path: "l"}, {sort: SInt, kind: kLen, lo: bigZero, hi: m, path: "c"}}
	case *types.Pointer:
		return []leaf{{sort: SInt, kind: kRef, path: "r"}, {sort: SInt, kind: kIdx, path: "i", lo: bigZero, hi: maxLen}}
	case *types.Map, *types.Chan:
		return []leaf{{sort: SInt, kind: kRef, path: "r"}}
	case *types.Interface:
		return []leaf{{sort: SInt, kind: kTag, path: "t", lo: bigZero}, {sort: SInt, kind: kPay, path: "p"}}
	case *types.Signature:
		return []leaf{{sort: SInt, kind: kFunc}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				l.path = u.Field(i).Name() + "." + l.path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []leaf
		for _, l := range leaves(u.Elem()) {
			l.sort = arr(l.sort)
			l.depth++
			l.path = "[]" + l.path
			out = append(out, l)
		}
		return out
	case *types.Tuple:
		var out []leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				l.path = fmt.Sprintf("#%d.", i) + l.path
				out = append(out, l)
			}
		}
		return out
	}
	panic(unsupported("type " + t.String()))
}

func nleaves(t types.Type) int { return len(leaves(t)) }

// fieldOff is the leaf offset of field i in a struct value.
func fieldOff(s *types.Struct, i int) int {
	n := 0
	for k := 0; k < i; k++ {
		n += nleaves(s.Field(k).Type())
	}
	return n
}

type Val struct {
	T types.Type
	L []*Term
}

type unsupportedErr struct{ msg string }

func unsupported(s string) unsupportedErr { return unsupportedErr{s} }

// typeKey canonicalises a type for memory: types that may alias share a key.
var typeKeyMemo = map[types.Type]string{}

func typeKey(t types.Type) string {
	if r, ok := typeKeyMemo[t]; ok {
		return r
	}
	r := ""
	switch u := t.Underlying().(type) {
	case *types.Basic:
		r = u.Name()
		if u.Kind() == types.Uint8 {
			r = "byte"
		}
		if u.Kind() == types.Int32 {
			r = "int32"
		}
	case *types.Slice:
		r = "slice"
		switch u.Elem().Underlying().(type) {
		case *types.Slice:
			r = "slice2" // a slice of slices is never the same value as another slice
		}
	case *types.Pointer:
		r = "ptr"
	case *types.Map:
		r = "map"
	case *types.Chan:
		r = "chan"
	case *types.Interface:
		r = "iface"
	case *types.Signature:
		r = "func"
	case *types.Array:
		r = "arr(" + typeKey(u.Elem()) + ")"
	case *types.Struct:
		r = shortStruct(u)
	default:
		r = t.String()
	}
	typeKeyMemo[t] = r
	return r
}

var structIDs = map[string]string{}
var structNames []string

func shortStruct(u *types.Struct) string {
	k := types.TypeString(u, nil)
	if id, ok := structIDs[k]; ok {
		return id
	}
	var f []string
	for i := 0; i < u.NumFields() && i < 3; i++ {
		f = append(f, u.Field(i).Name())
	}
	id := fmt.Sprintf("S%d{%s}", len(structIDs), strings.Join(f, ","))
	structIDs[k] = id
	return id
}

// isAgg: stored as a separate embedded object when it is a field or an array element.
func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// ---- state

type State struct {
	pc    *Term
	mem   map[string]*Term
	base  *membase
	cells map[int][]*Term
	alloc *Term
	env   map[ssa.Value]any
}

// noteMem: the references stored in memory variable v are below the current allocation.
func (s *State) noteMem(v *Term) {
	e, k := allocEK(s.alloc)
	memEpoch[v.id] = [2]int{e, k}
}

type membase struct {
	id   int
	cond *Term
	a, b *membase
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, base: s.base, alloc: s.alloc, mem: make(map[string]*Term, len(s.mem)), cells: make(map[int][]*Term, len(s.cells))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.env = make(map[ssa.Value]any, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

type memInfo struct {
	sort     string
	elo, ehi *big.Int
}

var memReg = map[string]memInfo{}

func baseMem(b *membase, key string) *Term {
	if b.cond != nil {
		return Ite(b.cond, baseMem(b.a, key), baseMem(b.b, key))
	}
	mi := memReg[key]
	v := Var(fmt.Sprintf("M%d.%s", b.id, key), mi.sort)
	v.elo, v.ehi = mi.elo, mi.ehi
	if e, ok := baseEpoch[b.id]; ok {
		memEpoch[v.id] = e
	}
	return v
}

func (s *State) getMem(key string) *Term {
	if t, ok := s.mem[key]; ok {
		return t
	}
	return baseMem(s.base, key)
}

func regMem(key, sort string, elo, ehi *big.Int) {
	if _, ok := memReg[key]; !ok {
		memReg[key] = memInfo{sort, elo, ehi}
	}
}

// memKey of leaf k of an object of (scalar or direct-field) type t.
func leafMemKey(tk string, k int, l leaf) string {
	key := fmt.Sprintf("%s#%d%s", tk, k, l.path)
	regMem(key, arr(arr(l.sort)), l.lo, l.hi)
	return key
}

// emb is the reference of an aggregate embedded in object (r,i).
func emb(tk, field string, r, i *Term) *Term {
	if r.op == OIte {
		c := r.args[0]
		return Ite(c, emb(tk, field, r.args[1], underCond(i, c, true)), emb(tk, field, r.args[2], underCond(i, c, false)))
	}
	return App("emb."+tk+"."+field, SInt, r, i)
}

// Addr is an address: a cell location or a memory object.
type Addr struct {
	T types.Type // type of the addressed value
	// cell
	cell int // >0
	off  int
	idx  []*Term // array indices inside the cell (leaf arrays)
	// memory: leaf offset coff of container ctk at (r,i)
	r, i *Term
	ctk  string
	coff int
}

func (x *Exec) loadLeafs(st *State, tk string, base int, ls []leaf, r, i *Term) []*Term {
	out := make([]*Term, len(ls))
	for k, l := range ls {
		key := leafMemKey(tk, base+k, l)
		t := Select(Select(st.getMem(key), r), i)
		x.noteLeaf(st, t, l)
		out[k] = t
	}
	return out
}

// load reads a value of type t stored as object (r,i).
func (x *Exec) loadObj(st *State, t types.Type, r, i *Term) []*Term {
	tk := typeKey(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []*Term
		off := 0
		for f := 0; f < u.NumFields(); f++ {
			ft := u.Field(f).Type()
			if isAgg(ft) {
				out = append(out, x.loadObj(st, ft, emb(tk, u.Field(f).Name(), r, i), I(0))...)
			} else {
				ls := leaves(ft)
				out = append(out, x.loadDirect(st, tk, off, ft, r, i)...)
				_ = ls
			}
			off += nleaves(ft)
		}
		return out
	case *types.Array:
		// the elements live at (r, 0..N-1)
		et := u.Elem()
		if isAgg(et) {
			if u.Len() > 8 {
				panic(unsupported("array of aggregates"))
			}
			ls := leaves(t)
			res := make([]*Term, len(ls))
			for k := int64(0); k < u.Len(); k++ {
				ev := x.loadObj(st, et, x.elemRef(et, r, I(k)), x.elemIdx(et, I(k)))
				for m := range ev {
					if res[m] == nil {
						res[m] = ConstArr(zeroLeaf(leaves(et)[m]))
					}
					res[m] = Store(res[m], I(k), ev[m])
				}
			}
			return res
		}
		etk := typeKey(et)
		var out []*Term
		for k, l := range leaves(et) {
			out = append(out, Select(st.getMem(leafMemKey(etk, k, l)), r))
		}
		return out
	}
	return x.loadDirect(st, tk, 0, t, r, i)
}

func (x *Exec) elemRef(et types.Type, r, k *Term) *Term {
	if _, ok := et.Underlying().(*types.Array); ok {
		return emb("arr", "e", r, k)
	}
	return r
}
func (x *Exec) elemIdx(et types.Type, k *Term) *Term {
	if _, ok := et.Underlying().(*types.Array); ok {
		return I(0)
	}
	return k
}

func (x *Exec) loadDirect(st *State, tk string, off int, t types.Type, r, i *Term) []*Term {
	v := x.loadLeafs(st, tk, off, leaves(t), r, i)
	x.wellFormed(st, t, v)
	return v
}

func (x *Exec) storeDirect(st *State, tk string, off int, t types.Type, r, i *Term, v []*Term) {
	for k, l := range leaves(t) {
		key := leafMemKey(tk, off+k, l)
		m := st.getMem(key)
		st.mem[key] = Store(m, r, Store(Select(m, r), i, v[k]))
		x.noteWrite(st, key, r, i, I(1))
	}
}

func (x *Exec) storeObj(st *State, t types.Type, r, i *Term, v []*Term) {
	tk := typeKey(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		off := 0
		for f := 0; f < u.NumFields(); f++ {
			ft := u.Field(f).Type()
			n := nleaves(ft)
			if isAgg(ft) {
				x.storeObj(st, ft, emb(tk, u.Field(f).Name(), r, i), I(0), v[off:off+n])
			} else {
				x.storeDirect(st, tk, off, ft, r, i, v[off:off+n])
			}
			off += n
		}
		return
	case *types.Array:
		et := u.Elem()
		if isAgg(et) {
			if u.Len() > 8 {
				panic(unsupported("array of aggregates"))
			}
			for k := int64(0); k < u.Len(); k++ {
				ev := make([]*Term, len(v))
				for m := range v {
					ev[m] = Select(v[m], I(k))
				}
				x.storeObj(st, et, x.elemRef(et, r, I(k)), x.elemIdx(et, I(k)), ev)
			}
			return
		}
		etk := typeKey(et)
		for k, l := range leaves(et) {
			key := leafMemKey(etk, k, l)
			st.mem[key] = Store(st.getMem(key), r, v[k])
			x.noteWrite(st, key, r, nil, nil)
		}
		return
	}
	x.storeDirect(st, tk, 0, t, r, i, v)
}

// load / store through an address
func (x *Exec) load(st *State, a Addr) Val {
	if a.cell > 0 {
		c := st.cells[a.cell]
		n := nleaves(a.T)
		out := make([]*Term, n)
		for k := 0; k < n; k++ {
			t := c[a.off+k]
			for _, ix := range a.idx {
				t = Select(t, ix)
			}
			out[k] = t
		}
		return Val{a.T, out}
	}
	if a.ctk != "" {
		return Val{a.T, x.loadDirect(st, a.ctk, a.coff, a.T, a.r, a.i)}
	}
	return Val{a.T, x.loadObj(st, a.T, a.r, a.i)}
}

func (x *Exec) store(st *State, a Addr, v Val) {
	if a.cell > 0 {
		c := append([]*Term(nil), st.cells[a.cell]...)
		for k := range v.L {
			c[a.off+k] = storeIdx(c[a.off+k], a.idx, v.L[k])
		}
		st.cells[a.cell] = c
		return
	}
	if a.ctk != "" {
		x.storeDirect(st, a.ctk, a.coff, a.T, a.r, a.i, v.L)
		return
	}
	x.storeObj(st, a.T, a.r, a.i, v.L)
}

func storeIdx(t *Term, idx []*Term, v *Term) *Term {
	if len(idx) == 0 {
		return v
	}
	return Store(t, idx[0], storeIdx(Select(t, idx[0]), idx[1:], v))
}

func zeroLeaf(l leaf) *Term {
	if l.depth > 0 {
		l2 := l
		l2.depth--
		l2.sort = elemSort(l.sort)
		return ConstArr(zeroLeaf(l2))
	}
	switch l.sort {
	case SBool:
		return False()
	case SInt:
		return I(0)
	case SArr:
		return ConstArr(I(0))
	}
	panic("zeroLeaf " + l.sort)
}

func zeroVal(t types.Type) Val {
	var out []*Term
	for _, l := range leaves(t) {
		out = append(out, zeroLeaf(l))
	}
	return Val{t, out}
}

// noteLeaf records attributes of a term freshly read from memory or made as input.
func (x *Exec) noteLeaf(st *State, t *Term, l leaf) {
	if t.bv {
		return
	}
	if l.kind == kRef && l.depth == 0 {
		x.noteRef(st, t)
	}
	if l.kind == kPay && t.op == OVar {
		if _, ok := refAttr[t.id]; !ok {
			e, k := allocEK(st.alloc)
			refAttr[t.id] = [2]int{e, k}
		}
	}
}

func (x *Exec) noteRef(st *State, t *Term) {
	switch t.op {
	case OIte:
		x.noteRef(st, t.args[1])
		x.noteRef(st, t.args[2])
	case OVar, OSelect, OApp:
		if t.allocE > 0 || strings.HasPrefix(t.name, "emb.") {
			return
		}
		if _, ok := refAttr[t.id]; !ok {
			if a, ok := memEpochOf(t); ok && t.op == OSelect {
				refAttr[t.id] = a
				x.fact(Lt(t, Add(x.epochVar(a[0]), I(int64(a[1])))))
				return
			}
			if t.op == OApp && strings.HasPrefix(t.name, "unbox.") {
				if e, k, ok := payBelow(t.args[0]); ok {
					refAttr[t.id] = [2]int{e, k}
					x.fact(Lt(t, Add(x.epochVar(e), I(int64(k)))))
					return
				}
			}
			e, k := allocEK(st.alloc)
			refAttr[t.id] = [2]int{e, k}
			x.fact(Imp(st.pc, Lt(t, st.alloc)))
		}
	}
}

// wellFormed assumes the representation invariants of a value.
func (x *Exec) wellFormed(st *State, t types.Type, v []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		r, o, l, c := v[0], v[1], v[2], v[3]
		if r.bv || l.bv || c.bv || o.bv {
			return
		}
		if x.wfSeen[[2]int{l.id, c.id}] {
			return
		}
		x.wfSeen[[2]int{l.id, c.id}] = true
		_ = o
		x.fact(Le(l, c))
		x.fact(Imp(Eq(r, I(0)), Eq(c, I(0))))
	case *types.Struct:
		off := 0
		for f := 0; f < u.NumFields(); f++ {
			n := nleaves(u.Field(f).Type())
			x.wellFormed(st, u.Field(f).Type(), v[off:off+n])
			off += n
		}
	case *types.Tuple:
		off := 0
		for f := 0; f < u.Len(); f++ {
			n := nleaves(u.At(f).Type())
			x.wellFormed(st, u.At(f).Type(), v[off:off+n])
			off += n
		}
	case *types.Interface:
		if len(v) == 2 && !v[0].bv && !v[1].bv {
			x.fact(Imp(Eq(v[0], I(0)), Eq(v[1], I(0))))
		}
	case *types.Pointer:
		if !v[0].bv && !v[1].bv {
			x.fact(Imp(Eq(v[0], I(0)), Eq(v[1], I(0))))
		}
	}
}

// freshVal is an arbitrary well-formed value of type t.
func (x *Exec) freshVal(st *State, name string, t types.Type) Val {
	var out []*Term
	for _, l := range leaves(t) {
		if l.kind == kLen && strings.HasSuffix(l.path, "o") && isStringOff(t, len(out)) {
			out = append(out, I(0))
			continue
		}
		v := Fresh(name+"."+l.path, l.sort)
		if l.sort == SInt {
			v.lo, v.hi = l.lo, l.hi
		} else {
			v.elo, v.ehi = l.lo, l.hi
		}
		x.noteLeaf(st, v, l)
		out = append(out, v)
	}
	x.wellFormed(st, t, out)
	return Val{t, out}
}

// isStringOff: leaf k of t is the offset of a string (immutable, may be taken as 0).
func isStringOff(t types.Type, k int) bool {
	ls := leaves(t)
	return k > 0 && ls[k].depth == 0 && ls[k-1].kind == kArr && ls[k-1].depth == 0
}

// ---- strings

type Str struct{ a, o, l *Term }

func strOf(v Val) Str { return Str{v.L[0], v.L[1], v.L[2]} }

func constStr(s string) Str {
	if s == "" {
		return Str{ConstArr(I(0)), I(0), I(0)}
	}
	v := Var(fmt.Sprintf("str:%q", sanitize(s)), SArr)
	lo, hi := 255, 0
	for i := 0; i < len(s); i++ {
		if int(s[i]) < lo {
			lo = int(s[i])
		}
		if int(s[i]) > hi {
			hi = int(s[i])
		}
	}
	v.elo, v.ehi = bigZero, big64(255)
	cstr[v.id] = s
	return Str{v, I(0), I(int64(len(s)))}
}

func sanitize(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '|' || c == '\\' || c < 32 || c > 126 {
			fmt.Fprintf(&b, "{%02x}", c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

func (s Str) at(i *Term) *Term { return Select(s.a, Add(s.o, i)) }

func constLen(t *Term) (int64, bool) {
	if t.isConst() && t.val.IsInt64() {
		return t.val.Int64(), true
	}
	return 0, false
}

// strEqRaw is content equality as a formula.
func strEqRaw(a, b Str) *Term {
	if a.a == b.a && a.o == b.o && a.l == b.l {
		return True()
	}
	le := Eq(a.l, b.l)
	if le.isFalse() {
		return le
	}
	n, ok := constLen(a.l)
	if !ok {
		n, ok = constLen(b.l)
	}
	if ok && n <= 200 {
		cs := []*Term{le}
		for k := int64(0); k < n; k++ {
			cs = append(cs, Eq(a.at(I(k)), b.at(I(k))))
		}
		return And(cs...)
	}
	k := BVar()
	return And(le, Forall(k, Or(Lt(k, I(0)), Ge(k, a.l), Eq(a.at(k), b.at(k)))))
}

// strEq is content equality as a usable boolean (named when quantified).
func (x *Exec) strEq(a, b Str) *Term {
	e := strEqRaw(a, b)
	if !hasQuant(e) || e.bv || x.inSpecForm > 0 {
		return e
	}
	q := x.nameBool(e, func() *Term {
		w := Fresh("w", SInt)
		return Or(Ne(a.l, b.l), And(Ge(w, I(0)), Lt(w, a.l), Ne(a.at(w), b.at(w))))
	})
	if x.target.has("eqkeys") && !q.bv && !x.keying { // compared strings have keys
		x.keying = true
		defer func() { x.keying = false }()
		for _, s := range []Str{a, b} {
			x.keyTerm(Val{types.Typ[types.String], []*Term{s.a, s.o, s.l}})
		}
	}
	if x.target.has("nokeys") && !q.bv { // equal strings have the same key
		x.fact(Imp(q, Eq(App("skey", SInt, a.a, a.o, a.l), App("skey", SInt, b.a, b.o, b.l))))
	}
	return q
}

// nameBool introduces a boolean equivalent to the quantified formula e.
func (x *Exec) nameBool(e *Term, neg func() *Term) *Term {
	if v, ok := x.named[e.id]; ok {
		return v
	}
	v := Fresh("q", SBool)
	x.named[e.id] = v
	x.fact(Imp(v, e))
	if neg != nil {
		x.fact(Or(v, neg()))
	} else {
		x.fact(Or(v, Not(e)))
	}
	x.defsOf[v.id] = e
	return v
}

func (x *Exec) concat(a, b Str) Str {
	if n, ok := constLen(a.l); ok && n == 0 {
		return b
	}
	if n, ok := constLen(b.l); ok && n == 0 {
		return a
	}
	var base *Term
	if n, ok := constLen(a.o); ok && n == 0 {
		base = a.a
	} else {
		z := Fresh("cat", SArr)
		z.elo, z.ehi = bigZero, big64(255)
		base = CopyArr(z, I(0), a.l, a.a, a.o)
	}
	return Str{CopyArr(base, a.l, b.l, b.a, b.o), I(0), Add(a.l, b.l)}
}

func (x *Exec) epochVar(e int) *Term {
	if v, ok := x.epochVars[e]; ok {
		return v
	}
	return Fresh("noepoch", SInt)
}

func allocEK(a *Term) (e, k int) {
	if a.op == OConst {
		return 1, 0
	}
	if a.op == OVar {
		return a.allocE, 0
	}
	return a.args[0].allocE, int(a.val.Int64())
}
