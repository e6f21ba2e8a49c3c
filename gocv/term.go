package main

// Hash-consed first-order terms with a small simplifier.
// Integers are mathematical; machine arithmetic is encoded on top (see exec.go).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op int

const (
	OConst Op = iota // integer constant
	OVar             // free constant
	OBVar            // bound variable
	OSum             // c0 + sum coef_i*args_i
	OMul             // nonlinear product
	ODiv             // euclidean div
	OMod             // euclidean mod
	OIte
	OEq
	OLe // args[0] <= 0   (args[0] a normalised sum)
	ONot
	OAnd
	OOr
	OTrue
	OFalse
	OSelect
	OStore
	OCopy     // Copy(A, lo, n, B, src): A with [lo,lo+n) replaced by B[src..]
	OConstArr // constant array
	OApp      // uninterpreted function
	OForall
	OExists
	OFrame // Frame(new, old, alloc0, w...): new at w... and at references >= alloc0, old elsewhere
)

type Term struct {
	op    Op
	sort  string
	args  []*Term
	name  string
	val   *big.Int   // OConst; OSum constant part
	coefs []*big.Int // OSum
	id    int
	bv    bool // contains bound variables
	lo    *big.Int
	hi    *big.Int
	elo   *big.Int // element bounds for arrays
	ehi   *big.Int
	// reference ordering attributes
	refE, refK int // for reference variables: value < alloc_{refE}+refK ; refE<0: unknown
	allocE     int // for alloc variables: epoch (>0)
	pats       []*Term
}

const (
	SInt  = "Int"
	SBool = "Bool"
)

func arr(s string) string { return "(Array Int " + s + ")" }

var SArr = arr(SInt)

func elemSort(s string) string { return strings.TrimSuffix(strings.TrimPrefix(s, "(Array Int "), ")") }

type TermCtx struct {
	tab  map[string]*Term
	next int
	nvar int
	all  []*Term
}

var tc = &TermCtx{tab: map[string]*Term{}}

// resetTerms starts a new term universe (one per symbolic-execution round), so
// that generated names are deterministic.
func resetTerms() {
	tc = &TermCtx{tab: map[string]*Term{}}
	selectMemo = map[[2]int]*Term{}
	refAttr = map[int][2]int{}
	cstr = map[int]string{}
	memEpoch = map[int][2]int{}
	knownSel = map[int]map[int]*Term{}
	knownBase = map[int]*Term{}
	baseEpoch = map[int][2]int{}
	symMemo = map[*Term][]int{}
	qdepthMemo = map[int]int{}
	quantMemo = map[*Term]bool{}
}

// memEpoch: every reference stored in this memory (or block content) variable is
// below alloc_e + k. baseEpoch: the same for entry memories.
// knownSel: the values of an initial memory variable at constant references.
var knownSel = map[int]map[int]*Term{}
var knownBase = map[int]*Term{}

var memEpoch = map[int][2]int{}
var baseEpoch = map[int][2]int{}

// cstr maps array variables that stand for constant strings to their bytes.
var cstr = map[int]string{}

func (c *TermCtx) mk(t *Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s|", t.op, t.sort, t.name)
	if t.val != nil {
		b.WriteString(t.val.String())
	}
	b.WriteByte('|')
	for i, a := range t.args {
		if i < len(t.coefs) {
			b.WriteString(t.coefs[i].String())
			b.WriteByte('*')
		}
		fmt.Fprintf(&b, "%d,", a.id)
	}
	k := b.String()
	if x, ok := c.tab[k]; ok {
		return x
	}
	for _, a := range t.args {
		if a.bv {
			t.bv = true
		}
	}
	if t.op == OBVar {
		t.bv = true
	}
	c.next++
	t.id = c.next
	c.tab[k] = t
	bounds(t)
	return t
}

func big64(i int64) *big.Int { return big.NewInt(i) }

var (
	bigZero = big64(0)
	bigOne  = big64(1)
	minI64  = new(big.Int).Neg(new(big.Int).Lsh(bigOne, 63))
	maxI64  = new(big.Int).Sub(new(big.Int).Lsh(bigOne, 63), bigOne)
)

func I(i int64) *Term         { return IB(big64(i)) }
func IB(b *big.Int) *Term     { return tc.mk(&Term{op: OConst, sort: SInt, val: b}) }
func True() *Term             { return tc.mk(&Term{op: OTrue, sort: SBool}) }
func False() *Term            { return tc.mk(&Term{op: OFalse, sort: SBool}) }
func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OTrue }
func (t *Term) isFalse() bool { return t.op == OFalse }

func Var(name, sort string) *Term { return tc.mk(&Term{op: OVar, sort: sort, name: name, refE: -1}) }
func Fresh(prefix, sort string) *Term {
	tc.nvar++
	return Var(fmt.Sprintf("%s!%d", prefix, tc.nvar), sort)
}
func BVar() *Term {
	tc.nvar++
	return tc.mk(&Term{op: OBVar, sort: SInt, name: fmt.Sprintf("k!%d", tc.nvar)})
}

func bounds(t *Term) {
	switch t.op {
	case OConst:
		t.lo, t.hi = t.val, t.val
	case OSum:
		lo, hi := new(big.Int).Set(t.val), new(big.Int).Set(t.val)
		okl, okh := true, true
		for i, a := range t.args {
			al, ah := a.lo, a.hi
			if t.coefs[i].Sign() < 0 {
				al, ah = ah, al
			}
			if al == nil {
				okl = false
			} else if okl {
				lo.Add(lo, new(big.Int).Mul(al, t.coefs[i]))
			}
			if ah == nil {
				okh = false
			} else if okh {
				hi.Add(hi, new(big.Int).Mul(ah, t.coefs[i]))
			}
		}
		if okl {
			t.lo = lo
		}
		if okh {
			t.hi = hi
		}
	case OIte:
		if t.sort == SInt {
			a, b := t.args[1], t.args[2]
			if a.lo != nil && b.lo != nil {
				t.lo = a.lo
				if b.lo.Cmp(a.lo) < 0 {
					t.lo = b.lo
				}
			}
			if a.hi != nil && b.hi != nil {
				t.hi = a.hi
				if b.hi.Cmp(a.hi) > 0 {
					t.hi = b.hi
				}
			}
		}
	case OMod:
		m := t.args[1]
		if m.isConst() && m.val.Sign() > 0 {
			t.lo, t.hi = bigZero, new(big.Int).Sub(m.val, bigOne)
			a := t.args[0]
			if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(t.hi) < 0 {
				t.hi = a.hi
			}
		}
	case ODiv:
		m := t.args[1]
		if m.isConst() && m.val.Sign() > 0 {
			a := t.args[0]
			if a.lo != nil {
				t.lo = eucDiv(a.lo, m.val)
			}
			if a.hi != nil {
				t.hi = eucDiv(a.hi, m.val)
			}
		}
	case OSelect:
		a := t.args[0]
		if a.elo != nil {
			if t.sort == SInt {
				t.lo, t.hi = a.elo, a.ehi
			} else {
				t.elo, t.ehi = a.elo, a.ehi
			}
		}
	case OStore:
		a, v := t.args[0], t.args[2]
		if a.elo != nil {
			if v.sort == SInt {
				if v.lo != nil && v.hi != nil {
					t.elo, t.ehi = bmin(a.elo, v.lo), bmax(a.ehi, v.hi)
				}
			} else if v.elo != nil {
				t.elo, t.ehi = bmin(a.elo, v.elo), bmax(a.ehi, v.ehi)
			}
		}
	case OCopy:
		a, b := t.args[0], t.args[3]
		if a.elo != nil && b.elo != nil {
			t.elo, t.ehi = bmin(a.elo, b.elo), bmax(a.ehi, b.ehi)
		}
	case OConstArr:
		v := t.args[0]
		if v.sort == SInt && v.isConst() {
			t.elo, t.ehi = v.val, v.val
		}
	}
	if t.op == OIte && t.sort != SInt && t.sort != SBool {
		a, b := t.args[1], t.args[2]
		if a.elo != nil && b.elo != nil {
			t.elo, t.ehi = bmin(a.elo, b.elo), bmax(a.ehi, b.ehi)
		}
	}
}

func bmin(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func eucDiv(a, b *big.Int) *big.Int { // b > 0
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	return q
}

// ---- sums

type lin struct {
	c  *big.Int
	m  map[int]*big.Int
	at map[int]*Term
}

func newLin() *lin { return &lin{new(big.Int), map[int]*big.Int{}, map[int]*Term{}} }
func (l *lin) add(t *Term, k *big.Int) {
	switch t.op {
	case OConst:
		l.c.Add(l.c, new(big.Int).Mul(t.val, k))
	case OSum:
		l.c.Add(l.c, new(big.Int).Mul(t.val, k))
		for i, a := range t.args {
			l.atom(a, new(big.Int).Mul(t.coefs[i], k))
		}
	default:
		l.atom(t, k)
	}
}
func (l *lin) atom(a *Term, k *big.Int) {
	if x, ok := l.m[a.id]; ok {
		x = new(big.Int).Add(x, k)
		if x.Sign() == 0 {
			delete(l.m, a.id)
			delete(l.at, a.id)
		} else {
			l.m[a.id] = x
		}
		return
	}
	if k.Sign() == 0 {
		return
	}
	l.m[a.id] = new(big.Int).Set(k)
	l.at[a.id] = a
}
func (l *lin) term() *Term {
	if len(l.m) == 0 {
		return IB(l.c)
	}
	ids := make([]int, 0, len(l.m))
	for id := range l.m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	if len(ids) == 1 && l.c.Sign() == 0 && l.m[ids[0]].Cmp(bigOne) == 0 {
		return l.at[ids[0]]
	}
	t := &Term{op: OSum, sort: SInt, val: l.c}
	for _, id := range ids {
		t.args = append(t.args, l.at[id])
		t.coefs = append(t.coefs, l.m[id])
	}
	return tc.mk(t)
}

func Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, bigOne)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, bigOne)
	l.add(b, big64(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(I(0), a) }
func Mul(a, b *Term) *Term {
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		l := newLin()
		l.add(b, a.val)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(&Term{op: OMul, sort: SInt, args: []*Term{a, b}})
}

// euclidean division/modulo by a positive constant (or symbolic)
func EDiv(a, b *Term) *Term {
	if b.isConst() && b.val.Sign() > 0 {
		if b.val.Cmp(bigOne) == 0 {
			return a
		}
		if a.isConst() {
			return IB(eucDiv(a.val, b.val))
		}
		if a.lo != nil && a.hi != nil {
			ql, qh := eucDiv(a.lo, b.val), eucDiv(a.hi, b.val)
			if ql.Cmp(qh) == 0 {
				return IB(ql)
			}
		}
	}
	return tc.mk(&Term{op: ODiv, sort: SInt, args: []*Term{a, b}})
}
func EMod(a, b *Term) *Term {
	if b.isConst() && b.val.Sign() > 0 {
		if b.val.Cmp(bigOne) == 0 {
			return I(0)
		}
		if a.isConst() {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.val, b.val, m)
			return IB(m)
		}
		if a.lo != nil && a.hi != nil {
			ql, qh := eucDiv(a.lo, b.val), eucDiv(a.hi, b.val)
			if ql.Cmp(qh) == 0 {
				return Sub(a, IB(new(big.Int).Mul(ql, b.val)))
			}
		}
		if a.op == OMod && a.args[1].isConst() {
			if new(big.Int).Mod(a.args[1].val, b.val).Sign() == 0 {
				return EMod(a.args[0], b)
			}
		}
		if a.op == OSum {
			// drop multiples of b, and inner mods by multiples of b
			l := newLin()
			l.c.Mod(a.val, b.val)
			ch := l.c.Cmp(a.val) != 0
			for i, x := range a.args {
				k := new(big.Int).Mod(a.coefs[i], b.val)
				if k.Sign() == 0 {
					ch = true
					continue
				}
				if new(big.Int).Sub(b.val, k).Cmp(bigOne) == 0 && a.coefs[i].Sign() < 0 {
					k = a.coefs[i]
				} else if k.Cmp(a.coefs[i]) != 0 {
					ch = true
				}
				if x.op == OMod && x.args[1].isConst() && new(big.Int).Mod(x.args[1].val, b.val).Sign() == 0 {
					l.add(x.args[0], k)
					ch = true
				} else {
					l.atom(x, k)
				}
			}
			if ch {
				return EMod(l.term(), b)
			}
		}
	}
	return tc.mk(&Term{op: OMod, sort: SInt, args: []*Term{a, b}})
}

// ---- booleans

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return False()
	case OFalse:
		return True()
	case ONot:
		return a.args[0]
	case OLe: // not (s <= 0)  ==> 1 - s <= 0
		return le0(Sub(I(1), a.args[0]))
	case OIte:
		return Ite(a.args[0], Not(a.args[1]), Not(a.args[2]))
	}
	return tc.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case OTrue:
			return true
		case OFalse:
			return false
		case OAnd:
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False()
		}
	}
	if len(out) == 0 {
		return True()
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorb: a disjunction containing an existing conjunct's complement or member
	changed := false
	for i, t := range out {
		if t.op == ONot && t.args[0].op == OAnd {
			var keep []*Term
			drop := false
			for _, d := range t.args[0].args {
				if seen[d.id] {
					continue
				}
				if seen[Not(d).id] {
					drop = true
					break
				}
				keep = append(keep, d)
			}
			if drop {
				out[i] = True()
				changed = true
			} else if len(keep) < len(t.args[0].args) {
				out[i] = Not(And(keep...))
				changed = true
			}
			continue
		}
		if t.op != OOr {
			continue
		}
		var keep []*Term
		drop := false
		for _, d := range t.args {
			if seen[d.id] {
				drop = true
				break
			}
			if seen[Not(d).id] {
				continue
			}
			keep = append(keep, d)
		}
		if drop {
			out[i] = True()
			changed = true
		} else if len(keep) < len(t.args) {
			out[i] = Or(keep...)
			changed = true
		}
	}
	if changed {
		return And(out...)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return tc.mk(&Term{op: OAnd, sort: SBool, args: out})
}

func conjuncts(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	if t.isTrue() {
		return nil
	}
	return []*Term{t}
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool // false: tautology
	add = func(t *Term) bool {
		switch t.op {
		case OFalse:
			return true
		case OTrue:
			return false
		case OOr:
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True()
		}
	}
	if len(out) == 0 {
		return False()
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorb: a conjunction containing another disjunct or its complement
	changed := false
	for i, t := range out {
		if t.op != OAnd && !(t.op == ONot && t.args[0].op == OOr) {
			continue
		}
		var keep []*Term
		drop := false
		var parts []*Term
		if t.op == OAnd {
			parts = t.args
		} else {
			for _, d := range t.args[0].args {
				parts = append(parts, Not(d))
			}
		}
		for _, d := range parts {
			if seen[d.id] {
				drop = true
				break
			}
			if seen[Not(d).id] {
				continue
			}
			keep = append(keep, d)
		}
		if drop {
			out[i] = False()
			changed = true
		} else if len(keep) < len(parts) {
			out[i] = And(keep...)
			changed = true
		}
	}
	if changed {
		return Or(out...)
	}
	// (p & c) | (p & !c) = p
	for i := 0; i < len(out); i++ {
		for j := i + 1; j < len(out); j++ {
			if m := mergeConj(out[i], out[j]); m != nil {
				rest := append([]*Term{m}, out[:i]...)
				rest = append(rest, out[i+1:j]...)
				rest = append(rest, out[j+1:]...)
				return Or(rest...)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return tc.mk(&Term{op: OOr, sort: SBool, args: out})
}

func mergeConj(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	sa, sb := map[int]bool{}, map[int]bool{}
	for _, x := range ca {
		sa[x.id] = true
	}
	for _, x := range cb {
		sb[x.id] = true
	}
	var da, db, common []*Term
	for _, x := range ca {
		if sb[x.id] {
			common = append(common, x)
		} else {
			da = append(da, x)
		}
	}
	for _, x := range cb {
		if !sa[x.id] {
			db = append(db, x)
		}
	}
	if len(da) == 0 {
		return a
	}
	if len(db) == 0 {
		return b
	}
	if len(common) == 0 && (len(ca) > 1 || len(cb) > 1) {
		return nil
	}
	if len(da) == 1 && len(db) == 1 && Not(da[0]) == db[0] {
		return And(common...)
	}
	// one side is not (x & y & ...), the other x, y, ...
	notAll := func(da, db []*Term) bool {
		if len(da) != 1 || da[0].op != ONot || da[0].args[0].op != OAnd {
			return false
		}
		cs := da[0].args[0].args
		if len(cs) != len(db) {
			return false
		}
		m := map[int]bool{}
		for _, c := range cs {
			m[c.id] = true
		}
		for _, c := range db {
			if !m[c.id] {
				return false
			}
		}
		return true
	}
	if notAll(da, db) || notAll(db, da) {
		return And(common...)
	}
	return nil
}

func Imp(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	return Or(Not(a), b)
}
func Iff(a, b *Term) *Term { return Eq(a, b) }

func le0(s *Term) *Term { // s <= 0
	if s.lo != nil && s.lo.Sign() > 0 {
		return False()
	}
	if s.hi != nil && s.hi.Sign() <= 0 {
		return True()
	}
	if s.op == OSum {
		// divide by gcd of coefficients
		g := new(big.Int)
		for _, c := range s.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			l := newLin()
			for i, a := range s.args {
				l.atom(a, new(big.Int).Quo(s.coefs[i], g))
			}
			// sum + c <= 0  ==> sum/g <= floor(-c/g) ==> sum/g + ceil(c/g) <= 0
			l.c.Neg(eucDiv(new(big.Int).Neg(s.val), g))
			return le0(l.term())
		}
	}
	if s.op == OIte {
		return Ite(s.args[0], le0(s.args[1]), le0(s.args[2]))
	}
	if s.op == OSum && len(s.args) == 1 && s.args[0].op == OIte && iteConstLeaves(s.args[0], 64) {
		return mapIte(s.args[0], func(x *Term) *Term { return le0(Add(IB(s.val), Mul(IB(s.coefs[0]), x))) })
	}
	return tc.mk(&Term{op: OLe, sort: SBool, args: []*Term{s}})
}

func iteConstLeaves(t *Term, n int) bool {
	if t.op == OConst {
		return true
	}
	if t.op != OIte || n <= 0 {
		return false
	}
	return iteConstLeaves(t.args[1], n-1) && iteConstLeaves(t.args[2], n-1)
}
func mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return Ite(t.args[0], mapIte(t.args[1], f), mapIte(t.args[2], f))
	}
	return f(t)
}

func Le(a, b *Term) *Term { return le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return le0(Add(Sub(a, b), I(1))) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True()
	}
	if a.sort != b.sort {
		panic("Eq sorts " + a.sort + " " + b.sort)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return Not(b)
		}
		if b.isFalse() {
			return Not(a)
		}
		if Not(a) == b {
			return False()
		}
	}
	if a.sort == SInt {
		s := Sub(a, b)
		if s.isConst() {
			if s.val.Sign() == 0 {
				return True()
			}
			return False()
		}
		if s.lo != nil && s.lo.Sign() > 0 || s.hi != nil && s.hi.Sign() < 0 {
			return False()
		}
		if refDistinct(a, b) {
			return False()
		}
		if s.op == OIte && iteConstLeaves(s, 64) {
			return mapIte(s, func(x *Term) *Term { return Eq(x, I(0)) })
		}
		if s.op == OSum && len(s.args) == 1 && s.args[0].op == OIte && iteConstLeaves(s.args[0], 64) {
			return mapIte(s.args[0], func(x *Term) *Term { return Eq(Add(IB(s.val), Mul(IB(s.coefs[0]), x)), I(0)) })
		}
		// ite(c,k1,x) == k2 with k1 != k2 constants
		if b.isConst() && a.op == OIte {
			e1, e2 := Eq(a.args[1], b), Eq(a.args[2], b)
			if e1.isTrue() || e1.isFalse() || e2.isTrue() || e2.isFalse() {
				return Ite(a.args[0], e1, e2)
			}
		}
		if a.isConst() && b.op == OIte {
			return Eq(b, a)
		}
		// canonical: s == 0 with positive leading coefficient
		if s.op == OSum {
			if s.coefs[0].Sign() < 0 {
				s = Neg(s)
			}
			if s.op == OSum {
				g := new(big.Int)
				for _, c := range s.coefs {
					g.GCD(nil, nil, g, new(big.Int).Abs(c))
				}
				if g.Cmp(bigOne) > 0 {
					if new(big.Int).Mod(s.val, g).Sign() != 0 {
						return False()
					}
					l := newLin()
					l.c.Quo(s.val, g)
					for i, x := range s.args {
						l.atom(x, new(big.Int).Quo(s.coefs[i], g))
					}
					s = l.term()
				}
			}
		}
		return tc.mk(&Term{op: OEq, sort: SBool, args: []*Term{s, I(0)}})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic("Ite sorts " + a.sort + " / " + b.sort)
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	a = underCond(a, c, true)
	b = underCond(b, c, false)
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.isTrue() {
			return Or(c, b)
		}
		if a.isFalse() {
			return And(Not(c), b)
		}
		if b.isTrue() {
			return Or(Not(c), a)
		}
		if b.isFalse() {
			return And(c, a)
		}
	}
	return tc.mk(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

// underCond simplifies the ite-structure of t knowing c (or not c).
func underCond(t, c *Term, pos bool) *Term {
	if t.op != OIte {
		return t
	}
	memo := map[int]*Term{}
	budget := 400
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op != OIte {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		if budget--; budget < 0 {
			return t
		}
		id := t.id
		var r *Term
		switch implied(c, pos, t.args[0]) {
		case 1:
			r = rec(t.args[1])
		case -1:
			r = rec(t.args[2])
		default:
			x, y := rec(t.args[1]), rec(t.args[2])
			switch {
			case x == t.args[1] && y == t.args[2]:
				r = t
			case x == y:
				r = x
			case t.sort == SBool:
				r = Ite(t.args[0], x, y)
			default:
				r = tc.mk(&Term{op: OIte, sort: t.sort, args: []*Term{t.args[0], x, y}})
			}
		}
		memo[id] = r
		return r
	}
	return rec(t)
}

// implied: 1 when k follows from c (or from not c when !pos), -1 when its negation does.
func implied(c *Term, pos bool, k *Term) int {
	if k == c {
		if pos {
			return 1
		}
		return -1
	}
	if pos {
		if c.op == OAnd {
			for _, a := range c.args {
				if a == k {
					return 1
				}
				if a.op == ONot && a.args[0] == k || k.op == ONot && k.args[0] == a || eqExcludes(a, k) {
					return -1
				}
			}
		}
		if k.op == OAnd {
			for _, a := range k.args {
				if a.op == ONot && a.args[0] == c || eqExcludes(c, a) {
					return -1
				}
			}
		}
		if k.op == OOr {
			for _, a := range k.args {
				if a == c {
					return 1
				}
			}
		}
		if eqExcludes(c, k) {
			return -1
		}
		return 0
	}
	if c.op == OOr {
		for _, a := range c.args {
			if a == k {
				return -1
			}
			if a.op == ONot && a.args[0] == k || k.op == ONot && k.args[0] == a {
				return 1
			}
		}
	}
	if k.op == OAnd {
		for _, a := range k.args {
			if a == c {
				return -1
			}
		}
	}
	if k.op == OOr {
		for _, a := range k.args {
			if a.op == ONot && a.args[0] == c {
				return 1
			}
		}
	}
	return 0
}

// eqExcludes: two equations of the same term with different values.
func eqExcludes(a, b *Term) bool {
	if a.op != OEq || b.op != OEq || a.args[0].sort != SInt || b.args[0].sort != SInt {
		return false
	}
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			if a.args[i] == b.args[j] && a.args[1-i].isConst() && b.args[1-j].isConst() && a.args[1-i] != b.args[1-j] {
				return true
			}
		}
	}
	return false
}

func Select(a, i *Term) *Term {
	switch a.op {
	case OStore, OCopy, OIte, OFrame:
		k := [2]int{a.id, i.id}
		if t, ok := selectMemo[k]; ok {
			return t
		}
		t := select1(a, i)
		selectMemo[k] = t
		return t
	}
	return select1(a, i)
}

var selectMemo = map[[2]int]*Term{}

func select1(a, i *Term) *Term {
	switch a.op {
	case OStore:
		j := a.args[1]
		if i == j {
			return a.args[2]
		}
		if refDistinct(i, j) || constDiffers(i, j) {
			return Select(a.args[0], i)
		}
		if i.op == OIte && !strings.HasPrefix(a.sort, "(Array Int Int") {
			return Ite(i.args[0], Select(a, i.args[1]), Select(a, i.args[2]))
		}
		return Ite(Eq(i, j), a.args[2], Select(a.args[0], i))
	case OCopy:
		A, lo, n, B, src := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
		in := And(Le(lo, i), Lt(i, Add(lo, n)))
		if in.isTrue() {
			return Select(B, Add(Sub(i, lo), src))
		}
		if in.isFalse() {
			return Select(A, i)
		}
		return Ite(in, Select(B, Add(Sub(i, lo), src)), Select(A, i))
	case OIte:
		if i.bv && !a.bv && a.sort == SArr && iteCount(a, 9) > 8 {
			break // the printer names the array
		}
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	case OConstArr:
		return a.args[0]
	case OFrame:
		if i.op == OIte {
			return Ite(i.args[0], Select(a, i.args[1]), Select(a, i.args[2]))
		}
		nw, old, al := a.args[0], a.args[1], a.args[2]
		fr := freshSince(i, al)
		if fr.isTrue() {
			return Select(nw, i)
		}
		cs := []*Term{fr}
		for _, w := range a.args[3:] {
			e := Eq(i, w)
			if e.isTrue() {
				return Select(nw, i)
			}
			cs = append(cs, e)
		}
		return Ite(Or(cs...), Select(nw, i), Select(old, i))
	case OVar:
		if k, ok := knownSel[a.id]; ok && i.isConst() {
			if v := k[i.id]; v != nil {
				return v
			}
			return Select(knownBase[a.id], i)
		}
		if s, ok := cstr[a.id]; ok && i.isConst() && i.val.IsInt64() {
			if k := i.val.Int64(); k >= 0 && k < int64(len(s)) {
				return I(int64(s[k]))
			}
		}
	}
	if i.op == OIte && a.sort != SArr {
		return Ite(i.args[0], Select(a, i.args[1]), Select(a, i.args[2]))
	}
	return tc.mk(&Term{op: OSelect, sort: elemSort(a.sort), args: []*Term{a, i}})
}

// iteCount counts the branches of a conditional term, up to n.
func iteCount(t *Term, n int) int {
	if t.op != OIte {
		return 1
	}
	k := iteCount(t.args[1], n)
	if k >= n {
		return k
	}
	return k + iteCount(t.args[2], n-k)
}

func constDiffers(i, j *Term) bool {
	d := Sub(i, j)
	if d.isConst() {
		return d.val.Sign() != 0
	}
	if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
		return true
	}
	return false
}

func Store(a, i, v *Term) *Term {
	if elemSort(a.sort) != v.sort {
		panic("Store sort " + a.sort + " <- " + v.sort)
	}
	if a.op == OStore {
		if a.args[1] == i {
			return Store(a.args[0], i, v)
		}
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return tc.mk(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}

func CopyArr(a, lo, n, b, src *Term) *Term {
	if n.isConst() {
		if n.val.Sign() <= 0 {
			return a
		}
		if n.val.Cmp(big64(40)) <= 0 {
			r := a
			k := n.val.Int64()
			for x := int64(0); x < k; x++ {
				r = Store(r, Add(lo, I(x)), Select(b, Add(src, I(x))))
			}
			return r
		}
	}
	return tc.mk(&Term{op: OCopy, sort: a.sort, args: []*Term{a, lo, n, b, src}})
}

func ConstArr(v *Term) *Term {
	return tc.mk(&Term{op: OConstArr, sort: arr(v.sort), args: []*Term{v}})
}

func FrameArr(nw, old, al *Term, ws ...*Term) *Term {
	return tc.mk(&Term{op: OFrame, sort: nw.sort, args: append([]*Term{nw, old, al}, ws...)})
}

// appAttr: value bounds of an uninterpreted function's results.
var appAttr = map[string]leaf{}

func App(name, sort string, args ...*Term) *Term {
	if len(args) > 0 && args[0].op == OIte && (strings.HasPrefix(name, "unbox.") || strings.HasPrefix(name, "emb.")) {
		c := args[0].args[0]
		ta := append([]*Term{args[0].args[1]}, args[1:]...)
		fa := append([]*Term{args[0].args[2]}, args[1:]...)
		for k := 1; k < len(args); k++ {
			ta[k], fa[k] = underCond(args[k], c, true), underCond(args[k], c, false)
		}
		return Ite(c, App(name, sort, ta...), App(name, sort, fa...))
	}
	if strings.HasPrefix(name, "unbox.") && args[0].op == OApp && strings.HasPrefix(args[0].name, "box.") {
		if i := strings.LastIndexByte(name, '.'); args[0].name[4:] == name[6:i] {
			k := 0
			fmt.Sscan(name[i+1:], &k)
			return args[0].args[k]
		}
	}
	t := appRaw(name, sort, args...)
	if l, ok := appAttr[name]; ok {
		if l.sort == SInt {
			t.lo, t.hi = l.lo, l.hi
		} else if l.sort != SBool {
			t.elo, t.ehi = l.lo, l.hi
		}
	}
	return t
}

func appRaw(name, sort string, args ...*Term) *Term {
	return tc.mk(&Term{op: OApp, sort: sort, name: name, args: args, refE: -1})
}

func Forall(bv, body *Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	if !usesBV(body, bv) {
		return body
	}
	if body.op == OAnd {
		var cs []*Term
		for _, c := range body.args {
			cs = append(cs, Forall(bv, c))
		}
		return And(cs...)
	}
	// the variable is named after the nesting below it, so that equal formulas are one term
	for try := 0; try < 4; try++ {
		c := tc.mk(&Term{op: OBVar, sort: SInt, name: fmt.Sprintf("q!%d", qdepth(body)+1)})
		if c == bv {
			break
		}
		body = SubstB(body, bv, c)
		bv = c
		if body.op == OAnd || !usesBV(body, bv) {
			return Forall(bv, body)
		}
	}
	t := tc.mk(&Term{op: OForall, sort: SBool, args: []*Term{bv, body}})
	fixBV(t)
	return t
}

var qdepthMemo = map[int]int{}

// qdepth is the nesting depth of the quantifiers in t.
func qdepth(t *Term) int {
	if len(t.args) == 0 {
		return 0
	}
	if d, ok := qdepthMemo[t.id]; ok {
		return d
	}
	d := 0
	for _, a := range t.args {
		if e := qdepth(a); e > d {
			d = e
		}
	}
	if t.op == OForall {
		d++
	}
	qdepthMemo[t.id] = d
	return d
}
func Exists(bv, body *Term) *Term {
	return Not(Forall(bv, Not(body)))
}

// fixBV recomputes the "has free bound variables" flag of a quantifier.
func fixBV(t *Term) {
	t.bv = freeBVs(t.args[1], map[int]bool{t.args[0].id: true})
}
func freeBVs(t *Term, bound map[int]bool) bool {
	if !t.bv {
		return false
	}
	switch t.op {
	case OBVar:
		return !bound[t.id]
	case OForall, OExists:
		if bound[t.args[0].id] {
			return freeBVs(t.args[1], bound)
		}
		bound[t.args[0].id] = true
		r := freeBVs(t.args[1], bound)
		delete(bound, t.args[0].id)
		return r
	}
	for _, a := range t.args {
		if freeBVs(a, bound) {
			return true
		}
	}
	return false
}
func usesBV(t, bv *Term) bool {
	if !t.bv {
		return false
	}
	memo := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == bv {
			return true
		}
		if !t.bv {
			return false
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		r := false
		for _, a := range t.args {
			if rec(a) {
				r = true
				break
			}
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

// Subst replaces terms by id.
func Subst(t *Term, m map[int]*Term) *Term {
	return subst(t, m, false)
}

// SubstB replaces the bound variable v.
func SubstB(t, v, by *Term) *Term { return subst(t, map[int]*Term{v.id: by}, true) }

func subst(t *Term, m map[int]*Term, bound bool) *Term {
	return substMemo(t, m, bound, map[int]*Term{})
}

func substMemo(t *Term, m map[int]*Term, bound bool, memo map[int]*Term) *Term {
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if bound && !t.bv {
			return t
		}
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OSum:
		l := newLin()
		l.c.Set(t.val)
		for i, a := range as {
			l.add(a, t.coefs[i])
		}
		return l.term()
	case OMul:
		return Mul(as[0], as[1])
	case ODiv:
		return EDiv(as[0], as[1])
	case OMod:
		return EMod(as[0], as[1])
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OEq:
		return Eq(as[0], as[1])
	case OLe:
		return le0(as[0])
	case ONot:
		return Not(as[0])
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case OSelect:
		return Select(as[0], as[1])
	case OStore:
		return Store(as[0], as[1], as[2])
	case OCopy:
		return CopyArr(as[0], as[1], as[2], as[3], as[4])
	case OConstArr:
		return ConstArr(as[0])
	case OApp:
		return App(t.name, t.sort, as...)
	case OForall:
		return Forall(as[0], as[1])
	case OFrame:
		return FrameArr(as[0], as[1], as[2], as[3:]...)
	}
	panic("rebuild")
}

// ---- reference ordering (allocation epochs)

// refBelow: t < alloc_e + k for the returned pair.
func refBelow(t *Term) (e, k int, ok bool) {
	switch t.op {
	case OConst:
		if t.val.Sign() <= 0 {
			return 0, 0, true
		}
		return 1, 0, true // objects of the package initialisers
	case OVar, OSelect:
		if t.op == OSelect {
			if a, ok := memEpochOf(t); ok {
				return a[0], a[1], true
			}
		}
		if t.allocE > 0 {
			return t.allocE, 1, true
		}
		if a, ok := refAttr[t.id]; ok {
			return a[0], a[1], true
		}
		return 0, 0, false
	case OIte:
		e1, k1, ok1 := refBelow(t.args[1])
		e2, k2, ok2 := refBelow(t.args[2])
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		if e1 > e2 || e1 == e2 && k1 > k2 {
			return e1, k1, true
		}
		return e2, k2, true
	case OSum:
		if len(t.args) == 1 && t.args[0].allocE > 0 && t.coefs[0].Cmp(bigOne) == 0 {
			return t.args[0].allocE, int(t.val.Int64()) + 1, true
		}
	case OApp:
		if strings.HasPrefix(t.name, "emb.") {
			return refBelow(t.args[0])
		}
		if a, ok := refAttr[t.id]; ok {
			return a[0], a[1], true
		}
		if strings.HasPrefix(t.name, "unbox.") {
			return payBelow(t.args[0])
		}
	}
	return 0, 0, false
}

// payBelow bounds the references inside an interface value's payload: what a value
// refers to existed when it was put there.
func payBelow(t *Term) (e, k int, ok bool) {
	switch t.op {
	case OSelect:
		if a, ok := memEpochOf(t); ok {
			return a[0], a[1], true
		}
	case OIte:
		e1, k1, ok1 := payBelow(t.args[1])
		e2, k2, ok2 := payBelow(t.args[2])
		if ok1 && ok2 {
			if e1 > e2 || e1 == e2 && k1 > k2 {
				return e1, k1, true
			}
			return e2, k2, true
		}
	case OVar:
		if a, ok := refAttr[t.id]; ok {
			return a[0], a[1], true
		}
	}
	return 0, 0, false
}

// refFresh: t >= alloc_e + k (or is embedded in such an object).
func refFresh(t *Term) (e, k int, ok bool) {
	switch t.op {
	case OIte:
		e1, k1, ok1 := refFresh(t.args[1])
		e2, k2, ok2 := refFresh(t.args[2])
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		if e1 < e2 || e1 == e2 && k1 < k2 {
			return e1, k1, true
		}
		return e2, k2, true
	case OVar:
		if t.allocE > 0 {
			return t.allocE, 0, true
		}
	case OSum:
		if len(t.args) == 1 && t.args[0].allocE > 0 && t.coefs[0].Cmp(bigOne) == 0 {
			return t.args[0].allocE, int(t.val.Int64()), true
		}
	case OApp:
		if strings.HasPrefix(t.name, "emb.") {
			return refFresh(t.args[0])
		}
	}
	return 0, 0, false
}

// memEpochOf: the bound recorded for the memory a value was read from.
func memEpochOf(t *Term) ([2]int, bool) {
	for t.op == OSelect {
		t = t.args[0]
	}
	if t.op != OVar {
		return [2]int{}, false
	}
	a, ok := memEpoch[t.id]
	return a, ok
}

var refAttr = map[int][2]int{}

func refDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	f := func(a, b *Term) bool {
		if e, k, ok := refFresh(a); ok {
			if e2, k2, ok := refBelow(b); ok {
				if e2 < e || e2 == e && k2 <= k {
					return true
				}
			}
		}
		return false
	}
	if f(a, b) || f(b, a) {
		return true
	}
	// embedded objects: distinct fields / distinct owners / never nil / never an allocated base
	ea, eb := a.op == OApp && strings.HasPrefix(a.name, "emb."), b.op == OApp && strings.HasPrefix(b.name, "emb.")
	if ea && eb {
		if a.name != b.name {
			return true
		}
		return refDistinct(a.args[0], b.args[0])
	}
	if ea && (b.isConst() && b.val.Sign() >= 0 || isAllocTerm(b)) {
		return true
	}
	if eb && (a.isConst() && a.val.Sign() >= 0 || isAllocTerm(a)) {
		return true
	}
	if a.isConst() && a.val.Sign() == 0 && isAllocTerm(b) || b.isConst() && b.val.Sign() == 0 && isAllocTerm(a) {
		return true
	}
	return false
}

func isAllocTerm(t *Term) bool {
	if t.op == OVar && t.allocE > 0 {
		return true
	}
	return t.op == OSum && len(t.args) == 1 && t.args[0].allocE > 0 && t.coefs[0].Cmp(bigOne) == 0 && t.val.Sign() >= 0
}
