package main

// Candidate inputs from the solver: the arguments of a contract in a model of a failed obligation.

import (
	"bytes"
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"time"
)

const probeLen = 40

// A probe mirrors an argument: JSON-ready once resolved.
//
//	int/bool: string or bool, bytes/string: {"b":[..]}, struct: {"f":[..]}, pointer: {"p":x}, slice: {"e":[..]}, else nil
type probe struct {
	kind string // int bool bytes struct ptr slice none
	t    *Term
	sub  []*probe
}

type probeSet struct {
	x     *Exec
	st    *State
	lens  []*Term
	terms []*Term
}

func (ps *probeSet) add(t *Term) *probe { ps.terms = append(ps.terms, t); return &probe{t: t} }

func (ps *probeSet) val(v Val, depth int) *probe {
	if depth > 5 {
		return &probe{kind: "none"}
	}
	switch u := v.T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			p := ps.add(v.L[0])
			p.kind = "bool"
			return p
		case u.Info()&types.IsInteger != 0:
			p := ps.add(v.L[0])
			p.kind = "int"
			return p
		case u.Info()&types.IsString != 0:
			s := strOf(v)
			p := ps.add(s.l)
			p.kind = "bytes"
			ps.lens = append(ps.lens, s.l)
			for k := int64(0); k < probeLen; k++ {
				p.sub = append(p.sub, ps.add(s.at(I(k))))
			}
			return p
		}
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		p := ps.add(v.L[2])
		ps.lens = append(ps.lens, v.L[2])
		if ok && b.Kind() == types.Uint8 {
			p.kind = "bytes"
			for k := int64(0); k < probeLen; k++ {
				t := ps.x.loadObj(ps.st, u.Elem(), v.L[0], Add(v.L[1], I(k)))[0]
				p.sub = append(p.sub, ps.add(t))
			}
			return p
		}
		p.kind = "slice"
		for k := int64(0); k < 3; k++ {
			i := Add(v.L[1], I(k))
			e := Val{u.Elem(), ps.x.loadObj(ps.st, u.Elem(), ps.x.elemRef(u.Elem(), v.L[0], i), ps.x.elemIdx(u.Elem(), i))}
			p.sub = append(p.sub, ps.val(e, depth+1))
		}
		return p
	case *types.Struct:
		p := &probe{kind: "struct"}
		for i := 0; i < u.NumFields(); i++ {
			o := fieldOff(u, i)
			ft := u.Field(i).Type()
			p.sub = append(p.sub, ps.val(Val{ft, v.L[o : o+nleaves(ft)]}, depth+1))
		}
		return p
	case *types.Pointer:
		p := ps.add(v.L[0])
		p.kind = "ptr"
		if strings.HasPrefix(u.Elem().String(), "sync.") {
			return &probe{kind: "none"}
		}
		p.sub = []*probe{ps.val(Val{u.Elem(), ps.x.loadObj(ps.st, u.Elem(), v.L[0], v.L[1])}, depth+1)}
		return p
	}
	return &probe{kind: "none"}
}

func (ps *probeSet) args() (out []*probe) {
	for _, a := range ps.x.topArgs {
		p := func() (p *probe) {
			n := len(ps.terms)
			defer func() {
				if recover() != nil {
					ps.terms = ps.terms[:n]
					p = &probe{kind: "none"}
				}
			}()
			return ps.val(a.v, 0)
		}()
		out = append(out, p)
	}
	return
}

// models asks for models of the negated obligations and returns the arguments in each.
func (x *Exec) models(bad [][2]any) (out [][]any) {
	if x.probeSt == nil {
		return nil
	}
	type q struct {
		text  string
		terms []string
		ps    *probeSet
		args  []*probe
	}
	var qs []q
	for _, b := range bad {
		facts, goal := b[0].([]*Term), b[1].(*Term)
		ps := &probeSet{x: x, st: x.probeSt}
		args := ps.args()
		for _, small := range []int64{12, probeLen - 1} {
			fs := append([]*Term{}, relevant(facts, goal)...)
			for _, l := range ps.lens {
				fs = append(fs, Le(l, I(small)))
			}
			p := newPrinter()
			for _, f := range fs {
				p.count(f)
			}
			ng := Not(goal)
			p.count(ng)
			var body bytes.Buffer
			for _, f := range fs {
				fmt.Fprintf(&body, "(assert %s)\n", p.str(f))
			}
			for _, c := range conjuncts(ng) {
				fmt.Fprintf(&body, "(assert %s)\n", p.str(c))
			}
			var names []string
			for _, t := range ps.terms {
				names = append(names, p.str(t))
			}
			var w strings.Builder
			w.WriteString("(set-option :model.completion true)\n(set-logic ALL)\n")
			w.Write(p.defs.Bytes())
			w.Write(p.axioms.Bytes())
			w.Write(body.Bytes())
			w.WriteString("(check-sat)\n")
			for _, n := range names {
				fmt.Fprintf(&w, "(eval %s)\n", n)
			}
			qs = append(qs, q{w.String(), names, ps, args})
		}
	}
	res := make([][]any, 2*len(qs))
	done := make(chan int)
	for i, v := range qs {
		for k, opt := range []string{"(set-option :smt.mbqi true)\n", "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"} {
			go func(i, k int, v q, opt string) {
				solverSlots <- struct{}{}
				_, o := runSolver([]string{"z3-new", "-in", "rlimit=20000000"}, opt+v.text, 15*time.Second)
				<-solverSlots
				res[2*i+k] = decode(v.args, o)
				done <- i
			}(i, k, v, opt)
		}
	}
	for range qs {
		<-done
		<-done
	}
	for _, r := range res {
		if r != nil {
			out = append(out, r)
		}
	}
	return
}

func decode(args []*probe, out string) []any {
	lines := strings.Split(strings.TrimSpace(out), "\n")
	if len(lines) < 2 || lines[0] != "sat" && lines[0] != "unknown" {
		return nil
	}
	lines = lines[1:]
	k := 0
	next := func() string {
		if k < len(lines) {
			k++
			return strings.TrimSpace(lines[k-1])
		}
		return ""
	}
	num := func(s string) (*big.Int, bool) {
		s = strings.TrimSpace(s)
		neg := false
		if strings.HasPrefix(s, "(-") {
			neg = true
			s = strings.TrimSpace(strings.Trim(s, "(-) "))
		}
		n, ok := new(big.Int).SetString(s, 10)
		if ok && neg {
			n.Neg(n)
		}
		return n, ok
	}
	bad := false
	var walk func(p *probe) any
	walk = func(p *probe) any {
		switch p.kind {
		case "bool":
			return next() == "true"
		case "int":
			n, ok := num(next())
			if !ok {
				bad = true
				return nil
			}
			return n.String()
		case "bytes":
			n, ok := num(next())
			bs := []int{}
			for _, s := range p.sub {
				_ = s
				c, ok2 := num(next())
				if !ok2 {
					bad = true
					continue
				}
				bs = append(bs, int(c.Int64()&255))
			}
			if !ok || n.Sign() < 0 || n.Cmp(big64(int64(len(bs)))) > 0 {
				bad = true
				return nil
			}
			return map[string]any{"b": bs[:n.Int64()]}
		case "slice":
			n, ok := num(next())
			var es []any
			for _, s := range p.sub {
				es = append(es, walk(s))
			}
			if !ok || n.Sign() < 0 {
				bad = true
				return nil
			}
			if n.Cmp(big64(int64(len(es)))) < 0 {
				es = es[:n.Int64()]
			}
			return map[string]any{"e": es}
		case "struct":
			var fs []any
			for _, s := range p.sub {
				fs = append(fs, walk(s))
			}
			return map[string]any{"f": fs}
		case "ptr":
			n, ok := num(next())
			v := walk(p.sub[0])
			if ok && n.Sign() == 0 {
				return map[string]any{"nil": true}
			}
			return map[string]any{"p": v}
		}
		return nil
	}
	var res []any
	for _, a := range args {
		res = append(res, walk(a))
	}
	if bad {
		return nil
	}
	return res
}
