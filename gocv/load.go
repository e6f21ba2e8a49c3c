package main

// Loading /repo with the contract files overlaid, contracts, and the state
// established by the package initialisers.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/nathanaelle/syslog5424/v2"

type Program struct {
	Fset      *token.FileSet
	Prog      *ssa.Program
	Pkgs      []*ssa.Package // dependency order
	globalIDs map[*ssa.Global]int
	cellMemo  map[*ssa.Alloc]bool
	constMaps map[int64][]mapEntry
	pure      map[string]bool
	inInit    bool

	specFile   map[string]bool // overlay file names
	ghostNames map[*ssa.Function][]string
	Contracts  []*Contract
	Bounded    []*Contract // bounded stand-ins
	byFn       map[*ssa.Function]*Contract
	byName     map[string]*Contract
	byMethod   map[string]*Contract // iface type string + "." + method
	Invs       []*ssa.Function
	Dropped    []string // contract files that do not fit the current tree
	mapMut     map[string]bool
	roGlobal   map[*ssa.Global]bool // never assigned outside the initialisers
	roElems    map[*ssa.Global]bool // and its elements are never written through it
	repoFns    []*ssa.Function
	fieldMut   map[string]bool // struct type string + field assigned outside initialisers
}

type Contract struct {
	Name     string // contract function name, with package
	Short    string // target name
	Props    []string
	Fn       *ssa.Function
	Target   *ssa.Function
	TName    string
	Method   *types.Func
	Impl     []string
	Inline   map[string]bool
	Opt      map[string]string
	File     string
	Lemma    bool
	External bool
	Model    bool
	Bounded  string
}

func (c *Contract) ResName() string { return "r." + c.Fn.Name() }

func (p *Program) inRepo(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == modPath || strings.HasPrefix(pkg.Path(), modPath+"/"))
}

func (p *Program) isSpecPkg(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if !fn.Pos().IsValid() {
		return false
	}
	return p.specFile[p.Fset.Position(fn.Pos()).Filename]
}

// contractOf is the contract of fn; contracts of external functions are looked up first
// among those of the package of the harness.
func (p *Program) contractOf(fn *ssa.Function, target *Contract) *Contract {
	if p.inInit && !p.stateless(fn, map[*ssa.Function]bool{}) {
		return nil
	}
	if c, ok := p.byFn[fn]; ok {
		return c
	}
	if len(fn.Blocks) > 0 {
		return nil
	}
	var c *Contract
	if target != nil && target.Fn != nil && target.Fn.Pkg != nil {
		c = p.byName[target.Fn.Pkg.Pkg.Name()+"|"+fn.String()]
	}
	if c == nil {
		c = p.byName[fn.String()]
	}
	if c != nil && c.Target == nil {
		c.Target = fn
	}
	if c != nil && c.Target != fn {
		return nil
	}
	return c
}

// stateless: the function and what it calls read no package variable, so that its
// contract also holds while the package variables are being initialised.
func (p *Program) stateless(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	if len(fn.Blocks) == 0 || fn.Pkg == nil || !p.inRepo(fn.Pkg.Pkg) {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
					f := c.Common().StaticCallee()
					if f == nil || !p.stateless(f, seen) {
						return false
					}
				}
			}
			for _, o := range ins.Operands(nil) {
				if _, ok := (*o).(*ssa.Global); ok {
					return false
				}
			}
		}
	}
	return true
}

func (p *Program) methodContract(m *types.Func) *Contract {
	return p.byMethod[methodKey(m)]
}

func methodKey(m *types.Func) string { return m.FullName() }

func (p *Program) volatileGlobal(g *ssa.Global) bool {
	if g.Pkg == nil || !p.inRepo(g.Pkg.Pkg) || p.inInit {
		return false
	}
	_, isF := g.Type().(*types.Pointer).Elem().Underlying().(*types.Signature)
	return isF && g.Object() != nil && g.Object().Exported()
}

func (p *Program) constMap(r *Term, t types.Type) bool {
	if p.mapMut[types.TypeString(t.Underlying(), nil)] {
		return false
	}
	_, ok := p.constMaps[r.val.Int64()]
	return ok
}

func contractFiles(repo, dir string) (map[string][]byte, map[string]string, error) {
	over := map[string][]byte{}
	src := map[string]string{}
	subs := map[string]string{"root": "", "sdata": "sdata", "timequality": "sdata/timequality"}
	core, err := os.ReadFile(filepath.Join(dir, "core.go.txt"))
	if err != nil {
		return nil, nil, err
	}
	for sub, rel := range subs {
		pk := map[string]string{"root": "syslog5424", "sdata": "sdata", "timequality": "timequality"}[sub]
		over[filepath.Join(repo, rel, "zz_gcv_core.go")] = []byte("package " + pk + "\n" + string(core))
		fs, _ := filepath.Glob(filepath.Join(dir, sub, "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, nil, err
			}
			n := filepath.Join(repo, rel, "zz_gcv_"+strings.TrimSuffix(filepath.Base(f), ".go")+".go")
			over[n] = b
			src[n] = f
		}
	}
	return over, src, nil
}

func loadProgram(repo, dir string) (*Program, error) {
	over, src, err := contractFiles(repo, dir)
	if err != nil {
		return nil, err
	}
	p := &Program{globalIDs: map[*ssa.Global]int{}, cellMemo: map[*ssa.Alloc]bool{}, constMaps: map[int64][]mapEntry{}, pure: map[string]bool{}, byFn: map[*ssa.Function]*Contract{}, byName: map[string]*Contract{}, byMethod: map[string]*Contract{}, mapMut: map[string]bool{}, roGlobal: map[*ssa.Global]bool{}, roElems: map[*ssa.Global]bool{}, fieldMut: map[string]bool{}}
	var ps []*packages.Package
	for try := 0; ; try++ {
		cfg := &packages.Config{Dir: repo, Overlay: over,
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile | packages.NeedModule,
			Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")}
		ps, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		var bad []string
		var other []string
		packages.Visit(ps, nil, func(q *packages.Package) {
			for _, e := range q.Errors {
				f := e.Pos
				if i := strings.IndexByte(f, ':'); i >= 0 {
					f = f[:i]
				}
				if _, ok := over[f]; ok {
					bad = append(bad, f)
					debugf("contract file dropped: %s\n", e)
					p.Dropped = append(p.Dropped, filepath.Base(src[f])+": "+e.Msg)
				} else {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) == 0 {
			if len(other) > 0 {
				return nil, fmt.Errorf("load: %s", strings.Join(other, "; "))
			}
			break
		}
		if try > 12 {
			return nil, fmt.Errorf("contract files do not type-check: %v", p.Dropped)
		}
		for _, f := range bad {
			if strings.HasSuffix(f, "zz_gcv_core.go") {
				return nil, fmt.Errorf("core does not type-check: %v", p.Dropped)
			}
			delete(over, f)
		}
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	p.Fset = prog.Fset
	p.specFile = map[string]bool{}
	p.ghostNames = map[*ssa.Function][]string{}
	for f := range over {
		p.specFile[f] = true
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].PkgPath < ps[j].PkgPath })
	// dependency order: sdata, timequality, root
	seen := map[*packages.Package]bool{}
	var visit func(q *packages.Package)
	var order []*packages.Package
	visit = func(q *packages.Package) {
		if seen[q] {
			return
		}
		seen[q] = true
		var ks []string
		for k := range q.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(q.Imports[k])
		}
		if q.PkgPath == modPath || strings.HasPrefix(q.PkgPath, modPath+"/") {
			order = append(order, q)
		}
	}
	for _, q := range ps {
		visit(q)
	}
	for _, q := range order {
		sp := prog.Package(q.Types)
		p.Pkgs = append(p.Pkgs, sp)
	}
	p.collect()
	p.numberGlobals()
	for _, q := range order {
		sp := prog.Package(q.Types)
		for _, f := range q.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			if !p.specFile[name] {
				continue
			}
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//gcv:pure ") {
						for _, n := range strings.Fields(strings.TrimPrefix(c.Text, "//gcv:pure ")) {
							p.pure[n] = true
						}
					}
				}
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				fn := sp.Func(fd.Name.Name)
				if fn == nil {
					continue
				}
				ast.Inspect(fd, func(n ast.Node) bool {
					if c, ok := n.(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "g_ghost" {
							var names []string
							for _, a := range c.Args {
								nm := ""
								if id, ok := a.(*ast.Ident); ok {
									nm = id.Name
								}
								names = append(names, nm)
							}
							p.ghostNames[fn] = names
						}
					}
					return true
				})
				if strings.HasPrefix(fd.Name.Name, "inv_") {
					p.Invs = append(p.Invs, fn)
				}
				if fd.Doc == nil {
					continue
				}
				c := &Contract{Fn: fn, Name: sp.Pkg.Name() + "." + fd.Name.Name, Inline: map[string]bool{}, Opt: map[string]string{}, File: filepath.Base(name)}
				use := false
				for _, l := range fd.Doc.List {
					if !strings.HasPrefix(l.Text, "//gcv:") {
						continue
					}
					w := strings.Fields(strings.TrimPrefix(l.Text, "//gcv:"))
					switch w[0] {
					case "for":
						use = true
						c.TName = w[1]
					case "model": // assumed definition of an external function, used in its place
						use = true
						c.TName = w[1]
						c.Model = true
					case "bounded": // run natively over an enumeration; not a proof unit
						use = true
						c.Lemma = true
						c.Bounded = strings.Join(w[1:], " ")
						c.TName = "bounded check " + fd.Name.Name
					case "lemma":
						use = true
						c.Lemma = true
						c.TName = "lemma " + fd.Name.Name
					case "props":
						c.Props = append(c.Props, w[1:]...)
					case "impl":
						c.Impl = append(c.Impl, w[1:]...)
					case "inline":
						for _, n := range w[1:] {
							c.Inline[n] = true
						}
					default:
						c.Opt[w[0]] = strings.Join(w[1:], " ")
					}
				}
				if !use {
					continue
				}
				c.Short = c.TName
				if err := p.resolve(sp, c); err != nil {
					p.Dropped = append(p.Dropped, c.Name+": "+err.Error())
					continue
				}
				if c.Bounded != "" {
					p.Bounded = append(p.Bounded, c)
					continue
				}
				p.Contracts = append(p.Contracts, c)
			}
		}
	}
	return p, nil
}

func (p *Program) resolve(sp *ssa.Package, c *Contract) error {
	if c.Lemma {
		return nil
	}
	for _, fn := range p.repoFns {
		if fn.Pkg == sp && fn.Parent() == nil && fn.RelString(sp.Pkg) == c.TName {
			c.Target = fn
			p.byFn[fn] = c
			c.Short = sp.Pkg.Name() + "." + c.TName
			return nil
		}
	}
	// interface method
	if i := strings.LastIndexByte(c.TName, '.'); i > 0 && !strings.HasPrefix(c.TName, "(") {
		tn, mn := c.TName[:i], c.TName[i+1:]
		var scope *types.Scope = sp.Pkg.Scope()
		if j := strings.LastIndexByte(tn, '.'); j > 0 {
			scope = nil
			for _, q := range p.Prog.AllPackages() {
				if q.Pkg.Path() == tn[:j] {
					scope = q.Pkg.Scope()
				}
			}
			tn = tn[j+1:]
		}
		if tn == "error" && mn == "Error" {
			scope = types.Universe
		}
		if scope != nil {
			if o := scope.Lookup(tn); o != nil {
				if it, ok := o.Type().Underlying().(*types.Interface); ok {
					for k := 0; k < it.NumMethods(); k++ {
						if it.Method(k).Name() == mn {
							c.Method = it.Method(k)
							p.byMethod[methodKey(c.Method)] = c
							return nil
						}
					}
				}
			}
		}
	}
	if strings.Contains(c.TName, ".") {
		// external function: must exist in some imported package
		p.byName[sp.Pkg.Name()+"|"+c.TName] = c
		if p.byName[c.TName] == nil {
			p.byName[c.TName] = c
		}
		c.External = true
		return nil
	}
	return fmt.Errorf("no function %s", c.TName)
}

// collect gathers the functions of /repo and the facts about what they mutate.
func (p *Program) collect() {
	all := ssautil.AllFunctions(p.Prog)
	for fn := range all {
		if fn.Pkg != nil && p.inRepo(fn.Pkg.Pkg) {
			p.repoFns = append(p.repoFns, fn)
		}
	}
	for _, sp := range p.Pkgs {
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := p.Prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if fn := p.Prog.MethodValue(ms.At(i)); fn != nil && fn.Pkg != nil && !all[fn] {
							all[fn] = true
							p.repoFns = append(p.repoFns, fn)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.repoFns, func(i, j int) bool { return p.repoFns[i].String() < p.repoFns[j].String() })
	for _, sp := range p.Pkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.roGlobal[g] = true
				p.roElems[g] = true
			}
		}
	}
	for _, fn := range p.repoFns {
		if p.isInit(fn) || len(fn.Blocks) == 0 || p.isSpecPkg(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.MapUpdate:
					p.mapMut[types.TypeString(ins.Map.Type().Underlying(), nil)] = true
				case *ssa.Call:
					if bi, ok := ins.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						p.mapMut[types.TypeString(ins.Call.Args[0].Type().Underlying(), nil)] = true
					}
				case *ssa.Store:
					if fa, ok := ins.Addr.(*ssa.FieldAddr); ok {
						st := fa.X.Type().Underlying().(*types.Pointer).Elem()
						p.fieldMut[types.TypeString(st, nil)] = true
					} else {
						p.fieldMut[types.TypeString(ins.Addr.Type().Underlying().(*types.Pointer).Elem(), nil)] = true
					}
				}
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if _, has := p.roGlobal[g]; !has {
						continue
					}
					ro, re := roUse(g, ins)
					if !ro {
						p.roGlobal[g] = false
					}
					if !re {
						p.roElems[g] = false
					}
				}
			}
		}
	}
}

func (p *Program) isInit(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}

// roUse: instruction ins only reads global g (ro), and only reads elements through it (re).
func roUse(g *ssa.Global, ins ssa.Instruction) (ro, re bool) {
	switch ins := ins.(type) {
	case *ssa.UnOp:
		return true, roVal(ins)
	case *ssa.FieldAddr:
		ok := roAddr(ins)
		return ok, ok
	case *ssa.IndexAddr:
		ok := roAddr(ins)
		return ok, ok
	case *ssa.DebugRef:
		return true, true
	case *ssa.Slice:
		return roVal(ins), roVal(ins)
	}
	return false, false
}

func roAddr(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !roAddr(r) {
				return false
			}
		case *ssa.IndexAddr:
			if !roAddr(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// roVal: a loaded value is only indexed, measured or compared.
func roVal(v ssa.Value) bool {
	switch v.Type().Underlying().(type) {
	case *types.Slice:
	default:
		return true
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			if r.X != v || !roAddr(r) {
				return false
			}
		case *ssa.DebugRef, *ssa.BinOp:
		case *ssa.Slice:
			if !roVal(r) {
				return false
			}
		case *ssa.Call:
			b, ok := r.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (p *Program) numberGlobals() {
	n := 0
	for _, sp := range p.Pkgs {
		var ks []string
		for k, m := range sp.Members {
			if _, ok := m.(*ssa.Global); ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			n++
			p.globalIDs[sp.Members[k].(*ssa.Global)] = n
		}
	}
}

// runInit executes the package initialisers and returns the state in which a
// harness starts: everything unknown but what no code can change.
func (x *Exec) runInit() *State {
	p := x.P
	p.inInit = true
	p.constMaps = map[int64][]mapEntry{}
	x.noOblig++
	st := &State{pc: True(), mem: map[string]*Term{}, base: &membase{id: 0}, cells: map[int][]*Term{}, alloc: I(100000), env: map[ssa.Value]any{}}
	for _, sp := range p.Pkgs {
		var ks []string
		for k, m := range sp.Members {
			if _, ok := m.(*ssa.Global); ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			g := sp.Members[k].(*ssa.Global)
			t := g.Type().(*types.Pointer).Elem()
			x.storeObj(st, t, I(int64(p.globalIDs[g])), I(0), zeroVal(t).L)
			x.zeroGhost(st, t, I(int64(p.globalIDs[g])), I(0))
		}
	}
	for _, sp := range p.Pkgs {
		fn := sp.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		st, _ = x.execFn(&Frame{fn: fn, path: "init"}, nil, st)
	}
	p.inInit = false
	x.noOblig--
	// harness state
	x.epochs = 0
	h := &State{pc: True(), mem: map[string]*Term{}, base: &membase{id: 1}, cells: map[int][]*Term{}, env: map[ssa.Value]any{}}
	al := x.newEpoch(h, st.alloc)
	h.alloc = al
	baseEpoch[1] = [2]int{al.allocE, 0}
	for _, sp := range p.Pkgs {
		var ks []string
		for k, m := range sp.Members {
			if _, ok := m.(*ssa.Global); ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			g := sp.Members[k].(*ssa.Global)
			if !p.roGlobal[g] || p.volatileGlobal(g) {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			if hasGhost(t) {
				continue
			}
			if t2, ok := t.Underlying().(*types.Array); ok && !p.roElems[g] {
				_ = t2
				continue
			}
			r := I(int64(p.globalIDs[g]))
			v := x.loadObj(st, t, r, I(0))
			x.storeObj(h, t, r, I(0), v)
			switch u := t.Underlying().(type) {
			case *types.Slice:
				if p.roElems[g] && v[0].isConst() && !isAgg(u.Elem()) {
					for _, key := range x.elemKeys(u.Elem()) {
						h.mem[key] = Store(h.getMem(key), v[0], Select(st.getMem(key), v[0]))
					}
				}
			case *types.Pointer:
				et := u.Elem()
				if s, ok := et.Underlying().(*types.Struct); ok && v[0].isConst() && !p.fieldMut[types.TypeString(et, nil)] && s.NumFields() > 0 {
					if n, ok := et.(*types.Named); ok && p.inRepo(n.Obj().Pkg()) && !n.Obj().Exported() && !hasGhost(et) {
						x.storeObj(h, et, v[0], v[1], x.loadObj(st, et, v[0], v[1]))
					}
				}
			}
		}
	}
	x.pruneFacts(h)
	// name the initial memories; what they hold for the package variables is looked up
	for key, m := range h.mem {
		k := map[int]*Term{}
		ok := true
		b := m
		for ; b.op == OStore; b = b.args[0] {
			i := b.args[1]
			if !i.isConst() {
				ok = false
			} else if k[i.id] == nil {
				k[i.id] = b.args[2]
			}
		}
		if !ok || b.op != OVar || b == m {
			continue
		}
		v := Var("H."+key, m.sort)
		v.elo, v.ehi = memReg[key].elo, memReg[key].ehi
		memEpoch[v.id] = memEpoch[b.id]
		knownSel[v.id] = k
		knownBase[v.id] = b
		h.mem[key] = v
	}
	return h
}

// pruneFacts forgets the facts that say nothing about the given state.
func (x *Exec) pruneFacts(st *State) {
	rel := map[int]bool{}
	for _, m := range st.mem {
		for _, s := range symbols(m) {
			rel[s] = true
		}
	}
	keep := make([]bool, len(x.facts))
	for ch := true; ch; {
		ch = false
		for i, f := range x.facts {
			if keep[i] {
				continue
			}
			ss := symbols(f)
			keep[i] = len(ss) == 0
			for _, s := range ss {
				if rel[s] {
					keep[i] = true
				}
			}
			if keep[i] {
				ch = true
				for _, s := range ss {
					rel[s] = true
				}
			}
		}
	}
	var fs []*Term
	cand := map[int]string{}
	for i, f := range x.facts {
		if keep[i] {
			if c, ok := x.candOf[i]; ok {
				cand[len(fs)] = c
			}
			fs = append(fs, f)
		}
	}
	x.facts, x.candOf = fs, cand
}

func writeFile(name, text string) { os.WriteFile(name, []byte(text), 0o644) }

var debugOn = os.Getenv("GOCV_DEBUG") != ""

func debugf(f string, a ...any) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}
