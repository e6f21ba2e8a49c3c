package main

// Running contracts natively against the real code to look for a failing input.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type nativeFail struct {
	Harness   string   `json:"harness"`
	Seed      int64    `json:"seed"`
	Iteration int64    `json:"iteration"`
	Args      []string `json:"args"`
	Failure   string   `json:"failure"`

	Candidates json.RawMessage `json:"solver_models,omitempty"`
}

var subPkg = map[string]string{"root": "syslog5424", "sdata": "sdata", "timequality": "timequality"}
var subRel = map[string]string{"root": "", "sdata": "sdata", "timequality": "sdata/timequality"}

// buildNative compiles the contracts of one package into a test binary.
func buildNative(repo, dir, sub, work string) (string, error) {
	rel := subRel[sub]
	over := map[string]string{}
	put := func(name, text string) error {
		f := filepath.Join(work, sub+"_"+name)
		if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
			return err
		}
		over[filepath.Join(repo, rel, name)] = f
		return nil
	}
	core, err := os.ReadFile(filepath.Join(dir, "core.go.txt"))
	if err != nil {
		return "", err
	}
	put("zz_gcv_core_test.go", "package "+subPkg[sub]+"\n"+string(core))
	run, err := os.ReadFile(filepath.Join(dir, "..", "native", "runner.go.txt"))
	if err != nil {
		return "", err
	}
	put("zz_gcv_runner_test.go", "package "+subPkg[sub]+"\n"+string(run))
	type src struct{ name, text string }
	var files []src
	fs, _ := filepath.Glob(filepath.Join(dir, sub, "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		files = append(files, src{"zz_gcv_" + strings.TrimSuffix(filepath.Base(f), ".go") + "_test.go", string(b)})
	}
	bin := filepath.Join(work, sub+".test")
	for try := 0; try < 8; try++ {
		var names, gens, enums []string
		for k := range over {
			if strings.Contains(k, "zz_gcv_") && !strings.HasSuffix(k, "core_test.go") && !strings.HasSuffix(k, "runner_test.go") {
				delete(over, k)
			}
		}
		for _, f := range files {
			put(f.name, f.text)
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f.name, f.text, 0)
			if err != nil {
				return "", err
			}
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				n := fd.Name.Name
				if strings.HasPrefix(n, "c_") || strings.HasPrefix(n, "l_") || strings.HasPrefix(n, "b_") {
					names = append(names, n)
				}
				if strings.HasPrefix(n, "enum_") {
					enums = append(enums, n)
				}
				if strings.HasPrefix(n, "gen_") {
					gens = append(gens, n)
				}
			}
		}
		var b strings.Builder
		b.WriteString("package " + subPkg[sub] + "\n\nimport \"reflect\"\n\nvar gcvHarnesses = map[string]interface{}{\n")
		for _, n := range names {
			fmt.Fprintf(&b, "\t%q: %s,\n", n, n)
		}
		b.WriteString("}\n\nvar gcvGens = map[reflect.Type]interface{}{\n")
		for _, n := range gens {
			fmt.Fprintf(&b, "\treflect.TypeOf(%s).Out(0): %s,\n", n, n)
		}
		b.WriteString("}\n\nvar gcvEnums = map[string]interface{}{\n")
		for _, n := range enums {
			fmt.Fprintf(&b, "\t%q: %s,\n", "b_"+strings.TrimPrefix(n, "enum_"), n)
		}
		b.WriteString("}\n")
		put("zz_gcv_table_test.go", b.String())
		ov, _ := json.Marshal(map[string]interface{}{"Replace": over})
		ovf := filepath.Join(work, sub+".overlay.json")
		os.WriteFile(ovf, ov, 0o644)
		cmd := exec.Command("go", "test", "-vet=off", "-c", "-overlay", ovf, "-o", bin, "./"+rel)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
		out, err := cmd.CombinedOutput()
		if err == nil {
			return bin, nil
		}
		// drop the files that do not fit the current tree
		var keep []src
		for _, f := range files {
			if !strings.Contains(string(out), f.name) {
				keep = append(keep, f)
			}
		}
		debugf("native build: %s\n", out)
		if len(keep) == len(files) {
			return "", fmt.Errorf("native build: %s", out)
		}
		files = keep
	}
	return "", fmt.Errorf("native build does not converge")
}

// dictionary of the literals in the sources.
func writeDict(repo, dir, work string) string {
	seen := map[string]bool{}
	var all []string
	add := func(f string) {
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return
		}
		ast.Inspect(af, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if l, ok := n.(*ast.BasicLit); ok && (l.Kind == token.STRING || l.Kind == token.CHAR) {
				var s string
				if l.Kind == token.STRING {
					s, _ = strconv.Unquote(l.Value)
				} else if r, _, _, err := strconv.UnquoteChar(strings.Trim(l.Value, "'"), '\''); err == nil {
					s = string(r)
				}
				if len(s) > 0 && len(s) < 60 && !seen[s] && !strings.Contains(s, "C0") && !strings.Contains(s, "C1") && !strings.Contains(s, "C2") {
					seen[s] = true
					all = append(all, s)
				}
			}
			return true
		})
	}
	for _, sub := range []string{"root", "sdata", "timequality"} {
		fs, _ := filepath.Glob(filepath.Join(repo, subRel[sub], "*.go"))
		gs, _ := filepath.Glob(filepath.Join(dir, sub, "*.go"))
		for _, f := range append(fs, gs...) {
			if !strings.HasSuffix(f, "_test.go") {
				add(f)
			}
		}
	}
	b, _ := json.Marshal(all)
	f := filepath.Join(work, "dict.json")
	os.WriteFile(f, b, 0o644)
	return f
}

// runNative runs one harness for ms milliseconds (or one iteration when iter >= 0).
func runNative(bin, dict, name string, seed int64, ms int, iter int64, work, cands string) (*nativeFail, int, int, string) {
	cmd := exec.Command(bin, "-test.run", "TestGCVRun", "-test.timeout", "600s")
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "GCV_HARNESS="+name, "GCV_DICT="+dict, "GCV_CAND="+cands, fmt.Sprintf("GCV_SEED=%d", seed), fmt.Sprintf("GCV_MS=%d", ms))
	if iter >= 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("GCV_ITER=%d", iter))
	}
	out, _ := cmd.CombinedOutput()
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "GCVFAIL ") {
			var f nativeFail
			if json.Unmarshal([]byte(strings.TrimPrefix(l, "GCVFAIL ")), &f) == nil {
				if b, err := os.ReadFile(cands); err == nil {
					f.Candidates = b
				}
				return &f, 0, 0, ""
			}
		}
		if strings.HasPrefix(l, "GCVDONE ") {
			var n, s int
			fmt.Sscanf(l, "GCVDONE %d %d", &n, &s)
			return nil, n, s, ""
		}
	}
	if t := string(out); strings.Contains(t, "fatal error:") || strings.Contains(t, "panic:") {
		i := strings.Index(t, "fatal error:")
		if i < 0 {
			i = strings.Index(t, "panic:")
		}
		t = t[i:]
		if len(t) > 600 {
			t = t[:600]
		}
		return &nativeFail{Harness: name, Seed: seed, Iteration: -1, Failure: "crash: " + t}, 0, 0, ""
	}
	return nil, 0, 0, string(out)
}
