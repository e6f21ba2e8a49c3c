package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	if f := os.Getenv("GOCV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(45 * time.Second); pprof.StopCPUProfile(); os.Exit(9) }()
	}

	repo := flag.String("repo", "/repo", "")
	dir := flag.String("contracts", "/verif/contracts", "")
	out := flag.String("out", "", "")
	disabled := flag.String("disabled", "", "")
	impl := flag.String("impl", "", "")
	verbose := flag.Bool("v", false, "")
	ms := flag.Int("ms", 3000, "")
	seed := flag.Int("seed", 1, "")
	flag.BoolVar(&fastMode, "fast", false, "")
	flag.StringVar(&dumpDir, "dump", "", "")
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: gocv [flags] harness NAME | list | check PROP TIER")
		os.Exit(2)
	}
	switch args[0] {
	case "list", "harness":
		t0 := time.Now()
		p, err := loadProgram(*repo, *dir)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		debugf("load %v\n", time.Since(t0))
		for _, d := range p.Dropped {
			fmt.Fprintln(os.Stderr, "dropped:", d)
		}
		if args[0] == "list" {
			for _, c := range p.Contracts {
				fmt.Println(c.Name, c.Short, c.Props, c.Impl)
			}
			return
		}
		dis := map[string]bool{}
		for _, d := range strings.Split(*disabled, ";") {
			if d != "" {
				dis[d] = true
			}
		}
		found := false
		for _, c := range p.Contracts {
			if c.Name != args[1] && !strings.HasSuffix(c.Name, "."+args[1]) {
				continue
			}
			found = true
			impls := []string{*impl}
			if *impl == "" && len(c.Impl) > 0 {
				impls = c.Impl
			}
			for _, im := range impls {
				r := p.runHarness(c, im, dis)
				if *out != "" {
					b, _ := json.MarshalIndent(r, "", " ")
					os.WriteFile(*out, b, 0o644)
				} else {
					printResult(r, *verbose)
				}
			}
		}
		if !found {
			fmt.Fprintln(os.Stderr, "no contract", args[1])
			os.Exit(2)
		}
	case "native":
		only := ""
		if len(args) > 1 {
			only = args[1]
		}
		nativeAll(*repo, *dir, *ms, only, int64(*seed))
	case "replay":
		os.Exit(replayMain(*repo, *dir, args[1]))
	case "check":
		os.Exit(checkMain(*repo, *dir, args[1:]))
	}
}

func printResult(r *HarnessResult, v bool) {
	n := map[string]int{}
	for _, o := range r.Obls {
		n[o.Status]++
	}
	fmt.Printf("%s %s [%s] %v rounds=%d facts=%d wall=%dms %v\n", r.Name, r.Impl, r.Target, n, r.Rounds, r.Facts, r.WallMs, r.SolverMs)
	if r.Error != "" {
		fmt.Println("  ERROR:", r.Error)
	}
	for _, o := range r.Obls {
		if o.Status != "proved" || v {
			fmt.Printf("  %-8s %-8s %s @%s %s %dms\n", o.Status, o.Kind, o.Name, o.Pos, o.Solver, o.Ms)
		}
	}
	if v {
		fmt.Println("  used", r.Used)
		fmt.Println("  inlined", r.Inlined)
		fmt.Println("  unspec", r.Unspec)
		fmt.Println("  assumes", r.Assumes)
		fmt.Println("  inv", r.Invariants)
	}
}
