package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var repoDir = "/repo"

// checkDef is the check of one property
type checkDef struct {
	run         func(r *Report)
	explanation string
	assumptions []string
}

var checks = map[string]checkDef{}

var commonAssumptions = []string{
	"Go type checker and SSA construction of golang.org/x/tools are correct; the standard library, hive.go and kyber behave as documented",
	"no code outside /repo uses unsafe or reflection to reach unexported state of the library",
}

func main() {
	dump := flag.String("dump", "", "pkg:Func - dump the facts at the exits of the function")
	prop := flag.String("prop", "", "property to check, comma separated, or 'all'")
	verifDir := flag.String("verif", "/verif", "directory of the framework")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.Parse()
	if p := os.Getenv("CPUPROFILE"); p != "" {
		if f, err := os.Create(p); err == nil {
			_ = pprof.StartCPUProfile(f)
			time.AfterFunc(60*time.Second, func() { pprof.StopCPUProfile(); os.Exit(3) })
		}
	}
	w := LoadWorld(repoDir)
	if *dump != "" {
		dumpFlow(w, *dump)
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = sortedKeys(checks)
	}
	code := 0
	for _, id := range ids {
		c, ok := checks[id]
		if !ok {
			fatal("no check for property %q", id)
		}
		if x := runCheck(w, id, tier, *verifDir, c); x > code {
			code = x
		}
	}
	os.Exit(code)
}

func runCheck(w *World, id, tier, verifDir string, c checkDef) (code int) {
	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintf(os.Stderr, "analyzer error: check %s: %v\n%s", id, e, debug.Stack())
			code = 2
		}
	}()
	r := newReport(w, id, tier)
	c.run(r)
	return r.Finish(verifDir, c.explanation, append(append([]string{}, commonAssumptions...), c.assumptions...))
}

func dumpFlow(w *World, name string) {
	s := strings.SplitN(name, ":", 2)
	fn := w.Func(s[0], s[1])
	if fn == nil {
		fatal("no %s", name)
	}
	if os.Getenv("SSA") != "" {
		fn.WriteTo(os.Stdout)
		for _, a := range fn.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
	}
	if os.Getenv("OWN") != "" {
		dumpOwn(w, fn)
		return
	}
	opt := FlowOpt{Transfer: trace}
	if os.Getenv("SPLIT") != "" {
		opt.Split = splitAll
	}
	if n := os.Getenv("OPAQUE"); n != "" {
		opt.NoInline = func(fn *ssa.Function) bool { return strings.Contains(","+n+",", ","+fname(fn)+",") }
	}
	f := NewFlow(w, fn, opt)
	f.Run()
	f.Visit(nil, func(e *Exit) {
		if e.Kind == "panic" && os.Getenv("PANICS") == "" {
			return
		}
		fmt.Printf("--- %s at %s results %v\n", e.Kind, e.P.Where(), e.Results)
		for _, a := range e.P.St.facts {
			fmt.Println("      ", a)
		}
		for k, v := range e.P.St.corr {
			fmt.Println("       ~", k, "=", v)
		}
	})
	fmt.Println("steps", f.Steps, "ctxs", f.nctx, "capped", f.Capped)
}
