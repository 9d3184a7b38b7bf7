package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/iotaledger/trie.go"

// short package names used by the rules
var pkgShort = map[string]string{
	"trie":   modPath + "/trie",
	"b2":     modPath + "/models/trie_blake2b",
	"verify": modPath + "/models/trie_blake2b/trie_blake2b_verify",
	"kzg":    modPath + "/models/trie_kzg_bn256",
	"setup":  modPath + "/models/trie_kzg_bn256/kzg_setup",
	"hive":   modPath + "/hive_adaptor",
}

// libPkgs are the packages which make up the library (examples are no part of it)
var libPkgs = []string{"trie", "b2", "verify", "kzg", "setup", "hive"}

// World is the type-checked program in SSA form
type World struct {
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by short name
	PPkgs map[string]*packages.Package
	Funcs []*ssa.Function // all functions of the library with bodies, incl. anonymous ones
	inMod map[*ssa.Function]bool
	impls map[string][]*ssa.Function
}

func LoadWorld(dir string) *World {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  append(os.Environ(), "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		fatal("loading packages of %s: %v", dir, err)
	}
	if n := packages.PrintErrors(ps); n > 0 {
		fatal("%d errors while type-checking %s", n, dir)
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	w := &World{Prog: prog, Pkgs: map[string]*ssa.Package{}, PPkgs: map[string]*packages.Package{}, inMod: map[*ssa.Function]bool{}}
	for i, p := range ps {
		if sps[i] == nil {
			fatal("no SSA for %s", p.PkgPath)
		}
		sps[i].Build()
		for s, path := range pkgShort {
			if p.PkgPath == path {
				w.Pkgs[s] = sps[i]
				w.PPkgs[s] = p
			}
		}
	}
	for _, s := range libPkgs {
		if w.Pkgs[s] == nil {
			fatal("package %s not found", pkgShort[s])
		}
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil || w.inMod[f] {
			return
		}
		w.inMod[f] = true
		w.Funcs = append(w.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	lib := append([]string{}, libPkgs...)
	for i, p := range ps {
		// packages added to the library
		known := false
		for _, path := range pkgShort {
			known = known || path == p.PkgPath
		}
		if !known && strings.HasPrefix(p.PkgPath, modPath+"/") && !strings.Contains(p.PkgPath, "/examples/") {
			w.Pkgs[p.PkgPath] = sps[i]
			w.PPkgs[p.PkgPath] = p
			lib = append(lib, p.PkgPath)
		}
	}
	for _, s := range lib {
		pk := w.Pkgs[s]
		for _, m := range pk.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, T := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(T)
					for i := 0; i < ms.Len(); i++ {
						fn := prog.MethodValue(ms.At(i))
						if fn != nil && fn.Pkg == pk && fn.Synthetic == "" {
							add(fn)
						}
					}
				}
			}
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool { return fname(w.Funcs[i]) < fname(w.Funcs[j]) })
	return w
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "analyzer error: "+format+"\n", a...)
	os.Exit(2)
}

// fname is the name of a function with the module path cut
func fname(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/models/trie_blake2b/", "")
	s = strings.ReplaceAll(s, modPath+"/models/trie_kzg_bn256/", "")
	s = strings.ReplaceAll(s, modPath+"/models/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// Func finds function or method: "Name" or "Type.Name"; nil if there is no such function
func (w *World) Func(pkg, name string) *ssa.Function {
	p := w.Pkgs[pkg]
	if i := strings.IndexByte(name, '.'); i >= 0 {
		t := p.Type(name[:i])
		if t == nil {
			return nil
		}
		for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := w.Prog.MethodSets.MethodSet(T)
			if sel := ms.Lookup(p.Pkg, name[i+1:]); sel != nil {
				if fn := w.Prog.MethodValue(sel); fn != nil && fn.Synthetic == "" {
					return fn
				}
			}
		}
		return nil
	}
	return p.Func(name)
}

// Must is Func which fails the analysis if there is no such function. It is only used for the exported API
func (w *World) Must(pkg, name string) *ssa.Function {
	f := w.Func(pkg, name)
	if f == nil {
		fatal("anchor not found: %s.%s", pkg, name)
	}
	return f
}

// Named finds the named type
func (w *World) Named(pkg, name string) *types.Named {
	o := w.Pkgs[pkg].Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Position of an instruction; falls back to the closest instruction of the block with a position, then to the function
func (w *World) InstrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok {
			_ = v
		}
		if b := in.Block(); b != nil {
			for _, j := range b.Instrs {
				if j.Pos().IsValid() {
					p = j.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() && in.Parent() != nil {
		p = in.Parent().Pos()
	}
	ps := w.Prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, repoDir+"/"), ps.Line)
}

func (w *World) FuncPos(f *ssa.Function) string {
	ps := w.Prog.Fset.Position(f.Pos())
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, repoDir+"/"), ps.Line)
}
