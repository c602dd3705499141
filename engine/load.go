package main

// Loading: the harness module (with the repository as a replaced dependency) is type-checked
// and translated to SSA from the current sources on every run.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/rikchilvers/gledger"

func strconvFormat(f float64, fmtc byte, prec int) string {
	return strconv.FormatFloat(f, fmtc, prec, 64)
}

func loadProgram(dir, mod string, api bool) (*Program, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        dir,
		BuildFlags: []string{"-tags=math_big_pure_go,purego," + apiTag(api), "-modfile=" + mod},
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0",
			"GOTOOLCHAIN=local", "GOOS=linux", "GOARCH=amd64"),
	}
	pkgs, err := packages.Load(cfg, "./...", repoModule, repoModule+"/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, globals: map[*ssa.Global]int{}, models: map[string]*ssa.Function{}}
	mp := prog.ImportedPackage("verif/harness/model")
	if mp == nil {
		return nil, fmt.Errorf("no model package")
	}
	for name, m := range mp.Members {
		fn, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		if t := modelTarget(name); t != "" {
			p.models[t] = fn
		}
	}
	var mainPkg *ssa.Package
	for _, pk := range prog.AllPackages() {
		if pk.Pkg.Path() == repoModule {
			mainPkg = pk
		}
	}
	if mainPkg == nil || mainPkg.Func("main") == nil {
		return nil, fmt.Errorf("no main package in the repository")
	}
	p.models[modelPkg+"MainInit"] = mainPkg.Func("init")
	p.models[modelPkg+"MainMain"] = mainPkg.Func("main")
	rt := mp.Type("RuntimeError")
	if rt == nil {
		return nil, fmt.Errorf("no RuntimeError")
	}
	p.rtErr = rtypeOf(rt.Type())
	return p, nil
}

// modelTarget turns a model function's name into the name of the function it stands for:
// fmt__Sprintf -> fmt.Sprintf, os__P_File__Read -> (*os.File).Read,
// time__V_Month__String -> (time.Month).String, path_filepath__Abs -> path/filepath.Abs.
func modelTarget(name string) string {
	parts := strings.Split(name, "__")
	if len(parts) < 2 {
		return ""
	}
	pkg := strings.ReplaceAll(parts[0], "_", "/")
	if pkg == "cobra" {
		pkg = "github.com/spf13/cobra"
	}
	if len(parts) == 2 {
		return pkg + "." + parts[1]
	}
	switch {
	case strings.HasPrefix(parts[1], "P_"):
		return "(*" + pkg + "." + parts[1][2:] + ")." + parts[2]
	case strings.HasPrefix(parts[1], "V_"):
		return "(" + pkg + "." + parts[1][2:] + ")." + parts[2]
	}
	return ""
}

// packages whose init is not run: their variables stay zero unless the model sets them.
func skipInit(path string) bool {
	for _, p := range []string{"runtime", "reflect", "os", "syscall", "net", "log", "text/template", "html",
		"errors", "sync", "encoding", "compress", "crypto", "math/rand", "hash", "testing", "context", "mime", "vendor"} {
		if path == p || strings.HasPrefix(path, p+"/") {
			return true
		}
	}
	if strings.HasPrefix(path, "internal/") {
		switch path {
		case "internal/strconv", "internal/oserror", "internal/stringslite", "internal/fmtsort", "internal/bisect":
			return false
		}
		return true
	}
	return strings.HasPrefix(path, "gopkg.in/")
}

func resetPackage(path string) bool {
	return path == repoModule || strings.HasPrefix(path, repoModule+"/") ||
		strings.HasPrefix(path, "github.com/spf13/")
}

func isRepo(path string) bool {
	return path == repoModule || strings.HasPrefix(path, repoModule+"/")
}

func fnPkg(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		return ob.Pkg().Path()
	}
	return ""
}

// resetGlobals zeroes the variables of the repository and of its flag libraries, so that the
// package initialisers run again as in a fresh process.
func (vm *VM) resetGlobals() {
	var gs []*ssa.Global
	vm.p.resetOnce.Do(func() {
		for _, pkg := range vm.p.prog.AllPackages() {
			if !resetPackage(pkg.Pkg.Path()) {
				continue
			}
			for _, m := range pkg.Members {
				if g, ok := m.(*ssa.Global); ok {
					vm.p.resetList = append(vm.p.resetList, g)
				}
			}
		}
		sort.Slice(vm.p.resetList, func(i, j int) bool { return vm.p.resetList[i].String() < vm.p.resetList[j].String() })
	})
	gs = vm.p.resetList
	for _, g := range gs {
		o := vm.global(vm.p.globalIndex(g))
		// a fresh value: nothing may keep a pointer into the old run's variables
		vm.setSlot(o, 0, zero(g.Type().Underlying().(*types.Pointer).Elem()))
	}
}
