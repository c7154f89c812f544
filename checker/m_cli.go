package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cliFields are the fields of the command whose values the paths of a build are told apart by.
var cliFields = map[string]bool{"staticLinking": true, "cleanOnly": true, "goBuild": true, "leaveTemps": true, "clean": true, "epilogue": true}

// cliDirs are the fields which name directories and packages.
var cliDirs = map[string]bool{"pluginDir": true, "outputDir": true, "tmpDir": true, "tmpDirName": true, "tmpPkgPath": true, "pluginPkgPath": true}

// cliCond: a condition which decides what kind of build is made.
func cliCond(c *Term) bool {
	return mentionsAny(c, func(t *Term) bool { return (t.Op == "fv" || t.Op == "fld") && cliFields[t.Aux] })
}

// cliCfg explores the command coarsely: only conditions for which keep holds, or which decide what kind of build is
// made, are correlated.
func cliCfg(keep func(c *Term) bool) func(w *World, c *RunCfg) {
	return func(w *World, c *RunCfg) {
		coarse = true
		c.NoCond = func(t *Term) bool { return noCond(t) || !cliCond(t) && (keep == nil || !keep(t)) }
		c.NoFact = func(addr *Term) bool {
			return baseObj(addr).Op != "new" && !(addr.Op == "fld" && (cliFields[addr.Aux] || cliDirs[addr.Aux])) && (keep == nil || !keep(addr))
		}
	}
}

// executeFn is the build command.
func (w *World) executeFn() (*ssa.Function, error) {
	var r []*ssa.Function
	for _, fn := range w.prodFuncs() {
		if fn.Pkg != w.cmd || fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		n, ps := 0, fn.Params
		for _, p := range ps {
			if t := namedPtr(p.Type()); t != nil && t.String() == "github.com/spf13/cobra.Command" {
				n++
			}
		}
		if n != 1 || !w.reaches(fn, "golang.org/x/tools/go/packages.Load") {
			continue
		}
		r = append(r, fn)
	}
	if len(r) != 1 {
		return nil, fmt.Errorf("found %d functions which implement the build command", len(r))
	}
	return r[0], nil
}

// reaches says whether fn or what it calls calls the function outside of the module.
func (w *World) reaches(fn *ssa.Function, name string) bool {
	for g := range w.staticReach(fn) {
		if w.externCalls(g)[name] {
			return true
		}
	}
	return false
}

// Effects are what a function and those it calls may do.
type Effects struct {
	Ext    map[string]bool
	Go     bool // starts goroutines
	Chan   bool // closes, sends or receives
	Select bool
	Cmd    bool // uses the state of the build command
}

func (w *World) effects(fn *ssa.Function) *Effects {
	if w.eff == nil {
		w.eff = map[*ssa.Function]*Effects{}
	}
	if r := w.eff[fn]; r != nil {
		return r
	}
	r := &Effects{Ext: map[string]bool{}}
	w.eff[fn] = r
	for g := range w.staticReach(fn) {
		for n := range w.externCalls(g) {
			r.Ext[n] = true
		}
		for _, p := range g.Params {
			if namedPtr(p.Type()) == w.buildCmdT || namedOf(p.Type()) == w.buildCmdT {
				r.Cmd = true
			}
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					r.Go = true
				case *ssa.Send:
					r.Chan = true
				case *ssa.Select:
					r.Select = true
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						r.Chan = true
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						r.Chan = true
					}
				case *ssa.FieldAddr:
					if namedPtr(x.X.Type()) == w.buildCmdT {
						r.Cmd = true
					}
				}
			}
		}
	}
	return r
}

func (f *Effects) any(prefix ...string) bool {
	for n := range f.Ext {
		for _, p := range prefix {
			if strings.HasPrefix(n, p) {
				return true
			}
		}
	}
	return false
}

// execCfg explores the build command from its entry; functions which do not use the state of the command are opaque
// unless inline says otherwise.
func execCfg(inline func(w *World, fn *ssa.Function) bool) func(w *World, c *RunCfg) {
	return func(w *World, c *RunCfg) {
		cliCfg(nil)(w, c)
		c.OpaquePanics = true
		c.Opaque = func(fn *ssa.Function) bool {
			if fn.Parent() != nil || inline != nil && inline(w, fn) {
				return false
			}
			f := w.effects(fn)
			if smallFn(fn) && !f.any(creators...) {
				return false
			}
			return !f.Cmd || !(f.Go || f.Chan || f.Select || f.any("os.RemoveAll", "os.Exit", "(*os/exec.Cmd).", "os/signal."))
		}
	}
}

// smallFn: the function has a few branches and no loop.
func smallFn(fn *ssa.Function) bool {
	if len(fn.Blocks) > 8 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return true
}

// isCompiler: cmd is a go build command.
func (e *Engine) isCompiler(st *State, cmd *Term) bool {
	if cmd == nil {
		return false
	}
	goTool, build := false, false
	visit(cmd, func(t *Term) bool {
		if s, ok := t.strVal(); ok {
			goTool = goTool || s == "go"
			build = build || s == "build"
		}
		return true
	})
	return isRes(cmd, "os/exec.Command") && goTool && build || isRes(cmd, "os/exec.CommandContext") && goTool && build
}

// embedVar is the variable in which the file is embedded.
func (w *World) embedVar(file string) *ssa.Global {
	p := w.astPkg[w.cmd]
	if p == nil {
		return nil
	}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				for _, doc := range []*ast.CommentGroup{vs.Doc, g.Doc} {
					if doc == nil {
						continue
					}
					for _, c := range doc.List {
						if strings.HasPrefix(c.Text, "//go:embed ") && strings.TrimSpace(strings.TrimPrefix(c.Text, "//go:embed ")) == file && len(vs.Names) == 1 {
							gl, _ := w.cmd.Members[vs.Names[0].Name].(*ssa.Global)
							return gl
						}
					}
				}
			}
		}
	}
	return nil
}

// usersOf are the functions of the package which use a global variable directly, or the closest named function.
func (w *World) usersOf(g *ssa.Global) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range w.prodFuncs() {
		if fn.Pkg != g.Pkg || fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		used := false
		var ops [16]*ssa.Value
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(ops[:0]) {
					if *op == ssa.Value(g) {
						used = true
					}
				}
			}
		}
		if used {
			for fn.Parent() != nil {
				fn = fn.Parent()
			}
			r = append(r, fn)
		}
	}
	return r
}

// initFn is the function which writes the code that links a plugin statically.
func (w *World) initFn() (*ssa.Function, error) {
	n, _, err := w.initTemplate()
	if err != nil {
		return nil, err
	}
	g := w.embedVar(n)
	if g == nil {
		return nil, fmt.Errorf("%s is not embedded", n)
	}
	u := w.usersOf(g)
	if len(u) != 1 {
		return nil, fmt.Errorf("%d functions use %s", len(u), g.Name())
	}
	return u[0], nil
}
