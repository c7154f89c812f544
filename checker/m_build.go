package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C41: what is compiled, and what is announced.

func init() {
	register(&Prop{
		ID:   "C41",
		Rule: "every file which a worker of the build command writes to the temporary directory under a name X of the plugin's own has the content read from the file X of the plugin: the very bytes unless X is known to end in .go; for a Go file every occurrence of \"P\", \"P/, `P` and `P/ replaced by the same with Q for P (P the package path of the plugin, Q that of the copy), nothing else, and the package clause if X is known to lie in the top directory; on every path of the build command the compiler runs in the temporary directory, in plugin mode, with all the build flags of the user, which are the arguments after the first \"--\" of the command line; the path given to the compiler with -o is printed on every path on which the compiler has succeeded and the command returns",
		Rules: []func(w *World, r *Report){func(w *World, r *Report) {
			c := &concRun{w: w}
			c.find()
			x := &modular{w: w, r: r}
			x.inD = func(fn *ssa.Function) bool { return c.starts[fn] || c.workers[fn] && w.effects(fn).any(creators...) }
			x.keep = func(c *Term) bool { return true }
			x.mon = func(x *modular) func() Monitor { return mon(monCopied) }
			n := len(r.Viol)
			x.run()
			// what cannot be understood is not reported
			var vs []*Violation
			for i, v := range r.Viol {
				if i < n || v.Rule != "unclear" {
					vs = append(vs, v)
				} else {
					r.Count("copies of unclear content")
				}
			}
			r.Viol = vs
			for _, fn := range w.prodFuncs() {
				if storesBuildFlags(fn) {
					w.explore(r, fn, defaultCfg(w), mon(monBuildFlags)())
				}
			}
		}},
		Runs:  []Run{{Name: "execute", Entry: (*World).executeFn, Cfg: execCfg(nil), Mon: mon(monC41)}},
		Floor: map[string]int{"compiler runs": 1, "reports": 1, "copies": 2, "build flags": 1},
	})
}

func isBuildFlags(g *ssa.Global) bool {
	return g != nil && g.Name() == "BuildFlags" && strings.HasSuffix(g.Pkg.Pkg.Path(), "/cli/hotswap/g")
}

func storesBuildFlags(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok && isBuildFlags(g) && fn.Name() != "init" {
					return true
				}
			}
		}
	}
	return false
}

func monBuildFlags(m *Mon, e *Engine, st *State, ev *Event) {
	if ev.Kind == EvIterEnd && m.has("taken") {
		m.put("taken", 0)
		// the search goes on after the first --, unless a variable of the loop tells that it has been found
		for _, p := range ev.Phis {
			if p.New == nil || p.Old == nil || p.New != p.Old && !isIntType(p.Phi.Type()) || !linOf(p.New).add(linOf(p.Old), -1).isConst() {
				return
			}
		}
		e.Violate(st, ev.Pos, "build-flags", "the search goes on after the first --: the build flags may be replaced by the arguments after a later one")
	}
	if ev.Kind == EvExit && ev.Ctx != nil && ev.Ctx.parent == nil && m.has("took") && !m.has("cut") && ev.Ctx.fn.Signature.Results().Len() == 0 {
		e.Violate(st, ev.Pos, "build-flags", "the build flags stay in the command line")
	}
	if ev.Kind == EvStore && len(ev.Addr.Args) == 0 {
		if g, ok := ev.Addr.Obj.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" && g.Name() == "Args" {
			m.put("cut", 1)
		}
	}
	if ev.Kind == EvIterEnd {
		for _, p := range ev.Phis {
			if p.New != nil && p.Old != nil && isIntType(p.Phi.Type()) {
				if d := linOf(p.New).add(linOf(p.Old), -1); d.isConst() && d.k < 0 {
					m.put("down", 1)
				}
			}
		}
	}
	if ev.Kind != EvStore {
		return
	}
	if g, ok := ev.Addr.Obj.(*ssa.Global); !ok || !isBuildFlags(g) {
		return
	}
	e.Count("build flags")
	m.put("taken", 1)
	m.put("took", 1)
	t := ev.Val
	if t == nil || t.Op != "slice" || len(t.Args) != 3 || !isOsArgs(t.Args[0]) {
		return
	}
	if t.Args[2].Op != "nil" {
		e.Violate(st, ev.Pos, "build-flags", "not all arguments after the first -- are taken as build flags")
	}
	if m.has("down") {
		e.Violate(st, ev.Pos, "build-flags", "the command line is searched backwards: the build flags are not the arguments after the first --")
	}
	if searched(t.Args[1]) {
		return
	}
	// the fact that the argument before the flags is --
	found := false
	for f, v := range st.facts {
		if f.Op != "eq" || len(f.Args) != 2 || !v {
			continue
		}
		for i, a := range f.Args {
			if s, ok := f.Args[1-i].strVal(); !ok || s != "--" {
				continue
			}
			found = true
			if adr := ldAddr(a); adr != nil && adr.Op == "idx" && len(adr.Args) == 2 {
				if d := linOf(t.Args[1]).add(linOf(adr.Args[1]), -1); d.isConst() && d.k != 1 {
					e.Violate(st, ev.Pos, "build-flags", "the build flags are not the arguments after the --")
				}
			}
		}
	}
	if !found {
		e.Violate(st, ev.Pos, "build-flags", "the build flags are not the arguments after a --")
	}
}

// searched: the place of the first -- as the standard library finds it.
func searched(t *Term) bool {
	if t == nil {
		return false
	}
	n := resName(t)
	if t.Op == "call" {
		n = t.Aux
	}
	if strings.HasPrefix(n, "slices.Index") {
		return true
	}
	for _, a := range t.Args {
		if searched(a) {
			return true
		}
	}
	return false
}

// isOsArgs: the command line.
func isOsArgs(t *Term) bool {
	a := ldAddr(t)
	if a == nil {
		return false
	}
	g, ok := a.Obj.(*ssa.Global)
	return ok && g.Pkg.Pkg.Path() == "os" && g.Name() == "Args"
}

// step describes one rewriting of the content of a file.
type step struct {
	what     string // import, package, unknown
	old, new *Term
	all      bool
}

// history of the content: the path of the file it was read from, and what was done to it.
func contentOf(t *Term) (from *Term, steps []step, ok bool) {
	for i := 0; t != nil && i < 100; i++ {
		n := resName(t)
		if t.Op == "call" {
			n = t.Aux
		}
		switch {
		case t.Op == "conv":
			t = t.Args[0]
		case (n == "io/ioutil.ReadFile" || n == "os.ReadFile") && len(t.Args) > 0:
			return t.Args[0], steps, true
		case (n == "bytes.ReplaceAll" || n == "strings.ReplaceAll") && len(t.Args) == 3:
			steps = append(steps, step{"import", t.Args[1], t.Args[2], true})
			t = t.Args[0]
		case (n == "bytes.Replace" || n == "strings.Replace") && len(t.Args) == 4:
			k, known := constInt(t.Args[3])
			if !known {
				return nil, nil, false
			}
			steps = append(steps, step{"import", t.Args[1], t.Args[2], k < 0})
			t = t.Args[0]
		case strings.HasPrefix(n, "(*regexp.Regexp).ReplaceAll") && !strings.Contains(n, "Func") && len(t.Args) == 3:
			steps = append(steps, step{"package", t.Args[0], t.Args[2], true})
			t = t.Args[1]
		default:
			return nil, nil, false
		}
	}
	return nil, nil, false
}

// pattern flattens a concatenation: the package path with the given role becomes \x00.
func (e *Engine) pattern(st *State, t *Term, want string) (s string, ok bool) {
	for t != nil && t.Op == "conv" {
		t = t.Args[0]
	}
	if t == nil {
		return "", false
	}
	if k, isStr := t.strVal(); isStr {
		return k, true
	}
	if e.roleIn(st, t) == want {
		return "\x00", true
	}
	if strings.HasPrefix(t.Op, "bin") && len(t.Args) == 2 {
		a, ok1 := e.pattern(st, t.Args[0], want)
		b, ok2 := e.pattern(st, t.Args[1], want)
		return a + b, ok1 && ok2
	}
	return "", false
}

var importForms = []string{"\"\x00\"", "\"\x00/", "`\x00`", "`\x00/"}

func monCopied(m *Mon, e *Engine, st *State, ev *Event) {
	if ev.Kind != EvExt || !isWriteFile(ev.Name) || len(ev.Args) < 2 {
		return
	}
	t := ev.Args[0]
	if !isJoin(t) || len(t.Args) != 2 || e.roleIn(st, t.Args[0]) != "tmpDir" {
		return
	}
	x := t.Args[1]
	if _, ok := x.strVal(); ok {
		return
	}
	e.Count("copies")
	from, steps, ok := contentOf(ev.Args[1])
	if !ok {
		e.Violate(st, ev.Pos, "unclear", "it is unclear what is written to a copied file: %s", ev.Args[1])
		return
	}
	if !isJoin(from) || len(from.Args) != 2 || e.roleIn(st, from.Args[0]) != "pluginDir" {
		e.Violate(st, ev.Pos, "unclear", "it is unclear which file is copied: %s", from)
		return
	}
	if from.Args[1] != x {
		e.Violate(st, ev.Pos, "other-file", "the file %s gets the content of %s", x, from.Args[1])
		return
	}
	goFile, top := tri(0), tri(0)
	for f, v := range st.facts {
		switch {
		case f.Op == "call" && f.Aux == "strings.HasSuffix" && f.Args[0] == x:
			if s, _ := f.Args[1].strVal(); s == ".go" {
				goFile = triOf(v)
			}
		case f.Op == "eq" && len(f.Args) == 2:
			for i, a := range f.Args {
				k, ok := f.Args[1-i].strVal()
				if ok && a.Op == "call" && a.Aux == "path/filepath.Ext" && a.Args[0] == x && k == ".go" {
					goFile = triOf(v)
				}
				if ok && a.Op == "call" && a.Aux == "path/filepath.Dir" && a.Args[0] == x && k == "." {
					top = triOf(v)
				}
				if a == x && f.Args[1-i].Op == "call" && f.Args[1-i].Aux == "path/filepath.Base" && f.Args[1-i].Args[0] == x {
					top = triOf(v)
				}
			}
		case f.Op == "call" && (f.Aux == "strings.Contains" || f.Aux == "strings.ContainsRune") && f.Args[0] == x:
			if v {
				top = -1
			} else {
				top = 1
			}
		}
	}
	if goFile == -1 {
		if len(steps) > 0 {
			e.Violate(st, ev.Pos, "altered", "a file which is not a Go file is altered when it is copied")
		}
		return
	}
	if goFile == 0 {
		if len(steps) > 0 {
			e.Violate(st, ev.Pos, "altered", "a file which may not be a Go file is altered when it is copied")
		} else {
			e.Violate(st, ev.Pos, "imports", "the import paths of a file which may be a Go file are not replaced")
		}
		return
	}
	have := map[string]bool{}
	for _, s := range steps {
		if s.what == "package" {
			if top != 1 {
				e.Violate(st, ev.Pos, "package", "the package clause of a file is replaced which may not lie in the top directory")
			}
			have["package"] = true
			continue
		}
		o, ok1 := e.pattern(st, s.old, "pluginPkgPath")
		n, ok2 := e.pattern(st, s.new, "tmpPkgPath")
		if !ok1 || !ok2 {
			e.Violate(st, ev.Pos, "rewrite", "a replacement other than that of the package path of the plugin by that of the copy is made: %s by %s", s.old, s.new)
			continue
		}
		form := false
		for _, f := range importForms {
			form = form || f == o
		}
		switch {
		case o != n || !form:
			e.Violate(st, ev.Pos, "rewrite", "a replacement is made which does not take an import path of the plugin to that of the copy: %s by %s", s.old, s.new)
		case !s.all:
			e.Violate(st, ev.Pos, "imports", "not all occurrences of %s are replaced", s.old)
		default:
			have[o] = true
		}
	}
	for _, f := range importForms {
		if !have[f] {
			e.Violate(st, ev.Pos, "imports", "import paths of the form %s are not replaced", strings.Replace(f, "\x00", "P", 1))
		}
	}
	if !have["package"] && top != -1 {
		e.Violate(st, ev.Pos, "package", "the package clause of a file which may lie in the top directory is not replaced")
	}
}

func isConstStr(t *Term) bool {
	for t.Op == "iface" || t.Op == "conv" {
		t = t.Args[0]
	}
	_, ok := t.strVal()
	return ok
}

func monC41(m *Mon, e *Engine, st *State, ev *Event) {
	if e.inGo > 0 {
		return
	}
	isRun := func() bool {
		if len(ev.Args) == 0 || !e.isCompiler(st, ev.Args[0]) {
			return false
		}
		switch strings.TrimPrefix(ev.Name, "(*os/exec.Cmd).") {
		case "Run", "Output", "CombinedOutput", "Wait":
			return true
		}
		return false
	}
	args := func(a []*Term) {
		for i, t := range a {
			s, _ := t.strVal()
			if s == "-o" && i+1 < len(a) {
				m.bind("out", a[i+1])
			}
		}
	}
	switch ev.Kind {
	case EvAppend:
		args(ev.Args[1:])
	case EvExt:
		if strings.HasPrefix(ev.Name, "os/exec.Command") {
			args(ev.Args)
		}
		if strings.HasPrefix(ev.Name, "fmt.Print") || strings.HasPrefix(ev.Name, "fmt.Fprint") || strings.HasPrefix(ev.Name, "(*os.File).Write") {
			for _, a := range ev.Args {
				o := m.term("out")
				if m.has("built") && (o != nil && mentions(a, o) || o == nil && !isConstStr(a)) {
					e.Count("reports")
					m.put("printed", 1)
				}
			}
		}
		if !strings.HasPrefix(ev.Name, "(*os/exec.Cmd).") || len(ev.Args) == 0 || !e.isCompiler(st, ev.Args[0]) {
			return
		}
		switch strings.TrimPrefix(ev.Name, "(*os/exec.Cmd).") {
		case "Run", "Output", "CombinedOutput", "Start":
		default:
			return
		}
		e.Count("compiler runs")
		cmd := ev.Args[0]
		mode, flags := false, false
		visit(cmd, func(t *Term) bool {
			args(t.Args)
			if s, ok := t.strVal(); ok && (s == "-buildmode=plugin" || s == "plugin") {
				mode = true
			}
			if a := ldAddr(t); a != nil {
				if g, ok := a.Obj.(*ssa.Global); ok && isBuildFlags(g) {
					flags = true
				}
			}
			return true
		})
		if !mode {
			e.Violate(st, ev.Pos, "mode", "the compiler is not told to build a plugin")
		}
		if !flags {
			e.Violate(st, ev.Pos, "flags", "the compiler does not get the build flags of the user")
		}
		dir := false
		for a, v := range st.heap {
			if a.Op == "fld" && a.Aux == "Dir" && a.Args[0] == cmd {
				dir = e.roleIn(st, v) == "tmpDir"
			}
		}
		if !dir {
			e.Violate(st, ev.Pos, "directory", "the compiler does not run in the temporary directory")
		}
	case EvExtRet:
		if isRun() && ev.Err == ErrNil {
			m.put("built", 1)
		}
	case EvExit:
		if ev.Kind2 == "return" && m.has("built") && !m.has("printed") {
			// the path is not empty
			for f, v := range st.facts {
				if f.Op == "eq0" && v && f.Args[0].Op == "len" && f.Args[0].Args[0] == m.term("out") {
					return
				}
			}
			e.Violate(st, ev.Pos, "unannounced", "the command may succeed without printing the path of the plugin")
		}
	}
}
