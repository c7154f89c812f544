package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:   "C37",
		Rule: "on every path of every function of the command-line tool on which a step fails (any call which returns an error, of the standard library, of another library or of the tool itself, except probes for files, output to the terminal and the removal of the temporary directory; an entry of a directory which cannot be read; a panic which is recovered): the function returns an error, panics, or ends the process with a non-zero status, and nothing is generated, compiled or loaded in between; a function of which this cannot be shown is analysed within its callers; on every path of the build command, the path of the plugin is printed only after the compiler has succeeded",
		Rules: []func(w *World, r *Report){func(w *World, r *Report) {
			x := &modular{w: w, r: r}
			x.inD = func(fn *ssa.Function) bool {
				if fn.Pkg == nil {
					return false
				}
				if fn.Pkg != w.cmd && fn.Pkg != w.hut && fn.Pkg.Pkg.Name() != "main" {
					return false
				}
				for n := range w.effects(fn).Ext {
					if !harmless(n) || strings.HasSuffix(n, "cobra.Command).Execute") {
						return true
					}
				}
				return false
			}
			x.edit = func(c *RunCfg) {
				nc := c.NoCond
				c.NoCond = func(t *Term) bool {
					return nc(t) && !mentionsAny(t, func(x *Term) bool { return x.Op == "recovered" })
				}
			}
			x.mon = func(x *modular) func() Monitor { return mon(monFails) }
			x.run()
		}},
		Runs:  []Run{{Name: "execute", Entry: (*World).executeFn, Cfg: stopCfg, Mon: mon(monPrinted)}},
		Floor: map[string]int{"failing steps": 8, "failed ends": 8, "recovered panics": 1, "reports": 1, "compiler runs": 1},
	})
}

// harmless: nothing depends on whether the function fails.
func harmless(name string) bool {
	switch name {
	case "os.Stat", "os.Lstat", "path/filepath.Rel", "(*os.File).Close", "(*os.File).WriteString", "(*os.File).Write", "(*os.File).Stat":
		return true
	}
	for _, p := range []string{"fmt.", "(*bytes.Buffer).", "(*strings.Builder).", "(*github.com/spf13/cobra.", "(*github.com/spf13/pflag.", "(*os.PathError)", "(io/fs.", "(*testing.", "errors.", "hash/", "(hash"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// probes: the function only looks whether something exists.
func (w *World) probes(fn *ssa.Function) bool {
	n := 0
	for e := range w.effects(fn).Ext {
		if e == "os.Stat" || e == "os.Lstat" {
			n++
		} else if createsFile(e) || destructive(e) || strings.HasPrefix(e, "os.") || strings.HasPrefix(e, "io") || strings.HasPrefix(e, "go/") || strings.Contains(e, "exec") {
			return false
		}
	}
	return n > 0
}

var steps = append([]string{"golang.org/x/tools/go/packages.Load", "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput", "(*os/exec.Cmd).Start"}, creators...)

func isStep(n string) bool {
	for _, s := range steps {
		if s == n {
			return true
		}
	}
	return false
}

func monFails(m *Mon, e *Engine, st *State, ev *Event) {
	if e.inGo > 0 {
		return
	}
	fail := func(what string) {
		e.Count("failing steps")
		if !m.has("failed") {
			m.put("failed", 1)
			m.bind("what", mkStr(what))
		}
	}
	end := func(rule, msg string) {
		s, _ := m.term("what").strVal()
		e.Violate(st, ev.Pos, rule, "%s although a step may have failed: %s", msg, s)
	}
	switch ev.Kind {
	case EvIterBegin:
		if ev.Val != nil && walkRoot(ev.Val) != nil && ev.Err == ErrNonNil {
			fail("an entry of a directory cannot be read, " + e.w.pos(ev.Pos))
		}
	case EvRecovered:
		e.Count("recovered panics")
		fail("a panic is recovered, " + e.w.pos(ev.Pos))
	case EvExtRet:
		if ev.Err != ErrNonNil || harmless(ev.Name) && !strings.HasSuffix(ev.Name, "cobra.Command).Execute") {
			return
		}
		if (ev.Name == "os.RemoveAll" || ev.Name == "os.Remove") && len(ev.Args) == 1 && (e.roleIn(st, ev.Args[0]) == "tmpDir" || tempPath(ev.Args[0])) {
			return
		}
		fail(ev.Name + ", " + e.w.pos(ev.Pos))
	case EvOpaqueRet:
		if ev.Kind2 != "panic" && ev.Err == ErrNonNil && !e.w.probes(ev.Fn) {
			fail(ev.Fn.Name() + ", " + e.w.pos(ev.Pos))
		}
	case EvExt:
		if !m.has("failed") {
			return
		}
		switch {
		case isExit(ev.Name):
			if k, ok := constInt(ev.Args[0]); !ok || k == 0 {
				end("status", "the process may end with status 0")
			} else {
				e.Count("failed ends")
			}
			m.put("failed", 0)
		case ev.Name == "github.com/spf13/cobra.CheckErr" || strings.HasSuffix(ev.Name, "template.Must") || strings.HasPrefix(ev.Name, "log.Fatal") || strings.HasPrefix(ev.Name, "log.Panic"):
			e.Count("failed ends")
			m.put("failed", 0)
		case isStep(ev.Name):
			end("continued", "the build goes on")
			m.put("failed", 0)
		}
	case EvOpaque:
		if m.has("failed") && e.w.effects(ev.Fn).any(steps...) {
			end("continued", "the build goes on")
			m.put("failed", 0)
		}
	case EvExit:
		if !m.has("failed") {
			return
		}
		if ev.Kind2 == "panic" || ev.Kind2 == "return" && ev.Err == ErrNonNil {
			e.Count("failed ends")
			return
		}
		if ev.Kind2 == "return" {
			end("ignored", "the function ends normally")
		}
	}
}

// monPrinted: the path of the plugin is printed after the compiler has succeeded.
func monPrinted(m *Mon, e *Engine, st *State, ev *Event) {
	if e.inGo > 0 {
		return
	}
	output := func(a []*Term) {
		for i := 0; i+1 < len(a); i++ {
			if s, ok := a[i].strVal(); ok && s == "-o" {
				m.bind("out", a[i+1])
			}
		}
	}
	switch ev.Kind {
	case EvAppend:
		output(ev.Args[1:])
	case EvExt:
		if strings.HasPrefix(ev.Name, "os/exec.Command") {
			output(ev.Args)
		}
		if !strings.HasPrefix(ev.Name, "fmt.Print") && !strings.HasPrefix(ev.Name, "fmt.Fprint") && !strings.HasPrefix(ev.Name, "(*os.File).Write") {
			return
		}
		for _, a := range ev.Args {
			for a.Op == "conv" || a.Op == "iface" {
				a = a.Args[0]
			}
			if strings.HasPrefix(a.Op, "bin") && len(a.Args) == 2 {
				if s, ok := a.Args[1].strVal(); ok && strings.TrimSpace(s) == "" {
					a = a.Args[0]
				}
			}
			if o := m.term("out"); o != nil && a == o || isPluginFile(e, st, a) {
				e.Count("reports")
				if !m.has("built") {
					e.Violate(st, ev.Pos, "report", "the path of the plugin is printed although the compiler may not have succeeded")
				}
			}
		}
	case EvExtRet:
		if strings.HasPrefix(ev.Name, "(*os/exec.Cmd).") && len(ev.Args) > 0 && e.isCompiler(st, ev.Args[0]) {
			switch ev.Name {
			case "(*os/exec.Cmd).Start":
				return
			}
			e.Count("compiler runs")
			if ev.Err == ErrNil {
				m.put("built", 1)
			}
		}
	}
}

// isPluginFile: the path is that of a plugin in the output directory.
func isPluginFile(e *Engine, st *State, t *Term) bool {
	return isJoin(t) && len(t.Args) == 2 && e.roleIn(st, t.Args[0]) == "outputDir" && mentionsAny(t.Args[1], func(x *Term) bool { return isBase(x) != nil })
}
