package main

import (
	"golang.org/x/tools/go/ssa"
)

// Prop is a property and what decides it.
type Prop struct {
	ID    string
	Rule  string // the rule applied, for the evidence
	Runs  []Run
	Rules []func(w *World, r *Report) // rules which need no path exploration
	Floor map[string]int              // least numbers of instances
	Post  func(total map[string]int) []*Violation
}

// Run is one exploration.
type Run struct {
	Name  string
	Entry func(w *World) (*ssa.Function, error)
	Mon   func() Monitor
	Cfg   func(w *World, c *RunCfg)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func isPureFn(w *World) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		if fn.Parent() != nil || !w.inModule(fn) {
			return false
		}
		switch fn.Name() {
		case "isNil", "name2key", "pluginName":
			return fn.Pkg == w.root
		case "Join":
			return fn.Pkg == w.hut
		}
		return false
	}
}

func defaultCfg(w *World) RunCfg {
	return RunCfg{
		Opaque: func(fn *ssa.Function) bool { return fn == w.release },
		Pure:   isPureFn(w),
		NoCond: noCond,
	}
}

func noCond(c *Term) bool {
	return mentionsAny(c, func(t *Term) bool { return (t.Op == "fv" || t.Op == "fld") && (t.Aux == "verbose" || t.Aux == "debug") })
}

// swapperRuns are the ways to start a load.
func swapperRuns(m func() Monitor, cfg func(w *World, c *RunCfg)) []Run {
	var r []Run
	for _, n := range []string{"LoadPlugins", "Reload", "ReloadWithCallback"} {
		r = append(r, methodRun("PluginManagerSwapper", n, m, cfg))
	}
	return r
}

func methodRun(typ, name string, m func() Monitor, cfg func(w *World, c *RunCfg)) Run {
	return Run{Name: name, Entry: func(w *World) (*ssa.Function, error) { return w.needMethod(typ, name) }, Mon: m, Cfg: cfg}
}

type ssaFunction = ssa.Function
