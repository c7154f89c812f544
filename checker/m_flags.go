package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C42: the command line.

var flagDefaults = map[string]string{
	"verbose": "false", "leaveTemps": "false", "goBuild": "true", "staticLinking": "false", "clean": "false", "debug": "false",
	"livePrefix": "live_", "include": "", "exclude": "",
}

func init() {
	register(&Prop{
		ID:    "C42",
		Rule:  "every flag of the build command is registered with its documented default and a variable of its own; on every path of the build command: nothing is created, deleted or compiled unless exactly two arguments are known to have been given, nor if --clean was given without --staticLinking; the directory of the plugin does not come from the second argument nor the output directory from the first; the compiler runs only if --goBuild holds and --staticLinking does not, and then always before a successful end; a successful end with --staticLinking is preceded by the generation of code, or with --clean by the removal of generated files and by no step which analyses the plugin and generates code",
		Rules: []func(w *World, r *Report){checkFlags},
		Runs:  []Run{{Name: "execute", Entry: (*World).executeFn, Cfg: argsCfg, Mon: mon(monC42)}},
		Floor: map[string]int{"flags": 9, "compiler runs": 1, "successful ends": 4, "effects": 3, "directories": 2},
	})
}

// argsCfg correlates what is known about the number of arguments.
func argsCfg(w *World, c *RunCfg) {
	execCfg(nil)(w, c)
	old := c.NoCond
	c.NoCond = func(t *Term) bool {
		return old(t) && !mentionsAny(t, func(x *Term) bool {
			return x.Op == "len" && len(x.Args) == 1 && x.Args[0].Op == "param" && x.Args[0].Typ != nil && x.Args[0].Typ.String() == "[]string"
		})
	}
}

// checkFlags looks at the registration of the flags.
func checkFlags(w *World, r *Report) {
	owner := map[string]string{}
	seen := map[string]bool{}
	for _, fn := range w.prodFuncs() {
		if fn.Pkg != w.cmd {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := c.Call.StaticCallee()
				if f == nil || !strings.Contains(f.String(), "pflag.FlagSet).") || !strings.Contains(f.Name(), "Var") || len(c.Call.Args) < 4 {
					continue
				}
				k, _ := c.Call.Args[2].(*ssa.Const)
				if k == nil || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				name := constant.StringVal(k.Value)
				want, ok := flagDefaults[name]
				if !ok {
					continue
				}
				r.Count("flags")
				seen[name] = true
				i := 3
				if strings.HasSuffix(f.Name(), "VarP") {
					i = 4
				}
				if i < len(c.Call.Args) {
					if d, _ := c.Call.Args[i].(*ssa.Const); d != nil && d.Value != nil {
						s := d.Value.ExactString()
						if d.Value.Kind() == constant.String {
							s = constant.StringVal(d.Value)
						}
						if s != want {
							r.Violate("default", w.pos(in.Pos()), "the default of the flag --%s is %q instead of %q", name, s, want)
						}
					}
				}
				if fa, _ := c.Call.Args[1].(*ssa.FieldAddr); fa != nil {
					if s, ok := structOf(namedPtr(fa.X.Type())); ok {
						v := s.Field(fa.Field).Name()
						if o := owner[v]; o != "" && o != name {
							r.Violate("shared", w.pos(in.Pos()), "the flags --%s and --%s share a variable", o, name)
						}
						owner[v] = name
					}
				}
			}
		}
	}
}

func monC42(m *Mon, e *Engine, st *State, ev *Event) {
	if e.inGo > 0 {
		return
	}
	x := m.exec(e, st, ev)
	if a := m.args(e); a != nil && m.term("len") == nil {
		m.bind("len", mk("len", "", types.Typ[types.Int], a))
	}
	yes := func(f string) bool { v, k := m.flag(st, f); return k && v }
	no := func(f string) bool { v, k := m.flag(st, f); return k && !v }
	arg := func(t *Term, n int64) bool {
		return t != nil && mentionsAny(t, func(t *Term) bool {
			a := ldAddr(t)
			if a == nil || a.Op != "idx" || len(a.Args) != 2 || a.Args[0] != m.args(e) {
				return false
			}
			k, ok := a.Args[1].intVal()
			return ok && k == n
		})
	}
	effect, compile := false, false
	switch ev.Kind {
	case EvExt:
		effect = createsFile(ev.Name) || ev.Name == "os.Remove" || ev.Name == "os.RemoveAll"
		if strings.HasPrefix(ev.Name, "(*os/exec.Cmd).") && len(ev.Args) > 0 && e.isCompiler(st, ev.Args[0]) {
			switch strings.TrimPrefix(ev.Name, "(*os/exec.Cmd).") {
			case "Run", "Output", "CombinedOutput", "Start":
				compile = true
			}
		}
	case EvExtRet:
		if ev.Name == "path/filepath.Abs" && ev.Err == ErrNil && len(ev.Res) > 0 {
			for n := int64(0); n < 2; n++ {
				if arg(ev.Args[0], n) {
					m.bind("abs:"+itoa(int(n))+":"+itoa(ev.Res[0].ID), ev.Res[0])
				}
			}
		}
		if strings.HasPrefix(ev.Name, "(*os/exec.Cmd).") && len(ev.Args) > 0 && ev.Err == ErrNil && e.isCompiler(st, ev.Args[0]) {
			m.put("built", 1)
		}
		if ev.Name == "os.Remove" || ev.Name == "os.RemoveAll" {
			m.put("removed", 1)
		}
		if createsFile(ev.Name) {
			m.put("generated", 1)
		}
	case EvOpaque:
		f := e.w.effects(ev.Fn)
		del := f.any("os.Remove")
		effect = f.any(creators...) || del
		if f.any(creators...) && (!del || e.w.reaches(ev.Fn, "golang.org/x/tools/go/packages.Load")) && yes("clean") && yes("staticLinking") {
			e.Violate(st, ev.Pos, "generates", "code is generated although --clean was given")
		}
	case EvOpaqueRet:
		f := e.w.effects(ev.Fn)
		if f.any("os.Remove") {
			m.put("removed", 1)
		}
		if f.any(creators...) {
			m.put("generated", 1)
		}
	case EvExit:
		if ev.Kind2 != "return" {
			return
		}
		e.Count("successful ends")
		switch {
		case yes("staticLinking") && yes("clean"):
			if !m.has("removed") {
				e.Violate(st, ev.Pos, "not-cleaned", "the command succeeds without having removed anything although --clean was given")
			}
		case yes("staticLinking"):
			if !m.has("generated") {
				e.Violate(st, ev.Pos, "not-generated", "the command succeeds without having generated code although --staticLinking was given")
			}
		case no("staticLinking") && yes("goBuild"):
			if !m.has("built") {
				e.Violate(st, ev.Pos, "not-built", "the command succeeds without having compiled the plugin")
			}
		}
		return
	}
	if compile {
		e.Count("compiler runs")
		if !no("staticLinking") {
			e.Violate(st, ev.Pos, "compiles", "the compiler may run although --staticLinking was given")
		}
		if !yes("goBuild") {
			e.Violate(st, ev.Pos, "compiles", "the compiler may run although --goBuild=false was given")
		}
	}
	if !effect && !compile {
		return
	}
	e.Count("effects")
	if a := m.args(e); a != nil {
		d := linOf(mk("len", "", types.Typ[types.Int], a)).add(linOf(mkInt(2)), -1)
		if lo, hi := st.bounds(d); lo != 2 || hi != 2 {
			e.Violate(st, ev.Pos, "arguments", "the command goes to work although it may not have been given two arguments")
		}
	}
	if yes("clean") && no("staticLinking") {
		e.Violate(st, ev.Pos, "clean", "the command goes to work although --clean was given without --staticLinking")
	}
	for n, t := range []*Term{x.P, x.O} {
		if t == nil {
			continue
		}
		e.Count("directories")
		from := func(n int) bool { return arg(t, int64(n)) || m.term("abs:"+itoa(n)+":"+itoa(t.ID)) != nil }
		if from(1-n) && !from(n) {
			e.Violate(st, ev.Pos, "directories", "the %s directory is not the one given by argument %d: %s", [...]string{"plugin", "output"}[n], n+1, t)
		}
	}
}

// args is the list of arguments of the command.
func (m *Mon) args(e *Engine) *Term {
	for _, p := range e.entParams {
		if p.Typ != nil && p.Typ.String() == "[]string" {
			return p
		}
	}
	return nil
}
