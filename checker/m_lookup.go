package main

import (
	"strings"
)

func init() {
	register(&Prop{
		ID:   "C23",
		Rule: "precondition analysis of every reflective operation on every path of Plugin.Lookup and isNil: a value is set only to the symbol which the lookup of the given name in the shared object of the plugin returned without an error, or to what it points to, only into what the output argument points to, and only if the path knows the type to be assignable; Elem and IsNil only on kinds known to support them, methods of types and values only on non-nil ones; the shared object is known to exist; no path ends in a panic; a nil error is returned if and only if the output was set, exactly once",
		Runs: []Run{
			methodRun("Plugin", "Lookup", mon(monC23), func(w *World, c *RunCfg) { c.PureEvents = "(reflect." }),
			{Name: "isNil", Mon: mon(monC23),
				Entry: needRootFunc("isNil"),
				Cfg: func(w *World, c *RunCfg) {
					c.Pure = func(fn *ssaFunction) bool { return false }
					c.PureEvents = "(reflect."
				}},
			{Name: "isNil-result", Mon: mon(monIsNil),
				Entry: needRootFunc("isNil"),
				Cfg: func(w *World, c *RunCfg) {
					c.Pure = func(fn *ssaFunction) bool { return false }
				}},
		},
		Floor: map[string]int{"symbol lookups": 1, "assignments": 2, "reflective operations": 8, "failing exits": 4},
	})
}

// Kinds of package reflect.
const (
	kChan      = 18
	kFunc      = 19
	kInterface = 20
	kMap       = 21
	kPtr       = 22
	kSlice     = 23
	kUnsafe    = 26
	kArray     = 17
)

// isSymbol: t is the result of a lookup in a shared object which succeeded; such symbols are never nil.
func isSymbol(t *Term) bool { return isRes(t, "(*plugin.Plugin).Lookup") }

// kindIn says whether the path knows the kind of x, after n dereferences, to be one of ks.
func (e *Engine) kindIn(st *State, x *Term, n int, ks ...int64) bool {
	r := false
	visitState(st, func(k *Term) {
		if r || !isRes(k, "(reflect.Type).Kind") && !isRes(k, "(reflect.Value).Kind") {
			return
		}
		if b, m := impBase(k.Args[0]); b != x || m != n {
			return
		}
		if lo, hi := st.rng(linOf(k)); lo == hi {
			for _, w := range ks {
				r = r || w == lo
			}
		}
	})
	return r
}

// valid says whether the path knows x, after n dereferences, to denote something.
func (e *Engine) valid(st *State, x *Term, n int) bool {
	if isSymbol(x) {
		return true // a function or the address of a variable
	}
	if n == 0 {
		if v, k := st.isNil(x); k && !v {
			return true
		}
	}
	if n <= 1 {
		if v, k := e.nilKnown(st, x); k && !v {
			return true
		}
	}
	for f, v := range st.facts {
		switch {
		case v && isRes(f, "(reflect.Value).IsValid"), !v && isRes(f, "(reflect.Value).IsNil"):
			d := 0
			if isRes(f, "(reflect.Value).IsNil") {
				d = 1
			}
			if b, m := impBase(f.Args[0]); b == x && (m+d == n || m+d == 1 && n == 0) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) assignable(st *State, x *Term, n int, y *Term, k int) bool {
	for f, v := range st.facts {
		if v && isRes(f, "(reflect.Type).AssignableTo") && len(f.Args) == 2 {
			a, i := impBase(f.Args[0])
			b, j := impBase(f.Args[1])
			if a == x && i == n && b == y && j == k {
				return true
			}
		}
	}
	return false
}

func monC23(m *Mon, e *Engine, st *State, ev *Event) {
	lookup := len(e.entParams) == 3
	bad := func(rule, f string, a ...interface{}) { e.Violate(st, ev.Pos, rule, f, a...) }
	switch ev.Kind {
	case EvExtRet:
		if strings.Contains(ev.Name, "reflect.") || isSymbol(resOf(ev)) {
			// keep what the path learns about it
			for i, r := range ev.Res {
				m.bind("r:"+ev.Name+":"+itoa(int(ev.Pos))+":"+itoa(i), r)
			}
		}
	case EvPure:
		if strings.HasPrefix(ev.Name, "(reflect.Type)") {
			m.op(e, st, ev)
		}
	case EvExt:
		switch {
		case ev.Name == "(*plugin.Plugin).Lookup":
			e.Count("symbol lookups")
			if n, k := st.isNil(ev.Args[0]); !k || n {
				bad("no-object", "the shared object of the plugin may not exist (static plugins have none)")
			}
			if lookup && (ev.Args[1] != e.entParams[1] || fromObj(ev.Args[0], "P") != e.entParams[0]) {
				bad("other-symbol", "something else than the given name is looked up in the plugin")
			}
		case ev.Name == "(reflect.Value).Set":
			e.Count("assignments")
			t, n := impBase(ev.Args[0])
			v, k := impBase(ev.Args[1])
			if !lookup || t != e.entParams[2] || n != 1 {
				bad("other-target", "something else than what the output argument points to is assigned")
				return
			}
			if !isSymbol(v) || k > 1 || m.term("sym") != v {
				bad("other-value", "the output is assigned something else than the symbol or what it points to")
				return
			}
			if !e.assignable(st, v, k, t, n) {
				bad("type", "the output is assigned a value whose type is not known to be assignable")
			}
			if k == 1 && !e.kindIn(st, v, 0, kPtr) {
				bad("precondition", "Elem of a symbol which is not known to be a pointer")
			}
			m.wrote(e, st, ev)
		case strings.HasPrefix(ev.Name, "(reflect.Value)."):
			m.op(e, st, ev)
		}
	case EvStore:
		if lookup && mentions(ev.Addr, e.entParams[2]) && ev.Addr.Op != "new" {
			if ev.Addr.Op == "fld" && ev.Addr.Args[0].Op == "new" {
				return
			}
			if !mentionsAny(ev.Val, isSymbol) || m.term("sym") == nil {
				bad("other-value", "the output is assigned something else than the symbol or what it points to")
			}
			m.wrote(e, st, ev)
		}
	case EvExit:
		switch {
		case ev.Kind2 == "panic":
			bad("panic", "the function panics")
		case ev.Kind2 != "return" || !lookup:
		case ev.Err == ErrNil:
			if !m.has("set") {
				bad("unset", "success is reported although the output was not assigned")
			}
		case ev.Err == ErrNonNil:
			e.Count("failing exits")
			if m.has("set") {
				bad("touched", "an error is reported although the output was assigned")
			}
		default:
			bad("unclear", "it is unclear whether success is reported")
		}
	}
	if ev.Kind == EvExtRet && ev.Name == "(*plugin.Plugin).Lookup" && ev.Err == ErrNil && len(ev.Res) > 0 {
		m.bind("sym", ev.Res[0])
	}
}

func resOf(ev *Event) *Term {
	if len(ev.Res) > 0 {
		return ev.Res[0]
	}
	return nil
}

func (m *Mon) wrote(e *Engine, st *State, ev *Event) {
	if m.has("set") {
		e.Violate(st, ev.Pos, "twice", "the output is assigned twice")
	}
	m.put("set", 1)
}

// op checks the precondition of a reflective operation.
func (m *Mon) op(e *Engine, st *State, ev *Event) {
	e.Count("reflective operations")
	x, n := impBase(ev.Args[0])
	name := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
	onType := strings.HasPrefix(ev.Name, "(reflect.Type)")
	bad := func(why string) {
		e.Violate(st, ev.Pos, "precondition", "%s may panic: %s", shortName(ev.Name), why)
	}
	if x == nil {
		bad("its operand is unclear")
		return
	}
	need := func() {
		if !e.valid(st, x, n) {
			bad("its operand is not known to denote anything")
		}
	}
	switch name {
	case "Elem":
		switch {
		case e.kindIn(st, x, n, kPtr, kInterface):
		case onType && e.kindIn(st, x, n, kArray, kChan, kMap, kSlice):
		default:
			bad("its operand is not known to be a pointer")
		}
	case "IsNil":
		if !e.kindIn(st, x, n, kChan, kFunc, kInterface, kMap, kPtr, kSlice, kUnsafe) {
			bad("the kind of its operand is not known to have nil values")
		}
	case "Kind", "String", "IsValid", "CanSet", "CanAddr", "CanInterface":
		if onType {
			need()
		}
	case "Type", "AssignableTo", "Name", "PkgPath", "Implements", "ConvertibleTo", "Comparable", "Interface", "NumMethod":
		need()
		if len(ev.Args) == 2 {
			if y, k := impBase(ev.Args[1]); y == nil || !e.valid(st, y, k) {
				bad("its argument is not known to denote anything")
			}
		}
	default:
		if _, ok := map[string]bool{"IsZero": true}[name]; ok {
			need()
			return
		}
		bad("nothing is known about its precondition")
	}
}

func needRootFunc(name string) func(w *World) (*ssaFunction, error) {
	return func(w *World) (*ssaFunction, error) { return w.needRootFunc(name) }
}
