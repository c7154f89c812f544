package main

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
	"strings"
)

func init() {
	r := append(swapperRuns(mon(monC19), func(w *World, c *RunCfg) {
		c.PureEvents = "(reflect.Type).Field"
		if o := w.orderFn(); o != nil {
			op := c.Opaque
			c.Opaque = func(fn *ssaFunction) bool { return fn == o || op(fn) }
		}
	}),
		Run{Name: "order", Mon: mon(monOrder), Entry: func(w *World) (*ssaFunction, error) {
			if o := w.orderFn(); o != nil {
				return o, nil
			}
			return w.needMethod("PluginManager", "Plugins") // part of the other runs
		}},
		Run{Name: "isNil", Mon: mon(monIsNil),
			Entry: needRootFunc("isNil"),
			Cfg: func(w *World, c *RunCfg) {
				c.Pure = func(fn *ssaFunction) bool { return false }
			}})
	register(&Prop{
		ID:    "C19",
		Rule:  "on every path to the first OnLoad of a load: a loop over all plugins of the new manager has called Import of each which is not reused, and unless its result is nil a loop over all fields of the struct it points to has, for each field not known to be unexported or excluded by its tag, established that the field is not embedded, found the plugin it names in the plugin map of the manager, established that the importer is reloadable or the dependency is not, recorded the dependency, and set exactly that field to the value exported by exactly that plugin unless that value is known to be nil; a loop over all plugins has established that each reused plugin depends on reused plugins only; the ordered list has been stored, is known to hold every plugin, and each was placed after all its dependencies (so there is no cycle); the recorded dependencies are not changed afterwards; isNil holds for nil values only",
		Runs:  r,
		Floor: map[string]int{"imports": 2, "fields matched": 2, "first OnLoad": 2, "values set": 1},
	})
}

// impBase strips reflection: the object, and how often a pointer was followed.
func impBase(t *Term) (*Term, int) {
	n := 0
	for t != nil {
		switch {
		case isRes(t, "(reflect.Value).Elem"), isRes(t, "(reflect.Type).Elem"), isRes(t, "reflect.Indirect"):
			n++
		case isRes(t, "reflect.TypeOf"), isRes(t, "reflect.ValueOf"), isRes(t, "(reflect.Value).Type"):
		default:
			return t, n
		}
		t = t.Args[0]
	}
	return nil, n
}

// fieldCount finds the number of the fields of what x points to among the bounds of a scan.
func fieldCount(s *Scan, x *Term) *Term {
	if s == nil {
		return nil
	}
	for _, l := range []Lin{s.To, s.From} {
		for t := range l.c {
			if isRes(t, "(reflect.Type).NumField") || isRes(t, "(reflect.Value).NumField") {
				if b, n := impBase(t.Args[0]); b == x && n == 1 {
					return t
				}
			}
		}
	}
	return nil
}

// nilKnown evaluates isNil(x) or x == nil.
func (e *Engine) nilKnown(st *State, x *Term) (isNil, known bool) {
	if v, k := st.isNil(x); k && v {
		return true, true
	}
	for f, v := range st.facts {
		if f.Op == "call" && strings.HasSuffix(f.Aux, ".isNil") && len(f.Args) == 1 && f.Args[0] == x {
			return v, true
		}
	}
	return false, false
}

// structField reads a field of a reflect.StructField.
func structField(F *Term, name string) *Term {
	s, ok := structOf(typOr(F.Typ))
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fieldOf(F, s, i)
		}
	}
	return nil
}

// excluded: the path knows that the field is unexported or excluded by its tag.
func (e *Engine) excludedField(st *State, F *Term) bool {
	for f, v := range st.facts {
		switch {
		case f.Op == "call" && f.Aux == "(reflect.StructField).IsExported" && f.Args[0] == F:
			if !v {
				return true
			}
		case f.Op == "eq" && v && len(f.Args) == 2:
			for i := range f.Args {
				a, b := f.Args[i], f.Args[1-i]
				if s, ok := b.strVal(); ok && s == "-" && a.Op == "call" && strings.HasPrefix(a.Aux, "(reflect.StructTag).") && len(a.Args) == 2 {
					if k, ok := a.Args[1].strVal(); ok && k == "hotswap" && a.Args[0] == structField(F, "Tag") {
						return true
					}
				}
			}
		}
	}
	if p := structField(F, "PkgPath"); p != nil {
		if v, k := st.eval(mkEq(p, mkStr(""))); k && !v {
			return true
		}
	}
	return false
}

// named lists the plugins which the path has looked up in the map of M under a key made of nm.
func (e *Engine) namedBy(st *State, M, nm *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	visitState(st, func(t *Term) {
		a := ldAddr(t)
		if seen[t] || a == nil || a.Op != "mapel" || namedPtr(t.Typ) != e.w.pluginT || !mentions(a.Args[1], nm) {
			return
		}
		seen[t] = true
		if e.fieldHolding(st, a.Args[0], "pluginMap") != M {
			return
		}
		ok := false
		if v := st.heap[mk("mapok", "", types.Typ[types.Bool], a.Args[0], a.Args[1])]; v == tTrue {
			ok = true
		}
		if st.isTrue(mk("mapok", "", types.Typ[types.Bool], a.Args[0], a.Args[1])) {
			ok = true
		}
		if n, k := st.isNil(t); k && !n {
			ok = true
		}
		if ok {
			r = append(r, t)
		}
	})
	return r
}

// matched says why the field F of the import of p does not count as matched; "" if it does.
func (m *Mon) matched(e *Engine, st *State, k string, F, p *Term) string {
	if e.excludedField(st, F) {
		return ""
	}
	if an := structField(F, "Anonymous"); an == nil || !st.isFalse(an) {
		return "an embedded field is not refused"
	}
	why := "a field is not matched with a plugin of the new manager"
	for _, d := range e.namedBy(st, m.term("M"), structField(F, "Name")) {
		why = ""
		pr, pk := e.boolField(st, p, "reloadable")
		dr, dk := e.boolField(st, d, "reloadable")
		if !(pk && pr) && !(dk && !dr) {
			why = "a plugin that is not reloadable may depend on one that is"
			continue
		}
		if a := m.term("dapp:" + k); a == nil || !mentions(a, d) && !mentions(a, F) {
			why = "a dependency is not recorded"
			continue
		}
		x := e.fieldVal(st, d, "exported")
		if x != nil {
			if z, kn := e.nilKnown(st, x); kn && z {
				e.Count("fields matched")
				return ""
			}
			if v := m.term("set:" + k); v != nil && v == x {
				e.Count("fields matched")
				return ""
			}
		}
		why = "a field does not receive the value exported by the plugin it names"
	}
	return why
}

// orderFn is the function which stores the ordered list of a manager, if it is one that invokes no plugin function.
func (w *World) orderFn() *ssaFunction {
	var r []*ssaFunction
	for _, fn := range w.prodFuncs() {
		if fn.Pkg != w.root || fn.Parent() != nil || len(fn.Params) == 0 || namedPtr(fn.Params[0].Type()) != w.managerT {
			continue
		}
		hooks := false
		for g := range w.staticReach(fn) {
			hooks = hooks || len(w.hooksUsed(g)) > 0
		}
		if hooks {
			continue
		}
		stores := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && namedPtr(fa.X.Type()) == w.managerT {
						if v := fieldVar(w.managerT, "ordered"); v != nil && w.managerT.Underlying().(*types.Struct).Field(fa.Field) == v {
							stores = true
						}
					}
				}
			}
		}
		if stores {
			r = append(r, fn)
		}
	}
	if len(r) == 1 {
		return r[0]
	}
	return nil
}

var orderRules = []string{"dependency", "incomplete", "unclear", "reordered"}

// monOrder: the function which orders the plugins returns only after it has stored a complete and proper list.
func monOrder(m *Mon, e *Engine, st *State, ev *Event) {
	if o := e.w.orderFn(); o == nil || o.String() != e.ent {
		return
	}
	if m.term("M") == nil {
		m.bind("M", e.entParams[0])
	}
	e.onlyRules(orderRules, func() { monC05(m, e, st, ev) })
	if ev.Kind == EvStore && ev.Addr.Op == "fld" && ev.Addr.Aux == "ordered" && ev.Addr.Args[0] == e.entParams[0] && ev.Val.Op != "nil" {
		m.put("ordset", 1)
	}
	if ev.Kind == EvExit && ev.Kind2 == "return" && ev.Err != ErrNonNil && !m.has("ordset") {
		e.Violate(st, ev.Pos, "cycle", "the plugins may remain without an order and no error is reported")
	}
}

func monC19(m *Mon, e *Engine, st *State, ev *Event) {
	o := e.w.orderFn()
	if o == nil {
		e.onlyRules(orderRules, func() { monC05(m, e, st, ev) })
	} else {
		m.commonLoad(e, ev)
	}
	if e.inGo > 0 {
		return
	}
	M := m.term("M")
	if M == nil {
		return
	}
	whole := func(el *Elem) bool { return el.Mgr == M && el.Full && len(el.Part) == 0 }
	inner := func() *LoopAct {
		if n := len(st.loops); n > 0 {
			return st.loops[n-1]
		}
		return nil
	}
	topics := []string{"imp", "reb"}
	switch ev.Kind {
	case EvHookRet:
		if ev.Hook == "fImport" && len(ev.Res) > 0 {
			e.Count("imports")
			m.bind("imp", ev.Res[0])
			m.bind("impOf", ev.Owner)
			m.bind("fdone", nil)
			m.put("depst", 0)
			m.put("depapp", 0)
		}
	case EvOpaqueRet:
		if ev.Fn == o && ev.Err != ErrNonNil && ev.Kind2 != "panic" && len(ev.Args) > 0 && ev.Args[0] == M {
			// an ordered list of which nothing else is known
			if s, ok := structOf(e.w.managerT); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == "ordered" {
						e.rawStore(st, fieldAddr(M, s, i), mkSite("res", "ordered", s.Field(i).Type(), ev.Instr, ev.Ctx))
					}
				}
			}
			m.put("ordset", 1)
		}
	case EvUser:
		if isReloadCallback(e.w, ev.Callee) {
			st.dead = true
		}
	case EvPure:
		imp, a := m.term("imp"), inner()
		if imp == nil || a == nil || len(ev.Args) != 2 {
			return
		}
		if b, n := impBase(ev.Args[0]); b != imp || n != 1 {
			return
		}
		c := fieldCount(a.Scan, imp)
		if c == nil {
			return
		}
		if o := st.indexCover(ev.Args[1], linOf(c), a.Scan); o == "asc" || o == "desc" {
			m.bind("F:"+a.key0(), ev.Res[0])
			m.bind("ix:"+a.key0(), ev.Args[1])
		}
	case EvExt:
		if ev.Name != "(reflect.Value).Set" || len(ev.Args) != 2 {
			return
		}
		imp, a := m.term("imp"), inner()
		t := ev.Args[0]
		if imp == nil || a == nil || len(t.Args) == 0 {
			return
		}
		if b, n := impBase(t.Args[0]); b != imp || n != 1 {
			return
		}
		e.Count("values set")
		k := a.key0()
		F, ix := m.term("F:"+k), m.term("ix:"+k)
		ok := false
		switch {
		case F == nil || len(t.Args) != 2:
		case isRes(t, "(reflect.Value).Field"):
			ok = t.Args[1] == ix
		case isRes(t, "(reflect.Value).FieldByName"):
			ok = t.Args[1] == structField(F, "Name")
		}
		v := ev.Args[1]
		if !ok || !isRes(v, "reflect.ValueOf") {
			e.Violate(st, ev.Pos, "other-field", "a value is assigned to something else than the field which is being matched")
			return
		}
		m.bind("set:"+k, v.Args[0])
	case EvAppend:
		if a := inner(); a != nil && m.term("F:"+a.key0()) != nil {
			for _, x := range ev.Args[1:] {
				if isStringType(typOr(x.Typ)) {
					m.bind("dapp:"+a.key0(), x)
				}
			}
		}
	case EvStore:
		if ad := ev.Addr; ad.Op == "fld" && ad.Aux == "Deps" && namedPtr(ad.Args[0].Typ) == e.w.pluginT {
			if ad.Args[0] == m.term("impOf") {
				m.put("depst", 1)
				if ev.Val.isConst() {
					m.put("depst", 0)
				}
			} else if m.has("done:imp") && ad.Args[0].Op != "new" {
				e.Violate(st, ev.Pos, "deps-changed", "the recorded dependencies of a plugin are changed after they have been validated")
			}
		}
		if ad := ev.Addr; ad.Op == "fld" && ad.Aux == "ordered" && ad.Args[0] == M && ev.Val.Op != "nil" {
			m.put("ordset", 1)
		}
	case EvMapUpdate:
		if mg, _ := e.joins(st, ev); mg == M {
			m.put("joined", 1)
			m.put("empty", 0)
			for _, t := range topics {
				m.put("done:"+t, 0)
			}
		}
	case EvIterEnd:
		k := ev.Act.key0()
		imp, p := m.term("imp"), m.term("impOf")
		if imp != nil && fieldCount(ev.Act.Scan, imp) != nil {
			why := "a field is not examined"
			if F := m.term("F:" + k); F != nil {
				why = m.matched(e, st, k, F, p)
			}
			if m.term("dapp:"+k) != nil {
				m.put("depapp", 1)
			}
			if why != "" && m.term("fgap:"+k) == nil {
				m.bind("fgap:"+k, mkStr(why))
			}
			for _, s := range []string{"F:", "ix:", "set:", "dapp:"} {
				m.bind(s+k, nil)
			}
			return
		}
		if x := e.depLoop(st, ev.Act); x != nil {
			ok := false
			visitState(st, func(t *Term) {
				if !ok && t.Op == "ld" && namedPtr(t.Typ) == e.w.pluginT && e.isDepOf(st, t, ev.Act, x) {
					if r, kn := e.reused(st, t); kn && r {
						ok = true
					}
				}
			})
			if !ok {
				m.put("rgap:"+k, 1)
			}
		}
		if imp != nil && p != nil {
			if el := e.elemOf(st, p); el != nil && el.Act.same(ev.Act) {
				if z, kn := e.nilKnown(st, imp); kn && z {
					m.touch(e, st, "imp", p, whole)
				} else if m.term("fdone") == imp {
					if m.has("depapp") && !m.has("depst") {
						m.bind("why", mkStr("the dependencies found are not recorded in the plugin"))
					} else {
						m.touch(e, st, "imp", p, whole)
					}
				}
				for _, s := range []string{"imp", "impOf", "fdone"} {
					m.bind(s, nil)
				}
				m.put("depapp", 0)
				m.put("depst", 0)
			}
		}
		if x := m.term("rdone"); x != nil {
			if el := e.elemOf(st, x); el != nil && el.Act.same(ev.Act) {
				m.touch(e, st, "reb", x, whole)
				m.bind("rdone", nil)
			}
		}
		m.iterEnd(e, st, ev, topics, func(t string, p *Term) bool {
			r, kn := e.reused(st, p)
			if t == "imp" {
				return kn && r
			}
			if kn && !r {
				return true
			}
			d := e.fieldVal(st, p, "Deps")
			return d != nil && e.emptyList(st, d)
		}, whole)
	case EvLoopExit:
		k := ev.Act.key0()
		imp := m.term("imp")
		if imp != nil && fieldCount(ev.Act.Scan, imp) != nil {
			if g := m.term("fgap:" + k); g != nil {
				m.bind("why", g)
			} else if !ev.Break {
				m.bind("fdone", imp)
			}
			for _, s := range []string{"F:", "ix:", "set:", "dapp:", "fgap:"} {
				m.bind(s+k, nil)
			}
			return
		}
		if x := e.depLoop(st, ev.Act); x != nil {
			if !ev.Break && !m.has("rgap:"+k) {
				m.bind("rdone", x)
			}
			m.put("rgap:"+k, 0)
		}
		for t, v := range m.loopExit(ev, topics) {
			if v == covFull || v == covVacuous {
				m.put("done:"+t, 1)
			}
		}
		for _, c := range e.zeroTripOf(ev) {
			if mg := e.fieldHolding(st, c, "pluginMap"); mg == M {
				if m.has("joined") {
					st.dead = true
				}
				m.put("empty", 1)
			} else if le := e.listElems(st, c, 0); le != nil && le.Mgr == M && le.Full && len(le.Part) == 0 {
				if le.List == "ordered" && !m.has("ordset") {
					continue
				}
				if m.has("joined") {
					st.dead = true
				}
			}
		}
	case EvHook:
		if ev.Hook == "fOnInit" {
			st.dead = true
		}
		if ev.Hook != "fOnLoad" || m.has("loaded") {
			return
		}
		m.put("loaded", 1)
		st.dead = true // what follows is no matter of this property
		if m.mgrEmpty(e, st) {
			return
		}
		e.Count("first OnLoad")
		if !m.has("done:imp") {
			why := "not every imported object is examined"
			if w := m.term("why"); w != nil {
				why, _ = w.strVal()
			}
			e.Violate(st, ev.Pos, "unvalidated", "OnLoad is invoked before the dependencies of all plugins have been validated: %s", why)
		}
		if !m.has("done:reb") {
			e.Violate(st, ev.Pos, "rebuilt", "OnLoad is invoked although a reused plugin may depend on a plugin which was loaded anew")
		}
		if !m.has("ordset") {
			e.Violate(st, ev.Pos, "cycle", "OnLoad is invoked before the plugins have been ordered")
		}
	}
}

// monIsNil: isNil returns true for nil values only.
func monIsNil(m *Mon, e *Engine, st *State, ev *Event) {
	if ev.Kind != EvExit || ev.Kind2 != "return" || len(ev.Results) != 1 {
		return
	}
	r, p := ev.Results[0], e.entParams[0]
	isN := func(t *Term) bool {
		if !isRes(t, "(reflect.Value).IsNil") {
			return false
		}
		b, n := impBase(t.Args[0])
		return b == p && n == 0
	}
	e.Count("results of isNil")
	if b, ok := r.boolVal(); ok {
		if b {
			if v, k := st.isNil(p); k && v {
				return
			}
			for f, v := range st.facts {
				if v && isN(f) {
					return
				}
			}
			e.Violate(st, ev.Pos, "isnil", "isNil returns true for something not known to be nil")
		}
		return
	}
	if !isN(r) && r != mkEq(p, tNil) {
		e.Violate(st, ev.Pos, "isnil", "it is unclear whether isNil returns true for nil values only: %s", r)
	}
}
