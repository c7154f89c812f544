package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: what plugin functions and callbacks are given.

func init() {
	register(&Prop{
		ID:   "C28",
		Rule: "on every path of a load: OnLoad is given the data parameter of the method which performs the load; a reload callback is given the manager created by this load and then the value which was current before, or nil if the path knows that there was none or that there are static plugins; OnInit is given the vault inside the manager created by this load",
		Runs: swapperRuns(mon(monC28), nil),
		Floor: map[string]int{"OnLoad calls": 3, "OnInit calls": 3, "callback calls": 3,
			"callbacks given an old manager": 1, "callbacks given no old manager": 1},
	})
}

func init() {
	register(&Prop{
		ID:    "C29",
		Rule:  "the constructor of the swapper calls every function in its list of options with the swapper it returns, in the order of the list, and stores nothing to the swapper after the first of these calls; the function returned by an option stores each parameter of the option, unaltered, to a field of the swapper it is called with, on every path and nothing else, and no two options store to the same field; ResetPluginDir and the constructor store their argument to the same field, and every load reads the directory whose name it takes from that field",
		Rules: []func(w *World, r *Report){ruleOptions},
		Runs:  swapperRuns(mon(monDir), nil),
		Floor: map[string]int{"options": 3, "fields set by options": 3, "constructors": 1, "option lists applied": 1, "directories read": 2, "directory setters": 2},
	})
}

// optionType is the type of the options of the swapper.
func (w *World) optionType() *types.Named {
	sc := w.root.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		nt := namedOf(tn.Type())
		if nt == nil {
			continue
		}
		if sig, ok := nt.Underlying().(*types.Signature); ok && sig.Params().Len() == 1 && sig.Results().Len() == 0 && namedPtr(sig.Params().At(0).Type()) == w.swapperT {
			return nt
		}
	}
	return nil
}

func (w *World) exportedFuncs() []*ssa.Function {
	var r []*ssa.Function
	sc := w.root.Pkg.Scope()
	for _, n := range sc.Names() {
		if f, ok := sc.Lookup(n).(*types.Func); ok && f.Exported() {
			if fn := w.prog.FuncValue(f); fn != nil && len(fn.Blocks) > 0 {
				r = append(r, fn)
			}
		}
	}
	return r
}

func ruleOptions(w *World, r *Report) {
	opt := w.optionType()
	if opt == nil {
		r.Violate("anchor", "?", "the type of the options of the swapper not found")
		return
	}
	dir := ""
	if fn := w.method(w.swapperT, "ResetPluginDir"); fn == nil {
		r.Violate("anchor", "?", "ResetPluginDir not found")
	} else {
		w.explore(r, fn, defaultCfg(w), mon(func(m *Mon, e *Engine, st *State, ev *Event) { m.optionStores(e, st, ev, 1, &dir) })())
		r.Count("directory setters")
	}
	fields := map[string]string{}
	for _, fn := range w.exportedFuncs() {
		res := fn.Signature.Results()
		if res.Len() == 1 && namedOf(res.At(0).Type()) == opt {
			r.Count("options")
			r.Sample("%s", fn)
			cfg := defaultCfg(w)
			cfg.Apply = true
			f := ""
			w.explore(r, fn, cfg, mon(func(m *Mon, e *Engine, st *State, ev *Event) {
				m.optionStores(e, st, ev, fn.Signature.Params().Len(), &f)
			})())
			for _, x := range strings.Fields(f) {
				if o := fields[x]; o != "" {
					r.Violate("shared", w.pos(fn.Pos()), "%s and %s set the same field %s", fn.Name(), o, x)
				}
				fields[x] = fn.Name()
				r.Count("fields set by options")
			}
		}
		if res.Len() == 1 && namedPtr(res.At(0).Type()) == w.swapperT && fn.Signature.Variadic() {
			r.Count("constructors")
			r.Sample("%s", fn)
			w.explore(r, fn, defaultCfg(w), mon(func(m *Mon, e *Engine, st *State, ev *Event) { m.construct(e, st, ev, opt, dir) })())
		}
	}
}

// swapperStore recognises a store to a field of the swapper.
func (e *Engine) swapperStore(ev *Event) (addr, val *Term) {
	switch {
	case ev.Kind == EvStore && e.w.swapperOf(ev.Addr) != nil:
		return ev.Addr, ev.Val
	case ev.Kind == EvMapUpdate && ev.Addr != nil && mentionsAny(ev.Addr, func(t *Term) bool { return t.Op == "fld" && e.w.swapperOf(t) != nil }):
		return ev.Addr, nil
	case ev.Kind == EvExt && strings.Contains(ev.Name, "sync/atomic.") && len(ev.Args) >= 2 && e.w.swapperOf(ev.Args[0]) != nil:
		if n := ev.Name; strings.HasPrefix(n[strings.LastIndex(n, ".")+1:], "Store") || strings.HasPrefix(n[strings.LastIndex(n, ".")+1:], "Swap") {
			return ev.Args[0], ev.Args[1]
		}
		return ev.Args[0], nil
	}
	return nil, nil
}

func fieldPath(a *Term) string {
	s := ""
	for ; a.Op == "fld" || a.Op == "idx"; a = a.Args[0] {
		s = "." + a.Aux + s
	}
	return s
}

// optionStores: the n parameters of the entry function (not counting a receiver) are stored to the swapper.
func (m *Mon) optionStores(e *Engine, st *State, ev *Event, n int, fields *string) {
	var params []*Term
	for _, p := range e.entParams {
		if namedPtr(p.Typ) != e.w.swapperT {
			params = append(params, p)
		}
	}
	if a, v := e.swapperStore(ev); a != nil {
		base := e.w.swapperOf(a)
		if base.Op != "param" {
			e.Violate(st, ev.Pos, "other-swapper", "something is stored to %s, which is not the swapper the option is applied to", base)
			return
		}
		ok := false
		for _, p := range params {
			if v == p || v != nil && e.copyOfParam(st, v, p) {
				m.put("set:"+itoa(p.ID), 1)
				ok = true
				if f := fieldPath(a); !strings.Contains(" "+*fields+" ", " "+f+" ") {
					*fields = strings.TrimSpace(*fields + " " + f)
				}
			}
		}
		switch f := fieldPath(a); {
		case ok:
			m.bind("pend:"+f, nil)
		case v == nil:
			e.Violate(st, ev.Pos, "altered", "what is stored to %s is not what was asked for", f)
		default:
			m.bind("pend:"+f, v) // it may be filled later
			if !strings.Contains(" "+*fields+" ", " "+f+" ") {
				*fields = strings.TrimSpace(*fields + " " + f)
			}
		}
		return
	}
	if ev.Kind == EvMapUpdate {
		m.mapCopy(e, st, ev, params)
	}
	if ev.Kind == EvIterEnd || ev.Kind == EvLoopExit {
		m.mapCopyLoop(e, st, ev, params)
	}
	if ev.Kind == EvExit {
		if ev.Kind2 != "return" {
			e.Violate(st, ev.Pos, "fails", "%s does not return", e.entName())
			return
		}
		for _, f := range strings.Fields(*fields) {
			v := m.term("pend:" + f)
			if v == nil {
				continue
			}
			ok := false
			for _, p := range params {
				if e.copyOfParam(st, v, p) {
					m.put("set:"+itoa(p.ID), 1)
					ok = true
				}
			}
			if !ok {
				e.Violate(st, ev.Pos, "altered", "what is stored to %s is not what was asked for", f)
			}
		}
		k := 0
		for _, p := range params {
			if m.has("set:" + itoa(p.ID)) {
				k++
			}
		}
		if k < n {
			e.Violate(st, ev.Pos, "ignored", "%s does not store its argument to the swapper", e.entName())
		}
	}
}

// copyOfParam: v is a complete copy of the list or map p.
func (e *Engine) copyOfParam(st *State, v, p *Term) bool {
	switch typOr(p.Typ).Underlying().(type) {
	case *types.Slice:
		c := e.normList(st, v)
		if c == p {
			return true
		}
		if c.Op == "acc" {
			ai := c.Obj.(*AccInfo)
			if ai.Full && len(ai.Pats) == 1 && ai.Nested == nil && ai.Act != nil && e.emptyList(st, ai.Init) && st.scanList(ai.Act) == p {
				return elemOfAct(ai.Pats[0], ai.Act, p)
			}
		}
		if e.emptyList(st, c) && e.emptyList(st, p) {
			return true
		}
	case *types.Map:
		m := st.mon.(*Mon)
		if v.Op == "new" && (m.has("mcopy:"+itoa(v.ID)+":"+itoa(p.ID)) || m.has("mzero:"+itoa(p.ID)) && !m.has("dirty:"+itoa(v.ID))) {
			return true
		}
		if n, k := st.isNil(p); k && n {
			n2, k2 := st.isNil(v)
			return k2 && n2
		}
	}
	return false
}

// mapCopy notes that a map gets the entry of the map p which the loop is looking at.
func (m *Mon) mapCopy(e *Engine, st *State, ev *Event, params []*Term) {
	act := actOf(st, ev.Key)
	if act == nil || act.Scan.Kind != "map" {
		m.put("dirty:"+itoa(ev.Addr.ID), 1)
		return
	}
	d := ldAddr(ev.Val)
	if d == nil || d.Op != "mapel" || d.Args[0] != act.Scan.Cont || d.Args[1] != ev.Key {
		return
	}
	m.put("mc:"+act.key0()+":"+itoa(ev.Addr.ID), 1)
}

func (m *Mon) mapCopyLoop(e *Engine, st *State, ev *Event, params []*Term) {
	a := ev.Act
	if a.Scan == nil || a.Scan.Kind != "map" {
		return
	}
	k := a.key0()
	if ev.Kind == EvIterEnd {
		got := m.keys("mc:" + k + ":")
		for _, x := range got {
			m.put("mok:"+strings.TrimPrefix(x, "mc:"), 1)
		}
		if len(got) == 0 {
			m.put("mgap:"+k, 1)
		}
		m.drop("mc:" + k + ":")
		return
	}
	for _, p := range params {
		if a.Iter == 0 && !ev.Break && a.Scan.Cont == p {
			m.put("mzero:"+itoa(p.ID), 1)
		}
	}
	if !ev.Break && !m.has("mgap:"+k) {
		for _, x := range m.keys("mok:" + k + ":") {
			m.put("mcopy:"+strings.TrimPrefix(x, "mok:"+k+":")+":"+itoa(a.Scan.Cont.ID), 1)
		}
	}
	m.drop("mok:" + k + ":")
	m.drop("mc:" + k + ":")
	m.put("mgap:"+k, 0)
}

// construct checks the constructor.
func (m *Mon) construct(e *Engine, st *State, ev *Event, opt *types.Named, dir string) {
	var list *Term
	var params []*Term
	for _, p := range e.entParams {
		if s, ok := typOr(p.Typ).Underlying().(*types.Slice); ok && namedOf(s.Elem()) == opt {
			list = p
		} else {
			params = append(params, p)
		}
	}
	if list == nil {
		return
	}
	if a, v := e.swapperStore(ev); a != nil {
		if m.has("began") {
			e.Violate(st, ev.Pos, "overwritten", "the constructor stores to %s after an option has been applied", fieldPath(a))
		}
		for _, p := range params {
			if v == p && fieldPath(a) == dir && dir != "" {
				m.put("dir", 1)
			}
		}
		return
	}
	optLoop := func(a *LoopAct) bool { return a != nil && st.scanList(a) == list }
	switch ev.Kind {
	case EvUser:
		if namedOf(typOr(ev.Callee.Typ)) != opt {
			return
		}
		m.put("began", 1)
		var act *LoopAct
		for _, a := range st.loops {
			if optLoop(a) && elemOfAct(ev.Callee, a, list) {
				act = a
			}
		}
		if act == nil {
			e.Violate(st, ev.Pos, "order", "an option is called which is not the next one of the list")
			return
		}
		d := linOf(ldAddr(ev.Callee).Args[1])
		iv, k := ivIn(d)
		from := d.add(linOf(iv), -k).add(act.Scan.From, k)
		if k != 1 || !st.linEq(from, Lin{}) {
			e.Violate(st, ev.Pos, "order", "the options are not applied in the order in which they are given")
		}
		if len(ev.Args) != 1 || ev.Args[0].Op != "new" {
			e.Violate(st, ev.Pos, "other-swapper", "an option is not applied to the new swapper")
		} else if s := m.term("S"); s != nil && s != ev.Args[0] {
			e.Violate(st, ev.Pos, "other-swapper", "the options are applied to different swappers")
		} else {
			m.bind("S", ev.Args[0])
		}
		if m.has("it:" + act.key0()) {
			e.Violate(st, ev.Pos, "twice", "an option is applied twice")
		}
		m.put("it:"+act.key0(), 1)
	case EvIterEnd:
		if optLoop(ev.Act) {
			if !m.has("it:" + ev.Act.key0()) {
				skip := false
				for f, v := range st.facts {
					if v && f.Op == "eq" && (f.Args[0] == tNil && elemOfAct(f.Args[1], ev.Act, list) || f.Args[1] == tNil && elemOfAct(f.Args[0], ev.Act, list)) {
						skip = true
					}
				}
				if !skip {
					m.put("gap", 1)
				}
			}
			m.put("it:"+ev.Act.key0(), 0)
		}
	case EvLoopExit:
		if optLoop(ev.Act) && !ev.Break || e.zeroTripOver(st, ev, list) {
			m.put("done", 1)
			e.Count("option lists applied")
		}
		m.put("it:"+ev.Act.key0(), 0)
	case EvExit:
		if ev.Kind2 != "return" {
			return
		}
		if m.has("gap") || !m.has("done") {
			e.Violate(st, ev.Pos, "skipped", "%s may leave out an option", e.entName())
		}
		if s := m.term("S"); s != nil && (len(ev.Results) == 0 || ev.Results[0] != s) {
			e.Violate(st, ev.Pos, "other-swapper", "%s does not return the swapper the options are applied to", e.entName())
		}
		if dir != "" && !m.has("dir") {
			e.Violate(st, ev.Pos, "directory", "%s does not store the plugin directory where ResetPluginDir does", e.entName())
		} else if dir != "" {
			e.Count("directory setters")
		}
	}
}

// monDir: the directory which is read is the one that was set.
func monDir(m *Mon, e *Engine, st *State, ev *Event) {
	if ev.Kind != EvExt || len(ev.Args) == 0 {
		return
	}
	switch n := ev.Name[strings.LastIndex(ev.Name, ".")+1:]; n {
	case "ReadDir", "Glob", "WalkDir", "Walk":
	default:
		return
	}
	e.Count("directories read")
	if !mentionsAny(ev.Args[0], func(t *Term) bool {
		return t.Op == "fld" && e.w.swapperOf(t) != nil && fieldPath(t) == e.w.pluginDirField()
	}) {
		e.Violate(st, ev.Pos, "directory", "the directory which is read is not the one set by ResetPluginDir or the constructor")
	}
}

// pluginDirField is the field which ResetPluginDir sets.
func (w *World) pluginDirField() string {
	if w.dirFld == "" {
		w.dirFld = "?"
		if fn := w.method(w.swapperT, "ResetPluginDir"); fn != nil {
			dir := ""
			w.explore(newReport(""), fn, defaultCfg(w), mon(func(m *Mon, e *Engine, st *State, ev *Event) { m.optionStores(e, st, ev, 1, &dir) })())
			if dir != "" {
				w.dirFld = dir
			}
		}
	}
	return w.dirFld
}

func monC28(m *Mon, e *Engine, st *State, ev *Event) {
	m.commonLoad(e, ev)
	if e.inGo > 0 {
		return
	}
	M := m.term("M")
	switch ev.Kind {
	case EvExtRet:
		if strings.HasPrefix(ev.Name, "(*sync/atomic.") && strings.HasSuffix(ev.Name, ".Load") && e.w.swapperOf(ev.Args[0]) != nil && len(ev.Res) == 1 {
			if t := ev.Res[0].Typ; t != nil && (types.IsInterface(t) || namedPtr(t) == e.w.managerT) && m.term("cur") == nil && e.w.holdsManager(ev.Args[0]) {
				m.bind("cur", ev.Res[0])
			}
		}
	case EvHook:
		switch ev.Hook {
		case "fOnLoad":
			e.Count("OnLoad calls")
			if d := dataParam(e); len(ev.Args) == 0 || d == nil || ev.Args[0] != d {
				e.Violate(st, ev.Pos, "data", "OnLoad is not given the data of the load but %s", argOrNone(ev.Args, 0))
			}
		case "fOnInit":
			e.Count("OnInit calls")
			if len(ev.Args) == 0 || M == nil || ev.Args[0].Op != "fld" || ev.Args[0].Args[0] != M || e.w.sharedKind(ev.Args[0].Typ) != "vault" {
				e.Violate(st, ev.Pos, "vault", "OnInit is not given the vault of the new manager but %s", argOrNone(ev.Args, 0))
			}
		}
	case EvUser:
		if !isReloadCallback(e.w, ev.Callee) {
			return
		}
		e.Count("callback calls")
		if len(ev.Args) != 2 {
			e.Violate(st, ev.Pos, "managers", "a reload callback is called with %d arguments", len(ev.Args))
			return
		}
		if ev.Args[0] != M {
			e.Violate(st, ev.Pos, "managers", "the first argument of a reload callback is not the new manager but %s", ev.Args[0])
		}
		x, cur := ev.Args[1], m.term("cur")
		switch {
		case x == tNil && e.inStaticMode(st):
			// nothing is replaced in static linking mode
		case cur == nil:
			e.Violate(st, ev.Pos, "managers", "a reload callback is called although the current manager has not been determined")
		case x == cur || mentions(x, cur):
			e.Count("callbacks given an old manager")
		case x == tNil && noManager(st, cur):
			e.Count("callbacks given no old manager")
		default:
			e.Violate(st, ev.Pos, "managers", "the second argument of a reload callback is not the manager which was current before but %s", x)
		}
	}
}

// dataParam is the parameter of the entry function for the data of the user.
func dataParam(e *Engine) *Term {
	for _, p := range e.entParams {
		if p.Op != "param" || p.Typ == nil {
			continue
		}
		if it, ok := p.Typ.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			return p
		}
	}
	return nil
}

// noManager: the path knows that cur holds no manager.
func noManager(st *State, cur *Term) bool {
	is := func(f *Term, v bool) bool {
		switch f.Op {
		case "taok":
			return !v && mentions(f, cur)
		case "eq":
			return v && len(f.Args) == 2 && (f.Args[0] == tNil && mentions(f.Args[1], cur) || f.Args[1] == tNil && mentions(f.Args[0], cur))
		}
		return false
	}
	for f, v := range st.facts {
		if is(f, v) {
			return true
		}
	}
	for a, v := range st.heap {
		if a.Op == "taok" && v == tFalse && mentions(a, cur) {
			return true
		}
	}
	return false
}

func (e *Engine) inStaticMode(st *State) bool {
	v, known := e.staticMode(st)
	return known && v
}

func argOrNone(a []*Term, i int) string {
	if i < len(a) && a[i] != nil {
		return a[i].String()
	}
	return "nothing"
}
