package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:    "C13",
		Rule:  "effect analysis on every path of the loads, of the release and of all exported methods of managers, plugins and swappers: the library stores only to managers, plugins, vaults, maps and lists which the same call has created and not yet published; it never stores to, sorts, deletes from or adds to anything that was read from a manager which may be in service; every plugin that joins a manager is a structure created by that load",
		Runs:  append(swapperRuns(mon(monC13), nil), releaseRun(mon(monC13))),
		Rules: []func(w *World, r *Report){methodsRule(monC13, false)},
		Floor: map[string]int{"stores checked": 20, "map updates checked": 6, "joins": 3, "publish events": 3, "methods explored": 6},
	})
	register(&Prop{
		ID:    "C24",
		Rule:  "on every path: when OnInit or a reload callback is called and when a manager is published, its live function, live type and data bag maps are three distinct maps created by this call, nothing has been put into the data bag, its extension is the result of the extension constructor, which has been called exactly once, or nil if the path knows that none is configured; OnInit receives the vault of the new manager itself and the library does not store to the vault afterwards",
		Runs:  swapperRuns(mon(monC24), nil),
		Floor: map[string]int{"vaults checked": 6, "extension constructor calls": 2},
	})
	register(&Prop{
		ID:    "C21",
		Rule:  "on every path: a directory is read, a file is opened, read or written, or a plugin is opened only if the path knows that there are no static plugins; a plugin made from a static plugin joins only if it knows that there are; Reload and ReloadWithCallback in static linking mode end with an error and without any effect; StaticLinkingMode() returns whether there are static plugins; no method changes the static plugins",
		Runs:  swapperRuns(mon(monC21), nil),
		Rules: []func(w *World, r *Report){ruleStaticMode},
		Floor: map[string]int{"file operations": 6, "static plugins joining": 1, "reloads in static linking mode": 2},
	})
	register(&Prop{
		ID:    "C26",
		Rule:  "lockset analysis of all exported methods of the swapper: every field that a method or a goroutine started by it writes is accessed by atomic operations only or with one and the same mutex of the swapper held at every access; all other fields are written by the constructor and the options only",
		Rules: []func(w *World, r *Report){ruleLockset},
		Floor: map[string]int{"methods explored": 7, "field accesses": 10},
	})
	register(&Prop{
		ID:   "C27",
		Rule: "no path of Current, ReloadCounter, StaticLinkingMode or of the methods of a manager acquires a lock, receives from or sends to a channel, sleeps, waits, or performs input or output; no path of a load sleeps, waits for a timer or receives from a channel while it holds a mutex of the swapper (goroutines excepted)",
		Runs: append(swapperRuns(mon(monC27load), nil),
			methodRun("PluginManagerSwapper", "Current", mon(monC27), nil),
			methodRun("PluginManagerSwapper", "ReloadCounter", mon(monC27), nil),
			methodRun("PluginManagerSwapper", "StaticLinkingMode", mon(monC27), nil),
			methodRun("PluginManager", "FindPlugin", mon(monC27), nil),
			methodRun("PluginManager", "Plugins", mon(monC27), nil),
			methodRun("PluginManager", "InvokeEach", mon(monC27), nil),
			methodRun("PluginManager", "InvokeEachBackward", mon(monC27), nil)),
		Floor: map[string]int{"exits": 7, "exits of loads": 6},
	})
}

// exportedMethods lists the exported methods declared for a type.
func (w *World) exportedMethods(t *types.Named) []*ssa.Function {
	var r []*ssa.Function
	for i := 0; i < t.NumMethods(); i++ {
		if m := t.Method(i); m.Exported() {
			if fn := w.prog.FuncValue(m); fn != nil && len(fn.Blocks) > 0 {
				r = append(r, fn)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// explore runs a monitor over a function and adds what it finds to the report.
func (w *World) explore(r *Report, fn *ssa.Function, cfg RunCfg, m Monitor) *Engine {
	e := newEngine(w, cfg)
	e.Run(fn, m)
	r.Viol = append(r.Viol, e.viol...)
	if e.aborted || e.paths == 0 {
		r.Violate("undecided", w.pos(fn.Pos()), "the exploration of %s did not finish", fn)
	}
	for k, v := range e.Notes {
		r.Notes[k] += v
	}
	r.Paths += e.paths
	r.Events += e.events
	r.Work += e.work
	r.Calls += len(e.calls)
	for f := range e.funcs {
		r.Funcs = append(r.Funcs, f.String())
	}
	return e
}

var loadNames = map[string]bool{"LoadPlugins": true, "Reload": true, "ReloadWithCallback": true}

// methodsRule explores the exported methods of managers, plugins and swappers, the loads optionally.
func methodsRule(f func(m *Mon, e *Engine, st *State, ev *Event), loads bool) func(w *World, r *Report) {
	return func(w *World, r *Report) {
		for _, t := range []*types.Named{w.managerT, w.pluginT, w.swapperT} {
			for _, fn := range w.exportedMethods(t) {
				if t == w.swapperT && loadNames[fn.Name()] && !loads {
					continue
				}
				r.Count("methods explored")
				r.Sample("%s", fn)
				w.explore(r, fn, defaultCfg(w), mon(f)())
			}
		}
	}
}

// ---- C13 ----

// addrRoot strips fields and elements.
func addrRoot(a *Term) *Term {
	for a.Op == "fld" || a.Op == "idx" {
		a = a.Args[0]
	}
	return a
}

// sharedKind says what kind of state of a generation lies behind a pointer.
func (w *World) sharedKind(t types.Type) string {
	switch n := namedPtr(typOr(t)); {
	case n == nil:
	case n == w.managerT:
		return "manager"
	case n == w.pluginT:
		return "plugin"
	case n.Obj().Name() == "Vault" && w.isModPkg(n.Obj().Pkg()):
		return "vault"
	case n == w.pluginFuncsT:
		return "plugin"
	}
	return ""
}

// serving says whether a term was obtained from a manager that may be in service.
func (m *Mon) serving(e *Engine, t *Term) bool {
	if c := m.term("cur"); c != nil && mentions(t, c) {
		return true
	}
	return mentionsAny(t, func(x *Term) bool {
		return x.Op == "param" && e.w.sharedKind(x.Typ) != "" || x.Op == "ld" && x.Args[0].Op == "av" && (namedPtr(x.Typ) == e.w.managerT || x.Typ != nil && types.IsInterface(x.Typ))
	})
}

// own says whether the object belongs to the generation under construction.
func (m *Mon) own(e *Engine, st *State, t *Term) bool {
	M := m.term("M")
	if t.Op == "new" || M == nil {
		return t.Op == "new"
	}
	if a := ldAddr(t); a != nil {
		switch a.Op {
		case "mapel":
			return e.fieldHolding(st, a.Args[0], "pluginMap") == M
		case "idx":
			l := e.normList(st, a.Args[0])
			if le := e.listElems(st, l, 0); le != nil {
				return le.Mgr == M
			}
			if l.Op == "acc" {
				ok := true
				for _, p := range l.Obj.(*AccInfo).Pats {
					ok = ok && m.own(e, st, p)
				}
				return ok && e.emptyList(st, l.Obj.(*AccInfo).Init)
			}
		}
	}
	return false
}

func monC13(m *Mon, e *Engine, st *State, ev *Event) {
	m.swapState(e, st, ev)
	M := m.term("M")
	if e.published(st, ev) != nil {
		e.Count("publish events")
		m.put("pub", 1)
	}
	late := m.has("pub") || e.inGo > 0
	switch ev.Kind {
	case EvStore:
		if ev.Addr.Op != "fld" && ev.Addr.Op != "idx" && e.w.sharedKind(ev.Addr.Typ) == "" {
			return
		}
		m.checkWrite(e, st, ev, ev.Addr, late, "is changed")
	case EvMapUpdate, EvDelete:
		e.Count("map updates checked")
		c := ev.Addr
		if c == nil && len(ev.Args) > 0 {
			c = ev.Args[0]
		}
		if mg, p := e.joins(st, ev); mg != nil {
			e.Count("joins")
			if p.Op != "new" {
				e.Violate(st, ev.Pos, "shared", "a plugin structure which was not created by this load joins a manager, so two generations share it")
			}
			if p == m.term("lastjoin") {
				return
			}
		}
		m.checkContainer(e, st, ev, c, late)
	case EvExt:
		if strings.HasPrefix(ev.Name, "sort.") || strings.HasPrefix(ev.Name, "slices.") && len(ev.Args) > 0 && !strings.Contains(ev.Name, "Contains") && !strings.Contains(ev.Name, "Clone") && !strings.Contains(ev.Name, "Index") {
			m.checkContainer(e, st, ev, ev.Args[0], late)
		}
	}
	_ = M
}

func (m *Mon) checkWrite(e *Engine, st *State, ev *Event, addr *Term, late bool, what string) {
	root := addrRoot(addr)
	kind := ""
	for a := addr; ; a = a.Args[0] {
		if k := e.w.sharedKind(a.Typ); k != "" && (a != addr || a == root) {
			kind = k
		}
		if a.Op != "fld" && a.Op != "idx" {
			break
		}
	}
	if root.Op == "ld" && kind == "" {
		// an element of a list
		m.checkContainer(e, st, ev, root, late)
		return
	}
	if kind == "" {
		return
	}
	e.Count("stores checked")
	own := m.own(e, st, root)
	switch {
	case !own:
		e.Violate(st, ev.Pos, "in-service", "a %s which may be in service %s", kind, what)
	case late && (root.Op != "new" || root == m.term("M") || m.joined(e, st, root)):
		e.Violate(st, ev.Pos, "after-publication", "a %s %s after it has been published", kind, what)
	}
}

// joined says whether the new plugin is known to be in the plugin map.
func (m *Mon) joined(e *Engine, st *State, p *Term) bool {
	for a, v := range st.heap {
		if a.Op == "mapel" && v == p {
			return true
		}
	}
	return false
}

// checkContainer: a map or list is changed in place.
func (m *Mon) checkContainer(e *Engine, st *State, ev *Event, c *Term, late bool) {
	if c == nil {
		return
	}
	c = stripSlice(c)
	for c.Op == "iface" || c.Op == "conv" {
		c = c.Args[0]
	}
	M := m.term("M")
	if a := ldAddr(c); a != nil && a.Op == "fld" {
		k := ""
		for x := a; x.Op == "fld"; x = x.Args[0] {
			if s := e.w.sharedKind(x.Args[0].Typ); s != "" {
				k = s
			}
		}
		if k != "" {
			root := addrRoot(a)
			e.Count("stores checked")
			switch {
			case !m.own(e, st, root):
				e.Violate(st, ev.Pos, "in-service", "the content of a field of a %s which may be in service is changed", k)
				return
			case late:
				e.Violate(st, ev.Pos, "after-publication", "the content of a field of a %s is changed after it has been published", k)
				return
			case k == "plugin":
				if r, kn := e.reused(st, root); (!kn || r) && ev.Kind != EvMapUpdate {
					e.Violate(st, ev.Pos, "in-service", "the content of a field is changed which a plugin may share with the generation in service")
					return
				}
			}
		}
	}
	if m.serving(e, c) && c.Op != "new" && !containerIsLocal(c) {
		e.Violate(st, ev.Pos, "in-service", "a map or list obtained from a manager which may be in service is changed")
		return
	}
	if late && c.Op == "new" && M != nil {
		for a, v := range st.heap {
			if v == c && a.Op == "fld" && addrRoot(a) == M {
				e.Violate(st, ev.Pos, "after-publication", "the field %s of a manager is changed after it has been published", a.Aux)
			}
		}
	}
}

// containerIsLocal: a list built by this call.
func containerIsLocal(c *Term) bool { return c.Op == "acc" || c.Op == "app" || c.Op == "new" }

func stripSlice(c *Term) *Term {
	for c.Op == "slice" {
		c = c.Args[0]
	}
	return c
}

// ---- C24 ----

var vaultMaps = []string{"LiveFuncs", "LiveTypes", "DataBag"}

// isExtCtor recognises the extension constructor of the swapper.
func (e *Engine) isExtCtor(t *Term) bool {
	s, ok := typOr(t.Typ).Underlying().(*types.Signature)
	if !ok || s.Params().Len() != 0 || s.Results().Len() != 1 || !types.IsInterface(s.Results().At(0).Type()) {
		return false
	}
	a := ldAddr(t)
	return a != nil && e.w.swapperOf(a) != nil
}

func monC24(m *Mon, e *Engine, st *State, ev *Event) {
	m.commonLoad(e, ev)
	if e.inGo > 0 {
		return
	}
	M := m.term("M")
	switch ev.Kind {
	case EvUser:
		if e.isExtCtor(ev.Callee) {
			e.Count("extension constructor calls")
			if m.has("ext") {
				e.Violate(st, ev.Pos, "constructor-twice", "the extension constructor is called more than once by a load")
			}
			if m.has("seen") {
				e.Violate(st, ev.Pos, "constructor-late", "the extension constructor is called after the vault has been handed out")
			}
			m.put("ext", 1)
		}
		if isReloadCallback(e.w, ev.Callee) {
			m.checkVault(e, st, ev, M)
		}
	case EvUserRet:
		if e.isExtCtor(ev.Callee) && len(ev.Res) == 1 {
			m.bind("ext", ev.Res[0])
		}
	case EvHook:
		if ev.Hook == "fOnInit" {
			m.checkVault(e, st, ev, M)
			if len(ev.Args) == 0 || M == nil || ev.Args[0].Op != "fld" || ev.Args[0].Args[0] != M || e.w.sharedKind(ev.Args[0].Typ) != "vault" {
				e.Violate(st, ev.Pos, "other-vault", "OnInit does not receive the vault of the new manager")
			}
			m.put("seen", 1)
		}
	case EvStore:
		if m.has("seen") && M != nil && addrRoot(ev.Addr) == M && e.vaultField(ev.Addr) {
			e.Violate(st, ev.Pos, "vault-changed", "the vault of a manager is changed after it has been handed out to the plugins")
		}
	case EvMapUpdate:
		if M == nil {
			return
		}
		if v := e.fieldVal(st, M, "DataBag"); v != nil && v == ev.Addr && !m.has("seen") {
			e.Violate(st, ev.Pos, "not-empty", "the library puts something into the data bag")
		}
	}
	if x := e.published(st, ev); x != nil {
		m.checkVault(e, st, ev, x)
	}
}

func (e *Engine) vaultField(a *Term) bool {
	for ; a.Op == "fld"; a = a.Args[0] {
		if e.w.sharedKind(a.Typ) == "vault" || e.w.sharedKind(a.Args[0].Typ) == "vault" {
			return true
		}
	}
	return false
}

// checkVault: the vault of the new manager is new.
func (m *Mon) checkVault(e *Engine, st *State, ev *Event, M *Term) {
	if M == nil || M.Op != "new" || m.has("seen") {
		return // plugins may have changed it
	}
	e.Count("vaults checked")
	seen := map[*Term]bool{}
	for _, f := range vaultMaps {
		v := e.fieldVal(st, M, f)
		switch {
		case v == nil || v.Op != "new":
			e.Violate(st, ev.Pos, "not-new", "the map %s of the vault is not one that this load has created", f)
		case seen[v]:
			e.Violate(st, ev.Pos, "same-map", "two maps of the vault are one and the same (%s)", f)
		}
		seen[v] = true
	}
	x := e.fieldVal(st, M, "Extension")
	if m.has("ext") {
		if x == nil || x != m.term("ext") {
			e.Violate(st, ev.Pos, "extension", "the extension of the vault is not what the extension constructor has returned")
		}
		return
	}
	none := false
	for a, v := range st.heap {
		if a.Op == "fld" && e.w.swapperOf(a) != nil && e.isExtCtor(v) {
			if n, k := st.isNil(v); k && n {
				none = true
			}
		}
	}
	if !none {
		for f, v := range st.facts {
			if v && f.Op == "eq" && (e.isExtCtor(f.Args[0]) || e.isExtCtor(f.Args[1])) {
				none = true
			}
		}
	}
	if !none {
		e.Violate(st, ev.Pos, "not-constructed", "a vault is handed out without the configured extension constructor having been called")
	}
	if n, k := st.isNil(x); x != nil && !(k && n) {
		e.Violate(st, ev.Pos, "extension", "the vault has an extension which does not come from the extension constructor")
	}
}

// ---- C21 ----

// fileOp says whether an external function deals with the file system or opens plugins.
func fileOp(n string) bool {
	if n == "plugin.Open" {
		return true
	}
	for _, p := range []string{"os.", "io/ioutil.", "path/filepath.Walk", "path/filepath.Glob", "path/filepath.EvalSymlinks", "(*os.File).", "io/fs."} {
		if strings.HasPrefix(n, p) {
			return n != "os.Getpid" && n != "os.Getenv" && n != "os.Exit" && n != "os.Getppid"
		}
	}
	return false
}

func monC21(m *Mon, e *Engine, st *State, ev *Event) {
	m.commonLoad(e, ev)
	s, known := e.staticMode(st)
	eff := ""
	switch ev.Kind {
	case EvExt:
		if fileOp(ev.Name) {
			e.Count("file operations")
			if !known || s {
				e.Violate(st, ev.Pos, "files", "%s is called although the swapper may be in static linking mode", shortName(ev.Name))
			}
			eff = shortName(ev.Name)
		}
	case EvMapUpdate:
		if mg, p := e.joins(st, ev); mg != nil && mg == m.term("M") {
			if e.fromStatic(st, p) {
				e.Count("static plugins joining")
				if !known || !s {
					e.Violate(st, ev.Pos, "static-path", "a static plugin is loaded although the swapper may have no static plugins")
				}
			}
		}
		if mentionsAny(ev.Addr, func(t *Term) bool { return t.Op == "fld" && t.Aux == e.w.staticField() && e.w.swapperOf(t) != nil }) {
			e.Violate(st, ev.Pos, "static-plugins", "the static plugins of the swapper are changed")
		}
	case EvDelete:
		if c := ev.Addr; c != nil && mentionsAny(c, func(t *Term) bool { return t.Op == "fld" && t.Aux == e.w.staticField() && e.w.swapperOf(t) != nil }) {
			e.Violate(st, ev.Pos, "static-plugins", "the static plugins of the swapper are changed")
		}
	case EvStore:
		if e.w.swapperOf(ev.Addr) != nil {
			eff = "a store to the swapper"
			if ev.Addr.Aux == e.w.staticField() {
				e.Violate(st, ev.Pos, "static-plugins", "the static plugins of the swapper are replaced")
			}
		}
	case EvHook:
		eff = hookTitle(ev.Hook)
	case EvUser:
		eff = userName(ev.Callee)
	case EvGo:
		if ev.Kind2 == "spawn" {
			eff = "a goroutine"
		}
	}
	if e.newManager(ev) != nil {
		eff = "the creation of a manager"
	}
	if ev.Kind == EvExt && isAtomicWrite(ev.Name) && e.w.swapperOf(ev.Args[0]) != nil || ev.Kind == EvExt && isAtomicName(ev.Name) && strings.HasPrefix(ev.Name[strings.LastIndex(ev.Name, ".")+1:], "Add") && e.w.swapperOf(ev.Args[0]) != nil {
		eff = "an atomic change of the swapper"
	}
	if e.entName() == "LoadPlugins" {
		return
	}
	if eff != "" && e.inGo == 0 && (!known || s) {
		e.Violate(st, ev.Pos, "reload-effect", "%s performs %s although the swapper may be in static linking mode", e.entName(), eff)
	}
	if ev.Kind == EvExit && known && s {
		e.Count("reloads in static linking mode")
		if !e.isFailExit(ev) || ev.Kind2 == "panic" {
			e.Violate(st, ev.Pos, "reload-succeeds", "%s does not end with an error in static linking mode", ev.Fn.Name())
		}
	}
}

// fromStatic says whether the functions of a plugin come from a static plugin.
func (e *Engine) fromStatic(st *State, p *Term) bool {
	if e.staticPlugin(st, p) {
		return true
	}
	for a, v := range st.heap {
		if (a.Op == "fld" && addrRoot(a) == p || a == p) && mentionsAny(v, func(t *Term) bool { return namedPtr(t.Typ) == e.w.staticPluginT }) {
			return true
		}
	}
	return false
}

// ruleStaticMode: StaticLinkingMode() says whether there are static plugins; the field is written by options only.
func ruleStaticMode(w *World, r *Report) {
	f := w.staticField()
	fn := w.method(w.swapperT, "StaticLinkingMode")
	if f == "" || fn == nil {
		r.Violate("anchor", "?", "the static plugins of the swapper or StaticLinkingMode() not found")
		return
	}
	w.explore(r, fn, defaultCfg(w), mon(func(m *Mon, e *Engine, st *State, ev *Event) {
		if ev.Kind != EvExit {
			return
		}
		e.Count("exits of StaticLinkingMode")
		ok := false
		if ev.Kind2 == "return" && len(ev.Results) == 1 {
			for a, v := range st.heap {
				if a.Op == "fld" && a.Aux == f && e.w.swapperOf(a) != nil {
					nn := mkNot(mkEq(v, tNil))
					if ev.Results[0] == nn {
						ok = true
					}
					x, k1 := st.eval(ev.Results[0])
					n, k2 := st.isNil(v)
					if k1 && k2 && x == !n {
						ok = true
					}
				}
			}
		}
		if !ok {
			e.Violate(st, ev.Pos, "mode", "StaticLinkingMode does not return whether the swapper has static plugins")
		}
	})())
	for _, fn := range w.prodFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if ok && w.swapperBase(fa) && fieldName(fa) == f {
					r.Count("writes of the static plugins")
					if !w.constructing(fn) {
						r.Violate("static-plugins", w.pos(s.Pos()), "%s changes the static plugins of the swapper", fn.Name())
					}
				}
			}
		}
	}
}

// constructing says whether a function only runs while a swapper is constructed: an option, or a function that
// creates the swapper.
func (w *World) constructing(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if res := f.Signature.Results(); res.Len() > 0 {
			t := res.At(0).Type()
			if namedPtr(t) == w.swapperT {
				return true
			}
			if n := namedOf(t); n != nil && n.Obj().Name() == "Option" && n.Obj().Pkg() == w.root.Pkg {
				return true
			}
		}
	}
	return false
}

// ---- C26 ----

func ruleLockset(w *World, r *Report) {
	type acc struct {
		write  bool
		atomic bool
		lock   string
		pos    string
		fn     string
	}
	accs := map[string]map[acc]bool{}
	note := func(f string, a acc) {
		if accs[f] == nil {
			accs[f] = map[acc]bool{}
		}
		accs[f][a] = true
	}
	skip := func(t types.Type) bool {
		n := namedPtr(typOr(t))
		return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
	}
	for _, fn := range w.exportedMethods(w.swapperT) {
		r.Count("methods explored")
		r.Sample("%s", fn)
		w.explore(r, fn, defaultCfg(w), mon(func(m *Mon, e *Engine, st *State, ev *Event) {
			lock := func() string {
				if e.inGo > 0 {
					return ""
				}
				if t := m.term("held"); t != nil {
					return t.Aux
				}
				return ""
			}
			switch ev.Kind {
			case EvExt:
				if strings.HasPrefix(ev.Name, "(*sync.") && len(ev.Args) > 0 && e.w.swapperOf(ev.Args[0]) != nil {
					switch meth := ev.Name[strings.LastIndex(ev.Name, ".")+1:]; meth {
					case "Lock":
						m.bind("held", ev.Args[0])
					case "RLock":
						m.bind("rheld", ev.Args[0])
					case "Unlock":
						m.bind("held", nil)
					case "RUnlock":
						m.bind("rheld", nil)
					}
					return
				}
				if isAtomicName(ev.Name) && len(ev.Args) > 0 {
					if f := e.w.swapperField(ev.Args[0]); f != "" {
						e.Count("field accesses")
						note(f, acc{write: !strings.HasPrefix(ev.Name[strings.LastIndex(ev.Name, ".")+1:], "Load"), atomic: true, pos: e.w.pos(ev.Pos), fn: e.entName()})
					}
					return
				}
				for _, a := range ev.Args {
					if f := e.w.swapperField(a); f != "" && !skip(a.Typ) && !strings.HasPrefix(ev.Name, "(*sync.") {
						if _, ptr := typOr(a.Typ).(*types.Pointer); ptr && a.Op == "fld" {
							note(f, acc{write: !e.w.readonlyExtern(ev.Name), lock: lock(), pos: e.w.pos(ev.Pos), fn: e.entName()})
						}
					}
				}
			case EvLoad:
				f := e.w.swapperField(ev.Addr)
				if skip(ev.Addr.Typ) {
					e.Violate(st, ev.Pos, "mutex-copied", "a mutex of the swapper is copied")
					return
				}
				e.Count("field accesses")
				l := lock()
				if l == "" && m.term("rheld") != nil && e.inGo == 0 {
					l = m.term("rheld").Aux
				}
				note(f, acc{lock: l, pos: e.w.pos(ev.Pos), fn: e.entName()})
			case EvStore:
				if f := e.w.swapperField(ev.Addr); f != "" {
					e.Count("field accesses")
					note(f, acc{write: true, lock: lock(), pos: e.w.pos(ev.Pos), fn: e.entName()})
				}
				if ev.Addr.Op == "idx" {
					if a := ldAddr(stripSlice(ev.Addr.Args[0])); a != nil {
						if f := e.w.swapperField(a); f != "" {
							note(f, acc{write: true, lock: lock(), pos: e.w.pos(ev.Pos), fn: e.entName()})
						}
					}
				}
			case EvMapUpdate, EvDelete:
				if ev.Addr == nil {
					return
				}
				if a := ldAddr(ev.Addr); a != nil {
					if f := e.w.swapperField(a); f != "" {
						note(f, acc{write: true, lock: lock(), pos: e.w.pos(ev.Pos), fn: e.entName()})
					}
				}
			}
		})())
	}
	var fs []string
	for f := range accs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		var all []acc
		for a := range accs[f] {
			all = append(all, a)
		}
		sort.Slice(all, func(i, j int) bool { return all[i].pos+all[i].fn+all[i].lock < all[j].pos+all[j].fn+all[j].lock })
		written, atomic := false, false
		locks := map[string]bool{}
		for _, a := range all {
			written = written || a.write
			atomic = atomic || a.atomic
			if !a.atomic {
				locks[a.lock] = true
			}
		}
		r.Count("fields")
		r.Sample("field %s: %d accesses, written by methods: %v, atomic: %v, locks: %v", f, len(all), written, atomic, locks)
		if !written {
			continue
		}
		if atomic {
			for _, a := range all {
				if !a.atomic {
					r.Violate("mixed-access", a.pos, "%s accesses the field %s without an atomic operation, other methods access it atomically", a.fn, f)
				}
			}
			continue
		}
		if len(locks) != 1 || locks[""] {
			for _, a := range all {
				if a.lock == "" || len(locks) > 1 && !locks[""] {
					what := "reads"
					if a.write {
						what = "writes"
					}
					r.Violate("unprotected", a.pos, "%s %s the field %s without the lock that protects it elsewhere: methods called concurrently race", a.fn, what, f)
				}
			}
		}
	}
}

// ---- C27 ----

// blocking says what an event may wait for.
func (e *Engine) blocking(ev *Event) string {
	switch ev.Kind {
	case EvRecv:
		return "receives from a channel"
	case EvSend:
		return "sends to a channel"
	case EvSelect:
		return "waits in a select"
	case EvExt:
		n := ev.Name
		m := n[strings.LastIndex(n, ".")+1:]
		switch {
		case n == "time.Sleep":
			return "sleeps"
		case strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "(sync.Locker)"):
			switch m {
			case "Lock", "RLock":
				return "acquires a lock"
			case "Wait":
				return "waits for other goroutines"
			case "Do":
				if strings.Contains(n, "Once") {
					return "waits for a sync.Once"
				}
			}
		case fileOp(n) || strings.HasPrefix(n, "os/exec.") || strings.HasPrefix(n, "(*os/exec.") || strings.HasPrefix(n, "net"):
			return "performs input or output (" + shortName(n) + ")"
		}
	}
	return ""
}

func monC27(m *Mon, e *Engine, st *State, ev *Event) {
	if e.inGo > 0 {
		return
	}
	if b := e.blocking(ev); b != "" && !(ev.Kind == EvSelect && ev.Kind2 == "nonblocking") {
		e.Violate(st, ev.Pos, "blocks", "%s %s", e.entName(), b)
	}
	if ev.Kind == EvOpaque && e.released(ev) != nil {
		e.Violate(st, ev.Pos, "blocks", "%s releases a manager", e.entName())
	}
	if ev.Kind == EvExit {
		e.Count("exits")
	}
}

func monC27load(m *Mon, e *Engine, st *State, ev *Event) {
	if e.inGo > 0 {
		return
	}
	if ev.Kind == EvExit {
		e.Count("exits of loads")
	}
	if ev.Kind == EvExt && strings.HasPrefix(ev.Name, "(*sync.") && len(ev.Args) > 0 && e.w.swapperOf(ev.Args[0]) != nil {
		switch ev.Name[strings.LastIndex(ev.Name, ".")+1:] {
		case "Lock":
			m.put("held", 1)
		case "Unlock":
			m.put("held", 0)
		}
		return
	}
	if !m.has("held") {
		return
	}
	switch b := e.blocking(ev); b {
	case "sleeps", "receives from a channel", "waits in a select", "waits for other goroutines", "sends to a channel":
		e.Violate(st, ev.Pos, "wait-under-lock", "%s %s while it holds off other loads", e.entName(), b)
	}
}
