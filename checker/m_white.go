package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:   "C20",
		Rule: "on every path of a load: the list of the files which are read was built by a loop over all entries of the plugin directory that leaves out an entry only if it is known to be a directory, not to have the extension of a plugin, or (the whitelist not being empty) to have a name which a comparison with every element of the whitelist did not find, and that adds one only if the whitelist is known to be empty or an element of it is known to equal the name; before the first plugin is opened or joins, the whitelist is known to be empty or a loop over all of it has found each element among the names of the files added; in static mode the plugins which join come from the static plugins themselves, the whitelist being empty, or from a map to which a loop over all of the whitelist has added the static plugin found under each element, and every plugin of that map joins",
		Runs: swapperRuns(mon(monC20), func(w *World, c *RunCfg) {
			if o := w.orderFn(); o != nil {
				op := c.Opaque
				c.Opaque = func(fn *ssaFunction) bool { return fn == o || op(fn) }
			}
		}),
		Floor: map[string]int{"lists of files": 2, "whitelist comparisons": 2, "completeness checks": 2, "static selections": 2, "static joins": 2},
	})
}

// isWhitelist says whether c is the whitelist of the swapper.
func (e *Engine) isWhitelist(st *State, c *Term) bool {
	if c == nil || !isStringList(c.Typ) {
		return false
	}
	for i := 0; i < 4 && c.Op == "conv"; i++ {
		c = c.Args[0]
	}
	is := func(a *Term) bool { return a != nil && a.Op == "fld" && e.w.swapperField(a) != "" }
	if is(ldAddr(c)) {
		return true
	}
	for a, v := range st.heap {
		if v == c && is(a) {
			return true
		}
	}
	return false
}

func (e *Engine) isDirList(c *Term) bool {
	n := resName(c)
	return strings.HasSuffix(n, ".ReadDir") || strings.HasSuffix(n, ".Readdir")
}

// baseName strips one case conversion.
func sameName(a, b *Term) bool {
	if a == b {
		return true
	}
	x, y := caseConv(a), caseConv(b)
	return x != "" && x == y
}

// wlElem says whether t is (a case conversion of) an element of the whitelist; it returns the address.
func (e *Engine) wlElem(st *State, t *Term) *Term {
	if caseConv(t) != "" && t.Op == "call" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	if a := ldAddr(t); a != nil && a.Op == "idx" && e.isWhitelist(st, e.normList(st, a.Args[0])) {
		return a
	}
	return nil
}

// compared finds what an element of the whitelist has been compared with; it calls f for each result.
func (e *Engine) compared(st *State, f func(addr, N *Term, equal bool)) {
	for t, v := range st.facts {
		if len(t.Args) != 2 || t.Op != "eq" && !(t.Op == "call" && t.Aux == "strings.EqualFold") {
			continue
		}
		for i := range t.Args {
			x, y := t.Args[i], t.Args[1-i]
			if a := e.wlElem(st, x); a != nil && e.wlElem(st, y) == nil && !y.isConst() && (caseConv(x) == caseConv(y) || t.Op == "call" || true) {
				if (caseConv(x) == "") != (caseConv(y) == "") && caseConv(x) != "" {
					continue
				}
				f(a, y, v)
			}
		}
	}
}

// memberships calls f for everything the path knows to be in a set, or not.
func memberships(st *State, f func(set, key *Term, in bool)) {
	for a, v := range st.heap {
		if a.Op == "mapok" && (v == tTrue || v == tFalse) {
			f(a.Args[0], a.Args[1], v == tTrue)
		}
	}
	for t, v := range st.facts {
		if t.Op == "mapok" {
			f(t.Args[0], t.Args[1], v)
		} else if a := ldAddr(t); a != nil && a.Op == "mapel" && isBool(t.Typ) {
			f(a.Args[0], a.Args[1], v)
		}
	}
}

func isBool(t types.Type) bool {
	b, ok := typOr(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// inSet evaluates lookups and searches in (sets made of) the whitelist.
func (m *Mon) inSet(e *Engine, st *State, f func(N *Term, in bool)) {
	memberships(st, func(set, key *Term, in bool) {
		if id := itoa(set.ID); m.has("wset:"+id) && !m.has("badset:"+id) {
			e.Count("whitelist comparisons")
			f(key, in)
		}
	})
	for t, v := range st.facts {
		if (t.Op == "call" || t.Op == "res") && strings.HasPrefix(t.Aux, "slices.Contains") && len(t.Args) == 2 && e.isWhitelist(st, e.normList(st, t.Args[0])) {
			e.Count("whitelist comparisons")
			f(t.Args[1], v)
		}
	}
}

// scanOfList says whether the act enumerates the whole list c.
func (e *Engine) scanFull(st *State, act *LoopAct, c *Term) (elem *Term) {
	if act.Scan == nil || act.Scan.IV == nil {
		return nil
	}
	visitState(st, func(t *Term) {
		a := ldAddr(t)
		if elem != nil || a == nil || a.Op != "idx" || e.normList(st, a.Args[0]) != c || !mentions(a.Args[1], act.Scan.IV) {
			return
		}
		n := e.lenOf(st, a.Args[0], nil, nil)
		if n == nil {
			return
		}
		if o := st.indexCover(a.Args[1], linOf(n), act.Scan); o == "asc" || o == "desc" {
			elem = t
		}
	})
	return
}

// stageOf says whether act enumerates the entries of the directory or a list made of them.
func (m *Mon) stageOf(e *Engine, st *State, act *LoopAct) (c, elem *Term) {
	for _, c := range scanConts(act.Scan) {
		c = e.normList(st, c)
		if e.isDirList(c) || m.stageList(e, st, c) {
			return c, e.scanFull(st, act, c)
		}
	}
	return nil, nil
}

func (m *Mon) stageList(e *Engine, st *State, c *Term) bool {
	for c != nil && c.Op == "app" {
		c = c.Args[0]
	}
	return c != nil && c.Op == "acc" && m.has("stage:"+c.Obj.(*AccInfo).Loop)
}

// joinLoop says whether the iterations of a loop may add a plugin to a map of plugins.
func (w *World) joinLoop(l *Loop) bool {
	if w.joinLoops == nil {
		w.joinLoops = map[*Loop]bool{}
	}
	if v, ok := w.joinLoops[l]; ok {
		return v
	}
	adds := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok {
				if t, ok := u.Map.Type().Underlying().(*types.Map); ok && namedPtr(t.Elem()) == w.pluginT {
					return true
				}
			}
		}
		return false
	}
	r := false
	for b := range l.blocks {
		if adds(b) {
			r = true
		}
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && w.inModule(f) {
					for g := range w.staticReach(f) {
						for _, b := range g.Blocks {
							r = r || adds(b)
						}
					}
				}
			}
		}
	}
	w.joinLoops[l] = r
	return r
}

// wlEmpty evaluates the emptiness of the whitelist.
func (m *Mon) wlState(e *Engine, st *State) {
	if m.has("wle") || m.has("wln") {
		return
	}
	see := func(c *Term) {
		if n := e.lenOf(st, c, nil, nil); n != nil {
			lo, hi := st.rng(linOf(n))
			if hi <= 0 {
				m.put("wle", 1)
			} else if lo >= 1 {
				m.put("wln", 1)
			}
		}
	}
	for a, v := range st.heap {
		if a.Op == "fld" && isStringList(typOr(v.Typ)) && e.isWhitelist(st, v) {
			see(v)
		}
	}
}

// mapFrom: the list consists of all keys of a map.
func (e *Engine) mapFrom(st *State, c *Term) *Term {
	c = e.normList(st, c)
	if c.Op != "acc" {
		return nil
	}
	ai := c.Obj.(*AccInfo)
	if ai.Act == nil || ai.Act.Scan == nil || len(ai.Pats) != 1 || !ai.Full || !e.emptyList(st, ai.Init) || ai.Nested != nil {
		return nil
	}
	if s := ai.Act.Scan; s.Kind == "map" && s.Full && s.IV == ai.Pats[0] {
		return s.Cont
	}
	return nil
}

func monC20(m *Mon, e *Engine, st *State, ev *Event) {
	m.commonLoad(e, ev)
	if e.inGo > 0 {
		return
	}
	if ev.Kind == EvExtRet && strings.HasPrefix(ev.Name, "(*sync.") && len(ev.Args) > 0 && !m.has("pre") {
		if sw := e.w.swapperOf(ev.Args[0]); sw != nil {
			m.put("pre", 1)
			e.preload(st, sw, ev.Instr, ev.Ctx)
		}
	}
	switch ev.Kind {
	case EvLoopEnter, EvLoopExit, EvIterEnd, EvExt, EvAppend, EvMapUpdate:
		m.wlState(e, st)
	}
	M := m.term("M")
	switch ev.Kind {
	case EvAppend:
		for _, x := range ev.Args[1:] {
			if !isStringType(typOr(x.Typ)) {
				continue
			}
			for _, act := range st.loops {
				if _, el := m.stageOf(e, st, act); el != nil && mentions(x, el) {
					m.put("wapp:"+act.key0(), 1)
				}
			}
		}
	case EvMapUpdate:
		if mg, p := e.joins(st, ev); mg != nil && mg == M {
			if e.fromStatic(st, p) {
				m.staticJoin(e, st, ev, p)
			} else {
				m.loading(e, st, ev)
			}
			return
		}
		D := ev.Addr
		t, ok := typOr(D.Typ).Underlying().(*types.Map)
		if !ok || !isStringType(t.Key()) {
			return
		}
		id := itoa(D.ID)
		if namedPtr(t.Elem()) == e.w.staticPluginT {
			m.selects(e, st, ev, D)
			return
		}
		truth := ev.Val == tTrue || !isBool(t.Elem())
		ws := false
		if a := e.wlElem(st, ev.Key); a != nil && truth {
			if _, act, full := e.contOf(st, ev.Key); act != nil && full {
				m.put("ws:"+id+":"+act.key0(), 1)
				ws = true
			}
		}
		if !ws {
			m.put("badset:"+id, 1)
		}
		for _, act := range st.loops {
			if _, el := m.stageOf(e, st, act); el != nil && mentions(ev.Key, el) {
				m.put("fd:"+id+":"+act.key0(), 1)
				m.bind("fdm:"+id, D)
				m.bind("fdk:"+id, ev.Key)
				if !truth {
					m.put("badfd:"+id, 1)
				}
			}
		}
	case EvIterEnd:
		m.whiteIter(e, st, ev)
	case EvLoopExit:
		m.whiteExit(e, st, ev)
	case EvExt:
		if isReadFileName(ev.Name) && M != nil {
			if c, _, full := e.contOf(st, ev.Args[0]); c != nil && full {
				m.checkList(e, st, ev, c)
			} else {
				e.Violate(st, ev.Pos, "list", "a file is read which is not an element of a list that is enumerated as a whole")
			}
		}
		if ev.Name == "plugin.Open" {
			m.loading(e, st, ev)
		}
	case EvHook:
		if ev.Hook == "fOnLoad" || ev.Hook == "fOnInit" {
			m.staticAll(e, st, ev)
			st.dead = true
		}
	case EvUser:
		if isReloadCallback(e.w, ev.Callee) {
			m.staticAll(e, st, ev)
			st.dead = true
		}
	}
	if e.published(st, ev) != nil {
		m.staticAll(e, st, ev)
		if !m.has("sjoined") {
			m.loading(e, st, ev)
		}
		st.dead = true
	}
}

// selects: a map of static plugins is filled.
func (m *Mon) selects(e *Engine, st *State, ev *Event, D *Term) {
	id := itoa(D.ID)
	if D.Op != "new" {
		e.Violate(st, ev.Pos, "static-changed", "the static plugins of the swapper are changed by a load")
		return
	}
	a := ldAddr(ev.Val)
	if a == nil || a.Op != "mapel" || !e.isStaticField(a.Args[0]) {
		m.put("badsel:"+id, 1)
		return
	}
	if !st.isTrue(mk("mapok", "", types.Typ[types.Bool], a.Args[0], a.Args[1])) && st.heap[mk("mapok", "", nil, a.Args[0], a.Args[1])] != tTrue {
		if n, k := st.isNil(ev.Val); !k || n {
			m.put("badsel:"+id, 1)
		}
	}
	// either per element of the whitelist or per static plugin
	if e.wlElem(st, a.Args[1]) != nil {
		if _, act, full := e.contOf(st, a.Args[1]); act != nil && full {
			m.put("sel:"+id+":"+act.key0(), 1)
			m.bind("selm:"+id, D)
			return
		}
	}
	if a.Args[1].Op == "rkey" {
		for _, act := range st.loops {
			if act.Scan != nil && act.Scan.IV == a.Args[1] && act.Scan.Full {
				ok := false
				m.members(e, st, func(N *Term, in bool) {
					if in && (N == a.Args[1] || fromObj(N, "Name") == ev.Val) {
						ok = true
					}
				})
				if ok {
					m.put("sel:"+id+":"+act.key0(), 1)
					m.bind("selm:"+id, D)
					return
				}
			}
		}
	}
	m.put("badsel:"+id, 1)
}

func (e *Engine) isStaticField(c *Term) bool {
	a := ldAddr(c)
	return e.isStaticMap(c) && a != nil && a.Op == "fld" && e.w.swapperField(a) != ""
}

// members calls f for everything known to be an element of the whitelist, or not.
func (m *Mon) members(e *Engine, st *State, f func(N *Term, in bool)) {
	if x := m.term("mem"); x != nil {
		f(x, true)
	}
	if x := m.term("nonmem"); x != nil {
		f(x, false)
	}
	m.inSet(e, st, f)
}

func (m *Mon) whiteIter(e *Engine, st *State, ev *Event) {
	act := ev.Act
	k := act.key0()
	// a loop over the whitelist
	for _, c := range scanConts(act.Scan) {
		if act.Scan.IV == nil || !e.isWhitelist(st, e.normList(st, c)) {
			continue
		}
		got := false
		e.compared(st, func(a, N *Term, eq bool) {
			if !mentions(a, act.Scan.IV) || mentions(N, act.Scan.IV) {
				return
			}
			n := e.lenOf(st, a.Args[0], nil, nil)
			if n == nil {
				return
			}
			if o := st.indexCover(a.Args[1], linOf(n), act.Scan); o != "asc" && o != "desc" {
				return
			}
			if x := m.term("mN:" + k); x != nil && x != N {
				return
			}
			m.bind("mN:"+k, N)
			got = true
			if eq {
				m.put("mhit:"+k, 1)
			}
		})
		if !got {
			m.put("mgap:"+k, 1)
		}
		// the completeness check
		known := 0
		memberships(st, func(set, key *Term, in bool) {
			if id := itoa(set.ID); m.term("fdm:"+id) == set && !m.has("badfd:"+id) {
				if a := e.wlElem(st, key); a != nil && mentions(a, act.Scan.IV) && known != 2 {
					known = 1
					if !in {
						known = 2
					}
				}
			}
		})
		switch known {
		case 0:
			m.put("cgap:"+k, 1)
		case 2:
			m.put("missing", 1)
		}
		for _, x := range m.keys("ws:") {
			if p := strings.SplitN(x, ":", 3); p[2] == k {
				m.put("wsn:"+p[1]+":"+k, 1)
				m.put(x, 0)
			} else {
				continue
			}
		}
		for _, x := range m.keys("selm:") {
			id := strings.TrimPrefix(x, "selm:")
			if m.has("sel:" + id + ":" + k) {
				m.put("sel:"+id+":"+k, 0)
				m.put("seln:"+id+":"+k, 1)
			} else {
				m.put("selgap:"+id+":"+k, 1)
			}
		}
	}
	// a loop over the files
	if c, el := m.stageOf(e, st, act); c != nil {
		app := m.has("wapp:" + k)
		m.put("stage:"+k, 1)
		if !app && !(el != nil && m.leftOut(e, st, c, el)) {
			m.put("lost:"+k, 1)
		}
		if app {
			in := m.has("wle")
			m.members(e, st, func(N *Term, v bool) {
				if v && mentions(N, el) {
					in = true
				}
			})
			if !in {
				m.put("unf:"+k, 1)
			}
		}
		for _, x := range m.keys("fd:") {
			if p := strings.SplitN(x, ":", 3); p[2] == k {
				// a name which the whitelist does not contain does no harm
				ok := m.has("wle")
				m.members(e, st, func(N *Term, in bool) {
					if in == app && N == m.term("fdk:"+p[1]) {
						ok = true
					}
				})
				if !ok {
					m.put("badfd:"+p[1], 1)
				}
				m.bind("fdk:"+p[1], nil)
				m.put(x, 0)
			}
		}
		m.put("wapp:"+k, 0)
	}
	// a loop over the static plugins which selects some
	if s := act.Scan; s != nil && s.Kind == "map" && e.isStaticField(s.Cont) {
		for _, x := range m.keys("selm:") {
			id := strings.TrimPrefix(x, "selm:")
			if m.has("sel:" + id + ":" + k) {
				m.put("sel:"+id+":"+k, 0)
				m.put("seln:"+id+":"+k, 1)
				continue
			}
			out := false
			m.members(e, st, func(N *Term, in bool) {
				if !in && mentions(N, s.IV) {
					out = true
				}
			})
			if !out {
				m.put("selgap:"+id+":"+k, 1)
			}
		}
	}
	if act.Scan != nil && act.Scan.IV != nil {
		for _, x := range []string{"mem", "nonmem"} {
			if t := m.term(x); t != nil && mentions(t, act.Scan.IV) {
				m.bind(x, nil)
			}
		}
	}
	if act.L != nil && e.w.joinLoop(act.L) {
		if !m.has("sj:" + k) {
			m.put("sgap:"+k, 1)
		}
		m.put("sj:"+k, 0)
	}
}

// leftOut: there is a good reason not to consider the file.
func (m *Mon) leftOut(e *Engine, st *State, c, el *Term) bool {
	ok := false
	if e.isDirList(c) {
		for f, v := range st.facts {
			if !mentions(f, el) {
				continue
			}
			switch {
			case f.Op == "call" && strings.HasSuffix(f.Aux, ".IsDir") && len(f.Args) == 1 && f.Args[0] == el:
				ok = ok || v
			case f.Op == "call" && f.Aux == "strings.HasSuffix" && f.Args[0].Op == "call" && strings.HasSuffix(f.Args[0].Aux, ".Name"):
				if s, k := f.Args[1].strVal(); k && s != "" {
					ok = ok || !v
				}
			case f.Op == "eq" && len(f.Args) == 2:
				for _, a := range f.Args {
					if a.Op == "call" && strings.HasSuffix(a.Aux, "filepath.Ext") {
						ok = ok || !v
					}
				}
			}
		}
	}
	if m.has("wln") {
		m.members(e, st, func(N *Term, in bool) {
			if !in && mentions(N, el) {
				ok = true
			}
		})
	}
	return ok
}

func (m *Mon) whiteExit(e *Engine, st *State, ev *Event) {
	act := ev.Act
	k := act.key0()
	for _, c := range scanConts(act.Scan) {
		if !e.isWhitelist(st, e.normList(st, c)) {
			continue
		}
		if ev.Break {
			e.compared(st, func(a, N *Term, eq bool) {
				if eq && act.Scan.IV != nil && mentions(a, act.Scan.IV) && !mentions(N, act.Scan.IV) {
					e.Count("whitelist comparisons")
					m.bind("mem", N)
				}
			})
		} else {
			if m.has("mhit:" + k) {
				m.bind("mem", m.term("mN:"+k))
			} else if !m.has("mgap:"+k) && m.term("mN:"+k) != nil {
				e.Count("whitelist comparisons")
				m.bind("nonmem", m.term("mN:"+k))
			}
			if act.Iter > 0 && !m.has("cgap:"+k) {
				e.Count("completeness checks")
				m.put("complete", 1)
			}
			for _, x := range m.keys("wsn:") {
				if p := strings.SplitN(x, ":", 3); p[2] == k {
					m.put("wset:"+p[1], 1)
				}
			}
		}
		m.selDone(e, ev, k)
		m.bind("mN:"+k, nil)
		for _, x := range []string{"mhit:", "mgap:", "cgap:"} {
			m.put(x+k, 0)
		}
		m.dropAct("wsn:", k)
		m.dropAct("ws:", k)
	}
	if s := act.Scan; s != nil && s.Kind == "map" && e.isStaticField(s.Cont) {
		m.selDone(e, ev, k)
	}
	if c, _ := m.stageOf(e, st, act); c != nil {
		m.put("stage:"+k, 1)
		if ev.Break {
			m.put("lost:"+k, 1)
		}
	}
	if C := e.loopMap(st, act); C != nil && !ev.Break && act.Iter == 0 && (C.Op == "new" || m.has("wle")) {
		// there is nothing to load
		m.put("sjoined", 1)
		m.staticSel(e, st, ev, C)
	}
	if act.L != nil && e.w.joinLoop(act.L) {
		if m.has("sjl:" + k) {
			if ev.Break || m.has("sgap:"+k) {
				m.put("slost", 1)
			}
		}
		m.put("sgap:"+k, 0)
		m.put("sj:"+k, 0)
		m.put("sjl:"+k, 0)
	}
}

func (m *Mon) selDone(e *Engine, ev *Event, k string) {
	for _, x := range m.keys("selm:") {
		id := strings.TrimPrefix(x, "selm:")
		if m.has("seln:" + id + ":" + k) {
			if !ev.Break && !m.has("selgap:"+id+":"+k) {
				e.Count("static selections")
				m.put("wsel:"+id, 1)
				if ev.Act.Scan.Kind == "map" {
					m.put("wselmap:"+id, 1)
				}
			}
		}
	}
	m.dropAct("selgap:", k)
	m.dropAct("seln:", k)
}

func (m *Mon) dropAct(prefix, k string) {
	for _, x := range m.keys(prefix) {
		if strings.HasSuffix(x, ":"+k) {
			m.put(x, 0)
		}
	}
}

// checkList: the list of the files is what it should be.
func (m *Mon) checkList(e *Engine, st *State, ev *Event, c *Term) {
	e.Count("lists of files")
	filtered := m.has("wle")
	c = e.normList(st, c)
	if e.sorted(st, c) {
		// the order does not matter
	}
	for i := 0; i < 8; i++ {
		c = e.normList(st, c)
		if e.isDirList(c) {
			break
		}
		for c.Op == "app" {
			c = e.normList(st, c.Args[0])
		}
		if e.emptyList(st, c) {
			break
		}
		if c.Op != "acc" {
			e.Violate(st, ev.Pos, "list", "it is unclear how the list of the files was built: %s", c)
			return
		}
		ai := c.Obj.(*AccInfo)
		if !m.has("stage:" + ai.Loop) {
			e.Violate(st, ev.Pos, "list", "the list of the files was not built from the entries of the plugin directory")
			return
		}
		if m.has("lost:" + ai.Loop) {
			e.Violate(st, ev.Pos, "left-out", "a plugin file may be left out although the whitelist does not exclude it")
		}
		if !m.has("unf:" + ai.Loop) {
			filtered = true
		}
		if ai.Act == nil {
			break
		}
		var nx *Term
		for _, x := range scanConts(ai.Act.Scan) {
			if x = e.normList(st, x); m.stageList(e, st, x) {
				nx = x
			}
		}
		if nx == nil {
			break
		}
		c = nx
	}
	if !filtered {
		e.Violate(st, ev.Pos, "not-named", "a file is considered although it is not known to be named by the whitelist")
	}
}

// loading: a plugin is about to be loaded or carried over.
func (m *Mon) loading(e *Engine, st *State, ev *Event) {
	if m.has("wle") {
		return
	}
	if m.has("missing") {
		e.Violate(st, ev.Pos, "missing", "a plugin is loaded although one which the whitelist names was not found")
	} else if !m.has("complete") {
		e.Violate(st, ev.Pos, "missing", "a plugin is loaded before all plugins which the whitelist names are known to be found")
	}
}

func (m *Mon) staticJoin(e *Engine, st *State, ev *Event, p *Term) {
	e.Count("static joins")
	m.put("sjoined", 1)
	n := fromObj(e.fieldVal(st, p, "Name"), "Name")
	var C *Term
	var a *Term
	if n != nil {
		if a = ldAddr(n); a != nil && a.Op == "mapel" && e.isStaticMap(a.Args[0]) {
			C = a.Args[0]
		}
	}
	if C == nil {
		e.Violate(st, ev.Pos, "static-source", "it is unclear where the static plugin comes from")
		return
	}
	m.staticSel(e, st, ev, C)
	// one per element of the map
	key := a.Args[1]
	full := false
	var act *LoopAct
	if key.Op == "rkey" {
		if act = actOf(st, key); act != nil {
			full = act.Scan.Full && act.Scan.Cont == C
		}
	} else if b := ldAddr(key); b != nil && b.Op == "idx" && e.mapFrom(st, b.Args[0]) == C {
		_, act, full = e.contOf(st, key)
	}
	if act == nil {
		e.Violate(st, ev.Pos, "static-source", "the static plugins are not loaded by a loop over all of them")
		return
	}
	if full {
		m.put("sj:"+act.key0(), 1)
	}
	m.put("sjl:"+act.key0(), 1)
}

func (m *Mon) staticAll(e *Engine, st *State, ev *Event) {
	if m.has("slost") {
		e.Violate(st, ev.Pos, "static-left-out", "a static plugin may be left out although the whitelist does not exclude it")
	}
}

// preload makes the lists of names which the swapper holds known before any loop is entered.
func (e *Engine) preload(st *State, sw *Term, in ssa.Instruction, ctx *Ctx) {
	var walk func(base *Term, t types.Type, depth int)
	walk = func(base *Term, t types.Type, depth int) {
		s, ok := structOf(t)
		if !ok || depth > 4 {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			fv := s.Field(i)
			a := fieldAddr(base, s, i)
			if isStringList(fv.Type()) {
				e.load(st, a, fv.Type(), in, ctx)
			} else if _, ok := fv.Type().(*types.Named); !ok {
				walk(a, fv.Type(), depth+1)
			}
		}
	}
	walk(sw, e.w.swapperT, 0)
}

// staticSel: the static plugins of the map C are those which the whitelist names.
func (m *Mon) staticSel(e *Engine, st *State, ev *Event, C *Term) {
	id := itoa(C.ID)
	switch {
	case e.isStaticField(C):
		if !m.has("wle") {
			e.Violate(st, ev.Pos, "not-named", "a static plugin is loaded although it is not known to be named by the whitelist")
		}
	case C.Op == "new" && m.has("wsel:"+id) && !m.has("badsel:"+id):
		if m.has("wselmap:" + id) {
			m.loading(e, st, ev)
		}
	default:
		e.Violate(st, ev.Pos, "static-selection", "the static plugins which are loaded were not selected by the whitelist")
	}
}

// loopMap returns the map of static plugins whose elements a loop enumerates.
func (e *Engine) loopMap(st *State, act *LoopAct) *Term {
	for _, c := range scanConts(act.Scan) {
		c = e.normList(st, c)
		if act.Scan.Kind != "map" {
			if c = e.mapFrom(st, c); c == nil {
				continue
			}
		}
		if t, ok := typOr(c.Typ).Underlying().(*types.Map); ok && namedPtr(t.Elem()) == e.w.staticPluginT {
			return c
		}
	}
	return nil
}
