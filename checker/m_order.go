package main

import (
	"go/types"
	"strings"
)

func init() {
	register(&Prop{
		ID:   "C05",
		Rule: "on every path: a plugin is appended to the list which becomes the ordered list of the manager only if it is known to have no dependencies or after a loop over all its dependencies which found each of them in a set that contains appended plugins only; it is appended at most once; when the list is stored it is known to be as long as the plugin map; it is not modified afterwards. OnLoad, OnInit and InvokeEach visit that list in ascending order, OnFree and InvokeEachBackward in descending order (OnFree may visit the map if the list is known to be empty), Plugins returns it",
		Runs: append(append(swapperRuns(mon(monC05), nil),
			methodRun("PluginManager", "InvokeEach", mon(monC05), nil),
			methodRun("PluginManager", "InvokeEachBackward", mon(monC05), nil),
			methodRun("PluginManager", "Plugins", mon(monC05), nil)),
			releaseRun(mon(monC05))),
		Floor: map[string]int{"placements": 2, "ordered lists stored": 2, "visits": 5, "returned lists": 1},
	})
}

func isPluginSet(w *World, t types.Type) bool {
	m, ok := typOr(t).Underlying().(*types.Map)
	return ok && namedPtr(m.Key()) == w.pluginT
}

// depLoop says whether the loop enumerates the dependencies of a plugin; it returns the plugin.
func (e *Engine) depLoop(st *State, act *LoopAct) *Term {
	s := act.Scan
	if s == nil || !s.Full && s.Kind == "map" {
		return nil
	}
	for _, c := range scanConts(s) {
		if x := fromObj(e.normList(st, c), "Deps"); x != nil {
			return x
		}
		var r *Term
		for a, v := range st.heap {
			if v == c && a.Op == "fld" && a.Aux == "Deps" && namedPtr(a.Args[0].Typ) == e.w.pluginT {
				if r == nil || a.Args[0].ID < r.ID {
					r = a.Args[0]
				}
			}
		}
		if r != nil {
			return r
		}
	}
	return nil
}

// scanConts lists the containers whose length bounds the scan.
func scanConts(s *Scan) []*Term {
	var r []*Term
	if s == nil {
		return nil
	}
	if s.Cont != nil {
		r = append(r, s.Cont)
	}
	for _, l := range []Lin{s.From, s.To} {
		for t := range l.c {
			if t.Op == "len" {
				r = append(r, t.Args[0])
			}
		}
	}
	return r
}

// depElem says whether name is the current dependency in a loop over all dependencies, in either direction.
func (e *Engine) depElem(st *State, name *Term, act *LoopAct, x *Term) bool {
	a := ldAddr(name)
	if a == nil || a.Op != "idx" || act.Scan == nil || act.Scan.IV == nil {
		return false
	}
	n := e.lenOf(st, a.Args[0], nil, nil)
	if n == nil {
		return false
	}
	o := st.indexCover(a.Args[1], linOf(n), act.Scan)
	return o == "asc" || o == "desc"
}

func monC05(m *Mon, e *Engine, st *State, ev *Event) {
	m.commonLoad(e, ev)
	M := m.term("M")
	switch ev.Kind {
	case EvMapUpdate:
		if isPluginSet(e.w, ev.Addr.Typ) && M != nil {
			if el := e.elemOf(st, ev.Key); el != nil && el.Mgr == M {
				m.put("mark:"+itoa(ev.Addr.ID)+":"+itoa(ev.Key.ID), 1)
				if ev.OldOk == tFalse {
					m.put("chk:"+itoa(ev.Addr.ID)+":"+itoa(ev.Key.ID), 1)
				}
			} else {
				m.put("badset:"+itoa(ev.Addr.ID), 1)
			}
		}
	case EvAppend:
		if M == nil {
			return
		}
		for _, x := range ev.Args[1:] {
			if namedPtr(x.Typ) != e.w.pluginT {
				continue
			}
			el := e.elemOf(st, x)
			if el == nil || el.Mgr != M {
				if len(st.loops) > 0 {
					m.put("app:bad:"+st.loops[len(st.loops)-1].key0(), 1)
				}
				continue
			}
			m.place(e, st, ev, x, el)
		}
	case EvIterEnd:
		a := ev.Act.key0()
		if x := e.depLoop(st, ev.Act); x != nil {
			// which set is known to contain the current dependency?
			found := false
			for f, v := range st.heap {
				if f.Op == "mapok" && v == tTrue && isPluginSet(e.w, f.Args[0].Typ) && e.isDepOf(st, f.Args[1], ev.Act, x) {
					m.bind("dset:"+a, f.Args[0])
					found = true
				}
			}
			for f, v := range st.facts {
				if !v {
					continue
				}
				if g := f; (g.Op == "mapok" || g.Op == "ld" && ldAddr(g) != nil && ldAddr(g).Op == "mapel" && isPluginSet(e.w, ldAddr(g).Args[0].Typ)) && !found {
					s, k := g, g
					if g.Op == "mapok" {
						s, k = g.Args[0], g.Args[1]
					} else {
						s, k = ldAddr(g).Args[0], ldAddr(g).Args[1]
					}
					if isPluginSet(e.w, s.Typ) && e.isDepOf(st, k, ev.Act, x) {
						m.bind("dset:"+a, s)
						found = true
					}
				}
			}
			if !found {
				m.put("dgap:"+a, 1)
			}
		}
		// marks and placements of this iteration belong together
		for _, k := range m.keys("mark:") {
			f := strings.Split(k, ":")
			if !m.has("appd:" + f[2]) {
				m.put("badset:"+f[1], 1)
			}
		}
		m.drop("mark:")
		m.drop("chk:")
		m.drop("appd:")
	case EvLoopExit:
		a := ev.Act.key0()
		if x := e.depLoop(st, ev.Act); x != nil {
			if !ev.Break && !m.has("dgap:"+a) {
				m.bind("depdone", x)
				m.bind("depset", m.term("dset:"+a))
			}
		}
		m.put("dgap:"+a, 0)
		m.bind("dset:"+a, nil)
	case EvStore:
		if M != nil && ev.Addr.Op == "fld" && ev.Addr.Aux == "ordered" && ev.Addr.Args[0] == M {
			m.ordered(e, st, ev)
		}
		if ev.Addr.Op == "idx" {
			if mg := e.fieldHolding(st, e.normAlias(st, ev.Addr.Args[0]), "ordered"); mg != nil {
				e.Violate(st, ev.Pos, "reordered", "the ordered list of a manager is modified in place")
			}
		}
	case EvExt:
		if strings.HasPrefix(ev.Name, "sort.") || strings.HasPrefix(ev.Name, "slices.Sort") || strings.HasPrefix(ev.Name, "slices.Reverse") || ev.Name == "copy" {
			if len(ev.Args) > 0 {
				if mg := e.fieldHolding(st, e.normAlias(st, ev.Args[0]), "ordered"); mg != nil {
					e.Violate(st, ev.Pos, "reordered", "the ordered list of a manager is modified in place")
				}
			}
		}
	case EvHook:
		want := ""
		switch ev.Hook {
		case "fOnLoad", "fOnInit":
			want = "asc"
		case "fOnFree":
			want = "desc"
		case "InvokeFunc":
			want = "asc"
			if strings.HasSuffix(e.ent, "InvokeEachBackward") {
				want = "desc"
			}
		default:
			return
		}
		if e.inGo > 0 {
			return
		}
		e.Count("visits")
		el := e.elemOf(st, ev.Owner)
		switch {
		case el == nil:
			e.Violate(st, ev.Pos, "stray", "%s is invoked for something that is not the current plugin of a loop over a manager", hookTitle(ev.Hook))
		case el.List == "ordered" && el.Order == want:
		case ev.Hook == "fOnFree" && e.emptyOrdered(st, el.Mgr):
			// the order had not been established
		default:
			how := map[string]string{"asc": "in dependency order", "desc": "in reverse dependency order", "any": "in no particular order"}[el.Order]
			e.Violate(st, ev.Pos, "order", "%s visits the plugins %s", hookTitle(ev.Hook), how)
		}
	case EvExit:
		if strings.HasSuffix(e.ent, ".Plugins") && ev.Kind2 == "return" {
			e.Count("returned lists")
			if len(ev.Results) != 1 || e.fieldHolding(st, e.normList(st, ev.Results[0]), "ordered") != e.entParams[0] {
				l := (*Elem)(nil)
				if len(ev.Results) == 1 {
					l = e.listElems(st, ev.Results[0], 0)
				}
				if l == nil || l.List != "ordered" || l.Order != "asc" || !l.Full || len(l.Part) > 0 || l.Mgr != e.entParams[0] {
					e.Violate(st, ev.Pos, "plugins", "Plugins does not return the ordered list of the manager")
				}
			}
		}
	}
}

// normAlias strips slice expressions, which alias their operand.
func (e *Engine) normAlias(st *State, c *Term) *Term {
	for c.Op == "slice" {
		c = c.Args[0]
	}
	return c
}

func (e *Engine) emptyOrdered(st *State, mg *Term) bool {
	v := e.fieldVal(st, mg, "ordered")
	return v != nil && e.emptyList(st, v)
}

// isDepOf: p is the plugin of M named by the current dependency of the loop.
func (e *Engine) isDepOf(st *State, p *Term, act *LoopAct, x *Term) bool {
	a := ldAddr(p)
	if a == nil || a.Op != "mapel" || e.fieldHolding(st, a.Args[0], "pluginMap") == nil {
		return false
	}
	k := a.Args[1]
	for k.Op == "call" && len(k.Args) == 1 {
		k = k.Args[0]
	}
	return e.depElem(st, k, act, x)
}

// place checks that x may be appended now.
func (m *Mon) place(e *Engine, st *State, ev *Event, x *Term, el *Elem) {
	a := el.Act.key0()
	e.Count("placements")
	in := st.loops[len(st.loops)-1].key0()
	ok := false
	if d := e.fieldVal(st, x, "Deps"); d != nil && e.emptyList(st, d) {
		ok = true
	} else if m.term("depdone") == x {
		ok = true
		if s := m.term("depset"); s != nil {
			m.bind("uset:"+in, s)
		}
	}

	if !ok || m.has("appd:"+itoa(x.ID)) {
		m.put("app:bad:"+in, 1)
	}
	// at most once
	once := false
	for f, v := range st.heap {
		if f.Op == "mapok" && v == tFalse && f.Args[1] == x && isPluginSet(e.w, f.Args[0].Typ) {
			once = true
		}
	}
	for f, v := range st.facts {
		if !v && f.Op == "mapok" && f.Args[1] == x && isPluginSet(e.w, f.Args[0].Typ) {
			once = true
		}
	}
	for s := range m.markedSets(x) {
		_ = s
		once = true // marked in this very iteration, after the check
	}
	if el.List == "map" && el.Order == "any" && el.Full && a == in && realLoops(st) == 1 && (m.term("first") == nil || m.term("first") == mkStr(in)) {
		once = true
	}
	if m.term("first") == nil {
		m.bind("first", mkStr(in))
	}
	if !once {
		m.put("app:dup:"+in, 1)
	}
	m.put("appd:"+itoa(x.ID), 1)
}

// realLoops counts the active loops, without those which are taken step by step.
func realLoops(st *State) int {
	n := 0
	for _, a := range st.loops {
		if !a.Steps {
			n++
		}
	}
	return n
}

func (m *Mon) markedSets(x *Term) map[string]bool {
	r := map[string]bool{}
	for _, k := range m.keys("mark:") {
		f := strings.Split(k, ":")
		if f[2] == itoa(x.ID) && m.has("chk:"+f[1]+":"+f[2]) {
			r[f[1]] = true
		}
	}
	return r
}

// ordered checks the list which is stored as the ordered list of the new manager.
func (m *Mon) ordered(e *Engine, st *State, ev *Event) {
	L := ev.Val
	if L.Op == "nil" {
		return
	}
	e.Count("ordered lists stored")
	if e.sorted(st, L) {
		e.Violate(st, ev.Pos, "reordered", "the list which becomes the ordered list is reordered after it was built")
	}
	c := e.normList(st, L)
	n, k := e.lenOf(st, c, nil, nil), e.fieldVal(st, m.term("M"), "pluginMap")
	full := false
	if n != nil && k != nil {
		if l := e.lenOf(st, k, nil, nil); l != nil {
			if lo, _ := st.rng(linOf(n).add(linOf(l), -1)); lo >= 0 {
				full = true
			}
		}
	}
	if !full {
		e.Violate(st, ev.Pos, "incomplete", "the ordered list is not known to contain every plugin of the manager")
	}
	for depth := 0; c != nil && depth < 8; depth++ {
		c = e.normList(st, c)
		if e.emptyList(st, c) {
			return
		}
		if c.Op == "app" {
			// appended in an unfinished iteration
			if n := len(st.loops); n > 0 && !st.loops[n-1].Steps {
				m.checkLoop(e, st, ev, st.loops[len(st.loops)-1].key0())
			}
			c = c.Args[0]
			continue
		}
		if c.Op != "acc" {
			e.Violate(st, ev.Pos, "unclear", "it is unclear how the ordered list was built: %s", c)
			return
		}
		ai := c.Obj.(*AccInfo)
		for x := ai; x != nil; x = x.Nested {
			m.checkLoop(e, st, ev, x.Loop)
		}
		c = ai.Init
	}
}

func (m *Mon) checkLoop(e *Engine, st *State, ev *Event, in string) {
	if m.has("app:bad:" + in) {
		e.Violate(st, ev.Pos, "dependency", "a plugin may be placed before the plugins it depends on")
	}
	if m.has("app:dup:" + in) {
		e.Violate(st, ev.Pos, "twice", "a plugin may be placed twice")
	}
	if s := m.term("uset:" + in); s != nil && m.has("badset:"+itoa(s.ID)) {
		e.Violate(st, ev.Pos, "dependency", "the set of the placed plugins contains plugins which have not been placed")
	}
}
