package main

import (
	"strconv"
	"strings"
)

func init() {
	register(&Prop{
		ID:    "C02",
		Rule:  "on every path: what is stored into the swapper is the manager created by this call, and only after loops covering every plugin of it have performed Import, OnLoad, HotswapLiveFuncs, HotswapLiveTypes and OnInit (reused plugins excepted), every configured reload callback has been called and no step has failed; no plugin function or callback runs between the publication and the end of the call; a successful call which has found a plugin publishes exactly once",
		Runs:  swapperRuns(mon(monC02), nil),
		Floor: map[string]int{"publish events": 3, "successful exits": 3, "phases complete": 3},
	})
	register(&Prop{
		ID:    "C03",
		Rule:  "on every path: a plugin joins the new manager only directly after exactly one Reloadable followed by exactly one Export, unless it is marked as reused; Import, OnLoad, OnInit are invoked from exactly one loop each, which covers every plugin that is not reused exactly once; OnLoad requires the Import loop to be complete, HotswapLiveFuncs and HotswapLiveTypes require the OnLoad loop, OnInit requires the loops of both; no Reloadable, Export or join follows the first Import",
		Runs:  swapperRuns(mon(monC03), nil),
		Floor: map[string]int{"joins": 3, "plugin function calls": 12, "phases complete": 3},
	})
	register(&Prop{
		ID:   "C09",
		Rule: "on every path of InvokeEach and InvokeEachBackward the loop around the call of InvokeFunc enumerates all plugins of the manager, calls it exactly once per iteration with the name and the parameters of the broadcast, and is never left early; an error or a panic is logged before the next call",
		Runs: []Run{
			methodRun("PluginManager", "InvokeEach", mon(monC09), nil),
			methodRun("PluginManager", "InvokeEachBackward", mon(monC09), nil),
		},
		Floor: map[string]int{"calls of InvokeFunc": 2, "exits": 2, "complete broadcasts": 2},
	})
}

var hookTopic = map[string]string{
	"fImport": "imp", "fOnLoad": "load", "hotswapLiveFuncs": "lf", "hotswapLiveTypes": "lt", "fOnInit": "init",
	"fOnFree": "free", "InvokeFunc": "inv",
}

var topicTitle = map[string]string{"imp": "Import", "load": "OnLoad", "lf": "HotswapLiveFuncs", "lt": "HotswapLiveTypes", "init": "OnInit", "free": "OnFree", "inv": "InvokeFunc"}

var lifeTopics = []string{"imp", "load", "lf", "lt", "init", "keep"}

// reused says whether the plugin is known to be carried over from the previous generation.
func (e *Engine) reused(st *State, p *Term) (val, known bool) {
	return e.boolField(st, p, "unchanged")
}

// boolField evaluates a boolean field; a field of a new object which was never written is false.
func (e *Engine) boolField(st *State, obj *Term, name string) (val, known bool) {
	if v := e.fieldVal(st, obj, name); v != nil {
		return st.eval(v)
	}
	return false, false
}

// fieldVal is the known content of a field.
func (e *Engine) fieldVal(st *State, obj *Term, name string) *Term {
	s, ok := structOf(ptrElem(typOr(obj.Typ)))
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return e.peek(st, fieldAddr(obj, s, i), s.Field(i).Type())
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if in, ok := structOf(s.Field(i).Type()); ok {
				for j := 0; j < in.NumFields(); j++ {
					if in.Field(j).Name() == name {
						return e.peek(st, fieldAddr(fieldAddr(obj, s, i), in, j), in.Field(j).Type())
					}
				}
			}
		}
	}
	return nil
}

// mgrEmpty says whether the new manager is known to contain no plugin.
func (m *Mon) mgrEmpty(e *Engine, st *State) bool {
	if m.has("empty") {
		return true
	}
	M := m.term("M")
	if M == nil || !m.has("ordset") {
		return false
	}
	v := e.fieldVal(st, M, "ordered")
	return v != nil && e.emptyList(st, v)
}

// zeroTrip returns the container of a loop which ended without an iteration.
func (e *Engine) zeroTripOf(ev *Event) []*Term {
	if ev.Kind != EvLoopExit || ev.Break || ev.Act.Iter != 0 || ev.Act.Scan == nil {
		return nil
	}
	s := ev.Act.Scan
	if s.Kind == "map" {
		return []*Term{s.Cont}
	}
	var r []*Term
	for _, l := range []Lin{s.From, s.To} {
		for t := range l.c {
			if t.Op == "len" {
				r = append(r, t.Args[0])
			}
		}
	}
	return r
}

// zeroTripOver says whether ev ends a loop which would have run once per element of the list c, but never ran.
func (e *Engine) zeroTripOver(st *State, ev *Event, c *Term) bool {
	if c == nil || ev.Kind != EvLoopExit || ev.Break || ev.Act.Iter != 0 || ev.Act.Scan == nil || ev.Act.Scan.Kind == "map" {
		return false
	}
	n := e.lenOf(st, c, nil, nil)
	if n == nil {
		return false
	}
	s := ev.Act.Scan
	for _, d := range []Lin{s.To.add(s.From, -1), s.From.add(s.To, -1)} {
		d.k++
		if d.add(linOf(n), -1).isConst() && d.add(linOf(n), -1).k == 0 {
			return true
		}
	}
	return false
}

// phases tracks which loops over the plugins of the new manager are complete. It returns the element the plugin
// function of ev belongs to.
func (m *Mon) phases(e *Engine, st *State, ev *Event) *Elem {
	m.commonLoad(e, ev)
	M := m.term("M")
	switch ev.Kind {
	case EvStore:
		if M != nil && ev.Addr.Op == "fld" && ev.Addr.Aux == "ordered" && ev.Addr.Args[0] == M {
			m.put("ordset", 1)
		}
	case EvMapUpdate:
		if mg, p := e.joins(st, ev); mg != nil && mg == M {
			m.put("joined", 1)
			m.put("empty", 0)
			if r, k := e.reused(st, p); k && r {
				m.put("reused", 1)
			} else {
				m.put("fresh", 1)
			}
		}
	case EvHook:
		if t := hookTopic[ev.Hook]; t != "" && e.inGo == 0 {
			el := m.touch(e, st, t, ev.Owner, m.wholeOf)
			if el != nil && el.Mgr == M && !m.has("fresh") && m.has("joined") {
				if r, k := e.reused(st, ev.Owner); k && !r {
					st.dead = true // no such plugin has joined on this path
				}
			}
			return el
		}
	case EvAppend:
		// a list of those plugins of the new manager which are not reused
		if M != nil && len(ev.Args) > 1 {
			for _, x := range ev.Args[1:] {
				if el := e.elemOf(st, x); el != nil && el.Mgr == M {
					m.touch(e, st, "keep", x, m.wholeOf)
				}
			}
		}
	case EvIterEnd:
		if m.has("joined") {
			m.iterEnd(e, st, ev, lifeTopics, func(t string, p *Term) bool {
				if t == "lf" || t == "lt" {
					return false
				}
				v, k := e.reused(st, p)
				if k && v && !m.has("reused") {
					if el := e.elemOf(st, p); el != nil && el.Mgr == M {
						st.dead = true
					}
				}
				return k && v
			}, m.wholeOf)
		}
	case EvLoopExit:
		for t, v := range m.loopExit(ev, lifeTopics) {
			switch {
			case t == "keep":
				if v <= covFull {
					m.put("filt:"+ev.Act.key0(), 1)
				}
			case v == covFull:
				e.Count("phases complete")
				m.put("done:"+t, 1)
			case v == covVacuous:
				if m.has("fresh") {
					st.dead = true // it found all plugins to be reused
				}
			case v == covDup:
				m.put("bad:dup:"+t, 1)
			}
		}
		for _, c := range e.zeroTripOf(ev) {
			if M == nil {
				break
			}
			if mg := e.fieldHolding(st, c, "pluginMap"); mg == M {
				if m.has("joined") {
					st.dead = true
				}
				m.put("empty", 1)
			} else if le := e.listElems(st, c, 0); le != nil && le.Mgr == M && le.List == "ordered" && m.has("ordset") && m.has("joined") {
				st.dead = true
			}
		}
	}
	return nil
}

// wholeOf says whether the loop of el visits all plugins of the new manager, except for reused ones.
func (m *Mon) wholeOf(el *Elem) bool {
	return el.Mgr == m.term("M") && el.Full && m.partsOk(el)
}

// partsOk says whether the lists on the way leave out nothing but reused plugins.
func (m *Mon) partsOk(el *Elem) bool {
	for _, k := range el.Part {
		if !m.has("filt:" + k) {
			return false
		}
	}
	return true
}

func (m *Mon) done(e *Engine, st *State, topics ...string) string {
	if m.mgrEmpty(e, st) {
		return ""
	}
	var miss []string
	for _, t := range topics {
		if !m.has("done:"+t) && (m.has("fresh") || t == "lf" || t == "lt") {
			miss = append(miss, topicTitle[t])
		}
	}
	return strings.Join(miss, ", ")
}

// ---- C02 ----

func monC02(m *Mon, e *Engine, st *State, ev *Event) {
	m.phases(e, st, ev)
	if e.inGo > 0 {
		if e.published(st, ev) != nil {
			e.Violate(st, ev.Pos, "published-later", "a goroutine publishes a manager")
		}
		return
	}
	if f := e.failure(ev); f != "" {
		m.put("fail", 1)
	}
	switch ev.Kind {
	case EvHook:
		if m.has("pub") {
			e.Violate(st, ev.Pos, "initialised-later", "%s is invoked after the manager has been published", hookTitle(ev.Hook))
		}
	case EvUser:
		if isReloadCallback(e.w, ev.Callee) {
			e.Count("callbacks")
			if m.has("pub") {
				e.Violate(st, ev.Pos, "callback-later", "a reload callback is called after the manager has been published")
			}
			if len(ev.Args) > 0 && ev.Args[0] != m.term("M") {
				e.Violate(st, ev.Pos, "callback-manager", "a reload callback is called with %s, which is not the new manager", ev.Args[0])
			}
			if miss := m.done(e, st, "imp", "load", "lf", "lt", "init"); miss != "" {
				e.Violate(st, ev.Pos, "callback-early", "a reload callback is called before the following were done for all plugins: %s", miss)
			}
			m.calls(e, st, ev)
		}
	case EvIterEnd:
		m.callEnd(e, st, ev)
	case EvLoopExit:
		m.callExit(e, st, ev)
		if e.whitelisted(st) {
			m.put("listed", 1)
		}
	case EvAppend:
		if len(ev.Args) > 1 {
			for _, x := range ev.Args[1:] {
				if isStringType(typOr(x.Typ)) && mentionsAny(x, fromDir) {
					m.put("found", 1)
					if e.onWhitelist(st) {
						m.put("wanted", 1)
					}
				}
			}
		}
	}
	if x := e.published(st, ev); x != nil {
		e.Count("publish events")
		m.inc("pub")
		if x != m.term("M") {
			e.Violate(st, ev.Pos, "wrong-manager", "%s is published, which is not the manager built by this call", x)
		}
		if m.has("fail") {
			e.Violate(st, ev.Pos, "after-failure", "a manager is published although a step of the load has failed")
		}
		if miss := m.done(e, st, "imp", "load", "lf", "lt", "init"); miss != "" {
			e.Violate(st, ev.Pos, "incomplete", "a manager is published before the following were done for all its plugins: %s", miss)
		}
		m.checkCallbacks(e, st, ev)
	}
	if e.isOkExit(ev) {
		e.Count("successful exits")
		static, known := e.staticMode(st)
		found := m.has("wanted") || m.has("found") && !m.has("listed")
		if (found || known && static) && m.get("pub") != 1 {
			how := "without publishing a manager"
			if m.get("pub") > 1 {
				how = "after publishing more than one manager"
			}
			e.Violate(st, ev.Pos, "not-published", "%s succeeds %s", ev.Fn.Name(), how)
		}
	}
}

// whitelisted: the path knows that a list of names in the swapper is not empty.
func (e *Engine) whitelisted(st *State) bool {
	for f, v := range st.facts {
		if (f.Op == "eq0" && !v || f.Op == "pos" && v) && mentionsAny(f, func(t *Term) bool {
			if t.Op != "len" {
				return false
			}
			a := ldAddr(t.Args[0])
			return a != nil && a.Op == "fld" && e.w.swapperOf(a) != nil && !strings.Contains(fieldPath(a), e.w.pluginDirField())
		}) {
			return true
		}
	}
	return false
}

// onWhitelist: the path knows that something read from the directory is an element of a list in the swapper.
func (e *Engine) onWhitelist(st *State) bool {
	wl := func(t *Term) bool { a := ldAddr(t); return a != nil && a.Op == "fld" && e.w.swapperOf(a) != nil }
	for f, v := range st.facts {
		if f.Op == "eq" && v && len(f.Args) == 2 {
			for i := 0; i < 2; i++ {
				if mentionsAny(f.Args[i], fromDir) && mentionsAny(f.Args[1-i], wl) {
					return true
				}
			}
		}
	}
	return false
}

// fromDir: a term produced by reading a directory.
func fromDir(t *Term) bool {
	if t.Op != "res" && t.Op != "call" {
		return false
	}
	for _, n := range []string{"ReadDir", "Readdir", "Glob", "walkpath", "walkentry"} {
		if strings.Contains(t.Aux, n) {
			return true
		}
	}
	return false
}

// listItems lists what a short list is known to contain.
func (e *Engine) listItems(st *State, c *Term) []*Term {
	switch c.Op {
	case "nil":
		return nil
	case "app":
		r := e.listItems(st, c.Args[0])
		for _, a := range c.Args[1:] {
			if a.Op == "spread" {
				r = append(r, e.listItems(st, a.Args[0])...)
			} else {
				r = append(r, a)
			}
		}
		return r
	case "slice":
		return e.listItems(st, c.Args[0])
	case "acc":
		return nil
	}
	if v := st.heap[mk("copyof", "", nil, c)]; v != nil {
		return e.listItems(st, v)
	}
	var r []*Term
	for a, v := range st.heap {
		if a.Op == "idx" && a.Args[0] == c && a.Args[1].isConst() {
			r = append(r, v)
		}
	}
	return r
}

// calls records which callback is called: a value itself or the element of a list that a loop enumerates.
func (m *Mon) calls(e *Engine, st *State, ev *Event) {
	c := ev.Callee
	if a := ldAddr(c); a != nil && a.Op == "idx" {
		if iv, _ := ivIn(linOf(a.Args[1])); iv != nil {
			if act := actOf(st, iv); act != nil {
				n := e.lenOf(st, a.Args[0], nil, nil)
				if n != nil {
					switch st.indexCover(a.Args[1], linOf(n), act.Scan) {
					case "asc", "desc":
						k := act.key0()
						m.put("cbit:"+k, 1)
						m.bind("cblist:"+k, a.Args[0])
					}
				}
				return
			}
		}
	}
	m.called(c)
}

func (m *Mon) called(c *Term) {
	m.bind("cb:"+itoa(c.ID), c)
}

func (m *Mon) callEnd(e *Engine, st *State, ev *Event) {
	k := ev.Act.key0()
	if m.has("cbit:" + k) {
		m.put("cbit:"+k, 0)
		return
	}
	// an iteration which calls nothing is fine if the element is nil
	for f, v := range st.facts {
		if v && f.Op == "eq" {
			x := f.Args[0]
			if x.Op == "nil" {
				x = f.Args[1]
			}
			if a := ldAddr(x); a != nil && a.Op == "idx" && isReloadCallback(e.w, x) {
				return
			}
		}
	}
	m.put("cbgap:"+k, 1)
}

func (m *Mon) callExit(e *Engine, st *State, ev *Event) {
	k := ev.Act.key0()
	if l := m.term("cblist:" + k); l != nil && !ev.Break && !m.has("cbgap:"+k) {
		for _, x := range e.listItems(st, l) {
			m.called(x)
		}
		m.bind("cblist:"+k, nil)
	}
	m.put("cbgap:"+k, 0)
}

// checkCallbacks: every configured callback was called.
func (m *Mon) checkCallbacks(e *Engine, st *State, ev *Event) {
	called := map[*Term]bool{}
	for _, k := range m.keys("cb:") {
		called[m.term(k)] = true
	}
	ok := func(v *Term) bool {
		if called[v] {
			return true
		}
		n, known := st.isNil(v)
		return known && n
	}
	// a loop over several callbacks in which all were nil leaves no trace but the fact
	found := false
	for a, v := range st.heap {
		if a.Op == "fld" && e.w.swapperOf(a) != nil && isReloadCallback(e.w, v) {
			found = true
			if !ok(v) && !m.nilElem(e, st, v) {
				e.Violate(st, ev.Pos, "callback-missing", "a manager is published without the configured reload callback having been called")
			}
		}
	}
	if !found && !mentionsAnyCalled(called, func(t *Term) bool { return t.Op == "fld" && e.w.swapperOf(t) != nil }) {
		e.Violate(st, ev.Pos, "callback-missing", "a manager is published without the configured reload callback having been considered")
	}
	for _, p := range m.cbParams(e) {
		if !ok(p) && !m.nilElem(e, st, p) {
			e.Violate(st, ev.Pos, "callback-missing", "a manager is published without the reload callback given by the caller having been called")
		}
	}
}

// nilElem is a hook for lists whose elements were all nil.
func (m *Mon) nilElem(e *Engine, st *State, v *Term) bool { return false }

func mentionsAnyCalled(c map[*Term]bool, pred func(*Term) bool) bool {
	for t := range c {
		if mentionsAny(t, pred) {
			return true
		}
	}
	return false
}

// cbParams are the callback parameters of the entry function.
func (m *Mon) cbParams(e *Engine) []*Term {
	var r []*Term
	for _, p := range e.entParams {
		if p.Op == "param" && isReloadCallback(e.w, p) {
			r = append(r, p)
		}
	}
	return r
}

// ---- C03 ----

func monC03(m *Mon, e *Engine, st *State, ev *Event) {
	el := m.phases(e, st, ev)
	M := m.term("M")
	if e.inGo > 0 {
		if ev.Kind == EvHook && ev.Hook != "fOnFree" {
			e.Violate(st, ev.Pos, "in-goroutine", "%s is invoked by a goroutine", hookTitle(ev.Hook))
		}
		return
	}
	switch ev.Kind {
	case EvHook:
		e.Count("plugin function calls")
		switch ev.Hook {
		case "fReloadable":
			if m.has("ph") {
				e.Violate(st, ev.Pos, "order", "Reloadable is invoked after an Import")
			}
			if m.term("relp") == ev.Owner {
				e.Violate(st, ev.Pos, "twice", "Reloadable of a plugin is invoked twice")
			}
			m.bind("relp", ev.Owner)
		case "fExport":
			if m.has("ph") {
				e.Violate(st, ev.Pos, "order", "Export is invoked after an Import")
			}
			if m.term("relp") != ev.Owner {
				e.Violate(st, ev.Pos, "order", "Export of a plugin is invoked without its Reloadable having been invoked before")
			}
			if m.term("expp") == ev.Owner {
				e.Violate(st, ev.Pos, "twice", "Export of a plugin is invoked twice")
			}
			m.bind("expp", ev.Owner)
		case "fImport", "fOnLoad", "fOnInit", "hotswapLiveFuncs", "hotswapLiveTypes":
			t := hookTopic[ev.Hook]
			m.put("ph", 1)
			if el == nil || el.Mgr != M {
				e.Violate(st, ev.Pos, "stray", "%s is invoked for something that is not the current plugin of a loop over the new manager", hookTitle(ev.Hook))
				return
			}
			if t[0] != 'l' || t == "load" {
				if m.has("done:" + t) {
					e.Violate(st, ev.Pos, "twice", "%s is invoked by two loops over the plugins", hookTitle(ev.Hook))
				}
				if m.get("it:"+t+":"+el.Act.key0()) == itMany {
					e.Violate(st, ev.Pos, "twice", "%s of a plugin is invoked twice", hookTitle(ev.Hook))
				}
			}
			miss := ""
			switch t {
			case "load":
				miss = m.done(e, st, "imp")
			case "lf", "lt":
				miss = m.done(e, st, "load")
			case "init":
				miss = m.done(e, st, "imp", "load", "lf", "lt")
			}
			if miss != "" {
				e.Violate(st, ev.Pos, "order", "%s is invoked before the following were invoked for all plugins: %s", hookTitle(ev.Hook), miss)
			}
		}
	case EvMapUpdate:
		mg, p := e.joins(st, ev)
		if mg == nil || mg != M {
			return
		}
		e.Count("joins")
		if m.has("ph") {
			e.Violate(st, ev.Pos, "order", "a plugin joins the new manager after an Import")
		}
		r, known := e.reused(st, p)
		switch {
		case known && r:
			if m.term("relp") == p || m.term("expp") == p {
				e.Violate(st, ev.Pos, "fresh-marked", "a plugin which has just been loaded is marked as reused, so it will not be initialised")
			}
		case m.term("relp") != p || m.term("expp") != p:
			e.Violate(st, ev.Pos, "not-exported", "a plugin joins the new manager without its Reloadable and Export having been invoked")
		case !known:
			e.Violate(st, ev.Pos, "unclear", "it is unclear whether a plugin which joins the new manager is marked as reused")
		}
		m.bind("relp", nil)
		m.bind("expp", nil)
	}
	if e.isOkExit(ev) {
		for _, k := range m.keys("bad:") {
			if t := k[strings.LastIndex(k, ":")+1:]; t != "lf" && t != "lt" {
				e.Violate(st, ev.Pos, "twice", "%s of a plugin may be invoked twice", topicTitle[t])
			}
		}
		if m.term("M") != nil && m.has("joined") {
			if miss := m.done(e, st, "imp", "load", "lf", "lt", "init"); miss != "" {
				e.Violate(st, ev.Pos, "missing", "%s succeeds although the following were not invoked for all new plugins: %s", ev.Fn.Name(), miss)
			}
		}
	}
}

// ---- C09 ----

func monC09(m *Mon, e *Engine, st *State, ev *Event) {
	switch ev.Kind {
	case EvHook:
		if ev.Hook != "InvokeFunc" {
			return
		}
		e.Count("calls of InvokeFunc")
		if m.has("pend") {
			e.Violate(st, ev.Pos, "not-logged", "the failure of a plugin is not logged")
			m.put("pend", 0)
		}
		if e.inGo > 0 {
			e.Violate(st, ev.Pos, "in-goroutine", "InvokeFunc is invoked by a goroutine, which the broadcast does not wait for")
		}
		all := func(el *Elem) bool { return el.Full && len(el.Part) == 0 && el.Mgr == e.entParams[0] }
		el := m.touch(e, st, "inv", ev.Owner, all)
		if el == nil || !all(el) {
			e.Violate(st, ev.Pos, "not-all", "%s: the loop around the call of InvokeFunc does not enumerate all plugins of the manager", e.entName())
		}
		if len(ev.Args) < 2 || len(e.entParams) < 3 || ev.Args[0] != e.entParams[1] || !sameList(ev.Args[1:], e.entParams[2]) {
			e.Violate(st, ev.Pos, "arguments", "%s does not pass on the name and the parameters it was given", e.entName())
		}
	case EvHookRet:
		if ev.Hook == "InvokeFunc" && ev.Err == ErrNonNil {
			m.put("pend", 1)
		}
	case EvHookPanic:
		m.put("pend", 1)
	case EvExt:
		if isErrLog(ev.Name) {
			m.put("pend", 0)
		}
	case EvIterEnd:
		if m.has("it:inv:" + ev.Act.key0()) {
			m.put("in:"+ev.Act.key0(), 1)
			if m.has("pend") {
				e.Violate(st, ev.Pos, "not-logged", "the failure of a plugin is not logged")
				m.put("pend", 0)
			}
		}
		m.iterEnd(e, st, ev, []string{"inv"}, nil, nil)
	case EvLoopExit:
		if ev.Break && (m.has("in:"+ev.Act.key0()) || m.has("it:inv:"+ev.Act.key0())) {
			e.Violate(st, ev.Pos, "left-early", "%s leaves the loop over the plugins before its end", e.entName())
		}
		in := m.has("in:" + ev.Act.key0())
		m.put("in:"+ev.Act.key0(), 0)
		switch v := m.loopExit(ev, []string{"inv"})["inv"]; {
		case !in:
		case v == covFull:
			e.Count("complete broadcasts")
			m.inc("done")
		case v == covDup:
			m.put("bad:dup", 1)
		case v != 0:
			m.put("bad:gap", 1)
		}
		for _, c := range e.zeroTripOf(ev) {
			if le := e.listElems(st, c, 0); le != nil && le.Full && len(le.Part) == 0 && le.List != "key" && len(e.entParams) > 0 && le.Mgr == e.entParams[0] {
				m.put("none", 1)
			} else if mg := e.fieldHolding(st, c, "pluginMap"); mg != nil && mg == e.entParams[0] {
				m.put("none", 1)
			}
		}
	case EvExit:
		e.Count("exits")
		if m.has("pend") {
			e.Violate(st, ev.Pos, "not-logged", "the failure of a plugin is not logged")
		}
		for _, k := range m.keys("bad:") {
			if strings.HasPrefix(k, "bad:dup") {
				e.Violate(st, ev.Pos, "twice", "%s may invoke InvokeFunc of a plugin twice", e.entName())
			} else {
				e.Violate(st, ev.Pos, "skipped", "%s may leave out a plugin", e.entName())
			}
		}
		if ev.Kind2 == "return" && m.get("done") != 1 && !m.has("none") && len(m.keys("bad:")) == 0 {
			what := "without having invoked InvokeFunc of every plugin"
			if m.get("done") > 1 {
				what = "after having broadcast more than once"
			}
			e.Violate(st, ev.Pos, "not-all", "%s returns %s", e.entName(), what)
		}
	}
}

// sameList: the arguments are the list, passed on as a whole.
func sameList(args []*Term, list *Term) bool {
	if len(args) != 1 {
		return false
	}
	a := args[0]
	return a == list || a.Op == "spread" && a.Args[0] == list
}

func itoa(n int) string { return strconv.Itoa(n) }
