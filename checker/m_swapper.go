package main

import (
	"go/types"
	"strings"
)

func init() {
	register(&Prop{
		ID:    "C01",
		Rule:  "on every path of LoadPlugins, Reload and ReloadWithCallback which ends in an error or a panic, no manager has been stored into the swapper, no release of another manager than the one under construction has been performed, and no goroutine releasing one has been started",
		Runs:  swapperRuns(mon(monC01), nil),
		Floor: map[string]int{"publish events": 3, "failing exits": 10},
	})
	register(&Prop{
		ID:    "C07",
		Rule:  "on every path of a load which succeeds after replacing a manager, exactly one goroutine is started which releases exactly the replaced manager, after a sleep that the path proves to be at least the configured delay and at least the built-in minimum; no path releases a manager other than the one under construction synchronously",
		Runs:  swapperRuns(mon(monC07), nil),
		Rules: []func(w *World, r *Report){ruleMinDelay},
		Floor: map[string]int{"scheduled releases": 2, "replacing exits": 2},
	})
	register(&Prop{
		ID:   "C08",
		Rule: "every path on which a plugin function or a reload callback panics ends, for the load functions, InvokeEach, InvokeEachBackward, the release of a manager and every goroutine started, in a normal return; while broadcasting and releasing an error is logged before the next plugin function runs; while loading the error result is non-nil",
		Runs: append(append(swapperRuns(mon(monC08), nil),
			methodRun("PluginManager", "InvokeEach", mon(monC08), nil),
			methodRun("PluginManager", "InvokeEachBackward", mon(monC08), nil)),
			releaseRun(mon(monC08))),
		Floor: map[string]int{"plugin function panics": 12, "callback panics": 1},
	})
	register(&Prop{
		ID:    "C10",
		Rule:  "no path of a load on which a plugin function, a reload callback, Plugin.Lookup or a call of a function outside the module fails ends with a nil error",
		Runs:  swapperRuns(mon(monC10), nil),
		Floor: map[string]int{"failing steps": 12},
	})
	register(&Prop{
		ID:    "C11",
		Rule:  "on every failing path after a plugin has been put into the plugin map of the new manager, the release function is called for that manager exactly once and nothing joins it afterwards; on succeeding paths it is not called for it",
		Runs:  swapperRuns(mon(monC11), nil),
		Floor: map[string]int{"failing exits with plugins": 3, "joins": 3},
	})
	register(&Prop{
		ID:    "C12",
		Rule:  "lock typestate: reading the plugin directory, creating a manager, invoking plugin functions and callbacks and publishing happen with one and the same mutex of the swapper held exclusively; every exit, by return or panic, leaves it unlocked; it is never locked twice or unlocked when it is not held",
		Runs:  swapperRuns(mon(monC12), nil),
		Floor: map[string]int{"protected events": 20, "exits": 10},
		Post:  postC12,
	})
	register(&Prop{
		ID:    "C22",
		Rule:  "on every path of Reload and ReloadWithCallback the counter returned by ReloadCounter() is atomically incremented by the constant one exactly once if the error is nil and not at all otherwise, never by LoadPlugins; every access to the field in the module is atomic and the field is 64-bit aligned on 32-bit platforms",
		Runs:  swapperRuns(mon(monC22), nil),
		Rules: []func(w *World, r *Report){ruleCounter},
		Floor: map[string]int{"increments": 1, "successful exits": 3, "accesses of the counter": 2},
	})
}

func releaseRun(m func() Monitor) Run {
	return Run{Name: "release", Entry: func(w *World) (*ssaFunction, error) { return w.release, nil }, Mon: m, Cfg: func(w *World, c *RunCfg) {
		c.Opaque = func(fn *ssaFunction) bool { return false }
	}}
}

// staticField is the field of the swapper which holds the static plugins.
func (w *World) staticField() string {
	s, ok := w.swapperT.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && namedPtr(m.Elem()) == w.staticPluginT {
			return s.Field(i).Name()
		}
	}
	return ""
}

// staticMode says whether the path is known to be one of static linking mode.
func (e *Engine) staticMode(st *State) (val, known bool) {
	f := e.w.staticField()
	if f == "" {
		return false, false
	}
	for a, v := range st.heap {
		if a.Op == "fld" && a.Aux == f && namedPtr(a.Args[0].Typ) == e.w.swapperT {
			if n, k := st.isNil(v); k {
				return !n, true
			}
		}
	}
	return false, false
}

// commonLoad tracks the manager under construction.
func (m *Mon) commonLoad(e *Engine, ev *Event) {
	if t := e.newManager(ev); t != nil {
		m.bind("M", t)
	}
}

// goReleases lists what the goroutine started by ev releases, per outcome.
func goReleases(ev *Event) (rels [][]*Term) {
	for _, o := range ev.Outs {
		b := bagOf(o.st)
		var r []*Term
		for _, k := range b.keys("gorel") {
			r = append(r, b.term(k))
		}
		rels = append(rels, r)
	}
	return
}

func monC01(m *Mon, e *Engine, st *State, ev *Event) {
	m.commonLoad(e, ev)
	if e.published(st, ev) != nil {
		e.Count("publish events")
		m.put("pub", 1)
	}
	if x := e.released(ev); x != nil {
		if e.inGo > 0 {
			m.bind("gorel", x)
		} else if x != m.term("M") {
			m.put("rel", 1)
		}
	}
	if ev.Kind == EvHook && ev.Hook == "fOnFree" && e.inGo == 0 {
		m.put("rel", 1)
	}
	if ev.Kind == EvGo && ev.Kind2 == "spawn" {
		for _, r := range goReleases(ev) {
			if len(r) > 0 {
				m.put("sched", 1)
			}
		}
	}
	if e.isFailExit(ev) {
		e.Count("failing exits")
		how := "returns an error"
		if ev.Kind2 == "panic" {
			how = "panics"
		}
		if m.has("pub") {
			e.Violate(st, ev.Pos, "published-on-failure", "%s %s after it has published a manager", ev.Fn.Name(), how)
		}
		if m.has("rel") {
			e.Violate(st, ev.Pos, "released-on-failure", "%s %s after it has released a manager in service", ev.Fn.Name(), how)
		}
		if m.has("sched") {
			e.Violate(st, ev.Pos, "scheduled-on-failure", "%s %s after it has scheduled the release of a manager in service", ev.Fn.Name(), how)
		}
	}
}

// ---- C07 ----

// atLeast proves d >= b on the path.
func (st *State) atLeast(d, b *Term) bool {
	lo, _ := st.rng(linOf(d).add(linOf(b), -1))
	return lo >= 0
}

func monC07(m *Mon, e *Engine, st *State, ev *Event) {
	m.commonLoad(e, ev)
	switch ev.Kind {
	case EvExtRet:
		if strings.HasPrefix(ev.Name, "(*sync/atomic.") && strings.HasSuffix(ev.Name, ".Load") && e.w.swapperOf(ev.Args[0]) != nil && !m.has("pub") && e.inGo == 0 {
			if t := ev.Res[0].Typ; t != nil && (types.IsInterface(t) || namedPtr(t) == e.w.managerT) && m.term("cur") == nil && e.w.holdsManager(ev.Args[0]) {
				m.bind("cur", ev.Res[0])
			}
		}
	case EvExt:
		if e.inGo > 0 && ev.Name == "time.Sleep" {
			m.checkDelay(e, st, ev, ev.Args[0])
		}
	case EvRecv:
		if e.inGo > 0 && ev.Addr != nil {
			if d := timerDelay(ev.Addr); d != nil {
				m.checkDelay(e, st, ev, d)
			}
		}
	case EvGo:
		if ev.Kind2 == "start" {
			m.put("slept", 0)
			m.drop("gorel")
			m.drop("early")
		}
		if ev.Kind2 == "spawn" {
			rels := goReleases(ev)
			n := 0
			for i, r := range rels {
				if len(r) > 0 {
					n++
					e.Count("scheduled releases")
					b := bagOf(ev.Outs[i].st)
					if b.has("early") {
						e.Violate(ev.Outs[i].st, ev.Pos, "delay", "a manager is released without waiting at least the built-in minimum and the configured delay")
					}
					if b.has("manyrel") {
						e.Violate(ev.Outs[i].st, ev.Pos, "release-twice", "the goroutine releases more than one manager")
					}
					for _, x := range r {
						cur := m.term("cur")
						if x == m.term("M") || cur == nil || !mentions(x, cur) {
							e.Violate(ev.Outs[i].st, ev.Pos, "wrong-manager", "the goroutine releases %s, which is not the replaced manager", x)
						}
					}
				}
			}
			if n > 0 {
				if n < len(rels) {
					e.Violate(st, ev.Pos, "not-released", "the goroutine does not release the replaced manager on all its paths")
				}
				m.inc("sched")
			}
		}
	}
	if e.published(st, ev) != nil {
		m.put("pub", 1)
	}
	if x := e.released(ev); x != nil {
		if e.inGo > 0 {
			if m.term("gorel") != nil {
				m.put("manyrel", 1)
			}
			m.bind("gorel", x)
			if !m.has("slept") {
				m.put("early", 1)
			}
		} else if x != m.term("M") {
			e.Violate(st, ev.Pos, "early-release", "%s is released synchronously", x)
		}
	}
	if ev.Kind == EvExit && ev.Kind2 == "return" && m.has("pub") && ev.Err != ErrNonNil {
		if s, k := e.staticMode(st); k && s {
			return
		}
		curNil := m.curNil(e, st)
		switch n := m.get("sched"); {
		case n > 1:
			e.Violate(st, ev.Pos, "release-twice", "%s schedules the release of the replaced manager more than once", ev.Fn.Name())
		case n == 0 && !curNil:
			e.Violate(st, ev.Pos, "not-scheduled", "%s replaces a manager without scheduling its release", ev.Fn.Name())
		}
		if !curNil {
			e.Count("replacing exits")
		}
	}
}

// curNil says whether the path knows that there was no manager before the load.
func (m *Mon) curNil(e *Engine, st *State) bool {
	cur := m.term("cur")
	if cur == nil {
		return false
	}
	for f, v := range st.facts {
		if f.Op == "eq" && v && (f.Args[0].Op == "nil" && mentions(f.Args[1], cur) || f.Args[1].Op == "nil" && mentions(f.Args[0], cur)) {
			return true
		}
		// the comma-ok form of the type assertion failed
		if !v && f.Op == "taok" && mentions(f, cur) {
			return true
		}
	}
	return false
}

func (m *Mon) checkDelay(e *Engine, st *State, ev *Event, d *Term) {
	okMin, okConf := false, false
	for _, t := range termList {
		if (t.Op == "gval" || t.Op == "gvalnn") && strings.HasSuffix(t.Aux, "minFreeDelay") && st.atLeast(d, t) {
			okMin = true
		}
	}
	if n := e.w.minDelay(); n < inf && st.atLeast(d, mkInt(n)) {
		okMin = true
	}
	for a, v := range st.heap {
		if a.Op == "global" && strings.HasSuffix(a.Aux, "minFreeDelay") && st.atLeast(d, v) {
			okMin = true
		}
		if a.Op == "fld" && e.w.swapperOf(a) != nil && isDuration(ptrElem(a.Typ)) && st.atLeast(d, v) {
			okConf = true
		}
	}
	if okMin && okConf {
		m.put("slept", 1)
	}
}

func isDuration(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Duration" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time"
}

// timerDelay recognises the channel of a timer.
func timerDelay(ch *Term) *Term {
	var d *Term
	visit(ch, func(t *Term) bool {
		if t.Op == "res" && len(t.Args) > 0 {
			if n, _ := t.Obj.(string); n == "time.After" || n == "time.NewTimer" {
				d = t.Args[0]
			}
		}
		return true
	})
	return d
}

// holdsManager says whether the swapper field at addr is the one managers are published in.
func (w *World) holdsManager(addr *Term) bool {
	return w.publishField() == addr.Aux
}

// ---- C08 ----

func isReloadCallback(w *World, t *Term) bool {
	if t == nil || t.Typ == nil {
		return false
	}
	s, ok := t.Typ.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 2 && namedPtr(s.Params().At(0).Type()) == w.managerT && namedPtr(s.Params().At(1).Type()) == w.managerT
}

func pluginPanic(w *World, p *Term) string {
	if p == nil || p.Op != "panic" {
		return ""
	}
	s, _ := p.Obj.(string)
	if strings.HasPrefix(s, "hook:") {
		return "the plugin function " + hookTitle(strings.TrimPrefix(s, "hook:"))
	}
	if s == "user" && len(p.Args) > 0 && isReloadCallback(w, p.Args[0]) {
		return "a reload callback"
	}
	return ""
}

func monC08(m *Mon, e *Engine, st *State, ev *Event) {
	loud := e.ent != "" && (strings.HasSuffix(e.ent, ".InvokeEach") || strings.HasSuffix(e.ent, ".InvokeEachBackward") || e.ent == e.w.release.String())
	switch ev.Kind {
	case EvHookPanic:
		e.Count("plugin function panics")
		if loud {
			m.put("pend", 1)
		} else if e.inGo == 0 {
			m.put("failed", 1)
		}
	case EvUserPanic:
		if isReloadCallback(e.w, ev.Callee) {
			e.Count("callback panics")
			m.put("failed", 1)
		}
	case EvExt:
		if isErrLog(ev.Name) {
			m.put("pend", 0)
		}
	case EvHook:
		if m.has("pend") {
			e.Violate(st, ev.Pos, "not-logged", "a panic of a plugin function is swallowed without being logged")
			m.put("pend", 0)
		}
	case EvGo:
		if ev.Kind2 == "spawn" {
			e.Count("goroutines")
			for _, o := range ev.Outs {
				if o.kind == okPanic {
					if w := pluginPanic(e.w, o.pan); w != "" {
						e.Violate(o.st, ev.Pos, "goroutine-panic", "a panic of %s terminates a background goroutine", w)
					}
				}
			}
		}
	case EvExit:
		if m.has("pend") {
			e.Violate(st, ev.Pos, "not-logged", "a panic of a plugin function is swallowed without being logged")
		}
		if ev.Kind2 == "panic" {
			if w := pluginPanic(e.w, ev.Panic); w != "" {
				e.Violate(st, ev.Pos, "panic-escapes", "a panic of %s propagates to the caller of %s", w, ev.Fn.Name())
			}
		}
		if ev.Kind2 == "return" && ev.Err == ErrNil && m.has("failed") {
			e.Violate(st, ev.Pos, "panic-ignored", "%s returns no error although a plugin function or a callback panicked", ev.Fn.Name())
		}
	}
}

// ---- C10 ----

func monC10(m *Mon, e *Engine, st *State, ev *Event) {
	f := e.failure(ev)
	if f == "" && e.inGo == 0 && ev.Kind == EvCallRet && ev.Err == ErrNonNil && ev.Fn.Name() == "Lookup" && namedPtr(recvType(ev.Fn)) == e.w.pluginT {
		f = "an error returned by Lookup"
	}
	if f != "" {
		e.Count("failing steps")
		m.put("fail", 1)
		if m.term("what") == nil {
			m.bind("what", mkStr(f+" ("+e.w.pos(ev.Pos)+")"))
		}
	}
	if e.isOkExit(ev) && m.has("fail") {
		s, _ := m.term("what").strVal()
		e.Violate(st, ev.Pos, "swallowed", "%s returns no error although %s", ev.Fn.Name(), s)
	}
}

// ---- C11 ----

// joins returns the plugin that ev puts into the plugin map of a manager.
func (e *Engine) joins(st *State, ev *Event) (mgr, p *Term) {
	if ev.Kind != EvMapUpdate {
		return nil, nil
	}
	t, ok := typOr(ev.Addr.Typ).Underlying().(*types.Map)
	if !ok || namedPtr(t.Elem()) != e.w.pluginT {
		return nil, nil
	}
	if mg := e.fieldHolding(st, ev.Addr, "pluginMap"); mg != nil {
		return mg, ev.Val
	}
	return nil, nil
}

func monC11(m *Mon, e *Engine, st *State, ev *Event) {
	m.commonLoad(e, ev)
	if mg, _ := e.joins(st, ev); mg != nil && mg == m.term("M") {
		e.Count("joins")
		m.put("joined", 1)
		if m.has("rel") {
			e.Violate(st, ev.Pos, "join-after-release", "a plugin joins a generation which has been released")
		}
	}
	if x := e.released(ev); x != nil && x == m.term("M") {
		if e.inGo == 0 {
			m.inc("rel")
		} else {
			m.put("gorel", 1)
		}
	}
	if ev.Kind == EvGo && ev.Kind2 == "spawn" {
		for _, o := range ev.Outs {
			if bagOf(o.st).has("gorel") {
				m.put("later", 1)
			}
		}
	}
	switch {
	case e.isFailExit(ev):
		if m.has("joined") {
			e.Count("failing exits with plugins")
			if m.get("rel") == 0 {
				e.Violate(st, ev.Pos, "not-released", "%s fails without releasing the plugins the new generation took hold of", ev.Fn.Name())
			}
		}
		if m.get("rel") > 1 || m.has("rel") && m.has("later") {
			e.Violate(st, ev.Pos, "released-twice", "%s releases the failed generation more than once", ev.Fn.Name())
		}
	case e.isOkExit(ev):
		if m.has("rel") || m.has("later") {
			e.Violate(st, ev.Pos, "released-on-success", "%s releases the generation it returns successfully with", ev.Fn.Name())
		}
	}
}

// ---- C12 ----

func monC12(m *Mon, e *Engine, st *State, ev *Event) {
	if e.inGo > 0 {
		return
	}
	prot := ""
	switch ev.Kind {
	case EvExt:
		if strings.HasPrefix(ev.Name, "(*sync.") && len(ev.Args) > 0 && e.w.swapperOf(ev.Args[0]) != nil {
			meth := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
			switch meth {
			case "Lock":
				e.Count("lock:" + ev.Args[0].Aux)
				if m.has("held") {
					e.Violate(st, ev.Pos, "double-lock", "%s locks a mutex which it already holds", e.entName())
				}
				m.put("held", 1)
			case "Unlock":
				if !m.has("held") {
					e.Violate(st, ev.Pos, "unlock", "%s unlocks a mutex which it does not hold", e.entName())
				}
				m.put("held", 0)
			}
		}
		if strings.Contains(ev.Name, "ReadDir") || strings.Contains(ev.Name, "Glob") || ev.Name == "plugin.Open" || strings.HasSuffix(ev.Name, "ReadFile") {
			prot = shortName(ev.Name)
		}
	case EvHook:
		prot = hookTitle(ev.Hook)
	case EvUser:
		prot = userName(ev.Callee)
	case EvOpaque:
		if e.released(ev) != nil {
			prot = "the release of the failed generation"
		}
	}
	if e.newManager(ev) != nil {
		prot = "the creation of a manager"
	}
	if e.published(st, ev) != nil {
		prot = "the publication of a manager"
	}
	if prot != "" {
		e.Count("protected events")
		if !m.has("held") {
			e.Violate(st, ev.Pos, "unserialised", "%s: %s is not serialised by the mutex of the swapper", e.entName(), prot)
		}
	}
	if ev.Kind == EvExit {
		e.Count("exits")
		if m.has("held") {
			e.Violate(st, ev.Pos, "wedged", "%s ends (%s) with the mutex locked", ev.Fn.Name(), ev.Kind2)
		}
	}
}

func postC12(total map[string]int) []*Violation {
	var l []string
	for k := range total {
		if strings.HasPrefix(k, "lock:") {
			l = append(l, k)
		}
	}
	if len(l) != 1 {
		return []*Violation{{Rule: "one-lock", Pos: "?", Msg: "the loads are not serialised by one and the same mutex: " + strings.Join(l, ", ")}}
	}
	return nil
}

func (e *Engine) entName() string { return e.ent[strings.LastIndex(e.ent, ".")+1:] }

// ---- C22 ----

func monC22(m *Mon, e *Engine, st *State, ev *Event) {
	f := e.w.counterField()
	if ev.Kind == EvExt && len(ev.Args) > 0 && f != "" && e.w.swapperField(ev.Args[0]) == f && isAtomicName(ev.Name) && !strings.Contains(ev.Name[strings.LastIndex(ev.Name, ".")+1:], "Load") {
		meth := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
		one := false
		switch {
		case meth == "Inc":
			one = true
		case strings.HasPrefix(meth, "Add") && len(ev.Args) == 2:
			n, ok := ev.Args[1].intVal()
			one = ok && n == 1
		}
		e.Count("increments")
		if !one {
			e.Violate(st, ev.Pos, "not-one", "the reload counter is changed by something else than an increment by one")
		}
		if e.inGo > 0 {
			e.Violate(st, ev.Pos, "in-goroutine", "the reload counter is changed by a goroutine")
		}
		m.inc("n")
	}
	if ev.Kind == EvExit {
		n := m.get("n")
		reload := ev.Fn.Name() != "LoadPlugins"
		switch {
		case e.isOkExit(ev):
			e.Count("successful exits")
			if reload && n != 1 {
				e.Violate(st, ev.Pos, "count", "%s succeeds and increments the reload counter %s", ev.Fn.Name(), [...]string{"not at all", "", "more than once"}[n])
			}
			if !reload && n != 0 {
				e.Violate(st, ev.Pos, "count", "%s changes the reload counter", ev.Fn.Name())
			}
		case n != 0:
			e.Violate(st, ev.Pos, "count", "%s fails but changes the reload counter", ev.Fn.Name())
		}
	}
}

func isAtomicName(n string) bool {
	return strings.HasPrefix(n, "(*sync/atomic.") || strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*go.uber.org/atomic.")
}
