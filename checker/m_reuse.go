package main

import (
	"go/types"
	"strings"
)

func init() {
	register(&Prop{
		ID:    "C04",
		Rule:  "on every path: a plugin that is marked as reused is a copy of the plugin of the same key of the replaced manager, put there for a key for which the path knows that the old plugin is not reloadable or that the digests of the contents are equal; a file is opened as a plugin only after loops over all files which drop every file whose old plugin is not reloadable or has the same digest; Import, OnLoad and OnInit are invoked only for plugins known not to be reused; a new plugin records the digest and the reloadability on which later reloads decide",
		Runs:  swapperRuns(mon(monC04), nil),
		Floor: map[string]int{"opened files": 2, "reused plugins joining": 2, "plugin function calls": 8},
	})
	register(&Prop{
		ID:    "C06",
		Rule:  "reference typestate on every path: a new plugin joins a manager with a counter which was created with the value one on this path and a sync.Once of its own; a reused plugin joins with the counter and the sync.Once of the plugin it was copied from, after exactly one increment of that counter; no other operation changes a counter; the release function decrements the counter of every plugin exactly once and invokes OnFree only if the result is known to be at most zero, inside the sync.Once of that plugin, and always then",
		Runs:  append(swapperRuns(mon(monC06load), nil), releaseRun(mon(monC06rel))),
		Floor: map[string]int{"new plugins joining": 3, "reused plugins joining": 2, "decrements": 1, "calls of OnFree": 1},
	})
}

// isInfo says whether t is a pointer to the description of a plugin file.
func (w *World) isInfo(t types.Type) bool {
	p := ptrElem(typOr(t))
	if p == nil {
		return false
	}
	n := namedOf(p)
	return n != nil && n != w.pluginT && n.Obj().Pkg() == w.root.Pkg && len(w.shaFields(n)) == 1
}

// shaFields lists the fields of type [20]byte.
func (w *World) shaFields(n *types.Named) []string {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []string
	for i := 0; i < s.NumFields(); i++ {
		if a, ok := s.Field(i).Type().Underlying().(*types.Array); ok && types.Identical(a.Elem(), types.Typ[types.Byte]) {
			r = append(r, s.Field(i).Name())
		}
	}
	return r
}

// fromObj returns the object from whose field v was read.
func fromObj(v *Term, field string) *Term {
	if v == nil {
		return nil
	}
	if v.Op == "fv" && v.Aux == field {
		return ldAddr(v.Args[0])
	}
	if a := ldAddr(v); a != nil && a.Op == "fld" && a.Aux == field {
		return a.Args[0]
	}
	return nil
}

// visitState calls f for the terms known to the path.
func visitState(st *State, f func(*Term)) {
	seen := map[*Term]bool{}
	g := func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		f(t)
		return true
	}
	for t := range st.facts {
		visit(t, g)
	}
	for a, v := range st.heap {
		visit(a, g)
		visit(v, g)
	}
}

// swapState tracks the managers a load deals with: M (the one under construction) and cur (the published value).
func (m *Mon) swapState(e *Engine, st *State, ev *Event) {
	m.commonLoad(e, ev)
	if ev.Kind == EvExtRet && strings.HasPrefix(ev.Name, "(*sync/atomic.") && strings.HasSuffix(ev.Name, ".Load") && len(ev.Res) == 1 && e.w.swapperOf(ev.Args[0]) != nil && e.inGo == 0 {
		if t := ev.Res[0].Typ; t != nil && (types.IsInterface(t) || namedPtr(t) == e.w.managerT) && m.term("cur") == nil && e.w.holdsManager(ev.Args[0]) {
			m.bind("cur", ev.Res[0])
		}
	}
}

// isOld says whether the term is the manager which is being replaced.
func (m *Mon) isOld(x *Term) bool {
	return x != nil && x != m.term("M") && m.term("cur") != nil && mentions(x, m.term("cur"))
}

// oldPlugin says whether p was read from the plugin map of the replaced manager, and under which key.
func (m *Mon) oldPlugin(e *Engine, st *State, p *Term) (key *Term) {
	a := ldAddr(p)
	if a == nil || a.Op != "mapel" {
		return nil
	}
	if mg := e.fieldHolding(st, a.Args[0], "pluginMap"); m.isOld(mg) {
		return a.Args[1]
	}
	return nil
}

// oldsFor lists the terms for the old plugin of a key.
func (m *Mon) oldsFor(e *Engine, st *State, key *Term) []*Term {
	var r []*Term
	visitState(st, func(t *Term) {
		if t.Op == "ld" && namedPtr(t.Typ) == e.w.pluginT && m.oldPlugin(e, st, t) == key {
			r = append(r, t)
		}
	})
	return r
}

// absent: the path knows that the replaced manager has no plugin of that key.
func (m *Mon) absent(e *Engine, st *State, key *Term) bool {
	for f, v := range st.heap {
		if f.Op == "mapok" && f.Args[1] == key && v == tFalse && m.isOld(e.fieldHolding(st, f.Args[0], "pluginMap")) {
			return true
		}
	}
	for f, v := range st.facts {
		if f.Op == "mapok" && f.Args[1] == key && !v && m.isOld(e.fieldHolding(st, f.Args[0], "pluginMap")) {
			return true
		}
	}
	for _, p := range m.oldsFor(e, st, key) {
		if n, k := st.isNil(p); k && n {
			return true
		}
	}
	return false
}

// sameDigest evaluates the comparison of the digest of the plugin with that of a file.
func (e *Engine) sameDigest(st *State, p *Term) (val, known bool) {
	for f, v := range st.facts {
		if f.Op != "eq" && !(f.Op == "call" && strings.HasPrefix(f.Aux, "bytes.Equal")) || len(f.Args) != 2 {
			continue
		}
		a, b := f.Args[0], f.Args[1]
		if e.digestOf(a) == p {
			a, b = b, a
		}
		if e.digestOf(b) == p {
			if o := e.digestOf(a); o != nil && o != p && e.w.isInfo(o.Typ) {
				return v, true
			}
		}
	}
	return false, false
}

// digestOf returns the object whose digest field t is (or a slice of it).
func (e *Engine) digestOf(t *Term) *Term {
	if t.Op == "slice" && t.Args[1].Op == "nil" && t.Args[2].Op == "nil" {
		if a := t.Args[0]; a.Op == "fld" {
			return a.Args[0]
		}
		t = t.Args[0]
	}
	if t.Op == "fv" && len(t.Args) == 1 {
		if a := ldAddr(t.Args[0]); a != nil {
			return a
		}
	}
	if a := ldAddr(t); a != nil && a.Op == "fld" {
		return a.Args[0]
	}
	return nil
}

func (m *Mon) oldNil(e *Engine, st *State) bool { return m.term("cur") == nil || m.curNil(e, st) }

// reusable says what the path knows about the two conditions of reuse for the old plugin of a key.
func (m *Mon) notN1(e *Engine, st *State, key *Term) bool {
	if m.oldNil(e, st) || m.absent(e, st, key) {
		return true
	}
	for _, p := range m.oldsFor(e, st, key) {
		if v, k := e.boolField(st, p, "reloadable"); k && v {
			return true
		}
	}
	return false
}

func (m *Mon) notN2(e *Engine, st *State, key *Term) bool {
	if m.oldNil(e, st) || m.absent(e, st, key) {
		return true
	}
	for _, p := range m.oldsFor(e, st, key) {
		if v, k := e.sameDigest(st, p); k && !v {
			return true
		}
	}
	return false
}

// mustReuse: the path knows a reason to reuse the plugin.
func (m *Mon) mayReuse(e *Engine, st *State, p *Term) bool {
	if v, k := e.boolField(st, p, "reloadable"); k && !v {
		return true
	}
	v, k := e.sameDigest(st, p)
	return k && v
}

// infoKey returns the map of file descriptions which the loop enumerates and the key of the current one.
func (e *Engine) infoKey(st *State, act *LoopAct) (cont *Term, key *Term) {
	s := act.Scan
	if s == nil || s.IV == nil {
		return nil, nil
	}
	isInfoMap := func(c *Term) bool {
		t, ok := typOr(c.Typ).Underlying().(*types.Map)
		return ok && e.w.isInfo(t.Elem())
	}
	if s.Kind == "map" {
		if isInfoMap(s.Cont) {
			return s.Cont, s.IV
		}
		return nil, nil
	}
	// a list of all keys
	var c, k *Term
	visitState(st, func(t *Term) {
		a := ldAddr(t)
		if c != nil || a == nil || a.Op != "idx" || !isStringType(typOr(t.Typ)) {
			return
		}
		l := e.normList(st, a.Args[0])
		if l.Op != "acc" {
			return
		}
		ai := l.Obj.(*AccInfo)
		if ai.Act == nil || ai.Act.Scan == nil || !ai.Full || len(ai.Pats) != 1 || ai.Pats[0] != ai.Act.Scan.IV || !e.emptyList(st, ai.Init) || ai.Act.Scan.Kind != "map" || !isInfoMap(ai.Act.Scan.Cont) {
			return
		}
		n := e.lenOf(st, a.Args[0], nil, nil)
		if n == nil {
			return
		}
		if o := st.indexCover(a.Args[1], linOf(n), s); o == "asc" || o == "desc" {
			c, k = ai.Act.Scan.Cont, t
		}
	})
	return c, k
}

// infosIn lists the file descriptions a value is computed from.
func (e *Engine) infosIn(t *Term) []*Term {
	var r []*Term
	visit(t, func(x *Term) bool {
		if e.w.isInfo(x.Typ) && (x.Op == "ld" || x.Op == "new") {
			r = append(r, x)
			return false
		}
		return true
	})
	return r
}

func monC04(m *Mon, e *Engine, st *State, ev *Event) {
	m.swapState(e, st, ev)
	M := m.term("M")
	if e.inGo > 0 {
		return
	}
	switch ev.Kind {
	case EvIterEnd:
		a := ev.Act.key0()
		c, k := e.infoKey(st, ev.Act)
		if c == nil || c != m.term("C") {
			return
		}
		if v := st.heap[mk("mapok", "", nil, c, k)]; v == tFalse {
			return // dropped
		}
		if !m.notN1(e, st, k) {
			m.put("gap1:"+a, 1)
		}
		if !m.notN2(e, st, k) {
			m.put("gap2:"+a, 1)
		}
	case EvLoopExit:
		a := ev.Act.key0()
		if c, _ := e.infoKey(st, ev.Act); c != nil && c == m.term("C") && !ev.Break && ev.Act.Scan.Full {
			if !m.has("gap1:" + a) {
				m.put("ok1:"+itoa(c.ID), 1)
			}
			if !m.has("gap2:" + a) {
				m.put("ok2:"+itoa(c.ID), 1)
			}
		}
		m.put("gap1:"+a, 0)
		m.put("gap2:"+a, 0)
	case EvMapUpdate:
		t, ok := typOr(ev.Addr.Typ).Underlying().(*types.Map)
		if !ok {
			return
		}
		if mg, p := e.joins(st, ev); mg != nil && mg == M {
			m.c04join(e, st, ev, p)
			return
		}
		if e.w.isInfo(t.Elem()) {
			if a := ldAddr(ev.Val); a == nil || a.Op != "mapel" {
				m.bind("C", ev.Addr)
				m.put("ok1:"+itoa(ev.Addr.ID), 0)
				m.put("ok2:"+itoa(ev.Addr.ID), 0)
				return
			}
			// a selection of the files
			if !m.notN1(e, st, ev.Key) {
				m.put("bad1:"+itoa(ev.Addr.ID), 1)
			}
			if !m.notN2(e, st, ev.Key) {
				m.put("bad2:"+itoa(ev.Addr.ID), 1)
			}
		}
		if isStringType(t.Key()) {
			m.justify(e, st, ev.Key, "m"+itoa(ev.Addr.ID))
		}
	case EvAppend:
		for _, x := range ev.Args[1:] {
			if isStringType(typOr(x.Typ)) || namedPtr(x.Typ) == e.w.pluginT {
				if n := len(st.loops); n > 0 {
					m.justify(e, st, x, st.loops[n-1].key0())
				}
			} else if n := len(st.loops); n > 0 && e.w.isInfo(x.Typ) {
				l := st.loops[n-1].key0()
				m.put("list:"+l, 1)
				ok1, ok2 := m.infoOK(e, st, x)
				if !ok1 {
					m.put("lbad1:"+l, 1)
				}
				if !ok2 {
					m.put("lbad2:"+l, 1)
				}
			}
		}
	case EvExt:
		if ev.Name != "plugin.Open" {
			return
		}
		e.Count("opened files")
		if m.oldNil(e, st) {
			return
		}
		infos := e.infosIn(ev.Args[0])
		if len(infos) == 0 {
			e.Violate(st, ev.Pos, "unclear", "the file which is opened is not known to be one of the files that were read")
			return
		}
		for _, in := range infos {
			ok1, ok2 := m.infoOK(e, st, in)
			if !ok1 {
				e.Violate(st, ev.Pos, "not-reloadable", "a file may be opened although the plugin in service is not reloadable")
			}
			if !ok2 {
				e.Violate(st, ev.Pos, "content-unchanged", "a file may be opened again although its content has not changed")
			}
		}
	case EvHook:
		e.Count("plugin function calls")
		switch ev.Hook {
		case "fReloadable", "fExport", "fImport", "fOnLoad", "fOnInit":
			if r, k := e.reused(st, ev.Owner); !k || r {
				e.Violate(st, ev.Pos, "initialised-again", "%s may be invoked for a plugin that is carried over", hookTitle(ev.Hook))
			}
		}
	case EvStore:
		if ev.Addr.Op == "fld" && ev.Addr.Aux == "unchanged" && namedPtr(ev.Addr.Args[0].Typ) == e.w.pluginT && ev.Addr.Args[0].Op != "new" {
			e.Violate(st, ev.Pos, "mark-changed", "the reuse mark of a plugin which has already joined a manager is changed")
		}
	}
}

// infoOK: the plugin in service for the file is known to be reloadable (ok1) and to have another content (ok2).
func (m *Mon) infoOK(e *Engine, st *State, in *Term) (ok1, ok2 bool) {
	a := ldAddr(in)
	var c, k *Term
	if a != nil && a.Op == "mapel" {
		c, k = a.Args[0], a.Args[1]
	}
	if a != nil && a.Op == "idx" {
		// an element of a list of files
		if l := e.normList(st, a.Args[0]); l.Op == "acc" {
			ai := l.Obj.(*AccInfo)
			if e.emptyList(st, ai.Init) && m.has("list:"+ai.Loop) {
				return !m.has("lbad1:" + ai.Loop), !m.has("lbad2:" + ai.Loop)
			}
		}
	}
	sel := c != nil && c.Op == "new" && c != m.term("C") && m.term("C") != nil
	ok1 = c != nil && m.has("ok1:"+itoa(c.ID)) || sel && !m.has("bad1:"+itoa(c.ID)) || k != nil && m.notN1(e, st, k)
	ok2 = c != nil && m.has("ok2:"+itoa(c.ID)) || sel && !m.has("bad2:"+itoa(c.ID)) || k != nil && m.notN2(e, st, k)
	return
}

// justify records that a key (or plugin) is collected because its plugin may be reused.
func (m *Mon) justify(e *Engine, st *State, x *Term, coll string) {
	ok := false
	if namedPtr(x.Typ) == e.w.pluginT {
		if m.oldPlugin(e, st, x) == nil {
			return
		}
		ok = m.mayReuse(e, st, x)
	} else {
		n := len(st.loops)
		if n == 0 {
			return
		}
		if c, k := e.infoKey(st, st.loops[n-1]); c == nil || k != x {
			return
		}
		for _, p := range m.oldsFor(e, st, x) {
			if m.mayReuse(e, st, p) {
				ok = true
			}
		}
	}
	if !ok {
		m.put("unjust:"+coll, 1)
	}
}

func (m *Mon) c04join(e *Engine, st *State, ev *Event, p *Term) {
	r, known := e.reused(st, p)
	if !known {
		e.Violate(st, ev.Pos, "unclear", "it is unclear whether a plugin which joins the new manager is marked as reused")
		return
	}
	x := fromObj(e.fieldVal(st, p, "Refs"), "Refs")
	if !r {
		if p.Op != "new" || x != nil {
			e.Violate(st, ev.Pos, "unmarked", "a plugin of another manager joins the new manager without being marked as reused, so it will be initialised again")
			return
		}
		if s, k := e.staticMode(st); k && s || e.staticPlugin(st, p) {
			return
		}
		// what later reloads decide on
		if d := e.fieldVal(st, p, "FileSha1"); d == nil || len(e.infosIn(d)) == 0 || !strings.Contains(d.String(), e.infoShaField(d)) {
			e.Violate(st, ev.Pos, "digest", "a new plugin does not record the digest of its file, so later reloads cannot recognise that the content is unchanged")
		}
		if v := e.fieldVal(st, p, "reloadable"); v == nil || v.Op != "res" || !strings.Contains(v.Aux, "hook:fReloadable") {
			e.Violate(st, ev.Pos, "reloadable", "a new plugin does not record what its Reloadable returned")
		}
		return
	}
	e.Count("reused plugins joining")
	if p.Op != "new" {
		e.Violate(st, ev.Pos, "shared", "a plugin structure is shared between two managers")
		return
	}
	if x == nil {
		e.Violate(st, ev.Pos, "not-a-copy", "a plugin which is marked as reused is not a copy of a plugin in service")
		return
	}
	key := m.oldPlugin(e, st, x)
	var colls []string
	direct := m.mayReuse(e, st, x)
	src := x
	if key == nil {
		// an element of a list of old plugins
		if a := ldAddr(x); a != nil && a.Op == "idx" {
			if l := e.normList(st, a.Args[0]); l.Op == "acc" {
				ai := l.Obj.(*AccInfo)
				if len(ai.Pats) == 1 && e.emptyList(st, ai.Init) && m.oldPlugin(e, st, ai.Pats[0]) != nil {
					key, src = m.oldPlugin(e, st, ai.Pats[0]), ai.Pats[0]
					colls = append(colls, ai.Loop)
				}
			}
		}
	}
	if key == nil {
		e.Violate(st, ev.Pos, "wrong-source", "a plugin which is marked as reused is not a copy of a plugin of the replaced manager")
		return
	}
	_ = src
	switch key.Op {
	case "rkey":
		if act := actOf(st, key); act != nil && act.Scan.Cont.Op == "new" && act.Scan.Cont != m.term("C") {
			colls = append(colls, "m"+itoa(act.Scan.Cont.ID))
		}
	case "ld":
		if a := ldAddr(key); a.Op == "idx" {
			if l := e.normList(st, a.Args[0]); l.Op == "acc" && e.emptyList(st, l.Obj.(*AccInfo).Init) {
				colls = append(colls, l.Obj.(*AccInfo).Loop)
			}
		}
	}
	ok := direct
	for _, c := range colls {
		if !m.has("unjust:" + c) {
			ok = true
		}
	}
	if !ok {
		e.Violate(st, ev.Pos, "no-reason", "a plugin is carried over although it is not known to be not reloadable or to have the same content")
	}
	for _, f := range []string{"Name", "File", "FileSha1", "P", "Deps", "exported", "reloadable"} {
		if y := fromObj(e.fieldVal(st, p, f), f); y != x {
			e.Violate(st, ev.Pos, "incomplete-copy", "the field %s of a plugin which is carried over is not taken from the plugin in service", f)
		}
	}
}

// infoShaField is the name of the digest field of the file description in d.
func (e *Engine) infoShaField(d *Term) string {
	for _, in := range e.infosIn(d) {
		if n := namedPtr(in.Typ); n != nil {
			for _, f := range e.w.shaFields(n) {
				return f
			}
		}
	}
	return "?"
}

// staticPlugin says whether the new plugin was made from a static plugin: no shared object was assigned to it.
func (e *Engine) staticPlugin(st *State, p *Term) bool {
	v := e.fieldVal(st, p, "P")
	if v == nil {
		return false
	}
	n, k := st.isNil(v)
	return k && n
}

// ---- C06 ----

func refsOp(name string) string {
	if strings.HasPrefix(name, "(*go.uber.org/atomic.Int") || strings.HasPrefix(name, "(*sync/atomic.Int") || strings.HasPrefix(name, "sync/atomic.") {
		return name[strings.LastIndex(name, ".")+1:]
	}
	return ""
}

// refsOwner returns the plugin whose counter c is.
func (e *Engine) refsOwner(st *State, c *Term) *Term {
	if x := fromObj(c, "Refs"); x != nil && namedPtr(x.Typ) == e.w.pluginT {
		return x
	}
	for a, v := range st.heap {
		if v == c && a.Op == "fld" && a.Aux == "Refs" && namedPtr(a.Args[0].Typ) == e.w.pluginT {
			return a.Args[0]
		}
	}
	return nil
}

func isRefsType(t types.Type) bool {
	n := namedPtr(typOr(t))
	return n != nil && strings.HasPrefix(n.Obj().Name(), "Int") && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "atomic")
}

// delta is the change that an operation on a counter makes.
func refsDelta(m string, args []*Term) (d int64, changes bool) {
	switch {
	case strings.HasPrefix(m, "Load"):
		return 0, false
	case m == "Inc":
		return 1, true
	case m == "Dec":
		return -1, true
	case strings.HasPrefix(m, "Add") || m == "Sub":
		if len(args) == 2 {
			if n, ok := args[1].intVal(); ok {
				if m == "Sub" {
					n = -n
				}
				return n, true
			}
		}
	}
	return 0, true
}

func monC06load(m *Mon, e *Engine, st *State, ev *Event) {
	m.swapState(e, st, ev)
	M := m.term("M")
	switch ev.Kind {
	case EvExt, EvExtRet:
		op := refsOp(ev.Name)
		if op == "" {
			if ev.Kind == EvExtRet && strings.HasPrefix(ev.Name, "go.uber.org/atomic.NewInt") {
				if n, ok := ev.Args[0].intVal(); ok && n == 1 {
					m.bind("fresh", ev.Res[0])
				}
			}
			return
		}
		if ev.Kind != EvExt || len(ev.Args) == 0 || !isRefsType(ev.Args[0].Typ) || e.w.swapperOf(ev.Args[0]) != nil {
			return
		}
		d, ch := refsDelta(op, ev.Args)
		if !ch {
			return
		}
		if d != 1 {
			e.Violate(st, ev.Pos, "stray", "the reference counter of a plugin is changed by %s outside the release of a manager", shortName(ev.Name))
			return
		}
		if m.term("inc") != nil {
			e.Violate(st, ev.Pos, "unpaired", "a reference is taken which does not belong to a plugin joining the new manager")
		}
		m.bind("inc", ev.Args[0])
		if len(st.loops) > 0 {
			m.put("open:"+st.loops[len(st.loops)-1].key0(), 1)
		}
	case EvMapUpdate:
		mg, p := e.joins(st, ev)
		if mg == nil {
			return
		}
		if mg != M {
			e.Violate(st, ev.Pos, "other-manager", "a plugin joins another manager than the one under construction")
			return
		}
		refs, once := e.fieldVal(st, p, "Refs"), e.fieldVal(st, p, "freeOnce")
		if p.Op != "new" || refs == nil || once == nil {
			e.Violate(st, ev.Pos, "unclear", "a plugin joins the new manager whose reference counter is unknown")
			return
		}
		x := fromObj(refs, "Refs")
		if x == nil {
			e.Count("new plugins joining")
			if refs != m.term("fresh") {
				e.Violate(st, ev.Pos, "initial", "a new plugin joins the new manager with a reference counter that was not created with the value one for it")
			}
			if once.Op != "new" {
				e.Violate(st, ev.Pos, "once", "a new plugin does not have a sync.Once of its own")
			}
			m.bind("fresh", nil)
			if m.term("inc") != nil {
				if m.term("inc") == refs {
					e.Violate(st, ev.Pos, "unpaired", "a reference is taken for a new plugin, whose counter starts at one")
				}
			}
			return
		}
		e.Count("reused plugins joining")
		if fromObj(once, "freeOnce") != x {
			e.Violate(st, ev.Pos, "once", "a reused plugin does not share the sync.Once of the plugin in service, so OnFree could run twice")
		}
		switch inc := m.term("inc"); {
		case inc == refs, inc != nil && fromObj(inc, "Refs") == x:
			m.bind("inc", nil)
			m.drop("open:")
		case inc == nil:
			// the reference may be taken right after the join
			if m.term("need") != nil {
				e.Violate(st, ev.Pos, "not-counted", "a plugin is carried over without taking a reference")
			}
			m.bind("need", refs)
		default:
			e.Violate(st, ev.Pos, "unpaired", "the reference taken does not belong to the plugin which is carried over")
		}
	}
	// a join may precede its increment within the same step
	if n := m.term("need"); n != nil {
		if inc := m.term("inc"); inc != nil && (inc == n || fromObj(inc, "Refs") == fromObj(n, "Refs")) {
			m.bind("need", nil)
			m.bind("inc", nil)
			m.drop("open:")
		} else if ev.Kind == EvHook || ev.Kind == EvIterEnd || ev.Kind == EvExit || ev.Kind == EvOpaque {
			e.Violate(st, ev.Pos, "not-counted", "a plugin is carried over without taking a reference")
			m.bind("need", nil)
		}
	}
	if inc := m.term("inc"); inc != nil && (ev.Kind == EvExit || ev.Kind == EvIterEnd && m.has("open:"+ev.Act.key0())) {
		e.Violate(st, ev.Pos, "unpaired", "a reference is taken which does not belong to a plugin joining the new manager")
		m.bind("inc", nil)
		m.drop("open:")
	}
}

func monC06rel(m *Mon, e *Engine, st *State, ev *Event) {
	whole := func(el *Elem) bool { return el.Full && len(el.Part) == 0 }
	switch ev.Kind {
	case EvExt, EvExtRet:
		if ev.Name == "(*sync.Once).Do" && ev.Kind == EvExt {
			m.bind("once", ev.Args[0])
			m.put("asked", 1)
			if p := m.term("decp"); p == nil || fromObj(ev.Args[0], "freeOnce") != p {
				m.bind("once", nil)
			}
			return
		}
		if ev.Name == "(*sync.Once).Do" {
			m.bind("once", nil)
			return
		}
		op := refsOp(ev.Name)
		if op == "" || len(ev.Args) == 0 || !isRefsType(ev.Args[0].Typ) {
			return
		}
		d, ch := refsDelta(op, ev.Args)
		if !ch {
			return
		}
		if ev.Kind == EvExt {
			e.Count("decrements")
			p := e.refsOwner(st, ev.Args[0])
			if d != -1 {
				e.Violate(st, ev.Pos, "not-one", "a release changes a reference counter by something else than one")
			}
			if p == nil {
				e.Violate(st, ev.Pos, "stray", "a release drops the reference of something that is not a plugin of the manager")
				return
			}
			el := m.touch(e, st, "dec", p, whole)
			if el == nil || el.Mgr != e.entParams[0] {
				e.Violate(st, ev.Pos, "stray", "a release drops the reference of a plugin which is not the current one of a loop over the plugins of the manager")
			}
			if el != nil && m.get("it:dec:"+el.Act.key0()) == itMany {
				e.Violate(st, ev.Pos, "twice", "a release drops the reference of a plugin twice")
			}
			m.bind("decp", p)
			return
		}
		if len(ev.Res) == 1 {
			m.bind("decr", ev.Res[0])
		}
	case EvHook:
		if ev.Hook != "fOnFree" {
			return
		}
		e.Count("calls of OnFree")
		if m.term("decp") != ev.Owner || m.term("decr") == nil {
			e.Violate(st, ev.Pos, "not-dropped", "OnFree is invoked without the reference of this plugin having been dropped before")
			return
		}
		lo, hi := st.rng(linOf(m.term("decr")))
		_ = lo
		if hi > 0 {
			e.Violate(st, ev.Pos, "still-used", "OnFree is invoked although another generation may still hold the plugin")
		}
		if m.term("once") == nil && !(lo == 0 && hi == 0) {
			e.Violate(st, ev.Pos, "once", "OnFree is not guarded by the sync.Once of the plugin")
		}
		m.put("freed", 1)
	case EvHookPanic:
		m.bind("once", nil)
	case EvIterEnd:
		if p := m.term("decp"); p != nil {
			m.checkFreed(e, st, ev)
		}
		m.iterEnd(e, st, ev, []string{"dec"}, nil, whole)
	case EvLoopExit:
		if ev.Break && m.term("decp") != nil {
			m.checkFreed(e, st, ev)
		}
		in := m.get("cov:dec:" + ev.Act.key0())
		v := m.loopExit(ev, []string{"dec"})["dec"]
		if in == 0 && v == 0 {
			for _, c := range e.zeroTripOf(ev) {
				if mg := e.fieldHolding(st, c, "pluginMap"); mg != nil && mg == e.entParams[0] {
					m.put("none", 1)
				}
			}
			return
		}
		switch {
		case ev.Break:
			e.Violate(st, ev.Pos, "left-early", "a release leaves the loop over the plugins before its end")
		case v == covFull:
			m.inc("whole")
		case v == covGap:
			e.Violate(st, ev.Pos, "skipped", "a release may leave out a plugin, whose reference is never given up")
		case v == covPart:
			e.Violate(st, ev.Pos, "not-all", "the loop of the release does not enumerate all plugins of the manager")
		}
	case EvExit:
		if m.term("decp") != nil {
			m.checkFreed(e, st, ev)
		}
		switch n := m.get("whole"); {
		case n > 1:
			e.Violate(st, ev.Pos, "twice", "a release drops every reference twice")
		case n == 0 && !m.has("none") && ev.Kind2 == "return":
			e.Violate(st, ev.Pos, "not-released", "a release ends without having dropped the references of the plugins")
		}
	}
}

// checkFreed: the plugin whose reference was dropped is still in use, or OnFree was attempted.
func (m *Mon) checkFreed(e *Engine, st *State, ev *Event) {
	r := m.term("decr")
	if r != nil && !m.has("freed") && !m.has("asked") {
		if lo, _ := st.rng(linOf(r)); lo < 1 {
			e.Violate(st, ev.Pos, "never-freed", "a release drops the last reference of a plugin without invoking OnFree")
		}
	}
	m.bind("decp", nil)
	m.bind("decr", nil)
	m.bind("once", nil)
	m.put("freed", 0)
	m.put("asked", 0)
}
