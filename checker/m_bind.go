package main

import (
	"errors"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:   "C18",
		Rule: "on every path on which a new plugin joins a manager, a complete loop over a table that pairs each of the nine fields of PluginFuncs of that very plugin with the symbol of the same name has, in every iteration, either assigned the symbol looked up under the name of the row to the field of the row (static: found the field of the row not nil after all of them have been copied from the same fields of one static plugin) or put the name of the row in a list of missing functions, which is known to be empty; a path on which a function is missing scans the whole table and ends in an error built from the complete list. The parameters of NewPluginFuncs are stored in the fields of their names, in the sorted order in which the generator lists the functions, and the template emits one expression per function in that order",
		Runs: append(swapperRuns(mon(monC18), nil),
			Run{Name: "NewPluginFuncs", Entry: func(w *World) (*ssa.Function, error) {
				if f := w.function(w.root, "NewPluginFuncs"); f != nil {
					return f, nil
				}
				return nil, errors.New("NewPluginFuncs not found")
			}, Mon: mon(monNewFuncs)},
			Run{Name: "generator", Entry: (*World).generatorFn, Mon: mon(monGenOrder)},
			Run{Name: "init", Entry: (*World).initFn, Mon: mon(func(m *Mon, e *Engine, st *State, ev *Event) {
				m.monInit(e, st, ev, func(rule, f string, a ...interface{}) {
					if rule == "list" {
						e.Violate(st, ev.Pos, rule, f, a...)
					}
				})
			}), Cfg: initCfg}),
		Rules: []func(*World, *Report){ruleGenOrder},
		Floor: map[string]int{"functions bound": 2, "tables": 2, "static functions": 9, "joins": 2, "missing functions": 2, "parameters": 9, "generator": 1, "templates": 1, "lists": 1},
	})
}

// symbolOf is the name of the plugin function kept in a field of PluginFuncs.
func symbolOf(field string) string {
	r := []rune(field)
	if len(r) > 1 && r[0] == 'f' && unicode.IsUpper(r[1]) {
		r = r[1:]
	}
	if len(r) > 0 {
		r[0] = unicode.ToUpper(r[0])
	}
	return string(r)
}

// funcFields are the fields of PluginFuncs in order.
func (w *World) funcFields() []string {
	var r []string
	if s, ok := structOf(w.pluginFuncsT); ok {
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Signature); ok {
				r = append(r, s.Field(i).Name())
			}
		}
	}
	return r
}

// funcFieldAddr: t is the address of a field of PluginFuncs of a plugin.
func (e *Engine) funcFieldAddr(t *Term) (owner *Term, field string) {
	if t == nil || t.Op != "fld" {
		return nil, ""
	}
	o := t.Args[0]
	if o.Op == "fld" && o.Aux == "PluginFuncs" {
		o = o.Args[0]
	} else if namedPtr(typOr(o.Typ)) != e.w.pluginFuncsT {
		return nil, ""
	}
	for _, f := range e.w.funcFields() {
		if f == t.Aux {
			return o, f
		}
	}
	return nil, ""
}

// rowRef: t is (a field of) the element of a list or map of rows.
func rowRef(t *Term) (tab, idx *Term, field string) {
	if t == nil {
		return nil, nil, ""
	}
	a := t
	if t.Op == "fv" {
		field = t.Aux
		a = ldAddr(t.Args[0])
	} else if l := ldAddr(t); l != nil {
		a = l
		if a.Op == "fld" {
			field = a.Aux
			a = a.Args[0]
		}
	} else {
		return nil, nil, ""
	}
	if a != nil && (a.Op == "idx" || a.Op == "mapel") {
		return a.Args[0], a.Args[1], field
	}
	return nil, nil, ""
}

func isRes(t *Term, name string) bool {
	return t != nil && (t.Op == "res" && resName(t) == name || t.Op == "call" && t.Aux == name)
}

// derefs strips reflect's Elem and Interface and tells how often a pointer was followed.
func derefs(t *Term) (x *Term, n int) {
	for t != nil {
		switch {
		case isRes(t, "(reflect.Value).Elem"):
			n++
			t = t.Args[0]
		case isRes(t, "(reflect.Value).Interface"), isRes(t, "reflect.ValueOf"):
			t = t.Args[0]
		case isRes(t, "reflect.Indirect"):
			n++
			t = t.Args[0]
		default:
			return t, n
		}
	}
	return t, n
}

// rows reads the table at tab: for every row the symbol and the field of the plugin it is paired with.
func (e *Engine) rows(st *State, tab *Term, symF, outF string) (owner *Term, fields map[string]string, bad string) {
	fields = map[string]string{}
	tab = e.normList(st, tab)
	add := func(s, o *Term) {
		name, ok := "", false
		if s != nil {
			name, ok = s.strVal()
		}
		own, f := e.funcFieldAddr(o)
		switch {
		case !ok:
			bad = "the name of a row of the table is not a constant"
		case own == nil:
			bad = "the row " + name + " of the table does not denote a function of a plugin"
		case owner != nil && own != owner:
			bad = "the rows of the table denote functions of different plugins"
		case fields[f] != "":
			bad = "two rows of the table denote " + f
		case symbolOf(f) != name:
			bad = "the table pairs the symbol " + name + " with " + f
		default:
			owner = own
			fields[f] = name
			return
		}
		owner = own
	}
	if p := ptrElem(typOr(tab.Typ)); p != nil {
		if a, ok := p.Underlying().(*types.Array); ok {
			s, ok := structOf(a.Elem())
			if !ok {
				return nil, nil, "rows are not structs"
			}
			for i := int64(0); i < a.Len() && bad == ""; i++ {
				addr := idxAddr(tab, mkInt(i), types.NewPointer(a.Elem()))
				v := e.peek(st, addr, a.Elem())
				var sv, ov *Term
				for j := 0; j < s.NumFields(); j++ {
					if s.Field(j).Name() == symF {
						if sv = e.peek(st, fieldAddr(addr, s, j), s.Field(j).Type()); sv == nil && v != nil {
							sv = fieldOf(v, s, j)
						}
					}
					if s.Field(j).Name() == outF {
						if ov = e.peek(st, fieldAddr(addr, s, j), s.Field(j).Type()); ov == nil && v != nil {
							ov = fieldOf(v, s, j)
						}
					}
				}
				add(sv, ov)
			}
			return
		}
	}
	if _, ok := typOr(tab.Typ).Underlying().(*types.Map); ok {
		n := 0
		for a, v := range st.heap {
			if a.Op == "mapel" && a.Args[0] == tab && a.Args[1].Op == "const" {
				n++
				add(a.Args[1], v)
			}
		}
		return
	}
	return nil, nil, "the table is not known to the path"
}

// bindLoop says whether the iterations of a loop bind or check functions.
func (w *World) bindLoop(l *Loop) bool {
	if w.bindLoops == nil {
		w.bindLoops = map[*Loop]bool{}
	}
	if v, ok := w.bindLoops[l]; ok {
		return v
	}
	r := false
	for b := range l.blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := c.Common().StaticCallee()
			if f == nil {
				continue
			}
			if f.String() == "(*plugin.Plugin).Lookup" || f.String() == "reflect.ValueOf" {
				r = true
			}
			if w.inModule(f) {
				for n := range w.externCalls(f) {
					if n == "(*plugin.Plugin).Lookup" {
						r = true
					}
				}
			}
		}
	}
	w.bindLoops[l] = r
	return r
}

// nilFunc: what the path knows about the function in a row of a table or field being nil.
func (e *Engine) nilRows(st *State, act *LoopAct, f func(tab, idx *Term, field string, isNil bool)) {
	for t, v := range st.facts {
		var x *Term
		n := 0
		switch {
		case t.Op == "call" && strings.HasSuffix(t.Aux, ".isNil"), isRes(t, "(reflect.Value).IsNil"):
			x, n = derefs(t.Args[0])
		default:
			continue
		}
		if n != 1 {
			continue
		}
		if tab, idx, fl := rowRef(x); tab != nil && act.Scan != nil && act.Scan.IV != nil && mentions(idx, act.Scan.IV) {
			f(tab, idx, fl, v)
		}
	}
}

func monC18(m *Mon, e *Engine, st *State, ev *Event) {
	if e.inGo > 0 {
		return
	}
	switch ev.Kind {
	case EvExtRet:
		if (ev.Name == "(reflect.Value).Interface" || ev.Name == "(reflect.Value).IsNil") && len(ev.Res) == 1 {
			if x, n := derefs(ev.Args[0]); n == 1 {
				if tab, _, _ := rowRef(x); tab != nil {
					if _, act, _ := e.contOf(st, x); act != nil && act.L != nil && e.w.bindLoop(act.L) {
						m.bind("nv:"+act.key0(), ev.Res[0]) // keeps what the path learns about it
					}
				}
			}
		}
		if ev.Name == "(*plugin.Plugin).Lookup" && len(ev.Args) == 2 {
			_, act, _ := e.contOf(st, ev.Args[1])
			if act == nil {
				if ev.Err == ErrNonNil {
					m.put("anymiss", 1)
				}
				return
			}
			if ev.Err == ErrNonNil {
				e.Count("missing functions")
				m.put("abs:"+act.key0(), 1)
			}
		}
	case EvExt:
		if ev.Name == "(reflect.Value).Set" && len(ev.Args) == 2 {
			m.bindEvent(e, st, ev)
		}
	case EvAppend:
		for _, x := range ev.Args[1:] {
			if tab, _, f := rowRef(x); tab != nil && isStringType(typOr(x.Typ)) {
				if _, act, _ := e.contOf(st, x); act != nil && act.L != nil && e.w.bindLoop(act.L) {
					m.put("app:"+act.key0(), 1)
					m.put("symf:"+act.key0()+":"+f, 1)
				}
			} else if x.Op == "rkey" {
				if act := actOf(st, x); act != nil && act.L != nil && e.w.bindLoop(act.L) {
					m.put("app:"+act.key0(), 1)
				}
			}
		}
	case EvIterEnd:
		a := ev.Act
		if a.L == nil || !e.w.bindLoop(a.L) {
			return
		}
		k := a.key0()
		bound := m.has("bound:" + k)
		missing := m.has("abs:" + k)
		e.nilRows(st, a, func(tab, idx *Term, fl string, nl bool) {
			if nl {
				missing = true
				e.Count("missing functions")
			} else {
				if m.checkTable(e, st, ev, k, tab, "", fl) {
					bound = true
				}
			}
		})
		switch {
		case bound:
			m.put("tl:"+k, 1)
		case missing && m.has("app:"+k):
			m.put("tl:"+k, 1)
			m.put("miss:"+k, 1)
		default:
			m.put("gap:"+k, 1)
		}
		for _, f := range []string{"bound:", "abs:", "app:"} {
			m.put(f+k, 0)
		}
		m.bind("nv:"+k, nil)
	case EvLoopExit:
		a := ev.Act
		if a.L == nil || !e.w.bindLoop(a.L) {
			return
		}
		k := a.key0()
		missing := m.has("abs:" + k)
		if ev.Break {
			e.nilRows(st, a, func(tab, idx *Term, fl string, nl bool) { missing = missing || nl })
			if missing {
				m.put("early", 1)
			}
		} else {
			if m.has("miss:" + k) {
				m.put("anymiss", 1)
				m.put("lst:"+k, 1)
			}
			if m.has("tl:"+k) && !m.has("gap:"+k) {
				for _, r := range m.keys("row:" + k + ":") {
					m.put("row2:"+strings.TrimPrefix(r, "row:"+k+":"), 1)
				}
				if o := m.term("own:" + k); o != nil {
					m.bind("own", o)
				}
			}
		}
		for _, f := range []string{"bound:", "abs:", "app:", "tl:", "gap:", "miss:"} {
			m.put(f+k, 0)
		}
		m.drop("row:" + k + ":")
		m.drop("symf:" + k + ":")
		m.bind("own:"+k, nil)
		m.bind("nv:"+k, nil)
	case EvMapUpdate:
		mg, p := e.joins(st, ev)
		if mg == nil {
			return
		}
		if r, k := e.reused(st, p); k && r {
			return
		}
		e.Count("joins")
		if m.has("anymiss") || m.has("early") {
			e.Violate(st, ev.Pos, "missing", "a plugin joins the manager although a required function is missing")
		}
		var lack []string
		for _, f := range e.w.funcFields() {
			if !m.has("row2:"+f) || m.term("own") != p {
				lack = append(lack, f)
			}
		}
		if len(lack) > 0 {
			e.Violate(st, ev.Pos, "unbound", "a plugin joins the manager although %s %s not known to be bound to the function of that name", strings.Join(lack, ", "), map[bool]string{true: "is", false: "are"}[len(lack) == 1])
		}
		if e.fromStatic(st, p) {
			m.staticFuncs(e, st, ev, p)
		}
		m.drop("row2:")
		m.bind("own", nil)
	case EvExit:
		if !e.isFailExit(ev) || ev.Kind2 == "panic" {
			if e.isOkExit(ev) && (m.has("anymiss") || m.has("early")) {
				e.Violate(st, ev.Pos, "missing", "a load succeeds although a required function is missing")
			}
			return
		}
		if m.has("early") {
			e.Violate(st, ev.Pos, "incomplete-list", "a load fails at the first missing function: the error does not name all of them")
			return
		}
		if !m.has("anymiss") || len(ev.Results) == 0 {
			return
		}
		err := ev.Results[len(ev.Results)-1]
		ok := false
		var walk func(t *Term, d int)
		seen := map[*Term]bool{}
		walk = func(t *Term, d int) {
			if d > 12 || seen[t] || ok {
				return
			}
			seen[t] = true
			if t.Op == "acc" && m.has("lst:"+t.Obj.(*AccInfo).Loop) {
				ok = true
				return
			}
			if t.Op == "idx" || t.Op == "slice" || t.Op == "len" {
				return
			}
			for _, a := range t.Args {
				walk(a, d+1)
			}
		}
		walk(err, 0)
		if !ok && len(m.keys("lst:")) > 0 {
			e.Violate(st, ev.Pos, "incomplete-list", "a load fails because of missing functions but the error is not built from the whole list of them")
		}
	}
}

// checkTable verifies the table and records its rows. symF is the field of the row that holds the name ("" when it
// is the only string field or the key of a map).
func (m *Mon) checkTable(e *Engine, st *State, ev *Event, k string, tab *Term, symF, outF string) bool {
	if symF == "" {
		if p := ptrElem(typOr(e.normList(st, tab).Typ)); p != nil {
			if a, ok := p.Underlying().(*types.Array); ok {
				if s, ok := structOf(a.Elem()); ok {
					for j := 0; j < s.NumFields(); j++ {
						if isStringType(s.Field(j).Type()) {
							symF = s.Field(j).Name()
						}
					}
				}
			}
		}
	}
	owner, fields, bad := e.rows(st, tab, symF, outF)
	e.Count("tables")
	if bad != "" {
		e.Violate(st, ev.Pos, "table", "%s", bad)
		return false
	}
	if owner == nil {
		return false
	}
	m.bind("own:"+k, owner)
	for f := range fields {
		m.put("row:"+k+":"+f, 1)
	}
	return true
}

// bindEvent: reflection assigns to something.
func (m *Mon) bindEvent(e *Engine, st *State, ev *Event) {
	out, n := derefs(ev.Args[0])
	val, _ := derefs(ev.Args[1])
	if n != 1 || val == nil {
		return
	}
	otab, oidx, of := rowRef(out)
	down, dfield := e.funcFieldAddr(out)
	if otab == nil && down == nil {
		return // not a table of functions (the Import object, say)
	}
	if !isRes(val, "(*plugin.Plugin).Lookup") {
		if otab != nil {
			if _, _, bad := e.rows(st, otab, "", of); bad == "the table is not known to the path" {
				return
			}
		}
		e.Violate(st, ev.Pos, "value", "something else than the symbol looked up in the plugin is assigned to a required function")
		return
	}
	sym, handle := val.Args[1], val.Args[0]
	own := func(p *Term) {
		if h := e.fieldVal(st, p, "P"); h != handle {
			e.Violate(st, ev.Pos, "handle", "a required function is looked up in another plugin than the one it is assigned to")
		}
	}
	if down != nil {
		e.Count("functions bound")
		if s, ok := sym.strVal(); !ok || s != symbolOf(dfield) {
			e.Violate(st, ev.Pos, "symbol", "%s is assigned a symbol of another name", dfield)
			return
		}
		own(down)
		m.put("row2:"+dfield, 1)
		m.bind("own", down)
		return
	}
	_, act, full := e.contOf(st, out)
	if act == nil {
		return
	}
	k := act.key0()
	same := false
	symF := ""
	if stab, sidx, sf := rowRef(sym); stab == otab && sidx == oidx && sf != of {
		same, symF = true, sf
	} else if sym == oidx {
		same = true
	}
	if !same {
		e.Violate(st, ev.Pos, "symbol", "the function of a row of the table is assigned a symbol which is not the name of the row")
		return
	}
	if !full {
		e.Violate(st, ev.Pos, "partial", "the loop which binds the required functions does not visit the whole table")
		return
	}
	e.Count("functions bound")
	if m.checkTable(e, st, ev, k, otab, symF, of) {
		own(m.term("own:" + k))
		m.put("bound:"+k, 1)
	}
}

// staticFuncs: the functions of a static plugin are those of one StaticPlugin, field by field.
func (m *Mon) staticFuncs(e *Engine, st *State, ev *Event, p *Term) {
	var src *Term
	for _, f := range e.w.funcFields() {
		v := e.fieldVal(st, p, f)
		o := e.funcSource(v, f)
		e.Count("static functions")
		if o == nil || src != nil && o != src {
			e.Violate(st, ev.Pos, "static", "%s of a static plugin is not known to be the function of that name of one StaticPlugin", f)
			return
		}
		src = o
	}
}

// funcSource: v is the function kept in field f of which object.
func (e *Engine) funcSource(v *Term, f string) *Term {
	if v == nil {
		return nil
	}
	if v.Op == "hook" && v.Aux == f && len(v.Args) > 0 {
		return v.Args[0]
	}
	o := fromObj(v, f)
	if o != nil && o.Op == "fld" && o.Aux == "PluginFuncs" {
		o = o.Args[0]
	}
	return o
}
