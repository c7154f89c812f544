package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"regexp"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

func init() {
	lc := &liveRun{}
	register(&Prop{
		ID:    "C35",
		Rule:  "on every path through the loops over packages, files, declarations and specifications of the code generator: a declaration is passed over only if it is known to be a method, not to declare a function or types, or if the lower-cased name is known not to have the lower-cased prefix; every other one is put on the list from which the generated code registers functions, or types, under its own name, or counted as an error; it is put on a list only after it was found not to be in the one set of names of the whole build, to which it is then added, and, if it is a type, after it was found to be a struct; no loop is left early; code is generated only where the number of errors is known to be zero; the generated code of a package is written for every package with such a declaration, from the lists of that package, and the main package imports all of them; the templates register each name of each list under itself",
		Rules: []func(w *World, r *Report){ruleLiveTemplates},
		Runs: []Run{
			{Name: "complete", Entry: (*World).completeFn, Cfg: lc.cfg, Mon: func() Monitor { return mon(lc.mon)() }},
			{Name: "execute", Entry: (*World).executeFn, Cfg: execCfg(nil), Mon: mon(monPrefix)},
			{Name: "main", Entry: (*World).liveMainFn, Cfg: func(w *World, c *RunCfg) {
				cliCfg(nil)(w, c)
				nc := c.NoCond
				c.NoCond = func(t *Term) bool {
					return nc(t) && !mentionsAny(t, func(x *Term) bool { return x.Op == "fld" && x.Aux == "PkgPath" })
				}
			}, Mon: mon(monLiveMain)},
		},
		Floor: map[string]int{"declarations": 8, "registered functions": 1, "registered types": 1, "errors counted": 2, "generated lists": 2, "templates": 3, "prefixes": 1, "imported packages": 1},
	})
}

type liveRun struct {
	gens map[*ssa.Function]bool // write the code which registers live functions and types
	reg  map[string]string      // "func", "type": the field of the template
}

func (w *World) tplVar(file string) *ssa.Global { return w.embedVar(file) }

// liveMainFn writes the code which imports the packages with live functions and types.
func (w *World) liveMainFn() (*ssa.Function, error) {
	var r []*ssa.Function
	for f, text := range w.templates() {
		if strings.Contains(text, "HotswapLiveFuncs") && strings.Contains(text, "import") {
			if g := w.embedVar(f[strings.LastIndex(f, "/")+1:]); g != nil {
				r = append(r, w.usersOf(g)...)
			}
		}
	}
	if len(r) != 1 {
		return nil, fmt.Errorf("found %d functions which write the code of HotswapLiveFuncs", len(r))
	}
	return r[0], nil
}

func (l *liveRun) cfg(w *World, c *RunCfg) {
	l.gens = map[*ssa.Function]bool{}
	for f, text := range w.templates() {
		if strings.Contains(text, "RegisterFunc(\"") {
			if g := w.embedVar(f[strings.LastIndex(f, "/")+1:]); g != nil {
				for _, u := range w.usersOf(g) {
					l.gens[u] = true
				}
			}
		}
	}
	l.reg = map[string]string{}
	l.reg["func"], l.reg["type"], _, _ = w.liveLists()
	reachesGen := func(fn *ssa.Function) bool {
		for g := range w.staticReach(fn) {
			if l.gens[g] {
				return true
			}
		}
		return false
	}
	execCfg(func(w *World, fn *ssa.Function) bool {
		if reachesGen(fn) {
			return true
		}
		f := w.effects(fn)
		if f.any(creators...) {
			return false
		}
		for g := range w.staticReach(fn) {
			for _, p := range g.Params {
				if astPtr(p.Type()) {
					return true
				}
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ta, ok := in.(*ssa.TypeAssert); ok && strings.HasPrefix(types.TypeString(ta.AssertedType, nil), "*go/ast.") {
						return true
					}
				}
			}
		}
		return false
	})(w, c)
	c.KeepFact = func(t *Term) bool {
		switch t.Op {
		case "taok":
			return true
		case "eq":
			return fieldLoad(t.Args[0], "Recv") != nil || fieldLoad(t.Args[1], "Recv") != nil
		case "eq0":
			for a := range linOf(t.Args[0]).c {
				if fieldLoad(a, "Tok") != nil {
					return true
				}
			}
		case "call", "res":
			return strings.HasPrefix(t.Aux, "strings.HasPrefix") || t.Aux == "strings.EqualFold"
		}
		return false
	}
	nf := c.NoFact
	c.NoFact = func(a *Term) bool {
		return nf(a) && !(a.Op == "fld" && (a.Aux == "Recv" || a.Aux == "Type" || a.Aux == "Tok"))
	}
	nc := c.NoCond
	c.NoCond = func(t *Term) bool {
		return nc(t) && !mentionsAny(t, func(x *Term) bool {
			switch x.Op {
			case "ta", "taok", "mapok":
				return true
			case "fld":
				switch x.Aux {
				case "Name", "Recv", "Tok", "Decls", "GoFiles", "Syntax", "Specs", "Type":
					return true
				}
			}
			return false
		})
	}
}

func astPtr(t types.Type) bool {
	s := types.TypeString(t, nil)
	return strings.HasPrefix(s, "*go/ast.") || s == "go/ast.Decl" || s == "go/ast.Spec" || strings.HasPrefix(s, "[]go/ast.") || strings.HasPrefix(s, "[]*go/ast.")
}

// scanList is the list which the loop enumerates from one end to the other.
func (st *State) scanList(a *LoopAct) *Term {
	if a == nil || a.Scan == nil {
		return nil
	}
	n := tripCount(a)
	var list *Term
	for t := range n.c {
		if t.Op == "len" {
			list = t.Args[0]
		}
	}
	if list == nil || !st.linEq(n, linOf(mk("len", "", types.Typ[types.Int], list))) {
		return nil
	}
	return list
}

// elemOfAct: t is the element of the list which the iteration looks at.
func elemOfAct(t *Term, a *LoopAct, list *Term) bool {
	d := ldAddr(t)
	if d == nil || d.Op != "idx" || d.Args[0] != list && (ldAddr(list) == nil || ldAddr(d.Args[0]) != ldAddr(list)) {
		return false
	}
	iv, _ := ivIn(linOf(d.Args[1]))
	return iv != nil && a.Scan != nil && iv == a.Scan.IV
}

// nameOf returns the declaration of which t is the name.
func nameOf(t *Term) *Term {
	for t != nil && t.Op == "conv" {
		t = t.Args[0]
	}
	if a := ldAddr(t); a != nil && a.Op == "fld" && a.Aux == "Name" {
		if b := ldAddr(a.Args[0]); b != nil && b.Op == "fld" && b.Aux == "Name" {
			return stripTa(b.Args[0])
		}
	}
	if t != nil && t.Op == "call" && strings.HasSuffix(t.Aux, "ast.Ident).String") && len(t.Args) == 1 {
		if b := ldAddr(t.Args[0]); b != nil && b.Op == "fld" && b.Aux == "Name" {
			return stripTa(b.Args[0])
		}
	}
	return nil
}

func stripTa(t *Term) *Term {
	for t != nil && t.Op == "ta" {
		t = t.Args[0]
	}
	return t
}

func fieldLoad(t *Term, name string) *Term {
	if a := ldAddr(t); a != nil && a.Op == "fld" && a.Aux == name {
		return stripTa(a.Args[0])
	}
	return nil
}

// declFacts is what a path knows about a declaration or specification.
type declFacts struct {
	fn, gen, spec, strct, recvNil, isType, prefix tri
}

func (st *State) declFacts(d *Term) (r declFacts) {
	for t, v := range st.facts {
		switch t.Op {
		case "taok":
			switch {
			case stripTa(t.Args[0]) == d:
				switch t.Aux {
				case "*go/ast.FuncDecl":
					r.fn = triOf(v)
				case "*go/ast.GenDecl":
					r.gen = triOf(v)
				case "*go/ast.TypeSpec":
					r.spec = triOf(v)
				}
			case t.Aux == "*go/ast.StructType" && fieldLoad(t.Args[0], "Type") == d:
				r.strct = triOf(v)
			}
		case "eq":
			for i, a := range t.Args {
				if fieldLoad(a, "Recv") == d && t.Args[1-i].Op == "nil" {
					r.recvNil = triOf(v)
				}
			}
		case "eq0":
			l := linOf(t.Args[0])
			if len(l.c) != 1 {
				break
			}
			for a, k := range l.c {
				if fieldLoad(a, "Tok") == d && (k == 1 || k == -1) {
					if -l.k*k == int64(token.TYPE) {
						r.isType = triOf(v)
					} else if v {
						r.isType = -1
					}
				}
			}
		case "call", "res":
			if strings.HasPrefix(t.Aux, "strings.HasPrefix") && len(t.Args) == 2 {
				if lw := lowerOf(t.Args[0]); lw != nil && nameOf(lw) == d && isPrefixArg(t.Args[1]) {
					r.prefix = triOf(v)
				}
			}
			if t.Aux == "strings.EqualFold" && len(t.Args) == 2 && mentionsAny(t, func(x *Term) bool { return nameOf(x) == d }) && (isPrefixArg(t.Args[0]) || isPrefixArg(t.Args[1])) {
				r.prefix = triOf(v)
			}
		case "pos":
			l := linOf(t.Args[0])
			var n, p bool
			for a := range l.c {
				if a.Op == "len" && nameOf(a.Args[0]) == d {
					n = true
				}
				if a.Op == "len" && isPrefixArg(a.Args[0]) {
					p = true
				}
			}
			if n && p && len(l.c) == 2 {
				for a := range l.c {
					if a.Op == "len" && nameOf(a.Args[0]) == d {
						diff := linOf(a)
						for b := range l.c {
							if b != a {
								diff = diff.add(linOf(b), -1)
							}
						}
						if _, hi := st.rng(diff); hi < 0 {
							r.prefix = -1
						}
					}
				}
			}
		}
	}
	if isNamedPtr(d, "go/ast.FuncDecl") {
		r.fn = 1
	}
	if isNamedPtr(d, "go/ast.GenDecl") {
		r.gen = 1
	}
	if isNamedPtr(d, "go/ast.TypeSpec") {
		r.spec = 1
	}
	return
}

func lowerOf(t *Term) *Term {
	for t != nil && t.Op == "conv" {
		t = t.Args[0]
	}
	if t != nil && (t.Op == "call" || t.Op == "res") && t.Aux == "strings.ToLower" && len(t.Args) == 1 {
		return t.Args[0]
	}
	return nil
}

// isPrefixArg: t is the prefix of live functions and types.
func isPrefixArg(t *Term) bool {
	if l := lowerOf(t); l != nil {
		t = l
	}
	return t != nil && (t.Op == "fv" && t.Aux == prefixField || ldAddr(t) != nil && ldAddr(t).Op == "fld" && ldAddr(t).Aux == prefixField || t.Op == "param" && isStringType(typOr(t.Typ)))
}

// prefixField is the name of the field which holds the prefix.
var prefixField = "livePrefix"

func listElem(t *Term) string {
	if t == nil || t.Typ == nil {
		return ""
	}
	if s, ok := t.Typ.Underlying().(*types.Slice); ok {
		return types.TypeString(s.Elem(), nil)
	}
	return ""
}

func (l *liveRun) mon(m *Mon, e *Engine, st *State, ev *Event) {
	if e.inGo > 0 {
		return
	}
	switch ev.Kind {
	case EvAlloc:
		if len(st.loops) > 0 && ev.Val != nil {
			if _, ok := typOr(ev.Val.Typ).Underlying().(*types.Map); ok {
				m.put("inner:"+itoa(ev.Val.ID), 1)
			}
		}
	case EvAppend:
		for _, a := range ev.Args[1:] {
			if d := nameOf(a); d != nil {
				l.registered(m, e, st, ev, d)
				m.bind("pend:"+itoa(d.ID), d)
			}
		}
		if len(ev.Args) > 1 && isStringType(typOr(ev.Args[1].Typ)) && nameOf(ev.Args[1]) == nil || len(ev.Args) > 1 && isErrorType(typOr(ev.Args[1].Typ)) {
			m.put("err", 1) // a list of errors
		}
	case EvMapUpdate:
		l.update(m, e, st, ev)
	case EvStore:
		if !isIntType(typOr(ptrElem(typOr(ev.Addr.Typ)))) || baseObj(ev.Addr) == nil || baseObj(ev.Addr).Op != "new" {
			return
		}
		if v := linOf(ev.Val); v.k >= 1 {
			m.put("err", 1)
			m.bind("errcell:"+itoa(ev.Addr.ID), ev.Addr)
		}
	case EvIterBegin:
		l.begin(m, e, st, ev)
	case EvIterEnd:
		l.iteration(m, e, st, ev)
	case EvLoopExit:
		l.exit(m, e, st, ev)
	case EvOpaque:
		if e.w.effects(ev.Fn).any(creators...) {
			l.generate(m, e, st, ev)
		}
	case EvExt:
		switch {
		case createsFile(ev.Name):
			l.generate(m, e, st, ev)
		case ev.Name == "(*text/template.Template).Execute" || ev.Name == "(*text/template.Template).ExecuteTemplate":
			l.execute(m, e, st, ev)
		}
	case EvExit:
		if ev.Kind2 == "return" && ev.Err != ErrNonNil {
			if m.has("regs") && !m.has("genloop") {
				e.Violate(st, ev.Pos, "generated", "the generation may end without the code which registers live functions and types")
			}
		}
	}
}

func (l *liveRun) registered(m *Mon, e *Engine, st *State, ev *Event, d *Term) {
	f := st.declFacts(d)
	kind := ""
	switch {
	case f.fn > 0:
		kind = "func"
	case f.spec > 0:
		kind = "type"
	default:
		return
	}
	m.put("regs", 1)
	m.put("reg:"+itoa(d.ID), 1)
	m.bind("kind:"+kind+":"+itoa(d.ID), d)
	if f.prefix <= 0 {
		e.Violate(st, ev.Pos, "other", "a %s may be registered although its name has not got the prefix", kind)
	}
	if kind == "func" {
		e.Count("registered functions")
		if f.recvNil <= 0 {
			e.Violate(st, ev.Pos, "method", "a method may be registered")
		}
	} else {
		e.Count("registered types")
		if f.strct <= 0 {
			e.Violate(st, ev.Pos, "struct", "a type may be registered although it is not a struct")
		}
	}
	// the set of names
	n := 0
	memberships(st, func(set, key *Term, in bool) {
		if nameOf(key) != d {
			return
		}
		if in && m.has("fresh:"+itoa(set.ID)+":"+itoa(d.ID)) || !in {
			n++
			m.bind("set:"+kind+":"+itoa(set.ID), set)
			if m.has("inner:" + itoa(set.ID)) {
				e.Violate(st, ev.Pos, "duplicate", "the set of names which a name is looked up in does not contain those of the whole build")
			}
		}
	})
	if n == 0 {
		e.Violate(st, ev.Pos, "duplicate", "a %s is registered although its name may have been registered before", kind)
	}
}

func (l *liveRun) update(m *Mon, e *Engine, st *State, ev *Event) {
	if d := nameOf(ev.Key); d != nil {
		fresh := ev.OldOk == tFalse || ev.OldVal == tFalse
		memberships(st, func(set, key *Term, in bool) {
			if set == ev.Addr && key == ev.Key && !in {
				fresh = true
			}
		})
		if fresh {
			m.put("fresh:"+itoa(ev.Addr.ID)+":"+itoa(d.ID), 1)
		}
		m.put("added:"+itoa(ev.Addr.ID)+":"+itoa(d.ID), 1)
		// a set of names may be filled before or after the name is put on a list
		return
	}
	if ev.Val != nil && ev.Val.Op == "app" {
		for _, a := range ev.Val.Args[1:] {
			d := nameOf(a)
			if d == nil {
				continue
			}
			for _, k := range []string{"func", "type"} {
				if m.term("kind:"+k+":"+itoa(d.ID)) != nil {
					m.bind("list:"+k, ev.Addr)
					old := ev.Val.Args[0]
					if o := ldAddr(old); old.Op != "nil" && (o == nil || o.Op != "mapel" || o.Args[0] != ev.Addr || o.Args[1] != ev.Key) {
						if !(ev.OldVal != nil && ev.OldVal == old) {
							e.Violate(st, ev.Pos, "list", "a list of live names is replaced by another one")
						}
					}
				}
			}
		}
	}
	m.bind("up:"+itoa(ev.Addr.ID), ev.Addr)
	m.bind("upkey:"+itoa(ev.Addr.ID), ev.Key)
}

func (l *liveRun) begin(m *Mon, e *Engine, st *State, ev *Event) {
	list := st.scanList(ev.Act)
	switch listElem(list) {
	case "go/ast.Decl", "go/ast.Spec":
		m.put("err", 0)
		m.drop("up:")
		m.drop("upkey:")
	}
}

func (l *liveRun) iteration(m *Mon, e *Engine, st *State, ev *Event) {
	a := ev.Act
	if l.genLoop(e.w, a) {
		if !m.has("gennow") {
			e.Violate(st, ev.Pos, "generated", "the code which registers live functions and types is not generated for every package which has some")
		}
		m.put("gennow", 0)
		return
	}
	if a.Scan != nil && a.Scan.Kind == "map" {
		return
	}
	list := st.scanList(a)
	if list == nil {
		return
	}
	kind := listElem(list)
	var d *Term
	find := func(t *Term) {
		visit(t, func(x *Term) bool {
			if elemOfAct(x, a, list) {
				d = x
				return false
			}
			return d == nil
		})
	}
	for t := range st.facts {
		find(t)
	}
	for _, k := range m.keys("kind:") {
		find(m.term(k))
	}
	for _, k := range m.keys("it:") {
		if d == nil {
			find(m.term(k))
		}
	}
	done := func(field string) bool {
		if d == nil {
			return false
		}
		for _, k := range m.keys("it:") {
			if fieldLoad(m.term(k), field) == d {
				return true
			}
		}
		return false
	}
	empty := func(field string) bool {
		for t, v := range st.facts {
			if t.Op == "pos" && !v || t.Op == "eq0" && v {
				r := false
				visit(t, func(x *Term) bool {
					if x.Op == "len" && d != nil && fieldLoad(x.Args[0], field) == d {
						r = true
					}
					return true
				})
				if r {
					return true
				}
			}
		}
		return false
	}
	switch kind {
	case "*golang.org/x/tools/go/packages.Package":
		if !l.collects(e.w, a) {
			return
		}
		e.Count("packages")
		if !done("Syntax") && !empty("GoFiles") && !empty("Syntax") {
			e.Violate(st, ev.Pos, "skipped", "the files of a package are not looked at")
		}
	case "*go/ast.File":
		e.Count("files")
		if !done("Decls") && !empty("Decls") {
			e.Violate(st, ev.Pos, "skipped", "the declarations of a file are not looked at")
		}
	case "go/ast.Decl":
		e.Count("declarations")
		if d == nil {
			e.Violate(st, ev.Pos, "skipped", "a declaration is passed over without being looked at")
			return
		}
		f := st.declFacts(d)
		reg := m.has("reg:" + itoa(d.ID))
		switch {
		case reg:
			l.settle(m, e, st, ev, d, f)
		case f.fn > 0:
			if f.recvNil < 0 || f.prefix < 0 {
				break
			}
			if !m.has("err") {
				e.Violate(st, ev.Pos, "skipped", "a function may be passed over although its name has the prefix")
			} else {
				e.Count("errors counted")
			}
		case f.gen > 0:
			if f.isType >= 0 && !done("Specs") && !empty("Specs") {
				e.Violate(st, ev.Pos, "skipped", "the types of a declaration are not looked at")
			}
		case f.fn < 0 && f.gen < 0:
		default:
			e.Violate(st, ev.Pos, "skipped", "a declaration may be passed over although it declares a function or types")
		}
		m.drop("kind:")
		m.drop("pend:")
		m.drop("it:")
	case "go/ast.Spec":
		e.Count("specifications")
		if d == nil {
			e.Violate(st, ev.Pos, "skipped", "a type is passed over without being looked at")
			return
		}
		f := st.declFacts(d)
		switch {
		case m.has("reg:" + itoa(d.ID)):
			l.settle(m, e, st, ev, d, f)
		case f.spec < 0 || f.prefix < 0:
		case m.has("err"):
			e.Count("errors counted")
		default:
			e.Violate(st, ev.Pos, "skipped", "a type may be passed over although its name has the prefix")
		}
		m.drop("kind:")
		m.drop("pend:")
	}
}

// settle: the declaration was registered in this iteration.
func (l *liveRun) settle(m *Mon, e *Engine, st *State, ev *Event, d *Term, f declFacts) {
	m.put("reg:"+itoa(d.ID), 0)
	kind := "type"
	if f.fn > 0 {
		kind = "func"
	}
	added := false
	for _, k := range m.keys("set:" + kind + ":") {
		id := strings.TrimPrefix(k, "set:"+kind+":")
		if m.has("added:" + id + ":" + itoa(d.ID)) {
			added = true
			m.put("names:"+kind+":"+id, 1)
			m.bind("nameset:"+kind, m.term(k))
			m.put("added:"+id+":"+itoa(d.ID), 0)
			m.put("fresh:"+id+":"+itoa(d.ID), 0)
		}
	}
	if !added {
		e.Violate(st, ev.Pos, "duplicate", "the name of a registered %s is not remembered, so that a second one with the same name is not found", kind)
	}
	if x, y := m.term("nameset:func"), m.term("nameset:type"); x != nil && y != nil && x != y {
		e.Violate(st, ev.Pos, "duplicate", "a function and a type with the same name are not found because their names are kept apart")
	}
	// where the package is noted
	lst := m.term("list:" + kind)
	if lst == nil {
		return
	}
	key := m.term("upkey:" + itoa(lst.ID))
	for _, k := range m.keys("up:") {
		mp := m.term(k)
		if mp != nil && key != nil && m.term("upkey:"+itoa(mp.ID)) == key {
			m.put("dm:"+kind+":"+itoa(mp.ID), 1)
		}
	}
}

// collects: the loop looks at declarations.
func (l *liveRun) collects(w *World, a *LoopAct) bool {
	if a.L == nil {
		return false
	}
	is := func(fn *ssa.Function, in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			if s, ok := structOf(ptrElem(x.X.Type())); ok && s.Field(x.Field).Name() == "Syntax" {
				return true
			}
		}
		return false
	}
	for b := range a.L.blocks {
		for _, in := range b.Instrs {
			if is(nil, in) {
				return true
			}
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && w.inModule(f) {
					for g := range w.staticReach(f) {
						for _, bb := range g.Blocks {
							for _, i := range bb.Instrs {
								if is(g, i) {
									return true
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (l *liveRun) genLoop(w *World, a *LoopAct) bool {
	if a == nil || a.L == nil {
		return false
	}
	if l.gens[a.L.fn] {
		// the template is executed in a loop of the function itself
		for b := range a.L.blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && strings.Contains(c.Call.StaticCallee().String(), "text/template.Template).Execute") {
					return true
				}
			}
		}
	}
	for b := range a.L.blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && w.inModule(f) {
					for g := range w.staticReach(f) {
						if l.gens[g] {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (l *liveRun) exit(m *Mon, e *Engine, st *State, ev *Event) {
	a := ev.Act
	if l.genLoop(e.w, a) {
		if ev.Break {
			m.put("genbroke", 1)
		} else {
			m.put("genloop", 1)
		}
		return
	}
	if a.L == nil {
		return
	}
	list := st.scanList(a)
	switch k := listElem(list); k {
	case "*golang.org/x/tools/go/packages.Package", "*go/ast.File", "go/ast.Decl", "go/ast.Spec":
		if k == "*golang.org/x/tools/go/packages.Package" && !l.collects(e.w, a) {
			return
		}
		if ev.Break {
			m.put("broke", 1)
			m.bind("brokeat", mkStr(e.w.pos(ev.Pos)))
			return
		}
		m.bind("it:"+itoa(list.ID), list)
	case "":
		// a part of a list?
		if a.Scan != nil && a.Scan.Kind != "map" && !ev.Break {
			for t := range a.Scan.To.c {
				if t.Op == "len" && strings.HasPrefix(listElem(t.Args[0]), "go/ast.") {
					m.put("broke", 1)
					m.bind("brokeat", mkStr(e.w.pos(ev.Pos)))
				}
			}
		}
	}
}

// generate: a file is about to be written.
func (l *liveRun) generate(m *Mon, e *Engine, st *State, ev *Event) {
	if m.has("generating") {
		return
	}
	m.put("generating", 1)
	if m.has("broke") {
		s, _ := m.term("brokeat").strVal()
		e.Violate(st, ev.Pos, "skipped", "code is generated although some declarations have not been looked at: the loop at %s is left early or does not visit all elements", s)
	}
	for _, k := range m.keys("errcell:") {
		a := m.term(k)
		v := e.peek(st, a, ptrElem(typOr(a.Typ)))
		if v == nil {
			continue
		}
		e.Count("error counts")
		if _, hi := st.rng(linOf(v)); hi > 0 {
			e.Violate(st, ev.Pos, "errors", "code is generated although there may have been errors")
		}
	}
}

// execute: the template is executed.
func (l *liveRun) execute(m *Mon, e *Engine, st *State, ev *Event) {
	d := ev.Args[len(ev.Args)-1]
	if p := ptrElem(typOr(d.Typ)); p != nil {
		d = e.peek(st, d, p)
	}
	s, ok := structOf(typOr2(d))
	if !ok {
		return
	}
	m.put("gennow", 1)
	for i := 0; i < s.NumFields(); i++ {
		kind := ""
		switch s.Field(i).Name() {
		case l.reg["func"]:
			kind = "func"
		case l.reg["type"]:
			kind = "type"
		default:
			continue
		}
		e.Count("generated lists")
		v := fieldOf(d, s, i)
		lst := m.term("list:" + kind)
		if lst == nil {
			continue
		}
		if v == nil {
			e.Violate(st, ev.Pos, "list", "the code which registers live names is generated without the list of them")
			continue
		}
		ad := ldAddr(v)
		if v.Op == "nil" || ad == nil && v.Op == "zero" {
			continue
		}
		if ad == nil || ad.Op != "mapel" || ad.Args[0] != lst {
			e.Violate(st, ev.Pos, "list", "the code which registers live names is generated from another list: %s", v)
			continue
		}
		// the packages for which code is generated
		key := ad.Args[1]
		if b := ldAddr(key); b != nil && b.Op == "idx" && b.Args[0].Op == "acc" {
			// a list of the keys
			if ai := b.Args[0].Obj.(*AccInfo); ai.Full && len(ai.Pats) == 1 && ai.Act != nil && ai.Act.Scan != nil && ai.Act.Scan.Full {
				for _, a := range st.loops {
					if l.genLoop(e.w, a) && st.scanList(a) == b.Args[0] {
						key = ai.Pats[0]
					}
				}
			}
		}
		if key.Op != "rkey" {
			e.Violate(st, ev.Pos, "list", "the code which registers live names is generated from the list of another package")
			continue
		}
		over := key.Args[0]
		if over != lst && !m.has("dm:"+kind+":"+itoa(over.ID)) {
			e.Violate(st, ev.Pos, "generated", "no code is generated for a package which has a live %s only", kind)
		}
	}
}

// ---- the prefix ----

func monPrefix(m *Mon, e *Engine, st *State, ev *Event) {
	if e.inGo > 0 {
		return
	}
	f := e.w.flagField("livePrefix")
	if f == nil {
		return
	}
	prefixField = f.Name()
	isLow := func(t *Term) bool {
		return t != nil && mentionsAny(t, func(x *Term) bool { return lowerOf(x) != nil })
	}
	switch ev.Kind {
	case EvStore:
		if ev.Addr == e.cmdField(f) {
			if isLow(ev.Val) {
				m.put("low", 1)
			} else {
				m.put("low", 0)
			}
		}
	case EvOpaque:
		c, err := e.w.completeFn()
		if err != nil || ev.Fn != c && !e.w.staticReach(ev.Fn)[c] || e.w.lowersPrefix() {
			if err == nil && e.w.lowersPrefix() {
				e.Count("prefixes")
			}
			return
		}
		e.Count("prefixes")
		if !m.has("low") {
			e.Violate(st, ev.Pos, "case", "lower-cased names are compared with a prefix which may contain upper-case letters")
		}
	}
}

// lowersPrefix: the prefix is lower-cased (or case is ignored) where it is compared.
func (w *World) lowersPrefix() bool {
	n, low := 0, 0
	for _, fn := range w.prodFuncs() {
		if fn.Pkg != w.cmd {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					continue
				}
				switch c.Call.StaticCallee().String() {
				case "strings.HasPrefix":
					x, ok := c.Call.Args[0].(*ssa.Call)
					if !ok || x.Call.StaticCallee() == nil || x.Call.StaticCallee().String() != "strings.ToLower" {
						continue
					}
					n++
					if y, ok := c.Call.Args[1].(*ssa.Call); ok && y.Call.StaticCallee() != nil && y.Call.StaticCallee().String() == "strings.ToLower" {
						low++
					}
				}
			}
		}
	}
	return n == low
}

// ---- the main package ----

func monLiveMain(m *Mon, e *Engine, st *State, ev *Event) {
	elem := func(t *Term) *Term { // the package whose path t is
		return fieldLoad(t, "PkgPath")
	}
	overPackages := func(a *LoopAct) bool {
		if a == nil || a.Scan == nil || a.Scan.Kind != "map" || a.Scan.Cont == nil {
			return false
		}
		mt, ok := typOr(a.Scan.Cont.Typ).Underlying().(*types.Map)
		return ok && types.TypeString(mt.Elem(), nil) == "*golang.org/x/tools/go/packages.Package"
	}
	switch ev.Kind {
	case EvAppend:
		for _, a := range ev.Args[1:] {
			if p := elem(a); p != nil {
				m.put("app", 1)
				e.Count("imported packages")
			}
		}
	case EvIterBegin:
		m.put("app", 0)
	case EvIterEnd:
		if !overPackages(ev.Act) || m.has("app") {
			return
		}
		for t, v := range st.facts {
			if v && t.Op == "eq" && (elem(t.Args[0]) != nil || elem(t.Args[1]) != nil) {
				return
			}
		}
		e.Violate(st, ev.Pos, "import", "a package with live functions or types may not be imported by the main package")
	case EvLoopExit:
		if ev.Break && overPackages(ev.Act) {
			e.Violate(st, ev.Pos, "import", "a package with live functions or types may not be imported by the main package")
		}
	}
}

// ---- the templates ----

// liveLists finds the lists from which functions and types are registered.
func (w *World) liveLists() (fn, typ string, bad []string, n int) {
	reFn := regexp.MustCompile(`^\w+\.RegisterFunc\("\x00",\x00\)$`)
	reTy := regexp.MustCompile(`^\w+\.RegisterType\("\x00",func\(\)(interface\{\}|any)\{return(&\x00\{\}|new\(\x00\))\}\)$`)
	for name, text := range w.templates() {
		if !strings.Contains(text, "RegisterFunc(\"") {
			continue
		}
		n++
		trees, err := parse.Parse(name, text, "", "", map[string]any{"printf": 0, "len": 0, "index": 0, "eq": 0, "ne": 0, "and": 0, "or": 0, "not": 0, "print": 0, "html": 0})
		if err != nil || trees[name] == nil {
			bad = append(bad, "the template cannot be parsed")
			continue
		}
		for _, nd := range trees[name].Root.Nodes {
			x, ok := nd.(*parse.RangeNode)
			if !ok {
				if _, ok := nd.(*parse.IfNode); ok {
					bad = append(bad, "the registration of live names depends on a condition")
				}
				continue
			}
			list := ""
			if len(x.Pipe.Decl) == 0 && len(x.Pipe.Cmds) == 1 && len(x.Pipe.Cmds[0].Args) == 1 {
				if f, ok := x.Pipe.Cmds[0].Args[0].(*parse.FieldNode); ok && len(f.Ident) == 1 {
					list = f.Ident[0]
				}
			}
			var sb strings.Builder
			for _, y := range x.List.Nodes {
				switch z := y.(type) {
				case *parse.TextNode:
					sb.Write(z.Text)
				case *parse.ActionNode:
					if z.Pipe.String() == "." {
						sb.WriteByte(0)
					} else {
						sb.WriteString("{{" + z.Pipe.String() + "}}")
					}
				default:
					sb.WriteString("?")
				}
			}
			body := strings.Map(func(r rune) rune {
				if r == ' ' || r == '\t' || r == '\n' || r == '\r' || r == ';' {
					return -1
				}
				return r
			}, sb.String())
			switch {
			case list != "" && reFn.MatchString(body):
				fn = list
			case list != "" && reTy.MatchString(body):
				typ = list
			default:
				bad = append(bad, "an element of a list is not registered under its own name")
			}
		}
	}
	if fn == "" {
		bad = append(bad, "live functions are not registered")
	}
	if typ == "" {
		bad = append(bad, "live types are not registered")
	}
	return
}

// importsAll: the template imports every package of a list.
func importsAll(name, text string) bool {
	trees, err := parse.Parse(name, text, "", "", map[string]any{"printf": 0, "len": 0, "index": 0, "eq": 0, "ne": 0, "and": 0, "or": 0, "not": 0, "print": 0, "html": 0})
	if err != nil || trees[name] == nil {
		return false
	}
	for _, nd := range trees[name].Root.Nodes {
		x, ok := nd.(*parse.RangeNode)
		if !ok || len(x.Pipe.Cmds) != 1 || len(x.Pipe.Cmds[0].Args) != 1 {
			continue
		}
		if _, ok := x.Pipe.Cmds[0].Args[0].(*parse.FieldNode); !ok {
			continue
		}
		var sb strings.Builder
		for _, y := range x.List.Nodes {
			switch z := y.(type) {
			case *parse.TextNode:
				sb.Write(z.Text)
			case *parse.ActionNode:
				sb.WriteString(z.Pipe.String())
			default:
				sb.WriteString("?")
			}
		}
		switch strings.Join(strings.Fields(sb.String()), " ") {
		case `_ "."`, `import _ "."`, "_ `.`":
			return true
		}
	}
	return false
}

var actionRex = regexp.MustCompile(`(?s)\{\{.*?\}\}`)

func ruleLiveTemplates(w *World, r *Report) {
	_, _, bad, n := w.liveLists()
	for i := 0; i < n; i++ {
		r.Count("templates")
	}
	for _, b := range bad {
		r.Violate("template", "cli/hotswap/cmd", "%s", b)
	}
	for name, text := range w.templates() {
		isBureau := strings.Contains(text, "func RegisterFunc")
		isMain := strings.Contains(text, "func HotswapLiveFuncs")
		if !isBureau && !isMain {
			continue
		}
		r.Count("templates")
		if isMain && !importsAll(name, text) {
			r.Violate("template", name, "the packages with live functions and types are not imported")
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, actionRex.ReplaceAllString(strings.ReplaceAll(text, `_ "{{.}}"`, ""), "x"), parser.SkipObjectResolution)
		if err != nil {
			f, err = parser.ParseFile(fset, name, regexp.MustCompile(`(?s)import \(.*?\n\)`).ReplaceAllString(actionRex.ReplaceAllString(text, "x"), ""), parser.SkipObjectResolution)
		}
		if err != nil {
			r.Violate("template", name, "the generated code cannot be parsed: %v", err)
			continue
		}
		found := map[string]bool{}
		for _, dcl := range f.Decls {
			fd, ok := dcl.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			nm := fd.Name.Name
			switch nm {
			case "RegisterFunc", "RegisterType":
				want := "LiveFuncs"
				if nm == "RegisterType" {
					want = "LiveTypes"
				}
				var ps []string
				for _, p := range fd.Type.Params.List {
					for _, q := range p.Names {
						ps = append(ps, q.Name)
					}
				}
				stores := 0
				// conditions are about the same name in the same map
				aboutName := func(x *ast.IfStmt) bool {
					good := false
					for _, y := range []ast.Node{x.Init, x.Cond} {
						if y == nil {
							continue
						}
						ast.Inspect(y, func(n ast.Node) bool {
							if ix, ok := n.(*ast.IndexExpr); ok {
								m, _ := ix.X.(*ast.Ident)
								k, _ := ix.Index.(*ast.Ident)
								if m != nil && k != nil && len(ps) == 2 && k.Name == ps[0] && (m.Name == want || m.Name == "LiveFuncs" || m.Name == "LiveTypes") {
									good = true
								}
							}
							return true
						})
					}
					return good
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.IfStmt:
						if !aboutName(x) {
							r.Violate("template", name, "%s may ignore what it is given", nm)
						}
					case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.GoStmt:
						r.Violate("template", name, "%s may ignore what it is given", nm)
					}
					return true
				})
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					as, ok := n.(*ast.AssignStmt)
					if !ok || as.Tok != token.ASSIGN || len(as.Lhs) != 1 {
						return true
					}
					ix, ok := as.Lhs[0].(*ast.IndexExpr)
					if !ok || len(ps) != 2 {
						return true
					}
					x, _ := ix.X.(*ast.Ident)
					k, _ := ix.Index.(*ast.Ident)
					v, _ := as.Rhs[0].(*ast.Ident)
					if x != nil && k != nil && v != nil && x.Name == want && k.Name == ps[0] && v.Name == ps[1] {
						stores++
					}
					return true
				})
				if stores == 0 {
					r.Violate("template", name, "%s does not store what it is given in %s", nm, want)
				}
				found[nm] = true
			case "HotswapLiveFuncs", "HotswapLiveTypes":
				want := strings.TrimPrefix(nm, "Hotswap")
				good := false
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					if rt, ok := n.(*ast.ReturnStmt); ok && len(rt.Results) == 1 {
						if s, ok := rt.Results[0].(*ast.SelectorExpr); ok && s.Sel.Name == want {
							good = true
						}
					}
					return true
				})
				if !good {
					r.Violate("template", name, "%s does not return the registered %s", nm, want)
				}
				found[nm] = true
			}
		}
		for _, nm := range map[bool][]string{true: {"RegisterFunc", "RegisterType"}, false: {"HotswapLiveFuncs", "HotswapLiveTypes"}}[isBureau] {
			if !found[nm] {
				r.Violate("template", name, "the generated code has no function %s", nm)
			}
		}
	}
}
