package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:   "C40",
		Rule: "every path on which the list of plugin functions is produced has looked, in a complete loop over the required names (the seven of the plugin itself, and the two generated ones in static mode), whether a declaration of that name was seen, and none was missing; only a function declaration without receiver in a package parsed from the plugin directory by a filter which rejects *_test.go counts as such a declaration; a path on which a name is missing ends in a panic built from the complete list of missing names; the compiler is started, and the init file is written, only on paths on which that list has been produced, unless the environment switches the check off",
		Runs: []Run{
			{Name: "generator", Entry: (*World).generatorFn, Mon: mon(monC40)},
			{Name: "init", Entry: (*World).initFn, Mon: mon(func(m *Mon, e *Engine, st *State, ev *Event) {
				m.monInit(e, st, ev, func(rule, f string, a ...interface{}) {
					if rule == "unchecked" {
						e.Violate(st, ev.Pos, rule, f, a...)
					}
				})
			}), Cfg: initCfg},
			{Name: "execute", Entry: (*World).executeFn, Mon: mon(monC40x), Cfg: func(w *World, c *RunCfg) {
				execCfg(nil)(w, c)
				nc := c.NoCond
				c.NoCond = func(t *Term) bool {
					return nc(t) && !mentionsAny(t, func(x *Term) bool { return isRes(x, "os.Getenv") || isRes(x, "os.LookupEnv") })
				}
			}},
		},
		Floor: map[string]int{"required functions": 9, "declarations": 1, "refusals": 1, "filters": 1, "compilations": 1, "init files": 1},
	})
}

// initCfg: the function which lists the plugin functions is opaque.
func initCfg(w *World, c *RunCfg) {
	gen, _ := w.generatorFn()
	c.Opaque = func(fn *ssa.Function) bool { return fn == gen }
}

// generatorFn is the function which produces the list of plugin functions.
func (w *World) generatorFn() (*ssa.Function, error) {
	var r []*ssa.Function
	for _, fn := range w.prodFuncs() {
		if fn.Pkg != w.cmd || fn.Parent() != nil || fn.Signature.Results().Len() == 0 {
			continue
		}
		sl, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if _, ok := structOf(sl.Elem()); !ok {
			continue
		}
		for g := range w.staticReach(fn) {
			if w.externCalls(g)["go/parser.ParseDir"] {
				r = append(r, fn)
				break
			}
		}
	}
	if len(r) != 1 {
		return nil, fmt.Errorf("found %d functions which list the functions of a plugin", len(r))
	}
	return r[0], nil
}

// quiet explores a function value without a monitor.
func (e *Engine) quiet(st *State, fnv *Term, args []*Term, in ssa.Instruction, ctx *Ctx) []*Outcome {
	if fnv == nil || fnv.Op != "fn" {
		return nil
	}
	st2 := st.clone()
	st2.mon = &Mon{fn: func(*Mon, *Engine, *State, *Event) {}}
	fn := fnv.Obj.(*ssa.Function)
	return e.exec(fn, args, fnv.Args, st2, mkCtx(ctx, in, fn), false)
}

// isSuffixTest: t says whether something ends in suf.
func isSuffixTest(t *Term, suf string) bool {
	if t.Op == "call" && t.Aux == "strings.HasSuffix" {
		s, ok := t.Args[1].strVal()
		return ok && s == suf
	}
	return false
}

// rejectsTests says whether a file filter is known to reject *_test.go.
func (e *Engine) rejectsTests(st *State, filter *Term, in ssa.Instruction, ctx *Ctx) string {
	if filter == nil || filter.Op != "fn" {
		return "no filter which rejects *_test.go is applied"
	}
	fn := filter.Obj.(*ssa.Function)
	if len(fn.Params) == 0 {
		return "the filter has no parameter"
	}
	info := mkSite("res", "fileinfo", fn.Params[len(fn.Params)-1].Type(), in, ctx)
	n := 0
	for _, o := range e.quiet(st, filter, []*Term{info}, in, ctx) {
		if o.kind != okRet {
			continue
		}
		if !o.st.assume(o.vals[0], true) {
			continue
		}
		n++
		ok := false
		for t, v := range o.st.facts {
			if !v && isSuffixTest(t, "_test.go") && mentions(t, info) {
				ok = true
			}
		}
		if !ok {
			return "the filter accepts files whose name is not known not to end in _test.go"
		}
	}
	if n == 0 {
		return "the filter accepts no file"
	}
	return ""
}

// declOf: t is the name of a declaration.
func (e *Engine) declOf(t *Term) *Term {
	if isRes(t, "(*go/ast.Ident).String") {
		t = t.Args[0]
	} else if a := ldAddr(t); a != nil && a.Op == "fld" && a.Aux == "Name" {
		t = a.Args[0]
	} else {
		return nil
	}
	if a := ldAddr(t); a != nil && a.Op == "fld" && a.Aux == "Name" {
		return a.Args[0]
	}
	return nil
}

func isNamedPtr(t *Term, name string) bool {
	n := namedPtr(typOr(t.Typ))
	return n != nil && n.String() == name
}

// requiredNames are the names of the functions a plugin declares; generated tells which of them the tool adds.
func (w *World) requiredNames() (all []string, generated map[string]bool) {
	generated = map[string]bool{}
	for _, f := range w.funcFields() {
		s := symbolOf(f)
		all = append(all, s)
		if strings.HasPrefix(s, "Hotswap") {
			generated[s] = true
		}
	}
	return
}

// elemKey: t is the current element of a loop over names (the key of a map or the element of a list of strings).
func (e *Engine) elemKey(st *State, t *Term) (*LoopAct, *Term) {
	if t == nil || !isStringType(typOr(t.Typ)) {
		return nil, nil
	}
	if t.Op == "rkey" {
		if a := actOf(st, t); a != nil {
			return a, a.Scan.Cont
		}
		return nil, nil
	}
	if a := ldAddr(t); a != nil && a.Op == "idx" {
		if c, act, _ := e.contOf(st, t); act != nil {
			return act, c
		}
	}
	return nil, nil
}

// partAll: the names the loop looks at are those of a whole list, not of a part of it.
func partAll(e *Engine, st *State, k string) bool {
	all := true
	look := func(t *Term) {
		visit(t, func(x *Term) bool {
			if a := ldAddr(x); a != nil && a.Op == "mapel" {
				x = a.Args[1]
			} else if x.Op == "mapok" {
				x = x.Args[1]
			} else {
				return true
			}
			if a := ldAddr(x); a != nil && a.Op == "idx" && isStringType(typOr(x.Typ)) {
				if _, act, full := e.contOf(st, x); act != nil && act.key0() == k && !full {
					all = false
				}
			}
			return true
		})
	}
	for t := range st.facts {
		look(t)
	}
	for t := range st.heap {
		if t.Op == "mapok" {
			look(t)
		}
	}
	return all
}

// monGen tracks which names have been declared and which are missing.
func (m *Mon) monGen(e *Engine, st *State, ev *Event, viol func(rule, format string, a ...interface{})) {
	if e.inGo > 0 {
		return
	}
	switch ev.Kind {
	case EvMapUpdate:
		mt, ok := typOr(ev.Addr.Typ).Underlying().(*types.Map)
		if !ok || !isStringType(mt.Key()) {
			return
		}
		if s, ok := ev.Key.strVal(); ok {
			m.put(fmt.Sprintf("req:%d:%s", ev.Addr.ID, s), 1)
			return
		}
		d := e.declOf(ev.Key)
		if d == nil {
			return
		}
		if !e.isFuncDecl(st, d) {
			viol("declaration", "something else than a function declaration counts as a required function")
			return
		}
		e.Count("declarations")
		if !e.nilField(st, d, "Recv") {
			viol("method", "a declaration which may be a method counts as a required function")
		}
		if !mentionsAny(d, func(t *Term) bool { return t.Op == "res" && resName(t) == "go/parser.ParseDir" }) {
			viol("source", "a declaration which does not come from the plugin directory counts as a required function")
		}
		m.bind("decl", ev.Addr)
	case EvDelete:
		if s, ok := ev.Key.strVal(); ok {
			m.put(fmt.Sprintf("req:%d:%s", ev.Addr.ID, s), 0)
			m.put(fmt.Sprintf("del:%s", s), 1)
		}
	case EvExt:
		switch ev.Name {
		case "go/parser.ParseDir":
			e.Count("filters")
			if s := e.rejectsTests(st, ev.Args[2], ev.Instr, ev.Ctx); s != "" {
				viol("tests", "%s when the functions of a plugin are looked up", s)
			}
			if len(e.entParams) > 0 && ev.Args[1] != e.entParams[0] {
				viol("directory", "the functions of a plugin are not looked up in its own directory")
			}
		case "go/parser.ParseFile":
			m.put("file", 1)
		case "sort.Strings", "slices.Sort", "slices.Sort[[]string string]", "slices.Sort[[]string]":
			// the same names in another order
			if l, ok := e.elems(st, ev.Args[0]); ok {
				for _, x := range l {
					if s, ok := x.strVal(); ok {
						m.put(fmt.Sprintf("req:%d:%s", ev.Args[0].ID, s), 1)
						m.put(fmt.Sprintf("req:%d:%s", e.normList(st, ev.Args[0]).ID, s), 1)
					}
				}
			}
		}
	case EvAppend:
		for _, x := range ev.Args[1:] {
			if a, _ := e.elemKey(st, x); a != nil && a.L != nil {
				m.put("app:"+a.key0(), 1)
			}
		}
	case EvIterEnd:
		a := ev.Act
		if a.L == nil || a.Scan == nil {
			return
		}
		k := a.key0()
		// does the iteration decide about a name?
		var known, missing bool
		var cont *Term
		look := func(t *Term, v bool) {
			switch t.Op {
			case "mapok": // presence
				if act, c := e.elemKey(st, t.Args[1]); act != nil && act.key0() == k && t.Args[0] != c {
					cont = c
					known, missing = known || v, missing || !v
				}
			case "eq": // value other than the initial one
				x, c := t.Args[0], t.Args[1]
				if x.isConst() {
					x, c = c, x
				}
				if !c.isConst() {
					return
				}
				if ad := e.addrOf(st, x); ad != nil && ad.Op == "mapel" {
					if act, cc := e.elemKey(st, ad.Args[1]); act != nil && act.key0() == k {
						cont = cc
						known, missing = known || !v, missing || v
					}
				}
			default: // truth
				if ad := e.addrOf(st, t); ad != nil && ad.Op == "mapel" {
					if act, cc := e.elemKey(st, ad.Args[1]); act != nil && act.key0() == k {
						cont = cc
						known, missing = known || v, missing || !v
					}
				}
			}
		}
		for t, v := range st.facts {
			look(t, v)
		}
		for t, v := range st.heap {
			if t.Op == "mapok" && v.isConst() {
				look(t, v == tTrue)
			}
		}
		if cont == nil {
			return
		}
		m.bind("names:"+k, cont)
		if a.Scan.Kind == "slice" && !partAll(e, st, k) {
			m.put("part:"+k, 1)
		}
		switch {
		case missing && m.has("app:"+k):
			m.put("miss:"+k, 1)
		case missing:
			m.put("skip:"+k, 1)
		case known:
		}
		m.put("app:"+k, 0)
	case EvLoopExit:
		a := ev.Act
		if a.L == nil {
			return
		}
		k := a.key0()
		if c := m.term("names:" + k); c != nil {
			if ev.Break || a.Scan == nil || !a.Scan.Full && a.Scan.Kind != "slice" {
				if m.has("miss:"+k) || m.has("app:"+k) || ev.Break {
					m.put("early", 1)
				}
			} else if !m.has("skip:" + k) {
				if !m.has("part:" + k) {
					m.bind("checked", c)
				}
				if m.has("miss:" + k) {
					m.put("miss", 1)
					m.put("lst:"+k, 1)
				}
			} else {
				m.put("miss", 1)
				m.put("skipped", 1)
			}
		}
		for _, f := range []string{"app:", "miss:", "skip:", "part:"} {
			m.put(f+k, 0)
		}
		m.bind("names:"+k, nil)
	}
}

// addrOf: x is the value at the address (heap or load).
func (e *Engine) addrOf(st *State, x *Term) *Term {
	if a := ldAddr(x); a != nil {
		return a
	}
	return nil
}

// isFuncDecl: the declaration is known to be one of a function.
func (e *Engine) isFuncDecl(st *State, d *Term) bool {
	if isNamedPtr(d, "go/ast.FuncDecl") {
		return true
	}
	for t, v := range st.facts {
		if v && t.Op == "taok" && t.Aux == "*go/ast.FuncDecl" && t.Args[0] == d {
			return true
		}
	}
	return false
}

// nilField: the field is known to be nil.
func (e *Engine) nilField(st *State, obj *Term, name string) bool {
	for t, v := range st.facts {
		if v && t.Op == "eq" {
			for _, x := range t.Args {
				if a := ldAddr(x); a != nil && a.Op == "fld" && a.Aux == name && a.Args[0] == obj && (t.Args[0].Op == "nil" || t.Args[1].Op == "nil") {
					return true
				}
			}
		}
	}
	return false
}

func monC40(m *Mon, e *Engine, st *State, ev *Event) {
	m.monGen(e, st, ev, func(rule, f string, a ...interface{}) { e.Violate(st, ev.Pos, rule, f, a...) })
	if ev.Kind != EvExit {
		return
	}
	if ev.Kind2 == "return" {
		if m.has("file") {
			e.Violate(st, ev.Pos, "source", "files are parsed one by one: it is not known which of them belong to the root package")
		}
		if m.has("miss") || m.has("early") {
			e.Violate(st, ev.Pos, "accepted", "the plugin is accepted although it does not declare a required function")
			return
		}
		c := m.term("checked")
		if c == nil {
			// nothing was missing because nothing was required
			e.Violate(st, ev.Pos, "unchecked", "the plugin is accepted although it is not known to declare every required function")
			return
		}
		names, gen := e.w.requiredNames()
		var lack []string
		for _, n := range names {
			e.Count("required functions")
			if !e.nameIn(st, m, c, n) && !gen[n] {
				lack = append(lack, n)
			}
			if gen[n] && !e.nameIn(st, m, c, n) && !m.noPkgName(e, st) {
				lack = append(lack, n)
			}
		}
		if len(lack) > 0 {
			e.Violate(st, ev.Pos, "unchecked", "the plugin is accepted without a check for %s", strings.Join(lack, ", "))
		}
		return
	}
	if ev.Kind2 == "panic" && (m.has("miss") || m.has("early")) {
		e.Count("refusals")
		if m.has("early") || m.has("skipped") {
			e.Violate(st, ev.Pos, "incomplete-list", "the plugin is refused at the first missing function: the error does not name all of them")
			return
		}
		p := ev.Panic
		if p == nil {
			p = st.panik
		}
		if p != nil && !mentionsAny(p, func(t *Term) bool { return t.Op == "acc" && m.has("lst:"+t.Obj.(*AccInfo).Loop) }) {
			e.Violate(st, ev.Pos, "incomplete-list", "the plugin is refused but the error is not built from the whole list of missing functions")
		}
	}
}

// noPkgName: the path knows that no package name was given.
func (m *Mon) noPkgName(e *Engine, st *State) bool {
	for _, p := range e.entParams[1:] {
		if isStringType(typOr(p.Typ)) && (st.isTrue(mkEq(p, mkStr(""))) || m.has("nopkg")) {
			return true
		}
	}
	return false
}

// nameIn: the constant n is one of the names in a map or list.
func (e *Engine) nameIn(st *State, m *Mon, c *Term, n string) bool {
	if m.has(fmt.Sprintf("req:%d:%s", c.ID, n)) {
		return true
	}
	c = e.normList(st, c)
	if c.Op == "acc" {
		ai := c.Obj.(*AccInfo)
		if ai.Full && len(ai.Pats) == 1 && ai.Pats[0].Op == "rkey" && ai.Act != nil && ai.Act.Scan != nil && ai.Act.Scan.Kind == "map" {
			return m.has(fmt.Sprintf("req:%d:%s", ai.Pats[0].Args[0].ID, n))
		}
	}
	if l, ok := e.elems(st, c); ok {
		for _, x := range l {
			if s, ok := x.strVal(); ok && s == n {
				return true
			}
		}
	}
	return false
}

// ---- the order of the functions ----

func monNewFuncs(m *Mon, e *Engine, st *State, ev *Event) {
	if ev.Kind != EvExit || ev.Kind2 != "return" || len(ev.Results) != 1 {
		return
	}
	r := ev.Results[0]
	prev := ""
	byParam := map[*Term]string{}
	s, _ := structOf(e.w.pluginFuncsT)
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		v := fieldOf(r, s, i)
		if v == nil || v.Op != "param" {
			if _, ok := s.Field(i).Type().Underlying().(*types.Signature); ok {
				e.Violate(st, ev.Pos, "order", "%s is not set to a parameter", n)
			}
			continue
		}
		if byParam[v] != "" {
			e.Violate(st, ev.Pos, "order", "%s and %s are set to the same parameter", n, byParam[v])
		}
		byParam[v] = n
	}
	for _, p := range e.entParams {
		e.Count("parameters")
		n := byParam[p]
		if n == "" {
			e.Violate(st, ev.Pos, "order", "parameter %s is not stored in any function", p)
			continue
		}
		sym := symbolOf(n)
		if sym <= prev {
			e.Violate(st, ev.Pos, "order", "the parameter for %s follows that for %s: the generated code passes the functions in the order of their names", sym, prev)
		}
		prev = sym
	}
}

// monGenOrder: the generator lists the functions in the order of their names.
func monGenOrder(m *Mon, e *Engine, st *State, ev *Event) {
	m.monGen(e, st, ev, func(string, string, ...interface{}) {})
	switch ev.Kind {
	case EvExt:
		switch ev.Name {
		case "sort.Strings", "slices.Sort":
			m.bind("sorted", ev.Args[0])
		}
	case EvAppend:
		if m.term("sorted") == ev.Args[0] {
			m.bind("sorted", nil)
		}
	case EvIterBegin:
		if s := ev.Act.Scan; s != nil && ev.Act.L != nil {
			m.put("cur:"+ev.Act.key0(), 1)
		}
	case EvIterEnd:
		a := ev.Act
		if a.L == nil {
			return
		}
		// the struct appended is checked at the exit
	case EvMapUpdate:
		if d := e.declOf(ev.Key); d != nil && isStringType(typOr(ev.Val.Typ)) {
			e.Count("expressions")
			if !mentions(ev.Val, ev.Key) {
				e.Violate(st, ev.Pos, "expression", "the expression for a function is not made of its name")
			}
		}
	case EvExit:
		if ev.Kind2 != "return" {
			return
		}
		r := ev.Results[0]
		if r.Op == "nil" || m.term("checked") == nil {
			return
		}
		if r.Op != "acc" {
			e.Violate(st, ev.Pos, "order", "the list of functions is not known to be in the order of their names")
			return
		}
		ai := r.Obj.(*AccInfo)
		if !ai.Full || len(ai.Pats) != 1 || !e.emptyList(st, ai.Init) && ai.Init.Op != "nil" {
			e.Violate(st, ev.Pos, "order", "the list of functions does not have one entry for each of them")
			return
		}
		if ai.Act == nil || ai.Act.Scan == nil || ai.Act.Scan.Kind != "slice" {
			e.Violate(st, ev.Pos, "order", "the list of functions is not made from a sorted list of names")
			return
		}
		s, ok := structOf(typOr(ai.Pats[0].Typ))
		if !ok {
			return
		}
		e.Count("generator")
		var elem *Term
		for i := 0; i < s.NumFields(); i++ {
			visit(fieldOf(ai.Pats[0], s, i), func(x *Term) bool {
				if a := ldAddr(x); a != nil && a.Op == "idx" && isStringType(typOr(x.Typ)) {
					if iv, k := ivIn(linOf(a.Args[1])); iv != nil && k == 1 {
						elem = a
					}
				}
				return true
			})
		}
		if elem == nil || m.term("sorted") != e.normList(st, elem.Args[0]) && m.term("sorted") != elem.Args[0] {
			e.Violate(st, ev.Pos, "order", "the list of functions is not made from a sorted list of names")
			return
		}
		// every field is a function of the name
		f := e.w.exprField()
		for i := 0; i < s.NumFields(); i++ {
			v := fieldOf(ai.Pats[0], s, i)
			if s.Field(i).Name() != f || v == nil {
				continue
			}
			a := ldAddr(v)
			if !(a != nil && a.Op == "mapel" && ldAddr(a.Args[1]) == elem) && !(v.Op == "call" && v.Aux == "fmt.Sprintf" && mentionsAny(v, func(t *Term) bool { return ldAddr(t) == elem })) {
				e.Violate(st, ev.Pos, "expression", "the expression listed for a function does not belong to its name")
			}
		}
	}
}

// initTemplate is the template of the code which calls NewPluginFuncs.
func (w *World) initTemplate() (name string, trees map[string]*parse.Tree, err error) {
	dir := filepath.Join(repoDir, "cli/hotswap/cmd")
	fs, _ := filepath.Glob(filepath.Join(dir, "*.tpl"))
	for _, f := range fs {
		b, e := os.ReadFile(f)
		if e != nil || !strings.Contains(string(b), "NewPluginFuncs(") {
			continue
		}
		if name != "" {
			return "", nil, fmt.Errorf("two templates call NewPluginFuncs")
		}
		name = filepath.Base(f)
		trees, err = parse.Parse(name, string(b), "", "", map[string]any{"printf": 0, "len": 0, "index": 0, "eq": 0, "ne": 0, "and": 0, "or": 0, "not": 0, "print": 0, "html": 0})
	}
	if name == "" {
		err = fmt.Errorf("no template calls NewPluginFuncs")
	}
	return
}

// exprField is the field of a row which the template prints.
func (w *World) exprField() string {
	_, f, _ := w.templateRange()
	return f
}

func (w *World) templateRange() (list, field string, bad string) {
	name, trees, err := w.initTemplate()
	if err != nil {
		return "", "", err.Error()
	}
	n := 0
	var walk func(l *parse.ListNode, open bool) bool
	inCall := false
	walk = func(l *parse.ListNode, rng bool) bool {
		if l == nil {
			return true
		}
		for _, nd := range l.Nodes {
			switch x := nd.(type) {
			case *parse.TextNode:
				s := string(x.Text)
				if i := strings.LastIndex(s, "NewPluginFuncs("); i >= 0 {
					inCall = true
					s = s[i+len("NewPluginFuncs("):]
				}
				if inCall && !rng && strings.Contains(strings.TrimSpace(s), ")") {
					inCall = false
				}
			case *parse.RangeNode:
				if !inCall {
					continue
				}
				n++
				if len(x.Pipe.Decl) != 0 || len(x.Pipe.Cmds) != 1 || len(x.Pipe.Cmds[0].Args) != 1 || x.ElseList != nil && len(x.ElseList.Nodes) > 0 {
					bad = "the arguments of NewPluginFuncs are not one list"
					continue
				}
				fn, ok := x.Pipe.Cmds[0].Args[0].(*parse.FieldNode)
				if !ok || len(fn.Ident) != 1 {
					bad = "the arguments of NewPluginFuncs are not one list"
					continue
				}
				list = fn.Ident[0]
				acts := 0
				for _, y := range x.List.Nodes {
					switch z := y.(type) {
					case *parse.TextNode:
						if t := strings.TrimSpace(string(z.Text)); t != "" && t != "," {
							bad = "the arguments of NewPluginFuncs contain the text " + t
						}
					case *parse.ActionNode:
						acts++
						if len(z.Pipe.Cmds) == 1 && len(z.Pipe.Cmds[0].Args) == 1 {
							if f, ok := z.Pipe.Cmds[0].Args[0].(*parse.FieldNode); ok && len(f.Ident) == 1 {
								field = f.Ident[0]
								continue
							}
						}
						bad = "an argument of NewPluginFuncs is not one field of a row"
					default:
						bad = "the arguments of NewPluginFuncs depend on a condition"
					}
				}
				if acts != 1 {
					bad = "a row does not produce one argument of NewPluginFuncs"
				}
			default:
				if inCall {
					bad = "the arguments of NewPluginFuncs depend on a condition"
				}
			}
		}
		return true
	}
	t := trees[name]
	if t == nil {
		return "", "", "the template cannot be parsed"
	}
	walk(t.Root, false)
	if n != 1 && bad == "" {
		bad = "the arguments of NewPluginFuncs are not one list"
	}
	return
}

// ruleGenOrder checks the template.
func ruleGenOrder(w *World, r *Report) {
	list, field, bad := w.templateRange()
	r.Count("templates")
	if bad != "" {
		r.Violate("template", "cli/hotswap/cmd", "%s", bad)
		return
	}
	r.Sample("the template passes %s of every element of %s", field, list)
}

// monInit: the init file is made from the list of the generator.
func (m *Mon) monInit(e *Engine, st *State, ev *Event, viol func(rule, format string, a ...interface{})) {
	gen, _ := e.w.generatorFn()
	switch ev.Kind {
	case EvOpaqueRet:
		if ev.Fn == gen && len(ev.Res) > 0 {
			m.bind("list", ev.Res[0])
		}
	case EvExt:
		switch {
		case ev.Name == "(*text/template.Template).Execute":
			list, _, bad := e.w.templateRange()
			if bad != "" {
				return
			}
			d := ev.Args[2]
			if p := ptrElem(typOr(d.Typ)); p != nil {
				d = e.peek(st, d, p)
			}
			s, ok := structOf(typOr2(d))
			if !ok {
				viol("list", "the functions passed to the template are not known")
				return
			}
			e.Count("lists")
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == list {
					if v := fieldOf(d, s, i); v == nil || v != m.term("list") {
						viol("list", "the functions passed to the template are not those found in the plugin")
					}
				}
			}
		case isWriteFile(ev.Name):
			e.Count("init files")
			if m.term("list") == nil {
				viol("unchecked", "the init file of a plugin is written before its functions have been checked")
			}
		}
	}
}

func typOr2(t *Term) types.Type {
	if t == nil {
		return typOr(nil)
	}
	return typOr(t.Typ)
}

func isWriteFile(n string) bool {
	switch n {
	case "os.WriteFile", "io/ioutil.WriteFile", "os.Create", "os.OpenFile":
		return true
	}
	return false
}

func monC40x(m *Mon, e *Engine, st *State, ev *Event) {
	gen, _ := e.w.generatorFn()
	switch ev.Kind {
	case EvExtRet:
		if (ev.Name == "os.Getenv" || ev.Name == "os.LookupEnv") && len(ev.Res) > 0 {
			m.bind("env", ev.Res[0])
		}
	case EvOpaqueRet:
		if ev.Fn == gen && ev.Kind2 == "" {
			m.put("gen", 1)
		}
	case EvExt:
		if strings.HasPrefix(ev.Name, "(*os/exec.Cmd).") && len(ev.Args) > 0 && e.isCompiler(st, ev.Args[0]) {
			e.Count("compilations")
			if m.has("gen") {
				return
			}
			for t, v := range st.facts {
				if t.Op == "eq" && v && mentionsAny(t, func(x *Term) bool { return isRes(x, "os.Getenv") || isRes(x, "os.LookupEnv") }) {
					return
				}
			}
			e.Violate(st, ev.Pos, "unchecked", "the compiler is started although the functions of the plugin have not been checked and the check is not switched off")
		}
	}
}
