package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:   "C39",
		Rule: "everything the build command writes to the temporary directory under a name of the plugin's own is traced, through lists and channels, to the places where the name is collected; on every path to such a place the name of the entry is known not to end in _test.go, and to end in .go and not to be one of the names of the generated files, or to match the expression of --include and not to match that of --exclude unless none was given; every file filter handed to the parser rejects *_test.go on all of its paths; the package loader is never asked for tests",
		Rules: []func(w *World, r *Report){copyRules, func(w *World, r *Report) {
			x := &modular{w: w, r: r}
			x.inD = func(fn *ssa.Function) bool {
				return (fn.Pkg == w.cmd || fn.Pkg == w.hut) && w.effects(fn).any("go/parser.ParseDir", "go/parser.ParseFile")
			}
			x.keep = func(c *Term) bool {
				return mentionsAny(c, func(t *Term) bool { return isSuffixTest(t, "_test.go") })
			}
			x.mon = func(x *modular) func() Monitor { return mon(monFilters) }
			x.run()
		}},
		Floor: map[string]int{"copied files": 1, "places where files are collected": 1, "filters": 1, "package loads": 1, "generated names": 1},
	})
}

func monFilters(m *Mon, e *Engine, st *State, ev *Event) {
	if ev.Kind != EvExt {
		return
	}
	switch ev.Name {
	case "go/parser.ParseDir":
		e.Count("filters")
		if s := e.rejectsTests(st, ev.Args[2], ev.Instr, ev.Ctx); s != "" {
			e.Violate(st, ev.Pos, "tests", "%s when a directory is parsed", s)
		}
	case "go/parser.ParseFile":
		e.Count("filters")
		for t, v := range st.facts {
			if !v && isSuffixTest(t, "_test.go") {
				return
			}
		}
		e.Violate(st, ev.Pos, "tests", "a file is parsed whose name is not known not to end in _test.go")
	}
}

// regexpFields are the fields which hold the expressions of --include and --exclude.
func (w *World) regexpField(flag string) string {
	f := w.flagField(flag)
	if f == nil {
		return ""
	}
	for _, fn := range w.prodFuncs() {
		if fn.Pkg != w.cmd {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || !strings.HasPrefix(s.Val.Type().String(), "*regexp.") {
					continue
				}
				d, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || namedPtr(d.X.Type()) != w.buildCmdT {
					continue
				}
				from := w.flagsBehind(s.Val)
				if len(from) == 1 && from[f] {
					s, _ := structOf(w.buildCmdT)
					return s.Field(d.Field).Name()
				}
			}
		}
	}
	return ""
}

// flagsBehind: the fields of the command from which the value is computed, in the function or by what it calls with them.
func (w *World) flagsBehind(v ssa.Value) map[*types.Var]bool {
	from := map[*types.Var]bool{}
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value)
	f = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Extract:
			f(x.Tuple)
		case *ssa.Phi:
			for _, y := range x.Edges {
				f(y)
			}
		case *ssa.ChangeType:
			f(x.X)
		case *ssa.Convert:
			f(x.X)
		case *ssa.BinOp:
			f(x.X)
			f(x.Y)
		case *ssa.Call:
			for _, y := range x.Call.Args {
				f(y)
			}
		case *ssa.UnOp:
			switch y := x.X.(type) {
			case *ssa.FieldAddr:
				if namedPtr(y.X.Type()) == w.buildCmdT {
					s, _ := structOf(w.buildCmdT)
					from[s.Field(y.Field)] = true
				}
			case *ssa.Alloc:
				for _, in := range *y.Referrers() {
					if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(y) {
						f(s.Val)
					}
				}
			}
		}
	}
	f(v)
	return from
}

// entryOf: t is a name of the entry of a directory which a walk has found.
func entryOf(t *Term) *Term {
	for i := 0; t != nil && i < 8; i++ {
		switch {
		case walkRoot(t) != nil:
			return t
		case isBase(t) != nil:
			t = isBase(t)
		case t.Op == "conv" || t.Op == "call" && (t.Aux == "path/filepath.Clean" || t.Aux == "path/filepath.ToSlash" || t.Aux == "path.Clean"):
			t = t.Args[0]
		case isRes(t, "path/filepath.Rel") && len(t.Args) == 2:
			t = t.Args[1]
		default:
			return nil
		}
	}
	return nil
}

type selection struct {
	test, goFile, dir tri
	reserved          tri
	inc, exc          tri // matches
	noInc, noExc      bool
}

type tri int8 // -1 known not to, 0 unknown, 1 known to

func triOf(v bool) tri {
	if v {
		return 1
	}
	return -1
}

type copyRun struct {
	w        *World
	inc, exc string
	gen      map[string]bool
	targets  map[ssa.Value]bool
	state    map[ssa.Instruction]int // 1: only suitable names were seen, 2: others too
	why      map[ssa.Instruction]string
	site     map[ssa.Instruction]ssa.Instruction // the walk in which the place lies
	omits    map[ssa.Instruction]*Violation
	writes   int
}

// regexpRole: t is the expression of --include or --exclude.
func (c *copyRun) regexpRole(e *Engine, t *Term) string {
	if t == nil {
		return ""
	}
	if a := ldAddr(t); a != nil && a.Op == "fld" {
		switch a.Aux {
		case c.inc:
			return "include"
		case c.exc:
			return "exclude"
		}
	}
	if t.Op == "res" && strings.HasPrefix(resName(t), "regexp.") && len(t.Args) == 1 {
		for _, f := range []string{"include", "exclude"} {
			if v := e.w.flagField(f); v != nil {
				if a := ldAddr(t.Args[0]); a != nil && a.Op == "fld" && a.Aux == v.Name() {
					return f
				}
			}
		}
	}
	return ""
}

func (c *copyRun) about(e *Engine, st *State, p *Term) (s selection) {
	eqs := map[string]tri{}
	for t, v := range st.facts {
		switch {
		case t.Op == "call" && t.Aux == "strings.HasSuffix" && entryOf(t.Args[0]) == p:
			switch suf, _ := t.Args[1].strVal(); suf {
			case "_test.go":
				s.test = triOf(v)
			case ".go":
				s.goFile = triOf(v)
			}
		case t.Op == "call" && t.Aux == "strings.HasPrefix" && entryOf(t.Args[0]) == p && isBase(t.Args[0]) != nil:
			if pre, _ := t.Args[1].strVal(); pre == reservedPrefix || pre == reservedPrefix+"." {
				if !v {
					s.reserved = -1
				}
			}
		case strings.HasSuffix(t.Aux, "fs.DirEntry).IsDir") && len(t.Args) == 1 && isBaseOfEntry(t.Args[0]) == p:
			s.dir = triOf(v)
		case (t.Op == "call" && strings.HasPrefix(t.Aux, "(*regexp.Regexp).Match") || t.Op == "res" && strings.HasPrefix(resName(t), "(*regexp.Regexp).Match")) && len(t.Args) == 2:
			a := t.Args[1]
			if entryOf(a) != p {
				continue
			}
			switch c.regexpRole(e, t.Args[0]) {
			case "include":
				s.inc = triOf(v)
			case "exclude":
				s.exc = triOf(v)
			}
		case t.Op == "eq" && len(t.Args) == 2:
			for i, a := range t.Args {
				b := t.Args[1-i]
				if k, ok := b.strVal(); ok {
					if a.Op == "call" && strings.HasSuffix(a.Aux, ".Ext") && entryOf(a.Args[0]) == p && k == ".go" {
						s.goFile = triOf(v)
					}
					if isBase(a) != nil && entryOf(a) == p {
						eqs[k] = triOf(v)
					}
				}
			}
		}
	}
	memberships(st, func(set, key *Term, in bool) {
		if entryOf(key) != p || isBase(key) == nil {
			return
		}
		g, _ := set.Obj.(*ssa.Global)
		if g == nil {
			return
		}
		ks, ok := e.w.setKeys(g)
		if !ok {
			return
		}
		if in {
			if e.w.reservedSet(set) {
				s.reserved = 1
			}
			return
		}
		have := map[string]bool{}
		for _, k := range ks {
			have[k] = true
		}
		for k := range c.gen {
			if !have[k] {
				return
			}
		}
		s.reserved = -1
	})
	if s.reserved == 0 && len(c.gen) > 0 {
		all := true
		for k := range c.gen {
			all = all && eqs[k] == -1
			if eqs[k] == 1 {
				s.reserved = 1
			}
		}
		if all {
			s.reserved = -1
		}
	}
	s.noInc, s.noExc = c.without(e, st, "include"), c.without(e, st, "exclude")
	return
}

func isBaseOfEntry(t *Term) *Term {
	if t.Op == "res" && resName(t) == "walkentry" {
		return t.Args[0]
	}
	return nil
}

// without: no expression was given.
func (c *copyRun) without(e *Engine, st *State, flag string) bool {
	fl := e.w.flagField(flag)
	name := c.inc
	if flag == "exclude" {
		name = c.exc
	}
	a := e.cmdField(e.w.dirField(name))
	if fl == nil || a == nil {
		return false
	}
	cur := st.heap[a]
	given := tri(0)
	for t, v := range st.facts {
		isFlag := func(x *Term) bool {
			b := ldAddr(x)
			return b != nil && b.Op == "fld" && b.Aux == fl.Name()
		}
		switch {
		case t.Op == "eq0" && t.Args[0].Op == "len" && isFlag(t.Args[0].Args[0]):
			given = -triOf(v)
		case t.Op == "pos" && t.Args[0].Op == "len" && isFlag(t.Args[0].Args[0]):
			given = triOf(v)
		}
	}
	if given == -1 {
		return true
	}
	// what has been compiled is not nil
	if cur == nil || cur.Op != "res" {
		return false
	}
	v, known := st.isNil(cur)
	return known && v
}

func (s selection) suitable() string {
	switch {
	case s.test != -1:
		return "a file whose name may end in _test.go is copied"
	case s.goFile == 1 && s.reserved == -1:
		return ""
	case s.goFile == 1:
		return "a Go file which may be a generated file left behind is copied"
	case s.inc != 1:
		return "a file which is neither known to be a Go file nor known to be selected by --include is copied"
	case !s.noExc && s.exc != -1:
		return "a file which --exclude may exclude is copied"
	case s.goFile == 0 && s.reserved != -1:
		return "a generated file left behind may be copied"
	}
	return ""
}

// rejected: there is a reason not to copy the file.
func (s selection) rejected() bool {
	return s.dir == 1 || s.test == 1 || s.reserved == 1 || s.goFile == -1 && (s.inc == -1 || s.noInc || s.exc == 1)
}

func copyRules(w *World, r *Report) {
	entry, err := w.executeFn()
	if err != nil {
		r.Violate("anchor", "cli/hotswap/cmd", "%v", err)
		return
	}
	complete, err := w.completeFn()
	if err != nil {
		r.Violate("anchor", "cli/hotswap/cmd", "%v", err)
		return
	}
	c := &copyRun{w: w, inc: w.regexpField("include"), exc: w.regexpField("exclude"), gen: map[string]bool{}, targets: map[ssa.Value]bool{},
		state: map[ssa.Instruction]int{}, why: map[ssa.Instruction]string{}, site: map[ssa.Instruction]ssa.Instruction{}, omits: map[ssa.Instruction]*Violation{}}
	if c.inc == "" || c.exc == "" {
		r.Violate("expressions", w.pos(entry.Pos()), "the expressions of --include and --exclude are not compiled from these flags, each into a field of its own")
	}
	// the files which are generated in the directory of a plugin
	for _, fn := range w.prodFuncs() {
		if fn.Pkg != w.cmd {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !strings.HasSuffix(call.Call.StaticCallee().String(), "filepath.Join") {
					continue
				}
				vs := variadic(call)
				if len(vs) < 2 {
					continue
				}
				k, _ := vs[len(vs)-1].(*ssa.Const)
				if k == nil || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				if n := constant.StringVal(k.Value); reservedName(n) && strings.HasSuffix(n, ".go") && !isOutputDir(vs[0]) {
					c.gen[n] = true
				}
			}
		}
	}
	for range c.gen {
		r.Count("generated names")
	}
	c.loads(r)

	cfg := defaultCfg(w)
	cfg.Name = "execute"
	cliCfg(func(t *Term) bool {
		return mentionsAny(t, func(t *Term) bool {
			if t.Op == "mapok" || t.Op == "mapel" || isBase(t) != nil || walkRoot(t) != nil {
				return true
			}
			if t.Op == "res" && strings.HasPrefix(resName(t), "regexp.") {
				return true
			}
			a := t
			if b := ldAddr(t); b != nil {
				a = b
			}
			if a.Op == "fld" {
				for _, f := range []string{"include", "exclude"} {
					if v := w.flagField(f); v != nil && v.Name() == a.Aux {
						return true
					}
				}
				return a.Aux == c.inc || a.Aux == c.exc
			}
			return false
		})
	})(w, &cfg)
	cfg.MaxWork = 3000000
	cfg.Pure = func(f *ssa.Function) bool { return false }
	cfg.OpaquePanics = true
	cfg.Opaque = func(f *ssa.Function) bool {
		if f == entry || f.Parent() != nil {
			return false
		}
		if f == complete {
			return true
		}
		return !smallFn(f) && !(f.Pkg == w.cmd && w.effects(f).any(append([]string{"path/filepath.WalkDir", "path/filepath.Walk", "strings.HasSuffix", "path/filepath.Ext", "path/filepath.Base", "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match"}, creators...)...))
	}
	e := newEngine(w, cfg)
	e.Run(entry, mon(c.monitor)())
	r.Viol = append(r.Viol, e.viol...)
	for k, v := range e.Notes {
		r.Notes[k] += v
	}
	for f := range e.funcs {
		r.Funcs = append(r.Funcs, f.String())
	}
	r.Paths, r.Events, r.Work, r.Calls = r.Paths+e.paths, r.Events+e.events, r.Work+e.work, r.Calls+len(e.calls)

	// trace the names
	seen := map[ssa.Value]bool{}
	places := map[ssa.Instruction]bool{}
	walks := map[ssa.Instruction]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		fs, ok := w.fills(v)
		if !ok || len(fs) == 0 {
			r.Violate("unknown", w.pos(v.Pos()), "it is unclear which files are copied: %s", v)
			return
		}
		for _, f := range fs {
			switch c.state[f.in] {
			case 1:
				if !places[f.in] {
					places[f.in] = true
					r.Count("places where files are collected")
				}
				walks[c.site[f.in]] = true
			case 3:
				visit(f.elem)
			case 2:
				if !places[f.in] {
					places[f.in] = true
					r.Count("places where files are collected")
					r.Violate("selection", w.pos(f.in.Pos()), "%s", c.why[f.in])
				}
			default:
				visit(f.elem)
			}
		}
	}
	for v := range c.targets {
		visit(v)
	}
	for wk := range walks {
		if v := c.omits[wk]; v != nil {
			r.Viol = append(r.Viol, v)
		}
	}
}

func isOutputDir(v ssa.Value) bool {
	for i := 0; i < 4; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			s, ok := structOf(namedPtr(x.X.Type()))
			return ok && s.Field(x.Field).Name() == "outputDir"
		case *ssa.Field:
			s, ok := structOf(x.X.Type())
			return ok && s.Field(x.Field).Name() == "outputDir"
		default:
			return false
		}
	}
	return false
}

// variadic lists the arguments of a call of a variadic function with one parameter.
func variadic(c *ssa.Call) (r []ssa.Value) {
	if len(c.Call.Args) != 1 {
		return nil
	}
	sl, ok := c.Call.Args[0].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	m := map[int64]ssa.Value{}
	for _, in := range *al.Referrers() {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, in2 := range *ia.Referrers() {
			if s, ok := in2.(*ssa.Store); ok {
				m[k.Int64()] = s.Val
			}
		}
	}
	for i := int64(0); i < int64(len(m)); i++ {
		r = append(r, m[i])
	}
	return
}

// loads: the package loader is not asked for tests.
func (c *copyRun) loads(r *Report) {
	for _, fn := range c.w.prodFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().String() == "golang.org/x/tools/go/packages.Load" {
					r.Count("package loads")
				}
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := namedPtr(fa.X.Type())
				if n == nil || n.String() != "golang.org/x/tools/go/packages.Config" {
					continue
				}
				st, _ := structOf(n)
				if st.Field(fa.Field).Name() == "Tests" {
					if k, ok := s.Val.(*ssa.Const); !ok || k.Value == nil || constant.BoolVal(k.Value) {
						r.Violate("tests", c.w.pos(in.Pos()), "the package loader is asked for test files")
					}
				}
			}
		}
	}
}

// lastElems lists the values which may be the last element of a path made by filepath.Join.
func (w *World) lastElems(v ssa.Value) (r []ssa.Value, ok bool) {
	seen := map[ssa.Value]bool{}
	ok = true
	var f func(v ssa.Value)
	f = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, y := range x.Edges {
				f(y)
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && strings.HasSuffix(g.String(), "path/filepath.Join") {
				if vs := variadic(x); len(vs) > 0 {
					r = append(r, vs[len(vs)-1])
					return
				}
			}
			ok = false
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if c := w.cellOf(x.X); c != nil {
					for _, s := range w.cellStores(c) {
						f(s)
					}
					return
				}
			}
			ok = false
		case *ssa.Parameter:
			i := 0
			for i < len(x.Parent().Params) && x.Parent().Params[i] != x {
				i++
			}
			n := 0
			for _, g := range w.prodFuncs() {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if c, k := in.(ssa.CallInstruction); k && w.calleeOf(c) == x.Parent() && i < len(c.Common().Args) {
							n++
							f(c.Common().Args[i])
						}
					}
				}
			}
			if n == 0 {
				ok = false
			}
		default:
			ok = false
		}
	}
	f(v)
	return
}

func (c *copyRun) monitor(m *Mon, e *Engine, st *State, ev *Event) {
	note := func(in ssa.Instruction, t *Term) {
		p := entryOf(t)
		if p == nil {
			if c.state[in] == 0 {
				c.state[in] = 3
			}
			return
		}
		m.put("collected:"+itoa(p.ID), 1)
		if w := walkOf(st); w != nil {
			c.site[in] = w
		}
		if s := c.about(e, st, p).suitable(); s != "" {
			c.state[in], c.why[in] = 2, s
		} else if c.state[in] != 2 {
			c.state[in] = 1
		}
	}
	switch ev.Kind {
	case EvAppend:
		for _, t := range ev.Args[1:] {
			note(ev.Instr, t)
		}
	case EvSend:
		note(ev.Instr, ev.Val)
	case EvStore:
		if s, ok := ev.Instr.(*ssa.Store); ok {
			if ia, ok := s.Addr.(*ssa.IndexAddr); ok && isStringType(ptrElem(ia.Type())) {
				note(ev.Instr, ev.Val)
			}
		}
	case EvExtRet:
		if strings.HasPrefix(ev.Name, "(*regexp.Regexp).Match") && len(ev.Args) == 2 && entryOf(ev.Args[1]) != nil {
			if role := c.regexpRole(e, ev.Args[0]); role != "" {
				m.bind("match:"+role, ev.Res[0])
			}
		}
		// another name of the entry: what is known about it is to be remembered
		if ev.Name == "path/filepath.Rel" && len(ev.Res) > 0 && entryOf(ev.Res[0]) != nil {
			m.bind("name:"+itoa(ev.Res[0].ID), ev.Res[0])
		}
	case EvIterBegin:
		m.drop("match:")
		m.drop("name:")
		if ev.Val != nil && walkRoot(ev.Val) != nil {
			if ev.Err == ErrNil {
				m.bind("entry", ev.Val)
				m.put("collected:"+itoa(ev.Val.ID), 0)
			} else {
				m.drop("entry")
			}
		}
	case EvIterEnd:
		p := m.term("entry")
		if p == nil || walkOf(st) != ev.Instr {
			return
		}
		if strings.Contains(ev.Kind2, "Skip") && c.omits[ev.Instr] == nil {
			n := len(e.viol)
			e.Violate(st, ev.Pos, "omitted", "the walk skips a whole directory: files which are to be copied may be left out")
			if len(e.viol) > n {
				c.omits[ev.Instr] = e.viol[n]
				e.viol = e.viol[:n]
			}
			return
		}
		if m.has("collected:" + itoa(p.ID)) {
			return
		}
		if s := c.about(e, st, p); !s.rejected() && c.omits[ev.Instr] == nil {
			n := len(e.viol)
			e.Violate(st, ev.Pos, "omitted", "a file which is to be copied may be left out")
			if len(e.viol) > n {
				c.omits[ev.Instr] = e.viol[n]
				e.viol = e.viol[:n]
			}
		}
	case EvExt:
		if !destructive(ev.Name) {
			return
		}
		switch ev.Name {
		case "os.Remove", "os.RemoveAll", "os.Truncate", "os.MkdirAll", "os.Mkdir", "os/exec.Command", "os/exec.CommandContext":
			return
		}
		i := 0
		if ev.Name == "os.Rename" || ev.Name == "os.Symlink" || ev.Name == "os.Link" {
			i = 1
		}
		t := ev.Args[i]
		if c := e.classify(st, t); c == nil || c.Kind != "temp" {
			return
		}
		e.Count("copied files")
		for isJoin(t) {
			t = t.Args[len(t.Args)-1]
		}
		if p := entryOf(t); p != nil {
			note(ev.Instr, t)
			if c.state[ev.Instr] == 2 {
				e.Violate(st, ev.Pos, "selection", "%s", c.why[ev.Instr])
			}
			e.Count("places where files are collected")
			return
		}
		ci, ok := ev.Instr.(ssa.CallInstruction)
		if !ok || i >= len(ci.Common().Args) {
			return
		}
		vs, ok := e.w.lastElems(ci.Common().Args[i])
		if !ok || len(vs) == 0 {
			e.Violate(st, ev.Pos, "unknown", "it is unclear which files are copied: %s", ev.Args[i])
			return
		}
		for _, v := range vs {
			c.targets[v] = true
		}
	}
}

// walkOf is the innermost walk of a directory tree.
func walkOf(st *State) ssa.Instruction {
	for i := len(st.loops) - 1; i >= 0; i-- {
		if c, ok := st.loops[i].Site.(ssa.CallInstruction); ok {
			if f := c.Common().StaticCallee(); f != nil && strings.HasPrefix(f.String(), "path/filepath.Walk") {
				return c
			}
		}
	}
	return nil
}
