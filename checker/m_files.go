package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:    "C31",
		Rule:  "every call which deletes, overwrites or creates files, on every path of every function of the command-line tool on which it can be reached: the target is classified symbolically; it must end in a name reserved for generated code (a constant which starts with \"hotswap\", or a format which does, or a name found in the set of reserved names), or lie in the temporary directory (a directory whose name nothing else has), or be the plugin or the output directory. Functions whose targets cannot be classified on their own are analysed within their callers; elements of lists are traced to the places which fill the lists",
		Rules: []func(w *World, r *Report){func(w *World, r *Report) { fileRules(w, r, "C31") }},
		Floor: map[string]int{"deletions": 3, "writes": 6, "new directories": 2, "compiler outputs": 1},
	})
	register(&Prop{
		ID:    "C36",
		Rule:  "every call which deletes or writes a file on every path of every function of the command-line tool: what is deleted or written in the output directory has a name made, injectively, of the whole name of the directory of the plugin, or is the file shared by all plugins, which is never deleted and whose content depends on nothing but the output directory; everything else which is deleted was found below the directory of the plugin; the generated code registers the plugin under its own name only",
		Rules: []func(w *World, r *Report){func(w *World, r *Report) { fileRules(w, r, "C36") }, templateRules},
		Floor: map[string]int{"deletions": 3, "writes": 6, "files named after the plugin": 2, "shared files": 1, "registrations": 1},
	})
}

// destructive functions delete or change files.
func destructive(name string) bool {
	switch name {
	case "os.Remove", "os.RemoveAll", "os.Truncate", "(*os.File).Truncate", "os/exec.Command", "os/exec.CommandContext", "os.Chmod":
		return true
	}
	return createsFile(name)
}

// modular explores functions one by one. A function for which violations are found although it has callers in the
// module is explored again as part of these.
type modular struct {
	w     *World
	r     *Report
	inD   func(fn *ssa.Function) bool
	mon   func(x *modular) func() Monitor
	keep  func(c *Term) bool
	after func(x *modular, fn *ssa.Function, e *Engine) []*Violation
	edit  func(c *RunCfg)

	force map[*ssa.Function]bool // analysed within their callers
	again bool

	ok   map[*ssa.Function]bool
	bad  map[*ssa.Function][]*Violation
	seen map[*ssa.Function]bool
	data map[string]map[ssa.Value]bool // of the current exploration
}

func (x *modular) mark(k string, v ssa.Value) {
	if x.data[k] == nil {
		x.data[k] = map[ssa.Value]bool{}
	}
	x.data[k][v] = true
}

func (x *modular) run() {
	x.force = map[*ssa.Function]bool{}
	out := x.r
	for i := 0; ; i++ {
		x.again, x.r = false, newReport(out.Name)
		x.runOnce()
		if !x.again || i == 3 {
			break
		}
	}
	out.add(x.r)
	x.r = out
}

func (r *Report) add(o *Report) {
	r.Viol = append(r.Viol, o.Viol...)
	for k, v := range o.Notes {
		r.Notes[k] += v
	}
	r.Funcs = append(r.Funcs, o.Funcs...)
	r.Calls, r.Paths, r.Events, r.Work = r.Calls+o.Calls, r.Paths+o.Paths, r.Events+o.Events, r.Work+o.Work
	for _, s := range o.Samples {
		r.Sample("%s", s)
	}
}

func (x *modular) runOnce() {
	w := x.w
	x.ok, x.bad, x.seen = map[*ssa.Function]bool{}, map[*ssa.Function][]*Violation{}, map[*ssa.Function]bool{}
	var d []*ssa.Function
	n := map[*ssa.Function]int{}
	for _, fn := range w.prodFuncs() {
		if fn.Parent() == nil && fn.Blocks != nil && fn.Synthetic == "" && !testHelper(fn) && x.inD(fn) {
			d = append(d, fn)
			n[fn] = len(w.staticReach(fn))
		}
	}
	sort.SliceStable(d, func(i, j int) bool {
		if n[d[i]] != n[d[j]] {
			return n[d[i]] < n[d[j]]
		}
		return d[i].String() < d[j].String()
	})
	refs := w.references()
	for _, fn := range d {
		x.explore(fn, refs[fn])
	}
	// closures which are handed to something unknown
	for again := true; again; {
		again = false
		for _, fn := range w.prodFuncs() {
			top := fn
			for top.Parent() != nil {
				top = top.Parent()
			}
			if fn.Parent() == nil || x.seen[fn] || testHelper(top) || fn.Blocks == nil || !x.inD(fn) {
				continue
			}
			again = true
			x.seen[fn] = true
			x.explore(fn, false)
		}
	}
}

func testHelper(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if strings.HasPrefix(types.TypeString(p.Type(), nil), "*testing.") {
			return true
		}
	}
	return false
}

// references lists the functions which other functions of the module refer to.
func (w *World) references() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, fn := range w.prodFuncs() {
		var ops [16]*ssa.Value
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, _ := in.(ssa.CallInstruction)
				for _, op := range in.Operands(ops[:0]) {
					if g, ok := (*op).(*ssa.Function); ok && g != fn && c != nil && c.Common().Value == ssa.Value(g) {
						r[g] = true
					}
				}
			}
		}
	}
	return r
}

func (x *modular) explore(fn *ssa.Function, called bool) {
	t0 := time.Now()
	w := x.w
	cfg := defaultCfg(w)
	cfg.Name = fn.Name()
	cliCfg(x.keep)(w, &cfg)
	cfg.MaxWork = 600000
	cfg.Pure = func(f *ssa.Function) bool { return false }
	cfg.OpaquePanics = true
	cfg.Opaque = func(f *ssa.Function) bool {
		if f == fn || f.Parent() != nil {
			return false
		}
		if x.force[f] {
			return false
		}
		if x.ok[f] {
			return true
		}
		return !x.inD(f) && !smallFn(f)
	}
	if x.edit != nil {
		x.edit(&cfg)
	}
	x.data = map[string]map[ssa.Value]bool{}
	e := newEngine(w, cfg)
	e.Run(fn, x.mon(x)())
	viol := e.viol
	if x.after != nil {
		viol = append(viol, x.after(x, fn, e)...)
	}
	if e.aborted && len(viol) == 0 {
		for f := range e.funcs {
			viol = append(viol, x.bad[f]...)
		}
		if len(viol) == 0 {
			viol = append(viol, &Violation{Rule: "undecided", Pos: w.pos(fn.Pos()), Msg: "the exploration did not finish", Entry: fn.String()})
		}
		x.r.Viol = append(x.r.Viol, viol...)
		return
	}
	x.r.Work += e.work
	// what is large is not explored again
	if len(viol) > 0 && called && e.work < 60000 {
		x.bad[fn] = viol
		x.r.Sample("%s: analysed within its callers", fn)
		return
	}
	x.ok[fn] = true
	for f := range e.funcs {
		x.seen[f] = true
		x.r.Funcs = append(x.r.Funcs, f.String())
	}
	x.r.Viol = append(x.r.Viol, viol...)
	for k, v := range e.Notes {
		x.r.Notes[k] += v
	}
	x.r.Paths += e.paths
	x.r.Events += e.events
	x.r.Calls += len(e.calls)
	x.r.Sample("%s: %d paths, %d steps, %.1fs", fn, e.paths, e.work, time.Since(t0).Seconds())
}

// ---- symbolic paths ----

// FileClass says what is known about a path.
type FileClass struct {
	Kind  string // reserved, named, found, temp
	Name  *Term  // named: what the name is made of
	Dir   *Term  // the directory, if known
	Const string // reserved: the name
	Elem  *Term  // the path which was found to have a reserved name
}

const reservedPrefix = "hotswap"

func reservedName(s string) bool {
	return strings.HasPrefix(s, reservedPrefix) && len(s) > len(reservedPrefix) && !strings.ContainsAny(s, "/\\") && !strings.Contains(s, "..")
}

// nameClass classifies the last element of a path.
func nameClass(t *Term) *FileClass {
	if t == nil {
		return nil
	}
	if s, ok := t.strVal(); ok {
		if reservedName(s) {
			return &FileClass{Kind: "reserved", Const: s}
		}
		return nil
	}
	if t.Op == "conv" {
		return nameClass(t.Args[0])
	}
	if (t.Op == "call" || t.Op == "res") && t.Aux == "fmt.Sprintf" && len(t.Args) == 2 {
		f, ok := t.Args[0].strVal()
		if ok && reservedName(strings.ReplaceAll(f, "%s", "x")) && strings.Count(f, "%") == 1 && strings.HasPrefix(f, reservedPrefix) && strings.Contains(f, "%s") {
			return &FileClass{Kind: "named", Name: t.Args[1], Const: f}
		}
		return nil
	}
	if (t.Op == "call" || t.Op == "res") && strings.HasPrefix(t.Aux, "strings.Replace") && len(t.Args) >= 3 {
		if f, ok := t.Args[0].strVal(); ok && strings.HasPrefix(f, reservedPrefix) {
			if old, ok := t.Args[1].strVal(); ok && strings.Count(f, old) == 1 {
				return &FileClass{Kind: "named", Name: t.Args[2], Const: strings.Replace(f, old, "%s", 1)}
			}
		}
		return nil
	}
	if strings.HasPrefix(t.Op, "bin") || t.Op == "cat" || t.Op == "+" {
		// prefix + name + suffix
		var parts []*Term
		var flat func(t *Term)
		flat = func(t *Term) {
			if (strings.HasPrefix(t.Op, "bin:+") || t.Op == "bin" && t.Aux == "+" || t.Op == "cat") && len(t.Args) == 2 {
				flat(t.Args[0])
				flat(t.Args[1])
				return
			}
			parts = append(parts, t)
		}
		flat(t)
		if len(parts) == 0 {
			return nil
		}
		s, ok := parts[0].strVal()
		if !ok || !strings.HasPrefix(s, reservedPrefix) || strings.ContainsAny(s, "/\\") {
			return nil
		}
		var nm *Term
		f := s
		for _, p := range parts[1:] {
			if c, ok := p.strVal(); ok {
				if strings.ContainsAny(c, "/\\") {
					return nil
				}
				f += c
				continue
			}
			if nm != nil {
				return nil
			}
			nm, f = p, f+"%s"
		}
		if nm != nil {
			return &FileClass{Kind: "named", Name: nm, Const: f}
		}
	}
	return nil
}

func isJoin(t *Term) bool {
	return t != nil && (t.Op == "call" || t.Op == "res") && (t.Aux == "path/filepath.Join" || t.Aux == "path.Join")
}

func isBase(t *Term) *Term {
	if t != nil && (t.Op == "call" || t.Op == "res") && (t.Aux == "path/filepath.Base" || t.Aux == "path.Base") {
		return t.Args[0]
	}
	if t != nil && (t.Op == "call" || t.Op == "res") && strings.HasSuffix(t.Aux, "fs.DirEntry).Name") && len(t.Args) == 1 {
		if d := t.Args[0]; d.Op == "res" && resName(d) == "walkentry" {
			return d.Args[0]
		}
	}
	return nil
}

// tempPath: the path is, or lies in, a directory whose name nothing else has.
func tempPath(t *Term) bool {
	for isJoin(t) {
		for _, a := range t.Args[1:] {
			if s, ok := a.strVal(); ok && strings.Contains(s, "..") {
				return false
			}
			if uniqueIn(a) {
				return true
			}
		}
		t = t.Args[0]
	}
	return isRes(t, "os.MkdirTemp") || isRes(t, "io/ioutil.TempDir") || t.Op != "call" && uniqueIn(t)
}

// classify says what is known about the path t in the state.
func (e *Engine) classify(st *State, t *Term) *FileClass {
	if isJoin(t) && len(t.Args) > 1 {
		if c := nameClass(t.Args[len(t.Args)-1]); c != nil {
			c.Dir = t.Args[0]
			return c
		}
	}
	if strings.HasPrefix(t.Op, "bin") && len(t.Args) == 2 {
		// dir + "/" + name
		if s, ok := t.Args[1].strVal(); ok && strings.HasPrefix(s, "/") && reservedName(s[1:]) {
			return &FileClass{Kind: "reserved", Const: s[1:], Dir: t.Args[0]}
		}
	}
	if tempPath(t) {
		return &FileClass{Kind: "temp", Dir: t}
	}
	return e.found(st, t)
}

// found: the path knows t to have a reserved name.
func (e *Engine) found(st *State, t *Term) (r *FileClass) {
	memberships(st, func(set, key *Term, in bool) {
		if in && isBase(key) == t && e.w.reservedSet(set) {
			r = &FileClass{Kind: "found", Elem: t}
		}
	})
	if r != nil {
		return
	}
	for f, v := range st.facts {
		if f.Op == "eq" && v && len(f.Args) == 2 {
			for i := range f.Args {
				if isBase(f.Args[i]) == t {
					if c := nameClass(f.Args[1-i]); c != nil {
						c.Elem = t
						return c
					}
				}
			}
		}
	}
	return nil
}

// reservedSet: the set is a variable of the command-line tool which contains reserved names only.
func (w *World) reservedSet(set *Term) bool {
	g, _ := set.Obj.(*ssa.Global)
	if g == nil {
		return false
	}
	ks, ok := w.setKeys(g)
	if !ok || len(ks) == 0 {
		return false
	}
	for _, k := range ks {
		if !reservedName(k) {
			return false
		}
	}
	return true
}

// setKeys lists the keys which a global map is initialized with, if it is never changed.
func (w *World) setKeys(g *ssa.Global) (keys []string, ok bool) {
	if w.constGlobals[g] == 0 {
		return nil, false
	}
	init := g.Pkg.Func("init")
	var maps []ssa.Value
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				maps = append(maps, s.Val)
			}
		}
	}
	if len(maps) != 1 {
		return nil, false
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok && u.Map == maps[0] {
				k, _ := u.Key.(*ssa.Const)
				if k == nil || k.Value == nil || k.Value.Kind() != constant.String {
					return nil, false
				}
				keys = append(keys, constant.StringVal(k.Value))
			}
		}
	}
	return keys, true
}

// ---- where the elements of lists come from ----

type fill struct {
	in   ssa.Instruction
	elem ssa.Value
}

// fills lists what an element of a list, or something received, may be: the places which put something there.
func (w *World) fills(v ssa.Value) (r []fill, ok bool) {
	ok = true
	seen := map[ssa.Value]bool{}
	var elem, list func(v ssa.Value)
	// what is sent to a channel
	sent := func(ch ssa.Value) {
		made := map[*ssa.MakeChan]bool{}
		if !w.madeBy(ch, made, map[ssa.Value]bool{}) || len(made) == 0 {
			ok = false
			return
		}
		same := func(c ssa.Value) bool {
			m := map[*ssa.MakeChan]bool{}
			if !types.Identical(c.Type().Underlying().(*types.Chan).Elem(), ch.Type().Underlying().(*types.Chan).Elem()) {
				return false
			}
			if !w.madeBy(c, m, map[ssa.Value]bool{}) {
				return true
			}
			for k := range m {
				if made[k] {
					return true
				}
			}
			return false
		}
		for _, g := range w.prodFuncs() {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Send:
						if same(x.Chan) {
							r = append(r, fill{x, x.X})
						}
					case *ssa.Select:
						for _, s := range x.States {
							if s.Dir == types.SendOnly && same(s.Chan) {
								r = append(r, fill{x, s.Send})
							}
						}
					}
				}
			}
		}
	}
	cells := func(addr ssa.Value, f func(v ssa.Value)) {
		c := w.cellOf(addr)
		if c == nil {
			ok = false
			return
		}
		for _, s := range w.cellStores(c) {
			f(s)
		}
	}
	calls := func(p *ssa.Parameter, f func(v ssa.Value)) {
		fn := p.Parent()
		i := 0
		for i < len(fn.Params) && fn.Params[i] != p {
			i++
		}
		n := 0
		for _, g := range w.prodFuncs() {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, k := in.(ssa.CallInstruction); k && w.calleeOf(c) == fn && i < len(c.Common().Args) {
						n++
						f(c.Common().Args[i])
					}
				}
			}
		}
		if n == 0 {
			ok = false
		}
	}
	rets := func(c *ssa.Call, idx int, f func(v ssa.Value)) {
		g := w.calleeOf(c)
		if g == nil || g.Blocks == nil || !w.inModule(g) {
			ok = false
			return
		}
		for _, b := range g.Blocks {
			if x, k := b.Instrs[len(b.Instrs)-1].(*ssa.Return); k && idx < len(x.Results) {
				f(x.Results[idx])
			}
		}
	}
	elem = func(v ssa.Value) {
		if seen[v] || !ok {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, y := range x.Edges {
				elem(y)
			}
		case *ssa.Parameter:
			calls(x, elem)
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				sent(x.X)
				return
			}
			if ia, k := x.X.(*ssa.IndexAddr); k {
				list(ia.X)
				return
			}
			cells(x.X, elem)
		case *ssa.Extract:
			switch y := x.Tuple.(type) {
			case *ssa.UnOp:
				if y.Op == token.ARROW {
					sent(y.X)
					return
				}
			case *ssa.Next:
				if rg, k := y.Iter.(*ssa.Range); k && x.Index == 2 {
					list(rg.X)
					return
				}
			case *ssa.Select:
				i := 2
				for _, s := range y.States {
					if s.Dir != types.RecvOnly {
						continue
					}
					if i == x.Index {
						sent(s.Chan)
						return
					}
					i++
				}
			}
			ok = false
		default:
			ok = false
		}
	}
	lseen := map[ssa.Value]bool{}
	list = func(v ssa.Value) {
		if lseen[v] || !ok {
			return
		}
		lseen[v] = true
		// stores into the list
		if refs := v.Referrers(); refs != nil {
			for _, in := range *refs {
				if ia, k := in.(*ssa.IndexAddr); k && ia.X == v {
					for _, in2 := range *ia.Referrers() {
						if s, k := in2.(*ssa.Store); k && s.Addr == ssa.Value(ia) {
							r = append(r, fill{s, s.Val})
						}
					}
				}
			}
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, y := range x.Edges {
				list(y)
			}
		case *ssa.Const, *ssa.MakeSlice, *ssa.Alloc:
		case *ssa.Slice:
			list(x.X)
		case *ssa.Parameter:
			calls(x, list)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				cells(x.X, list)
				return
			}
			ok = false
		case *ssa.ChangeType:
			list(x.X)
		case *ssa.Extract:
			if c, k := x.Tuple.(*ssa.Call); k {
				rets(c, x.Index, list)
				return
			}
			ok = false
		case *ssa.Call:
			if b, k := x.Call.Value.(*ssa.Builtin); k && b.Name() == "append" {
				list(x.Call.Args[0])
				if sl, k := x.Call.Args[1].(*ssa.Slice); k {
					if al, k := sl.X.(*ssa.Alloc); k {
						// the elements are checked where they are appended
						for _, in := range *al.Referrers() {
							if ia, k := in.(*ssa.IndexAddr); k {
								for _, in2 := range *ia.Referrers() {
									if s, k := in2.(*ssa.Store); k {
										r = append(r, fill{x, s.Val})
									}
								}
							}
						}
						return
					}
				}
				list(x.Call.Args[1])
				return
			}
			rets(x, 0, list)
		default:
			ok = false
		}
	}
	elem(v)
	return r, ok
}

// madeBy collects the places which create the channel.
func (w *World) madeBy(v ssa.Value, made map[*ssa.MakeChan]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeChan:
		made[x] = true
		return true
	case *ssa.Const:
		return true
	case *ssa.ChangeType:
		return w.madeBy(x.X, made, seen)
	case *ssa.Phi:
		for _, y := range x.Edges {
			if !w.madeBy(y, made, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if g, ok := x.X.(*ssa.Global); ok {
			for _, fn := range append(w.prodFuncs(), g.Pkg.Func("init")) {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) && !w.madeBy(s.Val, made, seen) {
							return false
						}
					}
				}
			}
			return true
		}
		c := w.cellOf(x.X)
		if c == nil {
			return false
		}
		for _, s := range w.cellStores(c) {
			if !w.madeBy(s, made, seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		i := 0
		for i < len(x.Parent().Params) && x.Parent().Params[i] != x {
			i++
		}
		n := 0
		for _, g := range w.prodFuncs() {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && w.calleeOf(c) == x.Parent() && i < len(c.Common().Args) {
						n++
						if !w.madeBy(c.Common().Args[i], made, seen) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	case *ssa.Call:
		g := w.calleeOf(x)
		if g == nil || !w.inModule(g) {
			return false
		}
		for _, b := range g.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 && !w.madeBy(rt.Results[0], made, seen) {
				return false
			}
		}
		return true
	case *ssa.FreeVar:
		return false
	}
	return false
}

// calleeOf is the module function which a call invokes, if that is known.
func (w *World) calleeOf(c ssa.CallInstruction) *ssa.Function {
	switch f := c.Common().Value.(type) {
	case *ssa.Function:
		return f
	case *ssa.MakeClosure:
		g, _ := f.Fn.(*ssa.Function)
		return g
	case *ssa.UnOp:
		if cell := w.cellOf(f.X); cell != nil {
			var r *ssa.Function
			for _, s := range w.cellStores(cell) {
				if mc, ok := s.(*ssa.MakeClosure); ok {
					g, _ := mc.Fn.(*ssa.Function)
					if r != nil && r != g {
						return nil
					}
					r = g
				} else {
					return nil
				}
			}
			return r
		}
	}
	return nil
}

// cellOf is the variable behind an address: a local variable, possibly one captured by closures.
func (w *World) cellOf(addr ssa.Value) *ssa.Alloc {
	for i := 0; i < 10; i++ {
		switch x := addr.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			fn := x.Parent()
			idx := -1
			for i, f := range fn.FreeVars {
				if f == x {
					idx = i
				}
			}
			var b ssa.Value
			if refs := fn.Referrers(); refs != nil {
				for _, in := range *refs {
					if mc, ok := in.(*ssa.MakeClosure); ok {
						b = mc.Bindings[idx]
					}
				}
			}
			if b == nil {
				for _, bl := range fn.Parent().Blocks {
					for _, in := range bl.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
							b = mc.Bindings[idx]
						}
					}
				}
			}
			if b == nil {
				return nil
			}
			addr = b
		default:
			return nil
		}
	}
	return nil
}

// cellStores lists what is stored in a variable.
func (w *World) cellStores(c *ssa.Alloc) (r []ssa.Value) {
	var visit func(v ssa.Value, fn *ssa.Function)
	visit = func(v ssa.Value, fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr == v {
						r = append(r, x.Val)
					}
				case *ssa.MakeClosure:
					for i, y := range x.Bindings {
						if y == v {
							g := x.Fn.(*ssa.Function)
							visit(g.FreeVars[i], g)
						}
					}
				}
			}
		}
	}
	visit(c, c.Parent())
	return
}

// ---- C31, C36 ----

// role says which directory of the command the term names.
func role(t *Term) string {
	for t != nil && (t.Op == "conv" || t.Op == "call" && (t.Aux == "path/filepath.Clean" || t.Aux == "path/filepath.Abs")) {
		t = t.Args[0]
	}
	if t == nil {
		return ""
	}
	if t.Op == "fv" && cliDirs[t.Aux] {
		return t.Aux
	}
	if a := ldAddr(t); a != nil && a.Op == "fld" && cliDirs[a.Aux] {
		return a.Aux
	}
	return ""
}

// roleIn evaluates the role within the build command, where the fields have been assigned.
func (e *Engine) roleIn(st *State, t *Term) string {
	if r := role(t); r != "" {
		return r
	}
	for _, n := range []string{"pluginDir", "outputDir", "tmpDir", "pluginPkgPath", "tmpPkgPath"} {
		if a := e.cmdField(e.w.dirField(n)); a != nil && st.heap[a] == t {
			return n
		}
	}
	return ""
}

func fileKeep(c *Term) bool {
	return mentionsAny(c, func(t *Term) bool {
		if t.Op == "mapok" || t.Op == "mapel" {
			return true
		}
		return isBase(t) != nil
	})
}

func fileRules(w *World, r *Report, id string) {
	x := &modular{w: w, r: r, keep: fileKeep}
	x.inD = func(fn *ssa.Function) bool {
		if fn.Pkg != w.cmd && fn.Pkg != w.hut {
			return false
		}
		f := w.effects(fn)
		for n := range f.Ext {
			if destructive(n) {
				return true
			}
		}
		return false
	}
	x.mon = func(x *modular) func() Monitor {
		return mon(func(m *Mon, e *Engine, st *State, ev *Event) { monFiles(m, e, st, ev, x, id) })
	}
	x.after = func(x *modular, fn *ssa.Function, e *Engine) (r []*Violation) {
		// targets which are elements of lists
		var need []ssa.Value
		for v := range x.data["target"] {
			need = append(need, v)
		}
		seen := map[ssa.Value]bool{}
		for len(need) > 0 {
			v := need[len(need)-1]
			need = need[:len(need)-1]
			if seen[v] {
				continue
			}
			seen[v] = true
			fs, ok := w.fills(v)
			if !ok {
				r = append(r, &Violation{Rule: "unknown", Pos: w.pos(v.Pos()), Msg: fmt.Sprintf("it is unclear which files %s names", v), Entry: fn.String()})
				continue
			}
			for _, f := range fs {
				in, _ := f.in.(ssa.Value)
				if s, ok := f.in.(*ssa.Store); ok {
					in = s.Addr
				}
				if !x.data["placed"][in] {
					// elsewhere
					g := f.in.Parent()
					for g.Parent() != nil {
						g = g.Parent()
					}
					if g != fn && !x.force[g] {
						x.force[g], x.again = true, true
					}
				}
				if x.data["unclean"][in] {
					sub, ok := w.fills(f.elem)
					if ok && len(sub) > 0 {
						need = append(need, f.elem)
						continue
					}
					r = append(r, &Violation{Rule: "unreserved", Pos: w.pos(f.in.Pos()), Msg: "a file whose name is not reserved for generated code may be deleted or overwritten: it is put on the list of such files", Entry: fn.String()})
				}
				if x.data["foreign"][in] && id == "C36" {
					r = append(r, &Violation{Rule: "foreign", Pos: w.pos(f.in.Pos()), Msg: "a file which may belong to another plugin is put on the list of files to be deleted", Entry: fn.String()})
				}
			}
		}
		return
	}
	x.run()
}

// walkRoot is the directory below which t was found.
func walkRoot(t *Term) *Term {
	if t != nil && t.Op == "res" && resName(t) == "walkpath" && len(t.Args) > 0 {
		return t.Args[0]
	}
	return nil
}

func monFiles(m *Mon, e *Engine, st *State, ev *Event, x *modular, id string) {
	if c := e.cmdParam(); c != nil {
		m.exec(e, st, ev)
	}
	c36 := id == "C36"
	judge := func(t *Term, v ssa.Value, what string) {
		e.Count(what)
		c := e.classify(st, t)
		if c == nil {
			if v != nil {
				if fs, ok := e.w.fills(v); ok && len(fs) > 0 {
					x.mark("target", v)
					return
				}
			}
			e.Violate(st, ev.Pos, "unreserved", "the name of what is changed is not reserved for generated code, and it is not in the temporary directory: %s", t)
			return
		}
		if !c36 {
			return
		}
		outside := func(d *Term) bool { return e.roleIn(st, d) == "outputDir" }
		switch c.Kind {
		case "reserved":
			if outside(c.Dir) {
				if what == "deletions" {
					e.Violate(st, ev.Pos, "shared", "the file shared by all plugins is deleted")
				} else {
					e.Count("shared files")
				}
			}
		case "found":
			if d := walkRoot(c.Elem); d != nil && e.roleIn(st, d) != "pluginDir" && e.roleIn(st, d) != "tmpDir" {
				e.Violate(st, ev.Pos, "foreign", "a file which may belong to another plugin is deleted: it was found in %s", d)
			}
		case "named":
			e.Count("files named after the plugin")
			if b := isBase(c.Name); b == nil || e.roleIn(st, b) != "pluginDir" {
				e.Violate(st, ev.Pos, "named", "the name of the file is not made of the whole name of the directory of the plugin: %s", c.Name)
			}
		}
	}
	arg := func(i int) ssa.Value {
		if c, ok := ev.Instr.(ssa.CallInstruction); ok && i < len(c.Common().Args) {
			return c.Common().Args[i]
		}
		return nil
	}
	switch ev.Kind {
	case EvAppend, EvStore:
		var in ssa.Value
		var elems []*Term
		if ev.Kind == EvAppend {
			in, _ = ev.Instr.(ssa.Value)
			elems = ev.Args[1:]
		} else {
			s, ok := ev.Instr.(*ssa.Store)
			if !ok {
				return
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || !isStringType(ptrElem(ia.Type())) {
				return
			}
			in, elems = ia, []*Term{ev.Val}
		}
		for _, t := range elems {
			c := e.classify(st, t)
			x.mark("placed", in)
			if c == nil {
				x.mark("unclean", in)
			} else if d := walkRoot(c.Elem); d != nil && c.Kind == "found" && e.roleIn(st, d) != "pluginDir" && e.roleIn(st, d) != "tmpDir" {
				x.mark("foreign", in)
			} else if c.Kind == "named" {
				if b := isBase(c.Name); b == nil || e.roleIn(st, b) != "pluginDir" {
					x.mark("foreign", in)
				}
			}
			// the file which the compiler writes
			if ev.Kind == EvStore && afterO(in) {
				m.output(e, st, ev, t, c36)
			}
			if i := len(elems); ev.Kind == EvAppend {
				for j := 0; j+1 < i; j++ {
					if s, ok := elems[j].strVal(); ok && s == "-o" {
						m.output(e, st, ev, elems[j+1], c36)
					}
				}
				return
			}
		}
	case EvExtRet:
		if !c36 && ev.Name == "path/filepath.Rel" && ev.Err == ErrNil && walkRoot(ev.Args[1]) != nil && walkRoot(ev.Args[1]) != ev.Args[0] {
			if a, b := e.roleIn(st, walkRoot(ev.Args[1])), e.roleIn(st, ev.Args[0]); a == "" || a != b {
				e.Violate(st, ev.Pos, "relative", "the path is made relative to something else than the directory which is enumerated")
			}
		}
	case EvExt:
		if ev.Name == "(*text/template.Template).Execute" && len(ev.Args) == 3 && c36 {
			d := ev.Args[2]
			for d.Op == "conv" || d.Op == "iface" {
				d = d.Args[0]
			}
			spec := false
			for a, v := range st.heap {
				if baseObj(a) == baseObj(d) && mentionsAny(v, func(t *Term) bool {
					r := role(t)
					return r == "pluginDir" || r == "pluginPkgPath" || r == "tmpDir" || r == "tmpPkgPath" || r == "tmpDirName"
				}) {
					spec = true
				}
			}
			buf := ev.Args[1]
			for buf.Op == "conv" || buf.Op == "iface" {
				buf = buf.Args[0]
			}
			m.put("spec:"+itoa(baseObj(buf).ID), 0)
			if spec {
				m.put("spec:"+itoa(baseObj(buf).ID), 1)
			}
		}
		if !destructive(ev.Name) {
			return
		}
		switch ev.Name {
		case "os.Remove", "os.RemoveAll", "os.Truncate":
			judge(ev.Args[0], arg(0), "deletions")
		case "os.MkdirAll", "os.Mkdir":
			e.Count("new directories")
			if e.roleIn(st, ev.Args[0]) == "outputDir" {
				return
			}
			if c := e.classify(st, ev.Args[0]); c == nil && !c36 {
				e.Violate(st, ev.Pos, "directory", "a directory is created outside of the temporary directory: %s", ev.Args[0])
			}
		case "os.OpenFile":
			if k, ok := constInt(ev.Args[1]); ok && k&3 == 0 && k&0x240 == 0 {
				return
			}
			judge(ev.Args[0], arg(0), "writes")
		case "os.Rename", "os.Symlink", "os.Link":
			if ev.Name == "os.Rename" {
				judge(ev.Args[0], arg(0), "deletions")
			}
			judge(ev.Args[1], arg(1), "writes")
		case "os/exec.Command", "os/exec.CommandContext":
			a := ev.Args
			if ev.Name == "os/exec.CommandContext" {
				a = a[1:]
			}
			n, ok := a[0].strVal()
			switch {
			case !ok:
				e.Violate(st, ev.Pos, "command", "it is unclear which program is executed: %s", a[0])
			case n == "gofmt":
				w := false
				for _, t := range a[1:] {
					if s, ok := t.strVal(); ok && s == "-w" {
						w = true
					}
				}
				if w {
					judge(a[len(a)-1], nil, "writes")
				}
			case n == "go":
				for i := 1; i+1 < len(a); i++ {
					if s, ok := a[i].strVal(); ok && s == "-o" {
						m.output(e, st, ev, a[i+1], c36)
					}
				}
			case n == "git":
				for _, t := range a[1:] {
					if s, ok := t.strVal(); ok {
						switch s {
						case "clean", "checkout", "reset", "stash", "restore", "rm", "mv":
							e.Violate(st, ev.Pos, "command", "git may delete or overwrite files of the plugin")
						}
					}
				}
			default:
				e.Violate(st, ev.Pos, "command", "it is unclear which files %q changes", n)
			}
		default:
			judge(ev.Args[0], arg(0), "writes")
			if c := e.classify(st, ev.Args[0]); c36 && c != nil && c.Kind == "reserved" && e.roleIn(st, c.Dir) == "outputDir" && len(ev.Args) > 1 {
				if mentionsAny(ev.Args[1], func(t *Term) bool { return m.has("spec:" + itoa(t.ID)) }) {
					e.Violate(st, ev.Pos, "shared", "the file shared by all plugins depends on the plugin")
				}
			}
		}
	}
}

// afterO: the place in a list of strings after the one with -o.
func afterO(v ssa.Value) bool {
	ia, ok := v.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	k, ok := ia.Index.(*ssa.Const)
	if !ok || k.Value == nil || ia.X.Referrers() == nil {
		return false
	}
	for _, in := range *ia.X.Referrers() {
		b, ok := in.(*ssa.IndexAddr)
		if !ok || b.Referrers() == nil {
			continue
		}
		if j, ok := b.Index.(*ssa.Const); !ok || j.Value == nil || j.Int64()+1 != k.Int64() {
			continue
		}
		for _, in := range *b.Referrers() {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(b) {
				if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "-o" {
					return true
				}
			}
		}
	}
	return false
}

// output: the compiler writes to t.
func (m *Mon) output(e *Engine, st *State, ev *Event, t *Term, c36 bool) {
	e.Count("compiler outputs")
	if c36 {
		return
	}
	if isJoin(t) && len(t.Args) == 2 && e.roleIn(st, t.Args[0]) == "outputDir" {
		n := t.Args[1]
		for strings.HasPrefix(n.Op, "bin") && len(n.Args) == 2 {
			if _, ok := n.Args[1].strVal(); !ok {
				break
			}
			n = n.Args[0]
		}
		if b := isBase(n); b != nil && e.roleIn(st, b) == "pluginDir" && n != t.Args[1] {
			return
		}
	}
	if tempPath(t) {
		return
	}
	e.Violate(st, ev.Pos, "output", "the compiler does not write to the file of the plugin in the output directory: %s", t)
}

// templateRules: the code generated for a plugin registers nothing but the plugin.
func templateRules(w *World, r *Report) {
	n := 0
	for name, text := range w.templates() {
		rest := text
		for {
			i := strings.Index(rest, "HotswapStaticPlugins[")
			if i < 0 {
				break
			}
			rest = rest[i+len("HotswapStaticPlugins["):]
			j := strings.Index(rest, "]")
			n++
			if j < 0 || strings.Join(strings.Fields(rest[:j]), "") != `"{{.PluginName}}"` {
				r.Violate("registration", name, "the generated code registers a plugin under a name which may not be its own: %s", rest[:j])
			}
		}
		if strings.Contains(text, "delete(") || strings.Contains(text, "HotswapStaticPlugins = ") && strings.Contains(text, "{{.PluginName}}") {
			r.Violate("registration", name, "the code generated for a plugin may remove other plugins")
		}
	}
	for i := 0; i < n; i++ {
		r.Count("registrations")
	}
}

// templates lists the templates of the command-line tool.
func (w *World) templates() map[string]string {
	r := map[string]string{}
	dir := filepath.Join(repoDir, "cli", "hotswap", "cmd")
	fs, _ := filepath.Glob(filepath.Join(dir, "*.tpl"))
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil {
			r[strings.TrimPrefix(f, repoDir+"/")] = string(b)
		}
	}
	return r
}
