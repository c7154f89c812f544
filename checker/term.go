package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is an inlining context: the chain of call sites which led to a function.
type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
	depth  int
	iter   int // the iteration of an unrolled loop (from 1)
}

var ctxTab = map[string]*Ctx{}

func mkCtx(parent *Ctx, site ssa.Instruction, fn *ssa.Function) *Ctx {
	return mkCtxIter(parent, site, fn, 0)
}

func mkCtxIter(parent *Ctx, site ssa.Instruction, fn *ssa.Function, iter int) *Ctx {
	pid := -1
	d := 0
	if parent != nil {
		pid = parent.id
		d = parent.depth + 1
	}
	k := fmt.Sprintf("%d|%d|%p|%d", pid, siteID(site), fn, iter)
	if c := ctxTab[k]; c != nil {
		return c
	}
	c := &Ctx{id: len(ctxTab) + 1, parent: parent, site: site, fn: fn, depth: d, iter: iter}
	ctxTab[k] = c
	return c
}

func (c *Ctx) has(fn *ssa.Function) bool {
	for x := c; x != nil; x = x.parent {
		if x.fn == fn {
			return true
		}
	}
	return false
}

var siteTab = map[ssa.Instruction]int{}

func siteID(in ssa.Instruction) int {
	if in == nil {
		return 0
	}
	if id, ok := siteTab[in]; ok {
		return id
	}
	id := len(siteTab) + 1
	siteTab[in] = id
	return id
}

// Term is a hash-consed value number.
type Term struct {
	ID   int
	Op   string
	Aux  string
	Args []*Term
	Obj  interface{}
	Typ  types.Type

	// site-bound terms only
	Ctx  *Ctx
	Site ssa.Instruction

	sites []*Term // all site-bound subterms
	h     [2]uint64
}

var termTab = map[string]*Term{}
var termList []*Term

func intern(op, aux string, args []*Term, mk func() *Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t := termTab[k]; t != nil {
		return t
	}
	t := mk()
	t.ID = len(termList) + 1
	t.Op, t.Aux, t.Args = op, aux, args
	t.h = [2]uint64{mix(uint64(t.ID) * 0x9E3779B97F4A7C15), mix(uint64(t.ID)*0xC2B2AE3D27D4EB4F + 77)}
	switch {
	case t.Ctx == nil && len(args) == 1:
		t.sites = args[0].sites
	default:
		if t.Ctx != nil {
			t.sites = append(t.sites, t)
		}
		for _, a := range args {
			for _, s := range a.sites {
				dup := false
				for _, o := range t.sites {
					if o == s {
						dup = true
						break
					}
				}
				if !dup {
					t.sites = append(t.sites, s)
				}
			}
		}
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func mix(x uint64) uint64 {
	x ^= x >> 31
	x *= 0x7fb5d329728ea185
	x ^= x >> 27
	x *= 0x81dadef4bc2dd44d
	x ^= x >> 33
	return x
}

func mk(op, aux string, typ types.Type, args ...*Term) *Term {
	return intern(op, aux, args, func() *Term { return &Term{Typ: typ} })
}

func mkObj(op, aux string, obj interface{}, typ types.Type, args ...*Term) *Term {
	return intern(op, aux, args, func() *Term { return &Term{Typ: typ, Obj: obj} })
}

func mkSite(op, aux string, typ types.Type, site ssa.Instruction, ctx *Ctx, args ...*Term) *Term {
	cid := 0
	if ctx != nil {
		cid = ctx.id
	}
	a := fmt.Sprintf("%s#%d@%d", aux, siteID(site), cid)
	return intern(op, a, args, func() *Term { return &Term{Typ: typ, Ctx: ctx, Site: site, Obj: aux} })
}

var tNil = mk("nil", "", nil)
var tTrue = mkConst(constant.MakeBool(true), types.Typ[types.Bool])
var tFalse = mkConst(constant.MakeBool(false), types.Typ[types.Bool])

func mkConst(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return tNil
	}
	if v.Kind() == constant.Float {
		if x := constant.ToInt(v); x.Kind() == constant.Int {
			if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				v = x
			}
		}
	}
	return mkObj("const", fmt.Sprintf("%d:%s", v.Kind(), v.ExactString()), v, typ)
}

func mkInt(n int64) *Term { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func mkStr(s string) *Term {
	return mkConst(constant.MakeString(s), types.Typ[types.String])
}

func (t *Term) isConst() bool { return t.Op == "const" || t.Op == "nil" }

func (t *Term) intVal() (int64, bool) {
	if t.Op != "const" {
		return 0, false
	}
	v := t.Obj.(constant.Value)
	if v.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(v)
	return n, ok
}

func (t *Term) strVal() (string, bool) {
	if t.Op != "const" {
		return "", false
	}
	v := t.Obj.(constant.Value)
	if v.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(v), true
}

func (t *Term) boolVal() (bool, bool) {
	if t.Op != "const" {
		return false, false
	}
	v := t.Obj.(constant.Value)
	if v.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(v), true
}

// String renders a term for reports.
func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "?"
	}
	if d > 5 {
		return "…"
	}
	arg := func(i int) string {
		if i < len(t.Args) {
			return t.Args[i].str(d + 1)
		}
		return "?"
	}
	switch t.Op {
	case "nil":
		return "nil"
	case "const":
		return t.Obj.(constant.Value).String()
	case "param":
		return t.Aux[strings.LastIndex(t.Aux, "#")+1:]
	case "global", "gval":
		return t.Aux
	case "new":
		return "new:" + shortType(t.Typ)
	case "fld":
		return arg(0) + "." + t.Aux
	case "idx":
		return arg(0) + "[" + arg(1) + "]"
	case "mapel":
		return arg(0) + "[" + arg(1) + "]"
	case "ld":
		return "*" + arg(0)
	case "hook":
		return arg(0) + "." + t.Aux
	case "fn":
		return t.Aux
	case "res":
		name, _ := t.Obj.(string)
		return name + "()"
	case "lin":
		l := t.Obj.(Lin)
		var sb strings.Builder
		for i, x := range l.sorted() {
			n := l.c[x]
			if n >= 0 && i > 0 {
				sb.WriteByte('+')
			}
			if n == -1 {
				sb.WriteByte('-')
			} else if n != 1 {
				sb.WriteString(strconv.FormatInt(n, 10) + "*")
			}
			sb.WriteString(x.str(d + 1))
		}
		if l.k != 0 {
			fmt.Fprintf(&sb, "%+d", l.k)
		}
		return sb.String()
	}
	if t.Site != nil {
		if s, ok := t.Obj.(string); ok {
			var as []string
			for i := range t.Args {
				as = append(as, arg(i))
			}
			return t.Op + ":" + s + "(" + strings.Join(as, ",") + ")"
		}
	}
	var as []string
	for i := range t.Args {
		as = append(as, arg(i))
	}
	s := t.Op
	if t.Aux != "" {
		s += ":" + t.Aux
	}
	return s + "(" + strings.Join(as, ",") + ")"
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return "" })
}

// visit walks the subterms of t, calling f on each one once; f returning false prunes.
func visit(t *Term, f func(*Term) bool) {
	seen := map[*Term]struct{}{}
	var w func(*Term)
	w = func(x *Term) {
		if _, ok := seen[x]; ok {
			return
		}
		seen[x] = struct{}{}
		if !f(x) {
			return
		}
		for _, a := range x.Args {
			w(a)
		}
	}
	w(t)
}

func mentions(t, sub *Term) bool {
	if t == nil || sub == nil {
		return false
	}
	if t == sub {
		return true
	}
	if sub.Ctx != nil {
		for _, s := range t.sites {
			if s == sub {
				return true
			}
		}
		return false
	}
	if len(t.Args) == 0 {
		return false
	}
	found := false
	visit(t, func(x *Term) bool {
		if x == sub {
			found = true
		}
		return !found
	})
	return found
}

func mentionsAny(t *Term, pred func(*Term) bool) bool {
	if t == nil {
		return false
	}
	found := false
	visit(t, func(x *Term) bool {
		if pred(x) {
			found = true
		}
		return !found
	})
	return found
}

// baseObj strips fld/idx/mapel layers from an address.
func baseObj(t *Term) *Term {
	for {
		switch t.Op {
		case "fld", "idx", "mapel", "mapok", "maplen", "av":
			t = t.Args[0]
		case "slice":
			t = t.Args[0]
		default:
			return t
		}
	}
}

// ---- linear forms over terms ----

type Lin struct {
	c map[*Term]int64
	k int64
}

func linOf(t *Term) Lin {
	switch t.Op {
	case "const":
		if n, ok := t.intVal(); ok {
			return Lin{k: n}
		}
	case "lin":
		l := t.Obj.(Lin)
		return l
	}
	return Lin{c: map[*Term]int64{t: 1}}
}

func (a Lin) add(b Lin, f int64) Lin {
	r := Lin{c: map[*Term]int64{}, k: a.k + f*b.k}
	for t, n := range a.c {
		r.c[t] += n
	}
	for t, n := range b.c {
		r.c[t] += f * n
	}
	for t, n := range r.c {
		if n == 0 {
			delete(r.c, t)
		}
	}
	return r
}

func (a Lin) sorted() []*Term {
	var ts []*Term
	for t := range a.c {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	return ts
}

func (a Lin) isConst() bool { return len(a.c) == 0 }

func (a Lin) term() *Term {
	if len(a.c) == 0 {
		return mkInt(a.k)
	}
	ts := a.sorted()
	if len(ts) == 1 && a.c[ts[0]] == 1 && a.k == 0 {
		return ts[0]
	}
	// aux must be unique per linear form: include coefficients
	var kb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&kb, "%d,", a.c[t])
	}
	fmt.Fprintf(&kb, "%d", a.k)
	r := Lin{c: a.c, k: a.k}
	return intern("lin", kb.String(), ts, func() *Term { return &Term{Typ: types.Typ[types.Int], Obj: r} })
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func isNilable(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	}
	return false
}

func zeroTerm(t types.Type) *Term {
	if t == nil {
		return tNil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), t)
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.MakeInt64(0), t)
		}
		return tNil
	case *types.Struct, *types.Array:
		return mk("zero", t.String(), t)
	}
	return tNil
}

func posOf(prog *ssa.Program, p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := prog.Fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}
