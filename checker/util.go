package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"sort"
	"strings"
)

// Bag is the copy-on-write state of a monitor: named counters and named terms.
type Bag struct {
	n   map[string]int
	t   map[string]*Term
	shr bool
	key string
}

func (b *Bag) cloneBag() Bag {
	b.shr = true
	return *b
}

func (b *Bag) own() {
	b.key = ""
	if b.shr || b.n == nil {
		n := make(map[string]int, len(b.n)+2)
		for k, v := range b.n {
			n[k] = v
		}
		t := make(map[string]*Term, len(b.t)+2)
		for k, v := range b.t {
			t[k] = v
		}
		b.n, b.t, b.shr = n, t, false
	}
}

func (b *Bag) get(k string) int    { return b.n[k] }
func (b *Bag) has(k string) bool   { return b.n[k] != 0 }
func (b *Bag) term(k string) *Term { return b.t[k] }

func (b *Bag) put(k string, v int) {
	if b.n[k] == v {
		return
	}
	b.own()
	if v == 0 {
		delete(b.n, k)
	} else {
		b.n[k] = v
	}
}

// inc counts up to 2 ("many").
func (b *Bag) inc(k string) {
	if v := b.n[k]; v < 2 {
		b.put(k, v+1)
	}
}

func (b *Bag) bind(k string, t *Term) {
	if b.t[k] == t {
		return
	}
	b.own()
	if t == nil {
		delete(b.t, k)
	} else {
		b.t[k] = t
	}
}

// drop removes all entries with the prefix.
func (b *Bag) drop(prefix string) {
	for k := range b.n {
		if strings.HasPrefix(k, prefix) {
			b.put(k, 0)
		}
	}
	for k := range b.t {
		if strings.HasPrefix(k, prefix) {
			b.bind(k, nil)
		}
	}
}

func (b *Bag) keys(prefix string) []string {
	var r []string
	for k := range b.n {
		if strings.HasPrefix(k, prefix) {
			r = append(r, k)
		}
	}
	for k := range b.t {
		if strings.HasPrefix(k, prefix) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func (b *Bag) Key() string {
	if b.key == "" {
		var ks []string
		for k, v := range b.n {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
		for k, v := range b.t {
			ks = append(ks, fmt.Sprintf("%s:%d", k, v.ID))
		}
		sort.Strings(ks)
		b.key = strings.Join(ks, ";") + ";"
	}
	return b.key
}

func (b *Bag) Roots() []*Term {
	var r []*Term
	for _, t := range b.t {
		r = append(r, t)
	}
	return r
}

func (b *Bag) Kill(dead func(*Term) bool) {
	for k, t := range b.t {
		if dead(t) {
			b.bind(k, nil)
		}
	}
}

// Mon is a monitor made of a bag and a transition function.
type Mon struct {
	Bag
	fn func(m *Mon, e *Engine, st *State, ev *Event)
}

func mon(fn func(m *Mon, e *Engine, st *State, ev *Event)) func() Monitor {
	return func() Monitor { return &Mon{fn: fn} }
}

func (m *Mon) Clone() Monitor                        { return &Mon{Bag: m.cloneBag(), fn: m.fn} }
func (m *Mon) Event(e *Engine, st *State, ev *Event) { m.fn(m, e, st, ev) }

func bagOf(st *State) *Mon { return st.mon.(*Mon) }

// ---- what events mean ----

// newManager returns the manager which ev creates.
func (e *Engine) newManager(ev *Event) *Term {
	if ev.Kind == EvAlloc && ev.Val != nil && namedPtr(ev.Val.Typ) == e.w.managerT {
		return ev.Val
	}
	return nil
}

// released returns the manager which ev starts to release.
func (e *Engine) released(ev *Event) *Term {
	if ev.Kind == EvOpaque && ev.Fn == e.w.release {
		for i, p := range ev.Fn.Params {
			if namedOf(p.Type()) == e.w.managerT {
				return ev.Args[i]
			}
		}
	}
	return nil
}

func isAtomicWrite(name string) bool {
	if !strings.HasPrefix(name, "(*sync/atomic.") && !strings.HasPrefix(name, "sync/atomic.") && !strings.HasPrefix(name, "(*go.uber.org/atomic.") {
		return false
	}
	m := name[strings.LastIndex(name, ".")+1:]
	for _, p := range []string{"Store", "Swap", "CompareAndSwap", "CAS"} {
		if strings.HasPrefix(m, p) {
			return true
		}
	}
	return false
}

// published returns the manager that ev makes visible through the swapper.
func (e *Engine) published(st *State, ev *Event) *Term {
	switch ev.Kind {
	case EvExt:
		if !isAtomicWrite(ev.Name) || len(ev.Args) < 2 {
			return nil
		}
		if e.w.swapperOf(ev.Args[0]) == nil {
			return nil
		}
		v := ev.Args[len(ev.Args)-1]
		if namedPtr(v.Typ) == e.w.managerT || v.Op == "nil" {
			return v
		}
	case EvStore:
		if ev.Addr.Op == "fld" && e.w.swapperOf(ev.Addr) != nil && (namedPtr(ev.Val.Typ) == e.w.managerT || ev.Val.Op == "nil" && namedPtr(ptrElem(ev.Addr.Typ)) == e.w.managerT) {
			return ev.Val
		}
	}
	return nil
}

// swapperOf returns the swapper whose field (at any depth) addr denotes.
func (w *World) swapperOf(addr *Term) *Term {
	for addr != nil && (addr.Op == "fld" || addr.Op == "idx") {
		addr = addr.Args[0]
		if namedPtr(addr.Typ) == w.swapperT {
			return addr
		}
	}
	return nil
}

// swapperField returns the name of the innermost field of the swapper that addr denotes ("" if none).
func (w *World) swapperField(addr *Term) string {
	if addr == nil || addr.Op != "fld" || w.swapperOf(addr) == nil {
		return ""
	}
	return addr.Aux
}

// benignError says whether the error of an external call need not be reported.
func (w *World) benignError(name string) bool {
	switch name {
	case "os.Remove", "os.RemoveAll", "copy":
		return true
	}
	for _, p := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "fmt.Fprint", "fmt.Print"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return isLogName(name) || w.errBuilder(name)
}

// failure describes the failed step that ev stands for ("" if it is none).
func (e *Engine) failure(ev *Event) string {
	if e.inGo > 0 {
		return ""
	}
	switch ev.Kind {
	case EvHookPanic:
		return "a panic of " + strings.TrimPrefix(ev.Hook, "f")
	case EvUserPanic:
		return "a panic of the function " + userName(ev.Callee)
	case EvHookRet:
		if ev.Err == ErrNonNil {
			return "an error returned by " + strings.TrimPrefix(ev.Hook, "f")
		}
	case EvUserRet:
		if ev.Err == ErrNonNil {
			return "an error returned by the function " + userName(ev.Callee)
		}
	case EvExtRet:
		if ev.Err == ErrNonNil && !e.w.benignError(ev.Name) {
			return "an error returned by " + shortName(ev.Name)
		}
	}
	return ""
}

func (e *Engine) isFailExit(ev *Event) bool {
	return ev.Kind == EvExit && (ev.Kind2 == "panic" || ev.Kind2 == "return" && ev.Err == ErrNonNil)
}

func (e *Engine) isOkExit(ev *Event) bool {
	return ev.Kind == EvExit && ev.Kind2 == "return" && ev.Err == ErrNil
}

// ---- which plugin of which manager a term denotes ----

// Elem says that a term is the current element of a loop over plugins.
type Elem struct {
	Mgr   *Term
	List  string // "ordered" or "map"
	Order string // "asc", "desc" or "any"
	Act   *LoopAct
	Part  []string // keys of the filters on the way
	Full  bool
}

func ldAddr(t *Term) *Term {
	if t != nil && t.Op == "ld" && len(t.Args) == 1 {
		return t.Args[0]
	}
	return nil
}

// fieldHolding finds the object of the given type whose field holds v.
func (e *Engine) fieldHolding(st *State, v *Term, field string) *Term {
	fv := fieldVar(e.w.managerT, field)
	is := func(a *Term) bool {
		return a.Op == "fld" && a.Aux == field && (namedPtr(a.Args[0].Typ) == e.w.managerT || fv != nil && a.Obj == fv)
	}
	if a := ldAddr(v); a != nil && is(a) {
		return a.Args[0]
	}
	var best *Term
	for a, x := range st.heap {
		if x == v && is(a) {
			if best == nil || a.Args[0].ID < best.ID {
				best = a.Args[0]
			}
		}
	}
	return best
}

// normList strips copies of a whole list.
func (e *Engine) normList(st *State, c *Term) *Term {
	for i := 0; i < 8; i++ {
		switch {
		case c.Op == "app" && len(c.Args) == 2 && c.Args[1].Op == "spread" && e.emptyList(st, c.Args[0]):
			c = c.Args[1].Args[0]
		case c.Op == "slice" && c.Args[1].Op == "nil" && c.Args[2].Op == "nil":
			c = c.Args[0]
		case c.Op == "slice" && c.Args[1].isConst() && isZero(c.Args[1]) && c.Args[2].Op == "nil":
			c = c.Args[0]
		default:
			if v := st.heap[mk("copyof", "", nil, c)]; v != nil {
				c = v
				continue
			}
			return c
		}
	}
	return c
}

func isZero(t *Term) bool { n, ok := t.intVal(); return ok && n == 0 }

func (e *Engine) emptyList(st *State, c *Term) bool {
	if c.Op == "nil" {
		return true
	}
	l := e.lenOf(st, c, nil, nil)
	if l == nil {
		return false
	}
	lo, hi := st.rng(linOf(l))
	return lo == 0 && hi == 0
}

// actOf finds the active loop with the iteration variable iv.
func actOf(st *State, iv *Term) *LoopAct {
	for i := len(st.loops) - 1; i >= 0; i-- {
		if s := st.loops[i].Scan; s != nil && s.IV == iv {
			return st.loops[i]
		}
	}
	return nil
}

// ivIn finds the iteration variable in a linear index expression.
func ivIn(l Lin) (iv *Term, k int64) {
	for t, n := range l.c {
		if t.Op == "iv" {
			if iv != nil {
				return nil, 0
			}
			iv, k = t, n
		}
	}
	return
}

func (st *State) linEq(a, b Lin) bool {
	lo, hi := st.rng(a.add(b, -1))
	return lo == 0 && hi == 0
}

// rng is an interval which contains d.
func (st *State) rng(d Lin) (lo, hi int64) {
	if d.isConst() {
		return d.k, d.k
	}
	lo, hi = st.bounds(d)
	if lo > -inf {
		lo += d.k
	}
	if hi < inf {
		hi += d.k
	}
	return
}

// indexCover says in which order the index expression idx visits a list of length n over the iterations of the scan.
func (st *State) indexCover(idx *Term, n Lin, s *Scan) string {
	l := linOf(idx)
	iv, k := ivIn(l)
	if iv == nil || iv != s.IV || k != 1 && k != -1 {
		return ""
	}
	rest := l.add(Lin{c: map[*Term]int64{iv: 1}}, -k)
	first := rest.add(s.From, k)
	last := rest.add(s.To, k)
	end := n.add(Lin{k: 1}, -1)
	if st.linEq(first, Lin{}) && st.linEq(last, end) {
		return "asc"
	}
	if st.linEq(last, Lin{}) && st.linEq(first, end) {
		return "desc"
	}
	return "part"
}

func flip(a, b string) string {
	if a == "any" || b == "any" {
		return "any"
	}
	if a == b {
		return "asc"
	}
	return "desc"
}

// listElems says what the elements of the list c, taken in ascending order, are: plugins or keys of a manager.
func (e *Engine) listElems(st *State, c *Term, depth int) *Elem {
	if depth > 5 {
		return nil
	}
	c = e.normList(st, c)
	if c.Op != "nil" {
		if m := e.fieldHolding(st, c, "ordered"); m != nil {
			return &Elem{Mgr: m, List: "ordered", Order: "asc", Full: true}
		}
	}
	if c.Op == "acc" {
		ai := c.Obj.(*AccInfo)
		if ai.Act == nil || len(ai.Pats) != 1 || !e.emptyList(st, ai.Init) {
			return nil
		}
		el := e.elemIn(st, ai.Pats[0], ai.Act, depth+1)
		if el == nil {
			return nil
		}
		r := *el
		r.Act = nil
		if !ai.Full {
			r.Part = append(append([]string{}, r.Part...), ai.Loop)
		}
		if e.sorted(st, c) {
			r.Order = "any"
		}
		return &r
	}
	return nil
}

// sorted says whether the list was reordered.
func (e *Engine) sorted(st *State, c *Term) bool { return st.heap[mk("sorted", "", nil, c)] != nil }

// elemOf says which loop over the plugins of a manager visits p.
func (e *Engine) elemOf(st *State, p *Term) *Elem {
	a := ldAddr(p)
	if a == nil {
		return nil
	}
	switch a.Op {
	case "mapel":
		for _, s := range a.Args[1].sites {
			if s.Op == "rkey" || s.Op == "iv" {
				if act := actOf(st, s); act != nil {
					return e.elemIn(st, p, act, 0)
				}
			}
		}
	case "idx":
		if iv, _ := ivIn(linOf(a.Args[1])); iv != nil {
			if act := actOf(st, iv); act != nil {
				return e.elemIn(st, p, act, 0)
			}
		}
	}
	return nil
}

// elemIn is elemOf relative to a given (possibly finished) loop.
func (e *Engine) elemIn(st *State, p *Term, act *LoopAct, depth int) *Elem {
	a := ldAddr(p)
	if a == nil || act.Scan == nil {
		if p.Op == "rkey" && act.Scan != nil && act.Scan.IV == p && act.Scan.Full {
			if m := e.fieldHolding(st, act.Scan.Cont, "pluginMap"); m != nil {
				return &Elem{Mgr: m, List: "key", Order: "any", Act: act, Full: true}
			}
		}
		return nil
	}
	switch a.Op {
	case "mapel":
		m := e.fieldHolding(st, a.Args[0], "pluginMap")
		if m == nil {
			return nil
		}
		k := a.Args[1]
		if k.Op == "rkey" {
			if act.Scan.IV == k && act.Scan.Full && act.Scan.Cont == a.Args[0] {
				return &Elem{Mgr: m, List: "map", Order: "any", Act: act, Full: true}
			}
			return nil
		}
		ke := e.elemIn(st, k, act, depth+1)
		if ke != nil && ke.List == "key" && ke.Mgr == m {
			r := *ke
			r.List = "map"
			r.Act = act
			return &r
		}
	case "idx":
		if act.Scan.IV == nil || act.Scan.IV.Op != "iv" {
			return nil
		}
		le := e.listElems(st, a.Args[0], depth+1)
		if le == nil {
			return nil
		}
		n := e.lenOf(st, a.Args[0], nil, nil)
		if n == nil {
			return nil
		}
		r := *le
		r.Act = act
		switch c := st.indexCover(a.Args[1], linOf(n), act.Scan); c {
		case "asc", "desc":
			r.Order = flip(le.Order, c)
			if le.Order == "any" {
				r.Order = "any"
			}
		default:
			r.Full = false
			r.Order = "any"
		}
		return &r
	}
	return nil
}

// fieldOfTerm: t is the value loaded from field name of some object; returns the object.
func fieldOwner(t *Term, name string) *Term {
	a := ldAddr(t)
	if a != nil && a.Op == "fld" && a.Aux == name {
		return a.Args[0]
	}
	return nil
}

// knownField evaluates a boolean field of an object on the path.
func (e *Engine) knownField(st *State, obj *Term, name string) (val, known bool) {
	for a, v := range st.heap {
		if a.Op == "fld" && a.Aux == name && a.Args[0] == obj {
			return st.eval(v)
		}
	}
	return false, false
}

func namedPtr(t interface{ String() string }) *types.Named {
	if t == nil {
		return nil
	}
	p, ok := t.(*types.Pointer)
	if !ok {
		if tt, isT := t.(types.Type); isT && tt != nil {
			p, ok = types.Unalias(tt).(*types.Pointer)
		}
	}
	if !ok || p == nil {
		return nil
	}
	n, _ := types.Unalias(p.Elem()).(*types.Named)
	return n
}

// recvType is the type of the receiver of a method.
func recvType(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return r.Type()
	}
	return types.Typ[types.Invalid]
}
