package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type outKind int

const (
	okRet outKind = iota
	okPanic
	okExit
)

// Outcome is one way a function activation can end.
type Outcome struct {
	kind outKind
	vals []*Term
	pan  *Term
	st   *State
}

func (o *Outcome) key() hkey {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(o.kind)))
	for _, v := range o.vals {
		sb.WriteString("," + strconv.Itoa(v.ID))
	}
	if o.pan != nil {
		sb.WriteString("!" + strconv.Itoa(o.pan.ID))
	}
	h := strHash(sb.String())
	h.add(o.st.key())
	return h
}

func dedup(outs []*Outcome) []*Outcome {
	if len(outs) < 2 {
		return outs
	}
	seen := map[hkey]bool{}
	var r []*Outcome
	for _, o := range outs {
		k := o.key()
		if !seen[k] {
			seen[k] = true
			r = append(r, o)
		}
	}
	return r
}

// RunCfg configures one exploration.
type RunCfg struct {
	Name   string
	Pure   func(fn *ssa.Function) bool // treat a module function as a pure operator
	Opaque func(fn *ssa.Function) bool // do not inline a module function; emit EvOpaque
	NoFact func(addr *Term) bool       // loads from this address are not correlated
	NoCond func(c *Term) bool          // branches on this condition are not correlated
	// KeepFact: what is known about the element a loop looks at is kept for the iteration
	KeepFact func(t *Term) bool
	MaxWork  int
	// PureEvents: pure functions outside the module with this prefix emit EvPure
	PureEvents string
	// Setup prepares the initial state.
	Setup func(e *Engine, st *State, args []*Term)
	// OpaquePanics: opaque functions may panic
	OpaquePanics bool
	// HookPanics: plugin functions and user callbacks may panic (default true)
	NoHookPanics bool
	// Apply: the function which is returned is called with a parameter of its own
	Apply bool
	// ExtPanics lists extern functions which may panic
	ExtPanics map[string]bool
}

// Violation is a diagnosed breach.
type Violation struct {
	Rule  string
	Msg   string
	Pos   string
	Trace []string
	Entry string
}

// Engine explores one entry function with one monitor.
type Engine struct {
	w    *World
	cfg  RunCfg
	ent  string
	work int

	entParams []*Term // the parameters of the entry function, receiver first

	rootStack [][]*Term
	inGo      int

	viol    []*Violation
	violKey map[string]bool

	funcs  map[*ssa.Function]bool
	paths  int
	events int
	calls  map[ssa.Instruction]bool
	Notes  map[string]int

	only    []string // if not nil: the rules which may be reported
	aborted bool
	start   time.Time
}

func newEngine(w *World, cfg RunCfg) *Engine {
	if cfg.MaxWork == 0 {
		cfg.MaxWork = 7000000
	}
	return &Engine{w: w, cfg: cfg, violKey: map[string]bool{}, funcs: map[*ssa.Function]bool{}, calls: map[ssa.Instruction]bool{}, Notes: map[string]int{}, start: time.Now()}
}

// Count counts an obligation or another measured quantity for the evidence.
func (e *Engine) Count(what string) { e.Notes[what]++ }

// Violate records a violation on the path of st.
func (e *Engine) Violate(st *State, pos token.Pos, rule, format string, args ...interface{}) {
	if e.only != nil {
		ok := false
		for _, r := range e.only {
			ok = ok || r == rule
		}
		if !ok {
			return
		}
	}
	msg := fmt.Sprintf(format, args...)
	p := posOf(e.w.prog, pos)
	k := rule + "|" + p + "|" + msg
	if e.violKey[k] {
		return
	}
	e.violKey[k] = true
	v := &Violation{Rule: rule, Msg: msg, Pos: p, Entry: e.ent}
	var tr []string
	n := 0
	for t := st.trace; t != nil && n < 120; t = t.prev {
		tr = append(tr, posOf(e.w.prog, t.pos)+": "+t.text)
		n++
	}
	for i, j := 0, len(tr)-1; i < j; i, j = i+1, j-1 {
		tr[i], tr[j] = tr[j], tr[i]
	}
	v.Trace = tr
	e.viol = append(e.viol, v)
}

func (e *Engine) emit(st *State, ev *Event) {
	if st.dead {
		return
	}
	e.events++
	if ev.Pos == token.NoPos && ev.Instr != nil {
		ev.Pos = ev.Instr.Pos()
	}
	st.mon.Event(e, st, ev)
}

// Run explores fn from an initial state.
func (e *Engine) Run(fn *ssa.Function, m Monitor) {
	e.ent = fn.String()
	st := newState(m)
	ctx := mkCtx(nil, nil, fn)
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, mk("param", fn.Name()+"#"+p.Name(), p.Type()))
	}
	if fn.Signature.Recv() != nil && len(args) > 0 {
		st.setFact(mkEqAtom(args[0], tNil), false)
	}
	if e.cfg.Setup != nil {
		e.cfg.Setup(e, st, args)
	}
	e.RunState(fn, args, nil, st, ctx)
}

func (e *Engine) RunState(fn *ssa.Function, args, binds []*Term, st *State, ctx *Ctx) {
	e.entParams = args
	e.rootStack = append(e.rootStack, append(append([]*Term{}, args...), binds...))
	outs := e.exec(fn, args, binds, st, ctx, false)
	e.rootStack = e.rootStack[:len(e.rootStack)-1]
	if e.cfg.Apply {
		outs = e.applyResult(fn, args, outs, ctx)
	}
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		ev := &Event{Kind: EvExit, Results: o.vals, Panic: o.pan, Ctx: ctx, Fn: fn, Pos: fn.Pos()}
		ev.Kind2 = [...]string{"return", "panic", "exit"}[o.kind]
		ev.Err = ErrNA
		res := fn.Signature.Results()
		if o.kind == okRet && res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) {
			last := o.vals[len(o.vals)-1]
			v, known := o.st.isNil(last)
			if !known {
				// both
				s2 := o.st.clone()
				ev2 := *ev
				ev2.Err = ErrNil
				e.paths++
				e.emit(s2, &ev2)
				ev.Err = ErrNonNil
			} else if v {
				ev.Err = ErrNil
			} else {
				ev.Err = ErrNonNil
			}
		}
		e.paths++
		e.emit(o.st, ev)
	}
}

// applyResult calls the function which fn returns.
func (e *Engine) applyResult(fn *ssa.Function, args []*Term, outs []*Outcome, ctx *Ctx) []*Outcome {
	var r []*Outcome
	for _, o := range outs {
		if o.st.dead || o.kind != okRet || len(o.vals) != 1 {
			r = append(r, o)
			continue
		}
		sig, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Signature)
		if !ok {
			r = append(r, o)
			continue
		}
		a2 := append([]*Term{}, args...)
		var fargs []*Term
		for i := 0; i < sig.Params().Len(); i++ {
			p := mk("param", fmt.Sprintf("%s$result#%d", fn.Name(), i), sig.Params().At(i).Type())
			o.st.setFact(mkEqAtom(p, tNil), false)
			fargs = append(fargs, p)
		}
		e.entParams = append(a2, fargs...)
		e.rootStack = append(e.rootStack, e.entParams)
		in := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1]
		r = append(r, e.invokeVal(o.st, o.vals[0], sig, fargs, in, ctx, false)...)
		e.rootStack = e.rootStack[:len(e.rootStack)-1]
	}
	return r
}

type prof struct{ n, work, outs int }

var dbgProf map[*ssa.Function]*prof

type deferred struct {
	call  *ssa.CallCommon
	instr *ssa.Defer
	fnv   *Term
	args  []*Term
	recv  *Term
}

type node struct {
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]*Term
	defers []*deferred
	st     *State
}

func (n *node) fork() *node {
	m := *n
	m.env = make(map[ssa.Value]*Term, len(n.env)+2)
	for k, v := range n.env {
		m.env[k] = v
	}
	m.st = n.st.clone()
	m.defers = n.defers[:len(n.defers):len(n.defers)]
	return &m
}

type frame struct {
	e     *Engine
	fn    *ssa.Function
	fi    *FnInfo
	ctx   *Ctx
	args  []*Term
	binds []*Term
	ddir  bool // called directly by the defer mechanism
	loops int  // len(st.loops) on entry

	work []*node
	seen map[hkey]bool
	outs []*Outcome
	oset map[hkey]bool
}

// exec explores fn and returns its possible outcomes.
func (e *Engine) exec(fn *ssa.Function, args, binds []*Term, st *State, ctx *Ctx, ddir bool) []*Outcome {
	e.funcs[fn] = true
	if dbgProf != nil {
		p := dbgProf[fn]
		if p == nil {
			p = &prof{}
			dbgProf[fn] = p
		}
		p.n++
		w0 := e.work
		defer func() { p.work += e.work - w0 }()
	}
	saved := st.panik
	if !ddir {
		st.panik = nil
	}
	f := &frame{e: e, fn: fn, fi: infoOf(fn), ctx: ctx, args: args, binds: binds, ddir: ddir, loops: len(st.loops), seen: map[hkey]bool{}, oset: map[hkey]bool{}}
	f.enter(&node{blk: fn.Blocks[0], env: map[ssa.Value]*Term{}, st: st})
	for len(f.work) > 0 {
		n := f.work[len(f.work)-1]
		f.work = f.work[:len(f.work)-1]
		if n.st.dead {
			continue
		}
		e.work++
		if e.work > e.cfg.MaxWork {
			e.aborted = true
			return nil
		}
		f.run(n)
	}
	if !ddir {
		for _, o := range f.outs {
			if o.kind != okPanic {
				o.st.panik = saved
			}
		}
	}
	return f.outs
}

func (f *frame) out(o *Outcome) {
	if o.st.dead {
		return
	}
	if len(o.st.loops) > f.loops {
		o.st.loops = o.st.loops[:f.loops:f.loops]
	}
	k := o.key()
	if f.oset[k] {
		return
	}
	f.oset[k] = true
	f.outs = append(f.outs, o)
}

func (f *frame) val(n *node, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroTerm(x.Type())
		}
		return mkConst(x.Value, x.Type())
	case *ssa.Global:
		return mkObj("global", x.String(), x, x.Type())
	case *ssa.Function:
		return fnTerm(x, nil)
	case *ssa.Builtin:
		return mk("builtin", x.Name(), nil)
	case *ssa.Parameter:
		for i, p := range f.fn.Params {
			if p == x {
				return f.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.fn.FreeVars {
			if p == x {
				if i < len(f.binds) {
					return f.binds[i]
				}
				return mk("free", f.fn.String()+"#"+p.Name(), p.Type())
			}
		}
	}
	if t := n.env[v]; t != nil {
		return t
	}
	// not yet bound (should not happen)
	return mk("unbound", fmt.Sprintf("%s#%s", f.fn.String(), v.Name()), v.Type())
}

func fnTerm(fn *ssa.Function, binds []*Term) *Term {
	return mkObj("fn", fn.String(), fn, fn.Signature, binds...)
}

// ---- block entry, loops ----

// enter moves a node over an edge into blk: phis, loop bookkeeping, deduplication.
func (f *frame) enter(n *node) {
	b, prev := n.blk, n.prev
	st := n.st
	var headers *Loop = f.fi.byHdr[b]
	back := headers != nil && prev != nil && headers.blocks[prev]
	// leave loops
	if prev != nil {
		for i := len(f.fi.in[prev]) - 1; i >= 0; i-- {
			l := f.fi.in[prev][i]
			if !l.blocks[b] {
				f.leave(n, l, prev, b)
			}
		}
	}
	// phi values on the edge
	type pv struct {
		phi *ssa.Phi
		val *Term
	}
	var pvs []pv
	if prev != nil {
		pi := -1
		for k, p := range b.Preds {
			if p == prev {
				pi = k
			}
		}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !phiUsed(phi) {
				continue
			}
			pvs = append(pvs, pv{phi, f.val(n, phi.Edges[pi])})
		}
	}
	if back {
		a := f.act(st, headers)
		if a == nil {
			a = &LoopAct{L: headers, Ctx: f.ctx}
			st.loops = append(st.loops, a)
		}
		steps := make([]PhiStep, len(pvs))
		for i, x := range pvs {
			steps[i] = PhiStep{x.phi, n.env[x.phi], x.val}
		}
		f.e.emit(st, &Event{Kind: EvIterEnd, Act: a, Ctx: f.ctx, Instr: b.Instrs[0], Pos: loopPos(headers), Phis: steps})
		// widen phis
		ivTerm, ivPhi := f.ivOf(headers, a)
		var lows []lowFact
		for i := range pvs {
			phi, v := pvs[i].phi, pvs[i].val
			old := n.env[phi]
			if step, ok := headers.ivs[phi]; ok {
				_ = step
				if a.Unroll {
					continue
				}
				if phi != ivPhi && old != nil && old.Op != "iv" {
					pvs[i].val = old // its form over the iteration variable is unchanged
					continue
				}
				pvs[i].val = mkSite("iv", "", phi.Type(), phi, f.ctx)
				continue
			}
			if headers.counters[phi] && !a.Unroll {
				if ivPhi != nil && old != nil && old.Op != "cnt" {
					d := linOf(v).add(linOf(old), -1)
					if d.isConst() && d.k == 1 && headers.ivs[ivPhi] == 1 {
						pvs[i].val = old // stays in lockstep: its form over iv is unchanged
						continue
					}
				}
				lag := mkSite("cnt", "", phi.Type(), phi, f.ctx)
				pvs[i].val = lag
				// remember that the counter fell behind (facts added after the kill)
				continue
			}
			if a.Unroll && shortList(v) && !mentionsBorn(v, a) {
				continue // few iterations, whose elements are known one by one
			}
			pvs[i].val = widenTerm(st, a, phi, old, v, phi.Type())
			if nv := pvs[i].val; nv.Op == "lv" && isIntType(phi.Type()) {
				if lo, ok := st.clampLo(v); ok {
					lows = append(lows, lowFact{nv, lo})
				}
			}
		}
		_ = ivTerm
		f.e.killBorn(st, a, false)
		for _, x := range lows {
			st.assume(mkPos(linOf(x.t).add(Lin{k: 1 - x.lo}, 1)), true)
		}
		na := *a
		na.Iter = 1
		na.N++
		if !na.Steps {
			na.N = 0
		}
		na.Scan = nil
		na.Hdr = st.heap
		st.hsh = true
		f.replaceAct(st, a, &na)
		for i := range pvs {
			if pvs[i].val.Op == "cnt" && ivPhi != nil && headers.ivs[ivPhi] == 1 {
				iv := mkSite("iv", "", ivPhi.Type(), ivPhi, f.ctx)
				init := f.initOf(headers, n, pvs[i].phi)
				from := f.initOf(headers, n, ivPhi)
				if init != nil && from != nil {
					// cnt < init + iv - from
					d := linOf(init).add(linOf(iv), 1).add(linOf(from), -1).add(linOf(pvs[i].val), -1)
					st.assume(mkPos(d), true)
				}
			}
		}
	} else if headers != nil {
		// entry from outside
		a := &LoopAct{L: headers, Ctx: f.ctx}
		f.e.killBorn(st, a, true)
		// unrolling of loops over short lists of known length
		if headers.ctl != nil {
			if k, ok := f.knownTrips(n, headers, func(phi *ssa.Phi) *Term {
				for _, x := range pvs {
					if x.phi == phi {
						return x.val
					}
				}
				return nil
			}); ok && (k <= 3 || k <= 10 && headers.callsElements()) {
				a.Unroll = true
				a.Steps = headers.callsElements()
			}
		}
		if !a.Unroll {
			var ivPhi *ssa.Phi
			for _, x := range pvs {
				if _, ok := headers.ivs[x.phi]; ok && (ivPhi == nil || f.ctlUses(headers, x.phi)) {
					ivPhi = x.phi
				}
			}
			var from *Term
			for i := range pvs {
				if pvs[i].phi == ivPhi {
					from = pvs[i].val
				}
			}
			inits := map[*ssa.Phi]*Term{}
			for i := range pvs {
				phi := pvs[i].phi
				inits[phi] = pvs[i].val
				if step, ok := headers.ivs[phi]; ok {
					iv := mkSite("iv", "", ivPhi.Type(), ivPhi, f.ctx)
					pvs[i].val = iv
					if phi != ivPhi {
						d := linOf(iv).add(linOf(from), -1)
						pvs[i].val = linOf(inits[phi]).add(d, step*headers.ivs[ivPhi]).term()
					}
				}
			}
			for i := range pvs {
				phi := pvs[i].phi
				if _, ok := headers.ivs[phi]; ok {
					continue
				}
				if headers.counters[phi] && ivPhi != nil && headers.ivs[ivPhi] == 1 {
					iv := mkSite("iv", "", ivPhi.Type(), ivPhi, f.ctx)
					pvs[i].val = linOf(inits[phi]).add(linOf(iv), 1).add(linOf(from), -1).term()
				}
			}
			for phi, v := range inits {
				if _, ok := headers.ivs[phi]; ok || headers.counters[phi] {
					n.env[initKey(phi)] = v
				}
			}
		}
		a.Hdr = st.heap
		st.hsh = true
		st.loops = append(st.loops[:len(st.loops):len(st.loops)], a)
		f.e.emit(st, &Event{Kind: EvLoopEnter, Act: a, Ctx: f.ctx, Instr: b.Instrs[0], Pos: loopPos(headers)})
	}
	// prune env
	live := f.fi.liveIn[b]
	env := make(map[ssa.Value]*Term, len(live)+len(pvs))
	for v := range live {
		if t := n.env[v]; t != nil {
			env[v] = t
		}
	}
	for _, l := range f.fi.in[b] {
		for _, in := range l.header.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if l.ivs[phi] != 0 || l.counters[phi] {
				if t := n.env[initKey(phi)]; t != nil {
					env[initKey(phi)] = t
				}
			}
			// keep the header value for widening decisions
			if l != headers {
				if t := n.env[phi]; t != nil {
					env[phi] = t
				}
			}
		}
	}
	for _, x := range pvs {
		env[x.phi] = x.val
	}
	n.env = env
	n.idx = 0
	if len(b.Preds) > 1 || headers != nil {
		f.gc(n, nil)
	}
	if headers != nil && headers.ctl == nil && headers.next == nil {
		a := f.act(st, headers)
		f.e.emit(st, &Event{Kind: EvIterBegin, Act: a, Ctx: f.ctx, Instr: b.Instrs[0], Pos: loopPos(headers)})
	}
	if len(b.Preds) > 1 || headers != nil {
		k := f.nodeKey(n)
		if f.seen[k] {
			return
		}
		f.seen[k] = true
		dbgNode(f, n)
	}
	if prev == nil && dbgFn != "" {
		dbgNode(f, n)
	}
	f.work = append(f.work, n)
}

type initVal struct {
	ssa.Value
	phi *ssa.Phi
}

var initKeys = map[*ssa.Phi]*initVal{}

// initKey is the environment slot which keeps the initial value of a header phi.
func initKey(phi *ssa.Phi) ssa.Value {
	k := initKeys[phi]
	if k == nil {
		k = &initVal{Value: phi, phi: phi}
		initKeys[phi] = k
	}
	return k
}

func (f *frame) initOf(l *Loop, n *node, phi *ssa.Phi) *Term { return n.env[initKey(phi)] }

func (f *frame) ctlUses(l *Loop, phi *ssa.Phi) bool {
	if l.ctl == nil {
		return false
	}
	b, ok := l.ctl.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	uses := func(v ssa.Value) bool {
		if v == phi {
			return true
		}
		if x, ok := v.(*ssa.BinOp); ok {
			return x.X == phi || x.Y == phi
		}
		return false
	}
	return uses(b.X) || uses(b.Y)
}

func (f *frame) ivOf(l *Loop, a *LoopAct) (*Term, *ssa.Phi) {
	var best *ssa.Phi
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if l.ivs[phi] != 0 && phiUsed(phi) && (best == nil || f.ctlUses(l, phi)) {
			best = phi
		}
	}
	if best == nil {
		return nil, nil
	}
	return mkSite("iv", "", best.Type(), best, f.ctx), best
}

func loopPos(l *Loop) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range l.header.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return l.fn.Pos()
}

func (f *frame) act(st *State, l *Loop) *LoopAct {
	for i := len(st.loops) - 1; i >= 0; i-- {
		if st.loops[i].L == l && st.loops[i].Ctx == f.ctx {
			return st.loops[i]
		}
	}
	return nil
}

func (f *frame) replaceAct(st *State, old, nw *LoopAct) {
	ls := append([]*LoopAct{}, st.loops...)
	for i := range ls {
		if ls[i] == old {
			ls[i] = nw
		}
	}
	st.loops = ls
}

func (f *frame) leave(n *node, l *Loop, prev, to *ssa.BasicBlock) {
	st := n.st
	a := f.act(st, l)
	if a == nil {
		return
	}
	brk := true
	if prev == l.header && (l.ctl != nil || l.next != nil) {
		brk = false
	}
	f.e.emit(st, &Event{Kind: EvLoopExit, Act: a, Break: brk, Ctx: f.ctx, Instr: l.header.Instrs[0], Pos: loopPos(l)})
	var ls []*LoopAct
	for _, x := range st.loops {
		if x != a {
			ls = append(ls, x)
		}
	}
	st.loops = ls
	if !brk && a.Scan != nil && a.Scan.IV != nil && a.Scan.IV.Op == "iv" {
		// the iteration variable is known on exhaustion
		fin := a.Scan.To
		if l.ivs[ivPhiOf(a.Scan.IV)] > 0 {
			fin.k++
		} else {
			fin.k--
		}
		if a.Iter == 0 && f.zeroTrip(st, a) {
			fin = a.Scan.From
		}
		f.subst(n, a.Scan.IV, fin)
	}
}

func ivPhiOf(t *Term) *ssa.Phi {
	p, _ := t.Site.(*ssa.Phi)
	return p
}

func (f *frame) zeroTrip(st *State, a *LoopAct) bool { return a.Scan != nil && a.Scan.Kind == "zero" }

// subst replaces an iteration variable by a linear form in facts and in the environment.
func (f *frame) subst(n *node, iv *Term, by Lin) {
	if by.c[iv] != 0 {
		return
	}
	sub := func(t *Term) *Term {
		l := linOf(t)
		k := l.c[iv]
		if k == 0 {
			return t
		}
		r := l.add(Lin{c: map[*Term]int64{iv: 1}}, -k).add(by, k)
		return r.term()
	}
	st := n.st
	var add []*Term
	var pol []bool
	for t, v := range st.facts {
		if (t.Op == "pos" || t.Op == "eq0") && linOf(t.Args[0]).c[iv] != 0 {
			l := linOf(sub(t.Args[0]))
			if t.Op == "pos" {
				add = append(add, mkPos(l))
			} else {
				add = append(add, mkLinEq0(l))
			}
			pol = append(pol, v)
		}
	}
	for i, t := range add {
		st.assume(t, pol[i])
	}
	for k, v := range n.env {
		if v == iv || v.Op == "lin" {
			if nv := sub(v); nv != v {
				n.env[k] = nv
			}
		}
	}
}

func mkLinEq0(d Lin) *Term {
	if d.isConst() {
		if d.k == 0 {
			return tTrue
		}
		return tFalse
	}
	return mkLinAtom("eq0", canonSign(d))
}

// knownTrips says whether the controlling comparison has constant operands on entry.
func (f *frame) knownTrips(n *node, l *Loop, phiVal func(*ssa.Phi) *Term) (int64, bool) {
	b, ok := l.ctl.Cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	var ev func(v ssa.Value, d int) *Term
	ev = func(v ssa.Value, d int) *Term {
		if d > 4 {
			return nil
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.header {
			return phiVal(p)
		}
		if t := n.env[v]; t != nil {
			return t
		}
		switch x := v.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
			return f.val(n, v)
		case *ssa.BinOp:
			p, q := ev(x.X, d+1), ev(x.Y, d+1)
			if p == nil || q == nil {
				return nil
			}
			switch x.Op {
			case token.ADD:
				return linOf(p).add(linOf(q), 1).term()
			case token.SUB:
				return linOf(p).add(linOf(q), -1).term()
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if a := ev(x.Call.Args[0], d+1); a != nil {
					return f.e.lenOf(n.st, a, x, f.ctx)
				}
			}
		}
		return nil
	}
	p, q := ev(b.X, 0), ev(b.Y, 0)
	if p == nil || q == nil {
		return 0, false
	}
	x, ok1 := p.intVal()
	y, ok2 := q.intVal()
	if !ok1 || !ok2 {
		return 0, false
	}
	// an IV must be involved
	_, iv := f.ivOf(l, nil)
	if iv == nil {
		return 0, false
	}
	d := y - x
	if d < 0 {
		d = -d
	}
	return d, true
}

// widen generalises a value carried around a loop.
// coarse: lists filled by loops are not described, unless with the keys of a map.
var coarse bool

func ofKeys(v *Term) bool {
	ps := v.Args[1:]
	if v.Op == "acc" {
		ps = v.Obj.(*AccInfo).Pats
	}
	for _, p := range ps {
		if p.Op != "rkey" {
			return false
		}
	}
	return len(ps) == 1
}

// shortList: a list made of a few elements which have been appended to nothing.
func shortList(v *Term) bool {
	n := 0
	for v.Op == "app" && n <= 3 {
		n += len(v.Args) - 1
		v = v.Args[0]
	}
	return n > 0 && n <= 3 && v.Op == "nil"
}

func widenTerm(st *State, a *LoopAct, slot interface{}, old, v *Term, typ types.Type) *Term {
	slotID := ""
	var site ssa.Instruction
	switch x := slot.(type) {
	case *ssa.Phi:
		slotID = "p" + strconv.Itoa(siteID(x))
		site = x
	case *Term:
		slotID = "h" + strconv.Itoa(x.ID)
		site = a.site0()
	}
	loopID := a.key0()
	if coarse && (v.Op == "app" || v.Op == "acc") && !ofKeys(v) {
		return mkSite("lv", slotID, typ, site, a.Ctx)
	}
	if old != nil && v == old && v.Op != "acc" && !mentionsBorn(v, a) {
		return v
	}
	if v.Op == "app" {
		var pats []*Term
		x := v
		for x.Op == "app" {
			pats = append(append([]*Term{}, x.Args[1:]...), pats...)
			x = x.Args[0]
		}
		full := len(pats) == 1
		var init *Term
		if x.Op == "acc" && x.Obj.(*AccInfo).Loop == loopID && x.Obj.(*AccInfo).Slot == slotID {
			ai := x.Obj.(*AccInfo)
			init = ai.Init
			full = full && ai.Full
			if len(pats) != len(ai.Pats) {
				pats = nil
			} else {
				for i := range pats {
					if pats[i] != ai.Pats[i] {
						pats = nil
						break
					}
				}
			}
			if pats == nil {
				full = false
			}
		} else if mentionsBorn(x, a) {
			return mkSite("lv", slotID+"nn", typ, site, a.Ctx)
		} else {
			init = x
			if a.Iter > 0 {
				full = false
			}
		}
		return mkAcc(&AccInfo{Loop: loopID, Slot: slotID, Init: init, Pats: pats, Full: full, Act: a, Some: true}, typ)
	}
	if v.Op == "acc" {
		ai := v.Obj.(*AccInfo)
		if ai.Loop == loopID && ai.Slot == slotID {
			if ai.Full { // an iteration without append
				n := *ai
				n.Full = false
				return mkAcc(&n, typ)
			}
			return v
		}
		if old != nil && v != old {
			// filled by an inner loop
			root := ai.Init
			for root.Op == "acc" && !(root.Obj.(*AccInfo).Loop == loopID && root.Obj.(*AccInfo).Slot == slotID) {
				root = root.Obj.(*AccInfo).Init
			}
			init := root
			if root.Op == "acc" {
				init = root.Obj.(*AccInfo).Init
			}
			if !mentionsBorn(init, a) {
				return mkAcc(&AccInfo{Loop: loopID, Slot: slotID, Init: init, Act: a, Nested: ai, Some: ai.Some}, typ)
			}
		}
	}
	if n, isInt := v.intVal(); isInt && old != nil && v != old && (n > 1 || n < -1) {
		return mkSite("lv", slotID, typ, site, a.Ctx)
	}
	if grows(old, v) {
		return mkSite("lv", slotID, typ, site, a.Ctx)
	}
	if v.isConst() {
		return v
	}
	if old != nil && v != old && mentions(v, old) || mentionsBorn(v, a) {
		nn := ""
		if isNilable(typ) {
			if x, k := st.isNil(v); k && !x {
				nn = "nn"
			}
		}
		return mkSite("lv", slotID+nn, typ, site, a.Ctx)
	}
	return v
}

func (a *LoopAct) site0() ssa.Instruction {
	if a.L != nil {
		return a.L.header.Instrs[0]
	}
	return a.Site
}

func (a *LoopAct) key0() string {
	if a.L != nil {
		return fmt.Sprintf("L%d@%d", a.L.id, a.Ctx.id)
	}
	return fmt.Sprintf("S%d@%d", siteID(a.Site), a.Ctx.id)
}

// AccInfo describes a list filled by the iterations of a loop.
type AccInfo struct {
	Loop   string
	Slot   string
	Init   *Term
	Pats   []*Term // what every iteration appends (nil: several things)
	Full   bool    // every iteration appends exactly one element
	Some   bool    // non-empty
	Act    *LoopAct
	Nested *AccInfo
}

func mkAcc(ai *AccInfo, typ types.Type) *Term {
	aux := ai.Loop + ":" + ai.Slot
	if ai.Full {
		aux += ":full"
	} else {
		aux += ":part"
	}
	if ai.Some {
		aux += "+"
	}
	for _, p := range ai.Pats {
		aux += fmt.Sprintf(",%d", p.ID)
	}
	if ai.Nested != nil {
		aux += "^" + ai.Nested.Loop
	}
	if ai.Act != nil && ai.Act.Scan != nil && ai.Act.Scan.Cont != nil {
		aux += fmt.Sprintf("@%d", ai.Act.Scan.Cont.ID)
		if ai.Act.Scan.Full {
			aux += "f"
		}
	}
	return mkObj("acc", aux, ai, typ, ai.Init)
}

// setOrForget stores a widened value; an arbitrary value in memory which did not start out zeroed need not be named.
func (s *State) setOrForget(x, v *Term) {
	if v.Op == "lv" && !strings.HasSuffix(v.Obj.(string), "nn") && (x.Op == "mapel" || baseObj(x).Op != "new") {
		s.del(x)
		return
	}
	s.set(x, v)
}

// grows says whether an integer was changed by a constant (and is not itself a small constant).
func grows(old, v *Term) bool {
	if old == nil || v == old || v.isConst() || !isIntTerm(v) || !isIntTerm(old) {
		return false
	}
	d := linOf(v).add(linOf(old), -1)
	return d.isConst()
}

type lowFact struct {
	t  *Term
	lo int64
}

// clampLo gives a lower bound (0 or 1) of an integer term which survives widening.
func (s *State) clampLo(v *Term) (int64, bool) {
	l := linOf(v)
	lo, _ := s.bounds(l)
	if lo <= -inf {
		if len(l.c) != 0 {
			return 0, false
		}
		lo = 0
	}
	lo += l.k
	switch {
	case lo >= 1:
		return 1, true
	case lo == 0:
		return 0, true
	}
	return 0, false
}

// killBorn drops what was known about the terms of the previous iteration (or activation).
func (e *Engine) killBorn(st *State, a *LoopAct, entry bool) {
	memo := map[*Term]bool{}
	dead := func(t *Term) bool {
		if d, ok := memo[t]; ok {
			return d
		}
		d := mentionsBornIn(t, a, entry)
		memo[t] = d
		return d
	}
	pre := &State{facts: st.facts}
	st.fsh = true
	for t := range pre.facts {
		if dead(t) {
			st.delFact(t)
		}
	}
	var addrs []*Term
	var lows []lowFact
	for x := range st.heap {
		addrs = append(addrs, x)
	}
	sort.Slice(addrs, func(i, j int) bool { return addrs[i].ID < addrs[j].ID })
	for _, x := range addrs {
		v := st.heap[x]
		if dead(x) {
			st.del(x)
			continue
		}
		if entry {
			if dead(v) {
				st.setOrForget(x, mkSite("lv", "h"+strconv.Itoa(x.ID), v.Typ, a.site0(), a.Ctx))
			}
			continue
		}
		if a.Steps && !dead(v) {
			continue
		}
		unchanged := a.Hdr != nil && a.Hdr[x] == v
		if unchanged && !dead(v) && v.Op != "acc" {
			continue
		}
		n, isInt := v.intVal()
		if v.Op == "app" || v.Op == "acc" || dead(v) || isInt && (n > 1 || n < -1) || a.Hdr != nil && grows(a.Hdr[x], v) {
			var old *Term
			if a.Hdr != nil {
				old = a.Hdr[x]
			}
			if v.Op == "acc" && unchanged {
				ai := v.Obj.(*AccInfo)
				if ai.Loop != a.key0() {
					continue
				}
			}
			if unchanged {
				old = nil
			}
			if x.Op == "mapel" {
				st.del(x)
				continue
			}
			nv := widenTerm(st, a, x, old, v, v.Typ)
			if nv.Op == "lv" && isIntTerm(v) {
				if lo, ok := pre.clampLo(v); ok {
					lows = append(lows, lowFact{nv, lo})
				}
			}
			st.setOrForget(x, nv)
		}
	}
	if !entry && a.L != nil {
		for x := range st.heap {
			if x.Op == "mapempty" && a.L.updatesMap(x.Args[0].Typ) {
				st.del(x)
			}
		}
	}
	for _, x := range lows {
		st.assume(mkPos(linOf(x.t).add(Lin{k: 1 - x.lo}, 1)), true)
	}
	st.mon.Kill(dead)
}

func (f *frame) nodeKey(n *node) hkey {
	h := hkey{uint64(n.blk.Index) * 0x9E3779B97F4A7C15, uint64(n.blk.Index) + 3}
	for v, t := range n.env {
		if _, ok := v.(*initVal); ok {
			continue
		}
		x := valHash(v)
		h.add(hkey{mix(x*31 + t.h[1]), mix(x*53 + t.h[0])})
	}
	var sb strings.Builder
	for _, d := range n.defers {
		sb.WriteString(strconv.Itoa(siteID(d.instr)))
		for _, a := range d.args {
			sb.WriteString("." + strconv.Itoa(a.ID))
		}
		if d.fnv != nil {
			sb.WriteString("f" + strconv.Itoa(d.fnv.ID))
		}
	}
	h.add(strHash(sb.String()))
	h.add(n.st.key())
	return h
}

var valHashes = map[ssa.Value]uint64{}

func valHash(v ssa.Value) uint64 {
	if h, ok := valHashes[v]; ok {
		return h
	}
	h := mix(uint64(len(valHashes)+1) * 0xD6E8FEB86659FD93)
	valHashes[v] = h
	return h
}

// gc drops facts and heap entries about unreachable terms.
func (f *frame) gc(n *node, extra []*Term) {
	var roots []*Term
	for _, t := range n.env {
		roots = append(roots, t)
	}
	roots = append(roots, f.args...)
	roots = append(roots, f.binds...)
	for _, d := range n.defers {
		roots = append(roots, d.args...)
		if d.fnv != nil {
			roots = append(roots, d.fnv)
		}
		if d.recv != nil {
			roots = append(roots, d.recv)
		}
	}
	roots = append(roots, extra...)
	f.e.gcState(n.st, roots)
}

func (e *Engine) gcState(st *State, roots []*Term) {
	marked := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || marked[t] {
			return
		}
		marked[t] = true
		for _, a := range t.Args {
			mark(a)
		}
		if t.Op == "lin" {
			for x := range t.Obj.(Lin).c {
				mark(x)
			}
		}
	}
	for _, r := range roots {
		mark(r)
	}
	for _, rs := range e.rootStack {
		for _, r := range rs {
			mark(r)
		}
	}
	for _, r := range st.mon.Roots() {
		mark(r)
	}
	for _, a := range st.loops {
		if a.Scan != nil {
			if a.Scan.Cont != nil {
				mark(a.Scan.Cont)
			}
			if a.Scan.IV != nil {
				mark(a.Scan.IV)
			}
		}
	}
	if st.panik != nil {
		mark(st.panik)
	}
	okMemo := map[*Term]int8{}
	var ok func(t *Term) bool // all site-bound subterms are marked
	ok = func(t *Term) bool {
		if marked[t] {
			return true
		}
		if v := okMemo[t]; v == 1 {
			return true
		}
		if t.Ctx != nil {
			return false
		}
		for _, a := range t.Args {
			if !ok(a) {
				return false
			}
		}
		okMemo[t] = 1
		return true
	}
	pending := make([]*Term, 0, len(st.heap))
	for a := range st.heap {
		pending = append(pending, a)
	}
	for {
		var rest []*Term
		ch := false
		for _, a := range pending {
			if ok(a) {
				mark(st.heap[a])
				for _, x := range a.Args {
					mark(x)
				}
				ch = true
			} else {
				rest = append(rest, a)
			}
		}
		pending = rest
		if !ch {
			break
		}
	}
	for _, a := range pending {
		st.del(a)
	}
	var ivs map[*Term]bool
	for t := range st.facts {
		if ok(t) {
			continue
		}
		if e.cfg.KeepFact != nil && e.cfg.KeepFact(t) {
			if ivs == nil {
				ivs = map[*Term]bool{}
				for _, a := range st.loops {
					if a.Scan != nil && a.Scan.IV != nil {
						ivs[a.Scan.IV] = true
					}
				}
			}
			if mentionsIV(t, ivs) {
				continue
			}
		}
		st.delFact(t)
	}
}

func mentionsIV(t *Term, ivs map[*Term]bool) bool {
	return mentionsAny(t, func(x *Term) bool {
		if x.Op == "lin" {
			for y := range x.Obj.(Lin).c {
				if ivs[y] {
					return true
				}
			}
		}
		return ivs[x]
	})
}

// ---- instructions ----

func (f *frame) run(n *node) {
	b := n.blk
	for n.idx < len(b.Instrs) {
		in := b.Instrs[n.idx]
		n.idx++
		if f.step(n, in) || n.st.dead {
			return
		}
	}
}

// step executes one instruction; true means the node was consumed.
func (f *frame) step(n *node, in ssa.Instruction) bool {
	e, st := f.e, n.st
	switch x := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.Alloc:
		t := mkSite("new", "", x.Type(), x, f.ctx)
		e.fresh(st, t)
		st.set(mk("zeroed", "", nil, t), tTrue)
		n.env[x] = t
		e.emit(st, &Event{Kind: EvAlloc, Instr: x, Val: t, Ctx: f.ctx})
	case *ssa.MakeMap:
		t := mkSite("new", "", x.Type(), x, f.ctx)
		e.fresh(st, t)
		st.set(mk("mapempty", "", nil, t), tTrue)
		n.env[x] = t
		e.emit(st, &Event{Kind: EvAlloc, Instr: x, Val: t, Ctx: f.ctx})
	case *ssa.MakeSlice:
		t := mkSite("new", "", x.Type(), x, f.ctx, f.val(n, x.Len))
		e.fresh(st, t)
		st.set(mk("zeroed", "", nil, t), tTrue)
		n.env[x] = t
	case *ssa.MakeChan:
		t := mkSite("new", "", x.Type(), x, f.ctx, f.val(n, x.Size))
		e.fresh(st, t)
		n.env[x] = t
		e.emit(st, &Event{Kind: EvAlloc, Instr: x, Val: t, Ctx: f.ctx})
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, f.val(n, b))
		}
		n.env[x] = fnTerm(x.Fn.(*ssa.Function), bs)
	case *ssa.MakeInterface:
		n.env[x] = f.val(n, x.X)
	case *ssa.ChangeType:
		n.env[x] = f.val(n, x.X)
	case *ssa.ChangeInterface:
		n.env[x] = f.val(n, x.X)
	case *ssa.SliceToArrayPointer:
		n.env[x] = f.val(n, x.X)
	case *ssa.Convert:
		n.env[x] = convTerm(f.val(n, x.X), x.Type())
	case *ssa.MultiConvert:
		n.env[x] = convTerm(f.val(n, x.X), x.Type())
	case *ssa.FieldAddr:
		n.env[x] = fieldAddr(f.val(n, x.X), x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct), x.Field)
	case *ssa.Field:
		n.env[x] = fieldOf(f.val(n, x.X), x.X.Type().Underlying().(*types.Struct), x.Field)
	case *ssa.IndexAddr:
		n.env[x] = idxAddr(f.val(n, x.X), f.val(n, x.Index), x.Type())
	case *ssa.Index:
		n.env[x] = mk("at", "", x.Type(), f.val(n, x.X), f.val(n, x.Index))
	case *ssa.Slice:
		n.env[x] = f.slice(n, x)
	case *ssa.Extract:
		t := f.val(n, x.Tuple)
		if t.Op == "tuple" && x.Index < len(t.Args) {
			n.env[x] = t.Args[x.Index]
		} else {
			n.env[x] = mk("extract", strconv.Itoa(x.Index), x.Type(), t)
		}
	case *ssa.BinOp:
		n.env[x] = binTerm(x.Op, f.val(n, x.X), f.val(n, x.Y), x.Type())
	case *ssa.UnOp:
		return f.unop(n, x)
	case *ssa.TypeAssert:
		v := f.val(n, x.X)
		if !x.CommaOk {
			n.env[x] = v
			break
		}
		vz, vk := st.isNil(v)
		okT := mk("taok", x.AssertedType.String(), types.Typ[types.Bool], v)
		if vk && vz {
			n.env[x] = mk("tuple", "", nil, zeroTerm(x.AssertedType), tFalse)
			break
		}
		if b, k := st.eval(okT); k {
			if b {
				n.env[x] = mk("tuple", "", nil, v, tTrue)
			} else {
				n.env[x] = mk("tuple", "", nil, zeroTerm(x.AssertedType), tFalse)
			}
			break
		}
		m := n.fork()
		if n.st.assume(okT, true) {
			n.env[x] = mk("tuple", "", nil, v, tTrue)
			// an asserted value is not a nil interface
			if isNilable(x.AssertedType) {
				n.st.assume(mkEq(v, tNil), false)
			}
			f.work = append(f.work, n)
		}
		if m.st.assume(okT, false) {
			m.env[x] = mk("tuple", "", nil, zeroTerm(x.AssertedType), tFalse)
			f.work = append(f.work, m)
		}
		return true
	case *ssa.Store:
		e.store(st, f.val(n, x.Addr), f.val(n, x.Val), x, f.ctx)
	case *ssa.MapUpdate:
		e.mapUpdate(st, f.val(n, x.Map), f.val(n, x.Key), f.val(n, x.Value), x, f.ctx)
	case *ssa.Lookup:
		return f.lookup(n, x)
	case *ssa.Range:
		n.env[x] = mk("iter", "", nil, f.val(n, x.X))
	case *ssa.Next:
		return f.next(n, x)
	case *ssa.Send:
		e.emit(st, &Event{Kind: EvSend, Instr: x, Addr: f.val(n, x.Chan), Val: f.val(n, x.X), Ctx: f.ctx})
	case *ssa.Select:
		return f.sel(n, x)
	case *ssa.If:
		return f.branch(n, x)
	case *ssa.Jump:
		n.prev, n.blk = n.blk, n.blk.Succs[0]
		f.enter(n)
		return true
	case *ssa.Return:
		var vs []*Term
		for _, r := range x.Results {
			vs = append(vs, f.val(n, r))
		}
		f.out(&Outcome{kind: okRet, vals: vs, st: st})
		return true
	case *ssa.RunDefers:
		return f.runDefers(n, nil)
	case *ssa.Panic:
		v := f.val(n, x.X)
		p := mkSite("panic", "explicit", nil, x, f.ctx, v)
		e.emit(st, &Event{Kind: EvPanic, Instr: x, Val: v, Ctx: f.ctx})
		st.log(x.Pos(), "panic(%s)", v)
		f.raise(n, p)
		return true
	case *ssa.Defer:
		d := &deferred{call: &x.Call, instr: x}
		if x.Call.IsInvoke() {
			d.recv = f.val(n, x.Call.Value)
		} else {
			d.fnv = f.val(n, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, f.val(n, a))
		}
		n.defers = append(n.defers[:len(n.defers):len(n.defers)], d)
	case *ssa.Go:
		var args []*Term
		for _, a := range x.Call.Args {
			args = append(args, f.val(n, a))
		}
		var fv *Term
		if !x.Call.IsInvoke() {
			fv = f.val(n, x.Call.Value)
		}
		f.spawn(n, x, fv, args)
	case *ssa.Call:
		return f.call(n, x)
	default:
		panic(fmt.Sprintf("unhandled instruction %T in %s", in, f.fn))
	}
	return false
}

func convTerm(v *Term, typ types.Type) *Term {
	if isIntType(typ) && (isIntTerm(v) || v.Typ != nil && isIntType(v.Typ)) {
		return v
	}
	if v.Op == "const" {
		if s, ok := v.strVal(); ok && isStringType(typ) {
			return mkStr(s)
		}
	}
	return mk("conv", typ.String(), typ, v)
}

func fieldAddr(base *Term, st *types.Struct, i int) *Term {
	fv := st.Field(i)
	return mkObj("fld", fv.Name(), fv, types.NewPointer(fv.Type()), base)
}

func fieldOf(v *Term, st *types.Struct, i int) *Term {
	fv := st.Field(i)
	return fieldByName(v, fv)
}

func fieldByName(v *Term, fv *types.Var) *Term {
	switch v.Op {
	case "zero":
		return zeroTerm(fv.Type())
	case "sv":
		for i, n := range strings.Split(v.Aux, ",") {
			if n == fv.Name() {
				return v.Args[i+1]
			}
		}
		return fieldByName(v.Args[0], fv)
	}
	return mkObj("fv", fv.Name(), fv, fv.Type(), v)
}

func idxAddr(x, i *Term, typ types.Type) *Term {
	if x.Op == "slice" && len(x.Args) == 3 {
		lo := x.Args[1]
		if lo.Op == "nil" {
			return idxAddr(x.Args[0], i, typ)
		}
		return idxAddr(x.Args[0], linOf(lo).add(linOf(i), 1).term(), typ)
	}
	return mk("idx", "", typ, x, i)
}

func (f *frame) slice(n *node, x *ssa.Slice) *Term {
	v := f.val(n, x.X)
	opt := func(o ssa.Value) *Term {
		if o == nil {
			return tNil
		}
		return f.val(n, o)
	}
	lo, hi := opt(x.Low), opt(x.High)
	if isStringType(x.X.Type()) {
		return mk("substr", "", x.Type(), v, lo, hi)
	}
	if k, ok := lo.intVal(); ok && k == 0 {
		lo = tNil
	}
	if v.Op == "new" && hi.Op != "nil" {
		// make + reslice of the whole array: the pattern of a composite literal
		if p, ok := v.Typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				if k, ok := hi.intVal(); ok && k == a.Len() {
					hi = tNil
				}
			}
		}
	}
	if lo.Op == "nil" && hi.Op == "nil" {
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			return v
		}
	}
	return mk("slice", "", x.Type(), v, lo, hi)
}

func binTerm(op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.GEQ:
		return mkNot(mkLt(a, b))
	}
	if isIntType(typ) {
		switch op {
		case token.ADD:
			return linOf(a).add(linOf(b), 1).term()
		case token.SUB:
			return linOf(a).add(linOf(b), -1).term()
		case token.MUL:
			if n, ok := a.intVal(); ok {
				return Lin{}.add(linOf(b), n).term()
			}
			if n, ok := b.intVal(); ok {
				return Lin{}.add(linOf(a), n).term()
			}
		}
	}
	if a.Op == "const" && b.Op == "const" && op == token.ADD {
		if x, ok := a.strVal(); ok {
			if y, ok := b.strVal(); ok {
				return mkStr(x + y)
			}
		}
	}
	if a.Op == "const" && b.Op == "const" && isIntType(typ) {
		x, y := a.Obj.(constant.Value), b.Obj.(constant.Value)
		switch op {
		case token.AND, token.OR, token.XOR:
			return mkConst(constant.BinaryOp(x, op, y), typ)
		}
	}
	return mk("bin", op.String(), typ, a, b)
}

func (f *frame) unop(n *node, x *ssa.UnOp) bool {
	e, st := f.e, n.st
	v := f.val(n, x.X)
	switch x.Op {
	case token.MUL:
		if v.Op == "fld" && e.w.swapperOf(v) != nil {
			e.emit(st, &Event{Kind: EvLoad, Instr: x, Addr: v, Ctx: f.ctx})
		}
		n.env[x] = e.load(st, v, x.Type(), x, f.ctx)
	case token.NOT:
		n.env[x] = mkNot(v)
	case token.SUB:
		if isIntType(x.Type()) {
			n.env[x] = Lin{}.add(linOf(v), -1).term()
		} else {
			n.env[x] = mk("neg", "", x.Type(), v)
		}
	case token.ARROW:
		t := mkSite("recv", "", nil, x, f.ctx, v)
		e.emit(st, &Event{Kind: EvRecv, Instr: x, Addr: v, Val: t, Ctx: f.ctx})
		st.log(x.Pos(), "receive from %s", v)
		if x.CommaOk {
			ok := mkSite("recvok", "", types.Typ[types.Bool], x, f.ctx, v)
			n.env[x] = mk("tuple", "", nil, t, ok)
		} else {
			t.Typ = x.Type()
			n.env[x] = t
		}
	default:
		n.env[x] = mk("un", x.Op.String(), x.Type(), v)
	}
	return false
}

// fresh forgets everything about an object which is allocated (again).
func (e *Engine) fresh(st *State, t *Term) {
	for a := range st.heap {
		if a != t && mentions(a, t) {
			st.del(a)
		}
	}
}

// hookOwner strips the embedded PluginFuncs from the address of a plugin function.
func (w *World) hookOwner(addr *Term) (owner *Term, name string, ok bool) {
	if addr.Op != "fld" {
		return
	}
	fv, _ := addr.Obj.(*types.Var)
	if fv == nil || !w.hookFields[fv] {
		return
	}
	o := addr.Args[0]
	if o.Op == "fld" {
		if v, _ := o.Obj.(*types.Var); v != nil && v.Embedded() && namedOf(v.Type()) == w.pluginFuncsT {
			o = o.Args[0]
		}
	}
	return o, fv.Name(), true
}

func (e *Engine) load(st *State, addr *Term, typ types.Type, in ssa.Instruction, ctx *Ctx) *Term {
	if owner, name, ok := e.w.hookOwner(addr); ok {
		return mkObj("hook", name, addr, typ, owner)
	}
	if v := e.peek(st, addr, typ); v != nil {
		return v
	}
	t := mkSite("ld", "", typ, in, ctx, addr)
	if e.cfg.NoFact == nil || !e.cfg.NoFact(addr) {
		st.set(addr, t)
	}
	return t
}

// peek returns the known content of an address, or nil.
func (e *Engine) peek(st *State, addr *Term, typ types.Type) *Term {
	if s, ok := structOf(typ); ok {
		// assemble overrides
		var names []string
		var vals []*Term
		for i := 0; i < s.NumFields(); i++ {
			fa := fieldAddr(addr, s, i)
			if e.hasSub(st, fa) {
				fvar := s.Field(i)
				v := e.peek(st, fa, fvar.Type())
				if v == nil {
					continue
				}
				names = append(names, fvar.Name())
				vals = append(vals, v)
			}
		}
		base := e.peekWhole(st, addr, typ)
		if len(names) == 0 {
			return base
		}
		if base == nil {
			base = mk("part", "", typ, addr)
		}
		return mk("sv", strings.Join(names, ","), typ, append([]*Term{base}, vals...)...)
	}
	return e.peekWhole(st, addr, typ)
}

func structOf(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func (e *Engine) hasSub(st *State, addr *Term) bool {
	if _, ok := st.heap[addr]; ok {
		return true
	}
	for a := range st.heap {
		x := a
		for x.Op == "fld" {
			if x == addr {
				return true
			}
			x = x.Args[0]
		}
		if x == addr {
			return true
		}
	}
	return false
}

func (e *Engine) peekWhole(st *State, addr *Term, typ types.Type) *Term {
	if v := st.heap[addr]; v != nil {
		return v
	}
	switch addr.Op {
	case "global":
		if g, ok := addr.Obj.(*ssa.Global); ok {
			if k := e.w.constGlobals[g]; k != 0 {
				op := "gval"
				if k == 2 {
					op = "gvalnn"
				}
				return mkObj(op, addr.Aux, g, typ)
			}
		}
	case "fld":
		fv := addr.Obj.(*types.Var)
		p := addr.Args[0]
		// the enclosing struct as a whole
		if pv := st.heap[p]; pv != nil {
			if _, ok := structOf(pv.Typ); ok || pv.Op == "zero" || pv.Op == "sv" {
				return fieldByName(pv, fv)
			}
		}
		if p.Op == "fld" || p.Op == "idx" {
			if pt := ptrElem(p.Typ); pt != nil {
				if _, ok := structOf(pt); ok {
					if pv := e.peekWhole(st, p, pt); pv != nil {
						return fieldByName(pv, fv)
					}
				}
			}
		}
	case "idx":
		c, i := addr.Args[0], addr.Args[1]
		if c.Op == "app" {
			if k, ok := i.intVal(); ok {
				if n, ok := e.constLen(st, c.Args[0]); ok {
					if k >= n && int(k-n) < len(c.Args)-1 && c.Args[1+k-n].Op != "spread" {
						return c.Args[1+k-n]
					}
					if k < n {
						if el := e.peek(st, idxAddr(c.Args[0], i, addr.Typ), typ); el != nil {
							return el
						}
					}
				}
			}
		}
	}
	b := baseObj(addr)
	if b.Op == "new" && addr.Op != "mapel" {
		if z := st.heap[mk("zeroed", "", nil, b)]; z != nil {
			if fv, ok := addr.Obj.(*types.Var); addr.Op == "fld" && ok && e.w.hookFields[fv] {
				return nil
			}
			// an element of an array or slice whose index is not constant may be anything stored before
			if addr.Op == "idx" {
				if _, ok := addr.Args[1].intVal(); !ok && e.hasIdx(st, addr.Args[0]) {
					return nil
				}
			}
			return zeroTerm(typ)
		}
	}
	return nil
}

func (e *Engine) hasIdx(st *State, c *Term) bool {
	for a := range st.heap {
		if a.Op == "idx" && a.Args[0] == c {
			return true
		}
	}
	return false
}

func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (e *Engine) constLen(st *State, c *Term) (int64, bool) {
	l := e.lenOf(st, c, nil, nil)
	if l == nil {
		return 0, false
	}
	return l.intVal()
}

// lenOf evaluates len(c).
func (e *Engine) lenOf(st *State, c *Term, in ssa.Instruction, ctx *Ctx) *Term {
	switch c.Op {
	case "nil":
		return mkInt(0)
	case "const":
		if s, ok := c.strVal(); ok {
			return mkInt(int64(len(s)))
		}
	case "app":
		n := int64(0)
		spread := false
		for _, a := range c.Args[1:] {
			if a.Op == "spread" {
				spread = true
			} else {
				n++
			}
		}
		if !spread {
			b := e.lenOf(st, c.Args[0], in, ctx)
			if b != nil {
				return linOf(b).add(Lin{k: n}, 1).term()
			}
		}
	case "new":
		if len(c.Args) > 0 {
			if _, ok := c.Typ.Underlying().(*types.Slice); ok {
				return c.Args[0]
			}
		}
		if p := ptrElem(c.Typ); p != nil {
			if a, ok := p.Underlying().(*types.Array); ok {
				return mkInt(a.Len())
			}
		}
		if st.heap[mk("mapempty", "", nil, c)] != nil {
			return mkInt(0)
		}
	case "slice":
		x, lo, hi := c.Args[0], c.Args[1], c.Args[2]
		var h *Term
		if hi.Op != "nil" {
			h = hi
		} else {
			h = e.lenOf(st, x, in, ctx)
		}
		if h == nil {
			return nil
		}
		if lo.Op == "nil" {
			return h
		}
		return linOf(h).add(linOf(lo), -1).term()
	}
	if c.Typ != nil {
		if _, ok := c.Typ.Underlying().(*types.Map); ok {
			a := mk("maplen", "", nil, c)
			if v := st.heap[a]; v != nil {
				return v
			}
			if in == nil {
				return nil
			}
			t := mkSite("maplenv", "", types.Typ[types.Int], in, ctx, c)
			st.set(a, t)
			return t
		}
	}
	return mk("len", "", types.Typ[types.Int], c)
}

// mayAlias says whether two addresses may denote the same location.
func (e *Engine) mayAlias(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op != b.Op || len(a.Args) == 0 || len(a.Args) != len(b.Args) {
		return false
	}
	switch a.Op {
	case "fld":
		if a.Obj != b.Obj {
			return false
		}
		return e.mayEqual(st, a.Args[0], b.Args[0])
	case "idx", "mapel", "mapok":
		if a.Args[0] != b.Args[0] {
			if !types.Identical(typOr(a.Args[0].Typ), typOr(b.Args[0].Typ)) {
				return false
			}
			if !e.mayEqual(st, a.Args[0], b.Args[0]) {
				return false
			}
		}
		if a.Args[1] == b.Args[1] {
			return true
		}
		return !st.distinct(a.Args[1], b.Args[1]) && !st.isFalse(mkEq(a.Args[1], b.Args[1]))
	case "maplen", "mapempty":
		return e.mayEqual(st, a.Args[0], b.Args[0])
	case "av":
		return a.Args[0] == b.Args[0]
	}
	return false
}

func typOr(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t
}

// mayEqual says whether two references may be the same object.
func (e *Engine) mayEqual(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if st.distinct(a, b) {
		return false
	}
	isNew := func(t *Term) bool { return t.Op == "new" }
	if isNew(a) != isNew(b) {
		return false
	}
	if (a.Op == "fld" || a.Op == "idx") && (b.Op == "fld" || b.Op == "idx") {
		return e.mayAlias(st, a, b)
	}
	if a.Op == "fld" || b.Op == "fld" || a.Op == "idx" || b.Op == "idx" {
		// address of a part vs. a pointer of unknown origin
		return types.Identical(typOr(a.Typ), typOr(b.Typ))
	}
	// contents of different fields are taken to be different containers
	if a.Op == "ld" && b.Op == "ld" && a.Args[0].Op == "fld" && b.Args[0].Op == "fld" && a.Args[0].Obj != b.Args[0].Obj {
		return false
	}
	if a.Typ != nil && b.Typ != nil && !types.Identical(a.Typ, b.Typ) {
		return false
	}
	return true
}

func (e *Engine) store(st *State, addr, v *Term, in ssa.Instruction, ctx *Ctx) {
	e.emit(st, &Event{Kind: EvStore, Instr: in, Addr: addr, Val: v, Ctx: ctx})
	e.rawStore(st, addr, v)
}

func (e *Engine) rawStore(st *State, addr, v *Term) {
	for a := range st.heap {
		if a == addr {
			continue
		}
		if a.Op == addr.Op && e.mayAlias(st, a, addr) {
			st.del(a)
			continue
		}
		// parts of the location
		x := a
		for (x.Op == "fld" || x.Op == "idx") && x != addr {
			x = x.Args[0]
		}
		if x == addr && a != addr && (a.Op == "fld" || a.Op == "idx") {
			if _, ok := structOf(ptrElem(addr.Typ)); ok {
				st.del(a)
			}
		}
	}
	if addr.Op == "idx" {
		st.del(mk("copyof", "", nil, addr.Args[0]))
	}
	st.set(addr, v)
}

func (e *Engine) mapUpdate(st *State, m, k, v *Term, in ssa.Instruction, ctx *Ctx) {
	okA := mk("mapok", "", nil, m, k)
	ok, old := st.heap[okA], st.heap[mk("mapel", "", nil, m, k)]
	if st.heap[mk("mapempty", "", nil, m)] != nil {
		ok = tFalse
	}
	if ok == tFalse {
		if mt, is := typOr(m.Typ).Underlying().(*types.Map); is {
			old = zeroTerm(mt.Elem())
		}
	}
	e.emit(st, &Event{Kind: EvMapUpdate, Instr: in, Addr: m, Key: k, Val: v, Ctx: ctx, OldOk: ok, OldVal: old})
	e.killMap(st, m, k, true)
	st.set(mk("mapel", "", nil, m, k), v)
	st.set(okA, tTrue)
}

func (e *Engine) killMap(st *State, m, k *Term, add bool) {
	el, okA := mk("mapel", "", nil, m, k), mk("mapok", "", nil, m, k)
	for a := range st.heap {
		switch a.Op {
		case "mapel":
			if a != el && e.mayAlias(st, a, el) {
				st.del(a)
			}
		case "mapok":
			if a != okA && !(add && st.heap[a] == tTrue) && e.mayAlias(st, a, okA) {
				st.del(a)
			}
		case "maplen", "mapempty":
			if a.Args[0] == m || e.mayEqual(st, a.Args[0], m) && types.Identical(typOr(a.Args[0].Typ), typOr(m.Typ)) {
				st.del(a)
			}
		}
	}
}

func (f *frame) lookup(n *node, x *ssa.Lookup) bool {
	e, st := f.e, n.st
	m, k := f.val(n, x.X), f.val(n, x.Index)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		n.env[x] = mk("at", "", x.Type(), m, k)
		return false
	}
	el, okA := mk("mapel", "", types.NewPointer(mt.Elem()), m, k), mk("mapok", "", nil, m, k)
	e.emit(st, &Event{Kind: EvLookup, Instr: x, Addr: m, Key: k, Ctx: f.ctx})
	okv := st.heap[okA]
	if st.heap[mk("mapempty", "", nil, m)] != nil {
		okv = tFalse
	}
	if z, kn := st.isNil(m); kn && z {
		okv = tFalse
	}
	bind := func(n *node, present *Term) {
		var v *Term
		if present == tFalse {
			v = zeroTerm(mt.Elem())
		} else {
			v = e.load(n.st, el, mt.Elem(), x, f.ctx)
		}
		if x.CommaOk {
			n.env[x] = mk("tuple", "", nil, v, present)
		} else {
			n.env[x] = v
		}
	}
	if okv != nil && okv.isConst() {
		bind(n, okv)
		return false
	}
	if !x.CommaOk {
		n.env[x] = e.load(st, el, mt.Elem(), x, f.ctx)
		return false
	}
	n2 := n.fork()
	n.st.set(okA, tTrue)
	n.st.log(x.Pos(), "%s is in %s", k, m)
	bind(n, tTrue)
	n2.st.set(okA, tFalse)
	n2.st.set(el, zeroTerm(mt.Elem()))
	n2.st.log(x.Pos(), "%s is not in %s", k, m)
	bind(n2, tFalse)
	f.work = append(f.work, n, n2)
	return true
}

func (f *frame) next(n *node, x *ssa.Next) bool {
	e, st := f.e, n.st
	it := f.val(n, x.Iter)
	c := it.Args[0]
	var l *Loop
	if hl := f.fi.byHdr[x.Block()]; hl != nil {
		l = hl
	}
	var a *LoopAct
	if l != nil {
		a = f.act(st, l)
	}
	var kt, vt types.Type
	tup := x.Type().(*types.Tuple)
	kt, vt = tup.At(1).Type(), tup.At(2).Type()
	if x.IsString {
		kt, vt = types.Typ[types.Int], types.Typ[types.Rune]
	}
	if m, ok := typOr(c.Typ).Underlying().(*types.Map); ok {
		kt, vt = m.Key(), m.Elem()
	}
	empty := st.heap[mk("mapempty", "", nil, c)] != nil || c.Op == "nil"
	k := mkSite("rkey", "", kt, x, f.ctx, c)
	scan := &Scan{Kind: "map", Cont: c, IV: k, Full: true}
	done := n
	if !empty {
		some := false // the first step of a loop over a map which is known to contain something
		if a != nil && a.Iter == 0 {
			for t, v := range st.heap {
				if t.Op == "mapok" && t.Args[0] == c && v == tTrue && t.Args[1].Op == "const" {
					some = true
				}
			}
		}
		done = nil
		if !some {
			done = n.fork()
		}
		// one more element
		if a != nil {
			na := *a
			na.Scan = scan
			f.replaceAct(st, a, &na)
			a2 := &na
			e.emit(st, &Event{Kind: EvIterBegin, Act: a2, Ctx: f.ctx, Instr: x, Pos: loopPos(l)})
		}
		var v *Term
		if x.IsString {
			v = mkSite("rval", "", vt, x, f.ctx, c)
		} else {
			st.set(mk("mapok", "", nil, c, k), tTrue)
			v = e.load(st, mk("mapel", "", types.NewPointer(vt), c, k), vt, x, f.ctx)
		}
		n.env[x] = mk("tuple", "", nil, tTrue, k, v)
		f.work = append(f.work, n)
	}
	if done == nil {
		return true
	}
	if a := f.actIn(done.st, l); a != nil {
		na := *a
		na.Scan = scan
		f.replaceAct(done.st, a, &na)
	}
	done.env[x] = mk("tuple", "", nil, tFalse, tNil, tNil)
	f.work = append(f.work, done)
	return true
}

func (f *frame) actIn(st *State, l *Loop) *LoopAct {
	if l == nil {
		return nil
	}
	return f.act(st, l)
}

func (f *frame) branch(n *node, x *ssa.If) bool {
	e, st := f.e, n.st
	c := f.val(n, x.Cond)
	b := n.blk
	l := f.fi.byHdr[b]
	isCtl := l != nil && l.ctl == x && l.next == nil
	take := func(m *node, si int) {
		if isCtl {
			a := f.act(m.st, l)
			if a != nil {
				m.st.log(loopPos(l), "loop condition %v", si == 0)
				na := *a
				if !a.Unroll {
					na.Scan = f.scanOf(m, l, c, si)
				}
				f.replaceAct(m.st, a, &na)
				if l.blocks[b.Succs[si]] {
					if !f.firstIter(m, &na) {
						return
					}
					e.emit(m.st, &Event{Kind: EvIterBegin, Act: &na, Ctx: f.ctx, Instr: x, Pos: loopPos(l)})
				} else {
					if !f.exhaustFacts(m, &na) {
						return
					}
				}
			}
		}
		m.prev, m.blk = b, b.Succs[si]
		f.enter(m)
	}
	if v, k := st.eval(c); k {
		if v {
			take(n, 0)
		} else {
			take(n, 1)
		}
		return true
	}
	m := n.fork()
	if e.cfg.NoCond != nil && e.cfg.NoCond(c) {
		take(n, 0)
		take(m, 1)
		return true
	}
	if n.st.assume(c, true) {
		f.refine(n, c, true)
		if !isCtl {
			n.st.log(x.Cond.Pos(), "[%s] holds", c)
		}
		take(n, 0)
	}
	if m.st.assume(c, false) {
		f.refine(m, c, false)
		if !isCtl {
			m.st.log(x.Cond.Pos(), "[%s] does not hold", c)
		}
		take(m, 1)
	}
	return true
}

// refine replaces a value which was just found to be nil by nil.
func (f *frame) refine(n *node, c *Term, val bool) {
	t, pol := norm(c)
	if t.Op == "eq" && (val == pol) {
		a, b := t.Args[0], t.Args[1]
		if b.Op == "nil" {
			a, b = b, a
		}
		if a.Op == "nil" && isErrorType(typOr(b.Typ)) {
			for k, v := range n.env {
				if v == b {
					n.env[k] = tNil
				}
			}
		}
	}
}

// scanOf determines the range of the iteration variable from the loop condition.
func (f *frame) scanOf(n *node, l *Loop, c *Term, si int) *Scan {
	iv, phi := f.ivOf(l, nil)
	if iv == nil {
		return nil
	}
	t, pol := norm(c)
	if len(t.Args) == 0 || t.Op != "pos" && t.Op != "eq0" {
		return nil
	}
	stay := l.blocks[l.header.Succs[0]] // condition true stays
	d := linOf(t.Args[0])
	k := d.c[iv]
	if k != 1 && k != -1 {
		return nil
	}
	from := f.initOf(l, n, phi)
	if from == nil {
		return nil
	}
	step := l.ivs[phi]
	var to Lin
	rest := d.add(Lin{c: map[*Term]int64{iv: 1}}, -k)
	switch t.Op {
	case "pos":
		cont := pol == stay // stays while pos(d)==cont
		// cont: k*iv + rest > 0 ; !cont: k*iv + rest <= 0
		if cont {
			if step > 0 && k < 0 { // iv < rest
				to = rest.add(Lin{k: 1}, -1)
			} else if step < 0 && k > 0 { // iv > -rest
				to = Lin{}.add(rest, -1).add(Lin{k: 1}, 1)
			} else {
				return nil
			}
		} else {
			if step > 0 && k > 0 { // iv <= -rest
				to = Lin{}.add(rest, -1)
			} else if step < 0 && k < 0 { // iv >= rest
				to = rest
			} else {
				return nil
			}
		}
	case "eq0":
		if pol == stay { // stays while equal
			return nil
		}
		lim := rest
		if k > 0 {
			lim = Lin{}.add(rest, -1)
		}
		if step > 0 {
			to = lim.add(Lin{k: 1}, -1)
		} else {
			to = lim.add(Lin{k: 1}, 1)
		}
	}
	return &Scan{Kind: "slice", IV: iv, From: linOf(from), To: to}
}

// firstIter adds what holds in the body of a counting loop.
func (f *frame) firstIter(n *node, a *LoopAct) bool {
	s := a.Scan
	if s == nil || s.IV == nil || s.IV.Op != "iv" {
		return true
	}
	step := a.L.ivs[ivPhiOf(s.IV)]
	// the range is not empty
	d := s.To.add(s.From, -1)
	if step < 0 {
		d = s.From.add(s.To, -1)
	}
	d.k++
	if !n.st.assume(mkPos(d), true) {
		return false
	}
	if a.Iter == 0 {
		// iv == from is not recorded: the body stands for any iteration
		_ = step
	}
	// bounds of iv
	if step > 0 {
		return n.st.assume(mkPos(Lin{c: map[*Term]int64{s.IV: 1}}.add(s.From, -1).add(Lin{k: 1}, 1)), true)
	}
	return n.st.assume(mkPos(s.From.add(Lin{c: map[*Term]int64{s.IV: 1}}, -1).add(Lin{k: 1}, 1)), true)
}

func (f *frame) exhaustFacts(n *node, a *LoopAct) bool {
	s := a.Scan
	if s == nil || s.IV == nil || s.IV.Op != "iv" {
		return true
	}
	step := a.L.ivs[ivPhiOf(s.IV)]
	d := s.To.add(s.From, -1)
	if step < 0 {
		d = s.From.add(s.To, -1)
	}
	d.k++
	if a.Iter == 0 {
		// no iteration at all
		if !n.st.assume(mkPos(d), false) {
			return false
		}
	} else if !n.st.assume(mkPos(d), true) {
		return false
	}
	return true
}

func (f *frame) sel(n *node, x *ssa.Select) bool {
	e := f.e
	mkTuple := func(m *node, idx int64, got int) *Term {
		args := []*Term{mkInt(idx), tFalse}
		if got >= 0 && x.States[got].Dir == types.RecvOnly {
			args[1] = mkSite("recvok", "sel"+strconv.Itoa(got), types.Typ[types.Bool], x, f.ctx, f.val(m, x.States[got].Chan))
		}
		k := 0
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				var t *Term = tNil
				if i == got {
					t = mkSite("recv", "sel"+strconv.Itoa(i), s.Chan.Type().Underlying().(*types.Chan).Elem(), x, f.ctx, f.val(m, s.Chan))
				}
				args = append(args, t)
				k++
			}
		}
		return mk("tuple", "", nil, args...)
	}
	var outs []*node
	var chans []*Term
	for _, s := range x.States {
		chans = append(chans, f.val(n, s.Chan))
	}
	for i, s := range x.States {
		m := n.fork()
		ch := chans[i]
		t := mkTuple(m, int64(i), i)
		m.env[x] = t
		ev := &Event{Kind: EvSelect, Instr: x, Addr: ch, Args: chans, Ctx: f.ctx, Pos: s.Pos}
		if s.Dir == types.SendOnly {
			ev.Val = f.val(m, s.Send)
			ev.Kind2 = "send"
		} else {
			ev.Kind2 = "recv"
		}
		m.st.log(s.Pos, "select: %s %s", ev.Kind2, ch)
		e.emit(m.st, ev)
		outs = append(outs, m)
	}
	if !x.Blocking {
		m := n.fork()
		m.env[x] = mkTuple(m, -1, -1)
		m.st.log(x.Pos(), "select: default")
		e.emit(m.st, &Event{Kind: EvSelect, Instr: x, Args: chans, Ctx: f.ctx, Kind2: "default"})
		outs = append(outs, m)
	}
	f.work = append(f.work, outs...)
	return true
}

// ---- defers and panics ----

type dstate struct {
	st *State
	ds []*deferred
	// pan is the panic in flight (nil: normal or recovered)
	panicking bool
	pan       *Term
	exit      bool
}

// unwind runs the deferred calls.
func (f *frame) unwind(n *node, pan *Term) []dstate {
	start := dstate{st: n.st, ds: n.defers, panicking: pan != nil, pan: pan}
	if pan != nil {
		start.st.panik = pan
	}
	cur := []dstate{start}
	var done []dstate
	for len(cur) > 0 {
		s := cur[len(cur)-1]
		cur = cur[:len(cur)-1]
		if len(s.ds) == 0 || s.exit {
			done = append(done, s)
			continue
		}
		d := s.ds[len(s.ds)-1]
		rest := s.ds[:len(s.ds)-1]
		was := s.panicking
		var keep []*Term
		for _, r := range rest {
			keep = append(keep, r.args...)
			if r.fnv != nil {
				keep = append(keep, r.fnv)
			}
			if r.recv != nil {
				keep = append(keep, r.recv)
			}
		}
		for _, t := range n.env {
			keep = append(keep, t)
		}
		keep = append(keep, f.args...)
		keep = append(keep, f.binds...)
		f.e.rootStack = append(f.e.rootStack, keep)
		outs := f.e.invoke(s.st, d.call, d.instr, f.ctx, d.fnv, d.recv, d.args, true)
		f.e.rootStack = f.e.rootStack[:len(f.e.rootStack)-1]
		for _, o := range outs {
			ns := dstate{st: o.st, ds: rest, panicking: was, pan: s.pan}
			switch o.kind {
			case okExit:
				ns.exit = true
			case okPanic:
				ns.panicking = true
				ns.pan = o.pan
				ns.st.panik = o.pan
			case okRet:
				if was && o.st.panik == nil {
					ns.panicking = false
					ns.pan = nil
				}
			}
			cur = append(cur, ns)
		}
	}
	return done
}

// raise unwinds the frame with a panic.
func (f *frame) raise(n *node, p *Term) {
	for _, d := range f.unwind(n, p) {
		m := &node{blk: n.blk, env: n.env, st: d.st}
		switch {
		case d.exit:
			f.out(&Outcome{kind: okExit, st: d.st})
		case d.panicking:
			d.st.panik = nil
			f.out(&Outcome{kind: okPanic, pan: d.pan, st: d.st})
		default:
			d.st.panik = nil
			if f.fn.Recover != nil {
				m.blk = f.fn.Recover
				m.env = map[ssa.Value]*Term{}
				for k, v := range n.env {
					m.env[k] = v
				}
				m.idx = 0
				// leave all loops of this frame
				if len(m.st.loops) > f.loops {
					m.st.loops = m.st.loops[:f.loops:f.loops]
				}
				f.work = append(f.work, m)
				continue
			}
			var vs []*Term
			for i := 0; i < f.fn.Signature.Results().Len(); i++ {
				vs = append(vs, zeroTerm(f.fn.Signature.Results().At(i).Type()))
			}
			f.out(&Outcome{kind: okRet, vals: vs, st: d.st})
		}
	}
}

// runDefers runs the deferred calls on the normal path.
func (f *frame) runDefers(n *node, _ *Term) bool {
	if len(n.defers) == 0 {
		return false
	}
	idx := n.idx
	saved := n.st.panik
	n.st.panik = nil
	for _, d := range f.unwind(n, nil) {
		m := n.fork()
		m.st = d.st
		m.defers = nil
		m.idx = idx
		switch {
		case d.exit:
			f.out(&Outcome{kind: okExit, st: d.st})
		case d.panicking:
			d.st.panik = nil
			f.out(&Outcome{kind: okPanic, pan: d.pan, st: d.st})
		default:
			d.st.panik = saved
			f.work = append(f.work, m)
		}
	}
	return true
}

func namedOf(t types.Type) *types.Named {
	for {
		switch x := t.(type) {
		case *types.Pointer:
			t = x.Elem()
		case *types.Named:
			return x
		case *types.Alias:
			t = types.Unalias(x)
		default:
			return nil
		}
	}
}
