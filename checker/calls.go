package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *frame) liveRoots(n *node) []*Term {
	var keep []*Term
	for _, t := range n.env {
		keep = append(keep, t)
	}
	keep = append(keep, f.args...)
	keep = append(keep, f.binds...)
	for _, d := range n.defers {
		keep = append(keep, d.args...)
		if d.fnv != nil {
			keep = append(keep, d.fnv)
		}
		if d.recv != nil {
			keep = append(keep, d.recv)
		}
	}
	return keep
}

func (f *frame) call(n *node, x *ssa.Call) bool {
	var args []*Term
	for _, a := range x.Call.Args {
		args = append(args, f.val(n, a))
	}
	var fnv, recv *Term
	if x.Call.IsInvoke() {
		recv = f.val(n, x.Call.Value)
	} else {
		fnv = f.val(n, x.Call.Value)
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
		v := tNil
		if f.ddir && n.st.panik != nil {
			p := n.st.panik
			v = mk("recovered", "", x.Type(), p)
			n.st.panik = nil
			n.st.log(x.Pos(), "recovered")
			f.e.emit(n.st, &Event{Kind: EvRecovered, Instr: x, Val: p, Ctx: f.ctx})
		}
		n.env[x] = v
		return false
	}
	f.e.rootStack = append(f.e.rootStack, f.liveRoots(n))
	outs := f.e.invoke(n.st, &x.Call, x, f.ctx, fnv, recv, args, false)
	f.e.rootStack = f.e.rootStack[:len(f.e.rootStack)-1]
	if len(outs) == 1 && outs[0].kind == okRet && outs[0].st == n.st {
		n.env[x] = resTerm(outs[0].vals)
		return false
	}
	for _, o := range outs {
		m := n.fork()
		m.st = o.st
		switch o.kind {
		case okRet:
			m.env[x] = resTerm(o.vals)
			f.gc(m, nil)
			f.work = append(f.work, m)
		case okExit:
			f.out(&Outcome{kind: okExit, st: o.st})
		case okPanic:
			f.raise(m, o.pan)
		}
	}
	return true
}

func resTerm(vals []*Term) *Term {
	switch len(vals) {
	case 0:
		return mk("void", "", nil)
	case 1:
		return vals[0]
	}
	return mk("tuple", "", nil, vals...)
}

func (e *Engine) one(st *State, vals ...*Term) []*Outcome {
	return []*Outcome{{kind: okRet, vals: vals, st: st}}
}

// invoke performs a call and returns its outcomes.
func (e *Engine) invoke(st *State, call *ssa.CallCommon, in ssa.Instruction, ctx *Ctx, fnv, recv *Term, args []*Term, ddir bool) []*Outcome {
	e.calls[in] = true
	sig := call.Signature()
	if recv != nil {
		if sig.Variadic() {
			args = e.flatten(st, args)
		}
		name := "(" + types.TypeString(types.Unalias(call.Value.Type()), nil) + ")." + call.Method.Name()
		return e.extern(st, name, sig, append([]*Term{recv}, args...), in, ctx, recv, ddir)
	}
	return e.invokeVal(st, fnv, sig, args, in, ctx, ddir)
}

func (e *Engine) invokeVal(st *State, fnv *Term, sig *types.Signature, args []*Term, in ssa.Instruction, ctx *Ctx, ddir bool) []*Outcome {
	switch fnv.Op {
	case "builtin":
		return e.builtin(st, fnv.Aux, args, in, ctx)
	case "fn":
		fn := fnv.Obj.(*ssa.Function)
		if fn.Blocks != nil && (e.w.inModule(fn) || fn.Pkg == nil && fn.Synthetic != "" && fn.Object() != nil && e.w.isModPkg(fn.Object().Pkg()) || strings.HasPrefix(fn.Synthetic, "bound method")) {
			return e.modCall(st, fn, fnv.Args, args, in, ctx, ddir)
		}
		if fn.Signature.Variadic() {
			args = e.flatten(st, args)
		}
		return e.extern(st, fn.String(), sig, args, in, ctx, nil, ddir)
	case "hook":
		return e.hookCall(st, fnv, sig, args, in, ctx)
	}
	if v, k := st.isNil(fnv); k && v {
		p := mkSite("panic", "nilcall", nil, in, ctx, fnv)
		st.log(in.Pos(), "call of a nil function")
		return []*Outcome{{kind: okPanic, pan: p, st: st}}
	}
	return e.userCall(st, fnv, sig, args, in, ctx)
}

// flatten replaces the slice of variadic arguments by its elements.
func (e *Engine) flatten(st *State, args []*Term) []*Term {
	if len(args) == 0 {
		return args
	}
	last := args[len(args)-1]
	r := append([]*Term{}, args[:len(args)-1]...)
	return append(r, e.parts(st, last)...)
}

// parts enumerates the elements of a list; those which are not known individually are given as spread lists.
func (e *Engine) parts(st *State, xs *Term) []*Term {
	if el, ok := e.elems(st, xs); ok {
		return el
	}
	if xs.Op == "app" && len(xs.Args) > 0 {
		return append(e.parts(st, xs.Args[0]), xs.Args[1:]...)
	}
	return []*Term{mk("spread", "", nil, xs)}
}

func (e *Engine) modCall(st *State, fn *ssa.Function, binds, args []*Term, in ssa.Instruction, ctx *Ctx, ddir bool) []*Outcome {
	if e.cfg.Pure != nil && e.cfg.Pure(fn) {
		if fn.Signature.Variadic() {
			args = e.flatten(st, args)
		}
		return e.one(st, e.pureResults(fn.String(), fn.Signature, args)...)
	}
	if e.cfg.Opaque != nil && e.cfg.Opaque(fn) || ctx.has(fn) {
		e.funcs[fn] = true
		st.log(in.Pos(), "call %s", fn.Name())
		ev := &Event{Kind: EvOpaque, Instr: in, Pos: in.Pos(), Ctx: ctx, Fn: fn, Name: fn.String(), Args: args}
		e.emit(st, ev)
		var outs []*Outcome
		if e.cfg.OpaquePanics {
			st2 := st.clone()
			st2.log(in.Pos(), "%s panics", fn.Name())
			e.emit(st2, &Event{Kind: EvOpaqueRet, Instr: in, Pos: in.Pos(), Ctx: ctx, Fn: fn, Name: fn.String(), Args: args, Kind2: "panic"})
			outs = append(outs, &Outcome{kind: okPanic, pan: mkSite("panic", "call:"+fn.Name(), nil, in, ctx), st: st2})
			e.havoc(st, args)
		}
		return append(outs, e.results(st, fn.String(), fn.Signature, args, in, ctx, func(st *State, res []*Term, es ErrState) {
			e.emit(st, &Event{Kind: EvOpaqueRet, Instr: in, Pos: in.Pos(), Ctx: ctx, Fn: fn, Name: fn.String(), Args: args, Res: res, Err: es})
		})...)
	}
	e.emit(st, &Event{Kind: EvCall, Instr: in, Pos: in.Pos(), Ctx: ctx, Fn: fn, Name: fn.String(), Args: args})
	if fn.Parent() == nil {
		st.log(in.Pos(), "enter %s", fn.Name())
	}
	c2 := mkCtxIter(ctx, in, fn, st.stepOf(in, ctx))
	outs := e.exec(fn, args, binds, st, c2, ddir)
	for _, o := range outs {
		if o.kind == okRet {
			es := ErrNA
			res := fn.Signature.Results()
			if res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) {
				if v, k := o.st.isNil(o.vals[len(o.vals)-1]); k {
					es = ErrNonNil
					if v {
						es = ErrNil
					}
				}
			}
			e.emit(o.st, &Event{Kind: EvCallRet, Instr: in, Pos: in.Pos(), Ctx: ctx, Fn: fn, Name: fn.String(), Args: args, Res: o.vals, Err: es})
		}
	}
	return outs
}

func (e *Engine) pureResults(name string, sig *types.Signature, args []*Term) []*Term {
	res := sig.Results()
	var vals []*Term
	for i := 0; i < res.Len(); i++ {
		nm := name
		if res.Len() > 1 {
			nm += "#" + string(rune('0'+i))
		}
		vals = append(vals, mk("call", nm, res.At(i).Type(), args...))
	}
	return vals
}

// errorsIs decides errors.Is where this is possible.
func (e *Engine) errorsIs(st *State, err, target *Term) *Term {
	if err == target || st.isTrue(mkEq(err, target)) {
		return tTrue
	}
	if (err == tNil || st.isTrue(mkEq(err, tNil))) && (target.Op == "gvalnn" || st.isFalse(mkEq(target, tNil))) {
		return tFalse
	}
	if err.Op == "err" && len(err.Args) > 0 && (target.Op == "gvalnn" || target.Op == "gval") {
		switch err.Aux {
		case "errors.New":
			return tFalse
		case "fmt.Errorf":
			if f, ok := err.Args[0].strVal(); ok && !strings.Contains(f, "%w") {
				return tFalse
			}
		}
	}
	return nil
}

// results produces the outcomes of an unknown call: one per error state.
func (e *Engine) results(st *State, name string, sig *types.Signature, args []*Term, in ssa.Instruction, ctx *Ctx, after func(*State, []*Term, ErrState)) []*Outcome {
	res := sig.Results()
	mkVals := func() []*Term {
		var vals []*Term
		for i := 0; i < res.Len(); i++ {
			nm := name
			if res.Len() > 1 {
				nm += "#" + string(rune('0'+i))
			}
			vals = append(vals, mkSite("res", nm, res.At(i).Type(), in, ctx, args...))
		}
		return vals
	}
	// the terms denote the results of this very call
	vals := mkVals()
	for _, v := range vals {
		e.forget(st, v)
	}
	if res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) {
		last := res.Len() - 1
		if e.w.errBuilder(name) {
			vals[last] = mkSite("err", name, res.At(last).Type(), in, ctx, args...)
			after(st, vals, ErrNonNil)
			return e.one(st, vals...)
		}
		st2 := st.clone()
		v1 := append([]*Term{}, vals...)
		v1[last] = tNil
		after(st, v1, ErrNil)
		v2 := append([]*Term{}, vals...)
		v2[last] = mkSite("err", name, res.At(last).Type(), in, ctx)
		st2.log(in.Pos(), "%s fails", shortName(name))
		after(st2, v2, ErrNonNil)
		return []*Outcome{{kind: okRet, vals: v1, st: st}, {kind: okRet, vals: v2, st: st2}}
	}
	after(st, vals, ErrNA)
	return e.one(st, vals...)
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		return n[i+1:]
	}
	return n
}

// forget drops facts about a term which is produced anew.
func (e *Engine) forget(st *State, t *Term) {
	for f := range st.facts {
		if mentions(f, t) {
			st.delFact(f)
		}
	}
	for a, v := range st.heap {
		if mentions(a, t) {
			st.del(a)
		} else if v == t {
			// an older value produced at the same place
			st.set(a, mkSite("lv", "old", t.Typ, t.Site, t.Ctx, a))
		}
	}
}

func (e *Engine) hookCall(st *State, h *Term, sig *types.Signature, args []*Term, in ssa.Instruction, ctx *Ctx) []*Outcome {
	owner := h.Args[0]
	base := Event{Instr: in, Pos: in.Pos(), Ctx: ctx, Hook: h.Aux, Owner: owner, Callee: h, Args: args}
	ev := base
	ev.Kind = EvHook
	st.log(in.Pos(), "plugin function %s of %s", h.Aux, owner)
	e.emit(st, &ev)
	var outs []*Outcome
	if !e.cfg.NoHookPanics {
		st2 := st.clone()
		ev := base
		ev.Kind = EvHookPanic
		st2.log(in.Pos(), "%s panics", h.Aux)
		e.emit(st2, &ev)
		outs = append(outs, &Outcome{kind: okPanic, pan: mkSite("panic", "hook:"+h.Aux, nil, in, ctx), st: st2})
	}
	outs = append(outs, e.results(st, "hook:"+h.Aux, sig, append([]*Term{owner}, args...), in, ctx, func(st *State, res []*Term, es ErrState) {
		ev := base
		ev.Kind = EvHookRet
		ev.Res, ev.Err = res, es
		e.emit(st, &ev)
	})...)
	return outs
}

func (e *Engine) userCall(st *State, fv *Term, sig *types.Signature, args []*Term, in ssa.Instruction, ctx *Ctx) []*Outcome {
	base := Event{Instr: in, Pos: in.Pos(), Ctx: ctx, Callee: fv, Args: args, SigTypes: sig}
	ev := base
	ev.Kind = EvUser
	st.log(in.Pos(), "call of the function value %s", fv)
	e.emit(st, &ev)
	for _, a := range args {
		if a != nil && a.Op == "new" && namedPtr(a.Typ) == e.w.swapperT {
			e.havoc(st, []*Term{a}) // an option stores to it
		}
	}
	var outs []*Outcome
	if !e.cfg.NoHookPanics {
		st2 := st.clone()
		ev := base
		ev.Kind = EvUserPanic
		st2.log(in.Pos(), "it panics")
		e.emit(st2, &ev)
		outs = append(outs, &Outcome{kind: okPanic, pan: mkSite("panic", "user", nil, in, ctx, fv), st: st2})
	}
	outs = append(outs, e.results(st, "user:"+userName(fv), sig, append([]*Term{fv}, args...), in, ctx, func(st *State, res []*Term, es ErrState) {
		ev := base
		ev.Kind = EvUserRet
		ev.Res, ev.Err = res, es
		e.emit(st, &ev)
	})...)
	return outs
}

func userName(t *Term) string {
	switch t.Op {
	case "ld":
		return userName(t.Args[0])
	case "fld":
		return t.Aux
	case "param":
		return t.Aux
	}
	return t.Op
}

func (e *Engine) builtin(st *State, name string, args []*Term, in ssa.Instruction, ctx *Ctx) []*Outcome {
	var typ types.Type
	if v, ok := in.(ssa.Value); ok {
		typ = v.Type()
	}
	switch name {
	case "append":
		s, xs := args[0], args[1]
		elems, exact := e.elems(st, xs)
		var r *Term
		if xs.Op == "nil" {
			r = s
		} else if exact {
			r = s
			if len(elems) > 0 {
				r = mk("app", "", typ, append([]*Term{s}, elems...)...)
			}
		} else {
			elems = []*Term{mk("spread", "", nil, xs)}
			r = mk("app", "", typ, s, elems[0])
		}
		e.emit(st, &Event{Kind: EvAppend, Instr: in, Args: append([]*Term{s}, elems...), Res: []*Term{r}, Ctx: ctx})
		return e.one(st, r)
	case "len":
		r := e.lenOf(st, args[0], in, ctx)
		if r == nil {
			r = mk("len", "", types.Typ[types.Int], args[0])
		}
		return e.one(st, r)
	case "cap":
		return e.one(st, mk("cap", "", types.Typ[types.Int], args[0]))
	case "copy":
		e.emit(st, &Event{Kind: EvExt, Name: "copy", Instr: in, Args: args, Ctx: ctx})
		e.killElems(st, args[0])
		if args[0].Op == "new" {
			if a, b := e.lenOf(st, args[0], nil, nil), e.lenOf(st, args[1], nil, nil); a != nil && b != nil && st.linEq(linOf(a), linOf(b)) {
				st.set(mk("copyof", "", nil, args[0]), args[1])
			}
		}
		return e.one(st, mkSite("res", "copy", types.Typ[types.Int], in, ctx, args...))
	case "delete":
		m, k := args[0], args[1]
		e.emit(st, &Event{Kind: EvDelete, Instr: in, Addr: m, Key: k, Ctx: ctx})
		e.killMap(st, m, k, false)
		var et types.Type
		if mt, ok := typOr(m.Typ).Underlying().(*types.Map); ok {
			et = mt.Elem()
		}
		st.set(mk("mapok", "", nil, m, k), tFalse)
		st.set(mk("mapel", "", nil, m, k), zeroTerm(et))
		return e.one(st)
	case "clear":
		e.emit(st, &Event{Kind: EvExt, Name: "clear", Instr: in, Args: args, Ctx: ctx})
		e.killMap(st, args[0], tNil, false)
		e.killElems(st, args[0])
		return e.one(st)
	case "close":
		e.emit(st, &Event{Kind: EvClose, Instr: in, Addr: args[0], Ctx: ctx})
		st.log(in.Pos(), "close %s", args[0])
		return e.one(st)
	case "min", "max":
		if len(args) == 2 && isIntTerm(args[0]) && isIntTerm(args[1]) {
			lt := mkLt(args[0], args[1])
			st2 := st.clone()
			var outs []*Outcome
			a, b := args[0], args[1]
			if name == "max" {
				a, b = b, a
			}
			if st.assume(lt, true) {
				outs = append(outs, &Outcome{kind: okRet, vals: []*Term{a}, st: st})
			}
			if st2.assume(lt, false) {
				outs = append(outs, &Outcome{kind: okRet, vals: []*Term{b}, st: st2})
			}
			return outs
		}
		return e.one(st, mk("call", name, typ, args...))
	case "recover":
		return e.one(st, tNil)
	case "panic":
		p := mkSite("panic", "explicit", nil, in, ctx, args[0])
		return []*Outcome{{kind: okPanic, pan: p, st: st}}
	case "print", "println":
		return e.one(st)
	case "ssa:wrapnilchk":
		return e.one(st, args[0])
	}
	return e.one(st, mkSite("res", name, typ, in, ctx, args...))
}

// elems enumerates the elements of a variadic argument or of a literal slice.
func (e *Engine) elems(st *State, xs *Term) ([]*Term, bool) {
	switch xs.Op {
	case "nil":
		return nil, true
	case "slice":
		arr := xs.Args[0]
		if xs.Args[1].Op != "nil" || arr.Op != "new" {
			return nil, false
		}
		p := ptrElem(arr.Typ)
		if p == nil {
			return nil, false
		}
		a, ok := p.Underlying().(*types.Array)
		if !ok || a.Len() > 64 || st.heap[mk("zeroed", "", nil, arr)] == nil {
			return nil, false
		}
		n := a.Len()
		if xs.Args[2].Op != "nil" {
			k, ok := xs.Args[2].intVal()
			if !ok {
				return nil, false
			}
			n = k
		}
		var r []*Term
		for i := int64(0); i < n; i++ {
			ad := mk("idx", "", types.NewPointer(a.Elem()), arr, mkInt(i))
			v := e.peek(st, ad, a.Elem())
			if v == nil {
				if _, isHook := structOf(a.Elem()); isHook {
					v = mk("part", "", a.Elem(), ad)
				} else {
					v = mk("at", "", a.Elem(), arr, mkInt(i))
				}
			}
			r = append(r, v)
		}
		return r, true
	case "app":
		h, ok := e.elems(st, xs.Args[0])
		if !ok {
			return nil, false
		}
		for _, a := range xs.Args[1:] {
			if a.Op == "spread" {
				return nil, false
			}
			h = append(h, a)
		}
		return h, true
	}
	return nil, false
}

func (e *Engine) killElems(st *State, c *Term) {
	for x := c; ; x = x.Args[0] {
		if x.Op == "new" {
			st.del(mk("zeroed", "", nil, x))
		}
		if x.Op != "slice" && x.Op != "app" {
			break
		}
	}
	for a := range st.heap {
		if a.Op == "idx" && (a.Args[0] == c || c.Op == "slice" && a.Args[0] == c.Args[0] || e.mayEqual(st, a.Args[0], c)) {
			st.del(a)
		}
	}
}

// havoc forgets the contents of local objects handed to unknown code.
func (e *Engine) havoc(st *State, args []*Term) {
	for _, a := range args {
		if a == nil {
			continue
		}
		b := baseObj(a)
		if b.Op != "new" {
			continue
		}
		if p := ptrElem(b.Typ); p != nil {
			if n := namedOf(p); n != nil && (n == e.w.managerT || n == e.w.pluginT) {
				continue
			}
			if _, ok := p.Underlying().(*types.Array); ok {
				continue // variadic arguments
			}
		} else {
			continue
		}
		if a.Op == "fld" || a.Op == "idx" || a.Op == "new" {
			for x := range st.heap {
				y := x
				for (y.Op == "fld" || y.Op == "idx") && y != a {
					y = y.Args[0]
				}
				if y == a && x.Op != "zeroed" {
					st.del(x)
				}
			}
			if a.Op == "new" {
				st.del(mk("zeroed", "", nil, a))
			} else {
				st.set(a, mkSite("lv", "havoc", nil, nil, nil, a))
			}
		}
	}
}

func (e *Engine) extern(st *State, name string, sig *types.Signature, args []*Term, in ssa.Instruction, ctx *Ctx, recv *Term, ddir bool) []*Outcome {
	pos := token.NoPos
	if in != nil {
		pos = in.Pos()
	}
	if strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*go.uber.org/atomic.") {
		return e.atomic(st, name, sig, args, in, ctx)
	}
	pure := e.w.pureExtern(name)
	if name == "errors.Is" && len(args) == 2 {
		if v := e.errorsIs(st, args[0], args[1]); v != nil {
			return e.one(st, v)
		}
	}
	if pure {
		vals := e.pureResults(name, sig, args)
		if pe := e.cfg.PureEvents; pe != "" && strings.HasPrefix(name, pe) {
			e.emit(st, &Event{Kind: EvPure, Instr: in, Pos: pos, Ctx: ctx, Name: name, Args: args, Res: vals})
		}
		return e.one(st, vals...)
	}
	base := Event{Instr: in, Pos: pos, Ctx: ctx, Name: name, Args: args, Recv: recv}
	ev := base
	ev.Kind = EvExt
	if !e.w.quietExtern(name) {
		st.log(pos, "%s", shortName(name))
	}
	e.emit(st, &ev)
	after := func(st *State, res []*Term, es ErrState) {
		ev := base
		ev.Kind = EvExtRet
		ev.Res, ev.Err = res, es
		e.emit(st, &ev)
	}
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		return []*Outcome{{kind: okExit, st: st}}
	case "(*sync.Once).Do":
		if args[1].Op == "fn" || args[1].Op == "hook" {
			st2 := st.clone()
			st2.log(pos, "already done")
			outs := e.invokeVal(st, args[1], types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, in, ctx, false)
			for _, o := range outs {
				if o.kind == okRet {
					o.vals = nil
				}
			}
			return append(outs, &Outcome{kind: okRet, st: st2})
		}
	case "path/filepath.WalkDir", "path/filepath.Walk", "io/fs.WalkDir":
		fi := len(args) - 1
		return e.walk(st, name, args[0], args[fi], in, ctx, after)
	case "time.AfterFunc":
		st2 := st.clone()
		e.emit(st2, &Event{Kind: EvGo, Kind2: "start", Instr: in, Pos: pos, Ctx: ctx, Callee: args[1]})
		e.inGo++
		e.emit(st2, &Event{Kind: EvExt, Name: "time.Sleep", Instr: in, Pos: pos, Ctx: ctx, Args: args[:1]})
		e.dropAtomics(st2)
		outs := e.invokeVal(st2, args[1], types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, in, ctx, false)
		e.inGo--
		e.emit(st, &Event{Kind: EvGo, Kind2: "spawn", Instr: in, Pos: pos, Ctx: ctx, Callee: args[1], Outs: outs})
		return e.results(st, name, sig, args, in, ctx, after)
	}
	if e.cfg.ExtPanics[name] {
		st2 := st.clone()
		st2.log(pos, "%s panics", name)
		outs := []*Outcome{{kind: okPanic, pan: mkSite("panic", "extern:"+name, nil, in, ctx), st: st2}}
		return append(outs, e.results(st, name, sig, args, in, ctx, after)...)
	}
	if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") || name == "slices.Reverse" || strings.HasPrefix(name, "slices.Reverse") {
		e.killElems(st, args[0])
		if !coarse {
			st.set(mk("sorted", "", nil, args[0]), tTrue)
		}
	} else if strings.HasSuffix(name, "/template.Template).Execute") && len(args) == 3 {
		e.havoc(st, args[:2]) // the data is only read
	} else if recv == nil && !e.w.readonlyExtern(name) {
		e.havoc(st, args)
	}
	return e.results(st, name, sig, args, in, ctx, after)
}

func (e *Engine) dropAtomics(st *State) {
	for a := range st.heap {
		if a.Op == "av" {
			st.del(a)
		}
	}
}

func (e *Engine) atomic(st *State, name string, sig *types.Signature, args []*Term, in ssa.Instruction, ctx *Ctx) []*Outcome {
	base := Event{Kind: EvExt, Instr: in, Pos: in.Pos(), Ctx: ctx, Name: name, Args: args}
	e.emit(st, &base)
	m := name[strings.LastIndex(name, ".")+1:]
	a := mk("av", "", nil, args[0])
	var rt types.Type
	if sig.Results().Len() > 0 {
		rt = sig.Results().At(0).Type()
	}
	ret := func(st *State, vals ...*Term) {
		ev := base
		ev.Kind = EvExtRet
		ev.Res = vals
		e.emit(st, &ev)
	}
	pick := func(p ...string) bool {
		for _, x := range p {
			if m == x || strings.HasPrefix(m, x) && strings.HasPrefix(name, "sync/atomic.") {
				return true
			}
		}
		return false
	}
	switch {
	case pick("Load"):
		v := st.heap[a]
		if v == nil {
			v = mkSite("ld", "", rt, in, ctx, a)
			st.set(a, v)
		}
		ret(st, v)
		return e.one(st, v)
	case pick("Store"):
		st.set(a, args[1])
		st.log(in.Pos(), "%s: %s", shortName(name), args[0])
		ret(st)
		return e.one(st)
	case pick("Swap"):
		v := st.heap[a]
		if v == nil {
			v = mkSite("ld", "", rt, in, ctx, a)
		}
		st.set(a, args[1])
		ret(st, v)
		return e.one(st, v)
	case pick("CompareAndSwap", "CAS"):
		st2 := st.clone()
		st.set(a, args[2])
		ret(st, tTrue)
		ret(st2, tFalse)
		return []*Outcome{{kind: okRet, vals: []*Term{tTrue}, st: st}, {kind: okRet, vals: []*Term{tFalse}, st: st2}}
	}
	st.del(a)
	if rt == nil {
		ret(st)
		return e.one(st)
	}
	var vals []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		v := mkSite("res", name, sig.Results().At(i).Type(), in, ctx, args...)
		e.forget(st, v)
		vals = append(vals, v)
	}
	ret(st, vals...)
	return e.one(st, vals...)
}

// walk models filepath.WalkDir as a loop over the entries of a directory tree.
func (e *Engine) walk(st *State, name string, root, fnv *Term, in ssa.Instruction, ctx *Ctx, after func(*State, []*Term, ErrState)) []*Outcome {
	errT := types.Universe.Lookup("error").Type()
	act := &LoopAct{Site: in, Ctx: ctx, Scan: &Scan{Kind: "walk", Cont: root, Full: true}}
	e.killBorn(st, act, true)
	act.Hdr = st.heap
	st.hsh = true
	st.loops = append(st.loops[:len(st.loops):len(st.loops)], act)
	e.emit(st, &Event{Kind: EvLoopEnter, Act: act, Ctx: ctx, Instr: in, Pos: in.Pos()})
	var fn *ssa.Function
	if fnv.Op == "fn" {
		fn = fnv.Obj.(*ssa.Function)
	}
	c2 := mkCtx(ctx, in, fn)
	var outs []*Outcome
	queue := []*State{st}
	seen := map[hkey]bool{}
	top := func(s *State) *LoopAct { return s.loops[len(s.loops)-1] }
	pop := func(s *State) { s.loops = s.loops[: len(s.loops)-1 : len(s.loops)-1] }
	for len(queue) > 0 {
		s := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		k := s.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		// finished
		d := s.clone()
		e.emit(d, &Event{Kind: EvLoopExit, Act: top(d), Ctx: ctx, Instr: in, Pos: in.Pos()})
		pop(d)
		after(d, []*Term{tNil}, ErrNil)
		outs = append(outs, &Outcome{kind: okRet, vals: []*Term{tNil}, st: d})
		if fn == nil {
			continue
		}
		for variant := 0; variant < 2; variant++ {
			it := s.clone()
			path := mkSite("res", "walkpath", types.Typ[types.String], in, c2, root)
			ent := mkSite("res", "walkentry", nil, in, c2, path)
			er := tNil
			if variant == 1 {
				er = mkSite("err", "walk", errT, in, c2)
				it.log(in.Pos(), "an entry cannot be read")
			} else {
				it.log(in.Pos(), "next entry")
			}
			e.emit(it, &Event{Kind: EvIterBegin, Act: top(it), Ctx: ctx, Instr: in, Pos: in.Pos(), Err: [...]ErrState{ErrNil, ErrNonNil}[variant], Val: path})
			nl := len(it.loops)
			for _, o := range e.invokeVal(it, fnv, fn.Signature, []*Term{path, ent, er}, in, ctx, false) {
				if len(o.st.loops) > nl {
					o.st.loops = o.st.loops[:nl:nl]
				}
				switch o.kind {
				case okPanic, okExit:
					pop(o.st)
					outs = append(outs, o)
					continue
				}
				r := o.vals[0]
				v, known := o.st.isNil(r)
				skip := ""
				visit(r, func(t *Term) bool {
					if g, ok := t.Obj.(*ssa.Global); ok && (g.Name() == "SkipDir" || g.Name() == "SkipAll") {
						skip = g.Name()
					}
					return true
				})
				if known && v || skip != "" || !known {
					cst := o.st
					if !known && skip == "" {
						cst = o.st.clone()
					}
					ev := &Event{Kind: EvIterEnd, Act: top(cst), Ctx: ctx, Instr: in, Pos: in.Pos()}
					ev.Kind2 = skip
					e.emit(cst, ev)
					a := top(cst)
					e.killBorn(cst, a, false)
					na := *a
					na.Iter = 1
					na.Hdr = cst.heap
					cst.hsh = true
					cst.loops = append(append([]*LoopAct{}, cst.loops[:len(cst.loops)-1]...), &na)
					e.gcState(cst, []*Term{root, fnv})
					queue = append(queue, cst)
				}
				if skip == "" && (known && !v || !known) {
					e.emit(o.st, &Event{Kind: EvLoopExit, Act: top(o.st), Break: true, Ctx: ctx, Instr: in, Pos: in.Pos()})
					pop(o.st)
					after(o.st, []*Term{r}, ErrNonNil)
					outs = append(outs, &Outcome{kind: okRet, vals: []*Term{r}, st: o.st})
				}
			}
		}
	}
	return dedup(outs)
}

// spawn explores the body of a go statement separately.
func (f *frame) spawn(n *node, x *ssa.Go, fv *Term, args []*Term) {
	e := f.e
	n.st.log(x.Pos(), "go statement")
	if fv == nil {
		e.emit(n.st, &Event{Kind: EvGo, Kind2: "spawn", Instr: x, Ctx: f.ctx, Args: args})
		return
	}
	st2 := n.st.clone()
	st2.loops = nil
	st2.panik = nil
	e.dropAtomics(st2)
	st2.log(x.Pos(), "(in the goroutine)")
	e.emit(st2, &Event{Kind: EvGo, Kind2: "start", Instr: x, Ctx: f.ctx, Callee: fv, Args: args})
	e.rootStack = append(e.rootStack, f.liveRoots(n))
	e.inGo++
	outs := e.invokeVal(st2, fv, x.Call.Signature(), args, x, f.ctx, false)
	e.inGo--
	e.rootStack = e.rootStack[:len(e.rootStack)-1]
	e.emit(n.st, &Event{Kind: EvGo, Kind2: "spawn", Instr: x, Ctx: f.ctx, Callee: fv, Args: args, Outs: outs})
}
