package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldsTouched lists the swapper fields (innermost names) which a function and its callees take the address of.
func (w *World) fieldsTouched(fn *ssa.Function) map[string]bool {
	r := map[string]bool{}
	if fn == nil {
		return r
	}
	for g := range w.staticReach(fn) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && w.swapperBase(fa) && !structOfAddr(fa) {
					r[fieldName(fa)] = true
				}
			}
		}
	}
	return r
}

func fieldName(fa *ssa.FieldAddr) string {
	return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
}

// structOfAddr: the field is itself an unnamed struct which groups fields.
func structOfAddr(fa *ssa.FieldAddr) bool {
	t := ptrElem(fa.Type())
	if _, named := types.Unalias(t).(*types.Named); named {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// swapperBase says whether fa is a field of the swapper, at any depth.
func (w *World) swapperBase(fa *ssa.FieldAddr) bool {
	for {
		if namedPtr(fa.X.Type()) == w.swapperT {
			return true
		}
		x, ok := fa.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		fa = x
	}
}

func (w *World) soleField(method string) string {
	fn := w.method(w.swapperT, method)
	f := w.fieldsTouched(fn)
	if len(f) != 1 {
		return ""
	}
	for k := range f {
		return k
	}
	return ""
}

// publishField is the swapper field read by Current().
func (w *World) publishField() string {
	if w.pubF == "" {
		w.pubF = w.soleField("Current")
	}
	return w.pubF
}

// counterField is the swapper field read by ReloadCounter().
func (w *World) counterField() string {
	if w.cntF == "" {
		w.cntF = w.soleField("ReloadCounter")
	}
	return w.cntF
}

// ruleCounter checks all accesses of the reload counter.
func ruleCounter(w *World, r *Report) {
	f := w.counterField()
	if f == "" {
		r.Violate("anchor", "?", "ReloadCounter() does not read exactly one field of the swapper")
		return
	}
	for _, fn := range w.prodFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !w.swapperBase(fa) || fieldName(fa) != f {
					continue
				}
				r.Count("accesses of the counter")
				r.Sample("%s: %s in %s", w.pos(fa.Pos()), f, fn.Name())
				for _, u := range *fa.Referrers() {
					if _, dbg := u.(*ssa.DebugRef); dbg {
						continue
					}
					c, ok := u.(ssa.CallInstruction)
					if ok {
						if g := c.Common().StaticCallee(); g != nil && isAtomicName(g.String()) {
							continue
						}
					}
					r.Violate("plain-access", w.pos(fa.Pos()), "%s accesses the reload counter without an atomic operation", fn.Name())
				}
			}
		}
	}
	// alignment
	path, typ := w.fieldPath(f)
	if path == nil {
		r.Violate("anchor", "?", "field %s of the swapper not found", f)
		return
	}
	if b, ok := typ.Underlying().(*types.Basic); ok && (b.Kind() == types.Int64 || b.Kind() == types.Uint64) {
		if _, named := typ.(*types.Named); !named {
			for _, arch := range []string{"386", "arm", "mips"} {
				sz := types.SizesFor("gc", arch)
				off := int64(0)
				t := types.Type(w.swapperT)
				for _, i := range path {
					s := t.Underlying().(*types.Struct)
					var fs []*types.Var
					for j := 0; j < s.NumFields(); j++ {
						fs = append(fs, s.Field(j))
					}
					off += sz.Offsetsof(fs)[i]
					t = s.Field(i).Type()
				}
				r.Count("platforms checked for alignment")
				if off%8 != 0 {
					r.Violate("alignment", w.pos(w.swapperT.Obj().Pos()), "the reload counter is at offset %d on %s: 64-bit atomic operations on it panic", off, arch)
				}
			}
		}
	}
	// ReloadCounter returns the atomically loaded value
	fn := w.method(w.swapperT, "ReloadCounter")
	e := newEngine(w, defaultCfg(w))
	e.Run(fn, mon(func(m *Mon, e *Engine, st *State, ev *Event) {
		if ev.Kind == EvExtRet && isAtomicName(ev.Name) && strings.Contains(ev.Name[strings.LastIndex(ev.Name, ".")+1:], "Load") && e.w.swapperField(ev.Args[0]) == f {
			m.bind("v", ev.Res[0])
		}
		if ev.Kind == EvExit {
			e.Count("exits of ReloadCounter")
			if ev.Kind2 != "return" || len(ev.Results) != 1 || m.term("v") == nil || ev.Results[0] != m.term("v") {
				e.Violate(st, ev.Pos, "value", "ReloadCounter does not return the value of the counter")
			}
		}
	})())
	r.Viol = append(r.Viol, e.viol...)
	for k, v := range e.Notes {
		r.Notes[k] += v
	}
}

// fieldPath finds a field of the swapper at any depth of unnamed structs.
func (w *World) fieldPath(name string) ([]int, types.Type) {
	var find func(t types.Type) ([]int, types.Type)
	find = func(t types.Type) ([]int, types.Type) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return []int{i}, s.Field(i).Type()
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if _, named := s.Field(i).Type().(*types.Named); named {
				continue
			}
			if p, t := find(s.Field(i).Type()); p != nil {
				return append([]int{i}, p...), t
			}
		}
		return nil, nil
	}
	return find(w.swapperT)
}

// ruleMinDelay: the built-in minimum of the free delay is positive and never changed outside of tests.
func ruleMinDelay(w *World, r *Report) {
	o := w.root.Pkg.Scope().Lookup("minFreeDelay")
	if c, ok := o.(*types.Const); ok {
		if n, ok := constant.Int64Val(constant.ToInt(c.Val())); !ok || n < 1e9 {
			r.Violate("minimum", w.pos(c.Pos()), "the built-in minimum of the free delay is %s, less than a second", c.Val())
		}
		r.Count("built-in minimum")
		return
	}
	g, ok := w.root.Members["minFreeDelay"].(*ssa.Global)
	if !ok {
		r.Violate("anchor", "?", "the built-in minimum of the free delay (minFreeDelay) is missing")
		return
	}
	for _, fn := range w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || s.Addr != g {
					continue
				}
				r.Count("built-in minimum")
				c, isC := s.Val.(*ssa.Const)
				if !isC || fn.Synthetic != "package initializer" {
					r.Violate("minimum", w.pos(s.Pos()), "%s changes the built-in minimum of the free delay", fn.Name())
					continue
				}
				r.Sample("%s: minimum of the free delay %s", w.pos(g.Pos()), c.Value)
				if n, ok := constant.Int64Val(constant.ToInt(c.Value)); !ok || n < 1e9 {
					r.Violate("minimum", w.pos(g.Pos()), "the built-in minimum of the free delay is %s, less than a second", c.Value)
				}
			}
		}
	}
	if r.Notes["built-in minimum"] == 0 {
		r.Violate("minimum", w.pos(g.Pos()), "the built-in minimum of the free delay is never set")
	}
}

// minDelay is the value of the built-in minimum if it is a constant.
func (w *World) minDelay() int64 {
	if c, ok := w.root.Pkg.Scope().Lookup("minFreeDelay").(*types.Const); ok {
		if n, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
			return n
		}
	}
	return 1 << 62
}
