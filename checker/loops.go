package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop of a function.
type Loop struct {
	id     int
	fn     *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	// induction variables: phi -> step
	ivs map[*ssa.Phi]int64
	// counters: phis whose back edge values are the phi itself or the phi + 1 (possibly through other phis)
	counters map[*ssa.Phi]bool
	// ctl is the conditional branch of the header which leaves the loop
	ctl  *ssa.If
	next *ssa.Next // range over map/string
}

// FnInfo caches per-function static information.
type FnInfo struct {
	fn     *ssa.Function
	loops  []*Loop
	byHdr  map[*ssa.BasicBlock]*Loop
	in     map[*ssa.BasicBlock][]*Loop // loops containing the block, outermost first
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
}

var fnInfos = map[*ssa.Function]*FnInfo{}
var loopCount int

func infoOf(fn *ssa.Function) *FnInfo {
	if fi := fnInfos[fn]; fi != nil {
		return fi
	}
	fi := &FnInfo{fn: fn, byHdr: map[*ssa.BasicBlock]*Loop{}, in: map[*ssa.BasicBlock][]*Loop{}}
	fnInfos[fn] = fi
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.byHdr[s]
				if l == nil {
					loopCount++
					l = &Loop{id: loopCount, fn: fn, header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.byHdr[s] = l
					fi.loops = append(fi.loops, l)
				}
				// collect the body
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, l := range fi.loops {
		l.analyse()
	}
	for _, b := range fn.Blocks {
		var ls []*Loop
		for _, l := range fi.loops {
			if l.blocks[b] {
				ls = append(ls, l)
			}
		}
		// outermost first
		for i := 0; i < len(ls); i++ {
			for j := i + 1; j < len(ls); j++ {
				if len(ls[j].blocks) > len(ls[i].blocks) {
					ls[i], ls[j] = ls[j], ls[i]
				}
			}
		}
		fi.in[b] = ls
	}
	fi.liveness()
	return fi
}

func (l *Loop) analyse() {
	l.ivs = map[*ssa.Phi]int64{}
	l.counters = map[*ssa.Phi]bool{}
	h := l.header
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		if !isIntType(phi.Type()) {
			continue
		}
		step := int64(0)
		iv := true
		cnt := true
		for i, p := range h.Preds {
			if !l.blocks[p] {
				continue
			}
			e := phi.Edges[i]
			if n, ok := stepOf(e, phi); ok && n != 0 {
				if step != 0 && step != n {
					iv = false
				}
				step = n
			} else {
				iv = false
			}
			if !counterEdge(e, phi, l, map[ssa.Value]bool{}) {
				cnt = false
			}
		}
		if iv && (step == 1 || step == -1) {
			l.ivs[phi] = step
		}
		if cnt {
			l.counters[phi] = true
		}
	}
	if x, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
		in0, in1 := l.blocks[h.Succs[0]], l.blocks[h.Succs[1]]
		if in0 != in1 {
			l.ctl = x
		}
	}
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			l.next = n
		}
	}
}

// stepOf recognises e = phi + c.
func stepOf(e ssa.Value, phi *ssa.Phi) (int64, bool) {
	if e == phi {
		return 0, true
	}
	b, ok := e.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	var c *ssa.Const
	switch b.Op {
	case token.ADD:
		if b.X == phi {
			c, _ = b.Y.(*ssa.Const)
		} else if b.Y == phi {
			c, _ = b.X.(*ssa.Const)
		}
		if c != nil && c.Value != nil {
			return c.Int64(), true
		}
	case token.SUB:
		if b.X == phi {
			c, _ = b.Y.(*ssa.Const)
			if c != nil && c.Value != nil {
				return -c.Int64(), true
			}
		}
	}
	return 0, false
}

func counterEdge(e ssa.Value, phi *ssa.Phi, l *Loop, seen map[ssa.Value]bool) bool {
	if seen[e] {
		return true
	}
	seen[e] = true
	if n, ok := stepOf(e, phi); ok {
		return n == 0 || n == 1
	}
	if p, ok := e.(*ssa.Phi); ok && l.blocks[p.Block()] {
		for _, x := range p.Edges {
			if !counterEdge(x, phi, l, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// liveness computes the SSA values live at the start of each block.
func (fi *FnInfo) liveness() {
	fn := fi.fn
	fi.liveIn = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		fi.liveIn[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar:
			return false
		}
		return v != nil
	}
	changed := true
	for changed {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.liveIn[s] {
					live[v] = true
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, phi)
				}
			}
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					// the phi value itself is bound on the edge
					if pi >= 0 && track(phi.Edges[pi]) {
						live[phi.Edges[pi]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if *op != nil && track(*op) {
						live[*op] = true
					}
				}
			}
			// phis of b are bound when b is entered: live inside b if used
			old := fi.liveIn[b]
			for v := range live {
				if !old[v] {
					old[v] = true
					changed = true
				}
			}
		}
	}
}

// phiUsed says whether the phi is used at all.
func phiUsed(phi *ssa.Phi) bool {
	refs := phi.Referrers()
	return refs != nil && len(*refs) > 0
}

// bornIn says whether a site-bound term is produced inside the loop activation.
// stepOf is the number of the iteration of a loop over functions to which a call belongs.
func (s *State) stepOf(in ssa.Instruction, ctx *Ctx) int {
	for i := len(s.loops) - 1; i >= 0; i-- {
		a := s.loops[i]
		if a.Ctx != ctx {
			break
		}
		if a.L != nil && a.L.blocks[in.Block()] {
			if a.Steps && innermost(a.L, in.Block()) {
				return a.N + 1
			}
			return 0
		}
	}
	return 0
}

func innermost(l *Loop, b *ssa.BasicBlock) bool {
	in := infoOf(l.fn).in[b]
	return len(in) > 0 && in[len(in)-1] == l
}

func bornIn(t *Term, a *LoopAct, entry bool) bool {
	if t.Ctx == nil || t.Site == nil {
		return false
	}
	if a.L == nil { // callback iteration at a.Site in a.Ctx
		for c := t.Ctx; c != nil; c = c.parent {
			if c.parent == a.Ctx && c.site == a.Site {
				return true
			}
		}
		return t.Ctx == a.Ctx && t.Site == a.Site && t.Op == "lv"
	}
	if t.Ctx == a.Ctx {
		return a.L.blocks[t.Site.Block()]
	}
	for c := t.Ctx; c != nil; c = c.parent {
		if c.parent == a.Ctx {
			if c.iter > 0 && !entry && a.Steps && innermost(a.L, c.site.Block()) {
				return false
			}
			return c.site != nil && a.L.blocks[c.site.Block()]
		}
	}
	return false
}

type bornKey struct {
	l *Loop
	c *Ctx
	s ssa.Instruction
	e bool
}

var bornMemo = map[bornKey]map[*Term]bool{}

func mentionsBorn(t *Term, a *LoopAct) bool { return mentionsBornIn(t, a, false) }

func mentionsBornIn(t *Term, a *LoopAct, entry bool) bool {
	if len(t.sites) == 0 {
		return false
	}
	k := bornKey{a.L, a.Ctx, a.Site, entry || !a.Steps}
	m := bornMemo[k]
	if m == nil {
		m = map[*Term]bool{}
		bornMemo[k] = m
	}
	if v, ok := m[t]; ok {
		return v
	}
	r := false
	for _, s := range t.sites {
		if bornIn(s, a, entry) {
			r = true
			break
		}
	}
	m[t] = r
	return r
}

// updatesMap says whether the body contains an update of a map of the given type.
func (l *Loop) updatesMap(t types.Type) bool {
	if t == nil {
		return false
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok && types.Identical(u.Map.Type(), t) {
				return true
			}
		}
	}
	return false
}

// callsElements: the body calls a function which it loads from memory by an index.
func (l *Loop) callsElements() bool {
	var from func(v ssa.Value, n int) bool
	from = func(v ssa.Value, n int) bool {
		if n > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			return from(x.X, n+1)
		case *ssa.FieldAddr:
			return from(x.X, n+1)
		case *ssa.Field:
			return from(x.X, n+1)
		case *ssa.IndexAddr, *ssa.Index:
			return l.blocks[x.(ssa.Instruction).Block()]
		case *ssa.Alloc: // a copy of the element
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x && l.blocks[s.Block()] && from(s.Val, n+1) {
					return true
				}
			}
		}
		return false
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && !c.Call.IsInvoke() && from(c.Call.Value, 0) {
				return true
			}
		}
	}
	return false
}
