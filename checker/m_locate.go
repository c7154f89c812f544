package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:   "C38",
		Rule: "ranking analysis of every loop and recursive call on every path of PackageFromDirectory: an iteration is followed by another one only if the loop enumerates something finite, or counts towards a bound, or goes from a directory to its parent which the path knows to be a different directory; the directory at which the search starts is the absolute path of the argument; the search goes on to the parent only after no go.mod was found in the directory itself; success is reported only after a module was parsed, without an error, out of the go.mod in such a directory",
		Runs: []Run{{Name: "PackageFromDirectory", Mon: mon(monC38),
			Entry: func(w *World) (*ssaFunction, error) { return w.locateFn() },
			Cfg:   func(w *World, c *RunCfg) { c.Pure = func(fn *ssaFunction) bool { return false } }}},
		Floor: map[string]int{"steps to the parent directory": 1, "loops": 2, "successful exits": 1, "failing exits": 2},
	})
}

// locateFn is the function which determines the package of a directory.
func (w *World) locateFn() (*ssa.Function, error) {
	if f := w.hut.Func("PackageFromDirectory"); f != nil {
		return f, nil
	}
	var r []*ssa.Function
	for _, f := range w.prodFuncs() {
		if s := f.Signature; f.Pkg == w.hut && f.Parent() == nil && s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 3 && w.reaches(f, "golang.org/x/mod/modfile.ParseLax") {
			r = append(r, f)
		}
	}
	if len(r) != 1 {
		return nil, fmt.Errorf("found %d functions which determine the package of a directory", len(r))
	}
	return r[0], nil
}

// parentOf: t is the parent directory of the result.
func parentOf(t *Term) *Term {
	if t == nil || t.Op != "call" && t.Op != "res" {
		return nil
	}
	switch t.Aux {
	case "path/filepath.Dir", "path.Dir":
		return t.Args[0]
	case "path/filepath.Join", "path.Join":
		if len(t.Args) == 2 {
			if s, k := t.Args[1].strVal(); k && s == ".." {
				return t.Args[0]
			}
		}
	case "path/filepath.Clean", "path.Clean":
		return parentOf(t.Args[0])
	}
	return nil
}

// inFile: t is the path of the named file in the directory which is returned.
func inFile(t *Term, name string) *Term {
	if t != nil && t.Op == "call" && (t.Aux == "path/filepath.Join" || t.Aux == "path.Join") && len(t.Args) == 2 {
		if s, k := t.Args[1].strVal(); k && s == name {
			return t.Args[0]
		}
	}
	return nil
}

// finiteLoop: the loop enumerates something finite or counts towards a bound.
func finiteLoop(l *Loop) bool {
	if l.next != nil {
		return true
	}
	if l.ctl == nil {
		return false
	}
	b, ok := l.ctl.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	stay := l.blocks[l.header.Succs[0]]
	op := b.Op
	if !stay {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		default:
			return false
		}
	}
	// direction in which an operand moves: 0 if it is invariant, 2 if unknown
	var dir func(v ssa.Value) int64
	dir = func(v ssa.Value) int64 {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.header {
			if s, ok := l.ivs[p]; ok {
				return s
			}
			return 2
		}
		if in, ok := v.(ssa.Instruction); !ok || !l.blocks[in.Block()] {
			return 0
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			a, c := dir(x.X), dir(x.Y)
			if a == 2 || c == 2 {
				return 2
			}
			if a == 0 && c == 0 {
				return 0
			}
			switch x.Op {
			case token.SUB:
				c = -c
			case token.ADD:
			default:
				return 2
			}
			switch {
			case a == 0:
				return c
			case c == 0 || a == c:
				return a
			}
			return 2
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return dir(x.Call.Args[0])
			}
		}
		return 2
	}
	x, y := dir(b.X), dir(b.Y)
	if x == 2 || y == 2 {
		return false
	}
	switch op {
	case token.LSS, token.LEQ:
		return x >= 0 && y <= 0 && x != y
	case token.GTR, token.GEQ:
		return x <= 0 && y >= 0 && x != y
	}
	return false
}

func monC38(m *Mon, e *Engine, st *State, ev *Event) {
	abs := func(t *Term) bool {
		return mentionsAny(t, func(x *Term) bool { return isRes(x, "path/filepath.Abs") })
	}
	// where: t is the directory itself or one of those above
	where := func(t *Term) bool {
		for t != nil {
			if p, _ := t.Site.(*ssa.Phi); abs(t) || t.Op == "lv" && p != nil && m.has("climb:"+itoa(siteID(p))) || m.term("rec:"+itoa(t.ID)) == t {
				return true
			}
			t = parentOf(t)
		}
		return false
	}
	step := func(old, nw *Term) bool {
		if parentOf(nw) != old {
			return false
		}
		e.Count("steps to the parent directory")
		if !where(old) {
			e.Violate(st, ev.Pos, "start", "the search does not start at the absolute path of the directory")
		}
		if m.term("absent") != old {
			e.Violate(st, ev.Pos, "skipped", "the search goes on to the parent directory although the directory itself may contain a go.mod")
		}
		return true
	}
	switch ev.Kind {
	case EvExtRet:
		if ev.Err == ErrNonNil && len(ev.Args) > 0 {
			if d := inFile(ev.Args[0], "go.mod"); d != nil {
				m.bind("absent", d)
			}
		}
		if ev.Err == ErrNil && len(ev.Args) > 0 && len(ev.Res) > 0 && (isReadFileName(ev.Name) || ev.Name == "os.Open") {
			if d := inFile(ev.Args[0], "go.mod"); d != nil && where(d) {
				m.bind("data", ev.Res[0])
			}
		}
		if ev.Err == ErrNil && strings.HasPrefix(ev.Name, "golang.org/x/mod/modfile.") && len(ev.Res) > 0 {
			for _, a := range ev.Args {
				if d := m.term("data"); d != nil && mentions(a, d) {
					m.bind("mod", ev.Res[0])
				}
			}
		}
	case EvCall:
		for _, a := range ev.Args {
			if isStringType(typOr(a.Typ)) && where(a) {
				m.bind("rec:"+itoa(a.ID), a)
			}
		}
	case EvLoopEnter:
		e.Count("loops")
	case EvIterEnd:
		if ev.Act.L == nil || finiteLoop(ev.Act.L) {
			return
		}
		ok := false
		for _, p := range ev.Phis {
			if p.Old == nil || !step(p.Old, p.New) {
				continue
			}
			m.put("climb:"+itoa(siteID(p.Phi)), 1)
			// the parent is known to be another directory
			if st.isFalse(mkEq(p.Old, p.New)) {
				ok = true
			}
			// or will be, before the next one is examined
			for _, q := range ev.Phis {
				if q.New == p.Old && q.Old != nil && st.isFalse(mkEq(p.Old, q.Old)) {
					ok = true
				}
			}
		}
		if !ok {
			e.Violate(st, ev.Pos, "endless", "an iteration may be followed by another one which is no step towards the end")
		}
		m.bind("absent", nil)
	case EvOpaque:
		if ev.Ctx != nil && ev.Ctx.has(ev.Fn) {
			ok := false
			for _, a := range ev.Args {
				if o := parentOf(a); o != nil && m.term("rec:"+itoa(o.ID)) == o && step(o, a) && st.isFalse(mkEq(o, a)) {
					ok = true
				}
			}
			if !ok {
				e.Violate(st, ev.Pos, "endless", "a recursive call may not be a step towards the end")
			}
		}
	case EvOpaqueRet:
		if ev.Err == ErrNil && len(ev.Res) > 0 {
			m.put("rec", 1)
		}
	case EvExit:
		switch {
		case ev.Kind2 == "panic":
			e.Violate(st, ev.Pos, "panic", "the function panics")
		case ev.Err == ErrNonNil:
			e.Count("failing exits")
		default:
			e.Count("successful exits")
			mod := m.term("mod")
			if !m.has("rec") && (mod == nil) {
				e.Violate(st, ev.Pos, "unfounded", "success may be reported although no go.mod has been found and parsed")
			}
		}
	}
}
