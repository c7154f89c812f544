package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Trace is the (reporting only) history of a path.
type Trace struct {
	prev *Trace
	pos  token.Pos
	text string
	n    int
}

// LoopAct is one activation of a natural loop (or of a callback iteration such as filepath.WalkDir).
type LoopAct struct {
	L      *Loop
	Ctx    *Ctx
	Iter   int // 0: first iteration or none yet; 1: at least one iteration completed
	Unroll bool
	Steps  bool // the iterations call different functions: what they make is kept apart
	N      int  // for Steps: the number of completed iterations
	// pseudo loops
	Site ssa.Instruction
	// Scan
	Scan *Scan
	// Hdr is the heap at the start of the iteration (not part of the key)
	Hdr map[*Term]*Term
}

func (a *LoopAct) key() string {
	s := "L"
	if a.L != nil {
		s += strconv.Itoa(a.L.id)
	} else {
		s += "s" + strconv.Itoa(siteID(a.Site))
	}
	s += "@" + strconv.Itoa(a.Ctx.id) + ":" + strconv.Itoa(a.Iter+2*a.N)
	if a.Unroll {
		s += "u"
	}
	if a.Scan != nil {
		s += a.Scan.key()
	}
	return s
}

func (a *LoopAct) same(b *LoopAct) bool { return a.L == b.L && a.Ctx == b.Ctx && a.Site == b.Site }

// Scan describes what a loop iterates over.
type Scan struct {
	Kind string // "map", "slice", "count", "walk"
	Cont *Term  // the container (or the bound for "count")
	IV   *Term  // the iteration variable: iv or rkey term
	From Lin    // first value of IV
	To   Lin    // last value of IV
	Full bool   // from..to is known to cover the container
}

func (s *Scan) key() string {
	c := 0
	if s.Cont != nil {
		c = s.Cont.ID
	}
	return fmt.Sprintf("[%s%d%v]", s.Kind, c, s.Full)
}

type State struct {
	heap  map[*Term]*Term
	facts map[*Term]bool
	hsh   bool
	fsh   bool
	loops []*LoopAct
	mon   Monitor
	panik *Term // the panic in flight that recover() would return
	trace *Trace
	dead  bool // a monitor found the path to be infeasible
}

func newState(m Monitor) *State {
	return &State{heap: map[*Term]*Term{}, facts: map[*Term]bool{}, mon: m}
}

func (s *State) clone() *State {
	n := *s
	s.hsh, s.fsh = true, true
	n.hsh, n.fsh = true, true
	n.mon = s.mon.Clone()
	n.loops = s.loops[:len(s.loops):len(s.loops)]
	return &n
}

func (s *State) set(a, v *Term) {
	if s.heap[a] == v {
		return
	}
	s.ownHeap()
	s.heap[a] = v
}

func (s *State) del(a *Term) {
	if _, ok := s.heap[a]; !ok {
		return
	}
	s.ownHeap()
	delete(s.heap, a)
}

func (s *State) ownHeap() {
	if s.hsh {
		m := make(map[*Term]*Term, len(s.heap)+4)
		for k, v := range s.heap {
			m[k] = v
		}
		s.heap = m
		s.hsh = false
	}
}

func (s *State) ownFacts() {
	if s.fsh {
		m := make(map[*Term]bool, len(s.facts)+4)
		for k, v := range s.facts {
			m[k] = v
		}
		s.facts = m
		s.fsh = false
	}
}

func (s *State) setFact(t *Term, v bool) {
	if o, ok := s.facts[t]; ok && o == v {
		return
	}
	s.ownFacts()
	s.facts[t] = v
}

func (s *State) delFact(t *Term) {
	if _, ok := s.facts[t]; !ok {
		return
	}
	s.ownFacts()
	delete(s.facts, t)
}

func (s *State) log(pos token.Pos, format string, args ...interface{}) {
	n := 0
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &Trace{prev: s.trace, pos: pos, text: fmt.Sprintf(format, args...), n: n}
}

type hkey [2]uint64

func (h *hkey) add(o hkey) { h[0] += o[0]; h[1] += o[1] }

func pairHash(a, b *Term) hkey {
	return hkey{mix(a.h[0]*31 + b.h[1]), mix(a.h[1]*37 + b.h[0] + 5)}
}

func strHash(s string) hkey {
	var a, b uint64 = 1469598103934665603, 0x9ddfea08eb382d69
	for i := 0; i < len(s); i++ {
		a = (a ^ uint64(s[i])) * 1099511628211
		b = (b + uint64(s[i])) * 0x9E3779B97F4A7C15
		b ^= b >> 29
	}
	return hkey{mix(a), mix(b)}
}

// key identifies the state up to the reporting trace.
func (s *State) key() hkey {
	var h hkey
	for k, v := range s.heap {
		h.add(pairHash(k, v))
	}
	for k, v := range s.facts {
		b := tFalse
		if v {
			b = tTrue
		}
		h.add(pairHash(b, k))
	}
	var sb strings.Builder
	for _, l := range s.loops {
		sb.WriteString(l.key())
	}
	if s.panik != nil {
		sb.WriteString("!" + strconv.Itoa(s.panik.ID))
	}
	sb.WriteByte('/')
	sb.WriteString(s.mon.Key())
	h.add(strHash(sb.String()))
	return h
}

// ---- facts ----

// norm returns the atom and polarity of a boolean term.
func norm(t *Term) (*Term, bool) {
	pol := true
	for t.Op == "not" {
		t = t.Args[0]
		pol = !pol
	}
	return t, pol
}

func mkNot(t *Term) *Term {
	if b, ok := t.boolVal(); ok {
		if b {
			return tFalse
		}
		return tTrue
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mk("not", "", nil, t)
}

// mkEq builds the canonical equality of two terms.
func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return tFalse
	}
	if v, ok := a.boolVal(); ok {
		if v {
			return b
		}
		return mkNot(b)
	}
	if v, ok := b.boolVal(); ok {
		if v {
			return a
		}
		return mkNot(a)
	}
	la, lb := isIntTerm(a), isIntTerm(b)
	if la && lb {
		d := linOf(a).add(linOf(b), -1)
		if d.isConst() {
			if d.k == 0 {
				return tTrue
			}
			return tFalse
		}
		d = canonSign(d)
		return mkLinAtom("eq0", d)
	}
	// a string is empty if and only if its length is 0
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if c, ok := p[1].strVal(); ok && c == "" {
			return mkEq(mk("len", "", types.Typ[types.Int], p[0]), mkInt(0))
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("eq", "", nil, a, b)
}

func isIntTerm(t *Term) bool {
	if t.Op == "const" {
		_, ok := t.intVal()
		return ok
	}
	return t.Op == "lin" || t.Op == "len" || t.Op == "iv" || isIntType(t.Typ)
}

func canonSign(d Lin) Lin {
	ts := d.sorted()
	if len(ts) > 0 && d.c[ts[0]] < 0 {
		return Lin{}.add(d, -1)
	}
	return d
}

func mkLinAtom(op string, d Lin) *Term { return mk(op, "", nil, d.term()) }

// mkLt builds a < b.
func mkLt(a, b *Term) *Term {
	if isIntTerm(a) && isIntTerm(b) {
		return mkPos(linOf(b).add(linOf(a), -1))
	}
	return mk("slt", "", nil, a, b)
}

// mkPos builds d > 0 for an integer form.
func mkPos(d Lin) *Term {
	if d.isConst() {
		if d.k > 0 {
			return tTrue
		}
		return tFalse
	}
	ts := d.sorted()
	if d.c[ts[0]] < 0 {
		n := Lin{}.add(d, -1) // -d
		n.k++                 // -d+1 > 0  <=> d <= 0
		return mkNot(mkLinAtom("pos", n))
	}
	if d.k == 0 && len(ts) == 1 && d.c[ts[0]] == 1 && ts[0].Op == "len" && isStringType(typOr(ts[0].Args[0].Typ)) {
		return mkNot(mkLinAtom("eq0", d))
	}
	return mkLinAtom("pos", d)
}

const inf = int64(1) << 40

// bounds derives an interval for the homogeneous part of d.
func (s *State) bounds(d Lin) (lo, hi int64) {
	lo, hi = -inf, inf
	h := d
	h.k = 0
	ts := h.sorted()
	if len(ts) == 1 {
		t, n := ts[0], h.c[ts[0]]
		tl, th := s.termBounds(t)
		if n > 0 {
			if tl > -inf {
				lo = n * tl
			}
			if th < inf {
				hi = n * th
			}
		} else {
			if th < inf {
				lo = n * th
			}
			if tl > -inf {
				hi = n * tl
			}
		}
	}
	neg := Lin{}.add(h, -1)
	hk, nk := h.term(), neg.term()
	for f, v := range s.facts {
		if f.Op != "pos" && f.Op != "eq0" {
			continue
		}
		l := linOf(f.Args[0])
		k := l.k
		l.k = 0
		lt := l.term()
		var sign int64
		if lt == hk {
			sign = 1
		} else if lt == nk {
			sign = -1
		} else {
			continue
		}
		// fact about x = sign*h : x + k (>0 | ==0)
		if f.Op == "eq0" {
			if v {
				x := -k
				lo, hi = max(lo, sign*x), min(hi, sign*x)
			}
			continue
		}
		var xl, xh = -inf, inf
		if v {
			xl = -k + 1
		} else {
			xh = -k
		}
		if sign < 0 {
			xl, xh = neg64(xh), neg64(xl)
		}
		lo, hi = max(lo, xl), min(hi, xh)
	}
	// trim with disequalities
	for i := 0; i < 2; i++ {
		for f, v := range s.facts {
			if f.Op != "eq0" || v {
				continue
			}
			l := linOf(f.Args[0])
			k := l.k
			l.k = 0
			lt := l.term()
			var x int64
			if lt == hk {
				x = -k
			} else if lt == nk {
				x = k
			} else {
				continue
			}
			if x == lo {
				lo++
			}
			if x == hi {
				hi--
			}
		}
	}
	return
}

func neg64(x int64) int64 { return -x }

func (s *State) termBounds(t *Term) (int64, int64) {
	if t.Op == "len" || t.Op == "cap" || t.Op == "maplenv" {
		x := t
		if len(t.Args) > 0 {
			x = t.Args[0]
		}
		if x.Op == "acc" && strings.Contains(x.Aux, "+") {
			return 1, inf
		}
		if s.nonEmpty(x) {
			return 1, inf
		}
		return 0, inf
	}
	if t.Op == "count" { // a loop counter bounded below by its init
		return 0, inf
	}
	return -inf, inf
}

func (s *State) nonEmpty(x *Term) bool {
	if c, ok := x.strVal(); ok {
		return c != ""
	}
	if x.Op == "call" {
		switch x.Aux {
		case "path/filepath.Base", "path/filepath.Dir", "path/filepath.Clean", "path.Base", "path.Dir", "path.Clean":
			return true
		case "path/filepath.Join", "path.Join":
			for _, a := range x.Args {
				if s.nonEmpty(a) {
					return true
				}
			}
		}
	}
	if x.Op == "bin" && x.Aux == "+" && len(x.Args) == 2 && (s.nonEmpty(x.Args[0]) || s.nonEmpty(x.Args[1])) {
		return true
	}
	if x.Op == "app" && len(x.Args) > 1 {
		for _, a := range x.Args[1:] {
			if a.Op != "spread" {
				return true
			}
		}
	}
	if v, ok := s.facts[mk("eq0", "", nil, mk("len", "", nil, x))]; ok && !v {
		return true
	}
	return false
}

// nonNil says whether x is known not to be nil.
func (s *State) knownNonNil(x *Term) bool {
	switch x.Op {
	case "new", "fn", "global", "fld", "idx", "const", "app", "gvalnn", "acc", "zero", "sv":
		if x.Op == "app" {
			return s.nonEmpty(x) || s.knownNonNil(x.Args[0])
		}
		if x.Op == "acc" {
			return strings.Contains(x.Aux, "+")
		}
		return true
	case "lv":
		return strings.HasSuffix(x.Obj.(string), "nn")
	case "err", "recovered": // a freshly built error
		return true
	case "slice":
		return s.knownNonNil(x.Args[0])
	case "conv":
		return s.knownNonNil(x.Args[0])
	}
	return false
}

// eval decides a boolean term if possible.
func (s *State) eval(t *Term) (val, known bool) {
	t, pol := norm(t)
	if b, ok := t.boolVal(); ok {
		return b == pol, true
	}
	if v, ok := s.facts[t]; ok {
		return v == pol, true
	}
	switch t.Op {
	case "eq":
		a, b := t.Args[0], t.Args[1]
		if a.Op == "nil" {
			a, b = b, a
		}
		if b.Op == "nil" {
			if s.knownNonNil(a) {
				return !pol, true
			}
			return false, false
		}
		if s.distinct(a, b) {
			return !pol, true
		}
		// x == c1 known true and x == c2 asked
		if b.isConst() || a.isConst() {
			x, c := a, b
			if a.isConst() {
				x, c = b, a
			}
			for f, v := range s.facts {
				if v && f.Op == "eq" && f != t {
					var o *Term
					if f.Args[0] == x {
						o = f.Args[1]
					} else if f.Args[1] == x {
						o = f.Args[0]
					}
					if o != nil && o.isConst() && o != c {
						return !pol, true
					}
				}
			}
		}
		// nil vs non-nil
		if va, ka := s.isNil(a); ka {
			if vb, kb := s.isNil(b); kb {
				if va && vb {
					return pol, true
				}
				if va != vb {
					return !pol, true
				}
			}
		}
	case "pos":
		d := linOf(t.Args[0])
		lo, hi := s.bounds(d)
		if lo > -inf && lo+d.k > 0 {
			return pol, true
		}
		if hi < inf && hi+d.k <= 0 {
			return !pol, true
		}
	case "eq0":
		d := linOf(t.Args[0])
		lo, hi := s.bounds(d)
		if lo > -inf && lo+d.k > 0 || hi < inf && hi+d.k < 0 {
			return !pol, true
		}
		if lo == hi && lo+d.k == 0 {
			return pol, true
		}
	}
	return false, false
}

// isNil evaluates x == nil.
func (s *State) isNil(x *Term) (val, known bool) {
	return s.eval(mkEq(x, tNil))
}

// distinct says whether two terms are known to denote different values.
func (s *State) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isConst() && b.isConst() {
		return true
	}
	obj := func(x *Term) bool { return x.Op == "new" || x.Op == "global" || x.Op == "fn" }
	if obj(a) && obj(b) {
		return true
	}
	// a new object differs from whatever existed before
	if a.Op == "new" && (b.Op == "param" || b.Op == "gval" || b.Op == "gvalnn") || b.Op == "new" && (a.Op == "param" || a.Op == "gval" || a.Op == "gvalnn") {
		return true
	}
	if v, ok := s.facts[mkEqAtom(a, b)]; ok && !v {
		return true
	}
	return false
}

func mkEqAtom(a, b *Term) *Term {
	t, _ := norm(mkEq(a, b))
	return t
}

// assume adds a branch condition; false means the path is infeasible.
func (s *State) assume(t *Term, val bool) bool {
	t, pol := norm(t)
	want := val == pol
	if b, ok := t.boolVal(); ok {
		return b == want
	}
	if v, ok := s.eval(t); ok {
		return v == want
	}
	s.setFact(t, want)
	return true
}

func (s *State) fact(t *Term) (val, known bool) { return s.eval(t) }

func (s *State) isTrue(t *Term) bool  { v, k := s.eval(t); return k && v }
func (s *State) isFalse(t *Term) bool { v, k := s.eval(t); return k && !v }
