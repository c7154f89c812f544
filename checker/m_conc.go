package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:   "C32",
		Rule: "every goroutine of the command-line tool which copies files is analysed together with the function which starts it, on all paths of both: the wait group is told about exactly as many workers as are started, each worker tells it exactly once that it has ended, after everything else it does, and the function which started them waits; no channel operation of a worker can block for ever (channels have room for what all workers together may send, or the operation is not blocking, or the channel is closed), nor can filling the list of files; no channel is closed twice or closed while workers may send on it; workers do not panic and share no variable without a lock; each failing step of a worker is reported; a file which a worker has received is written or its failure is reported; a worker ends only when no files are left, after a report, or when told to stop; the list of files is complete; after waiting, the reports and the interruption are consulted on every path to a normal return, and a report makes the build fail",
		Rules: []func(w *World, r *Report){func(w *World, r *Report) {
			c := &concRun{w: w}
			c.find()
			x := &modular{w: w, r: r}
			x.inD = func(fn *ssa.Function) bool { return c.starts[fn] }
			x.edit = func(cfg *RunCfg) {
				nc, op := cfg.NoCond, cfg.Opaque
				cfg.NoCond = func(t *Term) bool {
					return nc(t) && !mentionsAny(t, func(x *Term) bool {
						return x.Op == "recvok" || x.Op == "recv" || x.Op == "len" && chanElem(x.Args[0]) != nil
					})
				}
				cfg.Opaque = func(f *ssa.Function) bool {
					if op(f) && !x.ok[f] && c.inline(f) {
						return false
					}
					return op(f)
				}
			}
			x.mon = func(x *modular) func() Monitor { return mon(c.mon) }
			x.run()
		}},
		Floor: map[string]int{"workers": 1, "failures reported": 1, "waits": 1},
	})
}

type concRun struct {
	w       *World
	starts  map[*ssa.Function]bool // reach a go statement whose goroutine creates files
	workers map[*ssa.Function]bool // reached by such goroutines
	raceAt  map[*Term]token.Pos
}

func (c *concRun) find() {
	w := c.w
	c.raceAt = map[*Term]token.Pos{}
	c.starts, c.workers = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	direct := map[*ssa.Function]bool{}
	for _, fn := range w.prodFuncs() {
		if fn.Pkg != w.cmd {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				for f := range w.goTargets(g) {
					if !w.effects(f).any(creators...) {
						continue
					}
					direct[fn] = true
					for h := range w.staticReach(f) {
						c.workers[h] = true
					}
				}
			}
		}
	}
	for _, fn := range w.prodFuncs() {
		for g := range w.staticReach(fn) {
			if direct[g] {
				c.starts[fn] = true
			}
		}
	}
}

// goTargets lists the functions which the statement may start.
func (w *World) goTargets(g *ssa.Go) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value)
	f = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Function:
			r[x] = true
		case *ssa.MakeClosure:
			r[x.Fn.(*ssa.Function)] = true
		case *ssa.Phi:
			for _, e := range x.Edges {
				f(e)
			}
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && a.Referrers() != nil {
				for _, in := range *a.Referrers() {
					if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						f(s.Val)
					}
				}
			}
		}
	}
	f(g.Call.Value)
	for _, a := range g.Call.Args {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			f(a)
		}
	}
	return r
}

// inline: what the function does matters here.
func (c *concRun) inline(fn *ssa.Function) bool {
	if fn.Pkg != c.w.cmd && fn.Pkg != c.w.hut {
		return false
	}
	f := c.w.effects(fn)
	if c.workers[fn] {
		return f.Chan || f.Select || f.any(creators...) || f.any("(*sync.WaitGroup).Done", "(*sync.Once).Do")
	}
	if f.any(creators...) && !c.starts[fn] {
		return false
	}
	return f.Chan || f.Select || f.any("(*sync.WaitGroup).Add", "(*sync.WaitGroup).Wait", "(*sync.WaitGroup).Done")
}

func chanElem(t *Term) types.Type {
	if t == nil || t.Typ == nil {
		return nil
	}
	if c, ok := t.Typ.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}

func isErrorChan(t *Term) bool {
	e := chanElem(t)
	return e != nil && isErrorType(e)
}

func isSignalChan(t *Term) bool {
	e := chanElem(t)
	if e == nil {
		return true
	}
	if s, ok := e.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		return true
	}
	return false
}

// isItemChan: t carries the files to copy.
func isItemChan(t *Term) bool {
	return t != nil && t.Op == "new" && chanElem(t) != nil && !isErrorChan(t) && !isSignalChan(t)
}

func chanCap(t *Term) (Lin, bool) {
	if t == nil || t.Op != "new" || len(t.Args) != 1 {
		return Lin{}, false
	}
	return linOf(t.Args[0]), true
}

func inGoCtx(c *Ctx) bool {
	for ; c != nil; c = c.parent {
		if _, ok := c.site.(*ssa.Go); ok {
			return true
		}
	}
	return false
}

// onceCtx returns the call of (*sync.Once).Do within which the event lies.
func onceCtx(c *Ctx) bool {
	for ; c != nil; c = c.parent {
		if call, ok := c.site.(*ssa.Call); ok {
			if f := call.Call.StaticCallee(); f != nil && f.String() == "(*sync.Once).Do" {
				return true
			}
		}
	}
	return false
}

// sendsError: the function sends on a channel of errors.
func sendsError(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	is := func(t types.Type) bool {
		c, ok := t.Underlying().(*types.Chan)
		return ok && isErrorType(c.Elem())
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				if is(x.Chan.Type()) {
					return true
				}
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.SendOnly && is(s.Chan.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *concRun) mon(m *Mon, e *Engine, st *State, ev *Event) {
	if e.inGo > 0 {
		if ev.Kind == EvGo && ev.Kind2 == "start" && e.inGo == 1 && ev.Callee != nil {
			return
		}
		c.worker(m, e, st, ev)
		return
	}
	c.starter(m, e, st, ev)
}

func (m *Mon) twice(k string) {
	if m.get(k) < 2 {
		m.inc(k)
	}
}

// settle looks at the file which was received last.
func (c *concRun) settle(m *Mon, e *Engine, st *State, ev *Event) {
	if !m.has("held") {
		return
	}
	if ok := m.term("heldok"); ok != nil {
		if v, known := st.facts[ok]; known && !v {
			m.put("held", 0)
			m.put("end", 1)
			return
		}
	}
	if m.has("unrep") || m.has("reported") || m.has("stopped") {
		return
	}
	if !m.has("written") {
		e.Violate(st, ev.Pos, "lost", "a file which a worker has received is neither written nor reported")
	}
	m.put("held", 0)
}

func (c *concRun) received(m *Mon, e *Engine, st *State, ev *Event, ch, item, ok *Term) {
	switch {
	case m.isIntr(e, ch):
		m.put("end", 1)
		m.put("stopped", 1)
		m.put("intr", 1)
	case isErrorChan(ch):
	case isItemChan(ch):
		c.settle(m, e, st, ev)
		c.unreported(m, e, st, ev)
		m.put("end", 0)
		m.put("held", 1)
		m.put("written", 0)
		m.drop("item")
		m.drop("heldok")
		m.bind("item", item)
		if ok != nil {
			m.bind("heldok", ok)
		}
		for _, k := range m.keys("isend:") {
			m.put(k, 0)
		}
		m.put("items", 1)
		m.bind("from", ch)
	case ch.Op == "new" || isSignalChan(ch):
		m.put("end", 1)
		m.put("stopped", 1)
	}
}

func (c *concRun) unreported(m *Mon, e *Engine, st *State, ev *Event) {
	if m.has("unrep") {
		s, _ := m.term("what").strVal()
		e.Violate(st, ev.Pos, "unreported", "a worker goes on or ends without reporting that a step has failed: %s", s)
		m.put("unrep", 0)
	}
}

func (c *concRun) report(m *Mon, e *Engine) {
	if m.has("unrep") {
		e.Count("failures reported")
	}
	m.put("unrep", 0)
	m.put("reported", 1)
	m.put("end", 1)
}

func (c *concRun) sent(m *Mon, e *Engine, st *State, ev *Event, ch, val *Term, blocking bool) {
	if !isErrorChan(ch) && !isSignalChan(ch) {
		return
	}
	id := itoa(ch.ID)
	m.bind("ch:"+id, ch)
	switch {
	case !blocking:
		m.put("nb:"+id, 1)
	case onceCtx(ev.Ctx):
		m.put("osend:"+id, 1)
	default:
		m.twice("send:" + id)
		m.twice("isend:" + id)
		if m.get("isend:"+id) > 1 || !m.has("items") {
			m.put("imany:"+id, 1)
		}
	}
	if isErrorChan(ch) && (val == nil || val.Op != "nil") {
		m.bind("errch", ch)
		c.report(m, e)
	}
}

func (c *concRun) worker(m *Mon, e *Engine, st *State, ev *Event) {
	if !m.has("worker") {
		return
	}
	if m.has("done") {
		switch ev.Kind {
		case EvSend, EvStore, EvClose:
			if ev.Kind != EvStore || c.shared(ev.Addr) {
				e.Violate(st, ev.Pos, "done", "a worker goes on after it has told the wait group that it has ended")
			}
		}
	}
	switch ev.Kind {
	case EvPanic:
		e.Violate(st, ev.Pos, "crash", "a worker may panic, which ends the process")
	case EvRecv:
		ch := ev.Addr
		x, _ := ev.Instr.(*ssa.UnOp)
		var ok *Term
		if x != nil && x.CommaOk {
			ok = mkSite("recvok", "", types.Typ[types.Bool], x, ev.Ctx, ch)
		}
		if !m.isIntr(e, ch) {
			m.bind("needclose:"+itoa(ch.ID), ch)
		}
		c.received(m, e, st, ev, ch, ev.Val, ok)
	case EvSelect:
		x, _ := ev.Instr.(*ssa.Select)
		if x == nil {
			return
		}
		switch ev.Kind2 {
		case "recv":
			for i, s := range x.States {
				if s.Dir == types.RecvOnly && ev.Args[i] == ev.Addr {
					item := mkSite("recv", "sel"+itoa(i), s.Chan.Type().Underlying().(*types.Chan).Elem(), x, ev.Ctx, ev.Addr)
					ok := mkSite("recvok", "sel"+itoa(i), types.Typ[types.Bool], x, ev.Ctx, ev.Addr)
					c.received(m, e, st, ev, ev.Addr, item, ok)
					break
				}
			}
		case "send":
			c.sent(m, e, st, ev, ev.Addr, ev.Val, x.Blocking)
		case "default":
			for i, s := range x.States {
				switch {
				case s.Dir == types.SendOnly:
					c.sent(m, e, st, ev, ev.Args[i], nil, false)
				case isItemChan(ev.Args[i]):
					c.settle(m, e, st, ev)
					m.put("end", 1)
					m.put("dflt", 1)
					m.bind("from", ev.Args[i])
				}
			}
		}
		if x.Blocking && ev.Kind2 == "recv" && !m.isIntr(e, ev.Addr) {
			for i, s := range x.States {
				if s.Dir == types.RecvOnly && isItemChan(ev.Args[i]) {
					m.bind("needclose:"+itoa(ev.Args[i].ID), ev.Args[i])
				}
			}
		}
	case EvSend:
		c.sent(m, e, st, ev, ev.Addr, ev.Val, true)
	case EvClose:
		id := itoa(ev.Addr.ID)
		m.bind("closed:"+id, ev.Addr)
		m.put("closes", 1)
		switch {
		case m.has("waited"):
			m.bind("closedafter:"+id, ev.Addr)
		case onceCtx(ev.Ctx) || m.locked():
		default:
			m.put("closeonce:"+id, 1)
		}
	case EvIterEnd:
		c.settle(m, e, st, ev)
	case EvLoopExit:
		if ok := m.term("heldok"); ok != nil {
			if v, known := st.facts[ok]; known && !v {
				c.settle(m, e, st, ev)
			}
		}
	case EvStore:
		if !c.shared(ev.Addr) {
			return
		}
		if isErrorType(ptrElem(ev.Addr.Typ)) && ev.Val.Op != "nil" {
			c.report(m, e)
			m.put("cell", 1)
		}
		if ev.Addr.Op != "idx" && !m.locked() {
			m.put("race", 1)
			m.bind("raceat", ev.Addr)
			c.raceAt[ev.Addr] = ev.Pos
		}
	case EvMapUpdate, EvDelete:
		if c.shared(ev.Addr) && !m.locked() {
			e.Violate(st, ev.Pos, "shared", "workers change a map which they share without holding a lock")
		}
	case EvExt:
		switch ev.Name {
		case "(*sync.WaitGroup).Done":
			c.settle(m, e, st, ev)
			m.twice("done")
		case "(*sync.WaitGroup).Add":
			if k, ok := constInt(ev.Args[1]); ok && k == -1 {
				c.settle(m, e, st, ev)
				m.twice("done")
			} else {
				e.Violate(st, ev.Pos, "late", "a worker is announced to the wait group after it has been started")
			}
		case "(*sync.WaitGroup).Wait":
			m.put("waited", 1)
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			m.put("lock:"+itoa(ev.Args[0].ID), 1)
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
			m.put("lock:"+itoa(ev.Args[0].ID), 0)
		case "(*sync.Once).Do":
			if inGoCtx(ev.Args[0].Ctx) {
				m.put("ownonce", 1)
			}
			if f, _ := ev.Args[1].Obj.(*ssa.Function); sendsError(f) {
				c.report(m, e)
			}
		}
		if m.has("done") && createsFile(ev.Name) {
			e.Violate(st, ev.Pos, "done", "a worker goes on after it has told the wait group that it has ended")
		}
	case EvExtRet, EvOpaqueRet:
		name := ev.Name
		if ev.Kind == EvOpaqueRet {
			if ev.Fn == nil || ev.Kind2 == "panic" {
				return
			}
			name = ev.Fn.Name()
		}
		if ev.Kind == EvExtRet && harmless(name) {
			return
		}
		if ev.Err == ErrNonNil {
			m.put("unrep", 1)
			m.bind("what", mkStr(name+", "+e.w.pos(ev.Pos)))
			return
		}
		if ev.Kind == EvExtRet && createsFile(name) && m.has("held") && len(ev.Args) > 0 {
			it := m.term("item")
			if it == nil || mentionsAny(ev.Args[0], func(t *Term) bool { return t == it }) {
				m.put("written", 1)
			}
		}
		if ev.Kind == EvOpaqueRet && e.w.effects(ev.Fn).any(creators...) && m.has("held") {
			m.put("written", 1)
		}
	}
}

func (m *Mon) locked() bool {
	for _, k := range m.keys("lock:") {
		if m.has(k) {
			return true
		}
	}
	return false
}

// shared: other goroutines may use the variable too.
func (c *concRun) shared(addr *Term) bool {
	b := baseObj(addr)
	if b == nil {
		return false
	}
	switch b.Op {
	case "new":
		return !inGoCtx(b.Ctx)
	case "param", "gaddr", "global":
		return true
	}
	return false
}

func (c *concRun) starter(m *Mon, e *Engine, st *State, ev *Event) {
	switch ev.Kind {
	case EvGo:
		if ev.Kind2 == "start" {
			if g, ok := ev.Instr.(*ssa.Go); ok {
				for f := range c.w.goTargets(g) {
					if c.workers[f] || c.w.effects(f).any("(*sync.WaitGroup).Wait") {
						m.put("worker", 1)
					}
				}
				for _, a := range append([]*Term{ev.Callee}, ev.Args...) {
					if a != nil && a.Op == "fn" {
						if f, ok := a.Obj.(*ssa.Function); ok && (c.workers[f] || c.w.effects(f).any("(*sync.WaitGroup).Wait")) {
							m.put("worker", 1)
						}
					}
				}
			}
			return
		}
		c.spawned(m, e, st, ev)
	case EvClose:
		m.put("mclosed:"+itoa(ev.Addr.ID), 1)
		m.bind("mcl:"+itoa(ev.Addr.ID), ev.Addr)
		if m.has("started") && !m.has("waited") && (m.has("wsend:"+itoa(ev.Addr.ID)) || m.has("wclose:"+itoa(ev.Addr.ID))) {
			e.Violate(st, ev.Pos, "closed", "a channel is closed while workers may send on it or close it")
		}
	case EvSend:
		if !isItemChan(ev.Addr) {
			return
		}
		c.filled(m, e, st, ev)
	case EvLoopEnter:
		if c.fillLoop(ev.Act) {
			m.put("filling", 1)
		}
	case EvIterBegin:
		m.put("siter", 0)
	case EvIterEnd:
		if m.has("filling") && !m.has("siter") && c.fillLoop(ev.Act) {
			m.put("partial", 1)
		}
		m.put("siter", 0)
	case EvLoopExit:
		if !m.has("started") && !ev.Break && ev.Act.Scan != nil && c.spawnLoop(ev.Act) && c.none(tripCount(ev.Act)) {
			if t := m.term("nitems"); t != nil {
				if _, hi := st.rng(linOf(t)); hi > 0 {
					e.Violate(st, ev.Pos, "none", "there may be files but no worker")
				}
			}
		}
		if !c.fillLoop(ev.Act) {
			return
		}
		if ev.Break && m.has("filling") {
			m.put("partial", 1)
		}
		if ev.Act.Scan != nil && m.term("nitems") == nil {
			m.bind("nitems", tripCount(ev.Act).term())
		}
	case EvExt:
		switch ev.Name {
		case "(*sync.WaitGroup).Add":
			if m.has("started") && !m.has("waited") && len(st.loops) == 0 {
				e.Violate(st, ev.Pos, "late", "workers are announced to the wait group after they have been started")
			}
			if a := goAct(st); a != nil && c.spawnLoop(a) {
				if k, ok := constInt(ev.Args[1]); ok && k == 1 {
					m.twice("added")
					return
				}
			}
			m.drop("total")
			m.bind("total", ev.Args[1])
			m.put("hastotal", 1)
		case "(*sync.WaitGroup).Wait":
			if !m.has("started") {
				return
			}
			e.Count("waits")
			c.waited(m, e, st, ev)
		}
	case EvRecv:
		c.mainRecv(m, e, st, ev, true)
	case EvSelect:
		x, _ := ev.Instr.(*ssa.Select)
		if x == nil {
			return
		}
		switch ev.Kind2 {
		case "recv":
			c.mainRecv(m, e, st, ev, x.Blocking && len(x.States) == 1)
		case "default":
			if !m.has("waited") {
				return
			}
			for i, s := range x.States {
				if s.Dir == types.RecvOnly {
					if m.isIntr(e, ev.Args[i]) {
						m.put("checked", 1)
					}
					if isErrorChan(ev.Args[i]) {
						m.put("consulted:"+itoa(ev.Args[i].ID), 1)
					}
				}
			}
		}
	case EvExit:
		if ev.Kind2 != "return" || ev.Err == ErrNonNil || !m.has("started") {
			return
		}
		if m.has("wdone") && !m.has("waited") && !c.drained(m, st) {
			e.Violate(st, ev.Pos, "wait", "the build goes on without waiting for the workers")
			return
		}
		if m.has("goterr") {
			if v, known := st.facts[mkEq(m.term("goterrv"), tNil)]; !known || !v {
				e.Violate(st, ev.Pos, "ignored", "the failure of a worker is ignored")
			}
		}
		if m.has("wintr") && !m.has("checked") {
			e.Violate(st, ev.Pos, "interrupted", "the build goes on although the workers may have stopped because of an interruption")
		}
		if ch := m.term("errch"); ch != nil && !m.has("goterr") && !m.has("consulted:"+itoa(ch.ID)) {
			if !st.linEq(linOf(mk("len", "", types.Typ[types.Int], ch)), Lin{}) {
				e.Violate(st, ev.Pos, "unread", "the build goes on without looking at the failures which the workers have reported")
			}
		}
	}
}

// drained: every report of the workers was received.
func (c *concRun) drained(m *Mon, st *State) bool {
	for _, k := range m.keys("cafter:") {
		ok := m.term(k)
		_ = ok
		if m.has("rng:" + strings.TrimPrefix(k, "cafter:")) {
			return true
		}
	}
	return false
}

func goAct(st *State) *LoopAct {
	if n := len(st.loops); n > 0 {
		return st.loops[n-1]
	}
	return nil
}

func (c *concRun) spawnLoop(a *LoopAct) bool {
	if a == nil || a.L == nil {
		return false
	}
	for b := range a.L.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				return true
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && c.w.inModule(f) && c.starts[f] {
					return true
				}
			}
		}
	}
	return false
}

func (c *concRun) fillLoop(a *LoopAct) bool {
	if a == nil || a.L == nil {
		return false
	}
	for b := range a.L.blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Send); ok {
				t := s.Chan.Type().Underlying().(*types.Chan).Elem()
				if st, ok := t.Underlying().(*types.Struct); !isErrorType(t) && (!ok || st.NumFields() > 0) {
					return true
				}
			}
		}
	}
	return false
}

func tripCount(a *LoopAct) Lin {
	s := a.Scan
	n := s.To.add(s.From, -1)
	if a.L != nil && len(a.L.ivs) > 0 {
		down := true
		for _, step := range a.L.ivs {
			if step > 0 {
				down = false
			}
		}
		if down {
			n = s.From.add(s.To, -1)
		}
	}
	return n.add(Lin{k: 1}, 1)
}

// filled: a file is put on the list of files.
func (c *concRun) filled(m *Mon, e *Engine, st *State, ev *Event) {
	m.put("filling", 1)
	m.put("siter", 1)
	a := goAct(st)
	if a == nil || a.Scan == nil {
		return
	}
	n := tripCount(a)
	v := ev.Val
	if d := ldAddr(v); d != nil && d.Op == "idx" {
		ln := linOf(mk("len", "", types.Typ[types.Int], d.Args[0]))
		if st.indexCover(d.Args[1], ln, a.Scan) == "part" {
			m.put("partial", 1)
		}
		n = ln
	}
	if k, ok := chanCap(ev.Addr); ok {
		if lo, _ := st.rng(k.add(n, -1)); lo < 0 && !m.has("started") {
			e.Violate(st, ev.Pos, "hang", "the list of files may have no room for all of them")
		}
		m.bind("itemcap", ev.Addr.Args[0])
	}
	m.drop("nitems")
	m.bind("nitems", n.term())
}

// workerCount is the number of workers which the loop starts.
func (c *concRun) workerCount(st *State) (n Lin, known bool) {
	for i := len(st.loops) - 1; i >= 0; i-- {
		a := st.loops[i]
		if a.L == nil || !c.spawnLoop(a) {
			continue
		}
		if a.Scan == nil {
			return Lin{}, false
		}
		return tripCount(a), true
	}
	return Lin{k: 1}, true
}

func (c *concRun) spawned(m *Mon, e *Engine, st *State, ev *Event) {
	n, known := c.workerCount(st)
	single := known && n.isConst() && n.k == 1
	isWorker := false
	for _, o := range ev.Outs {
		b := bagOf(o.st)
		if !b.has("worker") {
			continue
		}
		if b.has("waited") { // a goroutine which waits for the workers
			for _, k := range b.keys("closedafter:") {
				m.bind("cafter:"+strings.TrimPrefix(k, "closedafter:"), b.term(k))
			}
			continue
		}
		isWorker = true
		if o.kind == okExit {
			continue
		}
		if o.kind == okPanic {
			continue // reported where it happens
		}
		end := &Event{Pos: ev.Instr.Pos()}
		c.settle(b, e, o.st, end)
		c.unreported(b, e, o.st, end)
		if b.has("items") || b.has("dflt") {
			if !b.has("end") {
				e.Violate(o.st, end.Pos, "early", "a worker may end although files are left")
			}
		}
		if b.has("ownonce") && len(b.keys("closed:")) > 0 {
			e.Violate(o.st, end.Pos, "closed", "each worker has its own sync.Once, so that a channel may be closed twice")
		}
		switch b.get("done") {
		case 1:
			m.put("wdone", 1)
		case 2:
			e.Violate(o.st, end.Pos, "count", "a worker tells the wait group more than once that it has ended")
		case 0:
			m.put("wnodone", 1)
		}
		if b.has("race") && !single {
			e.Violate(o.st, c.raceAt[b.term("raceat")], "shared", "workers write to a variable which they share without holding a lock: %s", b.term("raceat"))
		}
		for _, k := range b.keys("closeonce:") {
			if b.has(k) && !single {
				e.Violate(o.st, end.Pos, "closed", "several workers may close the same channel, which ends the process")
			}
		}
		for _, k := range b.keys("closed:") {
			id := strings.TrimPrefix(k, "closed:")
			m.put("wclose:"+id, 1)
			if !b.has("reported") && !b.has("unrep") {
				e.Violate(o.st, end.Pos, "stopped", "a worker may stop the others without reporting a failure")
			}
		}
		for _, k := range b.keys("ch:") {
			ch := b.term(k)
			id := strings.TrimPrefix(k, "ch:")
			m.put("wsend:"+id, 1)
			if isErrorChan(ch) {
				m.bind("errch", ch)
			}
			room, ok := chanCap(ch)
			if !ok {
				continue
			}
			lo, _ := st.rng(room)
			if (b.has("nb:"+id) || b.has("osend:"+id)) && lo < 1 && !c.positive(st, room) {
				e.Violate(o.st, end.Pos, "lost", "the report of a failure may get lost: the channel may have no room for it")
			}
			if b.has("send:" + id) {
				fits := false
				if known && b.get("send:"+id) == 1 {
					d, _ := st.rng(room.add(n, -1))
					fits = d >= 0
				}
				if t := m.term("nitems"); !fits && t != nil && !b.has("imany:"+id) {
					d, _ := st.rng(room.add(linOf(t), -1))
					fits = d >= 0
				}
				if !fits && known {
					e.Violate(o.st, end.Pos, "hang", "a worker may block for ever: the channel may have no room for the reports of all workers")
				}
			}
		}
		for _, k := range b.keys("needclose:") {
			m.bind(k, b.term(k))
		}
		if b.has("intr") {
			m.put("wintr", 1)
		}
		if b.has("dflt") {
			m.put("wdflt", 1)
		}
		if b.has("errch") {
			m.bind("errch", b.term("errch"))
		}
	}
	if !isWorker {
		return
	}
	e.Count("workers")
	if m.has("wdone") && m.has("wnodone") {
		e.Violate(st, ev.Pos, "count", "a worker may end without telling the wait group")
	}
	if m.has("partial") {
		e.Violate(st, ev.Pos, "partial", "the list of files which the workers take from may be incomplete")
	}
	if m.has("wdflt") && !m.has("filling") {
		e.Violate(st, ev.Pos, "partial", "workers end when the list of files is empty, but it has not been filled when they start")
	}
	if m.has("wdone") && known {
		switch {
		case m.get("added") == 1:
			m.put("added", 0)
		case m.get("added") > 1:
			e.Violate(st, ev.Pos, "count", "the wait group is told about more workers than are started")
		case m.has("hastotal"):
			t := linOf(m.term("total"))
			if !st.linEq(t, n) {
				e.Violate(st, ev.Pos, "count", "the wait group is not told about as many workers as are started")
			}
		default:
			e.Violate(st, ev.Pos, "count", "the wait group is not told about the worker before it is started")
		}
	}
	m.put("started", 1)
}

// positive: the number is at least 1 because there is at least one processor.
func (c *concRun) positive(st *State, l Lin) bool {
	k := l.k
	for t, n := range l.c {
		if !atLeastOne(t) || n < 0 {
			return false
		}
		k += n
	}
	return k >= 1
}

func atLeastOne(t *Term) bool {
	return (isRes(t, "runtime.NumCPU") || isRes(t, "runtime.GOMAXPROCS") || t.Op == "call" && (t.Aux == "runtime.NumCPU" || t.Aux == "runtime.GOMAXPROCS"))
}

// none: the number is 0 for some small numbers of files and processors.
func (c *concRun) none(n Lin) bool {
	for files := int64(1); files <= 4; files++ {
		for cpus := int64(1); cpus <= 2; cpus++ {
			if v, ok := evalLin(n, files, cpus); ok && v <= 0 {
				return true
			}
		}
	}
	return false
}

func evalLin(l Lin, files, cpus int64) (int64, bool) {
	r := l.k
	for t, k := range l.c {
		v, ok := evalTerm(t, files, cpus)
		if !ok {
			return 0, false
		}
		r += k * v
	}
	return r, true
}

func evalTerm(t *Term, files, cpus int64) (int64, bool) {
	switch {
	case atLeastOne(t):
		return cpus, true
	case t.Op == "len":
		return files, true
	case strings.HasPrefix(t.Op, "bin") && len(t.Args) == 2:
		a, ok := evalLin(linOf(t.Args[0]), files, cpus)
		b, ok2 := evalLin(linOf(t.Args[1]), files, cpus)
		if !ok || !ok2 {
			return 0, false
		}
		switch t.Aux {
		case "/":
			if b != 0 {
				return a / b, true
			}
		case "%":
			if b != 0 {
				return a % b, true
			}
		case "*":
			return a * b, true
		case ">>":
			return a >> uint(b&63), true
		}
	}
	return 0, false
}

func (c *concRun) waited(m *Mon, e *Engine, st *State, ev *Event) {
	m.put("waited", 1)
	for _, k := range m.keys("needclose:") {
		if !m.has("mclosed:" + strings.TrimPrefix(k, "needclose:")) {
			e.Violate(st, ev.Pos, "hang", "a worker may wait for ever: the channel it receives from is not closed")
		}
	}
	if m.has("wnodone") {
		e.Violate(st, ev.Pos, "hang", "a worker may end without telling the wait group")
	}
}

func (c *concRun) mainRecv(m *Mon, e *Engine, st *State, ev *Event, blocking bool) {
	if !m.has("started") || ev.Addr == nil {
		return
	}
	id := itoa(ev.Addr.ID)
	if m.term("cafter:"+id) != nil {
		e.Count("waits")
		m.put("rng:"+id, 1)
		m.put("consulted:"+id, 1)
		m.put("waited", 1)
		return
	}
	if !isErrorChan(ev.Addr) || !m.has("waited") {
		return
	}
	if blocking && m.has("mclosed:"+id) {
		m.put("consulted:"+id, 1)
		if x, ok := ev.Instr.(*ssa.UnOp); ok && x.CommaOk {
			return // the last one tells that there are no more
		}
	}
	if blocking && !m.has("mclosed:"+id) {
		if lo, _ := st.rng(linOf(mk("len", "", types.Typ[types.Int], ev.Addr))); lo < 1 {
			e.Violate(st, ev.Pos, "hang", "the build waits for ever for a report if no step has failed")
		}
	}
	m.put("goterr", 1)
	v := ev.Val
	if ev.Kind == EvSelect {
		x := ev.Instr.(*ssa.Select)
		for i, s := range x.States {
			if s.Dir == types.RecvOnly && ev.Args[i] == ev.Addr {
				v = mkSite("recv", "sel"+itoa(i), s.Chan.Type().Underlying().(*types.Chan).Elem(), x, ev.Ctx, ev.Addr)
			}
		}
	}
	if v != nil {
		m.bind("goterrv", v)
	}
}
