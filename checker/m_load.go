package main

import (
	"go/types"
	"strings"
)

func init() {
	register(&Prop{
		ID:    "C16",
		Rule:  "provenance on every path: the description of a file records the result of crypto/sha1 applied to exactly the value of one read of that file, and keeps that very value; what is written to the file which is opened as a plugin is the content kept in the description (or read) from which the digest recorded for the plugin was computed; the digest of a plugin that has joined and the description of a file are never changed; a plugin is reused only if it is not reloadable or the recorded digests are known to be equal, and not opened again in that case; the name of the opened file depends on the digest",
		Runs:  swapperRuns(mon(monC16), nil),
		Floor: map[string]int{"opened files": 2, "digests recorded": 2, "file descriptions": 1},
	})
	register(&Prop{
		ID:    "C17",
		Rule:  "on every path: plugin.Open is given exactly the path to which a file has just been renamed that this call created with a unique name and wrote the content to; the directory part of that path depends on the process id (or is a fresh directory); nothing else is opened for writing, created, truncated or written in place by a load",
		Runs:  swapperRuns(mon(monC17), nil),
		Floor: map[string]int{"opened files": 2, "writes": 2},
	})
	register(&Prop{
		ID:    "C15",
		Rule:  "on every path to OnInit, a reload callback or the publication: a loop over all plugins of the new manager has called HotswapLiveFuncs (HotswapLiveTypes) of each and a loop over the whole result has put every entry under its own name into the map which the vault holds; each such entry is put there only if the path knows that the name is not in the map; nothing else is put into or deleted from these maps",
		Runs:  swapperRuns(mon(monC15), nil),
		Floor: map[string]int{"entries": 4, "complete maps": 4},
	})
	register(&Prop{
		ID:    "C25",
		Rule:  "on every path of a load which ends successfully with a new manager the result is a map of its own to which a loop over all considered files or plugins has added an entry for each, whose value is the note of that plugin if the path knows it not to be empty and \"ok\" if it knows it to be empty or the plugin to be new; the note of a plugin which joins is a constant that tells the reason for which it is carried over, and empty or \"ok\" for a new plugin; a failing load returns a nil result",
		Runs:  swapperRuns(mon(monC25), nil),
		Floor: map[string]int{"entries": 3, "failing exits": 10, "notes": 4},
	})
	register(&Prop{
		ID:   "C14",
		Rule: "qualifier analysis on every path of the loads and of FindPlugin: every key with which a map of plugins or of file descriptions is accessed is a name converted by one and the same case conversion, a key enumerated from such a map, or an element of a list of such keys; before the first plugin function is invoked, a loop over all considered files (or static plugins) has established that these keys are distinct, by counting or by testing for presence, and every path on which they are not ends in an error",
		Runs: append(swapperRuns(mon(monC14), func(w *World, c *RunCfg) {
			p := c.Pure
			c.Pure = func(fn *ssaFunction) bool { return fn.Name() != "name2key" && p(fn) }
		}), methodRun("PluginManager", "FindPlugin", mon(monC14), func(w *World, c *RunCfg) {
			c.Pure = func(fn *ssaFunction) bool { return false }
		})),
		Floor: map[string]int{"keys": 10, "uniqueness established": 2, "FindPlugin": 1},
		Post:  postC14,
	})
}

// only runs f with all rules silenced except for the given ones.
func (e *Engine) onlyRules(rules []string, f func()) {
	old := e.only
	e.only = rules
	f()
	e.only = old
}

// ---- C16, C17 ----

func isTempFile(n string) bool {
	return n == "io/ioutil.TempFile" || n == "os.CreateTemp"
}

func isTempDir(n string) bool { return n == "io/ioutil.TempDir" || n == "os.MkdirTemp" }

func resName(t *Term) string {
	if t.Op != "res" {
		return ""
	}
	n, _ := t.Obj.(string)
	if n == "" {
		n = t.Aux
	}
	if i := strings.Index(n, "#"); i > 0 {
		n = n[:i]
	}
	return n
}

// tempFileIn finds the temporary file a term is about.
func tempFileIn(t *Term) *Term {
	var r *Term
	visit(t, func(x *Term) bool {
		if isTempFile(resName(x)) {
			r = x
		}
		return r == nil
	})
	return r
}

// tmpFileOf is tempFileIn for a file name: the result of Name() of the file itself.
func tmpFileOf(t *Term) *Term {
	if resName(t) == "(*os.File).Name" && len(t.Args) > 0 && isTempFile(resName(t.Args[0])) {
		return t.Args[0]
	}
	return nil
}

// content tracks what has been written where: "wr" the file and "wd" the data, "dst" the path it was renamed to.
func (m *Mon) content(e *Engine, st *State, ev *Event) {
	if ev.Kind != EvExtRet || ev.Err == ErrNonNil {
		return
	}
	switch n := ev.Name; {
	case isTempFile(n):
		if len(ev.Res) > 0 {
			m.bind("wr", ev.Res[0])
			m.bind("wd", nil)
			m.put("moved:"+itoa(ev.Res[0].ID), 0)
		}
	case (n == "(*os.File).Write" || n == "(*os.File).WriteString") && len(ev.Args) == 2:
		if ev.Args[0] == m.term("wr") {
			if m.term("wd") != nil {
				m.put("mixed", 1)
			}
			m.bind("wd", ev.Args[1])
		}
	case (n == "os.WriteFile" || n == "io/ioutil.WriteFile") && len(ev.Args) >= 2:
		if f := tmpFileOf(ev.Args[0]); f != nil && f == m.term("wr") {
			if m.term("wd") != nil {
				m.put("mixed", 1)
			}
			m.bind("wd", ev.Args[1])
		} else {
			m.bind("dst", ev.Args[0])
			m.bind("data", ev.Args[1])
		}
	case n == "os.Rename" && len(ev.Args) == 2:
		m.bind("dst", ev.Args[1])
		m.bind("data", nil)
		if f := tmpFileOf(ev.Args[0]); f != nil && f == m.term("wr") {
			if !m.has("mixed") {
				m.bind("data", m.term("wd"))
			}
			m.put("fresh", 1)
		} else {
			if ev.Args[0] == m.term("dst") {
				m.bind("data", m.term("data"))
			}
			m.put("fresh", 0)
		}
		m.bind("wr", nil)
		m.bind("wd", nil)
		m.put("mixed", 0)
	}
}

// wholeBytes strips conversions which keep all bytes.
func wholeBytes(t *Term) *Term {
	for t != nil {
		switch {
		case t.Op == "slice" && (t.Args[1].Op == "nil" || isZero(t.Args[1])) && t.Args[2].Op == "nil":
			t = t.Args[0]
		case t.Op == "conv":
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}

// contentOf names the content a digest or a byte string stands for: a file description or the bytes themselves.
func (e *Engine) contentOf(t *Term, digest bool) *Term {
	t = wholeBytes(t)
	if t == nil {
		return nil
	}
	var o *Term
	if a := ldAddr(t); a != nil && a.Op == "fld" {
		o = a.Args[0]
	} else if t.Op == "fv" {
		o = ldAddr(t.Args[0])
	}
	if o != nil && e.w.isInfo(o.Typ) {
		return o
	}
	if digest {
		if t.Op == "call" && t.Aux == "crypto/sha1.Sum" {
			return wholeBytes(t.Args[0])
		}
		return nil
	}
	return t
}

// infoFields are the names of the fields of a file description which hold content, digest and path.
func (w *World) infoFields(t types.Type) (data, sha string) {
	n := namedPtr(t)
	if n == nil {
		return
	}
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Byte]) {
			data = s.Field(i).Name()
		}
	}
	for _, f := range w.shaFields(n) {
		sha = f
	}
	return
}

func isReadFile(t *Term) bool {
	n := resName(t)
	return n == "os.ReadFile" || n == "io/ioutil.ReadFile"
}

func monC16(m *Mon, e *Engine, st *State, ev *Event) {
	e.onlyRules([]string{"content-unchanged", "no-reason", "digest", "incomplete-copy", "unclear"}, func() { monC04(m, e, st, ev) })
	if e.inGo > 0 {
		return
	}
	m.content(e, st, ev)
	M := m.term("M")
	switch ev.Kind {
	case EvExt:
		if ev.Name != "plugin.Open" || len(ev.Args) == 0 {
			return
		}
		p := ev.Args[0]
		if p != m.term("dst") || m.term("data") == nil {
			e.Violate(st, ev.Pos, "content", "a file is opened as a plugin whose content is not known to be what the digest was computed from")
			return
		}
		m.bind("opened", e.contentOf(m.term("data"), false))
		if m.term("opened") == nil {
			e.Violate(st, ev.Pos, "content", "a file is opened as a plugin whose content is unknown")
			return
		}
		dep := false
		visit(p, func(x *Term) bool {
			if x.Op == "call" && x.Aux == "crypto/sha1.Sum" || isTempDir(resName(x)) || isTempFile(resName(x)) {
				dep = true
			}
			if x.Op == "fld" && e.w.isInfo(x.Args[0].Typ) {
				if _, sha := e.w.infoFields(x.Args[0].Typ); x.Aux == sha {
					dep = true
				}
			}
			return !dep
		})
		if !dep {
			e.Violate(st, ev.Pos, "name", "the name of the file which is opened does not depend on its content, so the process may be given a version which it has already opened")
		}
	case EvMapUpdate:
		if mg, p := e.joins(st, ev); mg != nil && mg == M {
			if r, k := e.reused(st, p); !k || r || p.Op != "new" || e.fromStatic(st, p) {
				return
			}
			e.Count("digests recorded")
			d := e.fieldVal(st, p, "FileSha1")
			var c *Term
			if d != nil {
				c = e.contentOf(d, true)
			}
			if c == nil || c != m.term("opened") {
				e.Violate(st, ev.Pos, "other-content", "the digest recorded for a new plugin is not that of the content which was opened")
			}
			return
		}
		t, ok := typOr(ev.Addr.Typ).Underlying().(*types.Map)
		if !ok || !e.w.isInfo(t.Elem()) || ev.Val.Op != "new" {
			return
		}
		e.Count("file descriptions")
		df, sf := e.w.infoFields(ev.Val.Typ)
		if df == "" {
			return
		}
		data, sha := e.fieldVal(st, ev.Val, df), e.fieldVal(st, ev.Val, sf)
		if data == nil || sha == nil || wholeBytes(data) == nil || !isReadFile(wholeBytes(data)) || e.contentOf(sha, true) != wholeBytes(data) {
			e.Violate(st, ev.Pos, "two-reads", "the digest of a file is not computed from the same read as the content which is kept")
		}
	case EvStore:
		a := ev.Addr
		if a.Op == "idx" {
			a = a.Args[0]
		}
		if a.Op != "fld" {
			return
		}
		if o := a.Args[0]; e.w.isInfo(o.Typ) && o.Op != "new" {
			e.Violate(st, ev.Pos, "description-changed", "the description of a file is changed after it has been made")
		} else if namedPtr(o.Typ) == e.w.pluginT && a.Aux == "FileSha1" && o.Op != "new" {
			e.Violate(st, ev.Pos, "digest-changed", "the digest of a plugin which has joined a manager is changed")
		}
	}
}

func monC17(m *Mon, e *Engine, st *State, ev *Event) {
	m.swapState(e, st, ev)
	m.content(e, st, ev)
	if ev.Kind != EvExt {
		return
	}
	fresh := func(p *Term) bool {
		return mentionsAny(p, func(x *Term) bool { return isTempDir(resName(x)) || isTempFile(resName(x)) && false }) || tmpFileOf(p) != nil
	}
	bad := ""
	switch n := ev.Name; n {
	case "os.WriteFile", "io/ioutil.WriteFile", "os.Create", "os.Truncate", "os.Link", "os.Symlink":
		e.Count("writes")
		p := ev.Args[0]
		if strings.HasSuffix(n, "link") || strings.HasSuffix(n, "Link") {
			bad = shortName(n) + " makes an alias of a file"
		} else if !fresh(p) {
			bad = shortName(n) + " writes to a file in place"
		}
	case "os.OpenFile":
		e.Count("writes")
		if fl, ok := ev.Args[1].intVal(); !ok || fl&3 != 0 && fl&0x80 == 0 {
			bad = "os.OpenFile opens a file, which may exist, for writing"
		}
	case "(*os.File).Write", "(*os.File).WriteString", "(*os.File).WriteAt", "(*os.File).Truncate", "io.Copy", "io.WriteString":
		e.Count("writes")
		if f := ev.Args[0]; !isTempFile(resName(f)) && resName(f) != "os.OpenFile" && resName(f) != "os.Create" {
			bad = shortName(n) + " writes to a file which was not created for it"
		}
		if m.has("moved:" + itoa(ev.Args[0].ID)) {
			bad = shortName(n) + " writes to a file after it has been put in place"
		}
	case "os.Rename":
		if f := tmpFileOf(ev.Args[0]); f != nil {
			m.drop("moved:")
			m.put("moved:"+itoa(f.ID), 1)
		} else if !fresh(ev.Args[0]) {
			bad = "os.Rename moves a file which was not created by this load"
		}
	case "plugin.Open":
		e.Count("opened files")
		p := ev.Args[0]
		if p != m.term("dst") || !m.has("fresh") && !fresh(p) {
			e.Violate(st, ev.Pos, "not-a-copy", "plugin.Open is given a path other than that of the copy which was just made")
			return
		}
		dir := p
		if p.Op == "call" && strings.HasSuffix(p.Aux, "filepath.Join") && len(p.Args) > 1 {
			dir = mk("tuple", "", nil, p.Args[:len(p.Args)-1]...)
		}
		if !mentionsAny(dir, func(x *Term) bool { return resName(x) == "os.Getpid" || isTempDir(resName(x)) }) {
			e.Violate(st, ev.Pos, "not-private", "the directory of the copy which is opened does not depend on the process, so another process may replace the copy")
		}
	}
	if bad != "" {
		e.Violate(st, ev.Pos, "in-place", "%s", bad)
	}
}

// ---- C15 ----

var vaultTopic = map[string]string{"hotswapLiveFuncs": "vlf", "hotswapLiveTypes": "vlt"}
var vaultTitle = map[string]string{"vlf": "live functions", "vlt": "live types"}
var vaultMapOf = map[string]string{"vlf": "LiveFuncs", "vlt": "LiveTypes"}
var vaultTopics = []string{"vlf", "vlt"}

// liveResult says of which kind a map returned by a plugin is.
func liveResult(t *Term) string {
	if t == nil || t.Op != "res" {
		return ""
	}
	for h, k := range vaultTopic {
		if strings.Contains(t.Aux, "hook:"+h) {
			return k
		}
	}
	return ""
}

func monC15(m *Mon, e *Engine, st *State, ev *Event) {
	m.commonLoad(e, ev)
	if e.inGo > 0 {
		return
	}
	M := m.term("M")
	whole := func(el *Elem) bool { return el.Mgr == M && el.Full && len(el.Part) == 0 }
	switch ev.Kind {
	case EvStore:
		if M != nil && ev.Addr.Op == "fld" && ev.Addr.Aux == "ordered" && ev.Addr.Args[0] == M {
			m.put("ordset", 1)
		}
	case EvHookRet:
		if t := vaultTopic[ev.Hook]; t != "" && len(ev.Res) == 1 {
			m.bind("own:"+t, ev.Owner)
			m.bind("res:"+t, ev.Res[0])
		}
	case EvHook:
		if ev.Hook == "fOnInit" {
			m.vaultDone(e, st, ev)
			m.put("handed", 1)
		}
	case EvUser:
		if isReloadCallback(e.w, ev.Callee) {
			m.vaultDone(e, st, ev)
		}
	case EvMapUpdate:
		if mg, _ := e.joins(st, ev); mg != nil && mg == M {
			m.put("joined", 1)
			m.put("empty", 0)
		}
		// an entry of a plugin's result?
		n := len(st.loops)
		top := ""
		var s *Scan
		if n > 0 {
			s = st.loops[n-1].Scan
			if s != nil && s.Kind == "map" {
				top = liveResult(s.Cont)
			}
		}
		dst := ev.Addr
		if top == "" || dst == nil {
			if m.isVaultMap(e, st, dst) {
				e.Violate(st, ev.Pos, "foreign-entry", "something else than an entry of a plugin's map is put into the vault")
			}
			return
		}
		if dst.Op == "new" && typOr(dst.Typ).String() != typOr(s.Cont.Typ).String() && !m.isVaultMap(e, st, dst) {
			return // a map kept for other purposes
		}
		if !types.Identical(typOr(dst.Typ).Underlying(), typOr(s.Cont.Typ).Underlying()) {
			return
		}
		e.Count("entries")
		a := ldAddr(ev.Val)
		if ev.Key != s.IV || a == nil || a.Op != "mapel" || a.Args[0] != s.Cont || a.Args[1] != s.IV {
			e.Violate(st, ev.Pos, "other-name", "an entry of a plugin's map is put into the vault under another name or with another value")
		}
		absent := ev.OldOk == tFalse
		if !absent {
			e.Violate(st, ev.Pos, "shadowed", "an entry is put into the vault without it being known that the name is not taken")
		}
		if d := m.term("dst:" + top); d != nil && d != dst {
			e.Violate(st, ev.Pos, "two-maps", "the %s are put into different maps", vaultTitle[top])
		}
		m.bind("dst:"+top, dst)
		m.put("got:"+st.loops[n-1].key0(), 1)
	case EvDelete:
		if m.isVaultMap(e, st, ev.Addr) {
			e.Violate(st, ev.Pos, "deleted", "an entry is deleted from the vault")
		}
	case EvIterEnd:
		k := ev.Act.key0()
		if s := ev.Act.Scan; s != nil && s.Kind == "map" && liveResult(s.Cont) != "" {
			if !m.has("got:" + k) {
				m.put("lost:"+k, 1)
			}
			m.put("got:"+k, 0)
			return
		}
		// a plugin whose map is nil has nothing to contribute
		for _, t := range vaultTopics {
			if o := m.term("own:" + t); o != nil {
				if el := e.elemOf(st, o); el != nil && el.Act.same(ev.Act) && !m.has("it:"+t+":"+k) {
					if z, kn := st.isNil(m.term("res:" + t)); kn && z {
						m.touch(e, st, t, o, whole)
					}
				}
			}
		}
		m.iterEnd(e, st, ev, vaultTopics, nil, whole)
	case EvLoopExit:
		k := ev.Act.key0()
		if s := ev.Act.Scan; s != nil && s.Kind == "map" {
			if t := liveResult(s.Cont); t != "" {
				if !ev.Break && s.Full && !m.has("lost:"+k) && s.Cont == m.term("res:"+t) {
					m.touch(e, st, t, m.term("own:"+t), whole)
				}
				m.put("lost:"+k, 0)
				m.put("got:"+k, 0)
				return
			}
		}
		for t, v := range m.loopExit(ev, vaultTopics) {
			if v == covFull {
				e.Count("complete maps")
				m.put("done:"+t, 1)
			}
		}
		for _, c := range e.zeroTripOf(ev) {
			if M == nil {
				break
			}
			if mg := e.fieldHolding(st, c, "pluginMap"); mg == M {
				if m.has("joined") {
					st.dead = true
				}
				m.put("empty", 1)
			} else if le := e.listElems(st, c, 0); le != nil && le.Mgr == M && le.List == "ordered" && m.has("ordset") && m.has("joined") {
				st.dead = true
			}
		}
	}
	if e.published(st, ev) != nil {
		m.vaultDone(e, st, ev)
	}
}

// isVaultMap says whether the map is the live function or live type map of the new manager.
func (m *Mon) isVaultMap(e *Engine, st *State, c *Term) bool {
	M := m.term("M")
	if M == nil || c == nil || m.has("handed") {
		return false
	}
	for _, f := range vaultMaps[:2] {
		if e.fieldVal(st, M, f) == c {
			return true
		}
	}
	return false
}

func (m *Mon) vaultDone(e *Engine, st *State, ev *Event) {
	M := m.term("M")
	if M == nil || m.mgrEmpty(e, st) {
		return
	}
	for _, t := range vaultTopics {
		if !m.has("done:" + t) {
			e.Violate(st, ev.Pos, "incomplete", "the vault is handed out before it holds the %s of all plugins of the manager", vaultTitle[t])
		} else if d := m.term("dst:" + t); d != nil && !m.has("handed") && e.fieldVal(st, M, vaultMapOf[t]) != d {
			e.Violate(st, ev.Pos, "other-map", "the %s were not put into the map which the vault holds", vaultTitle[t])
		}
	}
}

// ---- C25 ----

// contOf finds the container of which t (or a part of it) is the current element in the innermost loop that
// enumerates one.
func (e *Engine) contOf(st *State, t *Term) (cont *Term, act *LoopAct, full bool) {
	best := -1
	try := func(c *Term, iv *Term, f func(a *LoopAct) bool) {
		for i := len(st.loops) - 1; i > best; i-- {
			if s := st.loops[i].Scan; s != nil && s.IV == iv {
				best, cont, act, full = i, c, st.loops[i], f(st.loops[i])
			}
		}
	}
	visit(t, func(x *Term) bool {
		if x.Op == "rkey" {
			for i := len(st.loops) - 1; i >= 0; i-- {
				if s := st.loops[i].Scan; s != nil && s.IV == x {
					try(s.Cont, x, func(a *LoopAct) bool { return a.Scan.Full })
				}
			}
		}
		if a := ldAddr(x); a != nil && a.Op == "idx" {
			if iv, _ := ivIn(linOf(a.Args[1])); iv != nil {
				try(e.normList(st, a.Args[0]), iv, func(act *LoopAct) bool {
					n := e.lenOf(st, a.Args[0], nil, nil)
					if n == nil {
						return false
					}
					c := st.indexCover(a.Args[1], linOf(n), act.Scan)
					return c == "asc" || c == "desc"
				})
			}
		}
		return true
	})
	return
}

// reason says why the plugins of a selection may be carried over: bit 0 cleared: all not reloadable; bit 1
// cleared: all unchanged.
func (m *Mon) reasonOf(e *Engine, st *State, x *Term) (n, u bool) {
	if v, k := e.boolField(st, x, "reloadable"); k && !v {
		n = true
	}
	if v, k := e.sameDigest(st, x); k && v {
		u = true
	}
	return
}

func (m *Mon) selReason(e *Engine, st *State, x *Term, coll string) {
	var n, u bool
	if namedPtr(x.Typ) == e.w.pluginT {
		if m.oldPlugin(e, st, x) == nil {
			return
		}
		n, u = m.reasonOf(e, st, x)
	} else {
		if len(st.loops) == 0 {
			return
		}
		if c, k := e.infoKey(st, st.loops[len(st.loops)-1]); c == nil || k != x {
			return
		}
		for _, p := range m.oldsFor(e, st, x) {
			n2, u2 := m.reasonOf(e, st, p)
			n, u = n || n2, u || u2
		}
	}
	if !n {
		m.put("notN:"+coll, 1)
	}
	if !u {
		m.put("notU:"+coll, 1)
	}
}

func monC25(m *Mon, e *Engine, st *State, ev *Event) {
	m.swapState(e, st, ev)
	M := m.term("M")
	if e.inGo > 0 {
		return
	}
	whole := func(el *Elem) bool { return el.Mgr == M && el.Full && len(el.Part) == 0 }
	switch ev.Kind {
	case EvStore:
		if M != nil && ev.Addr.Op == "fld" && ev.Addr.Aux == "ordered" && ev.Addr.Args[0] == M && ev.Val.Op != "nil" {
			m.put("ordset", 1)
		}
	case EvExt:
		if isReadFileName(ev.Name) {
			if c, _, full := e.contOf(st, ev.Args[0]); c != nil && full {
				m.bind("files", c)
			}
		}
	case EvMapUpdate:
		if mg, p := e.joins(st, ev); mg != nil && mg == M {
			m.noteAtJoin(e, st, ev, p)
			if r, k := e.reused(st, p); k && !r && e.fromStatic(st, p) {
				m.put("staticjoin", 1)
				if n := fromObj(e.fieldVal(st, p, "Name"), "Name"); n != nil {
					if a := ldAddr(n); a != nil && a.Op == "mapel" && e.isStaticMap(a.Args[0]) {
						m.bind("scont", a.Args[0])
					}
				}
			}
			return
		}
		t, ok := typOr(ev.Addr.Typ).Underlying().(*types.Map)
		if !ok {
			return
		}
		if e.w.isInfo(t.Elem()) {
			if a := ldAddr(ev.Val); a == nil || a.Op != "mapel" {
				m.bind("C", ev.Addr)
				return
			}
		}
		if isStringType(t.Key()) && !isStringType(t.Elem()) {
			m.selReason(e, st, ev.Key, "m"+itoa(ev.Addr.ID))
		}
		if isStringType(t.Key()) && isStringType(t.Elem()) && M != nil {
			if nilDeref(ev.Key) || nilDeref(ev.Val) {
				st.dead = true // a path which has panicked
				return
			}
			m.entry(e, st, ev, whole)
		}
	case EvAppend:
		for _, x := range ev.Args[1:] {
			if isStringType(typOr(x.Typ)) || namedPtr(x.Typ) == e.w.pluginT {
				if n := len(st.loops); n > 0 {
					m.selReason(e, st, x, st.loops[n-1].key0())
				}
			}
		}
	case EvIterEnd:
		k := ev.Act.key0()
		for _, r := range m.keys("ent:") {
			p := strings.SplitN(r, ":", 3)
			if p[2] != k {
				continue
			}
			if m.get(r) == 2 {
				m.put(r, 1)
			} else {
				m.put("miss:"+p[1]+":"+k, 1)
			}
		}
	case EvLoopExit:
		k := ev.Act.key0()
		for _, r := range m.keys("ent:") {
			p := strings.SplitN(r, ":", 3)
			if p[2] != k {
				continue
			}
			if !ev.Break && !m.has("miss:"+p[1]+":"+k) && !m.has("part:"+p[1]+":"+k) {
				m.put("fullres:"+p[1], 1)
			}
			m.put(r, 0)
			m.put("miss:"+p[1]+":"+k, 0)
			m.put("part:"+p[1]+":"+k, 0)
		}
		if M != nil && m.has("joined") && m.has("ordset") {
			// C05 decides that the ordered list holds every plugin
			o := e.fieldVal(st, M, "ordered")
			if e.zeroTripOver(st, ev, o) || st.isTrue(mkEq(e.lenOf(st, o, nil, nil), mkInt(0))) {
				st.dead = true
			}
		}
		for _, c := range e.zeroTripOf(ev) {
			if M == nil {
				break
			}
			if c == m.term("files") {
				st.dead = true
			}
			if m.has("joined") && (e.fieldHolding(st, c, "pluginMap") == M) {
				st.dead = true
			}
			if t, ok := typOr(c.Typ).Underlying().(*types.Map); ok && namedPtr(t.Elem()) == e.w.staticPluginT {
				if m.has("staticjoin") && c == m.term("scont") {
					st.dead = true
				}
				m.put("nostatic", 1)
			}
		}
	case EvExit:
		if ev.Kind2 == "panic" || len(ev.Results) == 0 {
			return
		}
		r := ev.Results[0]
		if e.isFailExit(ev) {
			e.Count("failing exits")
			if n, k := st.isNil(r); !(k && n) && !e.emptyMap(st, r) {
				e.Violate(st, ev.Pos, "result-on-failure", "%s fails but returns entries", ev.Fn.Name())
			}
			return
		}
		if M == nil {
			return
		}
		if r.Op != "new" || m.has("pubres") {
			e.Violate(st, ev.Pos, "no-result", "%s succeeds without returning a result of its own", ev.Fn.Name())
			return
		}
		if m.has("joined") && !m.has("fullres:"+itoa(r.ID)) && !(m.has("nostatic") && !m.has("staticjoin")) {
			e.Violate(st, ev.Pos, "incomplete", "%s succeeds but its result may lack an entry for a plugin", ev.Fn.Name())
		}
	}
}

// nilDeref says whether computing t dereferences nil.
func nilDeref(t *Term) bool {
	return mentionsAny(t, func(x *Term) bool {
		a := ldAddr(x)
		return a != nil && (a.Op == "nil" || a.Op == "fld" && a.Args[0].Op == "nil")
	})
}

func isReadFileName(n string) bool { return n == "os.ReadFile" || n == "io/ioutil.ReadFile" }

func (e *Engine) emptyMap(st *State, r *Term) bool {
	return r.Op == "new" && st.heap[mk("mapempty", "", nil, r)] != nil
}

// entry: an entry of a map of strings is made after the load.
func (m *Mon) entry(e *Engine, st *State, ev *Event, whole func(*Elem) bool) {
	M := m.term("M")
	// which plugin of the new manager is meant
	var p *Term
	isP := func(t *Term) bool { return namedPtr(t.Typ) == e.w.pluginT && t.Op == "ld" }
	find := func(t *Term) {
		visit(t, func(x *Term) bool {
			if p == nil && isP(x) {
				if a := ldAddr(x); a.Op == "mapel" && e.fieldHolding(st, a.Args[0], "pluginMap") == M {
					p = x
				} else if el := e.elemOf(st, x); el != nil && el.Mgr == M {
					p = x
				}
			}
			return p == nil
		})
	}
	find(ev.Key)
	find(ev.Val)
	kc, act, full := e.contOf(st, ev.Key)
	if act == nil && p != nil {
		kc, act, full = e.contOf(st, p)
	}
	if act == nil {
		return
	}
	id := itoa(ev.Addr.ID)
	k := act.key0()
	e.Count("entries")
	m.put("ent:"+id+":"+k, 2)
	ok := full && (kc == m.term("files") || e.isStaticMap(kc))
	if p != nil && !ok {
		if el := e.elemOf(st, p); el != nil && whole(el) {
			ok = true
		}
	}
	if !ok {
		m.put("part:"+id+":"+k, 1)
	}
	// the key identifies the plugin
	if p != nil {
		f := fromObj(ev.Key, "File")
		n := fromObj(ev.Key, "Name")
		if f != p && n != p && !mentionsElem(ev.Key, act) {
			e.Violate(st, ev.Pos, "key", "the entry of a plugin is not made under its file or name")
		}
	} else if !mentionsElem(ev.Key, act) {
		e.Violate(st, ev.Pos, "key", "the entry of a plugin is not made under its file or name")
	}
	// the value
	s, isC := ev.Val.strVal()
	switch {
	case fromObj(ev.Val, "Note") != nil:
		o := fromObj(ev.Val, "Note")
		if p != nil && o != p {
			e.Violate(st, ev.Pos, "value", "the entry of a plugin tells the note of another one")
		}
		if v, kn := st.eval(mkEq(ev.Val, mkStr(""))); !(kn && !v) {
			e.Violate(st, ev.Pos, "value", "the entry of a plugin may be empty")
		}
	case isC:
		static := e.isStaticMap(kc)
		note := ""
		known := false
		if p != nil {
			if nv := e.fieldVal(st, p, "Note"); nv != nil {
				if v, kn := st.eval(mkEq(nv, mkStr(""))); kn && v {
					note, known = "", true
				} else if c, ok := nv.strVal(); ok {
					note, known = c, true
				} else {
					for f, v := range st.facts {
						if v && f.Op == "eq" && (f.Args[0] == nv || f.Args[1] == nv) {
							c, ok := f.Args[0].strVal()
							if !ok {
								c, ok = f.Args[1].strVal()
							}
							if ok {
								note, known = c, true
							}
						}
					}
				}
			}
			if r, kn := e.reused(st, p); kn && !r && s == "ok" {
				return
			}
		}
		switch {
		case s == "ok" && static:
		case s == "ok" && known && (note == "" || note == "ok"):
		case known && note == s && s != "":
		default:
			e.Violate(st, ev.Pos, "value", "the entry of a plugin is %q although the path does not know this to be true", s)
		}
	default:
		e.Violate(st, ev.Pos, "value", "the entry of a plugin is neither its note nor a constant that is known to be true")
	}
}

func (e *Engine) isStaticMap(c *Term) bool {
	if c == nil {
		return false
	}
	t, ok := typOr(c.Typ).Underlying().(*types.Map)
	return ok && namedPtr(t.Elem()) == e.w.staticPluginT
}

func mentionsElem(t *Term, act *LoopAct) bool {
	return act.Scan != nil && act.Scan.IV != nil && mentions(t, act.Scan.IV)
}

// noteAtJoin: the note of a plugin tells the truth.
func (m *Mon) noteAtJoin(e *Engine, st *State, ev *Event, p *Term) {
	m.put("joined", 1)
	e.Count("notes")
	nv := e.fieldVal(st, p, "Note")
	var s string
	ok := false
	if nv != nil {
		s, ok = nv.strVal()
	}
	if !ok {
		e.Violate(st, ev.Pos, "note", "the note of a plugin which joins a manager is not a constant known to the path")
		return
	}
	r, known := e.reused(st, p)
	if !known {
		return
	}
	if !r {
		if s != "" && s != "ok" {
			e.Violate(st, ev.Pos, "note", "the note of a new plugin is %q", s)
		}
		return
	}
	isU, isN := strings.Contains(s, "unchanged"), strings.Contains(s, "reloadable")
	if isU == isN {
		e.Violate(st, ev.Pos, "note", "the note %q of a plugin which is carried over does not tell the reason", s)
		return
	}
	x := fromObj(e.fieldVal(st, p, "Refs"), "Refs")
	if x == nil {
		return
	}
	n, u := m.reasonOf(e, st, x)
	var colls []string
	key := m.oldPlugin(e, st, x)
	if key == nil {
		if a := ldAddr(x); a != nil && a.Op == "idx" {
			if l := e.normList(st, a.Args[0]); l.Op == "acc" {
				colls = append(colls, l.Obj.(*AccInfo).Loop)
			}
		}
	} else if key.Op == "rkey" {
		if act := actOf(st, key); act != nil && act.Scan.Cont.Op == "new" {
			colls = append(colls, "m"+itoa(act.Scan.Cont.ID))
		}
	} else if a := ldAddr(key); a != nil && a.Op == "idx" {
		if l := e.normList(st, a.Args[0]); l.Op == "acc" {
			colls = append(colls, l.Obj.(*AccInfo).Loop)
		}
	}
	for _, c := range colls {
		n = n || !m.has("notN:"+c)
		u = u || !m.has("notU:"+c)
	}
	if isN && !n || isU && !u {
		e.Violate(st, ev.Pos, "note", "the note %q of a plugin which is carried over is not known to be true", s)
	}
}

// ---- C14 ----

// caseConv is the case conversion that produced a key.
func caseConv(t *Term) string {
	if t.Op == "call" && (t.Aux == "strings.ToLower" || t.Aux == "strings.ToUpper") {
		return t.Aux
	}
	return ""
}

// keyed says whether c is a map whose keys are converted names.
func (e *Engine) keyed(c *Term) bool {
	t, ok := typOr(c.Typ).Underlying().(*types.Map)
	return ok && isStringType(t.Key()) && (namedPtr(t.Elem()) == e.w.pluginT || e.w.isInfo(t.Elem()))
}

// canonical says whether a term is a key: "" if not.
func (m *Mon) canonical(e *Engine, st *State, t *Term, depth int) bool {
	if depth > 6 {
		return false
	}
	if c := caseConv(t); c != "" {
		e.Count("conversion:" + c)
		return true
	}
	if t.Op == "rkey" {
		for i := len(st.loops) - 1; i >= 0; i-- {
			if s := st.loops[i].Scan; s != nil && s.IV == t {
				return m.canonKeys(e, s.Cont)
			}
		}
		return false
	}
	if a := ldAddr(t); a != nil && a.Op == "idx" {
		l := e.normList(st, a.Args[0])
		return m.canonList(e, st, l, depth+1)
	}
	return false
}

// canonKeys says whether all keys of a map are converted names.
func (m *Mon) canonKeys(e *Engine, c *Term) bool {
	return e.keyed(c) || c.Op == "new" && !m.has("raw:"+itoa(c.ID))
}

func (m *Mon) canonList(e *Engine, st *State, l *Term, depth int) bool {
	if l.Op == "acc" {
		ai := l.Obj.(*AccInfo)
		for _, p := range ai.Pats {
			if ai.Act != nil && ai.Act.Scan != nil && ai.Act.Scan.IV == p && p.Op == "rkey" {
				if !m.canonKeys(e, ai.Act.Scan.Cont) {
					return false
				}
			} else if caseConv(p) == "" {
				return false
			}
		}
		return e.emptyList(st, ai.Init) && len(ai.Pats) > 0
	}
	if l.Op == "app" {
		for _, x := range l.Args[1:] {
			if x.Op == "spread" || !m.canonical(e, st, x, depth+1) {
				return false
			}
		}
		return e.emptyList(st, l.Args[0]) || m.canonList(e, st, l.Args[0], depth+1)
	}
	return false
}

func monC14(m *Mon, e *Engine, st *State, ev *Event) {
	m.swapState(e, st, ev)
	if e.inGo > 0 {
		return
	}
	switch ev.Kind {
	case EvLookup, EvDelete, EvMapUpdate:
		c, k := ev.Addr, ev.Key
		if c == nil || k == nil {
			return
		}
		if e.keyed(c) {
			e.Count("keys")
			if !m.canonical(e, st, k, 0) {
				e.Violate(st, ev.Pos, "raw-key", "a map of plugins is accessed with a key which is not a converted name: names are no longer matched regardless of letter case")
			} else if mg, p := e.joins(st, ev); mg != nil {
				m.joinKey(e, st, ev, p)
			}
		}
		if ev.Kind == EvMapUpdate && c.Op == "new" && isStringType(typOr(k.Typ)) && !e.keyed(c) && !types.IsInterface(typOr(ev.Val.Typ)) && !m.has("hooked") {
			if !m.canonical(e, st, k, 0) {
				m.put("raw:"+itoa(c.ID), 1)
			}
		}
		if ev.Kind == EvMapUpdate {
			m.dupUpdate(e, st, ev)
		}
	case EvExt:
		if isReadFileName(ev.Name) {
			if c, _, _ := e.contOf(st, ev.Args[0]); c != nil {
				m.bind("R", c)
			}
		}
	case EvHook:
		if m.has("hooked") || ev.Hook == "fOnFree" {
			return
		}
		m.put("hooked", 1)
		if e.joinless(m) {
			return
		}
		S, R := m.term("uniq"), m.term("R")
		for _, k := range []string{"uniq", "R", "src:", "key:", "map:", "cnt:", "gap:", "weak:", "upd:", "big:"} {
			m.drop(k)
		}
		if s, k := e.staticMode(st); k && s {
			if S == nil || !e.isStaticMap(S) {
				e.Violate(st, ev.Pos, "duplicates", "%s is invoked before all static plugins are known to have distinct names", hookTitle(ev.Hook))
			}
			return
		}
		if S == nil || R != nil && S != R {
			e.Violate(st, ev.Pos, "duplicates", "%s is invoked before all considered plugin files are known to have distinct names", hookTitle(ev.Hook))
		}
	case EvIterEnd:
		m.dupIterEnd(e, st, ev)
	case EvLoopExit:
		m.dupLoopExit(e, st, ev)
	case EvExit:
		if ev.Fn.Name() == "FindPlugin" && ev.Kind2 == "return" {
			e.Count("FindPlugin")
			r := ev.Results[0]
			a := ldAddr(r)
			okNil := false
			for f, v := range st.heap {
				if f.Op == "mapok" && v == tFalse && m.isKeyOf(e, st, f, e.entParams[1]) {
					okNil = true
				}
			}
			z, kn := st.isNil(r)
			if !(a != nil && a.Op == "mapel" && m.isKeyOf(e, st, a, e.entParams[1])) && !(kn && z && okNil) {
				e.Violate(st, ev.Pos, "find", "FindPlugin does not return the plugin of the manager with the given name")
			}
		}
	}
}

// joinless: nothing.
func (e *Engine) joinless(m *Mon) bool { return m.term("M") == nil }

// isKeyOf says whether a is the access of the plugin map of the receiver with the converted name.
func (m *Mon) isKeyOf(e *Engine, st *State, a, name *Term) bool {
	return e.fieldHolding(st, a.Args[0], "pluginMap") == e.entParams[0] && caseConv(a.Args[1]) != "" && a.Args[1].Args[0] == name
}

func (m *Mon) joinKey(e *Engine, st *State, ev *Event, p *Term) {
	n := e.fieldVal(st, p, "Name")
	if n == nil {
		e.Violate(st, ev.Pos, "name", "the name of a plugin which joins a manager is unknown")
		return
	}
	k := ev.Key
	if caseConv(k) != "" && k.Args[0] == n {
		return
	}
	if x := fromObj(n, "Name"); x != nil {
		if key := m.oldPlugin(e, st, x); key != nil && (key == k || caseConv(k) != "" && fromObj(k.Args[0], "Name") == x) {
			return
		}
		if caseConv(k) != "" && fromObj(k.Args[0], "Name") == x {
			return
		}
		// the name and the key of one and the same description
		if a := ldAddr(x); a != nil && a.Op == "mapel" && a.Args[1] == k {
			return
		}
	}
	if a := ldAddr(fromObjOr(n, "name")); a != nil && a.Op == "mapel" && a.Args[1] == k {
		return
	}
	e.Violate(st, ev.Pos, "name", "a plugin joins a manager under a key which is not its converted name")
}

func isStringList(t types.Type) bool {
	s, ok := typOr(t).Underlying().(*types.Slice)
	return ok && isStringType(s.Elem())
}

func fromObjOr(v *Term, f string) *Term {
	if x := fromObj(v, f); x != nil {
		return x
	}
	return tNil
}

// Uniqueness of the names of all sources.
//
//	upd:<D>:<act>   the map D was updated in this iteration: 1 counted, 2 known to be new
//	gap:<D>:<act>   an iteration did not update D
//	weak:<D>:<act>  an iteration updated D without knowing that the key is new
//	cnt:<D>         term: the container whose keys D counts
func (m *Mon) dupUpdate(e *Engine, st *State, ev *Event) {
	D := ev.Addr
	if m.has("hooked") || D.Op != "new" || caseConv(ev.Key) == "" {
		return
	}
	c, act, full := e.contOf(st, ev.Key)
	if c == nil || !full || !e.isStaticMap(c) && !isStringList(c.Typ) {
		return
	}
	id := itoa(D.ID) + ":" + act.key0()
	v := 1
	if ev.OldOk == tFalse {
		v = 2
	} else if isIntType(typOr(ev.Val.Typ)) {
		// a counter: it must grow
		if ev.OldVal == nil {
			return
		}
		lo, hi := st.rng(linOf(ev.Val).add(linOf(ev.OldVal), -1))
		if lo != 1 || hi != 1 {
			return
		}
	} else {
		m.put("weak:"+id, 1)
	}
	m.put("upd:"+id, v)
	m.bind("src:"+id, c)
	m.bind("key:"+id, ev.Key)
	m.bind("map:"+id, D)
}

func (m *Mon) dupIterEnd(e *Engine, st *State, ev *Event) {
	a := ev.Act.key0()
	for _, k := range m.keys("map:") {
		p := strings.SplitN(k, ":", 3)
		if p[2] != a {
			continue
		}
		id := p[1] + ":" + a
		D := m.term(k)
		switch m.get("upd:" + id) {
		case 0:
			m.put("gap:"+id, 1)
		case 1:
			// counted: is the count known to be at most one?
			hi := int64(2)
			if key := m.term("key:" + id); key != nil {
				if v := st.heap[mk("mapel", "", nil, D, key)]; v != nil && isIntType(typOr(v.Typ)) {
					_, hi = st.rng(linOf(v))
				}
			}
			if hi > 1 {
				m.put("weak:"+id, 1)
			}
		}
		m.put("upd:"+id, 0)
		m.bind("key:"+id, nil)
	}
	// a loop over the counts
	if s := ev.Act.Scan; s != nil && s.Kind == "map" && s.Cont.Op == "new" && m.term("cnt:"+itoa(s.Cont.ID)) != nil {
		v := st.heap[mk("mapel", "", nil, s.Cont, s.IV)]
		hi := int64(2)
		if v != nil {
			_, hi = st.rng(linOf(v))
		}
		if hi > 1 {
			m.put("big:"+a, 1)
		}
	}
}

func (m *Mon) dupLoopExit(e *Engine, st *State, ev *Event) {
	a := ev.Act.key0()
	for _, k := range m.keys("map:") {
		p := strings.SplitN(k, ":", 3)
		if p[2] != a {
			continue
		}
		id := p[1] + ":" + a
		if !ev.Break && !m.has("gap:"+id) {
			if m.has("weak:" + id) {
				m.bind("cnt:"+p[1], m.term("src:"+id))
			} else {
				e.Count("uniqueness established")
				m.bind("uniq", m.term("src:"+id))
			}
		}
		for _, x := range []string{"map:", "src:", "key:"} {
			m.bind(x+id, nil)
		}
		for _, x := range []string{"gap:", "weak:", "upd:"} {
			m.put(x+id, 0)
		}
	}
	if s := ev.Act.Scan; s != nil && s.Kind == "map" {
		if src := m.term("cnt:" + itoa(s.Cont.ID)); src != nil {
			if !ev.Break && s.Full && !m.has("big:"+a) {
				e.Count("uniqueness established")
				m.bind("uniq", src)
				m.bind("cnt:"+itoa(s.Cont.ID), nil)
			}
			m.put("big:"+a, 0)
		}
	}
	for _, c := range e.zeroTripOf(ev) {
		if e.isStaticMap(c) {
			m.bind("uniq", c)
		} else if src := m.term("cnt:" + itoa(c.ID)); src != nil {
			st.dead = true // an entry for every source was counted, and there are sources (or nothing is loaded)
			m.bind("uniq", src)
			m.bind("cnt:"+itoa(c.ID), nil)
		}
	}
}

func postC14(total map[string]int) []*Violation {
	var l []string
	for k := range total {
		if strings.HasPrefix(k, "conversion:") {
			l = append(l, k)
		}
	}
	if len(l) != 1 {
		return []*Violation{{Rule: "one-conversion", Pos: "?", Msg: "the keys of the maps of plugins are not made by one and the same case conversion: " + strings.Join(l, ", ")}}
	}
	return nil
}
