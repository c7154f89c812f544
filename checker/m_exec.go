package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	exec := Run{Name: "execute", Entry: (*World).executeFn, Cfg: execCfg(nil)}
	run := func(m func(m *Mon, e *Engine, st *State, ev *Event)) []Run {
		r := exec
		r.Mon = mon(m)
		return []Run{r}
	}
	register(&Prop{
		ID:    "C30",
		Rule:  "on every path of the build command, including those on which any step panics, on which something may have been created in the temporary directory after it was last removed: the process ends only if the flags of the command ask to keep it or no compilation takes place; it is not removed if the flags ask to keep it; no goroutine which creates files outlives the removal; before anything is created there, SIGINT and SIGTERM are directed to a buffered channel from which a running goroutine receives, and that goroutine does not end the process; every channel the command waits for at its end is closed on all paths of the goroutine which closes it",
		Runs:  run(monC30),
		Floor: map[string]int{"creating steps": 3, "removals": 2, "process ends": 3, "signal handlers": 1},
	})
	register(&Prop{
		ID:   "C33",
		Rule: "on every path of the build command on which a temporary directory other than the directory of the plugin is chosen, the name of the directory and the package path contain, through operations which lose nothing, the current time in nanoseconds or a name created by the operating system as unused; both are made from the same name, and the directory is a sibling of the directory of the plugin",
		Runs: run(monC33),
		Floor: map[string]int{"temporary directories": 1, "package paths": 1,
			"executable names": 1},
	})
	register(&Prop{
		ID:   "C34",
		Rule: "on every path of the goroutine which receives the signals, unless what it received is known to be the value the command itself sends, the interrupt channel is closed before the temporary directory is removed and before the goroutine ends; on every path of the build command the interrupt channel is consulted after the last step which copies or generates and before the compiler runs, and again between the compiler and a successful end; a path on which the channel was found closed ends with a non-zero status, in the command as well as in every function which it calls and which consults the channel",
		Runs: append([]Run{{Name: "execute", Entry: (*World).executeFn, Cfg: stopCfg, Mon: mon(monC34)}}, Run{Name: "complete", Entry: (*World).completeFn, Mon: mon(monC34gen),
			Cfg: func(w *World, c *RunCfg) { cliCfg(nil)(w, c) }}),
		Floor: map[string]int{"interrupt checks": 2, "compiler runs": 1, "signals handled": 1, "interrupted ends": 2},
	})
}

// completeFn is the smallest function which loads the packages of the plugin and generates code for them.
func (w *World) completeFn() (*ssa.Function, error) {
	is := func(fn *ssa.Function) bool {
		return fn.Pkg == w.cmd && fn.Parent() == nil && fn.Synthetic == "" &&
			w.reaches(fn, "golang.org/x/tools/go/packages.Load") && w.effects(fn).any(creators...)
	}
	var r []*ssa.Function
	for _, fn := range w.prodFuncs() {
		if !is(fn) {
			continue
		}
		least := true
		for g := range w.staticReach(fn) {
			if g != fn && is(g) {
				least = false
			}
		}
		if least {
			r = append(r, fn)
		}
	}
	if len(r) != 1 {
		return nil, fmt.Errorf("found %d functions which generate code for the packages of a plugin", len(r))
	}
	return r[0], nil
}

// flagField is the field of the command which a flag sets.
func (w *World) flagField(flag string) *types.Var {
	if w.flags == nil {
		w.flags = map[string]*types.Var{}
		for _, fn := range w.prodFuncs() {
			if fn.Pkg != w.cmd {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					f := c.Call.StaticCallee()
					if f == nil || !strings.Contains(f.String(), "pflag.FlagSet).") || len(c.Call.Args) < 3 {
						continue
					}
					fa, _ := c.Call.Args[1].(*ssa.FieldAddr)
					k, _ := c.Call.Args[2].(*ssa.Const)
					if fa == nil || k == nil || k.Value == nil || k.Value.Kind() != constant.String || namedPtr(fa.X.Type()) != w.buildCmdT {
						continue
					}
					s, _ := structOf(w.buildCmdT)
					w.flags[constant.StringVal(k.Value)] = s.Field(fa.Field)
				}
			}
		}
	}
	return w.flags[flag]
}

// cmdParam is the command which the entry function belongs to.
func (e *Engine) cmdParam() *Term {
	for _, p := range e.entParams {
		if namedPtr(p.Typ) == e.w.buildCmdT {
			return p
		}
	}
	return nil
}

func (e *Engine) cmdField(v *types.Var) *Term {
	if c := e.cmdParam(); c != nil && v != nil {
		return mkObj("fld", v.Name(), v, types.NewPointer(v.Type()), c)
	}
	return nil
}

// dirField is a field of the command with the given name.
func (w *World) dirField(name string) *types.Var {
	s, ok := structOf(w.buildCmdT)
	for i := 0; ok && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}
	return nil
}

// exMon is what the checks of the build command have in common.
type exInfo struct {
	T, P, O *Term // temporary directory, plugin directory, output directory as currently set
}

// exec keeps track of the flags and directories.
func (m *Mon) exec(e *Engine, st *State, ev *Event) (x exInfo) {
	if !m.has("flags") {
		m.put("flags", 1)
		for _, f := range []string{"leaveTemps", "goBuild", "staticLinking", "clean"} {
			if a := e.cmdField(e.w.flagField(f)); a != nil {
				if in := ev.Instr; in != nil {
					m.bind("flag:"+f, e.load(st, a, types.Typ[types.Bool], in, ev.Ctx))
				}
			}
		}
	}
	get := func(n string) *Term {
		if a := e.cmdField(e.w.dirField(n)); a != nil {
			return st.heap[a]
		}
		return nil
	}
	return exInfo{get("tmpDir"), get("pluginDir"), get("outputDir")}
}

func (m *Mon) flag(st *State, f string) (val, known bool) {
	t := m.term("flag:" + f)
	if t == nil {
		return false, false
	}
	return st.isTrue(t), st.isTrue(t) || st.isFalse(t)
}

// keeps: the flags ask to keep the temporary directory, or there is none.
func (m *Mon) keeps(st *State) bool {
	l, _ := m.flag(st, "leaveTemps")
	g, gk := m.flag(st, "goBuild")
	s, _ := m.flag(st, "staticLinking")
	return l || gk && !g || s
}

// createsFile: the function outside of the module may create or change files.
func createsFile(name string) bool {
	switch name {
	case "os.MkdirAll", "os.Mkdir", "os.Create", "os.OpenFile", "os.WriteFile", "io/ioutil.WriteFile", "os.Rename", "os.Symlink", "os.Link",
		"os.MkdirTemp", "os.CreateTemp", "io/ioutil.TempDir", "io/ioutil.TempFile", "os.CopyFS":
		return true
	}
	return false
}

var creators = []string{"os.MkdirAll", "os.Mkdir", "os.Create", "os.OpenFile", "os.WriteFile", "io/ioutil.WriteFile", "os.Rename", "os.Symlink", "os.Link", "os.CopyFS"}

// creates: the event may create something in the temporary directory.
func (m *Mon) creates(e *Engine, st *State, ev *Event, x exInfo) bool {
	switch ev.Kind {
	case EvExt:
		if !createsFile(ev.Name) || x.T == nil {
			return false
		}
		for _, a := range ev.Args {
			if mentions(a, x.T) || mentionsAny(a, func(t *Term) bool {
				return t.Op == "ld" && t.Args[0].Op == "fld" && t.Args[0].Aux == "tmpDir"
			}) {
				return true
			}
		}
	case EvOpaque:
		return e.w.effects(ev.Fn).any(creators...)
	}
	return false
}

// absolute: the path is known to be absolute.
func absolute(t *Term) bool {
	switch {
	case isRes(t, "path/filepath.Abs"), isRes(t, "os.Getwd"):
		return true
	case t.Op == "call" && len(t.Args) > 0:
		switch t.Aux {
		case "path/filepath.Join", "path/filepath.Dir", "path/filepath.Clean":
			return absolute(t.Args[0])
		}
	case t.Op == "bin" && len(t.Args) > 0, strings.HasPrefix(t.Op, "bin:+") && len(t.Args) > 0:
		return absolute(t.Args[0])
	}
	return false
}

func isExit(name string) bool { return name == "os.Exit" || name == "syscall.Exit" }

// unbuffered: the channel may have no room for an element.
func unbuffered(ch *Term) bool {
	mc, _ := ch.Site.(*ssa.MakeChan)
	if mc == nil {
		return true
	}
	k, _ := mc.Size.(*ssa.Const)
	return k == nil || k.Int64() < 1
}

func constInt(t *Term) (int64, bool) {
	for t != nil && t.Op == "conv" {
		t = t.Args[0]
	}
	if t == nil || !t.isConst() {
		return 0, false
	}
	l := linOf(t)
	return l.k, l.isConst()
}

func monC30(m *Mon, e *Engine, st *State, ev *Event) {
	x := m.exec(e, st, ev)
	static, _ := m.flag(st, "staticLinking")
	if e.inGo > 0 {
		switch ev.Kind {
		case EvRecv, EvSelect:
			if ch := m.term("sigch"); ch != nil && ev.Addr == ch {
				m.put("gorecv", 1)
			}
		case EvClose:
			m.put("closed:"+itoa(ev.Addr.ID), 1)
		case EvExt:
			if isExit(ev.Name) {
				e.Violate(st, ev.Pos, "exit", "a goroutine ends the process while the build may still be creating files")
			}
			if (ev.Name == "os.RemoveAll" || ev.Name == "os.Remove") && m.has("gorecv") && x.T != nil && ev.Args[0] == x.T && !static {
				if l, k := m.flag(st, "leaveTemps"); l || !k {
					e.Violate(st, ev.Pos, "kept", "the temporary directory is removed although the command may have been told to keep it")
				}
			}
		}
		if !static && m.creates(e, st, ev, x) {
			m.put("gocreates", 1)
		}
		return
	}
	if !static && m.creates(e, st, ev, x) {
		e.Count("creating steps")
		if !m.has("handled") {
			e.Violate(st, ev.Pos, "unhandled", "files are created in the temporary directory before signals are handled")
		}
		m.put("dirty", 1)
		if x.T != nil && m.term("T") == nil {
			m.bind("T", x.T)
		}
	}
	end := func() {
		e.Count("process ends")
		if (m.has("dirty") || m.has("pending")) && !m.keeps(st) {
			e.Violate(st, ev.Pos, "left", "the process may end without removing the temporary directory")
		}
	}
	switch ev.Kind {
	case EvExt:
		switch {
		case isExit(ev.Name):
			end()
		case ev.Name == "os.RemoveAll" && x.T != nil && ev.Args[0] == x.T && (m.term("T") == nil || m.term("T") == x.T):
			e.Count("removals")
			if m.has("dirty") {
				if l, k := m.flag(st, "leaveTemps"); l || !k {
					e.Violate(st, ev.Pos, "kept", "the temporary directory is removed although the command may have been told to keep it")
				}
			}
			if fn, err := e.w.executeFn(); !absolute(x.T) && (err != nil || e.w.reaches(fn, "os.Chdir")) {
				e.Violate(st, ev.Pos, "relative", "the directory which is removed is not the temporary directory: its name is relative and the working directory changes")
			}
			m.put("dirty", 0)
		case ev.Name == "os/signal.Stop" || ev.Name == "os/signal.Reset" || ev.Name == "os/signal.Ignore":
			if m.has("dirty") && !m.keeps(st) {
				e.Violate(st, ev.Pos, "unhandled", "signals are no longer handled although the temporary directory exists")
			}
		case ev.Name == "os/signal.Notify":
			has := map[int64]bool{}
			for _, a := range ev.Args[1:] {
				if k, ok := constInt(a); ok {
					has[k] = true
				}
			}
			if unbuffered(ev.Args[0]) {
				e.Violate(st, ev.Pos, "unhandled", "a signal may get lost: the channel may have no room for it")
			} else if len(ev.Args) == 1 || has[2] && has[15] {
				m.bind("sigch", ev.Args[0])
			}
		case ev.Name == "(*os/exec.Cmd).Start":
			m.put("pending", 1)
		}
	case EvExtRet:
		if ev.Name == "(*sync.WaitGroup).Wait" || ev.Name == "(*os/exec.Cmd).Wait" {
			m.put("pending", 0)
		}
	case EvGo:
		if ev.Kind2 != "spawn" {
			return
		}
		handler := len(ev.Outs) > 0
		for _, o := range ev.Outs {
			b := bagOf(o.st)
			if !b.has("gorecv") {
				handler = false
			}
			if b.has("gocreates") {
				m.put("pending", 1)
				m.put("dirty", 1)
				e.Count("creating steps")
				if !m.has("handled") {
					e.Violate(st, ev.Pos, "unhandled", "files are created in the temporary directory before signals are handled")
				}
			}
		}
		if handler {
			e.Count("signal handlers")
			m.put("handled", 1)
		}
		// channels which are closed on some paths only
		all := map[string]int{}
		for _, o := range ev.Outs {
			for _, k := range bagOf(o.st).keys("closed:") {
				all[k]++
			}
		}
		for k, n := range all {
			if !m.has(k) {
				if n == len(ev.Outs) {
					m.put("sure"+k, 1)
				} else {
					m.put("may"+k, 1)
				}
			}
		}
	case EvRecv:
		if k := "closed:" + itoa(ev.Addr.ID); m.has("may"+k) && !m.has("sure"+k) {
			e.Violate(st, ev.Pos, "hang", "the command waits for a channel which may never be closed")
		}
	case EvExit:
		end()
	}
}

// ---- identity ----

// uniqueIn: the string contains, undamaged, something no other build has.
func uniqueIn(t *Term) bool {
	if t == nil {
		return false
	}
	switch t.Op {
	case "conv":
		return uniqueIn(t.Args[0])
	case "call", "res":
		n := t.Aux
		if t.Op == "res" {
			n = resName(t)
		}
		n = strings.TrimSuffix(strings.TrimSuffix(n, "#0"), "#1")
		switch n {
		case "(time.Time).Nanosecond", "(time.Time).UnixNano":
			return mentionsAny(t, func(x *Term) bool { return isRes(x, "time.Now") })
		case "(time.Time).Format":
			if s, k := t.Args[len(t.Args)-1].strVal(); k && mentionsAny(t, func(x *Term) bool { return isRes(x, "time.Now") }) {
				for _, f := range []string{".000000000", ",000000000", ".999999999", ",999999999"} {
					if strings.Contains(s, f) {
						return true
					}
				}
			}
			return false
		case "os.MkdirTemp", "io/ioutil.TempDir":
			return true
		case "fmt.Sprintf":
			f, k := t.Args[0].strVal()
			if !k {
				return false
			}
			vs := verbs(f)
			for i, a := range t.Args[1:] {
				if i < len(vs) && vs[i] && uniqueIn(a) {
					return true
				}
			}
			return false
		case "fmt.Sprint", "path/filepath.Join", "path.Join", "strconv.Itoa", "strconv.FormatInt", "path/filepath.Clean", "path.Clean":
			for _, a := range t.Args {
				if uniqueIn(a) {
					return true
				}
			}
			return false
		case "path/filepath.Base", "path.Base":
			// the last element
			a := t.Args[0]
			if a.Op == "call" && strings.HasSuffix(a.Aux, ".Join") && len(a.Args) > 0 {
				return uniqueIn(a.Args[len(a.Args)-1])
			}
			return isRes(a, "os.MkdirTemp") || isRes(a, "io/ioutil.TempDir")
		case "strings.ReplaceAll", "strings.ToLower", "strings.ToUpper":
			return uniqueIn(t.Args[0])
		}
		return false
	case "cat", "bin:+", "+":
		for _, a := range t.Args {
			if uniqueIn(a) {
				return true
			}
		}
	}
	if strings.HasPrefix(t.Op, "bin") && t.Aux == "+" {
		for _, a := range t.Args {
			if uniqueIn(a) {
				return true
			}
		}
	}
	return false
}

// verbs says for each argument of a format whether it is printed in full.
func verbs(f string) (r []bool) {
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		full := true
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			if f[i] == '.' {
				full = false
			}
			i++
		}
		if i >= len(f) || f[i] == '%' {
			continue
		}
		r = append(r, full && strings.IndexByte("vsdxXqob", f[i]) >= 0)
	}
	return
}

func monC33(m *Mon, e *Engine, st *State, ev *Event) {
	x := m.exec(e, st, ev)
	static, _ := m.flag(st, "staticLinking")
	if e.inGo > 0 || static || m.has("done") {
		return
	}
	look := false
	switch ev.Kind {
	case EvExit:
	case EvExt:
		look = isExit(ev.Name)
		if createsFile(ev.Name) || ev.Name == "os.RemoveAll" {
			look = x.T != nil
		}
	case EvOpaque, EvCall:
		look = x.T != nil && (e.w.effects(ev.Fn).any(creators...) || e.w.effects(ev.Fn).any("(*os/exec.Cmd).Run"))
	}
	if !look || x.T == nil || x.T == x.P {
		return
	}
	get := func(n string) *Term {
		if a := e.cmdField(e.w.dirField(n)); a != nil {
			return st.heap[a]
		}
		return nil
	}
	pkg, base := get("tmpPkgPath"), get("pluginPkgPath")
	if pkg == nil || pkg == base {
		return
	}
	m.put("done", 1)
	e.Count("temporary directories")
	e.Count("package paths")
	e.Count("executable names")
	if !uniqueIn(x.T) {
		e.Violate(st, ev.Pos, "directory", "the name of the temporary directory may be that of another build: %s", x.T)
	}
	if !uniqueIn(pkg) {
		e.Violate(st, ev.Pos, "package", "the package path may be that of another build: %s", pkg)
	}
	last := func(t *Term) *Term {
		if t.Op == "call" && strings.HasSuffix(t.Aux, ".Join") && len(t.Args) > 0 {
			return t.Args[len(t.Args)-1]
		}
		return nil
	}
	if a, b := last(x.T), last(pkg); a == nil || b == nil || a != b && !(b.Op == "call" && strings.HasSuffix(b.Aux, ".Base") && b.Args[0] == x.T) {
		e.Violate(st, ev.Pos, "different", "the package path does not end with the name of the temporary directory")
	}
	if x.P != nil && !(len(x.T.Args) == 2 && parentOf(x.T.Args[0]) == x.P) {
		e.Violate(st, ev.Pos, "place", "the temporary directory is not next to the directory of the plugin")
	}
}

// ---- interruption ----

// isIntr: the channel tells that the build was interrupted.
func (m *Mon) isIntr(e *Engine, ch *Term) bool {
	if ch == nil {
		return false
	}
	if m.has("intr:" + itoa(ch.ID)) {
		return true
	}
	g, _ := ch.Obj.(*ssa.Global)
	return (ch.Op == "gval" || ch.Op == "gvalnn") && g != nil && g.Pkg == e.w.cmd || (ch.Op == "gval" || ch.Op == "gvalnn") && strings.Contains(ch.Aux, "/cmd.")
}

// stopCfg: conditions on received signals are kept, and functions which consult the channel are explored.
func stopCfg(w *World, c *RunCfg) {
	execCfg(func(w *World, fn *ssa.Function) bool {
		f := w.effects(fn)
		return (f.Select || f.Chan) && !f.any(creators...)
	})(w, c)
	nc := c.NoCond
	c.NoCond = func(t *Term) bool {
		return nc(t) && !mentionsAny(t, func(x *Term) bool { return x.Op == "recv" })
	}
}

func (m *Mon) interruption(e *Engine, st *State, ev *Event) {
	switch ev.Kind {
	case EvSelect:
		if ev.Kind2 == "default" {
			for _, c := range ev.Args {
				if m.isIntr(e, c) {
					e.Count("interrupt checks")
					m.put("unchecked", 0)
					m.put("checked", 1)
				}
			}
		} else if ev.Kind2 == "recv" && m.isIntr(e, ev.Addr) {
			m.put("interrupted", 1)
		}
	case EvRecv:
		if m.isIntr(e, ev.Addr) {
			m.put("interrupted", 1)
		}
	}
}

func monC34(m *Mon, e *Engine, st *State, ev *Event) {
	x := m.exec(e, st, ev)
	static, _ := m.flag(st, "staticLinking")
	if e.inGo > 0 {
		if m.has("nested") {
			return
		}
		switch ev.Kind {
		case EvGo:
			if ev.Kind2 == "start" && m.has("gorecv") {
				m.put("nested", 1)
			}
		case EvRecv, EvSelect:
			if ch := m.term("sigch"); ch != nil && ev.Addr == ch {
				m.put("gorecv", 1)
				v := ev.Val
				if v == nil {
					v = mk("none", "", nil)
				}
				m.bind("sig", v)
			}
		case EvClose:
			if m.has("gorecv") {
				m.put("closes", 1)
				m.put("goclosed:"+itoa(ev.Addr.ID), 1)
				m.bind("goch:"+itoa(ev.Addr.ID), ev.Addr)
				if m.isIntr(e, ev.Addr) {
					m.put("stopped", 1)
				}
			}
		case EvExt:
			if (ev.Name == "os.RemoveAll" || ev.Name == "os.Remove") && m.has("gorecv") && !m.sentinel(st) && !m.has("stopped") {
				e.Violate(st, ev.Pos, "late", "the temporary directory is removed before the build is told to stop")
			}
		}
		if m.creates(e, st, ev, x) {
			m.put("gocreates", 1)
		}
		return
	}
	m.interruption(e, st, ev)
	if m.has("interrupted") && ev.Kind == EvExit && !(ev.Kind2 == "panic") && !m.has("badexit") {
		e.Violate(st, ev.Pos, "success", "the command may report success although it found that it was interrupted")
	}
	switch ev.Kind {
	case EvGo:
		if ev.Kind2 != "spawn" {
			return
		}
		for _, o := range ev.Outs {
			b := bagOf(o.st)
			if b.has("gocreates") {
				m.put("unchecked", 1)
			}
			if !b.has("gorecv") {
				continue
			}
			e.Count("signals handled")
			if !b.has("stopped") && !b.sentinel(o.st) {
				e.Violate(o.st, ev.Pos, "ignored", "a signal may be received without the build being told to stop")
			}
		}
	case EvOpaque:
		if e.w.effects(ev.Fn).any(creators...) {
			m.put("unchecked", 1)
		}
	case EvExt:
		switch {
		case ev.Name == "os/signal.Notify":
			m.bind("sigch", ev.Args[0])
			for _, a := range ev.Args[1:] {
				if k, ok := constInt(a); ok {
					m.put("signum:"+itoa(int(k)), 1)
				}
			}
		case isExit(ev.Name):
			if k, ok := constInt(ev.Args[0]); !ok || k == 0 {
				if m.has("interrupted") {
					e.Violate(st, ev.Pos, "success", "the command may report success although it found that it was interrupted")
				}
			} else if m.has("interrupted") {
				e.Count("interrupted ends")
			}
			m.put("badexit", 1)
		case ev.Name == "(*os/exec.Cmd).Run" || ev.Name == "(*os/exec.Cmd).Output" || ev.Name == "(*os/exec.Cmd).CombinedOutput" || ev.Name == "(*os/exec.Cmd).Start":
			if !e.isCompiler(st, ev.Args[0]) {
				return
			}
			e.Count("compiler runs")
			if m.has("unchecked") || !m.has("checked") {
				e.Violate(st, ev.Pos, "unchecked", "the compiler may be started although the build was interrupted")
			}
			if m.has("interrupted") {
				e.Violate(st, ev.Pos, "unchecked", "the compiler is started although the build was interrupted")
			}
			m.put("unchecked", 1)
		}
	case EvExit:
		if ev.Kind2 == "return" && m.has("unchecked") && !static && !m.has("badexit") {
			e.Violate(st, ev.Pos, "unchecked", "success may be reported although the build was interrupted")
		}
	}
}

// sentinel: what was received is known to be something which is not one of the signals asked for.
func (m *Mon) sentinel(st *State) bool {
	s := m.term("sig")
	if s == nil {
		return false
	}
	none := map[string]bool{}
	for f, v := range st.facts {
		if f.Op != "eq" || len(f.Args) != 2 {
			continue
		}
		for i := range f.Args {
			if mentions(f.Args[i], s) {
				k, ok := constInt(f.Args[1-i])
				if !ok {
					continue
				}
				n := "signum:" + itoa(int(k))
				if v && !m.has(n) {
					return true
				}
				if !v {
					none[n] = true
				}
			}
		}
	}
	all := m.keys("signum:")
	for _, n := range all {
		if !none[n] {
			return false
		}
	}
	return len(all) > 0
}

func monC34gen(m *Mon, e *Engine, st *State, ev *Event) {
	m.interruption(e, st, ev)
	if ev.Kind == EvExit && m.has("interrupted") {
		if ev.Kind2 == "panic" || ev.Kind2 == "exit" || ev.Err == ErrNonNil {
			e.Count("interrupted ends")
		} else {
			e.Violate(st, ev.Pos, "success", "the generation of code may succeed although it was interrupted")
		}
	}
}
