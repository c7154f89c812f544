package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"
)

// dbgMon prints the events of an exploration (development only).
type dbgMon struct{ Base }

var evNames = [...]string{"Hook", "HookRet", "HookPanic", "User", "UserRet", "UserPanic", "Ext", "ExtRet", "Call", "CallRet", "Opaque", "OpaqueRet", "Store", "MapUpdate", "Delete", "Append", "Go", "Close", "Send", "Recv", "Select", "LoopEnter", "IterBegin", "IterEnd", "LoopExit", "Panic", "Alloc", "Recovered", "Exit", "Lookup", "Load", "Pure"}

func (m *dbgMon) Clone() Monitor { return m }
func (m *dbgMon) Key() string    { return "" }
func (m *dbgMon) Event(e *Engine, st *State, ev *Event) {
	if os.Getenv("HVEV") == "" && ev.Kind != EvExit {
		return
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s %-9s %s", posOf(e.w.prog, ev.Pos), evNames[ev.Kind], ev.Name)
	if ev.Hook != "" {
		fmt.Fprintf(&sb, " hook=%s owner=%s", ev.Hook, dbgTerm(ev.Owner))
	}
	if ev.Kind2 != "" {
		fmt.Fprintf(&sb, " %s", ev.Kind2)
	}
	for _, a := range ev.Args {
		fmt.Fprintf(&sb, " A=%s", dbgTerm(a))
	}
	for _, a := range ev.Res {
		fmt.Fprintf(&sb, " R=%s", dbgTerm(a))
	}
	for _, a := range ev.Results {
		fmt.Fprintf(&sb, " R=%s", dbgTerm(a))
	}
	if ev.Addr != nil {
		fmt.Fprintf(&sb, " addr=%s", dbgTerm(ev.Addr))
	}
	if ev.Key != nil {
		fmt.Fprintf(&sb, " key=%s", dbgTerm(ev.Key))
	}
	if ev.Val != nil {
		fmt.Fprintf(&sb, " val=%s", dbgTerm(ev.Val))
	}
	if ev.Act != nil {
		fmt.Fprintf(&sb, " act=%s", ev.Act.key())
		if s := ev.Act.Scan; s != nil {
			fmt.Fprintf(&sb, " scan=%s cont=%s iv=%s from=%s to=%s full=%v", s.Kind, dbgTerm(s.Cont), dbgTerm(s.IV), dbgTerm(s.From.term()), dbgTerm(s.To.term()), s.Full)
		}
		if ev.Break {
			sb.WriteString(" BREAK")
		}
	}
	fmt.Fprintf(&sb, " err=%d", ev.Err)
	if dbgRe == nil {
		fmt.Println(sb.String())
	} else if dbgRe.MatchString(sb.String()) && !dbgSeen[sb.String()] {
		dbgSeen[sb.String()] = true
		fmt.Println(sb.String())
		for i, l := range [][]*Term{ev.Args, ev.Res, ev.Results, {ev.Addr}, {ev.Key}, {ev.Val}} {
			for _, t := range l {
				if t != nil && t.Op != "const" && t.Op != "nil" {
					fmt.Printf("    %s %s\n", "ARrakv"[i:i+1], t.dbgs())
				}
			}
		}
	}
}

var dbgSeen = map[string]bool{}
var dbgRe = func() *regexp.Regexp {
	if s := os.Getenv("HVSEL"); s != "" {
		return regexp.MustCompile(s)
	}
	return nil
}()

func dbgTerm(t *Term) string {
	if t == nil {
		return "?"
	}
	return fmt.Sprintf("#%d:%s<%s>", t.ID, t, t.Op)
}

// dbg prints while developing.
func dbg(f string, a ...any) {
	if os.Getenv("HVDBGP") != "" {
		fmt.Printf(f+"\n", a...)
	}
}

func (t *Term) dbgs() string {
	if t == nil {
		return "?"
	}
	s := fmt.Sprintf("%s#%d", t.Op, t.ID)
	if t.Aux != "" {
		s += ":" + t.Aux
	}
	if len(t.Args) > 0 {
		s += "("
		for i, a := range t.Args {
			if i > 0 {
				s += ","
			}
			s += a.dbgs()
		}
		s += ")"
	}
	return s
}
