package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type EvKind int

const (
	EvHook      EvKind = iota // a plugin function is about to be called
	EvHookRet                 // ... returned (Err says how)
	EvHookPanic               // ... panicked
	EvUser                    // any other dynamic call of a user supplied function
	EvUserRet
	EvUserPanic
	EvExt     // call of a function outside the module (about to happen)
	EvExtRet  // returned
	EvCall    // call of a module function (before inlining)
	EvCallRet // returned
	EvOpaque  // call of a module function which is not inlined
	EvOpaqueRet
	EvStore
	EvMapUpdate
	EvDelete
	EvAppend
	EvGo
	EvClose
	EvSend
	EvRecv
	EvSelect
	EvLoopEnter
	EvIterBegin
	EvIterEnd
	EvLoopExit
	EvPanic // explicit panic statement
	EvAlloc
	EvRecovered
	EvExit   // the entry function ends
	EvLookup // a map is looked up
	EvLoad   // a field of the swapper is read
	EvPure   // a pure function was called (if asked for)
)

type ErrState int

const (
	ErrNA ErrState = iota
	ErrNil
	ErrNonNil
)

// PhiStep says what a variable of a loop becomes at the end of an iteration.
type PhiStep struct {
	Phi      *ssa.Phi
	Old, New *Term
}

// Event is what monitors see.
type Event struct {
	Kind   EvKind
	Instr  ssa.Instruction
	Pos    token.Pos
	Ctx    *Ctx
	Name   string        // extern or function name
	Fn     *ssa.Function // module function
	Hook   string        // PluginFuncs field
	Owner  *Term         // owner of the hook
	Callee *Term
	Recv   *Term // invoke-mode receiver
	Args   []*Term
	Res    []*Term
	Err    ErrState

	Addr, Val *Term // store, map update (Addr = map, Key)
	Key       *Term
	OldOk     *Term
	OldVal    *Term

	Act   *LoopAct // loop events
	Break bool     // loop left by other means than exhaustion

	Phis []PhiStep // iteration end: what the variables of the loop become

	Outs []*Outcome // EvGo: the ways the goroutine ends

	Kind2    string // exit: "return", "panic", "exit"
	Results  []*Term
	Panic    *Term
	SigTypes *types.Signature
}

// Monitor is the property automaton carried along every path.
type Monitor interface {
	Clone() Monitor
	Key() string
	Roots() []*Term
	Event(e *Engine, st *State, ev *Event)
	// Kill is called when the terms for which dead holds cease to exist.
	Kill(dead func(*Term) bool)
}

// Base is embedded by monitors without term state.
type Base struct{}

func (Base) Roots() []*Term             { return nil }
func (Base) Kill(dead func(*Term) bool) {}
