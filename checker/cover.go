package main

import "strings"

// Coverage of the plugins of a manager by loops which do something for every element ("topic": a plugin function or
// another action). All state is kept in the bag of the monitor.
//
//	it:<topic>:<act>   how often it happened in the current iteration (itMany: more than once)
//	cov:<topic>:<act>  what is known about the iterations so far (see below)
const (
	itFull = 1 // once, in a loop which enumerates all plugins
	itPart = 2 // once, in another loop
	itMany = 3

	covVacuous = 1 // all iterations left it out for a good reason, and the loop enumerates all plugins
	covFull    = 2 // every iteration did it once or left it out for a good reason
	covPart    = 3 // the same, but the loop does not enumerate all plugins
	covDup     = 4 // an iteration did it twice
	covGap     = 5 // an iteration left it out without a reason
)

// touch records that the topic happened for the plugin p.
func (m *Mon) touch(e *Engine, st *State, topic string, p *Term, full func(el *Elem) bool) *Elem {
	el := e.elemOf(st, p)
	if el == nil {
		return nil
	}
	k := "it:" + topic + ":" + el.Act.key0()
	switch {
	case m.has(k):
		m.put(k, itMany)
	case full(el):
		m.put(k, itFull)
	default:
		m.put(k, itPart)
	}
	return el
}

// current returns the terms of plugins which are the current element of act.
func (e *Engine) current(st *State, act *LoopAct) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	add := func(p *Term) {
		if p == nil || seen[p] || p.Op != "ld" || namedPtr(p.Typ) != e.w.pluginT {
			return
		}
		seen[p] = true
		if el := e.elemOf(st, p); el != nil && el.Act.same(act) {
			r = append(r, p)
		}
	}
	for a, v := range st.heap {
		if a.Op == "mapel" || a.Op == "idx" || a.Op == "new" {
			add(v)
		}
		if a.Op == "fld" {
			add(a.Args[0])
		}
	}
	for f := range st.facts {
		for _, s := range f.sites {
			add(s)
		}
	}
	return r
}

// iterEnd closes an iteration; skip says for which elements leaving out the topic is fine.
func (m *Mon) iterEnd(e *Engine, st *State, ev *Event, topics []string, skip func(topic string, p *Term) bool, full func(el *Elem) bool) {
	a := ev.Act.key0()
	var cur []*Term
	got := false
	for _, t := range topics {
		k := t + ":" + a
		n, v := m.get("it:"+k), m.get("cov:"+k)
		m.put("it:"+k, 0)
		w := covGap
		switch n {
		case itFull:
			w = covFull
		case itPart:
			w = covPart
		case itMany:
			w = covDup
		case 0:
			if v == covGap || skip == nil {
				break
			}
			if !got {
				cur, got = e.current(st, ev.Act), true
			}
			for _, p := range cur {
				if skip(t, p) {
					w = covPart
					if el := e.elemOf(st, p); el != nil && full(el) {
						w = covVacuous
					}
					break
				}
			}
		}
		m.put("cov:"+k, max(v, w))
	}
}

// loopExit closes a loop and says how it covered each topic.
func (m *Mon) loopExit(ev *Event, topics []string) map[string]int {
	a := ev.Act.key0()
	r := map[string]int{}
	for _, t := range topics {
		k := t + ":" + a
		if v := m.get("cov:" + k); v != 0 && !ev.Break {
			r[t] = v
		}
		m.put("it:"+k, 0)
		m.put("cov:"+k, 0)
	}
	return r
}

// isPluginLoop says whether act enumerates the plugins of a manager.
func (e *Engine) loopElem(st *State, act *LoopAct) *Elem {
	if act.Scan == nil || act.Scan.IV == nil {
		return nil
	}
	for _, p := range e.current(st, act) {
		if el := e.elemOf(st, p); el != nil {
			return el
		}
	}
	return nil
}

func hookTitle(h string) string {
	h = strings.TrimPrefix(h, "f")
	return h
}
