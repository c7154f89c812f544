package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

var dbgFn = os.Getenv("HVDBG")
var dbgStates = map[int][]string{}

func dbgNode(f *frame, n *node) {
	if dbgFn == "" || f.fn.Name() != dbgFn {
		return
	}
	var parts []string
	for v, t := range n.env {
		if _, ok := v.(*initVal); ok {
			continue
		}
		parts = append(parts, "E "+v.Name()+"="+fmt.Sprint(t.ID, " ", t))
	}
	for a, t := range n.st.heap {
		parts = append(parts, fmt.Sprint("H ", a.ID, " ", a, " = ", t.ID, " ", t))
	}
	for a, t := range n.st.facts {
		parts = append(parts, fmt.Sprint("F ", a.ID, " ", a, " = ", t))
	}
	for _, l := range n.st.loops {
		parts = append(parts, "L "+l.key())
	}
	parts = append(parts, "M "+n.st.mon.Key())
	for _, d := range n.defers {
		parts = append(parts, fmt.Sprint("D ", siteID(d.instr), d.args, d.fnv))
	}
	sort.Strings(parts)
	dbgStates[n.blk.Index] = append(dbgStates[n.blk.Index], strings.Join(parts, "\n"))
}

func dbgDump() {
	if dbgFn == "" {
		return
	}
	best, bi := 0, 0
	for i, s := range dbgStates {
		fmt.Println("block", i, len(s))
		if len(s) > best && os.Getenv("HVBLK") == "" || fmt.Sprint(i) == os.Getenv("HVBLK") {
			best, bi = len(s), i
		}
	}
	ss := dbgStates[bi]
	fmt.Println("BLOCK", bi)
	// frequency of lines
	cnt := map[string]int{}
	for _, s := range ss {
		for _, l := range strings.Split(s, "\n") {
			cnt[l]++
		}
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%6d %s\n", cnt[k], k)
	}
}
