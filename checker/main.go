package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report is what one run (or one rule) found.
type Report struct {
	Name    string
	Viol    []*Violation
	Notes   map[string]int
	Funcs   []string
	Calls   int
	Paths   int
	Events  int
	Work    int
	Wall    float64
	Samples []string
}

func newReport(n string) *Report { return &Report{Name: n, Notes: map[string]int{}} }

func (r *Report) Count(k string) { r.Notes[k]++ }
func (r *Report) Sample(f string, a ...any) {
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, fmt.Sprintf(f, a...))
	}
}

// Violate records a violation found without exploring paths.
func (r *Report) Violate(rule, pos, format string, args ...interface{}) {
	r.Viol = append(r.Viol, &Violation{Rule: rule, Pos: pos, Msg: fmt.Sprintf(format, args...), Entry: r.Name})
}

func runOne(w *World, p *Prop, name string) (rep *Report) {
	rep = newReport(name)
	t0 := time.Now()
	defer func() {
		if r := recover(); r != nil {
			rep.Violate("undecided", "?", "the analysis failed: %v\n%s", r, debug.Stack())
		}
		rep.Wall = time.Since(t0).Seconds()
	}()
	if name == "rules" {
		for _, f := range p.Rules {
			f(w, rep)
		}
		return
	}
	for _, r := range p.Runs {
		if r.Name != name {
			continue
		}
		fn, err := r.Entry(w)
		if err != nil {
			rep.Violate("anchor", "?", "%v", err)
			return
		}
		cfg := defaultCfg(w)
		cfg.Name = name
		if r.Cfg != nil {
			r.Cfg(w, &cfg)
		}
		e := newEngine(w, cfg)
		e.Run(fn, r.Mon())
		rep.Viol = append(rep.Viol, e.viol...)
		if e.aborted {
			rep.Violate("undecided", w.pos(fn.Pos()), "the exploration of %s did not finish", fn)
		}
		for k, v := range e.Notes {
			rep.Notes[k] += v
		}
		for f := range e.funcs {
			rep.Funcs = append(rep.Funcs, f.String())
		}
		sort.Strings(rep.Funcs)
		rep.Calls, rep.Paths, rep.Events, rep.Work = len(e.calls), e.paths, e.events, e.work
		if e.paths == 0 {
			rep.Violate("undecided", w.pos(fn.Pos()), "no path of %s was found", fn)
		}
	}
	return
}

func main() {
	var prop, child, out, verif string
	var dbgEntry string
	flag.StringVar(&repoDir, "repo", repoDir, "the repository")
	flag.StringVar(&prop, "prop", "", "the property to decide")
	flag.StringVar(&child, "child", "", "internal: the run to perform")
	flag.StringVar(&out, "out", "", "internal: result file")
	flag.StringVar(&verif, "verif", "/verif", "where evidence and replay files go")
	flag.StringVar(&dbgEntry, "e", "", "development: explore a function and print events")
	list := flag.Bool("list", false, "list the properties and their rules")
	flag.Parse()
	if *list {
		m := map[string]string{}
		for id, p := range props {
			m[id] = p.Rule
		}
		b, _ := json.Marshal(m)
		fmt.Println(string(b))
		return
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(5 << 30) // the garbage collector works harder above this
	if dbgEntry != "" {
		dbgMain(dbgEntry)
		return
	}
	p := props[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	if child != "" {
		rep := newReport(child)
		w, err := loadWorld()
		if err == nil && w.releaseErr != nil {
			err = w.releaseErr
		}
		if err != nil {
			rep.Violate("anchor", "?", "%v", err)
		} else {
			if pf := os.Getenv("HVPROF"); pf != "" {
				o, _ := os.Create(pf + "." + child)
				pprof.StartCPUProfile(o)
				defer pprof.StopCPUProfile()
			}
			if os.Getenv("HVDBG") != "" {
				dbgProf = map[*ssa.Function]*prof{}
			}
			rep = runOne(w, p, child)
			dbgDump()
			for f, p := range dbgProf {
				fmt.Println("PROF", p.n, p.work, p.outs, f.Name())
			}
		}
		b, _ := json.Marshal(rep)
		if err := os.WriteFile(out, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	os.Exit(drive(p, verif))
}

func drive(p *Prop, verif string) int {
	t0 := time.Now()
	var names []string
	for _, r := range p.Runs {
		names = append(names, r.Name)
	}
	if len(p.Rules) > 0 {
		names = append(names, "rules")
	}
	tmp, err := os.MkdirTemp("", "hvcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	reps := make([]*Report, len(names))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, n := range names {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			f := filepath.Join(tmp, strconv.Itoa(i)+".json")
			c := exec.Command(self, "-repo", repoDir, "-prop", p.ID, "-child", n, "-out", f)
			c.Env = append(os.Environ(), "GOMAXPROCS=4", "GOMEMLIMIT=6GiB")
			o, err := c.CombinedOutput()
			rep := newReport(n)
			if b, e2 := os.ReadFile(f); e2 == nil && err == nil {
				err = json.Unmarshal(b, rep)
			}
			if err != nil {
				rep.Violate("undecided", "?", "the analysis of %s failed: %v\n%s", n, err, o)
			}
			reps[i] = rep
		}(i, n)
	}
	wg.Wait()

	total := map[string]int{}
	funcs := map[string]bool{}
	var viol []*Violation
	var runs []map[string]interface{}
	var samples []string
	paths, events, calls := 0, 0, 0
	for _, r := range reps {
		for k, v := range r.Notes {
			total[k] += v
		}
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		samples = append(samples, r.Samples...)
		viol = append(viol, r.Viol...)
		paths += r.Paths
		events += r.Events
		calls += r.Calls
		m := map[string]interface{}{"run": r.Name, "obligations_and_instances": r.Notes, "wall_s": r.Wall}
		if r.Events > 0 {
			m["functions"], m["call_sites"], m["paths_ended"], m["events"], m["block_states"] = len(r.Funcs), r.Calls, r.Paths, r.Events, r.Work
		}
		runs = append(runs, m)
	}
	var fk []string
	for k := range p.Floor {
		fk = append(fk, k)
	}
	sort.Strings(fk)
	for _, k := range fk {
		if total[k] < p.Floor[k] {
			viol = append(viol, &Violation{Rule: "vacuous", Pos: "?", Msg: fmt.Sprintf("the rule found %d instances of %q; at least %d are expected", total[k], k, p.Floor[k])})
		}
	}
	if p.Post != nil {
		viol = append(viol, p.Post(total)...)
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, modPath, "hotswap"))
	}
	sort.Strings(fl)

	known := loadKnown(filepath.Join(verif, "known_findings.txt"), p.ID)
	var fresh []*Violation
	for _, v := range viol {
		hit := false
		for _, k := range known {
			if strings.Contains(v.Rule+": "+v.Msg, k) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
				hit = true
				break
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":        "Static analysis of /repo's current source (typed SSA form of all packages). Rule: " + p.Rule,
			"runs":               runs,
			"functions_analysed": fl,
			"instances":          total,
			"paths":              paths,
			"events":             events,
			"samples":            samples,
		},
		"wall_s": time.Since(t0).Seconds(), "violations": len(fresh),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(fresh) == 0 {
		fmt.Printf("%s: held (%d runs, %d functions, %d paths, %.1fs)\n", p.ID, len(reps), len(fl), paths, time.Since(t0).Seconds())
		return 0
	}
	dir := filepath.Join(verif, "replay")
	os.MkdirAll(dir, 0755)
	rf := filepath.Join(dir, p.ID+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nrule: %s\n\n", p.ID, p.Rule)
	for _, v := range fresh {
		fmt.Fprintf(&sb, "%s: [%s] %s\n", v.Pos, v.Rule, v.Msg)
		if v.Entry != "" {
			fmt.Fprintf(&sb, "  entry: %s\n", v.Entry)
		}
		for _, t := range v.Trace {
			fmt.Fprintf(&sb, "    %s\n", t)
		}
		sb.WriteByte('\n')
	}
	if err := os.WriteFile(rf, []byte(sb.String()), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	for i, v := range fresh {
		if i == 5 {
			fmt.Printf("... and %d more\n", len(fresh)-i)
			break
		}
		fmt.Printf("%s: [%s] %s\n", v.Pos, v.Rule, strings.SplitN(v.Msg, "\n", 2)[0])
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rf)
	return 1
}

// loadKnown reads the known findings of a property ("known: property=<id> <text>").
func loadKnown(file, id string) []string {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		if s := strings.TrimPrefix(l, "known: property="+id+" "); s != l && strings.TrimSpace(s) != "" {
			r = append(r, strings.TrimSpace(s))
		}
	}
	return r
}

func dbgMain(ent string) {
	t := time.Now()
	w, err := loadWorld()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var fn *ssa.Function
	for _, f := range w.prodFuncs() {
		if f.Name() == ent {
			fn = f
		}
	}
	if fn == nil {
		return
	}
	cfg := defaultCfg(w)
	if fn == w.release {
		cfg.Opaque = nil
	}
	if os.Getenv("HVCLI") != "" {
		cliCfg(nil)(w, &cfg)
	}
	e := newEngine(w, cfg)
	dbgProf = map[*ssa.Function]*prof{}
	e.Run(fn, &dbgMon{})
	dbgDump()
	for f, p := range dbgProf {
		fmt.Println("PROF", p.n, p.work, f.Name())
	}
	fmt.Println("work", e.work, "paths", e.paths, "events", e.events, "aborted", e.aborted, time.Since(t))
}
