package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

const modPath = "github.com/edwingeng/hotswap"

// World is the loaded program and its anchors.
type World struct {
	prog *ssa.Program
	pkgs []*packages.Package
	root *ssa.Package // package hotswap
	cmd  *ssa.Package // package cli/hotswap/cmd
	main *ssa.Package
	hut  *ssa.Package

	managerT, pluginT, pluginFuncsT, swapperT, staticPluginT *types.Named
	buildCmdT                                                *types.Named
	dirFld                                                   string

	hookFields   map[*types.Var]bool
	constGlobals map[*ssa.Global]int
	funcs        []*ssa.Function // all module functions with bodies, sorted
	astPkg       map[*ssa.Package]*packages.Package
	callers      map[*ssa.Function][]ssa.Instruction
	problems     []string
	release      *ssa.Function
	releaseErr   error
	pubF, cntF   string
	bindLoops    map[*Loop]bool
	joinLoops    map[*Loop]bool
	flags        map[string]*types.Var
	eff          map[*ssa.Function]*Effects
}

func loadWorld() (*World, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED="+cgo())
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: env, BuildFlags: []string{"-mod=readonly"}}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, pkgs: pkgs, hookFields: map[*types.Var]bool{}, constGlobals: map[*ssa.Global]int{}, astPkg: map[*ssa.Package]*packages.Package{}}
	for i, p := range sp {
		if p != nil {
			w.astPkg[p] = pkgs[i]
		}
	}
	find := func(path string) *ssa.Package {
		for _, p := range sp {
			if p != nil && p.Pkg.Path() == path {
				return p
			}
		}
		return nil
	}
	w.root = find(modPath)
	w.cmd = find(modPath + "/cli/hotswap/cmd")
	w.main = find(modPath + "/cli/hotswap")
	w.hut = find(modPath + "/internal/hutils")
	if w.root == nil || w.cmd == nil || w.main == nil || w.hut == nil {
		return nil, fmt.Errorf("packages of the module are missing")
	}
	named := func(p *ssa.Package, n string) *types.Named {
		o := p.Pkg.Scope().Lookup(n)
		if o == nil {
			w.problems = append(w.problems, "type "+n+" not found in "+p.Pkg.Path())
			return nil
		}
		t, _ := o.Type().(*types.Named)
		return t
	}
	w.managerT = named(w.root, "PluginManager")
	w.pluginT = named(w.root, "Plugin")
	w.pluginFuncsT = named(w.root, "PluginFuncs")
	w.swapperT = named(w.root, "PluginManagerSwapper")
	w.staticPluginT = named(w.root, "StaticPlugin")
	w.buildCmdT = named(w.cmd, "buildCmdT")
	if w.managerT == nil || w.pluginT == nil || w.pluginFuncsT == nil || w.swapperT == nil || w.staticPluginT == nil {
		return nil, fmt.Errorf("anchors not found: %s", strings.Join(w.problems, "; "))
	}
	if s, ok := w.pluginFuncsT.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Signature); ok {
				w.hookFields[s.Field(i)] = true
			}
		}
	}
	w.collectFuncs()
	w.globals()
	w.release, w.releaseErr = w.releaseFn()
	return w, nil
}

func cgo() string {
	if v := os.Getenv("CGO_ENABLED"); v != "" {
		return v
	}
	return "1"
}

func (w *World) isModPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func (w *World) inModule(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return w.isModPkg(f.Pkg.Pkg)
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return w.isModPkg(f.Object().Pkg())
		}
	}
	return false
}

func (w *World) collectFuncs() {
	for fn := range ssautil.AllFunctions(w.prog) {
		if w.inModule(fn) && fn.Blocks != nil {
			w.funcs = append(w.funcs, fn)
		}
	}
	sort.Slice(w.funcs, func(i, j int) bool {
		if w.funcs[i].String() != w.funcs[j].String() {
			return w.funcs[i].String() < w.funcs[j].String()
		}
		return w.funcs[i].Pos() < w.funcs[j].Pos()
	})
	w.callers = map[*ssa.Function][]ssa.Instruction{}
	for _, fn := range w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						w.callers[g] = append(w.callers[g], in)
					}
				}
			}
		}
	}
}

// prodFuncs are the hand-written (non synthetic) functions.
func (w *World) prodFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range w.funcs {
		if fn.Synthetic == "" {
			r = append(r, fn)
		}
	}
	return r
}

// globals finds the package-level variables which are never changed after initialisation.
func (w *World) globals() {
	bad := map[*ssa.Global]bool{}
	nn := map[*ssa.Global]bool{}
	var ops [16]*ssa.Value
	for _, fn := range w.funcs {
		init := fn.Synthetic == "package initializer"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL {
							continue
						}
					case *ssa.Store:
						if x.Addr == g && x.Val != g && init {
							if call, ok := x.Val.(*ssa.Call); ok {
								if c := call.Call.StaticCallee(); c != nil && w.errBuilder(c.String()) {
									nn[g] = true
								}
							}
							switch x.Val.(type) {
							case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function, *ssa.MakeSlice:
								nn[g] = true
							}
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					bad[g] = true
				}
			}
		}
	}
	for _, p := range w.prog.AllPackages() {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || bad[g] {
				continue
			}
			k := 1
			if !w.isModPkg(p.Pkg) || nn[g] {
				k = 2
			}
			w.constGlobals[g] = k
		}
	}
}

// pureExtern lists functions whose result depends on the arguments only.
func (w *World) pureExtern(name string) bool {
	switch name {
	case "(strings.Builder).String":
		return false
	case "path/filepath.Base", "path/filepath.Dir", "path/filepath.Join", "path/filepath.Ext", "path/filepath.Clean",
		"path.Join", "path.Base", "path.Dir", "path.Ext", "path/filepath.ToSlash", "path/filepath.FromSlash", "path/filepath.IsAbs",
		"crypto/sha1.Sum", "fmt.Sprintf", "fmt.Sprint", "reflect.TypeOf", "reflect.DeepEqual",
		"errors.Is", "unicode.IsUpper", "unicode.IsLower", "go/ast.IsExported", "go/token.IsExported",
		"strconv.Itoa", "strconv.Quote", "encoding/hex.EncodeToString",
		"(time.Duration).String", "(time.Time).Format", "(time.Time).UnixNano", "(time.Time).Unix", "bytes.Equal", "(*go/ast.Ident).IsExported",
		"(io/fs.FileInfo).Name", "(io/fs.DirEntry).Name", "(io/fs.DirEntry).IsDir", "(io/fs.FileInfo).IsDir",
		"(reflect.StructField).IsExported", "(reflect.StructTag).Get", "(reflect.StructTag).Lookup",
		"github.com/pierrec/xxHash/xxHash32.Checksum":
		return true
	}
	if strings.HasPrefix(name, "strings.") && !strings.Contains(name, "NewRe") {
		return !strings.Contains(name, "Split") && !strings.Contains(name, "Fields") && name != "strings.NewReader" && name != "strings.Map"
	}
	if strings.HasPrefix(name, "(reflect.Type).") {
		return true
	}
	return false
}

// quietExtern functions are left out of reports.
func (w *World) quietExtern(name string) bool {
	return strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(reflect.") ||
		strings.HasPrefix(name, "runtime/debug.") || isLogName(name)
}

func isLogName(name string) bool {
	return strings.Contains(name, "slog.Logger).") || strings.HasPrefix(name, "log.")
}

// isErrLog says whether a call reports a problem to the log.
func isErrLog(name string) bool {
	if !strings.Contains(name, "slog.Logger).") {
		return false
	}
	m := name[strings.LastIndex(name, ".")+1:]
	for _, p := range []string{"Error", "Warn", "Fatal", "Panic", "DPanic", "Info"} {
		if strings.HasPrefix(m, p) {
			return true
		}
	}
	return false
}

// readonlyExtern functions do not change the objects whose addresses they are given.
func (w *World) readonlyExtern(name string) bool {
	for _, p := range []string{"fmt.", "log.", "os.", "strings.", "errors.", "path/", "reflect.", "runtime", "time.", "(*sync.", "io/ioutil.", "plugin.", "(*plugin."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return isLogName(name)
}

// errBuilder functions always return a non-nil error.
func (w *World) errBuilder(name string) bool {
	switch name {
	case "fmt.Errorf", "errors.New", "errors.Join", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return true
	}
	return false
}

// ---- finding functions ----

func (w *World) method(t *types.Named, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	ms := w.prog.MethodSets.MethodSet(types.NewPointer(t))
	sel := ms.Lookup(t.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	fn := w.prog.MethodValue(sel)
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	return fn
}

func (w *World) function(p *ssa.Package, name string) *ssa.Function {
	fn := p.Func(name)
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	return fn
}

// fieldVar finds a (promoted) field of a struct type by name.
func fieldVar(t *types.Named, name string) *types.Var {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}
	return nil
}

// isFld says whether addr is the field name of an object of type t (possibly inside an embedded struct).
func isFld(addr *Term, name string) bool {
	return addr != nil && addr.Op == "fld" && addr.Aux == name
}

// managerField returns the manager whose field name the address denotes.
func (w *World) ownerOfField(addr *Term, t *types.Named, name string) *Term {
	if addr == nil || addr.Op != "fld" || addr.Aux != name {
		return nil
	}
	fv, _ := addr.Obj.(*types.Var)
	if fv == nil || fieldVar(t, name) != fv {
		return nil
	}
	return addr.Args[0]
}

// staticReach is the set of module functions reachable through static calls and closures.
func (w *World) staticReach(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		if !w.inModule(f) && !strings.HasPrefix(f.Synthetic, "bound method") {
			return
		}
		seen[f] = true
		var ops [16]*ssa.Value
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(ops[:0]) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	visit(fn)
	return seen
}

// externCalls lists the names of the functions outside of the module which fn calls directly.
func (w *World) externCalls(fn *ssa.Function) map[string]bool {
	r := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if cc.IsInvoke() {
				r["("+types.TypeString(cc.Value.Type(), nil)+")."+cc.Method.Name()] = true
			} else if g := cc.StaticCallee(); g != nil && !w.inModule(g) {
				r[g.String()] = true
			}
		}
	}
	return r
}

// hooksUsed lists the plugin functions which fn loads directly.
func (w *World) hooksUsed(fn *ssa.Function) map[string]bool {
	r := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				fv := st.Field(fa.Field)
				if w.hookFields[fv] {
					// only if it is loaded and called
					for _, u := range *fa.Referrers() {
						if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
							r[fv.Name()] = true
						}
					}
				}
			}
			if fe, ok := in.(*ssa.Field); ok {
				st := fe.X.Type().Underlying().(*types.Struct)
				if fv := st.Field(fe.Field); w.hookFields[fv] {
					r[fv.Name()] = true
				}
			}
		}
	}
	return r
}

// releaseFn finds the function which releases a manager: it drops the references of the plugins of a manager and
// invokes OnFree, and no other plugin function.
func (w *World) releaseFn() (*ssa.Function, error) {
	var cands []*ssa.Function
	info := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, fn := range w.prodFuncs() {
		if fn.Pkg != w.root || fn.Parent() != nil {
			continue
		}
		hasM, hasP := false, false
		for _, p := range fn.Params {
			n := namedOf(p.Type())
			if n == w.managerT {
				hasM = true
			}
			if n == w.pluginT {
				hasP = true
			}
		}
		if !hasM || hasP {
			continue
		}
		reach := w.staticReach(fn)
		dec, free, other := false, false, false
		for g := range reach {
			for n := range w.externCalls(g) {
				if strings.HasPrefix(n, "(*go.uber.org/atomic.Int") && (strings.HasSuffix(n, ").Dec") || strings.HasSuffix(n, ").Sub") || strings.HasSuffix(n, ").Add")) {
					dec = true
				}
			}
			for h := range w.hooksUsed(g) {
				if h == "fOnFree" {
					free = true
				} else {
					other = true
				}
			}
		}
		if dec && free && !other {
			cands = append(cands, fn)
			info[fn] = reach
		}
	}
	var inner []*ssa.Function
	for _, c := range cands {
		ok := true
		for _, d := range cands {
			if d != c && info[c][d] {
				ok = false
			}
		}
		if ok {
			inner = append(inner, c)
		}
	}
	if len(inner) != 1 {
		return nil, fmt.Errorf("expected one function which releases a manager, found %d", len(inner))
	}
	return inner[0], nil
}

// pos renders a position.
func (w *World) pos(p token.Pos) string { return posOf(w.prog, p) }

// fileOf returns the syntax of the file which contains p.
func (w *World) fileOf(p token.Pos) *ast.File {
	for _, pk := range w.pkgs {
		for _, f := range pk.Syntax {
			if f.FileStart <= p && p <= f.FileEnd {
				return f
			}
		}
	}
	return nil
}

func relPath(f string) string {
	if r, err := filepath.Rel(repoDir, f); err == nil {
		return r
	}
	return f
}

// needMethod finds a method of a type of the root package.
func (w *World) needMethod(typ, name string) (*ssa.Function, error) {
	o := w.root.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil, fmt.Errorf("type %s not found", typ)
	}
	n, _ := o.Type().(*types.Named)
	fn := w.method(n, name)
	if fn == nil || fn.Blocks == nil {
		return nil, fmt.Errorf("method %s.%s not found", typ, name)
	}
	return fn, nil
}

// needRootFunc finds a function of the root package.
func (w *World) needRootFunc(name string) (*ssa.Function, error) {
	if fn := w.root.Func(name); fn != nil && fn.Blocks != nil {
		return fn, nil
	}
	return nil, fmt.Errorf("function %s not found", name)
}
