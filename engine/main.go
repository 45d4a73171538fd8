package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program
type World struct {
	prog    *ssa.Program
	pkgs    map[string]*types.Package
	ssaPkgs map[string]*ssa.Package
	fset    *token.FileSet
	errs    []string
	fixable map[string]string
	immut   map[string]bool // globals never assigned outside package initialisation
	initVal map[string]ssa.Value
	files   map[string]bool
	lock    map[*ssa.Function]bool
	shared  map[string]bool
}

var repoDir = "/repo"

func loadWorld(paths []string, clients []Client) (*World, error) {
	overlay := map[string][]byte{}
	for i, c := range clients {
		src, err := os.ReadFile(c.File)
		if err != nil {
			return nil, err
		}
		overlay[filepath.Join(repoDir, strings.TrimPrefix(c.Pkg, repoPath), fmt.Sprintf("zz_contract_client%d.go", i))] = src
	}
	cfg := &packages.Config{Dir: repoDir, Overlay: overlay, Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile}
	pk, err := packages.Load(cfg, append(append([]string{}, paths...), "slices")...)
	if err != nil {
		return nil, err
	}
	w := &World{pkgs: map[string]*types.Package{}, ssaPkgs: map[string]*ssa.Package{}, immut: map[string]bool{}, initVal: map[string]ssa.Value{}, files: map[string]bool{}}
	for _, p := range pk {
		for _, e := range p.Errors {
			w.errs = append(w.errs, p.PkgPath+": "+e.Error())
		}
		for _, f := range p.CompiledGoFiles {
			w.files[f] = true
		}
	}
	prog, sp := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	w.fset = prog.Fset
	for _, p := range sp {
		if p != nil {
			w.ssaPkgs[p.Pkg.Path()] = p
		}
	}
	var addp func(p *types.Package)
	addp = func(p *types.Package) {
		if w.pkgs[p.Path()] != nil {
			return
		}
		w.pkgs[p.Path()] = p
		for _, i := range p.Imports() {
			addp(i)
		}
	}
	for _, p := range pk {
		if p.Types != nil {
			addp(p.Types)
		}
	}
	w.scanGlobals()
	w.scanTypes()
	return w, nil
}

func (w *World) scanTypes() {
	reg := func(t types.Type) { typeByKeyM[tkey(t)] = t }
	for _, p := range w.pkgs {
		sc := p.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if nt, ok := types.Unalias(tn.Type()).(*types.Named); ok && nt.TypeParams().Len() == 0 {
					if !types.IsInterface(nt) {
						reg(nt)
						reg(types.NewPointer(nt))
					}
				}
			}
		}
	}
	for _, b := range types.Typ {
		if b.Kind() != types.Invalid && b.Info()&types.IsUntyped == 0 {
			reg(b)
			reg(types.NewSlice(b))
			reg(types.NewPointer(b))
		}
	}
	for fn := range ssautil.AllFunctions(w.prog) {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch m := i.(type) {
				case *ssa.MakeInterface:
					reg(m.X.Type())
				case *ssa.TypeAssert:
					if !types.IsInterface(m.AssertedType) {
						reg(m.AssertedType)
					}
				}
			}
		}
	}
}

func (w *World) scanGlobals() {
	stored := map[*ssa.Global]bool{}
	var ops [8]*ssa.Value
	inits := map[*ssa.Global]int{}
	for fn := range ssautil.AllFunctions(w.prog) {
		isInit := fn.Synthetic == "package initializer"
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if isInit {
							inits[g]++
							w.initVal[g.Pkg.Pkg.Path()+"."+g.Name()] = st.Val
						} else {
							stored[g] = true
						}
					}
					if g, ok := st.Val.(*ssa.Global); ok {
						stored[g] = true
					}
					continue
				}
				if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL {
					continue
				}
				// anything else takes the address of the global
				for _, o := range i.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Global); ok {
						stored[g] = true
					}
				}
			}
		}
	}
	w.fixable = map[string]string{}
	for _, p := range w.ssaPkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !stored[g] && inits[g] == 1 {
				w.fixable[g.Pkg.Pkg.Path()+"."+g.Name()] = g.Name()
			}
			if g, ok := m.(*ssa.Global); ok && !stored[g] && inits[g] <= 1 && (!token.IsExported(g.Name()) || fixedType(g.Type().(*types.Pointer).Elem())) {
				n := g.Pkg.Pkg.Path() + "." + g.Name()
				w.immut[n] = true
				if inits[g] == 0 {
					delete(w.initVal, n)
				}
			}
		}
	}
}

// fix treats the named exported variables as constants, provided no source file of the repository assigns them
func (w *World) fix(pats []string) {
	for _, p := range pats {
		for n, short := range w.fixable {
			if globMatch(p, n) && !assignedInRepo(short) {
				w.immut[n] = true
			}
		}
	}
}

func assignedInRepo(name string) bool {
	re := regexp.MustCompile(`(\w\.` + name + `\s*([-+*/|&]?=[^=]|\+\+|--))|(&\s*\w+\.` + name + `\b)`)
	found := false
	filepath.WalkDir(repoDir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || found {
			return nil
		}
		if d.IsDir() && (d.Name() == ".git" || d.Name() == "vendor") {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			b, _ := os.ReadFile(p)
			found = found || re.Match(b)
		}
		return nil
	})
	return found
}

// exported variables of these types are sentinels: packages do not assign each other's
func fixedType(t types.Type) bool {
	k := tkey(t)
	return k == "error" || k == "*regexp.Regexp"
}

func listRepoPkgs(of []string) []string {
	args := append([]string{"list", "-deps", "-f", "{{.ImportPath}}"}, of...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	out, _ := cmd.Output()
	var r []string
	for _, l := range strings.Fields(string(out)) {
		if (l == repoPath || strings.HasPrefix(l, repoPath+"/")) && !strings.Contains(l, "appbuilder") && l != repoPath && l != repoPath+"/cmd" {
			r = append(r, l)
		}
	}
	return r
}

// ---------- units ----------

type UnitResult struct {
	c       *Contract
	x       *Exec
	fn      *ssa.Function
	err     string
	obls    []*Obl
	covers  []*Cover
	vacuous []string
	secs    float64
	tb      *TB
}

func (w *World) resolve(c *Contract) *ssa.Function {
	p := w.ssaPkgs[c.Pkg]
	if p == nil {
		return nil
	}
	find := func(name string) *ssa.Function {
		base := name
		var anon []string
		if i := strings.Index(name, "$"); i > 0 {
			anon = strings.Split(name[i+1:], "$")
			base = name[:i]
		}
		var fn *ssa.Function
		if c.Recv == "" {
			fn = p.Func(base)
		} else {
			tn := p.Type(strings.TrimPrefix(c.Recv, "*"))
			if tn == nil {
				return nil
			}
			var t types.Type = tn.Type()
			if strings.HasPrefix(c.Recv, "*") {
				t = types.NewPointer(t)
			}
			fn = w.prog.LookupMethod(t, p.Pkg, base)
			if fn != nil && fn.Synthetic != "" {
				fn = nil
			}
		}
		for _, a := range anon {
			if fn == nil {
				return nil
			}
			n := 0
			fmt.Sscanf(a, "%d", &n)
			if n < 1 || n > len(fn.AnonFuncs) {
				return nil
			}
			fn = fn.AnonFuncs[n-1]
		}
		return fn
	}
	return find(c.Fn)
}

// foreignAccess finds a function that touches field T.f (package of fn) without carrying its invariant
func (w *World) foreignAccess(fn *ssa.Function, tf string, db *SpecDB) string {
	i := strings.LastIndex(tf, ".")
	tn, field := tf[:i], tf[i+1:]
	owner := map[string]bool{}
	for _, c := range db.Verifs {
		for _, o := range c.Owns {
			if o == tf {
				owner[c.Key] = true
			}
		}
	}
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Pkg != fn.Pkg && !(f.Parent() != nil && f.Pkg == fn.Pkg) {
			continue
		}
		if owner[fnKey(f)] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				nt, ok := derefNamed(fa.X.Type())
				if !ok || nt.Obj().Name() != tn || nt.Obj().Pkg() != fn.Pkg.Pkg {
					continue
				}
				if nt.Underlying().(*types.Struct).Field(fa.Field).Name() != field {
					continue
				}
				// starting out with an empty map in a new object is fine
				if _, isNew := fa.X.(*ssa.Alloc); isNew && fa.Referrers() != nil {
					ok := true
					for _, r := range *fa.Referrers() {
						st, isS := r.(*ssa.Store)
						if !isS {
							ok = false
							break
						}
						mm, isM := st.Val.(*ssa.MakeMap)
						cn, isC := st.Val.(*ssa.Const)
						if !(isC && cn.IsNil()) && !(isM && len(*mm.Referrers()) == 1) {
							ok = false
						}
					}
					if ok {
						continue
					}
				}
				return f.String()
			}
		}
	}
	return ""
}

func ghostSort(t string) string {
	switch t {
	case "bool":
		return SBool
	case "int", "ref":
		return SInt
	case "string":
		return SStr
	case "any", "error":
		return SAny
	case "real":
		return SReal
	}
	if strings.HasPrefix(t, "set[") {
		return arr2(ghostSort(strings.TrimSuffix(t[4:], "]")), SBool)
	}
	if strings.HasPrefix(t, "map[") {
		i := strings.Index(t, "]")
		return arr2(ghostSort(t[4:i]), ghostSort(t[i+1:]))
	}
	panic("ghost type " + t)
}

func runUnit(w *World, db *SpecDB, c *Contract) (res *UnitResult) {
	st := time.Now()
	res = &UnitResult{c: c}
	defer func() {
		res.secs = time.Since(st).Seconds()
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				res.err = "contract does not apply: " + s.msg
			} else {
				res.err = fmt.Sprintf("engine: %v", r)
				if os.Getenv("VC_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}
	}()
	resetTerms()
	addrReg = map[string]*AddrV{}
	wrapReg = map[int][]*Term{}
	refLoads = map[int]bool{}
	res.tb = tb
	fn := c.fn
	if fn == nil {
		fn = w.resolve(c)
	}
	if fn == nil && c.Modular {
		// the helper is gone: its callers are verified against whatever replaced it
		res.x = nil
		return
	}
	if fn == nil {
		res.err = "function under contract not found: " + c.Key
		return
	}
	res.fn = fn
	x := NewExec(w.prog, db, c)
	x.w = w
	res.x = x
	for _, h := range c.Hooks {
		h.Hits, h.Guards = 0, nil
	}
	x.ghosts = map[string]string{}
	x.ghostInit["X|lock"] = mkConstArr(arr(SInt), tZero)
	x.sorts["X|lock"] = arr(SInt)
	state := &State{h: map[string]*Term{"X|lock": x.ghostInit["X|lock"]}, g: tTrue}
	x.entry = state
	env := &Env{x: x, vars: map[string]SV{}, pkg: w.pkgs[c.Pkg]}
	x.unitEnv = env
	var args []Val
	sig := fn.Signature
	for i, p := range fn.Params {
		v := x.havocVal(p.Type(), p.Name(), tTrue, true)
		args = append(args, v)
		var name string
		if sig.Recv() != nil {
			if i == 0 {
				name = c.RecvName
				if tm, ok := v.(*Term); ok && tm.Sort == SInt {
					if _, isP := types.Unalias(p.Type()).Underlying().(*types.Pointer); isP {
						x.assume(tTrue, mkNot(mkEq(tm, tZero)))
					}
				}
			} else if i-1 < len(c.Params) {
				name = c.Params[i-1]
			}
		} else if i < len(c.Params) {
			name = c.Params[i]
		}
		if name != "" && name != "_" {
			env.vars[name] = SV{v, p.Type()}
		}
	}
	var bind []Val
	for _, fv := range fn.FreeVars {
		v := x.havocVal(fv.Type(), fv.Name(), tTrue, true)
		if _, isP := types.Unalias(fv.Type()).Underlying().(*types.Pointer); isP {
			x.assume(tTrue, mkNot(mkEq(v.(*Term), tZero)))
		}
		bind = append(bind, v)
	}
	for _, g := range c.Ghosts {
		srt := ghostSort(g.Type)
		x.ghosts[g.Name] = srt
		init := zeroOf(srt)
		if g.Init != nil {
			init = x.ghostTerm(x.eval(g.Init, env, state, state), srt)
		}
		x.hset(state, "X|"+g.Name, init)
		x.ghostInit["X|"+g.Name] = init
	}
	x.sorts["X|now"] = SInt
	for _, r := range append(append([]Clause{}, c.Requires...), c.Invariants...) {
		x.assume(tTrue, x.evalBool(r, env, state, state))
	}
	for _, f := range x.assumes {
		noteDistinct(f)
	}
	for _, o := range c.Owns {
		if bad := w.foreignAccess(fn, o, db); bad != "" {
			res.err = fmt.Sprintf("field %s carries an invariant but is also used by %s", o, bad)
			return
		}
	}
	x.entry = state.clone()
	if len(c.Requires) > 0 {
		x.covered = append(x.covered, &Cover{Name: "requires", F: tTrue, NAssum: len(x.assumes)})
	}
	v, out := x.run(fn, args, bind, state)
	if out == nil {
		if len(c.Ensures) > 0 {
			res.err = "function never returns normally"
		}
	} else {
		rt := sig.Results()
		for i, r := range c.Results {
			if r == "_" || i >= rt.Len() {
				continue
			}
			if rt.Len() == 1 {
				env.vars[r] = SV{v, rt.At(0).Type()}
			} else {
				env.vars[r] = SV{v.(*TupleV).v[i], rt.At(i).Type()}
			}
		}
		x.stack = append(x.stack, fn)
		x.covered = append(x.covered, &Cover{Name: "return", F: out.g, NAssum: len(x.assumes)})
		for i, e := range c.Ensures {
			t := x.evalBool(e, env, out, x.entry)
			x.oblige(nz(e.Name, fmt.Sprintf("ensures %d", i+1)), "ensures", out.g, t, fn.Pos())
		}
		for i, e := range c.Invariants {
			t := x.evalBool(e, env, out, x.entry)
			x.oblige("invariant kept: "+nz(e.Name, fmt.Sprint(i+1)), "invariant", out.g, t, fn.Pos())
		}
		for _, cv := range c.Covers {
			t := x.evalBool(cv, env, out, x.entry)
			x.covered = append(x.covered, &Cover{Name: nz(cv.Name, cv.Src), F: mkAnd(out.g, t), NAssum: len(x.assumes)})
		}
		if c.Modular {
			x.frameObligations(c, env, out, fn)
		}
		for _, r := range c.Fresh {
			var isNew func(t *Term) *Term
			isNew = func(t *Term) *Term {
				switch {
				case t.Op == "ite":
					return mkIte(t.Args[0], isNew(t.Args[1]), isNew(t.Args[2]))
				case t.Op == "fresh", t == tZero:
					return tTrue
				}
				return tFalse
			}
			x.oblige(r+" is newly allocated", "frame", out.g, isNew(x.term(env.vars[r].v)), fn.Pos())
		}
		if c.Locks || c.Modular {
			idx := map[int]*Term{}
			fin := out.h["X|lock"]
			base := x.ghostInit["X|lock"]
			if !storesOver(fin, base, idx) {
				bvq := mkBV("m", SInt)
				x.oblige("locks are as on entry", "lock", out.g, mkQuant("forall", []*Term{bvq}, mkEq(mkSelect(fin, bvq), tZero)), fn.Pos())
			} else {
				for _, ix := range sortedTerms(idx) {
					x.oblige("lock "+lockName(ix)+" released on return", "lock", out.g, mkEq(mkSelect(fin, ix), tZero), fn.Pos())
				}
			}
		}
		x.stack = x.stack[:0]
	}
	for _, h := range c.Hooks {
		if h.Kind == "assert" && !h.Maybe && h.Hits == 0 && res.err == "" {
			res.err = "the call this contract is about is never made: " + h.Pat
		}
	}
	res.obls = x.obls
	res.covers = x.covered
	return
}

// frameObligations: a function used through its contract changes only what the contract says it modifies
func (x *Exec) frameObligations(c *Contract, env *Env, out *State, fn *ssa.Function) {
	exp := x.entry.clone()
	for _, m := range c.Modifies {
		x.havocLoc(m, env, exp, x.entry)
	}
	for _, k := range sortedKeys(out.h) {
		if strings.HasPrefix(k, "X|") || strings.HasPrefix(k, "IT|") {
			continue
		}
		fin := out.h[k]
		pre, ok := x.entry.h[k]
		if !ok {
			pre = initTerm(k, fin.Sort)
		}
		if fin == pre {
			continue
		}
		name := "changes only what it declares: " + k
		allowed := map[int]*Term{}
		if e, ok := exp.h[k]; ok && e != pre {
			if !isArr(fin.Sort) || !storesOver(e, pre, allowed) {
				continue
			}
		}
		idx := map[int]*Term{}
		if !isArr(fin.Sort) || strings.HasPrefix(k, "G|") || !storesOver(fin, pre, idx) {
			if !c.Frame {
				continue
			}
			x.oblige(name, "frame", out.g, mkEq(fin, pre), fn.Pos())
			continue
		}
		for _, ix := range sortedTerms(idx) {
			if rootOf(ix).Op == "fresh" {
				continue
			}
			var okIx func(ix *Term) *Term
			okIx = func(ix *Term) *Term {
				if ix.Op == "ite" {
					return mkIte(ix.Args[0], okIx(ix.Args[1]), okIx(ix.Args[2]))
				}
				if rootOf(ix).Op == "fresh" {
					return tTrue
				}
				goal := mkEq(mkSelect(fin, ix), mkSelect(pre, ix))
				for _, a := range sortedTerms(allowed) {
					goal = mkOr(goal, mkEq(a, ix))
				}
				return goal
			}
			goal := okIx(ix)
			x.oblige(name, "frame", out.g, goal, fn.Pos())
		}
	}
}

// relevant assumptions: all of the prefix, deduplicated
func premises(x *Exec, n int, extra ...*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	add := func(t *Term) {
		for _, c := range conjs(t) {
			if c != tTrue && !seen[c.ID] {
				seen[c.ID] = true
				out = append(out, c)
			}
		}
	}
	for _, e := range extra {
		add(e)
	}
	for _, a := range x.assumes[:n] {
		add(a)
	}
	return out
}

type Finding struct {
	Unit, Obl, Kind, Pos, Fn string
	Verdict                  string
	Model                    string
	Raw                      string
}

type Report struct {
	mu         sync.Mutex
	total      int
	discharged int
	simplified int
	byBackend  map[string]int
	maxSecs    float64
	findings   []Finding
	units      []string
	inlined    map[string]bool
	trusted    map[string]bool
	notes      map[string]int
	covers     int
	kinds      map[string]int
	files      map[string]bool
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	specDir := flag.String("contracts", "/verif/contracts", "")
	only := flag.String("unit", "", "only the unit with this label/key substring")
	evid := flag.String("evidence", "", "evidence file")
	harness := flag.String("harness", "/verif/harness", "")
	flag.StringVar(&repoDir, "repo", "/repo", "")
	flag.Parse()
	start := time.Now()
	if *tier == "" {
		*tier = "quick"
	}
	os.Exit(runProp(*prop, *tier, *specDir, *only, *evid, *harness, start))
}

func die(prop, msg string) int {
	fmt.Println("UNDECIDED:", msg)
	dir := filepath.Join("/tmp", "verif-replay")
	os.MkdirAll(dir, 0755)
	f := filepath.Join(dir, prop+".txt")
	os.WriteFile(f, []byte(msg+"\n"), 0644)
	fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, f)
	return 1
}

func runProp(prop, tier, specDir, only, evid, harness string, start time.Time) (rc int) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VC_DEBUG") != "" {
				debug.PrintStack()
			}
			rc = die(prop, fmt.Sprint("verifier error: ", r))
		}
	}()
	db := newSpecDB()
	db.load(filepath.Join(specDir, "common.spec"))
	fs, _ := filepath.Glob(filepath.Join(specDir, "*.spec"))
	for _, f := range fs {
		b := filepath.Base(f)
		if b != "common.spec" && b != prop+".spec" {
			continue
		}
		if b == prop+".spec" {
			db.load(f)
		}
	}
	var units []*Contract
	pk := map[string]bool{}
	for _, c := range db.Verifs {
		if c.Prop != prop {
			continue
		}
		pk[c.Pkg] = true
		if only != "" && !strings.Contains(c.Label+" "+c.Key, only) {
			continue
		}
		units = append(units, c)
	}
	for _, p := range db.Sweeps {
		pk[p] = true
	}
	if len(units) == 0 && len(db.Sweeps) == 0 {
		fmt.Println("no units for", prop)
		return die(prop, "no contracts")
	}
	var roots []string
	for p := range pk {
		roots = append(roots, p)
	}
	sort.Strings(roots)
	w, err := loadWorld(listRepoPkgs(roots), db.Clients)
	if err != nil {
		return die(prop, "cannot load the packages: "+err.Error())
	}
	for _, e := range w.errs {
		return die(prop, "the code does not type check: "+e)
	}
	if os.Getenv("VC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "loaded %d packages in %v\n", len(w.ssaPkgs), time.Since(start))
	}
	db.canon(w)
	w.fix(db.Fixed)
	for _, c := range w.sweep(db.Sweeps, db.Except, prop) {
		if only == "" || strings.Contains(c.Key, only) {
			units = append(units, c)
		}
	}
	workDir, _ = os.MkdirTemp("", "vcgen")
	if os.Getenv("VC_KEEP") == "" {
		defer os.RemoveAll(workDir)
	} else {
		fmt.Fprintln(os.Stderr, "queries in", workDir)
	}
	rep := &Report{byBackend: map[string]int{}, inlined: map[string]bool{}, trusted: map[string]bool{}, notes: map[string]int{}, kinds: map[string]int{}, files: map[string]bool{}}
	to := 20 * time.Second
	if tier == "thorough" {
		to = 120 * time.Second
	}
	for _, c := range units {
		r := runUnit(w, db, c)
		rep.add(r, to)
		if os.Getenv("VC_DEBUG") != "" || only != "" {
			fmt.Fprintf(os.Stderr, "unit %s: %d obligations, exec %.1fs, total %.1fs %s\n", unitName(c), len(r.obls), r.secs, time.Since(start).Seconds(), r.err)
		}
	}
	return finishProp(prop, tier, rep, evid, harness, start)
}

func unitName(c *Contract) string {
	k := strings.ReplaceAll(c.Key, repoPath+"/", "")
	if c.Label != "" {
		return c.Label + " [" + k + "]"
	}
	return k
}

func (rep *Report) add(r *UnitResult, to time.Duration) {
	u := unitName(r.c)
	rep.units = append(rep.units, u)
	if r.x != nil {
		for k := range r.x.inlined {
			rep.inlined[k] = true
		}
		for k := range r.x.trusted {
			rep.trusted[k] = true
		}
		for k, n := range r.x.notes {
			rep.notes[k] += n
		}
	}
	if r.err != "" {
		rep.total++
		rep.findings = append(rep.findings, Finding{Unit: u, Obl: r.err, Kind: "undecided", Verdict: "not applicable", Fn: r.c.Key})
		return
	}
	x := r.x
	var wg sync.WaitGroup
	lim := make(chan struct{}, runtime.NumCPU())
	for _, o := range r.obls {
		o := o
		trivial := o.Guard == tFalse || o.Goal == tTrue
		rep.mu.Lock()
		rep.total++
		rep.kinds[o.Kind]++
		if trivial {
			rep.discharged++
			rep.simplified++
			rep.byBackend["simplifier"]++
		}
		rep.mu.Unlock()
		if trivial {
			continue
		}
		pos := x.prog.Fset.Position(o.Pos)
		wg.Add(1)
		lim <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-lim }()
			s := prove(x, o, r.c.Fn+"_"+o.Name, to)
			o.Verdict = s
			rep.mu.Lock()
			defer rep.mu.Unlock()
			if os.Getenv("VC_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "  [%s] %s %s (%.1fs)\n", s.Verdict, o.Name, s.Backend, s.Secs)
			}
			if s.Verdict == "unsat" {
				rep.discharged++
				rep.byBackend[s.Backend]++
				if s.Secs > rep.maxSecs {
					rep.maxSecs = s.Secs
				}
				return
			}
			rep.findings = append(rep.findings, Finding{Unit: u, Obl: o.Name, Kind: o.Kind, Pos: fmt.Sprintf("%s:%d", strings.TrimPrefix(pos.Filename, repoDir+"/"), pos.Line), Fn: o.Fn, Verdict: s.Verdict, Model: s.Model, Raw: s.Raw})
		}()
	}
	wg.Wait()
	// vacuity
	hookReach := map[string][]*Cover{}
	var rest []*Cover
	for _, c := range r.covers {
		if strings.HasPrefix(c.Name, "reach:") {
			hookReach[c.Name] = append(hookReach[c.Name], c)
		} else {
			rest = append(rest, c)
		}
	}
	check := func(name string, cs []*Cover) {
		dead := true
		for _, c := range cs {
			emitMu.Lock()
			fs := premises(x, c.NAssum, c.F)
			emitMu.Unlock()
			if !quickUnsat(fs, "cover", to/8) {
				dead = false
				break
			}
		}
		rep.mu.Lock()
		defer rep.mu.Unlock()
		rep.covers++
		if dead {
			rep.total++
			rep.findings = append(rep.findings, Finding{Unit: u, Obl: "vacuous: " + name + " is unreachable under the assumptions", Kind: "vacuity", Verdict: "unsat", Fn: r.c.Key})
		}
	}
	for n, cs := range hookReach {
		n, cs := n, cs
		wg.Add(1)
		go func() { defer wg.Done(); check(n, cs) }()
	}
	for _, c := range rest {
		c := c
		wg.Add(1)
		go func() { defer wg.Done(); check(c.Name, []*Cover{c}) }()
	}
	wg.Wait()
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, strings.ReplaceAll(k, repoPath+"/", ""))
	}
	sort.Strings(r)
	return r
}

func finishProp(prop, tier string, rep *Report, evid, harness string, start time.Time) int {
	sort.Slice(rep.findings, func(i, j int) bool {
		return rep.findings[i].Unit+rep.findings[i].Obl < rep.findings[j].Unit+rep.findings[j].Obl
	})
	for _, f := range rep.findings {
		fmt.Printf("FAILED %s: %s [%s] at %s in %s -> %s\n", f.Unit, f.Obl, f.Kind, f.Pos, f.Fn, f.Verdict)
	}
	viol, hinfo := conclude(prop, tier, rep, harness)
	ev := evidence(prop, tier, rep, viol, hinfo, time.Since(start).Seconds())
	if evid == "" {
		evid = filepath.Join("/verif/evidence", prop+".json")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(evid), 0755)
	if err := os.WriteFile(evid, append(b, '\n'), 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	fmt.Printf("%s: %d units, %d obligations, %d discharged, %d findings, %.1fs\n", prop, len(rep.units), rep.total, rep.discharged, len(rep.findings), time.Since(start).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}
