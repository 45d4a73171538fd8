package main

// SMT-LIB emission and solver portfolio

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type emitter struct {
	native   bool // SMT string theory
	out      bytes.Buffer
	decl     map[string]bool
	names    map[int]string
	defs     []string
	refcnt   map[int]int
	sym      map[string]string
	symUsed  map[string]bool
	needsLam bool
	strs     map[string]string
	strOrd   []string
	axioms   []string
	fnOrd    map[string]int
}

func (e *emitter) sort(s string) string {
	if e.native {
		s = regexp.MustCompile(`\bStr\b`).ReplaceAllString(s, "String")
	}
	return s
}

func (e *emitter) ident(kind, s string) string {
	k := kind + ":" + s
	if n, ok := e.sym[k]; ok {
		return n
	}
	var b strings.Builder
	b.WriteString(kind)
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	n := b.String()
	if len(n) > 60 {
		n = n[:60]
	}
	base := n
	for i := 1; e.symUsed[n]; i++ {
		n = fmt.Sprintf("%s~%d", base, i)
	}
	e.symUsed[n] = true
	e.sym[k] = n
	return n
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString(`""`)
		} else if c == '\\' || c < 32 || c > 126 {
			fmt.Fprintf(&b, `\u{%x}`, c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (e *emitter) declFun(name string, args []string, res string) {
	if e.decl[name] {
		return
	}
	e.decl[name] = true
	for i := range args {
		args[i] = e.sort(args[i])
	}
	fmt.Fprintf(&e.out, "(declare-fun %s (%s) %s)\n", name, strings.Join(args, " "), e.sort(res))
}

func argSorts(t *Term) []string {
	var r []string
	for _, a := range t.Args {
		r = append(r, a.Sort)
	}
	return r
}

// head declares everything t needs and returns the operator text
func (e *emitter) prep(t *Term) {
	switch t.Op {
	case "var":
		e.declFun(e.ident("v_", t.S), nil, t.Sort)
	case "app":
		e.declFun(e.ident("f_", t.S), argSorts(t), t.Sort)
	case "box":
		e.declFun(e.ident("box_", t.S), argSorts(t), SAny)
		e.declFun("typeof", []string{SAny}, SInt)
		for i, a := range t.Args {
			e.declFun(e.ident("unb_", fmt.Sprintf("%s#%d", t.S, i)), []string{SAny}, a.Sort)
		}
	case "unbox":
		e.declFun(e.ident("unb_", t.S), []string{SAny}, t.Sort)
	case "typeof":
		e.declFun("typeof", []string{SAny}, SInt)
	case "sub":
		e.declFun(e.ident("sub_", t.S), []string{SInt}, SInt)
		e.declFun(e.ident("isub_", t.S), []string{SInt}, SInt)
		e.declFun("rtag", []string{SInt}, SInt)
	case "elt":
		e.declFun("elt", []string{SInt, SInt}, SInt)
		e.declFun("ielt_b", []string{SInt}, SInt)
		e.declFun("ielt_i", []string{SInt}, SInt)
		e.declFun("rtag", []string{SInt}, SInt)
	case "str":
		if !e.native {
			if _, ok := e.strs[t.S]; !ok {
				n := fmt.Sprintf("str%d", len(e.strs))
				e.strs[t.S] = n
				e.strOrd = append(e.strOrd, t.S)
				fmt.Fprintf(&e.out, "(declare-const %s Str) ; %q\n", n, t.S)
			}
		}
	case "nilany":
		e.declFun("typeof", []string{SAny}, SInt)
	case "immref":
		e.declFun(e.immName(t), argSorts(t), SInt)
		e.declFun("rtag", []string{SInt}, SInt)
	case "strcat":
		if !e.native {
			e.declFun("u_cat", []string{SStr, SStr}, SStr)
		}
	case "strlen":
		if !e.native {
			e.declFun("u_len", []string{SStr}, SInt)
		}
	case "prefixof", "suffixof", "contains":
		if !e.native {
			e.declFun("u_"+t.Op, []string{SStr, SStr}, SBool)
		}
	}
}

func (e *emitter) op(t *Term) string { // text given printed args
	a := make([]string, len(t.Args))
	if t.Op != "forall" && t.Op != "exists" && t.Op != "lam" && t.Op != "catrow" {
		for i, x := range t.Args {
			a[i] = e.ref(x)
		}
	}
	ap := func(f string) string {
		if len(a) == 0 {
			return f
		}
		return "(" + f + " " + strings.Join(a, " ") + ")"
	}
	switch t.Op {
	case "int":
		if strings.HasPrefix(t.S, "-") {
			return "(- " + t.S[1:] + ")"
		}
		return t.S
	case "real":
		return t.S
	case "bool":
		return t.S
	case "fresh":
		return "(- " + t.S + ")"
	case "immref":
		return ap(e.immName(t))
	case "gref":
		return strconv.Itoa(1000000000 + e.ord("g:"+t.S))
	case "fnc":
		return strconv.Itoa(2000000000 + e.ord("f:"+t.S))
	case "nilany":
		return "nilAny"
	case "str":
		if e.native {
			return smtStr(t.S)
		}
		return e.strs[t.S]
	case "var":
		return e.ident("v_", t.S)
	case "bvar":
		return e.ident("b_", t.S)
	case "app":
		return ap(e.ident("f_", t.S))
	case "box":
		return ap(e.ident("box_", t.S))
	case "unbox":
		return ap(e.ident("unb_", t.S))
	case "typeof":
		return ap("typeof")
	case "sub":
		return ap(e.ident("sub_", t.S))
	case "elt":
		return ap("elt")
	case "not", "and", "or", "=>", "ite", "=", "<", "<=", "+", "*", "select", "store":
		return ap(t.Op)
	case "+r":
		return ap("+")
	case "-r":
		return ap("-")
	case "*r":
		return ap("*")
	case "/r":
		return ap("/")
	case "toreal":
		return ap("to_real")
	case "toint":
		return ap("to_int")
	case "tdiv":
		return fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a[0], a[0], a[1], a[0], a[1])
	case "tmod":
		return fmt.Sprintf("(- %s (* %s (ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))))", a[0], a[1], a[0], a[0], a[1], a[0], a[1])
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", e.sort(t.Sort), a[0])
	case "strcat":
		if e.native {
			return ap("str.++")
		}
		r := a[len(a)-1]
		for i := len(a) - 2; i >= 0; i-- {
			r = "(u_cat " + a[i] + " " + r + ")"
		}
		return r
	case "strlen":
		if e.native {
			return ap("str.len")
		}
		return ap("u_len")
	case "prefixof":
		if e.native {
			return ap("str.prefixof")
		}
		return ap("u_prefixof")
	case "suffixof":
		if e.native {
			return ap("str.suffixof")
		}
		return ap("u_suffixof")
	case "contains":
		if e.native {
			return ap("str.contains")
		}
		return ap("u_contains")
	case "forall", "exists", "lam":
		q := t.Op
		if q == "lam" {
			q = "lambda"
			e.needsLam = true
		}
		var bs []string
		for _, b := range t.Args[:len(t.Args)-1] {
			bs = append(bs, fmt.Sprintf("(%s %s)", e.ident("b_", b.S), e.sort(b.Sort)))
		}
		body := e.body(t.Args[len(t.Args)-1])
		return fmt.Sprintf("(%s (%s) %s)", q, strings.Join(bs, " "), body)
	case "catrow":
		e.needsLam = true
		bv := mkBV("k", SInt)
		// bypass select simplification by expanding here
		b := mkSelect(t, bv)
		return fmt.Sprintf("(lambda ((%s Int)) %s)", e.ident("b_", bv.S), e.body(b))
	}
	panic("smt: unknown op " + t.Op)
}

func (e *emitter) immName(t *Term) string {
	n := "immref"
	for _, a := range t.Args {
		n += "_" + a.Sort
	}
	return e.ident("f_", n)
}

// body prints a quantifier body; ground parts are shared through definitions made beforehand
func (e *emitter) body(t *Term) string {
	e.prepAll(t)
	// share repeated non-ground subterms via let
	cnt := map[int]int{}
	var order []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		if len(x.bvs) == 0 || x.Op == "bvar" {
			return
		}
		cnt[x.ID]++
		if cnt[x.ID] > 1 {
			return
		}
		if x.Op != "forall" && x.Op != "exists" && x.Op != "lam" && x.Op != "catrow" {
			for _, a := range x.Args {
				walk(a)
			}
		}
		order = append(order, x)
	}
	walk(t)
	var lets []string
	saved := map[int]string{}
	for _, x := range order {
		if cnt[x.ID] > 1 && x != t && len(x.Args) > 0 {
			n := fmt.Sprintf("l%d", x.ID)
			lets = append(lets, fmt.Sprintf("(%s %s)", n, e.op(x)))
			saved[x.ID] = e.names[x.ID]
			e.names[x.ID] = n
		}
	}
	r := e.ref(t)
	for i := len(lets) - 1; i >= 0; i-- {
		r = "(let (" + lets[i] + ") " + r + ")"
	}
	for id, o := range saved {
		if o == "" {
			delete(e.names, id)
		} else {
			e.names[id] = o
		}
	}
	return r
}

func (e *emitter) ord(k string) int {
	if n, ok := e.fnOrd[k]; ok {
		return n
	}
	e.fnOrd[k] = len(e.fnOrd) + 1
	return e.fnOrd[k]
}

func (e *emitter) ref(t *Term) string {
	if n, ok := e.names[t.ID]; ok {
		return n
	}
	return e.op(t)
}

// prepAll declares symbols and defines shared ground terms, bottom up
func (e *emitter) prepAll(t *Term) {
	type fr struct {
		t *Term
		i int
	}
	done := e.refcnt
	var rec func(t *Term)
	rec = func(t *Term) {
		if done[t.ID] != 0 {
			return
		}
		done[t.ID] = 1
		for _, a := range t.Args {
			rec(a)
		}
		if t.Op == "catrow" {
			// expansion may create new terms
			rec(mkSelect(t, mkBV("k", SInt)))
		}
		e.prep(t)
		e.axiom(t)
		if len(t.bvs) == 0 && len(t.Args) > 0 && t.Op != "lam" && t.Op != "catrow" {
			n := fmt.Sprintf("t%d", t.ID)
			txt := e.op(t)
			if len(txt) > 24 {
				fmt.Fprintf(&e.out, "(define-fun %s () %s %s)\n", n, e.sort(t.Sort), txt)
				e.names[t.ID] = n
			}
		}
	}
	rec(t)
}

func (e *emitter) axiom(t *Term) {
	ax := func(f string, a ...any) { e.axioms = append(e.axioms, fmt.Sprintf(f, a...)) }
	if len(t.bvs) > 0 {
		// general axioms, once per symbol
		key := "ax:" + t.Op + ":" + t.S
		if e.decl[key] {
			return
		}
		switch t.Op {
		case "box":
			e.decl[key] = true
			var vs, ns []string
			for i, a := range t.Args {
				vs = append(vs, fmt.Sprintf("(x%d %s)", i, e.sort(a.Sort)))
				ns = append(ns, fmt.Sprintf("x%d", i))
			}
			if len(vs) == 0 {
				return
			}
			b := fmt.Sprintf("(%s %s)", e.ident("box_", t.S), strings.Join(ns, " "))
			var cs []string
			cs = append(cs, fmt.Sprintf("(= (typeof %s) %d)", b, typeID(t.S)))
			for i := range t.Args {
				cs = append(cs, fmt.Sprintf("(= (%s %s) x%d)", e.ident("unb_", fmt.Sprintf("%s#%d", t.S, i)), b, i))
			}
			ax("(forall (%s) (! (and %s) :pattern (%s)))", strings.Join(vs, " "), strings.Join(cs, " "), b)
		case "sub":
			e.decl[key] = true
			f := e.ident("sub_", t.S)
			ax("(forall ((x Int)) (! (and (= (%s (%s x)) x) (= (rtag (%s x)) %d)) :pattern ((%s x))))", e.ident("isub_", t.S), f, f, e.ord("sub:"+t.S)+10, f)
		case "elt":
			e.decl[key] = true
			ax("(forall ((x Int) (i Int)) (! (and (= (ielt_b (elt x i)) x) (= (ielt_i (elt x i)) i) (= (rtag (elt x i)) 1)) :pattern ((elt x i))))")
		case "typeof":
			e.decl[key] = true
			ax("(forall ((x Any)) (! (=> (= (typeof x) 0) (= x nilAny)) :pattern ((typeof x))))")
		case "strlen":
			if !e.native {
				e.decl[key] = true
				ax("(forall ((x Str)) (! (>= (u_len x) 0) :pattern ((u_len x))))")
			}
		}
		return
	}
	switch t.Op {
	case "box":
		b := e.op(t)
		ax("(= (typeof %s) %d)", b, typeID(t.S))
		for i, a := range t.Args {
			ax("(= (%s %s) %s)", e.ident("unb_", fmt.Sprintf("%s#%d", t.S, i)), b, e.ref(a))
		}
	case "nilany":
		ax("(= (typeof nilAny) 0)")
	case "typeof":
		ax("(=> (= %s 0) (= %s nilAny))", e.op(t), e.ref(t.Args[0]))
		ax("(>= %s 0)", e.op(t))
	case "sub":
		s := e.op(t)
		ax("(= (%s %s) %s)", e.ident("isub_", t.S), s, e.ref(t.Args[0]))
		ax("(= (rtag %s) %d)", s, e.ord("sub:"+t.S)+10)
	case "elt":
		s := e.op(t)
		ax("(= (ielt_b %s) %s)", s, e.ref(t.Args[0]))
		ax("(= (ielt_i %s) %s)", s, e.ref(t.Args[1]))
		ax("(= (rtag %s) 1)", s)
	case "immref":
		ax("(< 0 %s)", e.op(t))
		ax("(= (rtag %s) 2)", e.op(t))
	case "fresh":
		if e.decl["rtag"] {
			ax("(= (rtag %s) 0)", e.op(t))
		}
	case "var":
		if t.Sort == SInt && tb.nonfr[t.S] {
			ax("(>= %s 0)", e.ident("v_", t.S))
		} else if lim, ok := tb.frLim[t.S]; ok && t.Sort == SInt {
			ax("(>= %s (- %d))", e.ident("v_", t.S), lim)
		}
	case "select":
		if t.Sort == SInt && notFresh(t) && refLoads[t.ID] {
			ax("(>= %s 0)", e.op(t))
		}
	case "strlen":
		if !e.native {
			ax("(>= %s 0)", e.op(t))
			ax("(=> (= %s 0) (= %s %s))", e.op(t), e.ref(t.Args[0]), e.emptyStr())
		}
	case "str":
		if !e.native {
			e.declFun("u_len", []string{SStr}, SInt)
			ax("(= (u_len %s) %d)", e.strs[t.S], len(t.S))
		}
	}
}

func (e *emitter) emptyStr() string {
	if _, ok := e.strs[""]; !ok {
		n := fmt.Sprintf("str%d", len(e.strs))
		e.strs[""] = n
		e.strOrd = append(e.strOrd, "")
		fmt.Fprintf(&e.out, "(declare-const %s Str)\n", n)
	}
	return e.strs[""]
}

var refLoads = map[int]bool{}

// emit builds a query asserting all of fs
func emitQuery(fs []*Term, native bool) (string, bool) {
	e := &emitter{native: native, decl: map[string]bool{}, names: map[int]string{}, refcnt: map[int]int{}, sym: map[string]string{}, symUsed: map[string]bool{}, strs: map[string]string{}, fnOrd: map[string]int{}}
	e.out.WriteString("(set-option :produce-models true)\n(declare-sort Any 0)\n(declare-const nilAny Any)\n")
	if !native {
		e.out.WriteString("(declare-sort Str 0)\n")
	}
	e.declFun("typeof", []string{SAny}, SInt)
	e.out.WriteString("(assert (= (typeof nilAny) 0))\n")
	for _, f := range fs {
		e.prepAll(f)
	}
	var as []string
	for _, f := range fs {
		as = append(as, e.ref(f))
	}
	for _, a := range e.axioms {
		fmt.Fprintf(&e.out, "(assert %s)\n", a)
	}
	if !native && len(e.strOrd) > 1 {
		var ns []string
		for _, s := range e.strOrd {
			ns = append(ns, e.strs[s])
		}
		fmt.Fprintf(&e.out, "(assert (distinct %s))\n", strings.Join(ns, " "))
	}
	for _, a := range as {
		fmt.Fprintf(&e.out, "(assert %s)\n", a)
	}
	e.out.WriteString("(check-sat)\n")
	return e.out.String(), e.needsLam
}

type solveRes struct {
	Verdict string // unsat sat unknown
	Backend string
	Secs    float64
	Model   string
	Raw     string
}

var (
	workDir    string
	queryN     int64
	solverSecs int64 // milliseconds total
	solverRuns int64
	solverSem  = make(chan struct{}, 8)
)

func runSolver(ctx context.Context, bin []string, file string, to time.Duration) (string, string, time.Duration) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "unknown", "cancelled", 0
	}
	c, cancel := context.WithTimeout(ctx, to+2*time.Second)
	defer cancel()
	st := time.Now()
	cmd := exec.CommandContext(c, bin[0], append(bin[1:], file)...)
	out, _ := cmd.CombinedOutput()
	d := time.Since(st)
	atomic.AddInt64(&solverSecs, d.Milliseconds())
	atomic.AddInt64(&solverRuns, 1)
	first := "unknown"
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			first = l
			break
		}
	}
	return first, string(out), d
}

// solve decides satisfiability of the conjunction; tries encodings in turn
func solve(fs []*Term, name string, to time.Duration, wantModel bool) solveRes {
	for _, f := range fs {
		if f == tFalse {
			return solveRes{Verdict: "unsat", Backend: "simplifier"}
		}
	}
	emitMu.Lock()
	uf, lamU := emitQuery(fs, false)
	nat, lamN := emitQuery(fs, true)
	emitMu.Unlock()
	id := atomic.AddInt64(&queryN, 1)
	base := filepath.Join(workDir, fmt.Sprintf("q%d_%s", id, sanitize(name)))
	ufF, natF := base+".u.smt2", base+".n.smt2"
	os.WriteFile(ufF, []byte(uf), 0644)
	if wantModel {
		nat += "(get-model)\n"
	}
	os.WriteFile(natF, []byte(nat), 0644)
	defer func() {
		if os.Getenv("VC_KEEP") == "" {
			os.Remove(ufF)
			os.Remove(natF)
		}
	}()
	secs := func(d time.Duration) string { return fmt.Sprintf("-T:%d", max(1, int(d.Seconds()))) }
	type job struct {
		bin   []string
		file  string
		tag   string
		refut bool // sat verdicts meaningful
	}
	short := to / 4
	if short < 2*time.Second {
		short = 2 * time.Second
	}
	// stage 1: quick UF
	v, raw, d := runSolver(context.Background(), []string{"z3-new", secs(short)}, ufF, short)
	if v == "unsat" {
		return solveRes{v, "z3-5.3.2/uf-strings", d.Seconds(), "", raw}
	}
	if strings.Contains(raw, "error") && os.Getenv("VC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "SMT ERROR", ufF, firstLines(raw, 3))
	}
	jobs := []job{{[]string{"z3-new", secs(to)}, natF, "z3-5.3.2/strings", true}, {[]string{"z3-new", secs(to), "smt.mbqi=false"}, ufF, "z3-5.3.2/uf-strings/ematch", false},
		{[]string{"z3-new", secs(to), "smt.random_seed=7", "smt.arith.solver=2"}, ufF, "z3-5.3.2/uf-strings/s7", false}}
	if !lamN && !lamU {
		jobs = append(jobs, job{[]string{"cvc5", "--produce-models", fmt.Sprintf("--tlimit=%d", to.Milliseconds())}, ufF, "cvc5-1.1.2/uf-strings", false},
			job{[]string{"cvc5", "--strings-exp", "--produce-models", fmt.Sprintf("--tlimit=%d", to.Milliseconds())}, natF, "cvc5-1.1.2/strings", true})
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct {
		v, raw string
		d      time.Duration
		j      job
	}
	ch := make(chan res, len(jobs))
	for _, j := range jobs {
		go func(j job) {
			v, raw, d := runSolver(ctx, j.bin, j.file, to)
			ch <- res{v, raw, d, j}
		}(j)
	}
	best := solveRes{Verdict: "unknown", Raw: raw}
	for range jobs {
		r := <-ch
		if r.v == "unsat" {
			return solveRes{"unsat", r.j.tag, r.d.Seconds(), "", r.raw}
		}
		if r.v == "sat" && r.j.refut {
			return solveRes{"sat", r.j.tag, r.d.Seconds(), r.raw, r.raw}
		}
		if r.v == "sat" {
			best.Raw = "(uf-strings sat)\n"
		}
	}
	return best
}

var emitMu sync.Mutex

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	r := b.String()
	if len(r) > 60 {
		r = r[:60]
	}
	return r
}
func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// quickSat: is the conjunction satisfiable? used for vacuity (unsat is the only meaningful answer)
func quickUnsat(fs []*Term, name string, to time.Duration) bool {
	for _, f := range fs {
		if f == tFalse {
			return true
		}
	}
	emitMu.Lock()
	uf, _ := emitQuery(fs, true)
	emitMu.Unlock()
	id := atomic.AddInt64(&queryN, 1)
	f := filepath.Join(workDir, fmt.Sprintf("v%d_%s.smt2", id, sanitize(name)))
	os.WriteFile(f, []byte(uf), 0644)
	defer func() {
		if os.Getenv("VC_KEEP") == "" {
			os.Remove(f)
		}
	}()
	v, _, _ := runSolver(context.Background(), []string{"z3-new", fmt.Sprintf("-T:%d", int(to.Seconds()))}, f, to)
	return v == "unsat"
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
