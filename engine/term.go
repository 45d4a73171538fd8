package main

// Hash-consed terms with a light simplifier.  Sorts are SMT-LIB sort strings.

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	Op   string
	S    string
	Sort string
	Args []*Term
	ID   int
	bvs  []*Term // free bound variables
	frs  bool    // contains a fresh ref constant
}

const (
	SBool = "Bool"
	SInt  = "Int"
	SReal = "Real"
	SStr  = "Str"
	SAny  = "Any"
)

func arr(v string) string     { return "(Array Int " + v + ")" }
func arr2(k, v string) string { return "(Array " + k + " " + v + ")" }
func isArr(s string) bool     { return strings.HasPrefix(s, "(Array ") }
func arrRange(s string) string { // range sort of array sort
	in := s[7 : len(s)-1]
	// skip first sort
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}
func arrDom(s string) string {
	in := s[7 : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i]
			}
		}
	}
	panic("bad array sort " + s)
}

type TB struct {
	tab      map[string]*Term
	next     int
	selMem   map[[2]int]*Term
	bvn      int
	symIdx   map[string]int // creation index of var / uf names
	symN     int
	frN      int
	ufSig    map[string][]string // name -> arg sorts..., result
	nonfr    map[string]bool     // variables known not to be fresh references
	frLim    map[string]int      // variables known not to be fresh references numbered above this
	distinct map[[2]int]bool     // pairs of references that are known to be different
}

var tb = newTB()

func newTB() *TB {
	return &TB{tab: map[string]*Term{}, selMem: map[[2]int]*Term{}, symIdx: map[string]int{}, ufSig: map[string][]string{}, nonfr: map[string]bool{}, frLim: map[string]int{}, distinct: map[[2]int]bool{}}
}

func mk(op, s, srt string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	b.WriteByte('|')
	b.WriteString(srt)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t, ok := tb.tab[k]; ok {
		return t
	}
	tb.next++
	t := &Term{Op: op, S: s, Sort: srt, Args: args, ID: tb.next}
	if op == "bvar" {
		t.bvs = []*Term{t}
	}
	if op == "fresh" {
		t.frs = true
	}
	seen := map[int]bool{}
	for _, a := range args {
		if a.frs {
			t.frs = true
		}
		for _, v := range a.bvs {
			if !seen[v.ID] {
				seen[v.ID] = true
				t.bvs = append(t.bvs, v)
			}
		}
	}
	if op == "forall" || op == "exists" || op == "lam" {
		bound := map[int]bool{}
		for _, a := range args[:len(args)-1] {
			bound[a.ID] = true
		}
		var fb []*Term
		for _, v := range t.bvs {
			if !bound[v.ID] {
				fb = append(fb, v)
			}
		}
		t.bvs = fb
	}
	tb.tab[k] = t
	return t
}

var (
	tTrue  = mk("bool", "true", SBool)
	tFalse = mk("bool", "false", SBool)
	tZero  = mk("int", "0", SInt)
	tOne   = mk("int", "1", SInt)
)

// noteDistinct records the references that f, an assumption of the whole unit, says are different
func noteDistinct(f *Term) {
	switch f.Op {
	case "and":
		for _, a := range f.Args {
			noteDistinct(a)
		}
	case "not":
		if e := f.Args[0]; e.Op == "=" && e.Args[0].Sort == SInt && !isConst(e.Args[0]) && !isConst(e.Args[1]) {
			a, b := e.Args[0].ID, e.Args[1].ID
			if a > b {
				a, b = b, a
			}
			tb.distinct[[2]int{a, b}] = true
		} else if e.Op == "or" {
			for _, a := range e.Args {
				noteDistinct(mkNot(a))
			}
		}
	}
}

func resetTerms() {
	tb = newTB()
	tTrue = mk("bool", "true", SBool)
	tFalse = mk("bool", "false", SBool)
	tZero = mk("int", "0", SInt)
	tOne = mk("int", "1", SInt)
	nilAnyT = nil
}

func mkInt(n int64) *Term  { return mk("int", strconv.FormatInt(n, 10), SInt) }
func mkBig(s string) *Term { return mk("int", s, SInt) }
func mkStr(s string) *Term { return mk("str", s, SStr) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var nilAnyT *Term

func nilAny() *Term {
	if nilAnyT == nil {
		nilAnyT = mk("nilany", "", SAny)
	}
	return nilAnyT
}

func mkVar(name, srt string) *Term {
	if _, ok := tb.symIdx["v:"+name]; !ok {
		tb.symN++
		tb.symIdx["v:"+name] = tb.symN
	}
	return mk("var", name, srt)
}

func freshVar(hint, srt string) *Term {
	tb.symN++
	n := fmt.Sprintf("%s!%d", hint, tb.symN)
	return mkVar(n, srt)
}

func freshUF(hint string) string {
	tb.symN++
	n := fmt.Sprintf("%s!u%d", hint, tb.symN)
	tb.symIdx["u:"+n] = tb.symN
	return n
}

func freshRef() *Term {
	tb.frN++
	tb.symN++
	n := strconv.Itoa(tb.frN)
	tb.symIdx["f:"+n] = tb.symN
	return mk("fresh", n, SInt)
}

// immRef names an immutable object (the result of a pure function) by its contents
func immRef(rows ...*Term) *Term { return mk("immref", "", SInt, rows...) }

func mkBV(hint, srt string) *Term {
	tb.bvn++
	return mk("bvar", fmt.Sprintf("%s?%d", hint, tb.bvn), srt)
}

func mkApp(name, srt string, args ...*Term) *Term {
	sig := make([]string, 0, len(args)+1)
	for _, a := range args {
		sig = append(sig, a.Sort)
	}
	sig = append(sig, srt)
	if old, ok := tb.ufSig[name]; ok {
		if strings.Join(old, ",") != strings.Join(sig, ",") {
			// overloaded: mangle
			name = name + "@" + strings.Join(sig, "_")
			tb.ufSig[name] = sig
		}
	} else {
		tb.ufSig[name] = sig
	}
	if len(args) == 0 {
		return mkVar(name, srt)
	}
	return mk("app", name, srt, args...)
}

func isConst(t *Term) bool {
	switch t.Op {
	case "int", "str", "bool", "fresh", "gref", "fnc", "nilany", "real":
		return true
	}
	return false
}

func intVal(t *Term) (*big.Int, bool) {
	if t.Op != "int" {
		return nil, false
	}
	b, ok := new(big.Int).SetString(t.S, 10)
	return b, ok
}

func mkNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", "", SBool, a)
}

func conjs(t *Term) []*Term {
	if t == tTrue {
		return nil
	}
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}
func disjs(t *Term) []*Term {
	if t == tFalse {
		return nil
	}
	if t.Op == "or" {
		return t.Args
	}
	return []*Term{t}
}

func mkAnd(ts ...*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	for _, t := range ts {
		for _, c := range conjs(t) {
			if c == tFalse {
				return tFalse
			}
			if seen[c.ID] {
				continue
			}
			if seen[mkNot(c).ID] {
				return tFalse
			}
			seen[c.ID] = true
			out = append(out, c)
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	// unit propagate into disjunctions: (a or b) and not a
	changed := false
	for i, c := range out {
		if c.Op == "or" {
			var keep []*Term
			sat := false
			for _, d := range c.Args {
				if seen[d.ID] {
					sat = true
					break
				}
				if seen[mkNot(d).ID] {
					continue
				}
				// drop disjunct that is a conjunction holding a refuted literal
				ref := false
				if d.Op == "and" {
					for _, l := range d.Args {
						if seen[mkNot(l).ID] {
							ref = true
							break
						}
					}
				}
				if ref {
					continue
				}
				keep = append(keep, d)
			}
			if sat {
				out[i] = tTrue
				changed = true
			} else if len(keep) != len(c.Args) {
				out[i] = mkOr(keep...)
				changed = true
			}
		}
	}
	if changed {
		return mkAnd(out...)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return mk("and", "", SBool, out...)
}

func mkOr(ts ...*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	for _, t := range ts {
		for _, c := range disjs(t) {
			if c == tTrue {
				return tTrue
			}
			if seen[c.ID] {
				continue
			}
			if seen[mkNot(c).ID] {
				return tTrue
			}
			seen[c.ID] = true
			out = append(out, c)
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor: (X and c) or (X and not c) -> X ; absorption X or (X and y) -> X
	if len(out) <= 40 {
		for i := 0; i < len(out); i++ {
			for j := 0; j < len(out); j++ {
				if i == j {
					continue
				}
				if m, ok := mergeOr(out[i], out[j]); ok {
					var rest []*Term
					for k, t := range out {
						if k != i && k != j {
							rest = append(rest, t)
						}
					}
					return mkOr(append(rest, m)...)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return mk("or", "", SBool, out...)
}

func mergeOr(a, b *Term) (*Term, bool) {
	ca, cb := conjs(a), conjs(b)
	ia := map[int]bool{}
	for _, c := range ca {
		ia[c.ID] = true
	}
	// b subset-of-constraints: all cb not in ca
	var ob []*Term
	for _, c := range cb {
		if !ia[c.ID] {
			ob = append(ob, c)
		}
	}
	ib := map[int]bool{}
	for _, c := range cb {
		ib[c.ID] = true
	}
	var oa []*Term
	for _, c := range ca {
		if !ib[c.ID] {
			oa = append(oa, c)
		}
	}
	if len(oa) == 0 { // a weaker: a or (a and x)
		return a, true
	}
	if len(ob) == 0 {
		return b, true
	}
	// X∧oa or X∧ob with oa == not ob
	na := mkNot(mkAnd(oa...))
	if na == mkAnd(ob...) {
		var common []*Term
		for _, c := range ca {
			if ib[c.ID] {
				common = append(common, c)
			}
		}
		return mkAnd(common...), true
	}
	if len(oa) == 1 { // X∧c or X∧¬c∧Y -> X∧(c or Y) == (X∧c) or (X∧Y)
		nc := mkNot(oa[0])
		for _, c := range ob {
			if c == nc {
				var r []*Term
				for _, d := range cb {
					if d != nc {
						r = append(r, d)
					}
				}
				n := mkAnd(r...)
				if n != b {
					return mkOr2(a, n), true
				}
			}
		}
	}
	return nil, false
}

func mkOr2(a, b *Term) *Term {
	if m, ok := mergeOr(a, b); ok {
		return m
	}
	return mkOrRaw(a, b)
}
func mkOrRaw(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		for _, d := range disjs(t) {
			if d == tTrue {
				return tTrue
			}
			if !seen[d.ID] {
				seen[d.ID] = true
				out = append(out, d)
			}
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return mk("or", "", SBool, out...)
}

func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	return mk("=>", "", SBool, a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.Op == "not" {
		return mkIte(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		switch {
		case a == tTrue && b == tFalse:
			return c
		case a == tFalse && b == tTrue:
			return mkNot(c)
		case a == tTrue:
			return mkOr(c, b)
		case a == tFalse:
			return mkAnd(mkNot(c), b)
		case b == tTrue:
			return mkOr(mkNot(c), a)
		case b == tFalse:
			return mkAnd(c, a)
		}
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sort mismatch %s %s: %s / %s", a.Sort, b.Sort, a, b))
	}
	return mk("ite", "", a.Sort, c, a, b)
}

// notFresh reports that t is definitely not one of the fresh references made during execution
func notFresh(t *Term) bool {
	switch t.Op {
	case "int", "gref", "fnc":
		return true
	case "var":
		return tb.nonfr[t.S]
	case "ite":
		return notFresh(t.Args[1]) && notFresh(t.Args[2])
	case "select":
		b := t.Args[0]
		for b.Op == "select" {
			b = b.Args[0]
		}
		return b.Op == "var" && strings.HasPrefix(b.S, "H0.") && !t.Args[len(t.Args)-1].frs
	case "sub", "elt":
		return notFresh(t.Args[0])
	}
	return false
}

func rootOf(t *Term) *Term {
	for t.Op == "sub" || t.Op == "elt" {
		t = t.Args[0]
	}
	return t
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sort mismatch %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	if isConst(a) && isConst(b) {
		return tFalse
	}
	if a.Sort == SBool {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return mkNot(b)
		case b == tFalse:
			return mkNot(a)
		}
	}
	if a.Op == "sub" && b.Op == "sub" {
		if a.S != b.S {
			return tFalse
		}
		return mkEq(a.Args[0], b.Args[0])
	}
	if a.Op == "elt" && b.Op == "elt" {
		return mkAnd(mkEq(a.Args[0], b.Args[0]), mkEq(a.Args[1], b.Args[1]))
	}
	if im, o := a, b; im.Op == "immref" || o.Op == "immref" {
		if im.Op != "immref" {
			im, o = o, im
		}
		if o.Op == "fresh" || o.Op == "sub" || o.Op == "elt" || notFresh(o) {
			return tFalse
		}
	}
	if a.Sort == SInt && tb.distinct[[2]int{a.ID, b.ID}] {
		return tFalse
	}
	isRef := func(t *Term) bool {
		return t.Op == "sub" || t.Op == "elt" || t.Op == "fresh" || t.Op == "gref" || t.Op == "fnc"
	}
	if isRef(a) && isRef(b) && a.Op != b.Op {
		return tFalse
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[0].Op == "sub" || p[0].Op == "elt" {
			if p[1] == tZero {
				return tFalse
			}
		}
		if isRef(p[0]) && rootOf(p[0]).Op == "fresh" && notFresh(p[1]) {
			return tFalse
		}
		if p[0].Op == "fresh" && p[1].Op == "var" {
			if lim, ok := tb.frLim[p[1].S]; ok {
				if n, _ := strconv.Atoi(p[0].S); n > lim {
					return tFalse
				}
			}
		}
		if p[0].Op == "box" {
			if p[1].Op == "nilany" {
				return tFalse
			}
			if p[1].Op == "box" {
				if p[0].S != p[1].S {
					return tFalse
				}
				var cs []*Term
				for i := range p[0].Args {
					cs = append(cs, mkEq(p[0].Args[i], p[1].Args[i]))
				}
				return mkAnd(cs...)
			}
		}
		if p[0].Op == "ite" && (isConst(p[1]) || p[1].Op == "box" || p[1].Op == "sub" || p[1].Op == "elt") {
			x, y := mkEq(p[0].Args[1], p[1]), mkEq(p[0].Args[2], p[1])
			if isConst(x) || isConst(y) {
				return mkIte(p[0].Args[0], x, y)
			}
		}
	}
	// x + c1 = x + c2 style
	if a.Sort == SInt {
		if d, ok := intVal(mkSub(a, b)); ok {
			return mkBool(d.Sign() == 0)
		}
	}
	if a.Op == "strcat" || b.Op == "strcat" {
		if r := strEqSimp(a, b); r != nil {
			return r
		}
	}
	return mk("=", "", SBool, a, b)
}

func catParts(t *Term) []*Term {
	if t.Op == "strcat" {
		return t.Args
	}
	return []*Term{t}
}

// compares constant prefixes and suffixes of concatenations
func strEqSimp(a, b *Term) *Term {
	pa, pb := append([]*Term{}, catParts(a)...), append([]*Term{}, catParts(b)...)
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.Op == "str" && y.Op == "str" {
			n := min(len(x.S), len(y.S))
			if x.S[:n] != y.S[:n] {
				return tFalse
			}
			pa[0], pb[0] = mkStr(x.S[n:]), mkStr(y.S[n:])
			if pa[0].S == "" {
				pa = pa[1:]
			}
			if pb[0].S == "" {
				pb = pb[1:]
			}
			changed = true
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if x.Op == "str" && y.Op == "str" {
			n := min(len(x.S), len(y.S))
			if x.S[len(x.S)-n:] != y.S[len(y.S)-n:] {
				return tFalse
			}
			pa[len(pa)-1], pb[len(pb)-1] = mkStr(x.S[:len(x.S)-n]), mkStr(y.S[:len(y.S)-n])
			if pa[len(pa)-1].S == "" {
				pa = pa[:len(pa)-1]
			}
			if pb[len(pb)-1].S == "" {
				pb = pb[:len(pb)-1]
			}
			changed = true
			continue
		}
		break
	}
	nonEmpty := func(p []*Term) bool {
		for _, t := range p {
			if t.Op == "str" && t.S != "" {
				return true
			}
		}
		return false
	}
	if len(pa) == 0 && len(pb) == 0 {
		return tTrue
	}
	if (len(pa) == 0 && nonEmpty(pb)) || (len(pb) == 0 && nonEmpty(pa)) {
		return tFalse
	}
	if changed {
		return mkEq(mkCat(pa...), mkCat(pb...))
	}
	return nil
}

// strLeaves counts the leaves of a conditional between constant strings, 0 if it is anything else
func strLeaves(t *Term) int {
	if t.Op == "str" {
		return 1
	}
	if t.Op == "ite" {
		a, b := strLeaves(t.Args[1]), strLeaves(t.Args[2])
		if a > 0 && b > 0 {
			return a + b
		}
	}
	return 0
}

func mkCat(ps ...*Term) *Term {
	var out []*Term
	if len(ps) > 1 {
		for i, p := range ps {
			if p.Op == "ite" {
				if n := strLeaves(p); n > 1 && n <= 6 {
					a, b := append([]*Term{}, ps...), append([]*Term{}, ps...)
					a[i], b[i] = p.Args[1], p.Args[2]
					return mkIte(p.Args[0], mkCat(a...), mkCat(b...))
				}
			}
		}
	}
	for _, p := range ps {
		for _, q := range catParts(p) {
			if q.Op == "str" {
				if q.S == "" {
					continue
				}
				if n := len(out); n > 0 && out[n-1].Op == "str" {
					out[n-1] = mkStr(out[n-1].S + q.S)
					continue
				}
			}
			out = append(out, q)
		}
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("strcat", "", SStr, out...)
}

func mkStrLen(s *Term) *Term {
	if s.Op == "str" {
		return mkInt(int64(len(s.S)))
	}
	if s.Op == "strcat" {
		r := tZero
		for _, a := range s.Args {
			r = mkAdd(r, mkStrLen(a))
		}
		return r
	}
	if s.Op == "ite" {
		return mkIte(s.Args[0], mkStrLen(s.Args[1]), mkStrLen(s.Args[2]))
	}
	return mk("strlen", "", SInt, s)
}

func mkPrefix(p, s *Term) *Term {
	if p.Op == "str" && s.Op == "str" {
		return mkBool(strings.HasPrefix(s.S, p.S))
	}
	if p.Op == "str" && p.S == "" || p == s {
		return tTrue
	}
	if p.Op == "str" && s.Op == "strcat" && s.Args[0].Op == "str" {
		h := s.Args[0].S
		if strings.HasPrefix(h, p.S) {
			return tTrue
		}
		if !strings.HasPrefix(p.S, h) {
			return tFalse
		}
	}
	return mk("prefixof", "", SBool, p, s)
}
func mkSuffix(p, s *Term) *Term {
	if p.Op == "str" && s.Op == "str" {
		return mkBool(strings.HasSuffix(s.S, p.S))
	}
	if p.Op == "str" && p.S == "" || p == s {
		return tTrue
	}
	if p.Op == "str" && s.Op == "strcat" && s.Args[len(s.Args)-1].Op == "str" {
		h := s.Args[len(s.Args)-1].S
		if strings.HasSuffix(h, p.S) {
			return tTrue
		}
		if !strings.HasSuffix(p.S, h) {
			return tFalse
		}
	}
	return mk("suffixof", "", SBool, p, s)
}
func mkContains(s, sub *Term) *Term {
	if sub.Op == "str" && s.Op == "str" {
		return mkBool(strings.Contains(s.S, sub.S))
	}
	if sub.Op == "str" && sub.S == "" || sub == s {
		return tTrue
	}
	return mk("contains", "", SBool, s, sub)
}

func lin(t *Term) (coef map[int]*big.Int, tm map[int]*Term, c *big.Int) {
	coef, tm, c = map[int]*big.Int{}, map[int]*Term{}, new(big.Int)
	linAdd(t, big.NewInt(1), coef, tm, c)
	return
}
func linAdd(t *Term, k *big.Int, coef map[int]*big.Int, tm map[int]*Term, c *big.Int) {
	switch t.Op {
	case "int":
		v, _ := intVal(t)
		c.Add(c, new(big.Int).Mul(v, k))
		return
	case "+":
		for _, a := range t.Args {
			linAdd(a, k, coef, tm, c)
		}
		return
	case "*":
		if v, ok := intVal(t.Args[0]); ok {
			linAdd(t.Args[1], new(big.Int).Mul(v, k), coef, tm, c)
			return
		}
	}
	if o, ok := coef[t.ID]; ok {
		o.Add(o, k)
	} else {
		coef[t.ID] = new(big.Int).Set(k)
		tm[t.ID] = t
	}
}
func linMk(coef map[int]*big.Int, tm map[int]*Term, c *big.Int) *Term {
	var ids []int
	for id, k := range coef {
		if k.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var out []*Term
	for _, id := range ids {
		k := coef[id]
		if k.Cmp(big.NewInt(1)) == 0 {
			out = append(out, tm[id])
		} else {
			out = append(out, mk("*", "", SInt, mkBig(k.String()), tm[id]))
		}
	}
	if c.Sign() != 0 || len(out) == 0 {
		out = append(out, mkBig(c.String()))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", "", SInt, out...)
}

func mkAdd(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk("+r", "", SReal, a, b)
	}
	coef, tm, c := lin(a)
	linAdd(b, big.NewInt(1), coef, tm, c)
	return linMk(coef, tm, c)
}
func mkSub(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk("-r", "", SReal, a, b)
	}
	coef, tm, c := lin(a)
	linAdd(b, big.NewInt(-1), coef, tm, c)
	return linMk(coef, tm, c)
}
func mkMul(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk("*r", "", SReal, a, b)
	}
	if _, ok := intVal(b); ok {
		a, b = b, a
	}
	if v, ok := intVal(a); ok {
		coef, tm, c := map[int]*big.Int{}, map[int]*Term{}, new(big.Int)
		linAdd(b, v, coef, tm, c)
		return linMk(coef, tm, c)
	}
	return mk("*", "", SInt, a, b)
}

func mkLt(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk("<", "", SBool, a, b)
	}
	if v, ok := intVal(mkSub(a, b)); ok {
		return mkBool(v.Sign() < 0)
	}
	if b == tZero && a.Op == "strlen" {
		return tFalse
	}
	return mk("<", "", SBool, a, b)
}
func mkLe(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk("<=", "", SBool, a, b)
	}
	return mkNot(mkLt(b, a))
}

func mkStore(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if a.Op == "select" || a.Op == "var" || a.Op == "store" {
		if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
			return a
		}
	}
	if arrRange(a.Sort) != v.Sort {
		panic(fmt.Sprintf("store sort mismatch: %s <- %s (%s)", a.Sort, v.Sort, v))
	}
	return mk("store", "", a.Sort, a, i, v)
}

func mkConstArr(srt string, v *Term) *Term { return mk("constarr", "", srt, v) }

func mkLam(bv, body *Term) *Term { return mk("lam", "", arr2(bv.Sort, body.Sort), bv, body) }

// catrow: row of append(a[offA:offA+lenA], b[offB:offB+lenB]...)
func mkCatRow(rowA, offA, lenA, rowB, offB, lenB *Term) *Term {
	return mk("catrow", "", rowA.Sort, rowA, offA, lenA, rowB, offB, lenB)
}

func mkSelect(a, j *Term) *Term {
	k := [2]int{a.ID, j.ID}
	if t, ok := tb.selMem[k]; ok {
		return t
	}
	t := mkSelect0(a, j, 0)
	tb.selMem[k] = t
	return t
}

// hasImm: is the row of a constant slice among the choices
func hasImm(j *Term, d int) bool {
	return j.Op == "immref" || j.Op == "ite" && d > 0 && (hasImm(j.Args[1], d-1) || hasImm(j.Args[2], d-1))
}

func mkSelect0(a, j *Term, d int) *Term {
	switch {
	case j.Op == "immref" && arrRange(a.Sort) == j.Args[0].Sort:
		return j.Args[0]
	case j.Op == "ite" && isArr(arrRange(a.Sort)) && hasImm(j, 8):
		return mkIte(j.Args[0], mkSelect(a, j.Args[1]), mkSelect(a, j.Args[2]))
	}
	switch a.Op {
	case "store":
		e := mkEq(a.Args[1], j)
		if e == tTrue {
			return a.Args[2]
		}
		if e == tFalse {
			return mkSelect(a.Args[0], j)
		}
		return mkIte(e, a.Args[2], mkSelect(a.Args[0], j))
	case "ite":
		return mkIte(a.Args[0], mkSelect(a.Args[1], j), mkSelect(a.Args[2], j))
	case "constarr":
		return a.Args[0]
	case "lam":
		return subst(a.Args[1], map[int]*Term{a.Args[0].ID: j})
	case "catrow":
		rowA, offA, lenA, rowB, offB, _ := a.Args[0], a.Args[1], a.Args[2], a.Args[3], a.Args[4], a.Args[5]
		return mkIte(mkLt(j, lenA), mkSelect(rowA, mkAdd(offA, j)), mkSelect(rowB, mkAdd(offB, mkSub(j, lenA))))
	}
	return mk("select", "", arrRange(a.Sort), a, j)
}

func mkDiv(a, b *Term) *Term { // Go truncated division approximated for constants, else uf
	if x, ok := intVal(a); ok {
		if y, ok := intVal(b); ok && y.Sign() != 0 {
			return mkBig(new(big.Int).Quo(x, y).String())
		}
	}
	return mk("tdiv", "", SInt, a, b)
}
func mkMod(a, b *Term) *Term {
	if x, ok := intVal(a); ok {
		if y, ok := intVal(b); ok && y.Sign() != 0 {
			return mkBig(new(big.Int).Rem(x, y).String())
		}
	}
	return mk("tmod", "", SInt, a, b)
}

// rebuild applies the smart constructor for op
func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "=>":
		return mkImp(args[0], args[1])
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "=":
		return mkEq(args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = mkAdd(r, a)
		}
		return r
	case "*":
		return mkMul(args[0], args[1])
	case "<":
		return mkLt(args[0], args[1])
	case "select":
		return mkSelect(args[0], args[1])
	case "store":
		return mkStore(args[0], args[1], args[2])
	case "strcat":
		return mkCat(args...)
	case "strlen":
		return mkStrLen(args[0])
	case "prefixof":
		return mkPrefix(args[0], args[1])
	case "suffixof":
		return mkSuffix(args[0], args[1])
	case "contains":
		return mkContains(args[0], args[1])
	case "unbox":
		return mkUnbox(t.S, t.Sort, args[0])
	case "typeof":
		return mkTypeof(args[0])
	case "tdiv":
		return mkDiv(args[0], args[1])
	case "tmod":
		return mkMod(args[0], args[1])
	case "forall", "exists":
		return mkQuant(t.Op, args[:len(args)-1], args[len(args)-1])
	}
	return mk(t.Op, t.S, t.Sort, args...)
}

func mkQuant(q string, bvs []*Term, body *Term) *Term {
	if isConst(body) {
		return body
	}
	var used []*Term
	for _, b := range bvs {
		for _, f := range body.bvs {
			if f == b {
				used = append(used, b)
			}
		}
	}
	if len(used) == 0 {
		return body
	}
	return mk(q, "", SBool, append(append([]*Term{}, used...), body)...)
}

func mapTerm(t *Term, f func(*Term) *Term, memo map[int]*Term) *Term {
	if r, ok := memo[t.ID]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t.ID] = r
		return r
	}
	if len(t.Args) == 0 {
		memo[t.ID] = t
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = mapTerm(a, f, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t.ID] = r
	return r
}

func subst(t *Term, m map[int]*Term) *Term {
	return mapTerm(t, func(x *Term) *Term {
		if r, ok := m[x.ID]; ok {
			return r
		}
		return nil
	}, map[int]*Term{})
}

func visit(t *Term, seen map[int]bool, f func(*Term)) {
	if seen[t.ID] {
		return
	}
	seen[t.ID] = true
	f(t)
	for _, a := range t.Args {
		visit(a, seen, f)
	}
}

// boxes
func mkBox(typ string, args ...*Term) *Term { return mk("box", typ, SAny, args...) }
func mkUnbox(key, srt string, a *Term) *Term { // key = typ#idx
	i := strings.LastIndex(key, "#")
	typ := key[:i]
	n, _ := strconv.Atoi(key[i+1:])
	switch a.Op {
	case "box":
		if a.S == typ {
			return a.Args[n]
		}
	case "ite":
		return mkIte(a.Args[0], mkUnbox(key, srt, a.Args[1]), mkUnbox(key, srt, a.Args[2]))
	}
	return mk("unbox", key, srt, a)
}

var typeIDs = map[string]int{}
var typeNames []string

func typeID(s string) int {
	if n, ok := typeIDs[s]; ok {
		return n
	}
	typeNames = append(typeNames, s)
	typeIDs[s] = len(typeNames)
	return len(typeNames)
}
func mkTypeof(a *Term) *Term {
	switch a.Op {
	case "box":
		return mkInt(int64(typeID(a.S)))
	case "nilany":
		return tZero
	case "ite":
		return mkIte(a.Args[0], mkTypeof(a.Args[1]), mkTypeof(a.Args[2]))
	}
	return mk("typeof", "", SInt, a)
}
func mkSubRef(base *Term, f string) *Term { return mk("sub", f, SInt, base) }
func mkElt(base, idx *Term) *Term         { return mk("elt", "", SInt, base, idx) }

func (t *Term) String() string {
	s := t.str(0)
	if len(s) > 600 && strDepth == 7 {
		s = s[:600] + "..."
	}
	return s
}
func (t *Term) str(d int) string {
	if d > strDepth {
		return "…"
	}
	switch t.Op {
	case "int", "bool", "var", "bvar", "real":
		return t.S
	case "str":
		return strconv.Quote(t.S)
	case "fresh":
		return "&" + t.S
	}
	var b strings.Builder
	b.WriteString("(" + t.Op)
	if t.S != "" {
		b.WriteString(":" + t.S)
	}
	for _, a := range t.Args {
		b.WriteString(" " + a.str(d+1))
	}
	b.WriteString(")")
	return b.String()
}

var strDepth = func() int {
	if os.Getenv("VC_DEEP") != "" {
		return 40
	}
	return 7
}()
