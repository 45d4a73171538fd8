package main

// Loops: the body is executed once for an arbitrary iteration n. Everything the body may modify is
// represented as a function of the iteration number; what is known about the earlier iterations is
// (a) the unrolled transition relation for every j in [0,n) - valid by construction - and
// (b) closed forms for a few accumulation patterns (counters, last match, appends), which follow
//     from (a) by induction.
// No loop invariant is needed from the user and no bound is placed on the number of iterations.

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type carried struct {
	id      string
	kind    string // phi key cell row
	phi     *ssa.Phi
	leaf    int
	key     string
	idx     *Term
	sort    string
	entry   *Term
	uf      string
	mode    string // uf ind acc
	c       *Term
	head    *Term
	next    *Term
	elem    types.Type // element type for slice references
	noind   bool
	noconst bool
	fc      *Term // constant reference for carried appended rows
}

type keyMod struct {
	whole bool
	idxs  map[int]*Term
}

func itNum(k string) (int, bool) {
	if !strings.HasPrefix(k, "IT|") {
		return 0, false
	}
	n, err := strconv.Atoi(k[3:])
	return n, err == nil
}

// givenBefore: t is a variable or a place of memory that only symbols made before mark occur in
func givenBefore(t *Term, mark int) bool {
	if t.Op != "var" && t.Op != "select" {
		return false
	}
	seen := map[*Term]bool{}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if createdAfter(t, mark) || len(seen) > 200 {
			return false
		}
		for _, a := range t.Args {
			if !ok(a) {
				return false
			}
		}
		return true
	}
	return ok(t)
}

// inLoopSym: is the symbol created after mark (by freshVar/freshUF/freshRef)
func createdAfter(t *Term, mark int) bool {
	switch t.Op {
	case "var":
		return strings.Contains(t.S, "!") && tb.symIdx["v:"+t.S] > mark
	case "app":
		return tb.symIdx["u:"+t.S] > mark
	case "fresh":
		return tb.symIdx["f:"+t.S] > mark
	case "fnc":
		return false
	}
	return false
}

func mentionsAfter(t *Term, mark int, memo map[int]bool) bool {
	if r, ok := memo[t.ID]; ok {
		return r
	}
	memo[t.ID] = false
	r := createdAfter(t, mark)
	if !r {
		for _, a := range t.Args {
			if mentionsAfter(a, mark, memo) {
				r = true
				break
			}
		}
	}
	memo[t.ID] = r
	return r
}

func mentions(t, s *Term) bool {
	found := false
	visit(t, map[int]bool{}, func(u *Term) {
		if u == s {
			found = true
		}
	})
	return found
}

// selIte selects with a conditional index
func selIte(a, j *Term) *Term {
	if j.Op == "ite" {
		return mkIte(j.Args[0], selIte(a, j.Args[1]), selIte(a, j.Args[2]))
	}
	return mkSelect(a, j)
}

// chainRoot strips stores: the array below them and the indices stored to
func chainRoot(t *Term, out map[int]*Term) *Term {
	switch t.Op {
	case "store":
		out[t.Args[1].ID] = t.Args[1]
		return chainRoot(t.Args[0], out)
	case "ite":
		a, b := chainRoot(t.Args[1], out), chainRoot(t.Args[2], out)
		if a == b {
			return a
		}
		return nil
	}
	return t
}

// storesOver decomposes t as a chain of stores over base and returns the indices
func storesOver(t, base *Term, out map[int]*Term) bool {
	direct := map[int]*Term{}
	if storesOver0(t, base, direct) {
		for k, v := range direct {
			out[k] = v
		}
		return true
	}
	// stores that were overwritten or reordered: both sides as chains over a common array
	idx := map[int]*Term{}
	r1, r2 := chainRoot(t, idx), chainRoot(base, idx)
	if r1 == nil || r1 != r2 {
		return false
	}
	for k, v := range idx {
		if mkSelect(t, v) != mkSelect(base, v) {
			out[k] = v
		}
	}
	return true
}

func storesOver0(t, base *Term, out map[int]*Term) bool {
	if t == base {
		return true
	}
	switch t.Op {
	case "store":
		out[t.Args[1].ID] = t.Args[1]
		return storesOver0(t.Args[0], base, out)
	case "ite":
		return storesOver0(t.Args[1], base, out) && storesOver0(t.Args[2], base, out)
	}
	return false
}

func (f *Frame) phiVals(b *ssa.BasicBlock, es []edgeIn, rs []*Term) []Val {
	var vals []Val
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vs := make([]Val, len(es))
		used := map[int]bool{}
		for i, e := range es {
			pi := predIndex(b, e.from, used)
			used[pi] = true
			vs[i] = f.get(phi.Edges[pi])
		}
		vals = append(vals, f.x.mergeVals(rs, vs, phi.Type()))
	}
	return vals
}

func (f *Frame) loop(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, es []edgeIn) []outEdge {
	x := f.x
	if len(x.stack) > 60 {
		panic("loop nesting too deep")
	}
	sts := make([]*State, len(es))
	gs := make([]*Term, len(es))
	for i, e := range es {
		sts[i] = e.st
		gs[i] = e.st.g
	}
	st0 := x.mergeStates(sts)
	if st0.g == tFalse {
		return nil
	}
	g0 := st0.g
	f.phis(h, es, residuals(gs))
	var phis []*ssa.Phi
	entryVals := map[*ssa.Phi]Val{}
	entryLeaves := map[*ssa.Phi][]*Term{}
	for _, ins := range h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		entryVals[p] = f.env[p]
		entryLeaves[p] = x.toLeaves(f.env[p], p.Type())
	}
	var blocks []*ssa.BasicBlock
	for _, b := range f.order {
		if body[b] {
			blocks = append(blocks, b)
		}
	}
	call0 := x.callN
	mark0 := tb.symN // symbols of the surroundings
	n := freshVar("n", SInt)
	cs := map[string]*carried{}
	var order []string
	add := func(c *carried) *carried {
		if o, ok := cs[c.id]; ok {
			return o
		}
		c.uf = freshUF("L" + strconv.Itoa(len(cs)) + sanitize(c.id))
		c.mode = "uf"
		cs[c.id] = c
		order = append(order, c.id)
		return c
	}

	// head builds the state at the loop head for iteration n
	mkHead := func() (*State, int) {
		hs := st0.clone()
		for _, id := range order {
			c := cs[id]
			switch c.mode {
			case "uf":
				c.head = mkApp(c.uf, c.sort, n)
			case "const":
				c.head = c.entry
			case "ind":
				c.head = mkAdd(c.entry, mkMul(c.c, n))
			case "acc":
				c.head = mkIte(mkApp(c.uf, SBool, n), c.fc, c.entry)
			case "acc1":
				c.head = mkIte(mkLt(tZero, n), c.fc, c.entry)
			}
			if c.kind == "key" {
				x.hset(hs, c.key, c.head)
			}
		}
		for _, id := range order {
			c := cs[id]
			if c.kind == "cell" {
				x.hset(hs, c.key, mkStore(hs.h[c.key].orVar(x, c.key), c.idx, c.head))
			}
		}
		for _, p := range phis {
			ls := append([]*Term{}, entryLeaves[p]...)
			ch := false
			for i := range ls {
				if c, ok := cs[fmt.Sprintf("p%s.%d", p.Name(), i)]; ok {
					ls[i] = c.head
					ch = true
				}
			}
			if ch {
				f.env[p] = x.mkVal(p.Type(), ls)
			} else {
				f.env[p] = entryVals[p]
			}
		}
		// rows of appended slices
		for _, id := range order {
			c := cs[id]
			if c.kind != "row" {
				continue
			}
			c.head = mkApp(c.uf, c.sort, n)
			x.hset(hs, c.key, mkStore(hs.h[c.key].orVar(x, c.key), c.idx, c.head))
		}
		// slices carried around have a non negative length
		for _, id := range order {
			c := cs[id]
			if c.elem != nil && c.kind != "row" {
				if l, ok := cs[lenID(c)]; ok && l.mode == "uf" {
					x.assume(g0, mkLe(tZero, l.head))
				}
			}
		}
		return hs, tb.symN
	}

	type dryOut struct {
		hs      *State
		backs   []edgeIn
		back    *State
		phiNext []Val
		assumes []*Term
		mark    int
	}
	dry := func() *dryOut {
		na := len(x.assumes)
		nd, nr := len(f.defers), len(f.rets)
		hs, mark := mkHead()
		x.dry++
		hst := hs.clone()
		x.assume(g0, mkLe(tZero, n))
		na2 := len(x.assumes)
		outs := f.region(blocks, body, h, []edgeIn{{nil, hst}})
		x.dry--
		d := &dryOut{hs: hs, mark: mark}
		d.assumes = append(d.assumes, x.assumes[na2:]...)
		var ss []*State
		var bg []*Term
		for _, o := range outs {
			if o.to == h {
				d.backs = append(d.backs, edgeIn{o.from, o.st})
				ss = append(ss, o.st)
				bg = append(bg, o.st.g)
			}
		}
		if len(ss) > 0 {
			d.back = x.mergeStates(ss)
			d.phiNext = f.phiVals(h, d.backs, residuals(bg))
		}
		x.assumes = x.assumes[:na]
		f.defers, f.rets, f.retv = f.defers[:nd], f.rets[:nr], f.retv[:nr]
		return d
	}

	var d *dryOut
	for round := 0; ; round++ {
		if round > 25 {
			panic("loop analysis does not stabilise in " + f.fn.String())
		}
		d = dry()
		if d.back == nil {
			break
		}
		changed := false
		// phis
		for i, p := range phis {
			nl := x.toLeaves(d.phiNext[i], p.Type())
			hl := x.toLeaves(f.env[p], p.Type())
			lv := x.leaves(p.Type())
			for j := range nl {
				id := fmt.Sprintf("p%s.%d", p.Name(), j)
				// slice leaves carry a suffix so that the parts of one slice can be found together
				c := cs[id]
				if nl[j] == hl[j] && c == nil {
					continue
				}
				if c == nil {
					c = add(&carried{id: id, kind: "phi", phi: p, leaf: j, sort: nl[j].Sort, entry: entryLeaves[p][j], elem: lv[j].Elem})
					changed = true
				}
				c.next = nl[j]
			}
		}
		// heap
		keys := map[string]bool{}
		for k := range d.back.h {
			keys[k] = true
		}
		for k := range d.hs.h {
			keys[k] = true
		}
		for _, k := range sortedKeys(keys) {
			if num, ok := itNum(k); ok && num > call0 {
				continue
			}
			ht, ok := d.hs.h[k]
			if !ok {
				ht = x.initial(k)
			}
			bt, ok := d.back.h[k]
			if !ok {
				bt = x.initial(k)
			}
			if c, ok := cs["k"+k]; ok {
				c.next = bt
				continue
			}
			if bt == ht {
				continue
			}
			if !isArr(bt.Sort) || strings.HasPrefix(k, "G|") || strings.HasPrefix(k, "X|") {
				e, ok := st0.h[k]
				if !ok {
					e = x.initial(k)
				}
				c := add(&carried{id: "k" + k, kind: "key", key: k, sort: bt.Sort, entry: e, elem: x.keyElem[k]})
				c.next = bt
				changed = true
				continue
			}
			idxs := map[int]*Term{}
			okS := storesOver(bt, ht, idxs)
			if okS {
				for _, ix := range sortedTerms(idxs) {
					rt := rootOf(ix)
					if rt.Op == "fresh" && tb.symIdx["f:"+rt.S] > d.mark {
						continue // object made inside the loop
					}
					if mentionsAfter(ix, mark0, map[int]bool{}) && !isFC(ix, cs) {
						okS = false
						break
					}
				}
			}
			if okS {
				for _, ix := range sortedTerms(idxs) {
					rt := rootOf(ix)
					if rt.Op == "fresh" && tb.symIdx["f:"+rt.S] > d.mark || isFC(ix, cs) || mkSelect(bt, ix) == mkSelect(ht, ix) {
						continue
					}
					id := fmt.Sprintf("c%s@%d", k, ix.ID)
					if _, ok := cs[id]; !ok {
						e, ok := st0.h[k]
						if !ok {
							e = x.initial(k)
						}
						changed = true
						add(&carried{id: id, kind: "cell", key: k, idx: ix, sort: arrRange(bt.Sort), entry: mkSelect(e, ix), elem: x.keyElem[k]})
					}
				}
				continue
			}
			if os.Getenv("VC_LOOP") != "" {
				fmt.Fprintln(os.Stderr, "WHOLE", k, "round", round, storesOver(bt, ht, map[int]*Term{}), "\n  bt", bt, "\n  ht", ht)
			}
			e, ok := st0.h[k]
			if !ok {
				e = x.initial(k)
			}
			// drop pointwise versions
			var keep []string
			for _, id := range order {
				if c := cs[id]; c.kind == "cell" && c.key == k {
					delete(cs, id)
					continue
				}
				keep = append(keep, id)
			}
			order = keep
			c := add(&carried{id: "k" + k, kind: "key", key: k, sort: bt.Sort, entry: e})
			c.next = bt
			changed = true
		}
		for _, id := range order {
			c := cs[id]
			if c.kind == "cell" {
				bt, ok := d.back.h[c.key]
				if !ok {
					bt = x.initial(c.key)
				}
				c.next = mkSelect(bt, c.idx)
			}
		}
		// refine modes
		for _, id := range append([]string{}, order...) {
			c := cs[id]
			if c.kind == "row" || c.head == nil || c.next == nil {
				continue
			}
			if c.mode == "uf" && !c.noconst && isConst(c.next) && c.next == c.entry {
				c.mode = "const"
				changed = true
				continue
			}
			if c.mode == "const" {
				if c.next != c.entry {
					c.noconst, c.mode = true, "uf"
					changed = true
				}
				continue
			}
			if c.sort == SInt && c.elem == nil && c.mode == "uf" {
				df := mkSub(c.next, c.head)
				_, ok := intVal(df)
				// or steps of a size that was given
				ok = ok || c.kind == "phi" && givenBefore(df, mark0)
				if ok && !c.noind {
					c.mode, c.c = "ind", df
					changed = true
					continue
				}
			}
			if c.mode == "ind" {
				if mkSub(c.next, c.head) != c.c {
					c.noind, c.mode = true, "uf"
					changed = true
					continue
				}
			}
			if c.elem != nil && c.mode == "uf" && c.sort == SInt {
				always, ok := freshLeaves(c.next, c.head, d.mark)
				if ok {
					c.fc = freshRef()
					c.mode = "acc"
					if always {
						c.mode = "acc1"
					}
					changed = true
					for _, l := range x.leaves(c.elem) {
						k := "E|" + tkey(c.elem) + l.Suffix
						e, ok := st0.h[k]
						if !ok {
							x.hget(st0, k, arr(arr(l.Sort)))
							e = x.initial(k)
						}
						add(&carried{id: "r" + k + "@" + c.id, kind: "row", key: k, idx: c.fc, sort: arr(l.Sort), entry: selIte(e, c.entry), elem: c.elem})
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	if d.back == nil {
		// the body never repeats
		for _, p := range phis {
			f.env[p] = entryVals[p]
		}
		return f.region(blocks, body, h, []edgeIn{{nil, st0}})
	}

	// rows: head and next through the slice reference
	rowOf := map[string][]*carried{}
	for _, id := range order {
		c := cs[id]
		if c.kind == "row" {
			owner := id[strings.Index(id, "@")+1:]
			oc := cs[owner]
			bt, ok := d.back.h[c.key]
			if !ok {
				bt = x.initial(c.key)
			}
			ht, ok := d.hs.h[c.key]
			if !ok {
				ht = x.initial(c.key)
			}
			c.next = selIte(bt, oc.next)
			c.head = selIte(ht, oc.head)
			rowOf[owner] = append(rowOf[owner], c)
		}
	}

	// ---- knowledge about earlier iterations ----
	mark := d.mark
	skm := map[[2]int]*Term{}
	var sk func(t, j *Term) *Term
	sk = func(t, j *Term) *Term {
		if len(t.Args) == 0 && t.Op != "var" && t.Op != "fresh" {
			return t
		}
		key := [2]int{t.ID, j.ID}
		if r, ok := skm[key]; ok {
			return r
		}
		var r *Term
		switch {
		case t == n:
			r = j
		case t.Op == "var" && createdAfter(t, mark):
			r = mkApp(t.S+"@L", t.Sort, j)
		case t.Op == "fresh" && createdAfter(t, mark):
			r = mkApp("fr"+t.S+"@L", SInt, j)
		default:
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = sk(a, j)
				if args[i] != a {
					ch = true
				}
			}
			if t.Op == "app" && createdAfter(t, mark) {
				r = mkApp(t.S+"@L", t.Sort, append([]*Term{j}, args...)...)
			} else if ch {
				r = rebuild(t, args)
			} else {
				r = t
			}
		}
		skm[key] = r
		return r
	}

	x.assume(g0, mkLe(tZero, n))
	bg := make([]*Term, len(d.backs))
	for i, e := range d.backs {
		bg[i] = e.st.g
	}
	// C: the condition to reach the back edge, without the entry guard
	in := map[int]bool{}
	for _, c := range conjs(g0) {
		in[c.ID] = true
	}
	var cc []*Term
	for _, c := range conjs(mkOr(bg...)) {
		if !in[c.ID] {
			cc = append(cc, c)
		}
	}
	C := mkAnd(cc...)
	// assumptions of the body that mention symbols of the iteration
	newSym := func(t *Term) []string {
		var out []string
		visit(t, map[int]bool{}, func(u *Term) {
			if createdAfter(u, mark) {
				out = append(out, u.Op+u.S)
			}
		})
		return out
	}
	mark1 := mark0
	depends := func(t *Term) bool { return mentionsAfter(t, mark1, map[int]bool{}) }
	relevant := map[string]bool{}
	addRel := func(t *Term) {
		for _, s := range newSym(t) {
			relevant[s] = true
		}
	}
	addRel(C)
	var trans []*carried
	for _, id := range order {
		c := cs[id]
		if c.next == nil {
			continue
		}
		if (c.mode == "uf" || c.mode == "acc") && (c.kind == "row" || !isArr(c.sort)) {
			trans = append(trans, c)
			addRel(c.next)
		}
	}
	var as []*Term
	pend := d.assumes
	for {
		var rest []*Term
		grew := false
		for _, a := range pend {
			if !depends(a) {
				continue
			}
			ns := newSym(a)
			hit := len(ns) == 0
			for _, s := range ns {
				if relevant[s] {
					hit = true
				}
			}
			if hit {
				as = append(as, a)
				for _, s := range ns {
					if !relevant[s] {
						relevant[s] = true
					}
				}
				grew = true
			} else {
				rest = append(rest, a)
			}
		}
		pend = rest
		if !grew || len(rest) == 0 {
			break
		}
	}
	histOf := func(j *Term) *Term {
		hs := []*Term{sk(C, j)}
		for _, a := range as {
			hs = append(hs, sk(a, j))
		}
		for _, c := range trans {
			if c.kind == "row" || c.mode == "acc" {
				continue
			}
			hs = append(hs, mkEq(sk(c.head, mkAdd(j, tOne)), sk(c.next, j)))
		}
		return mkAnd(hs...)
	}
	jv := mkBV("j", SInt)
	rng := func(j, lo, hi *Term) *Term { return mkAnd(mkLe(lo, j), mkLt(j, hi)) }
	for _, part := range conjs(histOf(jv)) {
		x.assume(g0, mkQuant("forall", []*Term{jv}, mkImp(rng(jv, tZero, n), part)))
	}
	x.assume(g0, mkImp(mkLt(tZero, n), mkAnd(histOf(tZero), histOf(mkSub(n, tOne)))))
	for _, c := range trans {
		if c.kind != "row" && c.mode == "uf" {
			x.assume(g0, mkEq(subst(c.head, map[int]*Term{n.ID: tZero}), c.entry))
		}
	}
	// closed forms
	for _, c := range trans {
		if c.kind == "row" {
			continue
		}
		if c.mode == "uf" {
			x.lemmaScalar(c, n, g0, sk, rng)
		}
		if c.mode == "uf" && c.kind == "key" && c.key == "X|now" {
			// the clock never runs backwards
			x.assume(g0, mkQuant("forall", []*Term{jv}, mkImp(rng(jv, tZero, n), mkLe(sk(c.next, jv), c.head))))
			x.assume(g0, mkLe(c.entry, c.head))
		}
	}
	known := append(append([]*Term{C}, d.assumes...), mkLe(tZero, n))
	x.lemmaRelations(trans, n, g0, known, st0, d.hs, d.back)
	for _, id := range order {
		if c := cs[id]; x.unit.Locks && c.kind == "key" && c.key == "X|lock" && c.mode == "uf" && c.next != nil && c.next != c.head {
			x.lemmaLocks(c, g0, known)
		}
	}
	for _, id := range order {
		c := cs[id]
		if (c.mode == "acc" || c.mode == "acc1") && len(rowOf[id]) > 0 {
			lid := lenID(c)
			if lc := cs[lid]; lc != nil {
				x.lemmaAppend(c, lc, rowOf[id], n, g0, sk, rng)
			} else if os.Getenv("VC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "no length for", id, lid)
			}
		}
	}
	for _, id := range order {
		c := cs[id]
		if c.kind == "cell" && isArr(c.sort) && c.next != nil && c.mode == "uf" && (strings.HasPrefix(c.key, "MD|") || strings.HasPrefix(c.key, "MV|") || strings.HasPrefix(c.key, "E|")) {
			x.lemmaSet(c, n, g0, sk, rng, depends)
		}
	}
	if os.Getenv("VC_LOOP") != "" && x.dry == 0 {
		fmt.Fprintf(os.Stderr, "LOOP %s b%d C=%s\n", f.fn, h.Index, C)
		for _, id := range order {
			fmt.Fprintf(os.Stderr, "   %s %s/%s head=%s next=%s\n", id, cs[id].kind, cs[id].mode, cs[id].head, cs[id].next)
		}
	}

	// ---- the arbitrary iteration ----
	hs, _ := mkHead()
	outs := f.region(blocks, body, h, []edgeIn{{nil, hs}})
	var ex []outEdge
	for _, o := range outs {
		if o.to != h {
			ex = append(ex, o)
		}
	}
	return ex
}

func lenID(c *carried) string {
	switch c.kind {
	case "phi":
		return fmt.Sprintf("p%s.%d", c.phi.Name(), c.leaf+2)
	case "key":
		return strings.TrimSuffix(c.id, "#r") + "#l"
	}
	return strings.Replace(c.id, "#r@", "#l@", 1)
}

func isFC(t *Term, cs map[string]*carried) bool {
	for _, c := range cs {
		if c.fc == t && t != nil {
			return true
		}
	}
	return false
}

func (t *Term) orVar(x *Exec, key string) *Term {
	if t != nil {
		return t
	}
	return x.initial(key)
}

// freshLeaves: do all leaves of the conditional t denote objects made after mark, or head itself
func freshLeaves(t, head *Term, mark int) (always, ok bool) {
	if t == head {
		return false, true
	}
	switch t.Op {
	case "ite":
		a1, o1 := freshLeaves(t.Args[1], head, mark)
		a2, o2 := freshLeaves(t.Args[2], head, mark)
		return a1 && a2, o1 && o2
	case "fresh":
		return true, tb.symIdx["f:"+t.S] > mark
	}
	return false, false
}

type skFn = func(t, j *Term) *Term
type rngFn = func(j, lo, hi *Term) *Term

// lemmaScalar adds closed forms for conditional updates and counters
func (x *Exec) lemmaScalar(c *carried, n, g0 *Term, sk skFn, rng rngFn) {
	head, next := c.head, c.next
	if !mentions(next, head) {
		// fully overwritten each iteration: value of the last iteration
		x.assume(g0, mkImp(mkLt(tZero, n), mkEq(head, sk(next, mkSub(n, tOne)))))
		return
	}
	jv := mkBV("j", SInt)
	var cond, val *Term
	if c.sort == SBool {
		t1 := subst(next, map[int]*Term{head.ID: tTrue})
		t0 := subst(next, map[int]*Term{head.ID: tFalse})
		switch {
		case t1 == tTrue:
			cond, val = t0, tTrue
		case t0 == tFalse:
			cond, val = mkNot(t1), tFalse
		default:
			return
		}
	} else {
		cond, val = updParts(next, head)
	}
	if cond != nil && val != nil && !mentions(cond, head) && !mentions(val, head) {
		m := freshVar("last", SInt)
		never := mkAnd(mkQuant("forall", []*Term{jv}, mkImp(rng(jv, tZero, n), mkNot(sk(cond, jv)))), mkEq(head, c.entry))
		some := mkAnd(rng(m, tZero, n), sk(cond, m), mkEq(head, sk(val, m)), mkQuant("forall", []*Term{jv}, mkImp(mkAnd(mkLt(m, jv), mkLt(jv, n)), mkNot(sk(cond, jv)))))
		x.assume(g0, mkOr(never, some))
		if c.sort == SBool {
			// every match sets it
			x.assume(g0, mkQuant("forall", []*Term{jv}, mkImp(mkAnd(rng(jv, tZero, n), sk(cond, jv)), mkEq(head, val))))
		}
		return
	}
	if c.sort == SInt {
		// counter: next = head + (cond ? k : 0), k constant
		cond, k := countParts(next, head)
		if cond != nil && !mentions(cond, head) {
			d := mkSub(head, c.entry)
			all := mkQuant("forall", []*Term{jv}, mkImp(rng(jv, tZero, n), sk(cond, jv)))
			none := mkQuant("forall", []*Term{jv}, mkImp(rng(jv, tZero, n), mkNot(sk(cond, jv))))
			nk := mkMul(k, n)
			if v, _ := intVal(k); v.Sign() > 0 {
				x.assume(g0, mkAnd(mkLe(tZero, d), mkLe(d, nk)))
			} else {
				x.assume(g0, mkAnd(mkLe(nk, d), mkLe(d, tZero)))
			}
			w1, w2 := freshVar("w", SInt), freshVar("w", SInt)
			x.assume(g0, mkImp(mkEq(d, nk), all))
			x.assume(g0, mkOr(mkEq(d, nk), mkAnd(rng(w1, tZero, n), mkNot(sk(cond, w1)))))
			x.assume(g0, mkImp(mkEq(d, tZero), none))
			x.assume(g0, mkOr(mkEq(d, tZero), mkAnd(rng(w2, tZero, n), sk(cond, w2))))
		}
	}
}

// lemmaRelations finds relations between ghost and program variables carried around the loop. Candidates
// (equalities, and for booleans every clause of two literals) are kept when they hold on entry and a solver
// shows that the body preserves all of them together.
// lemmaLocks: when an iteration gives back every lock it takes, all of them do
func (x *Exec) lemmaLocks(c *carried, g0 *Term, body []*Term) {
	q := premises(x, len(x.assumes), append(append([]*Term{g0, mkEq(c.head, c.entry)}, body...), mkNot(mkEq(c.next, c.entry)))...)
	if x.quickAll([][]*Term{propagate(q)}, 2*time.Second)[0] {
		x.assume(g0, mkEq(c.head, c.entry))
	}
}

func (x *Exec) lemmaRelations(trans []*carried, n, g0 *Term, body []*Term, st0, hs, back *State) {
	var vs []*carried
	ghost := false
	for _, c := range trans {
		if c.mode != "uf" || c.kind == "row" || isArr(c.sort) || c.elem != nil {
			continue
		}
		if isGhostKey(c) {
			ghost = true
		} else if c.kind == "cell" && !strings.HasPrefix(c.key, "C|") {
			continue
		}
		vs = append(vs, c)
	}
	if x.dry > 0 {
		return
	}
	if !ghost || len(vs) > 14 {
		vs = nil
	}
	type cand struct{ entry, head, next *Term }
	var cands []cand
	put := func(f func(g func(*carried) *Term) *Term) {
		e := f(func(c *carried) *Term { return c.entry })
		if e == tFalse {
			return
		}
		cands = append(cands, cand{e, f(func(c *carried) *Term { return c.head }), f(func(c *carried) *Term { return c.next })})
	}
	for i, a := range vs {
		if a.sort == SInt && isGhostKey(a) {
			cands = append(cands, cand{tTrue, mkEq(a.head, mkAdd(a.entry, n)), mkEq(a.next, mkAdd(a.entry, mkAdd(n, tOne)))})
		}
		if a.sort == SBool && isGhostKey(a) {
			for _, na := range []bool{false, true} {
				put(func(g func(*carried) *Term) *Term { return lit(g(a), na) })
			}
		}
		for _, b := range vs[i+1:] {
			if a.sort != b.sort || !isGhostKey(a) && !isGhostKey(b) {
				continue
			}
			if a.sort != SBool {
				put(func(g func(*carried) *Term) *Term { return mkEq(g(a), g(b)) })
				if a.sort == SInt {
					// what one gains the other gains or loses
					put(func(g func(*carried) *Term) *Term { return mkEq(mkAdd(g(a), b.entry), mkAdd(g(b), a.entry)) })
					put(func(g func(*carried) *Term) *Term { return mkEq(mkAdd(g(a), g(b)), mkAdd(a.entry, b.entry)) })
				}
				continue
			}
			for k := 0; k < 4; k++ {
				put(func(g func(*carried) *Term) *Term { return mkOr(lit(g(a), k&1 != 0), lit(g(b), k&2 != 0)) })
			}
		}
	}
	to := 2 * time.Second
	// what the contract says iterations keep
	for _, k := range x.unit.Keeps {
		to = 6 * time.Second
		cands = append(cands, cand{x.boolOf(k.Expr, x.unitEnv, st0), x.boolOf(k.Expr, x.unitEnv, hs), x.boolOf(k.Expr, x.unitEnv, back)})
	}
	if len(cands) == 0 {
		return
	}
	// hold keeps the candidates whose negation contradicts what is known
	hold := func(cs []cand, f func(c cand) []*Term) []cand {
		qs := make([][]*Term, len(cs))
		for i, c := range cs {
			qs[i] = f(c)
		}
		ok := x.quickAll(qs, to)
		var out []cand
		for i, c := range cs {
			if ok[i] {
				out = append(out, c)
			}
		}
		return out
	}
	keep := hold(cands, func(c cand) []*Term { return premises(x, len(x.assumes), g0, mkNot(c.entry)) })
	for len(keep) > 0 {
		var hs []*Term
		for _, c := range keep {
			hs = append(hs, c.head)
		}
		light := map[*Term]bool{}
		if len(x.unit.Keeps) > 0 {
			// the iteration alone often says enough
			for _, c := range hold(keep, func(c cand) []*Term {
				return propagate(append(append([]*Term{g0}, append(hs, body...)...), mkNot(c.next)))
			}) {
				light[c.next] = true
			}
		}
		next := hold(keep, func(c cand) []*Term {
			if c.next == tTrue || light[c.next] {
				return []*Term{tFalse}
			}
			return propagate(premises(x, len(x.assumes), append(append([]*Term{g0}, append(hs, body...)...), mkNot(c.next))...))
		})
		if len(next) == len(keep) {
			break
		}
		keep = next
	}
	for _, c := range keep {
		x.assume(g0, c.head)
		if os.Getenv("VC_LOOP") != "" {
			fmt.Fprintln(os.Stderr, "RELATION", c.head)
		}
	}
}

func isGhostKey(c *carried) bool {
	return c.kind == "key" && strings.HasPrefix(c.key, "X|") && c.key != "X|now" && c.key != "X|lock"
}

func lit(t *Term, neg bool) *Term {
	if neg {
		return mkNot(t)
	}
	return t
}

var quickMemo = map[string]bool{}

// quickAll: which sets of formulas are contradictory, according to a solver with little time
func (x *Exec) quickAll(qs [][]*Term, to time.Duration) []bool {
	out := make([]bool, len(qs))
	keys := make([]string, len(qs))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i, fs := range qs {
		ids := make([]int, 0, len(fs))
		bad := false
		for _, f := range fs {
			bad = bad || f == tFalse
			ids = append(ids, f.ID)
		}
		sort.Ints(ids)
		keys[i] = fmt.Sprint(ids)
		if bad {
			out[i] = true
			continue
		}
		if r, ok := quickMemo[keys[i]]; ok {
			out[i] = r
			continue
		}
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			out[i] = quickUnsat(fs, "rel", to)
			<-sem
		}()
	}
	wg.Wait()
	for i, k := range keys {
		quickMemo[k] = out[i]
	}
	return out
}

// updParts splits next into (condition under which the variable is overwritten, new value)
func updParts(t, head *Term) (*Term, *Term) {
	if t == head {
		return tFalse, nil
	}
	if t.Op == "ite" && mentions(t, head) {
		c1, v1 := updParts(t.Args[1], head)
		c2, v2 := updParts(t.Args[2], head)
		if c1 == nil || c2 == nil {
			return nil, nil
		}
		c := mkIte(t.Args[0], c1, c2)
		switch {
		case v1 == nil:
			return c, v2
		case v2 == nil:
			return c, v1
		}
		return c, mkIte(t.Args[0], v1, v2)
	}
	if mentions(t, head) {
		return nil, nil
	}
	return tTrue, t
}

func countParts(t, head *Term) (*Term, *Term) {
	if t == head {
		return tFalse, nil
	}
	if t.Op == "ite" {
		c1, k1 := countParts(t.Args[1], head)
		c2, k2 := countParts(t.Args[2], head)
		if c1 == nil || c2 == nil || (k1 != nil && k2 != nil && k1 != k2) {
			return nil, nil
		}
		if k1 == nil {
			k1 = k2
		}
		return mkIte(t.Args[0], c1, c2), k1
	}
	d := mkSub(t, head)
	if v, ok := intVal(d); ok && v.Sign() != 0 {
		return tTrue, d
	}
	return nil, nil
}

// ctxSimp simplifies the branches of conditional rows under their conditions
func ctxSimp(t *Term, ctx map[int]*Term) *Term {
	sub := func(u *Term) *Term {
		if len(ctx) == 0 {
			return u
		}
		return mapTerm(u, func(v *Term) *Term {
			if v.Sort == SBool {
				return ctx[v.ID]
			}
			return nil
		}, map[int]*Term{})
	}
	switch t.Op {
	case "ite":
		c := sub(t.Args[0])
		if c == tTrue {
			return ctxSimp(t.Args[1], ctx)
		}
		if c == tFalse {
			return ctxSimp(t.Args[2], ctx)
		}
		with := func(pos bool) map[int]*Term {
			m := map[int]*Term{}
			for k, v := range ctx {
				m[k] = v
			}
			var put func(c *Term, pos bool)
			put = func(c *Term, pos bool) {
				m[c.ID] = mkBool(pos)
				switch {
				case c.Op == "not":
					put(c.Args[0], !pos)
				case c.Op == "and" && pos, c.Op == "or" && !pos:
					for _, a := range c.Args {
						put(a, pos)
					}
				}
			}
			put(t.Args[0], pos)
			put(c, pos)
			return m
		}
		return mkIte(c, ctxSimp(t.Args[1], with(true)), ctxSimp(t.Args[2], with(false)))
	case "catrow":
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			if i == 0 || i == 3 {
				args[i] = ctxSimp(a, ctx)
			} else {
				args[i] = sub(a)
			}
		}
		return rebuild(t, args)
	}
	return sub(t)
}

type seg struct {
	cond    *Term
	rows    []*Term
	off, ln *Term
}

// appendSegs lists what the row after an iteration has beyond the row before it: pieces appended and the
// conditions under which they are. The conditionals share their prefixes, so this walks a graph.
func appendSegs(next, head []*Term) ([]seg, bool) {
	type node struct {
		ts    []*Term
		conds []*Term
		pend  int
	}
	key := func(ts []*Term) string {
		var sb strings.Builder
		for _, t := range ts {
			fmt.Fprintf(&sb, "%d,", t.ID)
		}
		return sb.String()
	}
	headKey := key(head)
	nodes := map[string]*node{}
	// children of a node: conditional branches or the prefix of an append
	kids := func(ts []*Term) (out [][]*Term, conds []*Term, sg *seg, ok bool) {
		if key(ts) == headKey {
			return nil, nil, nil, true
		}
		t := ts[0]
		switch t.Op {
		case "ite":
			a, b := make([]*Term, len(ts)), make([]*Term, len(ts))
			for i := range ts {
				if ts[i].Op == "ite" && ts[i].Args[0] == t.Args[0] {
					a[i], b[i] = ts[i].Args[1], ts[i].Args[2]
				} else {
					a[i], b[i] = ts[i], ts[i]
				}
			}
			return [][]*Term{a, b}, []*Term{t.Args[0], mkNot(t.Args[0])}, nil, true
		case "catrow":
			pre, rb := make([]*Term, len(ts)), make([]*Term, len(ts))
			for i := range ts {
				if ts[i].Op != "catrow" || ts[i].Args[1] != tZero || ts[i].Args[4] != t.Args[4] || ts[i].Args[5] != t.Args[5] {
					return nil, nil, nil, false
				}
				pre[i], rb[i] = ts[i].Args[0], ts[i].Args[3]
			}
			return [][]*Term{pre}, []*Term{tTrue}, &seg{nil, rb, t.Args[4], t.Args[5]}, true
		}
		return nil, nil, nil, false
	}
	okAll := true
	var count func(ts []*Term)
	count = func(ts []*Term) {
		k := key(ts)
		if n, ok := nodes[k]; ok {
			n.pend++
			return
		}
		nodes[k] = &node{ts: ts, pend: 1}
		cs, _, _, ok := kids(ts)
		if !ok {
			okAll = false
			return
		}
		for _, c := range cs {
			count(c)
		}
	}
	count(next)
	if !okAll {
		return nil, false
	}
	var segs []seg
	var walk func(ts []*Term, cond *Term)
	walk = func(ts []*Term, cond *Term) {
		n := nodes[key(ts)]
		n.conds = append(n.conds, cond)
		n.pend--
		if n.pend > 0 {
			return
		}
		cond = orConds(n.conds)
		cs, conds, sg, _ := kids(ts)
		if sg != nil {
			sg.cond = cond
			segs = append(segs, *sg)
		}
		for i, c := range cs {
			walk(c, mkAnd(cond, conds[i]))
		}
	}
	walk(next, tTrue)
	// in order of appending
	for i, j := 0, len(segs)-1; i < j; i, j = i+1, j-1 {
		segs[i], segs[j] = segs[j], segs[i]
	}
	return segs, true
}

// orConds joins conditions, merging pairs that differ in one complementary part
func orConds(cs []*Term) *Term {
	cs = append([]*Term{}, cs...)
	for again := true; again; {
		again = false
	pairs:
		for i := 0; i < len(cs); i++ {
			for j := i + 1; j < len(cs); j++ {
				if m := mergeConds(cs[i], cs[j]); m != nil {
					cs[i] = m
					cs = append(cs[:j], cs[j+1:]...)
					again = true
					break pairs
				}
			}
		}
	}
	return mkOr(cs...)
}

func mergeConds(a, b *Term) *Term {
	if a == b {
		return a
	}
	in := func(t *Term) map[int]*Term {
		m := map[int]*Term{}
		for _, c := range conjs(t) {
			if c != tTrue {
				m[c.ID] = c
			}
		}
		return m
	}
	ma, mb := in(a), in(b)
	var oa, ob []*Term
	for _, c := range sortedTerms(ma) {
		if mb[c.ID] == nil {
			oa = append(oa, c)
		}
	}
	for _, c := range sortedTerms(mb) {
		if ma[c.ID] == nil {
			ob = append(ob, c)
		}
	}
	if len(oa) == 0 {
		return a
	}
	if len(ob) == 0 {
		return b
	}
	if mkAnd(oa...) == mkNot(mkAnd(ob...)) || mkNot(mkAnd(oa...)) == mkAnd(ob...) {
		var rest []*Term
		for _, c := range conjs(a) {
			if mb[c.ID] != nil {
				rest = append(rest, c)
			}
		}
		return mkAnd(rest...)
	}
	return nil
}

func (x *Exec) lemmaAppend(rc, lc *carried, rows []*carried, n, g0 *Term, sk skFn, rng rngFn) {
	if lc.head == nil || lc.next == nil {
		return
	}
	var hr, nr []*Term
	for _, r := range rows {
		hr = append(hr, ctxSimp(r.head, nil))
		nr = append(nr, ctxSimp(r.next, nil))
	}
	len0 := lc.entry
	lenN := lc.head
	x.assume(g0, mkImp(mkEq(n, tZero), mkEq(lenN, len0)))
	var segs []seg
	ok := false
	if len(rows) > 0 {
		segs, ok = appendSegs(nr, hr)
	}
	if os.Getenv("VC_LOOP") != "" {
		fmt.Fprintln(os.Stderr, "APPEND", rc.id, ok, len(segs))
		if !ok && len(nr) > 0 {
			fmt.Fprintln(os.Stderr, "   head", hr[0], "\n   next", nr[0])
		}
	}
	if !ok {
		return
	}
	if rc.mode == "acc" {
		x.assume(g0, mkImp(mkEq(n, tZero), mkNot(mkApp(rc.uf, SBool, n))))
	}
	iv := mkBV("i", SInt)
	// prefix kept
	for _, r := range rows {
		x.assume(g0, mkQuant("forall", []*Term{iv}, mkImp(rng(iv, tZero, len0), mkEq(mkSelect(r.head, iv), mkSelect(r.entry, iv)))))
	}
	x.assume(g0, mkLe(len0, lenN))
	if rc.mode == "acc" {
		// untouched so far: nothing appended
		x.assume(g0, mkOr(mkApp(rc.uf, SBool, n), mkEq(lenN, len0)))
	}
	if len(segs) == 1 && segs[0].cond == tTrue && segs[0].ln == tOne {
		s := segs[0]
		x.assume(g0, mkEq(lenN, mkAdd(len0, n)))
		for k, r := range rows {
			k := k
			jv := mkBV("j", SInt)
			x.assume(g0, mkQuant("forall", []*Term{jv}, mkImp(rng(jv, tZero, n), mkEq(mkSelect(r.head, mkAdd(len0, jv)), sk(mkSelect(s.rows[k], s.off), jv)))))
			if len0 != tZero {
				x.assume(g0, mkQuant("forall", []*Term{iv}, mkImp(rng(iv, len0, lenN), mkEq(mkSelect(r.head, iv), sk(mkSelect(s.rows[k], s.off), mkSub(iv, len0))))))
			}
		}
		return
	}
	// every element beyond the initial ones comes from some iteration
	M, Q := freshUF("from"), freshUF("part")
	m, q := mkApp(M, SInt, iv), mkApp(Q, SInt, iv)
	var alts []*Term
	{
		for _, s := range segs {
			cs := []*Term{sk(s.cond, m)}
			qq := q
			ln := sk(s.ln, m)
			if s.ln == tOne {
				qq = tZero
			} else {
				cs = append(cs, rng(q, tZero, ln))
			}
			for k, r := range rows {
				bvq := mkBV("q", SInt)
				el := sk(mkSelect(s.rows[k], mkAdd(s.off, bvq)), m)
				el = subst(el, map[int]*Term{bvq.ID: qq})
				cs = append(cs, mkEq(mkSelect(r.head, iv), el))
			}
			alts = append(alts, mkAnd(cs...))
		}
	}
	x.assume(g0, mkQuant("forall", []*Term{iv}, mkImp(rng(iv, len0, lenN), mkAnd(rng(m, tZero, n), mkOr(alts...)))))
	// and everything appended is present
	jv := mkBV("j", SInt)
	{
		for _, s := range segs {
			P := freshUF("at")
			if s.ln == tOne {
				pos := mkApp(P, SInt, jv)
				cs := []*Term{rng(pos, len0, lenN)}
				for k, r := range rows {
					cs = append(cs, mkEq(mkSelect(r.head, pos), sk(mkSelect(s.rows[k], s.off), jv)))
				}
				x.assume(g0, mkQuant("forall", []*Term{jv}, mkImp(mkAnd(rng(jv, tZero, n), sk(s.cond, jv)), mkAnd(cs...))))
			} else {
				qv := mkBV("q", SInt)
				pos := mkApp(P, SInt, jv, qv)
				cs := []*Term{rng(pos, len0, lenN)}
				for k, r := range rows {
					cs = append(cs, mkEq(mkSelect(r.head, pos), sk(mkSelect(s.rows[k], mkAdd(s.off, qv)), jv)))
				}
				x.assume(g0, mkQuant("forall", []*Term{jv, qv}, mkImp(mkAnd(rng(jv, tZero, n), sk(s.cond, jv), rng(qv, tZero, sk(s.ln, jv))), mkAnd(cs...))))
			}
		}
	}
}

// update: one write of an iteration; vars are the iterations of loops inside it
type update struct {
	vars           []*Term
	cond, key, val *Term
}

// setRec: the writes made by a loop to an array, over all its iterations
type setRec struct {
	n, entry *Term
	ups      []update
}

// collectUpdates: the writes of an iteration that lead from head to next
func (x *Exec) collectUpdates(c *carried) ([]update, bool) {
	var ups []update
	var walk func(t, cond *Term) bool
	walk = func(t, cond *Term) bool {
		if t == c.head {
			return true
		}
		switch t.Op {
		case "store":
			ups = append(ups, update{nil, cond, t.Args[1], t.Args[2]})
			return walk(t.Args[0], cond)
		case "ite":
			return walk(t.Args[1], mkAnd(cond, t.Args[0])) && walk(t.Args[2], mkAnd(cond, mkNot(t.Args[0])))
		case "app":
			if r := x.setRecs[t.S]; r != nil && len(t.Args) == 1 {
				for _, u := range r.ups {
					nu := update{nil, u.cond, u.key, u.val}
					m := map[int]*Term{r.n.ID: t.Args[0]}
					for _, v := range u.vars {
						w := mkBV("j", SInt)
						nu.vars = append(nu.vars, w)
						m[v.ID] = w
					}
					nu.cond, nu.key, nu.val = mkAnd(cond, subst(nu.cond, m)), subst(nu.key, m), subst(nu.val, m)
					ups = append(ups, nu)
				}
				return walk(r.entry, cond)
			}
		}
		return false
	}
	ok := walk(c.next, tTrue)
	return ups, ok && len(ups) > 0
}

// lemmaSet: an array written inside the loop: where its elements come from
func (x *Exec) lemmaSet(c *carried, n, g0 *Term, sk skFn, rng rngFn, depends func(*Term) bool) {
	ups, ok := x.collectUpdates(c)
	if !ok {
		return
	}
	if c.head.Op == "app" && len(c.head.Args) == 1 {
		// for an enclosing loop
		rec := &setRec{n: n, entry: c.entry}
		for _, u := range ups {
			jv := mkBV("j", SInt)
			rec.ups = append(rec.ups, update{append([]*Term{jv}, u.vars...), mkAnd(rng(jv, tZero, n), sk(u.cond, jv)), sk(u.key, jv), sk(u.val, jv)})
		}
		x.setRecs[c.head.S] = rec
	}
	kv := mkBV("k", arrDom(c.sort))
	jv := mkBV("j", SInt)
	m := mkApp(freshUF("by"), SInt, kv)
	// the witness of a write to kv
	alt := func(u update, what *Term) *Term {
		t := mkAnd(sk(u.cond, m), mkEq(kv, sk(u.key, m)), what)
		w := map[int]*Term{}
		for _, v := range u.vars {
			w[v.ID] = mkApp(freshUF("by"), SInt, kv)
		}
		if len(w) == 0 {
			return t
		}
		return subst(t, w)
	}
	each := func(u update, what *Term) {
		x.assume(g0, mkQuant("forall", append([]*Term{jv}, u.vars...), mkImp(mkAnd(rng(jv, tZero, n), sk(u.cond, jv)), what)))
	}
	boolean := ups[0].val == tTrue || ups[0].val == tFalse
	same := true
	for _, u := range ups {
		if u.val != ups[0].val {
			boolean, same = false, false
		}
	}
	effective := append([]update{}, ups...)
	for i, u := range ups {
		if !boolean {
			break
		}
		// inserting what is there and deleting what is not there changes nothing
		noop := mkSelect(c.head, u.key)
		if u.val == tTrue {
			noop = mkNot(noop)
		}
		if u.cond == noop {
			ups[i].cond = tTrue
		} else if u.cond.Op == "and" {
			var cs []*Term
			for _, a := range u.cond.Args {
				if a != noop {
					cs = append(cs, a)
				}
			}
			ups[i].cond = mkAnd(cs...)
		}
	}
	if boolean {
		// all insertions, or all deletions
		pol := func(t *Term) *Term {
			if ups[0].val == tTrue {
				return t
			}
			return mkNot(t)
		}
		var alts []*Term
		for i, u := range ups {
			alts = append(alts, alt(effective[i], tTrue))
			each(u, pol(mkSelect(c.head, sk(u.key, jv))))
		}
		x.assume(g0, mkQuant("forall", []*Term{kv}, mkImp(pol(mkSelect(c.head, kv)), mkOr(pol(mkSelect(c.entry, kv)), mkAnd(rng(m, tZero, n), mkOr(alts...))))))
		x.assume(g0, mkQuant("forall", []*Term{kv}, mkImp(pol(mkSelect(c.entry, kv)), pol(mkSelect(c.head, kv)))))
		if c.mode == "uf" {
			mid := mkSelect(sk(c.head, jv), kv)
			x.assume(g0, mkQuant("forall", []*Term{jv, kv}, mkImp(rng(jv, tZero, n), mkAnd(mkImp(pol(mkSelect(c.entry, kv)), pol(mid)), mkImp(pol(mid), pol(mkSelect(c.head, kv)))))))
		}
		return
	}
	var alts []*Term
	for _, u := range ups {
		alts = append(alts, alt(u, mkEq(mkSelect(c.head, kv), sk(u.val, m))))
	}
	x.assume(g0, mkQuant("forall", []*Term{kv}, mkOr(mkEq(mkSelect(c.head, kv), mkSelect(c.entry, kv)), mkAnd(rng(m, tZero, n), mkOr(alts...)))))
	// what is written to has the value of some write
	for _, u := range ups {
		each(u, subst(mkAnd(rng(m, tZero, n), mkOr(alts...)), map[int]*Term{kv.ID: sk(u.key, jv)}))
	}
	linear := func(k *Term) bool {
		if k == n {
			return true
		}
		if k.Op != "+" {
			return false
		}
		hit := 0
		for _, a := range k.Args {
			if a == n {
				hit++
			} else if depends(a) {
				return false
			}
		}
		return hit == 1
	}
	if len(ups) == 1 && len(ups[0].vars) == 0 && linear(ups[0].key) {
		// every iteration writes an element of its own
		each(ups[0], mkEq(mkSelect(c.head, sk(ups[0].key, jv)), sk(ups[0].val, jv)))
		if ups[0].key == n && ups[0].cond == tTrue {
			iv := mkBV("i", SInt)
			x.assume(g0, mkQuant("forall", []*Term{iv}, mkImp(rng(iv, tZero, n), mkEq(mkSelect(c.head, iv), sk(ups[0].val, iv)))))
		}
	} else if same && !depends(ups[0].val) {
		for _, u := range ups {
			each(u, mkEq(mkSelect(c.head, sk(u.key, jv)), u.val))
		}
	}
}

func sortStrings(s []string) []string { sort.Strings(s); return s }
