package main

// Calls: contracts, inlining of repository code, models of the standard library, and a conservative
// treatment of everything else.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const repoPath = "github.com/choria-io/go-choria"

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnPkgPath(o)
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	return ""
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil && o != fn {
		return o.String()
	}
	return fn.String()
}

func (x *Exec) callInstr(f *Frame, c *ssa.CallCommon, st *State, pos token.Pos) (Val, *State) {
	fv, args := x.calleeAndArgs(f, c)
	return x.callCommon(f, c, fv, args, st, pos)
}

// calleeAndArgs evaluates the callee and the arguments; for interface calls the receiver is args[0]
func (x *Exec) calleeAndArgs(f *Frame, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	var fv Val
	if c.IsInvoke() {
		args = append(args, f.get(c.Value))
	} else {
		fv = f.get(c.Value)
	}
	for _, a := range c.Args {
		args = append(args, f.get(a))
	}
	return fv, args
}

type callInfo struct {
	key    string
	alts   []string // interface method keys this call was made through
	args   []Val
	ats    []types.Type // types of args, receiver included
	sig    *types.Signature
	res    *types.Tuple
	pos    token.Pos
	variad bool
	in     ssa.CallInstruction
	cc     *ssa.CallCommon
	f      *Frame
}

func (x *Exec) callCommon(f *Frame, c *ssa.CallCommon, fv Val, args []Val, st *State, pos token.Pos) (Val, *State) {
	if st.g == tFalse {
		return nil, nil
	}
	sig := c.Signature()
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(f, b, c, args, st, pos)
	}
	ci := &callInfo{args: args, sig: sig, res: sig.Results(), pos: pos, variad: sig.Variadic(), cc: c, f: f}
	if c.IsInvoke() {
		ci.ats = append(ci.ats, c.Value.Type())
		for _, a := range c.Args {
			ci.ats = append(ci.ats, a.Type())
		}
		x.nonNil(st, args[0], "call of "+c.Method.Name(), pos)
		return x.invoke(x.term(args[0]), c.Value.Type(), c.Method, ci, st)
	}
	for _, a := range c.Args {
		ci.ats = append(ci.ats, a.Type())
	}
	return x.callFn(fv, ci, st)
}

func (x *Exec) callFn(fv Val, ci *callInfo, st *State) (Val, *State) {
	switch w := fv.(type) {
	case *FuncV:
		return x.callStatic(w, ci, st)
	case *Term:
		if w.Op == "fnc" {
			if r, ok := x.fnReg[w.S]; ok {
				return x.callStatic(r, ci, st)
			}
		}
		if w.Op == "ite" {
			return x.splitCall(w.Args[0], st, func(s *State, first bool) (Val, *State) {
				if first {
					return x.callFn(w.Args[1], ci, s)
				}
				return x.callFn(w.Args[2], ci, s)
			}, ci.res)
		}
		x.nonNil(st, w, "call of function value", ci.pos)
		ci.key = "dynamic"
		if w.Op == "select" {
			k := w.Args[0]
			for k.Op == "store" || k.Op == "select" {
				k = k.Args[0]
			}
			if k.Op == "var" {
				ci.key = "dynamic:" + strings.TrimPrefix(k.S, "H0.")
			}
		} else if w.Op == "var" {
			ci.key = "dynamic:" + strings.SplitN(w.S, "!", 2)[0]
		}
		ci.args = append([]Val{w}, ci.args...)
		ci.ats = append([]types.Type{ci.sig}, ci.ats...)
		return x.finish(ci, nil, st)
	}
	panic(fmt.Sprintf("call of %T", fv))
}

func (x *Exec) splitCall(c *Term, st *State, run func(s *State, first bool) (Val, *State), res *types.Tuple) (Val, *State) {
	s1, s2 := st.clone(), st.clone()
	s1.g = mkAnd(st.g, c)
	s2.g = mkAnd(st.g, mkNot(c))
	var vs []Val
	var ss []*State
	if s1.g != tFalse {
		if v, s := run(s1, true); s != nil {
			vs, ss = append(vs, v), append(ss, s)
		}
	}
	if s2.g != tFalse {
		if v, s := run(s2, false); s != nil {
			vs, ss = append(vs, v), append(ss, s)
		}
	}
	if len(ss) == 0 {
		return nil, nil
	}
	if len(ss) == 1 {
		return vs[0], ss[0]
	}
	var gs []*Term
	for _, s := range ss {
		gs = append(gs, s.g)
	}
	return x.mergeResults(residuals(gs), vs, res), x.mergeStates(ss)
}

func (x *Exec) mergeResults(rs []*Term, vs []Val, res *types.Tuple) Val {
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return x.mergeVals(rs, vs, res.At(0).Type())
	}
	tv := &TupleV{}
	for i := 0; i < res.Len(); i++ {
		var es []Val
		for _, v := range vs {
			es = append(es, v.(*TupleV).v[i])
		}
		tv.v = append(tv.v, x.mergeVals(rs, es, res.At(i).Type()))
	}
	return tv
}

func (x *Exec) invoke(recv *Term, it types.Type, m *types.Func, ci *callInfo, st *State) (Val, *State) {
	switch recv.Op {
	case "box":
		if t := x.typeByKey(recv.S); t != nil {
			if fn := x.prog.LookupMethod(t, m.Pkg(), m.Name()); fn != nil {
				c := *ci
				c.alts = ifaceKeys(it, m)
				c.args = append([]Val{x.unbox(recv, t)}, ci.args[1:]...)
				c.ats = append([]types.Type{t}, ci.ats[1:]...)
				return x.callStatic(&FuncV{fn: fn}, &c, st)
			}
		}
	case "nilany":
		if x.unit.NoPanic {
			x.oblige("call on nil interface", "nopanic", st.g, tFalse, ci.pos)
		}
		return nil, nil
	case "ite":
		if hasBox(recv, 0) {
			return x.splitCall(recv.Args[0], st, func(s *State, first bool) (Val, *State) {
				c := *ci
				c.args = append([]Val{}, ci.args...)
				if first {
					c.args[0] = recv.Args[1]
					return x.invoke(recv.Args[1], it, m, &c, s)
				}
				c.args[0] = recv.Args[2]
				return x.invoke(recv.Args[2], it, m, &c, s)
			}, ci.res)
		}
	}
	// key by the interface that declares the method, with the static interface first
	ci.key = "(" + tkey(it) + ")." + m.Name()
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		if n, ok := types.Unalias(r.Type()).(*types.Named); ok {
			alt := "(" + tkey(n) + ")." + m.Name()
			if alt != ci.key && x.specs.externFor(ci.key) == nil && intrinsics[ci.key] == nil && x.hookFor(ci.key) == nil {
				ci.key = alt
			}
		}
	}
	return x.finish(ci, nil, st)
}

func ifaceKeys(it types.Type, m *types.Func) []string {
	out := []string{"(" + tkey(it) + ")." + m.Name()}
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		if n, ok := types.Unalias(r.Type()).(*types.Named); ok {
			if alt := "(" + tkey(n) + ")." + m.Name(); alt != out[0] {
				out = append(out, alt)
			}
		}
	}
	return out
}

func hasBox(t *Term, d int) bool {
	if d > 6 {
		return false
	}
	switch t.Op {
	case "box":
		return typeByKeyM[t.S] != nil && !strings.HasPrefix(t.S, "*fmt.") && !strings.HasPrefix(t.S, "*errors.")
	case "ite":
		return hasBox(t.Args[1], d+1) || hasBox(t.Args[2], d+1)
	}
	return false
}

func (x *Exec) callStatic(fv *FuncV, ci *callInfo, st *State) (Val, *State) {
	ci.key = fnKey(fv.fn)
	return x.finish(ci, fv, st)
}

// finish runs hooks around the actual call
func (x *Exec) finish(ci *callInfo, fv *FuncV, st *State) (Val, *State) {
	hooks := x.hookFor(append([]string{ci.key}, ci.alts...)...)
	if x.specDepth > 0 {
		hooks = nil
	}
	if len(hooks) > 0 {
		x.hit(ci.key)
	}
	for _, h := range hooks {
		if !h.After {
			st = x.runHook(h, ci, nil, st)
		}
	}
	v, ns := x.call1(ci, fv, st)
	if ns == nil || ns.g == tFalse {
		return nil, nil
	}
	for _, h := range hooks {
		if h.After {
			ns = x.runHook(h, ci, v, ns)
		}
	}
	return v, ns
}

func (x *Exec) onStack(fn *ssa.Function) bool {
	for _, s := range x.stack {
		if s == fn {
			return true
		}
	}
	return false
}

func (x *Exec) call1(ci *callInfo, fv *FuncV, st *State) (Val, *State) {
	if c := x.specs.externFor(ci.key); c != nil {
		return x.applyContract(c, ci, st)
	}
	if fv != nil {
		if c := x.specs.modularFor(ci.key); c != nil && c != x.unit {
			x.usedContracts[ci.key] = true
			return x.applyContract(c, ci, st)
		}
		if c := x.specs.modularFor(ci.key); c != nil && x.onStack(fv.fn) {
			return x.applyContract(c, ci, st)
		}
	}
	if fv != nil && x.specs.isPure(ci.key) {
		x.trust(ci.key, "pure")
		return x.pureCall(ci.key, ci, st), st
	}
	if in, ok := intrinsics[ci.key]; ok {
		v, ns, handled := in(x, ci, st)
		if handled {
			return v, ns
		}
	}
	if fv != nil && len(fv.fn.Blocks) > 0 {
		p := fnPkgPath(fv.fn)
		inRepo := p == repoPath || strings.HasPrefix(p, repoPath+"/") || (p == "" && fv.fn.Synthetic != "") || fv.fn.Synthetic != "" && strings.HasPrefix(p, repoPath)
		if p == "slices" && stdInline[ci.key] {
			inRepo = true
		}
		if fv.fn.Synthetic != "" && !inRepo {
			inRepo = strings.Contains(fv.fn.Synthetic, "wrapper") || strings.Contains(fv.fn.Synthetic, "bound") || strings.Contains(fv.fn.Synthetic, "thunk")
		}
		if inRepo && !x.onStack(fv.fn) && len(x.stack) < 40 && !x.isOpaque(ci.key) && (!x.unit.Sweep || x.w.lockers()[fv.fn] || fv.fn.Synthetic != "" || x.handsLocker(ci)) {
			if x.dry == 0 {
				x.inlined[ci.key] = true
			}
			return x.run(fv.fn, ci.args, fv.bind, st)
		}
		if x.onStack(fv.fn) {
			x.note("recursive call of %s treated as unknown", ci.key)
		}
	}
	if isNoop(ci.key) {
		return x.havocResults(ci, st), st
	}
	if isPurePkg(ci.key) || x.specs.isPure(ci.key) {
		x.trust(ci.key, "pure")
		return x.pureCall(ci.key, ci, st), st
	}
	x.trust(ci.key, "unknown")
	return x.unknownCall(ci, st)
}

func (x *Exec) trust(key, how string) {
	if x.dry == 0 && x.specDepth == 0 {
		x.trusted[key+" ("+how+")"] = true
	}
}

// handsLocker: the call passes on a function that takes locks
func (x *Exec) handsLocker(ci *callInfo) bool {
	for _, a := range ci.args {
		if fv, ok := a.(*FuncV); ok && fv.fn != nil && x.w.lockers()[fv.fn] {
			return true
		}
	}
	return false
}

func (x *Exec) isOpaque(key string) bool {
	for _, o := range x.unit.Opaque {
		if globMatch(o, key) {
			return true
		}
	}
	return false
}

func globMatch(pat, s string) bool {
	if strings.HasPrefix(pat, "chan:") {
		if a, b, ok := strings.Cut(pat, "*"); ok {
			return len(s) >= len(a)+len(b) && strings.HasPrefix(s, a) && strings.HasSuffix(s, b)
		}
	}
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(s, strings.TrimSuffix(pat, "*"))
	}
	return pat == s
}

func (x *Exec) havocResults(ci *callInfo, st *State) Val {
	h := shortKey(ci.key)
	switch ci.res.Len() {
	case 0:
		return nil
	case 1:
		return x.havocVal(ci.res.At(0).Type(), h, st.g, false)
	}
	tv := &TupleV{}
	for i := 0; i < ci.res.Len(); i++ {
		tv.v = append(tv.v, x.havocVal(ci.res.At(i).Type(), fmt.Sprintf("%s.%d", h, i), st.g, false))
	}
	return tv
}

func shortKey(k string) string {
	if i := strings.LastIndexAny(k, "/"); i >= 0 {
		return k[i+1:]
	}
	return k
}

// unknownCall: arbitrary results; memory directly behind pointer arguments becomes arbitrary
func (x *Exec) unknownCall(ci *callInfo, st *State) (Val, *State) {
	ns := st.clone()
	for i, a := range ci.args {
		if i < len(ci.ats) {
			x.havocArg(ns, a, ci.ats[i], 0)
		}
	}
	if ci.variad && len(ci.args) > 0 {
		if sl, ok := ci.args[len(ci.args)-1].(*SliceV); ok {
			et := types.Unalias(ci.ats[len(ci.ats)-1]).Underlying().(*types.Slice).Elem()
			for _, e := range x.constElems(ns, sl, et) {
				x.havocArg(ns, e, et, 0)
			}
		}
	}
	for i, a := range ci.args {
		if i < len(ci.ats) {
			if x.unit.Sweep {
				continue // run later, or elsewhere: closures handed to others are units of their own
			}
			x.callbackArg(ci.key, a, ci.ats[i], ns)
		}
	}
	return x.havocResults(ci, ns), ns
}

func (x *Exec) constElems(st *State, s *SliceV, et types.Type) []Val {
	n, ok := intVal(s.ln)
	if !ok || n.Int64() > 64 {
		return nil
	}
	var out []Val
	for i := int64(0); i < n.Int64(); i++ {
		out = append(out, x.loadAddr(st, x.elemAddr(s, mkInt(i), et)))
	}
	return out
}

func (x *Exec) havocArg(st *State, a Val, t types.Type, d int) {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if av, ok := a.(*Term); ok && av == tZero {
			return
		}
		if _, op := opaque(u.Elem()); op {
			return
		}
		if x.readOnlyType(u.Elem()) {
			return
		}
		if tm, ok := a.(*Term); ok && tm.Op == "ite" {
			x.havocArg(st, tm.Args[1], t, d)
			x.havocArg(st, tm.Args[2], t, d)
			return
		}
		if str, isS := u.Elem().Underlying().(*types.Struct); isS && d < 2 {
			// an object made here can lead to others that only it knows about
			if tm, ok := a.(*Term); ok && tm.Op == "fresh" {
				cur, _ := x.load(st, a, u.Elem()).(*StructV)
				for i := 0; cur != nil && i < str.NumFields(); i++ {
					switch str.Field(i).Type().Underlying().(type) {
					case *types.Pointer, *types.Interface:
						if ft, ok := cur.f[i].(*Term); ok && (ft.Op == "box" || ft.Op == "fresh") {
							x.havocArg(st, ft, str.Field(i).Type(), d+1)
						}
					}
				}
			}
		}
		v := x.havocVal(u.Elem(), "out", st.g, false)
		x.store(st, a, u.Elem(), v)
	case *types.Interface:
		if tm, ok := a.(*Term); ok && tm.Op == "box" {
			if bt := x.typeByKey(tm.S); bt != nil {
				if _, isP := bt.Underlying().(*types.Pointer); isP {
					x.havocArg(st, x.unbox(tm, bt), bt, d+1)
				}
			}
		}
	case *types.Map:
		m, ok := a.(*Term)
		if !ok || m == tZero {
			return
		}
		for _, k := range []string{"MD|" + mapKey(u), "ML|" + mapKey(u)} {
			srt := arr(arr2(x.keySort(u.Key()), SBool))
			if k[1] == 'L' {
				srt = arr(SInt)
			}
			h := x.hget(st, k, srt)
			x.hset(st, k, mkStore(h, m, freshVar("hm", arrRange(h.Sort))))
		}
		for _, l := range x.leaves(u.Elem()) {
			k := "MV|" + mapKey(u) + l.Suffix
			h := x.hget(st, k, arr(arr2(x.keySort(u.Key()), l.Sort)))
			x.hset(st, k, mkStore(h, m, freshVar("hm", arrRange(h.Sort))))
		}
	}
}

// readOnlyType: library types whose methods are known not to expose their fields
func (x *Exec) readOnlyType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return false
}

// callbackArg accounts for function values handed to unknown code: they may run any number of times
func (x *Exec) callbackArg(key string, a Val, t types.Type, st *State) {
	if _, ok := types.Unalias(t).Underlying().(*types.Signature); !ok {
		return
	}
	var fv *FuncV
	switch w := a.(type) {
	case *FuncV:
		fv = w
	case *Term:
		if w.Op == "fnc" {
			fv = x.fnReg[w.S]
		}
	}
	if fv == nil {
		return
	}
	x.callback(key, fv, st)
}

func (x *Exec) callback(key string, fv *FuncV, st *State) {
	if len(fv.fn.Blocks) == 0 || !strings.HasPrefix(fnPkgPath(fv.fn), repoPath) || x.onStack(fv.fn) || x.isOpaque(fnKey(fv.fn)) {
		return
	}
	mkArgs := func(s *State) []Val {
		var args []Val
		for _, p := range fv.fn.Params {
			args = append(args, x.havocVal(p.Type(), "cb."+p.Name(), s.g, false))
		}
		return args
	}
	// run executes the callback once, hooks on callback:KEY run before it
	run := func(s *State) *State {
		args := mkArgs(s)
		ci := &callInfo{key: "callback:" + key, args: args, sig: fv.fn.Signature, res: fv.fn.Signature.Results(), pos: fv.fn.Pos()}
		for _, p := range fv.fn.Params {
			ci.ats = append(ci.ats, p.Type())
		}
		for _, h := range x.hookFor(ci.key) {
			if !h.After {
				s = x.runHook(h, ci, nil, s)
			}
		}
		v, out := x.run(fv.fn, args, fv.bind, s)
		if out != nil && out.g != tFalse {
			for _, h := range x.hookFor(ci.key) {
				if h.After {
					out = x.runHook(h, ci, v, out)
				}
			}
		}
		return out
	}
	mark := tb.symN
	// fixpoint over what the callback may modify
	for round := 0; round < 6; round++ {
		s := st.clone()
		na := len(x.assumes)
		x.dry++
		m0 := tb.symN
		out := run(s)
		x.dry--
		x.assumes = x.assumes[:na]
		if out == nil {
			break
		}
		changed := false
		for k, bt := range out.h {
			if _, ok := itNum(k); ok {
				continue
			}
			ht, ok := st.h[k]
			if !ok {
				ht = x.initial(k)
			}
			if bt == ht {
				continue
			}
			if isArr(bt.Sort) && !strings.HasPrefix(k, "G|") && !strings.HasPrefix(k, "X|") {
				idx := map[int]*Term{}
				if storesOver(bt, ht, idx) {
					bad := false
					n := ht
					for _, ix := range sortedTerms(idx) {
						rt := rootOf(ix)
						if rt.Op == "fresh" && tb.symIdx["f:"+rt.S] > m0 {
							continue
						}
						if mentionsAfter(ix, m0, map[int]bool{}) {
							bad = true
							break
						}
						cur := mkSelect(n, ix)
						if cur.Op == "var" && tb.symIdx["v:"+cur.S] > mark && strings.HasPrefix(cur.S, "cbv") {
							continue
						}
						n = mkStore(n, ix, freshVar("cbv", arrRange(ht.Sort)))
						changed = true
					}
					if !bad {
						if n != ht {
							x.hset(st, k, n)
						}
						continue
					}
				}
			}
			if ht.Op == "var" && tb.symIdx["v:"+ht.S] > mark && strings.HasPrefix(ht.S, "cbv") {
				continue
			}
			x.hset(st, k, freshVar("cbv", bt.Sort))
			changed = true
		}
		if !changed {
			break
		}
	}
	s := st.clone()
	s.g = mkAnd(st.g, freshVar("cbrun", SBool))
	run(s)
	if x.dry == 0 {
		x.inlined[fnKey(fv.fn)] = true
	}
}

// pure functions: results are uninterpreted functions of the arguments' contents

func (x *Exec) pureArgs(ci *callInfo, st *State) []*Term {
	var out []*Term
	for i, a := range ci.args {
		var t types.Type
		if i < len(ci.ats) {
			t = ci.ats[i]
		}
		if ci.variad && i == len(ci.args)-1 {
			if sl, ok := a.(*SliceV); ok {
				et := types.Unalias(t).Underlying().(*types.Slice).Elem()
				if n, ok := intVal(sl.ln); ok && n.Int64() <= 64 {
					for _, e := range x.constElems(st, sl, et) {
						out = append(out, x.pureLeaves(e, et, st)...)
					}
					continue
				}
			}
		}
		out = append(out, x.pureLeaves(a, t, st)...)
	}
	return out
}

func isByteSlice(t types.Type) (types.Type, bool) {
	sl, ok := types.Unalias(t).Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	b, ok := types.Unalias(sl.Elem()).Underlying().(*types.Basic)
	if ok && b.Kind() == types.Uint8 {
		return sl.Elem(), true
	}
	return nil, false
}

func (x *Exec) pureLeaves(a Val, t types.Type, st *State) []*Term {
	if sl, ok := a.(*SliceV); ok {
		if et, ok := isByteSlice(t); ok {
			return []*Term{x.bytesOfT(st, sl, et)}
		}
		et := types.Unalias(t).Underlying().(*types.Slice).Elem()
		out := []*Term{}
		for _, r := range x.rows(st, sl, et) {
			out = append(out, r)
		}
		return append(out, sl.off, sl.ln)
	}
	if tm, ok := a.(*Term); ok && tm.Op == "box" {
		// boxed slices by content
		if bt := x.typeByKey(tm.S); bt != nil {
			if _, isS := bt.Underlying().(*types.Slice); isS {
				return x.pureLeaves(x.unbox(tm, bt), bt, st)
			}
		}
	}
	return x.toLeaves(a, t)
}

func (x *Exec) pureCall(key string, ci *callInfo, st *State) Val {
	args := x.pureArgs(ci, st)
	if (key == "regexp.MustCompile" || key == "regexp.Compile") && len(args) == 1 && args[0].Op == "str" {
		// the same constant pattern is the same matcher wherever it is compiled
		if _, err := regexp.Compile(args[0].S); err == nil {
			re := mk("gref", "regexp:"+args[0].S, SInt)
			if key == "regexp.Compile" {
				return &TupleV{v: []Val{re, nilAny()}}
			}
			return re
		}
	}
	mkRes := func(i int, t types.Type) Val { return x.pureResult(fmt.Sprintf("%s#%d", key, i), t, args, st) }
	switch ci.res.Len() {
	case 0:
		return nil
	case 1:
		r := mkRes(0, ci.res.At(0).Type())
		if sl, ok := r.(*SliceV); ok && key == "(*regexp.Regexp).FindStringSubmatch" {
			// what matches has as many parts as the pattern
			m := x.term(x.pureResult("(*regexp.Regexp).MatchString#0", tBool, args, st))
			parts := mkLe(tOne, sl.ln)
			if p, ok := strings.CutPrefix(args[0].S, "regexp:"); ok && args[0].Op == "gref" {
				if re, err := regexp.Compile(p); err == nil {
					parts = mkEq(sl.ln, mkInt(int64(re.NumSubexp()+1)))
				}
			}
			x.assume(st.g, mkIte(m, parts, mkEq(sl.ln, tZero)))
		}
		return r
	}
	tv := &TupleV{}
	for i := 0; i < ci.res.Len(); i++ {
		tv.v = append(tv.v, mkRes(i, ci.res.At(i).Type()))
	}
	switch key {
	case "regexp.MatchString", "regexp.Match", "path.Match", "path/filepath.Match", "strconv.ParseBool":
		// what does not parse does not match
		if b, ok := tv.v[0].(*Term); ok && b.Sort == SBool {
			x.assume(st.g, mkImp(b, mkEq(tv.v[1].(*Term), nilAny())))
		}
	}
	return tv
}

func (x *Exec) pureResult(name string, t types.Type, args []*Term, st *State) Val {
	name = "pure:" + name
	if sl, ok := types.Unalias(t).Underlying().(*types.Slice); ok {
		if et, ok := isByteSlice(t); ok {
			isnil := mkApp(name+"?nil", SBool, args...)
			content := mkApp(name, SStr, args...)
			x.assume(st.g, mkImp(isnil, mkEq(content, mkStr(""))))
			_ = et
			return &SliceV{mkIte(isnil, tZero, immRef(mkApp("rowof", arr(SInt), content))), tZero, mkStrLen(content)}
		}
		isnil := mkApp(name+"?nil", SBool, args...)
		ln := mkApp(name+"?len", SInt, args...)
		x.assume(st.g, mkLe(tZero, ln))
		x.assume(st.g, mkImp(isnil, mkEq(ln, tZero)))
		var rows []*Term
		lvs := x.leaves(sl.Elem())
		for _, l := range lvs {
			if strings.HasSuffix(l.Suffix, "#o") {
				rows = append(rows, constOfSort(arr(l.Sort), tZero))
				continue
			}
			rows = append(rows, mkApp(name+l.Suffix+"?row", arr(l.Sort), args...))
		}
		if len(lvs) == 1 {
			return &SliceV{mkIte(isnil, tZero, immRef(rows[0])), tZero, ln}
		}
		r := freshRef()
		x.setRows(st, r, sl.Elem(), rows)
		return &SliceV{mkIte(isnil, tZero, r), tZero, ln}
	}
	var ls []*Term
	for _, l := range x.leaves(t) {
		if strings.HasSuffix(l.Suffix, "#o") {
			ls = append(ls, constOfSort(l.Sort, tZero))
			continue
		}
		v := mkApp(name+l.Suffix, l.Sort, args...)
		if l.Ref {
			refLoads[v.ID] = true
		}
		ls = append(ls, v)
	}
	v := x.mkVal(t, ls)
	x.typeInv(t, v, st.g)
	return v
}

// library functions that are executed symbolically from their source
var stdInline = map[string]bool{"slices.ContainsFunc": true, "slices.IndexFunc": true, "slices.Index": true}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "path": true, "path/filepath": true, "unicode": true, "unicode/utf8": true, "bytes": true,
	"errors": true, "fmt": true, "encoding/hex": true, "encoding/base64": true, "encoding/pem": true, "crypto/x509": true,
	"crypto/ed25519": true, "crypto/sha256": true, "crypto/md5": true, "crypto/rsa": true, "crypto/hmac": true, "net": true, "net/url": true, "math": true, "regexp": true,
	"crypto": true, "html": true, "mime": true, "math/bits": true, "cmp": true, "slices": true, "maps": true, "time": true, "crypto/subtle": true,
	"github.com/choria-io/tokens": true, "github.com/nats-io/nkeys": true, "github.com/tidwall/gjson": true, "go/ast": false, "github.com/dustin/go-humanize": true,
}

var impureFns = map[string]bool{
	"fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Fprint": true, "fmt.Sscanf": true, "fmt.Sscan": true, "fmt.Fscanf": true,
	"encoding/pem.Encode": true, "encoding/hex.Decode": true, "net.Dial": true, "net.Listen": true, "net.LookupHost": true, "net.LookupAddr": true, "net.LookupSRV": true, "net.LookupTXT": true, "net.LookupIP": true,
	"crypto/ed25519.GenerateKey": true, "time.Now": true, "slices.Sort": true, "slices.SortFunc": true, "slices.Reverse": true,
	"path/filepath.Glob": true, "path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.EvalSymlinks": true, "time.After": true, "time.NewTimer": true, "time.NewTicker": true, "time.AfterFunc": true, "time.Sleep": true, "net.InterfaceAddrs": true, "net.Interfaces": true,
	"bytes.NewBuffer": true, "bytes.NewReader": true, "bytes.NewBufferString": true, "strings.NewReader": true, "crypto/sha256.New": true, "crypto/md5.New": true, "crypto/hmac.New": true,
	"path/filepath.Abs": false,
}

func keyPkg(key string) string {
	k := strings.TrimPrefix(key, "(")
	k = strings.TrimPrefix(k, "*")
	sl := strings.LastIndex(k, "/")
	d := strings.Index(k[sl+1:], ".")
	if d < 0 {
		return k
	}
	return k[:sl+1+d]
}

func isPurePkg(key string) bool {
	if impureFns[key] {
		return false
	}
	p := keyPkg(key)
	if strings.HasPrefix(key, "(*net.") && !strings.HasPrefix(key, "(*net.IPNet)") {
		return false
	}
	if strings.HasPrefix(key, "(*bytes.") || strings.HasPrefix(key, "(*strings.") || strings.HasPrefix(key, "(*time.T") {
		return false
	}
	if strings.HasPrefix(key, "(net.") && !strings.HasPrefix(key, "(net.IP") && !strings.HasPrefix(key, "(net.Addr") {
		return false
	}
	return purePkgs[p]
}

var noopPrefixes = []string{
	"(*github.com/sirupsen/logrus.", "github.com/sirupsen/logrus.", "(github.com/sirupsen/logrus.", "log.", "(*log.", "(*sync.WaitGroup)", "fmt.Print",
	"github.com/prometheus/", "(*github.com/prometheus/", "(github.com/prometheus/", "(github.com/choria-io/go-choria/inter.Logger)", "time.Sleep", "runtime.", "(github.com/choria-io/go-choria/aagent/watchers/watcher.Logger)",
	"(*sync.Mutex)", "(*sync.RWMutex)", "(sync.Locker)", "(context.Context)", "context.", "sync/atomic.", "(*sync/atomic.", "os/signal.", "(*time.T", "time.NewT", "time.After",
}

func isNoop(key string) bool {
	for _, p := range noopPrefixes {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

// ---------- contracts ----------

func mentionsGhost(c *Contract, e Clause) bool {
	for _, g := range c.Ghosts {
		if regexp.MustCompile(`\b` + regexp.QuoteMeta(g.Name) + `\b`).MatchString(e.Src) {
			return true
		}
	}
	return false
}

func (x *Exec) applyContract(c *Contract, ci *callInfo, st *State) (Val, *State) {
	env := x.contractEnv(c, ci)
	pre := st
	for i, r := range c.Requires {
		t := x.evalBool(r, env, pre, pre)
		if x.specDepth == 0 && !c.Pure {
			x.oblige(fmt.Sprintf("precondition of %s: %s", shortKey(ci.key), nz(r.Name, strconv.Itoa(i+1))), "requires", st.g, t, ci.pos)
			x.assume(st.g, t)
		}
	}
	ns := st
	var res Val
	switch {
	case c.Pure:
		res = x.pureCall(ci.key, ci, ns)
	default:
		ns = st.clone()
		switch {
		case len(c.Modifies) == 0 && c.Kind == "extern" && !c.Frame:
			var r Val
			r, ns = x.unknownCall(ci, st)
			res = r
		default:
			for _, m := range c.Modifies {
				x.havocLoc(m, env, ns, pre)
			}
			res = x.havocResults(ci, ns)
		}
	}
	for _, f := range c.Fresh {
		for i, n := range c.Results {
			if n != f {
				continue
			}
			ref := freshRef()
			if c.Kind != "extern" {
				ref = mkIte(freshVar("isnil", SBool), tZero, ref)
			}
			if tv, ok := res.(*TupleV); ok {
				tv.v[i] = ref
			} else {
				res = ref
			}
		}
	}
	x.bindResults(c, env, res, ci)
	for _, e := range append(append([]Clause{}, c.Ensures...), c.Invariants...) {
		if c.Kind != "extern" && mentionsGhost(c, e) {
			continue // about what happens inside the callee
		}
		x.assume(ns.g, x.evalBool(e, env, ns, pre))
	}
	if c.Kind == "extern" {
		x.trust(ci.key, "assumed contract")
	}
	return res, ns
}

func nz(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

// ---------- builtins ----------

func (x *Exec) builtin(f *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, st *State, pos token.Pos) (Val, *State) {
	at := func(i int) types.Type { return c.Args[i].Type() }
	switch b.Name() {
	case "len":
		return x.lenOf(st, args[0], at(0)), st
	case "cap":
		r := freshVar("cap", SInt)
		if s, ok := args[0].(*SliceV); ok {
			x.assume(st.g, mkLe(s.ln, r))
		} else {
			x.assume(st.g, mkLe(tZero, r))
		}
		return r, st
	case "append":
		ns := st.clone()
		s := args[0].(*SliceV)
		et := types.Unalias(at(0)).Underlying().(*types.Slice).Elem()
		var bs *SliceV
		if bt, ok := types.Unalias(at(1)).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			bs = x.newBytesT(ns, x.term(args[1]), et)
		} else {
			bs = args[1].(*SliceV)
		}
		return x.appendVals(ns, s, bs, et), ns
	case "copy":
		ns := st.clone()
		d := args[0].(*SliceV)
		et := types.Unalias(at(0)).Underlying().(*types.Slice).Elem()
		var s *SliceV
		if bt, ok := types.Unalias(at(1)).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			s = x.newBytesT(ns, x.term(args[1]), et)
		} else {
			s = args[1].(*SliceV)
		}
		n := mkIte(mkLt(d.ln, s.ln), d.ln, s.ln)
		dr, sr := x.rows(ns, d, et), x.rows(ns, s, et)
		var nr []*Term
		for i := range dr {
			if d.off == tZero && s.off == tZero && d.ln == s.ln && n == d.ln {
				// whole content replaced
				nr = append(nr, sr[i])
				continue
			}
			bv := mkBV("k", SInt)
			nr = append(nr, mkLam(bv, mkIte(mkAnd(mkLe(d.off, bv), mkLt(bv, mkAdd(d.off, n))), mkSelect(sr[i], mkAdd(mkSub(bv, d.off), s.off)), mkSelect(dr[i], bv))))
		}
		x.setRows(ns, d.ref, et, nr)
		return n, ns
	case "delete":
		ns := st.clone()
		x.mapDelete(ns, x.term(args[0]), at(0), args[1])
		return nil, ns
	case "clear":
		ns := st.clone()
		if mt, ok := types.Unalias(at(0)).Underlying().(*types.Map); ok {
			x.mapInit(ns, x.term(args[0]), mt)
		}
		return nil, ns
	case "close", "print", "println":
		return nil, st
	case "recover":
		return nilAny(), st
	case "min", "max":
		r := x.term(args[0])
		for _, a := range args[1:] {
			t := x.term(a)
			if b.Name() == "min" {
				r = mkIte(mkLt(t, r), t, r)
			} else {
				r = mkIte(mkLt(r, t), t, r)
			}
		}
		return r, st
	case "ssa:wrapnilchk":
		x.nonNil(st, args[0], "method value", pos)
		return args[0], st
	}
	if c.Signature().Results().Len() == 0 {
		return nil, st
	}
	return x.havocVal(c.Signature().Results().At(0).Type(), b.Name(), st.g, false), st
}

func (x *Exec) appendVals(st *State, s, b *SliceV, et types.Type) Val {
	if b.ln == tZero {
		return s
	}
	r := freshRef()
	ra, rb := x.rows(st, s, et), x.rows(st, b, et)
	rows := make([]*Term, len(ra))
	for i := range ra {
		if n, ok := intVal(b.ln); ok && n.Int64() <= 8 && s.ln.Op == "int" && s.off == tZero {
			row := ra[i]
			if s.ln == tZero {
				row = mkConstArr(ra[i].Sort, zeroOf(arrRange(ra[i].Sort)))
			}
			for k := int64(0); k < n.Int64(); k++ {
				row = mkStore(row, mkAdd(s.ln, mkInt(k)), mkSelect(rb[i], mkAdd(b.off, mkInt(k))))
			}
			rows[i] = row
			continue
		}
		rows[i] = mkCatRow(ra[i], s.off, s.ln, rb[i], b.off, b.ln)
	}
	x.setRows(st, r, et, rows)
	nl := mkAdd(s.ln, b.ln)
	ref := r
	if !isPosConst(b.ln) {
		// appending nothing keeps the slice
		ref = mkIte(mkEq(b.ln, tZero), s.ref, r)
		off := mkIte(mkEq(b.ln, tZero), s.off, tZero)
		return &SliceV{ref, off, nl}
	}
	return &SliceV{ref, tZero, nl}
}

func isPosConst(t *Term) bool {
	v, ok := intVal(t)
	return ok && v.Sign() > 0
}

// ---------- library models ----------

type intrinsic func(x *Exec, ci *callInfo, st *State) (Val, *State, bool)

var intrinsics map[string]intrinsic

func (x *Exec) variadic(ci *callInfo, st *State) ([]Val, types.Type, bool) {
	sl, ok := ci.args[len(ci.args)-1].(*SliceV)
	if !ok {
		return nil, nil, false
	}
	et := types.Unalias(ci.ats[len(ci.ats)-1]).Underlying().(*types.Slice).Elem()
	if _, ok := intVal(sl.ln); !ok {
		return nil, et, false
	}
	return x.constElems(st, sl, et), et, true
}

// fmtVal is the text of a value under a verb
func (x *Exec) fmtVal(verb string, v Val) *Term {
	t := x.term(v)
	if t.Op == "ite" {
		return mkIte(t.Args[0], x.fmtVal(verb, t.Args[1]), x.fmtVal(verb, t.Args[2]))
	}
	if t.Op == "box" {
		if bt := x.typeByKey(t.S); bt != nil {
			b, isB := bt.Underlying().(*types.Basic)
			_, named := types.Unalias(bt).(*types.Named)
			if isB && (!named || verb == "%q" || !hasStringer(bt)) {
				switch {
				case b.Info()&types.IsString != 0 && (verb == "%s" || verb == "%v"):
					return t.Args[0]
				case b.Info()&types.IsString != 0:
					return mkApp("fmt"+verb, SStr, t.Args[0])
				case b.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v"):
					return itoa(t.Args[0])
				}
			}
			if et, ok := isByteSlice(bt); ok && verb == "%x" {
				_ = et
			}
		}
	}
	return mkApp("fmt"+verb, SStr, t)
}

func hasStringer(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "String" || n == "Error" || n == "Format" {
			return true
		}
	}
	return false
}

func itoa(t *Term) *Term {
	if t.Op == "int" {
		return mkStr(t.S)
	}
	return mkApp("itoa", SStr, t)
}

func (x *Exec) sprintf(format *Term, vs []Val) (*Term, []*Term) {
	var wrapped []*Term
	if format.Op != "str" {
		var as []*Term
		as = append(as, format)
		for _, v := range vs {
			as = append(as, x.term(v))
		}
		return mkApp("sprintf", SStr, as...), nil
	}
	var parts []*Term
	s := format.S
	vi := 0
	for i := 0; i < len(s); {
		if s[i] != '%' {
			j := strings.IndexByte(s[i:], '%')
			if j < 0 {
				j = len(s) - i
			}
			parts = append(parts, mkStr(s[i:i+j]))
			i += j
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			break
		}
		verb := s[i : j+1]
		i = j + 1
		if s[j] == '%' {
			parts = append(parts, mkStr("%"))
			continue
		}
		if vi >= len(vs) {
			parts = append(parts, mkStr("%!"+verb))
			continue
		}
		v := vs[vi]
		vi++
		if s[j] == 'w' {
			wrapped = append(wrapped, x.term(v))
			verb = "%v"
		}
		parts = append(parts, x.fmtVal(verb, v))
	}
	return mkCat(parts...), wrapped
}

var wrapReg = map[int][]*Term{}

func errIs(e, t *Term, d int) *Term {
	if e == t {
		return tTrue
	}
	if d > 8 {
		return mkApp("errors.Is", SBool, e, t)
	}
	switch e.Op {
	case "ite":
		return mkIte(e.Args[0], errIs(e.Args[1], t, d+1), errIs(e.Args[2], t, d+1))
	case "nilany":
		return mkEq(t, nilAny())
	case "box":
		if ws, ok := wrapReg[e.ID]; ok {
			r := mkEq(e, t)
			for _, w := range ws {
				r = mkOr(r, errIs(w, t, d+1))
			}
			return r
		}
		if e.S == "*errors.errorString" || e.S == "*fmt.wrapError" {
			return mkEq(e, t)
		}
	}
	if t.Op == "ite" {
		return mkIte(t.Args[0], errIs(e, t.Args[1], d+1), errIs(e, t.Args[2], d+1))
	}
	return mkOr(mkEq(e, t), mkApp("errors.Is", SBool, e, t))
}

func one(f func(x *Exec, a []Val, ci *callInfo, st *State) Val) intrinsic {
	return func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
		v := f(x, ci.args, ci, st)
		if v == nil {
			return nil, st, false
		}
		return v, st, true
	}
}

func strFn(f func(a, b *Term) *Term) intrinsic {
	return one(func(x *Exec, a []Val, ci *callInfo, st *State) Val { return f(x.term(a[0]), x.term(a[1])) })
}

func (x *Exec) strContent(v Val, t types.Type, st *State) *Term {
	if sl, ok := v.(*SliceV); ok {
		et, _ := isByteSlice(t)
		return x.bytesOfT(st, sl, et)
	}
	return x.term(v)
}

func byteFn(f func(a, b *Term) *Term) intrinsic {
	return one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
		return f(x.strContent(a[0], ci.ats[0], st), x.strContent(a[1], ci.ats[1], st))
	})
}

func timeFn(f func(a, b *Term) *Term) intrinsic {
	return one(func(x *Exec, a []Val, ci *callInfo, st *State) Val { return f(x.term(a[0]), x.term(a[1])) })
}
func ident0() intrinsic {
	return one(func(x *Exec, a []Val, ci *callInfo, st *State) Val { return a[0] })
}

func (x *Exec) now(st *State) *Term {
	cur := x.hget(st, "X|now", SInt)
	t := freshVar("now", SInt)
	x.assume(st.g, mkLe(cur, t))
	x.hset(st, "X|now", t)
	return t
}

func isInRow(x *Exec, sl *SliceV, el Val, et types.Type, st *State) *Term {
	rows := x.rows(st, sl, et)
	els := x.toLeaves(el, et)
	at := func(i *Term) *Term {
		var cs []*Term
		for k := range rows {
			cs = append(cs, mkEq(mkSelect(rows[k], mkAdd(sl.off, i)), els[k]))
		}
		return mkAnd(cs...)
	}
	if n, ok := intVal(sl.ln); ok && n.Int64() <= 32 {
		var ds []*Term
		for i := int64(0); i < n.Int64(); i++ {
			ds = append(ds, at(mkInt(i)))
		}
		return mkOr(ds...)
	}
	iv := mkBV("i", SInt)
	return mkQuant("exists", []*Term{iv}, mkAnd(mkLe(tZero, iv), mkLt(iv, sl.ln), at(iv)))
}

func init() {
	intrinsics = map[string]intrinsic{
		"strings.HasPrefix": strFn(func(a, b *Term) *Term { return mkPrefix(b, a) }),
		"strings.HasSuffix": strFn(func(a, b *Term) *Term { return mkSuffix(b, a) }),
		"strings.Contains":  strFn(func(a, b *Term) *Term { return mkContains(a, b) }),
		"strings.Compare":   one(func(x *Exec, a []Val, ci *callInfo, st *State) Val { return x.cmpStr(x.term(a[0]), x.term(a[1])) }),
		"strings.Count": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			s, p := x.term(a[0]), x.term(a[1])
			n := mkApp("pure:strings.Count#0", SInt, s, p)
			x.assume(st.g, mkAnd(mkLe(tZero, n), mkEq(mkLt(tZero, n), mkContains(s, p))))
			return n
		}),
		"strings.Index": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			s, p := x.term(a[0]), x.term(a[1])
			n := mkApp("pure:strings.Index#0", SInt, s, p)
			x.assume(st.g, mkAnd(mkEq(mkLe(tZero, n), mkContains(s, p)), mkLe(mkInt(-1), n), mkEq(mkEq(n, tZero), mkPrefix(p, s)), mkImp(mkLe(tZero, n), mkLe(mkAdd(n, mkStrLen(p)), mkStrLen(s)))))
			return n
		}),
		"strings.ContainsRune": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			if c, ok := intVal(x.term(a[1])); ok && c.IsInt64() {
				return mkContains(x.term(a[0]), mkStr(string(rune(c.Int64()))))
			}
			return nil
		}),
		"strings.ContainsAny": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			c := x.term(a[1])
			if c.Op != "str" || len(c.S) > 64 {
				return nil
			}
			var ds []*Term
			for _, r := range c.S {
				ds = append(ds, mkContains(x.term(a[0]), mkStr(string(r))))
			}
			return mkOr(ds...)
		}),
		"strings.CutPrefix": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			s, p := x.term(a[0]), x.term(a[1])
			r := mkApp("trimpre", SStr, s, p)
			x.assume(st.g, mkImp(mkPrefix(p, s), mkEq(s, mkCat(p, r))))
			return &TupleV{v: []Val{mkIte(mkPrefix(p, s), r, s), mkPrefix(p, s)}}
		}),
		"strings.CutSuffix": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			s, p := x.term(a[0]), x.term(a[1])
			r := mkApp("trimsuf", SStr, s, p)
			x.assume(st.g, mkImp(mkSuffix(p, s), mkEq(s, mkCat(r, p))))
			return &TupleV{v: []Val{mkIte(mkSuffix(p, s), r, s), mkSuffix(p, s)}}
		}),
		"bytes.Compare": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			return x.cmpStr(x.strContent(a[0], ci.ats[0], st), x.strContent(a[1], ci.ats[1], st))
		}),
		"cmp.Compare": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			p, ok := a[0].(*Term)
			q, ok2 := a[1].(*Term)
			if !ok || !ok2 {
				return nil
			}
			switch p.Sort {
			case SStr:
				return x.cmpStr(p, q)
			case SInt:
				return mkIte(mkEq(p, q), tZero, mkIte(mkLt(p, q), mkInt(-1), tOne))
			}
			return nil
		}),
		"bytes.HasPrefix":                   byteFn(func(a, b *Term) *Term { return mkPrefix(b, a) }),
		"bytes.HasSuffix":                   byteFn(func(a, b *Term) *Term { return mkSuffix(b, a) }),
		"bytes.Contains":                    byteFn(func(a, b *Term) *Term { return mkContains(a, b) }),
		"bytes.Equal":                       byteFn(func(a, b *Term) *Term { return mkEq(a, b) }),
		"crypto/subtle.ConstantTimeCompare": byteFn(func(a, b *Term) *Term { return mkIte(mkEq(a, b), tOne, tZero) }),
		"crypto/hmac.Equal":                 byteFn(func(a, b *Term) *Term { return mkEq(a, b) }),
		"strings.EqualFold": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			return mkOr(mkEq(x.term(a[0]), x.term(a[1])), mkEq(mkApp("pure:strings.ToLower#0", SStr, x.term(a[0])), mkApp("pure:strings.ToLower#0", SStr, x.term(a[1]))))
		}),
		"strings.TrimPrefix": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			s, p := x.term(a[0]), x.term(a[1])
			r := mkApp("trimpre", SStr, s, p)
			x.assume(st.g, mkImp(mkPrefix(p, s), mkEq(s, mkCat(p, r))))
			return mkIte(mkPrefix(p, s), r, s)
		}),
		"strings.TrimSuffix": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			s, p := x.term(a[0]), x.term(a[1])
			r := mkApp("trimsuf", SStr, s, p)
			x.assume(st.g, mkImp(mkSuffix(p, s), mkEq(s, mkCat(r, p))))
			return mkIte(mkSuffix(p, s), r, s)
		}),
		"strconv.Itoa": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val { return itoa(x.term(a[0])) }),
		"fmt.Sprintf": func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
			vs, _, ok := x.variadic(ci, st)
			if !ok {
				return freshVar("sprintf", SStr), st, true
			}
			t, _ := x.sprintf(x.term(ci.args[0]), vs)
			return t, st, true
		},
		"fmt.Sprint": func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
			vs, _, ok := x.variadic(ci, st)
			if ok && len(vs) == 1 {
				return x.fmtVal("%v", vs[0]), st, true
			}
			return nil, st, false
		},
		"fmt.Errorf": func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
			vs, _, ok := x.variadic(ci, st)
			if !ok {
				return mkBox("*fmt.wrapError", freshVar("err", SInt)), st, true
			}
			msg, wr := x.sprintf(x.term(ci.args[0]), vs)
			_ = msg
			as := []*Term{x.term(ci.args[0])}
			for _, v := range vs {
				as = append(as, x.term(v))
			}
			b := mkBox("*fmt.wrapError", mkApp("errorf", SInt, as...))
			wrapReg[b.ID] = wr
			return b, st, true
		},
		"errors.New": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			return mkBox("*errors.errorString", freshRef())
		}),
		"errors.Is": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			return errIs(x.term(a[0]), x.term(a[1]), 0)
		}),
		"errors.As": func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
			v, ns := x.unknownCall(ci, st)
			x.assume(ns.g, mkImp(mkEq(x.term(ci.args[0]), nilAny()), mkNot(x.term(v))))
			return v, ns, true
		},
		"(error).Error": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val { return mkApp("error.Error", SStr, x.term(a[0])) }),
		"slices.Contains": func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
			sl, ok := ci.args[0].(*SliceV)
			if !ok {
				return nil, st, false
			}
			et := types.Unalias(ci.ats[0]).Underlying().(*types.Slice).Elem()
			return isInRow(x, sl, ci.args[1], et, st), st, true
		},
		"time.Now": func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
			ns := st.clone()
			return x.now(ns), ns, true
		},
		"time.Since": func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
			ns := st.clone()
			return x.satDur(mkSub(x.now(ns), x.term(ci.args[0]))), ns, true
		},
		"time.Until": func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
			ns := st.clone()
			return x.satDur(mkSub(x.term(ci.args[0]), x.now(ns))), ns, true
		},
		"(time.Time).Sub": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			return x.satDur(mkSub(x.term(a[0]), x.term(a[1])))
		}),
		"(time.Duration).Abs": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			d := x.term(a[0])
			return x.satDur(mkIte(mkLt(d, tZero), mkSub(tZero, d), d))
		}),
		"(time.Duration).Seconds": func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
			c, ok := intVal(x.term(ci.args[0]))
			if !ok {
				return nil, nil, false
			}
			v := constant.BinaryOp(constant.MakeFromLiteral(c.String(), token.INT, 0), token.QUO, constant.MakeInt64(1000000000))
			return x.constOf(constant.ToFloat(v), types.Typ[types.Float64]), st, true
		},
		"(time.Time).Add":    timeFn(mkAdd),
		"(time.Time).Before": timeFn(mkLt),
		"(time.Time).After":  timeFn(func(a, b *Term) *Term { return mkLt(b, a) }),
		"(time.Time).Equal":  timeFn(mkEq),
		"(time.Time).UTC":    ident0(),
		"(time.Time).Local":  ident0(),
		"(time.Time).IsZero": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val { return mkEq(x.term(a[0]), tZero) }),
		"(time.Time).UnixNano": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			return mkSub(x.term(a[0]), mkVar("unixepoch", SInt))
		}),
		"(time.Time).Unix": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			return mkDiv(mkSub(x.term(a[0]), mkVar("unixepoch", SInt)), mkInt(1000000000))
		}),
		"time.Unix": one(func(x *Exec, a []Val, ci *callInfo, st *State) Val {
			return mkAdd(mkVar("unixepoch", SInt), mkAdd(mkMul(mkInt(1000000000), x.term(a[0])), x.term(a[1])))
		}),
		"(*sync.Once).Do": func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
			c := freshVar("once", SBool)
			v, ns := x.splitCall(c, st, func(s *State, first bool) (Val, *State) {
				if !first {
					return nil, s
				}
				sub := *ci
				sub.args, sub.ats = nil, nil
				return x.callFn(ci.args[1], &sub, s)
			}, ci.res)
			return v, ns, true
		},
		"(*math/rand.Rand).Shuffle":    shuffleOp,
		"(*math/rand/v2.Rand).Shuffle": shuffleOp,
		"math/rand.Shuffle":            shuffleOp,
		"math/rand/v2.Shuffle":         shuffleOp,
		"math.Ceil":                    roundOp(true),
		"math.Floor":                   roundOp(false),
		"os.Exit":                      func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) { return nil, nil, true },
		"encoding/json.Unmarshal": func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
			data := x.bytesOf(st, ci.args[0].(*SliceV))
			return x.decodeInto("json", data, ci.args[1], ci, st)
		},
		"(*sync.Mutex).Lock":      lockOp("Lock"),
		"(*sync.Mutex).Unlock":    lockOp("Unlock"),
		"(*sync.Mutex).TryLock":   lockOp("TryLock"),
		"(*sync.RWMutex).Lock":    lockOp("Lock"),
		"(*sync.RWMutex).Unlock":  lockOp("Unlock"),
		"(*sync.RWMutex).RLock":   lockOp("RLock"),
		"(*sync.RWMutex).RUnlock": lockOp("RUnlock"),
		"sort.Strings":            sortOp,
		"slices.Sort":             sortOp,
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		for _, op := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap"} {
			intrinsics["sync/atomic."+op+t] = atomicOp(op)
		}
	}
}

// roundOp: math.Ceil and math.Floor, numbers with fractions being real numbers
func roundOp(up bool) intrinsic {
	return func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
		v := x.term(ci.args[0])
		name, lo, hi := "rfloor", mkInt(0), tOne
		if up {
			name, lo, hi = "rceil", mkInt(-1), mkInt(0)
		}
		c := mkApp(name, SInt, v)
		real := func(t *Term) *Term { return mk("toreal", "", SReal, t) }
		// floor: c <= v < c+1, ceil: c-1 < v <= c
		if up {
			x.assume(tTrue, mkAnd(mkLt(real(mkAdd(c, lo)), v), mkLe(v, real(c))))
		} else {
			x.assume(tTrue, mkAnd(mkLe(real(c), v), mkLt(v, real(mkAdd(c, hi)))))
		}
		if v.Op == "/r" && v.Args[0].Op == "toreal" && v.Args[1].Op == "toreal" {
			// the same without division, for whole numbers
			a, b := v.Args[0].Args[0], v.Args[1].Args[0]
			l, r := mkMul(mkAdd(c, lo), b), mkMul(mkAdd(c, hi), b)
			if up {
				x.assume(tTrue, mkImp(mkLt(tZero, b), mkAnd(mkLt(l, a), mkLe(a, r))))
			} else {
				x.assume(tTrue, mkImp(mkLt(tZero, b), mkAnd(mkLe(l, a), mkLt(a, r))))
			}
		}
		return real(c), st, true
	}
}

// atomicOp: an operation of sync/atomic on a number, as one step of this goroutine
func atomicOp(op string) intrinsic {
	return func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
		t := derefT(ci.ats[0])
		x.nonNil(st, ci.args[0], "atomic "+op, ci.pos)
		old := x.load(st, ci.args[0], t)
		ns := st.clone()
		switch op {
		case "Load":
			return old, st, true
		case "Store", "Swap":
			x.store(ns, ci.args[0], t, ci.args[1])
			if op == "Swap" {
				return old, ns, true
			}
			return nil, ns, true
		case "Add":
			v := x.wrap(mkAdd(x.term(old), x.term(ci.args[1])), t)
			x.store(ns, ci.args[0], t, v)
			return v, ns, true
		}
		is := mkEq(x.term(old), x.term(ci.args[1]))
		x.store(ns, ci.args[0], t, mkIte(is, x.term(ci.args[2]), x.term(old)))
		return is, ns, true
	}
}

func (x *Exec) cmpStr(a, b *Term) *Term {
	return mkIte(mkEq(a, b), tZero, mkIte(x.strLt(a, b), mkInt(-1), tOne))
}

// sortOp: the content becomes a permutation of itself
func sortOp(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
	sl, ok := ci.args[0].(*SliceV)
	if !ok {
		return nil, st, false
	}
	et := types.Unalias(ci.ats[0]).Underlying().(*types.Slice).Elem()
	ns := st.clone()
	old := x.rows(ns, sl, et)
	var rows []*Term
	for _, o := range old {
		rows = append(rows, freshVar("sorted", o.Sort))
	}
	x.setRows(ns, sl.ref, et, rows)
	p, q := freshUF("perm"), freshUF("iperm")
	iv := mkBV("i", SInt)
	in := func(t *Term) *Term { return mkAnd(mkLe(tZero, t), mkLt(t, sl.ln)) }
	for k := range rows {
		x.assume(ns.g, mkQuant("forall", []*Term{iv}, mkImp(in(iv), mkAnd(in(mkApp(p, SInt, iv)), mkEq(mkSelect(rows[k], mkAdd(sl.off, iv)), mkSelect(old[k], mkAdd(sl.off, mkApp(p, SInt, iv))))))))
		x.assume(ns.g, mkQuant("forall", []*Term{iv}, mkImp(in(iv), mkAnd(in(mkApp(q, SInt, iv)), mkEq(mkSelect(old[k], mkAdd(sl.off, iv)), mkSelect(rows[k], mkAdd(sl.off, mkApp(q, SInt, iv))))))))
	}
	return nil, ns, true
}

// shuffleOp: when the function given swaps two elements of a slice, these elements become a permutation of themselves
func shuffleOp(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
	if len(ci.args) < 2 {
		return nil, st, false
	}
	n := x.term(ci.args[len(ci.args)-2])
	fv, ok := ci.args[len(ci.args)-1].(*FuncV)
	if t, isT := ci.args[len(ci.args)-1].(*Term); isT && t.Op == "fnc" {
		fv, ok = x.fnReg[t.S]
	}
	if !ok || len(fv.fn.Blocks) == 0 || x.onStack(fv.fn) {
		return nil, st, false
	}
	x.oblige("number of elements to shuffle is not negative", "nopanic", st.g, mkLe(tZero, n), ci.pos)
	i, j := freshVar("i", SInt), freshVar("j", SInt)
	s := st.clone()
	s.g = mkAnd(st.g, mkLe(tZero, i), mkLt(i, n), mkLe(tZero, j), mkLt(j, n))
	_, out := x.run(fv.fn, []Val{i, j}, fv.bind, s)
	if out == nil {
		return nil, st, false
	}
	ns := st.clone()
	for k, t := range out.h {
		h, had := st.h[k]
		if !had {
			h = x.hget(st, k, t.Sort)
		}
		if t == h {
			continue
		}
		if !strings.HasPrefix(k, "E|") || t.Op != "store" || t.Args[0] != h {
			return nil, st, false
		}
		ref, row := t.Args[1], mkSelect(h, t.Args[1])
		w := t.Args[2]
		if w.Op != "store" || w.Args[0].Op != "store" || w.Args[0].Args[0] != row {
			return nil, st, false
		}
		a, va, b, vb := w.Args[0].Args[1], w.Args[0].Args[2], w.Args[1], w.Args[2]
		off := subst(a, map[int]*Term{i.ID: tZero, j.ID: tZero})
		if !(a == mkAdd(off, i) && b == mkAdd(off, j) || a == mkAdd(off, j) && b == mkAdd(off, i)) || va != mkSelect(row, b) || vb != mkSelect(row, a) {
			return nil, st, false
		}
		// the elements from off on are permuted
		nr := freshVar("shuffled", row.Sort)
		x.hset(ns, k, mkStore(h, ref, nr))
		p, q := freshUF("perm"), freshUF("perm")
		iv := mkBV("i", SInt)
		in := func(t *Term) *Term { return mkAnd(mkLe(tZero, t), mkLt(t, n)) }
		x.assume(ns.g, mkQuant("forall", []*Term{iv}, mkImp(in(iv), mkEq(mkApp(q, SInt, mkApp(p, SInt, iv)), iv))))
		at := func(r, t *Term) *Term { return mkSelect(r, mkAdd(off, t)) }
		for _, d := range [][3]any{{p, nr, row}, {q, row, nr}} {
			pv := mkApp(d[0].(string), SInt, iv)
			x.assume(ns.g, mkQuant("forall", []*Term{iv}, mkImp(in(iv), mkAnd(in(pv), mkEq(at(d[1].(*Term), iv), at(d[2].(*Term), pv))))))
		}
		x.assume(ns.g, mkQuant("forall", []*Term{iv}, mkImp(mkOr(mkLt(iv, off), mkLe(mkAdd(off, n), iv)), mkEq(mkSelect(nr, iv), mkSelect(row, iv)))))
	}
	return nil, ns, true
}

// decodeInto: the target is overwritten with a function of the data and its previous content
func (x *Exec) decodeInto(kind string, data *Term, target Val, ci *callInfo, st *State) (Val, *State, bool) {
	ns := st.clone()
	t, ok := target.(*Term)
	if !ok || t.Op != "box" {
		v, s := x.unknownCall(ci, st)
		return v, s, true
	}
	bt := x.typeByKey(t.S)
	if bt == nil {
		v, s := x.unknownCall(ci, st)
		return v, s, true
	}
	pt, isP := bt.Underlying().(*types.Pointer)
	if !isP {
		v, s := x.unknownCall(ci, st)
		return v, s, true
	}
	p := x.unbox(t, bt)
	et := pt.Elem()
	// a variable that already holds a pointer keeps it, unless the document is a null that resets it
	switch types.Unalias(et).Underlying().(type) {
	case *types.Pointer, *types.Interface:
		if cur, ok := x.load(ns, p, et).(*Term); ok {
			in := cur
			if in.Op != "box" {
				in = mkBox(tkey(et), cur)
			}
			root := in
			if len(in.Args) == 1 {
				root = rootOf(in.Args[0])
			}
			if it := x.typeByKey(in.S); it != nil && root.Op == "fresh" {
				if _, ok := it.Underlying().(*types.Pointer); ok {
					v, ns2, ok := x.decodeInto(kind, data, in, ci, ns)
					ns2 = ns2.clone()
					x.store(ns2, p, et, mkIte(mkApp(kind+".null", SBool, data), x.term(x.zero(et)), cur))
					return v, ns2, ok
				}
			}
		}
	}
	err := mkApp(kind+".err:"+tkey(et), SAny, data)
	if _, op := opaque(et); !op {
		old := x.toLeaves(x.load(ns, p, et), et)
		lv := x.leaves(et)
		var ls []*Term
		keep := x.undecoded(et)
		for i, l := range lv {
			if keep[i] {
				ls = append(ls, old[i])
				continue
			}
			if strings.HasSuffix(l.Suffix, "#o") {
				ls = append(ls, constOfSort(l.Sort, tZero))
				continue
			}
			n := kind + ":" + tkey(et) + l.Suffix
			var v *Term
			if isConst(old[i]) && !old[i].frs {
				v = mkApp(n, l.Sort, data)
			} else {
				v = mkApp(n+"/", l.Sort, data, old[i])
			}
			if l.Ref {
				refLoads[v.ID] = true
			}
			ls = append(ls, v)
		}
		v := x.mkVal(et, ls)
		x.typeInv(et, v, ns.g)
		x.store(ns, p, et, v)
	}
	return err, ns, true
}

// undecoded tells which leaves of a type no decoder writes: those of unexported and excluded fields
func (x *Exec) undecoded(t types.Type) []bool {
	out := make([]bool, len(x.leaves(t)))
	st, ok := types.Unalias(t).Underlying().(*types.Struct)
	if _, op := opaque(t); !ok || op {
		return out
	}
	for _, m := range []string{"UnmarshalJSON", "UnmarshalYAML", "UnmarshalText", "UnmarshalBinary"} {
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, m); o != nil {
			if _, isF := o.(*types.Func); isF {
				return out
			}
		}
	}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		sub := x.undecoded(f.Type())
		for j := range sub {
			out[n+j] = sub[j] || (!f.Exported() && !f.Embedded())
		}
		n += len(sub)
	}
	return out
}

// lock tracking (only in units that ask for it)
func lockOp(op string) intrinsic {
	return func(x *Exec, ci *callInfo, st *State) (Val, *State, bool) {
		if !x.unit.Locks {
			if ci.res.Len() > 0 {
				return x.havocResults(ci, st), st, true
			}
			return nil, st, true
		}
		m := x.lockID(ci)
		ns := st.clone()
		h := x.hget(ns, "X|lock", arr(SInt))
		cur := mkSelect(h, m)
		where := lockName(m)
		switch op {
		case "Lock":
			x.oblige("lock "+where+" is not held when taken", "lock", st.g, mkEq(cur, tZero), ci.pos)
			x.assume(st.g, mkEq(cur, tZero))
			x.hset(ns, "X|lock", mkStore(h, m, tOne))
		case "Unlock":
			x.oblige("lock "+where+" is held when released", "lock", st.g, mkEq(cur, tOne), ci.pos)
			x.assume(st.g, mkEq(cur, tOne))
			x.hset(ns, "X|lock", released(h, m, tOne))
		case "RLock":
			// taking a read lock twice can deadlock with a waiting writer as well
			x.oblige("lock "+where+" is not held when read locked", "lock", st.g, mkEq(cur, tZero), ci.pos)
			x.assume(st.g, mkEq(cur, tZero))
			x.hset(ns, "X|lock", mkStore(h, m, mkInt(2)))
		case "RUnlock":
			x.oblige("lock "+where+" is read locked when released", "lock", st.g, mkEq(cur, mkInt(2)), ci.pos)
			x.assume(st.g, mkEq(cur, mkInt(2)))
			x.hset(ns, "X|lock", released(h, m, mkInt(2)))
		case "TryLock":
			r := freshVar("trylock", SBool)
			x.assume(st.g, mkImp(r, mkEq(cur, tZero)))
			x.hset(ns, "X|lock", mkStore(h, m, mkIte(r, tOne, cur)))
			return r, ns, true
		}
		return nil, ns, true
	}
}

// lockID identifies the lock a call is about. A mutex that is held by reference in a field or global is
// identified by that field or global: World.sharedMutex checks that each of those gets a mutex of its own.
func (x *Exec) lockID(ci *callInfo) *Term {
	m := x.term(ci.args[0])
	if ci.cc == nil || ci.f == nil || len(ci.cc.Args) == 0 {
		return m
	}
	return x.lockOf(ci.f, ci.cc.Args[0], m)
}

// lockOf identifies the mutex that v, with value m, points to
func (x *Exec) lockOf(f *Frame, v ssa.Value, m *Term) *Term {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return m
	}
	switch a := u.X.(type) {
	case *ssa.FieldAddr:
		k := mutexPlace(a)
		if x.w.sharedMutex()[k] || x.w.sharedMutex()["*"] {
			return m
		}
		if o, ok := f.get(a.X).(*Term); ok {
			return mkSubRef(o, k)
		}
	case *ssa.Global:
		k := mutexPlace(a)
		if !x.w.sharedMutex()[k] && !x.w.sharedMutex()["*"] {
			return mk("gref", k, SInt)
		}
	}
	return m
}

// released is h with m released: a lock that was just taken was free before, so that is what it was before
func released(h, m, as *Term) *Term {
	switch {
	case h.Op == "store" && h.Args[1] == m && h.Args[2] == as:
		return h.Args[0]
	case h.Op == "ite":
		return mkIte(h.Args[0], released(h.Args[1], m, as), released(h.Args[2], m, as))
	}
	return mkStore(h, m, tZero)
}

func lockName(m *Term) string {
	if m.Op == "sub" {
		k := m.S
		if i := strings.LastIndex(k, "|"); i >= 0 {
			k = k[i+1:]
		}
		return k
	}
	return m.String()
}

var _ = os.Stderr
