package main

// Symbolic execution of go/ssa functions into merged (DAG) verification conditions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type SliceV struct{ ref, off, ln *Term }
type StructV struct {
	t types.Type
	f []Val
}
type TupleV struct{ v []Val }
type FuncV struct {
	fn   *ssa.Function
	bind []Val
}
type IterV struct {
	key      string // state key of position
	m        *Term
	dom      *Term
	mt       *types.Map
	st       *State
	seq, idx string
	n        *Term
	isStr    bool
	str      *Term
}

// AddrV is a structured address of non struct memory (or of a struct inside a row)
type AddrV struct {
	kind   string // field cell elem global arridx
	key    string // heap key prefix
	ref    *Term
	idx    *Term
	t      types.Type // pointee
	whole  types.Type // type the key's leaves belong to
	ls, ln int        // leaf range inside whole
	base   *AddrV     // arridx
}

type Leaf struct {
	Suffix string
	Sort   string
	Ref    bool
	Elem   types.Type // element type, for the reference part of a slice
}

type State struct {
	h map[string]*Term
	g *Term // guard: condition under which this state is reached
}

func (s *State) clone() *State {
	n := &State{h: make(map[string]*Term, len(s.h)), g: s.g}
	for k, v := range s.h {
		n.h[k] = v
	}
	return n
}

type Obl struct {
	Name      string
	Guard     *Term
	Goal      *Term
	NAssum    int
	Pos       token.Pos
	Fn        string
	Kind      string
	Candidate bool
	Verdict   solveRes
}

type Exec struct {
	noWrap         bool
	prog           *ssa.Program
	specs          *SpecDB
	unit           *Contract
	assumes        []*Term
	obls           []*Obl
	dry            int
	sorts          map[string]string
	fnReg          map[string]*FuncV
	notes          map[string]int
	trusted        map[string]bool
	inlined        map[string]bool
	stack          []*ssa.Function
	defersID       int
	steps          int
	leafMemo       map[types.Type][]Leaf
	entry          *State
	binds          map[string]SV // unit parameter bindings
	loopN          int
	setRecs        map[string]*setRec
	ghostInit      map[string]*Term
	candOff        map[string]bool
	candSeen       map[string]bool
	covered        []*Cover
	budgetExceeded bool
	callN          int
	lockMode       bool
	curPos         token.Pos
	openFns        map[string]bool
	keyElem        map[string]types.Type
	w              *World
	ghosts         map[string]string
	unitEnv        *Env
	specDepth      int
	quantDepth     int
	hookAssume     []int
	usedContracts  map[string]bool
}

type Cover struct {
	Name   string
	F      *Term
	NAssum int
}

func NewExec(prog *ssa.Program, specs *SpecDB, unit *Contract) *Exec {
	return &Exec{prog: prog, specs: specs, unit: unit, sorts: map[string]string{}, fnReg: map[string]*FuncV{}, notes: map[string]int{}, trusted: map[string]bool{}, inlined: map[string]bool{}, leafMemo: map[types.Type][]Leaf{}, ghostInit: map[string]*Term{}, setRecs: map[string]*setRec{}, candOff: map[string]bool{}, candSeen: map[string]bool{}, keyElem: map[string]types.Type{}, usedContracts: map[string]bool{}}
}

func (x *Exec) note(f string, a ...any) {
	if x.dry == 0 {
		x.notes[fmt.Sprintf(f, a...)]++
	}
}

// ---------- types ----------

func qual(p *types.Package) string { return p.Path() }

var basicAlias = regexp.MustCompile(`(^|[^\w./])(byte|rune)\b`)

// tkey names a type; byte and rune are other names of uint8 and int32
func tkey(t types.Type) string {
	s := types.TypeString(types.Unalias(t), qual)
	if strings.Contains(s, "byte") || strings.Contains(s, "rune") {
		s = basicAlias.ReplaceAllStringFunc(s, func(m string) string {
			return strings.Replace(strings.Replace(m, "byte", "uint8", 1), "rune", "int32", 1)
		})
	}
	return s
}

var opaqueTypes = map[string]string{
	"time.Time":                         SInt,
	"time.Location":                     "",
	"sync.Mutex":                        "",
	"sync.RWMutex":                      "",
	"sync.WaitGroup":                    "",
	"sync.Once":                         "",
	"sync.noCopy":                       "",
	"sync.Map":                          "",
	"regexp.Regexp":                     "",
	"log/slog.Logger":                   "",
	"net/http.Client":                   "",
	"net/http.Transport":                "",
	"net/http.Server":                   "",
	"github.com/sirupsen/logrus.Logger": "",
	"github.com/sirupsen/logrus.Entry":  "",
	"bytes.Buffer":                      "",
	"reflect.Value":                     SInt,
	"strings.Builder":                   "",
}

func opaque(t types.Type) (string, bool) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		s, ok := opaqueTypes[tkey(n)]
		if ok {
			return s, true
		}
		if n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync/atomic") {
			if _, isS := n.Underlying().(*types.Struct); isS {
				return "", true
			}
		}
	}
	return "", false
}

func structOf(t types.Type) (*types.Struct, bool) {
	if _, op := opaque(t); op {
		return nil, false
	}
	s, ok := types.Unalias(t).Underlying().(*types.Struct)
	return s, ok
}

// memStruct: does a pointer to t denote an object whose fields live in field heaps
func memStruct(t types.Type) bool {
	if s, op := opaque(t); op {
		return s == ""
	}
	_, ok := types.Unalias(t).Underlying().(*types.Struct)
	return ok
}

func (x *Exec) leaves(t types.Type) []Leaf {
	t = types.Unalias(t)
	if l, ok := x.leafMemo[t]; ok {
		return l
	}
	l := x.leaves0(t)
	x.leafMemo[t] = l
	return l
}

func (x *Exec) leaves0(t types.Type) []Leaf {
	if s, op := opaque(t); op {
		if s == "" {
			return nil
		}
		return []Leaf{{"", s, false, nil}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, false, nil}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, false, nil}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", SInt, false, nil}}
		case u.Info()&(types.IsFloat) != 0:
			return []Leaf{{"", SReal, false, nil}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, true, nil}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{"", SInt, true, nil}}
		}
		return []Leaf{{"", SInt, false, nil}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{"", SInt, true, nil}}
	case *types.Interface:
		return []Leaf{{"", SAny, false, nil}}
	case *types.Slice:
		return []Leaf{{"#r", SInt, true, u.Elem()}, {"#o", SInt, false, nil}, {"#l", SInt, false, nil}}
	case *types.Array:
		var out []Leaf
		for _, l := range x.leaves(u.Elem()) {
			out = append(out, Leaf{l.Suffix + "[]", arr(l.Sort), false, nil})
		}
		return out
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range x.leaves(u.Field(i).Type()) {
				out = append(out, Leaf{"." + u.Field(i).Name() + l.Suffix, l.Sort, l.Ref, l.Elem})
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range x.leaves(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf("@%d%s", i, l.Suffix), l.Sort, l.Ref, l.Elem})
			}
		}
		return out
	case *types.TypeParam:
		return []Leaf{{"", SAny, false, nil}}
	}
	return []Leaf{{"", SInt, false, nil}}
}

func (x *Exec) mkVal(t types.Type, ls []*Term) Val {
	v, rest := x.mkVal0(t, ls)
	if len(rest) != 0 {
		panic("mkVal: leftover leaves for " + tkey(t))
	}
	return v
}
func (x *Exec) mkVal0(t types.Type, ls []*Term) (Val, []*Term) {
	t = types.Unalias(t)
	if s, op := opaque(t); op {
		if s == "" {
			return &StructV{t: t}, ls
		}
		return ls[0], ls[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ls[0], ls[1], ls[2]}, ls[3:]
	case *types.Struct:
		s := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ls = x.mkVal0(u.Field(i).Type(), ls)
			s.f = append(s.f, v)
		}
		return s, ls
	case *types.Tuple:
		s := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			var v Val
			v, ls = x.mkVal0(u.At(i).Type(), ls)
			s.v = append(s.v, v)
		}
		return s, ls
	case *types.Array:
		n := len(x.leaves(u.Elem()))
		if n == 1 {
			return ls[0], ls[1:]
		}
		s := &StructV{t: t}
		for i := 0; i < n; i++ {
			s.f = append(s.f, ls[i])
		}
		return s, ls[n:]
	}
	return ls[0], ls[1:]
}

func (x *Exec) toLeaves(v Val, t types.Type) []*Term {
	switch w := v.(type) {
	case *Term:
		return []*Term{w}
	case *SliceV:
		return []*Term{w.ref, w.off, w.ln}
	case *StructV:
		if _, op := opaque(w.t); op {
			return nil
		}
		var out []*Term
		if at, ok := types.Unalias(w.t).Underlying().(*types.Array); ok {
			_ = at
			for _, f := range w.f {
				out = append(out, f.(*Term))
			}
			return out
		}
		st := types.Unalias(w.t).Underlying().(*types.Struct)
		for i, f := range w.f {
			out = append(out, x.toLeaves(f, st.Field(i).Type())...)
		}
		return out
	case *TupleV:
		var out []*Term
		tt, _ := t.(*types.Tuple)
		for i, f := range w.v {
			var ft types.Type
			if tt != nil {
				ft = tt.At(i).Type()
			}
			out = append(out, x.toLeaves(f, ft)...)
		}
		return out
	case *AddrV:
		return []*Term{x.encAddr(w)}
	case *FuncV:
		return []*Term{x.fnConst(w)}
	case *IterV:
		return nil
	case nil:
		panic("nil val of type " + tkey(t))
	}
	panic(fmt.Sprintf("toLeaves %T", v))
}

func (x *Exec) term(v Val) *Term {
	switch w := v.(type) {
	case *Term:
		return w
	case *AddrV:
		return x.encAddr(w)
	case *FuncV:
		return x.fnConst(w)
	}
	panic(fmt.Sprintf("term: %T", v))
}

func (x *Exec) fnConst(f *FuncV) *Term {
	k := f.fn.String()
	if len(f.bind) > 0 {
		var ids []string
		for _, b := range f.bind {
			for _, l := range x.toLeaves(b, nil) {
				ids = append(ids, fmt.Sprint(l.ID))
			}
		}
		k += "{" + strings.Join(ids, ",") + "}"
	}
	x.fnReg[k] = f
	return mk("fnc", k, SInt)
}

var addrReg = map[string]*AddrV{}

func (x *Exec) encAddr(a *AddrV) *Term {
	args := []*Term{}
	b := a
	k := ""
	for b != nil {
		k += fmt.Sprintf("%s|%s|%d|%d;", b.kind, b.key, b.ls, b.ln)
		if b.ref != nil {
			args = append(args, b.ref)
		}
		if b.idx != nil {
			args = append(args, b.idx)
		}
		b = b.base
	}
	addrReg[k] = a
	if len(args) == 0 {
		return mk("gref", "addr:"+k, SInt)
	}
	return mk("sub", k+fmt.Sprintf("/%d", len(args)), SInt, mkTupleRef(args))
}

func mkTupleRef(args []*Term) *Term {
	r := args[0]
	for _, a := range args[1:] {
		r = mkElt(r, a)
	}
	return r
}

func (x *Exec) decAddr(t *Term) *AddrV {
	if t.Op == "gref" && strings.HasPrefix(t.S, "addr:") {
		return addrReg[t.S[5:]]
	}
	if t.Op != "sub" {
		return nil
	}
	i := strings.LastIndex(t.S, "/")
	if i < 0 {
		return nil
	}
	proto, ok := addrReg[t.S[:i]]
	if !ok {
		return nil
	}
	n := 0
	fmt.Sscanf(t.S[i+1:], "%d", &n)
	args := make([]*Term, n)
	r := t.Args[0]
	for j := n - 1; j > 0; j-- {
		if r.Op != "elt" {
			return nil
		}
		args[j] = r.Args[1]
		r = r.Args[0]
	}
	args[0] = r
	var build func(p *AddrV) *AddrV
	build = func(p *AddrV) *AddrV {
		if p == nil {
			return nil
		}
		c := *p
		if p.ref != nil {
			c.ref = args[0]
			args = args[1:]
		}
		if p.idx != nil {
			c.idx = args[0]
			args = args[1:]
		}
		c.base = build(p.base)
		return &c
	}
	return build(proto)
}

func (x *Exec) zero(t types.Type) Val {
	var ls []*Term
	for _, l := range x.leaves(t) {
		ls = append(ls, zeroOf(l.Sort))
	}
	return x.mkVal(t, ls)
}
func zeroOf(s string) *Term {
	switch s {
	case SBool:
		return tFalse
	case SInt:
		return tZero
	case SReal:
		return mk("real", "0.0", SReal)
	case SStr:
		return mkStr("")
	case SAny:
		return nilAny()
	}
	if isArr(s) {
		return mkConstArr(s, zeroOf(arrRange(s)))
	}
	panic("zeroOf " + s)
}

// havocVal makes an arbitrary value of type t with its type invariants assumed
func (x *Exec) havocVal(t types.Type, hint string, g *Term, input bool) Val {
	var ls []*Term
	for _, l := range x.leaves(t) {
		if strings.HasSuffix(l.Suffix, "#o") {
			ls = append(ls, constOfSort(l.Sort, tZero))
			continue
		}
		v := freshVar(hint+l.Suffix, l.Sort)
		if input && l.Sort == SInt && l.Ref {
			tb.nonfr[v.S] = true
		} else if l.Sort == SInt && l.Ref {
			tb.frLim[v.S] = tb.frN
		}
		ls = append(ls, v)
	}
	v := x.mkVal(t, ls)
	x.typeInv(t, v, g)
	return v
}

// typeInv assumes representation invariants (slice length, unsigned range)
func (x *Exec) typeInv(t types.Type, v Val, g *Term) {
	t = types.Unalias(t)
	if _, op := opaque(t); op {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(*SliceV)
		x.assume(g, mkLe(tZero, s.ln))
		x.assume(g, mkLe(tZero, s.off))
		x.assume(g, mkImp(mkEq(s.ref, tZero), mkEq(s.ln, tZero)))
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			x.assume(g, mkLe(tZero, x.term(v)))
			switch u.Kind() {
			case types.Uint8:
				x.assume(g, mkLe(x.term(v), mkInt(255)))
			case types.Uint16:
				x.assume(g, mkLe(x.term(v), mkInt(65535)))
			case types.Uint32:
				x.assume(g, mkLe(x.term(v), mkBig("4294967295")))
			case types.Uint64, types.Uint, types.Uintptr:
				x.assume(g, mkLe(x.term(v), mkBig("18446744073709551615")))
			}
		} else if u.Info()&types.IsInteger != 0 {
			switch u.Kind() {
			case types.Int, types.Int64:
				x.assume(g, mkLe(mkBig("-9223372036854775808"), x.term(v)))
				x.assume(g, mkLe(x.term(v), mkBig("9223372036854775807")))
			case types.Int32:
				x.assume(g, mkLe(mkBig("-2147483648"), x.term(v)))
				x.assume(g, mkLe(x.term(v), mkBig("2147483647")))
			}
		}
	case *types.Struct:
		sv := v.(*StructV)
		for i := 0; i < u.NumFields() && i < len(sv.f); i++ {
			x.typeInv(u.Field(i).Type(), sv.f[i], g)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			x.typeInv(u.At(i).Type(), v.(*TupleV).v[i], g)
		}
	}
}

func (x *Exec) assume(g, f *Term) {
	t := mkImp(g, f)
	if t == tTrue {
		return
	}
	x.assumes = append(x.assumes, t)
}

func (x *Exec) oblige(name, kind string, g, goal *Term, pos token.Pos) {
	if x.dry > 0 || x.specDepth > 0 {
		return
	}
	fn := ""
	if len(x.stack) > 0 {
		fn = x.stack[len(x.stack)-1].String()
	}
	x.obls = append(x.obls, &Obl{Name: name, Kind: kind, Guard: g, Goal: goal, NAssum: len(x.assumes), Pos: pos, Fn: fn})
}

// ---------- memory ----------

func (x *Exec) hget(st *State, key, srt string) *Term {
	if t, ok := st.h[key]; ok {
		return t
	}
	x.sorts[key] = srt
	return initTerm(key, srt)
}
func (x *Exec) hset(st *State, key string, t *Term) {
	x.sorts[key] = t.Sort
	st.h[key] = t
}

func (x *Exec) reg(key string, l Leaf) {
	if l.Elem != nil {
		x.keyElem[key+l.Suffix] = l.Elem
	}
}

func structKey(t types.Type) string { return tkey(t) }

func (x *Exec) loadLeaf(st *State, key string, l Leaf, ref *Term) *Term {
	x.reg(key, l)
	h := x.hget(st, key+l.Suffix, arr(l.Sort))
	t := mkSelect(h, ref)
	if l.Ref && t.Op == "select" {
		refLoads[t.ID] = true
	}
	return t
}

// loadObj loads a value of struct/opaque type stored at ref
func (x *Exec) loadObj(st *State, ref *Term, t types.Type) Val {
	t = types.Unalias(t)
	if s, op := opaque(t); op && s == "" {
		return &StructV{t: t}
	}
	s := t.Underlying().(*types.Struct)
	sv := &StructV{t: t}
	for i := 0; i < s.NumFields(); i++ {
		sv.f = append(sv.f, x.loadField(st, ref, t, i))
	}
	return sv
}

func (x *Exec) loadField(st *State, ref *Term, t types.Type, i int) Val {
	s := types.Unalias(t).Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	key := "F|" + structKey(t) + "|" + s.Field(i).Name()
	if memStruct(ft) {
		return x.loadObj(st, mkSubRef(ref, key), ft)
	}
	var ls []*Term
	for _, l := range x.leaves(ft) {
		ls = append(ls, x.loadLeaf(st, key, l, ref))
	}
	v := x.mkVal(ft, ls)
	x.loadInv(ft, v, st.g)
	return v
}

func (x *Exec) loadInv(t types.Type, v Val, g *Term) {
	// type invariants for values read from symbolic memory
	switch w := v.(type) {
	case *SliceV:
		if !isConst(w.ln) && len(w.ln.bvs) == 0 {
			x.typeInv(t, v, tTrue)
		}
	case *Term:
		if b, ok := types.Unalias(t).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && w.Op == "select" && len(w.bvs) == 0 {
			x.typeInv(t, v, tTrue)
		}
	}
}

func (x *Exec) storeField(st *State, ref *Term, t types.Type, i int, v Val) {
	s := types.Unalias(t).Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	key := "F|" + structKey(t) + "|" + s.Field(i).Name()
	if memStruct(ft) {
		x.storeObj(st, mkSubRef(ref, key), ft, v)
		return
	}
	ls := x.toLeaves(v, ft)
	for j, l := range x.leaves(ft) {
		x.reg(key, l)
		h := x.hget(st, key+l.Suffix, arr(l.Sort))
		x.hset(st, key+l.Suffix, mkStore(h, ref, ls[j]))
	}
}

func (x *Exec) storeObj(st *State, ref *Term, t types.Type, v Val) {
	t = types.Unalias(t)
	if s, op := opaque(t); op && s == "" {
		return
	}
	s := t.Underlying().(*types.Struct)
	sv := v.(*StructV)
	for i := 0; i < s.NumFields(); i++ {
		x.storeField(st, ref, t, i, sv.f[i])
	}
}

func (x *Exec) fieldAddr(base Val, t types.Type, i int) Val {
	s := types.Unalias(t).Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	if bt, ok := base.(*Term); ok {
		if d := x.decAddr(bt); d != nil {
			base = d
		}
	}
	if a, ok := base.(*AddrV); ok {
		// struct inside a row / cell: narrow leaf range
		off := 0
		for j := 0; j < i; j++ {
			off += len(x.leaves(s.Field(j).Type()))
		}
		c := *a
		c.ls = a.ls + off
		c.ln = len(x.leaves(ft))
		c.t = ft
		return &c
	}
	ref := base.(*Term)
	key := "F|" + structKey(t) + "|" + s.Field(i).Name()
	if memStruct(ft) {
		return mkSubRef(ref, key)
	}
	n := len(x.leaves(ft))
	return &AddrV{kind: "field", key: key, ref: ref, t: ft, whole: ft, ls: 0, ln: n}
}

func (x *Exec) load(st *State, p Val, t types.Type) Val {
	if memStruct(t) {
		if pt, ok := p.(*Term); ok {
			if d := x.decAddr(pt); d != nil {
				return x.loadAddr(st, d)
			}
			return x.loadObj(st, pt, t)
		}
		return x.loadAddr(st, p.(*AddrV))
	}
	switch a := p.(type) {
	case *AddrV:
		return x.loadAddr(st, a)
	case *Term:
		if d := x.decAddr(a); d != nil {
			return x.loadAddr(st, d)
		}
		if a.Op == "ite" {
			l1 := x.toLeaves(x.load(st, a.Args[1], t), t)
			l2 := x.toLeaves(x.load(st, a.Args[2], t), t)
			for i := range l1 {
				l1[i] = mkIte(a.Args[0], l1[i], l2[i])
			}
			return x.mkVal(t, l1)
		}
		return x.loadAddr(st, x.cellAddr(a, t))
	}
	panic(fmt.Sprintf("load from %T", p))
}

func (x *Exec) cellAddr(ref *Term, t types.Type) *AddrV {
	if at, ok := types.Unalias(t).Underlying().(*types.Array); ok {
		return &AddrV{kind: "array", key: "E|" + tkey(at.Elem()), ref: ref, t: t, whole: t, ls: 0, ln: len(x.leaves(t))}
	}
	return &AddrV{kind: "cell", key: "C|" + tkey(t), ref: ref, t: t, whole: t, ls: 0, ln: len(x.leaves(t))}
}

func (x *Exec) addrLeaves(a *AddrV) []Leaf { return x.leaves(a.whole)[a.ls : a.ls+a.ln] }

func (x *Exec) loadAddr(st *State, a *AddrV) Val {
	var ls []*Term
	switch a.kind {
	case "field", "cell":
		for _, l := range x.addrLeaves(a) {
			ls = append(ls, x.loadLeaf(st, a.key, l, a.ref))
		}
	case "elem":
		for _, l := range x.addrLeaves(a) {
			x.reg(a.key, l)
			h := x.hget(st, a.key+l.Suffix, arr(arr(l.Sort)))
			t := mkSelect(mkSelect(h, a.ref), a.idx)
			if l.Ref && t.Op == "select" {
				refLoads[t.ID] = true
			}
			ls = append(ls, t)
		}
	case "array":
		at := types.Unalias(a.t).Underlying().(*types.Array)
		for _, l := range x.leaves(at.Elem()) {
			h := x.hget(st, a.key+l.Suffix, arr(arr(l.Sort)))
			ls = append(ls, mkSelect(h, a.ref))
		}
	case "arridx":
		rows := x.toLeaves(x.loadAddr(st, a.base), a.base.t)
		for i := a.ls; i < a.ls+a.ln; i++ {
			ls = append(ls, mkSelect(rows[i], a.idx))
		}
	case "global":
		for _, l := range x.addrLeaves(a) {
			ls = append(ls, x.globalLeaf(st, a.key+l.Suffix, l))
		}
	default:
		panic("loadAddr " + a.kind)
	}
	v := x.mkVal(a.t, ls)
	x.loadInv(a.t, v, st.g)
	return v
}

// globalInit is the value of a global that only its package initialiser assigns
func (x *Exec) globalInit(name string, suffix string) *Term {
	iv, ok := x.w.initVal[name]
	if !ok || !x.w.immut[name] {
		return nil
	}
	switch v := iv.(type) {
	case *ssa.Const:
		ls := x.toLeaves(x.constVal(v), v.Type())
		for i, l := range x.leaves(v.Type()) {
			if l.Suffix == suffix {
				return ls[i]
			}
		}
	case *ssa.Call:
		c := v.Call.StaticCallee()
		if c == nil {
			return nil
		}
		switch c.String() {
		case "errors.New", "fmt.Errorf":
			return mkBox("*errors.errorString", mk("gref", "init:"+name, SInt))
		case "regexp.MustCompile":
			if k, ok := v.Call.Args[0].(*ssa.Const); ok {
				return mk("gref", "regexp:"+constant.StringVal(k.Value), SInt)
			}
		}
	case *ssa.Slice:
		al, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return nil
		}
		at, ok := types.Unalias(al.Type().(*types.Pointer).Elem()).Underlying().(*types.Array)
		if !ok || len(x.leaves(at.Elem())) != 1 {
			return nil
		}
		ref := mk("gref", "init:"+name, SInt)
		switch suffix {
		case "#o":
			return tZero
		case "#l":
			return mkInt(at.Len())
		}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				continue
			}
			for _, s := range *ia.Referrers() {
				st, ok := s.(*ssa.Store)
				if !ok {
					continue
				}
				if c, ok := st.Val.(*ssa.Const); ok {
					key := "E|" + tkey(at.Elem())
					l := x.leaves(at.Elem())[0]
					x.sorts[key] = arr(arr(l.Sort))
					x.assume(tTrue, mkEq(mkSelect(mkSelect(initTerm(key, arr(arr(l.Sort))), ref), mkInt(k.Int64())), x.term(x.constVal(c))))
				}
			}
		}
		return ref
	}
	return nil
}

func (x *Exec) globalLeaf(st *State, key string, l Leaf) *Term {
	if t := x.globalInit(strings.TrimPrefix(key[:len(key)-len(l.Suffix)], "G|"), l.Suffix); t != nil {
		return t
	}
	if t, ok := st.h[key]; ok {
		return t
	}
	x.sorts[key] = l.Sort
	v := initTerm(key, l.Sort)
	x.reg(key[:len(key)-len(l.Suffix)], l)
	if l.Ref {
		tb.nonfr[v.S] = true
	}
	return v
}

func (x *Exec) store(st *State, p Val, t types.Type, v Val) {
	if pt, ok := p.(*Term); ok {
		if d := x.decAddr(pt); d != nil {
			p = d
		}
	}
	if memStruct(t) {
		if pt, ok := p.(*Term); ok {
			x.storeObj(st, pt, t, v)
			return
		}
	}
	switch a := p.(type) {
	case *AddrV:
		x.storeAddr(st, a, x.toLeaves(v, t))
		return
	case *Term:
		if a.Op == "ite" {
			s1, s2 := st.clone(), st.clone()
			x.store(s1, a.Args[1], t, v)
			x.store(s2, a.Args[2], t, v)
			for k := range s1.h {
				s1v, s2v := s1.h[k], s2.h[k]
				if s2v == nil {
					s2v = x.hget(s2, k, s1v.Sort)
				}
				x.hset(st, k, mkIte(a.Args[0], s1v, s2v))
			}
			for k := range s2.h {
				if _, ok := s1.h[k]; !ok {
					x.hset(st, k, mkIte(a.Args[0], x.hget(s1, k, s2.h[k].Sort), s2.h[k]))
				}
			}
			return
		}
		x.storeAddr(st, x.cellAddr(a, t), x.toLeaves(v, t))
		return
	}
	panic(fmt.Sprintf("store to %T", p))
}

func (x *Exec) storeAddr(st *State, a *AddrV, ls []*Term) {
	switch a.kind {
	case "field", "cell":
		for i, l := range x.addrLeaves(a) {
			x.reg(a.key, l)
			h := x.hget(st, a.key+l.Suffix, arr(l.Sort))
			x.hset(st, a.key+l.Suffix, mkStore(h, a.ref, ls[i]))
		}
	case "elem":
		for i, l := range x.addrLeaves(a) {
			x.reg(a.key, l)
			h := x.hget(st, a.key+l.Suffix, arr(arr(l.Sort)))
			row := mkSelect(h, a.ref)
			x.hset(st, a.key+l.Suffix, mkStore(h, a.ref, mkStore(row, a.idx, ls[i])))
		}
	case "array":
		at := types.Unalias(a.t).Underlying().(*types.Array)
		for i, l := range x.leaves(at.Elem()) {
			h := x.hget(st, a.key+l.Suffix, arr(arr(l.Sort)))
			x.hset(st, a.key+l.Suffix, mkStore(h, a.ref, ls[i]))
		}
	case "arridx":
		rows := x.toLeaves(x.loadAddr(st, a.base), a.base.t)
		for i := 0; i < a.ln; i++ {
			rows[a.ls+i] = mkStore(rows[a.ls+i], a.idx, ls[i])
		}
		x.storeAddr(st, a.base, rows)
	case "global":
		for i, l := range x.addrLeaves(a) {
			x.hset(st, a.key+l.Suffix, ls[i])
		}
	default:
		panic("storeAddr " + a.kind)
	}
}

func (x *Exec) alloc(st *State, t types.Type) Val {
	r := freshRef()
	if memStruct(t) {
		x.storeObj(st, r, t, x.zero(t))
	} else {
		x.storeAddr(st, x.cellAddr(r, t), x.toLeaves(x.zero(t), t))
	}
	return r
}

// slice helpers
func (x *Exec) elemAddr(s *SliceV, i *Term, et types.Type) *AddrV {
	return &AddrV{kind: "elem", key: "E|" + tkey(et), ref: s.ref, idx: mkAdd(s.off, i), t: et, whole: et, ls: 0, ln: len(x.leaves(et))}
}
func (x *Exec) rows(st *State, s *SliceV, et types.Type) []*Term {
	var out []*Term
	for _, l := range x.leaves(et) {
		out = append(out, mkSelect(x.hget(st, "E|"+tkey(et)+l.Suffix, arr(arr(l.Sort))), s.ref))
	}
	return out
}
func (x *Exec) setRows(st *State, ref *Term, et types.Type, rows []*Term) {
	for i, l := range x.leaves(et) {
		k := "E|" + tkey(et) + l.Suffix
		x.hset(st, k, mkStore(x.hget(st, k, arr(arr(l.Sort))), ref, rows[i]))
	}
}

var byteT = types.Typ[types.Uint8]

// content of a []byte as a string term
func (x *Exec) bytesOf(st *State, s *SliceV) *Term {
	return x.bytesOfT(st, s, byteT)
}
func bstr(row, off, ln *Term) *Term {
	if row.Op == "app" && row.S == "rowof" && off == tZero && ln == mkStrLen(row.Args[0]) {
		return row.Args[0]
	}
	if row.Op == "ite" {
		return mkIte(row.Args[0], bstr(row.Args[1], off, ln), bstr(row.Args[2], off, ln))
	}
	if ln.Op == "ite" {
		return mkIte(ln.Args[0], bstr(row, off, ln.Args[1]), bstr(row, off, ln.Args[2]))
	}
	if ln == tZero {
		return mkStr("")
	}
	return mkApp("bstr", SStr, row, off, ln)
}
func (x *Exec) newBytes(st *State, s *Term) *SliceV {
	r := freshRef()
	row := mkApp("rowof", arr(SInt), s)
	x.setRows(st, r, byteT, []*Term{row})
	return &SliceV{r, tZero, mkStrLen(s)}
}

// merge of states; conds are residual path conditions
func residuals(gs []*Term) []*Term {
	if len(gs) == 1 {
		return []*Term{tTrue}
	}
	cnt := map[int]int{}
	for _, g := range gs {
		for _, c := range conjs(g) {
			cnt[c.ID]++
		}
	}
	out := make([]*Term, len(gs))
	for i, g := range gs {
		var r []*Term
		for _, c := range conjs(g) {
			if cnt[c.ID] != len(gs) {
				r = append(r, c)
			}
		}
		out[i] = mkAnd(r...)
	}
	return out
}

func mergeTerms(rs []*Term, ts []*Term) *Term {
	r := ts[len(ts)-1]
	for i := len(ts) - 2; i >= 0; i-- {
		r = mkIte(rs[i], ts[i], r)
	}
	return r
}

func (x *Exec) mergeStates(sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	gs := make([]*Term, len(sts))
	for i, s := range sts {
		gs[i] = s.g
	}
	rs := residuals(gs)
	out := &State{h: map[string]*Term{}, g: mkOr(gs...)}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.h {
			keys[k] = true
		}
	}
	for k := range keys {
		ts := make([]*Term, len(sts))
		for i, s := range sts {
			if t, ok := s.h[k]; ok {
				ts[i] = t
			} else {
				ts[i] = x.initial(k)
			}
		}
		out.h[k] = mergeTerms(rs, ts)
	}
	return out
}

func (x *Exec) initial(k string) *Term {
	if t, ok := x.ghostInit[k]; ok {
		return t
	}
	return initTerm(k, x.sorts[k])
}

// initTerm is the unknown initial content of a heap component. Slices found in the initial
// state start at offset zero of their backing array (they are only observable through it).
func initTerm(key, srt string) *Term {
	if strings.HasSuffix(key, "#o") {
		return constOfSort(srt, tZero)
	}
	return mkVar("H0."+key, srt)
}

func constOfSort(srt string, v *Term) *Term {
	if srt == SInt {
		return v
	}
	return mkConstArr(srt, constOfSort(arrRange(srt), v))
}

func (x *Exec) mergeVals(rs []*Term, vs []Val, t types.Type) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	same := true
	for _, v := range vs[1:] {
		if v != vs[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	lss := make([][]*Term, len(vs))
	for i, v := range vs {
		lss[i] = x.toLeaves(v, t)
	}
	n := len(lss[0])
	out := make([]*Term, n)
	for j := 0; j < n; j++ {
		ts := make([]*Term, len(vs))
		for i := range vs {
			ts[i] = lss[i][j]
		}
		out[j] = mergeTerms(rs, ts)
	}
	if t == nil {
		if len(out) == 1 {
			return out[0]
		}
		panic("mergeVals without type")
	}
	return x.mkVal(t, out)
}

// ---------- frames ----------

type deferred struct {
	g    *Term
	call *ssa.Defer
	fn   Val
	args []Val
}

type edge struct{ from, to *ssa.BasicBlock }

type Frame struct {
	x       *Exec
	fn      *ssa.Function
	env     map[ssa.Value]Val
	defers  []*deferred
	rets    []*State
	retv    [][]Val
	loops   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	order   []*ssa.BasicBlock
	rank    map[*ssa.BasicBlock]int
	entryG  *Term
	inDefer bool
}

const maxSteps = 3000000

// run executes fn; returns result value (tuple or single or nil) and the normal exit state (nil if it never returns)
func (x *Exec) run(fn *ssa.Function, args []Val, bind []Val, st *State) (Val, *State) {
	f := &Frame{x: x, fn: fn, env: map[ssa.Value]Val{}, entryG: st.g}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = bind[i]
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	f.analyze()
	f.region(f.order, nil, fn.Blocks[0], []edgeIn{{nil, st}})
	if len(f.rets) == 0 {
		return nil, nil
	}
	out := x.mergeStates(f.rets)
	gs := make([]*Term, len(f.rets))
	for i, s := range f.rets {
		gs[i] = s.g
	}
	rs := residuals(gs)
	res := fn.Signature.Results()
	var vals []Val
	for j := 0; j < res.Len(); j++ {
		vs := make([]Val, len(f.retv))
		for i := range f.retv {
			vs[i] = f.retv[i][j]
		}
		vals = append(vals, x.mergeVals(rs, vs, res.At(j).Type()))
	}
	switch len(vals) {
	case 0:
		return nil, out
	case 1:
		return vals[0], out
	}
	return &TupleV{vals}, out
}

type edgeIn struct {
	from *ssa.BasicBlock
	st   *State
}

func (f *Frame) analyze() {
	// reverse post order
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.fn.Blocks[0])
	f.rank = map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		f.rank[post[i]] = len(f.order)
		f.order = append(f.order, post[i])
	}
	f.loops = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.order {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				body := f.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					f.loops[s] = body
				}
				stk := []*ssa.BasicBlock{b}
				for len(stk) > 0 {
					c := stk[len(stk)-1]
					stk = stk[:len(stk)-1]
					if body[c] {
						continue
					}
					body[c] = true
					for _, p := range c.Preds {
						if seen[p] {
							stk = append(stk, p)
						}
					}
				}
			}
		}
	}
}

type outEdge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// region executes the blocks in order starting at start. Edges leaving the set of blocks, or going back to start, are returned.
// asHeader: if non nil, start is treated as a plain block with phis already in env
func (f *Frame) region(blocks []*ssa.BasicBlock, set map[*ssa.BasicBlock]bool, start *ssa.BasicBlock, in []edgeIn) []outEdge {
	x := f.x
	ins := map[*ssa.BasicBlock][]edgeIn{start: in}
	var outs []outEdge
	first := true
	push := func(from, to *ssa.BasicBlock, st *State) {
		if st.g == tFalse {
			return
		}
		if (set != nil && !set[to]) || (to == start && set != nil) {
			outs = append(outs, outEdge{from, to, st})
			return
		}
		ins[to] = append(ins[to], edgeIn{from, st})
	}
	for _, b := range blocks {
		es := ins[b]
		if len(es) == 0 {
			continue
		}
		isStart := b == start && first
		if isStart {
			first = false
		}
		if set != nil && b == start {
			// plain execution of a loop header with prepared state and phis
			f.block(b, es[0].st, push)
			continue
		}
		if body, isLoop := f.loops[b]; isLoop {
			for _, o := range f.loop(b, body, es) {
				push(o.from, o.to, o.st)
			}
			continue
		}
		sts := make([]*State, len(es))
		gs := make([]*Term, len(es))
		for i, e := range es {
			sts[i] = e.st
			gs[i] = e.st.g
		}
		st := x.mergeStates(sts)
		if st.g == tFalse {
			continue
		}
		f.phis(b, es, residuals(gs))
		f.block(b, st, push)
	}
	return outs
}

func predIndex(b, from *ssa.BasicBlock, used map[int]bool) int {
	for i, p := range b.Preds {
		if p == from && !used[i] {
			return i
		}
	}
	return -1
}

func (f *Frame) phis(b *ssa.BasicBlock, es []edgeIn, rs []*Term) {
	var names []*ssa.Phi
	var vals []Val
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vs := make([]Val, len(es))
		used := map[int]bool{}
		for i, e := range es {
			pi := predIndex(b, e.from, used)
			used[pi] = true
			vs[i] = f.get(phi.Edges[pi])
		}
		names = append(names, phi)
		vals = append(vals, f.x.mergeVals(rs, vs, phi.Type()))
	}
	for i, p := range names {
		f.env[p] = vals[i]
	}
}

func (f *Frame) get(v ssa.Value) Val {
	x := f.x
	switch w := v.(type) {
	case *ssa.Const:
		return x.constVal(w)
	case *ssa.Function:
		return &FuncV{fn: w}
	case *ssa.Builtin:
		return w
	case *ssa.Global:
		return x.globalAddr(w)
	}
	r, ok := f.env[v]
	if !ok {
		if os.Getenv("VC_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "undefined %s in %s\n", v.Name(), f.fn)
		}
		r = x.havocVal(v.Type(), "undef", tTrue, false)
		f.env[v] = r
	}
	return r
}

func (x *Exec) globalAddr(g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	if memStruct(t) {
		return mk("gref", name, SInt)
	}
	return &AddrV{kind: "global", key: "G|" + name, t: t, whole: t, ls: 0, ln: len(x.leaves(t))}
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		return x.zero(t)
	}
	return x.constOf(c.Value, t)
}

func (x *Exec) constOf(cv constant.Value, t types.Type) Val {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return x.zero(t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(cv))
	case b.Info()&types.IsString != 0:
		if cv.Kind() == constant.String {
			return mkStr(constant.StringVal(cv))
		}
	case b.Info()&types.IsInteger != 0:
		i := constant.ToInt(cv)
		return mkBig(i.ExactString())
	case b.Info()&types.IsFloat != 0:
		r := constant.ToFloat(cv)
		n, d := constant.Num(r), constant.Denom(r)
		s := n.ExactString()
		neg := strings.HasPrefix(s, "-")
		s = strings.TrimPrefix(s, "-")
		txt := s + ".0"
		if ds := d.ExactString(); ds != "1" {
			txt = fmt.Sprintf("(/ %s.0 %s.0)", s, ds)
		}
		if neg {
			txt = "(- " + txt + ")"
		}
		return mk("real", txt, SReal)
	}
	return freshVar("const", SInt)
}

func (f *Frame) block(b *ssa.BasicBlock, st *State, push func(from, to *ssa.BasicBlock, st *State)) {
	x := f.x
	for _, ins := range b.Instrs {
		x.steps++
		if x.steps > maxSteps {
			panic("step budget exceeded")
		}
		if p := ins.Pos(); p.IsValid() {
			x.curPos = p
		}
		switch w := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			push(b, b.Succs[0], st)
			return
		case *ssa.If:
			c := x.term(f.get(w.Cond))
			s1, s2 := st.clone(), st
			s1.g = mkAnd(st.g, c)
			s2.g = mkAnd(st.g, mkNot(c))
			push(b, b.Succs[0], s1)
			push(b, b.Succs[1], s2)
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range w.Results {
				vs = append(vs, f.get(r))
			}
			f.rets = append(f.rets, st)
			f.retv = append(f.retv, vs)
			return
		case *ssa.Panic:
			if x.unit.NoPanic && x.dry == 0 {
				x.oblige("panic", "nopanic", st.g, tFalse, w.Pos())
			}
			return
		case *ssa.RunDefers:
			ns := f.runDefers(st, w.Block())
			if ns == nil {
				return
			}
			st = ns
		default:
			ns := f.instr(ins, st)
			if ns == nil || ns.g == tFalse {
				return
			}
			st = ns
		}
	}
}

func (f *Frame) runDefers(st *State, at *ssa.BasicBlock) *State {
	x := f.x
	ds := f.defers
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		// executed when the defer statement was reached on this path
		on := st.clone()
		always := d.call.Block().Dominates(at)
		if !always {
			on.g = mkAnd(st.g, d.g)
		}
		if on.g == tFalse {
			continue
		}
		off := st
		offg := mkAnd(st.g, mkNot(d.g))
		if x.unit.Locks && !always {
			if l := on.h["X|lock"]; l != nil {
				on.h["X|lock"] = underGuard(l, units(on.g))
				off = st.clone()
				off.h["X|lock"] = underGuard(l, units(offg))
			}
		}
		_, on2 := x.callCommon(f, d.call.Common(), d.fn, d.args, on, d.call.Pos())
		var sts []*State
		if on2 != nil && on2.g != tFalse {
			sts = append(sts, on2)
		}
		if !always && offg != tFalse && !impliesSyn(st.g, d.g) {
			o := off.clone()
			o.g = offg
			sts = append(sts, o)
		}
		if len(sts) == 0 {
			return nil
		}
		st = x.mergeStates(sts)
	}
	return st
}

// units adds to g what follows from it by unit propagation
func units(g *Term) *Term {
	for round := 0; round < 4; round++ {
		in := map[int]bool{}
		for _, c := range conjs(g) {
			in[c.ID] = true
		}
		more := []*Term{g}
		for _, c := range conjs(g) {
			var left []*Term
			ds := disjs(c)
			if len(ds) == 1 && c.Op == "not" && c.Args[0].Op == "and" {
				ds = nil
				for _, k := range conjs(c.Args[0]) {
					ds = append(ds, mkNot(k))
				}
			}
			for _, d := range ds {
				if !in[mkNot(d).ID] {
					left = append(left, d)
				}
			}
			if len(left) == 1 && len(ds) > 1 && !in[left[0].ID] {
				more = append(more, left[0])
			}
		}
		if len(more) == 1 {
			return g
		}
		g = mkAnd(more...)
	}
	return g
}

// underGuard picks the branches of t that the guard g selects
func underGuard(t, g *Term) *Term {
	if t.Op != "ite" {
		return t
	}
	switch c := t.Args[0]; {
	case impliesSyn(g, c):
		return underGuard(t.Args[1], g)
	case refutesSyn(g, c):
		return underGuard(t.Args[2], g)
	default:
		return mkIte(c, underGuard(t.Args[1], g), underGuard(t.Args[2], g))
	}
}

// refutesSyn: some conjunct of c is false under g
func refutesSyn(g, c *Term) bool {
	for _, k := range conjs(c) {
		if impliesSyn(g, mkNot(k)) {
			return true
		}
	}
	return false
}

// impliesSyn: every conjunct of b is a conjunct of a
func impliesSyn(a, b *Term) bool {
	in := map[int]bool{}
	for _, c := range conjs(a) {
		in[c.ID] = true
	}
	for _, c := range conjs(b) {
		if in[c.ID] {
			continue
		}
		ok := false
		for _, d := range disjs(c) {
			if in[d.ID] {
				ok = true
			}
			if d.Op == "and" {
				all := true
				for _, e := range d.Args {
					if !in[e.ID] {
						all = false
					}
				}
				ok = ok || all
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (x *Exec) nonNil(st *State, v Val, what string, pos token.Pos) {
	t, ok := v.(*Term)
	if !ok {
		return
	}
	var nn *Term
	if t.Sort == SAny {
		nn = mkNot(mkEq(t, nilAny()))
	} else {
		nn = mkNot(mkEq(t, tZero))
	}
	if nn == tTrue || x.specDepth > 0 {
		return
	}
	if x.unit.NoPanic {
		x.oblige("nil dereference: "+what, "nopanic", st.g, nn, pos)
	}
	x.assume(st.g, nn)
}

func (x *Exec) bounds(st *State, i, n *Term, pos token.Pos) {
	in := mkAnd(mkLe(tZero, i), mkLt(i, n))
	if in == tTrue || x.specDepth > 0 {
		return
	}
	if x.unit.NoPanic {
		x.oblige("index out of range", "nopanic", st.g, in, pos)
	}
	x.assume(st.g, in)
}

func derefT(t types.Type) types.Type {
	return types.Unalias(t).Underlying().(*types.Pointer).Elem()
}

// instr executes one non control instruction
func (f *Frame) instr(ins ssa.Instruction, st *State) *State {
	x := f.x
	switch w := ins.(type) {
	case *ssa.Alloc:
		f.env[w] = x.alloc(st, derefT(w.Type()))
	case *ssa.BinOp:
		f.env[w] = x.binop(st, w.Op, f.get(w.X), f.get(w.Y), w.X.Type(), w.Y.Type(), w.Type())
	case *ssa.UnOp:
		switch w.Op {
		case token.MUL:
			p := f.get(w.X)
			x.nonNil(st, p, "load", w.Pos())
			f.env[w] = x.load(st, p, derefT(w.X.Type()))
		case token.NOT:
			f.env[w] = mkNot(x.term(f.get(w.X)))
		case token.SUB:
			v := x.term(f.get(w.X))
			if v.Sort == SReal {
				f.env[w] = mk("-r", "", SReal, zeroOf(SReal), v)
			} else {
				f.env[w] = x.wrap(mkSub(tZero, v), w.Type())
			}
		case token.ARROW:
			f.env[w] = x.havocVal(w.Type(), "recv", st.g, false)
			x.note("channel receive abstracted")
			v := f.env[w]
			if tv, ok := v.(*TupleV); ok && w.CommaOk {
				v = tv.v[0]
			}
			return x.chanEvent("recv", f.get(w.X), w.X.Type(), v, st, w.Pos())
		default:
			f.env[w] = x.havocVal(w.Type(), "unop", st.g, false)
		}
	case *ssa.Call:
		v, ns := x.callInstr(f, w.Common(), st, w.Pos())
		if ns == nil {
			return nil
		}
		if v == nil {
			v = &TupleV{}
		}
		f.env[w] = v
		return ns
	case *ssa.ChangeInterface:
		f.env[w] = f.get(w.X)
	case *ssa.ChangeType:
		v := f.get(w.X)
		if sv, ok := v.(*StructV); ok {
			// struct conversion between identical underlying types
			f.env[w] = &StructV{t: w.Type(), f: sv.f}
		} else {
			f.env[w] = v
		}
	case *ssa.Convert:
		f.env[w] = x.convert(st, f.get(w.X), w.X.Type(), w.Type())
	case *ssa.MultiConvert:
		f.env[w] = x.havocVal(w.Type(), "mconv", st.g, false)
	case *ssa.Defer:
		var fv Val
		var args []Val
		fv, args = x.calleeAndArgs(f, w.Common())
		f.defers = append(f.defers, &deferred{g: st.g, call: w, fn: fv, args: args})
	case *ssa.Extract:
		tv, ok := f.get(w.Tuple).(*TupleV)
		if !ok || w.Index >= len(tv.v) {
			f.env[w] = x.havocVal(w.Type(), "extract", st.g, false)
		} else {
			f.env[w] = tv.v[w.Index]
		}
	case *ssa.Field:
		sv, ok := f.get(w.X).(*StructV)
		if !ok || w.Field >= len(sv.f) {
			f.env[w] = x.havocVal(w.Type(), "field", st.g, false)
		} else {
			f.env[w] = sv.f[w.Field]
		}
	case *ssa.FieldAddr:
		b := f.get(w.X)
		x.nonNil(st, b, "field "+fieldName(w), w.Pos())
		f.env[w] = x.fieldAddr(b, derefT(w.X.Type()), w.Field)
	case *ssa.Go:
		x.goStmt(f, w, st)
	case *ssa.Index:
		f.env[w] = x.index(st, f.get(w.X), x.term(f.get(w.Index)), w.X.Type(), w.Type())
	case *ssa.IndexAddr:
		f.env[w] = x.indexAddr(st, f.get(w.X), w.X.Type(), x.term(f.get(w.Index)), w.Pos())
	case *ssa.Lookup:
		f.env[w] = x.lookup(st, f.get(w.X), f.get(w.Index), w.X.Type(), w.Index.Type(), w.CommaOk)
	case *ssa.MakeChan:
		f.env[w] = freshRef()
	case *ssa.MakeClosure:
		fv := &FuncV{fn: w.Fn.(*ssa.Function)}
		for _, b := range w.Bindings {
			fv.bind = append(fv.bind, f.get(b))
		}
		if isLockOp(strings.TrimSuffix(fv.fn.String(), "$bound")) && len(w.Bindings) == 1 {
			fv.bind[0] = x.lockOf(f, w.Bindings[0], x.term(fv.bind[0]))
		}
		f.env[w] = fv
	case *ssa.MakeInterface:
		f.env[w] = x.box(f.get(w.X), w.X.Type())
	case *ssa.MakeMap:
		r := freshRef()
		mt := types.Unalias(w.Type()).Underlying().(*types.Map)
		x.mapInit(st, r, mt)
		f.env[w] = r
	case *ssa.MakeSlice:
		et := types.Unalias(w.Type()).Underlying().(*types.Slice).Elem()
		r := freshRef()
		var rows []*Term
		for _, l := range x.leaves(et) {
			rows = append(rows, mkConstArr(arr(l.Sort), zeroOf(l.Sort)))
		}
		x.setRows(st, r, et, rows)
		f.env[w] = &SliceV{r, tZero, x.term(f.get(w.Len))}
	case *ssa.MapUpdate:
		m := f.get(w.Map)
		x.nonNil(st, m, "map assignment", w.Pos())
		x.mapStore(st, x.term(m), w.Map.Type(), f.get(w.Key), f.get(w.Value))
	case *ssa.Next:
		f.env[w] = x.next(f, w, st)
	case *ssa.Range:
		f.env[w] = x.rangeInit(st, f.get(w.X), w.X.Type())
	case *ssa.Select:
		var ts []types.Type
		tt := w.Type().(*types.Tuple)
		for i := 0; i < tt.Len(); i++ {
			ts = append(ts, tt.At(i).Type())
		}
		tv := &TupleV{}
		for i, t := range ts {
			v := x.havocVal(t, "select", st.g, false)
			if i == 0 {
				lo := tZero
				if !w.Blocking {
					lo = mkInt(-1)
				}
				x.assume(st.g, mkAnd(mkLe(lo, x.term(v)), mkLt(x.term(v), mkInt(int64(len(w.States))))))
			}
			tv.v = append(tv.v, v)
		}
		f.env[w] = tv
		x.note("select abstracted to an arbitrary ready case")
		for _, h := range x.unit.Hooks {
			if strings.HasPrefix(h.Pat, "chan:") {
				return x.selectEvents(f, w, tv, st)
			}
		}
	case *ssa.Send:
		x.note("channel send ignored")
		return x.chanEvent("send", f.get(w.Chan), w.Chan.Type(), f.get(w.X), st, w.Pos())
	case *ssa.Slice:
		f.env[w] = x.slice(f, w, st)
	case *ssa.SliceToArrayPointer:
		f.env[w] = x.havocVal(w.Type(), "s2a", st.g, false)
	case *ssa.Store:
		p := f.get(w.Addr)
		x.nonNil(st, p, "store", w.Pos())
		x.store(st, p, derefT(w.Addr.Type()), f.get(w.Val))
	case *ssa.TypeAssert:
		return x.typeAssert(f, w, st)
	default:
		x.note("unsupported instruction %T", ins)
		if v, ok := ins.(ssa.Value); ok {
			f.env[v] = x.havocVal(v.Type(), "unsup", st.g, false)
		}
	}
	return st
}

func fieldName(w *ssa.FieldAddr) string {
	s := types.Unalias(derefT(w.X.Type())).Underlying().(*types.Struct)
	return s.Field(w.Field).Name()
}

// chanEvent runs the hooks on chan:send:TYPE(channel, value) and chan:recv:TYPE(channel, value)
func (x *Exec) chanEvent(op string, ch Val, cht types.Type, v Val, st *State, pos token.Pos) *State {
	et := types.Unalias(cht).Underlying().(*types.Chan).Elem()
	key := "chan:" + op + ":" + tkey(et)
	hooks := x.hookFor(key)
	if len(hooks) == 0 {
		return st
	}
	ci := &callInfo{key: key, args: []Val{ch, v}, ats: []types.Type{cht, et}, sig: types.NewSignatureType(nil, nil, nil, nil, nil, false), res: types.NewTuple(), pos: pos}
	for _, h := range hooks {
		st = x.runHook(h, ci, nil, st)
	}
	return st
}

// selectEvents runs the hooks of the case that was selected
func (x *Exec) selectEvents(f *Frame, w *ssa.Select, tv *TupleV, st *State) *State {
	idx := x.term(tv.v[0])
	var ss []*State
	n := 2
	for i, c := range w.States {
		s := st.clone()
		s.g = mkAnd(st.g, mkEq(idx, mkInt(int64(i))))
		v, op := Val(nil), "send"
		if c.Dir == types.RecvOnly {
			v, op = tv.v[n], "recv"
			n++
		} else {
			v = f.get(c.Send)
		}
		ss = append(ss, x.chanEvent(op, f.get(c.Chan), c.Chan.Type(), v, s, w.Pos()))
	}
	if !w.Blocking {
		s := st.clone()
		s.g = mkAnd(st.g, mkLt(idx, tZero))
		ss = append(ss, s)
	}
	return x.mergeStates(ss)
}

func (x *Exec) goStmt(f *Frame, w *ssa.Go, st *State) {
	// the body is verified from the state at the spawn; what it changes is not seen by the spawner
	x.note("a goroutine's effects are not seen by the function that starts it")
	if len(x.unit.Hooks) == 0 || st.g == tFalse {
		return
	}
	x.callInstr(f, w.Common(), st.clone(), w.Pos())
}

func (x *Exec) box(v Val, t types.Type) *Term {
	if types.IsInterface(t) {
		return x.term(v)
	}
	return mkBox(tkey(t), x.toLeaves(v, t)...)
}

func (x *Exec) unbox(a *Term, t types.Type) Val {
	var ls []*Term
	k := tkey(t)
	for i, l := range x.leaves(t) {
		u := mkUnbox(fmt.Sprintf("%s#%d", k, i), l.Sort, a)
		if l.Ref && u.Op == "unbox" {
			refLoads[u.ID] = true
		}
		ls = append(ls, u)
	}
	return x.mkVal(t, ls)
}

func (x *Exec) hasType(a *Term, t types.Type) *Term {
	k := tkey(t)
	if len(x.leaves(t)) == 0 || true {
		return mkEq(mkTypeof(a), mkInt(int64(typeID(k))))
	}
	return nil
}

func (x *Exec) typeAssert(f *Frame, w *ssa.TypeAssert, st *State) *State {
	a := x.term(f.get(w.X))
	var ok *Term
	var v Val
	if types.IsInterface(w.AssertedType) {
		it := types.Unalias(w.AssertedType).Underlying().(*types.Interface)
		if it.NumMethods() == 0 {
			ok = mkNot(mkEq(a, nilAny()))
		} else {
			ok = mkAnd(mkNot(mkEq(a, nilAny())), x.implements(a, w.AssertedType))
		}
		v = mkIte(ok, a, nilAny())
		if !w.CommaOk {
			v = a
		}
	} else {
		ok = x.hasType(a, w.AssertedType)
		u := x.unbox(a, w.AssertedType)
		x.typeInv(w.AssertedType, u, mkAnd(st.g, ok))
		if w.CommaOk {
			v = x.mergeVals([]*Term{ok, tTrue}, []Val{u, x.zero(w.AssertedType)}, w.AssertedType)
		} else {
			v = u
		}
	}
	if w.CommaOk {
		f.env[w] = &TupleV{[]Val{v, ok}}
		return st
	}
	if x.unit.NoPanic {
		x.oblige("type assertion fails", "nopanic", st.g, ok, w.Pos())
	}
	if x.specDepth == 0 {
		x.assume(st.g, ok)
	}
	f.env[w] = v
	return st
}

func (x *Exec) implements(a *Term, it types.Type) *Term {
	if a.Op == "ite" {
		return mkIte(a.Args[0], x.implements(a.Args[1], it), x.implements(a.Args[2], it))
	}
	if a.Op == "box" {
		if t := x.typeByKey(a.S); t != nil {
			return mkBool(types.Implements(t, types.Unalias(it).Underlying().(*types.Interface)))
		}
	}
	return mkApp("implements:"+tkey(it), SBool, mkTypeof(a))
}

var typeByKeyM = map[string]types.Type{}

func (x *Exec) typeByKey(k string) types.Type { return typeByKeyM[k] }

func (x *Exec) lenOf(st *State, v Val, t types.Type) *Term {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return v.(*SliceV).ln
	case *types.Basic:
		s := x.term(v)
		l := mkStrLen(s)
		return l
	case *types.Map:
		m := x.term(v)
		key := "ML|" + mapKey(u)
		h := x.hget(st, key, arr(SInt))
		n := mkSelect(h, m)
		n = mkIte(mkEq(m, tZero), tZero, n)
		x.assume(tTrue, mkLe(tZero, n))
		// empty iff no key
		d := mkSelect(x.hget(st, "MD|"+mapKey(u), arr(arr2(x.keySort(u.Key()), SBool))), m)
		bv := mkBV("k", x.keySort(u.Key()))
		x.assume(tTrue, mkImp(mkEq(n, tZero), mkQuant("forall", []*Term{bv}, mkOr(mkEq(m, tZero), mkNot(mkSelect(d, bv))))))
		if len(n.bvs) == 0 && len(d.bvs) == 0 {
			x.assume(tTrue, mkImp(mkLt(tZero, n), mkSelect(d, freshVar("inmap", x.keySort(u.Key())))))
		}
		return n
	case *types.Array:
		return mkInt(u.Len())
	case *types.Pointer:
		if at, ok := types.Unalias(u.Elem()).Underlying().(*types.Array); ok {
			return mkInt(at.Len())
		}
	case *types.Chan:
		n := freshVar("chanlen", SInt)
		x.assume(tTrue, mkLe(tZero, n))
		return n
	}
	return freshVar("len", SInt)
}

func mapKey(m *types.Map) string { return tkey(m.Key()) + "=>" + tkey(m.Elem()) }

func (x *Exec) keySort(t types.Type) string {
	ls := x.leaves(t)
	if len(ls) == 1 {
		return ls[0].Sort
	}
	return SAny
}
func (x *Exec) keyTerm(v Val, t types.Type) *Term {
	if len(x.leaves(t)) == 1 {
		return x.toLeaves(v, t)[0]
	}
	return mkBox(tkey(t), x.toLeaves(v, t)...)
}
func (x *Exec) keyVal(k *Term, t types.Type) Val {
	if len(x.leaves(t)) == 1 {
		return x.mkVal(t, []*Term{k})
	}
	return x.unbox(k, t)
}

func (x *Exec) mapInit(st *State, r *Term, mt *types.Map) {
	mkk := mapKey(mt)
	ks := x.keySort(mt.Key())
	dk := "MD|" + mkk
	ds := arr2(ks, SBool)
	x.hset(st, dk, mkStore(x.hget(st, dk, arr(ds)), r, mkConstArr(ds, tFalse)))
	lk := "ML|" + mkk
	x.hset(st, lk, mkStore(x.hget(st, lk, arr(SInt)), r, tZero))
}

func (x *Exec) mapDom(st *State, m *Term, mt *types.Map) *Term {
	return mkSelect(x.hget(st, "MD|"+mapKey(mt), arr(arr2(x.keySort(mt.Key()), SBool))), m)
}

func (x *Exec) mapGet(st *State, m *Term, mt *types.Map, k *Term) (Val, *Term) {
	has := mkAnd(mkNot(mkEq(m, tZero)), mkSelect(x.mapDom(st, m, mt), k))
	ks := x.keySort(mt.Key())
	var ls []*Term
	for _, l := range x.leaves(mt.Elem()) {
		h := x.hget(st, "MV|"+mapKey(mt)+l.Suffix, arr(arr2(ks, l.Sort)))
		t := mkSelect(mkSelect(h, m), k)
		if l.Ref && t.Op == "select" {
			refLoads[t.ID] = true
		}
		ls = append(ls, t)
	}
	v := x.mkVal(mt.Elem(), ls)
	x.loadInv(mt.Elem(), v, st.g)
	return v, has
}

func (x *Exec) mapStore(st *State, m *Term, t types.Type, k, v Val) {
	mt := types.Unalias(t).Underlying().(*types.Map)
	kt := x.keyTerm(k, mt.Key())
	ks := x.keySort(mt.Key())
	dk := "MD|" + mapKey(mt)
	ds := arr2(ks, SBool)
	dh := x.hget(st, dk, arr(ds))
	dom := mkSelect(dh, m)
	was := mkSelect(dom, kt)
	x.hset(st, dk, mkStore(dh, m, mkStore(dom, kt, tTrue)))
	lk := "ML|" + mapKey(mt)
	lh := x.hget(st, lk, arr(SInt))
	n := mkSelect(lh, m)
	x.hset(st, lk, mkStore(lh, m, mkIte(was, n, mkAdd(n, tOne))))
	ls := x.toLeaves(v, mt.Elem())
	for i, l := range x.leaves(mt.Elem()) {
		vk := "MV|" + mapKey(mt) + l.Suffix
		h := x.hget(st, vk, arr(arr2(ks, l.Sort)))
		x.hset(st, vk, mkStore(h, m, mkStore(mkSelect(h, m), kt, ls[i])))
	}
}

func (x *Exec) mapDelete(st *State, m *Term, t types.Type, k Val) {
	mt := types.Unalias(t).Underlying().(*types.Map)
	kt := x.keyTerm(k, mt.Key())
	ks := x.keySort(mt.Key())
	dk := "MD|" + mapKey(mt)
	ds := arr2(ks, SBool)
	dh := x.hget(st, dk, arr(ds))
	dom := mkSelect(dh, m)
	was := mkAnd(mkNot(mkEq(m, tZero)), mkSelect(dom, kt))
	x.hset(st, dk, mkStore(dh, m, mkStore(dom, kt, tFalse)))
	lk := "ML|" + mapKey(mt)
	lh := x.hget(st, lk, arr(SInt))
	n := mkSelect(lh, m)
	x.hset(st, lk, mkStore(lh, m, mkIte(was, mkSub(n, tOne), n)))
}

func (x *Exec) lookup(st *State, c, i Val, t, it types.Type, commaOk bool) Val {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Map:
		v, has := x.mapGet(st, x.term(c), u, x.keyTerm(i, u.Key()))
		r := x.mergeVals([]*Term{has, tTrue}, []Val{v, x.zero(u.Elem())}, u.Elem())
		if commaOk {
			return &TupleV{[]Val{r, has}}
		}
		return r
	case *types.Basic:
		s, idx := x.term(c), x.term(i)
		x.bounds(st, idx, mkStrLen(s), token.NoPos)
		return mkApp("byteat", SInt, s, idx)
	}
	panic("lookup")
}

func (x *Exec) index(st *State, c Val, i *Term, t, rt types.Type) Val {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Array:
		rows := x.toLeaves(c, t)
		var ls []*Term
		for _, r := range rows {
			ls = append(ls, mkSelect(r, i))
		}
		return x.mkVal(u.Elem(), ls)
	case *types.Basic:
		s := x.term(c)
		x.bounds(st, i, mkStrLen(s), token.NoPos)
		return mkApp("byteat", SInt, s, i)
	}
	return x.havocVal(rt, "index", st.g, false)
}

func (x *Exec) indexAddr(st *State, b Val, t types.Type, i *Term, pos token.Pos) Val {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		s := b.(*SliceV)
		x.bounds(st, i, s.ln, pos)
		return x.elemAddr(s, i, u.Elem())
	case *types.Pointer:
		at := types.Unalias(u.Elem()).Underlying().(*types.Array)
		x.bounds(st, i, mkInt(at.Len()), pos)
		switch p := b.(type) {
		case *Term:
			if d := x.decAddr(p); d != nil {
				return &AddrV{kind: "arridx", t: at.Elem(), whole: at.Elem(), idx: i, base: d, ln: len(x.leaves(at.Elem()))}
			}
			return &AddrV{kind: "elem", key: "E|" + tkey(at.Elem()), ref: p, idx: i, t: at.Elem(), whole: at.Elem(), ln: len(x.leaves(at.Elem()))}
		case *AddrV:
			if p.kind == "array" {
				return &AddrV{kind: "elem", key: "E|" + tkey(at.Elem()), ref: p.ref, idx: i, t: at.Elem(), whole: at.Elem(), ln: len(x.leaves(at.Elem()))}
			}
			return &AddrV{kind: "arridx", t: at.Elem(), whole: at.Elem(), idx: i, base: p, ln: len(x.leaves(at.Elem()))}
		}
	}
	panic("indexAddr " + tkey(t))
}

func (x *Exec) slice(f *Frame, w *ssa.Slice, st *State) Val {
	b := f.get(w.X)
	lo := tZero
	if w.Low != nil {
		lo = x.term(f.get(w.Low))
	}
	switch u := types.Unalias(w.X.Type()).Underlying().(type) {
	case *types.Slice:
		s := b.(*SliceV)
		hi := s.ln
		if w.High != nil {
			hi = x.term(f.get(w.High))
			// capacity is not modelled: slicing beyond the length is assumed not to happen
			if x.unit.NoPanic {
				x.oblige("slice bounds", "nopanic", st.g, mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, s.ln)), w.Pos())
			}
			x.assume(st.g, mkLe(hi, s.ln))
		} else if x.unit.NoPanic && lo != tZero {
			x.oblige("slice bounds", "nopanic", st.g, mkAnd(mkLe(tZero, lo), mkLe(lo, hi)), w.Pos())
		}
		x.assume(st.g, mkAnd(mkLe(tZero, lo), mkLe(lo, hi)))
		return &SliceV{s.ref, mkAdd(s.off, lo), mkSub(hi, lo)}
	case *types.Basic:
		s := x.term(b)
		hi := mkStrLen(s)
		if w.High != nil {
			hi = x.term(f.get(w.High))
		}
		if x.unit.NoPanic && (w.Low != nil || w.High != nil) {
			x.oblige("string slice bounds", "nopanic", st.g, mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, mkStrLen(s))), w.Pos())
		}
		x.assume(st.g, mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, mkStrLen(s))))
		if lo == tZero && w.High == nil {
			return s
		}
		r := mkApp("substr", SStr, s, lo, hi)
		x.assume(st.g, mkEq(mkStrLen(r), mkSub(hi, lo)))
		return r
	case *types.Pointer:
		at := types.Unalias(u.Elem()).Underlying().(*types.Array)
		hi := mkInt(at.Len())
		if w.High != nil {
			hi = x.term(f.get(w.High))
		}
		switch p := b.(type) {
		case *Term:
			if x.decAddr(p) == nil {
				return &SliceV{p, lo, mkSub(hi, lo)}
			}
		case *AddrV:
			if p.kind == "array" {
				return &SliceV{p.ref, lo, mkSub(hi, lo)}
			}
		}
		// slicing an array held inside an object: content snapshot
		var a *AddrV
		switch p := b.(type) {
		case *Term:
			a = x.decAddr(p)
		case *AddrV:
			a = p
		}
		r := freshRef()
		x.setRows(st, r, at.Elem(), x.toLeaves(x.loadAddr(st, a), a.t))
		x.note("slice of array field is a snapshot")
		return &SliceV{r, lo, mkSub(hi, lo)}
	}
	return x.havocVal(w.Type(), "slice", st.g, false)
}

func (x *Exec) rangeInit(st *State, v Val, t types.Type) Val {
	x.callN++
	it := &IterV{key: fmt.Sprintf("IT|%d", x.callN)}
	x.hset(st, it.key, tZero)
	x.ghostInit[it.key] = tZero
	if mt, ok := types.Unalias(t).Underlying().(*types.Map); ok {
		it.mt = mt
		it.m = x.term(v)
		it.dom = x.mapDom(st, it.m, mt)
		it.seq, it.idx = freshUF("mseq"), freshUF("midx")
		it.n = x.lenOf(st, v, t)
		ks := x.keySort(mt.Key())
		k := mkBV("k", ks)
		ix := mkApp(it.idx, SInt, k)
		x.assume(st.g, mkQuant("forall", []*Term{k}, mkImp(mkAnd(mkNot(mkEq(it.m, tZero)), mkSelect(it.dom, k)), mkAnd(mkLe(tZero, ix), mkLt(ix, it.n), mkEq(mkApp(it.seq, ks, ix), k)))))
		i := mkBV("i", SInt)
		x.assume(st.g, mkQuant("forall", []*Term{i}, mkImp(mkAnd(mkLe(tZero, i), mkLt(i, it.n)), mkAnd(mkSelect(it.dom, mkApp(it.seq, ks, i)), mkEq(mkApp(it.idx, SInt, mkApp(it.seq, ks, i)), i)))))
		return it
	}
	it.isStr = true
	it.str = x.term(v)
	return it
}

func (x *Exec) next(f *Frame, w *ssa.Next, st *State) Val {
	it := f.get(w.Iter).(*IterV)
	pos := x.hget(st, it.key, SInt)
	x.hset(st, it.key, mkAdd(pos, tOne))
	if it.isStr {
		// runes of the string, one per position; the number of runes never exceeds the byte length
		n := mkApp("runecount", SInt, it.str)
		x.assume(st.g, mkAnd(mkLe(tZero, n), mkLe(n, mkStrLen(it.str))))
		x.assume(st.g, mkEq(mkEq(n, tZero), mkEq(it.str, mkStr(""))))
		return &TupleV{[]Val{mkLt(pos, n), mkApp("runeoff", SInt, it.str, pos), mkApp("runeat", SInt, it.str, pos)}}
	}
	k := mkApp(it.seq, x.keySort(it.mt.Key()), pos)
	ok := mkLt(pos, it.n)
	v, _ := x.mapGet(st, it.m, it.mt, k)
	return &TupleV{[]Val{ok, x.keyVal(k, it.mt.Key()), v}}
}

func isUnsigned(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func basicInfo(t types.Type) types.BasicInfo {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	return b.Info()
}

func (x *Exec) valEq(st *State, a, b Val, ta, tb_ types.Type) *Term {
	ia, ib := types.IsInterface(ta), types.IsInterface(tb_)
	if ia != ib {
		if !ia {
			a = x.box(a, ta)
		} else {
			b = x.box(b, tb_)
		}
		return mkEq(x.term(a), x.term(b))
	}
	if sa, ok := a.(*SliceV); ok { // comparison with nil
		sb := b.(*SliceV)
		if sb.ref == tZero {
			return mkEq(sa.ref, tZero)
		}
		return mkEq(sb.ref, tZero)
	}
	la, lb := x.toLeaves(a, ta), x.toLeaves(b, tb_)
	var cs []*Term
	for i := range la {
		cs = append(cs, mkEq(la[i], lb[i]))
	}
	return mkAnd(cs...)
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, ta, tb_, rt types.Type) Val {
	switch op {
	case token.EQL:
		return x.valEq(st, a, b, ta, tb_)
	case token.NEQ:
		return mkNot(x.valEq(st, a, b, ta, tb_))
	}
	p, q := x.term(a), x.term(b)
	if p.Sort == SStr {
		switch op {
		case token.ADD:
			return mkCat(p, q)
		case token.LSS:
			return x.strLt(p, q)
		case token.GTR:
			return x.strLt(q, p)
		case token.LEQ:
			return mkNot(x.strLt(q, p))
		case token.GEQ:
			return mkNot(x.strLt(p, q))
		}
	}
	if p.Sort == SBool {
		switch op {
		case token.AND:
			return mkAnd(p, q)
		case token.OR:
			return mkOr(p, q)
		}
	}
	switch op {
	case token.LSS:
		return mkLt(p, q)
	case token.GTR:
		return mkLt(q, p)
	case token.LEQ:
		return mkLe(p, q)
	case token.GEQ:
		return mkLe(q, p)
	case token.ADD:
		return x.wrap(mkAdd(p, q), rt)
	case token.SUB:
		return x.wrap(mkSub(p, q), rt)
	case token.MUL:
		return x.wrap(mkMul(p, q), rt)
	case token.QUO:
		if p.Sort == SReal {
			return mk("/r", "", SReal, p, q)
		}
		if x.unit.NoPanic {
			x.oblige("division by zero", "nopanic", st.g, mkNot(mkEq(q, tZero)), x.curPos)
		}
		if _, ok := intVal(q); ok {
			return mkDiv(p, q)
		}
		r := mkApp("tdiv", SInt, p, q)
		// |r| <= |p| and sign facts for positive operands
		x.assume(st.g, mkImp(mkAnd(mkLe(tZero, p), mkLt(tZero, q)), mkAnd(mkLe(tZero, r), mkLe(r, p))))
		return r
	case token.REM:
		if _, ok := intVal(q); ok {
			return mkMod(p, q)
		}
		r := mkApp("tmod", SInt, p, q)
		x.assume(st.g, mkImp(mkAnd(mkLe(tZero, p), mkLt(tZero, q)), mkAnd(mkLe(tZero, r), mkLt(r, q))))
		return r
	case token.SHL:
		if n, ok := intVal(q); ok && n.IsInt64() && n.Int64() < 63 {
			return mkMul(mkInt(1<<uint(n.Int64())), p)
		}
	case token.SHR:
		if n, ok := intVal(q); ok && n.IsInt64() && n.Int64() < 63 {
			r := mkApp("shr"+n.String(), SInt, p)
			x.assume(st.g, mkImp(mkLe(tZero, p), mkAnd(mkLe(tZero, r), mkLe(r, p))))
			return r
		}
	}
	if p.Sort == SBool || p.Sort == SReal {
		return x.havocVal(rt, "op", st.g, false)
	}
	r := mkApp("op"+op.String(), p.Sort, p, q)
	if op == token.AND {
		x.assume(st.g, mkImp(mkAnd(mkLe(tZero, p), mkLe(tZero, q)), mkAnd(mkLe(tZero, r), mkLe(r, p), mkLe(r, q))))
	}
	return r
}

// intRange is the range of an integer type
func intRange(t types.Type) (lo, hi, size *big.Int) {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, nil, nil
	}
	bits := map[types.BasicKind]uint{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Uint8: 8, types.Uint16: 16, types.Uint32: 32}[b.Kind()]
	if bits == 0 {
		bits = 64
	}
	one := big.NewInt(1)
	size = new(big.Int).Lsh(one, bits)
	if b.Info()&types.IsUnsigned != 0 {
		return new(big.Int), new(big.Int).Sub(size, one), size
	}
	half := new(big.Int).Lsh(one, bits-1)
	return new(big.Int).Neg(half), new(big.Int).Sub(half, one), size
}

// wrap reduces the mathematical result v of an operation of integer type t into the range of t, for units
// that ask for machine integers
func (x *Exec) wrap(v *Term, t types.Type) *Term {
	if x.unit == nil || !x.unit.Machine || x.noWrap || v.Sort != SInt {
		return v
	}
	lo, hi, size := intRange(t)
	if lo == nil {
		return v
	}
	if c, ok := intVal(v); ok {
		d := new(big.Int).Sub(c, lo)
		d.Mod(d, size)
		return mkBig(d.Add(d, lo).String())
	}
	k := freshVar("wrap", SInt)
	r := mkSub(v, mkMul(mkBig(size.String()), k))
	l, h := mkBig(lo.String()), mkBig(hi.String())
	x.assumes = append(x.assumes, mkLe(l, r), mkLe(r, h), mkImp(mkAnd(mkLe(l, v), mkLe(v, h)), mkEq(k, tZero)))
	return r
}

// satDur limits a difference of times to what a duration can hold
func (x *Exec) satDur(d *Term) *Term {
	lo, hi := mkBig("-9223372036854775808"), mkBig("9223372036854775807")
	return mkIte(mkLt(d, lo), lo, mkIte(mkLt(hi, d), hi, d))
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fu, tu := types.Unalias(from).Underlying(), types.Unalias(to).Underlying()
	fi, ti := basicInfo(from), basicInfo(to)
	switch {
	case fi&types.IsString != 0 && ti&types.IsString != 0:
		return v
	case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
		return x.intConv(st, x.term(v), from, to)
	case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
		t := x.term(v)
		if t.Op == "int" {
			return x.constOf(constant.MakeFromLiteral(t.S, token.INT, 0), to)
		}
		return mk("toreal", "", SReal, t)
	case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
		t := x.term(v)
		if t.Op == "toreal" {
			return x.wrap(t.Args[0], to)
		}
		r := mkApp("ftrunc", SInt, t)
		rr := mk("toreal", "", SReal, r)
		x.assume(st.g, mkImp(mkLe(zeroOf(SReal), t), mkAnd(mkLe(tZero, r), mkLe(rr, t), mkLt(t, mk("+r", "", SReal, rr, mk("real", "1.0", SReal))))))
		return r
	case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
		return v
	case fi&types.IsString != 0:
		if sl, ok := tu.(*types.Slice); ok {
			if b, ok := types.Unalias(sl.Elem()).Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return x.newBytesT(st, x.term(v), sl.Elem())
			}
		}
	case ti&types.IsString != 0:
		if sl, ok := fu.(*types.Slice); ok {
			if b, ok := types.Unalias(sl.Elem()).Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return x.bytesOfT(st, v.(*SliceV), sl.Elem())
			}
		}
		if fi&types.IsInteger != 0 {
			return mkApp("runestr", SStr, x.term(v))
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		if _, ok := tu.(*types.Pointer); ok {
			return v
		}
	}
	return x.havocVal(to, "conv", st.g, false)
}

func (x *Exec) newBytesT(st *State, s *Term, et types.Type) *SliceV {
	r := freshRef()
	x.setRows(st, r, et, []*Term{mkApp("rowof", arr(SInt), s)})
	return &SliceV{r, tZero, mkStrLen(s)}
}
func (x *Exec) bytesOfT(st *State, s *SliceV, et types.Type) *Term {
	if s.ref == tZero {
		return mkStr("")
	}
	if s.ref.Op == "ite" {
		// a nil slice is empty
		c := s.ref.Args[0]
		pick := func(t *Term, i int) *Term {
			if t.Op == "ite" && t.Args[0] == c {
				return t.Args[i]
			}
			return t
		}
		return mkIte(c, x.bytesOfT(st, &SliceV{s.ref.Args[1], pick(s.off, 1), pick(s.ln, 1)}, et), x.bytesOfT(st, &SliceV{s.ref.Args[2], pick(s.off, 2), pick(s.ln, 2)}, et))
	}
	return bstr(x.rows(st, s, et)[0], s.off, s.ln)
}

func bits(t types.Type) (int, bool) {
	b := types.Unalias(t).Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func (x *Exec) intConv(st *State, t *Term, from, to types.Type) *Term {
	fb, fs := bits(from)
	tbits, ts := bits(to)
	if ts && (fb < tbits || (fb == tbits && fs)) || !ts && !fs && fb <= tbits {
		return t
	}
	if v, ok := intVal(t); ok && v.IsInt64() {
		n := v.Int64()
		if n >= 0 && (tbits == 64 || n < 1<<uint(tbits-1)) {
			return t
		}
	}
	if !ts && fs && tbits == 64 {
		// signed to uint64: wraps when negative
		return mkIte(mkLt(t, tZero), mkAdd(t, mkBig("18446744073709551616")), t)
	}
	if ts && !fs && tbits == 64 {
		return mkIte(mkLt(mkBig("9223372036854775807"), t), mkSub(t, mkBig("18446744073709551616")), t)
	}
	if !ts {
		return mkApp(fmt.Sprintf("wrapu%d", tbits), SInt, t)
	}
	return mkApp(fmt.Sprintf("wraps%d", tbits), SInt, t)
}

func sortedTerms(m map[int]*Term) []*Term {
	var ids []int
	for id := range m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var out []*Term
	for _, id := range ids {
		out = append(out, m[id])
	}
	return out
}

// strLt: the order of strings is a strict total order
func (x *Exec) strLt(a, b *Term) *Term {
	lt, gt := mkApp("strlt", SBool, a, b), mkApp("strlt", SBool, b, a)
	x.assume(tTrue, mkAnd(mkOr(lt, gt, mkEq(a, b)), mkNot(mkAnd(lt, gt)), mkImp(mkEq(a, b), mkAnd(mkNot(lt), mkNot(gt)))))
	return lt
}
