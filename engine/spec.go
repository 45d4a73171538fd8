package main

// Contract files: parsing and evaluation of specification expressions over symbolic states.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SV struct {
	v Val
	t types.Type // nil for untyped constants and nil
}

type Clause struct {
	Name string
	Src  string
	Expr ast.Expr
	Pos  string
}

type Hook struct {
	Pat     string
	Params  []string
	Results []string
	Kind    string // assert set assume
	Name    string
	LHS     string
	LHSArg  ast.Expr
	Expr    ast.Expr
	Src     string
	After   bool
	Maybe   bool
	Hits    int
	When    ast.Expr
	Guards  []*Term
	Pos     string
}

type Contract struct {
	Kind                    string
	Prop                    string
	Pkg, Recv, Fn           string // package path, receiver type name ("" / "T" / "*T")
	Key                     string
	RecvName                string
	Params, Results         []string
	Requires, Ensures       []Clause
	Invariants              []Clause
	Owns                    []string
	Hooks                   []*Hook
	Covers                  []Clause
	Keeps                   []Clause
	Ghosts                  []Ghost
	NoPanic, Modular, Locks bool
	Machine                 bool // integers wrap around as the machine's do
	GoBodies, Pure, Frame   bool
	Sweep                   bool // made for a function that locks
	Inits                   []string
	Opaque                  []string
	Modifies                []string
	Fresh                   []string
	Label                   string
	Pos                     string
	aliases                 map[string]string
	fn                      *ssa.Function
	note                    string
	Sig                     string
}

type Ghost struct {
	Name, Type string
	Init       ast.Expr
}

type Def struct {
	Params []string
	Expr   ast.Expr
	Src    string
}

type UFn struct {
	Args []string
	Res  string
}

type SpecDB struct {
	Externs map[string]*Contract
	Globs   []*Contract
	Verifs  []*Contract
	Modular map[string]*Contract
	Defs    map[string]*Def
	UFns    map[string]*UFn
	Alias   map[string]string
	Pure    []string
	Fixed   []string // exported variables nothing in the repository reassigns
	Sweeps  []string // packages whose every function that locks is a unit
	Except  []string
	Clients []Client // Go code laid over a package, exercising it the way its users do
	Props   map[string]bool
	Prop    string
	Files   []string
	Immut   map[string]bool
	Groups  map[string]*Contract
}

func newSpecDB() *SpecDB {
	return &SpecDB{Externs: map[string]*Contract{}, Modular: map[string]*Contract{}, Defs: map[string]*Def{}, UFns: map[string]*UFn{}, Alias: map[string]string{}, Props: map[string]bool{}}
}

func (db *SpecDB) externFor(key string) *Contract  { return db.Externs[key] }
func (db *SpecDB) modularFor(key string) *Contract { return db.Modular[key] }
func (db *SpecDB) isPure(key string) bool {
	for _, p := range db.Pure {
		if globMatch(p, key) {
			return true
		}
	}
	return false
}

// Client is a file of client code verified together with a package
type Client struct{ Pkg, File string }

var kwRe = regexp.MustCompile(`^(property|alias|def|ufn|ghost|extern|pure|verify|requires|ensures|oncall|cover|keeps|nopanic|machine|modular|locks|gobodies|opaque|fixed|modifies|frame|label|init|invariant|owns|include|group|use|fresh|client|sweep|except)\b`)

// impSugar rewrites a ==> b (right associative, weakest) into imp(a, b)
func impSugar(s string) string {
	// process nested brackets first
	var b strings.Builder
	for i := 0; i < len(s); {
		c := s[i]
		if c == '"' || c == '`' {
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && c == '"' {
					j++
				}
				j++
			}
			b.WriteString(s[i:min(j+1, len(s))])
			i = j + 1
			continue
		}
		if c == '(' {
			d, j := 1, i+1
			for j < len(s) && d > 0 {
				switch s[j] {
				case '(':
					d++
				case ')':
					d--
				case '"', '`':
					q := s[j]
					j++
					for j < len(s) && s[j] != q {
						if s[j] == '\\' && q == '"' {
							j++
						}
						j++
					}
				}
				j++
			}
			inner := s[i+1 : j-1]
			var parts []string
			for _, p := range splitTop(inner, ",") {
				parts = append(parts, impSugar(p))
			}
			b.WriteString("(" + strings.Join(parts, ",") + ")")
			i = j
			continue
		}
		b.WriteByte(c)
		i++
	}
	s = b.String()
	ps := splitTop(s, "==>")
	if len(ps) == 1 {
		return s
	}
	r := ps[len(ps)-1]
	for i := len(ps) - 2; i >= 0; i-- {
		r = "imp(" + ps[i] + "," + r + ")"
	}
	return r
}

func splitTop(s, sep string) []string {
	var out []string
	d, last := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '"', '`':
			q := s[i]
			i++
			for i < len(s) && s[i] != q {
				if s[i] == '\\' && q == '"' {
					i++
				}
				i++
			}
			continue
		}
		if d == 0 && strings.HasPrefix(s[i:], sep) {
			out = append(out, s[last:i])
			last = i + len(sep)
			i = last - 1
		}
	}
	return append(out, s[last:])
}

func parseE(src, pos string) ast.Expr {
	e, err := parser.ParseExpr(impSugar(src))
	if err != nil {
		panic(fmt.Sprintf("%s: %v in %q", pos, err, src))
	}
	return e
}

var nameRe = regexp.MustCompile(`^([\w\-., '/]+):\s+`)

func parseClause(src, pos string) Clause {
	c := Clause{Pos: pos, Src: src}
	if m := nameRe.FindStringSubmatch(src); m != nil {
		c.Name = m[1]
		src = src[len(m[0]):]
		c.Src = src
	}
	c.Expr = parseE(src, pos)
	return c
}

func splitNames(s string) []string {
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	var out []string
	for _, p := range strings.Split(s, ",") {
		out = append(out, strings.TrimSpace(p))
	}
	return out
}

// header: [(recv alias.T)] name(params) [(results)] rest
var hdrRe = regexp.MustCompile(`^(?:\(\s*(?:(\w+)\s+)?(\*?)([\w./\-]+)\.(\w+)\s*\)\s*\.?\s*(\w+)|([\w./\-]+)\.(\w+(?:\$\d+)*))\s*(?:\(([^)]*)\))?\s*(?:\(([^)]*)\))?\s*(.*)$`)

func (db *SpecDB) expand(p string) string {
	if a, ok := db.Alias[p]; ok {
		return a
	}
	return p
}

func (db *SpecDB) parseHeader(s, pos string) (*Contract, string) {
	m := hdrRe.FindStringSubmatch(strings.TrimSpace(s))
	if m == nil {
		panic(pos + ": bad header " + s)
	}
	c := &Contract{Pos: pos}
	if m[5] != "" {
		c.RecvName = m[1]
		c.Pkg = db.expand(m[3])
		c.Recv = m[2] + m[4]
		c.Fn = m[5]
		c.Key = "(" + m[2] + c.Pkg + "." + m[4] + ")." + m[5]
	} else {
		c.Pkg = db.expand(m[6])
		c.Fn = m[7]
		c.Key = c.Pkg + "." + m[7]
	}
	c.Params = splitNames(m[8])
	c.Results = splitNames(m[9])
	return c, strings.TrimSpace(m[10])
}

func (db *SpecDB) load(file string) {
	raw, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	db.Files = append(db.Files, file)
	type item struct {
		kw, rest, pos string
	}
	var items []item
	for i, l := range strings.Split(string(raw), "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") || strings.HasPrefix(t, "//") {
			continue
		}
		if j := strings.Index(t, " //"); j >= 0 {
			t = strings.TrimSpace(t[:j])
		}
		if m := kwRe.FindString(t); m != "" {
			items = append(items, item{m, strings.TrimSpace(t[len(m):]), fmt.Sprintf("%s:%d", filepath.Base(file), i+1)})
		} else if len(items) > 0 {
			items[len(items)-1].rest += " " + t
		} else {
			panic(fmt.Sprintf("%s:%d: unexpected %q", file, i+1, t))
		}
	}
	prop := db.Prop
	var cur *Contract
	for _, it := range items {
		switch it.kw {
		case "property":
			prop = it.rest
			db.Props[prop] = true
			cur = nil
		case "alias":
			p := strings.SplitN(it.rest, "=", 2)
			db.Alias[strings.TrimSpace(p[0])] = strings.TrimSpace(p[1])
		case "def":
			p := strings.Index(it.rest, "=")
			// skip == in head cannot occur: head is name(params)
			h := it.rest[:p]
			n := strings.TrimSpace(h[:strings.Index(h, "(")])
			ps := h[strings.Index(h, "(")+1 : strings.Index(h, ")")]
			db.Defs[n] = &Def{splitNames(ps), parseE(strings.TrimSpace(it.rest[p+1:]), it.pos), it.rest}
		case "ufn":
			m := regexp.MustCompile(`^(\w+)\(([^)]*)\)\s*(\w+)$`).FindStringSubmatch(it.rest)
			if m == nil {
				panic(it.pos + ": bad ufn")
			}
			db.UFns[m[1]] = &UFn{splitNames(m[2]), m[3]}
		case "sweep":
			for _, f := range strings.Fields(it.rest) {
				db.Sweeps = append(db.Sweeps, strings.TrimSuffix(db.expandKey(f+".x"), ".x"))
			}
		case "except":
			for _, f := range strings.Fields(it.rest) {
				db.Except = append(db.Except, db.expandKey(f))
			}
		case "client":
			f := strings.Fields(it.rest)
			if len(f) != 2 {
				panic(it.pos + ": client PKG FILE")
			}
			p := strings.TrimSuffix(db.expandKey(f[0]+".x"), ".x")
			db.Clients = append(db.Clients, Client{p, filepath.Join(filepath.Dir(file), f[1])})
		case "fixed":
			for _, p := range strings.Fields(it.rest) {
				db.Fixed = append(db.Fixed, db.expandKey(p))
			}
		case "pure":
			if cur != nil && it.rest == "" {
				cur.Pure = true
				continue
			}
			for _, p := range strings.Fields(it.rest) {
				db.Pure = append(db.Pure, db.expandKey(p))
			}
		case "extern":
			c, rest := db.parseHeader(it.rest, it.pos)
			c.Kind = "extern"
			if rest == "pure" {
				c.Pure = true
			} else if rest == "frame" {
				c.Frame = true
			} else if rest != "" {
				panic(it.pos + ": " + rest)
			}
			db.Externs[c.Key] = c
			cur = c
		case "verify":
			c, rest := db.parseHeader(it.rest, it.pos)
			if rest != "" {
				panic(it.pos + ": unexpected " + rest)
			}
			c.Kind = "verify"
			c.Prop = prop
			db.Verifs = append(db.Verifs, c)
			cur = c
		case "include":
			db.Prop = prop
			db.load(filepath.Join(filepath.Dir(file), it.rest))
		case "group":
			cur = &Contract{Pos: it.pos}
			if db.Groups == nil {
				db.Groups = map[string]*Contract{}
			}
			db.Groups[it.rest] = cur
		case "use":
			for _, n := range strings.Fields(it.rest) {
				g := db.Groups[n]
				if g == nil {
					panic(it.pos + ": no group " + n)
				}
				cur.Requires = append(cur.Requires, g.Requires...)
				cur.Ensures = append(cur.Ensures, g.Ensures...)
				cur.Ghosts = append(cur.Ghosts, g.Ghosts...)
				cur.Covers = append(cur.Covers, g.Covers...)
				for _, h := range g.Hooks {
					hc := *h
					cur.Hooks = append(cur.Hooks, &hc)
				}
			}
		case "invariant":
			cur.Invariants = append(cur.Invariants, parseClause(it.rest, it.pos))
		case "owns":
			cur.Owns = append(cur.Owns, strings.Fields(it.rest)...)
		case "label":
			cur.Label = it.rest
		case "requires":
			cur.Requires = append(cur.Requires, parseClause(it.rest, it.pos))
		case "ensures":
			cur.Ensures = append(cur.Ensures, parseClause(it.rest, it.pos))
		case "keeps":
			cur.Keeps = append(cur.Keeps, parseClause(it.rest, it.pos))
		case "cover":
			cur.Covers = append(cur.Covers, parseClause(it.rest, it.pos))
		case "nopanic":
			cur.NoPanic = true
		case "machine":
			cur.Machine = true
		case "modular":
			cur.Modular = true
			db.Modular[cur.Key] = cur
		case "locks":
			cur.Locks = true
		case "gobodies":
			cur.GoBodies = true
		case "frame":
			cur.Frame = true
		case "init":
			for _, p := range strings.Fields(it.rest) {
				cur.Inits = append(cur.Inits, db.expand(p))
			}
		case "opaque":
			for _, p := range strings.Fields(it.rest) {
				cur.Opaque = append(cur.Opaque, db.expandKey(p))
			}
		case "fresh":
			cur.Fresh = append(cur.Fresh, splitNames(it.rest)...)
		case "modifies":
			cur.Frame = true
			for _, p := range splitNames(it.rest) {
				if p != "nothing" {
					cur.Modifies = append(cur.Modifies, p)
				}
			}
		case "ghost":
			m := regexp.MustCompile(`^(\w+)\s+([\w\[\]]+)\s*(?:=\s*(.*))?$`).FindStringSubmatch(it.rest)
			if m == nil {
				panic(it.pos + ": bad ghost " + it.rest)
			}
			g := Ghost{Name: m[1], Type: m[2]}
			if m[3] != "" {
				g.Init = parseE(m[3], it.pos)
			}
			cur.Ghosts = append(cur.Ghosts, g)
		case "oncall":
			cur.Hooks = append(cur.Hooks, db.parseHook(it.rest, it.pos)...)
		}
	}
}

// expandKey expands an alias inside a function key such as (*al.T).M or al.Fn
func (db *SpecDB) expandKey(k string) string {
	pre := ""
	r := k
	for strings.HasPrefix(r, "(") || strings.HasPrefix(r, "*") {
		pre += r[:1]
		r = r[1:]
	}
	if strings.HasPrefix(r, "dynamic:") || strings.HasPrefix(r, "chan:") {
		return k
	}
	if p, ok := strings.CutPrefix(r, "callback:"); ok {
		return pre + "callback:" + db.expandKey(p)
	}
	if i := strings.Index(r, "."); i > 0 {
		if a, ok := db.Alias[r[:i]]; ok {
			return pre + a + r[i:]
		}
	}
	return k
}

// oncall KEY(args) [(results)] [when expr] : assert name: e | set g = e | assume e | maybe assert...
var hookRe = regexp.MustCompile(`^(\S+?)\(([\w, ]*)\)\s*(?:\(([\w, ]*)\))?\s*:\s*(maybe\s+)?(assert|set|assume)\s+(.*)$`)

func (db *SpecDB) parseHook(s, pos string) []*Hook {
	m := hookRe.FindStringSubmatch(s)
	if m == nil {
		panic(pos + ": bad oncall " + s)
	}
	h := &Hook{Pat: db.expandKey(m[1]), Params: splitNames(m[2]), Results: splitNames(m[3]), Kind: m[5], Maybe: m[4] != "", Pos: pos}
	body := m[6]
	h.Src = body
	switch h.Kind {
	case "assert":
		c := parseClause(body, pos)
		h.Name, h.Expr, h.Src = c.Name, c.Expr, c.Src
		h.After = len(h.Results) > 0
	case "set":
		i := strings.Index(body, "=")
		h.LHS = strings.TrimSpace(body[:i])
		if j := strings.Index(h.LHS, "["); j > 0 {
			h.LHSArg = parseE(h.LHS[j+1:len(h.LHS)-1], pos)
			h.LHS = h.LHS[:j]
		}
		h.Expr = parseE(strings.TrimSpace(body[i+1:]), pos)
		h.After = len(h.Results) > 0
		h.Maybe = true
	case "assume":
		h.Expr = parseE(body, pos)
		h.After = len(h.Results) > 0
		h.Maybe = true
	}
	return []*Hook{h}
}

// ---------- evaluation ----------

type Env struct {
	x     *Exec
	vars  map[string]SV
	pkg   *types.Package
	up    *Env
	src   string
	local map[string]string // alias
}

func (e *Env) lookup(n string) (SV, bool) {
	for c := e; c != nil; c = c.up {
		if v, ok := c.vars[n]; ok {
			return v, true
		}
	}
	return SV{}, false
}
func (e *Env) sub() *Env { return &Env{x: e.x, vars: map[string]SV{}, pkg: e.pkg, up: e} }

type specErr struct{ msg string }

func fail(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (x *Exec) evalBool(c Clause, env *Env, st, old *State) *Term {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				panic(specErr{fmt.Sprintf("%s: %s (in %q)", c.Pos, s.msg, c.Src)})
			}
			panic(r)
		}
	}()
	return x.evalB(c.Expr, env, st, old)
}

func (x *Exec) evalB(e ast.Expr, env *Env, st, old *State) *Term {
	v := x.eval(e, env, st, old)
	t, ok := v.v.(*Term)
	if !ok || t.Sort != SBool {
		fail("boolean expected: %s", exprStr(e))
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (x *Exec) eval(e ast.Expr, env *Env, st, old *State) SV {
	x.specDepth++
	defer func() { x.specDepth-- }()
	return x.ev(e, env, st, old)
}

var tBool, tInt, tStr = types.Typ[types.Bool], types.Typ[types.Int], types.Typ[types.String]

func bv(t *Term) SV { return SV{t, tBool} }

// coerce gives b the type of a when b is an untyped constant or nil, and boxes for interfaces
func (x *Exec) coerce(v SV, t types.Type) SV {
	if t == nil {
		return v
	}
	if v.t == nil {
		if v.v == nil { // nil
			return SV{x.zero(t), t}
		}
		tm := v.v.(*Term)
		if types.IsInterface(t) {
			switch tm.Sort {
			case SStr:
				return SV{mkBox("string", tm), t}
			case SBool:
				return SV{mkBox("bool", tm), t}
			case SInt:
				return SV{mkBox("int", tm), t}
			}
		}
		ls := x.leaves(t)
		if len(ls) == 1 && ls[0].Sort == SReal && tm.Sort == SInt {
			return SV{mk("real", tm.S+".0", SReal), t}
		}
		return SV{v.v, t}
	}
	if types.IsInterface(t) && !types.IsInterface(v.t) {
		return SV{x.box(v.v, v.t), t}
	}
	return SV{v.v, t}
}

func (x *Exec) evEq(a, b SV, st *State) *Term {
	if a.t == nil && b.t != nil {
		a = x.coerce(a, b.t)
	} else if b.t == nil && a.t != nil {
		b = x.coerce(b, a.t)
	}
	if a.t == nil {
		if a.v == nil && b.v == nil {
			return tTrue
		}
		return mkEq(a.v.(*Term), b.v.(*Term))
	}
	if isByteS(a.t) && isByteS(b.t) {
		if s, ok := b.v.(*SliceV); ok && s.ref != tZero {
			if s2 := a.v.(*SliceV); s2.ref != tZero {
				return mkEq(x.bytesOf(st, a.v.(*SliceV)), x.bytesOf(st, s))
			}
		}
	}
	return x.valEq(st, a.v, b.v, a.t, b.t)
}

func isByteS(t types.Type) bool { _, ok := isByteSlice(t); return ok }

func (x *Exec) ev(e ast.Expr, env *Env, st, old *State) SV {
	switch w := e.(type) {
	case *ast.ParenExpr:
		return x.ev(w.X, env, st, old)
	case *ast.BasicLit:
		switch w.Kind {
		case token.INT, token.CHAR:
			c := constant.MakeFromLiteral(w.Value, w.Kind, 0)
			return SV{mkBig(constant.ToInt(c).ExactString()), nil}
		case token.STRING:
			s, _ := strconv.Unquote(w.Value)
			return SV{mkStr(s), nil}
		case token.FLOAT:
			return SV{x.constOf(constant.MakeFromLiteral(w.Value, w.Kind, 0), types.Typ[types.Float64]), types.Typ[types.Float64]}
		}
	case *ast.Ident:
		return x.evIdent(w.Name, env, st)
	case *ast.UnaryExpr:
		v := x.ev(w.X, env, st, old)
		switch w.Op {
		case token.NOT:
			return bv(mkNot(v.v.(*Term)))
		case token.SUB:
			t := v.v.(*Term)
			if t.Sort == SReal {
				return SV{mk("-r", "", SReal, zeroOf(SReal), t), v.t}
			}
			return SV{mkSub(tZero, t), v.t}
		case token.AND:
			return v
		}
	case *ast.StarExpr:
		v := x.ev(w.X, env, st, old)
		pt := derefT(v.t)
		return SV{x.load(st, v.v, pt), pt}
	case *ast.BinaryExpr:
		switch w.Op {
		case token.LAND:
			a := x.ev(w.X, env, st, old).v.(*Term)
			if a == tFalse {
				return bv(tFalse)
			}
			return bv(mkAnd(a, x.ev(w.Y, env, st, old).v.(*Term)))
		case token.LOR:
			a := x.ev(w.X, env, st, old).v.(*Term)
			if a == tTrue {
				return bv(tTrue)
			}
			return bv(mkOr(a, x.ev(w.Y, env, st, old).v.(*Term)))
		}
		a, b := x.ev(w.X, env, st, old), x.ev(w.Y, env, st, old)
		switch w.Op {
		case token.EQL:
			return bv(x.evEq(a, b, st))
		case token.NEQ:
			return bv(mkNot(x.evEq(a, b, st)))
		}
		if a.t == nil {
			a = x.coerce(a, b.t)
		} else if b.t == nil {
			b = x.coerce(b, a.t)
		}
		rt := a.t
		switch w.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			rt = tBool
		}
		ta, tb2 := a.t, b.t
		if ta == nil {
			ta, tb2 = tInt, tInt
		}
		x.noWrap = true // the arithmetic of specifications is mathematical
		r := x.binop(st, w.Op, a.v, b.v, ta, tb2, rt)
		x.noWrap = false
		return SV{r, rt}
	case *ast.SelectorExpr:
		return x.evSel(w, env, st, old)
	case *ast.IndexExpr:
		c := x.ev(w.X, env, st, old)
		if id, ok := w.X.(*ast.Ident); ok && c.t == nil {
			// ghost set or map
			_ = id
			k := x.ev(w.Index, env, st, old)
			t := mkSelect(c.v.(*Term), x.toLeaves(k.v, k.t)[0])
			return SV{t, sortType(t.Sort)}
		}
		i := x.ev(w.Index, env, st, old)
		switch u := types.Unalias(c.t).Underlying().(type) {
		case *types.Map:
			k := x.coerce(i, u.Key())
			v, has := x.mapGet(st, x.term(c.v), u, x.keyTerm(k.v, u.Key()))
			return SV{x.mergeVals([]*Term{has, tTrue}, []Val{v, x.zero(u.Elem())}, u.Elem()), u.Elem()}
		case *types.Slice:
			return SV{x.loadAddr(st, x.elemAddr(c.v.(*SliceV), x.term(i.v), u.Elem())), u.Elem()}
		case *types.Basic:
			return SV{mkApp("byteat", SInt, x.term(c.v), x.term(i.v)), types.Typ[types.Uint8]}
		case *types.Array:
			return SV{x.index(st, c.v, x.term(i.v), c.t, u.Elem()), u.Elem()}
		}
		fail("cannot index %s", exprStr(w.X))
	case *ast.SliceExpr:
		fail("slicing not supported")
	case *ast.CallExpr:
		return x.evCall(w, env, st, old)
	}
	fail("unsupported expression %s", exprStr(e))
	return SV{}
}

func sortType(s string) types.Type {
	switch s {
	case SBool:
		return tBool
	case SStr:
		return tStr
	case SInt:
		return tInt
	case SReal:
		return types.Typ[types.Float64]
	case SAny:
		return types.Universe.Lookup("any").Type()
	}
	return nil
}

func (x *Exec) evIdent(n string, env *Env, st *State) SV {
	switch n {
	case "true":
		return bv(tTrue)
	case "false":
		return bv(tFalse)
	case "nil":
		return SV{nil, nil}
	}
	if v, ok := env.lookup(n); ok {
		return v
	}
	if srt, ok := x.ghosts[n]; ok {
		t := x.hget(st, "X|"+n, srt)
		return SV{t, sortType(srt)}
	}
	if n == "now" {
		return SV{x.hget(st, "X|now", SInt), tInt}
	}
	if env.pkg != nil {
		if o := env.pkg.Scope().Lookup(n); o != nil {
			return x.evObj(o, st)
		}
	}
	fail("unknown name %s", n)
	return SV{}
}

func (x *Exec) evObj(o types.Object, st *State) SV {
	switch w := o.(type) {
	case *types.Const:
		t := w.Type()
		v := x.constOf(w.Val(), t)
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return SV{v, nil}
		}
		return SV{v, t}
	case *types.Var:
		name := w.Pkg().Path() + "." + w.Name()
		t := w.Type()
		if memStruct(t) {
			return SV{mk("gref", name, SInt), types.NewPointer(t)}
		}
		a := &AddrV{kind: "global", key: "G|" + name, t: t, whole: t, ls: 0, ln: len(x.leaves(t))}
		return SV{x.loadAddr(st, a), t}
	}
	fail("cannot use %s", o.Name())
	return SV{}
}

func (x *Exec) pkgNamed(n string, env *Env) *types.Package {
	if p, ok := x.specs.Alias[n]; ok {
		if tp := x.w.pkgs[p]; tp != nil {
			return tp
		}
		fail("package %s (%s) is not loaded", n, p)
	}
	if env.pkg != nil {
		for _, i := range env.pkg.Imports() {
			if i.Name() == n {
				return i
			}
		}
	}
	for _, p := range []string{n, "crypto/" + n, "encoding/" + n, "path/" + n} {
		if tp := x.w.pkgs[p]; tp != nil {
			return tp
		}
	}
	return nil
}

func (x *Exec) evSel(w *ast.SelectorExpr, env *Env, st, old *State) SV {
	if id, ok := w.X.(*ast.Ident); ok {
		_, isVar := env.lookup(id.Name)
		_, isGhost := x.ghosts[id.Name]
		if !isVar && !isGhost {
			if p := x.pkgNamed(id.Name, env); p != nil {
				o := p.Scope().Lookup(w.Sel.Name)
				if o == nil {
					fail("%s not found in %s", w.Sel.Name, p.Path())
				}
				return x.evObj(o, st)
			}
		}
	}
	b := x.ev(w.X, env, st, old)
	if b.t == nil {
		fail("selector on untyped %s", exprStr(w.X))
	}
	pkg := env.pkg
	if n, ok := derefNamed(b.t); ok && n.Obj().Pkg() != nil {
		pkg = n.Obj().Pkg()
	}
	o, idx, _ := types.LookupFieldOrMethod(b.t, true, pkg, w.Sel.Name)
	f, ok := o.(*types.Var)
	if !ok {
		fail("no field %s in %s", w.Sel.Name, b.t)
	}
	_ = f
	cur := b
	for _, i := range idx {
		cur = x.fieldOf(cur, i, st)
	}
	return cur
}

func derefNamed(t types.Type) (*types.Named, bool) {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return n, ok
}

func (x *Exec) fieldOf(b SV, i int, st *State) SV {
	if pt, ok := types.Unalias(b.t).Underlying().(*types.Pointer); ok {
		s := types.Unalias(pt.Elem()).Underlying().(*types.Struct)
		a := x.fieldAddr(b.v, pt.Elem(), i)
		return SV{x.load(st, a, s.Field(i).Type()), s.Field(i).Type()}
	}
	s := types.Unalias(b.t).Underlying().(*types.Struct)
	return SV{b.v.(*StructV).f[i], s.Field(i).Type()}
}

func (x *Exec) typeNamed(s string, env *Env) types.Type {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(x.typeNamed(s[1:], env))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(x.typeNamed(s[2:], env))
	}
	if strings.HasPrefix(s, "map[string]") {
		return types.NewMap(tStr, x.typeNamed(s[11:], env))
	}
	if i := strings.LastIndex(s, "."); i > 0 {
		p := x.pkgNamed(s[:i], env)
		if p == nil {
			fail("unknown package in type %s", s)
		}
		o := p.Scope().Lookup(s[i+1:])
		if o == nil {
			fail("unknown type %s", s)
		}
		return o.Type()
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	if env.pkg != nil {
		if o := env.pkg.Scope().Lookup(s); o != nil {
			return o.Type()
		}
	}
	fail("unknown type %s", s)
	return nil
}

func (x *Exec) evCall(w *ast.CallExpr, env *Env, st, old *State) SV {
	arg := func(i int) SV { return x.ev(w.Args[i], env, st, old) }
	boolArg := func(i int) *Term {
		v := arg(i)
		t, ok := v.v.(*Term)
		if !ok || t.Sort != SBool {
			fail("boolean expected in %s", exprStr(w.Args[i]))
		}
		return t
	}
	strArg := func(i int) *Term {
		v := arg(i)
		if sl, ok := v.v.(*SliceV); ok {
			return x.bytesOf(st, sl)
		}
		return x.term(v.v)
	}
	lit := func(i int) string {
		b, ok := w.Args[i].(*ast.BasicLit)
		if !ok {
			fail("literal expected")
		}
		s, _ := strconv.Unquote(b.Value)
		return s
	}
	if id, ok := w.Fun.(*ast.Ident); ok {
		switch id.Name {
		case "imp":
			a := boolArg(0)
			if a == tFalse {
				return bv(tTrue)
			}
			return bv(mkImp(a, boolArg(1)))
		case "iff":
			return bv(mkEq(boolArg(0), boolArg(1)))
		case "ite":
			a, b := arg(1), arg(2)
			if a.t == nil {
				a = x.coerce(a, b.t)
			}
			b = x.coerce(b, a.t)
			c := boolArg(0)
			return SV{x.mergeVals([]*Term{c, tTrue}, []Val{a.v, b.v}, a.t), a.t}
		case "old":
			return x.ev(w.Args[0], env, old, old)
		case "len":
			v := arg(0)
			if v.t == nil {
				return SV{mkStrLen(v.v.(*Term)), tInt}
			}
			return SV{x.lenOf(st, v.v, v.t), tInt}
		case "has":
			m, k := arg(0), arg(1)
			mt := types.Unalias(m.t).Underlying().(*types.Map)
			k = x.coerce(k, mt.Key())
			_, h := x.mapGet(st, x.term(m.v), mt, x.keyTerm(k.v, mt.Key()))
			return bv(h)
		case "bytes", "str":
			return SV{strArg(0), tStr}
		case "prefix":
			return bv(mkPrefix(strArg(1), strArg(0)))
		case "suffix":
			return bv(mkSuffix(strArg(1), strArg(0)))
		case "contains":
			return bv(mkContains(strArg(0), strArg(1)))
		case "is":
			return bv(errIs(x.term(arg(0).v), x.term(arg(1).v), 0))
		case "in":
			el, sl := arg(0), arg(1)
			if sl.t == nil || len(w.Args) > 2 || types.Identical(types.Unalias(sl.t).Underlying(), tStr) || !isSliceT(sl.t) {
				t := tFalse
				for i := 1; i < len(w.Args); i++ {
					t = mkOr(t, x.evEq(el, arg(i), st))
				}
				return bv(t)
			}
			et := types.Unalias(sl.t).Underlying().(*types.Slice).Elem()
			el = x.coerce(el, et)
			return bv(isInRow(x, sl.v.(*SliceV), el.v, et, st))
		case "typeis":
			v := arg(0)
			return bv(x.hasType(x.term(v.v), x.typeNamed(lit(1), env)))
		case "unbox":
			v := arg(0)
			t := x.typeNamed(lit(1), env)
			return SV{x.unbox(x.term(v.v), t), t}
		case "box":
			v := arg(0)
			return SV{x.box(v.v, v.t), types.Universe.Lookup("any").Type()}
		case "zero":
			t := x.typeNamed(lit(0), env)
			return SV{x.zero(t), t}
		case "conv":
			v := arg(0)
			t := x.typeNamed(lit(1), env)
			if v.t == nil {
				return x.coerce(v, t)
			}
			return SV{x.convert(st, v.v, v.t, t), t}
		case "as":
			v := arg(0)
			return SV{v.v, x.typeNamed(lit(1), env)}
		case "fresh_any":
			t := x.typeNamed(lit(0), env)
			return SV{x.havocVal(t, "any", tTrue, false), t}
		case "sprintf":
			var vs []Val
			for i := 1; i < len(w.Args); i++ {
				v := arg(i)
				if v.t == nil {
					v = x.coerce(v, types.Universe.Lookup("any").Type())
				}
				vs = append(vs, x.box(v.v, v.t))
			}
			t, _ := x.sprintf(mkStr(lit(0)), vs)
			return SV{t, tStr}
		case "r0", "r1", "r2", "r3", "r4":
			v := arg(0)
			i := int(id.Name[1] - '0')
			tv, ok := v.v.(*TupleV)
			if !ok {
				if i == 0 {
					return v
				}
				fail("not a tuple: %s", exprStr(w.Args[0]))
			}
			return SV{tv.v[i], v.t.(*types.Tuple).At(i).Type()}
		case "forall", "exists":
			return x.evQuant(id.Name, w, env, st, old)
		case "domsize":
			return SV{x.lenOf(st, arg(0).v, arg(0).t), tInt}
		case "string":
			v := arg(0)
			if v.t == nil {
				return v
			}
			return SV{x.convert(st, v.v, v.t, tStr), tStr}
		case "int", "int64", "float64", "uint64", "bool":
			t := types.Universe.Lookup(id.Name).Type()
			v := arg(0)
			if v.t == nil {
				return x.coerce(v, t)
			}
			return SV{x.convert(st, v.v, v.t, t), t}
		case "real":
			v := x.term(arg(0).v)
			if v.Sort == SInt {
				if v.Op == "int" {
					return x.coerce(SV{v, nil}, types.Typ[types.Float64])
				}
				return SV{mk("toreal", "", SReal, v), types.Typ[types.Float64]}
			}
			return SV{v, types.Typ[types.Float64]}
		case "isfresh":
			v := x.term(arg(0).v)
			return bv(mkBool(rootOf(v).Op == "fresh"))
		}
		if d, ok := x.specs.Defs[id.Name]; ok {
			if len(d.Params) != len(w.Args) {
				fail("%s expects %d arguments", id.Name, len(d.Params))
			}
			sub := env.sub()
			for i, p := range d.Params {
				sub.vars[p] = arg(i)
			}
			return x.ev(d.Expr, sub, st, old)
		}
		if u, ok := x.specs.UFns[id.Name]; ok {
			var as []*Term
			for i := range w.Args {
				v := arg(i)
				if sl, ok := v.v.(*SliceV); ok && isByteS(v.t) {
					as = append(as, x.bytesOf(st, sl))
					continue
				}
				if v.t == nil {
					as = append(as, v.v.(*Term))
					continue
				}
				as = append(as, x.pureLeaves(v.v, v.t, st)...)
			}
			srt := map[string]string{"bool": SBool, "int": SInt, "string": SStr, "any": SAny, "real": SReal}[u.Res]
			return SV{mkApp("ufn:"+id.Name, srt, as...), sortType(srt)}
		}
		if env.pkg != nil {
			if fn, ok := env.pkg.Scope().Lookup(id.Name).(*types.Func); ok {
				return x.specCall(fn, nil, w.Args, env, st, old)
			}
			if tn, ok := env.pkg.Scope().Lookup(id.Name).(*types.TypeName); ok {
				return x.evConv(arg(0), tn.Type(), st)
			}
		}
		if v, ok := env.lookup(id.Name); ok && v.t != nil {
			if sig, ok := types.Unalias(v.t).Underlying().(*types.Signature); ok && sig.Params().Len() == len(w.Args) && !sig.Variadic() {
				return x.specCallValue(v, sig, w.Args, env, st, old)
			}
		}
		fail("unknown function %s", id.Name)
	}
	if sel, ok := w.Fun.(*ast.SelectorExpr); ok {
		if id, ok := sel.X.(*ast.Ident); ok {
			_, isVar := env.lookup(id.Name)
			_, isGhost := x.ghosts[id.Name]
			if !isVar && !isGhost {
				if p := x.pkgNamed(id.Name, env); p != nil {
					switch o := p.Scope().Lookup(sel.Sel.Name).(type) {
					case *types.Func:
						return x.specCall(o, nil, w.Args, env, st, old)
					case *types.TypeName:
						return x.evConv(arg(0), o.Type(), st)
					}
					fail("no function %s in %s", sel.Sel.Name, p.Path())
				}
			}
		}
		b := x.ev(sel.X, env, st, old)
		if b.t == nil {
			fail("method on untyped %s", exprStr(sel.X))
		}
		pkg := env.pkg
		if n, ok := derefNamed(b.t); ok && n.Obj().Pkg() != nil {
			pkg = n.Obj().Pkg()
		}
		o, idx, _ := types.LookupFieldOrMethod(b.t, true, pkg, sel.Sel.Name)
		fn, ok := o.(*types.Func)
		if !ok {
			fail("no method %s on %s", sel.Sel.Name, b.t)
		}
		for _, i := range idx[:len(idx)-1] {
			b = x.fieldOf(b, i, st)
		}
		return x.specCall(fn, &b, w.Args, env, st, old)
	}
	fail("unsupported call %s", exprStr(w))
	return SV{}
}

func (x *Exec) evConv(v SV, t types.Type, st *State) SV {
	if v.t == nil {
		return x.coerce(v, t)
	}
	return SV{x.convert(st, v.v, v.t, t), t}
}

func (x *Exec) specCall(fn *types.Func, recv *SV, argE []ast.Expr, env *Env, st, old *State) SV {
	sig := fn.Type().(*types.Signature)
	st0 := st
	var args []Val
	var ats []types.Type
	if recv != nil {
		r := *recv
		rt := sig.Recv().Type()
		_, wantP := types.Unalias(rt).Underlying().(*types.Pointer)
		_, haveP := types.Unalias(r.t).Underlying().(*types.Pointer)
		if !wantP && haveP && !types.IsInterface(rt) {
			r = SV{x.load(st, r.v, derefT(r.t)), derefT(r.t)}
		}
		args, ats = append(args, r.v), append(ats, r.t)
	}
	np := sig.Params().Len()
	for i := 0; i < np; i++ {
		pt := sig.Params().At(i).Type()
		if sig.Variadic() && i == np-1 && len(argE) >= np-1 {
			et := pt.(*types.Slice).Elem()
			s := &SliceV{tZero, tZero, tZero}
			if len(argE) > i {
				r := freshRef()
				ns := st.clone()
				rows := make([]*Term, len(x.leaves(et)))
				for k, l := range x.leaves(et) {
					rows[k] = mkConstArr(arr(l.Sort), zeroOf(l.Sort))
				}
				for k := i; k < len(argE); k++ {
					v := x.coerce(x.ev(argE[k], env, st, old), et)
					for q, l := range x.toLeaves(v.v, et) {
						rows[q] = mkStore(rows[q], mkInt(int64(k-i)), l)
					}
				}
				x.setRows(ns, r, et, rows)
				st = ns
				s = &SliceV{r, tZero, mkInt(int64(len(argE) - i))}
			}
			args, ats = append(args, s), append(ats, pt)
			break
		}
		if i >= len(argE) {
			fail("too few arguments for %s", fn.Name())
		}
		v := x.coerce(x.ev(argE[i], env, st, old), pt)
		args, ats = append(args, v.v), append(ats, pt)
	}
	ci := &callInfo{args: args, ats: ats, sig: sig, res: sig.Results(), variad: sig.Variadic()}
	mark := tb.symN
	s := st.clone()
	s.g = tTrue
	var v Val
	var ns *State
	if recv != nil && types.IsInterface(ats[0]) {
		v, ns = x.invoke(x.term(args[0]), ats[0], fn, ci, s)
	} else if sf := x.prog.FuncValue(fn); sf != nil {
		v, ns = x.callStatic(&FuncV{fn: sf}, ci, s)
	} else {
		ci.key = fn.FullName()
		v, ns = x.finish(ci, nil, s)
	}
	if ns == nil {
		fail("specification call of %s never returns", fn.Name())
	}
	if x.quantDepth == 0 {
		keepFresh(st0, ns, mark)
	}
	if ci.res.Len() == 1 {
		return SV{v, ci.res.At(0).Type()}
	}
	return SV{v, ci.res}
}

// specCallValue calls a function value
func (x *Exec) specCallValue(f SV, sig *types.Signature, argE []ast.Expr, env *Env, st, old *State) SV {
	ci := &callInfo{sig: sig, res: sig.Results()}
	for i, e := range argE {
		pt := sig.Params().At(i).Type()
		ci.args, ci.ats = append(ci.args, x.coerce(x.ev(e, env, st, old), pt).v), append(ci.ats, pt)
	}
	s := st.clone()
	s.g = tTrue
	v, ns := x.callFn(f.v, ci, s)
	if ns == nil {
		fail("specification call of a function value never returns")
	}
	if ci.res.Len() == 1 {
		return SV{v, ci.res.At(0).Type()}
	}
	return SV{v, ci.res}
}

// keepFresh makes objects a specification call allocated visible in the state it was evaluated in
func keepFresh(st, ns *State, mark int) {
	for k, t := range ns.h {
		o, ok := st.h[k]
		if ok && o == t || strings.HasPrefix(k, "X|") {
			continue
		}
		var lay []*Term
		for t.Op == "store" {
			if r := t.Args[1]; r.Op == "fresh" && tb.symIdx["f:"+r.S] > mark {
				lay = append(lay, t)
			}
			t = t.Args[0]
		}
		if len(lay) == 0 {
			continue
		}
		if !ok {
			if t.Op != "var" {
				continue
			}
			o = t
		}
		for i := len(lay) - 1; i >= 0; i-- {
			o = mkStore(o, lay[i].Args[1], lay[i].Args[2])
		}
		st.h[k] = o
	}
}

func (x *Exec) evQuant(q string, w *ast.CallExpr, env *Env, st, old *State) SV {
	sub := env.sub()
	n := w.Args[0].(*ast.Ident).Name
	var b *Term
	var dom *Term
	var body ast.Expr
	if len(w.Args) == 4 { // forall(i, lo, hi, e)
		b = mkBV(n, SInt)
		sub.vars[n] = SV{b, tInt}
		lo, hi := x.term(x.ev(w.Args[1], env, st, old).v), x.term(x.ev(w.Args[2], env, st, old).v)
		dom = mkAnd(mkLe(lo, b), mkLt(b, hi))
		body = w.Args[3]
	} else { // forall(k, "type", e)
		t := x.typeNamed(strLit(w.Args[1]), env)
		ls := x.leaves(t)
		if len(ls) != 1 {
			fail("cannot quantify over %s", t)
		}
		b = mkBV(n, ls[0].Sort)
		sub.vars[n] = SV{b, t}
		dom = tTrue
		body = w.Args[2]
	}
	na := len(x.assumes)
	mark := tb.symN
	x.quantDepth++
	e := x.ev(body, sub, st, old).v.(*Term)
	x.quantDepth--
	for i := na; i < len(x.assumes); i++ {
		if a := x.assumes[i]; len(a.bvs) > 0 {
			x.assumes[i] = mkQuant("forall", a.bvs, a)
		}
	}
	if mentionsAfter(e, mark, map[int]bool{}) {
		bad := ""
		visit(e, map[int]bool{}, func(u *Term) {
			if createdAfter(u, mark) {
				bad += " " + u.S
			}
		})
		fail("quantified expression depends on values made by its evaluation:%s", bad)
	}
	if q == "forall" {
		return bv(mkQuant("forall", []*Term{b}, mkImp(dom, e)))
	}
	return bv(mkQuant("exists", []*Term{b}, mkAnd(dom, e)))
}

func isSliceT(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Slice)
	return ok
}

func strLit(e ast.Expr) string {
	switch w := e.(type) {
	case *ast.BasicLit:
		s, _ := strconv.Unquote(w.Value)
		return s
	case *ast.Ident:
		return w.Name
	}
	fail("literal expected")
	return ""
}

// ---------- hooks and contracts ----------

func (x *Exec) hookFor(keys ...string) []*Hook {
	if x.specDepth > 0 {
		return nil
	}
	var out []*Hook
	for _, h := range x.unit.Hooks {
		for _, k := range keys {
			if globMatch(h.Pat, k) {
				out = append(out, h)
				break
			}
		}
	}
	return out
}

func (x *Exec) hit(key string) {}

// otherArity: a hook on function values is about those with as many parameters as it names
func otherArity(h *Hook, ci *callInfo) bool {
	return strings.HasPrefix(ci.key, "dynamic") && strings.HasPrefix(h.Pat, "dynamic:*") && len(h.Params) != len(ci.args)
}

func (x *Exec) runHook(h *Hook, ci *callInfo, res Val, st *State) *State {
	if otherArity(h, ci) {
		return st
	}
	env := x.unitEnv.sub()
	for i, p := range h.Params {
		if p != "_" && i < len(ci.args) {
			env.vars[p] = SV{ci.args[i], ci.ats[i]}
		}
	}
	for i, r := range h.Results {
		if r == "_" {
			continue
		}
		if ci.res.Len() == 1 {
			env.vars[r] = SV{res, ci.res.At(0).Type()}
		} else if tv, ok := res.(*TupleV); ok && i < len(tv.v) {
			env.vars[r] = SV{tv.v[i], ci.res.At(i).Type()}
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				panic(specErr{fmt.Sprintf("%s: %s (in %q)", h.Pos, s.msg, h.Src)})
			}
			panic(r)
		}
	}()
	switch h.Kind {
	case "assert":
		if x.dry > 0 {
			return st
		}
		h.Hits++
		t := x.boolOf(h.Expr, env, st)
		x.oblige(fmt.Sprintf("%s (at call of %s)", nz(h.Name, h.Src), shortKey(ci.key)), "oncall", st.g, t, ci.pos)
		h.Guards = append(h.Guards, st.g)
		x.hookAssume = append(x.hookAssume, len(x.assumes))
		x.covered = append(x.covered, &Cover{Name: "reach:" + h.Pos, F: st.g, NAssum: len(x.assumes)})
	case "set":
		h.Hits++
		v := x.evalTop(h.Expr, env, st)
		ns := st.clone()
		srt := x.ghosts[h.LHS]
		if srt == "" {
			fail("%s is not a ghost variable", h.LHS)
		}
		if h.LHSArg != nil {
			k := x.evalTop(h.LHSArg, env, st)
			a := x.hget(ns, "X|"+h.LHS, srt)
			x.hset(ns, "X|"+h.LHS, mkStore(a, x.toLeaves(k.v, k.t)[0], x.ghostTerm(v, arrRange(srt))))
			return ns
		}
		x.hset(ns, "X|"+h.LHS, x.ghostTerm(v, srt))
		return ns
	case "assume":
		x.assume(st.g, x.boolOf(h.Expr, env, st))
		x.trust("assumption at "+ci.key+": "+h.Src, "assumed")
	}
	return st
}

func (x *Exec) ghostTerm(v SV, srt string) *Term {
	if v.v == nil {
		return zeroOf(srt)
	}
	if sl, ok := v.v.(*SliceV); ok {
		if srt == SInt {
			return sl.ref
		}
		fail("slice stored in ghost; use str()")
	}
	t := x.term(v.v)
	if t.Sort != srt {
		if srt == SAny && v.t != nil {
			return x.box(v.v, v.t)
		}
		fail("ghost sort mismatch %s vs %s", t.Sort, srt)
	}
	return t
}

func (x *Exec) boolOf(e ast.Expr, env *Env, st *State) *Term {
	v := x.evalTop(e, env, st)
	t, ok := v.v.(*Term)
	if !ok || t.Sort != SBool {
		fail("boolean expected")
	}
	return t
}

func (x *Exec) evalTop(e ast.Expr, env *Env, st *State) SV { return x.eval(e, env, st, x.entry) }

func (x *Exec) contractEnv(c *Contract, ci *callInfo) *Env {
	env := &Env{x: x, vars: map[string]SV{}, pkg: x.w.pkgs[c.Pkg]}
	i := 0
	if c.Recv != "" {
		if c.RecvName != "" && len(ci.args) > 0 {
			env.vars[c.RecvName] = SV{ci.args[0], ci.ats[0]}
		}
		i = 1
	}
	for k, p := range c.Params {
		if i+k < len(ci.args) && p != "_" {
			env.vars[p] = SV{ci.args[i+k], ci.ats[i+k]}
		}
	}
	return env
}

func (x *Exec) bindResults(c *Contract, env *Env, res Val, ci *callInfo) {
	for i, r := range c.Results {
		if r == "_" || i >= ci.res.Len() {
			continue
		}
		t := ci.res.At(i).Type()
		if ci.res.Len() == 1 {
			env.vars[r] = SV{res, t}
		} else {
			env.vars[r] = SV{res.(*TupleV).v[i], t}
		}
	}
}

// havocLoc makes a location arbitrary: p.f, p.*, *p, m[*], ghost names
func (x *Exec) havocLoc(loc string, env *Env, st, pre *State) {
	if srt, ok := x.ghosts[loc]; ok {
		x.hset(st, "X|"+loc, freshVar(loc, srt))
		return
	}
	if strings.HasPrefix(loc, "X|") {
		return
	}
	if strings.HasSuffix(loc, ".*") || strings.HasPrefix(loc, "*") {
		b := x.eval(parseE(strings.TrimSuffix(strings.TrimPrefix(loc, "*"), ".*"), "modifies"), env, pre, pre)
		x.havocArg(st, b.v, b.t, 0)
		return
	}
	if strings.HasSuffix(loc, "[*]") {
		b := x.eval(parseE(strings.TrimSuffix(loc, "[*]"), "modifies"), env, pre, pre)
		if sl, ok := b.v.(*SliceV); ok {
			et := types.Unalias(b.t).Underlying().(*types.Slice).Elem()
			var rows []*Term
			for _, l := range x.leaves(et) {
				rows = append(rows, freshVar("hrow", arr(l.Sort)))
			}
			x.setRows(st, sl.ref, et, rows)
			return
		}
		x.havocArg(st, b.v, b.t, 0)
		return
	}
	e := parseE(loc, "modifies").(*ast.SelectorExpr)
	b := x.eval(e.X, env, pre, pre)
	pt := derefT(b.t)
	s := types.Unalias(pt).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == e.Sel.Name {
			x.store(st, x.fieldAddr(b.v, pt, i), s.Field(i).Type(), x.havocVal(s.Field(i).Type(), "mod."+e.Sel.Name, st.g, false))
			return
		}
	}
	fail("modifies: no field %s", e.Sel.Name)
}

var _ = sort.Strings

// canon rewrites interface method keys to the interface that declares the method, the
// form under which calls of embedded interface methods are known
func (db *SpecDB) canon(w *World) {
	ren := func(k string) string {
		m := ifKeyRe.FindStringSubmatch(k)
		if m == nil || w.pkgs[m[1]] == nil {
			return k
		}
		o := w.pkgs[m[1]].Scope().Lookup(m[2])
		if o == nil {
			return k
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			return k
		}
		for i := 0; i < it.NumMethods(); i++ {
			if f := it.Method(i); f.Name() == m[3] {
				return f.FullName()
			}
		}
		return k
	}
	for i, p := range db.Pure {
		db.Pure[i] = ren(p)
	}
	ex := map[string]*Contract{}
	for k, c := range db.Externs {
		c.Key = ren(k)
		ex[c.Key] = c
	}
	db.Externs = ex
	for _, u := range append(append([]*Contract{}, db.Verifs...), db.Globs...) {
		for _, h := range u.Hooks {
			h.Pat = ren(h.Pat)
		}
	}
}

var ifKeyRe = regexp.MustCompile(`^\(([^*()]+)\.(\w+)\)\.(\w+)$`)
