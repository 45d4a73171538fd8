package main

// Lock discipline: every function that takes or releases a lock, itself or through the functions it calls,
// becomes a unit of its own.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func isLockOp(key string) bool {
	for _, t := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
		if m, ok := strings.CutPrefix(key, t); ok {
			switch m {
			case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
				return true
			}
		}
	}
	return false
}

// lockers are the functions that take or release locks, directly or through calls that are known statically
func (w *World) lockers() map[*ssa.Function]bool {
	if w.lock != nil {
		return w.lock
	}
	w.lock = map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	var todo []*ssa.Function
	add := func(f *ssa.Function) {
		if !w.lock[f] {
			w.lock[f] = true
			todo = append(todo, f)
		}
	}
	for f := range ssautil.AllFunctions(w.prog) {
		if !strings.HasPrefix(fnPkgPath(f), repoPath) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						if isLockOp(g.String()) {
							add(f)
						}
						callers[g] = append(callers[g], f)
					}
				}
				if m, ok := in.(*ssa.MakeClosure); ok {
					if g, ok := m.Fn.(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, c := range callers[f] {
			add(c)
		}
	}
	return w.lock
}

func mutexPlace(v ssa.Value) string {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		t := types.Unalias(a.X.Type()).Underlying().(*types.Pointer).Elem()
		return "mutex of " + structKey(t) + "|" + types.Unalias(t).Underlying().(*types.Struct).Field(a.Field).Name()
	case *ssa.Global:
		return "mutex " + a.String()
	}
	return "*"
}

func isMutexPtr(t types.Type) bool {
	n, ok := derefNamed(t)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// sharedMutex finds the places that hold a reference to a mutex other than one newly made for them
func (w *World) sharedMutex() map[string]bool {
	if w.shared != nil {
		return w.shared
	}
	w.shared = map[string]bool{}
	for f := range ssautil.AllFunctions(w.prog) {
		if !strings.HasPrefix(fnPkgPath(f), repoPath) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || !isMutexPtr(s.Val.Type()) {
					continue
				}
				switch s.Addr.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					continue // a local variable
				}
				if a, ok := s.Val.(*ssa.Alloc); ok && a.Heap && len(*a.Referrers()) == 1 {
					continue
				}
				if c, ok := s.Val.(*ssa.Const); ok && c.IsNil() {
					continue
				}
				w.shared[mutexPlace(s.Addr)] = true
			}
		}
	}
	return w.shared
}

// onlyCalled: the closure is only called or deferred where it is made, so it is verified there
func onlyCalled(f *ssa.Function) bool {
	p := f.Parent()
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if m, ok := v.(*ssa.MakeClosure); ok {
					v = m.Fn
				}
				if v != f {
					continue
				}
				switch c := in.(type) {
				case *ssa.Call:
					if c.Call.StaticCallee() == f {
						continue
					}
				case *ssa.Defer:
					if c.Call.StaticCallee() == f {
						continue
					}
				case *ssa.MakeClosure:
					continue
				}
				return false
			}
		}
	}
	return true
}

// lockHelper: an unexported function that only takes, or only releases, locks for its callers. When every use of it
// is a direct call it is verified as part of each of those callers.
func (w *World) lockHelper(f *ssa.Function) bool {
	if f.Parent() != nil || token.IsExported(f.Name()) {
		return false
	}
	takes, gives := false, false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && isLockOp(g.String()) {
					if strings.HasSuffix(g.Name(), "Unlock") {
						gives = true
					} else {
						takes = true
					}
				}
			}
		}
	}
	if takes == gives {
		return false
	}
	if f.Signature.Recv() != nil {
		for g := range ssautil.AllFunctions(w.prog) {
			if g.Pkg != f.Pkg {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == f.Name() {
						return false
					}
				}
			}
		}
	}
	uses := 0
	for g := range ssautil.AllFunctions(w.prog) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != f {
						continue
					}
					c, ok := in.(ssa.CallInstruction)
					if _, isGo := in.(*ssa.Go); !ok || isGo || c.Common().Value != f || g == f || g.Synthetic != "" {
						return false
					}
					uses++
				}
			}
		}
	}
	return uses > 0
}

func (w *World) sweep(pkgs, except []string, prop string) (out []*Contract) {
	in := map[string]bool{}
	for _, p := range pkgs {
		in[p] = true
	}
	if len(in) == 0 {
		return nil
	}
	for f := range w.lockers() {
		if f.Pkg == nil || !in[f.Pkg.Pkg.Path()] || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		if f.Parent() != nil && onlyCalled(f) {
			continue
		}
		if w.lockHelper(f) {
			continue
		}
		skip := false
		for _, e := range except {
			skip = skip || globMatch(e, fnKey(f))
		}
		if skip {
			continue
		}
		out = append(out, &Contract{Kind: "verify", Prop: prop, Pkg: f.Pkg.Pkg.Path(), Fn: f.Name(), Key: fnKey(f), Locks: true, Sweep: true, fn: f, Pos: w.fset.Position(f.Pos()).String()})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return out
}
