package main

// Case splitting of obligations the solvers do not settle in one piece.

import (
	"fmt"
	"os"
	"strings"
	"time"
)

// splitGoal lists formulas whose conjunction is the goal
func splitGoal(g *Term, depth int) []*Term {
	if depth > 4 {
		return []*Term{g}
	}
	switch g.Op {
	case "and":
		var out []*Term
		for _, a := range g.Args {
			out = append(out, splitGoal(a, depth+1)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, b := range splitGoal(g.Args[1], depth+1) {
			out = append(out, mkImp(g.Args[0], b))
		}
		return out
	case "or":
		// a disjunction with one conjunctive part distributes
		for i, d := range g.Args {
			if d.Op == "and" && len(d.Args) <= 12 {
				var rest []*Term
				rest = append(rest, g.Args[:i]...)
				rest = append(rest, g.Args[i+1:]...)
				var out []*Term
				for _, c := range d.Args {
					out = append(out, splitGoal(mkOr(append([]*Term{c}, rest...)...), depth+1)...)
				}
				if len(out) <= 40 {
					return out
				}
			}
		}
	case "forall":
		n := len(g.Args) - 1
		ps := splitGoal(g.Args[n], depth+1)
		if len(ps) > 1 {
			var out []*Term
			for _, p := range ps {
				out = append(out, mkQuant("forall", g.Args[:n], p))
			}
			return out
		}
	case "ite":
		if g.Sort == SBool {
			return append(splitGoal(mkImp(g.Args[0], g.Args[1]), depth+1), splitGoal(mkImp(mkNot(g.Args[0]), g.Args[2]), depth+1)...)
		}
	}
	return []*Term{g}
}

// splitCases lists formulas whose disjunction is the guard, at most max of them
func splitCases(g *Term, max int) []*Term {
	cases := []*Term{g}
	for len(cases) < max {
		best := -1
		var bd []*Term
		var bc *Term
		for i, c := range cases {
			for _, p := range conjs(c) {
				if p.Op == "or" && len(p.Args) >= 2 && len(p.Args) <= 8 && (best < 0 || len(p.Args) > len(bd)) {
					best, bd, bc = i, p.Args, p
				}
			}
		}
		if best < 0 {
			break
		}
		var rest []*Term
		for _, p := range conjs(cases[best]) {
			if p != bc {
				rest = append(rest, p)
			}
		}
		var repl []*Term
		for _, d := range bd {
			c := mkAnd(append(append([]*Term{}, rest...), d)...)
			if c != tFalse {
				repl = append(repl, c)
			}
		}
		cases = append(append(append([]*Term{}, cases[:best]...), repl...), cases[best+1:]...)
	}
	return cases
}

// propagate substitutes literals that stand alone into the other formulas until nothing changes
func propagate(fs []*Term) []*Term {
	for round := 0; round < 4; round++ {
		lits := map[int]*Term{}
		for _, f := range fs {
			switch {
			case f.Op == "not":
				if lits[f.Args[0].ID] == nil {
					lits[f.Args[0].ID] = tFalse
				}
			case f.Op == "=" && len(f.bvs) == 0:
				lits[f.ID] = tTrue
			case f.Op != "and" && f.Op != "or" && f.Op != "=>" && f.Op != "forall" && f.Op != "exists" && f.Op != "true" && f.Op != "false":
				lits[f.ID] = tTrue
			}
		}
		memo := map[int]*Term{}
		var out []*Term
		changed := false
		seen := map[int]bool{}
		for _, f := range fs {
			isLit := lits[f.ID] != nil || f.Op == "not" && lits[f.Args[0].ID] != nil
			g := f
			if !isLit {
				g = mapTerm(f, func(t *Term) *Term {
					if t.Sort == SBool {
						if r, ok := lits[t.ID]; ok {
							return r
						}
					}
					return nil
				}, memo)
			} else if f.Op == "not" && lits[f.Args[0].ID] == tTrue {
				return []*Term{tFalse}
			}
			if g != f {
				changed = true
			}
			for _, c := range conjs(g) {
				if c == tFalse {
					return []*Term{tFalse}
				}
				if c != tTrue && !seen[c.ID] {
					seen[c.ID] = true
					out = append(out, c)
				}
			}
		}
		fs = out
		if !changed {
			break
		}
	}
	return fs
}

func hasFalse(fs []*Term) bool {
	for _, f := range fs {
		if f == tFalse {
			return true
		}
	}
	return false
}

// prove discharges an obligation: in one piece, by parts of the goal, then by cases of the path condition
func prove(x *Exec, o *Obl, name string, to time.Duration) solveRes {
	emitMu.Lock()
	whole := propagate(premises(x, o.NAssum, o.Guard, mkNot(o.Goal)))
	goals := splitGoal(o.Goal, 0)
	cases := splitCases(o.Guard, 12)
	emitMu.Unlock()
	if g := os.Getenv("VC_GOAL"); g != "" && strings.Contains(o.Name, g) {
		fmt.Fprintln(os.Stderr, "GOAL", o.Name, "\n  guard", o.Guard)
		for _, p := range goals {
			fmt.Fprintln(os.Stderr, "   part", p)
		}
	}
	parts := len(goals) * len(cases)
	if parts <= 1 {
		return solve(whole, name, to, true)
	}
	first := to / 3
	r := solve(whole, name, first, true)
	if r.Verdict == "unsat" || r.Verdict == "sat" {
		return r
	}
	total := r.Secs
	backend := map[string]bool{}
	dead := time.Now().Add(3 * to)
	for i, g := range goals {
		emitMu.Lock()
		fs := propagate(premises(x, o.NAssum, o.Guard, mkNot(g)))
		emitMu.Unlock()
		if len(goals) > 1 {
			s := solve(fs, fmt.Sprintf("%s_g%d", name, i), first, true)
			total += s.Secs
			if s.Verdict == "unsat" {
				backend[s.Backend] = true
				continue
			}
			if s.Verdict == "sat" || len(cases) == 1 {
				if s.Verdict != "sat" {
					s = solve(fs, fmt.Sprintf("%s_g%d", name, i), to, true)
					if s.Verdict == "unsat" {
						backend[s.Backend] = true
						continue
					}
				}
				return s
			}
		}
		for k, c := range cases {
			if time.Now().After(dead) {
				return solveRes{Verdict: "unknown", Raw: fmt.Sprintf("out of time while splitting cases (goal %d case %d)", i, k)}
			}
			emitMu.Lock()
			fs := propagate(premises(x, o.NAssum, c, mkNot(g)))
			emitMu.Unlock()
			s := solve(fs, fmt.Sprintf("%s_g%dc%d", name, i, k), to, true)
			total += s.Secs
			if s.Verdict != "unsat" {
				return s
			}
			backend[s.Backend] = true
		}
	}
	var bs []string
	for b := range backend {
		bs = append(bs, b)
	}
	b := "cases"
	if len(bs) == 1 {
		b = bs[0] + "+cases"
	} else if len(bs) > 1 {
		b = strings.Split(bs[0], "/")[0] + "+cases"
	}
	return solveRes{Verdict: "unsat", Backend: b, Secs: total}
}
