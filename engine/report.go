package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type harnessCfg struct {
	Pkg     string   `json:"pkg"`     // package directory below /repo
	Files   []string `json:"files"`   // test files to overlay
	Run     string   `json:"run"`     // test name
	Seconds int      `json:"seconds"` // time limit
	Env     []string `json:"env"`
}

type harnessInfo struct {
	Ran    bool
	Failed bool
	Output string
	Cmd    string
	Secs   float64
}

func seed() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

// replay runs the property's executable oracle against the real code
func replay(prop, tier, dir string) harnessInfo {
	cfgs, _ := filepath.Glob(filepath.Join(dir, prop, "*.json"))
	var out harnessInfo
	for _, cf := range cfgs {
		raw, err := os.ReadFile(cf)
		if err != nil {
			continue
		}
		var h harnessCfg
		if json.Unmarshal(raw, &h) != nil {
			continue
		}
		ov := map[string]map[string]string{"Replace": {}}
		for _, f := range h.Files {
			b := strings.TrimSuffix(f, ".src")
			ov["Replace"][filepath.Join(repoDir, h.Pkg, b)] = filepath.Join(dir, prop, f)
		}
		tmp, _ := os.MkdirTemp("", "verif-harness")
		defer os.RemoveAll(tmp)
		ovf := filepath.Join(tmp, "overlay.json")
		ob, _ := json.Marshal(ov)
		os.WriteFile(ovf, ob, 0644)
		lim := h.Seconds
		if lim == 0 {
			lim = 120
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(lim+120)*time.Second)
		defer cancel()
		args := []string{"test", "-vet=off", "-count=1", "-overlay", ovf, "-timeout", fmt.Sprintf("%ds", lim), "-run", "^" + h.Run + "$", "./" + h.Pkg}
		cmd := exec.CommandContext(ctx, "go", args...)
		cmd.Dir = repoDir
		cmd.Env = append(os.Environ(), "MCOLLECTIVE_CERTNAME=rip.mcollective", "VERIF_SEED="+fmt.Sprint(seed()), "VERIF_TIER="+tier, "VERIF_SCRATCH="+tmp)
		cmd.Env = append(cmd.Env, h.Env...)
		var b bytes.Buffer
		cmd.Stdout, cmd.Stderr = &b, &b
		st := time.Now()
		err = cmd.Run()
		out.Ran = true
		out.Secs += time.Since(st).Seconds()
		out.Cmd = "go " + strings.Join(args, " ")
		o := b.String()
		if err != nil && strings.Contains(o, "FAILING INPUT") {
			out.Failed = true
			out.Output = o
			return out
		}
		if err != nil {
			out.Output += "harness did not give an answer: " + err.Error() + "\n" + tail(o, 4000)
		}
	}
	return out
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type knownFinding struct {
	Prop, Obl, Text string
}

// known findings: "known: property=<id> obligation=<substring of unit: obligation> :: <what fails>"
func loadKnown() []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile("/verif/known_findings")
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		r := strings.TrimPrefix(l, "known: property=")
		parts := strings.SplitN(r, " :: ", 2)
		f := strings.SplitN(parts[0], " obligation=", 2)
		if len(parts) == 2 && len(f) == 2 {
			out = append(out, knownFinding{strings.TrimSpace(f[0]), strings.TrimSpace(f[1]), parts[1]})
		}
	}
	return out
}

func conclude(prop, tier string, rep *Report, harness string) (int, harnessInfo) {
	var hi harnessInfo
	known := loadKnown()
	var left []Finding
	for _, f := range rep.findings {
		hit := false
		for _, k := range known {
			if k.Prop == prop && k.Obl == f.Unit+": "+f.Obl {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Text)
				hit = true
			}
		}
		if !hit {
			left = append(left, f)
		}
	}
	if len(left) == 0 && tier != "thorough" {
		return 0, hi
	}
	hi = replay(prop, tier, harness)
	if len(left) == 0 && !hi.Failed {
		return 0, hi
	}
	dir := os.Getenv("VERIF_REPLAY_DIR")
	if dir == "" {
		dir = "/tmp/verif-replay"
	}
	os.MkdirAll(dir, 0755)
	f := filepath.Join(dir, prop+".txt")
	var b bytes.Buffer
	for _, l := range left {
		fmt.Fprintf(&b, "obligation: %s: %s\n  kind: %s\n  at: %s in %s\n  verdict: %s\n", l.Unit, l.Obl, l.Kind, l.Pos, l.Fn, l.Verdict)
	}
	if hi.Failed {
		fmt.Fprintf(&b, "\nreplayed on the real code with: %s\n%s\n", hi.Cmd, tail(hi.Output, 20000))
	} else if hi.Ran {
		fmt.Fprintf(&b, "\nno failing input found by: %s\n%s\n", hi.Cmd, tail(hi.Output, 4000))
	}
	for _, l := range left {
		fmt.Fprintf(&b, "\n==== verifier output for %s: %s\n%s\n", l.Unit, l.Obl, tail(l.Raw, 30000))
	}
	os.WriteFile(f, b.Bytes(), 0644)
	if hi.Failed {
		for _, l := range strings.Split(hi.Output, "\n") {
			if strings.Contains(l, "FAILING INPUT") {
				fmt.Println(strings.TrimSpace(l))
				break
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, f)
	}
	return 1, hi
}

func evidence(prop, tier string, rep *Report, viol int, hi harnessInfo, wall float64) map[string]any {
	assume := []string{
		"machine integers are mathematical integers bounded on input; overflow in intermediate results is not modelled",
		"append and slicing behave as copies: aliasing between a slice and a later append to its backing array is not modelled; slices found in the initial state start at offset zero of their own backing array",
		"calls that leave the repository do not modify repository memory except directly behind the pointers and maps they are given",
		"code runs to a panic or normally; concurrent modification of the verified function's memory by other goroutines is not modelled",
		"go/ssa and go/types translate the Go source faithfully; the condition generator in /verif/engine and the SMT solvers are trusted",
	}
	for k := range rep.notes {
		assume = append(assume, "abstraction: "+k)
	}
	tb := keysOf(rep.trusted)
	level := "proof"
	cov := map[string]any{
		"obligations": rep.total, "discharged": rep.discharged,
		"checker_cmd":              fmt.Sprintf("/verif/bin/vcgen -prop %s -tier %s", prop, tier),
		"trusted_base":             tb,
		"explanation":              fmt.Sprintf("%d contracts on real functions of /repo; %d repository functions executed symbolically through them; every obligation is generated from the current source by way of go/ssa and must be unsat for an SMT solver", len(rep.units), len(rep.inlined)),
		"functions_under_contract": rep.units,
		"functions_inlined":        keysOf(rep.inlined),
		"obligation_kinds":         rep.kinds,
		"backends":                 rep.byBackend,
		"solver_seconds":           float64(solverSecs) / 1000,
		"solver_runs":              solverRuns,
		"slowest_obligation_s":     rep.maxSecs,
		"vacuity_checks":           rep.covers,
	}
	if hi.Ran {
		cov["replay_harness"] = map[string]any{"cmd": hi.Cmd, "failed": hi.Failed, "seconds": hi.Secs}
	}
	return map[string]any{"property": prop, "tier": tier, "seed": seed(), "level": level, "coverage": cov, "assumptions": assume, "wall_s": wall, "violations": viol}
}
