package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// runCheck decides one property: it discharges every obligation generated
// from the current source, runs the replay harness of the property against
// the compiled code, writes the evidence file and reports.
func runCheck(ss *SpecSet, repo, verif, prop, tier string, limit int, verbose bool) int {
	t0 := time.Now()
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	work := filepath.Join(verif, "work")
	os.MkdirAll(work, 0o755)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)

	var failed []failure
	var p *propRun
	// the harness is compiled and run while the verifier works
	hctx, hcancel := context.WithTimeout(context.Background(), 700*time.Second)
	defer hcancel()
	hch := make(chan *harnessResult, 1)
	go func() { hch <- runHarness(hctx, repo, verif, prop, tier, seed) }()

	w, err := LoadWorld(repo)
	if err != nil {
		die("cannot load %s: %v", repo, err)
	}
	dir, _ := os.MkdirTemp("", "vcg")
	defer os.RemoveAll(dir)
	p = &propRun{prop: prop, w: w, ss: ss, funcs: w.repoFuncs()}
	if limit == 0 {
		limit = 240
		if tier == "thorough" {
			limit = 900
		}
	}
	p.run(dir, time.Duration(limit)*time.Second, verbose, 8)
	failed = p.failures()
	h := <-hch

	for _, r := range p.results {
		fmt.Println(r.summary())
	}
	for _, n := range p.notes {
		fmt.Println("note:", n)
	}
	if h.Ran {
		fmt.Printf("replay harness (bounded validation of the assumed contracts, not counted as proof): %d cases, %d failing\n", h.Cases, len(h.Fails))
	} else {
		fmt.Println("replay harness:", h.Note)
	}

	known := loadKnown(verif, prop)
	var fresh []map[string]any
	seenK := map[string]bool{}
	for _, f := range h.Fails {
		id, _ := f["case"].(string)
		if k, ok := known[id]; ok {
			if !seenK[id] {
				seenK[id] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			}
			continue
		}
		fresh = append(fresh, f)
	}

	viol := 0
	if len(failed) > 0 || len(fresh) > 0 {
		viol = 1
		rep := map[string]any{
			"property": prop, "seed": seed, "tier": tier,
			"failed_obligations": failed,
			"failing_inputs":     fresh,
			"replay_cmd":         fmt.Sprintf("cd %s && VERIF_SEED=%d VERIF_TIER=%s ./bin/vcg replay -prop %s", verif, seed, tier, prop),
			"harness_output":     tailStr(h.Output, 6000),
		}
		path := filepath.Join(work, "replay-"+prop+".json")
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(path, b, 0o644)
		for _, f := range failed {
			fmt.Printf("failed obligation: %s at %s: %s\n   path: %s\n   solver: %s\n", f.Obl, f.Pos, f.What, tailStr(strings.Join(f.Path, " "), 400), f.Why)
		}
		for i, f := range fresh {
			if i < 5 {
				b, _ := json.Marshal(f)
				fmt.Printf("failing input: %s\n", tailStr(string(b), 800))
			}
		}
		if len(fresh) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
		}
	}
	writeEvidence(p, h, verif, prop, tier, seed, failed, viol, time.Since(t0))
	if viol > 0 {
		return 1
	}
	return 0
}

func tailStr(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return "..." + s[len(s)-n:]
}

// ---- replay harness ----

type harnessResult struct {
	Ran      bool
	Cases    int
	Distinct int
	Fails    []map[string]any
	Samples  []any
	Note     string
	Output   string
	Rule     string
}

func runHarness(ctx context.Context, repo, verif, prop, tier string, seed int) *harnessResult {
	h := &harnessResult{}
	src := filepath.Join(verif, "replay")
	ents, err := os.ReadDir(src)
	if err != nil {
		h.Note = "no replay harness"
		return h
	}
	have := false
	repl := map[string]string{}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		repl[filepath.Join(repo, "metadata", "zzverif", e.Name())] = filepath.Join(src, e.Name())
		b, _ := os.ReadFile(filepath.Join(src, e.Name()))
		if bytes.Contains(b, []byte("func Test"+prop+"(")) {
			have = true
		}
	}
	if !have {
		h.Note = "no replay harness for this property"
		return h
	}
	tmp, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		h.Note = err.Error()
		return h
	}
	defer os.RemoveAll(tmp)
	os.Chmod(tmp, 0o777)
	ov := filepath.Join(tmp, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(ov, b, 0o644)
	scratch := filepath.Join(tmp, "t")
	os.MkdirAll(scratch, 0o777)
	os.Chmod(scratch, 0o777)
	env := append(os.Environ(), "VERIF_TIER="+tier, "VERIF_SEED="+strconv.Itoa(seed), "TMPDIR="+scratch)
	var out bytes.Buffer
	bin := filepath.Join(tmp, "replay.test")
	build := exec.CommandContext(ctx, "go", "test", "-c", "-overlay", ov, "-vet=off", "-o", bin, "./metadata/zzverif")
	build.Dir, build.Env, build.Stdout, build.Stderr = repo, env, &out, &out
	if err = build.Run(); err == nil {
		cmd := exec.CommandContext(ctx, bin, "-test.run", "^Test"+prop+"$", "-test.v", "-test.timeout", "600s")
		cmd.Dir, cmd.Env, cmd.Stdout, cmd.Stderr = scratch, env, &out, &out
		err = cmd.Run()
	}
	h.Output = out.String()
	sc := bufio.NewScanner(strings.NewReader(h.Output))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	finished := false
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if i := strings.Index(l, "VERIF-"); i > 0 {
			l = l[i:]
		}
		switch {
		case strings.HasPrefix(l, "VERIF-FAIL "):
			m := map[string]any{}
			if json.Unmarshal([]byte(l[len("VERIF-FAIL "):]), &m) == nil {
				h.Fails = append(h.Fails, m)
			}
		case strings.HasPrefix(l, "VERIF-DONE "):
			finished = true
			var d struct {
				Cases, Distinct int
				Rule            string
				Samples         []any
			}
			if json.Unmarshal([]byte(l[len("VERIF-DONE "):]), &d) == nil {
				h.Cases, h.Distinct, h.Rule, h.Samples = d.Cases, d.Distinct, d.Rule, d.Samples
			}
		}
	}
	h.Ran = finished || len(h.Fails) > 0
	if !finished {
		switch {
		case strings.Contains(h.Output, "panic:") && strings.Contains(h.Output, "goroutine "):
			// a crash of the code under test
			h.Ran = true
			h.Fails = append(h.Fails, map[string]any{"case": "crash", "what": "the harness process crashed in the code under test", "output": tailStr(h.Output, 3000)})
		default:
			h.Note = "did not complete: " + tailStr(h.Output, 1500)
			if err != nil {
				h.Note += " (" + err.Error() + ")"
			}
		}
	}
	return h
}

// loadKnown reads the known findings: lines
//
//	KNOWN-FINDING property=<id> case=<case id> <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// Only the first kind matters here.
func loadKnown(verif, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(f) == 4 && f[0] == "KNOWN-FINDING" && f[1] == "property="+prop && strings.HasPrefix(f[2], "case=") {
			m[strings.TrimPrefix(f[2], "case=")] = f[3]
		}
	}
	return m
}

// ---- evidence ----

var globalAssumptions = []string{
	"machine integers are treated as mathematical integers (no overflow)",
	"append never writes into spare capacity shared with another live slice",
	"termination is not proved (partial correctness)",
	"the translation from Go SSA (golang.org/x/tools/go/ssa) to verification conditions and the background axioms of the verifier are trusted",
	"canonical JSON encoding is a function of the exported data reachable from the encoded value",
	"no data races: every function is verified as sequential code",
}

func writeEvidence(p *propRun, h *harnessResult, verif, prop, tier string, seed int, failed []failure, viol int, wall time.Duration) {
	obl, ok, vcs, returns, cuts, q := 0, 0, 0, 0, 0, 0
	be := map[string]int{}
	var solver time.Duration
	type fn struct {
		Function    string   `json:"function"`
		Contract    string   `json:"contract_at,omitempty"`
		Obligations []string `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Paths       int      `json:"paths"`
		WallMs      int64    `json:"wall_ms"`
		Inlined     []string `json:"inlined_repo_functions,omitempty"`
		Relies      []string `json:"relies_on_contracts,omitempty"`
		Invariants  []string `json:"relies_on_decoding_invariants,omitempty"`
	}
	var fns []fn
	trusted, imps := map[string]bool{}, map[string]bool{}
	inl := map[string]bool{}
	for _, r := range p.results {
		f := fn{Function: r.Key, Contract: r.Contract, Paths: r.Returns, WallMs: r.WallMs, Inlined: keysOf(r.inlined), Relies: keysOf(r.used), Invariants: keysOf(r.usedInv)}
		for _, o := range r.Obls {
			obl++
			vcs += o.VCs
			st := "discharged"
			if o.Failed {
				st = "FAILED"
			} else {
				ok++
				f.Discharged++
			}
			f.Obligations = append(f.Obligations, fmt.Sprintf("%s [%s, %d VCs] %s", o.Name, st, o.VCs, o.Clause))
		}
		if r.Undecided != "" {
			obl++
			f.Obligations = append(f.Obligations, r.Key+"/verified [FAILED] "+r.Undecided)
		}
		returns += r.Returns
		cuts += r.Cuts
		q += r.stats.Queries
		solver += r.stats.Time
		for k, n := range r.stats.ByBackend {
			be[k] += n
		}
		for k := range r.usedX {
			trusted[k] = true
		}
		for k := range r.usedImp {
			imps[k] = true
		}
		for k := range r.inlined {
			inl[k] = true
		}
		fns = append(fns, f)
	}
	obl += len(p.missing)
	var tb []string
	for k := range imps {
		tb = append(tb, "contract proved elsewhere: "+k)
	}
	for k := range trusted {
		tb = append(tb, "assumed contract: "+k)
	}
	sort.Strings(tb)
	tb = append(tb, "z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2", "vcg (this repository: Go SSA to verification conditions)", "golang.org/x/tools/go/ssa and the Go type checker")
	cov := map[string]any{
		"obligations":              obl,
		"discharged":               ok,
		"checker_cmd":              "./bin/vcg check -prop " + prop + " -tier " + tier,
		"trusted_base":             tb,
		"functions_under_contract": fns,
		"verification_conditions":  vcs,
		"paths_to_return":          returns,
		"loop_cuts":                cuts,
		"solver_queries":           q,
		"solver_s":                 solver.Seconds(),
		"queries_valid_by_backend": be,
		"notes":                    p.notes,
		"extraction":               "none: the verified text is the SSA form of /repo's current source, built on this run; nothing is dropped except the bodies of the functions listed in trusted_base",
	}
	if h.Ran {
		cov["bounded_validation"] = map[string]any{
			"label":    "bounded, never counted as proved: runs the real code on generated inputs to validate the assumed contracts and to find failing inputs for failed obligations",
			"cases":    h.Cases,
			"distinct": h.Distinct,
			"rule":     h.Rule,
			"failing":  len(h.Fails),
			"samples":  h.Samples,
		}
	} else {
		cov["bounded_validation"] = map[string]any{"label": "not run", "note": h.Note}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage":    cov,
		"assumptions": globalAssumptions,
		"wall_s":      wall.Seconds(),
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}
