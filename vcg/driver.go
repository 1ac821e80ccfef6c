package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type job struct {
	key string
	fn  *ssa.Function
	c   *Contract
}

func (p *propRun) isRoot(key string) bool { return p.rootK[key] }

// instances of a contract key that must be verified
func (p *propRun) instances(key string) []*ssa.Function {
	c := p.contractFor(key)
	var out []*ssa.Function
	for _, f := range p.funcs[key] {
		if c != nil && len(c.Params) != len(f.Params) {
			continue
		}
		out = append(out, f)
	}
	return out
}

// run verifies the roots of the property and, transitively, every contract
// their proofs rely on.
func (p *propRun) run(dir string, limit time.Duration, verbose bool, workers int) {
	var roots []string
	roots, p.safety = p.ss.roots(p.prop)
	p.rootK = map[string]bool{}
	for _, r := range roots {
		p.rootK[r] = true
	}
	p.retract = map[string]bool{}
	done := map[string][]*FuncResult{} // key -> results
	pending := map[string]bool{}
	for _, r := range roots {
		pending[r] = true
	}
	have := map[*ssa.Function]bool{} // instances verified
	wantFn := map[string]bool{}      // instances relied on
	forget := func(k string) {
		delete(done, k)
		for _, f := range p.funcs[k] {
			delete(have, f)
		}
	}
	began, total := time.Now(), limit*9/4 // for the whole property: the rounds after it get little time each
	for round := 0; len(pending) > 0 && round < 40; round++ {
		var jobs []job
		var keys []string
		for k := range pending {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		pending = map[string]bool{}
		for _, k := range keys {
			fs := p.instances(k)
			if len(fs) == 0 {
				done[k] = []*FuncResult{}
				if p.rootK[k] {
					p.missing = append(p.missing, k)
				}
				continue
			}
			for _, f := range fs {
				if have[f] || !p.rootK[k] && !wantFn[fnKey(f)] && !p.implicitInv(k) {
					continue
				}
				have[f] = true
				jobs = append(jobs, job{k, f, p.contractFor(k)})
			}
		}
		ret := map[string]bool{}
		for k := range p.retract {
			ret[k] = true
		}
		results := make([]*FuncResult, len(jobs))
		sem := make(chan bool, workers)
		var wg sync.WaitGroup
		for i := range jobs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				limit := limit
				if left := total - time.Since(began); left < limit {
					limit = max(left, 20*time.Second)
				}
				results[i] = verifyFunc(p.w, p.ss, jobs[i].fn, jobs[i].c, VerifyOpts{prop: p.prop, safety: p.safety, retract: ret, dir: dir, limit: limit, verbose: verbose})
				results[i].raw = jobs[i].key
			}(i)
		}
		wg.Wait()
		fresh := map[string][]*FuncResult{}
		for _, r := range results {
			fresh[r.raw] = append(fresh[r.raw], r)
		}
		for _, k := range keys {
			if done[k] == nil {
				done[k] = []*FuncResult{}
			}
		}
		for k, l := range fresh {
			done[k] = append(done[k], l...)
		}
		// retract failing auxiliary contracts
		newly := map[string]bool{}
		for k, l := range fresh {
			if p.rootK[k] {
				continue
			}
			for _, r := range l {
				if r.failed() && !p.retract[k] && !p.implicitInv(k) {
					newly[k] = true
				}
			}
		}
		for k := range newly {
			p.retract[k] = true
			why := ""
			for _, r := range done[k] {
				if r.Undecided != "" {
					why = r.Undecided
				}
				for _, o := range r.Obls {
					if o.Failed {
						why = o.Name
					}
				}
			}
			p.notes = append(p.notes, "auxiliary contract of "+k+" no longer holds ("+why+"); the function was inlined at its call sites instead")
			forget(k)
		}
		if len(newly) > 0 {
			for k, l := range done {
				for _, r := range l {
					for u := range r.used {
						if newly[u] {
							pending[k] = true
						}
					}
				}
			}
			for k := range pending {
				forget(k)
			}
		}
		// dependencies
		for _, l := range done {
			for _, r := range l {
				for u := range r.usedFn {
					wantFn[u] = true
				}
			}
		}
		for _, l := range done {
			for _, r := range l {
				for u := range r.used {
					if p.retract[u] {
						continue
					}
					if _, ok := done[u]; !ok {
						pending[u] = true
					}
					for _, f := range p.instances(u) {
						if wantFn[fnKey(f)] && !have[f] {
							pending[u] = true
						}
					}
				}
				for t := range r.usedInv {
					k := t
					if _, ok := done[k]; !ok {
						pending[k] = true
					}
				}
			}
		}
	}
	// keep only what is reachable from the roots
	keep := map[string]bool{}
	var walk func(k string)
	walk = func(k string) {
		if keep[k] {
			return
		}
		keep[k] = true
		for _, r := range done[k] {
			for u := range r.used {
				walk(u)
			}
			for u := range r.usedInv {
				walk(u)
			}
		}
	}
	for k := range p.rootK {
		walk(k)
	}
	var ks []string
	for k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		p.results = append(p.results, done[k]...)
	}
	sort.Strings(p.missing)
	sort.Strings(p.notes)
}

// implicitInv: obligations that justify a decoding invariant cannot be
// retracted
func (p *propRun) implicitInv(k string) bool { return strings.HasSuffix(k, ".UnmarshalJSON") }

type failure struct {
	Obl  string   `json:"obligation"`
	Kind string   `json:"kind"`
	What string   `json:"clause"`
	Func string   `json:"function"`
	Pos  string   `json:"position,omitempty"`
	Path []string `json:"path,omitempty"`
	Why  string   `json:"solver"`
}

func (p *propRun) failures() []failure {
	var out []failure
	for _, m := range p.missing {
		out = append(out, failure{Obl: m + "/exists", Kind: "missing", What: "the function under contract exists with the specified parameters", Func: m, Why: "not found in the current source"})
	}
	for _, r := range p.results {
		for _, o := range r.Obls {
			if o.Failed {
				out = append(out, failure{o.Name, o.Kind, o.Clause, r.Key, o.Pos, o.Path, o.Why})
			}
		}
		if r.Undecided != "" {
			out = append(out, failure{Obl: r.Key + "/verified", Kind: "undecided", What: "every path of the function is verified", Func: r.Key, Why: r.Undecided})
		}
	}
	return out
}

func (r *FuncResult) summary() string {
	ok, bad, vcs := 0, 0, 0
	for _, o := range r.Obls {
		vcs += o.VCs
		if o.Failed {
			bad++
		} else {
			ok++
		}
	}
	s := fmt.Sprintf("%-60s obl %d ok %d failed, %d VCs, %d paths, %d cuts, %d queries %.1fs solver, %.1fs wall", r.Key, ok, bad, vcs, r.Returns, r.Cuts, r.stats.Queries, r.stats.Time.Seconds(), float64(r.WallMs)/1000)
	if r.Undecided != "" {
		s += "\n    UNDECIDED: " + r.Undecided
	}
	return s
}
