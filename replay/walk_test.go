package zzverif

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"strings"
	"testing"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
)

// ---- C13 ----

// graph gives the repository a random graph of delegations: cycles, several delegators of one role, delegations to
// itself, bins, and roles that cannot be loaded.
func (d *depot) graph() {
	r := d.r
	paths := []string{"a1", "b1", "c"}
	keyOf := map[string]*TKey{"targets": kTargets()}
	names := []string{"targets"}
	n := r.Intn(9)
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("r%d", i)
		keyOf[name] = ed(510 + i)
		names = append(names, name)
	}
	files := func(nd *node) {
		nd.files = obj{}
		for _, p := range paths {
			if r.Intn(7) == 0 {
				nd.files[p] = obj{"length": 1000 + 10*len(d.order) + len(p), "hashes": hashesOf([]byte(nd.name + p))}
			}
		}
	}
	for _, name := range names {
		nd := d.add(&node{name: name, keys: []*TKey{keyOf[name]}})
		files(nd)
	}
	for i, name := range names {
		nd := d.nodes[name]
		if r.Intn(9) == 0 {
			nd.bits = 1 + r.Intn(2)
			for b := 0; b < 1<<nd.bits; b++ {
				files(d.add(&node{name: fmt.Sprintf("%sbin-%x", name, b), keys: []*TKey{ed(520)}}))
			}
			continue
		}
		for _, j := range r.Perm(len(names)) {
			near := j > i && j <= i+3
			if j == 0 || !(near && r.Intn(2) == 0 || r.Intn(8) == 0) {
				continue
			}
			e := &edge{to: names[j], terminating: r.Intn(5) == 0, keys: []*TKey{keyOf[names[j]]}, paths: []any{pick(r, "*", "*", "*", "a*", "b*", "c", "zz")}}
			if r.Intn(4) == 0 {
				e.paths = append(e.paths, pick(r, "a?", "b1", "*"))
			}
			if r.Intn(14) == 0 {
				e.keys = []*TKey{ed(530)}
			}
			nd.kids = append(nd.kids, e)
		}
	}
}

func matches(pats []any, path string) bool {
	for _, p := range pats {
		switch s := p.(string); {
		case s == "*", s == path, len(s) == 2 && s[1] == '*' && s[0] == path[0], s == "a?" && path == "a1":
			return true
		}
	}
	return false
}

type outcome struct {
	order []string // roles visited
	found string   // the role that lists the target
	bad   string   // the role that could not be loaded
	cut   bool     // the limit was reached
}

// look is the search as described: the roles in pre-order, the children of a role in order of appearance.
func (d *depot) look(path string, max int, missing map[string]bool, loaded map[string]bool) outcome {
	var o outcome
	seen := map[string]bool{}
	var visit func(name string, keys []*TKey) bool // false: the search is over
	visit = func(name string, keys []*TKey) bool {
		if len(o.order) > max {
			o.cut = true
			return false
		}
		if seen[name] {
			return true
		}
		seen[name] = true
		o.order = append(o.order, name)
		nd := d.nodes[name]
		if !loaded[name] && (missing[name] || nd.keys[0] != keys[0]) {
			o.bad = name
			return false
		}
		loaded[name] = true
		if nd.files[path] != nil {
			o.found = name
			return false
		}
		if nd.bits > 0 {
			s := sha256.Sum256([]byte(path))
			visit(fmt.Sprintf("%sbin-%x", name, binary.BigEndian.Uint32(s[:4])>>(32-nd.bits)), []*TKey{ed(520)})
			return false // a delegation to bins is terminating
		}
		for _, e := range nd.kids {
			if matches(e.paths, path) && (!visit(e.to, e.keys) || e.terminating) {
				return false
			}
		}
		return true
	}
	visit("targets", []*TKey{kTargets()})
	return o
}

func TestC13(t *testing.T) {
	h := start(t, "C13", "look-ups of several targets in repositories with random delegation graphs (cycles, shared roles, terminating delegations, bins, roles that cannot be loaded) under random limits: the requests, the record and the error against a recursive search; non-trivial: all")
	defer h.done()
	r := h.rng
	for c := 0; c < h.n(1500) && h.more(); c++ {
		func() {
			d := newDepot(h)
			defer d.close()
			d.graph()
			d.cfg.DisableLocalCache = r.Intn(3) > 0
			d.cfg.MaxDelegations = pick(r, 32, 32, 0, 1, 2, 3, 4, 5, len(d.order)-1, len(d.order), -1)
			d.publish()
			missing := map[string]bool{}
			if r.Intn(6) == 0 && len(d.order) > 1 {
				missing[d.order[1+r.Intn(len(d.order)-1)]] = true
			}
			edges := obj{}
			for _, n := range d.order {
				nd := d.nodes[n]
				l := []string{}
				for _, e := range nd.kids {
					s := fmt.Sprintf("%s%v", e.to, e.paths)
					if e.terminating {
						s += " terminating"
					}
					if e.keys[0] != d.nodes[e.to].keys[0] {
						s += " other key"
					}
					l = append(l, s)
				}
				if nd.bits > 0 {
					l = append(l, fmt.Sprintf("%d bins", 1<<nd.bits))
				}
				edges[n] = obj{"lists": sortedKeys(nd.files), "delegates": l}
			}
			desc := js(obj{"roles": edges, "limit": d.cfg.MaxDelegations, "missing": sortedKeys(missing), "no cache": d.cfg.DisableLocalCache})
			h.count(desc)
			for n := range missing {
				delete(d.site.files, d.url(n, d.nodes[n].version))
			}
			u, err := updater.New(d.cfg)
			must(err)
			if r.Intn(3) > 0 {
				must(u.Refresh())
			}
			loaded := map[string]bool{"targets": true}
			for _, p := range []string{"a1", "b1", "c", "a1"} {
				d.site.log = nil
				before := map[string]bool{}
				for n := range loaded {
					before[n] = true
				}
				want := d.look(p, d.cfg.MaxDelegations, missing, loaded)
				var got *metadata.TargetFiles
				h.guard("look", desc, func() { got, err = u.GetTargetInfo(p) })
				at := func(what, why string) {
					h.fail(what, fmt.Sprintf("the look-up of %s %s", p, why), "input", desc, "expected visits", strings.Join(want.order, " "), "requests", d.requests(), "error", err)
				}
				// roles asked for, in order
				asked, expected := []string{}, []string{}
				for _, q := range d.site.log {
					for n, nd := range d.nodes {
						if n != "targets" && q.URL == d.url(n, nd.version) {
							asked = append(asked, n)
						}
					}
				}
				for _, n := range want.order {
					if !before[n] {
						expected = append(expected, n)
					}
				}
				if strings.Join(asked, " ") != strings.Join(expected, " ") {
					at("order", "visits roles in another order: "+strings.Join(asked, " ")+" instead of "+strings.Join(expected, " "))
				}
				switch {
				case want.found == "" && err == nil:
					at("answer", "succeeds")
				case want.found == "":
					h.stat("not found")
					if want.bad == "" && !strings.HasSuffix(err.Error(), "not found") {
						at("answer", "fails for another reason than that no role lists it")
					}
					if want.cut {
						h.stat("limit")
					}
				case err != nil || got == nil:
					at("missed", "does not find it in "+want.found)
				default:
					h.stat("found")
					rec := d.nodes[want.found].files[p].(obj)
					if got.Length != int64(rec["length"].(int)) || got.Hashes["sha256"].String() != rec["hashes"].(obj)["sha256"] {
						at("record", "returns another record than that of "+want.found)
					}
				}
			}
		}()
	}
}
