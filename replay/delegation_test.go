package zzverif

import (
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

// ---- C11: oracle for path patterns ----

// globPart matches one path part against one glob part: * any run of
// characters, ? any single character, [..] a class, \ quotes.
// Malformed patterns do not match anything.
func globPart(p, s []rune) (match, wellFormed bool) {
	if !globOK(p) {
		return false, false
	}
	return globRun(p, s), true
}

func globOK(p []rune) bool {
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '\\':
			if i+1 >= len(p) {
				return false
			}
			i++
		case '[':
			n := globClassLen(p[i:])
			if n == 0 {
				return false
			}
			i += n - 1
		}
	}
	return true
}

// globClassLen returns the length of the class at the start of p, 0 if malformed.
func globClassLen(p []rune) int {
	i := 1
	if i < len(p) && p[i] == '^' {
		i++
	}
	n := 0
	for {
		if i < len(p) && p[i] == ']' && n > 0 {
			return i + 1
		}
		ok := false
		if i, ok = globClassChar(p, i); !ok {
			return 0
		}
		if i < len(p) && p[i] == '-' {
			if i, ok = globClassChar(p, i+1); !ok {
				return 0
			}
		}
		if i >= len(p) {
			return 0
		}
		n++
	}
}

func globClassChar(p []rune, i int) (int, bool) {
	if i >= len(p) || p[i] == '-' || p[i] == ']' {
		return i, false
	}
	if p[i] == '\\' {
		i++
		if i >= len(p) {
			return i, false
		}
	}
	return i + 1, true
}

func globRun(p, s []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '*':
		for k := 0; k <= len(s); k++ {
			if globRun(p[1:], s[k:]) {
				return true
			}
		}
		return false
	case '?':
		return len(s) > 0 && globRun(p[1:], s[1:])
	case '[':
		if len(s) == 0 {
			return false
		}
		n := globClassLen(p)
		c := p[1 : n-1]
		neg := false
		if c[0] == '^' {
			neg = true
			c = c[1:]
		}
		in := false
		for i := 0; i < len(c); {
			lo := c[i]
			if lo == '\\' {
				i++
				lo = c[i]
			}
			hi := lo
			i++
			if i < len(c) && c[i] == '-' {
				i++
				hi = c[i]
				if hi == '\\' {
					i++
					hi = c[i]
				}
				i++
			}
			in = in || lo <= s[0] && s[0] <= hi
		}
		return in != neg && globRun(p[n:], s[1:])
	case '\\':
		return len(s) > 0 && s[0] == p[1] && globRun(p[2:], s[1:])
	}
	return len(s) > 0 && s[0] == p[0] && globRun(p[1:], s[1:])
}

func globPath(pattern, path string) (match, clear bool) {
	pp, tp := strings.Split(pattern, "/"), strings.Split(path, "/")
	clear = true
	if len(pp) != len(tp) {
		return false, true
	}
	match = true
	for i := range pp {
		m, ok := globPart([]rune(pp[i]), []rune(tp[i]))
		match = match && m
		clear = clear && ok
	}
	return match, clear
}

func respOracle(r *metadata.DelegatedRole, path string) (resp, clear bool) {
	if len(r.Paths) > 0 {
		clear = true
		for _, p := range r.Paths {
			m, ok := globPath(p, path)
			resp = resp || m
			clear = clear && ok
		}
		return resp, resp || clear
	}
	d := sha256.Sum256([]byte(path))
	e := base64.URLEncoding.EncodeToString(d[:])
	for _, p := range r.PathHashPrefixes {
		resp = resp || len(p) <= len(e) && e[:len(p)] == p
	}
	return resp, true
}

func (h *H) pick(ss []string) string { return ss[h.rng.Intn(len(ss))] }

var partPool = []string{"a", "b", "ab", "ba", "aab", "", "file.txt", "foo.tgz", "x-1", "-", "*", "é", "[a]", "a*", "abc", "A", "targets", "]", "^", " a", "a ", ".", "..", "a.b", "%61", "\n"}
var globPool = []string{"*", "?", "a*", "*b", "a?", "*.txt", "*.tgz", "[a-c]*", "[^a]b", "[ab][ab]", "?*", "a", "ab", "", "**", "*a*", "\\*", "file.*", "x-?", "[a", "\\", "[]", "a\\b", "é", "??", "*-*", "targets", "[\\]]", "[\\^]", "[a-", "*[b-z]", " a", "a ", " ", "a* ", " *", "A*", ".", "..", "*.*", "%61", "[A-Z]", "*.TXT"}

func TestC11(t *testing.T) {
	h := start(t, "C11", "random patterns (wildcards, classes, escapes, malformed ones), hash prefixes and target paths against an independent matcher; delegations of up to six roles with repeated names; non-trivial: at least one role is responsible")
	defer h.done()
	r := h.rng
	path := func() string {
		n := 1 + r.Intn(3)
		if r.Intn(10) == 0 {
			n += r.Intn(8)
		}
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, h.pick(partPool))
		}
		return strings.Join(ps, "/")
	}
	mutate := func(target string) string { // a pattern close to the target
		ps := strings.Split(target, "/")
		for i := range ps {
			if r.Intn(2) == 0 {
				ps[i] = h.pick(globPool)
			}
		}
		switch r.Intn(8) {
		case 0:
			ps = append(ps, h.pick(globPool))
		case 1:
			ps = ps[:len(ps)-1]
		case 2:
			ps = append([]string{""}, ps...)
		case 3:
			i := r.Intn(len(ps))
			ps[i] = pick(r, " "+ps[i], ps[i]+" ", strings.ToUpper(ps[i]), strings.ToLower(ps[i]), "./"+ps[i], ps[i]+"/..", ps[i]+"*")
		}
		return strings.Join(ps, "/")
	}
	b64 := func(p string) string {
		d := sha256.Sum256([]byte(p))
		return base64.URLEncoding.EncodeToString(d[:])
	}
	role := func(target string) metadata.DelegatedRole {
		d := metadata.DelegatedRole{Name: h.pick([]string{"a", "b", "c", "role-1", "targets", ""}), Terminating: r.Intn(2) == 0, KeyIDs: []string{}, Threshold: 1}
		k := r.Intn(6)
		if k < 4 {
			for n := 1 + r.Intn(3); n > 0; n-- {
				d.Paths = append(d.Paths, mutate(target))
			}
		}
		if k >= 3 && k < 5 {
			for n := 1 + r.Intn(3); n > 0; n-- {
				e := b64(target)
				if r.Intn(2) == 0 {
					e = b64(target + "x")
				}
				p := e[:r.Intn(6)]
				switch r.Intn(6) {
				case 0:
					p = e
				case 1:
					p = e + "A"
				case 2:
					p = strings.ToLower(p)
				case 3:
					p = e[1:4]
				}
				if p == "" {
					p = "-"
				}
				d.PathHashPrefixes = append(d.PathHashPrefixes, p)
			}
		}
		return d
	}
	for c := 0; c < h.n(30000) && h.more(); c++ {
		target := path()
		d := role(target)
		want, clear := respOracle(&d, target)
		desc := js(map[string]any{"paths": d.Paths, "prefixes": d.PathHashPrefixes, "target": target})
		h.count(desc)
		if want {
			h.stat("responsible")
		}
		h.guard("path", desc, func() {
			got, err := d.IsDelegatedPath(target)
			if err != nil || clear && got != want {
				h.fail("responsible", fmt.Sprintf("IsDelegatedPath = %v, %v, the statement gives %v", got, err, want), "input", desc)
			}
		})
	}
	for c := 0; c < h.n(8000) && h.more(); c++ {
		target := path()
		dl := &metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: []metadata.DelegatedRole{}}
		for n := r.Intn(6); n > 0; n-- {
			dl.Roles = append(dl.Roles, role(target))
		}
		if r.Intn(150) == 0 { // many
			for n := 20 + r.Intn(80); n > 0; n-- {
				d := role(target)
				d.Name = fmt.Sprint("r", n)
				d.Paths = []string{pick(r, "z", strings.Repeat("*/", strings.Count(target, "/"))+"*")}
				dl.Roles = append(dl.Roles, d)
			}
		}
		if r.Intn(10) == 0 {
			dl.Roles = nil
		}
		desc := js(map[string]any{"roles": dl.Roles, "target": target})
		h.count(desc)
		h.guard("roles", desc, func() {
			got := dl.GetRolesForTarget(target)
			allowed := map[string]map[bool]bool{}
			unclear := false
			for i := range dl.Roles {
				ok, clear := respOracle(&dl.Roles[i], target)
				unclear = unclear || !clear
				if ok {
					if allowed[dl.Roles[i].Name] == nil {
						allowed[dl.Roles[i].Name] = map[bool]bool{}
					}
					allowed[dl.Roles[i].Name][dl.Roles[i].Terminating] = true
				}
			}
			if unclear {
				return
			}
			if len(allowed) > 0 {
				h.stat("some role responsible")
			}
			for n, term := range got {
				if !allowed[n][term] {
					h.fail("returned", fmt.Sprintf("role %q (terminating %v) is returned but no such role is responsible", n, term), "input", desc)
				}
			}
			for n := range allowed {
				if _, ok := got[n]; !ok {
					h.fail("omitted", fmt.Sprintf("role %q is responsible but not returned", n), "input", desc)
				}
			}
		})
	}
}

// ---- C12 ----

func binNameOracle(prefix string, bits int, bin *big.Int) string {
	last := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
	w := len(last.Text(16))
	s := bin.Text(16)
	for len(s) < w {
		s = "0" + s
	}
	return prefix + "-" + s
}

func TestC12(t *testing.T) {
	h := start(t, "C12", "every bit length from 1 to 32 with random prefixes and target paths, complete listings up to 18 bits, candidate names around the valid ones (case, sign, width, out of range); non-trivial: all")
	defer h.done()
	r := h.rng
	prefixes := []string{"bin", "", "a-b", "-", "bins-0", "é", "x/y", "%d", "0", "f-"}
	two := big.NewInt(2)
	for bits := 1; bits <= 32; bits++ {
		count := new(big.Int).Exp(two, big.NewInt(int64(bits)), nil)
		for _, p := range prefixes {
			s := &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: 1, BitLength: bits, NamePrefix: p}
			var listed []string
			if bits <= 6 || bits <= 18 && p == "bin" || h.thorough() && bits <= 22 && p == "bin" {
				id := fmt.Sprintf("%d/%q", bits, p)
				h.count("list " + id)
				h.guard("list", id, func() {
					listed = s.GetRoles()
					if int64(len(listed)) != count.Int64() {
						h.fail("list/count", fmt.Sprintf("%d names are listed for %d bits", len(listed), bits))
					}
					for i, n := range listed {
						if want := binNameOracle(p, bits, big.NewInt(int64(i))); n != want {
							h.fail("list/name", fmt.Sprintf("name %d is %q, want %q", i, n, want), "bits", bits, "prefix", p)
						}
					}
				})
			}
			for c := 0; c < h.n(12); c++ {
				path := fmt.Sprintf("t/%x.bin", r.Uint64())
				if c == 0 {
					path = ""
				}
				d := sha256.Sum256([]byte(path))
				v := new(big.Int).SetBytes(d[:])
				v.Rsh(v, uint(256-bits))
				want := binNameOracle(p, bits, v)
				id := fmt.Sprintf("bits %d prefix %q path %q", bits, p, path)
				h.count(id)
				h.guard("bin", id, func() {
					got := s.GetRolesForTarget(path)
					if term, ok := got[want]; len(got) != 1 || !ok || !term {
						h.fail("bin", fmt.Sprintf("the bin of the path is %v, want only %q, terminating", got, want), "input", id)
					}
					if !s.IsDelegatedRole(want) {
						h.fail("bin/recognised", fmt.Sprintf("the bin %q of the path is not recognised", want), "input", id)
					}
					dl := &metadata.Delegations{Keys: map[string]*metadata.Key{}, SuccinctRoles: s}
					if g2 := dl.GetRolesForTarget(path); len(g2) != 1 || !g2[want] {
						h.fail("delegations", fmt.Sprintf("the delegation gives %v, want only %q", g2, want), "input", id)
					}
				})
			}
			// membership
			cand := func(bin *big.Int) []string {
				n := binNameOracle(p, bits, bin)
				suf := n[len(p)+1:]
				return []string{n, strings.ToUpper(n), p + "-" + strings.ToUpper(suf), p + suf, p + "_" + suf, p + "-0" + suf, p + "-" + suf[1:], p + "-+" + suf[1:], p + "--" + suf[1:], p + "- " + suf[1:],
					n + " ", " " + n, n + "0", p + "-0x" + suf, p + "-" + strings.Repeat("g", len(suf)), "x" + n, suf, p + "-", p, p + "-_" + suf[1:], p + "-" + suf + "-", p + "-" + suf + "\x00", p + "-" + strings.Replace(suf, "0", "o", 1)}
			}
			nums := []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(count, big.NewInt(1)), count, new(big.Int).Add(count, big.NewInt(1)), new(big.Int).Lsh(count, 1), new(big.Int).Sub(new(big.Int).Exp(two, big.NewInt(int64(4*((bits+3)/4))), nil), big.NewInt(1))}
			for c := 0; c < h.n(4); c++ {
				nums = append(nums, new(big.Int).Rand(r, count), new(big.Int).Rand(r, new(big.Int).Lsh(count, 3)))
			}
			for _, b := range nums {
				for _, n := range cand(b) {
					want := false
					if strings.HasPrefix(n, p+"-") {
						v, ok := new(big.Int).SetString(n[len(p)+1:], 16)
						want = ok && v.Sign() >= 0 && v.Cmp(count) < 0 && binNameOracle(p, bits, v) == n
					}
					id := fmt.Sprintf("bits %d prefix %q name %q", bits, p, n)
					h.count(id)
					h.guard("member", id, func() {
						if got := s.IsDelegatedRole(n); got != want {
							h.fail("member", fmt.Sprintf("IsDelegatedRole = %v, want %v", got, want), "input", id)
						}
					})
				}
			}
		}
	}
}
