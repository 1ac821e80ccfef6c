package zzverif

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

// loadAny decodes a document into the metadata type of a role.
func loadAny(typ string, b []byte) (any, error) {
	switch typ {
	case "root":
		return metadata.Root().FromBytes(b)
	case "timestamp":
		return metadata.Timestamp().FromBytes(b)
	case "snapshot":
		return metadata.Snapshot().FromBytes(b)
	}
	return metadata.Targets().FromBytes(b)
}

func signedOf(typ string, r *rand.Rand) obj {
	o := obj{"_type": typ, "spec_version": "1.0.31", "version": 1 + r.Intn(5), "expires": farFuture}
	switch typ {
	case "root":
		o["consistent_snapshot"] = true
		o["keys"] = obj{}
		o["roles"] = obj{}
	case "timestamp":
		o["meta"] = obj{"snapshot.json": obj{"version": 1}}
	case "snapshot":
		o["meta"] = obj{"targets.json": obj{"version": 1}}
	case "targets":
		o["targets"] = obj{"a": obj{"length": r.Intn(9), "hashes": hashesOf([]byte("x"))}}
	}
	if r.Intn(3) == 0 {
		o["x-extra"] = obj{"k": r.Intn(100)}
	}
	return o
}

func anyKey(r *rand.Rand) *TKey {
	switch r.Intn(8) {
	case 0:
		return key("rsa", r.Intn(2))
	case 1, 2:
		return key("ecdsa", r.Intn(3))
	}
	return ed(r.Intn(8))
}

// corrupt returns a signature that is not valid for k over msg.
func corrupt(r *rand.Rand, k *TKey, msg []byte) []byte {
	switch r.Intn(6) {
	case 0:
		return []byte{}
	case 1:
		s := append([]byte{}, k.sign(msg)...)
		s[r.Intn(len(s))] ^= 1 << uint(r.Intn(8))
		return s
	case 2:
		return k.sign(append([]byte("{"), msg...))
	case 3:
		return ed(99).sign(msg)
	case 4:
		return k.sign([]byte{})
	}
	h := sha256.Sum256(msg)
	return h[:]
}

// nearName returns a name close to s but different from it.
func nearName(r *rand.Rand, s string) string {
	if s == "" {
		return "x"
	}
	switch r.Intn(10) {
	case 0:
		return s[:len(s)-1]
	case 1:
		return s[1:]
	case 2:
		return s + "0"
	case 3:
		return ""
	case 4:
		return s[:1+r.Intn(len(s))/2]
	case 5:
		return " " + s
	case 6:
		return s + "/"
	}
	for _, n := range []string{strings.ToUpper(s), strings.ToUpper(s[:1]) + s[1:], strings.Replace(s, "-", "-0", 1)} {
		if n != s && r.Intn(3) > 0 {
			return n
		}
	}
	return s + s
}

func TestC01(t *testing.T) {
	h := start(t, "C01", "random delegators (root, targets with roles, targets with succinct roles), key sets, duplicate key IDs, thresholds and signature lists (valid, corrupted, swapped, repeated, unauthorised); non-trivial: at least one signature present; oracle: distinct authorised key IDs with a valid signature, counted independently")
	defer h.done()
	r := h.rng
	for c := 0; c < h.n(4000) && h.more(); c++ {
		nk := 1 + r.Intn(4)
		var ks []*TKey
		seen := map[string]bool{}
		for len(ks) < nk {
			k := anyKey(r)
			if !seen[k.id] {
				seen[k.id] = true
				ks = append(ks, k)
			}
		}
		// authorised IDs, with repetitions
		var auth []*TKey
		for _, k := range ks {
			if r.Intn(4) > 0 {
				for n := 1 + r.Intn(3); n > 0; n-- {
					auth = append(auth, k)
				}
			}
		}
		r.Shuffle(len(auth), func(i, j int) { auth[i], auth[j] = auth[j], auth[i] })
		threshold := 1 + r.Intn(3)
		typ := pick(r, "root", "timestamp", "snapshot", "targets")
		signed := signedOf(typ, r)
		msg := []byte(canon(normal(signed)))
		// signatures; the decoder refuses repeated key IDs, so repetitions are
		// added to the decoded object
		type sg struct {
			id string
			b  []byte
			ok bool
		}
		var sl []sg
		for _, k := range append(append([]*TKey{}, ks...), ed(50)) {
			for n := pick(r, 0, 1, 1, 1, 2, 3); n > 0; n-- {
				id := k.id
				if r.Intn(6) == 0 {
					id = pick(r, ks...).id
				}
				if r.Intn(6) == 0 {
					id = nearName(r, id)
				}
				if id == k.id && r.Intn(3) > 0 {
					sl = append(sl, sg{id, k.sign(msg), true})
				} else if id == k.id {
					sl = append(sl, sg{id, corrupt(r, k, msg), false})
				} else {
					sl = append(sl, sg{id, k.sign(msg), false})
				}
			}
		}
		r.Shuffle(len(sl), func(i, j int) { sl[i], sl[j] = sl[j], sl[i] })
		b := doc(signed)
		d, err := loadAny(typ, b)
		must(err)
		var out []metadata.Signature
		good := map[string]bool{}
		for _, s := range sl {
			out = append(out, metadata.Signature{KeyID: s.id, Signature: s.b})
			if s.ok {
				good[s.id] = true
			}
		}
		switch d := d.(type) {
		case *metadata.Metadata[metadata.RootType]:
			d.Signatures = out
		case *metadata.Metadata[metadata.TimestampType]:
			d.Signatures = out
		case *metadata.Metadata[metadata.SnapshotType]:
			d.Signatures = out
		case *metadata.Metadata[metadata.TargetsType]:
			d.Signatures = out
		}
		store := map[string]*metadata.Key{}
		absent := map[string]bool{}
		for _, k := range ks {
			m := *k.meta
			if r.Intn(15) == 0 {
				absent[k.id] = true
				store[nearName(r, k.id)] = &m
			} else {
				store[k.id] = &m
			}
		}
		var kids []string
		n := 0
		cnt := map[string]bool{}
		for _, k := range auth {
			kids = append(kids, k.id)
			if !absent[k.id] && good[k.id] && !cnt[k.id] {
				cnt[k.id] = true
				n++
			}
		}
		mode := r.Intn(3)
		name := typ
		ask := name
		if mode == 2 {
			ask = pick(r, "bin-0", "bin-1", "bin-2", "bin-3")
		}
		if r.Intn(5) == 0 {
			ask = nearName(r, ask)
		}
		delegated := ask == name
		if mode == 2 {
			delegated = ask == "bin-0" || ask == "bin-1" || ask == "bin-2" || ask == "bin-3"
		}
		id := fmt.Sprintf("mode%d/%s/nk%d/auth%d/thr%d/sig%d/valid%d", mode, typ, nk, len(auth), threshold, len(sl), n)
		detail := fmt.Sprintf("%s role=%q keyids=%v signatures=%s signed=%s", id, ask, kids, js(out), msg)
		if len(sl) > 0 {
			h.count(detail)
		}
		h.guard("verify", detail, func() {
			var err error
			switch mode {
			case 0:
				root := metadata.Root()
				root.Signed.Keys = store
				root.Signed.Roles[name] = &metadata.Role{KeyIDs: kids, Threshold: threshold}
				err = root.VerifyDelegate(ask, d)
			case 1:
				tg := metadata.Targets()
				tg.Signed.Delegations = &metadata.Delegations{Keys: store, Roles: []metadata.DelegatedRole{
					{Name: "other", KeyIDs: []string{ed(50).id}, Threshold: 1},
					{Name: name, KeyIDs: kids, Threshold: threshold},
				}}
				err = tg.VerifyDelegate(ask, d)
			case 2:
				tg := metadata.Targets()
				tg.Signed.Delegations = &metadata.Delegations{Keys: store, SuccinctRoles: &metadata.SuccinctRoles{KeyIDs: kids, Threshold: threshold, BitLength: 2, NamePrefix: "bin"}}
				err = tg.VerifyDelegate(ask, d)
			}
			if err == nil && !delegated {
				h.fail("accepted-undelegated", "accepted for a role that is not delegated", "case", detail)
			}
			if err == nil && n < threshold {
				h.fail("accepted-below-threshold", fmt.Sprintf("accepted with %d valid authorised signatures, threshold %d", n, threshold), "case", detail)
			}
		})
	}
	// delegators that cannot delegate, and roles that are not delegated
	k := ed(0)
	for _, typ := range []string{"root", "timestamp", "snapshot", "targets"} {
		signed := signedOf(typ, r)
		d, err := loadAny(typ, doc(signed, k))
		must(err)
		h.count("delegators/" + typ)
		if metadata.Snapshot().VerifyDelegate(typ, d) == nil || metadata.Timestamp().VerifyDelegate(typ, d) == nil {
			h.fail("non-delegator-accepted", "snapshot or timestamp metadata vouched for "+typ)
		}
		root := metadata.Root()
		root.Signed.Keys = map[string]*metadata.Key{k.id: k.meta}
		for n := range root.Signed.Roles {
			root.Signed.Roles[n] = &metadata.Role{KeyIDs: []string{k.id}, Threshold: 1}
		}
		if root.VerifyDelegate("nosuchrole", d) == nil {
			h.fail("undelegated-accepted", "root vouched for a role it does not have")
		}
		tg := metadata.Targets()
		if tg.VerifyDelegate(typ, d) == nil {
			h.fail("undelegated-accepted", "targets without delegations vouched for a role")
		}
		for _, roles := range [][]metadata.DelegatedRole{{}, {{Name: "x", KeyIDs: []string{k.id}, Threshold: 1}}} {
			tg.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{k.id: k.meta}, Roles: roles}
			if tg.VerifyDelegate("y", d) == nil {
				h.fail("undelegated-accepted", "targets vouched for a role that it does not delegate to", "roles", js(roles))
			}
		}
		tg.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{k.id: k.meta}}
		if tg.VerifyDelegate("y", d) == nil {
			h.fail("undelegated-accepted", "targets with empty delegations vouched for a role")
		}
	}
}

func TestC09(t *testing.T) {
	h := start(t, "C09", "random contents, recorded lengths and hash sets (correct, altered, truncated, swapped algorithm, unknown algorithm); oracle: independent SHA-256/512; non-trivial: non-empty content or hash set")
	defer h.done()
	r := h.rng
	for c := 0; c < h.n(20000) && h.more(); c++ {
		data := make([]byte, r.Intn(40))
		r.Read(data)
		length := int64(len(data))
		if r.Intn(3) == 0 {
			length += int64(r.Intn(5) - 2)
		}
		if r.Intn(12) == 0 {
			length = 0
		}
		hs := metadata.Hashes{}
		all := true
		for n := r.Intn(4); n > 0; n-- {
			alg := pick(r, "sha256", "sha512", "sha256", "sha512", "md5", "SHA256", "sha1", "", "sha384", "sha512/256", "sha2562")
			var want []byte
			a, b := sha256.Sum256(data), sha512.Sum512(data)
			if alg == "sha256" || alg != "sha512" && r.Intn(2) == 0 {
				want = a[:]
			} else {
				want = b[:]
			}
			val := append([]byte{}, want...)
			switch r.Intn(7) {
			case 0:
				val[r.Intn(len(val))] ^= byte(1 << uint(r.Intn(8)))
			case 1:
				val = val[:r.Intn(len(val))]
			case 2:
				val = append(val, byte(r.Intn(256)))
			case 3:
				if alg == "sha256" {
					val = b[:]
				} else {
					val = a[:]
				}
			}
			hs[alg] = val
		}
		for alg, v := range hs {
			a, b := sha256.Sum256(data), sha512.Sum512(data)
			if !(alg == "sha256" && string(v) == string(a[:]) || alg == "sha512" && string(v) == string(b[:])) {
				all = false
			}
		}
		detail := fmt.Sprintf("data=%s length=%d hashes=%s", hex.EncodeToString(data), length, js(hs))
		if len(data) > 0 || len(hs) > 0 {
			h.count(detail)
		}
		h.guard("target", detail, func() {
			err := (&metadata.TargetFiles{Length: length, Hashes: hs}).VerifyLengthHashes(data)
			want := length == int64(len(data)) && all
			if (err == nil) != want {
				h.fail(fmt.Sprintf("target-accept-%v", err == nil), fmt.Sprintf("target file verification: err=%v, want accepted=%v", err, want), "input", detail)
			}
		})
		h.guard("meta", detail, func() {
			err := (&metadata.MetaFiles{Length: length, Hashes: hs, Version: 1}).VerifyLengthHashes(data)
			want := (length == 0 || length == int64(len(data))) && (len(hs) == 0 || all)
			if (err == nil) != want {
				h.fail(fmt.Sprintf("meta-accept-%v", err == nil), fmt.Sprintf("metadata file verification: err=%v, want accepted=%v", err, want), "input", detail)
			}
		})
	}
	extraC09(h)
}

func init() { extraC09 = targetFileFacts }

var extraC09 func(h *H)

// targetFileFacts: the facts recorded about a target file are those of its content.
func targetFileFacts(h *H) {
	r := h.rng
	dir := scratch(h)
	for c := 0; c < h.n(3000) && h.more(); c++ {
		data := make([]byte, pick(r, 0, 1, 7, 600, 70000))
		r.Read(data)
		var algs []string
		bad := false
		for n := r.Intn(4); n > 0; n-- {
			a := pick(r, "sha256", "sha512", "sha256", "sha512", "md5")
			bad = bad || a == "md5"
			algs = append(algs, a)
		}
		detail := fmt.Sprintf("len=%d algorithms=%v content=%x", len(data), algs, trunc(string(data), 40))
		h.count(detail)
		check := func(what string, tf *metadata.TargetFiles, err error, path string) {
			if bad {
				if err == nil {
					h.fail(what+"-unsupported", "unsupported algorithm accepted", "input", detail)
				}
				return
			}
			if err != nil {
				h.fail(what+"-error", err.Error(), "input", detail)
				return
			}
			want := map[string]string{}
			l := algs
			if len(l) == 0 {
				l = []string{"sha256"}
			}
			for _, a := range l {
				x, y := sha256.Sum256(data), sha512.Sum512(data)
				want[a] = string(x[:])
				if a == "sha512" {
					want[a] = string(y[:])
				}
			}
			ok := tf.Length == int64(len(data)) && tf.Path == path
			for a, v := range tf.Hashes {
				x, y := sha256.Sum256(data), sha512.Sum512(data)
				ok = ok && (a == "sha256" && string(v) == string(x[:]) || a == "sha512" && string(v) == string(y[:]))
			}
			for a := range want {
				_, has := tf.Hashes[a]
				ok = ok && has
			}
			if !ok {
				h.fail(what+"-facts", "recorded facts differ from the content's", "input", detail, "got", js(tf))
			}
		}
		h.guard("frombytes", detail, func() {
			tf, err := metadata.TargetFile().FromBytes("p/q", data, algs...)
			check("frombytes", tf, err, "p/q")
		})
		if c%10 == 0 {
			h.guard("fromfile", detail, func() {
				p := filepath.Join(dir, "f")
				must(os.WriteFile(p, data, 0o600))
				tf, err := metadata.TargetFile().FromFile(p, algs...)
				check("fromfile", tf, err, p)
			})
		}
	}
	// equality of recorded facts
	for c := 0; c < h.n(3000) && h.more(); c++ {
		mk := func() metadata.Hashes {
			hs := metadata.Hashes{}
			for n := r.Intn(3); n > 0; n-- {
				hs[pick(r, "sha256", "sha512", "x")] = pick(r, []byte{1, 2}, []byte{1, 2}, []byte{1, 3}, []byte{1}, []byte{})
			}
			return hs
		}
		a := metadata.TargetFiles{Length: int64(r.Intn(2)), Hashes: mk()}
		b := metadata.TargetFiles{Length: int64(r.Intn(2)), Hashes: mk()}
		common, same := false, true
		for k, v := range b.Hashes {
			if w, ok := a.Hashes[k]; ok {
				common = true
				same = same && string(v) == string(w)
			}
		}
		detail := js(a) + " " + js(b)
		h.count("equal " + detail)
		h.guard("equal", detail, func() {
			if got := a.Equal(b); got != (a.Length == b.Length && common && same) {
				h.fail(fmt.Sprintf("equal-%v", got), "wrong comparison of recorded facts", "input", detail)
			}
		})
	}
}
