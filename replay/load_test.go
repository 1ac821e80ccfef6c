package zzverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
)

// ---- C08: decoding accepts only the expected type and leaves the receiver alone on error ----

var topRoles = []string{"root", "timestamp", "snapshot", "targets"}

// body is the signed part of a plausible document of the given role.
func body(r *rand.Rand, role string) obj {
	o := obj{"_type": role, "spec_version": "1.0.31", "version": 1 + r.Intn(5), "expires": exp(r.Intn(4) == 0)}
	hs := func() obj { return hashesOf([]byte(fmt.Sprint(r.Int()))) }
	switch role {
	case "root":
		rs := obj{}
		for _, n := range topRoles {
			rs[n] = obj{"keyids": ids(ed(r.Intn(3))), "threshold": 1 + r.Intn(2)}
		}
		o["consistent_snapshot"], o["roles"], o["keys"] = r.Intn(2) == 0, rs, keysObj(ed(0), ed(1), ed(2))
	case "timestamp":
		o["meta"] = obj{"snapshot.json": obj{"version": 1 + r.Intn(4), "hashes": hs(), "length": r.Intn(500)}}
	case "snapshot":
		m := obj{}
		for i := 0; i < 1+r.Intn(3); i++ {
			m[pick(r, "targets", "a", "b", "c")+".json"] = obj{"version": r.Intn(4), "length": r.Intn(3)}
		}
		o["meta"] = m
	case "targets":
		m := obj{}
		for i := 0; i < r.Intn(3); i++ {
			m[pick(r, "x", "d/y", "z")] = obj{"length": r.Intn(9), "hashes": hs()}
		}
		o["targets"] = m
		if r.Intn(2) == 0 {
			o["delegations"] = obj{"keys": keysObj(ed(0)), "roles": []any{obj{"name": "a", "keyids": ids(ed(0)), "threshold": 1, "terminating": r.Intn(2) == 0, "paths": []any{"*"}}}}
		}
	}
	if r.Intn(3) == 0 {
		o["x-"+fmt.Sprint(r.Intn(9))] = pick[any](r, nil, 7, "v", []any{1, "a"}, obj{"k": 2})
	}
	return o
}

// mangle turns the document into text, perhaps damaging it on the way; the second result says what was done.
func mangle(r *rand.Rand, role, is string, o obj) ([]byte, string) {
	signed := o
	d := obj{"signed": signed}
	var ss []any
	for i := 0; i < r.Intn(5); i++ {
		ss = append(ss, obj{"keyid": fmt.Sprintf("%02x", i), "sig": "00ff"})
	}
	d["signatures"] = ss
	if ss == nil {
		d["signatures"] = []any{}
	}
	what := ""
	note := func(s string) { what += s + ";" }
	for c := r.Intn(3); c > 0; c-- {
		switch r.Intn(15) {
		case 0:
			signed["_type"] = pick[any](r, "root", "timestamp", "snapshot", "targets", "mirrors", "", " "+role, role+"s")
			note("type")
		case 1:
			signed["_type"] = pick[any](r, nil, 3, []any{role}, obj{}, true)
			note("type kind")
		case 2:
			delete(signed, "_type")
			note("no type")
		case 3:
			signed["_type"] = strings.ToUpper(role[:1]) + role[1:]
			note("type case")
		case 4, 5: // a duplicate of some earlier signature, anywhere
			if len(ss) > 0 {
				dup := ss[r.Intn(len(ss))].(obj)["keyid"]
				ss = append(ss, obj{"keyid": dup, "sig": pick(r, "00ff", "01")})
				r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
				d["signatures"] = ss
				note("duplicate signature")
			}
		case 6:
			d["signed"] = pick[any](r, nil, "x", []any{}, obj{})
			note("signed")
		case 7:
			delete(d, pick(r, "signed", "signatures"))
			note("member missing")
		case 8:
			signed["version"] = pick[any](r, "1", 1.5, nil, -1)
			note("version")
		case 9:
			signed["expires"] = pick[any](r, "never", 5)
			note("expires")
		case 10:
			k := pick(r, "meta", "keys", "roles", "targets", "delegations")
			signed[k] = pick[any](r, nil, 1, obj{"a": nil}, obj{"a": obj{"length": "x"}}, []any{nil})
			note("bad " + k)
		case 11:
			d["signatures"] = pick[any](r, nil, 1, []any{obj{"keyid": "a", "sig": "zz"}}, []any{obj{"keyid": "a", "sig": "00"}, obj{"keyid": 3, "sig": "00"}}, []any{obj{"sig": "00"}, obj{"sig": "01"}})
			note("bad signatures")
		case 12:
			d["extra"] = pick[any](r, nil, 1, obj{"a": 1})
		}
	}
	b, err := json.Marshal(d)
	must(err)
	t := string(b)
	variant := func(n string) string { return pick(r, n, strings.ToUpper(n), n[:len(n)-1]+strings.ToUpper(n[len(n)-1:])) }
	how := r.Intn(12)
	if is != role && r.Intn(2) == 0 {
		how = 0
	}
	switch how {
	case 0:
		// a second type member, possibly spelled in another case
		v := js(pick(r, role, pick(r, topRoles...)))
		if i := strings.Index(t, `"signed":{`); i >= 0 {
			m := js(variant("_type")) + ":" + v
			if r.Intn(2) == 0 {
				t = t[:i+len(`"signed":{`)] + m + "," + t[i+len(`"signed":{`):]
			} else if j := strings.LastIndex(t, "}}"); j > i {
				t = t[:j] + "," + m + t[j:]
			}
			note("second type")
		}
	case 1:
		// a second signed or signatures member
		n := pick(r, "signed", "signatures")
		var v any = body(r, pick(r, topRoles...))
		if n == "signatures" {
			v = pick[any](r, []any{}, []any{obj{"keyid": "q", "sig": "00"}, obj{"keyid": "q", "sig": "00"}})
		}
		m := js(variant(n)) + ":" + js(v)
		if r.Intn(2) == 0 {
			t = "{" + m + "," + t[1:]
		} else {
			t = t[:len(t)-1] + "," + m + "}"
		}
		note("second " + n)
	case 2:
		t = t[:r.Intn(len(t))]
		note("cut")
	case 3:
		t += pick(r, "x", "{}", " ", "\n", "]")
		note("trailing")
	case 4:
		t = pick(r, "", "null", "[]", "5", `"x"`, "{}", "\x00", `{"signed":null}`)
		note("other")
	}
	return []byte(t), what
}

func loadCase[T metadata.Roles](h *H, dir, role string, fresh func() *metadata.Metadata[T], other func() *metadata.Metadata[T]) {
	r := h.rng
	m := pick(r, fresh, other, func() *metadata.Metadata[T] { return &metadata.Metadata[T]{} })()
	is := role
	if r.Intn(5) == 0 {
		is = pick(r, topRoles...)
	}
	text, what := mangle(r, role, is, body(r, is))
	in := append([]byte{}, text...)
	before := dump(m)
	via := "FromBytes"
	var got *metadata.Metadata[T]
	var err error
	id := role + "/" + is + "/" + what
	h.guard("panic "+role+" "+what, string(text), func() {
		if r.Intn(2) == 0 {
			got, err = m.FromBytes(text)
			return
		}
		via = "FromFile"
		p := filepath.Join(dir, "in")
		switch r.Intn(8) {
		case 0:
			p = filepath.Join(dir, "absent")
		case 1:
			p = dir
		default:
			must(os.WriteFile(p, text, 0o600))
		}
		got, err = m.FromFile(p)
		if err == nil && p != filepath.Join(dir, "in") {
			h.fail("no file", fmt.Sprintf("FromFile(%s) of a path that is not a readable file succeeds", p))
		}
	})
	h.count(via + string(text))
	h.stat(via)
	if !bytes.Equal(in, text) {
		h.fail("input/"+id, via+" changes the text it was given", string(in))
	}
	if err != nil {
		h.stat("refused")
		if got != nil {
			h.fail("result/"+id, via+" returns an object together with the error "+err.Error(), string(text))
		}
		if after := dump(m); after != before {
			h.fail("receiver/"+id, fmt.Sprintf("%s failed (%v) and changed the receiver", via, err), string(text), before, after)
		}
		return
	}
	h.stat("loaded")
	if got != m {
		h.fail("result/"+id, via+" does not return the receiver", string(text))
	}
	var g map[string]any
	if e := json.Unmarshal(text, &g); e != nil {
		h.fail("json/"+id, via+" accepts text that is not JSON", string(text))
		return
	}
	s, _ := g["signed"].(map[string]any)
	if s["_type"] != any(role) {
		h.fail("type/"+id, fmt.Sprintf("%s as %s accepts a document of type %v", via, role, s["_type"]), string(text))
	}
	var typ string
	switch v := any(&m.Signed).(type) {
	case *metadata.RootType:
		typ = v.Type
	case *metadata.TimestampType:
		typ = v.Type
	case *metadata.SnapshotType:
		typ = v.Type
	case *metadata.TargetsType:
		typ = v.Type
	}
	if typ != role {
		h.fail("loaded type/"+id, fmt.Sprintf("the object %s loads as %s says it is %q", via, role, typ), string(text))
	}
	seen := map[string]bool{}
	for _, s := range m.Signatures {
		if seen[s.KeyID] {
			h.fail("unique/"+id, fmt.Sprintf("%s loads two signatures of key %q", via, s.KeyID), string(text))
		}
		seen[s.KeyID] = true
	}
	if l, ok := g["signatures"].([]any); ok && !strings.Contains(what, "second") {
		n := map[any]bool{}
		for _, e := range l {
			if o, ok := e.(map[string]any); ok {
				if n[o["keyid"]] {
					h.fail("unique/"+id, fmt.Sprintf("%s accepts two signatures of key %q", via, o["keyid"]), string(text))
				}
				n[o["keyid"]] = true
			}
		}
	}
}

func used[T metadata.Roles](r *rand.Rand, role string, fresh func() *metadata.Metadata[T]) func() *metadata.Metadata[T] {
	return func() *metadata.Metadata[T] {
		b, err := json.Marshal(obj{"signed": body(r, role), "signatures": []any{obj{"keyid": "old", "sig": "00"}}, "custom": "old"})
		must(err)
		m := fresh()
		_, err = m.FromBytes(b)
		must(err)
		return m
	}
}

func TestC08(t *testing.T) {
	h := start(t, "C08", "documents of the four roles, whole or damaged (types missing, of other roles, in another case or given twice, duplicate signatures, members missing, given twice or of the wrong kind, cut and extended text), loaded from bytes or a file into new, empty and used objects; non-trivial: refused documents and loaded ones")
	defer h.done()
	dir := scratch(h)
	r := h.rng
	when, err := time.Parse(time.RFC3339, farFuture)
	must(err)
	nr := func() *metadata.Metadata[metadata.RootType] { return metadata.Root(when) }
	nt := func() *metadata.Metadata[metadata.TimestampType] { return metadata.Timestamp(when) }
	ns := func() *metadata.Metadata[metadata.SnapshotType] { return metadata.Snapshot(when) }
	ng := func() *metadata.Metadata[metadata.TargetsType] { return metadata.Targets(when) }
	for i := 0; i < h.n(6000) && h.more(); i++ {
		switch i % 4 {
		case 0:
			loadCase(h, dir, "root", nr, used(r, "root", nr))
		case 1:
			loadCase(h, dir, "timestamp", nt, used(r, "timestamp", nt))
		case 2:
			loadCase(h, dir, "snapshot", ns, used(r, "snapshot", ns))
		case 3:
			loadCase(h, dir, "targets", ng, used(r, "targets", ng))
		}
	}
}

// ---- C06: no document crashes the client ----

// wreck replaces, adds or removes something somewhere in the value.
func wreck(r *rand.Rand, v any, d int) any {
	junk := func() any {
		return pick[any](r, nil, nil, nil, obj{}, []any{}, 0, -1, 1, 33, 64, 1.5, 1e30, "", "x", "00", "root", "snapshot.json", "targets", "ed25519", "rsa", "ecdsa", "\x00", true,
			obj{"a": nil}, []any{nil}, obj{"": obj{}}, "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n", strings.Repeat("ab", r.Intn(40)), "2998-01-02T03:04:05Z")
	}
	if d == 0 || r.Intn(7) == 0 {
		return junk()
	}
	switch o := v.(type) {
	case obj:
		ks := sortedKeys(o)
		if len(ks) == 0 || r.Intn(12) == 0 {
			o[pick(r, "a", "", "snapshot.json", "targets.json", "_type", "terminating", "paths", "path_hash_prefixes", "succinct_roles", "bit_length", "roles", "delegations", "custom")] = junk()
			return o
		}
		k := pick(r, ks...)
		switch r.Intn(12) {
		case 0:
			delete(o, k)
		case 1:
			o[k] = nil
		case 2:
			o[strings.ToUpper(k)] = junk()
		default:
			o[k] = wreck(r, o[k], d-1)
		}
		return o
	case []any:
		if len(o) == 0 || r.Intn(6) == 0 {
			return append(o, junk())
		}
		i := r.Intn(len(o))
		o[i] = wreck(r, o[i], d-1)
		return o
	}
	return junk()
}

// direct checks decoded parts of documents without any signature
func direct(h *H) {
	r := h.rng
	hexs := func(n int) string { return strings.Repeat("ab", n) }
	pem := []string{key("rsa", 0).meta.Value.PublicKey, key("ecdsa", 0).meta.Value.PublicKey, "", "x", hexs(31), hexs(32), hexs(33), hexs(64), "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n"}
	try := func(what string, in any, f func(b []byte)) {
		b, err := json.Marshal(in)
		must(err)
		defer func() {
			if p := recover(); p != nil {
				h.fail("panic", fmt.Sprintf("%s panics: %v", what, p), string(b))
			}
		}()
		f(b)
	}
	for i := 0; i < h.n(4000) && h.more(); i++ {
		types := []string{"ed25519", "rsa", "ecdsa", "ecdsa-sha2-nistp256", "x", ""}
		kj := func() obj {
			return obj{"keytype": pick(r, types...), "scheme": pick(r, types...), "keyval": obj{"public": pick(r, pem...)}}
		}
		// the key of a role that signed, and one listed after it
		good := ed(0)
		root := obj{"_type": "root", "spec_version": "1.0.31", "version": 1, "expires": farFuture, "consistent_snapshot": true,
			"keys":  obj{good.id: keyObj(good), "k": kj(), "l": kj()},
			"roles": obj{"root": obj{"keyids": pick(r, []any{good.id, "k"}, []any{good.id, "missing"}, []any{"k"}, []any{"k", "l", good.id}), "threshold": pick(r, 0, 1, 2, -1)}, "timestamp": obj{"keyids": []any{good.id}, "threshold": 1}, "snapshot": obj{"keyids": []any{good.id}, "threshold": 1}, "targets": obj{"keyids": []any{good.id}, "threshold": 1}}}
		sg := sigs(root, good)
		for _, id := range []string{"k", "l"} {
			if r.Intn(2) == 0 {
				sg = append(sg, obj{"keyid": id, "sig": hexs(r.Intn(80))})
			}
		}
		try("loading a root", obj{"signed": root, "signatures": sg}, func(b []byte) {
			h.count(string(b))
			trustedmetadata.New(b)
		})
		prefix := pick(r, "s", "", "bin", "s-", "a-b")
		sr := obj{"keyids": []any{"k"}, "threshold": 1, "bit_length": pick(r, 1, 2, 4, 5, 8, 16, 31, 32, 0, -1, 33, 64), "name_prefix": prefix}
		try("a succinct role", sr, func(b []byte) {
			var s metadata.SuccinctRoles
			if json.Unmarshal(b, &s) != nil {
				return
			}
			h.count(string(b))
			for _, n := range []string{"", prefix, prefix + "-", prefix + "-0", prefix + "-00", prefix + "-0000", prefix + "x", prefix + "-" + hexs(20), prefix + "--1", prefix + "-zz"} {
				s.IsDelegatedRole(n)
			}
			s.GetRolesForTarget(pick(r, "", "a", "a/b"))
		})
		dr := obj{"name": "a", "keyids": []any{"k"}, "threshold": 1, "terminating": r.Intn(2) == 0}
		list := []any{}
		for c := r.Intn(3); c >= 0; c-- {
			list = append(list, pick(r, "", "a", "*", "[", "a/[", "a/*/b", "\\", "[a-", hexs(22), hexs(32), hexs(2)+"=", strings.Repeat("z", 44), strings.Repeat("-", 45)))
		}
		dr[pick(r, "paths", "path_hash_prefixes")] = list
		try("a delegated role", obj{"keys": obj{"k": kj()}, "roles": []any{dr}}, func(b []byte) {
			var d metadata.Delegations
			if json.Unmarshal(b, &d) != nil {
				return
			}
			h.count(string(b))
			for _, n := range []string{"", "a", "a/b", "/", "a/x/b", "\xff", "[", hexs(3)} {
				d.GetRolesForTarget(n)
				for i := range d.Roles {
					d.Roles[i].IsDelegatedPath(n)
				}
			}
			g := &metadata.Metadata[metadata.TargetsType]{Signed: metadata.TargetsType{Delegations: &d}}
			g.VerifyDelegate(pick(r, "a", "b", ""), g)
		})
	}
}

func TestC06(t *testing.T) {
	h := start(t, "C06", "signed root, timestamp, snapshot, targets and delegated targets documents with one to three parts replaced, removed or added anywhere, fed in random order to loading, to the trusted set and to the checks of what it then holds; non-trivial: documents accepted although damaged")
	defer h.done()
	r := h.rng
	k := []*TKey{ed(0), ed(1), key("ecdsa", 0)}
	direct(h)
	mk := func(role string) obj {
		o := normal(body(r, role)).(obj)
		o["expires"] = farFuture
		delete(o, "version")
		o["version"] = 1
		switch role {
		case "root":
			rs := obj{}
			for _, n := range topRoles {
				l := ids(pick(r, k...))
				if r.Intn(20) == 0 {
					l = append(l, "missing")
				}
				rs[n] = obj{"keyids": l, "threshold": 1}
			}
			o["roles"], o["keys"] = rs, keysObj(k...)
		case "timestamp":
			o["meta"] = obj{"snapshot.json": obj{"version": 1}}
		case "snapshot":
			o["meta"] = obj{"targets.json": obj{"version": 1}, "a.json": obj{"version": 1}, "s-0.json": obj{"version": 1}, "s-1.json": obj{"version": 1}}
		case "targets":
			switch r.Intn(3) {
			case 0:
				o["delegations"] = obj{"keys": keysObj(k...), "roles": []any{obj{"name": "a", "keyids": ids(k...), "threshold": 1, "terminating": false, "paths": []any{"*", "a/[b"}}, obj{"name": "b", "keyids": ids(k[0]), "threshold": 1, "terminating": true, "path_hash_prefixes": []any{"a", ""}}}}
			case 1:
				o["delegations"] = obj{"keys": keysObj(k...), "succinct_roles": obj{"keyids": ids(k...), "threshold": 1, "bit_length": 1, "name_prefix": "s"}}
			}
		}
		return normal(o).(obj)
	}
	text := func(o any) []byte {
		s, ok := o.(obj)
		if !ok {
			s = obj{}
		}
		b, err := json.Marshal(obj{"signed": o, "signatures": sigs(s, k...)})
		must(err)
		if r.Intn(15) == 0 {
			var d any
			must(json.Unmarshal(b, &d))
			b, err = json.Marshal(wreck(r, d, 3))
			must(err)
		}
		if r.Intn(40) == 0 {
			b = b[:r.Intn(len(b)+1)]
		}
		return b
	}
	damaged := func(role string, p int) []byte {
		var o any = mk(role)
		if r.Intn(p) == 0 {
			for c := 1 + r.Intn(3); c > 0; c-- {
				o = wreck(r, o, 1+r.Intn(5))
			}
			o = normal(o)
		}
		return text(o)
	}
	for i := 0; i < h.n(2500) && h.more(); i++ {
		var docs [][]byte
		give := func(role string, p int) []byte {
			b := damaged(role, p)
			docs = append(docs, b)
			return b
		}
		in := func() string {
			s := ""
			for _, d := range docs {
				s += string(d) + "\n"
			}
			return s
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					h.fail("panic", fmt.Sprintf("panic: %v", p), in())
				}
			}()
			tm, err := trustedmetadata.New(give("root", 3))
			h.count(in())
			if err != nil {
				h.stat("no root")
				metadata.Timestamp().FromBytes(give("timestamp", 2))
				metadata.Snapshot().FromBytes(give("snapshot", 2))
				metadata.Targets().FromBytes(give("targets", 2))
				return
			}
			n := 0
			acc := func(e error) {
				if e == nil {
					n++
				}
			}
			for c := 0; c < 7; c++ {
				q := pick(r, 1, 2, 4)
				step := c
				if r.Intn(3) == 0 {
					step = r.Intn(7)
				}
				switch step {
				case 0:
					_, e := tm.UpdateRoot(give("root", q))
					acc(e)
				case 1:
					_, e := tm.UpdateTimestamp(give("timestamp", q))
					acc(e)
				case 2:
					_, e := tm.UpdateSnapshot(give("snapshot", q), r.Intn(2) == 0)
					acc(e)
				case 3:
					_, e := tm.UpdateTargets(give("targets", q))
					acc(e)
				default:
					_, e := tm.UpdateDelegatedTargets(give("targets", q), pick(r, "a", "s-0", "s-1", "s-", "", "b", "root"), pick(r, "targets", "targets", "targets", "a", "root", ""))
					acc(e)
				}
			}
			h.stat(fmt.Sprintf("accepted %d", n))
			// what is trusted now is used
			now := time.Now()
			for _, role := range []string{"root", "targets", "a", "s-0", ""} {
				tm.Root.VerifyDelegate(role, tm.Root)
				for _, n := range sortedKeys(tm.Targets) {
					g := tm.Targets[n]
					g.VerifyDelegate(role, g)
					g.Signed.IsExpired(now)
					if dl := g.Signed.Delegations; dl != nil {
						dl.GetRolesForTarget("a/b")
						dl.GetRolesForTarget("")
						if s := dl.SuccinctRoles; s != nil {
							s.IsDelegatedRole("s-0")
							s.IsDelegatedRole("")
							s.GetRolesForTarget("x")
						}
						for i := range dl.Roles {
							dl.Roles[i].IsDelegatedPath("a/b")
						}
					}
					for _, f := range sortedKeys(g.Signed.Targets) {
						g.Signed.Targets[f].VerifyLengthHashes([]byte("abc"))
					}
				}
			}
			if tm.Timestamp != nil {
				tm.Timestamp.Signed.IsExpired(now)
				for _, f := range sortedKeys(tm.Timestamp.Signed.Meta) {
					tm.Timestamp.Signed.Meta[f].VerifyLengthHashes(nil)
				}
			}
			if tm.Snapshot != nil {
				for _, f := range sortedKeys(tm.Snapshot.Signed.Meta) {
					tm.Snapshot.Signed.Meta[f].VerifyLengthHashes(nil)
				}
			}
		}()
	}
}
