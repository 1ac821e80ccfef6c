package zzverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"testing"
	"unicode/utf8"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

// ---- C20 ----

// extraValue is a value of an unrecognised member.
func extraValue(r *rand.Rand, depth int) any {
	switch r.Intn(11) {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return pick(r, 0, -1, 1, 7, 1<<31, 1<<53, -(1 << 53), r.Intn(1<<40))
	case 3:
		return ""
	case 4:
		return pick(r, "v", "\"q\\", "é \u2028", "<a>&amp;", "0", "null", "a\nb")
	case 5, 6:
		l := []any{}
		for i := 0; depth < 3 && i < r.Intn(4); i++ {
			l = append(l, extraValue(r, depth+1))
		}
		return l
	case 7, 8:
		o := obj{}
		for i := 0; depth < 3 && i < r.Intn(4); i++ {
			o[pick(r, "a", "b", "version", "_type", "", "keys", "x")] = extraValue(r, depth+1)
		}
		return o
	}
	return fmt.Sprint("v", r.Intn(100))
}

var allMembers = []string{"_type", "spec_version", "consistent_snapshot", "version", "expires", "keys", "roles", "meta", "targets", "delegations", "length", "hashes", "custom", "keytype", "scheme", "keyval", "signed", "signatures", "keyid", "sig", "public", "keyids", "threshold", "succinct_roles", "name", "terminating", "paths", "path_hash_prefixes", "bit_length", "name_prefix", "id", "path", "Path-", "UnrecognizedField", "unrecognized"}

// members that a part of the document recognises (encoding/json compares them without regard to case)
var partMembers = map[string][]string{
	"document": {"signed", "signatures"}, "signature": {"keyid", "sig"},
	"root": {"_type", "spec_version", "consistent_snapshot", "version", "expires", "keys", "roles"},
	"snapshot": {"_type", "spec_version", "version", "expires", "meta"}, "timestamp": {"_type", "spec_version", "version", "expires", "meta"},
	"targets": {"_type", "spec_version", "version", "expires", "targets", "delegations"},
	"key":     {"keytype", "scheme", "keyval"}, "keyval": {"public"}, "role": {"keyids", "threshold"},
	"metafile": {"length", "hashes", "version"}, "targetfile": {"length", "hashes", "custom"},
	"delegations": {"keys", "roles", "succinct_roles"},
	"delegated":   {"name", "keyids", "threshold", "terminating", "paths", "path_hash_prefixes"},
	"succinct":    {"keyids", "threshold", "bit_length", "name_prefix"},
}

// members that the encoder of a part leaves out when they are not set
var optional = map[string][]string{
	"targets": {"delegations"}, "metafile": {"length", "hashes"}, "targetfile": {"custom"}, "delegations": {"roles", "succinct_roles"}, "delegated": {"paths", "path_hash_prefixes"},
}

// with adds unrecognised members to a part; never is how many parts of ten get none.
func with(r *rand.Rand, part string, never int, o obj, log map[string]bool) obj {
	if r.Intn(10) < never {
		return o
	}
	mine := map[string]bool{}
	for _, m := range partMembers[part] {
		mine[m] = true
	}
	for i := 0; i < 1+r.Intn(3); i++ {
		k := "x-" + fmt.Sprint(r.Intn(30))
		switch r.Intn(4) {
		case 0: // a member that only other parts recognise
			k = pick(r, allMembers...)
		case 1:
			k = pick(r, "", " ", "x\"y", "é", "_", "0", "$schema", "type", "keys ", "Versions", "hash")
		}
		if mine[k] {
			continue
		}
		o[k] = extraValue(r, 0)
		log[part] = true
	}
	return o
}

func fullKeys(r *rand.Rand, never int, log map[string]bool) obj {
	o := obj{}
	for i := 0; i < r.Intn(4); i++ {
		k := ed(r.Intn(4))
		v := keyObj(k)
		v["keyval"] = with(r, "keyval", never, v["keyval"].(obj), log)
		id := k.id
		if r.Intn(5) == 0 {
			id = fmt.Sprint("id", i)
		}
		o[id] = with(r, "key", never, v, log)
	}
	return o
}

func fullIDs(r *rand.Rand) []any {
	l := []any{}
	for i := 0; i < r.Intn(4); i++ {
		l = append(l, pick(r, ed(0).id, ed(1).id, "id1", "ff", ""))
	}
	return l
}

func fullHashes(r *rand.Rand) obj {
	o := obj{}
	for i := 0; i < 1+r.Intn(3); i++ {
		h := hashesOf([]byte(fmt.Sprint(r.Int())))
		o[pick(r, "sha256", "sha512", "md5", "x")] = pick(r, h["sha256"], h["sha512"], any("00"), any(""))
	}
	return o
}

// fullDoc makes a document of the role in which every member appears sooner or later.
func fullDoc(r *rand.Rand, rl string, log map[string]bool) obj {
	never := pick(r, 0, 5, 9, 10)
	s := obj{"_type": rl, "spec_version": pick(r, "1.0.31", "1.0", ""), "version": pick(r, 0, 1, 2, 9, 1<<40), "expires": pick(r, farFuture, farPast, "2030-12-31T23:59:59Z", "2024-02-29T00:00:00+01:00")}
	switch rl {
	case "root":
		rs := obj{}
		for _, n := range append([]string{"mirrors", "x"}, topRoles...) {
			if r.Intn(5) > 0 {
				rs[n] = with(r, "role", never, obj{"keyids": fullIDs(r), "threshold": 1 + r.Intn(3)}, log)
			}
		}
		s["consistent_snapshot"], s["roles"], s["keys"] = r.Intn(2) == 0, rs, fullKeys(r, never, log)
	case "snapshot", "timestamp":
		m := obj{}
		for i := 0; i < r.Intn(4); i++ {
			f := obj{"version": r.Intn(5)}
			if r.Intn(2) == 0 {
				f["length"] = 1 + r.Intn(1<<30)
			}
			if r.Intn(2) == 0 {
				f["hashes"] = fullHashes(r)
			}
			m[pick(r, "snapshot", "targets", "a", "", "é")+".json"] = with(r, "metafile", never, f, log)
		}
		s["meta"] = m
	case "targets":
		m := obj{}
		for i := 0; i < r.Intn(4); i++ {
			f := obj{"length": r.Intn(100), "hashes": fullHashes(r)}
			if r.Intn(2) == 0 {
				f["custom"] = pick[any](r, 1, "c", obj{"a": []any{1, "b", nil}, "path": "p"}, []any{}, obj{}, false, "", 0, "<&>")
			}
			m[pick(r, "x", "d/y", "z", "é", "")] = with(r, "targetfile", never, f, log)
		}
		s["targets"] = m
		if r.Intn(4) > 0 {
			d := obj{"keys": fullKeys(r, never, log)}
			switch r.Intn(5) {
			case 0:
			case 1:
				d["succinct_roles"] = with(r, "succinct", never, obj{"keyids": fullIDs(r), "threshold": 1 + r.Intn(3), "bit_length": 1 + r.Intn(32), "name_prefix": pick(r, "bin", "", "a-b")}, log)
			default:
				l := []any{}
				for i := 0; i < r.Intn(4); i++ {
					dr := obj{"name": fmt.Sprint(pick(r, "a", "b/c", "é"), i), "keyids": fullIDs(r), "threshold": 1 + r.Intn(3), "terminating": r.Intn(2) == 0}
					pats := []any{}
					for j := 0; j < r.Intn(3); j++ {
						pats = append(pats, pick(r, "*", "a/*", "00", "ff", ""))
					}
					switch r.Intn(3) {
					case 0:
						dr["paths"] = pats
					case 1:
						dr["path_hash_prefixes"] = pats
					}
					l = append(l, with(r, "delegated", never, dr, log))
				}
				d["roles"] = l
			}
			s["delegations"] = with(r, "delegations", never, d, log)
		}
	}
	ss := []any{}
	for i := 0; i < r.Intn(4); i++ {
		ss = append(ss, with(r, "signature", never, obj{"keyid": fmt.Sprint("k", i), "sig": pick(r, "", "00ff", "0123456789abcdef")}, log))
	}
	return with(r, "document", never, obj{"signed": with(r, rl, never, s, log), "signatures": ss}, log)
}

// text writes the document as JSON: with or without spaces, members in the order of the map or backwards.
func jsonText(r *rand.Rand, o obj) []byte {
	b, err := json.Marshal(o)
	must(err)
	if r.Intn(2) == 0 {
		var w bytes.Buffer
		must(json.Indent(&w, b, " ", pick(r, "", "\t", "  ")))
		return w.Bytes()
	}
	return b
}

// diff tells where two JSON values differ.
func jdiff(path string, a, b any) string {
	if canon(a) == canon(b) {
		return ""
	}
	if x, ok := a.(map[string]any); ok {
		if y, ok := b.(map[string]any); ok {
			for _, k := range sortedKeys(x) {
				if _, ok := y[k]; !ok {
					return path + "." + k + " is lost"
				}
				if d := jdiff(path+"."+k, x[k], y[k]); d != "" {
					return d
				}
			}
			for _, k := range sortedKeys(y) {
				if _, ok := x[k]; !ok {
					return path + "." + k + " was not there"
				}
			}
		}
	}
	if x, ok := a.([]any); ok {
		if y, ok := b.([]any); ok && len(x) == len(y) {
			for i := range x {
				if d := jdiff(fmt.Sprintf("%s[%d]", path, i), x[i], y[i]); d != "" {
					return d
				}
			}
		}
	}
	return fmt.Sprintf("%s is %s, was %s", path, trunc(canon(b), 200), trunc(canon(a), 200))
}

type serialiser interface {
	ToBytes(bool) ([]byte, error)
	ToFile(string, bool) error
}

type docLoader func(b []byte, file string) (serialiser, error)

func loaderFor[T metadata.Roles](mk func() *metadata.Metadata[T]) docLoader {
	return func(b []byte, file string) (serialiser, error) {
		if file != "" {
			return mk().FromFile(file)
		}
		return mk().FromBytes(b)
	}
}

var docLoaders = map[string]docLoader{
	"root":      loaderFor(func() *metadata.Metadata[metadata.RootType] { return metadata.Root() }),
	"snapshot":  loaderFor(func() *metadata.Metadata[metadata.SnapshotType] { return metadata.Snapshot() }),
	"timestamp": loaderFor(func() *metadata.Metadata[metadata.TimestampType] { return metadata.Timestamp() }),
	"targets":   loaderFor(func() *metadata.Metadata[metadata.TargetsType] { return metadata.Targets() }),
}

func TestC20(t *testing.T) {
	h := start(t, "C20", "random documents of the four roles with every recognised member (optional ones present or absent) and unrecognised members in every kind of part, named freely, like members of other parts, or like nothing; read from bytes or a file, written several times as bytes and to files, compact and indented, each compared with the document; the object must not change; parts created in memory with and without unrecognised members; non-trivial: some part carries an unrecognised member")
	defer h.done()
	r := h.rng
	dir := scratch(h)
	for c := 0; c < h.n(2500) && h.more(); c++ {
		rl := pick(r, "root", "snapshot", "timestamp", "targets", "targets")
		log := map[string]bool{}
		d := fullDoc(r, rl, log)
		b := jsonText(r, d)
		if !utf8.Valid(b) {
			continue
		}
		h.guard("round", string(b), func() {
			for _, p := range sortedKeys(log) {
				h.stat("unrecognised in " + p)
			}
			h.count(string(b))
			file := ""
			if r.Intn(3) == 0 {
				file = filepath.Join(dir, fmt.Sprint("d", r.Intn(5)))
				must(os.WriteFile(file, b, 0o644))
			}
			o, err := docLoaders[rl](b, file)
			if err != nil {
				h.fail("refused", "a well-formed document is refused: "+err.Error(), "document", string(b))
				return
			}
			before := dump(o)
			want := normal(d)
			for i := 0; i < 3; i++ {
				var out []byte
				pretty := r.Intn(2) == 0
				how := "ToBytes"
				if i == 1 {
					how = "ToFile"
					f := filepath.Join(dir, fmt.Sprint("o", r.Intn(3)))
					if err = o.ToFile(f, pretty); err == nil {
						out, err = os.ReadFile(f)
					}
				} else {
					out, err = o.ToBytes(pretty)
				}
				if err != nil {
					h.fail("unwritable", "a document that was read cannot be written: "+err.Error(), "document", string(b))
					return
				}
				var got any
				dec := json.NewDecoder(bytes.NewReader(out))
				dec.UseNumber()
				if err := dec.Decode(&got); err != nil {
					h.fail("notjson", how+" writes text that is not JSON: "+err.Error(), "document", string(b), "output", string(out))
					return
				}
				if df := jdiff("", want, got); df != "" {
					h.fail("round/"+how, "reading and writing changes the document: "+df, "document", string(b), "output", string(out))
				}
				if after := dump(o); after != before {
					h.fail("changed", "serialising changes the object", "document", string(b), "before", before, "after", after)
					return
				}
			}
		})
	}
	h.parts()
	h.jsonFindings()
}

// parts serialises parts made in memory, alone.
func (h *H) parts() {
	r := h.rng
	for c := 0; c < h.n(1200) && h.more(); c++ {
		extra := func(part string) (map[string]any, obj) {
			if r.Intn(4) == 0 {
				return pick(r, nil, map[string]any{}), obj{}
			}
			log := map[string]bool{}
			o := with(r, part, 0, obj{}, log)
			if r.Intn(6) == 0 { // an unrecognised member named like a recognised one must give way
				ms := partMembers[part]
				k := ms[r.Intn(len(ms))]
				for _, op := range optional[part] {
					if op == k {
						return o, clone(o)
					}
				}
				u := clone(o)
				u[k] = "overridden"
				return u, clone(o)
			}
			return o, clone(o)
		}
		hex := metadata.HexBytes{0, byte(r.Intn(256))}
		str := fmt.Sprint("s", r.Intn(50))
		n := int64(1 + r.Intn(100))
		idl := pick(r, []string{"a", "b"}, []string{}, []string{"x"})
		var v any
		var want obj
		var part string
		switch r.Intn(9) {
		case 0:
			part = "signature"
			u, w := extra(part)
			v, want = metadata.Signature{KeyID: str, Signature: hex, UnrecognizedFields: u}, w
			want["keyid"], want["sig"] = str, fmt.Sprintf("%x", []byte(hex))
		case 1:
			part = "keyval"
			u, w := extra(part)
			v, want = metadata.KeyVal{PublicKey: str, UnrecognizedFields: u}, w
			want["public"] = str
		case 2:
			part = "key"
			u, w := extra(part)
			u2, w2 := extra("keyval")
			v, want = metadata.Key{Type: str, Scheme: str + "'", Value: metadata.KeyVal{PublicKey: "p", UnrecognizedFields: u2}, UnrecognizedFields: u}, w
			w2["public"] = "p"
			want["keytype"], want["scheme"], want["keyval"] = str, str+"'", w2
		case 3:
			part = "role"
			u, w := extra(part)
			v, want = metadata.Role{KeyIDs: idl, Threshold: int(n), UnrecognizedFields: u}, w
			want["keyids"], want["threshold"] = idl, n
		case 4:
			part = "metafile"
			u, w := extra(part)
			m := metadata.MetaFiles{Version: n, UnrecognizedFields: u}
			want = w
			want["version"] = n
			if r.Intn(2) == 0 {
				m.Length, want["length"] = n+1, n+1
			}
			if r.Intn(2) == 0 {
				m.Hashes, want["hashes"] = metadata.Hashes{"sha256": hex}, obj{"sha256": fmt.Sprintf("%x", []byte(hex))}
			}
			v = m
		case 5:
			part = "targetfile"
			u, w := extra(part)
			m := metadata.TargetFiles{Length: n, Hashes: metadata.Hashes{"sha256": hex}, Path: "somewhere", UnrecognizedFields: u}
			want = w
			want["length"], want["hashes"] = n, obj{"sha256": fmt.Sprintf("%x", []byte(hex))}
			if r.Intn(2) == 0 {
				raw := json.RawMessage(`{"c":1}`)
				m.Custom, want["custom"] = &raw, obj{"c": 1}
			}
			v = m
		case 6:
			part = "delegated"
			u, w := extra(part)
			m := metadata.DelegatedRole{Name: str, KeyIDs: idl, Threshold: int(n), Terminating: r.Intn(2) == 0, UnrecognizedFields: u}
			want = w
			want["name"], want["keyids"], want["threshold"], want["terminating"] = str, idl, n, m.Terminating
			switch r.Intn(3) {
			case 0:
				m.Paths, want["paths"] = idl, idl
			case 1:
				m.PathHashPrefixes, want["path_hash_prefixes"] = idl, idl
			}
			v = m
		case 7:
			part = "succinct"
			u, w := extra(part)
			v, want = metadata.SuccinctRoles{KeyIDs: idl, Threshold: int(n), BitLength: 8, NamePrefix: str, UnrecognizedFields: u}, w
			want["keyids"], want["threshold"], want["bit_length"], want["name_prefix"] = idl, n, 8, str
		case 8:
			part = "delegations"
			u, w := extra(part)
			m := metadata.Delegations{Keys: map[string]*metadata.Key{}, UnrecognizedFields: u}
			want = w
			want["keys"] = obj{}
			switch r.Intn(3) {
			case 0:
				m.Roles, want["roles"] = []metadata.DelegatedRole{}, []any{}
			case 1:
				m.SuccinctRoles = &metadata.SuccinctRoles{KeyIDs: idl, Threshold: 1, BitLength: 2, NamePrefix: str}
				want["succinct_roles"] = obj{"keyids": idl, "threshold": 1, "bit_length": 2, "name_prefix": str}
			}
			v = m
		}
		h.guard("part/"+part, dump(v), func() {
			h.count("part " + part + dump(v))
			h.stat("part " + part)
			before := dump(v)
			out, err := json.Marshal(v)
			if err != nil {
				h.fail("part/"+part, "the part cannot be written: "+err.Error(), "object", before)
				return
			}
			if df := jdiff("", normal(want), normal(json.RawMessage(out))); df != "" {
				h.fail("part/"+part, "the part is not written as it is: "+df, "object", before, "output", string(out))
			}
			if dump(v) != before {
				h.fail("part-changed/"+part, "serialising changes the part", "before", before, "after", dump(v))
			}
		})
	}
}

// jsonFindings runs the inputs that are recorded as known findings, each under a case of its own.
func (h *H) jsonFindings() {
	try := func(caseID, member, val string) {
		in := `{"signed":{"_type":"timestamp","spec_version":"1.0.31","version":3,"expires":"` + farFuture + `","meta":{},"` + member + `":` + val + `},"signatures":[]}`
		h.guard(caseID, in, func() {
			h.count(in)
			o, err := metadata.Timestamp().FromBytes([]byte(in))
			if err != nil {
				return
			}
			out, err := o.ToBytes(false)
			must(err)
			if canonJSON([]byte(in)) != canonJSON(out) {
				h.fail(caseID, "reading and writing changes the document", "document", in, "output", string(out))
			}
		})
	}
	try("finding/unrecognised-integer-above-2^53", "x", "9007199254740993")
	try("finding/unrecognised-integer-written-with-exponent", "x", "1000000000000000000000")
	try("finding/case-variant-of-recognised-member", "Version", "7")
}
