package zzverif

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/repository"
	"github.com/sigstore/sigstore/pkg/signature"
	"golang.org/x/exp/slices"
)

// dump writes out everything reachable from v, unexported fields included.
func dump(v any) string {
	var sb strings.Builder
	dumpTo(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

func dumpTo(sb *strings.Builder, v reflect.Value, d int) {
	if d > 40 {
		sb.WriteString("...")
		return
	}
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if v.Type() == reflect.TypeOf(time.Time{}) && v.CanInterface() {
		fmt.Fprintf(sb, "%d", v.Interface().(time.Time).UnixNano())
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			sb.WriteString(v.Elem().Type().String())
		}
		sb.WriteString("&")
		dumpTo(sb, v.Elem(), d+1)
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			sb.WriteString(v.Type().Field(i).Name + ":")
			dumpTo(sb, v.Field(i), d+1)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			fmt.Fprintf(sb, "%x", v.Bytes())
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpTo(sb, v.Index(i), d+1)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		var l []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dumpTo(&e, k, d+1)
			e.WriteString("=")
			dumpTo(&e, v.MapIndex(k), d+1)
			l = append(l, e.String())
		}
		sort.Strings(l)
		sb.WriteString("map" + fmt.Sprint(l))
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(sb, v.Float())
	default:
		sb.WriteString(v.Kind().String())
	}
}

// ---- C29 ----

func TestC29(t *testing.T) {
	h := start(t, "C29", "random histories of setting and reading the four roles of one or two containers (several names, overwriting, nil), every accessor compared after every step with a model; non-trivial: all")
	defer h.done()
	r := h.rng
	names := []string{"targets", "a", "b", "role1", "Role1", "root", "snapshot", "timestamp", "", "a/b", "..", "targets ", "long-" + strings.Repeat("x", 300)}
	for c := 0; c < h.n(400) && h.more(); c++ {
		h.guard("history", "", func() {
			type model struct {
				root *metadata.Metadata[metadata.RootType]
				snap *metadata.Metadata[metadata.SnapshotType]
				ts   *metadata.Metadata[metadata.TimestampType]
				tgt  map[string]*metadata.Metadata[metadata.TargetsType]
			}
			repos := []interface {
				Root() *metadata.Metadata[metadata.RootType]
				SetRoot(*metadata.Metadata[metadata.RootType])
				Snapshot() *metadata.Metadata[metadata.SnapshotType]
				SetSnapshot(*metadata.Metadata[metadata.SnapshotType])
				Timestamp() *metadata.Metadata[metadata.TimestampType]
				SetTimestamp(*metadata.Metadata[metadata.TimestampType])
				Targets(string) *metadata.Metadata[metadata.TargetsType]
				SetTargets(string, *metadata.Metadata[metadata.TargetsType])
			}{repository.New(), repository.New()}
			models := []*model{{tgt: map[string]*metadata.Metadata[metadata.TargetsType]{}}, {tgt: map[string]*metadata.Metadata[metadata.TargetsType]{}}}
			log := ""
			check := func() {
				for j, m := range models {
					rp := repos[j]
					if rp.Root() != m.root || rp.Snapshot() != m.snap || rp.Timestamp() != m.ts {
						h.fail("toplevel", fmt.Sprintf("after %s container %d does not return what was set", log, j))
					}
					for _, n := range names {
						if rp.Targets(n) != m.tgt[n] {
							h.fail("targets", fmt.Sprintf("after %s container %d returns another object for %q", log, j, trunc(n, 20)))
						}
					}
				}
			}
			check()
			dumps := map[any]string{}
			steps := 2 + r.Intn(25)
			for s := 0; s < steps; s++ {
				j := r.Intn(2)
				rp, m := repos[j], models[j]
				exp := time.Unix(int64(r.Intn(1000)), 0)
				switch r.Intn(6) {
				case 0:
					v := metadata.Root(exp)
					if r.Intn(6) == 0 {
						v = nil
					}
					rp.SetRoot(v)
					m.root = v
					log += fmt.Sprintf(" SetRoot@%d", j)
					if v != nil {
						dumps[v] = dump(v)
					}
				case 1:
					v := metadata.Snapshot(exp)
					v.Signed.Version = int64(r.Intn(5))
					if r.Intn(6) == 0 {
						v = nil
					}
					rp.SetSnapshot(v)
					m.snap = v
					log += fmt.Sprintf(" SetSnapshot@%d", j)
					if v != nil {
						dumps[v] = dump(v)
					}
				case 2:
					v := metadata.Timestamp(exp)
					v.Signed.Version = int64(r.Intn(5))
					if r.Intn(6) == 0 {
						v = nil
					}
					rp.SetTimestamp(v)
					m.ts = v
					log += fmt.Sprintf(" SetTimestamp@%d", j)
					if v != nil {
						dumps[v] = dump(v)
					}
				default:
					n := pick(r, names...)
					v := metadata.Targets(exp)
					v.Signed.Version = int64(r.Intn(5))
					if r.Intn(8) == 0 {
						v.Signed.Version = 0
						v.Signed.Type = "x"
					}
					if r.Intn(6) == 0 {
						v = nil
					}
					if r.Intn(4) == 0 { // an object that is stored already, here or in the other container
						v = models[r.Intn(2)].tgt[pick(r, names...)]
					}
					rp.SetTargets(n, v)
					m.tgt[n] = v
					log += fmt.Sprintf(" SetTargets(%q)@%d", trunc(n, 12), j)
					if v != nil {
						dumps[v] = dump(v)
					}
				}
				check()
				for o, d := range dumps {
					if dump(o) != d {
						h.fail("modified", "an object that was set is modified after"+log)
					}
				}
			}
			h.count(log)
		})
	}
}

// ---- C30 ----

func TestC30(t *testing.T) {
	h := start(t, "C30", "every constructor with no, one or several expiry dates, in histories in which objects created earlier are modified in every part; each new object is compared with the oracle and all earlier ones must stay as they were; non-trivial: all")
	defer h.done()
	r := h.rng
	type made struct {
		obj  any
		dump string
		what string
	}
	for c := 0; c < h.n(120) && h.more(); c++ {
		var l []made
		bad := func(what string, ok bool) {
			if !ok {
				h.fail(what, "newly created metadata is not well formed: "+what)
			}
		}
		steps := 3 + r.Intn(12)
		for s := 0; s < steps; s++ {
			h.guard("create", "", func() {
				var e []time.Time
				for i := r.Intn(4); i > 0; i-- {
					e = append(e, pick(r, time.Time{}, time.Unix(r.Int63n(5e9), r.Int63n(1e9)), time.Unix(-r.Int63n(1e9), 0).UTC(), time.Now().AddDate(1, 0, 0).In(time.FixedZone("x", 3600))))
				}
				eCopy := slices.Clone(e)
				before := time.Now()
				exp := func(got time.Time) bool {
					if len(e) > 0 {
						return got == eCopy[0]
					}
					return !got.Before(before.Add(-time.Second)) && !got.After(time.Now().Add(time.Second))
				}
				k := r.Intn(6)
				switch k {
				case 0:
					m := metadata.Root(e...)
					bad("root header", m.Signed.Type == "root" && m.Signed.SpecVersion == "1.0.31" && m.Signed.Version == 1 && exp(m.Signed.Expires) && len(m.Signatures) == 0 && len(m.UnrecognizedFields) == 0 && len(m.Signed.UnrecognizedFields) == 0)
					bad("root keys", m.Signed.Keys != nil && len(m.Signed.Keys) == 0)
					bad("root roles", len(m.Signed.Roles) == 4)
					for _, n := range []string{"root", "snapshot", "targets", "timestamp"} {
						ro := m.Signed.Roles[n]
						bad("role "+n, ro != nil && len(ro.KeyIDs) == 0 && ro.Threshold == 1 && len(ro.UnrecognizedFields) == 0)
					}
					d := dump(m)
					k := ed(r.Intn(4))
					n := pick(r, "root", "snapshot", "targets", "timestamp")
					others := map[string]string{}
					for o, ro := range m.Signed.Roles {
						if o != n {
							others[o] = dump(ro)
						}
					}
					must(m.Signed.AddKey(k.meta, n))
					m.Signed.Roles[n].Threshold = 2 + r.Intn(3)
					for o, want := range others {
						bad("roles share state", dump(m.Signed.Roles[o]) == want)
					}
					if r.Intn(2) == 0 {
						m.Signed.Roles[n] = &metadata.Role{KeyIDs: m.Signed.Roles[n].KeyIDs[:0], Threshold: 1}
						delete(m.Signed.Keys, k.id)
						bad("restored", true)
					}
					_ = d
					l = append(l, made{m, dump(m), "root"})
				case 1:
					m := metadata.Snapshot(e...)
					bad("snapshot header", m.Signed.Type == "snapshot" && m.Signed.SpecVersion == "1.0.31" && m.Signed.Version == 1 && exp(m.Signed.Expires) && len(m.Signatures) == 0)
					f := m.Signed.Meta["targets.json"]
					bad("snapshot meta", len(m.Signed.Meta) == 1 && f != nil && f.Version == 1 && f.Length == 0 && len(f.Hashes) == 0)
					f.Version = int64(2 + r.Intn(5))
					m.Signed.Meta["x.json"] = metadata.MetaFile(3)
					l = append(l, made{m, dump(m), "snapshot"})
				case 2:
					m := metadata.Timestamp(e...)
					bad("timestamp header", m.Signed.Type == "timestamp" && m.Signed.SpecVersion == "1.0.31" && m.Signed.Version == 1 && exp(m.Signed.Expires) && len(m.Signatures) == 0)
					f := m.Signed.Meta["snapshot.json"]
					bad("timestamp meta", len(m.Signed.Meta) == 1 && f != nil && f.Version == 1 && f.Length == 0 && len(f.Hashes) == 0)
					f.Version = int64(2 + r.Intn(5))
					f.Length = 7
					l = append(l, made{m, dump(m), "timestamp"})
				case 3:
					m := metadata.Targets(e...)
					bad("targets header", m.Signed.Type == "targets" && m.Signed.SpecVersion == "1.0.31" && m.Signed.Version == 1 && exp(m.Signed.Expires) && len(m.Signatures) == 0)
					bad("targets content", m.Signed.Targets != nil && len(m.Signed.Targets) == 0 && m.Signed.Delegations == nil)
					m.Signed.Targets[fmt.Sprint(s)] = metadata.TargetFile()
					l = append(l, made{m, dump(m), "targets"})
				case 4:
					f := metadata.TargetFile()
					bad("target file", f.Length == 0 && f.Hashes != nil && len(f.Hashes) == 0 && f.Path == "" && f.Custom == nil)
					f.Hashes["sha256"] = metadata.HexBytes{1}
					f.Length = 9
					l = append(l, made{f, dump(f), "target file"})
				case 5:
					v := r.Int63n(9) - 3
					f := metadata.MetaFile(v)
					want := v
					if v < 1 {
						want = 1
					}
					bad("meta file", f.Version == want && f.Length == 0 && f.Hashes != nil && len(f.Hashes) == 0)
					f.Hashes["sha512"] = metadata.HexBytes{1}
					f.Version = 77
					l = append(l, made{f, dump(f), "meta file"})
				}
				h.count(fmt.Sprint("create ", k, e))
				// changing the caller's list afterwards must not matter
				for i := range e {
					e[i] = time.Unix(1, 1)
				}
				for _, m := range l {
					if dump(m.obj) != m.dump {
						h.fail("shared/"+m.what, "creating or changing one object changed an earlier "+m.what, "was", m.dump, "is", dump(m.obj))
					}
				}
			})
		}
	}
}

// ---- C28 ----

type failSigner struct {
	signature.Signer
	signErr, keyErr error
	pub             crypto.PublicKey
	calls           int
}

func (f *failSigner) SignMessage(m io.Reader, o ...signature.SignOption) ([]byte, error) {
	f.calls++
	if f.signErr != nil {
		return nil, f.signErr
	}
	return f.Signer.SignMessage(m, o...)
}

func (f *failSigner) PublicKey(o ...signature.PublicKeyOption) (crypto.PublicKey, error) {
	if f.keyErr != nil {
		return nil, f.keyErr
	}
	if f.pub != nil {
		return f.pub, nil
	}
	return f.Signer.PublicKey(o...)
}

// verifies checks a signature with the standard library.
func (k *TKey) verifies(msg, sig []byte) bool {
	v, err := signature.LoadVerifier(k.pub, hashOf(k))
	must(err)
	return v.VerifySignature(bytes.NewReader(sig), bytes.NewReader(msg)) == nil
}

func hashOf(k *TKey) crypto.Hash {
	if k.kind == "ed25519" {
		return 0
	}
	return crypto.SHA256
}

func signHistory[T metadata.Roles](h *H, what string, m *metadata.Metadata[T]) {
	r := h.rng
	steps := 1 + r.Intn(6)
	log := what
	for s := 0; s < steps; s++ {
		k := key(pick(r, "ed25519", "ed25519", "rsa", "ecdsa"), r.Intn(3))
		fs := &failSigner{Signer: k.signer}
		mode := r.Intn(9)
		switch mode {
		case 0:
			fs.signErr = errors.New("no")
		case 1:
			fs.keyErr = errors.New("no key")
		case 2:
			fs.pub = &dsa.PublicKey{}
		case 3:
			// capacity for more signatures: appending must not touch a caller's copy
			m.Signatures = append(make([]metadata.Signature, 0, 8), m.Signatures...)
		}
		if r.Intn(4) == 0 {
			// signatures put there by hand: empty, foreign, repeated, with the identifier of this very key
			odd := metadata.Signature{KeyID: pick(r, "", "placeholder", k.id, keyIDOf(k), strings.ToUpper(keyIDOf(k))), Signature: pick(r, nil, metadata.HexBytes{}, metadata.HexBytes{0}, metadata.HexBytes(k.sign([]byte("other"))))}
			if r.Intn(2) == 0 {
				odd.UnrecognizedFields = map[string]any{"x": "y"}
			}
			m.Signatures = append(slices.Clone(m.Signatures), odd)
			if r.Intn(2) == 0 {
				m.Signatures = append(m.Signatures, odd)
			}
			log += " odd(" + trunc(odd.KeyID, 6) + ")"
		}
		kept := m.Signatures
		before := slices.Clone(m.Signatures)
		signedBefore := dump(m.Signed)
		unrec := dump(m.UnrecognizedFields)
		raw, err := json.Marshal(m.Signed)
		must(err)
		if r.Intn(8) == 0 {
			log += " clear"
			m.ClearSignatures()
			if len(m.Signatures) != 0 || dump(m.Signed) != signedBefore || dump(m.UnrecognizedFields) != unrec {
				h.fail(what+"/clear", "clearing signatures does not just remove all of them")
			}
			if dump(kept) != dump(before) {
				h.fail(what+"/clear-copy", "clearing signatures changed the earlier signature values")
			}
			h.count(log)
			h.stat("clear")
			continue
		}
		log += fmt.Sprintf(" sign(%s%d)", k.id[:6], mode)
		sig, err := m.Sign(fs)
		h.count(log)
		if dump(m.Signed) != signedBefore || dump(m.UnrecognizedFields) != unrec {
			h.fail(what+"/signed", "signing changed the signed part after "+log)
		}
		if len(m.Signatures) < len(before) || dump(m.Signatures[:len(before)]) != dump(before) {
			h.fail(what+"/earlier", "signing changed earlier signatures after "+log)
			return
		}
		wantErr := mode <= 2
		if wantErr {
			h.stat("refused")
			if err == nil || sig != nil || len(m.Signatures) != len(before) {
				h.fail(what+"/failed", fmt.Sprintf("a failing signer gives err=%v sig=%v and %d new signatures", err, sig, len(m.Signatures)-len(before)))
			}
			continue
		}
		h.stat("signed")
		if err != nil || sig == nil || len(m.Signatures) != len(before)+1 {
			h.fail(what+"/refused", fmt.Sprintf("signing gives err=%v and %d new signatures", err, len(m.Signatures)-len(before)))
			continue
		}
		last := m.Signatures[len(before)]
		if dump(last) != dump(*sig) {
			h.fail(what+"/returned", "the returned signature is not the appended one")
		}
		if last.KeyID != keyIDOf(k) {
			h.fail(what+"/keyid", fmt.Sprintf("signature carries key id %s, the signer's key has %s", last.KeyID, keyIDOf(k)))
		}
		if !k.verifies([]byte(canonJSON(raw)), last.Signature) {
			h.fail(what+"/verify", "the signature does not verify over the canonical encoding of the signed part")
		}
	}
}

// keyIDOf computes the identifier of a key from its canonical form.
func keyIDOf(k *TKey) string {
	s := sha256.Sum256([]byte(canon(normal(keyObj(k)))))
	return hex.EncodeToString(s[:])
}

func TestC28(t *testing.T) {
	h := start(t, "C28", "random histories of signing metadata of each role with ed25519, RSA and ECDSA keys, with signers failing to sign, to give a key, or giving an unsupported one, and of clearing; each signature is verified with the standard library over an independently written canonical encoding")
	defer h.done()
	r := h.rng
	for c := 0; c < h.n(150) && h.more(); c++ {
		exp := time.Unix(r.Int63n(4e9), 0).UTC()
		h.guard("sign", "", func() {
			un := map[string]any(nil)
			if r.Intn(3) == 0 {
				un = map[string]any{"x-" + fmt.Sprint(r.Intn(9)): pick[any](r, "v\"\\é", map[string]any{"b": "1", "a": []any{"x", nil, true}}, nil, false)}
			}
			switch r.Intn(4) {
			case 0:
				m := metadata.Root(exp)
				m.Signed.UnrecognizedFields, m.UnrecognizedFields = un, un
				for i := r.Intn(3); i > 0; i-- {
					must(m.Signed.AddKey(ed(r.Intn(4)).meta, pick(r, "root", "targets")))
				}
				signHistory(h, "root", m)
			case 1:
				m := metadata.Snapshot(exp)
				m.Signed.UnrecognizedFields = un
				m.Signed.Version = r.Int63n(99)
				signHistory(h, "snapshot", m)
			case 2:
				m := metadata.Timestamp(exp)
				m.Signed.UnrecognizedFields = un
				signHistory(h, "timestamp", m)
			case 3:
				m := metadata.Targets(exp)
				m.Signed.UnrecognizedFields = un
				f, err := metadata.TargetFile().FromBytes("p", []byte("data"), "sha256", "sha512")
				must(err)
				m.Signed.Targets["a/\"b\""] = f
				signHistory(h, "targets", m)
			}
		})
	}
}

// ---- C22 ----

func TestC22(t *testing.T) {
	h := start(t, "C22", "keys of every supported kind and curve converted both ways; foreign key types; stored key objects with mismatched type, wrong size, odd or non-hex text, other PEM kinds and junk; identifiers recomputed from an independent canonical encoding, before and after every use; non-trivial: all")
	defer h.done()
	r := h.rng
	for i := 0; i < 3; i++ {
		for _, kind := range []string{"ed25519", "rsa", "ecdsa"} {
			k := key(kind, i)
			h.guard("convert/"+kind, k.id, func() {
				m, err := metadata.KeyFromPublicKey(k.pub)
				if err != nil {
					h.fail("from/"+kind, "supported key refused: "+err.Error())
					return
				}
				want := map[string][2]string{"ed25519": {"ed25519", "ed25519"}, "rsa": {"rsa", "rsassa-pss-sha256"}, "ecdsa": {"ecdsa", "ecdsa-sha2-nistp256"}}[kind]
				if m.Type != want[0] || m.Scheme != want[1] {
					h.fail("type/"+kind, fmt.Sprintf("key of kind %s has type %q scheme %q", kind, m.Type, m.Scheme))
				}
				if kind == "ed25519" && m.Value.PublicKey != hex.EncodeToString(k.pub.(ed25519.PublicKey)) {
					h.fail("value/ed25519", "ed25519 key value is not its hexadecimal form")
				}
				back, err := m.ToPublicKey()
				if err != nil {
					h.fail("back/"+kind, "conversion back fails: "+err.Error())
					return
				}
				if !back.(interface{ Equal(crypto.PublicKey) bool }).Equal(k.pub) || reflect.TypeOf(back) != reflect.TypeOf(k.pub) {
					h.fail("roundtrip/"+kind, fmt.Sprintf("conversion back gives a different key %T", back))
				}
				h.count("roundtrip " + k.id)
				id := func(when string) {
					s := sha256.Sum256([]byte(canon(normal(obj{"keytype": m.Type, "scheme": m.Scheme, "keyval": obj{"public": m.Value.PublicKey}}))))
					for j := 0; j < 3; j++ {
						if g := m.ID(); g != hex.EncodeToString(s[:]) {
							h.fail("id/"+kind, fmt.Sprintf("%s: call %d gives identifier %s, the canonical digest is %x", when, j, g, s))
						}
					}
				}
				id("fresh")
				_, _ = m.ToPublicKey()
				id("after use")
				b, err := json.Marshal(m)
				must(err)
				m = &metadata.Key{}
				must(json.Unmarshal(b, m))
				id("decoded")
				if kind == "ecdsa" {
					m.Type = "ecdsa-sha2-nistp256"
					if back, err := m.ToPublicKey(); err != nil || !back.(*ecdsa.PublicKey).Equal(k.pub) {
						h.fail("compat", "an ecdsa-sha2-nistp256 key is not converted")
					}
				}
			})
		}
	}
	// decoded keys with unrecognised members: they are part of the identifier
	for c := 0; c < h.n(60) && h.more(); c++ {
		h.guard("unrecognised", "", func() {
			k := key(pick(r, "ed25519", "rsa", "ecdsa"), r.Intn(3))
			o := keyObj(k)
			for i := r.Intn(3); i >= 0; i-- {
				v := pick[any](r, "x", true, nil, obj{"z": "1", "a": []any{"b"}}, 17)
				if r.Intn(2) == 0 {
					o["x-"+fmt.Sprint(r.Intn(9))] = v
				} else {
					o["keyval"].(obj)["y"+fmt.Sprint(r.Intn(9))] = v
				}
			}
			b, err := json.Marshal(o)
			must(err)
			m := &metadata.Key{}
			must(json.Unmarshal(b, m))
			s := sha256.Sum256([]byte(canonJSON(b)))
			for j := 0; j < 2; j++ {
				if g := m.ID(); g != hex.EncodeToString(s[:]) {
					h.fail("id-unrecognised", fmt.Sprintf("call %d gives identifier %s for %s, the canonical digest is %x", j, g, b, s))
				}
			}
			if !reflect.DeepEqual(m.Type, k.meta.Type) || m.Value.PublicKey != k.meta.Value.PublicKey {
				h.fail("decoded", "decoding a key loses its value")
			}
			h.count("unrecognised " + string(b))
		})
	}
	// unsupported key types
	x, err := ecdh.X25519().GenerateKey(crand.Reader)
	must(err)
	for _, k := range []any{nil, 7, "key", &dsa.PublicKey{}, x.PublicKey(), []byte("x"), ed(0).priv, struct{}{}, new(ed25519.PublicKey), *key("ecdsa", 0).pub.(*ecdsa.PublicKey)} {
		h.guard("unsupported", fmt.Sprintf("%T", k), func() {
			if m, err := metadata.KeyFromPublicKey(k); err == nil || m != nil {
				h.fail("unsupported", fmt.Sprintf("a key of type %T is converted to %+v", k, m))
			}
			h.count(fmt.Sprintf("unsupported %T", k))
		})
	}
	// key objects that do not denote a key of their type
	pemOf := func(typ string, der []byte) string {
		return string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}))
	}
	p384, err := ecdsa.GenerateKey(elliptic.P384(), crand.Reader)
	must(err)
	p384der, err := x509.MarshalPKIXPublicKey(p384.Public())
	must(err)
	edDer, err := x509.MarshalPKIXPublicKey(ed(0).pub)
	must(err)
	val := map[string]string{
		"rsa": key("rsa", 0).meta.Value.PublicKey, "ecdsa": key("ecdsa", 0).meta.Value.PublicKey, "ed25519": ed(0).meta.Value.PublicKey,
		"edpem": pemOf("PUBLIC KEY", edDer), "empty": "", "junk": "not a key", "hex31": strings.Repeat("ab", 31), "hex33": strings.Repeat("ab", 33), "hex64": strings.Repeat("ab", 64), "hexodd": strings.Repeat("a", 63), "nohex": strings.Repeat("zz", 32),
		"badpem": pemOf("PUBLIC KEY", []byte("junk")), "privpem": pemOf("PRIVATE KEY", edDer), "ed+space": ed(0).meta.Value.PublicKey + " ", "0x": "0x" + ed(0).meta.Value.PublicKey[:62],
	}
	good := map[string]map[string]bool{"rsa": {"rsa": true}, "ecdsa": {"ecdsa": true}, "ecdsa-sha2-nistp256": {"ecdsa": true}, "ed25519": {"ed25519": true}}
	for _, typ := range []string{"rsa", "ecdsa", "ecdsa-sha2-nistp256", "ed25519", "", "RSA", "Ed25519", "dsa", "sha256", "rsassa-pss-sha256"} {
		for _, n := range sortedKeys(val) {
			for _, scheme := range []string{"", "ed25519", "rsassa-pss-sha256"} {
				m := &metadata.Key{Type: typ, Scheme: scheme, Value: metadata.KeyVal{PublicKey: val[n]}}
				h.guard("object", typ+" "+n, func() {
					d := dump(m)
					k, err := m.ToPublicKey()
					if (err == nil) != good[typ][n] {
						h.fail("object/"+typ+"/"+n, fmt.Sprintf("a key object of type %q holding %s gives err=%v", typ, n, err))
					}
					if (err == nil) != (k != nil) {
						h.fail("object-nil/"+typ+"/"+n, fmt.Sprintf("key %v with error %v", k, err))
					}
					if dump(m) != d {
						h.fail("object-changed/"+typ, "conversion changes the key object")
					}
					h.count("object " + typ + " " + n + " " + scheme)
				})
			}
		}
	}
	h.guard("p384", "", func() {
		m := &metadata.Key{Type: "ecdsa", Scheme: "ecdsa-sha2-nistp384", Value: metadata.KeyVal{PublicKey: pemOf("PUBLIC KEY", p384der)}}
		if k, err := m.ToPublicKey(); err == nil && !k.(*ecdsa.PublicKey).Equal(p384.Public()) {
			h.fail("p384", "another key is returned")
		}
	})
}

// ---- C21 ----

func TestC21(t *testing.T) {
	h := start(t, "C21", "byte strings of every length up to 64 and every single byte encoded; JSON texts derived from valid ones by dropping, doubling and replacing every character, and arbitrary short texts, decoded alone and inside a signature and a hash map, with the earlier value kept in view; non-trivial: texts that are quoted")
	defer h.done()
	r := h.rng
	const low = "0123456789abcdef"
	enc := func(b []byte) string {
		s := `"`
		for _, c := range b {
			s += string(low[c>>4]) + string(low[c&15])
		}
		return s + `"`
	}
	val := func(c byte) int {
		switch {
		case c >= '0' && c <= '9':
			return int(c - '0')
		case c >= 'a' && c <= 'f':
			return int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			return int(c-'A') + 10
		}
		return -1
	}
	dec := func(s string) ([]byte, bool) {
		if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' || len(s)%2 != 0 {
			return nil, false
		}
		s = s[1 : len(s)-1]
		out := []byte{}
		for i := 0; i < len(s); i += 2 {
			a, b := val(s[i]), val(s[i+1])
			if a < 0 || b < 0 {
				return nil, false
			}
			out = append(out, byte(a<<4|b))
		}
		return out, true
	}
	check := func(s string) {
		h.count(s)
		h.guard("decode", s, func() {
			old := metadata.HexBytes{1, 2, 3}
			if r.Intn(4) == 0 {
				old = nil
			}
			oldCopy := append(metadata.HexBytes(nil), old...)
			v := old
			in := []byte(s)
			err := v.UnmarshalJSON(in)
			want, ok := dec(s)
			if (err == nil) != ok {
				h.fail("accept", fmt.Sprintf("decoding %q gives err=%v", s, err))
				return
			}
			if string(in) != s {
				h.fail("input", fmt.Sprintf("decoding %q changes its input", s))
			}
			if ok {
				h.stat("accepted")
				if !bytes.Equal(v, want) {
					h.fail("value", fmt.Sprintf("decoding %q gives %x", s, []byte(v)))
				}
				for i := range in {
					in[i] = 'x'
				}
				if !bytes.Equal(v, want) {
					h.fail("alias", "the decoded value shares memory with the input")
				}
			} else {
				h.stat("refused")
				if !bytes.Equal(v, oldCopy) || (v == nil) != (old == nil) {
					h.fail("unchanged", fmt.Sprintf("a refused text %q leaves %x instead of %x", s, []byte(v), []byte(oldCopy)))
				}
			}
			if !bytes.Equal(old, oldCopy) {
				h.fail("old", fmt.Sprintf("decoding %q overwrites the bytes of the earlier value", s))
			}
			// inside other objects
			if json.Valid([]byte(s)) && strings.TrimSpace(s) == s {
				var sig metadata.Signature
				err = json.Unmarshal([]byte(`{"keyid":"k","sig":`+s+`}`), &sig)
				if s != "null" && (err == nil) != ok || ok && !bytes.Equal(sig.Signature, want) {
					h.fail("signature", fmt.Sprintf("signature %s decodes to %x, %v", s, []byte(sig.Signature), err))
				}
				var hs metadata.Hashes
				err = json.Unmarshal([]byte(`{"sha256":`+s+`}`), &hs)
				if s != "null" && (err == nil) != ok || ok && !bytes.Equal(hs["sha256"], want) {
					h.fail("hashes", fmt.Sprintf("hash %s decodes to %x, %v", s, []byte(hs["sha256"]), err))
				}
			}
		})
	}
	encode := func(b []byte) {
		h.count(fmt.Sprintf("enc %x", b))
		h.guard("encode", fmt.Sprintf("%x", b), func() {
			c := append([]byte(nil), b...)
			o, err := metadata.HexBytes(b).MarshalJSON()
			if err != nil || string(o) != enc(c) {
				h.fail("encode", fmt.Sprintf("%x encodes to %q, %v", c, o, err))
			}
			if !bytes.Equal(b, c) {
				h.fail("encode-changes", "encoding changes the value")
			}
			if s := metadata.HexBytes(b).String(); `"`+s+`"` != enc(c) {
				h.fail("string", fmt.Sprintf("%x prints as %q", c, s))
			}
			if j, err := json.Marshal(metadata.Hashes{"sha256": b}); err != nil || string(j) != `{"sha256":`+enc(c)+`}` {
				h.fail("encode-in", fmt.Sprintf("%x encodes to %s, %v", c, j, err))
			}
			check(string(o))
		})
	}
	encode(nil)
	for i := 0; i < 256; i++ {
		encode([]byte{byte(i)})
		encode([]byte{0, byte(i), 255})
	}
	for n := 0; n <= 64; n++ {
		b := make([]byte, n)
		r.Read(b)
		encode(b)
		encode(make([]byte, n))
	}
	for _, s := range []string{"", `"`, `""`, `" "`, `"  "`, "null", "0", "12", `"12`, `12"`, `'12'`, `"1"`, `"123"`, `"12345"`, `"0x12"`, `"1g"`, `"g1"`, `"AB"`, `"aB"`, `"12" `, ` "12"`, `"12""`, `"\u0031\u0032"`, `"12\n"`, "\"\xff\xff\"", `""""`, `{}`, `[]`, `"12"12"`, `"é"`, `true`, `"- "`, `"-1"`, `"+1"`, `"1_"`} {
		check(s)
	}
	for c := 0; c < h.n(3000) && h.more(); c++ {
		b := make([]byte, r.Intn(6))
		r.Read(b)
		s := enc(b)
		for m := r.Intn(3); m >= 0; m-- {
			i := r.Intn(len(s))
			switch r.Intn(5) {
			case 0:
				s = s[:i] + s[i+1:]
			case 1:
				s = s[:i] + s[i:i+1] + s[i:]
			case 2:
				s = s[:i] + string([]byte{byte(r.Intn(256))}) + s[i+1:]
			case 3:
				s = s[:i] + pick(r, "g", "A", "F", "\"", " ", "\\", "0", "/", ":", "@", "G", "`") + s[i+1:]
			case 4:
				s = strings.ToUpper(s)
			}
			if s == "" {
				s = `"`
			}
		}
		check(s)
	}
}
