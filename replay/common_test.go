// Package zzverif holds the replay harnesses: bounded validation of the
// contracts the proofs assume, and the search for failing inputs when an
// obligation fails. Each harness runs the compiled code of the repository
// against an oracle written here from the statement of the property.
package zzverif

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/sigstore/sigstore/pkg/signature"
)

// ---- protocol ----

type H struct {
	t        *testing.T
	prop     string
	rule     string
	rng      *rand.Rand
	cases    int
	distinct map[string]bool
	samples  []any
	fails    int
	failed   map[string]bool
	stats    map[string]int
	deadline time.Time
}

func start(t *testing.T, prop, rule string) *H {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	d := 25 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 240 * time.Second
	}
	return &H{t: t, prop: prop, rule: rule, rng: rand.New(rand.NewSource(int64(seed)*7919 + 17)), distinct: map[string]bool{}, failed: map[string]bool{}, stats: map[string]int{}, deadline: time.Now().Add(d)}
}

func (h *H) thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// n scales a number of cases with the tier.
func (h *H) n(quick int) int {
	if h.thorough() {
		return quick * 8
	}
	return quick
}

// more tells whether another case may be started.
func (h *H) more() bool { return time.Now().Before(h.deadline) && h.fails < 30 }

// count records one executed case; key tells distinct ones apart.
func (h *H) count(key string) {
	h.cases++
	h.distinct[key] = true
	if len(h.samples) < 5 && len(h.distinct)%7 == 1 {
		h.samples = append(h.samples, trunc(key, 400))
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// fail reports a failing input of the real code.
func (h *H) fail(caseID, what string, detail ...any) {
	h.fails++
	if h.failed[caseID] || h.fails > 30 {
		return
	}
	h.failed[caseID] = true
	m := map[string]any{"case": caseID, "what": what}
	for i := 0; i+1 < len(detail); i += 2 {
		m[fmt.Sprint(detail[i])] = trunc(fmt.Sprint(detail[i+1]), 1500)
	}
	b, _ := json.Marshal(m)
	fmt.Printf("\nVERIF-FAIL %s\n", b)
}

// guard runs f; a panic is a failing input.
func (h *H) guard(caseID string, detail string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			h.fail(caseID+"/panic", fmt.Sprintf("panic: %v", r), "input", detail, "stack", trunc(string(debug.Stack()), 900))
		}
	}()
	f()
}

// stat counts a class of executed cases.
func (h *H) stat(class string) { h.stats[class]++ }

func (h *H) done() {
	b, _ := json.Marshal(map[string]any{"Cases": h.cases, "Distinct": len(h.distinct), "Rule": h.rule, "Samples": h.samples, "Stats": h.stats})
	fmt.Printf("\nVERIF-DONE %s\n", b)
}

func pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// ---- keys ----

type TKey struct {
	kind   string
	priv   crypto.Signer
	signer signature.Signer
	pub    crypto.PublicKey
	meta   *metadata.Key
	id     string
}

var keyMu sync.Mutex
var keyPool = map[string]*TKey{}

// key returns the i-th key of a kind (ed25519, rsa, ecdsa).
func key(kind string, i int) *TKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	n := fmt.Sprint(kind, i)
	if k := keyPool[n]; k != nil {
		return k
	}
	k := &TKey{kind: kind}
	var err error
	h := crypto.SHA256
	switch kind {
	case "ed25519":
		seed := sha256.Sum256([]byte(n))
		k.priv = ed25519.NewKeyFromSeed(seed[:])
		h = crypto.Hash(0)
	case "rsa":
		k.priv, err = rsa.GenerateKey(crand.Reader, 2048)
	case "ecdsa":
		k.priv, err = ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	}
	must(err)
	k.pub = k.priv.Public()
	k.signer, err = signature.LoadSigner(k.priv, h)
	must(err)
	k.meta, err = metadata.KeyFromPublicKey(k.pub)
	must(err)
	k.id = k.meta.ID()
	keyPool[n] = k
	return k
}

func ed(i int) *TKey { return key("ed25519", i) }

// sign makes a raw signature over msg.
func (k *TKey) sign(msg []byte) []byte {
	s, err := k.signer.SignMessage(bytes.NewReader(msg))
	must(err)
	return s
}

// ---- canonical JSON, written independently of the code under test ----

func canon(v any) string {
	var sb strings.Builder
	canonTo(&sb, v)
	return sb.String()
}

func canonTo(sb *strings.Builder, v any) {
	switch v := v.(type) {
	case nil:
		sb.WriteString("null")
	case bool:
		fmt.Fprint(sb, v)
	case string:
		sb.WriteByte('"')
		for _, c := range []byte(v) {
			if c == '"' || c == '\\' {
				sb.WriteByte('\\')
			}
			sb.WriteByte(c)
		}
		sb.WriteByte('"')
	case json.Number:
		sb.WriteString(string(v))
	case int:
		fmt.Fprint(sb, v)
	case int64:
		fmt.Fprint(sb, v)
	case []any:
		sb.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				sb.WriteByte(',')
			}
			canonTo(sb, e)
		}
		sb.WriteByte(']')
	case map[string]any:
		sb.WriteByte('{')
		for i, k := range sortedKeys(v) {
			if i > 0 {
				sb.WriteByte(',')
			}
			canonTo(sb, k)
			sb.WriteByte(':')
			canonTo(sb, v[k])
		}
		sb.WriteByte('}')
	default:
		panic(fmt.Sprintf("harness: canon of %T", v))
	}
}

// canonJSON canonicalises JSON text.
func canonJSON(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	must(d.Decode(&v))
	return canon(v)
}

// ---- raw metadata documents ----

type obj = map[string]any

func keyObj(k *TKey) obj {
	return obj{"keytype": k.meta.Type, "scheme": k.meta.Scheme, "keyval": obj{"public": k.meta.Value.PublicKey}}
}

func keysObj(ks ...*TKey) obj {
	o := obj{}
	for _, k := range ks {
		o[k.id] = keyObj(k)
	}
	return o
}

func ids(ks ...*TKey) []any {
	l := []any{}
	for _, k := range ks {
		l = append(l, k.id)
	}
	return l
}

func role(threshold int, ks ...*TKey) obj { return obj{"keyids": ids(ks...), "threshold": threshold} }

const farFuture = "2998-01-02T03:04:05Z"
const farPast = "1998-01-02T03:04:05Z"

func exp(expired bool) string {
	if expired {
		return farPast
	}
	return farFuture
}

func sigs(signed obj, ks ...*TKey) []any {
	l := []any{}
	msg := []byte(canon(normal(signed)))
	for _, k := range ks {
		l = append(l, obj{"keyid": k.id, "sig": hex.EncodeToString(k.sign(msg))})
	}
	return l
}

// normal turns a Go value into plain JSON values.
func normal(v any) any {
	b, err := json.Marshal(v)
	must(err)
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var r any
	must(d.Decode(&r))
	return r
}

func doc(signed obj, ks ...*TKey) []byte {
	b, err := json.Marshal(obj{"signed": signed, "signatures": sigs(signed, ks...)})
	must(err)
	return b
}

func clone(o obj) obj { return cloneAny(o).(obj) }

func cloneAny(v any) any {
	switch v := v.(type) {
	case map[string]any:
		n := obj{}
		for k, e := range v {
			n[k] = cloneAny(e)
		}
		return n
	case []any:
		n := make([]any, len(v))
		for i, e := range v {
			n[i] = cloneAny(e)
		}
		return n
	}
	return v
}

func hashesOf(b []byte) obj {
	a, c := sha256.Sum256(b), sha512.Sum512(b)
	return obj{"sha256": hex.EncodeToString(a[:]), "sha512": hex.EncodeToString(c[:])}
}

// ---- scratch directories ----

func scratch(h *H) string {
	d, err := os.MkdirTemp("", "c")
	must(err)
	h.t.Cleanup(func() { os.RemoveAll(d) })
	return d
}

// tree lists the files below dir with their content.
func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i == nil {
			return nil
		}
		if i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			m[r] = string(b)
		}
		return nil
	})
	return m
}
