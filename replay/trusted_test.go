package zzverif

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
)

// D is a generated document: its bytes, its signed part and the identifiers that carry a valid signature.
type D struct {
	raw    []byte
	signed obj
	good   map[string]bool
	note   string
	pend   map[string]*D // the targets documents a snapshot was made for
}

// mkD signs a document with the given keys; some signatures may be spoiled.
func mkD(r *rand.Rand, signed obj, signers []*TKey, note string, clean bool) *D {
	d := &D{signed: normal(signed).(obj), good: map[string]bool{}, note: note}
	msg := []byte(canon(d.signed))
	l := []any{}
	seen := map[string]bool{}
	for _, k := range signers {
		if seen[k.id] {
			continue
		}
		seen[k.id] = true
		s := k.sign(msg)
		id := k.id
		die := r.Intn(40)
		if clean {
			die = 40
		}
		switch die {
		case 0:
			s = corrupt(r, k, msg)
		case 1:
			id = nearName(r, id)
			if seen[id] {
				continue
			}
			seen[id] = true
		case 2:
			continue
		default:
			d.good[id] = true
		}
		l = append(l, obj{"keyid": id, "sig": hex.EncodeToString(s)})
	}
	var err error
	d.raw, err = json.Marshal(obj{"signed": d.signed, "signatures": l})
	must(err)
	return d
}

// met tells whether role (keyids, threshold) with the key store is satisfied by d.
func met(keys obj, role any, d *D) bool {
	ro, ok := role.(obj)
	if !ok {
		return false
	}
	n := map[string]bool{}
	for _, id := range ro["keyids"].([]any) {
		if _, ok := keys[id.(string)]; ok && d.good[id.(string)] {
			n[id.(string)] = true
		}
	}
	return len(n) > 0 && int64(len(n)) >= num(ro["threshold"])
}

func num(v any) int64 {
	switch v := v.(type) {
	case json.Number:
		n, err := v.Int64()
		must(err)
		return n
	case int:
		return int64(v)
	case int64:
		return v
	}
	return 0
}

func expiresAt(d *D) time.Time {
	t, err := time.Parse(time.RFC3339Nano, d.signed["expires"].(string))
	must(err)
	return t
}

func ver(d *D) int64 { return num(d.signed["version"]) }

func metaOf(d *D, name string) obj {
	m, _ := d.signed["meta"].(obj)
	o, _ := m[name].(obj)
	return o
}

// recOK tells whether b matches a recorded meta file.
func recOK(rec obj, b []byte) bool {
	if l := num(rec["length"]); l != 0 && l != int64(len(b)) {
		return false
	}
	hs, _ := rec["hashes"].(obj)
	real := hashesOf(b)
	for a, v := range hs {
		if w, ok := real[a]; !ok || w != v {
			return false
		}
	}
	return true
}

// world generates documents and tracks what the trusted set holds.
type world struct {
	clean bool // documents without faults
	mixed bool
	r     *rand.Rand
	ref   time.Time
	keys  []*TKey
	root  *D // trusted documents, as generated
	ts    *D
	sn    *D
	tg    map[string]*D
	rk    map[string][]*TKey // keys of the roles of the trusted root
	pend  map[string]*D      // targets documents prepared for the snapshot
	dk    map[string][]*TKey
}

func (w *world) when(pExpired int) string {
	t := w.ref
	switch w.r.Intn(4) {
	case 0:
		t = t.Add(time.Second)
	case 1:
		t = t.Add(time.Duration(1+w.r.Intn(1000)) * time.Hour)
	case 2:
		t = t.Add(0)
	case 3:
		t = t.Add(time.Millisecond * 250)
	}
	if !w.clean && w.r.Intn(100) < pExpired {
		t = w.ref.Add(-time.Duration(1+w.r.Intn(3)*100000) * time.Millisecond)
	}
	return t.Format(time.RFC3339Nano)
}

func (w *world) some(n int) []*TKey {
	l := append([]*TKey{}, w.keys...)
	w.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l[:1+w.r.Intn(n)]
}

// dupRole lists the keys with repetitions.
func (w *world) roleObj(ks []*TKey) obj {
	l := append([]*TKey{}, ks...)
	for w.r.Intn(3) == 0 {
		l = append(l, ks[w.r.Intn(len(ks))])
	}
	w.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return role(1+w.r.Intn(len(ks)), l...)
}

// mkRoot makes a candidate root with the given version.
// fault tells whether to put in a fault, once in n times.
func (w *world) fault(n int) bool { return !w.clean && w.r.Intn(n) == 0 }

func (w *world) die(n int) int {
	if w.clean {
		return n
	}
	return w.r.Intn(n)
}

func (w *world) mkD(signed obj, signers []*TKey, note string) *D {
	return mkD(w.r, signed, signers, note, w.clean)
}

func (w *world) mkRoot(version int64) (*D, map[string][]*TKey) {
	rk := map[string][]*TKey{}
	store := obj{}
	roles := obj{}
	for _, n := range []string{"root", "timestamp", "snapshot", "targets"} {
		if w.rk != nil && w.r.Intn(2) == 0 {
			rk[n] = w.rk[n]
		} else {
			rk[n] = w.some(3)
		}
		for _, k := range rk[n] {
			store[k.id] = keyObj(k)
		}
		roles[n] = w.roleObj(rk[n])
	}
	if w.fault(30) {
		delete(roles, pick(w.r, "root", "timestamp", "snapshot", "targets"))
	}
	signed := obj{"_type": "root", "spec_version": "1.0.31", "version": version, "expires": w.when(8), "consistent_snapshot": w.r.Intn(2) == 0, "keys": store, "roles": roles}
	signers := append([]*TKey{}, rk["root"]...)
	note := "both"
	if w.rk != nil {
		switch w.die(8) {
		case 0:
			note = "new only"
		case 1:
			signers, note = append([]*TKey{}, w.rk["root"]...), "old only"
		case 2:
			signers, note = w.some(4), "any"
		default:
			signers = append(signers, w.rk["root"]...)
		}
	} else if w.fault(5) {
		signers, note = w.some(3), "any"
	}
	w.badType(signed)
	return w.mkD(signed, signers, note), rk
}

func (w *world) badType(signed obj) {
	if w.fault(25) {
		signed["_type"] = pick(w.r, "root", "snapshot", "timestamp", "targets", "Root", "Snapshot", "mirrors", "")
	}
}

func (w *world) signers(name string) []*TKey {
	if w.fault(10) {
		return w.some(3)
	}
	if w.fault(10) {
		return w.rk[pick(w.r, "root", "timestamp", "snapshot", "targets")]
	}
	l := w.rk[name]
	if w.fault(10) && len(l) > 1 {
		return l[:len(l)-1]
	}
	return l
}

func (w *world) rec(b []byte, version int64) obj {
	o := obj{"version": version}
	if w.r.Intn(2) == 0 {
		o["length"] = len(b)
	}
	if w.r.Intn(2) == 0 {
		o["hashes"] = hashesOf(b)
	}
	if w.fault(12) {
		o["length"] = len(b) + w.r.Intn(3) - 1
	}
	if w.fault(12) {
		hs := hashesOf(append([]byte{0}, b...))
		if w.r.Intn(2) == 0 {
			delete(hs, pick(w.r, "sha256", "sha512"))
		}
		o["hashes"] = hs
	}
	return o
}

func (w *world) mkTS(sn *D) *D {
	v := int64(1 + w.r.Intn(3))
	if w.ts != nil {
		v = ver(w.ts) + int64(w.r.Intn(4)-1)
	}
	sv := ver(sn)
	if w.fault(8) {
		sv += int64(w.r.Intn(3) - 1)
	}
	if sv < 1 {
		sv = 1
	}
	if v < 1 {
		v = 1
	}
	m := obj{"snapshot.json": w.rec(sn.raw, sv)}
	if w.fault(25) {
		m = obj{pick(w.r, "snapshot", "Snapshot.json", "targets.json"): w.rec(sn.raw, sv)}
	}
	signed := obj{"_type": "timestamp", "spec_version": "1.0.31", "version": v, "expires": w.when(10), "meta": m}
	w.badType(signed)
	return w.mkD(signed, w.signers("timestamp"), "")
}

var roleNames = []string{"targets", "a", "b", "a/b", "c"}

// mkTargets prepares a targets document of a role; delegations go to the remaining names.
func (w *world) mkTargets(name string) *D {
	signed := obj{"_type": "targets", "spec_version": "1.0.31", "version": 1 + w.r.Intn(3), "expires": w.when(6), "targets": obj{}}
	store := obj{}
	var roles []any
	for _, n := range roleNames[1:] {
		if n == name || w.r.Intn(2) == 0 {
			continue
		}
		for _, k := range w.dk[n] {
			if !w.fault(20) {
				store[k.id] = keyObj(k)
			}
		}
		ro := w.roleObj(w.dk[n])
		ro["name"], ro["paths"], ro["terminating"] = n, []any{"*"}, false
		roles = append(roles, ro)
	}
	if roles != nil {
		signed["delegations"] = obj{"keys": store, "roles": roles}
	} else if w.r.Intn(4) == 0 {
		for _, k := range w.dk["a"] {
			store[k.id] = keyObj(k)
		}
		ro := w.roleObj(w.dk["a"])
		ro["bit_length"], ro["name_prefix"] = 1, "bin"
		signed["delegations"] = obj{"keys": store, "succinct_roles": ro}
	}
	signers := w.rk["targets"]
	if name != "targets" {
		signers = w.dk[name]
	}
	if w.fault(8) {
		signers = w.some(3)
	}
	if w.fault(8) && len(signers) > 1 {
		signers = signers[1:]
	}
	w.badType(signed)
	return w.mkD(signed, signers, name)
}

func (w *world) mkSN() *D {
	m := obj{}
	w.pend = map[string]*D{}
	for _, n := range append([]string{"bin-0", "bin-1", "zz"}, roleNames...) {
		if n != "targets" && w.r.Intn(3) == 0 {
			continue
		}
		clean := w.clean
		if w.mixed {
			w.clean = n != "a" && w.r.Intn(2) == 0 || w.r.Intn(4) > 0
		}
		t := w.mkTargets(n)
		w.pend[n] = t
		v := ver(t)
		if w.fault(10) {
			v += int64(w.r.Intn(3) - 1)
		}
		if v < 1 {
			v = 1
		}
		m[n+".json"] = w.rec(t.raw, v)
		w.clean = clean
	}
	// relative to the trusted snapshot: keep, drop, raise or lower
	v := int64(1 + w.r.Intn(3))
	if w.sn != nil {
		v = ver(w.sn) + int64(w.r.Intn(2))
		for n, o := range w.sn.signed["meta"].(obj) {
			old := num(o.(obj)["version"])
			if w.fault(30) {
				delete(m, n)
				continue
			}
			nv := old + int64(w.r.Intn(3))
			if w.fault(30) {
				nv = old - 1
			}
			if nv < 1 {
				nv = 1
			}
			if x, ok := m[n].(obj); ok && w.r.Intn(2) == 0 {
				x["version"] = nv
			} else {
				m[n] = obj{"version": nv}
			}
		}
	}
	signed := obj{"_type": "snapshot", "spec_version": "1.0.31", "version": v, "expires": w.when(10), "meta": m}
	w.badType(signed)
	d := w.mkD(signed, w.signers("snapshot"), "")
	d.pend = w.pend
	return d
}

// cleanSN decides about faults in a snapshot.
func (w *world) cleanSN(focus string) {
	switch focus {
	case "C04":
		w.clean = w.r.Intn(4) == 0
	case "C05":
		w.clean = w.r.Intn(8) > 0
		w.mixed = true
	default:
		w.clean = w.r.Intn(2) == 0
	}
}

// image describes the state of a trusted set by identity and content.
func image(t *trustedmetadata.TrustedMetadata) map[string]string {
	m := map[string]string{"reftime": t.RefTime.String()}
	put := func(n string, p any, b []byte, err error) { m[n] = fmt.Sprintf("%p %s %v", p, b, err) }
	if t.Root != nil {
		b, err := t.Root.ToBytes(false)
		put("root", t.Root, b, err)
	}
	if t.Timestamp != nil {
		b, err := t.Timestamp.ToBytes(false)
		put("timestamp", t.Timestamp, b, err)
	}
	if t.Snapshot != nil {
		b, err := t.Snapshot.ToBytes(false)
		put("snapshot", t.Snapshot, b, err)
	}
	for n, x := range t.Targets {
		if x == nil {
			m["targets/"+n] = "nil"
			continue
		}
		b, err := x.ToBytes(false)
		put("targets/"+n, x, b, err)
	}
	return m
}

func changed(a, b map[string]string) []string {
	s := map[string]bool{}
	for k, v := range a {
		if b[k] != v {
			s[k] = true
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			s[k] = true
		}
	}
	return sortedKeys(s)
}

func expiredAt(d *D, ref time.Time) bool { return ref.After(expiresAt(d)) }

func trustedHistories(t *testing.T, focus string) {
	h := start(t, focus, "random histories of root, timestamp, snapshot, targets and delegated targets updates with mostly valid documents and single faults (signers, versions, lengths, hashes, expiry around the reference time, types, missing entries), judged after every step by an independent model of the workflow; non-trivial: the operation reached the trusted set")
	defer h.done()
	for c := 0; c < h.n(2500) && h.more(); c++ {
		history(h, focus)
	}
}

func history(h *H, focus string) {
	r := h.rng
	w := &world{r: r, tg: map[string]*D{}, dk: map[string][]*TKey{}}
	for i := 0; i < 6; i++ {
		w.keys = append(w.keys, ed(i))
	}
	if r.Intn(6) == 0 {
		w.keys[0] = key("ecdsa", 0)
	}
	w.ref = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC).Add(time.Duration(r.Intn(1e9)))
	for _, n := range append([]string{"bin-0", "bin-1", "zz"}, roleNames...) {
		w.dk[n] = w.some(3)
	}
	var log []string
	rep := func(prop, caseID, what string) {
		if prop == focus {
			h.fail(caseID, what, "history", fmt.Sprint(log), "last", log[len(log)-1])
		}
	}
	w.clean = focus != "C02" && r.Intn(4) > 0
	// initial root
	root, rk := w.mkRoot(int64(1 + r.Intn(3)))
	log = append(log, fmt.Sprintf("New(%s)", root.raw))
	if focus == "C02" {
		h.count(log[0])
	}
	t0 := time.Now()
	ts, err := trustedmetadata.New(root.raw)
	t1 := time.Now()
	if err != nil {
		return
	}
	rootOK := func(by, d *D, role string) bool {
		ro := by.signed["roles"].(obj)[role]
		return met(by.signed["keys"].(obj), ro, d)
	}
	if root.signed["_type"] != "root" || !rootOK(root, root, "root") {
		rep("C02", "new-unsigned", "trusted set created from root metadata that its own keys did not sign")
		return
	}
	if ts.RefTime.Before(t0.Add(-time.Second)) || ts.RefTime.After(t1.Add(time.Second)) {
		rep("C27", "reftime", "the reference time is not the time at which the session started: "+ts.RefTime.String())
	}
	w.root, w.rk = root, rk
	ts.RefTime = w.ref
	var sn *D
	var old map[string]*D
	for step := 0; step < 4+r.Intn(9); step++ {
		before := image(ts)
		var op string
		weights := map[string][]string{
			"C02": {"root", "root", "root", "root", "ts", "sn"},
			"C03": {"root", "ts", "ts", "ts", "ts", "sn"},
			"C04": {"ts", "sn", "sn", "sn", "sn", "tg"},
			"C05": {"ts", "sn", "sn", "tg", "tg", "dt", "dt", "dt"},
		}[focus]
		if weights == nil {
			weights = []string{"root", "ts", "sn", "tg", "dt"}
		}
		op = pick(r, weights...)
		if (focus == "C04" || focus == "C05") && step < 3 && r.Intn(8) > 0 {
			op = []string{"ts", "sn", "tg"}[step]
			if focus == "C04" && step == 2 {
				op = "sn"
			}
		}
		if (focus == "C05" || focus == "C27") && r.Intn(5) > 0 {
			switch {
			case w.ts == nil:
				op = "ts"
			case w.sn == nil:
				op = "sn"
			case w.tg["targets"] == nil:
				op = "tg"
			default:
				op = "dt"
			}
		}
		var d *D
		var got any
		var err error
		var rk2 map[string][]*TKey
		extra := ""
		name, delegator := "", ""
		isTrusted := false
		key0 := ""
		own := map[string]string{"C02": "root", "C03": "ts", "C04": "sn", "C05": "tg dt"}[focus]
		w.clean = own != "" && !strings.Contains(own, op) && r.Intn(5) > 0 || r.Intn(5) == 0
		switch op {
		case "root":
			v := ver(w.root) + 1
			if r.Intn(5) == 0 {
				v += int64(pick(r, -2, -1, 1, 2))
			}
			d, rk2 = w.mkRoot(v)
			h.guard("root", string(d.raw), func() { got, err = ts.UpdateRoot(d.raw) })
			key0 = "root"
		case "ts":
			if sn == nil || r.Intn(2) == 0 {
				old = w.pend
				w.cleanSN(focus)
				sn = w.mkSN()
				w.clean = own != "ts" && r.Intn(6) > 0
			}
			d = w.mkTS(sn)
			h.guard("timestamp", string(d.raw), func() { got, err = ts.UpdateTimestamp(d.raw) })
			key0 = "timestamp"
		case "sn":
			if sn == nil || r.Intn(12) == 0 {
				w.cleanSN(focus)
				sn = w.mkSN()
			}
			d = sn
			isTrusted = r.Intn(3) == 0
			extra = fmt.Sprintf(", trusted=%v", isTrusted)
			h.guard("snapshot", string(d.raw), func() { got, err = ts.UpdateSnapshot(d.raw, isTrusted) })
			key0 = "snapshot"
		case "tg", "dt":
			name, delegator = "targets", "root"
			if op == "dt" {
				name = pick(r, "a", "b", "a/b", "c", "zz", "targets", "bin-0", "bin-1")
				delegator = pick(r, "targets", "targets", "a", "b", "c", "root")
				if len(w.tg) > 0 && r.Intn(5) > 0 {
					delegator = pick(r, sortedKeys(w.tg)...)
				}
				if by := w.tg[delegator]; by != nil && r.Intn(4) > 0 {
					if del, ok := by.signed["delegations"].(obj); ok {
						if roles, ok := del["roles"].([]any); ok {
							name = pick(r, roles...).(obj)["name"].(string)
						} else {
							name = pick(r, "bin-0", "bin-1")
						}
					}
				}
			}
			d = w.pend[name]
			if w.sn != nil {
				d = w.sn.pend[name]
			}
			if d == nil || r.Intn(10) == 0 {
				if x := old[name]; x != nil && r.Intn(2) == 0 {
					d = x
				} else {
					d = w.mkTargets(name)
				}
			}
			extra = ", " + name + " by " + delegator
			h.guard("targets", string(d.raw), func() {
				if op == "tg" {
					got, err = ts.UpdateTargets(d.raw)
				} else {
					got, err = ts.UpdateDelegatedTargets(d.raw, name, delegator)
				}
			})
			key0 = "targets/" + name
		}
		log = append(log, fmt.Sprintf("%s(%s%s) -> %v", op, d.raw, extra, err))
		prop := map[string]string{"root": "C02", "ts": "C03", "sn": "C04", "tg": "C05", "dt": "C05"}[op]
		if prop == focus || focus == "C27" {
			h.count(fmt.Sprintf("%s %v state=%v %s", op+extra, err, sortedKeys(before), d.raw))
		}
		after := image(ts)
		ch := changed(before, after)
		for _, k := range ch {
			if k == "reftime" {
				rep("C27", "reftime-changed", "an update changed the reference time")
			}
			if k != key0 {
				rep(prop, op+"-other-state", op+" changed "+k)
			}
		}
		mine := before[key0] != after[key0]
		if err == nil && !mine {
			rep(prop, op+"-no-change", "success reported but the trusted metadata is the same")
		}
		if err != nil && !isNilPtr(got) {
			rep(prop, op+"-result-with-error", "metadata returned together with an error")
		}
		accept := mine || err == nil
		if prop == focus || focus == "C27" {
			h.stat(fmt.Sprintf("%s error=%v changed=%v %.22v", op, err != nil, mine, err))
		}
		isType := func(n string) bool { return d.signed["_type"] == n }
		switch op {
		case "root":
			if accept {
				if err != nil {
					rep("C02", "root-changed-on-error", "the trusted root changed although an error was reported: "+err.Error())
				}
				if w.ts != nil {
					rep("C02", "root-after-timestamp", "root updated after timestamp metadata had been loaded")
				}
				if !isType("root") || ver(d) != ver(w.root)+1 {
					rep("C02", "root-version", fmt.Sprintf("root version %d follows %d, type %v", ver(d), ver(w.root), d.signed["_type"]))
				}
				if !rootOK(w.root, d, "root") {
					rep("C02", "root-old-keys", "new root not signed by a threshold of the old root's keys")
				}
				if !rootOK(d, d, "root") {
					rep("C02", "root-new-keys", "new root not signed by a threshold of its own keys")
				}
				if ts.Root == nil || ts.Root.Signed.Version != ver(d) {
					rep("C02", "root-content", "the trusted root is not the document given")
				}
				w.root, w.rk = d, rk2
			}
		case "ts":
			if accept {
				if w.sn != nil {
					rep("C03", "ts-after-snapshot", "timestamp accepted after a snapshot was loaded")
				}
				if expiredAt(w.root, w.ref) {
					rep("C03", "ts-root-expired", "timestamp accepted under an expired root")
					rep("C27", "ts-root-expired", "timestamp accepted under a root expired at the reference time")
				}
				if !isType("timestamp") || !rootOK(w.root, d, "timestamp") {
					rep("C03", "ts-unsigned", "timestamp not signed by a threshold of the root's timestamp keys")
				}
				if metaOf(d, "snapshot.json") == nil {
					rep("C03", "ts-no-snapshot", "timestamp without a snapshot version accepted")
				} else if w.ts != nil && num(metaOf(d, "snapshot.json")["version"]) < num(metaOf(w.ts, "snapshot.json")["version"]) {
					rep("C03", "ts-snapshot-rollback", "timestamp lowers the snapshot version")
				}
				if w.ts != nil && ver(d) <= ver(w.ts) {
					rep("C03", "ts-rollback", fmt.Sprintf("timestamp version %d replaces %d", ver(d), ver(w.ts)))
				}
				if err == nil && expiredAt(d, w.ref) {
					rep("C03", "ts-expired", "success reported for an expired timestamp")
					rep("C27", "ts-expired", "success reported for a timestamp expired at the reference time")
				}
				if err != nil && !expiredAt(d, w.ref) {
					rep("C03", "ts-changed-on-error", "the trusted timestamp changed although an error other than expiry was reported: "+err.Error())
				}
				if ts.Timestamp == nil || ts.Timestamp.Signed.Version != ver(d) {
					rep("C03", "ts-content", "the trusted timestamp is not the document given")
				}
				w.ts = d
			}
		case "sn":
			if accept {
				final := true
				if w.ts == nil || expiredAt(w.ts, w.ref) {
					rep("C04", "sn-no-timestamp", "snapshot accepted without an unexpired trusted timestamp")
					if w.ts != nil {
						rep("C27", "sn-ts-expired", "snapshot accepted under a timestamp expired at the reference time")
					}
				} else {
					rec := metaOf(w.ts, "snapshot.json")
					if !isTrusted && !recOK(rec, d.raw) {
						rep("C04", "sn-record", "snapshot does not match the recorded length and hashes")
					}
					final = ver(d) == num(rec["version"])
				}
				if w.tg["targets"] != nil {
					rep("C04", "sn-after-targets", "snapshot accepted after targets")
				}
				if !isType("snapshot") || !rootOK(w.root, d, "snapshot") {
					rep("C04", "sn-unsigned", "snapshot not signed by a threshold of the root's snapshot keys")
				}
				if w.sn != nil {
					for n, o := range w.sn.signed["meta"].(obj) {
						x := metaOf(d, n)
						if x == nil {
							rep("C04", "sn-file-gone", "recorded file disappeared: "+n)
						} else if num(x["version"]) < num(o.(obj)["version"]) {
							rep("C04", "sn-rollback", "recorded version went down: "+n)
						}
					}
				}
				final = final && !expiredAt(d, w.ref)
				if err == nil && !final {
					rep("C04", "sn-not-final", "success reported for an expired snapshot or one of another version")
				}
				if err == nil && expiredAt(d, w.ref) {
					rep("C27", "sn-expired", "success reported for a snapshot expired at the reference time")
				}
				if err != nil && final {
					rep("C04", "sn-changed-on-error", "the trusted snapshot changed although another error was reported: "+err.Error())
				}
				if ts.Snapshot == nil || ts.Snapshot.Signed.Version != ver(d) {
					rep("C04", "sn-content", "the trusted snapshot is not the document given")
				}
				w.sn = d
			}
		case "tg", "dt":
			if accept {
				if err != nil {
					rep("C05", "tg-changed-on-error", "trusted targets changed although an error was reported: "+err.Error())
				}
				rec := obj(nil)
				if w.sn == nil || w.ts == nil {
					rep("C05", "tg-no-snapshot", "targets accepted without a trusted snapshot")
				} else {
					if expiredAt(w.sn, w.ref) || ver(w.sn) != num(metaOf(w.ts, "snapshot.json")["version"]) {
						rep("C05", "tg-snapshot-not-final", "targets accepted under a snapshot that is expired or not the one of the timestamp")
						if expiredAt(w.sn, w.ref) {
							rep("C27", "tg-snapshot-expired", "targets accepted under a snapshot expired at the reference time")
						}
					}
					rec = metaOf(w.sn, name+".json")
				}
				if rec == nil {
					rep("C05", "tg-not-recorded", "the snapshot does not record "+name)
				} else {
					if !recOK(rec, d.raw) {
						rep("C05", "tg-record", "targets do not match the recorded length and hashes")
					}
					if ver(d) != num(rec["version"]) {
						rep("C05", "tg-version", fmt.Sprintf("version %d, recorded %v", ver(d), rec["version"]))
					}
				}
				ok := isType("targets")
				if delegator == "root" {
					ok = ok && rootOK(w.root, d, name)
				} else if by := w.tg[delegator]; by == nil {
					ok = false
				} else {
					ok = ok && delegates(by, name, d)
				}
				if !ok {
					rep("C05", "tg-unsigned", "targets not signed by a threshold of the keys that the delegator assigns to the role")
				}
				if expiredAt(d, w.ref) {
					rep("C05", "tg-expired", "expired targets accepted")
					rep("C27", "tg-expired", "targets accepted that are expired at the reference time")
				}
				if x := ts.Targets[name]; x == nil || x.Signed.Version != ver(d) {
					rep("C05", "tg-content", "the trusted targets are not the document given")
				}
				w.tg[name] = d
			}
		}
	}
}

func delegates(by *D, name string, d *D) bool {
	del, ok := by.signed["delegations"].(obj)
	if !ok {
		return false
	}
	keys, _ := del["keys"].(obj)
	if roles, ok := del["roles"].([]any); ok {
		for _, x := range roles {
			if x.(obj)["name"] == name {
				return met(keys, x, d)
			}
		}
		return false
	}
	if s, ok := del["succinct_roles"].(obj); ok && (name == "bin-0" || name == "bin-1") {
		return met(keys, s, d)
	}
	return false
}

func isNilPtr(v any) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *metadata.Metadata[metadata.RootType]:
		return v == nil
	case *metadata.Metadata[metadata.TimestampType]:
		return v == nil
	case *metadata.Metadata[metadata.SnapshotType]:
		return v == nil
	case *metadata.Metadata[metadata.TargetsType]:
		return v == nil
	}
	return false
}

func TestC02(t *testing.T) { trustedHistories(t, "C02") }
func TestC03(t *testing.T) { trustedHistories(t, "C03") }
func TestC04(t *testing.T) { trustedHistories(t, "C04") }
func TestC05(t *testing.T) { trustedHistories(t, "C05") }

func TestC27(t *testing.T) {
	h := start(t, "C27", "expiry of the four metadata types at, just before and just after the stated time, in several zones; histories of a trusted set whose documents expire around the reference time, judged by an independent model; non-trivial: all")
	defer h.done()
	r := h.rng
	zones := []*time.Location{time.UTC, time.FixedZone("a", 3600*5+1800), time.FixedZone("b", -3600*11)}
	for c := 0; c < h.n(4000); c++ {
		e := time.Date(1+r.Intn(3000), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1e9), pick(r, zones...))
		d := pick(r, 0, 1, -1, 1000, -1000, time.Second, -time.Second, time.Duration(r.Int63n(1e15))-5e14, 24*time.Hour, -24*time.Hour)
		if r.Intn(4) == 0 {
			e = e.Truncate(time.Second)
		}
		at := e.Add(d).In(pick(r, zones...))
		want := d > 0
		id := fmt.Sprintf("expires %s at %s", e.Format(time.RFC3339Nano), at.Format(time.RFC3339Nano))
		h.count(id)
		for n, got := range map[string]bool{
			"root":      (&metadata.RootType{Expires: e}).IsExpired(at),
			"timestamp": (&metadata.TimestampType{Expires: e}).IsExpired(at),
			"snapshot":  (&metadata.SnapshotType{Expires: e}).IsExpired(at),
			"targets":   (&metadata.TargetsType{Expires: e}).IsExpired(at),
		} {
			if got != want {
				h.fail("expired/"+n, fmt.Sprintf("%s: IsExpired = %v", id, got))
			}
		}
	}
	// complete sessions: everything valid, expiry decides
	for c := 0; c < h.n(500) && h.more(); c++ {
		session(h)
	}
	for c := 0; c < h.n(800) && h.more(); c++ {
		history(h, "C27")
	}
}

// session runs a session of otherwise flawless documents; each step succeeds
// exactly when what it depends on is not expired at the reference time.
func session(h *H) {
	r := h.rng
	now := time.Now().UTC()
	ref := pick(r, now, now.Add(-1000*time.Hour), now.Add(1000*time.Hour), time.Date(2020, 2, 3, 4, 5, 6, r.Intn(1e9), time.UTC))
	k := ed(0)
	var exps []string
	bad := make([]bool, 4)
	for i := 0; i < 4; i++ {
		d := pick(r, 0, 1, time.Second, 500*time.Hour, 1500*time.Hour, 5000*time.Hour)
		if r.Intn(6) == 0 {
			d = -pick(r, 1, time.Second, 500*time.Hour, 1500*time.Hour)
			bad[i] = true
		}
		exps = append(exps, ref.Add(d).Format(time.RFC3339Nano))
	}
	tg := doc(obj{"_type": "targets", "spec_version": "1.0.31", "version": 1, "expires": exps[3], "targets": obj{}}, k)
	sn := doc(obj{"_type": "snapshot", "spec_version": "1.0.31", "version": 1, "expires": exps[2], "meta": obj{"targets.json": obj{"version": 1}}}, k)
	tm := doc(obj{"_type": "timestamp", "spec_version": "1.0.31", "version": 1, "expires": exps[1], "meta": obj{"snapshot.json": obj{"version": 1}}}, k)
	ro := doc(obj{"_type": "root", "spec_version": "1.0.31", "version": 1, "expires": exps[0], "consistent_snapshot": true, "keys": keysObj(k),
		"roles": obj{"root": role(1, k), "timestamp": role(1, k), "snapshot": role(1, k), "targets": role(1, k)}}, k)
	ts, err := trustedmetadata.New(ro)
	must(err)
	ts.RefTime = ref
	id := fmt.Sprintf("reference %s, expiry of root, timestamp, snapshot, targets %v", ref.Format(time.RFC3339Nano), exps)
	h.count(id)
	h.guard("session", id, func() {
		_, e1 := ts.UpdateTimestamp(tm)
		_, e2 := ts.UpdateSnapshot(sn, false)
		_, e3 := ts.UpdateTargets(tg)
		ok1 := !bad[0] && !bad[1]
		ok2 := ok1 && !bad[2]
		ok3 := ok2 && !bad[3]
		if (e1 == nil) != ok1 || (e2 == nil) != ok2 || (e3 == nil) != ok3 {
			h.fail("session", fmt.Sprintf("%s: timestamp, snapshot, targets accepted %v %v %v, expected %v %v %v", id, e1 == nil, e2 == nil, e3 == nil, ok1, ok2, ok3))
		}
		if !ts.RefTime.Equal(ref) {
			h.fail("session-reftime", id+": the reference time changed to "+ts.RefTime.String())
		}
	})
}
