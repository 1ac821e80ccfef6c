import os
exec(open("/verif/tools/seedsrc/b1.py").read().split("SEEDS=[")[0])
T="metadata/trustedmetadata/trustedmetadata.go"
K="metadata/keys.go"
R="metadata/repository/repository.go"
MA="metadata/marshal.go"
# a small signed repository: every role signed with one ed25519 key unless told otherwise
WORLD='''
type who struct { key *Key; s signature.Signer }
func newWho(t *testing.T) who {
	_, priv, err := ed25519.GenerateKey(nil)
	if err != nil { t.Fatal(err) }
	k, err := KeyFromPublicKey(priv.Public())
	if err != nil { t.Fatal(err) }
	s, err := signature.LoadSigner(priv, crypto.Hash(0))
	if err != nil { t.Fatal(err) }
	return who{k, s}
}
func later() time.Time { return time.Now().UTC().Add(240 * time.Hour).Truncate(time.Second) }
func enc[T Roles](t *testing.T, m *Metadata[T], by ...who) []byte {
	m.ClearSignatures()
	for _, w := range by { if _, err := m.Sign(w.s); err != nil { t.Fatal(err) } }
	b, err := m.ToBytes(false)
	if err != nil { t.Fatal(err) }
	return b
}
func rootWith(w who) *Metadata[RootType] {
	r := Root(later())
	r.Signed.Keys[w.key.ID()] = w.key
	for _, n := range []string{ROOT, TIMESTAMP, SNAPSHOT, TARGETS} { r.Signed.Roles[n].KeyIDs = []string{w.key.ID()} }
	return r
}
func tsAt(v, sv int64) *Metadata[TimestampType] {
	ts := Timestamp(later()); ts.Signed.Version = v; ts.Signed.Meta["snapshot.json"] = &MetaFiles{Version: sv}
	return ts
}
func snAt(v int64, files map[string]int64) *Metadata[SnapshotType] {
	sn := Snapshot(later()); sn.Signed.Version = v
	for n, fv := range files { sn.Signed.Meta[n+".json"] = &MetaFiles{Version: fv} }
	return sn
}
'''
WIMP="crypto crypto/ed25519 time github.com/sigstore/sigstore/pkg/signature github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
SEEDS=[
dict(id="C02-store-before-self", prop="C02", pkg="zzdemo",
 edits=[(T,"""	// verify that new root is signed by itself
	err = newRoot.VerifyDelegate(metadata.ROOT, newRoot)
	if err != nil {
		return nil, err
	}
	// save root if verified
	trusted.Root = newRoot
	log.Info("Updated root\"""","""	// save root, now verify that it is signed by itself
	trusted.Root = newRoot
	err = trusted.Root.VerifyDelegate(metadata.ROOT, newRoot)
	if err != nil {
		return nil, err
	}
	log.Info("Updated root\"""")],
 demo=demo(WORLD+"""
func TestSeededDemo(t *testing.T) {
	a, b := newWho(t), newWho(t)
	r1 := rootWith(a)
	tr, err := trustedmetadata.New(enc(t, r1, a))
	if err != nil { t.Fatal(err) }
	r2 := rootWith(b)
	r2.Signed.Version = 2
	if _, err := tr.UpdateRoot(enc(t, r2, a)); err == nil { t.Fatal("accepted") }
	if tr.Root.Signed.Version != 1 { t.Fatal("a root that is not signed by its own keys became trusted") }
}
""",WIMP), needs="a successor root signed by the old keys only, and a look at what is trusted after the error", breaks="a root that fails its own verification stays trusted"),
dict(id="C03-store-before-check", prop="C03", pkg="zzdemo",
 edits=[(T,'''	if trusted.Timestamp != nil {
		// prevent rolling back timestamp version''','''	previous := trusted.Timestamp
	if previous == nil || previous.Signed.Version < newTimestamp.Signed.Version {
		trusted.Timestamp = newTimestamp
	}
	if previous != nil {
		// prevent rolling back timestamp version'''),
 (T,"		if newTimestamp.Signed.Version < trusted.Timestamp.Signed.Version {\n			return nil, metadata.ErrBadVersionNumber{Msg: fmt.Sprintf(\"new timestamp version %d must be >= %d\", newTimestamp.Signed.Version, trusted.Timestamp.Signed.Version)}","		if newTimestamp.Signed.Version < previous.Signed.Version {\n			return nil, metadata.ErrBadVersionNumber{Msg: fmt.Sprintf(\"new timestamp version %d must be >= %d\", newTimestamp.Signed.Version, previous.Signed.Version)}"),
 (T,'''		if newTimestamp.Signed.Version == trusted.Timestamp.Signed.Version {
			log.Info("New timestamp version equals the old one", "new", newTimestamp.Signed.Version, "old", trusted.Timestamp.Signed.Version)
			return nil, metadata.ErrEqualVersionNumber{Msg: fmt.Sprintf("new timestamp version %d equals the old one %d", newTimestamp.Signed.Version, trusted.Timestamp.Signed.Version)}
		}
		// prevent rolling back snapshot version
		snapshotMeta := trusted.Timestamp.Signed''','''		if newTimestamp.Signed.Version == previous.Signed.Version {
			log.Info("New timestamp version equals the old one", "new", newTimestamp.Signed.Version, "old", previous.Signed.Version)
			return nil, metadata.ErrEqualVersionNumber{Msg: fmt.Sprintf("new timestamp version %d equals the old one %d", newTimestamp.Signed.Version, previous.Signed.Version)}
		}
		// prevent rolling back snapshot version
		snapshotMeta := previous.Signed'''),
 (T,'''	// protection of new timestamp: expiry is checked in UpdateSnapshot()
	// save root if verified
	trusted.Timestamp = newTimestamp
''','''	// protection of new timestamp: expiry is checked in UpdateSnapshot()
''')],
 demo=demo(WORLD+'''
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	tr, err := trustedmetadata.New(enc(t, rootWith(a), a))
	if err != nil { t.Fatal(err) }
	if _, err := tr.UpdateTimestamp(enc(t, tsAt(1, 5), a)); err != nil { t.Fatal(err) }
	if _, err := tr.UpdateTimestamp(enc(t, tsAt(2, 4), a)); err == nil { t.Fatal("snapshot version rolled back") }
	if tr.Timestamp.Signed.Version != 1 { t.Fatal("the rejected timestamp replaced the trusted one") }
}
''',WIMP), needs="a newer timestamp that lowers the snapshot version, and a look at what is trusted after the error", breaks="a rejected timestamp stays trusted, so the next one may roll the snapshot back"),
dict(id="C04-expired-no-rollback", prop="C04", pkg="zzdemo",
 edits=[(T,"	if trusted.Snapshot != nil {\n		for name","	if trusted.Snapshot != nil && !trusted.Snapshot.Signed.IsExpired(trusted.RefTime) {\n		for name")],
 demo=demo(WORLD+'''
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	tr, err := trustedmetadata.New(enc(t, rootWith(a), a))
	if err != nil { t.Fatal(err) }
	if _, err := tr.UpdateTimestamp(enc(t, tsAt(2, 2), a)); err != nil { t.Fatal(err) }
	old := snAt(1, map[string]int64{"targets": 7})
	old.Signed.Expires = time.Now().UTC().Add(-time.Hour).Truncate(time.Second)
	if _, err := tr.UpdateSnapshot(enc(t, old, a), true); err == nil { t.Fatal("expired snapshot is final") }
	if _, err := tr.UpdateSnapshot(enc(t, snAt(2, map[string]int64{"targets": 3}), a), false); err == nil { t.Fatal("targets version rolled back from 7 to 3") }
}
''',WIMP), needs="an expired intermediate snapshot already trusted when the next one lowers a version", breaks="no rollback protection once the old snapshot is expired"),
dict(id="C05-cached-role-unchecked", prop="C05", pkg="zzdemo",
 edits=[(T,"	err = meta.VerifyLengthHashes(targetsData)\n	if err != nil {\n		return nil, err\n	}\n","	// the facts of a role that is being reloaded were verified already\n	if known := trusted.Targets[roleName]; known == nil || known.Signed.Version != meta.Version {\n		err = meta.VerifyLengthHashes(targetsData)\n		if err != nil {\n			return nil, err\n		}\n	}\n")],
 demo=demo(WORLD+'''
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	tr, err := trustedmetadata.New(enc(t, rootWith(a), a))
	if err != nil { t.Fatal(err) }
	tg := Targets(later())
	b1 := enc(t, tg, a)
	tg.Signed.UnrecognizedFields = map[string]any{"other": "content"}
	b2 := enc(t, tg, a)
	sn := snAt(1, nil)
	sn.Signed.Meta["targets.json"] = &MetaFiles{Version: 1, Length: int64(len(b1))}
	if _, err := tr.UpdateTimestamp(enc(t, tsAt(1, 1), a)); err != nil { t.Fatal(err) }
	if _, err := tr.UpdateSnapshot(enc(t, sn, a), false); err != nil { t.Fatal(err) }
	if _, err := tr.UpdateTargets(b2); err == nil { t.Fatal("wrong length accepted") }
	first, err := tr.UpdateTargets(b1)
	if err != nil { t.Fatal(err) }
	if _, err := tr.UpdateTargets(b2); err == nil || tr.Targets[TARGETS] != first { t.Fatal("wrong length accepted on reload") }
}
''',WIMP), needs="the same role loaded twice in one session, the second time from a document of the same version that the snapshot does not record", breaks="length and hashes of a reloaded role are not verified"),
dict(id="C05-empty-delegator", prop="C05", pkg="zzdemo",
 edits=[(T,"	if newDelegate.Signed.Version != meta.Version {","	if newDelegate.Signed.Version != meta.Version && !(roleName != metadata.TARGETS && newDelegate.Signed.Version > meta.Version) {")],
 demo=demo(WORLD+'''
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	tr, err := trustedmetadata.New(enc(t, rootWith(a), a))
	if err != nil { t.Fatal(err) }
	tg := Targets(later())
	tg.Signed.Delegations = &Delegations{Keys: map[string]*Key{a.key.ID(): a.key}, Roles: []DelegatedRole{{Name: "d", KeyIDs: []string{a.key.ID()}, Threshold: 1, Paths: []string{"*"}}}}
	if _, err := tr.UpdateTimestamp(enc(t, tsAt(1, 1), a)); err != nil { t.Fatal(err) }
	if _, err := tr.UpdateSnapshot(enc(t, snAt(1, map[string]int64{"targets": 1, "d": 3}), a), false); err != nil { t.Fatal(err) }
	if _, err := tr.UpdateTargets(enc(t, tg, a)); err != nil { t.Fatal(err) }
	d := Targets(later())
	d.Signed.Version = 4
	if _, err := tr.UpdateDelegatedTargets(enc(t, d, a), "d", TARGETS); err == nil { t.Fatal("version 4 accepted where the snapshot records 3") }
}
''',WIMP), needs="a delegated role with a version above the one the snapshot records", breaks="mix and match: a delegated role the snapshot does not record is accepted"),
dict(id="C19-shared-list", prop="C19", pkg="zzdemo",
 edits=[(M,'''	// remove keyID from role
	filteredKeyIDs := []string{}
	for _, k := range signed.Roles[role].KeyIDs {
		if k != keyID {
			filteredKeyIDs = append(filteredKeyIDs, k)
		}
	}
''','''	// remove keyID from role
	filteredKeyIDs := signed.Roles[role].KeyIDs[:0]
	for _, k := range signed.Roles[role].KeyIDs {
		if k != keyID {
			filteredKeyIDs = append(filteredKeyIDs, k)
		}
	}
''')],
 demo=demo(WORLD+'''
func TestSeededDemo(t *testing.T) {
	a, b := newWho(t), newWho(t)
	r := rootWith(a)
	r.Signed.Keys[b.key.ID()] = b.key
	both := []string{a.key.ID(), b.key.ID()}
	r.Signed.Roles[ROOT].KeyIDs, r.Signed.Roles[TIMESTAMP].KeyIDs = both, both
	if err := r.Signed.RevokeKey(a.key.ID(), TIMESTAMP); err != nil { t.Fatal(err) }
	got := r.Signed.Roles[ROOT].KeyIDs
	if len(got) != 2 || got[0] != a.key.ID() || got[1] != b.key.ID() { t.Fatal("revoking a timestamp key changed the root role") }
}
''',"crypto crypto/ed25519 time github.com/sigstore/sigstore/pkg/signature"), needs="two roles given the same list of identifiers", breaks="revoking a key of one role changes the list of another"),
dict(id="C19-later-role", prop="C19", pkg="zzdemo",
 edits=[(M,"				for _, r := range signed.Delegations.Roles {\n					if slices","				for _, r := range signed.Delegations.Roles[:i+1] {\n					if slices")],
 demo=demo(WORLD+'''
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	tg := Targets(later())
	id := a.key.ID()
	tg.Signed.Delegations = &Delegations{Keys: map[string]*Key{id: a.key}, Roles: []DelegatedRole{{Name: "x", KeyIDs: []string{id}, Threshold: 1}, {Name: "y", KeyIDs: []string{id}, Threshold: 1}}}
	if err := tg.Signed.RevokeKey(id, "x"); err != nil { t.Fatal(err) }
	if tg.Signed.Delegations.Keys[id] == nil { t.Fatal("the key role y uses is gone") }
}
''',"crypto crypto/ed25519 time github.com/sigstore/sigstore/pkg/signature"), needs="a key shared with a role that comes later in the list", breaks="a key still in use is deleted from the store"),
dict(id="C21-partial-decode", prop="C21", pkg="zzdemo",
 edits=[("metadata/marshal.go",'''	res := make([]byte, hex.DecodedLen(len(data)-2))
	_, err := hex.Decode(res, data[1:len(data)-1])
	if err != nil {
		return err
	}
	*b = res
''','''	if n := hex.DecodedLen(len(data) - 2); cap(*b) >= n {
		*b = (*b)[:n]
	} else {
		*b = make([]byte, n)
	}
	_, err := hex.Decode(*b, data[1:len(data)-1])
	if err != nil {
		return err
	}
''')],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	b := HexBytes{1, 2, 3}
	keep := b
	if err := b.UnmarshalJSON([]byte("\\"0a0zff\\"")); err == nil { t.Fatal("no error") }
	if b.String() != "010203" || keep.String() != "010203" { t.Fatal("a failed decoding changed the value") }
	if err := b.UnmarshalJSON([]byte("\\"0a0b\\"")); err != nil || b.String() != "0a0b" { t.Fatal(err, b) }
	if keep.String() != "010203" { t.Fatal("decoding wrote into the old value") }
}
'''), needs="decoding invalid hexadecimal over an existing value", breaks="a failed decoding changes the receiver"),
dict(id="C22-id-drops-fields", prop="C22", pkg="zzdemo",
 edits=[(K,"		data, err := cjson.EncodeCanonical(k)\n","		data, err := cjson.EncodeCanonical(&Key{Type: k.Type, Scheme: k.Scheme, Value: k.Value})\n")],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	k := Key{Type: "ed25519", Scheme: "ed25519", Value: KeyVal{PublicKey: "00"}, UnrecognizedFields: map[string]any{"expires": "never"}}
	b, err := cjson.EncodeCanonical(&k)
	if err != nil { t.Fatal(err) }
	d := sha256.Sum256(b)
	if k.ID() != hex.EncodeToString(d[:]) { t.Fatal("not the digest of the encoded key") }
}
''',"crypto/sha256 encoding/hex github.com/secure-systems-lab/go-securesystemslib/cjson"), needs="a key object that carries members the library does not know", breaks="the identifier is not the digest of the key's encoding"),
dict(id="C27-fresh-clock", prop="C27", pkg="zzdemo",
 edits=[(T,"	if newDelegate.Signed.IsExpired(trusted.RefTime) {","	if newDelegate.Signed.IsExpired(time.Now().UTC()) {")],
 demo=demo(WORLD+'''
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	tr, err := trustedmetadata.New(enc(t, rootWith(a), a))
	if err != nil { t.Fatal(err) }
	tr.RefTime = tr.RefTime.Add(-time.Hour)
	tg := Targets(tr.RefTime.Add(time.Minute).Truncate(time.Second))
	if _, err := tr.UpdateTimestamp(enc(t, tsAt(1, 1), a)); err != nil { t.Fatal(err) }
	if _, err := tr.UpdateSnapshot(enc(t, snAt(1, nil), a), false); err != nil { t.Fatal(err) }
	if _, err := tr.UpdateTargets(enc(t, tg, a)); err != nil { t.Fatal("targets valid at the reference time rejected: ", err) }
}
''',WIMP), needs="targets metadata that expires between the start of the session and its loading", breaks="targets are judged against another time than the other roles"),
dict(id="C28-sign-dedupe", prop="C28", pkg="zzdemo",
 edits=[(M,"	meta.Signatures = append(meta.Signatures, *sig)\n","	kept := meta.Signatures[:0]\n	for _, s := range meta.Signatures {\n		if len(s.Signature) > 0 {\n			kept = append(kept, s)\n		}\n	}\n	meta.Signatures = append(kept, *sig)\n")],
 demo=demo(WORLD+'''
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	r := rootWith(a)
	r.Signatures = []Signature{{KeyID: "placeholder"}}
	if _, err := r.Sign(a.s); err != nil { t.Fatal(err) }
	if len(r.Signatures) != 2 || r.Signatures[0].KeyID != "placeholder" { t.Fatal("an earlier signature is gone") }
}
''',"crypto crypto/ed25519 time github.com/sigstore/sigstore/pkg/signature"), needs="an object that carries a signature with an empty value", breaks="earlier signatures are dropped when signing"),
dict(id="C29-nil-delete", prop="C29", pkg="zzdemo",
 edits=[(R,"func (r *repositoryType) SetTargets(name string, meta *metadata.Metadata[metadata.TargetsType]) {\n","func (r *repositoryType) SetTargets(name string, meta *metadata.Metadata[metadata.TargetsType]) {\n	for other, have := range r.targets {\n		if have == meta && other != name {\n			delete(r.targets, other)\n		}\n	}\n")],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	r := repository.New()
	m := Targets()
	r.SetTargets("a", m)
	r.SetTargets("b", m)
	if r.Targets("a") != m || r.Targets("b") != m { t.Fatal("setting one role removed another") }
}
''',"github.com/rdimitrov/go-tuf-metadata/metadata/repository"), needs="one metadata object stored under two role names", breaks="setting one role affects another"),
dict(id="C30-shared-role", prop="C30", pkg="zzdemo",
 edits=[(M,'''	roles := map[string]*Role{}
	for _, r := range []string{ROOT, SNAPSHOT, TARGETS, TIMESTAMP} {
		roles[r] = &Role{
			KeyIDs:    []string{},
			Threshold: 1,
		}
	}
''','''	roles := map[string]*Role{}
	var last *Role
	for i, r := range []string{ROOT, SNAPSHOT, TARGETS, TIMESTAMP} {
		if i != 2 {
			last = &Role{
				KeyIDs:    []string{},
				Threshold: 1,
			}
		}
		roles[r] = last
	}
''')],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	r := Root()
	r.Signed.Roles[TARGETS].Threshold = 3
	if r.Signed.Roles[SNAPSHOT].Threshold != 1 { t.Fatal("two roles of a new root are one object") }
}
'''), needs="changing one role of a new root and looking at another", breaks="two top-level roles share one object"),
]
