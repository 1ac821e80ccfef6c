M="metadata/metadata.go"
def demo(body, imports="", pkg="zzdemo"):
    imports = imports.split(); dot = ". \"github.com/rdimitrov/go-tuf-metadata/metadata\""
    return "package zzdemo\n\nimport (\n\t\"testing\"\n\t%s\n%s)\n\n%s" % (dot, "".join("\t\"%s\"\n" % i for i in imports), body)
def demo_old(body, imports="", pkg="metadata"):
    return "package %s\n\nimport (\n\t\"testing\"\n%s)\n\n%s" % (pkg, "".join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in imports.split()), body)
DELEG='''
func demoKey(t *testing.T) (*Key, signature.Signer) {
	_, priv, err := ed25519.GenerateKey(nil)
	if err != nil { t.Fatal(err) }
	key, err := KeyFromPublicKey(priv.Public())
	if err != nil { t.Fatal(err) }
	s, err := signature.LoadSigner(priv, crypto.Hash(0))
	if err != nil { t.Fatal(err) }
	return key, s
}
'''
IMP="crypto crypto/ed25519 github.com/sigstore/sigstore/pkg/signature"
SEEDS=[
dict(id="C01-count-keyids", prop="C01", pkg="zzdemo",
 edits=[(M,"	signingKeys := map[string]bool{}\n","	verified := 0\n"),
        (M,"			signingKeys[keyID] = true\n			log","			verified++\n			log"),
        (M,"	if len(signingKeys) < roleThreshold {\n		log.Info(\"Verifying failed, not enough signatures\", \"role\", delegatedRole, \"got\", len(signingKeys), \"want\", roleThreshold)\n		return ErrUnsignedMetadata{Msg: fmt.Sprintf(\"Verifying %s failed, not enough signatures, got %d, want %d\", delegatedRole, len(signingKeys), roleThreshold)}",
           "	if verified < roleThreshold {\n		log.Info(\"Verifying failed, not enough signatures\", \"role\", delegatedRole, \"got\", verified, \"want\", roleThreshold)\n		return ErrUnsignedMetadata{Msg: fmt.Sprintf(\"Verifying %s failed, not enough signatures, got %d, want %d\", delegatedRole, verified, roleThreshold)}")],
 demo=demo(DELEG+'''
func TestSeededDemo(t *testing.T) {
	key, s := demoKey(t)
	root := Root()
	root.Signed.Keys[key.ID()] = key
	root.Signed.Roles[SNAPSHOT] = &Role{KeyIDs: []string{key.ID(), key.ID()}, Threshold: 2}
	snap := Snapshot()
	if _, err := snap.Sign(s); err != nil { t.Fatal(err) }
	if err := root.VerifyDelegate(SNAPSHOT, snap); err == nil {
		t.Fatal("one key listed twice reaches a threshold of two")
	}
}
''',IMP), needs="a role listing one key identifier twice with a threshold above the number of distinct keys", breaks="a key listed twice counts twice towards the threshold"),
dict(id="C01-prefix-keyid", prop="C01", pkg="zzdemo",
 edits=[(M,'''		case *Metadata[TargetsType]:
			for _, signature := range d.Signatures {
				if signature.KeyID == keyID {''','''		case *Metadata[TargetsType]:
			for _, signature := range d.Signatures {
				if strings.HasPrefix(keyID, signature.KeyID) {''')],
 demo=demo(DELEG+'''
func TestSeededDemo(t *testing.T) {
	key, s := demoKey(t)
	root := Root()
	root.Signed.Keys[key.ID()] = key
	root.Signed.Roles[TARGETS] = &Role{KeyIDs: []string{key.ID()}, Threshold: 1}
	targets := Targets()
	if _, err := targets.Sign(s); err != nil { t.Fatal(err) }
	targets.Signatures[0].KeyID = key.ID()[:7]
	if err := root.VerifyDelegate(TARGETS, targets); err == nil {
		t.Fatal("a signature with another identifier counts")
	}
}
''',IMP), needs="targets metadata whose signature carries a shortened key identifier", breaks="a signature that does not carry the key's identifier counts for the key"),
dict(id="C01-role-name-case", prop="C01", pkg="zzdemo",
 edits=[(M,"				if v.Name == delegatedRole {\n					found = true","				if strings.EqualFold(v.Name, delegatedRole) {\n					found = true")],
 demo=demo(DELEG+'''
func TestSeededDemo(t *testing.T) {
	key, s := demoKey(t)
	d := Targets()
	d.Signed.Delegations = &Delegations{Keys: map[string]*Key{key.ID(): key}, Roles: []DelegatedRole{{Name: "Role", KeyIDs: []string{key.ID()}, Threshold: 1}}}
	targets := Targets()
	if _, err := targets.Sign(s); err != nil { t.Fatal(err) }
	if err := d.VerifyDelegate("Role", targets); err != nil { t.Fatal(err) }
	if err := d.VerifyDelegate("role", targets); err == nil {
		t.Fatal("accepted for a role that is not delegated")
	}
}
''',IMP), needs="a delegation whose name differs from the role only in case", breaks="a role the delegator does not delegate to is accepted"),
dict(id="C09-negative-length", prop="C09", pkg="zzdemo",
 edits=[(M,"	if f.Length != 0 {","	if f.Length > 0 {")],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	f := &MetaFiles{Length: -3, Version: 1}
	if f.VerifyLengthHashes([]byte("abc")) == nil { t.Fatal("content accepted against a negative recorded length") }
}
'''), needs="a recorded negative length", breaks="a recorded length other than zero does not constrain the content"),
dict(id="C09-truncated-hash", prop="C09", pkg="zzdemo",
 edits=[(M,"		if hex.EncodeToString(v) != hex.EncodeToString(hasher.Sum(nil)) {","		if len(v) == 0 || !strings.HasPrefix(hex.EncodeToString(hasher.Sum(nil)), hex.EncodeToString(v)) {")],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	data := []byte("abc")
	h := sha256.Sum256(data)
	f := &TargetFiles{Length: 3, Hashes: Hashes{"sha256": h[:]}}
	if err := f.VerifyLengthHashes(data); err != nil { t.Fatal(err) }
	f.Hashes["sha256"] = h[:16]
	if f.VerifyLengthHashes(data) == nil { t.Fatal("truncated digest accepted") }
}
''',"crypto/sha256"), needs="a recorded hash that is a proper prefix of the digest", breaks="content is accepted although a recorded hash is not its digest"),
dict(id="C09-sticky-hasher", prop="C09", pkg="zzdemo",
 edits=[(M,'''	for _, v := range hashes {
		switch v {
		case "sha256":
			hasher = sha256.New()
''','''	for i, v := range hashes {
		switch v {
		case "sha256":
			if i == 0 || hashes[i-1] != v {
				hasher = sha256.New()
			}
''')],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	data := []byte("abc")
	h := sha256.Sum256(data)
	f, err := TargetFile().FromBytes("x", data, "sha256", "sha256")
	if err != nil { t.Fatal(err) }
	if string(f.Hashes["sha256"]) != string(h[:]) { t.Fatal("wrong digest") }
}
''',"crypto/sha256"), needs="the same algorithm requested twice in a row", breaks="the recorded digest is that of the content written twice"),
]
