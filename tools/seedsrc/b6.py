exec(open("/verif/tools/seedsrc/b4.py").read().split("\nSEEDS=[")[0])
M="metadata/metadata.go"
K="metadata/keys.go"
T="metadata/trustedmetadata/trustedmetadata.go"
SEEDS=[
dict(id="C06-long-ed25519-key", prop="C06", pkg="zzdemo",
 edits=[(K,"if len(publicKey) != ed25519.PublicKeySize {","if len(publicKey) < ed25519.PublicKeySize {")],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	defer func() { if e := recover(); e != nil { t.Fatal("panic:", e) } }()
	b := []byte(`{"signatures":[{"keyid":"a","sig":"` + strings.Repeat("00", 64) + `"}],"signed":{"_type":"root","spec_version":"1.0.31","version":1,"expires":"2998-01-02T03:04:05Z","consistent_snapshot":true,"keys":{"a":{"keytype":"ed25519","scheme":"ed25519","keyval":{"public":"` + strings.Repeat("ab", 33) + `"}}},"roles":{"root":{"keyids":["a"],"threshold":1},"timestamp":{"keyids":["a"],"threshold":1},"snapshot":{"keyids":["a"],"threshold":1},"targets":{"keyids":["a"],"threshold":1}}}}`)
	if r, err := Root(time.Now()).FromBytes(b); err == nil { _ = r.VerifyDelegate("root", r) }
}
''', "time strings"), needs="a key longer than an ed25519 key", breaks="verifying with a key that is too long panics"),
dict(id="C06-slice-path-hash", prop="C06", pkg="zzdemo",
 edits=[(M,"""		for _, pathHashPrefix := range role.PathHashPrefixes {
			if strings.HasPrefix(base64.URLEncoding.EncodeToString(targetFilepathHash[:]), pathHashPrefix) {""","""		encoded := base64.URLEncoding.EncodeToString(targetFilepathHash[:])
		for _, pathHashPrefix := range role.PathHashPrefixes {
			if strings.EqualFold(encoded, pathHashPrefix) || encoded[:len(pathHashPrefix)] == pathHashPrefix {""")],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	defer func() { if e := recover(); e != nil { t.Fatal("panic:", e) } }()
	d := &Delegations{Roles: []DelegatedRole{{Name: "a", PathHashPrefixes: []string{strings.Repeat("0", 64)}}}}
	if len(d.GetRolesForTarget("x")) != 0 { t.Fatal("delegated") }
}
''', "strings"), needs="a path hash prefix longer than the encoded hash", breaks="looking up a target panics on a long path hash prefix"),
dict(id="C06-bin-name-without-dash", prop="C06", pkg="zzdemo",
 edits=[(M,"""	if !strings.HasPrefix(roleName, expectedPrefix) {""","""	if !strings.HasPrefix(roleName, role.NamePrefix) || strings.HasPrefix(roleName, role.NamePrefix+"/") {""")],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	defer func() { if e := recover(); e != nil { t.Fatal("panic:", e) } }()
	s := &SuccinctRoles{NamePrefix: "bin", BitLength: 4}
	if s.IsDelegatedRole("bin") { t.Fatal("delegated") }
}
''', ""), needs="a role whose name is the bare name prefix", breaks="asking whether the bare name prefix is a delegated role panics"),
dict(id="C06-missing-second-key", prop="C06", pkg="zzdemo",
 edits=[(M,"""		if !ok {
			return ErrValue{Msg: fmt.Sprintf("key with ID %s not found in %s keyids", keyID, delegatedRole)}""","""		// once a key has verified, the rest is only counted
		if !ok && len(signingKeys) == 0 {
			return ErrValue{Msg: fmt.Sprintf("key with ID %s not found in %s keyids", keyID, delegatedRole)}""")],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	defer func() { if e := recover(); e != nil { t.Fatal("panic:", e) } }()
	pub, priv, err := ed25519.GenerateKey(rand.Reader)
	if err != nil { t.Fatal(err) }
	sg, err := signature.LoadSigner(priv, crypto.Hash(0))
	if err != nil { t.Fatal(err) }
	k, err := KeyFromPublicKey(pub)
	if err != nil { t.Fatal(err) }
	root := Root(time.Now().Add(time.Hour))
	if err := root.Signed.AddKey(k, "root"); err != nil { t.Fatal(err) }
	root.Signed.Roles["root"].KeyIDs = append(root.Signed.Roles["root"].KeyIDs, "missing")
	if _, err := root.Sign(sg); err != nil { t.Fatal(err) }
	b, err := root.ToBytes(false)
	if err != nil { t.Fatal(err) }
	if _, err := trustedmetadata.New(b); err == nil { t.Fatal("accepted") }
}
''', "time crypto crypto/ed25519 crypto/rand github.com/sigstore/sigstore/pkg/signature github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"), needs="a role that lists a key that verifies and then one that is missing", breaks="verifying panics on a missing key that follows a good one"),
]
