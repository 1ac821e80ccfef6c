exec(open("/verif/tools/seedsrc/b4.py").read().split("\nSEEDS=[")[0])
M="metadata/metadata.go"
SEEDS=[
dict(id="C08-adjacent-duplicates", prop="C08", pkg="zzdemo",
 edits=[(M,"""		if slices.Contains(signatures, sig.KeyID) {
			return""","""		if len(signatures) > 0 && signatures[len(signatures)-1] == sig.KeyID {
			return""")],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	b := []byte(`{"signatures":[{"keyid":"a","sig":"00"},{"keyid":"b","sig":"00"},{"keyid":"a","sig":"01"}],"signed":{"_type":"snapshot","spec_version":"1.0.31","version":1,"expires":"2998-01-02T03:04:05Z","meta":{}}}`)
	if _, err := Snapshot(time.Now()).FromBytes(b); err == nil { t.Fatal("two signatures of one key are accepted") }
}
''', "time"), needs="two signatures of one key with another one between them", breaks="only neighbouring signatures of one key are noticed"),
dict(id="C08-decode-in-place", prop="C08", pkg="zzdemo",
 edits=[(M,"""	m, err := fromBytes[T](data)
	if err != nil {
		return nil, err
	}
	*meta = *m
	log.Info("Loaded metadata from file", "name", name)""","""	if err := checkType[T](data); err != nil {
		return nil, err
	}
	// read it into a copy
	m := *meta
	if err := json.Unmarshal(data, &m); err != nil {
		return nil, err
	}
	*meta = m
	if err := checkUniqueSignatures(m); err != nil {
		return nil, err
	}
	log.Info("Loaded metadata from file", "name", name)""")],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	b := []byte(`{"signatures":[{"keyid":"a","sig":"00"},{"keyid":"a","sig":"01"}],"signed":{"_type":"snapshot","spec_version":"1.0.31","version":7,"expires":"2998-01-02T03:04:05Z","meta":{}}}`)
	p := filepath.Join(t.TempDir(), "s.json")
	if err := os.WriteFile(p, b, 0o600); err != nil { t.Fatal(err) }
	s := Snapshot(time.Now())
	if _, err := s.FromFile(p); err == nil { t.Fatal("accepted") }
	if s.Signed.Version != 1 || len(s.Signatures) != 0 { t.Fatal("the refused file changed the object to version", s.Signed.Version) }
}
''', "time os path/filepath"), needs="a file with duplicate signatures loaded into an object", breaks="a refused file replaces the content of the object"),
dict(id="C08-type-of-first-object", prop="C08", pkg="zzdemo",
 edits=[(M,"""		if TIMESTAMP != signedType {""","""		if TIMESTAMP != signedType && SNAPSHOT != signedType {""")],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	b := []byte(`{"signatures":[],"signed":{"_type":"snapshot","spec_version":"1.0.31","_TYPE":"timestamp","version":7,"expires":"2998-01-02T03:04:05Z","meta":{"snapshot.json":{"version":1}}}}`)
	if _, err := Timestamp(time.Now()).FromBytes(b); err == nil { t.Fatal("a snapshot is accepted as timestamp") }
}
''', "time"), needs="a snapshot document with a second type member spelled differently", breaks="a document that declares another role is accepted"),
]
