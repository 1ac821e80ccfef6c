exec(open("/verif/tools/seedsrc/b2.py").read().split("\nSEEDS=[")[0])
M="metadata/metadata.go"
SEEDS=[
dict(id="C11-paths-then-prefixes", prop="C11", pkg="zzdemo",
 edits=[(M,"""				return true, nil
			}
		}
	} else if len(role.PathHashPrefixes) > 0 {""","""				return true, nil
			}
		}
	}
	if len(role.PathHashPrefixes) > 0 {""")],
 demo=demo("""
func TestSeededDemo(t *testing.T) {
	d := sha256.Sum256([]byte("b/x"))
	r := DelegatedRole{Name: "r", Paths: []string{"a/*"}, PathHashPrefixes: []string{base64.URLEncoding.EncodeToString(d[:])[:2]}}
	if ok, _ := r.IsDelegatedPath("b/x"); ok { t.Fatal("responsible for a path outside its patterns") }
	if ok, _ := r.IsDelegatedPath("a/x"); !ok { t.Fatal("not responsible for its own path") }
}
""","crypto/sha256 encoding/base64"),
 needs="a role listing both path patterns and hash prefixes", breaks="a role delegated by path patterns also gets the paths of its hash prefixes"),
dict(id="C11-trailing-slash", prop="C11", pkg="zzdemo",
 edits=[(M,"""	patternParts := strings.Split(pathpattern, "/")
""","""	patternParts := strings.Split(strings.TrimSuffix(pathpattern, "/"), "/")
""")],
 demo=demo("""
func TestSeededDemo(t *testing.T) {
	r := DelegatedRole{Name: "r", Paths: []string{"a/*/"}}
	if ok, _ := r.IsDelegatedPath("a/x"); ok { t.Fatal("a pattern of three parts matches a path of two") }
}
"""),
 needs="a path pattern ending in a slash", breaks="a pattern with one part more than the target path matches it"),
dict(id="C12-float32", prop="C12", pkg="zzdemo",
 edits=[(M,"""	suffixLen := len(strconv.FormatInt(int64(numberOfBins-1), 16))

	targetFilepathHash""","""	suffixLen := len(strconv.FormatInt(int64(float32(numberOfBins-1)), 16))

	targetFilepathHash""")],
 demo=demo("""
func TestSeededDemo(t *testing.T) {
	for bits := 1; bits <= 32; bits++ {
		r := &SuccinctRoles{BitLength: bits, NamePrefix: "bin"}
		for n := range r.GetRolesForTarget("x") {
			if !r.IsDelegatedRole(n) { t.Fatalf("%d bits: the bin %q of a path is not a delegated role", bits, n) }
		}
	}
}
"""),
 needs="a bit length of 28 or 32, where 2^bits-1 rounds up in single precision", breaks="the name of the bin of a path is one digit too wide and is not a delegated role"),
dict(id="C12-prefix-case", prop="C12", pkg="zzdemo",
 edits=[(M,"""	if !strings.HasPrefix(roleName, expectedPrefix) {""","""	if len(roleName) < len(expectedPrefix) || !strings.EqualFold(roleName[:len(expectedPrefix)], expectedPrefix) {""")],
 demo=demo("""
func TestSeededDemo(t *testing.T) {
	r := &SuccinctRoles{BitLength: 3, NamePrefix: "bin"}
	if r.IsDelegatedRole("BIN-7") || !r.IsDelegatedRole("bin-7") { t.Fatal("wrong names are recognised") }
}
"""),
 needs="a role name that differs from a bin name in the case of the prefix", breaks="more than 2^bits names are recognised as delegated"),
dict(id="C12-listing-capped", prop="C12", pkg="zzdemo",
 edits=[(M,"""	for binNumber := 0; binNumber < numberOfBins; binNumber++ {
		suffix""","""	for binNumber := 0; binNumber < min(numberOfBins, 1<<14); binNumber++ {
		suffix""")],
 demo=demo("""
func TestSeededDemo(t *testing.T) {
	r := &SuccinctRoles{BitLength: 15, NamePrefix: "bin"}
	if n := len(r.GetRoles()); n != 1<<15 { t.Fatalf("%d names are listed", n) }
}
"""),
 needs="a bit length above 14", breaks="the list of delegated names stops after 16384 bins although more are recognised"),
]
