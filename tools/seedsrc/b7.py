exec(open("/verif/tools/seedsrc/b4.py").read().split("\nSEEDS=[")[0])
MR="metadata/multirepo/multirepo.go"
MULTI='''
// repositories that answer with the given target files, behind one client
func multi(t *testing.T, answers map[string]*TargetFiles, m ...*multirepo.Mapping) *multirepo.MultiRepoClient {
	c := &multirepo.MultiRepoClient{TUFClients: map[string]*updater.Updater{}, Config: &multirepo.MultiRepoConfig{RepoMap: &multirepo.MultiRepoMapType{Repositories: map[string][]string{}, Mapping: m}}}
	for name, tf := range answers {
		a := newWho(t)
		s, cfg := shop(t, a)
		tg := Targets(later())
		if tf != nil { tg.Signed.Targets["x"] = tf }
		s.files["http://r/targets.json"] = enc(t, tg, a)
		cfg.DisableLocalCache = true
		c.TUFClients[name] = client(t, cfg)
		c.Config.RepoMap.Repositories[name] = []string{"http://r"}
	}
	return c
}
func file(s string) *TargetFiles { f, err := TargetFile().FromBytes("x", []byte(s)); if err != nil { panic(err) }; return f }
'''
MI="github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
def mdemo(body): return cdemo(MULTI+body, MI)
CFG='''
// a configuration of repositories with a trusted root each
func several(t *testing.T, names ...string) *multirepo.MultiRepoConfig {
	c := &multirepo.MultiRepoConfig{RepoMap: &multirepo.MultiRepoMapType{Repositories: map[string][]string{}}, TrustedRoots: map[string][]byte{}, LocalMetadataDir: t.TempDir(), LocalTargetsDir: t.TempDir()}
	for i, n := range names {
		a := newWho(t)
		r := rootWith(a); r.Signed.Version = int64(i + 1)
		c.TrustedRoots[n] = enc(t, r, a)
		c.RepoMap.Repositories[n] = []string{"http://r/" + n}
	}
	return c
}
func chdir(t *testing.T) { d, err := os.Getwd(); if err != nil { t.Fatal(err) }; if err := os.Chdir(t.TempDir()); err != nil { t.Fatal(err) }; t.Cleanup(func() { os.Chdir(d) }) }
'''
def kdemo(body): return cdemo(CFG+body, MI)
SEEDS=[
dict(id="C23-last-voucher-only", prop="C23", pkg="zzdemo",
 edits=[(MR,"if slices.Contains(target.repositories, repoName) {","if n := len(target.repositories); n > 0 && slices.Index(target.repositories, repoName) == n-1 {")],
 demo=mdemo('''
func TestSeededDemo(t *testing.T) {
	c := multi(t, map[string]*TargetFiles{"a": file("1"), "b": file("1")}, &multirepo.Mapping{Paths: []string{"*"}, Repositories: []string{"a", "b", "a"}, Threshold: 3})
	if _, r, err := c.GetTargetInfo("x"); err == nil { t.Fatal("two repositories are enough for three:", r) }
}
'''), needs="a repository listed again after another one in a mapping", breaks="a repository is counted twice towards the threshold"),
dict(id="C23-larger-group-wins", prop="C23", pkg="zzdemo",
 edits=[(MR,"							if result != nil {","							if result != nil && len(result.repositories) >= len(target.repositories) {")],
 demo=mdemo('''
func TestSeededDemo(t *testing.T) {
	c := multi(t, map[string]*TargetFiles{"a": file("1"), "b": file("2"), "c": file("2")}, &multirepo.Mapping{Paths: []string{"*"}, Repositories: []string{"a", "b", "c"}, Threshold: 1})
	if _, r, err := c.GetTargetInfo("x"); err == nil { t.Fatal("one of two conflicting targets is returned:", r) }
}
'''), needs="two different records that both reach the threshold, the later one with more repositories behind it", breaks="a conflict between two satisfied groups is settled silently"),
dict(id="C23-groups-kept", prop="C23", pkg="zzdemo",
 edits=[(MR,"""	terminated := false
	// loop through each mapping""","""	terminated := false
	var matchedTargetGroups []targetMatch
	// loop through each mapping"""),(MR,"""					var matchedTargetGroups []targetMatch
					for _, repoName""","""					for _, repoName""")],
 demo=mdemo('''
func TestSeededDemo(t *testing.T) {
	c := multi(t, map[string]*TargetFiles{"a": file("1"), "b": file("1")}, &multirepo.Mapping{Paths: []string{"*"}, Repositories: []string{"a"}, Threshold: 2}, &multirepo.Mapping{Paths: []string{"*"}, Repositories: []string{"b"}, Threshold: 2})
	if _, r, err := c.GetTargetInfo("x"); err == nil { t.Fatal("repositories of two mappings are counted together:", r) }
}
'''), needs="two matching mappings that are both short of their threshold", breaks="repositories of an earlier mapping count towards the threshold of a later one"),
dict(id="C23-terminating-if-answered", prop="C23", pkg="zzdemo",
 edits=[(MR,"					if eachMap.Terminating {","					if eachMap.Terminating && len(matchedTargetGroups) > 0 {")],
 demo=mdemo('''
func TestSeededDemo(t *testing.T) {
	c := multi(t, map[string]*TargetFiles{"a": nil, "b": file("1")}, &multirepo.Mapping{Paths: []string{"*"}, Repositories: []string{"a"}, Threshold: 1, Terminating: true}, &multirepo.Mapping{Paths: []string{"*"}, Repositories: []string{"b"}, Threshold: 1})
	if _, r, err := c.GetTargetInfo("x"); err == nil { t.Fatal("a mapping after a terminating one is consulted:", r) }
}
'''), needs="a terminating mapping none of whose repositories knows the target", breaks="the search goes on after a terminating mapping"),
dict(id="C23-first-group-wins", prop="C23", pkg="zzdemo",
 edits=[(MR,"						return result.targetInfo, result.repositories, nil","						return matchedTargetGroups[0].targetInfo, result.repositories, nil")],
 demo=mdemo('''
func TestSeededDemo(t *testing.T) {
	c := multi(t, map[string]*TargetFiles{"a": file("9"), "b": file("1"), "c": file("1")}, &multirepo.Mapping{Paths: []string{"*"}, Repositories: []string{"a", "b", "c"}, Threshold: 2})
	f, _, err := c.GetTargetInfo("x")
	if err != nil { t.Fatal(err) }
	if !f.Equal(*file("1")) { t.Fatal("the target of the dissenting repository is returned") }
}
'''), needs="a dissenting repository listed before those that agree", breaks="the returned record is not the one the repositories agree on"),
dict(id="C24-shared-folder-lowercase", prop="C24", pkg="zzdemo",
 edits=[(MR,"metadataDir := filepath.Join(client.Config.LocalMetadataDir, repoName)","metadataDir := filepath.Join(client.Config.LocalMetadataDir, strings.ToLower(repoName))")],
 demo=kdemo('''
func TestSeededDemo(t *testing.T) {
	chdir(t)
	c := several(t, "Main", "main")
	if _, err := multirepo.New(c); err != nil { t.Fatal(err) }
	for n, want := range c.TrustedRoots {
		got, err := os.ReadFile(filepath.Join(c.LocalMetadataDir, n, "root.json"))
		if err != nil || string(got) != string(want) { t.Fatal("the root of", n, "is not in its own directory", err) }
	}
}
'''), needs="two repositories whose names differ in case only", breaks="two repositories share a metadata directory"),
dict(id="C24-targets-dir-leaks", prop="C24", pkg="zzdemo",
 edits=[(MR,"""			targetsDir = filepath.Join(metadataDir, "targets")
""","""			client.Config.LocalTargetsDir = filepath.Join(metadataDir, "targets")
			targetsDir = client.Config.LocalTargetsDir
""")],
 demo=kdemo('''
func TestSeededDemo(t *testing.T) {
	chdir(t)
	c := several(t, "a", "b")
	c.LocalTargetsDir = ""
	if _, err := multirepo.New(c); err != nil { t.Fatal(err) }
	if c.LocalTargetsDir != "" { t.Fatal("the targets directory of one repository is used for all:", c.LocalTargetsDir) }
	for n := range c.TrustedRoots {
		if _, err := os.Stat(filepath.Join(c.LocalMetadataDir, n, "targets")); err != nil { t.Fatal(err) }
	}
}
'''), needs="two repositories and no common targets directory", breaks="the second repository stores targets in the directory of the first"),
dict(id="C24-skip-rootless", prop="C24", pkg="zzdemo",
 edits=[(MR,"""			return fmt.Errorf("failed to get trusted root metadata from config for repository - %s", repoName)
""","""			log.Info("No trusted root metadata, skipping", "name", repoName)
			continue
""")],
 demo=kdemo('''
func TestSeededDemo(t *testing.T) {
	chdir(t)
	c := several(t, "a", "b")
	delete(c.TrustedRoots, "b")
	if _, err := multirepo.New(c); err == nil { t.Fatal("a repository without a trusted root is accepted") }
}
'''), needs="a configuration whose roots were changed after it was validated", breaks="a repository without a trusted root is silently left out"),
dict(id="C24-count-roots", prop="C24", pkg="zzdemo",
 edits=[(MR,"""		_, ok := roots[repo]
		if !ok {""","""		_, ok := roots[repo]
		if !ok && len(roots) < len(mapFile.Repositories) {""")],
 demo=kdemo('''
func TestSeededDemo(t *testing.T) {
	m := []byte(`{"repositories":{"a":["http://a"],"b":["http://b"]},"mapping":[]}`)
	if _, err := multirepo.NewConfig(m, map[string][]byte{"a": []byte("{}"), "c": []byte("{}")}); err == nil { t.Fatal("no root for b, yet accepted") }
}
'''), needs="as many roots as repositories, but one of a repository that is not in the map", breaks="a repository without a trusted root is accepted"),
]
