exec(open("/verif/tools/seedsrc/b2.py").read().split("\nSEEDS=[")[0])
U="metadata/updater/updater.go"
F="metadata/fetcher/fetcher.go"
CLIENT=WORLD+'''
type mirror struct { files map[string][]byte; fail map[string]error; log []string; max map[string]int64 }
func (m *mirror) DownloadFile(u string, max int64, d time.Duration) ([]byte, error) {
	m.log = append(m.log, u); m.max[u] = max
	if e := m.fail[u]; e != nil { return nil, e }
	b, ok := m.files[u]
	if !ok { return nil, ErrDownloadHTTP{StatusCode: 404, URL: u} }
	return append([]byte{}, b...), nil
}
// a served repository signed with one key, and the configuration of a client of it
func shop(t *testing.T, a who) (*mirror, *config.UpdaterConfig) {
	m := &mirror{map[string][]byte{}, map[string]error{}, nil, map[string]int64{}}
	r := rootWith(a); r.Signed.ConsistentSnapshot = false
	root := enc(t, r, a)
	m.files["http://r/1.root.json"] = root
	m.files["http://r/timestamp.json"] = enc(t, tsAt(1, 1), a)
	m.files["http://r/snapshot.json"] = enc(t, snAt(1, map[string]int64{"targets": 1}), a)
	m.files["http://r/targets.json"] = enc(t, Targets(later()), a)
	return m, &config.UpdaterConfig{MaxRootRotations: 5, MaxDelegations: 8, RootMaxLength: 50000, TimestampMaxLength: 50001, SnapshotMaxLength: 50002, TargetsMaxLength: 50003,
		Fetcher: m, LocalTrustedRoot: root, LocalMetadataDir: t.TempDir(), LocalTargetsDir: t.TempDir(), RemoteMetadataURL: "http://r", RemoteTargetsURL: "http://r/t", PrefixTargetsWithHash: true}
}
func nextRoot(t *testing.T, a who, v int64) []byte { r := rootWith(a); r.Signed.ConsistentSnapshot = false; r.Signed.Version = v; return enc(t, r, a) }
func client(t *testing.T, c *config.UpdaterConfig) *updater.Updater {
	u, err := updater.New(c)
	if err != nil { t.Fatal(err) }
	return u
}
var _ = os.ReadFile
var _ = filepath.Join
'''
CIMP="crypto crypto/ed25519 time os path/filepath github.com/sigstore/sigstore/pkg/signature github.com/rdimitrov/go-tuf-metadata/metadata/updater github.com/rdimitrov/go-tuf-metadata/metadata/config"
def cdemo(body, imp=""): return demo(CLIENT+body, (CIMP+" "+imp).strip())
SEEDS=[
dict(id="C10-longer-cache", prop="C10", pkg="zzdemo",
 edits=[(U,"""	// verify if the length and hashes of this target file match the expected values
	err = targetFile.VerifyLengthHashes(data)
	if err != nil {
		// do""","""	// padding behind the content of the target is not part of it
	if targetFile.Length > 0 && int64(len(data)) > targetFile.Length {
		data = data[:targetFile.Length]
	}
	// verify if the length and hashes of this target file match the expected values
	err = targetFile.VerifyLengthHashes(data)
	if err != nil {
		// do""")],
 demo=cdemo('''
func TestSeededDemo(t *testing.T) {
	_, c := shop(t, newWho(t))
	tf, _ := TargetFile().FromBytes("x", []byte("abc"), "sha256")
	p := filepath.Join(c.LocalTargetsDir, "f")
	os.WriteFile(p, []byte("abcEVIL"), 0o600)
	got, data, err := client(t, c).FindCachedTarget(tf, p)
	if got != "" || data != nil || err != nil { t.Fatal("a file that does not match is reported as the cached target:", got, string(data)) }
}
'''), needs="a cached file that starts with the content of the target and goes on", breaks="a local file with extra content is reported as the verified target"),
dict(id="C10-write-error-hidden", prop="C10", pkg="zzdemo",
 edits=[(U,"""		err = os.WriteFile(filePath, data, 0644)
		if err != nil {
			return "", nil, err
		}
""","""		err = os.WriteFile(filePath, data, 0644)
		if err != nil && !errors.Is(err, os.ErrPermission) && !errors.Is(err, os.ErrExist) && !os.IsNotExist(err) {
			return "", nil, err
		}
""")],
 demo=cdemo('''
func TestSeededDemo(t *testing.T) {
	m, c := shop(t, newWho(t))
	tf, _ := TargetFile().FromBytes("x", []byte("abc"), "sha256")
	m.files["http://r/t/x"] = []byte("abc")
	u := client(t, c)
	p := filepath.Join(c.LocalTargetsDir, "f")
	if _, _, err := u.DownloadTarget(tf, p, ""); err != nil { t.Fatal(err) }
	p = filepath.Join(c.LocalTargetsDir, "none", "f")
	if got, _, err := u.DownloadTarget(tf, p, ""); err == nil {
		if _, e := os.Stat(got); e != nil { t.Fatal("success is reported for a target that was not stored") }
	}
}
'''), needs="a target path in a directory that does not exist", breaks="a download succeeds although the target could not be stored"),
dict(id="C14-space-in-role", prop="C14", pkg="zzdemo",
 edits=[(U,"""	fileName := filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName)))
	cwd""","""	fileName := filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.PathEscape(roleName)))
	cwd""")],
 demo=cdemo('''
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	m, c := shop(t, a)
	tg := Targets(later())
	tg.Signed.Delegations = &Delegations{Keys: map[string]*Key{a.key.ID(): a.key}, Roles: []DelegatedRole{{Name: "my role", KeyIDs: []string{a.key.ID()}, Threshold: 1, Paths: []string{"*"}}}}
	m.files["http://r/targets.json"] = enc(t, tg, a)
	m.files["http://r/snapshot.json"] = enc(t, snAt(1, map[string]int64{"targets": 1, "my role": 1}), a)
	m.files["http://r/my+role.json"] = enc(t, Targets(later()), a)
	for i := 0; i < 2; i++ {
		m.log = nil
		u := client(t, c)
		u.GetTargetInfo("nothing")
		for _, q := range m.log { if i == 1 && q == "http://r/my+role.json" { t.Fatal("the stored role is not what the client reads next time") } }
	}
}
'''), needs="a delegated role with a space in its name, and a second client", breaks="the metadata is stored under another name than the one it is read from"),
dict(id="C14-equal-version-stored", prop="C14", pkg="zzdemo",
 edits=[(U,"""			// new timestamp; this is normal and it shouldn't raise any error
			return nil
""","""			// new timestamp; this is normal and it shouldn't raise any error
			return update.persistMetadata(metadata.TIMESTAMP, data)
""")],
 demo=cdemo('''
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	m, c := shop(t, a)
	if err := client(t, c).Refresh(); err != nil { t.Fatal(err) }
	first := m.files["http://r/timestamp.json"]
	m.files["http://r/timestamp.json"] = enc(t, tsAt(1, 7), a)
	if err := client(t, c).Refresh(); err != nil { t.Fatal(err) }
	b, _ := os.ReadFile(filepath.Join(c.LocalMetadataDir, "timestamp.json"))
	if string(b) != string(first) { t.Fatal("a timestamp that did not become trusted was stored") }
}
'''), needs="a second refresh that is answered with another timestamp of the same version", breaks="a document that was discarded is stored"),
dict(id="C15-other-statuses", prop="C15", pkg="zzdemo",
 edits=[(U,"""				if tmpErr.StatusCode != http.StatusNotFound && tmpErr.StatusCode != http.StatusForbidden {""","""				if tmpErr.StatusCode < http.StatusForbidden || tmpErr.StatusCode > http.StatusMethodNotAllowed {""")],
 demo=cdemo('''
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	m, c := shop(t, a)
	u := client(t, c)
	if err := u.Refresh(); err != nil { t.Fatal(err) }
	m.fail["http://r/2.root.json"] = ErrDownloadHTTP{StatusCode: 405}
	if err := client(t, c).Refresh(); err == nil { t.Fatal("a root request that is not allowed ends the root update without an error") }
}
'''), needs="a server answering 405 to a root request", breaks="a failure other than missing or forbidden stops the root update silently"),
dict(id="C15-one-more", prop="C15", pkg="zzdemo",
 edits=[(U,"""	upperBound := lowerBound + update.cfg.MaxRootRotations
""","""	upperBound := lowerBound + max(update.cfg.MaxRootRotations, 1)
""")],
 demo=cdemo('''
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	m, c := shop(t, a)
	m.files["http://r/2.root.json"] = nextRoot(t, a, 2)
	c.MaxRootRotations = 0
	u := client(t, c)
	if err := u.Refresh(); err != nil { t.Fatal(err) }
	if s := u.GetTrustedMetadataSet(); s.Root.Signed.Version != 1 { t.Fatal("more root rotations than configured") }
}
'''), needs="a rotation limit of zero", breaks="one root is requested although no rotation is allowed"),
dict(id="C15-skip-known", prop="C15", pkg="zzdemo",
 edits=[(U,"""	for nextVersion := lowerBound; nextVersion < upperBound; nextVersion++ {
		data, err :=""","""	for nextVersion := lowerBound; nextVersion < upperBound; nextVersion++ {
		if stored, err := update.loadLocalMetadata(metadata.ROOT); err == nil && nextVersion > lowerBound+1 {
			// another client may have been here already
			if newer, err := metadata.Root().FromBytes(stored); err == nil && newer.Signed.Version >= nextVersion {
				continue
			}
		}
		data, err :=""")],
 demo=cdemo('''
type racing struct { *mirror; at string; do func() }
func (r *racing) DownloadFile(u string, max int64, d time.Duration) ([]byte, error) {
	b, err := r.mirror.DownloadFile(u, max, d)
	if u == r.at { r.do() }
	return b, err
}
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	m, c := shop(t, a)
	for v := int64(2); v < 5; v++ { m.files["http://r/"+string(rune('0'+v))+".root.json"] = nextRoot(t, a, v) }
	far := nextRoot(t, a, 5)
	// another process replaces the stored root while the second one is stored
	c.DisableLocalCache = true
	os.WriteFile(filepath.Join(c.LocalMetadataDir, "root.json"), far, 0o600)
	c.Fetcher = &racing{m, "", func() {}}
	u := client(t, c)
	if err := u.Refresh(); err != nil { t.Fatal(err) }
	if s := u.GetTrustedMetadataSet(); s.Root.Signed.Version != 4 { t.Fatal("root versions were skipped, trusted:", s.Root.Signed.Version) }
}
'''), needs="a local root newer than the trusted one, three published versions ahead", breaks="root versions are skipped because a local file names a later version"),
dict(id="C16-trusted-local-snapshot", prop="C16", pkg="zzdemo",
 edits=[(U,"""	_, err = update.trusted.UpdateSnapshot(data, false)
	if err != nil {
		return err
	}

	// targets""","""	// this is a local copy, like the one used in loadSnapshot
	_, err = update.trusted.UpdateSnapshot(data, true)
	if err != nil {
		return err
	}

	// targets""")],
 demo=cdemo('''
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	m, c := shop(t, a)
	sn := m.files["http://r/snapshot.json"]
	ts := tsAt(1, 1)
	ts.Signed.Meta["snapshot.json"].Length = int64(len(sn))
	for n, b := range map[string][]byte{"timestamp": enc(t, ts, a), "snapshot": append(sn, ' '), "targets": m.files["http://r/targets.json"]} {
		os.WriteFile(filepath.Join(c.LocalMetadataDir, n+".json"), b, 0o600)
	}
	c.UnsafeLocalMode = true
	if err := client(t, c).Refresh(); err == nil { t.Fatal("a local snapshot of the wrong length is accepted") }
	os.WriteFile(filepath.Join(c.LocalMetadataDir, "snapshot.json"), sn, 0o600)
	if err := client(t, c).Refresh(); err != nil { t.Fatal(err) }
}
'''), needs="a local snapshot whose length or hash differs from what the local timestamp records", breaks="the local snapshot is not verified against the timestamp"),
dict(id="C16-online-fallback", prop="C16", pkg="zzdemo",
 edits=[(U,"""		return update.unsafeLocalRefresh()
	}
	return""","""		err := update.unsafeLocalRefresh()
		if !errors.Is(err, metadata.ErrExpiredMetadata{}) {
			return err
		}
	}
	return""")],
 demo=cdemo('''
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	m, c := shop(t, a)
	if err := client(t, c).Refresh(); err != nil { t.Fatal(err) }
	old := tsAt(1, 1)
	old.Signed.Expires = time.Now().UTC().Add(-time.Hour).Truncate(time.Second)
	os.WriteFile(filepath.Join(c.LocalMetadataDir, "timestamp.json"), enc(t, old, a), 0o600)
	m.log, c.UnsafeLocalMode = nil, true
	if err := client(t, c).Refresh(); err == nil || len(m.log) > 0 { t.Fatal("a local refresh goes to the network:", m.log) }
}
'''), needs="expired cached metadata in local-only mode", breaks="the network is contacted in local-only mode"),
dict(id="C17-exact-limit", prop="C17", pkg="zzdemo",
 edits=[(F,"""	if res.StatusCode == http.StatusNotFound || res.StatusCode == http.StatusForbidden || res.StatusCode != http.StatusOK {""","""	if res.StatusCode == http.StatusNotFound || res.StatusCode == http.StatusForbidden || res.StatusCode != http.StatusOK && res.StatusCode != http.StatusPartialContent {""")],
 demo=demo('''
func TestSeededDemo(t *testing.T) {
	st := 206
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { w.WriteHeader(st); w.Write([]byte("abc")) }))
	defer s.Close()
	f := &fetcher.DefaultFetcher{}
	if _, err := f.DownloadFile(s.URL, 10, 5*time.Second); err == nil { t.Fatal("content of an answer with status 206 is returned") }
	st = 200
	if b, err := f.DownloadFile(s.URL, 10, 5*time.Second); err != nil || string(b) != "abc" { t.Fatal(err) }
	var _ = ROOT
}
''',"net/http net/http/httptest time github.com/rdimitrov/go-tuf-metadata/metadata/fetcher"), needs="a server answering with partial content", breaks="content is returned for a status other than 200"),
dict(id="C17-silent-truncation", prop="C17", pkg="zzdemo",
 edits=[(F,"""	length = int64(len(data))
	if length > maxLength {""","""	length, known := int64(len(data)), length > 0
	if length > maxLength && known {
		// the announced length was right, so the rest is padding
		data = data[:maxLength]
	} else if length > maxLength {""")],
 demo=demo('''
type body struct{ io.Reader }
func (body) Close() error { return nil }
type lying struct{}
func (lying) RoundTrip(q *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Length": {"3"}}, Body: body{strings.NewReader("abcdef")}, ContentLength: 3, Request: q}, nil
}
func TestSeededDemo(t *testing.T) {
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	http.DefaultTransport = lying{}
	f := &fetcher.DefaultFetcher{}
	if b, err := f.DownloadFile("http://x/y", 5, time.Second); err == nil { t.Fatal("a body above the limit is returned cut:", string(b)) }
	if b, err := f.DownloadFile("http://x/y", 6, time.Second); err != nil || string(b) != "abcdef" { t.Fatal(err) }
	var _ = ROOT
}
''',"net/http io strings time github.com/rdimitrov/go-tuf-metadata/metadata/fetcher"), needs="a body longer than the limit with an announced length within it", breaks="a body above the limit is cut instead of refused"),
dict(id="C18-recorded-above-maximum", prop="C18", pkg="zzdemo",
 edits=[(U,"""	length := metaInfo.Length
	if length == 0 {
		length = update.cfg.TargetsMaxLength""","""	length := metaInfo.Length
	if length == 0 || length < update.cfg.TargetsMaxLength && roleName != metadata.TARGETS {
		length = update.cfg.TargetsMaxLength""")],
 demo=cdemo('''
func TestSeededDemo(t *testing.T) {
	a := newWho(t)
	m, c := shop(t, a)
	tg := Targets(later())
	tg.Signed.Delegations = &Delegations{Keys: map[string]*Key{a.key.ID(): a.key}, Roles: []DelegatedRole{{Name: "r", KeyIDs: []string{a.key.ID()}, Threshold: 1, Paths: []string{"*"}}}}
	m.files["http://r/targets.json"] = enc(t, tg, a)
	b := enc(t, Targets(later()), a)
	m.files["http://r/r.json"] = b
	sn := snAt(1, map[string]int64{"targets": 1, "r": 1})
	sn.Signed.Meta["r.json"].Length = int64(len(b))
	m.files["http://r/snapshot.json"] = enc(t, sn, a)
	client(t, c).GetTargetInfo("nothing")
	if m.max["http://r/r.json"] != int64(len(b)) { t.Fatal("a delegated role of recorded length", len(b), "is requested with limit", m.max["http://r/r.json"]) }
}
'''), needs="a delegated role whose length is recorded", breaks="the recorded length of delegated roles is not the limit of their request"),
dict(id="C18-base-without-slash", prop="C18", pkg="zzdemo",
 edits=[(U,"""		targetBaseURL = ensureTrailingSlash(targetBaseURL)
	}""","""		if !strings.ContainsAny(targetBaseURL, "?#") {
			targetBaseURL = ensureTrailingSlash(targetBaseURL)
		}
	}""")],
 demo=cdemo('''
func TestSeededDemo(t *testing.T) {
	m, c := shop(t, newWho(t))
	tf, _ := TargetFile().FromBytes("x", []byte("abc"), "sha256")
	u := client(t, c)
	u.DownloadTarget(tf, "", "http://o/get?file=")
	if q := m.log[len(m.log)-1]; q != "http://o/get?file=/x" { t.Fatal("the target is requested from", q) }
}
'''), needs="a given target location with a query", breaks="the slash between location and path is missing"),
]
