package zzverif

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
)

// ---- a repository served by a scripted fetcher ----

type request struct {
	URL string
	Max int64
	Err error
}

// site answers the requests of a client: documents by address, failures first.
type site struct {
	files map[string][]byte
	fails map[string]error
	log   []request
	hook  func(u string)
}

func (s *site) DownloadFile(u string, max int64, timeout time.Duration) (data []byte, err error) {
	if s.hook != nil {
		s.hook(u)
	}
	defer func() { s.log = append(s.log, request{u, max, err}) }()
	if e := s.fails[u]; e != nil {
		return nil, e
	}
	b, ok := s.files[u]
	if !ok {
		return nil, metadata.ErrDownloadHTTP{StatusCode: 404, URL: u}
	}
	if int64(len(b)) > max {
		return nil, metadata.ErrDownloadLengthMismatch{Msg: "too long"}
	}
	return append([]byte{}, b...), nil
}

// node is a targets role of the repository.
type node struct {
	name    string
	version int64
	files   obj     // target files listed
	kids    []*edge // delegations, in order
	bits    int     // succinct delegation to bins, when > 0
	bytes   []byte  // the document
	keys    []*TKey // that sign it
	note    string
}

type edge struct {
	to          string
	terminating bool
	paths       []any
	keys        []*TKey
}

// depot is a repository and the client of it.
type depot struct {
	h          *H
	r          *rand.Rand
	consistent bool
	roots      [][]byte // from version 1
	nodes      map[string]*node
	order      []string
	snap, ts   []byte
	snapVer    int64
	tsVer      int64
	tsRec      obj
	snapRec    obj            // of the snapshot, in the timestamp
	recs       map[string]obj // of the targets roles, in the snapshot
	site       *site
	base       string
	cfg        *config.UpdaterConfig
	dir        string // metadata directory
	targets    string // targets directory
	cwd        string
}

func kRoot() []*TKey  { return []*TKey{ed(500), ed(501)} }
func kTS() *TKey      { return ed(502) }
func kSnap() *TKey    { return ed(503) }
func kTargets() *TKey { return ed(504) }

func (d *depot) rootDoc(v int64, keys ...*TKey) []byte {
	signed := obj{"_type": "root", "spec_version": "1.0.31", "version": v, "expires": farFuture, "consistent_snapshot": d.consistent,
		"keys":  keysObj(append([]*TKey{kTS(), kSnap(), kTargets()}, kRoot()...)...),
		"roles": obj{"root": role(2, kRoot()...), "timestamp": role(1, kTS()), "snapshot": role(1, kSnap()), "targets": role(1, kTargets())}}
	return doc(signed, keys...)
}

func (d *depot) record(b []byte, v int64) obj {
	o := obj{"version": v}
	if d.r.Intn(2) == 0 {
		o["length"] = len(b)
	}
	if d.r.Intn(2) == 0 {
		o["hashes"] = hashesOf(b)
	}
	return o
}

func (d *depot) add(n *node) *node {
	if n.version == 0 {
		n.version = int64(1 + d.r.Intn(12))
	}
	if n.files == nil {
		n.files = obj{}
	}
	d.nodes[n.name] = n
	d.order = append(d.order, n.name)
	return n
}

// publish makes and serves the documents.
func (d *depot) publish() {
	meta := obj{}
	for _, name := range d.order {
		n := d.nodes[name]
		signed := obj{"_type": "targets", "spec_version": "1.0.31", "version": n.version, "expires": farFuture, "targets": n.files}
		if n.bits > 0 {
			k := ed(520)
			signed["delegations"] = obj{"keys": keysObj(k), "succinct_roles": obj{"keyids": ids(k), "threshold": 1, "bit_length": n.bits, "name_prefix": name + "bin"}}
		} else if n.kids != nil {
			ks := map[string]*TKey{}
			rs := []any{}
			for _, e := range n.kids {
				for _, k := range e.keys {
					ks[k.id] = k
				}
				rs = append(rs, obj{"name": e.to, "keyids": ids(e.keys...), "threshold": 1, "terminating": e.terminating, "paths": e.paths})
			}
			l := []*TKey{}
			for _, id := range sortedKeys(ks) {
				l = append(l, ks[id])
			}
			signed["delegations"] = obj{"keys": keysObj(l...), "roles": rs}
		}
		n.bytes = doc(signed, n.keys...)
		d.recs[name] = d.record(n.bytes, n.version)
		meta[name+".json"] = d.recs[name]
	}
	d.snap = doc(obj{"_type": "snapshot", "spec_version": "1.0.31", "version": d.snapVer, "expires": farFuture, "meta": meta}, kSnap())
	d.snapRec = d.record(d.snap, d.snapVer)
	d.ts = doc(obj{"_type": "timestamp", "spec_version": "1.0.31", "version": d.tsVer, "expires": farFuture, "meta": obj{"snapshot.json": d.snapRec}}, kTS())
	s := d.site
	s.files = map[string][]byte{}
	for i, b := range d.roots {
		s.files[d.rootURL(int64(i+1))] = b
	}
	s.files[d.url("timestamp", 0)] = d.ts
	s.files[d.url("snapshot", d.snapVer)] = d.snap
	for _, n := range d.nodes {
		s.files[d.url(n.name, n.version)] = n.bytes
	}
}

func (d *depot) slash() string { return strings.TrimSuffix(d.base, "/") + "/" }

func (d *depot) rootURL(v int64) string { return fmt.Sprintf("%s%d.root.json", d.slash(), v) }

// url is where the document of a role is: version 0 for none.
func (d *depot) url(name string, v int64) string {
	if d.consistent && v != 0 {
		return fmt.Sprintf("%s%d.%s.json", d.slash(), v, url.QueryEscape(name))
	}
	return fmt.Sprintf("%s%s.json", d.slash(), url.QueryEscape(name))
}

func (d *depot) file(name string) string { return url.QueryEscape(name) + ".json" }

// limit of a recorded document.
func limitOf(rec obj, max int64) int64 {
	if l, ok := rec["length"]; ok {
		return int64(l.(int))
	}
	return max
}

// newDepot makes an empty repository and a client configuration in scratch directories.
func newDepot(h *H) *depot {
	r := h.rng
	d := &depot{h: h, r: r, consistent: r.Intn(2) == 0, nodes: map[string]*node{}, recs: map[string]obj{}, site: &site{fails: map[string]error{}}, snapVer: int64(1 + r.Intn(30)), tsVer: int64(1 + r.Intn(30))}
	d.base = pick(r, "http://repo.example/md", "http://repo.example/md/", "https://r/a%20b")
	top, err := os.MkdirTemp("", "c")
	must(err)
	d.dir, d.targets, d.cwd = filepath.Join(top, "md"), filepath.Join(top, "tg"), filepath.Join(top, "wd")
	for _, p := range []string{d.dir, d.targets, d.cwd} {
		must(os.Mkdir(p, 0o755))
	}
	must(os.Chdir(d.cwd))
	d.roots = [][]byte{d.rootDoc(1, kRoot()...)}
	d.cfg = &config.UpdaterConfig{MaxRootRotations: int64(2 + r.Intn(5)), MaxDelegations: 8, RootMaxLength: int64(50000 + r.Intn(9)), TimestampMaxLength: int64(60000 + r.Intn(9)), SnapshotMaxLength: int64(70000 + r.Intn(9)), TargetsMaxLength: int64(80000 + r.Intn(9)),
		Fetcher: d.site, LocalTrustedRoot: d.roots[0], LocalMetadataDir: d.dir, LocalTargetsDir: d.targets, RemoteMetadataURL: d.base, RemoteTargetsURL: d.slash() + "targets", PrefixTargetsWithHash: r.Intn(2) == 0}
	return d
}

func (d *depot) close() {
	must(os.Chdir(os.TempDir()))
	os.RemoveAll(filepath.Dir(d.dir))
}

func (d *depot) rotate(n int) {
	for i := 0; i < n; i++ {
		d.roots = append(d.roots, d.rootDoc(int64(len(d.roots)+1), kRoot()...))
	}
}

func (d *depot) requests() string {
	l := []string{}
	for _, q := range d.site.log {
		l = append(l, fmt.Sprintf("%s (limit %d): %v", strings.TrimPrefix(q.URL, d.slash()), q.Max, q.Err))
	}
	return strings.Join(l, "; ")
}

var oddNames = []string{"role1", "a/b", "..", "../x", "x%2fy", "ünï", "r 1", "a.b", "%", "+", "root.json", "0.targets", "tuf_tmp", "A", "a?b=c&d", "."}

// delegate gives the top-level targets role some delegations below it.
func (d *depot) plainTree() {
	r := d.r
	top := d.add(&node{name: "targets", keys: []*TKey{kTargets()}, files: obj{"top.txt": obj{"length": 3, "hashes": hashesOf([]byte("top"))}}})
	for i := 0; i < r.Intn(4); i++ {
		name := oddNames[r.Intn(len(oddNames))]
		if d.nodes[name] != nil {
			continue
		}
		k := ed(510 + i)
		d.add(&node{name: name, keys: []*TKey{k}, files: obj{fmt.Sprintf("f%d", i): obj{"length": 3, "hashes": hashesOf([]byte("abc"))}}})
		top.kids = append(top.kids, &edge{to: name, paths: []any{"*"}, keys: []*TKey{k}})
	}
}

// fault makes the answer for a role unusable; it tells whether the answer is a document.
func (d *depot) fault(name string, u string) string {
	r := d.r
	s := d.site
	kind := pick(r, "missing", "500", "403", "network", "garbage", "unsigned", "cut", "other role", "expired", "version", "wrapped 404")
	b := s.files[u]
	resign := func(f func(o obj)) {
		o := normal(json.RawMessage(b)).(obj)["signed"].(obj)
		f(o)
		s.files[u] = doc(o, d.keysOf(name)...)
	}
	switch kind {
	case "missing":
		delete(s.files, u)
	case "500":
		s.fails[u] = metadata.ErrDownloadHTTP{StatusCode: pick(r, 500, 401, 400, 410, 503, 200, 304), URL: u}
	case "403":
		s.fails[u] = metadata.ErrDownloadHTTP{StatusCode: 403, URL: u}
	case "wrapped 404":
		s.fails[u] = fmt.Errorf("mirror: %w", metadata.ErrDownloadHTTP{StatusCode: 404, URL: u})
	case "network":
		s.fails[u] = pick[error](r, errors.New("no route"), metadata.ErrDownloadLengthMismatch{Msg: "x"}, metadata.ErrDownload{Msg: "404"})
	case "garbage":
		s.files[u] = []byte(pick(r, "", "{", "null", "[]", "{}", `{"signed":null,"signatures":[]}`))
	case "unsigned":
		o := normal(json.RawMessage(b)).(obj)
		o["signatures"] = []any{obj{"keyid": kRoot()[0].id, "sig": "00"}}
		s.files[u], _ = json.Marshal(o)
	case "cut":
		s.files[u] = b[:len(b)-1-r.Intn(5)]
	case "other role":
		s.files[u] = pick(r, d.ts, d.snap, d.nodes["targets"].bytes, d.roots[0])
		if bytes.Equal(s.files[u], b) {
			s.files[u] = []byte("{}")
		}
	case "expired":
		resign(func(o obj) { o["expires"] = farPast })
	case "version":
		if name == "root" {
			resign(func(o obj) { o["version"] = num(o["version"]) + pick[int64](r, 1, -1, 7) })
		} else {
			s.files[u] = []byte("{}")
		}
	}
	return kind
}

func (d *depot) keysOf(name string) []*TKey {
	switch name {
	case "root":
		return kRoot()
	case "timestamp":
		return []*TKey{kTS()}
	case "snapshot":
		return []*TKey{kSnap()}
	}
	return d.nodes[name].keys
}

// ---- C15 ----

func TestC15(t *testing.T) {
	h := start(t, "C15", "refreshes over a scripted fetcher with random numbers of later root versions, rotation limits, and one failing answer or storage step; non-trivial: all")
	defer h.done()
	r := h.rng
	for c := 0; c < h.n(1500) && h.more(); c++ {
		func() {
			d := newDepot(h)
			defer d.close()
			d.plainTree()
			later := r.Intn(6)
			d.rotate(later)
			d.cfg.MaxRootRotations = int64(r.Intn(7))
			d.cfg.DisableLocalCache = r.Intn(4) == 0
			start := 1 + r.Intn(later+1)
			d.cfg.LocalTrustedRoot = d.roots[start-1]
			d.publish()
			bad, kind := int64(0), ""
			if r.Intn(3) > 0 {
				bad = int64(start + 1 + r.Intn(later+1))
				kind = "none"
				if bad <= int64(len(d.roots)) {
					kind = d.fault("root", d.rootURL(bad))
				} else if r.Intn(2) == 0 {
					kind = "500"
					d.site.fails[d.rootURL(bad)] = pick[error](r, metadata.ErrDownloadHTTP{StatusCode: pick(r, 500, 400, 401, 405, 410, 402, 408)}, errors.New("404"), metadata.ErrDownload{Msg: "Not Found"}, metadata.ErrDownloadLengthMismatch{})
				}
			}
			u, err := updater.New(d.cfg)
			must(err)
			block := int64(0)
			if !d.cfg.DisableLocalCache && r.Intn(3) == 0 {
				block = int64(start + 1 + r.Intn(4)) // storing this version fails
				d.site.hook = func(u string) {
					if u == d.rootURL(block) {
						os.Remove(filepath.Join(d.dir, "root.json"))
						os.MkdirAll(filepath.Join(d.dir, "root.json", "x"), 0o755)
					}
				}
			}
			// what must happen
			want, wantErr, v := []string{}, false, int64(start)
			for k := int64(0); k < d.cfg.MaxRootRotations; k++ {
				a := d.rootURL(v + 1)
				want = append(want, a)
				if e := d.site.fails[a]; e != nil {
					var he metadata.ErrDownloadHTTP
					wantErr = !(errors.As(e, &he) && (he.StatusCode == 404 || he.StatusCode == 403))
					break
				}
				b, ok := d.site.files[a]
				if !ok {
					break
				}
				if v+1 == bad && kind != "expired" || int64(len(b)) > d.cfg.RootMaxLength {
					wantErr = true
					break
				}
				v++
				if v == block {
					wantErr = true
					break
				}
			}
			desc := js(obj{"trusted": start, "published": len(d.roots), "limit": d.cfg.MaxRootRotations, "faulty version": bad, "fault": kind, "storing fails at": block, "no cache": d.cfg.DisableLocalCache})
			h.count(desc)
			h.guard("refresh", desc, func() {
				// a root that is expired is only the matter of the timestamp step
				lastExpired := kind == "expired" && v == bad
				err := u.Refresh()
				got := []string{}
				rest := false
				for _, q := range d.site.log {
					if strings.HasSuffix(q.URL, ".root.json") && !rest {
						got = append(got, q.URL)
					} else {
						rest = true
						if strings.HasSuffix(q.URL, ".root.json") {
							h.fail("late-root", "a root version is requested after the root step", "input", desc, "requests", d.requests())
						}
					}
				}
				if strings.Join(got, " ") != strings.Join(want, " ") {
					h.fail("sequence", "other root versions are requested than the next ones in order", "input", desc, "requests", d.requests(), "expected", strings.Join(want, " "))
				}
				if wantErr && (err == nil || rest) {
					h.fail("failure-hidden", fmt.Sprintf("the refresh goes on after a failing root step: %v", err), "input", desc, "requests", d.requests())
				}
				if !wantErr && !lastExpired && (err != nil || !rest) {
					h.fail("stop", fmt.Sprintf("the refresh fails although the root step has to stop cleanly: %v", err), "input", desc, "requests", d.requests())
				}
				if wantErr {
					h.stat("failing")
				} else {
					h.stat(fmt.Sprint("rotations ", v-int64(start)))
				}
				set := u.GetTrustedMetadataSet()
				if set.Root.Signed.Version != v {
					h.fail("trusted", fmt.Sprintf("root version %d is trusted, not %d", set.Root.Signed.Version, v), "input", desc, "requests", d.requests())
				}
				if !d.cfg.DisableLocalCache && v != block {
					b, _ := os.ReadFile(filepath.Join(d.dir, "root.json"))
					w := d.site.files[d.rootURL(v)]
					if v == int64(start) {
						w = d.cfg.LocalTrustedRoot
					}
					if (block == 0 || block > v+1) && !bytes.Equal(b, w) {
						h.fail("stored", "the trusted root is not the stored one", "input", desc, "requests", d.requests())
					}
				}
			})
		}()
	}
}

// ---- C18 ----

func TestC18(t *testing.T) {
	h := start(t, "C18", "clients of random repositories (record lengths, role names, consistent snapshots, prefixes, base addresses), refreshing, looking up and downloading; every request is compared to the one the trusted metadata determines; non-trivial: all")
	defer h.done()
	r := h.rng
	for c := 0; c < h.n(900) && h.more(); c++ {
		func() {
			d := newDepot(h)
			defer d.close()
			d.plainTree()
			d.rotate(r.Intn(3))
			d.cfg.DisableLocalCache = r.Intn(2) == 0
			d.publish()
			s := d.site
			want := map[string]int64{d.url("timestamp", 0): d.cfg.TimestampMaxLength, d.url("snapshot", d.snapVer): limitOf(d.snapRec, d.cfg.SnapshotMaxLength)}
			for v := 2; v < 10; v++ {
				want[d.rootURL(int64(v))] = d.cfg.RootMaxLength
			}
			for _, n := range d.nodes {
				want[d.url(n.name, n.version)] = limitOf(d.recs[n.name], d.cfg.TargetsMaxLength)
			}
			u, err := updater.New(d.cfg)
			must(err)
			desc := js(obj{"consistent": d.consistent, "base": d.base, "roles": d.order, "records": d.recs, "snapshot record": d.snapRec})
			h.count(desc)
			check := func() {
				for _, q := range s.log {
					m, ok := want[q.URL]
					if !ok {
						h.fail("address", "a request goes to an address the trusted metadata does not determine: "+q.URL, "input", desc, "requests", d.requests())
					} else if m != q.Max {
						h.fail("limit", fmt.Sprintf("%s is requested with limit %d, not %d", q.URL, q.Max, m), "input", desc, "requests", d.requests())
					}
				}
				s.log = nil
			}
			h.guard("refresh", desc, func() {
				if err := u.Refresh(); err != nil {
					h.fail("refused", "a refresh of a correct repository fails: "+err.Error(), "input", desc, "requests", d.requests())
				}
				check()
				u.GetTargetInfo("nothing")
				if len(s.log) != len(d.order)-1 {
					h.fail("missing", "not every delegated role was requested once", "input", desc, "requests", d.requests())
				}
				check()
			})
			// targets
			for i := 0; i < 4; i++ {
				data := []byte(fmt.Sprint("data", i))
				tf := &metadata.TargetFiles{Length: int64(len(data) + r.Intn(2)*r.Intn(3)), Path: pick(r, "a", "a/b", "a/b/c.txt", "/x", "a/", "a b/c%", "ü/é", "d.e/f.g"), Hashes: metadata.Hashes{}}
				s2, s5 := sha256.Sum256(data), sha512.Sum512(data)
				if r.Intn(4) > 0 {
					tf.Hashes["sha256"] = s2[:]
				}
				if len(tf.Hashes) == 0 || r.Intn(2) == 0 {
					tf.Hashes["sha512"] = s5[:]
				}
				given := pick(r, "", "", "http://other/t", "http://other/t/", "http://other/t?q=1", "http://other/?d=a/", "https://o#f", "o")
				base := given
				if base == "" {
					base = d.cfg.RemoteTargetsURL
				}
				base = strings.TrimSuffix(base, "/") + "/"
				ok := []string{}
				if d.consistent && d.cfg.PrefixTargetsWithHash {
					for _, hv := range tf.Hashes {
						dirPart, last := "", tf.Path
						if j := strings.LastIndex(tf.Path, "/"); j >= 0 {
							dirPart, last = tf.Path[:j+1], tf.Path[j+1:]
						}
						ok = append(ok, base+dirPart+hex.EncodeToString(hv)+"."+last)
					}
				} else {
					ok = []string{base + tf.Path}
				}
				dsc := js(obj{"consistent": d.consistent, "prefix": d.cfg.PrefixTargetsWithHash, "path": tf.Path, "length": tf.Length, "base given": given, "base configured": d.cfg.RemoteTargetsURL})
				h.count(dsc)
				h.guard("download", dsc, func() {
					s.log = nil
					for _, a := range ok {
						s.files[a] = data
					}
					u.DownloadTarget(tf, filepath.Join(d.targets, "t"), given)
					if len(s.log) != 1 || s.log[0].Max != tf.Length {
						h.fail("target-limit", "a target is not requested once with its recorded length as limit", "input", dsc, "requests", d.requests())
						return
					}
					for _, a := range ok {
						if a == s.log[0].URL {
							return
						}
					}
					h.fail("target-address", "a target is requested from "+s.log[0].URL, "input", dsc, "expected", strings.Join(ok, " or "))
				})
			}
		}()
	}
}

// ---- C14 ----

func TestC14(t *testing.T) {
	h := start(t, "C14", "clients of random repositories with odd role names, cached files, failing answers and failing renames: the metadata and working directories before and after every call; non-trivial: all")
	defer h.done()
	r := h.rng
	for c := 0; c < h.n(900) && h.more(); c++ {
		func() {
			d := newDepot(h)
			defer d.close()
			d.plainTree()
			d.rotate(r.Intn(3))
			d.cfg.DisableLocalCache = r.Intn(5) == 0
			d.publish()
			// what may be stored for a role
			valid := map[string][]string{d.file("timestamp"): {string(d.ts)}, d.file("snapshot"): {string(d.snap)}}
			for _, b := range d.roots {
				valid["root.json"] = append(valid["root.json"], string(b))
			}
			for _, n := range d.nodes {
				valid[d.file(n.name)] = append(valid[d.file(n.name)], string(n.bytes))
			}
			// cached files, right and wrong, and others
			for _, f := range []string{"notes.txt", "old.json", "tuf_tmp1", "sub/targets.json"} {
				if r.Intn(2) == 0 {
					os.MkdirAll(filepath.Dir(filepath.Join(d.dir, f)), 0o755)
					must(os.WriteFile(filepath.Join(d.dir, f), []byte(f), 0o600))
				}
			}
			names := append([]string{"timestamp", "snapshot"}, d.order...)
			for _, n := range names {
				if r.Intn(4) == 0 {
					b := []byte(valid[d.file(n)][0])
					if r.Intn(2) == 0 {
						b = pick(r, []byte("{"), d.ts, d.snap, d.roots[0], b[:len(b)-2], []byte{})
					}
					must(os.WriteFile(filepath.Join(d.dir, d.file(n)), b, 0o600))
				}
			}
			bad, kind := "", ""
			if r.Intn(2) == 0 {
				bad = names[r.Intn(len(names))]
				v := int64(0)
				switch {
				case bad == "snapshot":
					v = d.snapVer
				case d.nodes[bad] != nil:
					v = d.nodes[bad].version
				}
				kind = d.fault(bad, d.url(bad, v))
			}
			blocked := ""
			if !d.cfg.DisableLocalCache && r.Intn(3) == 0 {
				blocked = d.file(pick(r, append(names, "root")...))
			}
			desc := js(obj{"roles": d.order, "consistent": d.consistent, "no cache": d.cfg.DisableLocalCache, "cached": sortedKeys(tree(d.dir)), "faulty role": bad, "fault": kind, "cannot be replaced": blocked})
			h.count(desc)
			must(os.WriteFile(filepath.Join(d.cwd, "mine"), []byte("mine"), 0o600))
			before := tree(filepath.Dir(d.dir))
			step := func(what string, f func() error) error {
				var err error
				h.guard(what, desc, func() { err = f() })
				after := tree(filepath.Dir(d.dir))
				for _, n := range sortedKeys(after) {
					if o, ok := before[n]; ok && o == after[n] {
						continue
					}
					dir, base := filepath.Split(n)
					switch {
					case d.cfg.DisableLocalCache:
						h.fail("no-cache", what+" writes "+n+" with caching disabled", "input", desc)
					case dir != "md/":
						h.fail("elsewhere", what+" leaves "+n, "input", desc, "error", err)
					default:
						ok := false
						for _, w := range valid[base] {
							ok = ok || w == after[n]
						}
						if !ok {
							h.fail("unverified", what+" writes "+n+" with content that is not the verified document of its role", "input", desc, "content", after[n])
						}
					}
				}
				for _, n := range sortedKeys(before) {
					if _, ok := after[n]; !ok {
						h.fail("gone", what+" removes "+n, "input", desc)
					}
				}
				before = after
				return err
			}
			var u *updater.Updater
			if err := step("New", func() (err error) { u, err = updater.New(d.cfg); return }); err != nil || u == nil {
				if err != nil && blocked == "" {
					h.fail("new", "a client cannot be created: "+err.Error(), "input", desc)
				}
				return
			}
			if blocked != "" { // a directory in the way: the rename fails
				p := filepath.Join(d.dir, blocked)
				os.Remove(p)
				must(os.MkdirAll(filepath.Join(p, "x"), 0o755))
				before = tree(filepath.Dir(d.dir))
			}
			err := step("Refresh", func() error { return u.Refresh() })
			lookup := error(nil)
			if err == nil {
				lookup = step("GetTargetInfo", func() error { _, err := u.GetTargetInfo("nothing"); return err })
			}
			if err != nil || d.cfg.DisableLocalCache {
				return
			}
			h.stat("refreshed")
			// everything trusted is stored, and is what the next client reads
			set := u.GetTrustedMetadataSet()
			stored := tree(d.dir)
			trusted := []string{"timestamp", "snapshot", "root"}
			for n := range set.Targets {
				trusted = append(trusted, n)
			}
			for _, n := range trusted {
				if d.file(n) == blocked {
					if n != "root" && lookup != nil && strings.HasSuffix(lookup.Error(), "not found") {
						h.fail("failure-hidden", "the document of "+n+" could not be stored and no call reports it", "input", desc)
					}
					continue
				}
				w := map[string]string{"timestamp": string(d.ts), "snapshot": string(d.snap), "root": string(d.roots[set.Root.Signed.Version-1])}[n]
				if d.nodes[n] != nil {
					w = string(d.nodes[n].bytes)
				}
				if stored[d.file(n)] != w {
					h.fail("not-stored", "the trusted document of "+n+" is not stored", "input", desc, "requests", d.requests())
				}
			}
			if blocked != "" {
				return
			}
			d.site.log = nil
			d.site.fails = map[string]error{}
			d.publishAgain()
			d.cfg.LocalTrustedRoot = d.roots[set.Root.Signed.Version-1]
			u2, err := updater.New(d.cfg)
			must(err)
			h.guard("second", desc, func() {
				if err := u2.Refresh(); err != nil {
					h.fail("second", "a second client cannot refresh: "+err.Error(), "input", desc)
				}
				u2.GetTargetInfo("nothing")
				for _, q := range d.site.log {
					for _, n := range trusted {
						if n != "root" && n != "timestamp" && (q.URL == d.url(n, d.snapVer) && n == "snapshot" || d.nodes[n] != nil && q.URL == d.url(n, d.nodes[n].version)) {
							h.fail("not-read", "the stored document of "+n+" is not what the next client reads", "input", desc, "requests", d.requests())
						}
					}
				}
			})
		}()
	}
}

// publishAgain serves the documents of before, without any fault.
func (d *depot) publishAgain() {
	s := d.site
	s.files[d.url("timestamp", 0)] = d.ts
	s.files[d.url("snapshot", d.snapVer)] = d.snap
	for _, n := range d.nodes {
		s.files[d.url(n.name, n.version)] = n.bytes
	}
}

// ---- C16 ----

func TestC16(t *testing.T) {
	h := start(t, "C16", "local-only refreshes of cached metadata, complete, incomplete, damaged, expired or mixed from two states of the repository; non-trivial: all")
	defer h.done()
	r := h.rng
	for c := 0; c < h.n(1200) && h.more(); c++ {
		func() {
			d := newDepot(h)
			defer d.close()
			d.plainTree()
			d.publish()
			d.cfg.UnsafeLocalMode = true
			d.cfg.DisableLocalCache = r.Intn(6) == 0
			docs := map[string][]byte{"timestamp": d.ts, "snapshot": d.snap, "targets": d.nodes["targets"].bytes}
			kind := "complete"
			bad := pick(r, "timestamp", "snapshot", "targets")
			if r.Intn(3) > 0 {
				kind = pick(r, "missing", "garbage", "unsigned", "cut", "expired", "other key", "other role", "version", "longer", "re-encoded")
				b := docs[bad]
				o := normal(json.RawMessage(b)).(obj)
				switch kind {
				case "missing":
					delete(docs, bad)
				case "garbage":
					docs[bad] = []byte(pick(r, "", "{}", "null"))
				case "unsigned":
					o["signatures"] = []any{}
					docs[bad], _ = json.Marshal(o)
				case "cut":
					docs[bad] = b[:len(b)-1]
				case "expired", "version", "other key":
					// a later state of the repository in which only this document is changed
					so := o["signed"].(obj)
					ks := d.keysOf(bad)
					if kind == "expired" {
						so["expires"] = farPast
					} else if kind == "version" && bad == "timestamp" {
						so["version"] = 0
						so["meta"] = obj{"snapshot.json": obj{"version": d.snapVer + 1}}
					} else if kind == "version" {
						so["version"] = num(so["version"]) + pick[int64](r, 1, -1)
					} else {
						ks = []*TKey{ed(599)}
					}
					docs[bad] = doc(so, ks...)
					// the records agree where they can
					rec := func(v any) obj { return obj{"version": v} }
					if bad == "targets" {
						so2 := normal(json.RawMessage(d.snap)).(obj)["signed"].(obj)
						so2["meta"].(obj)["targets.json"] = rec(d.nodes["targets"].version)
						docs["snapshot"] = doc(so2, kSnap())
					}
					if bad != "timestamp" {
						so3 := normal(json.RawMessage(d.ts)).(obj)["signed"].(obj)
						so3["meta"] = obj{"snapshot.json": rec(d.snapVer)}
						docs["timestamp"] = doc(so3, kTS())
					}
				case "longer", "re-encoded": // the same content, not the recorded bytes
					if bad == "timestamp" {
						bad = "snapshot"
					}
					rec := obj{"version": d.snapVer, "length": len(docs[bad])}
					if kind == "re-encoded" {
						rec = obj{"version": d.snapVer, "hashes": hashesOf(docs[bad])}
					}
					if bad == "targets" {
						rec["version"] = d.nodes["targets"].version
						so := normal(json.RawMessage(d.snap)).(obj)["signed"].(obj)
						so["meta"].(obj)["targets.json"] = rec
						docs["snapshot"] = doc(so, kSnap())
						rec = obj{"version": d.snapVer}
					}
					so := normal(json.RawMessage(d.ts)).(obj)["signed"].(obj)
					so["meta"] = obj{"snapshot.json": rec}
					docs["timestamp"] = doc(so, kTS())
					docs[bad] = append(docs[bad], ' ')
				case "other role":
					for _, o := range []string{"timestamp", "snapshot", "targets"} {
						if o != bad {
							docs[bad] = docs[o]
						}
					}
				}
			}
			for n, b := range docs {
				must(os.WriteFile(filepath.Join(d.dir, n+".json"), b, 0o600))
			}
			desc := js(obj{"cached": kind, "document": bad, "no cache": d.cfg.DisableLocalCache})
			h.count(fmt.Sprint(desc, c%40))
			u, err := updater.New(d.cfg)
			must(err)
			before := tree(filepath.Dir(d.dir))
			h.guard("refresh", desc, func() {
				var err error
				if r.Intn(2) == 0 {
					err = u.Refresh()
				} else {
					_, err = u.GetTargetInfo("top.txt")
				}
				if len(d.site.log) > 0 {
					h.fail("network", "a local refresh contacts the network", "input", desc, "requests", d.requests())
				}
				if js(tree(filepath.Dir(d.dir))) != js(before) {
					h.fail("writes", "a local refresh writes", "input", desc)
				}
				set := u.GetTrustedMetadataSet()
				if kind == "complete" {
					h.stat("complete")
					if err != nil {
						h.fail("refused", "complete local metadata is refused: "+err.Error(), "input", desc)
					} else if set.Timestamp == nil || set.Snapshot == nil || set.Targets["targets"] == nil || set.Timestamp.Signed.Version != d.tsVer || set.Snapshot.Signed.Version != d.snapVer || set.Targets["targets"].Signed.Version != d.nodes["targets"].version {
						h.fail("not-loaded", "a local refresh succeeds without loading the local metadata", "input", desc)
					}
				} else if err == nil {
					h.fail("accepted", "local metadata that does not verify is accepted", "input", desc)
				}
			})
		}()
	}
}

// ---- C10 ----

func TestC10(t *testing.T) {
	h := start(t, "C10", "downloads of targets over a scripted fetcher (right, altered, short, long, failing answers) and look-ups of cached files (right, altered, missing, directories), with caching on and off and paths given or derived; non-trivial: all")
	defer h.done()
	r := h.rng
	for c := 0; c < h.n(2500) && h.more(); c++ {
		func() {
			d := newDepot(h)
			defer d.close()
			d.plainTree()
			d.publish()
			d.cfg.DisableLocalCache = r.Intn(4) == 0
			u, err := updater.New(d.cfg)
			must(err)
			data := make([]byte, r.Intn(12))
			r.Read(data)
			tf := &metadata.TargetFiles{Length: int64(len(data)), Path: pick(r, "a", "x/y", "a b", "../up", "é%"), Hashes: metadata.Hashes{}}
			s2, s5 := sha256.Sum256(data), sha512.Sum512(data)
			if r.Intn(3) > 0 {
				tf.Hashes["sha256"] = s2[:]
			}
			if len(tf.Hashes) == 0 || r.Intn(2) == 0 {
				tf.Hashes["sha512"] = s5[:]
			}
			good := true
			served := append([]byte{}, data...)
			switch r.Intn(8) {
			case 0:
				served, good = append(served, 'x'), false
			case 1:
				if len(served) > 0 {
					served, good = served[:len(served)-1], false
				}
			case 2:
				if len(served) > 0 {
					served[r.Intn(len(served))] ^= 1
					good = false
				}
			case 3:
				for _, a := range sortedKeys(tf.Hashes) {
					b := append([]byte{}, tf.Hashes[a]...)
					b[r.Intn(len(b))] ^= 4
					tf.Hashes[a], good = b, false
					break
				}
			case 4:
				tf.Hashes["md5"], good = []byte{1, 2}, false
			case 5:
				tf.Length += pick[int64](r, 1, -1, 5)
				good = false
			}
			if r.Intn(5) == 0 { // then the length alone decides
				tf.Hashes = pick(r, nil, metadata.Hashes{})
				good = int64(len(served)) == tf.Length
			}
			if r.Intn(8) == 0 {
				d.cfg.LocalTargetsDir = ""
			}
			path := pick(r, "", "", filepath.Join(d.targets, "given"), filepath.Join(d.targets, "no", "such", "dir"))
			fetchErr := error(nil)
			if r.Intn(8) == 0 {
				fetchErr = errors.New("no route")
			}
			d.cfg.Fetcher = fetchFunc(func(u string, max int64) ([]byte, error) {
				d.site.log = append(d.site.log, request{URL: u, Max: max})
				return served, fetchErr
			})
			old := ""
			file := path
			if path == "" {
				file = filepath.Join(d.targets, url.QueryEscape(tf.Path))
			}
			if r.Intn(2) == 0 && filepath.Base(path) != "dir" {
				old = pick(r, "old", string(data), string(served), "")
				if r.Intn(12) == 0 {
					must(os.MkdirAll(file, 0o755))
				} else {
					must(os.WriteFile(file, []byte(old), 0o600))
				}
			}
			desc := js(obj{"path": tf.Path, "file": path, "targets dir set": d.cfg.LocalTargetsDir != "", "no cache": d.cfg.DisableLocalCache, "right answer": good, "fetch fails": fetchErr != nil, "length": tf.Length, "hashes": len(tf.Hashes), "old file": old})
			h.count(desc)
			oracle := func(b []byte) bool {
				if int64(len(b)) != tf.Length {
					return false
				}
				a, c := sha256.Sum256(b), sha512.Sum512(b)
				for n, hv := range tf.Hashes {
					if !(n == "sha256" && bytes.Equal(hv, a[:]) || n == "sha512" && bytes.Equal(hv, c[:])) {
						return false
					}
				}
				return true
			}
			find := func(when string) {
				before := tree(filepath.Dir(d.dir))
				n := len(d.site.log)
				p, b, err := u.FindCachedTarget(tf, path)
				if len(d.site.log) != n || js(before) != js(tree(filepath.Dir(d.dir))) {
					h.fail("find-effects", "looking for a cached target contacts the network or writes", "input", desc)
				}
				f, ferr := os.ReadFile(file)
				have := !d.cfg.DisableLocalCache && ferr == nil && oracle(f) && (path != "" || d.cfg.LocalTargetsDir != "")
				if p != "" || len(b) > 0 {
					h.stat("found")
					if !have || !bytes.Equal(b, f) || err != nil || filepath.Clean(p) != file {
						h.fail("found", when+": a cached target is reported that is not there or does not verify: "+p, "input", desc)
					}
				} else if have {
					h.fail("not-found", when+": a verified cached target is not reported", "input", desc)
				}
			}
			h.guard("targets", desc, func() {
				find("before")
				before := tree(filepath.Dir(d.dir))
				p, b, err := u.DownloadTarget(tf, path, "")
				after := tree(filepath.Dir(d.dir))
				if err == nil {
					h.stat("downloaded")
					if fetchErr != nil || !oracle(b) || !bytes.Equal(b, served) {
						h.fail("unverified", "a target that does not verify is returned", "input", desc)
					}
					f, _ := os.ReadFile(p)
					if d.cfg.DisableLocalCache {
						if js(before) != js(after) {
							h.fail("no-cache", "a target is stored with caching disabled", "input", desc)
						}
					} else if !bytes.Equal(f, b) || path != "" && p != path {
						h.fail("stored", "the returned bytes are not those stored under the returned path", "input", desc, "path", p)
					} else {
						rel, _ := filepath.Rel(filepath.Dir(d.dir), p)
						before[rel] = after[rel]
						if js(before) != js(after) {
							h.fail("stored-elsewhere", "a download changes other files", "input", desc)
						}
					}
				} else {
					if len(b) > 0 || p != "" {
						h.fail("bytes-with-error", "bytes or a path are returned with an error", "input", desc)
					}
					if (fetchErr != nil || !oracle(served)) && js(before) != js(after) {
						h.fail("stored-on-failure", "a failing download stores something", "input", desc)
					}
					writable := d.cfg.DisableLocalCache || filepath.Base(path) != "dir"
					if st, e := os.Stat(file); e == nil && st.IsDir() {
						writable = d.cfg.DisableLocalCache
					}
					if fetchErr == nil && good && oracle(served) && writable && (d.cfg.LocalTargetsDir != "" || path != "" || d.cfg.DisableLocalCache) {
						h.fail("refused", "a correct target is refused: "+err.Error(), "input", desc)
					}
				}
				find("after")
			})
		}()
	}
}

type fetchFunc func(u string, max int64) ([]byte, error)

func (f fetchFunc) DownloadFile(u string, max int64, timeout time.Duration) ([]byte, error) {
	return f(u, max)
}
