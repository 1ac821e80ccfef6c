package zzverif

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
)

// sameInfo: equal length and hashes, where every algorithm both list agrees
// and there is one; sure is false where the two list different algorithms
// (the statement does not settle those).
func sameInfo(a, b obj) (same, sure bool) {
	if a["length"] != b["length"] {
		return false, true
	}
	x, y := a["hashes"].(obj), b["hashes"].(obj)
	sure = len(x) == len(y)
	shared := 0
	for k, v := range x {
		w, ok := y[k]
		if !ok {
			sure = false
			continue
		}
		shared++
		if v != w {
			return false, true
		}
	}
	if shared == 0 {
		return false, false
	}
	return true, sure
}

// TestC23: several repositories behind one client.
func TestC23(t *testing.T) {
	h := start(t, "C23", "up to five repositories (agreeing, disagreeing, failing, without the target), random mappings with patterns, thresholds and repeated repositories, against the TAP 4 search; non-trivial: a target is returned")
	defer h.done()
	r := h.rng
	hash := func(s string) obj { return hashesOf([]byte(s)) }
	one := func(s, alg string) obj { return obj{alg: hash(s)[alg]} }
	for c := 0; c < h.n(900) && h.more(); c++ {
		func() {
			target := pick(r, "t", "dir/t", "a.txt", "x/y/z", "t t")
			uniform := r.Intn(3) > 0
			variants := []obj{
				{"length": 3, "hashes": one("abc", "sha256")},
				{"length": 3, "hashes": one("abd", "sha256")},
				{"length": 4, "hashes": one("abc", "sha256")},
			}
			if !uniform {
				variants = append(variants, obj{"length": 3, "hashes": one("abc", "sha512")},
					obj{"length": 3, "hashes": hash("abc")}, obj{"length": 3, "hashes": obj{"sha256": hash("abc")["sha256"], "sha512": hash("abd")["sha512"]}})
			}
			n := 1 + r.Intn(5)
			names := []string{}
			answers := map[string]obj{}
			client := &multirepo.MultiRepoClient{TUFClients: map[string]*updater.Updater{}}
			for i := 0; i < n; i++ {
				name := fmt.Sprintf("repo%d", i)
				names = append(names, name)
				d := newDepot(h)
				defer d.close()
				files := obj{"other": obj{"length": 1, "hashes": hash("o")}}
				switch r.Intn(10) {
				case 0:
				default:
					v := variants[0]
					if r.Intn(2) == 0 {
						v = variants[r.Intn(len(variants))]
					}
					v = clone(v)
					if r.Intn(3) == 0 {
						v["custom"] = obj{"from": name}
					}
					files[target] = v
					answers[name] = v
				}
				d.add(&node{name: "targets", keys: []*TKey{kTargets()}, files: files})
				d.publish()
				if r.Intn(8) == 0 {
					d.site.fails[d.url("timestamp", 0)] = metadata.ErrDownloadHTTP{StatusCode: 500}
					delete(answers, name)
				}
				d.cfg.DisableLocalCache = true
				u, err := updater.New(d.cfg)
				must(err)
				client.TUFClients[name] = u
			}
			rm := &multirepo.MultiRepoMapType{Repositories: map[string][]string{}}
			for _, x := range names {
				rm.Repositories[x] = []string{"http://x"}
			}
			for i := 0; i < 1+r.Intn(4); i++ {
				m := &multirepo.Mapping{Threshold: 1 + r.Intn(3), Terminating: r.Intn(3) == 0}
				for j := 0; j < 1+r.Intn(3); j++ {
					m.Paths = append(m.Paths, pick(r, "*", target, "nothing", "a*", "*/*", "dir/?", "?", "*.txt", "[", target))
				}
				for j := 0; j < r.Intn(5); j++ {
					m.Repositories = append(m.Repositories, pick(r, names...))
				}
				if r.Intn(2) == 0 {
					m.Repositories = append([]string{}, names...)
					r.Shuffle(len(m.Repositories), func(i, j int) {
						m.Repositories[i], m.Repositories[j] = m.Repositories[j], m.Repositories[i]
					})
				}
				rm.Mapping = append(rm.Mapping, m)
			}
			client.Config = &multirepo.MultiRepoConfig{RepoMap: rm, DisableLocalCache: true}
			desc := js(obj{"target": target, "answers": answers, "mapping": rm.Mapping})
			h.count(desc)

			// the search of TAP 4
			support := func(m *multirepo.Mapping, v obj) (least, most []string) {
				seen := map[string]bool{}
				for _, x := range m.Repositories {
					a := answers[x]
					if a == nil || seen[x] {
						continue
					}
					seen[x] = true
					same, sure := sameInfo(v, a)
					if same {
						most = append(most, x)
						if sure {
							least = append(least, x)
						}
					}
				}
				return
			}
			doubt, bad := false, false
			var win *multirepo.Mapping
			stop := "no mapping is satisfied"
			winners := 0
		search:
			for _, m := range rm.Mapping {
				hit := false
				for _, p := range m.Paths {
					ok, err := path.Match(p, target)
					if err != nil {
						bad = true
					}
					hit = hit || ok
				}
				if bad {
					break
				}
				if !hit {
					continue
				}
				groups := map[string]bool{}
				for _, x := range m.Repositories {
					if answers[x] == nil {
						continue
					}
					least, most := support(m, answers[x])
					if len(least) >= m.Threshold {
						groups[js(obj{"l": answers[x]["length"], "h": answers[x]["hashes"]})] = true
					} else if len(most) >= m.Threshold {
						doubt = true
					}
					if len(least) != len(most) {
						doubt = true
					}
				}
				if doubt {
					break
				}
				if len(groups) > 0 {
					win, winners = m, len(groups)
					break search
				}
				if m.Terminating {
					stop = "the search ends at a terminating mapping"
					break
				}
			}
			h.guard("lookup", desc, func() {
				tf, repos, err := client.GetTargetInfo(target)
				if err == nil {
					h.stat("returned")
					if tf == nil || len(repos) == 0 {
						h.fail("nothing", "neither a target nor an error is returned", "input", desc)
						return
					}
					got := obj{"length": int(tf.Length), "hashes": obj{}}
					for k, v := range tf.Hashes {
						got["hashes"].(obj)[k] = v.String()
					}
					// some mapping that matches must support it
					ok := false
					for _, m := range rm.Mapping {
						hit := false
						for _, p := range m.Paths {
							o, _ := path.Match(p, target)
							hit = hit || o
						}
						if !hit {
							continue
						}
						if _, most := support(m, got); len(most) >= m.Threshold && (win == nil || m == win) {
							ok = true
							in := map[string]bool{}
							for _, x := range most {
								in[x] = true
							}
							for _, x := range repos {
								if !in[x] {
									h.fail("repositories", "the list of repositories contains one that does not report the target: "+x, "input", desc, "returned", js(got))
								}
								in[x] = false
							}
							break
						}
						if m.Terminating {
							break
						}
					}
					if !ok {
						h.fail("unsupported", "a target is returned that the first matching mapping does not support", "input", desc, "returned", js(got), "repositories", js(repos))
					}
					if winners > 1 && uniform && !doubt && !bad {
						h.fail("chosen", "a target is returned although two different ones have enough repositories behind them", "input", desc, "returned", js(got))
					}
					if win == nil && !doubt && !bad {
						h.fail("returned", "a target is returned although "+stop, "input", desc, "returned", js(got))
					}
					return
				}
				if tf != nil || len(repos) > 0 {
					h.fail("with-error", "a target is returned with an error", "input", desc)
				}
				if win != nil && !doubt && !bad && winners == 1 {
					h.fail("refused", "a target enough repositories agree on is not returned: "+err.Error(), "input", desc)
				}
			})
		}()
	}
}

// TestC24: map files, roots and configurations.
func TestC24(t *testing.T) {
	h := start(t, "C24", "map files with odd names, missing roots, empty lists and unknown repositories, then clients of the accepted ones over a loopback server; non-trivial: a configuration is accepted")
	defer h.done()
	r := h.rng
	var mu sync.Mutex
	served := map[string][]byte{}
	asked := []string{}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		asked = append(asked, q.URL.EscapedPath())
		b, ok := served[q.URL.EscapedPath()]
		if !ok {
			w.WriteHeader(404)
			return
		}
		w.Write(b)
	}))
	defer srv.Close()
	odd := []string{"", ".", "..", "a/b", "../x", "/abs", "a\\b", "..\\x", "/", "\\", "a/..", "x/"}
	fine := []string{"a", "A", "a b", "..a", "a..", "...", "é", "%2f", "repo1", "targets", "C:", "root.json", "-", "a.b"}
	plain := func(s string) bool { return s != "" && s != "." && s != ".." && !strings.ContainsAny(s, "/\\") }
	for c := 0; c < h.n(700) && h.more(); c++ {
		func() {
			top, err := os.MkdirTemp("", "c")
			must(err)
			defer os.RemoveAll(top)
			repos := map[string][]string{}
			roots := map[string][]byte{}
			depots := map[string]*depot{}
			valid := true
			for i := 0; i < r.Intn(4); i++ {
				name := pick(r, fine...)
				if r.Intn(10) == 0 {
					name = pick(r, odd...)
				}
				if depots[name] != nil {
					continue
				}
				d := newDepot(h)
				defer d.close()
				d.base = fmt.Sprintf("%s/%d/%d/", srv.URL, c, i)
				d.roots[0] = d.rootDoc(int64(1+len(depots)), kRoot()...)
				d.add(&node{name: "targets", keys: []*TKey{kTargets()}, files: obj{"own" + fmt.Sprint(i): obj{"length": 1, "hashes": hashesOf([]byte("1"))}}})
				d.publish()
				depots[name] = d
				repos[name] = []string{d.base, srv.URL + "/other/"}[:1+r.Intn(2)]
				roots[name] = d.roots[0]
				valid = valid && plain(name)
				switch r.Intn(14) {
				case 0:
					delete(roots, name)
					valid = false
				case 1:
					repos[name] = pick(r, []string{}, nil)
					valid = false
				}
			}
			if r.Intn(4) == 0 {
				roots["unused"] = []byte("{}")
			}
			mapping := []any{}
			for i := 0; i < r.Intn(3); i++ {
				if r.Intn(14) == 0 {
					mapping = append(mapping, nil)
					valid = false
					continue
				}
				used := []string{}
				for j := 0; j < r.Intn(4); j++ {
					x := pick(r, "unknown", "", "unused")
					if len(repos) > 0 && r.Intn(14) > 0 {
						x = pick(r, sortedKeys(repos)...)
					}
					if _, ok := repos[x]; !ok {
						valid = false
					}
					used = append(used, x)
				}
				mapping = append(mapping, obj{"paths": []any{"*"}, "repositories": used, "threshold": 1, "terminating": r.Intn(2) == 0})
			}
			mf, err := json.Marshal(obj{"repositories": repos, "mapping": mapping})
			must(err)
			if r.Intn(12) == 0 {
				mf = []byte(pick(r, "", "null", "{", "[]", "{\"repositories\":[]}", "{\"mapping\":{}}"))
				valid = false
			}
			if len(roots) == 0 {
				valid = false
			}
			desc := js(obj{"map": string(mf), "roots": sortedKeys(roots)})
			h.count(desc)
			h.guard("config", desc, func() {
				cfg, err := multirepo.NewConfig(mf, roots)
				if (err == nil) != valid {
					h.fail("validation", fmt.Sprintf("the configuration is valid: %v, the answer: %v", valid, err), "input", desc)
					return
				}
				if err != nil {
					if cfg != nil {
						h.fail("with-error", "a configuration is returned with an error", "input", desc)
					}
					return
				}
				h.stat("accepted")
				if len(cfg.RepoMap.Repositories) != len(repos) || len(cfg.RepoMap.Mapping) != len(mapping) {
					h.fail("content", "the configuration is not that of the map file", "input", desc)
				}
				must(os.Mkdir(filepath.Join(top, "wd"), 0o755))
				must(os.Chdir(filepath.Join(top, "wd")))
				defer os.Chdir(os.TempDir())
				cfg.LocalMetadataDir = filepath.Join(top, "md")
				if r.Intn(3) > 0 {
					cfg.LocalTargetsDir = filepath.Join(top, "tg")
				}
				common := cfg.LocalTargetsDir
				cfg.DisableLocalCache = r.Intn(4) == 0
				broken := ""
				for _, name := range sortedKeys(repos) {
					if r.Intn(10) == 0 {
						broken = name
						cfg.TrustedRoots = map[string][]byte{}
						for k, v := range roots {
							cfg.TrustedRoots[k] = v
						}
						if r.Intn(2) == 0 {
							delete(cfg.TrustedRoots, name)
						} else {
							cfg.TrustedRoots[name] = pick(r, []byte{}, []byte("{}"), depots[name].ts)
						}
						break
					}
				}
				desc := js(obj{"map": string(mf), "targets dir": cfg.LocalTargetsDir != "", "no cache": cfg.DisableLocalCache, "without usable root": broken})
				mc, err := multirepo.New(cfg)
				if (err == nil) != (broken == "") {
					h.fail("new", fmt.Sprintf("repository without a usable root: %q, the answer: %v", broken, err), "input", desc)
					return
				}
				if err != nil {
					if mc != nil {
						h.fail("client-with-error", "a client is returned with an error", "input", desc)
					}
					return
				}
				if js(sortedKeys(mc.TUFClients)) != js(sortedKeys(repos)) {
					h.fail("clients", "the clients are not those of the repositories: "+js(sortedKeys(mc.TUFClients)), "input", desc)
					return
				}
				want := map[string]string{}
				put := func(name, file string, b []byte) {
					if !cfg.DisableLocalCache {
						want[filepath.Join("md", name, file)] = string(b)
					}
				}
				for name := range repos {
					put(name, "root.json", roots[name])
					var m struct{ Signed struct{ Version int64 } }
					must(json.Unmarshal(roots[name], &m))
					if got := mc.TUFClients[name].GetTrustedMetadataSet(); got.Root.Signed.Version != m.Signed.Version {
						h.fail("root", "the client of "+name+" does not start from its trusted root", "input", desc)
					}
				}
				if got := tree(top); js(got) != js(want) {
					h.fail("files", "files after creation: "+js(sortedKeys(got)), "input", desc, "expected", js(sortedKeys(want)))
				}
				// every client works on its own repository
				mu.Lock()
				served = map[string][]byte{}
				asked = nil
				for _, d := range depots {
					for u, b := range d.site.files {
						served[strings.TrimPrefix(u, srv.URL)] = b
					}
				}
				mu.Unlock()
				if err := mc.Refresh(); err != nil {
					h.fail("refresh", "the repositories cannot be refreshed: "+err.Error(), "input", desc, "requests", js(asked))
					return
				}
				for _, a := range asked {
					if strings.HasPrefix(a, "/other/") {
						h.fail("mirror", "a request goes to "+a, "input", desc)
					}
				}
				for name, d := range depots {
					put(name, "timestamp.json", d.ts)
					put(name, "snapshot.json", d.snap)
					put(name, "targets.json", d.nodes["targets"].bytes)
					for f := range d.nodes["targets"].files {
						if _, ok := mc.TUFClients[name].GetTopLevelTargets()[f]; !ok {
							h.fail("targets", "the client of "+name+" does not list its target", "input", desc)
						}
					}
				}
				if got := tree(top); js(got) != js(want) {
					h.fail("files", "files after refreshing: "+js(sortedKeys(got)), "input", desc, "expected", js(sortedKeys(want)))
				}
				for name, d := range depots {
					if cfg.DisableLocalCache {
						continue
					}
					tf := &metadata.TargetFiles{Length: 1, Path: "own-target", Hashes: metadata.Hashes{}}
					mu.Lock()
					s := strings.TrimPrefix(d.slash(), srv.URL) + hashesOf([]byte("1"))["sha256"].(string) + ".own-target"
					served[s] = []byte("1")
					served[strings.TrimPrefix(d.slash(), srv.URL)+"own-target"] = []byte("1")
					mu.Unlock()
					x := metadata.HexBytes{}
					must(json.Unmarshal([]byte("\""+hashesOf([]byte("1"))["sha256"].(string)+"\""), &x))
					tf.Hashes["sha256"] = x
					p, _, err := mc.DownloadTarget([]string{name}, tf, "", d.slash())
					dir := common
					if dir == "" {
						dir = filepath.Join(top, "md", name, "targets")
					}
					if err == nil && filepath.Dir(p) != dir {
						h.fail("target-place", "a target of "+name+" is stored as "+p, "input", desc)
					}
					if err != nil {
						h.fail("target", "a target of "+name+" cannot be stored: "+err.Error(), "input", desc)
					} else {
						h.stat("target stored")
					}
				}
			})
		}()
	}
}
