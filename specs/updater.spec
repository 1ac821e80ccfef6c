package updater

// The state of a client: what it fetched, in order,
gvar fetches int                   // number of requests made through the fetcher
gvar fetchURL fun[int,string]      // their addresses,
gvar fetchMax fun[int,int]         // limits,
gvar fetchErr fun[int,error]       // errors
gvar fetchData fun[int,string]     // and answers
// and, never modified, the call being made
gvar rootBefore int                // version of the trusted root before this refresh
gvar firstFetch int                // and number of requests before it
gvar clientCfg *config.UpdaterConfig
gvar client *trustedmetadata.TrustedMetadata
gvar askedTarget *metadata.TargetFiles
gvar askedBase string

// ---- C18: addresses and limits ----

axiom url.QueryEscape("root") == "root" && url.QueryEscape("timestamp") == "timestamp" && url.QueryEscape("snapshot") == "snapshot" && url.QueryEscape("targets") == "targets"
axiom forall s string, p string {strings.TrimSuffix(s, p)} :: strings.HasSuffix(s, p) ? strings.TrimSuffix(s, p) + p == s : strings.TrimSuffix(s, p) == s

pred slashed(s string) string = strings.HasSuffix(s, "/") ? s : s + "/"
pred mdURL(role string, version string) string = slashed(clientCfg.RemoteMetadataURL) + version + url.QueryEscape(role) + ".json"
pred versioned(v int) string = client.Root.Signed.ConsistentSnapshot ? strconv.FormatInt(v, 10) + "." : ""
pred limitOf(n int, max int) int = n == 0 ? max : n
pred rootRequest(url string, max int) bool = url == mdURL("root", strconv.FormatInt(client.Root.Signed.Version + 1, 10) + ".") && max == clientCfg.RootMaxLength
pred timestampRequest(url string, max int) bool = url == mdURL("timestamp", "") && max == clientCfg.TimestampMaxLength
pred snapshotRequest(url string, max int) bool = client.Timestamp != nil && "snapshot.json" in client.Timestamp.Signed.Meta && url == mdURL("snapshot", versioned(snapOf(client).Version)) && max == limitOf(snapOf(client).Length, clientCfg.SnapshotMaxLength)
pred targetsRequest(url string, max int) bool = client.Snapshot != nil && exists r string {url.QueryEscape(r)} :: r + ".json" in client.Snapshot.Signed.Meta && url == mdURL(r, versioned(recorded(client, r).Version)) && max == limitOf(recorded(client, r).Length, clientCfg.TargetsMaxLength)
pred prefixed(p string, h string) string = strings.LastIndex(p, "/") < 0 ? h + "." + p : p[:strings.LastIndex(p, "/")] + "/" + h + "." + p[strings.LastIndex(p, "/")+1:]
pred targetBase() string = slashed(askedBase == "" ? clientCfg.RemoteTargetsURL : askedBase)
pred targetRequest(url string, max int) bool = max == askedTarget.Length && (
  client.Root.Signed.ConsistentSnapshot && clientCfg.PrefixTargetsWithHash ?
    len(askedTarget.Hashes) > 0 ==> exists a in askedTarget.Hashes :: url == targetBase() + prefixed(askedTarget.Path, hex.EncodeToString(bytes(askedTarget.Hashes[a])))
  : url == targetBase() + askedTarget.Path)

// ---- C14: the local cache ----

ghost mdRole(string) string        // the role whose document a file holds
axiom [C14,C15] forall d string, r string {filepath.Join(d, url.QueryEscape(r) + ".json")} :: mdRole(filepath.Join(d, url.QueryEscape(r) + ".json")) == r
pred mdPath(role string) string = filepath.Join(clientCfg.LocalMetadataDir, url.QueryEscape(role) + ".json")
pred stored(role string) bool = mdPath(role) in fsx && fs[mdPath(role)] == trustedDoc[role]
pred mayWrite(name string) bool = !clientCfg.DisableLocalCache && tmpname(name)
pred mayPlace(from string, to string) bool = mayWrite(from) && exists r string {url.QueryEscape(r)} :: to == mdPath(r) && fs[from] == trustedDoc[r]

// ---- C15: root rotation ----

pred rootURL(v int) string = mdURL("root", strconv.FormatInt(v, 10) + ".")
pred accepted() int = client.Root.Signed.Version - rootBefore       // roots accepted by this refresh
pred nextRoot() int = firstFetch + accepted()                       // the request after them
ghost rootAddr(int) string          // = rootURL, opaque under quantifiers
axiom [C15] forall v int {rootAddr(v)} :: rootAddr(v) == rootURL(v)
pred rootAsked(upto int) bool = forall j int {fetchURL[j]} :: firstFetch <= j && j < upto ==> fetchURL[j] == rootAddr(rootBefore + 1 + j - firstFetch)
pred rootAnswered(upto int) bool = forall j int {fetchErr[j]} :: firstFetch <= j && j < upto ==> fetchErr[j] == nil
pred rootLog(upto int) bool = rootAsked(upto) && rootAnswered(upto)
pred missing(e error) bool = hasErr(metadata.ErrDownloadHTTP, e) && (asErr(metadata.ErrDownloadHTTP, e).StatusCode == 404 || asErr(metadata.ErrDownloadHTTP, e).StatusCode == 403)
pred rootInOrder(url string) bool = url == rootURL(client.Root.Signed.Version + 1) && fetches == nextRoot() && accepted() < clientCfg.MaxRootRotations && (accepted() > 0 ==> trustedDoc["root"] == fetchData[fetches - 1] && (!clientCfg.DisableLocalCache ==> stored("root")))

extern fetcher.Fetcher.DownloadFile(f, url, maxLength, timeout) (data, err)
  requires [C15] rootInOrder(url) || timestampRequest(url, maxLength) || snapshotRequest(url, maxLength) || targetsRequest(url, maxLength)
  requires [C18] askedTarget == nil ==> rootRequest(url, maxLength) || timestampRequest(url, maxLength) || snapshotRequest(url, maxLength) || targetsRequest(url, maxLength)
  requires [C18] askedTarget != nil ==> targetRequest(url, maxLength)
  modifies fetches, fetchURL, fetchMax, fetchErr, fetchData
  ensures fetches == old(fetches) + 1
  ensures fetchURL == upd(old(fetchURL), old(fetches), url) && fetchMax == upd(old(fetchMax), old(fetches), maxLength)
  ensures fetchErr == upd(old(fetchErr), old(fetches), err)
  ensures err == nil ==> fetchData == upd(old(fetchData), old(fetches), bytes(data))
  ensures err != nil ==> fetchData == old(fetchData)

// ---- C10: targets ----

pred matches(t *metadata.TargetFiles, data string) bool = len(data) == t.Length && forall a in t.Hashes :: hashAlg(a) && bytes(t.Hashes[a]) == digest(a, data)

func (*Updater).DownloadTarget(update, targetFile, filePath, targetBaseURL) (path, data, err)
  modifies fetches, fetchURL, fetchMax, fetchErr, fetchData, fs, fsx, fswrites, storeFails
  requires [C18] clientCfg == update.cfg && client == update.trusted && askedTarget == targetFile && askedBase == targetBaseURL && targetFile != nil
  ensures [C18] fetches <= old(fetches) + 1
  ensures [C10] err == nil ==> fetches == old(fetches) + 1 && fetchErr[old(fetches)] == nil && bytes(data) == fetchData[old(fetches)]
  ensures [C10] err == nil ==> matches(targetFile, bytes(data))
  ensures [C10] err == nil && !update.cfg.DisableLocalCache ==> path in fsx && fs == upd(old(fs), path, bytes(data)) && fsx == setadd(old(fsx), path)
  ensures [C10] err == nil && filePath != "" ==> path == filePath
  ensures [C10] update.cfg.DisableLocalCache ==> fswrites == old(fswrites)
  ensures [C10] fswrites != old(fswrites) ==> fetches == old(fetches) + 1 && fetchErr[old(fetches)] == nil && matches(targetFile, fetchData[old(fetches)])
  ensures [C10] err != nil ==> len(data) == 0 && path == "" && (fs == old(fs) && fsx == old(fsx) || storeFails != old(storeFails))

func (*Updater).FindCachedTarget(update, targetFile, filePath) (path, data, err)
  ensures [C10] path != "" || len(data) > 0 ==> err == nil && !update.cfg.DisableLocalCache
  ensures [C10] path != "" || len(data) > 0 ==> path in fsx && bytes(data) == fs[path] && matches(targetFile, bytes(data))
  ensures [C10] path != "" && filePath != "" ==> path == filePath

// ---- the client workflow ----

pred asRecorded(m *metadata.MetaFiles, data string) bool = (m.Length == 0 || len(data) == m.Length) && forall a in m.Hashes :: hashAlg(a) && bytes(m.Hashes[a]) == digest(a, data)

hint [C18,C15] (u *Updater, n int64) u.trusted.Root.Signed.Version + 1 == n
hint [C15] () fetches == nextRoot()
hint [C15] () accepted() >= 0
hint [C15] () rootAsked(fetches)
hint [C15] () rootAnswered(fetches)
hint [C15] () accepted() > 0 ==> trustedDoc["root"] == fetchData[fetches - 1]
hint [C15] () accepted() > 0 && !clientCfg.DisableLocalCache ==> stored("root")
hint [C15] () clientCfg.MaxRootRotations >= 0 ==> accepted() <= clientCfg.MaxRootRotations
hint [C14,C15] () storeFails == old(storeFails)
hint [C14] () old(stored("root")) && !clientCfg.DisableLocalCache ==> stored("root")
hint [C14] () removeFails >= old(removeFails)
hint [C14] () keeps(old(fs), old(fsx))
hint [C14] () keepsBut("root", old(fs), old(fsx))
hint [C14] () removeFails == old(removeFails) ==> tidyBut("root", old(fsx))
hint [C14] () forall k string {trustedDoc[k]} :: k != "root" ==> trustedDoc[k] == old(trustedDoc)[k]
hint [C14] () removeFails == old(removeFails) ==> tidy(old(fsx))
hint [C14] () clientCfg.DisableLocalCache ==> fs == old(fs) && fsx == old(fsx) && fswrites == old(fswrites)

pred isMd(n string) bool = n == mdPath(mdRole(n))
pred keeps(f fun[string,string], x set[string]) bool = forall n string {(n in x)} :: n in x ==> n in fsx && (!isMd(n) ==> fs[n] == f[n])
pred tidy(x set[string]) bool = forall n string {(n in fsx)} :: n in fsx ==> n in x || isMd(n)
pred untouched(f fun[string,string], x set[string], w int) bool = fs == f && fsx == x && fswrites == w
pred keepsBut(role string, f fun[string,string], x set[string]) bool = forall n string {(n in x)} :: n in x ==> n in fsx && (n != mdPath(role) ==> fs[n] == f[n])
pred tidyBut(role string, x set[string]) bool = forall n string {(n in fsx)} :: n in fsx ==> n in x || n == mdPath(role)

func (*Updater).persistMetadata(update, roleName, data) (err)
  modifies fs, fsx, fswrites, storeFails, removeFails
  requires [~C14,~C15] clientCfg == update.cfg
  requires [~C14] !clientCfg.DisableLocalCache ==> bytes(data) == trustedDoc[roleName]
  ensures [~C14,~C15] clientCfg.DisableLocalCache ==> untouched(old(fs), old(fsx), old(fswrites)) && err == nil && storeFails == old(storeFails) && removeFails == old(removeFails)
  ensures [~C14,~C15] !clientCfg.DisableLocalCache && err == nil ==> mdPath(roleName) in fsx && fs[mdPath(roleName)] == bytes(data)
  ensures [~C14,~C15] storeFails >= old(storeFails) && (err == nil ==> storeFails == old(storeFails))
  ensures [~C14,~C15] keepsBut(roleName, old(fs), old(fsx))
  ensures [~C14] removeFails >= old(removeFails) && (removeFails == old(removeFails) ==> tidyBut(roleName, old(fsx)))

func (*Updater).loadRoot(update) (err)
  modifies update.trusted.Root, fetches, fetchURL, fetchMax, fetchErr, fetchData, fs, fsx, fswrites, storeFails, removeFails, trustedDoc
  requires [~C18,~C14,~C15] clientCfg == update.cfg && client == update.trusted && askedTarget == nil
  ensures [~C14] clientCfg.DisableLocalCache ==> untouched(old(fs), old(fsx), old(fswrites))
  ensures [~C14,~C15] storeFails >= old(storeFails) && (err == nil ==> storeFails == old(storeFails))
  ensures [~C15] fetches >= old(fetches)
  ensures [~C14] keepsBut("root", old(fs), old(fsx))
  ensures [~C14] removeFails >= old(removeFails) && (removeFails == old(removeFails) ==> tidyBut("root", old(fsx)))
  ensures [~C14] forall k string {trustedDoc[k]} :: k != "root" ==> trustedDoc[k] == old(trustedDoc)[k]
  requires [~C15] rootBefore == client.Root.Signed.Version && firstFetch == fetches
  ensures [~C14] err == nil && !clientCfg.DisableLocalCache && old(stored("root")) ==> stored("root")
  ensures [~C15] accepted() >= 0 && (clientCfg.MaxRootRotations >= 0 ==> accepted() <= clientCfg.MaxRootRotations) && rootLog(nextRoot())
  ensures [~C15] nextRoot() <= fetches && fetches <= nextRoot() + 1
  ensures [~C15] fetches > nextRoot() ==> accepted() < clientCfg.MaxRootRotations && fetchURL[nextRoot()] == rootURL(client.Root.Signed.Version + 1)
  ensures [~C15] err == nil && accepted() < clientCfg.MaxRootRotations ==> fetches > nextRoot() && missing(fetchErr[nextRoot()])

func (*Updater).loadTimestamp(update) (err)
  modifies update.trusted.Timestamp, fetches, fetchURL, fetchMax, fetchErr, fetchData, fs, fsx, fswrites, storeFails, removeFails, trustedDoc
  requires [~C18,~C14,~C15] clientCfg == update.cfg && client == update.trusted && askedTarget == nil
  ensures [~C14] clientCfg.DisableLocalCache ==> untouched(old(fs), old(fsx), old(fswrites))
  ensures [~C14,~C15] storeFails >= old(storeFails) && (err == nil ==> storeFails == old(storeFails))
  ensures [~C15] fetches >= old(fetches)
  ensures [~C14] keepsBut("timestamp", old(fs), old(fsx))
  ensures [~C14] removeFails >= old(removeFails) && (removeFails == old(removeFails) ==> tidyBut("timestamp", old(fsx)))
  ensures [~C14] forall k string {trustedDoc[k]} :: k != "timestamp" ==> trustedDoc[k] == old(trustedDoc)[k]
  ensures [~C15] forall j int {fetchURL[j]} :: j < old(fetches) ==> fetchURL[j] == old(fetchURL)[j]
  ensures [~C15] forall j int {fetchErr[j]} :: j < old(fetches) ==> fetchErr[j] == old(fetchErr)[j]
  ensures [~C14] err == nil && !clientCfg.DisableLocalCache && old(client.Timestamp) == nil ==> stored("timestamp") || client.Timestamp == nil || expired(client.Timestamp.Signed.Expires, client.RefTime)

func (*Updater).loadSnapshot(update) (err)
  modifies update.trusted.Snapshot, fetches, fetchURL, fetchMax, fetchErr, fetchData, fs, fsx, fswrites, storeFails, removeFails, trustedDoc
  requires [~C18,~C14,~C15] clientCfg == update.cfg && client == update.trusted && askedTarget == nil
  ensures [~C14] clientCfg.DisableLocalCache ==> untouched(old(fs), old(fsx), old(fswrites))
  ensures [~C14,~C15] storeFails >= old(storeFails) && (err == nil ==> storeFails == old(storeFails))
  ensures [~C15] fetches >= old(fetches)
  ensures [~C14] keepsBut("snapshot", old(fs), old(fsx))
  ensures [~C14] removeFails >= old(removeFails) && (removeFails == old(removeFails) ==> tidyBut("snapshot", old(fsx)))
  ensures [~C14] forall k string {trustedDoc[k]} :: k != "snapshot" ==> trustedDoc[k] == old(trustedDoc)[k]
  ensures [~C15] forall j int {fetchURL[j]} :: j < old(fetches) ==> fetchURL[j] == old(fetchURL)[j]
  ensures [~C15] forall j int {fetchErr[j]} :: j < old(fetches) ==> fetchErr[j] == old(fetchErr)[j]
  ensures [~C14] err == nil ==> client.Timestamp != nil && !expired(client.Timestamp.Signed.Expires, client.RefTime)
  ensures [~C14] err == nil && !clientCfg.DisableLocalCache ==> stored("snapshot")

func (*Updater).loadTargets(update, roleName, parentName) (r, err)
  modifies map(update.trusted.Targets), fetches, fetchURL, fetchMax, fetchErr, fetchData, fs, fsx, fswrites, storeFails, removeFails, trustedDoc
  requires [~C18,~C14,~C15] clientCfg == update.cfg && client == update.trusted && askedTarget == nil
  ensures [~C14] clientCfg.DisableLocalCache ==> untouched(old(fs), old(fsx), old(fswrites))
  ensures [~C14,~C15] storeFails >= old(storeFails) && (err == nil ==> storeFails == old(storeFails))
  ensures [~C15] fetches >= old(fetches)
  ensures [~C14] keepsBut(roleName, old(fs), old(fsx))
  ensures [~C14] removeFails >= old(removeFails) && (removeFails == old(removeFails) ==> tidyBut(roleName, old(fsx)))
  ensures [~C14] forall k string {trustedDoc[k]} :: k != roleName ==> trustedDoc[k] == old(trustedDoc)[k]
  ensures [~C15] forall j int {fetchURL[j]} :: j < old(fetches) ==> fetchURL[j] == old(fetchURL)[j]
  ensures [~C15] forall j int {fetchErr[j]} :: j < old(fetches) ==> fetchErr[j] == old(fetchErr)[j]
  ensures [~C14] err == nil && !clientCfg.DisableLocalCache && !old(roleName in client.Targets) ==> stored(roleName)

func (*Updater).Refresh(update) (err)
  modifies update.trusted.Root, update.trusted.Timestamp, update.trusted.Snapshot, map(update.trusted.Targets), fetches, fetchURL, fetchMax, fetchErr, fetchData, fs, fsx, fswrites, storeFails, removeFails, trustedDoc
  requires [C18,C14,C15] clientCfg == update.cfg && client == update.trusted && askedTarget == nil
  requires [C16] clientCfg == update.cfg && client == update.trusted
  requires [C15] rootBefore == client.Root.Signed.Version && firstFetch == fetches
  ensures [C18] update.cfg == old(update.cfg) && update.trusted == old(update.trusted)
  ensures [C14] clientCfg.DisableLocalCache ==> untouched(old(fs), old(fsx), old(fswrites))
  ensures [C14] keeps(old(fs), old(fsx))
  ensures [C14] removeFails >= old(removeFails) && (removeFails == old(removeFails) ==> tidy(old(fsx)))
  ensures [C14] err == nil && !clientCfg.DisableLocalCache && !clientCfg.UnsafeLocalMode && old(stored("root")) ==> stored("root")
  ensures [C14] err == nil && !clientCfg.DisableLocalCache && old(client.Timestamp) == nil && !old("targets" in client.Targets) ==> stored("timestamp") && stored("snapshot") && stored("targets")
  ensures [C15] !clientCfg.UnsafeLocalMode ==> accepted() >= 0 && (clientCfg.MaxRootRotations >= 0 ==> accepted() <= clientCfg.MaxRootRotations) && rootLog(nextRoot())
  ensures [C15] !clientCfg.UnsafeLocalMode && fetches > nextRoot() && accepted() < clientCfg.MaxRootRotations ==> fetchURL[nextRoot()] == rootURL(client.Root.Signed.Version + 1) && (err == nil || fetches > nextRoot() + 1 ==> missing(fetchErr[nextRoot()]))
  ensures [C15] !clientCfg.UnsafeLocalMode && fetches <= nextRoot() && accepted() < clientCfg.MaxRootRotations ==> err != nil
  ensures [C15] err == nil ==> storeFails == old(storeFails)
  ensures [C16] clientCfg.UnsafeLocalMode ==> fetches == old(fetches) && untouched(old(fs), old(fsx), old(fswrites))
  ensures [C16] clientCfg.UnsafeLocalMode && err == nil ==> client.Timestamp != nil && client.Timestamp != old(client.Timestamp) && client.Snapshot != old(client.Snapshot) && finalSnapshot(client) && "targets" in client.Targets
  ensures [C16] clientCfg.UnsafeLocalMode && err == nil ==> stored("timestamp") && stored("snapshot") && stored("targets")
  ensures [C16] clientCfg.UnsafeLocalMode && err == nil ==> asRecorded(snapOf(client), trustedDoc["snapshot"]) && asRecorded(recorded(client, "targets"), trustedDoc["targets"])
  ensures [C16] clientCfg.UnsafeLocalMode && err == nil ==> rootSigned(client.Root, "timestamp", conv(any, client.Timestamp)) && rootSigned(client.Root, "snapshot", conv(any, client.Snapshot)) && rootSigned(client.Root, "targets", conv(any, client.Targets["targets"]))
  ensures [C16] clientCfg.UnsafeLocalMode && err == nil ==> !expired(client.Timestamp.Signed.Expires, client.RefTime) && client.Targets["targets"].Signed.Version == recorded(client, "targets").Version && !expired(client.Targets["targets"].Signed.Expires, client.RefTime)

ghost report(*Updater) *metadata.TargetFiles      // C23: what each client answers within one lookup, nil for an error
func (*Updater).GetTargetInfo(update, targetPath) (r, err)
  modifies update.trusted.Root, update.trusted.Timestamp, update.trusted.Snapshot, map(update.trusted.Targets), fetches, fetchURL, fetchMax, fetchErr, fetchData, fs, fsx, fswrites, storeFails, removeFails, trustedDoc
  requires [C18,C14,C15] clientCfg == update.cfg && client == update.trusted && askedTarget == nil
  requires [C16] clientCfg == update.cfg && client == update.trusted
  requires [C15] rootBefore == client.Root.Signed.Version && firstFetch == fetches
  defines err == nil ==> r == report(update) && r != nil
  defines err != nil ==> report(update) == nil
  ensures [C18,^C23] update.cfg == old(update.cfg) && update.trusted == old(update.trusted)
  ensures [C14] clientCfg.DisableLocalCache ==> untouched(old(fs), old(fsx), old(fswrites))
  ensures [C14] keeps(old(fs), old(fsx))
  ensures [C14] removeFails >= old(removeFails) && (removeFails == old(removeFails) ==> tidy(old(fsx)))

func New(config) (r, err)
  modifies fs, fsx, fswrites, storeFails, removeFails, fsdirs, trustedDoc
  requires [C14] clientCfg == config
  ensures [C14] clientCfg.DisableLocalCache ==> untouched(old(fs), old(fsx), old(fswrites)) && fsdirs == old(fsdirs)
  ensures [C14] keeps(old(fs), old(fsx))
  ensures [C14] removeFails >= old(removeFails) && (removeFails == old(removeFails) ==> tidy(old(fsx)))
  ensures [C14] err == nil && !clientCfg.DisableLocalCache ==> stored("root") && trustedDoc["root"] == bytes(config.LocalTrustedRoot)
  ensures [C24] err == nil ==> r != nil && fresh(r) && r.cfg == config && r.trusted != nil && fresh(r.trusted) && initialRoot(r.trusted) == bytes(config.LocalTrustedRoot)
