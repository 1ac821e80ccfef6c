package multirepo

// ---- C24: the configuration of a multi-repository client ----

axiom [C24] forall s string {strings.ContainsAny(s, "/\\")} :: strings.ContainsAny(s, "/\\") <==> strings.Contains(s, "/") || strings.Contains(s, "\\")
axiom [C24] forall s string {strings.ContainsAny(s, "\\/")} :: strings.ContainsAny(s, "\\/") <==> strings.Contains(s, "/") || strings.Contains(s, "\\")

pred plainName(n string) bool = n != "" && n != "." && n != ".." && !strings.Contains(n, "/") && !strings.Contains(n, "\\")
pred knownRepos(m *MultiRepoMapType, g *Mapping) bool = g != nil && forall j in g.Repositories :: g.Repositories[j] in m.Repositories

func NewConfig(repoMap, roots) (r, err)
  ensures [C24] (err == nil) <==> (r != nil)
  ensures [C24] err == nil ==> r.RepoMap != nil && r.TrustedRoots == roots
  ensures [C24] err == nil ==> forall k in r.RepoMap.Repositories :: k in roots && len(r.RepoMap.Repositories[k]) > 0
  ensures [C24] err == nil ==> forall k in r.RepoMap.Repositories :: plainName(k)
  ensures [C24] err == nil ==> forall i in r.RepoMap.Mapping :: knownRepos(r.RepoMap, r.RepoMap.Mapping[i])
hint [C24] (m *MultiRepoMapType, roots map[string][]byte) forall k string :: visited(k) ==> k in roots && len(m.Repositories[k]) > 0
hint [C24] (m *MultiRepoMapType) forall k string :: visited(k) ==> plainName(k)
hint [C24] (m *MultiRepoMapType, n int) forall i in m.Mapping :: i <= n ==> knownRepos(m, m.Mapping[i])
hint [C24] (m *MultiRepoMapType, g *Mapping, n int) forall j in g.Repositories :: j <= n ==> g.Repositories[j] in m.Repositories

pred validConfig(c *MultiRepoConfig) bool = c != nil && c.RepoMap != nil && forall k in c.RepoMap.Repositories :: len(c.RepoMap.Repositories[k]) > 0 && plainName(k)
pred targetsDirOf(c *MultiRepoConfig, repo string) string = c.LocalTargetsDir == "" ? filepath.Join(filepath.Join(c.LocalMetadataDir, repo), "targets") : c.LocalTargetsDir
pred ownClient(u *updater.Updater, c *MultiRepoConfig, repo string) bool = u != nil && u.cfg != nil && u.trusted != nil
  && u.cfg.LocalMetadataDir == filepath.Join(c.LocalMetadataDir, repo) && u.cfg.LocalTargetsDir == targetsDirOf(c, repo)
  && u.cfg.RemoteMetadataURL == c.RepoMap.Repositories[repo][0] && u.cfg.DisableLocalCache == c.DisableLocalCache
  && initialRoot(u.trusted) == bytes(c.TrustedRoots[repo]) && bytes(u.cfg.LocalTrustedRoot) == bytes(c.TrustedRoots[repo])

func New(config) (r, err)
  modifies fs, fsx, fswrites, storeFails, removeFails, fsdirs, trustedDoc
  requires [C24] validConfig(config)
  ensures [C24] (err == nil) <==> (r != nil)
  ensures [C24] err == nil ==> r.Config == config
  ensures [C24] err == nil ==> forall k in config.RepoMap.Repositories :: k in config.TrustedRoots && k in r.TUFClients && ownClient(r.TUFClients[k], config, k)
  ensures [C24] err == nil ==> forall k in r.TUFClients :: k in config.RepoMap.Repositories
  ensures [C24] err == nil ==> forall k string, l string {r.TUFClients[k], r.TUFClients[l]} :: k in r.TUFClients && l in r.TUFClients && k != l ==> r.TUFClients[k] != r.TUFClients[l] && r.TUFClients[k].cfg != r.TUFClients[l].cfg && r.TUFClients[k].trusted != r.TUFClients[l].trusted

func (*MultiRepoClient).initTUFClients(client) (err)
  requires [~C24] validConfig(client.Config) && nonnil(client.TUFClients) && forall k string :: !(k in client.TUFClients)
  modifies map(client.TUFClients), fs, fsx, fswrites, storeFails, removeFails, fsdirs, trustedDoc
  ensures [~C24] err == nil ==> forall k in client.Config.RepoMap.Repositories :: k in client.Config.TrustedRoots && k in client.TUFClients && ownClient(client.TUFClients[k], client.Config, k)
  ensures [~C24] err == nil ==> forall k in client.TUFClients :: k in client.Config.RepoMap.Repositories
  ensures [~C24] err == nil ==> forall k string, l string {client.TUFClients[k], client.TUFClients[l]} :: k in client.TUFClients && l in client.TUFClients && k != l ==> client.TUFClients[k] != client.TUFClients[l] && client.TUFClients[k].cfg != client.TUFClients[l].cfg && client.TUFClients[k].trusted != client.TUFClients[l].trusted
hint [C24] (m *MultiRepoClient) forall k string :: visited(k) ==> k in m.Config.TrustedRoots && k in m.TUFClients && allocated(m.TUFClients[k]) && allocated(m.TUFClients[k].cfg) && allocated(m.TUFClients[k].trusted) && ownClient(m.TUFClients[k], m.Config, k)
hint [C24] (m *MultiRepoClient) forall k in m.TUFClients :: visited(k)
hint [C24] (m *MultiRepoClient) forall k string, l string {m.TUFClients[k], m.TUFClients[l]} :: k in m.TUFClients && l in m.TUFClients && k != l ==> m.TUFClients[k] != m.TUFClients[l] && m.TUFClients[k].cfg != m.TUFClients[l].cfg && m.TUFClients[k].trusted != m.TUFClients[l].trusted

// ---- C23: agreement between repositories ----

pred answer(c *MultiRepoClient, repo string) *metadata.TargetFiles = report(c.TUFClients[repo])
pred vouches(c *MultiRepoClient, repo string, r *metadata.TargetFiles) bool = answer(c, repo) != nil && (answer(c, repo) == r || sameFacts(r.Length, r.Hashes, answer(c, repo).Length, answer(c, repo).Hashes))
pred matched(m *Mapping, path string) bool = exists p in m.Paths :: filepath.Match(m.Paths[p], path)
pred final(m *Mapping, path string) bool = m.Terminating && matched(m, path)
pred distinct(l []string) bool = forall i in l :: forall j in l :: i < j ==> l[i] != l[j]

func (*MultiRepoClient).GetTargetInfo(client, targetPath) (r, repos, err)
  requires [C23] forall i in client.Config.RepoMap.Mapping :: forall j in client.Config.RepoMap.Mapping[i].Repositories :: client.Config.RepoMap.Mapping[i].Repositories[j] in client.TUFClients
  modifies all(client.TUFClients[""].trusted), allmaps(client.TUFClients[""].trusted.Targets), fetches, fetchURL, fetchMax, fetchErr, fetchData, fs, fsx, fswrites, storeFails, removeFails, trustedDoc
  ensures [C23] err == nil ==> exists i in client.Config.RepoMap.Mapping :: len(repos) >= client.Config.RepoMap.Mapping[i].Threshold && matched(client.Config.RepoMap.Mapping[i], targetPath) && (forall j in repos :: repos[j] in client.Config.RepoMap.Mapping[i].Repositories) && forall k in client.Config.RepoMap.Mapping :: k < i ==> !final(client.Config.RepoMap.Mapping[k], targetPath)
  ensures [C23] err == nil ==> len(repos) > 0 && distinct(repos) && r == answer(client, repos[0])
  ensures [C23] err == nil ==> forall j in repos {repos[j]} :: vouches(client, repos[j], r)
  hint [C23] (m *Mapping, gs []targetMatch) forall g in gs :: forall j in gs[g].repositories {gs[g].repositories[j]} :: gs[g].repositories[j] in m.Repositories
  hint [C23] (gs []targetMatch) forall g in gs :: forall j in gs[g].repositories {gs[g].repositories[j]} :: vouches(client, gs[g].repositories[j], gs[g].targetInfo)
  hint [C23] (r loop *targetMatch, m *Mapping) r != nil ==> len(r.repositories) >= m.Threshold && len(r.repositories) > 0
  hint [C23] (r loop *targetMatch, m *Mapping) r != nil ==> forall j in r.repositories :: r.repositories[j] in m.Repositories
  hint [C23] (r loop *targetMatch) r != nil ==> forall j in r.repositories {r.repositories[j]} :: vouches(client, r.repositories[j], r.targetInfo)
  hint [C23] (r loop *targetMatch) r != nil ==> distinct(r.repositories) && r.targetInfo == answer(client, r.repositories[0])
  hint [C23] (gs []targetMatch) forall g in gs :: len(gs[g].repositories) > 0
  hint [C23] (gs []targetMatch) forall g in gs :: distinct(gs[g].repositories)
  hint [C23] (gs []targetMatch) forall g in gs :: gs[g].targetInfo == answer(client, gs[g].repositories[0])

  hint [C23] (n loop int) forall k in client.Config.RepoMap.Mapping :: k <= n ==> !final(client.Config.RepoMap.Mapping[k], targetPath)
  hint [C23] (m *Mapping, n loop int) forall q in m.Paths :: q <= n && filepath.Match(m.Paths[q], targetPath) ==> !m.Terminating

package config
func New(remoteURL, rootBytes) (r, err)
  ensures [C24] err == nil ==> r != nil && fresh(r) && r.RemoteMetadataURL == remoteURL && bytes(r.LocalTrustedRoot) == bytes(rootBytes)
