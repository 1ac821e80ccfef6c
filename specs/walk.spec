package metadata

// ---- C13: the order in which a look-up visits the delegated roles ----

ghost picks(*Delegations, string, string) bool  // d delegates a role of this name that is responsible for the path
ghost ends(*Delegations, string, string) bool   // and that delegation is terminating

func (*Delegations).GetRolesForTarget(role, path) (res)
  defines [C13] forall n string {(n in res)} :: (n in res <==> picks(role, n, path)) && (n in res ==> (res[n] <==> ends(role, n, path)))
  defines [C13] forall n string {picks(role, n, path)} :: (n in res <==> picks(role, n, path)) && (n in res ==> (res[n] <==> ends(role, n, path)))

package updater

gvar visits int                     // roles visited by this look-up: 0, 1, ... in this order,
gvar visitRole fun[int,string]      // their names
gvar visitParent fun[int,string]    // and delegators,
gvar visitDoc fun[int,*metadata.Metadata[metadata.TargetsType]]      // what was loaded for them,
gvar visitAt fun[string,int]        // and when each role was visited

pred seen(n string) bool = 0 <= visitAt[n] && visitAt[n] < visits && visitRole[visitAt[n]] == n
pred doc(i int) *metadata.Metadata[metadata.TargetsType] = conv(*metadata.Metadata[metadata.TargetsType], visitDoc[i])
pred parts(i int) *metadata.Delegations = doc(i).Signed.Delegations
pred follows(p string, n string, path string) bool = seen(p) && parts(visitAt[p]) != nil && picks(parts(visitAt[p]), n, path)
pred onceNamed(d *metadata.Delegations) bool = forall k in d.Roles :: forall l in d.Roles :: d.Roles[k].Name == d.Roles[l].Name ==> k == l
pred inOrder(d *metadata.Delegations, n string, m string) bool = forall k in d.Roles :: forall l in d.Roles :: d.Roles[k].Name == n && d.Roles[l].Name == m ==> k < l
pred closing(i int, path string) bool = parts(i) != nil && exists n string {picks(parts(i), n, path)} :: picks(parts(i), n, path) && ends(parts(i), n, path)
pred siblings(d *metadata.Delegations, n string, m string) bool = nonnil(d.Roles) && onceNamed(d) ==> inOrder(d, n, m)
pred beforeEnd(d *metadata.Delegations, n string, m string, path string) bool = picks(d, m, path) && ends(d, m, path) && n != m ==> siblings(d, n, m)
pred eligible(i int, n string, path string) bool = parts(i) != nil && picks(parts(i), n, path) && (nonnil(parts(i).Roles) ==> onceNamed(parts(i))) && forall m string {picks(parts(i), m, path)} :: beforeEnd(parts(i), n, m, path)

// the visits of a look-up
pred fromTheTop() bool = visits > 0 ==> visitRole[0] == "targets" && visitParent[0] == "root"
pred visitedOnce() bool = forall i int, j int {visitRole[i], visitRole[j]} :: 0 <= i && i < j && j < visits ==> visitRole[i] != visitRole[j]
pred withinLimit(max int) bool = visits <= 1 || visits <= max + 1
pred delegated(path string) bool = forall i int {visitParent[i]} :: 1 <= i && i < visits ==> visitAt[visitParent[i]] < i && follows(visitParent[i], visitRole[i], path)
pred notListed(upto int, path string) bool = forall i int {visitDoc[i]} :: 0 <= i && i < upto ==> !(path in doc(i).Signed.Targets)
pred noneCutOff(path string) bool = forall i int, q int {visitParent[i], visitDoc[q]} :: 1 <= i && i < visits && visitAt[visitParent[i]] < q && q < i ==> !closing(q, path)
pred noneAfterEnd(path string) bool = forall i int, n string {visitParent[i], picks(parts(visitAt[visitParent[i]]), n, path)} :: 1 <= i && i < visits ==> beforeEnd(parts(visitAt[visitParent[i]]), visitRole[i], n, path)
pred siblingsInOrder() bool = forall i int, j int {visitParent[i], visitParent[j]} :: 1 <= i && i < j && j < visits && visitParent[i] == visitParent[j] ==> siblings(parts(visitAt[visitParent[i]]), visitRole[i], visitRole[j])
pred nested() bool = forall i int, j int {visitParent[i], visitParent[j]} :: 1 <= i && i < j && j < visits ==> visitAt[visitParent[j]] >= i || visitAt[visitParent[j]] <= visitAt[visitParent[i]]

func (*Updater).loadTargets(update, roleName, parentName) (r, err)
  modifies [C13] visits, visitRole, visitParent, visitDoc, visitAt
  defines [C13] visits == old(visits) + 1 && visitRole == upd(old(visitRole), old(visits), roleName) && visitParent == upd(old(visitParent), old(visits), parentName) && visitDoc == upd(old(visitDoc), old(visits), r) && visitAt == upd(old(visitAt), roleName, old(visits))

func (*Updater).Refresh(update) (err)
  ensures [^C13] true

func rolesInOrder(delegations, roles) (res)
  ensures [~C13] forall a in res :: res[a] in roles
  ensures [~C13] nonnil(delegations.Roles) && onceNamed(delegations) ==> forall a in res :: forall b in res :: a < b ==> inOrder(delegations, res[a], res[b])
  hint [C13] (l []string) forall a in l :: l[a] in roles
  hint [C13] (l []string) onceNamed(delegations) ==> forall a in l :: forall k in delegations.Roles :: delegations.Roles[k].Name == l[a] ==> k < iter
  hint [C13] (l []string) onceNamed(delegations) ==> forall a in l :: forall b in l :: a < b ==> inOrder(delegations, l[a], l[b])
  ensures [~C13] nonnil(delegations.Roles) ==> forall k in delegations.Roles :: delegations.Roles[k].Name in roles ==> exists a in res :: res[a] == delegations.Roles[k].Name
  ensures [~C13] !nonnil(delegations.Roles) ==> forall n in roles :: exists a in res :: res[a] == n
  hint [C13] (l []string) forall k in delegations.Roles :: k < iter && delegations.Roles[k].Name in roles ==> exists a in l :: l[a] == delegations.Roles[k].Name
  hint [C13] (l []string) forall n string {visited(n)} :: visited(n) ==> exists a in l :: l[a] == n

func reverseSlice(s)
  modifies elems(s)
  ensures [~C13] forall a in s :: s[a] == old(s[len(s) - 1 - a])
  hint [C13] (i loop int, j loop int) i + j == len(s) - 1 && i >= 0 && i <= j + 1
  hint [C13] (i loop int, j loop int) forall a in s :: a < i || a > j ==> s[a] == old(s[len(s) - 1 - a])
  hint [C13] (i loop int, j loop int) forall a in s :: i <= a && a <= j ==> s[a] == old(s[a])

func (*Updater).preOrderDepthFirstWalk(update, targetPath) (r, err)
  modifies [C13] map(update.trusted.Targets), fetches, fetchURL, fetchMax, fetchErr, fetchData, fs, fsx, fswrites, storeFails, removeFails, trustedDoc
  modifies [C13] visits, visitRole, visitParent, visitDoc, visitAt
  requires [~C13] visits == 0
  ensures [~C13] fromTheTop() && visitedOnce()
  ensures [~C13] withinLimit(update.cfg.MaxDelegations)
  ensures [~C13] delegated(targetPath)
  ensures [~C13] err == nil ==> visits > 0 && targetPath in doc(visits - 1).Signed.Targets && r == doc(visits - 1).Signed.Targets[targetPath]
  ensures [~C13] notListed(visits - 1, targetPath)
  ensures [~C13] noneCutOff(targetPath)
  ensures [~C13] noneAfterEnd(targetPath)
  ensures [~C13] siblingsInOrder()
  ensures [~C13] nested()

func (*Updater).GetTargetInfo(update, targetPath) (r, err)
  modifies [C13] visits, visitRole, visitParent, visitDoc, visitAt
  requires [C13] visits == 0
  ensures [C13] fromTheTop() && visitedOnce()
  ensures [C13] withinLimit(update.cfg.MaxDelegations)
  ensures [C13] delegated(targetPath)
  ensures [C13] err == nil ==> visits > 0 && targetPath in doc(visits - 1).Signed.Targets && r == doc(visits - 1).Signed.Targets[targetPath]
  ensures [C13] notListed(visits - 1, targetPath)
  ensures [C13] noneCutOff(targetPath)
  ensures [C13] noneAfterEnd(targetPath)
  ensures [C13] siblingsInOrder()
  ensures [C13] nested()

// invariants of the walk
hint [C13] changed () visits >= 0
hint [C13] changed () fromTheTop()
hint [C13] changed () forall i int {visitRole[i]} :: 0 <= i && i < visits ==> visitAt[visitRole[i]] == i
hint [C13] changed (m map[string]bool) forall n string {(n in m)} :: n in m <==> seen(n)
hint [C13] changed (m map[string]bool) len(m) == visits
hint [C13] changed () withinLimit(update.cfg.MaxDelegations)
hint [C13] changed () delegated(targetPath)
hint [C13] changed () notListed(visits, targetPath)
hint [C13] changed () noneCutOff(targetPath)
hint [C13] changed () noneAfterEnd(targetPath)
hint [C13] changed () siblingsInOrder()
hint [C13] changed () nested()
hint [C13] changed (s loop []roleParentTuple) visits == 0 ==> len(s) == 1 && s[0].Role == "targets" && s[0].Parent == "root"
hint [C13] changed (s loop []roleParentTuple) visits > 0 ==> forall j in s :: follows(s[j].Parent, s[j].Role, targetPath)
hint [C13] changed (s loop []roleParentTuple) visits > 0 ==> forall j in s :: forall k in s :: j < k ==> visitAt[s[j].Parent] <= visitAt[s[k].Parent]
hint [C13] changed (s loop []roleParentTuple) visits > 0 ==> forall j in s :: forall q int {visitDoc[q]} :: visitAt[s[j].Parent] < q && q < visits ==> !closing(q, targetPath)
hint [C13] changed (s loop []roleParentTuple) visits > 0 ==> forall j in s :: forall q int {visitDoc[q]} :: visitAt[s[j].Parent] < q && q < visits - 1 ==> !closing(q, targetPath)
hint [C13] changed (s loop []roleParentTuple) visits > 0 ==> forall j in s :: forall n string {picks(parts(visitAt[s[j].Parent]), n, targetPath)} :: beforeEnd(parts(visitAt[s[j].Parent]), s[j].Role, n, targetPath)
hint [C13] changed (s loop []roleParentTuple) visits > 0 ==> forall j in s :: forall k in s :: j < k && s[j].Parent == s[k].Parent ==> siblings(parts(visitAt[s[j].Parent]), s[k].Role, s[j].Role)
hint [C13] changed (s loop []roleParentTuple) visits > 0 ==> forall j in s :: forall i int {visitParent[i]} :: 1 <= i && i < visits && visitParent[i] == s[j].Parent ==> siblings(parts(visitAt[s[j].Parent]), visitRole[i], s[j].Role)
hint [C13] changed (s loop []roleParentTuple) visits > 0 ==> forall j in s :: forall i int {visitParent[i]} :: 1 <= i && i < visits ==> visitAt[s[j].Parent] >= i || visitAt[s[j].Parent] <= visitAt[visitParent[i]]
hint [C13] changed (c loop []roleParentTuple, o []string) len(c) == iter && forall a in c :: c[a].Role == o[a] && c[a].Parent == visitRole[visits - 1]
hint [C13] changed (o []string) forall a in o :: a < iter ==> !ends(parts(visits - 1), o[a], targetPath)

hint [C13] changed (m map[string]bool) forall n string {(n in m)} :: n in m ==> m[n]
