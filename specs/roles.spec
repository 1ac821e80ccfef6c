package metadata

// ---- C19: adding and revoking keys ----

// rank(q, k, i): how many of the first i elements of q differ from k
ghost rank(fun[int,string], string, int) int
axiom forall q fun[int,string], k string {rank(q, k, 0)} :: rank(q, k, 0) == 0
axiom forall q fun[int,string], k string, i int {rank(q, k, i), q[i]} :: i >= 0 ==> rank(q, k, i + 1) == rank(q, k, i) + (q[i] == k ? 0 : 1)

// f is the first n elements of q without those equal to k, in the same order
pred without(f []string, q fun[int,string], k string, n int) bool = len(f) == rank(q, k, n) &&
  forall j int {q[j]} :: 0 <= j && j < n && q[j] != k ==> 0 <= rank(q, k, j) && rank(q, k, j) < len(f) && f[rank(q, k, j)] == q[j]
pred filtered(next []string, prev []string, k string) bool = without(next, old(seq(prev)), k, len(prev)) && forall j in next :: next[j] != k

// next is prev with k appended, unless prev already lists k: then next is prev
pred added(next []string, prev []string, k string) bool = k in next &&
  (old(k in prev) ==> next == prev) &&
  (!old(k in prev) ==> len(next) == len(prev) + 1 && next[len(prev)] == k && forall j in prev :: next[j] == old(prev[j]))

pred keysSame(next map[string]*Key, prev map[string]*Key) bool = next == prev && forall k string :: (k in next <==> old(k in prev)) && next[k] == old(prev[k])


func (*RootType).AddKey(signed, key, role) (err)
  requires key != nil
  modifies signed.Roles[role].KeyIDs, map(signed.Keys), key.id
  ensures [C19] err == nil <==> role in signed.Roles
  ensures [C19] err == nil ==> added(signed.Roles[role].KeyIDs, old(signed.Roles[role].KeyIDs), key.id)
  ensures [C19] err == nil ==> key.id in signed.Keys && signed.Keys[key.id] == key
  ensures [C19] forall k string :: k != key.id ==> (k in signed.Keys <==> old(k in signed.Keys)) && signed.Keys[k] == old(signed.Keys[k])
  ensures [C19] err != nil ==> keysSame(signed.Keys, old(signed.Keys)) && key.id == old(key.id) && signed.Roles[role].KeyIDs == old(signed.Roles[role].KeyIDs)
  ensures [C19] err == nil ==> (old(key.id) != "" ==> key.id == old(key.id))

hint [C19] (signed *RootType, kid string) forall r string :: visited(r) ==> !(kid in signed.Roles[r].KeyIDs)
func (*RootType).RevokeKey(signed, keyID, role) (err)
  hint [C19] (f loop []string) without(f, old(seq(signed.Roles[role].KeyIDs)), keyID, iter) && (iter < old(len(signed.Roles[role].KeyIDs)) ==> old(seq(signed.Roles[role].KeyIDs))[iter] == old(signed.Roles[role].KeyIDs[iter]))
  hint [C19] (f loop []string) forall j in f :: f[j] != keyID
  hint [C19] (b loop bool) b ==> exists r in signed.Roles :: keyID in signed.Roles[r].KeyIDs
  hint [C19] (b loop bool) forall r string {visited(r)} :: visited(r) && keyID in signed.Roles[r].KeyIDs ==> b
  hint [C19] (b loop bool) !b ==> exists r in signed.Roles :: keyID in signed.Roles[r].KeyIDs
  hint [C19] (b loop bool) forall r string {visited(r)} :: visited(r) && keyID in signed.Roles[r].KeyIDs ==> !b
  modifies signed.Roles[role].KeyIDs, map(signed.Keys)
  ensures [C19] err == nil <==> old(role in signed.Roles && keyID in signed.Roles[role].KeyIDs)
  ensures [C19] err == nil ==> filtered(signed.Roles[role].KeyIDs, old(signed.Roles[role].KeyIDs), keyID)
  ensures [C19] err == nil ==> (keyID in signed.Keys <==> old(keyID in signed.Keys) && exists r in signed.Roles :: keyID in signed.Roles[r].KeyIDs)
  ensures [C19] forall k string :: k in signed.Keys ==> old(k in signed.Keys) && signed.Keys[k] == old(signed.Keys[k])
  ensures [C19] forall k string :: k != keyID ==> (k in signed.Keys <==> old(k in signed.Keys))
  ensures [C19] err != nil ==> keysSame(signed.Keys, old(signed.Keys)) && signed.Roles[role].KeyIDs == old(signed.Roles[role].KeyIDs)

// ---- delegated roles ----

pred delegatesTo(d *Delegations, role string) bool = exists i in d.Roles :: d.Roles[i].Name == role
pred onlyOne(rs []DelegatedRole, i int) bool = forall j in rs :: j != i ==> rs[j].Name != rs[i].Name
// everything about the delegated roles other than their key identifiers
pred rolesKept(signed *TargetsType) bool = signed.Delegations == old(signed.Delegations) && (signed.Delegations != nil ==>
  signed.Delegations.Roles == old(signed.Delegations.Roles) && signed.Delegations.SuccinctRoles == old(signed.Delegations.SuccinctRoles) && signed.Delegations.Keys == old(signed.Delegations.Keys) &&
  forall i in signed.Delegations.Roles :: let r := signed.Delegations.Roles[i] :: let o := old(signed.Delegations.Roles[i]) ::
    r.Name == o.Name && r.Threshold == o.Threshold && r.Terminating == o.Terminating && r.Paths == o.Paths && r.PathHashPrefixes == o.PathHashPrefixes && r.UnrecognizedFields == o.UnrecognizedFields)
pred keyIDsKept(signed *TargetsType) bool = signed.Delegations != nil ==> (forall i in signed.Delegations.Roles :: signed.Delegations.Roles[i].KeyIDs == old(signed.Delegations.Roles[i].KeyIDs)) &&
  (signed.Delegations.SuccinctRoles != nil ==> signed.Delegations.SuccinctRoles.KeyIDs == old(signed.Delegations.SuccinctRoles.KeyIDs))

func (*TargetsType).AddKey(signed, key, role) (err)
  hint [C19] (found loop bool) found <==> exists j in signed.Delegations.Roles :: j < iter && signed.Delegations.Roles[j].Name == role
  hint [C19] () forall j in signed.Delegations.Roles :: j < iter && signed.Delegations.Roles[j].Name == role ==> key.id != "" && key.id in signed.Delegations.Roles[j].KeyIDs
  hint [C19] () old(key.id) != "" ==> key.id == old(key.id)
  hint [C19] () (forall j in signed.Delegations.Roles :: j < iter ==> signed.Delegations.Roles[j].Name != role) ==> key.id == old(key.id)
  requires key != nil
  modifies elems(signed.Delegations.Roles), signed.Delegations.SuccinctRoles.KeyIDs, map(signed.Delegations.Keys), key.id
  ensures [C19] err == nil <==> signed.Delegations != nil && (nonnil(signed.Delegations.Roles) ? old(delegatesTo(signed.Delegations, role)) : signed.Delegations.SuccinctRoles != nil)
  ensures [C19] rolesKept(signed)
  ensures [C19] err == nil && nonnil(signed.Delegations.Roles) ==> forall i in signed.Delegations.Roles :: let r := signed.Delegations.Roles[i] :: let o := old(signed.Delegations.Roles[i]) :: (r.Name != role ==> r.KeyIDs == o.KeyIDs) && (r.Name == role && onlyOne(signed.Delegations.Roles, i) ==> added(r.KeyIDs, o.KeyIDs, key.id))
  ensures [C19] err == nil && !nonnil(signed.Delegations.Roles) ==> added(signed.Delegations.SuccinctRoles.KeyIDs, old(signed.Delegations.SuccinctRoles.KeyIDs), key.id)
  ensures [C19] err == nil && nonnil(signed.Delegations.Roles) && signed.Delegations.SuccinctRoles != nil ==> signed.Delegations.SuccinctRoles.KeyIDs == old(signed.Delegations.SuccinctRoles.KeyIDs)
  ensures [C19] err == nil ==> key.id in signed.Delegations.Keys && signed.Delegations.Keys[key.id] == key
  ensures [C19] signed.Delegations != nil ==> forall k string :: k != key.id ==> (k in signed.Delegations.Keys <==> old(k in signed.Delegations.Keys)) && signed.Delegations.Keys[k] == old(signed.Delegations.Keys[k])
  ensures [C19] err != nil ==> keyIDsKept(signed) && key.id == old(key.id) && (signed.Delegations != nil ==> keysSame(signed.Delegations.Keys, old(signed.Delegations.Keys)))
  ensures [C19] err == nil ==> (old(key.id) != "" ==> key.id == old(key.id))

func (*TargetsType).RevokeKey(signed, keyID, role) (err)
  hint [C19] (f loop []string, r []string) (exists i in signed.Delegations.Roles :: signed.Delegations.Roles[i].Name == role && r == old(signed.Delegations.Roles[i].KeyIDs)) && without(f, old(seq(r)), keyID, iter) && (iter < len(r) ==> old(seq(r))[iter] == old(r[iter]))
  hint [C19] (f loop []string) nonnil(signed.Delegations.Roles) || without(f, old(seq(signed.Delegations.SuccinctRoles.KeyIDs)), keyID, iter) && (iter < old(len(signed.Delegations.SuccinctRoles.KeyIDs)) ==> old(seq(signed.Delegations.SuccinctRoles.KeyIDs))[iter] == old(signed.Delegations.SuccinctRoles.KeyIDs[iter]))
  hint [C19] (f loop []string) forall j in f :: f[j] != keyID
  hint [C19] () forall j in signed.Delegations.Roles :: j < iter ==> signed.Delegations.Roles[j].Name != role
  hint [C19] () forall j in signed.Delegations.Roles :: j < iter ==> !(keyID in signed.Delegations.Roles[j].KeyIDs)
  hint [C19] (b loop bool) b ==> exists j in signed.Delegations.Roles :: keyID in signed.Delegations.Roles[j].KeyIDs
  hint [C19] (b loop bool) forall j in signed.Delegations.Roles :: j < iter && keyID in signed.Delegations.Roles[j].KeyIDs ==> b
  hint [C19] (b loop bool) !b ==> exists j in signed.Delegations.Roles :: keyID in signed.Delegations.Roles[j].KeyIDs
  hint [C19] (b loop bool) forall j in signed.Delegations.Roles :: j < iter && keyID in signed.Delegations.Roles[j].KeyIDs ==> !b
  modifies elems(signed.Delegations.Roles), signed.Delegations.SuccinctRoles.KeyIDs, map(signed.Delegations.Keys)
  ensures [C19] err == nil ==> signed.Delegations != nil && (nonnil(signed.Delegations.Roles) ? old(delegatesTo(signed.Delegations, role)) : signed.Delegations.SuccinctRoles != nil && old(keyID in signed.Delegations.SuccinctRoles.KeyIDs))
  ensures [C19] signed.Delegations != nil && !nonnil(signed.Delegations.Roles) && signed.Delegations.SuccinctRoles != nil && old(keyID in signed.Delegations.SuccinctRoles.KeyIDs) ==> err == nil
  ensures [C19] rolesKept(signed)
  ensures [C19] signed.Delegations != nil && nonnil(signed.Delegations.Roles) ==> forall i in signed.Delegations.Roles :: signed.Delegations.Roles[i].Name == role && onlyOne(signed.Delegations.Roles, i) ==> (err == nil <==> old(keyID in signed.Delegations.Roles[i].KeyIDs))
  ensures [C19] err == nil && nonnil(signed.Delegations.Roles) ==> forall i in signed.Delegations.Roles :: let r := signed.Delegations.Roles[i] :: let o := old(signed.Delegations.Roles[i]) :: (r.Name != role ==> r.KeyIDs == o.KeyIDs) && (r.Name == role && onlyOne(signed.Delegations.Roles, i) ==> filtered(r.KeyIDs, o.KeyIDs, keyID))
  ensures [C19] err == nil && !nonnil(signed.Delegations.Roles) ==> filtered(signed.Delegations.SuccinctRoles.KeyIDs, old(signed.Delegations.SuccinctRoles.KeyIDs), keyID)
  ensures [C19] err == nil && nonnil(signed.Delegations.Roles) && signed.Delegations.SuccinctRoles != nil ==> signed.Delegations.SuccinctRoles.KeyIDs == old(signed.Delegations.SuccinctRoles.KeyIDs)
  ensures [C19] err == nil ==> (keyID in signed.Delegations.Keys <==> old(keyID in signed.Delegations.Keys) && nonnil(signed.Delegations.Roles) && exists i in signed.Delegations.Roles :: keyID in signed.Delegations.Roles[i].KeyIDs)
  ensures [C19] signed.Delegations != nil ==> forall k string :: (k in signed.Delegations.Keys ==> old(k in signed.Delegations.Keys) && signed.Delegations.Keys[k] == old(signed.Delegations.Keys[k])) && (k != keyID ==> (k in signed.Delegations.Keys <==> old(k in signed.Delegations.Keys)))
  ensures [C19] err != nil ==> keyIDsKept(signed) && (signed.Delegations != nil ==> keysSame(signed.Delegations.Keys, old(signed.Delegations.Keys)))
