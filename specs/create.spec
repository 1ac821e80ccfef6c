package metadata

// ---- C30: newly created metadata ----

pred givenExpiry(l []time.Time, t time.Time) bool = len(l) > 0 ? t == l[0] : clockReading(t)

hint [C30] (roles map[string]*Role, names []string, i int) forall j in names :: j <= i ==> newRole(names[j], roles)
hint [C30] (roles map[string]*Role, names []string, i int) forall j in names :: j < i ==> newRole(names[j], roles)
hint [C30] (roles map[string]*Role) forall a in roles :: forall b in roles :: a != b ==> roles[a] != roles[b]
hint [C30] (roles map[string]*Role) forall a in roles :: a == "root" || a == "snapshot" || a == "targets" || a == "timestamp"
pred newRole(k string, m map[string]*Role) bool = k in m && newRoleObj(m[k])
pred newRoleObj(r *Role) bool = r != nil && fresh(r) && r.Threshold == 1 && len(r.KeyIDs) == 0 && nonnil(r.KeyIDs)

func Root(expires) (m)
  ensures [C30] m != nil && fresh(m) && m.Signed.Type == "root" && m.Signed.SpecVersion == "1.0.31" && m.Signed.Version == 1 && len(m.Signatures) == 0
  ensures [C30] givenExpiry(expires, m.Signed.Expires)
  ensures [C30] nonnil(m.Signed.Keys) && fresh(m.Signed.Keys) && forall k string :: !(k in m.Signed.Keys)
  ensures [C30] fresh(m.Signed.Roles) && newRole("root", m.Signed.Roles) && newRole("snapshot", m.Signed.Roles) && newRole("targets", m.Signed.Roles) && newRole("timestamp", m.Signed.Roles)
  ensures [C30] forall k in m.Signed.Roles :: k == "root" || k == "snapshot" || k == "targets" || k == "timestamp"
  ensures [C30] forall a in m.Signed.Roles :: forall b in m.Signed.Roles :: a != b ==> m.Signed.Roles[a] != m.Signed.Roles[b]

func Snapshot(expires) (m)
  ensures [C30] m != nil && fresh(m) && m.Signed.Type == "snapshot" && m.Signed.SpecVersion == "1.0.31" && m.Signed.Version == 1 && len(m.Signatures) == 0
  ensures [C30] givenExpiry(expires, m.Signed.Expires)
  ensures [C30] fresh(m.Signed.Meta) && (forall k string :: k in m.Signed.Meta <==> k == "targets.json")
  ensures [C30] let f := m.Signed.Meta["targets.json"] :: f != nil && fresh(f) && f.Version == 1 && f.Length == 0 && len(f.Hashes) == 0

func Timestamp(expires) (m)
  ensures [C30] m != nil && fresh(m) && m.Signed.Type == "timestamp" && m.Signed.SpecVersion == "1.0.31" && m.Signed.Version == 1 && len(m.Signatures) == 0
  ensures [C30] givenExpiry(expires, m.Signed.Expires)
  ensures [C30] fresh(m.Signed.Meta) && (forall k string :: k in m.Signed.Meta <==> k == "snapshot.json")
  ensures [C30] let f := m.Signed.Meta["snapshot.json"] :: f != nil && fresh(f) && f.Version == 1 && f.Length == 0 && len(f.Hashes) == 0

func Targets(expires) (m)
  ensures [C30] m != nil && fresh(m) && m.Signed.Type == "targets" && m.Signed.SpecVersion == "1.0.31" && m.Signed.Version == 1 && len(m.Signatures) == 0
  ensures [C30] givenExpiry(expires, m.Signed.Expires)
  ensures [C30] nonnil(m.Signed.Targets) && fresh(m.Signed.Targets) && (forall k string :: !(k in m.Signed.Targets)) && m.Signed.Delegations == nil

func TargetFile() (f)
  ensures [C30] f != nil && fresh(f) && f.Length == 0 && nonnil(f.Hashes) && fresh(f.Hashes) && forall k string :: !(k in f.Hashes)

func MetaFile(version) (f)
  ensures [C30] f != nil && fresh(f) && f.Length == 0 && nonnil(f.Hashes) && fresh(f.Hashes) && (forall k string :: !(k in f.Hashes))
  ensures [C30] f.Version == (version < 1 ? 1 : version)
