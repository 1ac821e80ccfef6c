package metadata

// ---- C06: no document crashes the client ----

pred wfRoot(m *Metadata[RootType]) bool = m != nil && (forall k in m.Signed.Keys :: m.Signed.Keys[k] != nil) && (forall k in m.Signed.Roles :: m.Signed.Roles[k] != nil)
pred wfTimestamp(m *Metadata[TimestampType]) bool = m != nil && forall k in m.Signed.Meta :: m.Signed.Meta[k] != nil
pred wfSnapshot(m *Metadata[SnapshotType]) bool = m != nil && forall k in m.Signed.Meta :: m.Signed.Meta[k] != nil
pred wfDelegations(d *Delegations) bool = d != nil ==> (forall k in d.Keys :: d.Keys[k] != nil) && (d.SuccinctRoles != nil ==> 1 <= d.SuccinctRoles.BitLength && d.SuccinctRoles.BitLength <= 32)
pred wfTargets(m *Metadata[TargetsType]) bool = m != nil && (forall k in m.Signed.Targets :: m.Signed.Targets[k] != nil) && wfDelegations(m.Signed.Delegations)
pred wfDoc(d any) bool = ((d is *Metadata[RootType]) ==> wfRoot(d.(*Metadata[RootType]))) && ((d is *Metadata[TimestampType]) ==> wfTimestamp(d.(*Metadata[TimestampType]))) &&
  ((d is *Metadata[SnapshotType]) ==> wfSnapshot(d.(*Metadata[SnapshotType]))) && ((d is *Metadata[TargetsType]) ==> wfTargets(d.(*Metadata[TargetsType])))

jsoninv [C06] RootType(v) = (forall k in v.Keys :: v.Keys[k] != nil) && (forall k in v.Roles :: v.Roles[k] != nil)
jsoninv [C06] TimestampType(v) = forall k in v.Meta :: v.Meta[k] != nil
jsoninv [C06] SnapshotType(v) = forall k in v.Meta :: v.Meta[k] != nil
jsoninv [C06] TargetsType(v) = (forall k in v.Targets :: v.Targets[k] != nil) && wfDelegations(v.Delegations)
jsoninv [C06] Delegations(v) = (forall k in v.Keys :: v.Keys[k] != nil) && (v.SuccinctRoles != nil ==> 1 <= v.SuccinctRoles.BitLength && v.SuccinctRoles.BitLength <= 32)
jsoninv [C06] SuccinctRoles(v) = 1 <= v.BitLength && v.BitLength <= 32

func (*RootType).UnmarshalJSON(v, data) (err)
  requires v != nil
  modifies *v
  nopanic [C06]
func (*TimestampType).UnmarshalJSON(v, data) (err)
  requires v != nil
  modifies *v
  nopanic [C06]
func (*SnapshotType).UnmarshalJSON(v, data) (err)
  requires v != nil
  modifies *v
  nopanic [C06]
func (*TargetsType).UnmarshalJSON(v, data) (err)
  requires v != nil
  modifies *v
  nopanic [C06]
func (*Delegations).UnmarshalJSON(v, data) (err)
  requires v != nil
  modifies *v
  nopanic [C06]
func (*SuccinctRoles).UnmarshalJSON(v, data) (err)
  requires v != nil
  modifies *v
  nopanic [C06]
func (*DelegatedRole).UnmarshalJSON(v, data) (err)
  requires v != nil
  modifies *v
  nopanic [C06]
func (*Role).UnmarshalJSON(v, data) (err)
  requires v != nil
  modifies *v
  nopanic [C06]
func (*Key).UnmarshalJSON(v, data) (err)
  requires v != nil
  modifies *v
  nopanic [C06]
func (*KeyVal).UnmarshalJSON(v, data) (err)
  requires v != nil
  modifies *v
  nopanic [C06]
func (*MetaFiles).UnmarshalJSON(v, data) (err)
  requires v != nil
  modifies *v
  nopanic [C06]
func (*TargetFiles).UnmarshalJSON(v, data) (err)
  requires v != nil
  modifies *v
  nopanic [C06]
func (*Signature).UnmarshalJSON(v, data) (err)
  requires v != nil
  modifies *v
  nopanic [C06]
func (*HexBytes).UnmarshalJSON(b, data) (err)
  requires [C06] b != nil
  nopanic [C06]

hint [C06] (m map[string]*Key) forall k string :: visited(k) && k in m ==> m[k] != nil
hint [C06] (m map[string]*Role) forall k string :: visited(k) && k in m ==> m[k] != nil
hint [C06] (m map[string]*MetaFiles) forall k string :: visited(k) && k in m ==> m[k] != nil
hint [C06] (m map[string]*TargetFiles) forall k string :: visited(k) && k in m ==> m[k] != nil

func (*Metadata).FromBytes(meta, data) (r, err)
  requires [C06] log != nil
  requires [C06] meta != nil
  ensures [C06] err == nil ==> r == meta && wfDoc(conv(any, r))
  ensures [C06] (err == nil) <==> (r != nil)
  nopanic [C06]
func (*Metadata).FromFile(meta, name) (r, err)
  requires [C06] log != nil
  requires [C06] meta != nil
  ensures [C06] err == nil ==> r == meta && wfDoc(conv(any, r))
  nopanic [C06]

func (*Key).ToPublicKey(k) (pub, err)
  requires [C06] k != nil
  nopanic [C06]
  ensures [C06] err == nil && (pub is ed25519.PublicKey) ==> len(pub.(ed25519.PublicKey)) == 32
func (*Metadata).VerifyDelegate(meta, role, delegated) (err)
  requires [C06] log != nil
  requires [C06] wfDoc(conv(any, meta)) && wfDoc(delegated)
  nopanic [C06]
func (*RootType).IsExpired(signed, referenceTime) (r)
  requires [C06] signed != nil
  nopanic [C06]
func (*TimestampType).IsExpired(signed, referenceTime) (r)
  requires [C06] signed != nil
  nopanic [C06]
func (*SnapshotType).IsExpired(signed, referenceTime) (r)
  requires [C06] signed != nil
  nopanic [C06]
func (*TargetsType).IsExpired(signed, referenceTime) (r)
  requires [C06] signed != nil
  nopanic [C06]
func (*MetaFiles).VerifyLengthHashes(f, data) (err)
  requires [C06] f != nil
  nopanic [C06]
func (*TargetFiles).VerifyLengthHashes(f, data) (err)
  requires [C06] f != nil
  nopanic [C06]
func (*DelegatedRole).IsDelegatedPath(role, path) (r, err)
  requires [C06] role != nil
  nopanic [C06]
func (*Delegations).GetRolesForTarget(role, path) (res)
  requires [C06] role != nil && wfDelegations(role)
  nopanic [C06]
func (*SuccinctRoles).GetRolesForTarget(role, path) (roles)
  requires [C06] role != nil && wellFormed(role)
  nopanic [C06]
func (*SuccinctRoles).IsDelegatedRole(role, name) (r)
  requires [C06] role != nil && wellFormed(role)
  nopanic [C06]

func (RootType).MarshalJSON(v) (r, err)
  nopanic [C06]
func (TimestampType).MarshalJSON(v) (r, err)
  nopanic [C06]
func (SnapshotType).MarshalJSON(v) (r, err)
  nopanic [C06]
func (TargetsType).MarshalJSON(v) (r, err)
  nopanic [C06]
func (Delegations).MarshalJSON(v) (r, err)
  nopanic [C06]
func (SuccinctRoles).MarshalJSON(v) (r, err)
  nopanic [C06]
func (DelegatedRole).MarshalJSON(v) (r, err)
  nopanic [C06]
func (Role).MarshalJSON(v) (r, err)
  nopanic [C06]
func (Key).MarshalJSON(v) (r, err)
  nopanic [C06]
func (KeyVal).MarshalJSON(v) (r, err)
  nopanic [C06]
func (MetaFiles).MarshalJSON(v) (r, err)
  nopanic [C06]
func (TargetFiles).MarshalJSON(v) (r, err)
  nopanic [C06]
func (Signature).MarshalJSON(v) (r, err)
  nopanic [C06]
func (HexBytes).MarshalJSON(b) (r, err)
  nopanic [C06]

package trustedmetadata

pred wfTrusted(t *TrustedMetadata) bool = t != nil && wfRoot(t.Root) && (t.Timestamp != nil ==> wfTimestamp(t.Timestamp) && "snapshot.json" in t.Timestamp.Signed.Meta) &&
  (t.Snapshot != nil ==> wfSnapshot(t.Snapshot)) && (t.Snapshot != nil ==> t.Timestamp != nil)
pred wfMap(t *TrustedMetadata) bool = nonnil(t.Targets) && (forall k in t.Targets :: t.Targets[k] != nil && allocated(t.Targets[k]))
pred wfNames(t *TrustedMetadata) bool = forall k in t.Targets :: forall n in t.Targets[k].Signed.Targets :: t.Targets[k].Signed.Targets[n] != nil
pred wfSigned(t *TrustedMetadata) bool = forall k in t.Targets :: wfDelegations(t.Targets[k].Signed.Delegations)

func New(rootData) (r, err)
  requires [C06] metadata.log != nil
  ensures [C06] err == nil ==> wfTrusted(r) && wfMap(r) && wfNames(r) && wfSigned(r)
  nopanic [C06]
func (*TrustedMetadata).UpdateRoot(trusted, rootData) (r, err)
  requires [C06] metadata.log != nil
  requires [C06] wfTrusted(trusted) && wfMap(trusted) && wfNames(trusted) && wfSigned(trusted)
  ensures [C06] wfTrusted(trusted)
  ensures [C06] wfMap(trusted)
  ensures [C06] wfNames(trusted)
  ensures [C06] wfSigned(trusted)
  nopanic [C06]
func (*TrustedMetadata).UpdateTimestamp(trusted, timestampData) (r, err)
  requires [C06] metadata.log != nil
  requires [C06] wfTrusted(trusted) && wfMap(trusted) && wfNames(trusted) && wfSigned(trusted)
  ensures [C06] wfTrusted(trusted)
  ensures [C06] wfMap(trusted)
  ensures [C06] wfNames(trusted)
  ensures [C06] wfSigned(trusted)
  nopanic [C06]
func (*TrustedMetadata).UpdateSnapshot(trusted, snapshotData, isTrusted) (r, err)
  requires [C06] metadata.log != nil
  requires [C06] wfTrusted(trusted) && wfMap(trusted) && wfNames(trusted) && wfSigned(trusted)
  ensures [C06] wfTrusted(trusted)
  ensures [C06] wfMap(trusted)
  ensures [C06] wfNames(trusted)
  ensures [C06] wfSigned(trusted)
  nopanic [C06]
func (*TrustedMetadata).UpdateDelegatedTargets(trusted, targetsData, roleName, delegatorName) (r, err)
  requires [C06] metadata.log != nil
  requires [C06] wfTrusted(trusted) && wfMap(trusted) && wfNames(trusted) && wfSigned(trusted)
  ensures [C06] wfTrusted(trusted)
  ensures [C06] wfMap(trusted)
  ensures [C06] wfNames(trusted)
  ensures [C06] wfSigned(trusted)
  nopanic [C06]
func (*TrustedMetadata).UpdateTargets(trusted, targetsData) (r, err)
  requires [C06] metadata.log != nil
  requires [C06] wfTrusted(trusted) && wfMap(trusted) && wfNames(trusted) && wfSigned(trusted)
  ensures [C06] wfTrusted(trusted)
  ensures [C06] wfMap(trusted)
  ensures [C06] wfNames(trusted)
  ensures [C06] wfSigned(trusted)
  nopanic [C06]
