package metadata

// ---- loading a document ----

pred roleOf(m any) string =
  (m is *Metadata[RootType]) ? "root" : (m is *Metadata[SnapshotType]) ? "snapshot" : (m is *Metadata[TimestampType]) ? "timestamp" : "targets"

func (*Metadata).FromBytes(meta, data) (r, err)
  modifies *meta
  ensures [~C02,~C03,~C04,~C05,~C27] err == nil ==> r == meta
  ensures [~C02,~C03,~C04,~C05,~C27] (err == nil) <==> (r != nil)

pred expired(t time.Time, ref time.Time) bool = after(ref, t)

// ---- C27: expiry ----

func (*RootType).IsExpired(signed, referenceTime) (r)
  ensures [C27] r <==> after(referenceTime, signed.Expires)
func (*TimestampType).IsExpired(signed, referenceTime) (r)
  ensures [C27] r <==> after(referenceTime, signed.Expires)
func (*SnapshotType).IsExpired(signed, referenceTime) (r)
  ensures [C27] r <==> after(referenceTime, signed.Expires)
func (*TargetsType).IsExpired(signed, referenceTime) (r)
  ensures [C27] r <==> after(referenceTime, signed.Expires)

package trustedmetadata

gvar trustedDoc fun[string,string]  // the document last accepted for each role

// ---- C02: root ----

ghost initialRoot(*TrustedMetadata) string      // the document a trusted set was created from

func New(rootData) (r, err)
  modifies trustedDoc
  defines err == nil ==> trustedDoc == upd(old(trustedDoc), "root", bytes(rootData))
  defines err != nil ==> trustedDoc == old(trustedDoc)
  defines err == nil ==> initialRoot(r) == bytes(rootData)
  ensures [C24] err == nil ==> r != nil && fresh(r)
  ensures [C02] (err == nil) <==> (r != nil)
  ensures [C02] err == nil ==> r.Root != nil && rootSigned(r.Root, "root", conv(any, r.Root))
  ensures [C02] err == nil ==> r.Root.Signed.Type == "root"
  ensures [C27] err == nil ==> clockReading(r.RefTime)
  ensures [C02] err == nil ==> r.Timestamp == nil && r.Snapshot == nil && forall k string :: !(k in r.Targets)

func (*TrustedMetadata).UpdateRoot(trusted, rootData) (r, err)
  modifies trusted.Root, trustedDoc
  defines err == nil ==> trustedDoc == upd(old(trustedDoc), "root", bytes(rootData))
  defines err != nil ==> trustedDoc == old(trustedDoc)
  ensures [^C14,^C16] true
  ensures [C27] trusted.RefTime == old(trusted.RefTime)
  ensures [C02] old(trusted.Timestamp) != nil ==> err != nil
  ensures [C02,~C15] err != nil ==> trusted.Root == old(trusted.Root) && r == nil
  ensures [C02] err == nil ==> r != nil && r == trusted.Root && fresh(r)
  ensures [C02,~C18,~C15] err == nil ==> trusted.Root.Signed.Version == old(trusted.Root.Signed.Version) + 1
  ensures [C02] err == nil ==> trusted.Root.Signed.Type == "root"
  ensures [C02] err == nil ==> rootSigned(old(trusted.Root), "root", conv(any, trusted.Root))
  ensures [C02] err == nil ==> rootSigned(trusted.Root, "root", conv(any, trusted.Root))

// ---- C03: timestamp ----

pred snapOf(t *TrustedMetadata) *metadata.MetaFiles = t.Timestamp.Signed.Meta["snapshot.json"]

func (*TrustedMetadata).UpdateTimestamp(trusted, timestampData) (r, err)
  modifies trusted.Timestamp, trustedDoc
  defines err == nil ==> trustedDoc == upd(old(trustedDoc), "timestamp", bytes(timestampData))
  defines err != nil ==> trustedDoc == old(trustedDoc)
  ensures [C03,^C16] trusted.Timestamp != old(trusted.Timestamp) ==> trusted.Timestamp != nil && fresh(trusted.Timestamp) && trusted.Timestamp.Signed.Type == "timestamp"
  ensures [^C10,^C13,^C14,^C15,^C16,^C18] true
  ensures [C27,^C16,^C14] trusted.RefTime == old(trusted.RefTime)
  ensures [C03,C27,^C16] trusted.Timestamp != old(trusted.Timestamp) ==> trusted.Snapshot == nil && !expired(trusted.Root.Signed.Expires, trusted.RefTime)
  ensures [C03,^C16] trusted.Timestamp != old(trusted.Timestamp) ==> rootSigned(trusted.Root, "timestamp", conv(any, trusted.Timestamp))
  ensures [C03,^C16] trusted.Timestamp != old(trusted.Timestamp) ==> "snapshot.json" in trusted.Timestamp.Signed.Meta
  ensures [C03,^C16] trusted.Timestamp != old(trusted.Timestamp) && old(trusted.Timestamp) != nil ==> trusted.Timestamp.Signed.Version > old(trusted.Timestamp).Signed.Version && snapOf(trusted).Version >= old(snapOf(trusted).Version)
  ensures [^C14,C03,C27,^C16] err == nil ==> r == trusted.Timestamp && r != old(trusted.Timestamp) && !expired(r.Signed.Expires, trusted.RefTime)
  ensures [^C14,C03,C27,^C16] err != nil ==> r == nil && (trusted.Timestamp == old(trusted.Timestamp) || expired(trusted.Timestamp.Signed.Expires, trusted.RefTime) && err is metadata.ErrExpiredMetadata)

// ---- C04: snapshot ----

hint [C04] (o *metadata.Metadata[metadata.SnapshotType], n *metadata.Metadata[metadata.SnapshotType]) forall k string :: visited(k) ==> k in n.Signed.Meta && n.Signed.Meta[k].Version >= o.Signed.Meta[k].Version
hint [C04] (t *TrustedMetadata, n *metadata.Metadata[metadata.SnapshotType]) forall k string :: visited(k) ==> k in n.Signed.Meta && n.Signed.Meta[k].Version >= t.Snapshot.Signed.Meta[k].Version
hint [C04] (o map[string]*metadata.MetaFiles, n map[string]*metadata.MetaFiles) forall k string :: visited(k) ==> k in n && n[k].Version >= o[k].Version

func (*TrustedMetadata).UpdateSnapshot(trusted, snapshotData, isTrusted) (r, err)
  modifies trusted.Snapshot, trustedDoc
  defines err == nil ==> trustedDoc == upd(old(trustedDoc), "snapshot", bytes(snapshotData))
  defines err != nil ==> trustedDoc == old(trustedDoc)
  ensures [^C10,^C13,^C14,^C15,^C16,^C18] true
  ensures [C27,^C16,^C14] trusted.RefTime == old(trusted.RefTime)
  ensures [C04,^C16] trusted.Snapshot != old(trusted.Snapshot) ==> trusted.Snapshot != nil && fresh(trusted.Snapshot) && trusted.Snapshot.Signed.Type == "snapshot"
  ensures [^C14,C04,C27,^C16] trusted.Snapshot != old(trusted.Snapshot) ==> trusted.Timestamp != nil && !expired(trusted.Timestamp.Signed.Expires, trusted.RefTime) && trusted.Targets["targets"] == nil
  ensures [C04,^C16] trusted.Snapshot != old(trusted.Snapshot) && !isTrusted ==> (snapOf(trusted).Length == 0 || len(snapshotData) == snapOf(trusted).Length) && forall a in snapOf(trusted).Hashes :: digestOK(a, snapOf(trusted).Hashes[a], snapshotData)
  ensures [C04,^C16] trusted.Snapshot != old(trusted.Snapshot) ==> rootSigned(trusted.Root, "snapshot", conv(any, trusted.Snapshot))
  ensures [C04,^C16] trusted.Snapshot != old(trusted.Snapshot) && old(trusted.Snapshot) != nil ==> forall k in old(trusted.Snapshot).Signed.Meta :: k in trusted.Snapshot.Signed.Meta && trusted.Snapshot.Signed.Meta[k].Version >= old(trusted.Snapshot).Signed.Meta[k].Version
  ensures [^C14,C04,C27,^C16] err == nil ==> r == trusted.Snapshot && r != old(trusted.Snapshot) && !expired(r.Signed.Expires, trusted.RefTime) && r.Signed.Version == snapOf(trusted).Version
  ensures [C04,C27,^C16] err != nil ==> r == nil && (trusted.Snapshot == old(trusted.Snapshot) || expired(trusted.Snapshot.Signed.Expires, trusted.RefTime) || trusted.Snapshot.Signed.Version != snapOf(trusted).Version)

// ---- C05: targets ----

pred finalSnapshot(t *TrustedMetadata) bool = t.Snapshot != nil && !expired(t.Snapshot.Signed.Expires, t.RefTime) && t.Snapshot.Signed.Version == snapOf(t).Version
pred recorded(t *TrustedMetadata, role string) *metadata.MetaFiles = t.Snapshot.Signed.Meta[role + ".json"]

func (*TrustedMetadata).UpdateDelegatedTargets(trusted, targetsData, roleName, delegatorName) (r, err)
  modifies map(trusted.Targets), trustedDoc
  defines err == nil ==> trustedDoc == upd(old(trustedDoc), roleName, bytes(targetsData))
  defines err != nil ==> trustedDoc == old(trustedDoc)
  ensures [^C10,^C13,^C14,^C15,^C16,^C18] true
  ensures [C27,^C16,^C14] trusted.RefTime == old(trusted.RefTime)
  ensures [C05,^C16] err != nil ==> r == nil && forall k string :: (k in trusted.Targets <==> old(k in trusted.Targets)) && trusted.Targets[k] == old(trusted.Targets[k])
  ensures [C05,^C16] err == nil ==> forall k string :: k != roleName ==> (k in trusted.Targets <==> old(k in trusted.Targets)) && trusted.Targets[k] == old(trusted.Targets[k])
  ensures [C05,^C16] err == nil ==> r != nil && fresh(r) && roleName in trusted.Targets && trusted.Targets[roleName] == r && r.Signed.Type == "targets"
  ensures [C05,C27,^C16] err == nil ==> finalSnapshot(trusted) && roleName + ".json" in trusted.Snapshot.Signed.Meta
  ensures [C05,^C16] err == nil ==> (recorded(trusted, roleName).Length == 0 || len(targetsData) == recorded(trusted, roleName).Length) && forall a in recorded(trusted, roleName).Hashes :: digestOK(a, recorded(trusted, roleName).Hashes[a], targetsData)
  ensures [C05,C27,^C16] err == nil ==> r.Signed.Version == recorded(trusted, roleName).Version && !expired(r.Signed.Expires, trusted.RefTime)
  ensures [C05,^C16] err == nil && delegatorName == "root" ==> trusted.Root != nil && rootSigned(trusted.Root, roleName, conv(any, r))
  ensures [C05,^C16] err == nil && delegatorName != "root" ==> old(delegatorName in trusted.Targets) && targetsSigned(old(trusted.Targets[delegatorName]), roleName, conv(any, r))

func (*TrustedMetadata).UpdateTargets(trusted, targetsData) (r, err)
  modifies map(trusted.Targets), trustedDoc
  defines err == nil ==> trustedDoc == upd(old(trustedDoc), "targets", bytes(targetsData))
  defines err != nil ==> trustedDoc == old(trustedDoc)
  ensures [C27] trusted.RefTime == old(trusted.RefTime)
  ensures [C05] err != nil ==> r == nil && forall k string :: (k in trusted.Targets <==> old(k in trusted.Targets)) && trusted.Targets[k] == old(trusted.Targets[k])
  ensures [C05] err == nil ==> forall k string :: k != "targets" ==> (k in trusted.Targets <==> old(k in trusted.Targets)) && trusted.Targets[k] == old(trusted.Targets[k])
  ensures [C05] err == nil ==> r != nil && fresh(r) && "targets" in trusted.Targets && trusted.Targets["targets"] == r && r.Signed.Type == "targets"
  ensures [C05,C27] err == nil ==> finalSnapshot(trusted) && "targets.json" in trusted.Snapshot.Signed.Meta
  ensures [C05] err == nil ==> (recorded(trusted, "targets").Length == 0 || len(targetsData) == recorded(trusted, "targets").Length) && forall a in recorded(trusted, "targets").Hashes :: digestOK(a, recorded(trusted, "targets").Hashes[a], targetsData)
  ensures [C05,C27] err == nil ==> r.Signed.Version == recorded(trusted, "targets").Version && !expired(r.Signed.Expires, trusted.RefTime)
  ensures [C05] err == nil ==> trusted.Root != nil && rootSigned(trusted.Root, "targets", conv(any, r))
