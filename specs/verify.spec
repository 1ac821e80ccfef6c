package metadata

// ---- C01: threshold of signatures ----

// the public key that a key object of the metadata format denotes
pred metaKey(typ string, val string) $pk = typ == "ed25519" ? edkey(hex.DecodeString(val)) : pemkey(val)
pred keyHash(typ string) int = typ == "ed25519" ? 0 : 5

func (*Key).ToPublicKey(k) (pub, err)
  ensures [~C01,~C02,~C03,~C04,~C05] err == nil ==> pub != nil
  ensures [~C01,~C02,~C03,~C04,~C05] err == nil ==> keyval(pub) == metaKey(k.Type, k.Value.PublicKey)

// the signatures and the signed bytes of a metadata object of any role
pred sigsOf(d any) []Signature =
  (d is *Metadata[RootType]) ? d.(*Metadata[RootType]).Signatures :
  (d is *Metadata[SnapshotType]) ? d.(*Metadata[SnapshotType]).Signatures :
  (d is *Metadata[TimestampType]) ? d.(*Metadata[TimestampType]).Signatures :
  d.(*Metadata[TargetsType]).Signatures
pred msgOf(d any) string =
  (d is *Metadata[RootType]) ? deep("canon", conv(any, d.(*Metadata[RootType]).Signed)) :
  (d is *Metadata[SnapshotType]) ? deep("canon", conv(any, d.(*Metadata[SnapshotType]).Signed)) :
  (d is *Metadata[TimestampType]) ? deep("canon", conv(any, d.(*Metadata[TimestampType]).Signed)) :
  deep("canon", conv(any, d.(*Metadata[TargetsType]).Signed))

// key k of the key store made a valid signature over d that carries its ID
pred goodKey(keys map[string]*Key, k string, d any) bool = k in keys &&
  exists j in sigsOf(d) :: sigsOf(d)[j].KeyID == k && sigOK(metaKey(keys[k].Type, keys[k].Value.PublicKey), keyHash(keys[k].Type), bytes(sigsOf(d)[j].Signature), msgOf(d))

// at least n distinct authorised keys signed d
pred thresholdMet(keys map[string]*Key, ids []string, n int, d any) bool =
  card(set k string :: k in ids && goodKey(keys, k, d)) >= n

// the delegations of a targets metadata vouch for d as role r
pred targetsSigned(m *Metadata[TargetsType], r string, d any) bool = m.Signed.Delegations != nil &&
  (nonnil(m.Signed.Delegations.Roles) ==>
    exists i in m.Signed.Delegations.Roles :: m.Signed.Delegations.Roles[i].Name == r &&
      thresholdMet(m.Signed.Delegations.Keys, m.Signed.Delegations.Roles[i].KeyIDs, m.Signed.Delegations.Roles[i].Threshold, d)) &&
  (!nonnil(m.Signed.Delegations.Roles) ==> m.Signed.Delegations.SuccinctRoles != nil &&
      thresholdMet(m.Signed.Delegations.Keys, m.Signed.Delegations.SuccinctRoles.KeyIDs, m.Signed.Delegations.SuccinctRoles.Threshold, d))

// root vouches for d as role r
pred rootSigned(root *Metadata[RootType], r string, d any) bool =
  r in root.Signed.Roles && thresholdMet(root.Signed.Keys, root.Signed.Roles[r].KeyIDs, root.Signed.Roles[r].Threshold, d)

hint [C01,C02,C03,C04,C05] (s Signature, kid string, sl []Signature) s == zero(Signature) || exists j in sl :: sl[j] == s && s.KeyID == kid

func (*Metadata).VerifyDelegate(meta, role, delegated) (err)
  hint [C01,C02,C03,C04,C05] (m map[string]bool, keys map[string]*Key, ids []string) forall k in m :: k in ids && goodKey(keys, k, delegated)
  ensures [~C27] true
  ensures [C01] [T=SnapshotType] err != nil
  ensures [C01] [T=TimestampType] err != nil
  ensures [C01,~C02,~C03,~C04,~C05] [T=RootType] err == nil ==> rootSigned(meta, role, delegated)
  ensures [C01,~C05] [T=TargetsType] err == nil ==> targetsSigned(meta, role, delegated)
