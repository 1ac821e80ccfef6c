package metadata

// ---- C20: one encoder and one decoder for every part of a document ----

gvar encKeys fun[string,bool]   // what was encoded last as a JSON object: its members,
gvar encVals fun[string,any]    // their values,
gvar encText string             // the text
gvar encFails bool              // and whether that fails

pred encodedAs(r []byte, err error) bool = (err != nil <==> encFails) && (err == nil ==> bytes(r) == encText)

hint [C20] (s map[string]any, d map[string]any) forall k string {(k in d)} :: k in d <==> visited(k)
hint [C20] (s map[string]any, d map[string]any) forall k string :: visited(k) ==> k in s && d[k] == s[k]
hint [C20] (s map[string]any, d map[string]any) forall k string {(k in d)} :: k in d <==> entry(k in d) || visited(k)
hint [C20] (s map[string]any, d map[string]any) forall k string {d[k]} :: entry(k in d) ==> d[k] == entry(d[k])
hint [C20] (s map[string]any, d map[string]any) forall k string :: visited(k) ==> k in s && (!entry(k in d) ==> d[k] == s[k])

func (RootType).MarshalJSON(v) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] encodedAs(r, err)
  ensures [C20] encKeys["_type"] && encVals["_type"] == conv(any, v.Type)
  ensures [C20] encKeys["spec_version"] && encVals["spec_version"] == conv(any, v.SpecVersion)
  ensures [C20] encKeys["consistent_snapshot"] && encVals["consistent_snapshot"] == conv(any, v.ConsistentSnapshot)
  ensures [C20] encKeys["version"] && encVals["version"] == conv(any, v.Version)
  ensures [C20] encKeys["expires"] && encVals["expires"] == conv(any, v.Expires)
  ensures [C20] encKeys["keys"] && encVals["keys"] == conv(any, v.Keys)
  ensures [C20] encKeys["roles"] && encVals["roles"] == conv(any, v.Roles)
  ensures [C20] forall k string {encKeys[k]} :: !(k == "_type" || k == "spec_version" || k == "consistent_snapshot" || k == "version" || k == "expires" || k == "keys" || k == "roles") ==> (encKeys[k] <==> k in v.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == v.UnrecognizedFields[k])

func (*RootType).UnmarshalJSON(v, data) (err)
  modifies [C20] *v
  ensures [C20] err == nil ==> decoded(bytes(data), "_type", v.Type)
  ensures [C20] err == nil ==> decoded(bytes(data), "spec_version", v.SpecVersion)
  ensures [C20] err == nil ==> decoded(bytes(data), "consistent_snapshot", v.ConsistentSnapshot)
  ensures [C20] err == nil ==> decoded(bytes(data), "version", v.Version)
  ensures [C20] err == nil ==> decoded(bytes(data), "expires", v.Expires)
  ensures [C20] err == nil ==> decoded(bytes(data), "keys", v.Keys)
  ensures [C20] err == nil ==> decoded(bytes(data), "roles", v.Roles)
  ensures [C20] err == nil ==> forall k string {(k in v.UnrecognizedFields)} :: k in v.UnrecognizedFields <==> jhas(bytes(data), k) && !(k == "_type" || k == "spec_version" || k == "consistent_snapshot" || k == "version" || k == "expires" || k == "keys" || k == "roles")
  ensures [C20] err == nil ==> forall k string {v.UnrecognizedFields[k]} :: k in v.UnrecognizedFields ==> v.UnrecognizedFields[k] == jmember(bytes(data), k)

func (SnapshotType).MarshalJSON(v) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] encodedAs(r, err)
  ensures [C20] encKeys["_type"] && encVals["_type"] == conv(any, v.Type)
  ensures [C20] encKeys["spec_version"] && encVals["spec_version"] == conv(any, v.SpecVersion)
  ensures [C20] encKeys["version"] && encVals["version"] == conv(any, v.Version)
  ensures [C20] encKeys["expires"] && encVals["expires"] == conv(any, v.Expires)
  ensures [C20] encKeys["meta"] && encVals["meta"] == conv(any, v.Meta)
  ensures [C20] forall k string {encKeys[k]} :: !(k == "_type" || k == "spec_version" || k == "version" || k == "expires" || k == "meta") ==> (encKeys[k] <==> k in v.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == v.UnrecognizedFields[k])

func (*SnapshotType).UnmarshalJSON(v, data) (err)
  modifies [C20] *v
  ensures [C20] err == nil ==> decoded(bytes(data), "_type", v.Type)
  ensures [C20] err == nil ==> decoded(bytes(data), "spec_version", v.SpecVersion)
  ensures [C20] err == nil ==> decoded(bytes(data), "version", v.Version)
  ensures [C20] err == nil ==> decoded(bytes(data), "expires", v.Expires)
  ensures [C20] err == nil ==> decoded(bytes(data), "meta", v.Meta)
  ensures [C20] err == nil ==> forall k string {(k in v.UnrecognizedFields)} :: k in v.UnrecognizedFields <==> jhas(bytes(data), k) && !(k == "_type" || k == "spec_version" || k == "version" || k == "expires" || k == "meta")
  ensures [C20] err == nil ==> forall k string {v.UnrecognizedFields[k]} :: k in v.UnrecognizedFields ==> v.UnrecognizedFields[k] == jmember(bytes(data), k)

func (TimestampType).MarshalJSON(v) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] encodedAs(r, err)
  ensures [C20] encKeys["_type"] && encVals["_type"] == conv(any, v.Type)
  ensures [C20] encKeys["spec_version"] && encVals["spec_version"] == conv(any, v.SpecVersion)
  ensures [C20] encKeys["version"] && encVals["version"] == conv(any, v.Version)
  ensures [C20] encKeys["expires"] && encVals["expires"] == conv(any, v.Expires)
  ensures [C20] encKeys["meta"] && encVals["meta"] == conv(any, v.Meta)
  ensures [C20] forall k string {encKeys[k]} :: !(k == "_type" || k == "spec_version" || k == "version" || k == "expires" || k == "meta") ==> (encKeys[k] <==> k in v.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == v.UnrecognizedFields[k])

func (*TimestampType).UnmarshalJSON(v, data) (err)
  modifies [C20] *v
  ensures [C20] err == nil ==> decoded(bytes(data), "_type", v.Type)
  ensures [C20] err == nil ==> decoded(bytes(data), "spec_version", v.SpecVersion)
  ensures [C20] err == nil ==> decoded(bytes(data), "version", v.Version)
  ensures [C20] err == nil ==> decoded(bytes(data), "expires", v.Expires)
  ensures [C20] err == nil ==> decoded(bytes(data), "meta", v.Meta)
  ensures [C20] err == nil ==> forall k string {(k in v.UnrecognizedFields)} :: k in v.UnrecognizedFields <==> jhas(bytes(data), k) && !(k == "_type" || k == "spec_version" || k == "version" || k == "expires" || k == "meta")
  ensures [C20] err == nil ==> forall k string {v.UnrecognizedFields[k]} :: k in v.UnrecognizedFields ==> v.UnrecognizedFields[k] == jmember(bytes(data), k)

func (TargetsType).MarshalJSON(v) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] encodedAs(r, err)
  ensures [C20] encKeys["_type"] && encVals["_type"] == conv(any, v.Type)
  ensures [C20] encKeys["spec_version"] && encVals["spec_version"] == conv(any, v.SpecVersion)
  ensures [C20] encKeys["version"] && encVals["version"] == conv(any, v.Version)
  ensures [C20] encKeys["expires"] && encVals["expires"] == conv(any, v.Expires)
  ensures [C20] encKeys["targets"] && encVals["targets"] == conv(any, v.Targets)
  ensures [C20] (v.Delegations != nil ==> encKeys["delegations"] && encVals["delegations"] == conv(any, v.Delegations))
  ensures [C20] forall k string {encKeys[k]} :: !(k == "_type" || k == "spec_version" || k == "version" || k == "expires" || k == "targets" || k == "delegations") ==> (encKeys[k] <==> k in v.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == v.UnrecognizedFields[k])
  ensures [C20] (!(v.Delegations != nil) && encKeys["delegations"] ==> "delegations" in v.UnrecognizedFields)

func (*TargetsType).UnmarshalJSON(v, data) (err)
  modifies [C20] *v
  ensures [C20] err == nil ==> decoded(bytes(data), "_type", v.Type)
  ensures [C20] err == nil ==> decoded(bytes(data), "spec_version", v.SpecVersion)
  ensures [C20] err == nil ==> decoded(bytes(data), "version", v.Version)
  ensures [C20] err == nil ==> decoded(bytes(data), "expires", v.Expires)
  ensures [C20] err == nil ==> decoded(bytes(data), "targets", v.Targets)
  ensures [C20] err == nil ==> decoded(bytes(data), "delegations", v.Delegations)
  ensures [C20] err == nil ==> forall k string {(k in v.UnrecognizedFields)} :: k in v.UnrecognizedFields <==> jhas(bytes(data), k) && !(k == "_type" || k == "spec_version" || k == "version" || k == "expires" || k == "targets" || k == "delegations")
  ensures [C20] err == nil ==> forall k string {v.UnrecognizedFields[k]} :: k in v.UnrecognizedFields ==> v.UnrecognizedFields[k] == jmember(bytes(data), k)

func (MetaFiles).MarshalJSON(v) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] encodedAs(r, err)
  ensures [C20] (v.Length != 0 ==> encKeys["length"] && encVals["length"] == conv(any, v.Length))
  ensures [C20] (len(v.Hashes) != 0 ==> encKeys["hashes"] && encVals["hashes"] == conv(any, v.Hashes))
  ensures [C20] encKeys["version"] && encVals["version"] == conv(any, v.Version)
  ensures [C20] forall k string {encKeys[k]} :: !(k == "length" || k == "hashes" || k == "version") ==> (encKeys[k] <==> k in v.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == v.UnrecognizedFields[k])
  ensures [C20] (!(v.Length != 0) && encKeys["length"] ==> "length" in v.UnrecognizedFields)
  ensures [C20] (!(len(v.Hashes) != 0) && encKeys["hashes"] ==> "hashes" in v.UnrecognizedFields)

func (*MetaFiles).UnmarshalJSON(v, data) (err)
  modifies [C20] *v
  ensures [C20] err == nil ==> decoded(bytes(data), "length", v.Length)
  ensures [C20] err == nil ==> decoded(bytes(data), "hashes", v.Hashes)
  ensures [C20] err == nil ==> decoded(bytes(data), "version", v.Version)
  ensures [C20] err == nil ==> forall k string {(k in v.UnrecognizedFields)} :: k in v.UnrecognizedFields <==> jhas(bytes(data), k) && !(k == "length" || k == "hashes" || k == "version")
  ensures [C20] err == nil ==> forall k string {v.UnrecognizedFields[k]} :: k in v.UnrecognizedFields ==> v.UnrecognizedFields[k] == jmember(bytes(data), k)

func (TargetFiles).MarshalJSON(v) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] encodedAs(r, err)
  ensures [C20] encKeys["length"] && encVals["length"] == conv(any, v.Length)
  ensures [C20] encKeys["hashes"] && encVals["hashes"] == conv(any, v.Hashes)
  ensures [C20] (v.Custom != nil ==> encKeys["custom"] && encVals["custom"] == conv(any, v.Custom))
  ensures [C20] forall k string {encKeys[k]} :: !(k == "length" || k == "hashes" || k == "custom") ==> (encKeys[k] <==> k in v.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == v.UnrecognizedFields[k])
  ensures [C20] (!(v.Custom != nil) && encKeys["custom"] ==> "custom" in v.UnrecognizedFields)

func (*TargetFiles).UnmarshalJSON(v, data) (err)
  modifies [C20] *v
  ensures [C20] err == nil ==> decoded(bytes(data), "length", v.Length)
  ensures [C20] err == nil ==> decoded(bytes(data), "hashes", v.Hashes)
  ensures [C20] err == nil ==> decoded(bytes(data), "custom", v.Custom)
  ensures [C20] err == nil ==> forall k string {(k in v.UnrecognizedFields)} :: k in v.UnrecognizedFields <==> jhas(bytes(data), k) && !(k == "length" || k == "hashes" || k == "custom")
  ensures [C20] err == nil ==> forall k string {v.UnrecognizedFields[k]} :: k in v.UnrecognizedFields ==> v.UnrecognizedFields[k] == jmember(bytes(data), k)

func (Key).MarshalJSON(v) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] encodedAs(r, err)
  ensures [C20] encKeys["keytype"] && encVals["keytype"] == conv(any, v.Type)
  ensures [C20] encKeys["scheme"] && encVals["scheme"] == conv(any, v.Scheme)
  ensures [C20] encKeys["keyval"] && encVals["keyval"] == conv(any, v.Value)
  ensures [C20] forall k string {encKeys[k]} :: !(k == "keytype" || k == "scheme" || k == "keyval") ==> (encKeys[k] <==> k in v.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == v.UnrecognizedFields[k])

func (*Key).UnmarshalJSON(v, data) (err)
  modifies [C20] *v
  ensures [C20] err == nil ==> decoded(bytes(data), "keytype", v.Type)
  ensures [C20] err == nil ==> decoded(bytes(data), "scheme", v.Scheme)
  ensures [C20] err == nil ==> decoded(bytes(data), "keyval", v.Value)
  ensures [C20] err == nil ==> forall k string {(k in v.UnrecognizedFields)} :: k in v.UnrecognizedFields <==> jhas(bytes(data), k) && !(k == "keytype" || k == "scheme" || k == "keyval")
  ensures [C20] err == nil ==> forall k string {v.UnrecognizedFields[k]} :: k in v.UnrecognizedFields ==> v.UnrecognizedFields[k] == jmember(bytes(data), k)

func (Metadata).MarshalJSON(v) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] encodedAs(r, err)
  ensures [C20] encKeys["signed"] && encVals["signed"] == conv(any, v.Signed)
  ensures [C20] encKeys["signatures"] && encVals["signatures"] == conv(any, v.Signatures)
  ensures [C20] forall k string {encKeys[k]} :: !(k == "signed" || k == "signatures") ==> (encKeys[k] <==> k in v.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == v.UnrecognizedFields[k])

func (*Metadata).UnmarshalJSON(v, data) (err)
  modifies [C20] *v
  ensures [C20] err == nil ==> decoded(bytes(data), "signed", v.Signed)
  ensures [C20] err == nil ==> decoded(bytes(data), "signatures", v.Signatures)
  ensures [C20] err == nil ==> forall k string {(k in v.UnrecognizedFields)} :: k in v.UnrecognizedFields <==> jhas(bytes(data), k) && !(k == "signed" || k == "signatures")
  ensures [C20] err == nil ==> forall k string {v.UnrecognizedFields[k]} :: k in v.UnrecognizedFields ==> v.UnrecognizedFields[k] == jmember(bytes(data), k)

func (Signature).MarshalJSON(v) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] encodedAs(r, err)
  ensures [C20] encKeys["keyid"] && encVals["keyid"] == conv(any, v.KeyID)
  ensures [C20] encKeys["sig"] && encVals["sig"] == conv(any, v.Signature)
  ensures [C20] forall k string {encKeys[k]} :: !(k == "keyid" || k == "sig") ==> (encKeys[k] <==> k in v.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == v.UnrecognizedFields[k])

func (*Signature).UnmarshalJSON(v, data) (err)
  modifies [C20] *v
  ensures [C20] err == nil ==> decoded(bytes(data), "keyid", v.KeyID)
  ensures [C20] err == nil ==> decoded(bytes(data), "sig", v.Signature)
  ensures [C20] err == nil ==> forall k string {(k in v.UnrecognizedFields)} :: k in v.UnrecognizedFields <==> jhas(bytes(data), k) && !(k == "keyid" || k == "sig")
  ensures [C20] err == nil ==> forall k string {v.UnrecognizedFields[k]} :: k in v.UnrecognizedFields ==> v.UnrecognizedFields[k] == jmember(bytes(data), k)

func (KeyVal).MarshalJSON(v) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] encodedAs(r, err)
  ensures [C20] encKeys["public"] && encVals["public"] == conv(any, v.PublicKey)
  ensures [C20] forall k string {encKeys[k]} :: !(k == "public") ==> (encKeys[k] <==> k in v.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == v.UnrecognizedFields[k])

func (*KeyVal).UnmarshalJSON(v, data) (err)
  modifies [C20] *v
  ensures [C20] err == nil ==> decoded(bytes(data), "public", v.PublicKey)
  ensures [C20] err == nil ==> forall k string {(k in v.UnrecognizedFields)} :: k in v.UnrecognizedFields <==> jhas(bytes(data), k) && !(k == "public")
  ensures [C20] err == nil ==> forall k string {v.UnrecognizedFields[k]} :: k in v.UnrecognizedFields ==> v.UnrecognizedFields[k] == jmember(bytes(data), k)

func (Role).MarshalJSON(v) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] encodedAs(r, err)
  ensures [C20] encKeys["keyids"] && encVals["keyids"] == conv(any, v.KeyIDs)
  ensures [C20] encKeys["threshold"] && encVals["threshold"] == conv(any, v.Threshold)
  ensures [C20] forall k string {encKeys[k]} :: !(k == "keyids" || k == "threshold") ==> (encKeys[k] <==> k in v.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == v.UnrecognizedFields[k])

func (*Role).UnmarshalJSON(v, data) (err)
  modifies [C20] *v
  ensures [C20] err == nil ==> decoded(bytes(data), "keyids", v.KeyIDs)
  ensures [C20] err == nil ==> decoded(bytes(data), "threshold", v.Threshold)
  ensures [C20] err == nil ==> forall k string {(k in v.UnrecognizedFields)} :: k in v.UnrecognizedFields <==> jhas(bytes(data), k) && !(k == "keyids" || k == "threshold")
  ensures [C20] err == nil ==> forall k string {v.UnrecognizedFields[k]} :: k in v.UnrecognizedFields ==> v.UnrecognizedFields[k] == jmember(bytes(data), k)

func (Delegations).MarshalJSON(v) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] encodedAs(r, err)
  ensures [C20] encKeys["keys"] && encVals["keys"] == conv(any, v.Keys)
  ensures [C20] (nonnil(v.Roles) ==> encKeys["roles"] && encVals["roles"] == conv(any, v.Roles))
  ensures [C20] (!nonnil(v.Roles) && v.SuccinctRoles != nil ==> encKeys["succinct_roles"] && encVals["succinct_roles"] == conv(any, v.SuccinctRoles))
  ensures [C20] forall k string {encKeys[k]} :: !(k == "keys" || k == "roles" || k == "succinct_roles") ==> (encKeys[k] <==> k in v.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == v.UnrecognizedFields[k])
  ensures [C20] (!(nonnil(v.Roles)) && encKeys["roles"] ==> "roles" in v.UnrecognizedFields)
  ensures [C20] (!(!nonnil(v.Roles) && v.SuccinctRoles != nil) && encKeys["succinct_roles"] ==> "succinct_roles" in v.UnrecognizedFields)

func (*Delegations).UnmarshalJSON(v, data) (err)
  modifies [C20] *v
  ensures [C20] err == nil ==> decoded(bytes(data), "keys", v.Keys)
  ensures [C20] err == nil ==> decoded(bytes(data), "roles", v.Roles)
  ensures [C20] err == nil ==> decoded(bytes(data), "succinct_roles", v.SuccinctRoles)
  ensures [C20] err == nil ==> forall k string {(k in v.UnrecognizedFields)} :: k in v.UnrecognizedFields <==> jhas(bytes(data), k) && !(k == "keys" || k == "roles" || k == "succinct_roles")
  ensures [C20] err == nil ==> forall k string {v.UnrecognizedFields[k]} :: k in v.UnrecognizedFields ==> v.UnrecognizedFields[k] == jmember(bytes(data), k)

func (DelegatedRole).MarshalJSON(v) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] nonnil(v.Paths) && nonnil(v.PathHashPrefixes) ==> err != nil
  ensures [C20] !(nonnil(v.Paths) && nonnil(v.PathHashPrefixes)) ==> encodedAs(r, err)
  ensures [C20] !(nonnil(v.Paths) && nonnil(v.PathHashPrefixes)) ==> encKeys["name"] && encVals["name"] == conv(any, v.Name)
  ensures [C20] !(nonnil(v.Paths) && nonnil(v.PathHashPrefixes)) ==> encKeys["keyids"] && encVals["keyids"] == conv(any, v.KeyIDs)
  ensures [C20] !(nonnil(v.Paths) && nonnil(v.PathHashPrefixes)) ==> encKeys["threshold"] && encVals["threshold"] == conv(any, v.Threshold)
  ensures [C20] !(nonnil(v.Paths) && nonnil(v.PathHashPrefixes)) ==> encKeys["terminating"] && encVals["terminating"] == conv(any, v.Terminating)
  ensures [C20] !(nonnil(v.Paths) && nonnil(v.PathHashPrefixes)) ==> (nonnil(v.Paths) ==> encKeys["paths"] && encVals["paths"] == conv(any, v.Paths))
  ensures [C20] !(nonnil(v.Paths) && nonnil(v.PathHashPrefixes)) ==> (!nonnil(v.Paths) && nonnil(v.PathHashPrefixes) ==> encKeys["path_hash_prefixes"] && encVals["path_hash_prefixes"] == conv(any, v.PathHashPrefixes))
  ensures [C20] !(nonnil(v.Paths) && nonnil(v.PathHashPrefixes)) ==> forall k string {encKeys[k]} :: !(k == "name" || k == "keyids" || k == "threshold" || k == "terminating" || k == "paths" || k == "path_hash_prefixes") ==> (encKeys[k] <==> k in v.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == v.UnrecognizedFields[k])
  ensures [C20] !(nonnil(v.Paths) && nonnil(v.PathHashPrefixes)) ==> (!(nonnil(v.Paths)) && encKeys["paths"] ==> "paths" in v.UnrecognizedFields)
  ensures [C20] !(nonnil(v.Paths) && nonnil(v.PathHashPrefixes)) ==> (!(!nonnil(v.Paths) && nonnil(v.PathHashPrefixes)) && encKeys["path_hash_prefixes"] ==> "path_hash_prefixes" in v.UnrecognizedFields)

func (*DelegatedRole).UnmarshalJSON(v, data) (err)
  modifies [C20] *v
  ensures [C20] err == nil ==> decoded(bytes(data), "name", v.Name)
  ensures [C20] err == nil ==> decoded(bytes(data), "keyids", v.KeyIDs)
  ensures [C20] err == nil ==> decoded(bytes(data), "threshold", v.Threshold)
  ensures [C20] err == nil ==> decoded(bytes(data), "terminating", v.Terminating)
  ensures [C20] err == nil ==> decoded(bytes(data), "paths", v.Paths)
  ensures [C20] err == nil ==> decoded(bytes(data), "path_hash_prefixes", v.PathHashPrefixes)
  ensures [C20] err == nil ==> forall k string {(k in v.UnrecognizedFields)} :: k in v.UnrecognizedFields <==> jhas(bytes(data), k) && !(k == "name" || k == "keyids" || k == "threshold" || k == "terminating" || k == "paths" || k == "path_hash_prefixes")
  ensures [C20] err == nil ==> forall k string {v.UnrecognizedFields[k]} :: k in v.UnrecognizedFields ==> v.UnrecognizedFields[k] == jmember(bytes(data), k)

func (SuccinctRoles).MarshalJSON(v) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] encodedAs(r, err)
  ensures [C20] encKeys["keyids"] && encVals["keyids"] == conv(any, v.KeyIDs)
  ensures [C20] encKeys["threshold"] && encVals["threshold"] == conv(any, v.Threshold)
  ensures [C20] encKeys["bit_length"] && encVals["bit_length"] == conv(any, v.BitLength)
  ensures [C20] encKeys["name_prefix"] && encVals["name_prefix"] == conv(any, v.NamePrefix)
  ensures [C20] forall k string {encKeys[k]} :: !(k == "keyids" || k == "threshold" || k == "bit_length" || k == "name_prefix") ==> (encKeys[k] <==> k in v.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == v.UnrecognizedFields[k])

func (*SuccinctRoles).UnmarshalJSON(v, data) (err)
  modifies [C20] *v
  ensures [C20] err == nil ==> decoded(bytes(data), "keyids", v.KeyIDs)
  ensures [C20] err == nil ==> decoded(bytes(data), "threshold", v.Threshold)
  ensures [C20] err == nil ==> decoded(bytes(data), "bit_length", v.BitLength)
  ensures [C20] err == nil ==> decoded(bytes(data), "name_prefix", v.NamePrefix)
  ensures [C20] err == nil ==> forall k string {(k in v.UnrecognizedFields)} :: k in v.UnrecognizedFields <==> jhas(bytes(data), k) && !(k == "keyids" || k == "threshold" || k == "bit_length" || k == "name_prefix")
  ensures [C20] err == nil ==> forall k string {v.UnrecognizedFields[k]} :: k in v.UnrecognizedFields ==> v.UnrecognizedFields[k] == jmember(bytes(data), k)


func (*Metadata).ToBytes(meta, pretty) (r, err)
  modifies [C20] encKeys, encVals, encText, encFails
  ensures [C20] err == nil ==> jmean(bytes(r)) == jmean(encText) && encKeys["signed"] && encVals["signed"] == conv(any, meta.Signed) && encKeys["signatures"] && encVals["signatures"] == conv(any, meta.Signatures)
  ensures [C20] err == nil ==> forall k string {encKeys[k]} :: k != "signed" && k != "signatures" ==> (encKeys[k] <==> k in meta.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == meta.UnrecognizedFields[k])

func (*Metadata).ToFile(meta, name, pretty) (err)
  modifies [C20] encKeys, encVals, encText, encFails
  modifies [C20] fs, fsx, fswrites, storeFails, removeFails
  ensures [C20] err == nil ==> name in fsx && jmean(fs[name]) == jmean(encText) && encKeys["signed"] && encVals["signed"] == conv(any, meta.Signed) && encKeys["signatures"] && encVals["signatures"] == conv(any, meta.Signatures)
  ensures [C20] err == nil ==> forall k string {encKeys[k]} :: k != "signed" && k != "signatures" ==> (encKeys[k] <==> k in meta.UnrecognizedFields) && (encKeys[k] ==> encVals[k] == meta.UnrecognizedFields[k])

func (*Metadata).FromBytes(meta, data) (r, err)
  modifies [C20] *meta
  ensures [C20] err == nil ==> r == meta && decoded(bytes(data), "signed", meta.Signed) && decoded(bytes(data), "signatures", meta.Signatures)
  ensures [C20] err == nil ==> forall k string {(k in meta.UnrecognizedFields)} :: k in meta.UnrecognizedFields <==> jhas(bytes(data), k) && k != "signed" && k != "signatures"
  ensures [C20] err == nil ==> forall k string {meta.UnrecognizedFields[k]} :: k in meta.UnrecognizedFields ==> meta.UnrecognizedFields[k] == jmember(bytes(data), k)

func (*Metadata).FromFile(meta, name) (r, err)
  modifies [C20] *meta
  ensures [C20] err == nil ==> r == meta && decoded(fs[name], "signed", meta.Signed) && decoded(fs[name], "signatures", meta.Signatures)
  ensures [C20] err == nil ==> forall k string {(k in meta.UnrecognizedFields)} :: k in meta.UnrecognizedFields <==> jhas(fs[name], k) && k != "signed" && k != "signatures"
  ensures [C20] err == nil ==> forall k string {meta.UnrecognizedFields[k]} :: k in meta.UnrecognizedFields ==> meta.UnrecognizedFields[k] == jmember(fs[name], k)

