package metadata

// ---- C08: loading ----

pred declares(text string, role string) bool = jmember(text, "signed") is map[string]any && jmember(text, "signed").(map[string]any)["_type"] is string && jmember(text, "signed").(map[string]any)["_type"].(string) == role
pred distinctKeys(s []Signature) bool = forall i in s :: forall j in s :: i < j ==> s[i].KeyID != s[j].KeyID

hint [C08] (l []string, s []Signature, i int) len(l) == i + 1 && forall j in s :: j <= i ==> l[j] == s[j].KeyID
hint [C08] (s []Signature, i int) forall a in s :: forall b in s :: a < b && b <= i ==> s[a].KeyID != s[b].KeyID
hint [C08] (m map[string]bool, s []Signature, i int) forall j in s :: j <= i ==> s[j].KeyID in m && m[s[j].KeyID]
hint [C08] (m map[string]struct{}, s []Signature, i int) forall j in s :: j <= i ==> s[j].KeyID in m

func fromBytes(data) (r, err)
  ensures [~C08] (err == nil) <==> (r != nil)
  ensures [~C08] err == nil ==> fresh(r) && r.Signed.Type == roleOf(conv(any, r)) && declares(bytes(data), roleOf(conv(any, r))) && distinctKeys(r.Signatures)

func (*Metadata).FromBytes(meta, data) (r, err)
  modifies *meta
  ensures [C08] err == nil ==> r == meta && declares(bytes(data), roleOf(conv(any, meta)))
  ensures [C08] err == nil ==> meta.Signed.Type == roleOf(conv(any, meta))
  ensures [C08] err == nil ==> distinctKeys(meta.Signatures)
  ensures [C08] err != nil ==> r == nil && meta.Signed == old(meta.Signed) && meta.Signatures == old(meta.Signatures) && meta.UnrecognizedFields == old(meta.UnrecognizedFields)

func (*Metadata).FromFile(meta, name) (r, err)
  modifies *meta
  ensures [C08] err == nil ==> r == meta && name in fsx && declares(fs[name], roleOf(conv(any, meta)))
  ensures [C08] err == nil ==> meta.Signed.Type == roleOf(conv(any, meta))
  ensures [C08] err == nil ==> distinctKeys(meta.Signatures)
  ensures [C08] err != nil ==> r == nil && meta.Signed == old(meta.Signed) && meta.Signatures == old(meta.Signatures) && meta.UnrecognizedFields == old(meta.UnrecognizedFields)

func checkUniqueSignatures(meta) (err)
  ensures [~C08] err == nil ==> distinctKeys(meta.Signatures)

