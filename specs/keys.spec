package metadata

// ---- C22: key conversion and identifiers ----

// the identifier of a key object that has not computed it yet
pred keyID(k *Key) string = hex.EncodeToString(sha256.Sum256(deep("canon", k)))

func (*Key).ID(k) (id)
  modifies k.id
  ensures [C22,~C19,~C28] id == k.id
  ensures [C22,~C19] old(k.id) != "" ==> id == old(k.id)
  ensures [C22,~C28] old(k.id) == "" ==> id == old(keyID(k))
  ensures [C22,~C19] id != ""

// the metadata form of a public key
pred keyOf(k *Key, pub any) bool =
  ((pub is *rsa.PublicKey) && k.Type == "rsa" && k.Scheme == "rsassa-pss-sha256" && k.Value.PublicKey == pemOf(keyval(pub))) ||
  ((pub is *ecdsa.PublicKey) && k.Type == "ecdsa" && k.Scheme == "ecdsa-sha2-nistp256" && k.Value.PublicKey == pemOf(keyval(pub))) ||
  ((pub is ed25519.PublicKey) && k.Type == "ed25519" && k.Scheme == "ed25519" && k.Value.PublicKey == hex.EncodeToString(bytes(pub.(ed25519.PublicKey))))

func KeyFromPublicKey(k) (key, err)
  ensures [C22,~C28] (err == nil) <==> (key != nil)
  ensures [C22,~C28] err == nil ==> fresh(key) && keyOf(key, k)
  ensures [C22,~C28] err == nil ==> key.id == "" && !nonnil(key.UnrecognizedFields) && !nonnil(key.Value.UnrecognizedFields)
  ensures [C22] (k is ed25519.PublicKey) ==> err == nil

func (*Key).ToPublicKey(k) (pub, err)
  ensures [C22] err == nil ==> pub != nil && keyval(pub) == metaKey(k.Type, k.Value.PublicKey)
  ensures [C22] err != nil ==> pub == nil
  ensures [C22] err == nil ==> k.Type == "rsa" || k.Type == "ecdsa" || k.Type == "ecdsa-sha2-nistp256" || k.Type == "ed25519"
  ensures [C22] err == nil && k.Type == "rsa" ==> pub is *rsa.PublicKey
  ensures [C22] err == nil && (k.Type == "ecdsa" || k.Type == "ecdsa-sha2-nistp256") ==> pub is *ecdsa.PublicKey
  ensures [C22] err == nil && k.Type == "ed25519" ==> (pub is ed25519.PublicKey) && len(pub.(ed25519.PublicKey)) == 32

// ---- C28: signing ----

func (*Metadata).Sign(meta, signer) (sig, err)
  modifies meta.Signatures
  ensures [C28] (err == nil) <==> (sig != nil)
  ensures [C28] err != nil ==> meta.Signatures == old(meta.Signatures)
  ensures [C28] err == nil ==> len(meta.Signatures) == old(len(meta.Signatures)) + 1
  ensures [C28] err == nil ==> forall i in meta.Signatures :: i < old(len(meta.Signatures)) ==> meta.Signatures[i] == old(meta.Signatures[i])
  ensures [C28] err == nil ==> let s := meta.Signatures[old(len(meta.Signatures))] :: s == *sig && bytes(s.Signature) == signOf(conv(any, signer), old(deep("canon", conv(any, meta.Signed))))
  ensures [C28] err == nil ==> forall k *Key :: k != nil && keyOf(k, signerKey(conv(any, signer))) && k.id == "" && !nonnil(k.UnrecognizedFields) && !nonnil(k.Value.UnrecognizedFields) ==> sig.KeyID == keyID(k)

func (*Metadata).ClearSignatures(meta)
  modifies meta.Signatures
  ensures [C28] len(meta.Signatures) == 0

// ---- C21: hexadecimal bytes ----

pred quoted(s string) bool = len(s) >= 2 && s[0] == 34 && s[len(s)-1] == 34
pred inner(s string) string = s[1:len(s)-1]
pred hexText(s string) bool = hex.DecodeString#1(s) == nil

func (*HexBytes).UnmarshalJSON(b, data) (err)
  modifies *b
  ensures [C21] err != nil ==> *b == old(*b)
  ensures [C21] err == nil <==> quoted(bytes(data)) && hexText(inner(bytes(data)))
  ensures [C21] err == nil ==> bytes(*b) == hex.DecodeString(inner(bytes(data)))

func (HexBytes).MarshalJSON(b) (r, err)
  ensures [C21] err == nil && bytes(r) == "\"" + hex.EncodeToString(bytes(b)) + "\""

func (HexBytes).String(b) (s)
  ensures [C21] s == hex.EncodeToString(bytes(b))
