// Assumed contracts on the standard library and third-party dependencies.
// Every contract in this file is an assumption of the proofs (reported as such
// in the evidence); nothing here describes code of the repository.

package metadata

// ---- hashing ----
gvar hacc fun[any,string] volatile          // bytes written so far into each hash.Hash
ghost hkind(any) string            // algorithm of a hash.Hash
ghost infallible(any) bool           // readers whose reads cannot fail
ghost digest(string, string) string
axiom forall s string :: digest("sha256", s) == sha256.Sum256(s)

extern sha256.New() (h)
  modifies hacc
  ensures h != nil && hkind(h) == "sha256" && hacc == upd(old(hacc), h, "")
extern sha512.New() (h)
  modifies hacc
  ensures h != nil && hkind(h) == "sha512" && hacc == upd(old(hacc), h, "")
extern hash.Hash.Write(h, p) (n, err)
  modifies hacc
  ensures err == nil && n == len(p) && hacc == upd(old(hacc), h, old(hacc)[h] + bytes(p))
extern io.Writer.Write(h, p) (n, err)
  modifies hacc
  ensures hkind(h) != "" ==> err == nil
  ensures n == len(p) && hacc == upd(old(hacc), h, old(hacc)[h] + bytes(p))
extern hash.Hash.Sum(h, b) (r)
  ensures fresh(r) && bytes(r) == bytes(b) + digest(hkind(h), hacc[h])

// ---- readers ----
gvar rem fun[any,string] volatile           // unread content of each reader

extern bytes.NewReader(b) (r)
  modifies rem
  ensures r != nil && fresh(r) && infallible(conv(any, r)) && rem == upd(old(rem), conv(any, r), bytes(b))
extern io.LimitReader(r, n) (l)
  modifies rem
  ensures l != nil
  ensures n >= len(old(rem)[r]) ==> rem == upd(old(rem), l, old(rem)[r])
  ensures 0 <= n && n < len(old(rem)[r]) ==> rem == upd(old(rem), l, old(rem)[r][:n])
  ensures n < 0 ==> rem == upd(old(rem), l, "")
gvar bytesRead int volatile        // bytes asked of the readers given to io.ReadAll
gvar readFails int volatile        // reads that failed
extern io.ReadAll(r) (data, err)
  modifies rem, bytesRead, readFails
  ensures old(bytesRead) <= bytesRead && bytesRead <= old(bytesRead) + len(old(rem)[r])
  ensures err == nil ==> readFails == old(readFails)
  ensures err != nil ==> readFails == old(readFails) + 1
  ensures fresh(data)
  ensures err == nil ==> bytes(data) == old(rem)[r]
  ensures infallible(r) ==> err == nil
axiom forall s string {hex.EncodeToString(s)} :: hexdec(hex.EncodeToString(s)) == s
axiom forall s string {hex.EncodeToString(s)} :: len(hex.EncodeToString(s)) == 2 * len(s)
axiom forall s string {sha256.Sum256(s)} :: len(sha256.Sum256(s)) == 32
ghost hexdec(string) string
axiom forall s string {hex.DecodeString#1(s)} :: hex.DecodeString#1(s) == nil ==> len(s) == 2 * len(hex.DecodeString(s))
extern io.Copy(dst, src) (n, err)
  modifies rem, hacc
  ensures err == nil ==> n == len(old(rem)[src]) && hacc == upd(old(hacc), dst, old(hacc)[dst] + old(rem)[src])
  ensures infallible(src) && (dst == io.Discard || hkind(dst) != "") ==> err == nil
extern io.ReadCloser.Close(c) (err)
extern io.Closer.Close(c) (err)

// ---- files ----
gvar fs fun[string,string]         // content of each file
gvar fsx set[string]               // existing files
gvar fswrites int                  // number of file-system writes performed
ghost fname(*os.File) string

gvar storeFails int                // failed steps of storing a file
gvar removeFails int               // failed removals

extern os.Open(name) (f, err)
  modifies rem
  ensures (err == nil) <==> (f != nil)
  ensures err == nil ==> name in fsx && rem == upd(old(rem), conv(any, f), fs[name])
  ensures err != nil ==> rem == old(rem)
extern os.ReadFile(name) (data, err)
  ensures err == nil ==> name in fsx && bytes(data) == fs[name] && fresh(data)
extern os.(*File).Close(f) (err)
extern os.(*File).Name(f) (n)
  pure
  ensures n == fname(f)
extern os.(*File).Sync(f) (err)
extern os.(*File).Write(f, b) (n, err)
  requires [C14] mayWrite(fname(f))
  modifies fs, fswrites, storeFails
  ensures fswrites == old(fswrites) + 1
  ensures err == nil ==> fs == upd(old(fs), fname(f), old(fs)[fname(f)] + bytes(b)) && n == len(b)
  ensures fs == upd(old(fs), fname(f), fs[fname(f)])
  ensures storeFails == old(storeFails) + (err == nil ? 0 : 1)
ghost tmpname(string) bool         // files made by os.CreateTemp
ghost tmpdir(string) string        // the directory they were made in
extern os.CreateTemp(dir, pattern) (f, err)
  requires [C14] !clientCfg.DisableLocalCache
  modifies fs, fsx, fswrites, storeFails
  ensures fswrites == old(fswrites) + 1
  ensures (err == nil) <==> (f != nil)
  ensures err == nil ==> !(fname(f) in old(fsx)) && fs == upd(old(fs), fname(f), "") && fsx == setadd(old(fsx), fname(f)) && tmpname(fname(f)) && tmpdir(fname(f)) == dir
  ensures err != nil ==> fs == old(fs) && fsx == old(fsx)
  ensures storeFails == old(storeFails) + (err == nil ? 0 : 1)
extern os.Create(name) (f, err)
  requires [C14] false
  modifies fs, fsx, fswrites, storeFails
  ensures fswrites == old(fswrites) + 1
  ensures (err == nil) <==> (f != nil)
  ensures err == nil ==> fs == upd(old(fs), name, "") && fsx == setadd(old(fsx), name) && fname(f) == name
  ensures err != nil ==> fs == old(fs) && fsx == old(fsx)
  ensures storeFails == old(storeFails) + (err == nil ? 0 : 1)
extern os.OpenFile(name, flag, perm) (f, err)
  requires [C14] false
  modifies fs, fsx, fswrites, storeFails
  ensures fswrites == old(fswrites) + 1
  ensures (err == nil) <==> (f != nil)
  ensures err == nil ==> fs == upd(old(fs), name, fs[name]) && fsx == setadd(old(fsx), name) && fname(f) == name
  ensures err != nil ==> fs == old(fs) && fsx == old(fsx)
  ensures storeFails == old(storeFails) + (err == nil ? 0 : 1)
extern os.WriteFile(name, data, perm) (err)
  requires [C14] mayWrite(name)
  modifies fs, fsx, fswrites, storeFails
  ensures fswrites == old(fswrites) + 1
  ensures err == nil ==> fs == upd(old(fs), name, bytes(data)) && fsx == setadd(old(fsx), name)
  ensures fs == upd(old(fs), name, fs[name])
  ensures err != nil ==> (fsx == old(fsx) || fsx == setadd(old(fsx), name))
  ensures storeFails == old(storeFails) + (err == nil ? 0 : 1)
extern os.Rename(from, to) (err)
  requires [C14] mayPlace(from, to)
  modifies fs, fsx, fswrites, storeFails
  ensures fswrites == old(fswrites) + 1
  ensures err == nil ==> fs == upd(old(fs), to, old(fs)[from]) && fsx == setadd(setdel(old(fsx), from), to)
  ensures err != nil ==> fs == old(fs) && fsx == old(fsx)
  ensures storeFails == old(storeFails) + (err == nil ? 0 : 1)
extern os.Remove(name) (err)
  requires [C14] tmpname(name)
  modifies fsx, fswrites, removeFails
  ensures fswrites == old(fswrites) + 1
  ensures err == nil ==> fsx == setdel(old(fsx), name)
  ensures err != nil ==> fsx == old(fsx)
  ensures removeFails == old(removeFails) + (err == nil ? 0 : 1)
extern os.RemoveAll(name) (err)
  requires [C14] false
  modifies fsx, fswrites, removeFails
  ensures fswrites == old(fswrites) + 1
extern os.MkdirAll(path, perm) (err)
  requires [C14] !clientCfg.DisableLocalCache
  modifies fsdirs, fswrites
  ensures fswrites == old(fswrites) + 1
  ensures err == nil ==> fsdirs == setadd(old(fsdirs), path)
  ensures err != nil ==> fsdirs == old(fsdirs)
gvar fsdirs set[string]
extern os.Getwd() (dir, err)
  modifies storeFails
  ensures storeFails == old(storeFails) + (err == nil ? 0 : 1)

// ---- time ----
ghost clockReading(time.Time) bool
extern time.Now() (t)
  ensures clockReading(t)
extern time.(Time).UTC(t) (u)
  ensures clockReading(u) <==> clockReading(t)
  pure
extern time.(Time).Truncate(t, d) (u)
  pure
extern time.(Time).AddDate(t, a, b, c) (u)
  pure
ghost after(time.Time, time.Time) bool
extern time.(Time).After(t, u) (r)
  pure
  ensures r <==> after(t, u)
extern time.(Time).Before(t, u) (r)
  pure
  ensures r <==> after(u, t)

// ---- signatures and keys ----
ghost pubval(any) $pk              // a key object that is not an ed25519 key
ghost edkey(string) $pk
ghost pemkey(string) $pk
ghost pemOf($pk) string
ghost sigOK($pk, int, string, string) bool      // key, hash, signature, message
ghost vkey(any) $pk                // key of a verifier
ghost vhash(any) int
pred keyval(k any) = (k is ed25519.PublicKey) ? edkey(bytes(k.(ed25519.PublicKey))) : pubval(k)
axiom forall k $pk :: pemkey(pemOf(k)) == k
axiom forall k $pk, h int, m string {sigOK(k, h, "", m)} :: !sigOK(k, h, "", m)

extern cryptoutils.UnmarshalPEMToPublicKey(pem) (k, err)
  ensures err == nil ==> k != nil
  ensures err == nil ==> !(k is ed25519.PublicKey) ==> pubval(k) == pemkey(bytes(pem))
  ensures err == nil ==> (k is *rsa.PublicKey) ==> k.(*rsa.PublicKey) != nil
  ensures err == nil ==> (k is *ecdsa.PublicKey) ==> k.(*ecdsa.PublicKey) != nil
extern cryptoutils.MarshalPublicKeyToPEM(k) (pem, err)
  ensures err == nil ==> bytes(pem) == pemOf(keyval(k))
extern x509.MarshalPKIXPublicKey(k) (der, err)
extern signature.LoadVerifier(k, h) (v, err)
  requires [C06] (k is ed25519.PublicKey) ==> len(k.(ed25519.PublicKey)) == 32
  ensures err == nil ==> v != nil && vkey(v) == keyval(k) && vhash(v) == h
extern signature.Verifier.VerifySignature(v, sig, msg, opts) (err)
  ensures err == nil <==> sigOK(vkey(v), vhash(v), rem[sig], rem[msg])
extern signature.Signer.SignMessage(s, msg, opts) (sig, err)
  modifies rem
  ensures err == nil ==> fresh(sig) && bytes(sig) == signOf(s, old(rem)[msg])
ghost signOf(any, string) string
extern signature.Signer.PublicKey(s, opts) (k, err)
  ensures err == nil ==> k == signerKey(s)
extern signature.PublicKeyProvider.PublicKey(s, opts) (k, err)
  ensures err == nil ==> k == signerKey(s)
ghost signerKey(any) any

// ---- http ----
gvar net int                       // number of HTTP requests sent
gvar reqURLs fun[int,string]       // their addresses
gvar answered bool                 // the last request was answered,
gvar status int                    // with this status,
gvar answer string                 // this body
gvar announced string              // and this Content-Length header
ghost reqURL(*http.Request) string
ghost hget(http.Header, string) string
extern http.NewRequest(method, url, body) (req, err)
  ensures (err == nil) <==> (req != nil)
  ensures err == nil ==> reqURL(req) == url && fresh(req) && nonnil(req.Header) && fresh(req.Header)
extern http.(Header).Set(h, k, v)
  modifies map(h)
extern http.(Header).Get(h, k) (v)
  ensures v == hget(h, k)
extern http.(*Client).Do(c, req) (res, err)
  modifies net, reqURLs, answered, status, answer, announced, rem
  ensures net == old(net) + 1 && reqURLs == upd(old(reqURLs), old(net), reqURL(req))
  ensures (err == nil) <==> (res != nil)
  ensures (err == nil) <==> answered
  ensures err == nil ==> res.Body != nil && res.StatusCode == status && rem == upd(old(rem), conv(any, res.Body), answer) && announced == hget(res.Header, "Content-Length")

// ---- logging ----
extern metadata.Logger.Info(l, msg, kv)
extern metadata.Logger.Error(l, err, msg, kv)

// ---- slices (golang.org/x/exp/slices and the standard one) ----
extern slices.Contains(s, v) (r)
  ensures r <==> exists j in s :: s[j] == v
extern slices.Index(s, v) (i)
  ensures -1 <= i && i < len(s)
  ensures i >= 0 ==> s[i] == v
  ensures i < 0 ==> forall j in s :: s[j] != v
  ensures forall j in s :: j < i ==> s[j] != v
