package metadata

// ---- lengths and hashes ----

pred hashAlg(a string) = a == "sha256" || a == "sha512"

pred digestOK(a string, want HexBytes, data []byte) = hashAlg(a) && bytes(want) == digest(a, bytes(data))

hint [C09,C03,C04,C05,C10] (h Hashes, d []byte) forall k string :: visited(k) ==> digestOK(k, h[k], d)

func verifyLength(data, length) (err)
  ensures [~C09,~C10] err == nil <==> len(data) == length

func (*TargetFiles).VerifyLengthHashes(f, data) (err)
  ensures [C09,~C10] err == nil ==> len(data) == f.Length
  ensures [C09,~C10] err == nil ==> forall a in f.Hashes :: digestOK(a, f.Hashes[a], data)
  ensures [C09] len(data) == f.Length && (forall a in f.Hashes :: digestOK(a, f.Hashes[a], data)) ==> err == nil


func (*MetaFiles).VerifyLengthHashes(f, data) (err)
  ensures [~C27] true
  ensures [C09,~C03,~C04,~C05] err == nil ==> f.Length == 0 || len(data) == f.Length
  ensures [C09,~C03,~C04,~C05] err == nil ==> forall a in f.Hashes :: digestOK(a, f.Hashes[a], data)
  ensures [C09] (f.Length == 0 || len(data) == f.Length) && (forall a in f.Hashes :: digestOK(a, f.Hashes[a], data)) ==> err == nil

func (Hashes).Equal(source, expected) (ok)
  hint [C09] (a Hashes, b Hashes, chk bool) (forall k string :: visited(k) && k in a ==> bytes(a[k]) == bytes(b[k])) && (chk <==> exists k string :: visited(k) && k in a)
  ensures [C09] ok <==> ((exists k in expected :: k in source) && forall k in expected :: k in source ==> bytes(source[k]) == bytes(expected[k]))

pred sameFacts(l int64, h Hashes, m int64, g Hashes) bool = deepb("sameFacts", l, h, m, g)
func (*TargetFiles).Equal(source, expected) (ok)
  defines ok <==> sameFacts(source.Length, source.Hashes, expected.Length, expected.Hashes)
  ensures [C09] ok <==> (source.Length == expected.Length && (exists k in expected.Hashes :: k in source.Hashes) && forall k in expected.Hashes :: k in source.Hashes ==> bytes(source.Hashes[k]) == bytes(expected.Hashes[k]))

// recorded file facts computed from a file's content
hint [C09] (t *TargetFiles, d []byte) forall k in t.Hashes :: digestOK(k, t.Hashes[k], d)
hint [C09] (t *TargetFiles, l []string, i int) forall j in l :: j <= i ==> l[j] in t.Hashes
hint [C09] (t *TargetFiles, l []string, i int) forall j in l :: j < i ==> l[j] in t.Hashes

func (*TargetFiles).FromBytes(t, localPath, data, hashes) (r, err)
  ensures [C09] err == nil ==> r != nil && r.Length == len(data) && r.Path == localPath
  ensures [C09] err == nil ==> forall a in r.Hashes :: digestOK(a, r.Hashes[a], data)
  ensures [C09] err == nil ==> len(hashes) == 0 ==> "sha256" in r.Hashes
  ensures [C09] err == nil ==> forall i in hashes :: hashes[i] in r.Hashes

func (*TargetFiles).FromFile(t, localPath, hashes) (r, err)
  ensures [C09] err == nil ==> r != nil && r.Length == len(fs[localPath]) && r.Path == localPath
  ensures [C09] err == nil ==> forall a in r.Hashes :: hashAlg(a) && bytes(r.Hashes[a]) == digest(a, fs[localPath])
  ensures [C09] err == nil ==> len(hashes) == 0 ==> "sha256" in r.Hashes
  ensures [C09] err == nil ==> forall i in hashes :: hashes[i] in r.Hashes
