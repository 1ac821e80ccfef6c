package metadata

// ---- C12: succinct delegations ----

ghost pow2(int) int                // exact powers of two
axiom [C12] for c in 0..62 :: forall k int {pow2(k)} :: k == c ==> pow2(k) == pow2(c)
ghost shr(int, int) int            // x >> k for x >= 0
axiom [C12] for c in 0..32 :: forall x int, k int {shr(x, k)} :: k == c && x >= 0 ==> pow2(c) * shr(x, k) <= x && x < pow2(c) * shr(x, k) + pow2(c)
ghost be32(string) int             // big-endian value of the first four bytes
ghost hexpad(int, int) string      // fmt.Sprintf("%0*x", width, value)
axiom [C12] for d in 1..14 :: forall v int {strconv.FormatInt(v, 16)} :: (d == 1 ? 0 : pow2(4 * d - 4)) <= v && v < pow2(4 * d) ==> len(strconv.FormatInt(v, 16)) == d
axiom [C12] forall w int, v int {hexpad(w, v)} :: v >= 0 ==> len(hexpad(w, v)) == (len(strconv.FormatInt(v, 16)) <= w ? w : len(strconv.FormatInt(v, 16)))
axiom [C12] forall w int, v int {hexpad(w, v)} :: 0 <= v && v < pow2(62) ==> strconv.ParseInt#1(hexpad(w, v), 16, 64) == nil && strconv.ParseInt(hexpad(w, v), 16, 64) == v

extern binary.(bigEndian).Uint32(e, b) (r)
  requires len(b) >= 4
  ensures r == be32(bytes(b)[:4]) && 0 <= r && r < pow2(32)

// number of hexadecimal digits of the last bin
pred binWidth(bits int) int = bits <= 4 ? 1 : bits <= 8 ? 2 : bits <= 12 ? 3 : bits <= 16 ? 4 : bits <= 20 ? 5 : bits <= 24 ? 6 : bits <= 28 ? 7 : 8
pred binSuffix(bits int, b int) string = hexpad(binWidth(bits), b)
pred binName(role *SuccinctRoles, b int) string = role.NamePrefix + "-" + binSuffix(role.BitLength, b)
pred binIndex(role *SuccinctRoles, name string) int = strconv.ParseInt(name[len(role.NamePrefix)+1:], 16, 64)
pred wellFormed(role *SuccinctRoles) bool = 1 <= role.BitLength && role.BitLength <= 32
pred binOf(role *SuccinctRoles, path string) int = shr(be32(sha256.Sum256(path)[:4]), 32 - role.BitLength)

func (*SuccinctRoles).GetSuffixLen(role) (width, bins)
  ensures [C12] wellFormed(role) ==> width == binWidth(role.BitLength) && bins == pow2(role.BitLength)

func (*SuccinctRoles).GetRolesForTarget(role, path) (roles)
  ensures [C12,~C11] fresh(roles)
  ensures [C12] wellFormed(role) ==> 0 <= binOf(role, path) && binOf(role, path) < pow2(role.BitLength)
  ensures [C12] wellFormed(role) ==> forall n string :: n in roles <==> n == binName(role, binOf(role, path))
  ensures [C12] wellFormed(role) ==> roles[binName(role, binOf(role, path))]

func (*SuccinctRoles).GetRoles(role) (roles)
  hint [C12] (f loop []string) len(f) == iter
  hint [C12] (f loop []string) wellFormed(role) ==> forall j in f :: f[j] == binName(role, j)
  ensures [C12] wellFormed(role) ==> len(roles) == pow2(role.BitLength)
  ensures [C12] wellFormed(role) ==> forall j in roles :: roles[j] == binName(role, j)
  ensures [C12] wellFormed(role) ==> forall j in roles :: strings.HasPrefix(roles[j], role.NamePrefix + "-") && binIndex(role, roles[j]) == j

func (*SuccinctRoles).IsDelegatedRole(role, name) (r)
  ensures [C12] wellFormed(role) ==> r ==> exists b int :: 0 <= b && b < pow2(role.BitLength) && name == binName(role, b)
  ensures [C12] wellFormed(role) ==> forall b int {binSuffix(role.BitLength, b)} :: 0 <= b && b < pow2(role.BitLength) && name == binName(role, b) ==> r
