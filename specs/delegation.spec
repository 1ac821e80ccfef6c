package metadata

// ---- C11: responsibility of delegated roles ----

ghost splitLen(string, string) int          // parts of strings.Split
ghost splitAt(string, string, int) string
ghost urlb64(string) string                 // URL-safe base64 text
extern base64.(*Encoding).EncodeToString(e, b) (s)
  ensures e == base64.URLEncoding ==> s == urlb64(bytes(b))

pred globPath(path string, pattern string) bool = splitLen(path, "/") == splitLen(pattern, "/") &&
  forall i int {splitAt(path, "/", i)} :: 0 <= i && i < splitLen(path, "/") ==> filepath.Match(splitAt(pattern, "/", i), splitAt(path, "/", i))
pred hashPath(path string, prefix string) bool = strings.HasPrefix(urlb64(sha256.Sum256(path)), prefix)
pred responsible(r DelegatedRole, path string) bool =
  len(r.Paths) > 0 ? exists i in r.Paths :: globPath(path, r.Paths[i]) : exists i in r.PathHashPrefixes :: hashPath(path, r.PathHashPrefixes[i])

func isTargetInPathPattern(path, pattern) (r)
  hint [C11] () forall j int {splitAt(path, "/", j)} :: 0 <= j && j < iter ==> filepath.Match(splitAt(pattern, "/", j), splitAt(path, "/", j))
  ensures [~C11] r <==> globPath(path, pattern)

func (*DelegatedRole).IsDelegatedPath(role, path) (r, err)
  hint [C11] () forall j in role.Paths :: j < iter ==> !globPath(path, role.Paths[j])
  hint [C11] () forall j in role.PathHashPrefixes :: j < iter ==> !hashPath(path, role.PathHashPrefixes[j])
  ensures [C11] err == nil
  ensures [C11] r <==> responsible(*role, path)

func (*Delegations).GetRolesForTarget(role, path) (res)
  hint [C11] (m map[string]bool) forall n string :: n in m ==> exists j in role.Roles :: j < iter && role.Roles[j].Name == n && responsible(role.Roles[j], path) && m[n] == role.Roles[j].Terminating
  hint [C11] (m map[string]bool) forall j in role.Roles :: j < iter && responsible(role.Roles[j], path) ==> role.Roles[j].Name in m
  ensures [^C13,^C14,^C15,^C18] true
  ensures [C11] nonnil(role.Roles) ==> forall j in role.Roles :: responsible(role.Roles[j], path) ==> role.Roles[j].Name in res
  ensures [C11,^C13] nonnil(role.Roles) ==> forall n string :: n in res ==> exists j in role.Roles :: role.Roles[j].Name == n && responsible(role.Roles[j], path) && res[n] == role.Roles[j].Terminating
  ensures [C11] !nonnil(role.Roles) && role.SuccinctRoles == nil ==> forall n string :: !(n in res)
  ensures [C12] !nonnil(role.Roles) && role.SuccinctRoles != nil && wellFormed(role.SuccinctRoles) ==> forall n string :: n in res <==> n == binName(role.SuccinctRoles, binOf(role.SuccinctRoles, path))
