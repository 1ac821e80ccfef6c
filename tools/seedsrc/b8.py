exec(open("/verif/tools/seedsrc/b4.py").read().split("\nSEEDS=[")[0])
WALK='''
type to struct { name, path string; end bool }
// a served repository whose roles delegate as described and list the given targets; the roles asked for by a look-up
func woods(t *testing.T, edges map[string][]to, lists map[string]string) (*mirror, *config.UpdaterConfig) {
	a := newWho(t)
	m, c := shop(t, a)
	vs := map[string]int64{"targets": 1}
	role := func(n string) []byte {
		tg := Targets(later())
		if es := edges[n]; es != nil {
			d := &Delegations{Keys: map[string]*Key{a.key.ID(): a.key}}
			for _, e := range es { d.Roles = append(d.Roles, DelegatedRole{Name: e.name, KeyIDs: []string{a.key.ID()}, Threshold: 1, Terminating: e.end, Paths: []string{e.path}}) }
			tg.Signed.Delegations = d
		}
		for _, p := range strings.Fields(lists[n]) {
			tf, _ := TargetFile().FromBytes(p, []byte(n+p), "sha256")
			tg.Signed.Targets[p] = tf
		}
		return enc(t, tg, a)
	}
	for _, es := range edges { for _, e := range es {
		vs[e.name] = 1
		m.files["http://r/"+e.name+".json"] = role(e.name)
	} }
	m.files["http://r/targets.json"] = role("targets")
	m.files["http://r/snapshot.json"] = enc(t, snAt(1, vs), a)
	return m, c
}
func asked(m *mirror) string {
	l := []string{}
	for _, q := range m.log { if q = strings.TrimSuffix(strings.TrimPrefix(q, "http://r/"), ".json"); len(q) == 1 { l = append(l, q) } }
	return strings.Join(l, " ")
}
'''
def wdemo(body): return cdemo(WALK+body, "strings")
SEEDS=[
dict(id="C13-ancestors-kept", prop="C13", pkg="zzdemo",
 edits=[(U,"""					delegationsToVisit = []roleParentTuple{}
					break""","""					break""")],
 demo=wdemo('''
func TestSeededDemo(t *testing.T) {
	m, c := woods(t, map[string][]to{"targets": {{"a", "*", false}, {"b", "*", false}}, "a": {{"c", "*", true}, {"d", "*", false}}}, map[string]string{"b": "x"})
	u := client(t, c)
	if tf, err := u.GetTargetInfo("x"); err == nil { t.Fatal("found beyond a terminating delegation:", tf.Length, asked(m)) }
	if asked(m) != "a c" { t.Fatal(asked(m)) }
}
'''), needs="a terminating delegation below a role that has later siblings", breaks="the search backtracks past a terminating delegation to the siblings of its delegator"),
dict(id="C13-queued-once", prop="C13", pkg="zzdemo",
 edits=[(U,"""				log.Info("Adding child role", "role", child)
				childRolesToVisit""","""				log.Info("Adding child role", "role", child)
				queued := false
				for _, other := range delegationsToVisit {
					queued = queued || other.Role == child
				}
				if queued && !terminating {
					continue
				}
				childRolesToVisit""")],
 demo=wdemo('''
func TestSeededDemo(t *testing.T) {
	m, c := woods(t, map[string][]to{"targets": {{"a", "*", false}, {"b", "*", false}, {"d", "*", false}}, "a": {{"d", "*", false}}}, map[string]string{"b": "x", "d": "x"})
	tf, err := client(t, c).GetTargetInfo("x")
	if err != nil || asked(m) != "a d" || tf.VerifyLengthHashes([]byte("dx")) != nil { t.Fatal("roles asked for:", asked(m), err) }
}
'''), needs="a role that is delegated to by the top-level role and, further up the order, by a sibling", breaks="a role is visited later than its first appearance in the search"),
dict(id="C13-leaves-not-counted", prop="C13", pkg="zzdemo",
 edits=[(U,"""		// after pre-order check, add current role to set of visited roles
		visitedRoleNames[delegation.Role] = true
		if targets.Signed.Delegations != nil {
""","""		if targets.Signed.Delegations != nil {
			// after pre-order check, add current role to set of visited roles
			visitedRoleNames[delegation.Role] = true
""")],
 demo=wdemo('''
func TestSeededDemo(t *testing.T) {
	m, c := woods(t, map[string][]to{"targets": {{"a", "*", false}, {"b", "*", false}, {"d", "*", false}}}, map[string]string{"d": "x"})
	c.MaxDelegations = 2
	if _, err := client(t, c).GetTargetInfo("x"); err == nil || asked(m) != "a b" { t.Fatal("more delegations than allowed:", asked(m), err) }
}
'''), needs="roles without delegations and a limit below their number", breaks="more delegations than configured are followed, and roles can be visited twice"),
dict(id="C13-terminating-unless-visited", prop="C13", pkg="zzdemo",
 edits=[(U,"""				if terminating {
					log.Info("Not""","""				if _, again := visitedRoleNames[child]; terminating && !again {
					log.Info("Not""")],
 demo=wdemo('''
func TestSeededDemo(t *testing.T) {
	m, c := woods(t, map[string][]to{"targets": {{"a", "*", false}, {"b", "*", false}, {"d", "*", false}}, "b": {{"a", "*", true}}}, map[string]string{"d": "x"})
	if _, err := client(t, c).GetTargetInfo("x"); err == nil || asked(m) != "a b" { t.Fatal("found beyond a terminating delegation:", asked(m), err) }
}
'''), needs="a terminating delegation to a role that was visited before", breaks="such a delegation does not end the search"),
dict(id="C13-known-roles-first", prop="C13", pkg="zzdemo",
 edits=[(U,"""	visitedRoleNames := map[string]bool{}
""","""	visitedRoleNames := map[string]bool{}
	// roles delegated to directly by the top-level role may be known from an earlier look-up
	if top, ok := update.trusted.Targets[metadata.TARGETS]; ok && top.Signed.Delegations != nil {
		for name := range top.Signed.Delegations.GetRolesForTarget(targetFilePath) {
			if role, ok := update.trusted.Targets[name]; ok {
				if target, ok := role.Signed.Targets[targetFilePath]; ok && role.Signed.Delegations == nil {
					return target, nil
				}
			}
		}
	}
""")],
 demo=wdemo('''
func TestSeededDemo(t *testing.T) {
	_, c := woods(t, map[string][]to{"targets": {{"a", "x*", false}, {"b", "*", false}}}, map[string]string{"a": "x", "b": "x y"})
	u := client(t, c)
	if _, err := u.GetTargetInfo("y"); err != nil { t.Fatal(err) }
	tf, err := u.GetTargetInfo("x")
	if err != nil || tf.VerifyLengthHashes([]byte("ax")) != nil { t.Fatal("the record is not that of the first role listing the target", err) }
}
'''), needs="a target listed by two roles, the later of which is known from an earlier look-up of another target", breaks="the record of a less trusted role is returned"),
]
