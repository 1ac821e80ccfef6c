package zzverif

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

// the state C19 talks about, kept apart from the object under test
type roleModel struct {
	ids  []string
	rest string // everything else about the role
}
type keysModel struct {
	roles map[string]*roleModel
	store map[string]*metadata.Key
}

func (m *keysModel) has(role, id string) bool {
	for _, x := range m.roles[role].ids {
		if x == id {
			return true
		}
	}
	return false
}
func (m *keysModel) add(role, id string, k *metadata.Key) {
	if !m.has(role, id) {
		m.roles[role].ids = append(append([]string{}, m.roles[role].ids...), id)
	}
	m.store[id] = k
}
func (m *keysModel) revoke(role, id string) {
	var out []string
	for _, x := range m.roles[role].ids {
		if x != id {
			out = append(out, x)
		}
	}
	m.roles[role].ids = out
	for n := range m.roles {
		if m.has(n, id) {
			return
		}
	}
	delete(m.store, id)
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameStore(a, b map[string]*metadata.Key) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b)) && func() bool {
		for k := range a {
			if a[k] != b[k] {
				return false
			}
		}
		return true
	}()
}

func metaKey(k *TKey) *metadata.Key {
	o, err := metadata.KeyFromPublicKey(k.pub)
	must(err)
	return o
}


func TestC19(t *testing.T) {
	h := start(t, "C19", "random histories of adding and revoking keys for root roles, delegated roles and succinct roles (shared keys, repeated additions, unknown roles, unused keys, identifiers listed twice, identifier lists shared by two roles), the whole object compared with a model after every step; non-trivial: all")
	defer h.done()
	r := h.rng
	pool := []*TKey{ed(0), ed(1), ed(2), ed(3), key("rsa", 0), key("ecdsa", 0)}
	var pids []string
	for _, k := range pool {
		pids = append(pids, keyIDOf(k))
	}
	pick1 := func(ids []string) []string {
		var out []string
		for _, id := range ids {
			if r.Intn(3) == 0 {
				out = append(out, id)
			}
		}
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		if len(out) > 0 && r.Intn(8) == 0 {
			out = append(out, out[0])
		}
		return append(make([]string, 0, len(out)), out...) // no spare room
	}
	for c := 0; c < h.n(600) && h.more(); c++ {
		kind := c % 3
		h.guard("history", "", func() {
			m := &keysModel{roles: map[string]*roleModel{}, store: map[string]*metadata.Key{}}
			store := map[string]*metadata.Key{}
			names := []string{"root", "timestamp", "snapshot", "targets"}
			if kind == 1 {
				names = []string{"a", "b", "c", "A", "a/b"}[:1+r.Intn(5)]
			}
			if kind == 2 {
				names = []string{"bin"}
			}
			shared := pick1(pids)
			lists := map[string][]string{}
			for _, n := range names {
				l := pick1(pids)
				if r.Intn(3) == 0 {
					l = shared // two roles may well be given the same list
				}
				lists[n] = l
				m.roles[n] = &roleModel{ids: append([]string{}, l...)}
				for _, id := range l {
					for i := range pool {
						if pids[i] == id && store[id] == nil {
							store[id] = metaKey(pool[i])
							m.store[id] = store[id]
						}
					}
				}
			}
			// a key in the store no role uses
			if r.Intn(3) == 0 {
				store["unused"] = metaKey(pool[r.Intn(len(pool))])
				m.store["unused"] = store["unused"]
			}
			var add func(k *metadata.Key, role string) error
			var revoke func(id, role string) error
			var read func() (map[string][]string, map[string]string, map[string]*metadata.Key)
			what := ""
			switch kind {
			case 0:
				what = "root"
				md := metadata.Root(time.Unix(0, 0))
				md.Signed.Keys = store
				for _, n := range names {
					md.Signed.Roles[n] = &metadata.Role{KeyIDs: lists[n], Threshold: 1 + r.Intn(3), UnrecognizedFields: map[string]any{"x": n}}
				}
				add, revoke = md.Signed.AddKey, md.Signed.RevokeKey
				read = func() (map[string][]string, map[string]string, map[string]*metadata.Key) {
					l, rest := map[string][]string{}, map[string]string{}
					for n, ro := range md.Signed.Roles {
						l[n] = ro.KeyIDs
						rest[n] = dump(metadata.Role{Threshold: ro.Threshold, UnrecognizedFields: ro.UnrecognizedFields})
					}
					return l, rest, md.Signed.Keys
				}
			case 1:
				what = "delegated"
				md := metadata.Targets(time.Unix(0, 0))
				md.Signed.Delegations = &metadata.Delegations{Keys: store}
				for _, n := range names {
					md.Signed.Delegations.Roles = append(md.Signed.Delegations.Roles, metadata.DelegatedRole{Name: n, KeyIDs: lists[n], Threshold: 1 + r.Intn(3), Terminating: r.Intn(2) == 0, Paths: []string{n + "/*"}})
				}
				if r.Intn(4) == 0 { // both kinds present: the delegated roles count
					md.Signed.Delegations.SuccinctRoles = &metadata.SuccinctRoles{KeyIDs: append([]string{}, pids[0]), Threshold: 1, BitLength: 2, NamePrefix: "p"}
				}
				add, revoke = md.Signed.AddKey, md.Signed.RevokeKey
				read = func() (map[string][]string, map[string]string, map[string]*metadata.Key) {
					l, rest := map[string][]string{}, map[string]string{}
					for i, ro := range md.Signed.Delegations.Roles {
						if len(md.Signed.Delegations.Roles) == len(names) && ro.Name != names[i] {
							rest["order"] = "changed"
						}
						l[ro.Name] = ro.KeyIDs
						ro.KeyIDs = nil
						rest[ro.Name] = dump(ro)
					}
					if s := md.Signed.Delegations.SuccinctRoles; s != nil {
						rest["succinct"] = dump(*s)
					}
					return l, rest, md.Signed.Delegations.Keys
				}
			default:
				what = "succinct"
				md := metadata.Targets(time.Unix(0, 0))
				md.Signed.Delegations = &metadata.Delegations{Keys: store, SuccinctRoles: &metadata.SuccinctRoles{KeyIDs: lists["bin"], Threshold: 1 + r.Intn(3), BitLength: 1 + r.Intn(5), NamePrefix: "bin"}}
				add = func(k *metadata.Key, role string) error {
					return md.Signed.AddKey(k, pick(r, role, "", "other")) // the role argument is ignored
				}
				revoke = func(id, role string) error { return md.Signed.RevokeKey(id, pick(r, role, "", "other")) }
				read = func() (map[string][]string, map[string]string, map[string]*metadata.Key) {
					s := *md.Signed.Delegations.SuccinctRoles
					ids := s.KeyIDs
					s.KeyIDs = nil
					return map[string][]string{"bin": ids}, map[string]string{"bin": dump(s), "roles": dump(md.Signed.Delegations.Roles)}, md.Signed.Delegations.Keys
				}
			}
			_, rest0, _ := read()
			log := fmt.Sprintf("%s, roles %s", what, short(lists, pids))
			for s := 0; s < 1+r.Intn(14); s++ {
				role := names[r.Intn(len(names))]
				known := true
				if kind != 2 && r.Intn(6) == 0 {
					role, known = nearOther(r, names), false
				}
				i := r.Intn(len(pool))
				id := pids[i]
				var err error
				wantErr := !known
				if r.Intn(2) == 0 {
					k := metaKey(pool[i])
					if r.Intn(2) == 0 {
						k.ID()
					}
					log += fmt.Sprintf("; add k%d to %q", i, role)
					err = add(k, role)
					if known {
						m.add(role, id, k)
					}
					h.stat("add")
				} else {
					if r.Intn(8) == 0 {
						id = pick(r, "unused", "", id[:10], strings.ToUpper(id))
					}
					log += fmt.Sprintf("; revoke %s from %q", idName(id, pids), role)
					wantErr = !known || !m.has(role, id)
					err = revoke(id, role)
					if !wantErr {
						m.revoke(role, id)
					}
					h.stat("revoke")
				}
				h.count(log)
				if (err != nil) != wantErr {
					h.fail(what+"-err", fmt.Sprintf("%s: error %v, expected error: %v", log, err, wantErr))
					return
				}
				ls, rest, st := read()
				for n, ro := range m.roles {
					if !sameList(ls[n], ro.ids) {
						h.fail(what+"-list", fmt.Sprintf("%s: role %q now lists %s, expected %s", log, n, names1(ls[n], pids), names1(ro.ids, pids)))
						return
					}
				}
				if len(ls) != len(m.roles) || !reflect.DeepEqual(rest, rest0) {
					h.fail(what+"-rest", fmt.Sprintf("%s: another part of the roles changed: %v, before %v", log, rest, rest0))
					return
				}
				if !sameStore(st, m.store) {
					h.fail(what+"-store", fmt.Sprintf("%s: the key store holds %s, expected %s", log, names1(sortedKeys(st), pids), names1(sortedKeys(m.store), pids)))
					return
				}
			}
		})
	}
	// nothing delegated at all
	for i := 0; i < 4; i++ {
		md := metadata.Targets(time.Unix(0, 0))
		if i > 1 {
			md.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}}
		}
		before := dump(md.Signed)
		err := fmt.Errorf("panic")
		h.guard("none", "no delegations", func() {
			if i%2 == 0 {
				err = md.Signed.AddKey(metaKey(pool[0]), "a")
			} else {
				err = md.Signed.RevokeKey(pids[0], "a")
			}
		})
		h.count(fmt.Sprint("none", i))
		if err == nil || dump(md.Signed) != before {
			h.fail("none", "a key is added or revoked although nothing is delegated")
		}
	}
}

func nearOther(r *rand.Rand, names []string) string {
	for {
		n := pick(r, "", "Root", "rooT ", "targets2", "role", strings.ToUpper(names[0])+"x", names[0]+" ", names[0]+"/")
		ok := true
		for _, x := range names {
			ok = ok && x != n
		}
		if ok {
			return n
		}
	}
}

func idName(id string, pids []string) string {
	for i, p := range pids {
		if p == id {
			return fmt.Sprintf("k%d", i)
		}
	}
	return fmt.Sprintf("%q", id)
}
func names1(ids []string, pids []string) string {
	var out []string
	for _, id := range ids {
		out = append(out, idName(id, pids))
	}
	return "[" + strings.Join(out, " ") + "]"
}
func short(m map[string][]string, pids []string) string {
	var out []string
	for _, n := range sortedKeys(m) {
		out = append(out, fmt.Sprintf("%s:%s", n, names1(m[n], pids)))
	}
	return strings.Join(out, " ")
}
