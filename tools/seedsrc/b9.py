# C20: serialisation
MA="metadata/marshal.go"
HEAD='''package zzdemo
import (
	"bytes"
	"encoding/json"
	"reflect"
	"testing"
	. "github.com/rdimitrov/go-tuf-metadata/metadata"
)
// the document is read and written twice
func same[T Roles](t *testing.T, m *Metadata[T], doc string) {
	t.Helper()
	o, err := m.FromBytes([]byte(doc))
	if err != nil { t.Fatal(err) }
	for i := 0; i < 2; i++ {
		b, err := o.ToBytes(i == 1)
		if err != nil { t.Fatal(err) }
		var x, y any
		d := json.NewDecoder(bytes.NewReader(b)); d.UseNumber()
		e := json.NewDecoder(bytes.NewReader([]byte(doc))); e.UseNumber()
		if d.Decode(&x) != nil || e.Decode(&y) != nil { t.Fatal("not JSON") }
		if !reflect.DeepEqual(x, y) { t.Fatalf("%v is now %v", y, x) }
	}
}
const start = `{"signatures":[],"signed":{"spec_version":"1.0.31","version":1,"expires":"2030-01-01T00:00:00Z",`
func TestSeededDemo(t *testing.T) {
'''
def jdemo(b): return HEAD+b+"\n}\n"
SEEDS=[
dict(id="C20-null-members", prop="C20", pkg="zzdemo",
 edits=[(MA,"""	for k, v := range src {
		dst[k] = v
""","""	for k, v := range src {
		if v == nil {
			continue
		}
		dst[k] = v
""")],
 demo=jdemo('same(t, Timestamp(), start+`"_type":"timestamp","meta":{},"x":null}}`)'),
 needs="an unrecognised member whose value is null", breaks="unrecognised members that are null are lost when the part is serialised"),
dict(id="C20-hashes-need-length", prop="C20", pkg="zzdemo",
 edits=[(MA,"""	if len(signed.Hashes) != 0 {
		dict["hashes"] = signed.Hashes
	}""","""	if len(signed.Hashes) != 0 && signed.Length != 0 {
		dict["hashes"] = signed.Hashes
	}""")],
 demo=jdemo('same(t, Snapshot(), start+`"_type":"snapshot","meta":{"targets.json":{"version":1,"hashes":{"sha256":"00ff"}}}}}`)'),
 needs="a metadata file with hashes and without a length", breaks="the hashes of a metadata file are only written if its length is known"),
dict(id="C20-path-forgotten", prop="C20", pkg="zzdemo",
 edits=[(MA,"""	delete(dict, "custom")
	signed.""","""	delete(dict, "custom")
	delete(dict, "path")
	signed.""")],
 demo=jdemo('same(t, Targets(), start+`"_type":"targets","targets":{"a":{"length":1,"hashes":{"sha256":"00"},"path":"b"}}}}`)'),
 needs="a target with an unrecognised member named path", breaks="an unrecognised member of a target is dropped when decoding"),
dict(id="C20-empty-roles", prop="C20", pkg="zzdemo",
 edits=[(MA,"""	if d.Roles != nil {
		dict["roles"]""","""	if len(d.Roles) != 0 {
		dict["roles"]""")],
 demo=jdemo('same(t, Targets(), start+`"_type":"targets","targets":{},"delegations":{"keys":{},"roles":[]}}}`)'),
 needs="delegations with an empty list of roles", breaks="an empty list of delegated roles is lost"),
dict(id="C20-shared-dict", prop="C20", pkg="zzdemo",
 edits=[(MA,"""	if len(role.UnrecognizedFields) != 0 {
		copyMapValues(role.UnrecognizedFields, dict)
	}
	dict["keyids"] = role.KeyIDs
	dict["threshold"] = role.Threshold
	dict["bit_length"]""","""	if len(role.UnrecognizedFields) != 0 {
		dict = role.UnrecognizedFields
	}
	dict["keyids"] = role.KeyIDs
	dict["threshold"] = role.Threshold
	dict["bit_length"]""")],
 demo=jdemo('''s := &SuccinctRoles{KeyIDs: []string{"a"}, Threshold: 1, BitLength: 2, NamePrefix: "p", UnrecognizedFields: map[string]any{"x": "y"}}
	if _, err := json.Marshal(s); err != nil { t.Fatal(err) }
	if len(s.UnrecognizedFields) != 1 { t.Fatal(s.UnrecognizedFields) }
	_ = reflect.TypeOf; _ = bytes.NewReader; _ = start'''),
 needs="succinct roles with an unrecognised member", breaks="serialising adds the recognised members to the unrecognised ones of the object"),
dict(id="C20-members-win", prop="C20", pkg="zzdemo",
 edits=[(MA,"""	if len(kv.UnrecognizedFields) != 0 {
		copyMapValues(kv.UnrecognizedFields, dict)
	}
	dict["public"] = kv.PublicKey
	return""","""	dict["public"] = kv.PublicKey
	if len(kv.UnrecognizedFields) != 0 {
		copyMapValues(kv.UnrecognizedFields, dict)
	}
	return"""),(MA,"""	delete(dict, "public")
	kv.""","""	kv.""")],
 demo=jdemo('''kv := KeyVal{}
	if err := json.Unmarshal([]byte(`{"public":"a","x":1}`), &kv); err != nil { t.Fatal(err) }
	kv.PublicKey = "b"
	b, err := json.Marshal(kv)
	if err != nil { t.Fatal(err) }
	if !bytes.Contains(b, []byte(`"public":"b"`)) { t.Fatal(string(b)) }
	_ = reflect.TypeOf; _ = start'''),
 needs="a key value that is decoded, changed and serialised", breaks="the decoded public key is also kept as an unrecognised member and overrides the changed one"),
]
