seed("c06-null-field-unsigned", "C06", "a transaction whose contract parameters contain a null value",
 "a key whose value is null is left out of what is hashed and signed although it is part of the transaction that is sent", "chain/icon/client",
 [("chain/icon/client/serialize.go", "		v := d[k]\n		frag, err := serializeValue(v)\n", "		v := d[k]\n		if v == nil {\n			continue\n		}\n		frag, err := serializeValue(v)\n")],
'''package client

import "testing"

func TestZZDemo(t *testing.T) {
	a, err := SerializeJSON([]byte(`{"to":"cx01","data":{"params":{"a":"x","b":null}},"signature":"s"}`), nil, txSerializeExcludes)
	if err != nil {
		t.Fatal(err)
	}
	if want := `data.{params.{a.x.b.\\0}}.to.cx01`; string(a) != want {
		t.Fatalf("serialized %s, want %s", a, want)
	}
}
''')
