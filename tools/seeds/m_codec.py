
CD = "common/codec/codec.go"
seed("c05-slice-growth", "C05", "a decoded list of more than 16 elements",
 "when a decoded slice has to grow, the element that filled it is not copied and reads back as zero", "common/codec",
 [(CD, "					reflect.Copy(ns, elem)\n", "					reflect.Copy(ns, elem.Slice(0, i-1))\n")],
'''package codec

import (
	"reflect"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for n := 0; n < 100; n++ {
		in := make([]int, n)
		for i := range in {
			in[i] = i + 1000
		}
		bs, err := RLP.MarshalToBytes(in)
		if err != nil {
			t.Fatal(err)
		}
		var out []int
		if _, err := RLP.UnmarshalFromBytes(bs, &out); err != nil {
			t.Fatal(err)
		}
		if !reflect.DeepEqual(in, out) {
			t.Fatalf("%d elements come back as %v", n, out)
		}
	}
}
''')
seed("c05-null-element-kept", "C05", "a null element decoded into a struct that already holds something",
 "a null field is skipped instead of becoming the zero value, so what the struct held before shows through", "common/codec",
 [(CD, "err == ErrNilValue {\n		elem := v.Elem()\n		elem.Set(reflect.Zero(elem.Type()))\n		return nil\n	} else {\n		return err\n	}\n}\n\nfunc decodeRec", "err == ErrNilValue {\n		elem := v.Elem()\n		if elem.Kind() != reflect.Ptr {\n			elem.Set(reflect.Zero(elem.Type()))\n		}\n		return nil\n	} else {\n		return err\n	}\n}\n\nfunc decodeRec")],
'''package codec

import "testing"

func TestZZDemo(t *testing.T) {
	type s struct {
		A int
		B *string
	}
	bs, err := RLP.MarshalToBytes(&s{A: 1})
	if err != nil {
		t.Fatal(err)
	}
	x := "before"
	v := s{A: 5, B: &x}
	if _, err := RLP.UnmarshalFromBytes(bs, &v); err != nil {
		t.Fatal(err)
	}
	if v.A != 1 || v.B != nil {
		t.Fatalf("%d %v", v.A, *v.B)
	}
}
''')
