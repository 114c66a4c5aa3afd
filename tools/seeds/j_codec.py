RL = "common/codec/rlp.go"
seed("c04-raw-long-list", "C04", "reading the raw form of a list whose content is 56 bytes or longer",
 "the raw bytes of a long list lose their length bytes, so the item handed on cannot be decoded", "common/codec",
 [(RL, """		sz := tag - 0xF7
		sz2, err := r.readSize(header[1 : 1+sz])
		if err != nil {
			return nil, err
		}
		return r.readMore(header[0:1+sz], sz2)
""", """		sz := tag - 0xF7
		sz2, err := r.readSize(header[1 : 1+sz])
		if err != nil {
			return nil, err
		}
		if sz > 1 {
			sz = 1
		}
		return r.readMore(header[0:1+sz], sz2)
""")],
'''package codec

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, n := range []int{10, 100, 300, 70000} {
		var l [][]byte
		l = append(l, bytes.Repeat([]byte{7}, n), []byte{1})
		bs := RLP.MustMarshalToBytes(l)
		r := &rlpReader{reader: bytes.NewReader(bs)}
		raw, err := r.ReadRaw()
		if err != nil || !bytes.Equal(raw, bs) {
			t.Fatalf("n=%d: %v", n, err)
		}
	}
}
''')
seed("c04-truncated-size", "C04", "a stream that ends inside the length bytes or the payload of an item",
 "an item cut short is taken for a whole one whose missing bytes are zero", "common/codec",
 [(RL, """	if _, err := io.ReadFull(r.reader, buffer); err != nil {
		if err == io.EOF {
			return cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(sz=%d,err=%s)", len(buffer), err)
		}
""", """	if n, err := io.ReadFull(r.reader, buffer); err != nil && n == 0 {
		if err == io.EOF {
			return cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(sz=%d,err=%s)", len(buffer), err)
		}
""")],
'''package codec

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	bs := RLP.MustMarshalToBytes(bytes.Repeat([]byte{7}, 100))
	for n := 1; n < len(bs); n++ {
		var out []byte
		if _, err := RLP.UnmarshalFromBytes(bs[:n], &out); err == nil {
			t.Fatalf("cut at %d was accepted", n)
		}
	}
	var out []byte
	if _, err := RLP.UnmarshalFromBytes(bs, &out); err != nil || len(out) != 100 {
		t.Fatal(err)
	}
}
''')
