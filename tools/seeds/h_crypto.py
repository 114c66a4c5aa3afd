seed("c19-parity-of-wrong-byte", "C19", "an uncompressed public key whose last byte and last byte of X differ in parity",
 "the compressed form of a public key gets the format byte by a wrong byte of the key, so about half of the keys become another key", "common/crypto",
 [("common/crypto/key.go", "	if uncomp[64]&0x1 == 0x1 {\n", "	if uncomp[PublicKeyLenCompressed-1]&0x1 == 0x1 {\n")],
'''package crypto

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for i := 0; i < 64; i++ {
		_, pk := GenerateKeyPair()
		k2, err := ParsePublicKey(pk.SerializeUncompressed())
		if err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(k2.SerializeCompressed(), pk.SerializeCompressed()) {
			t.Fatal("another key")
		}
	}
}
''')
seed("c19-short-private-key", "C19", "private key bytes that lost their leading zero (31 bytes)",
 "private key bytes shorter than 32 bytes are accepted, kept as a key that names another account or crashes when used", "common/crypto",
 [("common/crypto/key.go", "	if len(b) != PrivateKeyLen {\n", "	if len(b) == 0 || len(b) > PrivateKeyLen {\n")],
'''package crypto

import "testing"

func TestZZDemo(t *testing.T) {
	for n := 0; n < 40; n++ {
		if _, err := ParsePrivateKey(make([]byte, n)); (err == nil) != (n == PrivateKeyLen) {
			t.Fatalf("%d bytes: %v", n, err)
		}
	}
}
''')
