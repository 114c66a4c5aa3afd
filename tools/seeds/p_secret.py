
MNF = "cmd/relay/main.go"
seed("c25-save-keeps-password", "C25", "saving the configuration of a side in bridge mode whose password was given directly",
 "that side's key-store password is written in the clear to the saved configuration", "cmd/relay",
 [(MNF, '				cfg.Src.KeyStorePass = ""\n				cfg.Dst.KeyStorePass = ""\n', '				for _, b := range []*chain.BaseConfig{&cfg.Src, &cfg.Dst} {\n					if b.KeySecret == "" && len(b.KeyStoreData) > 0 && b.BridgeMode {\n						continue\n					}\n					b.KeyStorePass = ""\n				}\n')],
'''package main

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "saved.json")
	old := os.Args
	defer func() { os.Args = old }()
	os.Args = []string{"btp2", "save", f, "--src.key_password", "source-pass-1", "--dst.key_password", "target-pass-2", "--dst.bridge_mode",
		"--src.address", "btp://0x1.icon/cx0000000000000000000000000000000000000001", "--dst.address", "btp://0x2.icon/cx0000000000000000000000000000000000000002",
		"--src.endpoint", "http://localhost:1", "--dst.endpoint", "http://localhost:2"}
	main()
	b, err := ioutil.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	for _, p := range []string{"source-pass-1", "target-pass-2"} {
		if strings.Contains(string(b), p) {
			t.Fatalf("the saved configuration holds the password %s:\\n%s", p, b)
		}
	}
}
''')

KSF = "common/wallet/keystore.go"
seed("c25-key-in-mismatch-error", "C25", "a key store whose address was changed after it was made",
 "the error about the mismatching address prints the recovered private key", "common/wallet",
 [(KSF, '		return nil, fmt.Errorf("recovered address is mismatched, %s, expected:%s",\n			address.String(), ksData.Address.String())', '		return nil, fmt.Errorf("recovered address is mismatched, key:%s address:%s, expected:%s",\n			secret, address.String(), ksData.Address.String())')],
'''package wallet

import (
	"encoding/hex"
	"encoding/json"
	"strings"
	"testing"

	"github.com/icon-project/btp/common/crypto"
)

func TestZZDemo(t *testing.T) {
	sk, _ := crypto.GenerateKeyPair()
	other, _ := crypto.GenerateKeyPair()
	ks, err := EncryptKeyAsKeyStore(sk, []byte("pw"))
	if err != nil {
		t.Fatal(err)
	}
	ks2, err := EncryptKeyAsKeyStore(other, []byte("pw"))
	if err != nil {
		t.Fatal(err)
	}
	var m, m2 map[string]interface{}
	if err := json.Unmarshal(ks, &m); err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(ks2, &m2); err != nil {
		t.Fatal(err)
	}
	m["address"] = m2["address"]
	b, _ := json.Marshal(m)
	_, err = DecryptKeyStore(b, []byte("pw"))
	if err == nil {
		t.Fatal("a key store of another address was accepted")
	}
	if strings.Contains(err.Error(), hex.EncodeToString(sk.Bytes())) {
		t.Fatalf("the error tells the private key: %v", err)
	}
}
''')
