seed("c07-missing-mac-accepted", "C07", "a key store file whose mac entry is empty",
 "a key store without a MAC is opened without the password check", "common/wallet",
 [("common/wallet/keystore.go", "	if !bytes.Equal(mac, ksData.Crypto.MAC.Bytes()) {", "	if want := ksData.Crypto.MAC.Bytes(); len(want) > 0 && !bytes.Equal(mac, want) {")],
'''package wallet

import (
	"encoding/json"
	"testing"
)

func TestZZDemo(t *testing.T) {
	w := New()
	data, err := KeyStoreFromWallet(w, []byte("pw"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := DecryptKeyStore(data, []byte("pw")); err != nil {
		t.Fatal(err)
	}
	m := make(map[string]interface{})
	if err := json.Unmarshal(data, &m); err != nil {
		t.Fatal(err)
	}
	m["crypto"].(map[string]interface{})["mac"] = ""
	data, _ = json.Marshal(m)
	if _, err := DecryptKeyStore(data, []byte("pw")); err == nil {
		t.Fatal("opened without a MAC")
	}
}
''')
seed("c07-iv-reused", "C07", "two key stores saved by one process",
 "only half of the initial vector of a saved key store is random", "common/wallet",
 [("common/wallet/keystore.go", "	_, err = io.ReadFull(rand.Reader, c.IV)\n", "	_, err = io.ReadFull(rand.Reader, c.IV[:copy(c.IV, k.Salt[:8])])\n")],
'''package wallet

import (
	"encoding/hex"
	"encoding/json"
	"testing"
)

func TestZZDemo(t *testing.T) {
	data, err := KeyStoreFromWallet(New(), []byte("pw"))
	if err != nil {
		t.Fatal(err)
	}
	var ks struct {
		Crypto struct {
			CipherParams struct {
				IV string `json:"iv"`
			} `json:"cipherparams"`
		} `json:"crypto"`
	}
	if err := json.Unmarshal(data, &ks); err != nil {
		t.Fatal(err)
	}
	iv, err := hex.DecodeString(ks.Crypto.CipherParams.IV)
	if err != nil || len(iv) != 16 {
		t.Fatal(err, len(iv))
	}
	zero := true
	for _, b := range iv[8:] {
		zero = zero && b == 0
	}
	if zero {
		t.Fatal("second half of the IV is not random")
	}
}
''')
