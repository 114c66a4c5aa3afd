seed("c09-secret-file-ignored", "C09", "a side configured with both a secret file and a plain password",
 "the secret file named in the configuration is ignored when a plain password is also set, so the wallet is opened with the wrong password",
 "cmd/relay", [("cmd/relay/main.go", """	if keySecret != "" {
		return ioutil""", """	if keySecret != "" && keyStorePass == "" {
		return ioutil""")],
'''package main

import (
	"io/ioutil"
	"path/filepath"
	"testing"

	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/wallet"
)

func TestZZDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "secret")
	if err := ioutil.WriteFile(f, []byte("right"), 0600); err != nil {
		t.Fatal(err)
	}
	k, _ := crypto.GenerateKeyPair()
	ks, err := wallet.EncryptKeyAsKeyStore(k, []byte("right"))
	if err != nil {
		t.Fatal(err)
	}
	c := &Config{}
	if _, err := c.Wallet("stale", f, ks); err != nil {
		t.Fatalf("wallet not opened with the secret file: %v", err)
	}
}
''')
seed("c09-reverse-link-own-wallet", "C09", "the relay running in both directions between chains with different wallets",
 "the reverse link of a two-way relay is given its own source's wallet instead of its destination's",
 "cmd/relay", [("cmd/relay/linkfatory.go", "newLink(dstCfg.Src.Address.BlockChain(), dstCfg, dstLog, srcWallet, linkErrCh)", "newLink(dstCfg.Src.Address.BlockChain(), dstCfg, dstLog, dstWallet, linkErrCh)")],
'''package main

import (
	"net/http"
	"net/http/httptest"
	"testing"
	"time"
	"encoding/json"

	"github.com/icon-project/btp/chain"
	"github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/common/wallet"
)

// the sender asks its destination's node for the link status with its wallet's address as the caller
func TestZZDemo(t *testing.T) {
	froms := make(chan string, 100)
	h := func(name string) *httptest.Server {
		return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			var m struct {
				Method string
				Params struct{ From string }
			}
			json.NewDecoder(r.Body).Decode(&m)
			if m.Params.From != "" {
				froms <- name + " " + m.Params.From
			}
			http.Error(w, "no", http.StatusInternalServerError)
		}))
	}
	a, b := h("a"), h("b")
	defer a.Close()
	defer b.Close()
	wa, wb := wallet.New(), wallet.New()
	cfg := &Config{LogLevel: "panic", ConsoleLevel: "panic"}
	cfg.Direction = "both"
	cfg.Src = chain.BaseConfig{Address: types.BtpAddress("btp://0x1.icon/cx0000000000000000000000000000000000000001"), Endpoint: a.URL}
	cfg.Dst = chain.BaseConfig{Address: types.BtpAddress("btp://0x2.icon/cx0000000000000000000000000000000000000002"), Endpoint: b.URL}
	cfg.BaseDir = t.TempDir()
	go func() {
		defer func() { recover() }()
		NewLink(cfg, wa, wb, nil)
	}()
	seen := map[string]bool{}
	for end := time.After(5 * time.Second); len(seen) < 2; {
		select {
		case f := <-froms:
			if f != "a "+wa.Address() && f != "b "+wb.Address() {
				t.Fatalf("wrong wallet used: %s (a=%s b=%s)", f, wa.Address(), wb.Address())
			}
			seen[f] = true
		case <-end:
			if len(seen) == 0 {
				t.Log("nothing observed")
			}
			return
		}
	}
}
''')
