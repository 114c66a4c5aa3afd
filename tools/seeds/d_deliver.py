seed("c13-fragment-exact-multiple", "C13", "a relay message whose size is an exact multiple (at least twice) of the transaction size limit",
 "the final, empty fragment is skipped for a message that is an exact multiple of the limit, so the contract never sees index 0 and never processes the message, while the relay call succeeds", "chain/icon",
 [("chain/icon/sender.go", "		if thp, err = s.sendFragment(msg[:], idx); err != nil {\n			return nil, err\n		}\n", "		if len(msg) > 0 {\n			if thp, err = s.sendFragment(msg[:], idx); err != nil {\n				return nil, err\n			}\n		}\n")],
'''package icon

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
)

type zzWallet struct{}

func (zzWallet) Address() string                  { return "hx0000000000000000000000000000000000000001" }
func (zzWallet) Sign(data []byte) ([]byte, error) { return make([]byte, 65), nil }
func (zzWallet) PublicKey() []byte                { return nil }
func (zzWallet) ECDH(pubKey []byte) ([]byte, error) {
	return nil, nil
}

type zzMsg struct{ b []byte }

func (m *zzMsg) Id() int                                  { return 1 }
func (m *zzMsg) Bytes() []byte                            { return m.b }
func (m *zzMsg) Size() int64                              { return int64(len(m.b)) }
func (m *zzMsg) RelayMessageItems() []interface{}         { return nil }
func (m *zzMsg) BMCLinkStatus() *types.BMCLinkStatus      { return nil }

// the contract's side of fragments
type zzContract struct {
	last, next int64
	parts      [][]byte
	out        []byte
}

func (c *zzContract) fragment(idx int64, b []byte) error {
	if idx < 0 {
		c.last, c.next, c.parts = -idx, -idx-1, [][]byte{b}
		return nil
	}
	if idx != c.next {
		return fmt.Errorf("invalid index %d, want %d", idx, c.next)
	}
	c.parts = append(c.parts, b)
	if idx == 0 {
		c.out = bytes.Join(c.parts, nil)
	}
	c.next--
	return nil
}

func TestZZDemo(t *testing.T) {
	for _, size := range []int{10, txSizeLimit - 1, txSizeLimit, txSizeLimit + 1, 2*txSizeLimit - 1, 2 * txSizeLimit, 2*txSizeLimit + 7, 3 * txSizeLimit} {
		ct := &zzContract{}
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			var req struct {
				Method string `json:"method"`
				Params struct {
					Data struct {
						Method string `json:"method"`
						Params struct {
							Msg string        `json:"_msg"`
							Idx client.HexInt `json:"_idx"`
						} `json:"params"`
					} `json:"data"`
				} `json:"params"`
			}
			if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
				t.Error(err)
			}
			b, err := base64.URLEncoding.DecodeString(req.Params.Data.Params.Msg)
			if err != nil {
				t.Error(err)
			}
			switch req.Params.Data.Method {
			case "handleRelayMessage":
				ct.out = b
			case "handleFragment":
				i, _ := req.Params.Data.Params.Idx.Value()
				if err := ct.fragment(i, b); err != nil {
					t.Errorf("size %d: %v", size, err)
				}
			}
			fmt.Fprint(w, `{"jsonrpc":"2.0","id":1,"result":"0x01"}`)
		}))
		l := log.New()
		s := &sender{l: l, c: client.NewClient(srv.URL, l), w: zzWallet{},
			src: types.BtpAddress("btp://0x1.icon/cx01"), dst: types.BtpAddress("btp://0x2.icon/cx02")}
		msg := make([]byte, size)
		for i := range msg {
			msg[i] = byte(i * 7)
		}
		if _, err := s._relay(&zzMsg{msg}); err != nil {
			t.Fatal(err)
		}
		srv.Close()
		if !bytes.Equal(ct.out, msg) {
			t.Fatalf("size %d: the contract received %d bytes", size, len(ct.out))
		}
	}
}
''')
