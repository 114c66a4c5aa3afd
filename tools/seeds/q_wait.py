seed("c01-relay-waits-under-lock", "C01", "the link relays a message (it holds its lock while it does) and the destination answers: the answer is handed to the goroutine that needs the same lock",
 "sending a message waits, with the link's lock held, until its outcome has been taken by a goroutine that waits for that lock: nothing is ever relayed again", "chain/icon",
 [("chain/icon/sender.go", "	go s.result(rm.Id(), thp)\n", "	s.result(rm.Id(), thp)\n")],
'''package icon

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
	"time"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/common/wallet"
)

type zzMsg struct{}

func (zzMsg) Id() int                             { return 7 }
func (zzMsg) Bytes() []byte                       { return []byte{1, 2, 3} }
func (zzMsg) Size() int64                         { return 3 }
func (zzMsg) BMCLinkStatus() *types.BMCLinkStatus { return &types.BMCLinkStatus{} }

func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var q struct{ Method string }
		json.NewDecoder(r.Body).Decode(&q)
		w.Header().Set("Content-Type", "application/json")
		switch q.Method {
		case "icx_sendTransaction", "icx_sendTransactionAndWait":
			fmt.Fprint(w, `{"jsonrpc":"2.0","id":1,"result":"0x01"}`)
		case "icx_call":
			fmt.Fprint(w, `{"jsonrpc":"2.0","id":1,"result":{"tx_seq":"0x1","rx_seq":"0x1","verifier":{"height":"0x1","extra":"0x00"}}}`)
		default:
			fmt.Fprint(w, `{"jsonrpc":"2.0","id":1,"result":{"status":"0x1"}}`)
		}
	}))
	defer srv.Close()
	l := log.New()
	s := &sender{l: l, c: client.NewClient(srv.URL, l), w: wallet.New(), src: "btp://0x1.icon/cx00", dst: "btp://0x2.icon/cx01", sc: make(chan types.SenderMessage)}
	s.opt.StepLimit = DefaultStepLimit
	var mtx sync.Mutex // the link's lock: held while a message is relayed, needed to take an outcome
	mtx.Lock()
	got := make(chan struct{})
	go func() {
		mtx.Lock()
		defer mtx.Unlock()
		<-s.sc
		close(got)
	}()
	done := make(chan error, 1)
	go func() {
		_, err := s.Relay(zzMsg{})
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("relaying a message does not return while nobody takes its outcome")
	}
	mtx.Unlock()
	select {
	case <-got:
	case <-time.After(5 * time.Second):
		t.Fatal("no outcome")
	}
}
''')
