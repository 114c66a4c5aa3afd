
B2 = "chain/icon/btp2/btp2.go"
seed("c08-proof-decode-ignored", "C08", "a node that answers a BTP block's proof in an encoding that cannot be decoded",
 "the failure of decoding a block's proof is dropped, so the block update goes out with a cut-off proof", "chain/icon/btp2",
 [(B2, "	p, err := base64.StdEncoding.DecodeString(pB64)\n	if err != nil {\n		return nil, nil, err\n	}\n", "	p, _ := base64.StdEncoding.DecodeString(pB64)\n")],
'''package btp2

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/log"
)

func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var q struct {
			ID     interface{} `json:"id"`
			Method string      `json:"method"`
		}
		_ = json.NewDecoder(r.Body).Decode(&q)
		ans := "AQID"
		if q.Method == "btp_getProof" {
			ans = "AQIDBAUG-_8="
		}
		w.Header().Set("Content-Type", "application/json")
		id, _ := json.Marshal(q.ID)
		fmt.Fprintf(w, `{"jsonrpc":"2.0","id":%s,"result":%q}`, id, ans)
	}))
	defer srv.Close()
	l := log.New()
	b := &btp2{c: client.NewClient(srv.URL, l), l: l}
	h, p, err := b.getBtpHeader(10)
	if err == nil {
		t.Fatalf("a damaged proof was taken for one: header %x proof %x", h, p)
	}
}
''')
seed("c08-catchup-logs-dropped", "C08", "a log query that fails for one block while the relay watches an Ethereum chain",
 "a block whose logs could not be read is handed over as a block without messages", "chain/ethbr/client",
 [("chain/ethbr/client/client.go", "				c.log.Info(\"Unable to get logs \", err)\n				return err\n", "				c.log.Info(\"Unable to get logs \", err)\n")],
'''package client

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/core/types"

	"github.com/icon-project/btp/common/log"
)

func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var q struct {
			ID     json.RawMessage `json:"id"`
			Method string          `json:"method"`
		}
		_ = json.NewDecoder(r.Body).Decode(&q)
		w.Header().Set("Content-Type", "application/json")
		switch q.Method {
		case "eth_chainId", "eth_blockNumber":
			fmt.Fprintf(w, `{"jsonrpc":"2.0","id":%s,"result":"0x1"}`, q.ID)
		case "eth_getBlockByNumber":
			b, _ := json.Marshal(&types.Header{Number: big.NewInt(1), Difficulty: big.NewInt(1)})
			fmt.Fprintf(w, `{"jsonrpc":"2.0","id":%s,"result":%s}`, q.ID, b)
		default:
			fmt.Fprintf(w, `{"jsonrpc":"2.0","id":%s,"error":{"code":-32000,"message":"busy"}}`, q.ID)
		}
	}))
	defer srv.Close()
	c := NewClient(srv.URL, log.New())
	got := make(chan string, 2)
	go func() {
		err := c.MonitorBlock(&BlockRequest{Height: big.NewInt(1), FilterQuery: &ethereum.FilterQuery{}}, func(b *BlockNotification) error {
			got <- "a block whose logs could not be read was handed over"
			return fmt.Errorf("end")
		})
		if err == nil {
			got <- "no error"
		} else {
			got <- ""
		}
	}()
	select {
	case r := <-got:
		if r != "" {
			t.Fatal(r)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("timeout")
	}
}
''')
EE = "common/errors/errors.go"
seed("c12-recode-loses-cause", "C12", "giving a new code to an error that already has one",
 "the error that got a new code no longer leads to the error it was made from", "common/errors",
 [(EE, "		return Wrapc(err, code, err.Error())\n", "		return Errorc(code, err.Error())\n")],
'''package errors

import "testing"

func TestZZDemo(t *testing.T) {
	base := InvalidNetworkError.New("base")
	for _, e := range []error{base, New("plain"), Wrap(base, "w"), ErrTimeout} {
		r := WithCode(e, NotFoundError)
		if CodeOf(r) != NotFoundError || r.Error() != e.Error() {
			t.Fatalf("code %d message %q", CodeOf(r), r.Error())
		}
		if !Is(r, e) {
			t.Fatalf("%v does not lead to %v", r, e)
		}
	}
}
''')
seed("c12-formatted-wrap-own-cause", "C12", "an error wrapped with a formatted message and a code, whose cause is asked for",
 "unwrapping a coded wrapping whose message was formatted leads to the message instead of the wrapped error", "common/errors",
 [(EE, "		error:  errors.Errorf(f, args...),\n		code:   c,\n		origin: e,\n	}\n", "		error:  errors.Wrapf(e, f, args...),\n		code:   c,\n		origin: errors.Cause(e),\n	}\n")],
'''package errors

import "testing"

func TestZZDemo(t *testing.T) {
	base := InvalidNetworkError.New("base")
	st := WithStack(base)
	for _, e := range []error{base, st, New("plain"), Wrap(base, "w"), ErrTimeout} {
		r := NotFoundError.Wrapf(e, "no %s %d", "x", 5)
		if CodeOf(r) != NotFoundError || r.Error() != "no x 5" {
			t.Fatalf("code %d message %q", CodeOf(r), r.Error())
		}
		if !Is(r, e) {
			t.Fatalf("%v does not lead to %v", r, e)
		}
	}
}
''')
