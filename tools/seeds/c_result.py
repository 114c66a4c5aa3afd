seed("c11-executing-is-final", "C11", "the destination node answers that the transaction is still being executed (not merely pending) while the outcome is polled",
 "polling ends on the executing answer: a message whose outcome is not known yet counts as failed without a code, and its revert is never reported", "chain/icon",
 [("chain/icon/sender.go", "				switch je.Code {\n				case client.JsonrpcErrorCodePending, client.JsonrpcErrorCodeExecuting:\n					<-time.After", "				switch je.Code {\n				case client.JsonrpcErrorCodePending:\n					<-time.After")],
'''package icon

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/log"
)

func TestZZDemo(t *testing.T) {
	n := 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n++
		w.Header().Set("Content-Type", "application/json")
		switch n {
		case 1:
			fmt.Fprint(w, `{"jsonrpc":"2.0","id":1,"error":{"code":-31002,"message":"Pending"}}`)
		case 2:
			fmt.Fprint(w, `{"jsonrpc":"2.0","id":1,"error":{"code":-31003,"message":"Executing"}}`)
		default:
			fmt.Fprint(w, `{"jsonrpc":"2.0","id":1,"result":{"status":"0x1"}}`)
		}
	}))
	defer srv.Close()
	l := log.New()
	s := &sender{l: l, c: client.NewClient(srv.URL, l)}
	txr, err := s.GetResult(&client.TransactionHashParam{Hash: "0x01"})
	if err != nil || txr == nil || txr.Status != client.ResultStatusSuccess {
		t.Fatalf("outcome of a successful transaction: %+v, %v (after %d answers)", txr, err, n)
	}
}
''')
seed("c11-last-revert-code-lost", "C11", "a contract reverts with the largest code of the revert range",
 "the revert with the last code of the range is turned into an error without a code and is therefore not reported to the link", "chain/icon",
 [("chain/icon/sender.go", "fc < client.ResultStatusFailureCodeRevert || fc > client.ResultStatusFailureCodeEnd", "fc < client.ResultStatusFailureCodeRevert || fc >= client.ResultStatusFailureCodeEnd")],
'''package icon

import (
	"testing"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/errors"
)

func TestZZDemo(t *testing.T) {
	for fc := int64(32); fc <= 99; fc++ {
		txr := &client.TransactionResult{Status: "0x0"}
		txr.Failure = &struct {
			CodeValue    client.HexInt `json:"code"`
			MessageValue string        `json:"message"`
		}{CodeValue: client.NewHexInt(fc)}
		err := mapErrorWithTransactionResult(txr, nil)
		ec, ok := errors.CoderOf(err)
		if !ok || int64(ec.ErrorCode()) != fc-32 {
			t.Fatalf("failure code %d: %v", fc, err)
		}
	}
}
''')
