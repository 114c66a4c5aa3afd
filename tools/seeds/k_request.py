JC = "common/jsonrpc/client.go"
IC = "chain/icon/client/client.go"
EC = "chain/ethbr/client/client.go"
seed("c22-error-with-result", "C22", "a node that answers with both an error and a null or partial result",
 "an answer that carries an error next to a result is taken for a success", "common/jsonrpc",
 [(JC, "	if jrResp.Error != nil {\n		err = jrResp.Error\n		return\n	}\n", "	if jrResp.Error != nil && jrResp.Result == nil {\n		err = jrResp.Error\n		return\n	}\n")],
'''package jsonrpc

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestZZDemo(t *testing.T) {
	body := ""
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		w.Write([]byte(body))
	}))
	defer srv.Close()
	c := NewJsonRpcClient(&http.Client{}, srv.URL)
	for _, b := range []string{
		`{"jsonrpc":"2.0","id":1,"error":{"code":-31003,"message":"executing"}}`,
		`{"jsonrpc":"2.0","id":1,"result":"0x1","error":{"code":-31003,"message":"executing"}}`,
	} {
		body = b
		var r string
		if _, err := c.Do("icx_getTransactionResult", nil, &r); err == nil {
			t.Fatalf("an error was taken for %q", r)
		}
	}
	body = `{"jsonrpc":"2.0","id":1,"result":"0x2"}`
	var r string
	if _, err := c.Do("icx_getTransactionResult", nil, &r); err != nil || r != "0x2" {
		t.Fatal(err, r)
	}
}
''')
seed("c22-eth-logs-error", "C22", "a log query that the Ethereum node refuses (rate limit, unknown block)",
 "a failed log query is handed out as an empty list, so that the block looks as if it held no messages", "chain/ethbr/client",
 [(EC, "	logs, err := c.ethClient.FilterLogs(ctx, fq)\n	if err != nil {\n		return nil, err\n	}\n	return logs, nil\n", "	logs, err := c.ethClient.FilterLogs(ctx, fq)\n	if err != nil {\n		if _, ok := err.(rpc.Error); !ok {\n			return nil, err\n		}\n		c.log.Debugf(\"no logs: %v\", err)\n	}\n	return logs, nil\n")],
'''package client

import (
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum"
	"github.com/icon-project/btp/common/log"
)

func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		id := string(b[strings.Index(string(b), "\\"id\\":")+5:])
		id = id[:strings.IndexAny(id, ",}")]
		w.Header().Set("Content-Type", "application/json")
		if strings.Contains(string(b), "eth_chainId") {
			w.Write([]byte(`{"jsonrpc":"2.0","id":` + id + `,"result":"0x1"}`))
			return
		}
		w.Write([]byte(`{"jsonrpc":"2.0","id":` + id + `,"error":{"code":-32005,"message":"limit exceeded"}}`))
	}))
	defer srv.Close()
	c := NewClient(srv.URL, log.New())
	if logs, err := c.FilterLogs(ethereum.FilterQuery{}); err == nil {
		t.Fatalf("a failed query gave %d logs", len(logs))
	}
}
''')
