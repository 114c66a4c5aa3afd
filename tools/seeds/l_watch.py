IC = "chain/icon/client/client.go"
EC = "chain/ethbr/client/client.go"
seed("c23-notification-reused", "C23", "an ICON node whose later notification leaves out a field an earlier one had",
 "notifications are decoded into one value that is reused, so that what one notification leaves out is taken from the one before, and a notification kept by the watcher changes", "chain/icon/client",
 [(IC, "		v := reflect.New(elem.Type())\n		ptr := v.Interface()\n		if !c._hasWsConn", "		if !c._hasWsConn"),
  (IC, "	elem := reflect.ValueOf(respPtr).Elem()\n	for {\n", "	elem := reflect.ValueOf(respPtr).Elem()\n	ptr := reflect.New(elem.Type()).Interface()\n	for {\n")],
'''package client

import (
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/icon-project/btp/common/log"
)

func TestZZDemo(t *testing.T) {
	up := websocket.Upgrader{}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		conn, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer conn.Close()
		var req map[string]interface{}
		conn.ReadJSON(&req)
		conn.WriteJSON(map[string]interface{}{"code": 0})
		conn.WriteMessage(websocket.TextMessage, []byte(`{"header":"aa","proof":"bb"}`))
		conn.WriteMessage(websocket.TextMessage, []byte(`{"header":"cc"}`))
		conn.ReadMessage()
	}))
	defer srv.Close()
	c := NewClient(srv.URL, log.New())
	var got []*BTPNotification
	done := make(chan error, 1)
	go func() {
		done <- c.MonitorBTP(&BTPRequest{}, func(conn *websocket.Conn, v *BTPNotification) error {
			got = append(got, v)
			if len(got) == 2 {
				c.CloseMonitor(conn)
			}
			return nil
		}, nil, func(*websocket.Conn, error) {})
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("the watch does not end")
	}
	if len(got) != 2 || got[0].Header != "aa" || got[0].Proof != "bb" || got[1].Header != "cc" || got[1].Proof != "" {
		t.Fatalf("%d notifications, %+v", len(got), got)
	}
}
''')
seed("c23-catchup-skips", "C23", "a header request that fails once while blocks missed before the watch began are fetched",
 "a missed block whose header could not be fetched is skipped, and the watch goes on with the next", "chain/ethbr/client",
 [(EC, '					c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)\n					return err\n', '					c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)\n					if h.Cmp(br.Height) == 0 {\n						return err\n					}\n')],
'''package client

import (
	"encoding/json"
	"errors"
	"io/ioutil"
	"math/big"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/core/types"
	"github.com/icon-project/btp/common/log"
)

func TestZZDemo(t *testing.T) {
	failed := false
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		var q struct {
			Id     json.RawMessage
			Method string
			Params []interface{}
		}
		json.Unmarshal(b, &q)
		w.Header().Set("Content-Type", "application/json")
		res := `"0x1"`
		switch q.Method {
		case "eth_blockNumber":
			res = `"0x5"`
		case "eth_getBlockByNumber":
			n, _ := new(big.Int).SetString(strings.TrimPrefix(q.Params[0].(string), "0x"), 16)
			if n.Int64() == 3 && !failed {
				failed = true
				w.Write([]byte(`{"jsonrpc":"2.0","id":` + string(q.Id) + `,"error":{"code":-32005,"message":"limit exceeded"}}`))
				return
			}
			h, _ := json.Marshal(&types.Header{Number: n, Difficulty: big.NewInt(1), Extra: []byte{}})
			res = string(h)
		}
		w.Write([]byte(`{"jsonrpc":"2.0","id":` + string(q.Id) + `,"result":` + res + `}`))
	}))
	defer srv.Close()
	c := NewClient(srv.URL, log.New())
	next, enough := int64(2), errors.New("enough")
	err := c.MonitorBlock(&BlockRequest{Height: big.NewInt(2)}, func(b *BlockNotification) error {
		if b.Height.Int64() != next {
			t.Fatalf("block %v, expected %v", b.Height, next)
		}
		if next++; next == 7 {
			return enough
		}
		return nil
	})
	if err == nil {
		t.Fatal("the watch ended without an error")
	}
}
''')
