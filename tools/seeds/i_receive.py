seed("c14-bridge-resume-offset", "C14", "a destination that already received the first messages of a source block, so that the proof starts in the block's middle",
 "the proof repeats the block's first messages instead of carrying the ones that follow the destination's last received sequence", "chain/icon/bridge",
 [("chain/icon/bridge/bridge.go", "		trp.Events = append(trp.Events, rs.ReceiptProof().Events[i])\n", "		trp.Events = append(trp.Events, rs.ReceiptProof().Events[i-offset])\n")],
'''package bridge

import (
	"encoding/base64"
	"fmt"
	"testing"

	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/types"
)

func TestZZDemo(t *testing.T) {
	var msgs []string
	for i := 0; i < 5; i++ {
		msgs = append(msgs, base64.StdEncoding.EncodeToString([]byte(fmt.Sprintf("m%d", i))))
	}
	rs, err := newReceiveStatus(100, 10, 11, msgs, "btp://0x1.icon/cx00")
	if err != nil {
		t.Fatal(err)
	}
	b := &bridge{rss: []*receiveStatus{rs}}
	for rx := int64(10); rx < 15; rx++ {
		bls := &types.BMCLinkStatus{RxSeq: rx}
		bls.Verifier.Height = 100
		p, err := b.BuildMessageProof(bls, 1<<20)
		if err != nil || p == nil {
			t.Fatalf("rx=%d no proof %v", rx, err)
		}
		var rm struct{ Receipts [][]byte }
		if _, err = codec.RLP.UnmarshalFromBytes(p.(*MessageProof).Bytes(), &rm); err != nil {
			t.Fatal(err)
		}
		var r struct {
			Index  int64
			Events []byte
			Height int64
		}
		if _, err = codec.RLP.UnmarshalFromBytes(rm.Receipts[0], &r); err != nil {
			t.Fatal(err)
		}
		var evs []struct {
			Next     string
			Sequence int64
			Message  []byte
		}
		if _, err = codec.RLP.UnmarshalFromBytes(r.Events, &evs); err != nil {
			t.Fatal(err)
		}
		if len(evs) != int(15-rx) {
			t.Fatalf("rx=%d: %d messages", rx, len(evs))
		}
		for i, e := range evs {
			if e.Sequence != rx+1+int64(i) {
				t.Fatalf("rx=%d: message %d has sequence %d", rx, i, e.Sequence)
			}
		}
	}
}
''')
seed("c14-btp2-rest-of-block", "C14", "a BTP block of several messages of which the destination already received some",
 "the rest of the block is proven from the block's first message on, although the destination already received it, so the destination rejects the proof", "chain/icon/btp2",
 [("chain/icon/btp2/btp2.go", "	p, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(messageCnt))\n", "	p, err := rs.MerkleBinaryTree().Proof(1, int(messageCnt))\n")],
'''package btp2

import (
	"encoding/base64"
	"fmt"
	"testing"

	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/types"
)

func TestZZDemo(t *testing.T) {
	var msgs []string
	for i := 0; i < 4; i++ {
		msgs = append(msgs, base64.StdEncoding.EncodeToString([]byte(fmt.Sprintf("m%d", i))))
	}
	rs, err := newReceiveStatus(100, 14, msgs)
	if err != nil {
		t.Fatal(err)
	}
	b := &btp2{rss: []*receiveStatus{rs}}
	for rx := int64(10); rx < 14; rx++ {
		bls := &types.BMCLinkStatus{RxSeq: rx}
		bls.Verifier.Height = 100
		p, err := b.BuildMessageProof(bls, 1<<20)
		if err != nil || p == nil {
			t.Fatalf("rx=%d: no proof: %v", rx, err)
		}
		want, err := rs.MerkleBinaryTree().Proof(int(rx-10+1), 4)
		if err != nil {
			t.Fatal(err)
		}
		if string(p.(*MessageProof).Payload()) != string(codec.RLP.MustMarshalToBytes(*want)) {
			t.Fatalf("rx=%d: the proof is not that of the following messages", rx)
		}
		if p.LastSeqNum() != 14 {
			t.Fatalf("rx=%d: last=%d", rx, p.LastSeqNum())
		}
	}
}
''')
seed("c20-btp2-skip-large-update", "C20", "received blocks of which an earlier one's update is larger than the limit and a later one's is not",
 "a block update that exceeds the limit is left out while the following ones are still built, so the destination is given block updates with a gap", "chain/icon/btp2",
 [("chain/icon/btp2/btp2.go", "			return bus, nil\n		}\n", "			continue\n		}\n")],
'''package btp2

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"testing"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
)

func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var req struct {
			Id     json.RawMessage `json:"id"`
			Method string          `json:"method"`
			Params struct {
				Height string `json:"height"`
			} `json:"params"`
		}
		if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
			w.WriteHeader(500)
			return
		}
		h, _ := strconv.ParseInt(strings.TrimPrefix(req.Params.Height, "0x"), 16, 64)
		var b []byte
		if req.Method == "btp_getHeader" {
			b = codec.RLP.MustMarshalToBytes(&client.BTPBlockHeader{MainHeight: h})
		} else {
			b = make([]byte, 10)
			if h == 102 {
				b = make([]byte, 2000)
			}
		}
		w.Header().Set("Content-Type", "application/json")
		fmt.Fprintf(w, `{"jsonrpc":"2.0","id":%s,"result":"%s"}`, req.Id, base64.StdEncoding.EncodeToString(b))
	}))
	defer srv.Close()
	l := log.New()
	b := NewBTP2("btp://0x1.icon/cx01", "btp://0x2.icon/cx02", srv.URL, l)
	for h := int64(101); h <= 104; h++ {
		rs, err := newReceiveStatus(h, h, []string{""})
		if err != nil {
			t.Fatal(err)
		}
		b.rss = append(b.rss, rs)
	}
	bls := &types.BMCLinkStatus{RxSeq: 100}
	bls.Verifier.Height = 100
	bus, err := b.BuildBlockUpdate(bls, 1000)
	if err != nil {
		t.Fatal(err)
	}
	for i, bu := range bus {
		if bu.TargetHeight() != 101+int64(i) {
			t.Fatalf("update %d is for height %d", i, bu.TargetHeight())
		}
	}
}
''')
seed("c21-bridge-first-sequence", "C21", "a link whose network carried messages before (a link offset and a block update number that are not both small)",
 "the sequences given to a block's messages are computed with the wrong precedence, so messages are numbered wrongly or taken as already received", "chain/icon/bridge",
 [("chain/icon/bridge/bridge.go", "			sn := offset + bh.UpdateNumber>>1\n", "			sn := (offset + bh.UpdateNumber) >> 1\n")],
'''package bridge

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/websocket"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
)

func TestZZDemo(t *testing.T) {
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	stop := make(chan struct{})
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.HasSuffix(r.URL.Path, "/btp") {
			conn, err := up.Upgrade(w, r, nil)
			if err != nil {
				return
			}
			defer conn.Close()
			var req map[string]interface{}
			if conn.ReadJSON(&req) != nil {
				return
			}
			_ = conn.WriteJSON(map[string]interface{}{"code": 0})
			h := codec.RLP.MustMarshalToBytes(&client.BTPBlockHeader{MainHeight: 101, UpdateNumber: 6 << 1})
			_ = conn.WriteJSON(map[string]string{"header": base64.StdEncoding.EncodeToString(h)})
			<-stop
			return
		}
		var req struct {
			Id     json.RawMessage `json:"id"`
			Method string          `json:"method"`
			Params struct {
				Data struct {
					Method string `json:"method"`
				} `json:"data"`
			} `json:"params"`
		}
		if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
			w.WriteHeader(500)
			return
		}
		res := `""`
		switch req.Method {
		case "btp_getNetworkInfo":
			res = `{"startHeight":"0x1"}`
		case "btp_getMessages":
			res = `["bTA=","bTE="]`
		case "icx_call":
			if req.Params.Data.Method == "getBTPLinkOffset" {
				res = `"0x14"`
			} else {
				res = `"0x1"`
			}
		}
		w.Header().Set("Content-Type", "application/json")
		fmt.Fprintf(w, `{"jsonrpc":"2.0","id":%s,"result":%s}`, req.Id, res)
	}))
	defer srv.Close()
	defer close(stop)
	b := NewBridge("btp://0x1.icon/cx01", "btp://0x2.icon/cx02", srv.URL, log.New())
	bls := &types.BMCLinkStatus{RxSeq: 26}
	bls.Verifier.Height = 100
	ch, err := b.Start(bls)
	if err != nil {
		t.Fatal(err)
	}
	select {
	case <-ch:
	case <-time.After(20 * time.Second):
		t.Fatal("nothing reported")
	}
	rs := b.rss[0]
	// 20 (offset) + 1 + 6 messages before: 27 and 28
	if rs.Seq() != 28 || len(rs.rp.Events) != 2 || rs.rp.Events[0].Sequence != 27 || rs.rp.Events[1].Sequence != 28 {
		t.Fatalf("seq=%d events=%d", rs.Seq(), len(rs.rp.Events))
	}
}
''')
seed("c21-eth-forget-undelivered", "C21", "a block whose height the destination has verified while some of its messages are not yet received",
 "a received block is forgotten once the destination reaches its height, although messages of it are still undelivered; they are never relayed", "chain/ethbr",
 [("chain/ethbr/receiver.go", "		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {\n", "		if rs.Height() <= bls.Verifier.Height && rs.rps[0].Events[0].Sequence.Int64() <= bls.RxSeq {\n")],
'''package ethbr

import (
	"math/big"
	"testing"

	"github.com/icon-project/btp/chain/ethbr/client"
	"github.com/icon-project/btp/common/log"
	btpTypes "github.com/icon-project/btp/common/types"
)

func TestZZDemo(t *testing.T) {
	rp := &client.ReceiptProof{Height: 100}
	for i := int64(11); i <= 14; i++ {
		rp.Events = append(rp.Events, &client.Event{Next: "btp://0x1.icon/cx01", Sequence: big.NewInt(i), Message: []byte{1}})
	}
	rs, err := newReceiveStatus(100, 14, []*client.ReceiptProof{rp})
	if err != nil {
		t.Fatal(err)
	}
	e := &ethbr{l: log.New(), rss: []*receiveStatus{rs}}
	for rx := int64(10); rx < 14; rx++ {
		bls := &btpTypes.BMCLinkStatus{RxSeq: rx}
		bls.Verifier.Height = 100
		if _, err := e.BuildBlockUpdate(bls, 1<<20); err != nil {
			t.Fatal(err)
		}
		mp, err := e.BuildMessageProof(bls, 1<<20)
		if err != nil {
			t.Fatal(err)
		}
		if mp == nil {
			t.Fatalf("rx=%d: the block was forgotten", rx)
		}
		if mp.LastSeqNum() != 14 {
			t.Fatalf("rx=%d: last %d", rx, mp.LastSeqNum())
		}
	}
}
''')
