package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "A request to a node succeeds only with the node's answer to it",
		"path-sensitive value-flow over every outcome of the JSON-RPC client and of the node clients' request methods: what was asked, which failures were ruled out, and what is handed out",
		checkRequests)
}

func checkRequests(c *Ctx) {
	q := &reqCheck{c: c}
	q.rpc()
	c.Need("rpc", 1)
	q.icon()
	c.Need("icon", 15)
	q.iconCalls()
	c.Need("icon-call", 2)
	q.eth()
	c.Need("eth", 8)
	q.revert()
	c.Need("eth-revert", 1)
}

type reqCheck struct{ c *Ctx }

// unbox: what an interface value holds.
func unbox(t *Term) *Term {
	for t != nil && t.K == TIface {
		t = t.Args[0]
	}
	return t
}

func (q *reqCheck) rpc() {
	c := q.c
	fn := c.P.Method("common/jsonrpc", "Client", "Do")
	name := "common/jsonrpc.Client.Do"
	if fn == nil {
		c.Missing("rpc", name)
		return
	}
	s := c.Sum(fn, SumCfg{Max: 2000, Track: func(n *Node) string {
		switch n.Callee {
		case "(*net/http.Client).Do":
			return "http"
		case "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal":
			return "dec"
		}
		return ""
	}})
	good := true
	bad := func(pos, m string) { good = false; c.Ob("rpc", name, false, pos, m) }
	n := 0
	for _, o := range s.Outs {
		if o.failed() {
			if e := o.Rets[1]; e.K == TIface {
				if _, ptr := e.Args[0].T.Underlying().(*types.Pointer); ptr {
					if nv, k := nilState(o.St, e.Args[0]); !k || nv {
						bad(o.Pos, "an error may hold nothing: "+s.fl.path(e.Args[0]))
					}
				}
			}
			continue
		}
		n++
		st := o.assumed()
		hs := o.evs("http")
		if len(hs) != 1 {
			bad(o.Pos, "it may succeed without exactly one request")
			continue
		}
		h := hs[0].Args[0]
		if !st.succeeded(h) {
			bad(o.Pos, "a request that failed is a success")
		}
		if w := q.asked(s, st, hs[0].Args[2]); w != "" {
			bad(o.Pos, w)
		}
		resp := s.fl.path(extractOf(s.fl.ts, h, 0))
		if v, k := st.eq(resp+".StatusCode", "200"); !k || !v {
			bad(o.Pos, "an answer with a status other than OK is a success")
		}
		var body, out *Event
		for _, e := range o.evs("dec") {
			src, dst := e.Args[1], e.Args[2]
			if strings.HasSuffix(e.N.Callee, ".Decode") {
				if strings.Contains(s.fl.path(src), resp+".Body") {
					body = e
				}
			} else if strings.Contains(s.fl.path(src), resp+".Body") {
				body = e
			}
			if s.fl.path(unbox(dst)) == "p3" {
				out = e
			}
		}
		if body == nil || !st.succeeded(body.Args[0]) {
			bad(o.Pos, "an answer that was not decoded is a success")
			continue
		}
		obj := unbox(body.Args[2])
		errNil := false
		for _, k := range sortedKeys(st.facts) {
			f := st.facts[k]
			if f.Val && f.T.K == TBin && f.T.Op == "==" && (f.T.Args[0].isNil() || f.T.Args[1].isNil()) && strings.HasSuffix(s.fl.path(f.T.Args[0]), ".Error") || f.Val && f.T.K == TBin && f.T.Op == "==" && strings.HasSuffix(s.fl.path(f.T.Args[1]), ".Error") && f.T.Args[0].isNil() {
				for i := 0; i < 2; i++ {
					if rootedAt(f.T.Args[i], obj) {
						errNil = true
					}
				}
			}
		}
		if !errNil {
			bad(o.Pos, "an answer with an error is a success")
		}
		if nv, k := nilState(st, param(s, 3)); k && nv {
			continue
		}
		if out == nil || !st.succeeded(out.Args[0]) {
			bad(o.Pos, "it may succeed without the caller's result being set")
			continue
		}
		src := out.Args[1]
		if src.K == TExtract && strings.HasSuffix(callName(src.Args[0]), "json.Marshal") {
			if !st.succeeded(src.Args[0]) {
				bad(o.Pos, "a result that could not be encoded is a success")
			}
			src = unbox(src.Args[0].Args[0])
		}
		if p := s.fl.path(src); !strings.HasSuffix(p, ".Result") || !rootedAt(src, obj) {
			bad(o.Pos, "the caller's result is not the answer's: "+p)
		}
	}
	if n == 0 {
		bad(c.P.posOf(fn), "no request ever succeeds")
	}
	if good {
		c.Ob("rpc", name, true, c.P.posOf(fn), "")
	}
}

// rootedAt: t is loaded from memory reached from the address a.
func rootedAt(t, a *Term) bool {
	for d := 0; t != nil && d < 12; d++ {
		if t == a {
			return true
		}
		if len(t.Args) == 0 {
			return false
		}
		t = t.Args[0]
	}
	return false
}

// asked: the HTTP request carries the method and parameters given.
func (q *reqCheck) asked(s *Sum, st *State, req *Term) string {
	if req.K != TExtract || !strings.HasPrefix(callName(req.Args[0]), "net/http.NewRequest") {
		return "what is sent is not a request made here: " + s.fl.path(req)
	}
	call := req.Args[0]
	if !st.succeeded(call) {
		return "a request that could not be made is sent"
	}
	as := call.Args
	if strings.HasSuffix(callName(call), "WithContext") {
		as = as[1:]
	}
	if s.fl.path(as[0]) != `"POST"` || s.fl.path(as[1]) != "p0.Endpoint" {
		return "the request goes elsewhere: " + s.fl.path(as[0]) + " " + s.fl.path(as[1])
	}
	b := unbox(as[2])
	if !b.isCall("bytes.NewReader") && !b.isCall("bytes.NewBuffer") {
		return "the request's body is not known: " + s.fl.path(b)
	}
	b = b.Args[0]
	if b.K != TExtract || !b.Args[0].isCall("json.Marshal") || !st.succeeded(b.Args[0]) {
		return "the request's body is not the encoded request: " + s.fl.path(b)
	}
	fv := readFields(st, unbox(b.Args[0].Args[0]))
	if m := fv["Method"]; m == nil || s.fl.path(m) != "p1" {
		return "another method is asked for: " + pathOr(s, m)
	}
	if v := fv["Version"]; v == nil || s.fl.path(v) != `"2.0"` {
		return "the request has another version: " + pathOr(s, v)
	}
	if nv, k := nilState(st, param(s, 2)); k && nv {
		return ""
	}
	p := stripConv(fv["Params"])
	if p == nil || p.K != TExtract || !p.Args[0].isCall("json.Marshal") || s.fl.path(unbox(p.Args[0].Args[0])) != "p2" {
		return "the request's parameters are not those given: " + pathOr(s, p)
	}
	if !st.succeeded(p.Args[0]) {
		return "a request whose parameters could not be encoded is sent"
	}
	return ""
}

var iconRPC = map[string]string{
	"SendTransaction": "icx_sendTransaction", "SendTransactionAndWait": "icx_sendTransactionAndWait",
	"GetTransactionResult": "icx_getTransactionResult", "WaitTransactionResult": "icx_waitTransactionResult",
	"Call": "icx_call", "GetBTPHeader": "btp_getHeader", "GetBTPMessage": "btp_getMessages", "GetBTPProof": "btp_getProof",
	"GetBTPNetworkInfo": "btp_getNetworkInfo", "GetBlockByHeight": "icx_getBlockByHeight",
	"GetBlockHeaderByHeight": "icx_getBlockHeaderByHeight", "GetVotesByHeight": "icx_getVotesByHeight",
	"GetDataByHash": "icx_getDataByHash", "GetProofForResult": "icx_getProofForResult", "GetProofForEvents": "icx_getProofForEvents",
}

func (q *reqCheck) doCfg() SumCfg {
	do := q.c.P.Method("common/jsonrpc", "Client", "Do")
	return SumCfg{
		Opaque: func(f *ssa.Function) bool { return f == do || f.Name() == "Value" || isMethodOn(f, "BtpAddress") },
		Track: func(n *Node) string {
			if n.Fn != nil && n.Fn == do {
				return "do"
			}
			return ""
		}}
}

func (q *reqCheck) icon() {
	c := q.c
	for _, m := range sortedKeys(iconRPC) {
		name := "chain/icon/client.Client." + m
		fn := c.P.Method("chain/icon/client", "Client", m)
		if fn == nil {
			c.Missing("icon", name)
			continue
		}
		s := c.Sum(fn, q.doCfg())
		good := true
		bad := func(pos, w string) { good = false; c.Ob("icon", name, false, pos, w) }
		n := 0
		for _, o := range s.Outs {
			if o.failed() {
				continue
			}
			n++
			st := o.assumedErr()
			if len(o.Rets) > 1 {
				st = o.assumed()
			}
			ev := o.evs("do")
			if len(ev) != 1 || !st.succeeded(ev[0].Args[0]) {
				bad(o.Pos, "it may succeed although the request failed or was not made")
				continue
			}
			e := ev[0]
			if p := s.fl.path(e.Args[2]); p != `"`+iconRPC[m]+`"` {
				bad(o.Pos, "it asks for "+p)
			}
			if p := s.fl.path(unbox(e.Args[3])); p != "p1" {
				bad(o.Pos, "it asks with other parameters: "+p)
			}
			dst := unbox(e.Args[4])
			if m == "Call" {
				if p := s.fl.path(dst); p != "p2" {
					bad(o.Pos, "the answer goes elsewhere: "+p)
				}
				continue
			}
			if !rootedAt(o.Rets[0], dst) {
				bad(o.Pos, "what is returned is not the answer: "+s.fl.path(o.Rets[0]))
			}
		}
		if n == 0 {
			bad(c.P.posOf(fn), "it never succeeds")
		}
		if good {
			c.Ob("icon", name, true, c.P.posOf(fn), "")
		}
	}
}

// iconCalls: calls of the contract's own methods.
func (q *reqCheck) iconCalls() {
	c := q.c
	for _, m := range []string{"GetBTPLinkNetworkId", "GetBTPLinkOffset"} {
		name := "chain/icon/client.Client." + m
		fn := c.P.Method("chain/icon/client", "Client", m)
		if fn == nil {
			c.Missing("icon-call", name)
			continue
		}
		s := c.Sum(fn, q.doCfg())
		good := true
		bad := func(pos, w string) { good = false; c.Ob("icon-call", name, false, pos, w) }
		n := 0
		for _, o := range s.Outs {
			if o.failed() {
				continue
			}
			n++
			st := o.assumed()
			ev := o.evs("do")
			if len(ev) != 1 || !st.succeeded(ev[0].Args[0]) {
				bad(o.Pos, "it may succeed although the request failed or was not made")
				continue
			}
			e := ev[0]
			if p := s.fl.path(e.Args[2]); p != `"icx_call"` {
				bad(o.Pos, "it asks for "+p)
			}
			ret := o.Rets[0]
			if ret.K != TExtract || !strings.HasSuffix(callName(ret.Args[0]), ".Value") || !rootedAt(ret.Args[0].Args[0], unbox(e.Args[4])) {
				bad(o.Pos, "what is returned is not the answer's number: "+s.fl.path(ret))
			} else if !st.succeeded(ret.Args[0]) {
				bad(o.Pos, "an answer that is no number is a success")
			}
		}
		// what is asked, before the call
		for _, r := range s.Call {
			if r.N.Fn == nil || r.N.Fn.Name() != "Do" || len(r.Args) < 4 {
				continue
			}
			fv := deepFields(r.St, unbox(r.Args[2]))
			str := func(k string) string { return pathOr(s, stripConv(unbox(fv[k]))) }
			if p := str("Data.Method"); p != `"get`+m[3:]+`"` {
				bad(c.P.posOf(fn), "it calls another method of the contract: "+p)
			}
			if p := str("ToAddress"); !strings.Contains(p, "BtpAddress).Account(p1)") {
				bad(c.P.posOf(fn), "it calls another contract: "+p)
			}
			if p := str("Data.Params.Target"); p != "p2" && !strings.HasSuffix(p, "BtpAddress).String(p2)") {
				bad(c.P.posOf(fn), "it asks about another address: "+p)
			}
			if p := str("DataType"); p != `"call"` {
				bad(c.P.posOf(fn), "the request is no call: "+p)
			}
		}
		if n == 0 {
			bad(c.P.posOf(fn), "it never succeeds")
		}
		if good {
			c.Ob("icon-call", name, true, c.P.posOf(fn), "")
		}
	}
}

type ethReq struct {
	call string
	args []string // after the context
	rets int
}

var ethRPC = map[string]ethReq{
	"SendTransaction":       {"SendTransaction", []string{"p1"}, 0},
	"GetTransactionReceipt": {"TransactionReceipt", []string{"p1"}, 1},
	"GetTransaction":        {"TransactionByHash", []string{"p1"}, 2},
	"GetBlockByHeight":      {"BlockByNumber", []string{"p1"}, 1},
	"GetHeaderByHeight":     {"HeaderByNumber", []string{"p1"}, 1},
	"FilterLogs":            {"FilterLogs", []string{"p1"}, 1},
	"GetChainID":            {"ChainID", nil, 1},
	"GetBlockNumber":        {"BlockNumber", nil, 1},
}

const ethClientType = "(*github.com/ethereum/go-ethereum/ethclient.Client)."

func (q *reqCheck) ethCfg() SumCfg {
	return SumCfg{Track: func(n *Node) string {
		if strings.HasPrefix(n.Callee, ethClientType) || strings.HasPrefix(n.Callee, "(*github.com/ethereum/go-ethereum/rpc.Client).") {
			return "eth"
		}
		return ""
	}}
}

func (q *reqCheck) eth() {
	c := q.c
	for _, m := range sortedKeys(ethRPC) {
		r := ethRPC[m]
		name := "chain/ethbr/client.Client." + m
		fn := c.P.Method("chain/ethbr/client", "Client", m)
		if fn == nil {
			c.Missing("eth", name)
			continue
		}
		s := c.Sum(fn, q.ethCfg())
		good := true
		bad := func(pos, w string) { good = false; c.Ob("eth", name, false, pos, w) }
		n := 0
		for _, o := range s.Outs {
			if o.failed() {
				continue
			}
			n++
			st := o.assumedErr()
			if len(o.Rets) > 1 {
				st = (Outcome{St: o.St, Rets: []*Term{nil, o.Rets[len(o.Rets)-1]}}).assumed()
			}
			ev := o.evs("eth")
			if len(ev) != 1 || !st.succeeded(ev[0].Args[0]) {
				bad(o.Pos, "it may succeed although the request failed or was not made")
				continue
			}
			e := ev[0]
			if p := strings.TrimPrefix(e.N.Callee, ethClientType); p != r.call {
				bad(o.Pos, "it asks for "+p)
				continue
			}
			for i, a := range r.args {
				if p := s.fl.path(e.Args[3+i]); strings.TrimPrefix(p, "*") != a {
					bad(o.Pos, "it asks with other parameters: "+p)
				}
			}
			for i := 0; i < r.rets; i++ {
				if o.Rets[i] != extractOf(s.fl.ts, e.Args[0], i) {
					bad(o.Pos, "what is returned is not the answer: "+s.fl.path(o.Rets[i]))
				}
			}
		}
		if n == 0 {
			bad(c.P.posOf(fn), "it never succeeds")
		}
		if good {
			c.Ob("eth", name, true, c.P.posOf(fn), "")
		}
	}
}

// revert: the message of a failed transaction is that of repeating its own call.
func (q *reqCheck) revert() {
	c := q.c
	fn := c.P.Method("chain/ethbr/client", "Client", "GetRevertMessage")
	name := "chain/ethbr/client.Client.GetRevertMessage"
	if fn == nil {
		c.Missing("eth-revert", name)
		return
	}
	s := c.Sum(fn, q.ethCfg())
	good := true
	bad := func(pos, w string) { good = false; c.Ob("eth-revert", name, false, pos, w) }
	for _, o := range s.Outs {
		if o.failed() {
			continue
		}
		st := o.assumed()
		ev := o.evs("eth")
		if len(ev) != 2 || !strings.HasSuffix(ev[0].N.Callee, ".TransactionByHash") || !strings.HasSuffix(ev[1].N.Callee, ".CallContract") {
			bad(o.Pos, "it may succeed without fetching the transaction and repeating its call")
			continue
		}
		if s.fl.path(ev[0].Args[3]) != "p1" || !st.succeeded(ev[0].Args[0]) {
			bad(o.Pos, "another transaction is looked at, or one that could not be fetched")
		}
		tx := extractOf(s.fl.ts, ev[0].Args[0], 0)
		callErr := errOf(s.fl.ts, ev[1].Args[0])
		if nv, k := nilState(st, callErr); k && nv {
			continue // nothing to report
		} else if !k {
			bad(o.Pos, "the error of the repeated call may be missing when its message is read")
		}
		if r := o.Rets[0]; !r.isCall("(error).Error") || r.Args[0] != callErr {
			bad(o.Pos, "the message is not that of the repeated call: "+s.fl.path(r))
		}
		fv := readFields(st, ev[1].Args[3])
		for f, g := range map[string]string{"To": "To", "Gas": "Gas", "GasPrice": "GasPrice", "Value": "Value", "Data": "Data"} {
			v := fv[f]
			if v == nil || !strings.HasSuffix(callName(v), "types.Transaction)."+g) || v.Args[0] != tx {
				bad(o.Pos, "the repeated call differs from the transaction's in "+f+": "+pathOr(s, v))
			}
		}
		from := fv["From"]
		if from == nil || from.K != TExtract || !strings.HasSuffix(callName(from.Args[0]), "types.Sender") || from.Args[0].Args[1] != tx || !st.succeeded(from.Args[0]) {
			bad(o.Pos, "the repeated call is not from the transaction's sender: "+pathOr(s, from))
		}
	}
	if good {
		c.Ob("eth-revert", name, true, c.P.posOf(fn), "")
	}
}
