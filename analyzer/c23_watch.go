package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "Watching a chain hands every notified block over once, in order, or ends",
		"typestate over every path of the node clients' watch methods (helpers, deferred calls and callbacks inlined): what was requested and accepted before the first notification, each notification handed over once before the next is read, each height visited once in order, and how the watch ends",
		checkWatching)
}

func checkWatching(c *Ctx) {
	w := &watchCheck{c}
	w.icon()
	c.Need("stream", 3)
	w.closing()
	c.Need("close", 1)
	w.eth()
	c.Need("blocks", 2)
}

type watchCheck struct{ c *Ctx }

const wsConn = "(*github.com/gorilla/websocket.Conn)."

func has(st *State, key string) bool { _, ok := st.must[key]; return ok }

// unview: the value behind boxes and type assertions.
func unview(t *Term) *Term {
	for t != nil && (t.K == TIface || t.K == TPure && strings.HasPrefix(t.Op, "assert:")) {
		t = t.Args[0]
	}
	return t
}

// paramsOf: the function-valued parameters of a watch method, by what they are given.
func (w *watchCheck) callbacks(fn *ssa.Function) (give, begin, fail int) {
	give, begin, fail = -1, -1, -1
	for i, p := range fn.Params {
		sg, ok := p.Type().Underlying().(*types.Signature)
		if !ok {
			continue
		}
		switch {
		case sg.Params().Len() == 2 && types.Identical(sg.Params().At(1).Type(), errorType()):
			fail = i
		case sg.Params().Len() == 2:
			give = i
		case sg.Params().Len() == 1:
			begin = i
		}
	}
	return
}

// icon: the streams of an ICON node.
func (w *watchCheck) icon() {
	c := w.c
	for _, m := range []struct{ name, url string }{{"MonitorBTP", "/btp"}, {"MonitorBlock", "/block"}, {"MonitorEvent", "/event"}} {
		fn := c.P.Method("chain/icon/client", "Client", m.name)
		name := "chain/icon/client.Client." + m.name
		if fn == nil {
			c.Missing("stream", name)
			continue
		}
		w.stream(fn, name, m.url)
	}
}

// keyOf: whether k is the address under which conn is known.
func connKey(s *Sum, k, conn *Term) bool {
	return s.fl.path(k) == "(net.Addr).String("+wsConn+"LocalAddr("+s.fl.path(conn)+"))"
}

func (w *watchCheck) stream(fn *ssa.Function, name, url string) {
	c := w.c
	give, begin, fail := w.callbacks(fn)
	if give < 0 || fail < 0 {
		c.Ob("stream", name, false, c.P.posOf(fn), "no callback for notifications or errors")
		return
	}
	var s *Sum
	dyn := func(st *State, n *Node) int {
		if n.Dyn == nil {
			return -2
		}
		d := st.val(n.Dyn)
		for i := range fn.Params {
			if d != nil && d.K == TSym && d.N == st.fl.g.Params[i] {
				return i
			}
		}
		return -2
	}
	ev := func(st *State, n *Node, args []*Term, res *Term) {
		if n.Op != OpInstr {
			return
		}
		if mu, ok := n.Instr.(*ssa.MapUpdate); ok {
			_ = mu
			st.addMust("reg", "reg", n, args...)
			return
		}
		if !n.isCall() {
			return
		}
		switch {
		case n.Builtin == "delete":
			st.addMust("unreg", "unreg", n, args...)
		case strings.HasPrefix(n.Callee, "(*github.com/gorilla/websocket.Dialer).Dial"):
			st.addMust("dial", "dial", n, append([]*Term{res}, args...)...)
		case n.Callee == wsConn+"WriteJSON":
			st.addMust("ask", "ask", n, append([]*Term{res}, args...)...)
		case n.Callee == wsConn+"Close":
			st.addMust("closed", "closed", n, append([]*Term{res}, args...)...)
		case n.Callee == wsConn+"ReadJSON" || n.Callee == wsConn+"NextReader" || n.Callee == wsConn+"ReadMessage":
			if !has(st, "answered") {
				st.addMust("answered", "answered", n)
				st.addMust("answer", "answer", n, append([]*Term{res}, args...)...)
				if n.Callee == wsConn+"ReadJSON" {
					st.addMust("answerdec", "answerdec", n, append([]*Term{res}, args...)...)
				}
				return
			}
			if w.accepted(st) {
				st.addMust("accepted", "accepted", n)
			}
			st.addMust("pend", "pend", n)
			st.addMust("read", "read", n, append([]*Term{res}, args...)...)
			if n.Callee == wsConn+"ReadJSON" {
				st.addMust("decd", "decd", n)
				st.addMust("dec", "dec", n, append([]*Term{res}, args...)...)
			}
		case n.Callee == "(*encoding/json.Decoder).Decode" || n.Callee == "encoding/json.Unmarshal":
			if has(st, "pend") {
				st.addMust("decd", "decd", n)
				st.addMust("dec", "dec", n, append([]*Term{res}, args...)...)
			} else if has(st, "answered") && !has(st, "accepted") {
				st.addMust("answerdec", "answerdec", n, append([]*Term{res}, args...)...)
			}
		}
		switch dyn(st, n) {
		case give:
			for _, k := range []string{"pend", "read", "dec", "decd"} {
				delete(st.must, k)
			}
		case begin:
			st.addMust("begun", "begun", n)
		case fail:
			st.addMust("told", "told", n, args...)
		}
	}
	s = c.Sum(fn, SumCfg{Max: 3000, Ev: ev, Depth: 12})
	ok := true
	bad := func(pos, m string) {
		if ok {
			c.Ob("stream", name, false, pos, m)
		}
		ok = false
	}
	connOf := func(st *State) *Term {
		if d := st.must["dial"]; d != nil {
			return extractOf(s.fl.ts, d.Args[0], 0)
		}
		return nil
	}
	gives := 0
	for _, r := range s.Call {
		st, n := r.St, r.N
		pos := s.g.pos(n)
		isRead := n.Callee == wsConn+"ReadJSON" || n.Callee == wsConn+"NextReader" || n.Callee == wsConn+"ReadMessage"
		switch {
		case strings.HasPrefix(n.Callee, "(*github.com/gorilla/websocket.Dialer).Dial"):
			if has(st, "dial") {
				bad(pos, "a watch may connect twice")
			}
			want := "(strings.Replace(p0.Client.Endpoint,\"http\",\"ws\",1)+\"" + url + "\")"
			got := ""
			for _, a := range r.Args {
				if isString(a.T) {
					got = s.fl.path(a)
				}
			}
			if got != want {
				bad(pos, "it connects to "+got)
			}
		case n.Callee == wsConn+"WriteJSON":
			if has(st, "ask") {
				bad(pos, "a watch may ask twice")
			}
			d := st.must["dial"]
			if d == nil || !st.succeeded(d.Args[0]) || r.Args[0] != connOf(st) {
				bad(pos, "the request is written to something that may not be the connection")
				continue
			}
			rg := st.must["reg"]
			if rg == nil || s.fl.path(rg.Args[0]) != "p0.conns" || rg.Args[2] != connOf(st) || !connKey(s, rg.Args[1], connOf(st)) {
				bad(pos, "the connection is not registered under its address")
			}
			if unview(r.Args[1]) != param(s, 1) {
				bad(pos, "the request sent is not the caller's: "+s.fl.path(unview(r.Args[1])))
			}
		case isRead:
			if r.Args[0] != connOf(st) {
				bad(pos, "it reads from another connection")
				continue
			}
			if !has(st, "answered") {
				if a := st.must["ask"]; a == nil || !st.succeeded(a.Args[0]) {
					bad(pos, "it reads before the request was written")
				}
				continue
			}
			if !has(st, "accepted") && !w.accepted(st) {
				bad(pos, "notifications are read although the node may have refused the request")
			}
			if has(st, "pend") {
				bad(pos, "a notification may be read although the one before was not handed over, or its reading failed")
			}
			if begin >= 0 && !has(st, "begun") {
				if nv, k := nilState(st, param(s, begin)); !k || !nv {
					bad(pos, "notifications are read before the watcher is told that the watch began")
				}
			}
		}
		switch dyn(st, n) {
		case give:
			gives++
			if r.Args[0] != connOf(st) {
				bad(pos, "a notification is handed over with another connection")
			}
			rd, dc := st.must["read"], st.must["dec"]
			if rd == nil || dc == nil || !st.succeeded(rd.Args[0]) || !st.succeeded(dc.Args[0]) {
				bad(pos, "what is handed over may not have been read")
				continue
			}
			if dc.N.Callee != wsConn+"ReadJSON" && !w.readBy(s, dc, rd) {
				bad(pos, "what is handed over is not decoded from what was read")
			}
			dst := unview(dc.Args[2])
			if unview(r.Args[1]) != dst {
				bad(pos, "what is handed over is not what was decoded: "+s.fl.path(unview(r.Args[1])))
			}
			if why := w.fresh(s, dst, rd.N); why != "" {
				bad(pos, why)
			}
		case begin:
			if r.Args[0] != connOf(st) || !has(st, "accepted") && !w.accepted(st) {
				bad(pos, "the watcher is told of a watch the node has not accepted")
			}
			if has(st, "begun") || has(st, "read") {
				bad(pos, "the watcher is told late or twice that the watch began")
			}
		}
	}
	if gives == 0 {
		bad(c.P.posOf(fn), "no notification is ever handed over")
	}
	for i := range s.Outs {
		o := &s.Outs[i]
		if why := w.ends(s, o); why != "" {
			bad(o.Pos, why)
		}
	}
	if ok {
		c.Ob("stream", name, true, c.P.posOf(fn), "")
	}
}

// accepted: the node's answer to the request was read and its code is zero.
func (w *watchCheck) accepted(st *State) bool {
	a, d := st.must["answer"], st.must["answerdec"]
	if a == nil || d == nil || !st.succeeded(a.Args[0]) || !st.succeeded(d.Args[0]) {
		return false
	}
	obj := unview(d.Args[2])
	for _, f := range st.facts {
		if !f.Val || f.T.K != TBin || f.T.Op != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			if v, k := f.T.Args[i].intVal(); k && v == 0 && rootedAt(f.T.Args[1-i], obj) && strings.HasSuffix(st.fl.path(f.T.Args[1-i]), ".Code") {
				return true
			}
		}
	}
	return false
}

// readBy: the decoder reads what was read from the connection.
func (w *watchCheck) readBy(s *Sum, dc, rd *Event) bool {
	src := dc.Args[1]
	if strings.HasSuffix(dc.N.Callee, ".Decode") {
		if callName(src) != "encoding/json.NewDecoder" {
			return false
		}
		src = src.Args[0]
	}
	return unview(src) == extractOf(s.fl.ts, rd.Args[0], 1)
}

// fresh: the value is made in every loop that reads.
func (w *watchCheck) fresh(s *Sum, dst *Term, rd *Node) string {
	t := dst
	for t != nil && t.K != TAlloc && callName(t) != "reflect.New" {
		if len(t.Args) == 0 {
			t = nil
			break
		}
		t = t.Args[0]
	}
	if t == nil || t.N == nil || t.N.Blk == nil {
		return "a notification is decoded into something of unknown origin: " + s.fl.path(dst)
	}
	for h := range rd.Blk.loops {
		if !t.N.Blk.loops[h] {
			return "a notification is decoded into the value of the one before"
		}
	}
	return ""
}

// ends: how a watch may end.
func (w *watchCheck) ends(s *Sum, o *Outcome) string {
	st := o.St
	d := st.must["dial"]
	if d == nil {
		if !o.failed() {
			return "a watch that never connected may end without an error"
		}
		return ""
	}
	if nv, k := nilState(st, errOf(s.fl.ts, d.Args[0])); k && !nv {
		if !o.failed() {
			return "a watch that could not connect may end without an error"
		}
		return ""
	}
	conn := extractOf(s.fl.ts, d.Args[0], 0)
	cl := st.must["closed"]
	if cl == nil || cl.Args[1] != conn {
		return "a watch may end with its connection open"
	}
	if !w.forgotten(s, st, conn, "p0.conns") {
		return "a watch may end with its connection still registered"
	}
	if o.failed() {
		rd, dc := st.must["read"], st.must["dec"]
		if rd == nil {
			if has(st, "answered") && w.accepted(st) && !w.gone(s, st, conn) {
				return "an accepted watch may end without reading"
			}
			return ""
		}
		if dc != nil && st.succeeded(rd.Args[0]) && st.succeeded(dc.Args[0]) {
			return "a notification that was read may be dropped"
		}
		return w.told(s, st, o, conn, rd, dc)
	}
	if !w.gone(s, st, conn) {
		return "a watch may end without an error although it was not closed"
	}
	return ""
}

// gone: the connection was found to be no longer registered.
func (w *watchCheck) gone(s *Sum, st *State, conn *Term) bool {
	for _, f := range st.facts {
		if t := f.T; !f.Val && t.K == TExtract && t.I == 1 && t.Args[0].K == TCall && t.Args[0].Op == "lookup" {
			if s.fl.path(t.Args[0].Args[0]) == "p0.conns" && connKey(s, t.Args[0].Args[1], conn) {
				return true
			}
		}
	}
	return false
}

func (w *watchCheck) forgotten(s *Sum, st *State, conn *Term, conns string) bool {
	if u := st.must["unreg"]; u != nil && s.fl.path(u.Args[0]) == conns && connKey(s, u.Args[1], conn) {
		return true
	}
	return w.gone(s, st, conn)
}

// told: a watch that ends by an error in reading returns it and tells the watcher, unless the node closed normally.
func (w *watchCheck) told(s *Sum, st *State, o *Outcome, conn *Term, rd, dc *Event) string {
	e := o.Rets[len(o.Rets)-1]
	re := errOf(s.fl.ts, rd.Args[0])
	nv, k := nilState(st, re)
	switch {
	case k && !nv:
	case dc != nil:
		re = errOf(s.fl.ts, dc.Args[0])
	default:
		re = nil // the node asked to close
	}
	if re != nil && unview(e) != re && unwrapErr(e) != re {
		return "a watch ends with an error other than the one that ended it: " + s.fl.path(e)
	}
	if t := st.must["told"]; t != nil && t.Args[0] == conn && (unview(t.Args[1]) == unview(e) || unwrapErr(t.Args[1]) == unwrapErr(e)) {
		return ""
	}
	if re == nil {
		re = unview(e)
	}
	is, code := false, false
	for _, f := range st.facts {
		if f.Val && callName(f.T) == "github.com/gorilla/websocket.IsCloseError" && f.T.Args[0] == re {
			if es, k := st.elems(f.T.Args[1]); k && len(es) == 1 && isK(es[0], 1000) {
				is, code = true, true
			}
		}
		if f.Val && f.T.K == TPure && strings.HasPrefix(f.T.Op, "is:") && strings.HasSuffix(f.T.Op, "websocket.CloseError") && f.T.Args[0] == re {
			is = true
		}
		if f.Val && f.T.K == TBin && f.T.Op == "==" {
			for i := 0; i < 2; i++ {
				if v, k := f.T.Args[i].intVal(); k && v == 1000 && f.T.Args[1-i].contains(re) && strings.HasSuffix(s.fl.path(f.T.Args[1-i]), ".Code") {
					code = true
				}
			}
		}
	}
	if !is || !code {
		return "the watcher is not told why the watch ended"
	}
	return ""
}

// closing: a connection that is closed is forgotten.
func (w *watchCheck) closing() {
	c := w.c
	ev := func(st *State, n *Node, args []*Term, res *Term) {
		if n.Op != OpInstr || !n.isCall() {
			return
		}
		switch {
		case n.Builtin == "delete":
			st.addMust("unreg", "unreg", n, args...)
		case n.Callee == wsConn+"Close":
			st.addMust("closed", "closed", n, append([]*Term{res}, args...)...)
		}
	}
	name := "chain/icon/client.Client.CloseMonitor"
	if fn := c.P.Method("chain/icon/client", "Client", "CloseMonitor"); fn == nil {
		c.Missing("close", name)
	} else {
		s := c.Sum(fn, SumCfg{Max: 1000, Ev: ev})
		ok := len(s.Outs) > 0
		why, pos := "it never returns", c.P.posOf(fn)
		for _, o := range s.Outs {
			if cl := o.St.must["closed"]; cl == nil || cl.Args[1] != param(s, 1) {
				ok, why, pos = false, "the connection may stay open", o.Pos
			} else if !w.forgotten(s, o.St, param(s, 1), "p0.conns") {
				ok, why, pos = false, "the connection may stay registered", o.Pos
			}
		}
		if ok {
			why = ""
		}
		c.Ob("close", name, ok, pos, why)
	}
}

const (
	bigInt  = "(*math/big.Int)."
	ethCl   = "(*chain/ethbr/client.Client)."
	ethGet  = ethCl + "GetHeaderByHeight"
	ethNum  = ethCl + "GetBlockNumber"
	ethLogs = ethCl + "FilterLogs"
)

// eth: the blocks of an Ethereum node, as they are notified or polled.
func (w *watchCheck) eth() {
	c := w.c
	fn := c.P.Method("chain/ethbr/client", "Client", "MonitorBlock")
	if fn == nil {
		c.Missing("blocks", "chain/ethbr/client.Client.MonitorBlock")
		return
	}
	// the functions that poll: they ask for the number of blocks
	polls := map[*ssa.Function]bool{}
	for _, f := range c.P.funcsOf("chain/ethbr/client") {
		if f == fn || f.Parent() != nil {
			continue
		}
		cb := false
		for _, p := range f.Params {
			if sg, ok := p.Type().Underlying().(*types.Signature); ok && sg.Params().Len() == 1 && strings.HasSuffix(sg.Params().At(0).Type().String(), "types.Header") {
				cb = true
			}
		}
		if cb && callsNamed(f, ethNum) {
			polls[f] = true
		}
	}
	w.blocks(fn, false, polls)
	for _, f := range c.P.funcsOf("chain/ethbr/client") {
		if polls[f] {
			w.blocks(f, true, polls)
		}
	}
}

func callsNamed(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(ssa.CallInstruction); ok {
				if g := cl.Common().StaticCallee(); g != nil && short(g.String()) == name {
					return true
				}
			}
		}
	}
	return false
}

// num: the integer object a chain of arithmetic works on (its methods return their receiver).
func numRoot(t *Term) *Term {
	for t != nil && strings.HasPrefix(callName(t), bigInt) {
		switch strings.TrimPrefix(callName(t), bigInt) {
		case "Set", "SetUint64", "SetInt64", "Add", "Sub", "Neg", "Mul":
			t = t.Args[0]
			continue
		}
		break
	}
	return t
}

func setPhase(st *State, n *Node, ph string) {
	for _, k := range []string{"M:ready", "M:fetched", "M:handed", "M:live"} {
		delete(st.must, k)
	}
	st.addMust("M:"+ph, "M", n)
}

// blocks: fn hands the header (or the block) of each height over, in order.
func (w *watchCheck) blocks(fn *ssa.Function, poll bool, polls map[*ssa.Function]bool) {
	c := w.c
	name := short(fn.String())
	give, req := -1, -1
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			give = i
		} else if i > 0 {
			req = i
		}
	}
	if give < 0 || !poll && req < 0 {
		c.Ob("blocks", name, false, c.P.posOf(fn), "no watcher or no request")
		return
	}
	height := ""
	if req >= 0 {
		height = fmt.Sprintf("p%d.Height", req)
	}
	gives := func(st *State, n *Node) bool {
		if !n.isCall() || n.Dyn == nil {
			return false
		}
		d := st.val(n.Dyn)
		return d != nil && d.K == TSym && d.N == st.fl.g.Params[give]
	}
	// first: the height a watch begins with
	first := func(st *State, t *Term) bool {
		p := st.fl.path(t)
		if poll {
			return p == ethNum+"(p0)#0"
		}
		return p == height || p == bigInt+"Int64("+height+")" || p == bigInt+"Uint64("+height+")"
	}
	one := func(st *State, t *Term) bool {
		if callName(t) == "math/big.NewInt" {
			v, k := t.Args[0].intVal()
			return k && v == 1
		}
		return false
	}
	op := func(n *Node) string {
		if n.isCall() && strings.HasPrefix(n.Callee, bigInt) {
			return strings.TrimPrefix(n.Callee, bigInt)
		}
		return ""
	}
	isStart := func(st *State, n *Node, args []*Term) bool {
		switch op(n) {
		case "Set", "SetUint64", "SetInt64":
			return first(st, args[1])
		}
		return n.Callee == "math/big.NewInt" && n.isCall() && first(st, args[0])
	}
	isStep := func(st *State, n *Node, args []*Term) bool {
		return op(n) == "Add" && (one(st, args[2]) || one(st, args[1]))
	}
	// counter: the integer is a counter from the first, by one (or left as it is: see the loops' ends below)
	counters := map[*Term]bool{}
	counter := func(st *State, t *Term) *Term {
		t = stripConvT(t)
		ph, off, ok := phiPlus(t)
		if !ok || off != 0 || ph.N == nil || ph.N.Op != OpPhi {
			return nil
		}
		begins := false
		for _, in := range st.fl.phiIn[ph.N] {
			if in == nil {
				continue
			}
			if q, d, k := phiPlus(in); k && q == ph && (d == 0 || d == 1) {
				continue
			}
			if !first(st, stripConvT(in)) {
				return nil
			}
			begins = true
		}
		if !begins {
			return nil
		}
		counters[ph] = true
		return ph
	}
	counted := func(st *State, t *Term) *Term {
		if callName(t) == "math/big.NewInt" {
			return counter(st, t.Args[0])
		} else if x := callName(t); x == bigInt+"SetInt64" || x == bigInt+"SetUint64" {
			return counter(st, t.Args[1])
		}
		return nil
	}
	ev := func(st *State, n *Node, args []*Term, res *Term) {
		if n.Op != OpInstr {
			return
		}
		switch in := n.Instr.(type) {
		case *ssa.Select:
			st.addMust("recv", "recv", n)
			st.addMust("recvt", "recvt", n, res)
			return
		case *ssa.UnOp:
			if in.Op == token.ARROW && strings.HasSuffix(in.Type().String(), "types.Header") {
				st.addMust("recv", "recv", n)
				st.addMust("recvt", "recvt", n, res)
			}
			return
		}
		if !n.isCall() {
			return
		}
		switch {
		case gives(st, n):
			var hd *Term
			if g := st.must["giving"]; g != nil {
				hd = g.Args[0]
				delete(st.must, "giving")
			}
			st.addMust("given", "given", n, append([]*Term{res}, args...)...)
			if hd != nil && hd.K == TExtract && short(callName(hd.Args[0])) == ethGet {
				setPhase(st, n, "handed")
			} else {
				delete(st.must, "recv")
				delete(st.must, "recvt")
				setPhase(st, n, "live")
			}
			delete(st.must, "logs")
		case short(n.Callee) == ethGet:
			setPhase(st, n, "fetched")
			st.addMust("fetch", "fetch", n, append([]*Term{res}, args...)...)
			delete(st.must, "logs")
		case short(n.Callee) == ethLogs:
			var of *Term
			if q := args[1]; q.K == TStruct {
				if f := st.structParts(q)["BlockHash"]; f != nil {
					of = st.lookup(f)
				}
			}
			if of == nil {
				of = st.fl.ts.nilC(errorType())
			}
			st.addMust("logs", "logs", n, res, args[1], of)
		case strings.HasSuffix(n.Callee, ".SubscribeNewHead"):
			st.addMust("sub", "sub", n, append([]*Term{res}, args...)...)
		case isStart(st, n, args):
			setPhase(st, n, "ready")
		case isStep(st, n, args):
			setPhase(st, n, "ready")
		}
	}
	opq := map[string]bool{ethGet: true, ethNum: true, ethLogs: true}
	s := c.Sum(fn, SumCfg{Max: 6000, Ev: ev, Opaque: func(f *ssa.Function) bool { return opq[short(f.String())] || f != fn && polls[f] }, Cfg: func(fc *FlowCfg) {
		fc.OnHead = func(st *State, e *Edge, phis []PhiIn) func() {
			if g := st.must["given"]; g != nil && st.succeeded(g.Args[0]) {
				delete(st.must, "given")
			}
			if f := st.must["fetch"]; f != nil && has(st, "M:fetched") && poll {
				if nv, k := nilState(st, errOf(st.fl.ts, f.Args[0])); k && !nv {
					setPhase(st, f.N, "ready") // not there yet
				}
			}
			return nil
		}
		pre := fc.Pre
		fc.Pre = func(st *State, n *Node, args []*Term, final bool) {
			pre(st, n, args, final)
			if n.Op == OpInstr && gives(st, n) {
				hd := args[0]
				if !poll {
					hd = deepFields(st, args[0])["Header"]
				}
				if hd != nil {
					st.addMust("giving", "giving", n, hd)
				}
			}
		}
	}})
	ok := true
	bad := func(pos, m string) {
		if ok {
			c.Ob("blocks", name, false, pos, m)
		}
		ok = false
	}
	went := func(st *State) bool { // the watcher took what it was given
		g := st.must["given"]
		return g == nil || st.succeeded(g.Args[0])
	}
	received := func(t *Term) bool {
		return t != nil && (t.K == TExtract && t.Args[0].K == TCall && t.Args[0].Op == "select" || t.N != nil && isRecv(t.N))
	}
	// below: the height at x is (not) below that of the header received
	below := func(st *State, want bool) bool {
		for _, f := range st.facts {
			t, val := f.T, f.Val
			if t.K != TBin || t.Op != "<" && t.Op != "==" {
				continue
			}
			a, b := t.Args[0], t.Args[1]
			num := func(t *Term) bool { // the number of the header received
				for t != nil && (callName(t) == bigInt+"Int64" || callName(t) == bigInt+"Uint64") {
					t = t.Args[0]
				}
				p := s.fl.path(t)
				if !strings.HasSuffix(p, ".Number") {
					return false
				}
				for t != nil && !received(t) {
					if len(t.Args) == 0 {
						return false
					}
					t = t.Args[0]
				}
				return t != nil
			}
			switch {
			case t.Op == "<" && callName(a) == bigInt+"Cmp" && isK(b, 0) && num(a.Args[1]) && !num(a.Args[0]):
				if val == want { // Cmp(h, n) < 0
					return true
				}
			case t.Op == "<" && callName(b) == bigInt+"Cmp" && isK(a, 0) && num(b.Args[0]) && !num(b.Args[1]):
				if val == want { // 0 < Cmp(n, h)
					return true
				}
			case t.Op == "==" && (isK(a, -1) && callName(b) == bigInt+"Cmp" && num(b.Args[1]) || isK(b, -1) && callName(a) == bigInt+"Cmp" && num(a.Args[1])):
				if val == want {
					return true
				}
			case t.Op == "==" && (isK(a, 1) && callName(b) == bigInt+"Cmp" && num(b.Args[0]) || isK(b, 1) && callName(a) == bigInt+"Cmp" && num(a.Args[0])):
				if val == want {
					return true
				}
			case t.Op == "<" && num(b):
				if counter(st, a) != nil && val == want {
					return true
				}
			}
		}
		return false
	}
	n := 0
	for _, r := range s.Call {
		st := r.St
		pos := s.g.pos(r.N)
		switch {
		case gives(st, r.N):
			n++
			if !went(st) {
				bad(pos, "a block is handed over although the watcher refused one before")
			}
			hd := r.Args[0]
			if !poll {
				var why string
				if hd, why = w.notice(s, st, r.Args[0], fmt.Sprintf("p%d", req)); why != "" {
					bad(pos, why)
					continue
				}
			}
			if hd.K == TExtract && short(callName(hd.Args[0])) == ethGet {
				f := st.must["fetch"]
				if f == nil || hd.Args[0] != f.Args[0] || hd.I != 0 || !st.succeeded(f.Args[0]) {
					bad(pos, "what is handed over may not have been obtained")
				} else if !has(st, "M:fetched") {
					bad(pos, "a block is handed over twice")
				}
				continue
			}
			if poll || !received(hd) {
				bad(pos, "what is handed over is neither a notified nor a requested block: "+s.fl.path(hd))
				continue
			}
			if !has(st, "recv") {
				bad(pos, "a block is handed over twice")
			}
			switch {
			case has(st, "M:live"):
			case !below(st, false):
				bad(pos, "a notified block is handed over although a block before it, from the requested height on, may not have been")
			}
		case short(r.N.Callee) == ethGet:
			if !went(st) {
				bad(pos, "it goes on although the watcher refused a block")
			}
			if has(st, "M:fetched") {
				f := st.must["fetch"]
				if f == nil {
					bad(pos, "a block may be skipped")
				} else if nv, k := nilState(st, errOf(s.fl.ts, f.Args[0])); !k || nv {
					bad(pos, "a block that was obtained is not handed over")
				} else if !poll {
					bad(pos, "it goes on although a block could not be obtained")
				}
			}
			if counted(st, r.Args[1]) == nil {
				if !has(st, "M:ready") && !has(st, "M:fetched") {
					bad(pos, "a block is requested whose height is not the next one")
				}
				if root := numRoot(r.Args[1]); root == nil || !w.variable(s, root) {
					bad(pos, "the height requested is not the next one: "+s.fl.path(r.Args[1]))
				}
			}
			if !poll && !below(st, true) {
				bad(pos, "a block is requested that may not be before the notified one")
			}
		case op(r.N) != "" && isStart(st, r.N, r.Args):
			if poll {
				g := r.Args[1].Args[0]
				if !st.succeeded(g) {
					bad(pos, "it begins although the height of the chain is unknown")
				}
			}
		case isStep(st, r.N, r.Args):
			if !has(st, "M:handed") {
				bad(pos, "the height is advanced although the block at it was not handed over")
			} else if !went(st) {
				bad(pos, "the height is advanced although the watcher refused the block")
			}
		case op(r.N) == "Add" || op(r.N) == "Sub" || op(r.N) == "SetInt64" || op(r.N) == "SetUint64" || op(r.N) == "Set":
			if counter(st, r.Args[1]) != nil {
				continue
			}
			if root := numRoot(r.Args[0]); w.fetched(s, root) {
				bad(pos, "the height is changed to something else than the next")
			}
		case r.N.Fn != nil && polls[r.N.Fn]:
			if f, _ := closureOf(st, stripConvT(r.Args[len(r.Args)-1])); f == nil {
				bad(pos, "blocks are polled for another watcher")
			}
		}
	}
	if n == 0 {
		bad(c.P.posOf(fn), "no block is ever handed over")
	}
	for _, b := range s.Back {
		st := b.St
		t := st.must["recvt"]
		if t == nil || !has(st, "recv") || t.N.Blk == nil || !t.N.Blk.loops[b.E.To] {
			continue
		}
		if len(polls) > 0 && poll {
			continue
		}
		bad(s.g.pos(t.N), "a notified block may be dropped")
	}
	for _, b := range s.Back {
		for ph := range counters {
			if ph.N.Blk != b.E.To {
				continue
			}
			v := b.St.val(ph.N.Args[b.E.Idx])
			q, d, k := phiPlus(v)
			moved := has(b.St, "M:handed")
			if !k || q != ph || (d == 1) != moved {
				bad(s.posOfBlk(b.E.To), "the height is advanced other than by one for each block handed over")
			}
		}
	}
	for _, b := range s.Back {
		if !went(b.St) {
			bad(s.posOfBlk(b.E.To), "it goes on although the watcher refused a block")
		}
	}
	for i := range s.Outs {
		o := &s.Outs[i]
		e := o.Rets[len(o.Rets)-1]
		if g := o.St.must["given"]; g != nil {
			if nv, k := nilState(o.St, g.Args[0]); k && !nv && unview(e) != g.Args[0] && unwrapErr(e) != g.Args[0] {
				bad(o.Pos, "a watch the watcher ended ends otherwise: "+s.fl.path(e))
				continue
			} else if !k && e != g.Args[0] {
				bad(o.Pos, "a watch ends although the watcher may have refused a block: "+s.fl.path(e))
			}
		}
		if o.failed() {
			continue
		}
		x := unview(e)
		switch {
		case x.K == TCall && x.N.Fn != nil && polls[x.N.Fn]:
		case strings.Contains(s.fl.path(x), "ethereum.Subscription).Err(") && (received(x) || x.K == TSym):
		case poll && e.isNil() && w.stopped(s, o.St):
		default:
			bad(o.Pos, "a watch may end without an error: "+s.fl.path(e))
		}
	}
	if ok {
		c.Ob("blocks", name, true, c.P.posOf(fn), "")
	}
}

func isK(t *Term, k int64) bool { v, ok := t.intVal(); return ok && v == k }

func isRecv(n *Node) bool {
	u, ok := n.Instr.(*ssa.UnOp)
	return ok && u.Op == token.ARROW
}

func stripConvT(t *Term) *Term {
	for t != nil && t.K == TConv {
		t = t.Args[0]
	}
	return t
}

// variable: a number of its own (made here), or a variable that only ever holds such numbers.
func (w *watchCheck) variable(s *Sum, t *Term) bool {
	own := func(t *Term) bool {
		r := numRoot(t)
		return r != nil && (t.isNil() || r.K == TAlloc || (r.K == TMem || r.K == TLoad) && r.Args[0].K == TAlloc || r.K == TSym && r.N != nil && r.N.Op == OpPhi || callName(r) == "math/big.NewInt")
	}
	switch {
	case (t.K == TMem || t.K == TLoad) && t.Args[0].K == TAlloc:
		for _, r := range s.Sto {
			if r.Args[0] == t.Args[0] && !own(r.Args[1]) {
				return false
			}
		}
		return true
	case t.K == TSym && t.N != nil && t.N.Op == OpPhi:
		for _, in := range s.fl.phiIn[t.N] {
			if in != nil && !own(in) {
				return false
			}
		}
		return true
	}
	return own(t)
}

// fetched: a block is requested by that number.
func (w *watchCheck) fetched(s *Sum, root *Term) bool {
	for _, r := range s.Call {
		if short(r.N.Callee) == ethGet && numRoot(r.Args[1]) == root {
			return true
		}
	}
	return false
}

// stopped: the client was told to stop.
func (w *watchCheck) stopped(s *Sum, st *State) bool {
	for _, f := range st.facts {
		if t := f.T; f.Val && t.K == TBin && t.Op == "==" {
			for i := 0; i < 2; i++ {
				if x := t.Args[i]; isK(t.Args[1-i], 0) && x.K == TExtract && x.I == 0 && x.Args[0].K == TCall && x.Args[0].Op == "select" && s.fl.path(x.Args[0].Args[0]) == "p0.stop" {
					return true
				}
			}
		}
	}
	return false
}

// notice: a notification describes one block: its header, hash, height and the logs of exactly that block.
func (w *watchCheck) notice(s *Sum, st *State, bn *Term, req string) (*Term, string) {
	fv := deepFields(st, bn)
	hd := fv["Header"]
	if hd == nil {
		return nil, "a notification has no header"
	}
	hp := s.fl.path(hd)
	const hashOf = "(*github.com/ethereum/go-ethereum/core/types.Header).Hash("
	if v := fv["Hash"]; v == nil || callName(v) != strings.TrimSuffix(hashOf, "(") || v.Args[0] != hd {
		return hd, "the hash of a notification is not that of its block: " + pathOr(s, v)
	}
	if v := fv["Height"]; v == nil || s.fl.path(v) != hp+".Number" || !v.contains(hd) {
		return hd, "the height of a notification is not that of its block: " + pathOr(s, v)
	}
	fq := req + ".FilterQuery"
	if t := factTerm(st, fq); t != nil {
		if nv, k := nilState(st, t); k && nv {
			return hd, ""
		}
	}
	l := st.must["logs"]
	if l == nil {
		return hd, "a notification may have no logs although they are asked for"
	}
	if v := fv["Logs"]; v == nil || v.K != TExtract || v.I != 0 || v.Args[0] != l.Args[0] || !st.succeeded(l.Args[0]) {
		return hd, "the logs of a notification may not be those obtained: " + pathOr(s, v)
	}
	if of := l.Args[2]; callName(of) != strings.TrimSuffix(hashOf, "(") || of.Args[0] != hd {
		return hd, "the logs are not asked for by the hash of the block: " + s.fl.path(of)
	}
	q := st.structParts(l.Args[1])
	for _, f := range []string{"Addresses", "Topics"} {
		if v := q[f]; v == nil || s.fl.path(v) != "*"+fq+"."+f && s.fl.path(v) != fq+"."+f {
			return hd, "the logs are not asked for as requested: " + pathOr(s, v)
		}
	}
	return hd, ""
}
