package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// watch: what the receiver asks the source for, and what it does with each notified block.
func (rc *recvCheck) watch(m *ssa.Function) {
	c, name := rc.c, short(m.String())
	cfg := rc.cfg()
	cfg.Go = true
	s := c.Sum(m, cfg)
	ok, n := true, 0
	bad := func(pos, msg string) { ok = false; c.Ob("watch", name, false, pos, msg) }
	done := map[*ssa.Function]bool{}
	for _, cr := range s.Call {
		meth := cr.N.Callee
		if !strings.HasSuffix(meth, "Client).MonitorBTP") && !strings.HasSuffix(meth, "Client).MonitorBlock") {
			continue
		}
		n++
		st, pos := cr.St, c.P.posStr(cr.N.Instr.Pos())
		if why := rc.request(s, st, cr.Args); why != "" {
			bad(pos, why)
		}
		cb := stripBox(cr.Args[2])
		fn, binds := closureOf(st, cb)
		if fn == nil {
			bad(pos, "cannot tell what is done with a notification: "+s.fl.path(cr.Args[2]))
			continue
		}
		free := map[string]*Term{}
		for i, v := range fn.FreeVars {
			b := binds[i]
			if _, isP := v.Type().Underlying().(*types.Pointer); isP && b.K == TAlloc {
				if x := st.lookup(b); x != nil {
					free["cell(free:"+v.Name()+")"] = x
					free["*free:"+v.Name()] = x
					continue
				}
			}
			free["free:"+v.Name()] = b
		}
		if !done[fn] {
			done[fn] = true
			if why, pos2 := rc.notified(s, st, fn, free); why != "" {
				if pos2 == "" {
					pos2 = c.P.posOf(fn)
				}
				bad(pos2, why)
			}
		}
	}
	if n == 0 {
		bad(c.P.posOf(m), "starting the receiver does not watch the source")
	}
	if ok {
		c.Ob("watch", name, true, c.P.posOf(m), "")
	}
}

func closureOf(st *State, t *Term) (*ssa.Function, []*Term) {
	if t == nil {
		return nil, nil
	}
	switch t.K {
	case TClosure:
		if mc, ok := t.N.Instr.(*ssa.MakeClosure); ok {
			return mc.Fn.(*ssa.Function), t.Args
		}
	case TFunc:
		if t.N != nil {
			return t.N.Fn, nil
		}
	}
	return nil, nil
}

func (rc *recvCheck) request(s *Sum, st *State, args []*Term) string {
	h0 := st.load(rc.heightAddr(s), nil, types.Typ[types.Int64])
	fv := deepFields(st, args[1])
	if rc.kind == "eth" {
		h := fv["Height"]
		if callName(h) != "math/big.NewInt" || !st.entails64(st.lin64(h.Args[0]).sub(st.lin64(h0))) {
			return "blocks after the destination's height may be skipped: watched from " + pathOr(s, h)
		}
		as, k := st.elems(fv["FilterQuery.Addresses"])
		if !k || len(as) != 1 || callName(as[0]) != "github.com/ethereum/go-ethereum/common.HexToAddress" || !strings.Contains(s.fl.path(as[0].Args[0]), "ContractAddress(p0.src)") {
			return "the contract watched is not the source's message center"
		}
		ts, k := st.elems(fv["FilterQuery.Topics"])
		if k && len(ts) >= 1 {
			if t0, k := st.elems(ts[0]); k && len(t0) == 1 && strings.HasSuffix(callName(t0[0]), "crypto.Keccak256Hash") {
				if d, k := st.elems(t0[0].Args[0]); k && len(d) == 1 && s.fl.path(stripConv(d[0])) == "\"Message(string,uint256,bytes)\"" {
					return ""
				}
			}
		}
		return "the event watched is not the message event"
	}
	h, nid := fmtInt(fv["Height"]), fmtInt(fv["NetworkID"])
	if h == nil {
		return "watched from an unknown height: " + pathOr(s, fv["Height"])
	}
	d := st.lin64(h).sub(st.lin64(h0))
	if rc.kind == "btp2" && !(d.isConst() && d.k.Cmp(bigOne) == 0) {
		return "not watched from the block after the destination's height: " + s.fl.path(h)
	}
	if rc.kind == "bridge" && !st.entails64(d) {
		return "blocks after the destination's height may be skipped: watched from " + s.fl.path(h)
	}
	want := st.lookupPath("p0.nid")
	if nid == nil || want == nil || !(nid == want || s.fl.path(nid) == s.fl.path(want)) {
		return "another network is watched: " + pathOr(s, fv["NetworkID"])
	}
	if p := s.fl.path(want); p != "(*chain/icon/client.Client).GetBTPLinkNetworkId(p0.c,p0.src,p0.dst)#0" {
		if v, k := st.eq(p, "0"); p != "p0.nid" || !k || v {
			return "the network watched is not that of the link from the source to the destination: " + p
		}
	} else if !st.succeeded(want.Args[0]) {
		return "the network watched may not be known"
	}
	sh := st.lookupPath("p0.startHeight")
	if sh == nil {
		return "the height at which the network starts is unknown"
	}
	l := st.lin64(sh).plus(-1)
	for a, k := range l.c {
		if len(l.c) == 1 && l.k.Sign() == 0 && k.Cmp(bigOne) == 0 && a.K == TExtract && a.I == 0 && strings.HasSuffix(callName(a.Args[0]), "HexInt).Value") && st.succeeded(a.Args[0]) {
			x := a.Args[0].Args[0]
			if p := s.fl.path(x); strings.HasPrefix(p, "(*chain/icon/client.Client).GetBTPNetworkInfo(p0.c,") && strings.HasSuffix(p, "#0.StartHeight") {
				return ""
			}
			return "the height at which the network starts is read from " + s.fl.path(x)
		}
	}
	return "the first block of the network is not the one after its start: " + s.fl.path(sh)
}

func (rc *recvCheck) heightAddr(s *Sum) *Term {
	p1 := param(s, 1)
	ts := s.fl.ts
	pt := p1.T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	vi := fieldIdx(p1.T, "Verifier")
	vt := pt.Field(vi).Type()
	v := ts.mk(Term{K: TFieldAddr, I: vi, Args: []*Term{p1}, T: types.NewPointer(vt)})
	hi := fieldIdx(vt, "Height")
	return ts.mk(Term{K: TFieldAddr, I: hi, Args: []*Term{v}, T: types.NewPointer(vt.Underlying().(*types.Struct).Field(hi).Type())})
}

// notified: the callback for a notification. up, ust: where it is registered; free: its free variables there.
func (rc *recvCheck) notified(up *Sum, ust *State, fn *ssa.Function, free map[string]*Term) (string, string) {
	c := rc.c
	cfg := rc.cfg()
	cfg.Ev = func(st *State, n *Node, args []*Term, res *Term) {
		if _, ok := n.Instr.(*ssa.Send); ok {
			st.addMust(fmt.Sprintf("send@%d", n.ID), "send", n, args...)
		}
		if _, ok := n.Instr.(*ssa.MapUpdate); ok {
			st.addMust(fmt.Sprintf("put@%d", n.ID), "put", n, args...)
		}
	}
	s := c.Sum(fn, cfg)
	me := ""
	for _, p := range sortedKeys(free) {
		if free[p] == param(up, 0) {
			if me == "" {
				me = p
			}
			for _, o := range s.Outs {
				for _, e := range o.St.must {
					if e.Tag == "send" && e.Args[0] != nil && strings.HasPrefix(s.fl.path(e.Args[0]), p+".") {
						me = p
					}
				}
			}
		}
	}
	if me == "" {
		return "the callback does not work on this receiver", ""
	}
	rss := ""
	for _, m := range c.P.impls(rc.pkg, c.P.Iface("common/link", "Receiver"), "Start") {
		rss = me + "." + rc.rss(m)
	}
	sent := 0
	for _, o := range s.Outs {
		st := o.St
		var sends []*Event
		for _, k := range sortedKeys(st.must) {
			if st.must[k].Tag == "send" {
				sends = append(sends, st.must[k])
			}
		}
		some := len(sends) > 0
		for k := range st.may {
			if strings.HasPrefix(k, "send@") {
				some = true
			}
		}
		kept := st.lookupPath(rss)
		if o.failed() {
			if some {
				return "a block is reported although the callback fails", o.Pos
			}
			if kept != nil && s.fl.path(kept) != rss {
				return "a block is kept although the callback fails", o.Pos
			}
			if v := st.lookupPath(me + ".seq"); v != nil && s.fl.path(v) != me+".seq" {
				return "the sequence is advanced although the callback fails", o.Pos
			}
			continue
		}
		if !some {
			if kept != nil && s.fl.path(kept) != rss {
				return "a block is kept but not reported", o.Pos
			}
			if why := rc.passed(s, st, me); why != "" {
				return why, o.Pos
			}
			continue
		}
		if len(sends) != 1 {
			return "a block is not reported exactly once", o.Pos
		}
		sent++
		ch, rs := sends[0].Args[0], stripBox(sends[0].Args[1])
		if s.fl.path(ch) != me+".rsc" {
			return "the block is reported on another channel: " + s.fl.path(ch), o.Pos
		}
		b, el, k := appended(st, kept)
		if kept == nil || !k || s.fl.path(b) != rss || stripBox(el) != rs {
			return "the block reported is not the one kept: " + pathOr(s, kept), o.Pos
		}
		acc := rc.acc(rs.T)
		fv := deepFields(st, rs)
		h, sq := fv[acc["Height"]], fv[acc["Seq"]]
		if h == nil || sq == nil {
			return "the height or sequence reported is unknown", o.Pos
		}
		why := ""
		if rc.kind == "eth" {
			why = rc.reportLogs(s, st, me, h, sq, fv)
		} else {
			why = rc.reportBTP(up, ust, s, st, me, h, sq, fv, free)
		}
		if why != "" {
			return why, o.Pos
		}
	}
	if sent == 0 {
		return "no notified block is ever reported", ""
	}
	return "", ""
}

// passed: a notification that reports nothing has nothing to report.
func (rc *recvCheck) passed(s *Sum, st *State, me string) string {
	if rc.kind != "eth" {
		for _, k := range sortedKeys(st.facts) {
			f := st.facts[k]
			if f.T.K == TBin && f.T.Op == "==" && f.Val {
				for i := 0; i < 2; i++ {
					if s.fl.path(f.T.Args[i]) == me+".startHeight" && strings.HasSuffix(s.fl.path(f.T.Args[1-i]), ".MainHeight") {
						return ""
					}
				}
			}
		}
		return "a block other than the network's first is not reported"
	}
	if len(st.coverHeads("p0.Logs")) > 0 || st.entails64(st.lenAt("p0.Logs")) {
		for _, k := range sortedKeys(st.facts) {
			f := st.facts[k]
			if f.T.K != TBin {
				continue
			}
			for _, a := range f.T.Args {
				if a = stripConv(a); a.K == TLen && a.Args[0].K == TAlloc && st.entails64(st.lin64(a)) {
					return "" // nothing collected
				}
			}
		}
		if st.entails64(st.lenAt("p0.Logs")) {
			return ""
		}
	}
	return "a block that may have messages is not reported"
}

// lenAt: the length of the sequence described by path, as the facts name it.
func (st *State) lenAt(path string) lin {
	for _, k := range sortedKeys(st.facts) {
		var out *Term
		var rec func(t *Term)
		rec = func(t *Term) {
			if t == nil {
				return
			}
			if t.K == TLen && st.fl.path(t.Args[0]) == path {
				out = t
			}
			for _, a := range t.Args {
				rec(a)
			}
		}
		rec(st.facts[k].T)
		if out != nil {
			return linAtom(out)
		}
	}
	return linK(1)
}

// reportBTP: a BTP block: its height, its messages, the sequence of its last message.
func (rc *recvCheck) reportBTP(up *Sum, ust *State, s *Sum, st *State, me string, h, sq *Term, fv map[string]*Term, free map[string]*Term) string {
	// the header notified
	hp := s.fl.path(stripConv(h))
	if !strings.HasSuffix(hp, ".MainHeight") {
		return "the height reported is not the notified block's: " + hp
	}
	var hdr *Term
	for _, k := range sortedKeys(st.facts) {
		for _, c := range callsIn(st.facts[k].T) {
			if strings.HasSuffix(callName(c), "UnmarshalFromBytes") && len(c.Args) == 3 && stripBox(c.Args[2]) == derefOf(stripConv(h)) {
				hdr = c.Args[1]
			}
		}
	}
	if why := rc.decoded(s, st, h, "MainHeight", hdr); hdr == nil || why != "" {
		return "the height reported is not decoded from the header: " + hp
	}
	if p := s.fl.path(hdr); p != "(*encoding/base64.Encoding).DecodeString(encoding/base64.StdEncoding,p1.Header)#0" {
		return "the header is not the notified one: " + p
	}
	// its messages
	var msgs *Term
	for _, k := range sortedKeys(st.facts) {
		for _, c := range callsIn(st.facts[k].T) {
			if strings.HasSuffix(callName(c), "Client).GetBTPMessage") && st.succeeded(c) {
				mh, why := rc.param(s, st, c)
				if why != "" {
					return "the messages: " + why
				}
				if mh != stripConv(h) {
					return "the messages are fetched for another height: " + s.fl.path(mh)
				}
				msgs = s.fl.ts.mk(Term{K: TExtract, I: 0, Args: []*Term{c}, T: types.NewSlice(types.Typ[types.String])})
			}
		}
	}
	if msgs == nil {
		return "the block's messages are not fetched"
	}
	mp := s.fl.path(msgs)
	n := st.lin64(s.fl.ts.lenOf(msgs, types.Typ[types.Int]))
	// list: every message in order
	list := func(L *Term, step func(x listStep, msg *Term, h *Block) string) (string, *Block) {
		ll, size, why := s.filled(L)
		if why != "" {
			return why, nil
		}
		if size != nil && !linEqual(st, st.lin64(size), n) {
			return "the list's size is not the number of the block's messages", nil
		}
		for _, e := range ll.entry {
			if !emptyList(st, e) {
				return "the messages do not start empty", nil
			}
		}
		cov := false
		for _, b := range st.coverHeads(mp) {
			cov = cov || b == ll.head
		}
		if !cov {
			return "not every message of the block is taken", nil
		}
		for _, x := range ll.steps {
			var msg *Term
			if len(x.Added) > 1 {
				return "a message is taken more than once", nil
			}
			if why := step(x, msg, ll.head); why != "" {
				return why, nil
			}
		}
		return "", ll.head
	}
	// message: t is the decoded message of this iteration
	message := func(x *State, t *Term, head *Block) string {
		if t == nil || t.K != TExtract || t.I != 0 || !strings.HasSuffix(callName(t.Args[0]), "Encoding).DecodeString") || s.fl.path(t.Args[0].Args[0]) != "encoding/base64.StdEncoding" || !x.succeeded(t.Args[0]) {
			return "a message is not the decoded one: " + pathOr(s, t)
		}
		q, ix := elemAt(t.Args[0].Args[1])
		if q == nil || s.fl.path(q) != mp {
			return "a message is not one of the block's: " + s.fl.path(t.Args[0].Args[1])
		}
		if h, first, off, k := s.loopIndex(x, ix); !k || h != head || !linEqual(x, first.plus(off), linK(0)) {
			return "the messages are not taken in order: " + s.fl.path(ix)
		}
		return ""
	}
	if rc.kind == "btp2" {
		old := linK(0)
		for t := range st.lin64(sq).c {
			if s.fl.path(t) == me+".seq" {
				old = linAtom(t)
			}
		}
		if len(old.c) == 0 || !linEqual(st, st.lin64(sq), old.add(n, bigOne)) {
			return "the sequence reported is not the previous one plus the number of the block's messages: " + s.fl.path(sq)
		}
		if v := st.lookupPath(me + ".seq"); v == nil || !linEqual(st, st.lin64(v), st.lin64(sq)) {
			return "the sequence is not carried over to the next block: " + pathOr(s, v)
		}
		// where it starts
		if why := rc.startSeq(up, ust); why != "" {
			return why
		}
		var mt *Term
		for _, v := range fv {
			if v.T != nil && strings.HasSuffix(v.T.String(), "mbt.MerkleBinaryTree") {
				mt = v
			}
		}
		if mt == nil || mt.K != TExtract || !strings.HasSuffix(callName(mt.Args[0]), "mbt.NewMerkleBinaryTree") || !st.succeeded(mt.Args[0]) {
			return "the block's message tree is not built from its messages: " + pathOr(s, mt)
		}
		if p := s.fl.path(mt.Args[0].Args[0]); p != "common/mbt.HashFuncByUID(\"eth\")" {
			return "the block's message tree uses another hash: " + p
		}
		why, _ := list(mt.Args[0].Args[1], func(x listStep, _ *Term, head *Block) string {
			if len(x.Added) != 1 {
				return "a message of the block may be left out"
			}
			return message(x.St, x.Added[0], head)
		})
		return why
	}
	// bridge
	var evs, rpH *Term
	for k, v := range fv {
		if strings.HasSuffix(k, ".Events") {
			evs = v
		}
		if strings.HasSuffix(k, ".Height") {
			rpH = v
		}
	}
	if evs == nil {
		return "the block's messages are not kept"
	}
	if rpH != nil && stripConv(rpH) != stripConv(h) {
		return "the messages are kept under another height: " + s.fl.path(rpH)
	}
	var sn *Term
	var seq, first lin // a message's sequence in an iteration, and that of the first
	if ll, _, _ := s.filled(evs); ll != nil {
		for _, x := range ll.steps { // first + index
			if len(x.Added) != 1 {
				continue
			}
			ef := deepFields(x.St, x.Added[0])
			m := ef["Message"]
			if m == nil || m.K != TExtract || len(m.Args[0].Args) < 2 || ef["Sequence"] == nil {
				continue
			}
			_, ix := elemAt(m.Args[0].Args[1])
			if ix == nil {
				continue
			}
			b := x.St.lin64(ef["Sequence"]).sub(x.St.lin64(ix))
			inv := true
			for t := range b.c {
				inv = inv && !t.hasSym(-(ll.head.ID+1)) && !(t.K == TSym && t.N.Op == OpPhi)
			}
			if inv && len(b.c) > 0 {
				seq, first = x.St.lin64(ef["Sequence"]), b
			}
		}
	}
	why, head := list(evs, func(x listStep, _ *Term, head *Block) string {
		if sn == nil && !seq.ok {
			// the message number: a loop variable counting up with the messages, one of which the sequence is
			for _, nd := range head.Nodes {
				if nd.Op != OpPhi {
					break
				}
				p := s.fl.sym(nd)
				if !isIntTerm(p) {
					continue
				}
				if f, step, k := s.fl.induction(p); k && step == 1 && !f.isConst() {
					sn, seq, first = p, linAtom(p), x.St.lin64(f)
				}
			}
		}
		if !seq.ok {
			return "cannot tell the sequence of a message"
		}
		if len(x.Added) == 0 {
			for _, k := range sortedKeys(x.St.facts) {
				f := x.St.facts[k]
				if f.T.K != TBin || f.T.Op != "<" {
					continue
				}
				for _, a := range f.T.Args {
					if strings.HasSuffix(s.fl.path(a), ".RxSeq") && rc.freeIs(s, free, a, param(up, 1)) && x.St.entails64(seq.sub(x.St.lin64(a))) {
						return ""
					}
				}
			}
			return "a message the destination has not received may be left out"
		}
		ef := deepFields(x.St, x.Added[0])
		if q := ef["Sequence"]; q == nil || !linEqual(x.St, x.St.lin64(q), seq) {
			return "a message does not carry its own sequence: " + pathOr(s, ef["Sequence"])
		}
		if p := pathOr(s, ef["Next"]); !strings.Contains(p, me+".dst") {
			return "a message is not addressed to the destination: " + p
		}
		return message(x.St, ef["Message"], head)
	})
	if why != "" {
		return why
	}
	_ = head
	// first message number: link offset + 1 + first message of the block
	l := first
	okN, okO := false, false
	for a, k := range l.c {
		if k.Cmp(bigOne) != 0 {
			return "the first message's sequence is not that of the link: " + l.String()
		}
		if a.K == TBin && (a.Op == ">>" || a.Op == "/") && strings.HasSuffix(s.fl.path(a.Args[0]), ".UpdateNumber") && derefOf(stripConv(a.Args[0])) == derefOf(stripConv(h)) {
			v, k := a.Args[1].intVal()
			okN = k && (a.Op == ">>" && v == 1 || a.Op == "/" && v == 2)
			continue
		}
		fr := free[s.fl.path(a)]
		if fr == nil {
			return "the first message's sequence is not that of the link: " + l.String()
		}
		o := ust.lin64(fr)
		o = o.plus(l.k.Int64())
		for b, k := range o.c {
			okO = len(o.c) == 1 && k.Cmp(bigOne) == 0 && o.k.Cmp(bigOne) == 0 && up.fl.path(b) == "(*chain/icon/client.Client).GetBTPLinkOffset(p0.c,p0.src,p0.dst)#0" && ust.succeeded(b.Args[0])
		}
	}
	if !okN || !okO {
		return "the first message's sequence is not one more than the link's offset plus the number of messages before the block: " + l.String()
	}
	// sequence reported: of the last message
	if !(sn != nil && linEqual(st, st.lin64(sq), linAtom(sn).plus(-1))) && !linEqual(st, st.lin64(sq), l.add(n, bigOne).plus(-1)) {
		return "the sequence reported is not that of the block's last message: " + s.fl.path(sq)
	}
	return ""
}

// freeIs: the root of t is a free variable holding v.
func (rc *recvCheck) freeIs(s *Sum, free map[string]*Term, t, v *Term) bool {
	p := s.fl.path(t)
	for k, x := range free {
		if strings.HasPrefix(p, k+".") && x == v {
			return true
		}
	}
	return false
}

// startSeq: counting starts at the destination's last received sequence.
func (rc *recvCheck) startSeq(up *Sum, ust *State) string {
	v := ust.lookupPath("p0.seq")
	if v != nil && pathIs(ust, v, "p1.RxSeq") {
		return ""
	}
	if z, k := ust.eq("p1.RxSeq", "0"); k && z && (v == nil || pathIs(ust, v, "p0.seq")) {
		return ""
	}
	return "counting does not start at the destination's last received sequence: " + pathOr(up, v)
}

// reportLogs: an Ethereum block: every message for the destination not yet received, by transaction.
func (rc *recvCheck) reportLogs(s *Sum, st *State, me string, h, sq *Term, fv map[string]*Term) string {
	if p := s.fl.path(h); p != "(*math/big.Int).Int64(p0.Height)" {
		return "the height reported is not the notified block's: " + p
	}
	if v := st.lookupPath(me + ".seq"); v == nil || !st.same(v, sq) {
		return "the sequence reported is not carried over to the next block: " + pathOr(s, v)
	}
	var R *Term
	for k, v := range fv {
		if sl, isS := v.T.Underlying().(*types.Slice); isS && !strings.Contains(k, ".") {
			if _, isP := sl.Elem().Underlying().(*types.Pointer); isP {
				R = v
			}
		}
	}
	if R == nil {
		return "the block's messages are not kept"
	}
	// the last message of the last receipt
	bad := "the sequence reported is not that of the block's last message: " + s.fl.path(sq)
	if callName(sq) != "(*math/big.Int).Int64" {
		return bad
	}
	last := func(q, ix *Term) bool {
		return q != nil && linEqual(st, st.lin64(ix), st.lin64(s.fl.ts.lenOf(q, nil)).plus(-1))
	}
	x := sq.Args[0]
	if x.K != TLoad || !strings.HasSuffix(s.fl.path(x), ".Sequence") {
		return bad
	}
	evs, ix := elemAt(x.Args[0].Args[0])
	if !last(evs, ix) || evs.K != TLoad || !strings.HasSuffix(s.fl.path(evs), ".Events") {
		return bad
	}
	rs, ix := elemAt(evs.Args[0].Args[0])
	if !last(rs, ix) || rs != R {
		return bad
	}
	// receipts: all of the map's, in the order of their index
	ll, why := s.loopList(R)
	if why != "" {
		return why
	}
	for _, e := range ll.entry {
		if !emptyList(st, e) {
			return "the receipts do not start empty"
		}
	}
	var mp *Term
	for _, x := range ll.steps {
		if len(x.Added) != 1 {
			return "a receipt with messages may be left out"
		}
		e := x.Added[0]
		if e.K != TExtract || e.I != 2 || e.Args[0].Op != "next" {
			return "a receipt kept is not one of those collected: " + s.fl.path(e)
		}
		if r := e.Args[0].Args[0]; r.Op == "range" {
			mp = r.Args[0]
		}
	}
	if mp == nil {
		return "the receipts kept are unknown"
	}
	if hs := st.coverHeadsT(mp); len(hs) != 1 || hs[0] != ll.head {
		return "not every receipt collected is kept"
	}
	sorted := ""
	for _, cr := range s.Call {
		if (cr.N.Callee == "sort.Slice" || cr.N.Callee == "sort.SliceStable") && stripBox(cr.Args[0]) == R {
			fn, _ := closureOf(cr.St, stripBox(cr.Args[1]))
			sorted = "the receipts are not put in the order of their index"
			if fn != nil {
				for _, o := range rc.c.Sum(fn, rc.cfg()).Outs {
					t := o.Rets[0]
					if t.K == TBin && t.Op == "<" && strings.HasSuffix(o.St.fl.path(t.Args[0]), "[p0].Index") && strings.HasSuffix(o.St.fl.path(t.Args[1]), "[p1].Index") {
						sorted = "ok"
					}
				}
			}
		}
	}
	if sorted == "" {
		return "the receipts are left in no particular order"
	}
	if sorted != "ok" {
		return sorted
	}
	return rc.logs(s, st, me, mp)
}

// logs: every message log of the block is decoded and collected under its transaction unless already received or
// for another destination.
func (rc *recvCheck) logs(s *Sum, st *State, me string, mp *Term) string {
	hs := st.coverHeads("p0.Logs")
	if len(hs) == 0 {
		return "not every log of the block is looked at"
	}
	n := 0
	for _, b := range s.Back {
		if b.E.To != hs[0] {
			continue
		}
		why, added := rc.log(s, b.St, me, mp, hs[0])
		if why != "" {
			return why
		}
		if added {
			n++
		}
	}
	if n == 0 {
		return "no message is ever collected"
	}
	return ""
}

func (rc *recvCheck) log(s *Sum, st *State, me string, mp *Term, head *Block) (string, bool) {
	// the log's message
	var lg *Term
	for _, k := range sortedKeys(st.facts) {
		for _, c := range callsIn(st.facts[k].T) {
			if strings.HasSuffix(callName(c), "binding.UnpackEventLog") && st.succeeded(c) {
				lg = c
			}
		}
	}
	if lg == nil {
		return "a log is not decoded", false
	}
	lp := s.fl.path(lg.Args[0])
	if !strings.HasPrefix(lp, "p0.Logs[") || !strings.HasSuffix(lp, "].Data") {
		return "what is decoded is not the log: " + lp, false
	}
	el := strings.TrimSuffix(lp, ".Data")
	msg := s.fl.path(s.fl.ts.mk(Term{K: TExtract, I: 0, Args: []*Term{lg}, T: types.Typ[types.Int]}))
	ev := func(t *Term) string { return strings.ReplaceAll(s.fl.path(t), msg, "$") }
	// collected
	for _, k := range sortedKeys(st.mem) {
		m := st.mem[k]
		b, e, ok := appended(st, m.val)
		if !ok || !strings.HasSuffix(s.fl.path(m.addr), ".Events") {
			continue
		}
		ef := deepFields(st, e)
		for _, w := range [][2]string{{"Next", "$.Next"}, {"Sequence", "$.Seq"}, {"Message", "$.Msg"}} {
			if ef[w[0]] == nil || ev(ef[w[0]]) != w[1] {
				return "the message collected is not the log's: " + w[0] + " is " + pathOr(s, ef[w[0]]), false
			}
		}
		r := m.addr.Args[0]
		rf := deepFields(st, r)
		if r.K == TAlloc {
			if !emptyList(st, b) {
				return "a new receipt does not start empty", false
			}
			if !pathIs(st, rf["Index"], el+".TxIndex") || !pathIs(st, rf["Height"], el+".BlockNumber") {
				return "a receipt's index or height is not its transaction's: " + pathOr(s, rf["Index"]) + ", " + pathOr(s, rf["Height"]), false
			}
			put := false
			for _, k := range sortedKeys(st.must) {
				e := st.must[k]
				if e.Tag == "put" && e.Args[0] == mp && pathIs(st, e.Args[1], el+".TxIndex") && e.Args[2] == r {
					put = true
				}
			}
			if !put {
				return "a new receipt is not collected under its transaction", false
			}
		} else {
			t := r
			if t.K == TExtract && t.I == 0 {
				t = t.Args[0]
			}
			if len(t.Args) < 2 || t.Args[0] != mp || !pathIs(st, t.Args[1], el+".TxIndex") {
				return "a message is collected under another transaction: " + s.fl.path(r), false
			}
			if p := s.fl.path(b); p != s.fl.path(r)+".Events" {
				return "the messages of the same transaction collected before are lost: " + p, false
			}
		}
		return "", true
	}
	// or passed over
	for _, k := range sortedKeys(st.facts) {
		f := st.facts[k]
		if f.T.K != TBin {
			continue
		}
		if f.T.Op == "<" && !f.Val && s.fl.path(f.T.Args[0]) == me+".seq" && ev(f.T.Args[1]) == "(*math/big.Int).Int64($.Seq)" {
			return "", false
		}
		if f.T.Op == "==" && !f.Val {
			a, b := ev(f.T.Args[0]), ev(f.T.Args[1])
			if b == "$.Next" || strings.Contains(b, "$.Next") {
				a, b = b, a
			}
			if strings.Contains(a, "$.Next") && strings.Contains(b, me+".dst") {
				return "", false
			}
		}
	}
	return "a message for the destination may be left out", false
}

// message: the relay message holds every item's bytes under the item's own kind, in order (btp2), or the bytes of
// a message proof among the items (bridge, eth).
func (rc *recvCheck) message(m *ssa.Function) {
	c, name := rc.c, short(m.String())
	s := c.Sum(m, rc.cfg())
	ok, n := true, 0
	bad := func(pos, msg string) { ok = false; c.Ob("message", name, false, pos, msg) }
	// payloadOf: t is the bytes of items[i], an item of the given kind
	payloadOf := func(t *Term) (el *Term, kind string) {
		t = stripConv(t)
		if t == nil || t.K != TLoad {
			return nil, ""
		}
		obj := derefOf(t)
		if obj != nil && obj.K == TExtract && obj.I == 0 {
			obj = obj.Args[0]
		}
		if obj == nil || obj.K != TPure || !strings.HasPrefix(obj.Op, "assert:") {
			return nil, ""
		}
		at := obj.T
		p := rc.acc(at)["Len"]
		if p == "" || !strings.HasSuffix(s.fl.path(t), "."+p) {
			return nil, ""
		}
		for _, k := range []string{"MessageProof", "BlockUpdate"} {
			if it := c.P.Iface("common/link", k); it != nil && types.Implements(at, it) {
				kind = k
				break
			}
		}
		el = obj.Args[0]
		if q, _ := elemAt(el); q == nil || s.fl.path(q) != "p1" {
			return nil, ""
		}
		return el, kind
	}
	for _, o := range s.Outs {
		if o.failed() {
			continue
		}
		st := o.assumed()
		if rc.kind == "btp2" {
			rm := rlpOf(st, o.Rets[0])
			if rm == nil {
				bad(o.Pos, "the relay message is not an RLP encoding: "+s.fl.path(o.Rets[0]))
				continue
			}
			L := deepFields(st, rm)["Messages"]
			ll, size, why := s.filled(L)
			if size != nil && !linEqual(st, st.lin64(size), st.lin64(s.fl.ts.lenOf(param(s, 1), nil))) {
				why = "the relay message's size is not the number of items"
			}
			if why != "" {
				bad(o.Pos, why)
				continue
			}
			for _, e := range ll.entry {
				if !emptyList(st, e) {
					bad(o.Pos, "the relay message does not start empty")
				}
			}
			cov := false
			for _, h := range st.coverHeads("p1") {
				cov = cov || h == ll.head
			}
			if !cov {
				bad(o.Pos, "not every item is put in the relay message")
			}
			for _, x := range ll.steps {
				if len(x.Added) != 1 {
					bad(o.Pos, fmt.Sprintf("an item is put in the relay message %d times", len(x.Added)))
					continue
				}
				n++
				fv := deepFields(x.St, x.Added[0])
				el, kind := payloadOf(fv["Payload"])
				if el == nil {
					bad(o.Pos, "what is put in the relay message is not an item's bytes: "+pathOr(s, fv["Payload"]))
					continue
				}
				want := map[string]int64{"BlockUpdate": 1, "MessageProof": 2}[kind]
				if v, k := fv["Type"].intVal(); !k || want == 0 || v != want {
					bad(o.Pos, fmt.Sprintf("a %s is put in the relay message as kind %s", kind, pathOr(s, fv["Type"])))
				}
				_, ix := elemAt(el)
				if h, first, off, k := s.loopIndex(x.St, ix); !k || h != ll.head || !linEqual(x.St, first.plus(off), linK(0)) {
					bad(o.Pos, "the items are not put in the relay message in order")
				}
			}
			continue
		}
		mpc, _ := c.P.constVal("common/link", "TypeMessageProof")
		isMP := func(st *State, el *Term) (bool, bool) {
			for _, k := range sortedKeys(st.facts) {
				f := st.facts[k]
				if f.T.K != TBin || f.T.Op != "==" {
					continue
				}
				for i := 0; i < 2; i++ {
					v, k := f.T.Args[i].intVal()
					t := stripConv(f.T.Args[1-i])
					if k && v == mpc && strings.HasSuffix(callName(t), ".Type") && (el == nil || t.contains(el)) {
						return f.Val, true
					}
				}
			}
			return false, false
		}
		// notMP: the item is not of the type of message proofs
		notMP := func(st *State, el *Term) bool {
			for _, k := range sortedKeys(st.facts) {
				f := st.facts[k]
				if !f.Val && f.T.K == TPure && strings.HasPrefix(f.T.Op, "is:") && strings.HasSuffix(f.T.Op, ".MessageProof") && el != nil && f.T.contains(el) {
					return true
				}
			}
			return false
		}
		r := o.Rets[0]
		if r.isNil() {
			okk := false
			for _, h := range st.coverHeads("p1") {
				okk = true
				for _, b := range s.Back {
					if b.E.To != h {
						continue
					}
					el := factElem(b.St, "p1", h)
					if v, k := isMP(b.St, el); (!k || v) && !notMP(b.St, el) {
						okk = false
					}
				}
			}
			if !okk {
				bad(o.Pos, "no relay message is built although there may be a message proof")
			}
			continue
		}
		n++
		el, kind := payloadOf(r)
		if el == nil || kind != "MessageProof" {
			bad(o.Pos, "the relay message is not the bytes of a message proof among the items: "+s.fl.path(r))
			continue
		}
		if v, k := isMP(st, el); k && !v {
			bad(o.Pos, "the relay message is the bytes of an item that is not a message proof")
		}
	}
	if n == 0 {
		bad(c.P.posOf(m), "no relay message is ever built")
	}
	if ok {
		c.Ob("message", name, true, c.P.posOf(m), "")
	}
}

// forget: a received block is dropped only when the destination's status has reached its height and sequence.
func (rc *recvCheck) forget(start *ssa.Function, ri *types.Interface) {
	c, name := rc.c, short(start.Signature.Recv().Type().String())
	list := "p0." + rc.rss(start)
	ok, n := true, 0
	bad := func(pos, msg string) { ok = false; c.Ob("forget", name, false, pos, msg) }
	for i := 0; i < ri.NumMethods(); i++ {
		for _, m := range c.P.impls(rc.pkg, ri, ri.Method(i).Name()) {
			s := c.Sum(m, rc.cfg())
			for _, cr := range s.Sto {
				st, a, v := cr.St, cr.Args[0], cr.Args[1]
				if s.fl.path(a) != "&"+list {
					continue
				}
				n++
				if why := rc.dropped(s, st, list, v); why != "" {
					bad(c.P.posStr(cr.N.Instr.Pos()), why)
				}
			}
		}
	}
	if n == 0 {
		bad(c.P.posOf(start), "received blocks are never forgotten")
	}
	if ok {
		c.Ob("forget", name, true, c.P.posOf(start), "")
	}
}

func (rc *recvCheck) dropped(s *Sum, st *State, list string, v *Term) string {
	covered := func(st *State, el *Term) bool {
		if el == nil {
			return false
		}
		fv := readFields(st, el)
		h, q := fv[rc.acc(el.T)["Height"]], fv[rc.acc(el.T)["Seq"]]
		p1 := param(s, 1)
		if h == nil || q == nil || p1 == nil {
			return false
		}
		ch := st.clone()
		bh := ch.load(rc.heightAddr(s), nil, types.Typ[types.Int64])
		bq := ch.load(s.fl.ts.mk(Term{K: TFieldAddr, I: fieldIdx(p1.T, "RxSeq"), Args: []*Term{p1}, T: types.NewPointer(types.Typ[types.Int64])}), nil, types.Typ[types.Int64])
		return ch.entails64(ch.lin64(h).sub(ch.lin64(bh))) && ch.entails64(ch.lin64(q).sub(ch.lin64(bq)))
	}
	v = copyOf(st, stripBox(v))
	if s.fl.path(v) == list {
		return ""
	}
	if b, _, k := appended(st, v); k && s.fl.path(b) == list {
		return ""
	}
	if v.K == TSlice && v.Args[2] == nil && isListOrTail(st, v.Args[0], list) {
		lo := linK(0)
		if v.Args[1] != nil {
			lo = st.lin64(v.Args[1])
		}
		if lo.isConst() && lo.k.Sign() == 0 {
			return ""
		}
		// the last one dropped
		for _, k := range sortedKeys(st.facts) {
			if el := elemIn(st, st.facts[k].T, list); el != nil {
				_, ix := elemAt(el)
				if linEqual(st, st.lin64(ix), lo.plus(-1)) && covered(st, el) {
					return ""
				}
			}
		}
		// or found in a loop before: a cut position that follows the last covered block
		if v.Args[1] != nil && v.Args[1].K == TSym && v.Args[1].N.Op == OpPhi && v.Args[1].N.Blk.loopHead {
			ph := v.Args[1]
			why := ""
			for _, x := range s.Ent {
				if x.E.To == ph.N.Blk {
					if w, k := x.St.val(ph.N.Args[x.E.Idx]).intVal(); !k || w != 0 {
						why = "received blocks may be forgotten before they are delivered"
					}
				}
			}
			for _, x := range s.Back {
				if x.E.To != ph.N.Blk {
					continue
				}
				w := x.St.val(ph.N.Args[x.E.Idx])
				if w == ph {
					continue
				}
				el := factElem(x.St, list, nil)
				_, ix := elemAt(el)
				if el == nil || !linEqual(x.St, x.St.lin64(w), x.St.lin64(ix).plus(1)) || !covered(x.St, el) {
					why = "a received block may be forgotten before it is delivered"
				}
			}
			if why == "" {
				return ""
			}
			return why
		}
		return "a received block may be forgotten before the destination has reached its height and sequence"
	}
	// a filtered copy
	ll, why := s.loopList(v)
	if why != "" {
		return "the received blocks are replaced: " + why
	}
	for _, e := range ll.entry {
		if !emptyList(st, e) && !(e.K == TSlice && e.Args[2] != nil && isListOrTail(st, e.Args[0], list)) {
			return "the received blocks are replaced by others"
		}
	}
	for _, x := range ll.steps {
		if len(x.Added) == 0 && !covered(x.St, factElem(x.St, list, ll.head)) {
			return "a received block may be forgotten before the destination has reached its height and sequence"
		}
		for _, a := range x.Added {
			if q, _ := elemAt(a); q == nil || !isListOrTail(x.St, q, list) {
				return "the received blocks are replaced by others"
			}
		}
	}
	return ""
}
