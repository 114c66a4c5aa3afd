package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "complete delivery",
		"prefix-consumption analysis of the senders: each transaction of a relay call carries the next unsent part of the message (loop-carried remainder tracked through phis as a relational fact), fragment indices start at -n and count down to 0, a message reported as sent has no rest; every transaction is addressed to the destination's contract for the source's link under the contract's names, and is signed after its last change and sent as signed",
		checkDeliver)
}

func checkDeliver(c *Ctx) {
	si := c.P.Iface("common/types", "Sender")
	if si == nil {
		c.Missing("cover", "common/types.Sender")
		return
	}
	for _, m := range c.P.impls("chain/icon", si, "Relay") {
		deliverIcon(c, m)
	}
	for _, m := range c.P.impls("chain/ethbr", si, "Relay") {
		deliverEth(c, m)
	}
	c.Need("cover", 2)
	c.Need("signed", 1)
	names := map[string]map[string]string{
		"BMCRelayMethodParams":    {"Prev": "_prev", "Messages": "_msg"},
		"BMCFragmentMethodParams": {"Prev": "_prev", "Messages": "_msg", "Index": "_idx"},
		"CallData":                {"Method": "method", "Params": "params"},
		"TransactionParam":        {"Version": "version", "FromAddress": "from", "ToAddress": "to", "StepLimit": "stepLimit", "Timestamp": "timestamp", "NetworkID": "nid", "Signature": "signature", "DataType": "dataType", "Data": "data", "TxHash": "-"},
	}
	for _, tn := range sortedKeys(names) {
		t := c.P.Type("chain/icon/client", tn)
		if t == nil {
			c.Missing("names", "chain/icon/client."+tn)
			continue
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			c.Missing("names", "chain/icon/client."+tn+" as a struct")
			continue
		}
		for _, fn := range sortedKeys(names[tn]) {
			got := "missing"
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == fn {
					got = jsonName(st, i)
				}
			}
			c.Ob("names", tn+"."+fn, got == names[tn][fn], c.P.posStr(t.(*types.Named).Obj().Pos()), fmt.Sprintf("field %s is sent as %q, the destination expects %q", fn, got, names[tn][fn]))
		}
	}
	c.Need("names", 2)
}

// jsonName: the JSON name of a struct field.
func jsonName(st *types.Struct, i int) string {
	tag := reflectTag(st.Tag(i), "json")
	n := strings.Split(tag, ",")[0]
	if n == "" {
		return st.Field(i).Name()
	}
	return n
}

func reflectTag(tag, key string) string {
	for _, p := range strings.Fields(tag) {
		if strings.HasPrefix(p, key+":\"") {
			return strings.TrimSuffix(strings.TrimPrefix(p, key+":\""), "\"")
		}
	}
	return ""
}

// termOf: a canonical term for a linear expression.
func (s *State) termOf(l lin) *Term {
	ts := s.fl.ts
	var ks []*Term
	for t := range l.c {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].key < ks[j].key })
	it := types.Typ[types.Int]
	var r *Term
	for _, t := range ks {
		x := t
		if k := l.c[t].Int64(); k != 1 {
			x = ts.mk(Term{K: TBin, Op: "*", Args: []*Term{ts.intC(k), t}, T: it})
		}
		if r == nil {
			r = x
		} else {
			r = ts.mk(Term{K: TBin, Op: "+", Args: []*Term{r, x}, T: it})
		}
	}
	k := ts.intC(l.k.Int64())
	if r == nil {
		return k
	}
	if l.k.Sign() != 0 {
		r = ts.mk(Term{K: TBin, Op: "+", Args: []*Term{r, k}, T: it})
	}
	return r
}

func (s *State) ghost(name string, args ...*Term) {
	k := "ghost:" + name
	for _, a := range args {
		k += ":" + a.key
	}
	s.addMust(k, "ghost:"+name, nil, args...)
}

func (s *State) ghosts(name string) (out []*Event) {
	for _, k := range sortedKeys(s.must) {
		if s.must[k].Tag == "ghost:"+name {
			out = append(out, s.must[k])
		}
	}
	return
}

func (s *State) clearGhosts(name string) {
	for _, e := range s.ghosts(name) {
		delete(s.must, e.Key)
	}
}

// carryGhosts restates the ghost facts of a state in terms of the phis of a loop head it enters. Each ghost
// (a tuple of terms) stays true when a sub-expression equal to the incoming value of a phi is replaced by
// the phi; all such restatements are kept, so that one that holds on every edge is available in the loop.
func carryGhosts(s *State, e0 *Edge, phis []PhiIn, coefs []int64, names ...string) func() {
	type g struct {
		name string
		args []*Term
	}
	var add []g
	dead := func(t *Term) bool {
		for _, p := range phis {
			if t.hasSym(p.N.ID) {
				return true
			}
		}
		return t.hasSym(-(e0.To.ID + 1))
	}
	for _, nm := range names {
		for _, e := range s.ghosts(nm) {
			all := make([]*Term, len(e.Args))
			alive := true
			for i, a := range e.Args {
				all[i] = a
				for _, p := range phis {
					if a == p.In {
						all[i] = p.Sym
					}
				}
				alive = alive && (all[i] != a || !dead(a))
			}
			if alive {
				add = append(add, g{nm, all})
			}
			for _, p := range phis {
				for i, a := range e.Args {
					rest := make([]*Term, len(e.Args))
					copy(rest, e.Args)
					if isIntTerm(a) && isIntTerm(p.In) {
						ins := []lin{s.lin(p.In)}
						for k := int64(0); k < 3; k++ {
							if !ins[0].isConst() && linEqual(s, ins[0], linK(k)) {
								ins = append(ins, linK(k))
							}
						}
						for j := 0; j < len(coefs)*len(ins); j++ {
							cf, in := coefs[j%len(coefs)], ins[j/len(coefs)]
							l := s.lin(a).add(in, big.NewInt(-cf))
							t := s.termOf(l)
							if dead(t) {
								continue
							}
							rest2 := append([]*Term(nil), rest...)
							rest2[i] = s.termOf(l.add(linAtom(p.Sym), big.NewInt(cf)))
							ok := true
							for j, r := range rest2 {
								if j != i && dead(r) {
									ok = false
								}
							}
							if ok {
								add = append(add, g{nm, rest2})
							}
						}
					} else if a == p.In {
						rest[i] = p.Sym
						ok := true
						for j, r := range rest {
							if j != i && dead(r) {
								ok = false
							}
						}
						if ok {
							add = append(add, g{nm, rest})
						}
					}
				}
				// the rest of a sequence: p.In is R[off:]
				if nm == "rest" {
					b, lo, hi := sliceParts(s, p.In)
					if b == e.Args[0] && hi == nil {
						if off := s.termOf(s.lin(e.Args[1]).sub(lo)); !dead(off) {
							add = append(add, g{nm, []*Term{p.Sym, off}})
						}
					}
				}
			}
		}
	}
	return func() {
		for _, x := range add {
			s.ghost(x.name, x.args...)
		}
	}
}

// carrySigns keeps what is known of the integers entering a loop relative to 0 and 1.
func carrySigns(s *State, phis []PhiIn) func() {
	ts := s.fl.ts
	var add []Fact
	for _, p := range phis {
		if !isIntTerm(p.In) {
			continue
		}
		l := s.lin(p.In)
		for k := int64(0); k < 2; k++ {
			if s.entails(linK(k).sub(l)) {
				add = append(add, Fact{ts.bin(token.LSS, p.Sym, ts.intC(k), types.Typ[types.Bool]), false})
			}
		}
		if s.entails(l) {
			add = append(add, Fact{ts.bin(token.LSS, ts.intC(0), p.Sym, types.Typ[types.Bool]), false})
		}
	}
	return func() {
		for _, f := range add {
			s.assume(f.T, f.Val)
		}
	}
}

// linEqual: the state's facts make both equal.
func linEqual(s *State, a, b lin) bool {
	return linSame(a, b) || s.entails(a.sub(b)) && s.entails(b.sub(a))
}

func linSame(a, b lin) bool { d := a.sub(b); return d.isConst() && d.k.Sign() == 0 }

// sliceParts: t as base[lo:hi] (hi nil: to the end).
func sliceParts(s *State, t *Term) (*Term, lin, *Term) {
	if t != nil && t.K == TSlice {
		lo := linK(0)
		if t.Args[1] != nil {
			lo = s.lin(t.Args[1])
		}
		return t.Args[0], lo, t.Args[2]
	}
	return t, linK(0), nil
}

func isTxParam(t types.Type) bool {
	return strings.HasSuffix(t.String(), "chain/icon/client.TransactionParam")
}

func deliverIcon(c *Ctx, m *ssa.Function) {
	name := short(m.String())
	sends := callsMethod(chainResList[0].send...)
	polls := callsMethod(chainResList[0].poll...)
	// functions that sign and send one transaction given to them
	unit := func(f *ssa.Function) bool {
		if pkgOf(f) != "chain/icon" || f == m {
			return false
		}
		direct, param := c.P.reachFn(f, sends), false
		for _, p := range f.Params {
			param = param || isTxParam(p.Type())
		}
		return direct && param
	}
	units := map[*ssa.Function]bool{}
	skip := func(f *ssa.Function) bool { return c.P.reachFn(f, polls) }
	isB := func(s *State, t *Term) bool {
		return t != nil && t.K == TCall && t.N.Invoke != nil && t.N.Invoke.Name() == "Bytes" && s.fl.path(t.Args[0]) == "p1"
	}
	ok := true
	seen := map[string]bool{}
	bad := func(pos, msg string) {
		ok = false
		if !seen[pos+msg] {
			seen[pos+msg] = true
			c.Ob("cover", name, false, pos, msg)
		}
	}
	coefs := []int64{1, -1}
	ck := map[int64]bool{1: true, -1: true}
	var s *Sum
	var final bool
	g0 := func(n *Node) string { return c.P.posStr(n.Instr.Pos()) }
	var fv map[string]*Term // of the transaction, before the call
	check := func(st *State, n *Node, args []*Term, res *Term) {
		rep := func(msg string) {
			if final {
				bad(g0(n), msg)
			}
		}
		if fv == nil {
			rep("what is sent is not a known transaction")
			return
		}
		path := func(k string) string {
			if fv[k] == nil {
				return "not set"
			}
			return st.fl.path(stripConv(fv[k]))
		}
		for _, w := range [][2]string{
			{"ToAddress", "(common/types.BtpAddress).Account(p0.dst)"},
			{"NetworkID", "(common/types.BtpAddress).NetworkID(p0.dst)"},
			{"FromAddress", "Address(p0.w)"},
			{"Data.Params.Prev", "(common/types.BtpAddress).String(p0.src)"},
		} {
			got := path(w[0])
			if got != w[1] && !(w[0] == "FromAddress" && strings.HasSuffix(got, w[1])) && !(w[0] == "ToAddress" && strings.HasSuffix(got, ".ContractAddress(p0.dst)")) && !(w[0] == "Data.Params.Prev" && got == "p0.src") {
				rep(fmt.Sprintf("%s of the transaction is %s, not %s", w[0], got, w[1]))
			}
		}
		if v, k := strOf(fv["DataType"]); !k || v != "call" {
			rep("the transaction is not a contract call")
		}
		meth, _ := strOf(fv["Data.Method"])
		prm := fv["Data.Params"]
		pt := ""
		if prm != nil && stripBox(prm).T != nil {
			pt = stripBox(prm).T.String()
		}
		enc := fv["Data.Params.Messages"]
		var chunk *Term
		if enc != nil && callName(enc) == "(*encoding/base64.Encoding).EncodeToString" && st.fl.path(enc.Args[0]) == "encoding/base64.URLEncoding" {
			chunk = enc.Args[1]
		} else {
			rep("the message of the transaction is not the URL-safe base64 of a part of the message: " + path("Data.Params.Messages"))
			return
		}
		for _, e := range st.must {
			if e.Tag == "pend" && (e.Args[0] == nil || !st.succeeded(e.Args[0])) {
				rep("the next part is sent although the previous one may not have been accepted")
			}
			if e.Tag == "pend" {
				delete(st.must, e.Key)
			}
		}
		if st.may["unchecked"] != nil {
			rep("the next part is sent although a previous one may not have been accepted")
		}
		started := st.may["started"] != nil
		base, lo, hi := sliceParts(st, chunk)
		whole := hi == nil
		if hi != nil && st.entails(st.lin(st.fl.ts.lenOf(base, nil)).sub(st.lin(hi))) {
			whole = true
		}
		switch meth {
		case "handleRelayMessage":
			if started {
				rep("the message is sent again")
			}
			if !strings.HasSuffix(pt, "BMCRelayMethodParams") {
				rep("handleRelayMessage is called with other parameters: " + pt)
			}
			if !isB(st, base) || !lo.isConst() || lo.k.Sign() != 0 || !whole {
				rep("the message sent is not the whole message: " + st.fl.path(chunk))
			}
			st.addMust("whole", "whole", n)
		case "handleFragment":
			if !strings.HasSuffix(pt, "BMCFragmentMethodParams") {
				rep("handleFragment is called with other parameters: " + pt)
			}
			if !started {
				if !isB(st, base) || !linEqual(st, lo, linK(0)) {
					rep("the first fragment does not start the message: " + st.fl.path(chunk))
				}
			} else {
				found := false
				for _, g := range st.ghosts("rest") {
					if (g.Args[0] == base || isB(st, g.Args[0]) && isB(st, base)) && linEqual(st, lo, st.lin(g.Args[1])) {
						found = true
					}
				}
				if !found {
					rep("a fragment does not start where the previous one ended: " + st.fl.path(chunk))
				}
			}
			ix := fv["Data.Params.Index"]
			var it *Term
			if ix != nil && strings.HasSuffix(callName(ix), "NewHexInt") {
				it = stripConv(ix.Args[0])
			} else {
				rep("the index of a fragment is not a number: " + path("Data.Params.Index"))
				return
			}
			l := st.lin(it)
			if st.may["done"] != nil && !st.entails(l.neg()) {
				rep("a fragment is sent after the last one")
			}
			if !started {
				if !st.entails(l.plus(1)) {
					rep("the first fragment's index is not negative: " + st.fl.path(it))
				}
				st.clearGhosts("next")
				st.clearGhosts("last")
				st.ghost("next", st.termOf(l.neg().plus(-1)))
				st.ghost("last", st.fl.ts.intC(1))
			} else {
				found := false
				for _, g := range st.ghosts("next") {
					if linEqual(st, st.lin(g.Args[0]), l) {
						found = true
					}
				}
				if !found {
					rep("a fragment's index is not one below the previous one (after -n comes n-1): " + st.fl.path(it))
				}
				st.clearGhosts("next")
				st.clearGhosts("last")
				st.ghost("next", st.termOf(l.plus(-1)))
				st.ghost("last", st.termOf(l))
				if !st.entails(l.neg().plus(1)) {
					st.addMay("done", "done", n)
				}
			}
			st.clearGhosts("rest")
			if whole {
				st.addMust("all", "all", n)
			} else {
				delete(st.must, "all")
				st.ghost("rest", base, st.termOf(st.lin(hi)))
			}
		default:
			rep("the transaction calls another method: " + path("Data.Method"))
		}
		st.addMay("started", "started", n)
		st.addMust("sent", "sent", n)
		st.addMust("pend", "pend", n, res)
	}
	s = c.Sum(m, SumCfg{
		Opaque:  func(f *ssa.Function) bool { return pkgOf(f) != "chain/icon" || unit(f) || skip(f) },
		Max:     600,
		Numeric: true,
		Part: func(st *State) string {
			r := ""
			for _, k := range []string{"started", "done", "unchecked"} {
				if st.may[k] != nil {
					r += k + ";"
				}
			}
			if st.must["all"] != nil {
				r += "all;"
			}
			return r
		},
		Cfg: func(fc *FlowCfg) {
			fc.OnHead = func(st *State, e *Edge, phis []PhiIn) func() {
				if p := st.must["pend"]; p != nil {
					if p.Args[0] == nil || !st.succeeded(p.Args[0]) {
						st.addMay("unchecked", "unchecked", p.N)
					}
					delete(st.must, "pend")
				}
				for _, g := range st.ghosts("rest") {
					ks := []*big.Int{st.lin(g.Args[1]).k}
					for _, k := range st.lin(g.Args[1]).c {
						ks = append(ks, k)
					}
					for _, k := range ks {
						if k.Sign() != 0 && k.IsInt64() && !ck[k.Int64()] && len(ck) < 8 {
							ck[k.Int64()] = true
							coefs = append(coefs, k.Int64())
						}
					}
				}
				g := carryGhosts(st, e, phis, coefs, "rest", "next", "last")
				b := carryBounds(st, e, phis)
				z := carrySigns(st, phis)
				return func() { g(); b(); z() }
			}
			pre := fc.Pre
			fc.Pre = func(st *State, n *Node, args []*Term, fin bool) {
				pre(st, n, args, fin)
				if n.Op == OpInstr && n.isCall() && n.Fn != nil && unit(n.Fn) {
					fv = nil
					for _, a := range args {
						if a != nil && a.T != nil && isTxParam(a.T) {
							fv = deepFields(st, a)
						}
					}
				}
			}
			h := fc.Hook
			fc.Hook = func(st *State, n *Node, args []*Term, res *Term, fin bool) {
				h(st, n, args, res, fin)
				if n.Op == OpInstr && n.isCall() && n.Fn != nil && unit(n.Fn) {
					units[n.Fn] = true
					final = fin
					check(st, n, args, res)
				}
			}
		},
	})
	n := 0
	for _, o := range s.Outs {
		if nv, k := o.errState(); k && !nv {
			continue
		}
		st := o.St
		if st.must["sent"] == nil {
			bad(o.Pos, "a relay call succeeds without sending the message")
			continue
		}
		n++
		if p := st.must["pend"]; p != nil && (p.Args[0] == nil || !st.succeeded(p.Args[0])) || st.may["unchecked"] != nil {
			bad(o.Pos, "a relay call succeeds although a part of the message may not have been accepted")
		}
		if st.must["whole"] != nil {
			continue
		}
		all := st.must["all"] != nil
		for _, g := range st.ghosts("rest") {
			if st.entails(st.lin(st.fl.ts.lenOf(g.Args[0], nil)).sub(st.lin(g.Args[1]))) {
				all = true
			}
		}
		if !all {
			bad(o.Pos, "a relay call succeeds although a rest of the message was not sent")
		}
		last := false
		for _, g := range st.ghosts("last") {
			if st.entails(st.lin(g.Args[0])) {
				last = true
			}
		}
		if !last {
			bad(o.Pos, "a relay call succeeds although the last fragment's index is not 0")
		}
	}
	if n == 0 {
		bad(c.P.posOf(m), "no outcome sends the message")
	}
	if ok {
		c.Ob("cover", name, true, c.P.posOf(m), "")
	}
	for f := range units {
		deliverUnit(c, f, sends)
	}
}

// deliverUnit: the transaction given is signed with the sender's wallet after its last change and sent as signed.
func deliverUnit(c *Ctx, f *ssa.Function, sends func(ssa.Instruction) bool) {
	name := short(f.String())
	ok := true
	bad := func(pos, msg string) { ok = false; c.Ob("signed", name, false, pos, msg) }
	n := 0
	s := c.Sum(f, SumCfg{
		Opaque: func(g *ssa.Function) bool { return pkgOf(g) != "chain/icon" },
		Ev: func(st *State, n *Node, args []*Term, res *Term) {
			if n.Op != OpInstr {
				return
			}
			if n.isCall() && n.Fn != nil && n.Fn.Name() == "SignTransaction" {
				st.addMust("signed", "signed", n, append([]*Term{res}, args...)...)
			}
			if _, isSt := n.Instr.(*ssa.Store); isSt && len(args) > 0 && args[0].K == TFieldAddr {
				if e := st.must["signed"]; e != nil && args[0].root() == e.Args[len(e.Args)-1].root() {
					delete(st.must, "signed")
				}
			}
		},
	})
	for _, r := range s.Calls(func(n *Node) bool { return n.Instr != nil && sends(n.Instr) }) {
		n++
		p := r.Args[len(r.Args)-1]
		if !strings.HasPrefix(s.fl.path(p), "p") || !isTxParam(p.T) {
			bad(s.g.pos(r.N), "the transaction sent is not the one given: "+s.fl.path(p))
		}
		e := r.St.must["signed"]
		if e == nil || e.Args[len(e.Args)-1] != p || !r.St.succeeded(e.Args[0]) {
			bad(s.g.pos(r.N), "the transaction is sent without having been signed successfully since its last change")
		} else if w := s.fl.path(stripBox(e.Args[len(e.Args)-2])); w != "p0.w" && !strings.HasPrefix(w, "p") {
			bad(s.g.pos(r.N), "the transaction is signed with another wallet: "+w)
		}
	}
	if n == 0 {
		bad(c.P.posOf(f), "nothing is sent")
	}
	if ok {
		c.Ob("signed", name, true, c.P.posOf(f), "")
	}
}

func deliverEth(c *Ctx, m *ssa.Function) {
	name := short(m.String())
	ok := true
	bad := func(pos, msg string) { ok = false; c.Ob("cover", name, false, pos, msg) }
	polls := callsMethod(chainResList[1].poll...)
	isCall := func(n *Node) bool { return n.Fn != nil && n.Fn.Name() == "HandleRelayMessage" }
	s := c.Sum(m, SumCfg{Opaque: func(f *ssa.Function) bool { return pkgOf(f) != "chain/ethbr" || c.P.reachFn(f, polls) },
		Ev: func(st *State, n *Node, args []*Term, res *Term) {
			if n.Op == OpInstr && n.isCall() && isCall(n) {
				if st.may["started"] != nil {
					st.addMay("twice", "twice", n)
				}
				st.addMay("started", "started", n)
				st.addMust("sent", "sent", n, res)
			}
		}})
	k := 0
	for _, o := range s.Outs {
		if nv, kn := o.errState(); kn && !nv {
			continue
		}
		k++
		e := o.St.must["sent"]
		if e == nil || e.Args[0] == nil || !o.St.succeeded(e.Args[0]) {
			bad(o.Pos, "a relay call succeeds although the message was not accepted")
		}
		if o.St.may["twice"] != nil {
			bad(o.Pos, "the message may be sent more than once")
		}
	}
	if k == 0 {
		bad(c.P.posOf(m), "no outcome sends the message")
	}
	for _, r := range s.Calls(isCall) {
		a := r.Args[len(r.Args)-3:]
		msg := a[2]
		if !(msg.K == TCall && msg.N.Invoke != nil && msg.N.Invoke.Name() == "Bytes" && s.fl.path(msg.Args[0]) == "p1") {
			bad(s.g.pos(r.N), "the message sent is not the whole message: "+s.fl.path(msg))
		}
		if p := s.fl.path(a[1]); p != "p0.src" && p != "(common/types.BtpAddress).String(p0.src)" {
			bad(s.g.pos(r.N), "the message is not sent for the source's link: "+p)
		}
		if p := s.fl.path(r.Args[0]); p != "p0.bmc" && p != "p0.bmc.BMCTransactor" && p != "&p0.bmc.BMCTransactor" {
			bad(s.g.pos(r.N), "the message is not sent to the destination's contract: "+p)
		}
		to := a[0]
		if !(to.K == TExtract && to.I == 0 && strings.HasSuffix(callName(to.Args[0]), ".NewTransactOpts") && r.St.succeeded(to.Args[0])) {
			bad(s.g.pos(r.N), "the transaction's options are not the client's: "+s.fl.path(to))
		} else if k := to.Args[0].Args[1]; !strings.Contains(s.fl.path(k), "p0.w") || !strings.HasSuffix(s.fl.path(k), ".Skey") {
			bad(s.g.pos(r.N), "the transaction is not signed with the sender's wallet: "+s.fl.path(k))
		}
	}
	if ok {
		c.Ob("cover", name, true, c.P.posOf(m), "")
	}
}
