package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "relay outcomes",
		"outcome analysis of both senders with the follow-up goroutine analysed as part of the relay call: every accepted message is followed by its own transaction handle; the poller ends only on a final outcome, succeeds only when the destination reports success, and turns a revert into its own code; a coded failure is reported with the message's id and that code; the destination's status is reported afterwards and only if it was read, field by field from the contract's answer",
		checkResults)
}

// reachFn: does fn (or a module function it calls, or a closure it makes) satisfy pred at some instruction?
func (p *Program) reachFn(fn *ssa.Function, pred func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pred(in) {
					return true
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && p.inModule(g) && rec(g) {
						return true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && rec(mc.Fn.(*ssa.Function)) {
					return true
				}
			}
		}
		return false
	}
	return rec(fn)
}

func callsMethod(names ...string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := ci.Common().StaticCallee()
		if g == nil {
			return false
		}
		for _, n := range names {
			if short(g.String()) == n {
				return true
			}
		}
		return false
	}
}

func pkgOf(f *ssa.Function) string {
	if f.Package() != nil {
		return strings.TrimPrefix(f.Package().Pkg.Path(), modPath+"/")
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.TrimPrefix(f.Object().Pkg().Path(), modPath+"/")
	}
	return ""
}

// impls: methods named m of the types of a package that implement an interface.
func (p *Program) impls(pkg string, it *types.Interface, m string) (out []*ssa.Function) {
	for _, f := range p.funcsOf(pkg) {
		if f.Name() != m || f.Signature.Recv() == nil {
			continue
		}
		if it == nil || types.Implements(f.Signature.Recv().Type(), it) {
			out = append(out, f)
		}
	}
	return
}

type chainRes struct {
	pkg, client string
	send, poll  []string
	receipt     string
}

var chainResList = []chainRes{
	{"chain/icon", "chain/icon/client", []string{"(*chain/icon/client.Client).SendTransaction", "(*chain/icon/client.Client).SendTransactionAndWait"}, []string{"(*chain/icon/client.Client).GetTransactionResult"}, "(*chain/icon/client.Client).GetTransactionResult"},
	{"chain/ethbr", "chain/ethbr/client", []string{"(*chain/ethbr/binding.BMCTransactor).HandleRelayMessage", "(*chain/ethbr/binding.BMCSession).HandleRelayMessage", "(*chain/ethbr/client.Client).SendTransaction"}, []string{"(*chain/ethbr/client.Client).GetTransactionReceipt"}, "(*chain/ethbr/client.Client).GetTransactionReceipt"},
}

func checkResults(c *Ctx) {
	si := c.P.Iface("common/types", "Sender")
	if si == nil {
		c.Missing("follow", "common/types.Sender")
		return
	}
	for _, ch := range chainResList {
		rel := c.P.impls(ch.pkg, si, "Relay")
		if len(rel) == 0 {
			c.Missing("follow", ch.pkg+": an implementation of the sender interface")
			continue
		}
		for _, m := range rel {
			resFollow(c, ch, m)
		}
		for _, m := range c.P.impls(ch.pkg, si, "GetStatus") {
			resStatus(c, ch, m)
		}
		if f := c.P.FindFunc(ch.client + ".NewRevertError"); f != nil {
			resRevert(c, f)
		} else {
			c.Missing("revert", ch.client+".NewRevertError")
		}
	}
	if f := c.P.FindFunc("chain/icon/client.Client.GetStatus"); f != nil {
		resStatus(c, chainResList[0], f)
	}
	for _, ch := range chainResList {
		sends := callsMethod(ch.send...)
		done := map[*ssa.Function]bool{}
		var accept func(f *ssa.Function, depth int)
		accept = func(f *ssa.Function, depth int) {
			if done[f] {
				return
			}
			done[f] = true
			if r := f.Signature.Results(); depth < 3 && (r.Len() != 2 || !isErrType(r.At(1).Type())) {
				// what it answers is made into a handle by its callers
				up := false
				for _, g := range c.P.funcsOf(ch.pkg) {
					if g != f && callsDirectly(g, func(x *ssa.Function) bool { return x == f }) {
						accept(g, depth+1)
						up = true
					}
				}
				if up {
					return
				}
			}
			resAccept(c, ch, f)
		}
		for _, f := range c.P.funcsOf(ch.pkg) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if sends(in) {
						accept(f, 0)
						goto next
					}
				}
			}
		next:
		}
	}
	c.Need("accept", 2)
	c.Need("follow", 2)
	c.Need("final", 2)
	c.Need("status", 2)
	c.Need("revert", 2)
}

func isSendInstr(in ssa.Instruction) bool { _, ok := in.(*ssa.Send); return ok }

func resFollow(c *Ctx, ch chainRes, m *ssa.Function) {
	name := short(m.String())
	sends := callsMethod(ch.send...)
	polls := callsMethod(ch.poll...)
	isS := func(f *ssa.Function) bool {
		return f != m && pkgOf(f) == ch.pkg && c.P.reachFn(f, sends) && !c.P.reachFn(f, polls)
	}
	isP := func(f *ssa.Function) bool {
		return f != m && pkgOf(f) == ch.pkg && c.P.reachFn(f, polls) && !c.P.reachFn(f, isSendInstr)
	}
	op := func(f *ssa.Function) bool {
		return pkgOf(f) != ch.pkg || isS(f) || isP(f) || f.Name() == "GetStatus"
	}
	pollers := map[*ssa.Function]bool{}
	rr := types.NewPointer(c.P.Type("common/types", "RelayResult"))
	bs := types.NewPointer(c.P.Type("common/types", "BMCLinkStatus"))
	ev := func(st *State, n *Node, args []*Term, res *Term) {
		if n.Op != OpInstr {
			return
		}
		if n.isCall() && n.Fn != nil {
			switch {
			case isS(n.Fn):
				st.addMust("sent", "sent", n, res)
			case isP(n.Fn):
				pollers[n.Fn] = true
				st.addMust("polled", "polled", n, append([]*Term{res}, args...)...)
			case n.Fn.Name() == "GetStatus":
				st.addMust("getstatus", "getstatus", n, res)
			}
		}
		if _, ok := n.Instr.(*ssa.Send); ok {
			v := args[1]
			for v != nil && v.K == TIface {
				v = v.Args[0]
			}
			switch {
			case v.T != nil && types.Identical(v.T, rr):
				st.addMust("reported", "reported", n, v)
				for k, t := range st.fieldVals(v) {
					st.addMust("rr."+k, "rr", n, t)
				}
			case v.T != nil && types.Identical(v.T, bs):
				st.addMust("status", "status", n, v)
			default:
				st.addMust("other", "other", n, v)
			}
		}
	}
	s := c.Sum(m, SumCfg{Opaque: op, Ev: ev, Go: true, Max: 300})
	ok := true
	bad := func(pos, msg string) { ok = false; c.Ob("follow", name, false, pos, msg) }
	n := 0
	isID := func(t *Term) bool {
		t = stripConv(t)
		return t != nil && t.K == TCall && t.N.Invoke != nil && t.N.Invoke.Name() == "Id" && s.fl.path(t.Args[0]) == "p1"
	}
	for _, o := range s.Outs {
		if nilv, k := o.errState(); k && !nilv {
			continue
		}
		st := o.St
		get := func(k string) *Event { return st.must[k] }
		sent := get("sent")
		if sent == nil || !st.succeeded(sent.Args[0]) {
			bad(o.Pos, "a relay call succeeds although the message was not sent successfully")
			continue
		}
		if !isID(o.Rets[0]) {
			bad(o.Pos, "a relay call does not return the message's own id")
		}
		p := get("polled")
		if p == nil {
			bad(o.Pos, "the outcome of a message that was sent is never followed")
			continue
		}
		h := extractOf(s.fl.ts, sent.Args[0], 0)
		own := false
		for _, a := range p.Args[1:] {
			if a == h || a.contains(h) || stripBox(a) == h {
				own = true
			}
		}
		if !own {
			bad(s.g.pos(p.N), "the outcome that is followed is not that of the message's own transaction")
		}
		n++
		perr := errOf(s.fl.ts, p.Args[0])
		rep := get("reported")
		if nv, k := nilState(st, perr); k && nv {
			if rep != nil {
				bad(s.g.pos(rep.N), "a successful message is reported as failed")
			}
		} else {
			if rep == nil {
				if !uncoded(st, perr) {
					bad(o.Pos, "a failed message with an error code is not reported")
				}
			} else {
				id, e := get("rr.Id"), get("rr.Err")
				if id == nil || !isID(id.Args[0]) {
					bad(s.g.pos(rep.N), "a failure is reported with an id other than the message's own")
				}
				if e == nil || !e.Args[0].contains(perr) || callName(stripConv(e.Args[0])) == "" && stripConv(e.Args[0]).K != TExtract {
					bad(s.g.pos(rep.N), "a failure is reported with a code other than that of its outcome")
				}
				if !k {
					bad(s.g.pos(rep.N), "a message is reported as failed without its outcome being a failure")
				}
			}
		}
		gs, stt := get("getstatus"), get("status")
		switch {
		case gs == nil:
			bad(o.Pos, "the destination's status is not read after the outcome of a message is known")
		case stt == nil:
			if nv, k := nilState(st, errOf(s.fl.ts, gs.Args[0])); !k || nv {
				bad(o.Pos, "the destination's status is not handed to the link after the outcome of a message is known")
			}
		default:
			if stt.Args[0] != extractOf(s.fl.ts, gs.Args[0], 0) || !st.succeeded(gs.Args[0]) {
				bad(s.g.pos(stt.N), "a status is handed to the link that was not read successfully from the destination")
			}
		}
		if x := get("other"); x != nil {
			bad(s.g.pos(x.N), "something other than a result or a status is handed to the link")
		}
	}
	if n == 0 {
		bad(c.P.posOf(m), "no outcome follows the message after it was sent")
	}
	if ok {
		c.Ob("follow", name, true, c.P.posOf(m), "")
	}
	for f := range pollers {
		resPoll(c, ch, f)
	}
}

// uncoded: the facts say the error carries no code.
func uncoded(st *State, perr *Term) bool {
	for _, f := range st.facts {
		if !f.Val && f.T.K == TExtract && f.T.I == 1 && f.T.contains(perr) && f.T.Args[0].K == TCall {
			return true
		}
		if !f.Val && f.T.K == TPure && strings.HasPrefix(f.T.Op, "is:") && f.T.contains(perr) {
			return true
		}
		if f.Val && f.T.K == TBin && f.T.Op == "==" && (f.T.Args[0].isNil() && f.T.Args[1] != perr && f.T.Args[1].contains(perr) || f.T.Args[1].isNil() && f.T.Args[0] != perr && f.T.Args[0].contains(perr)) {
			return true
		}
	}
	return false
}

func stripConv(t *Term) *Term {
	for t != nil && t.K == TConv {
		t = t.Args[0]
	}
	return t
}

func isMethodOn(f *ssa.Function, typ string) bool {
	r := f.Signature.Recv()
	return r != nil && strings.HasSuffix(strings.TrimPrefix(r.Type().String(), "*"), typ)
}

func resPoll(c *Ctx, ch chainRes, f *ssa.Function) {
	name := short(f.String())
	icon := ch.pkg == "chain/icon"
	op := func(g *ssa.Function) bool {
		if pkgOf(g) == ch.pkg {
			return false
		}
		return pkgOf(g) != ch.client || g.Signature.Recv() != nil || g.Name() == "NewRevertError"
	}
	ev := func(st *State, n *Node, args []*Term, res *Term) {
		if n.Op == OpInstr && n.isCall() && n.Fn != nil {
			switch n.Fn.Name() {
			case "GetTransactionResult", "GetTransactionReceipt", "GetTransaction":
				for k := range st.must {
					if strings.HasPrefix(k, n.Fn.Name()+"@") {
						delete(st.must, k)
					}
				}
				st.addMust(n.Fn.Name(), n.Fn.Name(), n, append([]*Term{res}, args...)...)
				st.clearGhosts("asked " + n.Fn.Name())
				if tu, ok := n.Typ.(*types.Tuple); ok && res != nil {
					as := []*Term{}
					for i := 0; i < tu.Len(); i++ {
						as = append(as, extractOf(st.fl.ts, res, i))
					}
					st.ghost("asked "+n.Fn.Name(), as...)
				}
			}
		}
	}
	s := c.Sum(f, SumCfg{Opaque: op, Ev: ev, Max: 400, Cfg: func(fc *FlowCfg) {
		fc.OnHead = func(st *State, e *Edge, phis []PhiIn) func() {
			return carryGhosts(st, e, phis, nil, "asked "+methodOf(ch.receipt), "asked GetTransaction")
		}
	}})
	ok := true
	bad := func(pos, msg string) { ok = false; c.Ob("final", name, false, pos, msg) }
	pend := []int64{-31002, -31003}
	// whatever is asked for is the handle given
	for _, r := range s.Calls(func(n *Node) bool {
		return n.Fn != nil && pkgOf(n.Fn) == ch.client && strings.HasPrefix(n.Fn.Name(), "Get") && len(n.Args) == 2
	}) {
		p := s.fl.path(r.Args[1])
		if !strings.HasPrefix(p, "p") || strings.HasPrefix(p, "p0") {
			bad(s.g.pos(r.N), "the transaction that is asked for is not the one given: "+p)
		}
	}
	nsucc := 0
	for _, o := range s.Outs {
		st := o.St
		ret := o.Rets[len(o.Rets)-1]
		g := st.must[methodOf(ch.receipt)]
		tx := st.must["GetTransaction"]
		if g == nil {
			if nv, k := o.errState(); !k || nv {
				bad(o.Pos, "a message counts as delivered without asking for its outcome")
			}
			if tx == nil {
				bad(o.Pos, "gives up before asking for the outcome")
			}
			continue
		}
		// the last answer (of several places that ask, through the values they meet in)
		var res, gerr *Term
		if g.Args[0] != nil {
			res, gerr = extractOf(s.fl.ts, g.Args[0], 0), errOf(s.fl.ts, g.Args[0])
		}
		for _, a := range st.ghosts("asked " + methodOf(ch.receipt)) {
			e := a.Args[len(a.Args)-1]
			k0 := false
			if gerr != nil {
				_, k0 = nilState(st, gerr)
			}
			if _, k := nilState(st, e); res == nil || k && !k0 {
				res, gerr = a.Args[0], e
			}
		}
		if res == nil {
			bad(o.Pos, "ends with an answer that is not the last one")
			continue
		}
		read := func() bool { nv, k := nilState(st, gerr); return k && nv }
		if icon {
			if nv, k := nilState(st, gerr); k && !nv {
				isJ, known := false, false
				for _, fc := range st.facts {
					if fc.T.contains(gerr) && (fc.T.K == TPure && strings.HasPrefix(fc.T.Op, "is:") && strings.HasSuffix(fc.T.Op, "jsonrpc.Error") || fc.T.K == TExtract && fc.T.I == 1 && fc.T.Args[0].K == TAssert) {
						isJ, known = fc.Val, true
					}
				}
				if !known || isJ {
					for _, pc := range pend {
						excl := false
						for _, fc := range st.facts {
							if fc.T.K == TBin && fc.T.Op == "==" && fc.T.contains(gerr) {
								for i := 0; i < 2; i++ {
									if v, ok := fc.T.Args[i].intVal(); ok && (v == pc && !fc.Val || v != pc && fc.Val && v < 0) {
										excl = true
									}
								}
							}
						}
						if !excl {
							bad(o.Pos, fmt.Sprintf("polling ends although the outcome may still be pending (code %d)", pc))
						}
					}
				}
			} else if !k {
				bad(o.Pos, "ends without checking whether the outcome could be read")
			}
			if nv, k := nilState(st, res); k && nv && read() {
				continue // excluded by the client (see below)
			}
		} else if tx != nil {
			var pv *Term
			if tx.Args[0] != nil {
				pv = extractOf(s.fl.ts, tx.Args[0], 1)
			}
			for _, a := range st.ghosts("asked GetTransaction") {
				if pv == nil && len(a.Args) > 1 {
					pv = a.Args[1]
				}
			}
			if pv == nil {
				bad(o.Pos, "ends without knowing whether the transaction is still pending")
			} else if v, k := factVal(st, pv); !k || v {
				bad(o.Pos, "polling ends although the transaction is still pending")
			}
		}
		rt := stripBox(ret)
		if rt.K == TCall && rt.N.Fn != nil && rt.N.Fn.Name() == "NewRevertError" {
			if !read() {
				bad(o.Pos, "reports a revert without having read the outcome")
			}
			if succeededStatus(s, st, res, icon) {
				bad(o.Pos, "a successful message is reported as reverted")
			}
			code := stripConv(rt.Args[0])
			if icon {
				l := st.lin(code)
				var fcT *Term
				good := len(l.c) == 1 && l.k.IsInt64() && l.k.Int64() == -32
				for t, k := range l.c {
					u := stripConv(t)
					if k.Int64() != 1 || u.K != TExtract || u.I != 0 || u.Args[0].K != TCall || !strings.HasSuffix(s.fl.path(u.Args[0].Args[0]), ".Failure.CodeValue") || !u.contains(res) {
						good = false
					}
					fcT = t
				}
				if !good {
					bad(o.Pos, "the reported code is not the failure code relative to the first revert code: "+s.fl.path(code))
				} else {
					lo := linK(32).sub(st.lin(fcT))
					hi := st.lin(fcT).plus(-99)
					if !st.entails(lo) || !st.entails(hi) {
						bad(o.Pos, "a failure outside of the revert codes is reported as a revert code")
					}
				}
			} else {
				if v, ok := code.intVal(); ok {
					if v != 25 {
						bad(o.Pos, fmt.Sprintf("an unexplained revert is reported with code %d instead of the unknown one", v))
					}
				} else {
					// a number found in the revert message
					u := code
					good := u.K == TExtract && u.I == 0 && strings.HasPrefix(callName(u.Args[0]), "strconv.") && st.succeeded(u.Args[0]) && revertPart(u)
					if !good {
						bad(o.Pos, "the reported code is not the code of the revert message: "+s.fl.path(code))
					}
				}
			}
			continue
		}
		nv, k := o.errState()
		if k && !nv {
			if icon && read() && succeededStatus(s, st, res, icon) {
				bad(o.Pos, "a successful message counts as failed")
			}
			if icon && read() {
				// an error without code only for failures outside of the revert codes or without reason
				if inRevertRange(s, st, res) {
					bad(o.Pos, "a revert is reported without its code")
				}
			}
			continue
		}
		nsucc++
		if !read() {
			bad(o.Pos, "a message counts as delivered although its outcome could not be read")
		} else if !succeededStatus(s, st, res, icon) {
			bad(o.Pos, "a message counts as delivered although the destination did not report success")
		}
	}
	if nsucc == 0 {
		bad(c.P.posOf(f), "no outcome counts as delivered")
	}
	if ok {
		c.Ob("final", name, true, c.P.posOf(f), "")
	}
	// the client never answers without an error and without a result
	if g := c.P.FindFunc(strings.NewReplacer("(*", "", ")", "").Replace(ch.receipt)); g != nil && icon {
		s := c.Sum(g, SumCfg{Opaque: func(h *ssa.Function) bool { return true }})
		good := true
		for _, o := range s.Outs {
			if nv, k := o.errState(); !k || nv {
				if n2, k2 := nilState(o.St, o.Rets[0]); !k2 || n2 {
					good = false
				}
			}
		}
		c.Ob("final", short(g.String()), good, c.P.posOf(g), "a transaction result may be missing without an error")
	}
}

// revertPart: the number is parsed from the second part of the revert message.
func revertPart(t *Term) bool {
	good := false
	var w func(t *Term)
	w = func(t *Term) {
		if t == nil {
			return
		}
		if t.K == TIndex || t.K == TIndexAddr {
			if v, ok := t.Args[1].intVal(); ok && v == 1 && strings.HasPrefix(callName(t.Args[0]), "strings.Split") {
				r := false
				var w2 func(t *Term)
				w2 = func(t *Term) {
					if t == nil {
						return
					}
					if t.K == TCall && t.N.Fn != nil && t.N.Fn.Name() == "GetRevertMessage" {
						r = true
					}
					for _, a := range t.Args {
						w2(a)
					}
				}
				w2(t.Args[0])
				if sep, ok := t.Args[0].Args[1].strVal(); ok && sep == ":" && r {
					good = true
				}
			}
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
	return good
}

func factVal(st *State, t *Term) (bool, bool) {
	for _, f := range st.facts {
		if f.T == t {
			return f.Val, true
		}
	}
	return false, false
}

// succeededStatus: the destination's result says the transaction succeeded.
func succeededStatus(s *Sum, st *State, res *Term, icon bool) bool {
	for _, f := range st.facts {
		t := f.T
		if t.K != TBin || t.Op != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			o := t.Args[1-i]
			if !strings.HasSuffix(s.fl.path(o), ".Status") || !o.contains(res) {
				continue
			}
			if icon {
				if v, ok := t.Args[i].strVal(); ok && v == "0x1" && f.Val {
					return true
				}
			} else if v, ok := t.Args[i].intVal(); ok && (v == 0 && !f.Val || v == 1 && f.Val) {
				return true
			}
		}
	}
	return false
}

// inRevertRange: the facts leave room for a failure code within the revert codes.
func inRevertRange(s *Sum, st *State, res *Term) bool {
	var fc *Term
	var find func(t *Term)
	find = func(t *Term) {
		if t == nil || fc != nil {
			return
		}
		if t.K == TExtract && t.I == 0 && len(t.Args[0].Args) > 0 && t.contains(res) && strings.HasSuffix(s.fl.path(t.Args[0].Args[0]), ".Failure.CodeValue") {
			fc = t
			return
		}
		for _, a := range t.Args {
			find(a)
		}
	}
	for _, f := range st.facts {
		find(f.T)
		if f.Val && f.T.K == TBin && f.T.Op == "==" && (f.T.Args[0].isNil() && strings.HasSuffix(s.fl.path(f.T.Args[1]), ".Failure") || f.T.Args[1].isNil() && strings.HasSuffix(s.fl.path(f.T.Args[0]), ".Failure")) {
			return false
		}
	}
	if fc == nil {
		return true
	}
	return !st.entails(st.lin(fc).plus(-31)) && !st.entails(linK(100).sub(st.lin(fc)))
}

func resRevert(c *Ctx, f *ssa.Function) {
	name := short(f.String())
	s := c.Sum(f, SumCfg{Opaque: func(h *ssa.Function) bool { return true }})
	ok := true
	for _, o := range s.Outs {
		t := stripBox(o.Rets[len(o.Rets)-1])
		if t.isNil() {
			ok = false
			c.Ob("revert", name, false, o.Pos, "a revert code may lead to no error at all")
			continue
		}
		if t.K == TCall && strings.HasPrefix(short(t.N.Callee), "common/errors.") {
			if len(t.Args) == 0 || s.fl.path(stripConv(t.Args[0])) != "p0" {
				ok = false
				c.Ob("revert", name, false, o.Pos, "the error carries a code other than the revert code: "+s.fl.path(t))
			}
			continue
		}
		// an error without a code only for impossible codes
		if !o.St.entails(o.St.lin(s.fl.ts.param(s, 0)).plus(1)) {
			ok = false
			c.Ob("revert", name, false, o.Pos, "a revert code leads to an error without that code")
		}
	}
	if ok {
		c.Ob("revert", name, true, c.P.posOf(f), "")
	}
}

// param: the term of a root parameter.
func (ts *terms) param(s *Sum, i int) *Term {
	for _, b := range s.Outs {
		return b.St.val(s.g.Params[i])
	}
	return nil
}

func resStatus(c *Ctx, ch chainRes, m *ssa.Function) {
	name := short(m.String())
	op := func(f *ssa.Function) bool {
		if pkgOf(f) == ch.pkg {
			return false
		}
		return pkgOf(f) != ch.client || f.Signature.Recv() != nil || f.Name() == "NewRevertError"
	}
	s := c.Sum(m, SumCfg{Opaque: op, Track: func(n *Node) string {
		if n.Fn != nil && (n.Fn.Name() == "Call" && pkgOf(n.Fn) == ch.client || n.Fn.Name() == "GetStatus") {
			return "query"
		}
		return ""
	}})
	ok := true
	bad := func(pos, msg string) { ok = false; c.Ob("status", name, false, pos, msg) }
	n := 0
	for _, o := range s.Outs {
		if nv, k := o.errState(); k && !nv {
			continue
		}
		n++
		st := o.St
		var q *Event
		for _, k := range sortedKeys(st.must) {
			if st.must[k].Tag == "query" {
				q = st.must[k]
			}
		}
		if q == nil || !st.succeeded(q.Args[0]) {
			bad(o.Pos, "a status is returned although the destination could not be asked")
			continue
		}
		ls := stripBox(o.Rets[0])
		fv := deepFields(st, ls)
		for _, w := range [][2]string{{"TxSeq", ".TxSeq"}, {"RxSeq", ".RxSeq"}, {"Verifier.Height", ".Verifier.Height"}, {"Verifier.Extra", ".Verifier.Extra"}} {
			v := fv[w[0]]
			if v == nil {
				bad(o.Pos, "field "+w[0]+" of the status is not set")
				continue
			}
			src := v
			for {
				u := stripConv(src)
				if u.K == TExtract && callName(u.Args[0]) != "" {
					call := u.Args[0]
					if strings.HasSuffix(callName(call), ".Value") {
						if !st.succeeded(call) {
							bad(o.Pos, "field "+w[0]+" of the status is used although it could not be converted")
						}
						src = call.Args[0]
						continue
					}
				}
				if len(u.Args) >= 1 && (strings.HasSuffix(callName(u), ".Int64") || strings.HasSuffix(callName(u), ".Value")) {
					src = u.Args[0]
					continue
				}
				src = u
				break
			}
			p := s.fl.path(src)
			if !strings.HasSuffix(p, w[1]) {
				bad(o.Pos, "field "+w[0]+" of the status does not come from that field of the contract's status: "+p)
			}
		}
	}
	if n == 0 {
		bad(c.P.posOf(m), "no outcome returns a status")
	}
	// the question asked
	for _, r := range s.Calls(func(n *Node) bool {
		return n.Fn != nil && (n.Fn.Name() == "Call" && pkgOf(n.Fn) == ch.client || n.Fn.Name() == "GetStatus")
	}) {
		if ch.pkg == "chain/icon" {
			fv := deepFields(r.St, stripBox(r.Args[1]))
			to, meth, tgt := fv["ToAddress"], fv["Data.Method"], fv["Data.Params.Target"]
			if to == nil || !strings.Contains(s.fl.path(to), ".Account(") && !strings.Contains(s.fl.path(to), ".ContractAddress(") || !strings.Contains(s.fl.path(to), dstOf(s)) {
				bad(s.g.pos(r.N), "the status is not asked from the destination's contract: "+pathOr(s, to))
			}
			if v, k := strOf(meth); !k || v != "getStatus" {
				bad(s.g.pos(r.N), "the status is asked with another method: "+pathOr(s, meth))
			}
			if tgt == nil || !strings.Contains(s.fl.path(tgt), srcOf(s)) {
				bad(s.g.pos(r.N), "the status is not asked for the source's link: "+pathOr(s, tgt))
			}
		} else {
			p := s.fl.path(r.Args[len(r.Args)-1])
			if !strings.Contains(p, srcOf(s)) {
				bad(s.g.pos(r.N), "the status is not asked for the source's link: "+p)
			}
		}
	}
	if ok {
		c.Ob("status", name, true, c.P.posOf(m), "")
	}
}

func dstOf(s *Sum) string { return addrParam(s, "dst", 3) }
func srcOf(s *Sum) string { return addrParam(s, "src", 2) }
func addrParam(s *Sum, f string, i int) string {
	if len(s.fn.Params) > 3 {
		return fmt.Sprintf("p%d", i)
	}
	return "p0." + f
}

func strOf(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	return t.strVal()
}

func pathOr(s *Sum, t *Term) string {
	if t == nil {
		return "not set"
	}
	return s.fl.path(t)
}

// deepFields: the field values of a composite (through boxes, pointers and nested structs), by dotted name.
func deepFields(st *State, t *Term) map[string]*Term {
	out := map[string]*Term{}
	var rec func(t *Term, pre string, d int)
	rec = func(t *Term, pre string, d int) {
		t = stripBox(t)
		if t == nil || d > 6 {
			return
		}
		fv := map[string]*Term{}
		if t.K == TStruct {
			if str, ok := t.T.Underlying().(*types.Struct); ok {
				for i := 0; i < str.NumFields() && i < len(t.Args); i++ {
					fv[str.Field(i).Name()] = t.Args[i]
				}
			}
		} else if _, ok := t.T.Underlying().(*types.Pointer); ok {
			fv = st.fieldVals(t)
		} else {
			return
		}
		for k, v := range fv {
			if v == nil {
				continue
			}
			out[pre+k] = v
			rec(v, pre+k+".", d+1)
		}
	}
	rec(t, "", 0)
	return out
}

// callName: the function of a call term (opaque or pure), or "".
func callName(t *Term) string {
	switch {
	case t == nil:
		return ""
	case t.K == TPure:
		return t.Op
	case t.K == TCall && t.N != nil:
		return t.N.Callee
	}
	return ""
}

// resAccept: a function that hands a transaction to the destination's node succeeds only if the node took
// it (or already has it), and its handle names that transaction.
func resAccept(c *Ctx, ch chainRes, f *ssa.Function) {
	name := short(f.String())
	isSend := func(n *Node) bool {
		if n.Fn == nil {
			return false
		}
		for _, x := range ch.send {
			if short(n.Fn.String()) == x {
				return true
			}
		}
		return false
	}
	s := c.Sum(f, SumCfg{
		Opaque: func(g *ssa.Function) bool { return pkgOf(g) != ch.pkg && g.Name() != "MapError" },
		Max:    400,
		Ev: func(st *State, n *Node, args []*Term, res *Term) {
			if n.Op == OpInstr && n.isCall() && isSend(n) {
				st.addMust("sent", "sent", n, append([]*Term{res}, args...)...)
			}
		},
	})
	ok := true
	bad := func(pos, msg string) { ok = false; c.Ob("accept", name, false, pos, msg) }
	n := 0
	for _, o := range s.Outs {
		if nv, k := o.errState(); k && !nv {
			continue
		}
		st := o.St
		if mappedFrom(o.Rets[len(o.Rets)-1]) {
			continue
		}
		ev := st.must["sent"]
		if ev == nil {
			bad(o.Pos, "succeeds without handing the transaction to the node")
			continue
		}
		h := deepFields(st, o.Rets[0])["Hash"]
		if h == nil {
			h = o.Rets[0]
		}
		tx := extractOf(s.fl.ts, ev.Args[0], 0)
		if st.succeeded(ev.Args[0]) {
			if nv, k := nilState(st, tx); k && nv {
				continue // excluded by the client
			}
			n++
			if !h.contains(tx) {
				bad(o.Pos, "the handle of an accepted transaction is not the one the node answered: "+s.fl.path(h))
			}
			continue
		}
		dup := false
		for _, fc := range st.facts {
			if fc.Val && fc.T.K == TBin && fc.T.Op == "==" && fc.T.contains(errOf(s.fl.ts, ev.Args[0])) {
				for i := 0; i < 2; i++ {
					if v, ok := fc.T.Args[i].intVal(); ok && v == 2000 {
						dup = true
					}
				}
			}
		}
		switch {
		case !dup:
			bad(o.Pos, "succeeds although the node did not accept the transaction")
		case ch.pkg == "chain/icon" && (!strings.HasSuffix(s.fl.path(h), ".TxHash") || !h.contains(stripBox(ev.Args[2]))):
			bad(o.Pos, "the handle of a transaction the node already has is not its own hash: "+s.fl.path(h))
		}
	}
	if n == 0 {
		bad(c.P.posOf(f), "no outcome in which the node accepted the transaction")
	}
	if ok {
		c.Ob("accept", name, true, c.P.posOf(f), "")
	}
}

// mappedFrom: the error is one of the package's own error values.
func mappedFrom(e *Term) bool {
	e = stripBox(e)
	return e.K == TGVar
}
