package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "relay bundling bookkeeping",
		"path-sensitive must-event analysis of the relay link: every proof item obtained from the receiver is bundled into the open group, counted and applied to the status it was built from before the path continues; pending groups are dropped only after all were built into messages; every message handed to the sender is remembered with its items; remembered messages and received statuses are forgotten only when the destination's status covers them; every relay result is acted upon",
		checkLink)
}

const linkp = modPath + "/common/link"

// funcsOf: all functions (methods and closures included) whose code lies in a package.
func (p *Program) funcsOf(pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.funcs {
		if len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		if fn.Package() != nil && fn.Package().Pkg.Path() == modPath+"/"+pkg {
			out = append(out, fn)
		}
	}
	sortFuncs(out)
	return out
}

// invokes: names of the interface methods fn may call, directly or through module functions.
func (p *Program) invokes(fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() {
						out[cc.Method.Name()] = true
						out[invokeName(cc)] = true
					} else if g := cc.StaticCallee(); g != nil && p.inModule(g) {
						rec(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					rec(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	rec(fn)
	return out
}

// callersOf: functions of the package that statically call fn.
func (p *Program) callersOf(fns []*ssa.Function, fn *ssa.Function) (out []*ssa.Function) {
	for _, f := range fns {
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
					hit = true
				}
			}
		}
		if hit {
			out = append(out, f)
		}
	}
	return
}

func methodOf(callee string) string {
	i := strings.LastIndexByte(callee, '.')
	return callee[i+1:]
}

func isInvokeOf(n *Node, iface string, methods ...string) bool {
	if !n.isCall() || n.Invoke == nil {
		return false
	}
	for _, m := range methods {
		if n.Callee == "("+iface+")."+m {
			return true
		}
	}
	return false
}

// itemSizes: the size an item reports is the number of bytes it holds.
func (lk *linkCheck) itemSizes() {
	c := lk.c
	for _, t := range c.P.Impls(nil, lk.item) {
		own := false
		for i := 0; i < t.NumMethods(); i++ {
			own = own || t.Method(i).Name() == "Len"
		}
		fn := c.P.MethodOf(t, "Len")
		if !own || fn == nil {
			continue // (promoted from an embedded item, which is looked at itself)
		}
		name := short(fn.String())
		s := c.Sum(fn, SumCfg{})
		ok := len(s.Outs) > 0
		for _, o := range s.Outs {
			v := stripConv(o.Rets[0])
			if v.K == TLen && isByteSlice(v.Args[0].T) && strings.HasPrefix(s.fl.path(v.Args[0]), "p0.") {
				continue
			}
			if z, k := v.intVal(); k && z == 0 {
				// (an item without bytes)
				zero := false
				for _, f := range o.St.facts {
					p := s.fl.path(f.T)
					zero = zero || strings.Contains(p, "p0.") && strings.Contains(p, "==") && f.Val || strings.Contains(p, "0<len(p0.") && !f.Val
				}
				if zero {
					continue
				}
			}
			ok = false
			c.Ob("item-size", name, false, o.Pos, "the size reported is not the number of the item's bytes: "+s.fl.path(v))
		}
		if ok {
			c.Ob("item-size", name, true, c.P.posOf(fn), "")
		}
	}
}

func stripBox(t *Term) *Term {
	for t != nil && (t.K == TIface || t.K == TDeref) {
		t = t.Args[0]
	}
	return t
}

type linkCheck struct {
	c     *Ctx
	fns   []*ssa.Function
	item  *types.Interface
	items types.Type // []RelayMessageItem
	limit string     // field holding the size limit
	size  string     // field holding the size of the open group
}

func checkLink(c *Ctx) {
	lk := &linkCheck{c: c, fns: c.P.funcsOf("common/link")}
	lk.item = c.P.Iface("common/link", "RelayMessageItem")
	if lk.item == nil || c.P.Iface("common/link", "Receiver") == nil || c.P.Type("common/link", "Link") == nil {
		c.Missing("item", "common/link.RelayMessageItem / Receiver / Link")
		return
	}
	lk.items = types.NewSlice(c.P.Type("common/link", "RelayMessageItem"))
	lk.limits()
	n := 0
	var later []func()
	for _, fn := range lk.fns {
		f := fn
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !ci.Common().IsInvoke() {
					continue
				}
				nm := invokeName(ci.Common())
				switch nm {
				case "(" + linkp + ".Receiver).BuildMessageProof", "(" + linkp + ".Receiver).BuildBlockProof", "(" + linkp + ".Receiver).BuildBlockUpdate":
					n++
					lk.itemSite(fn, ci, nm, 0)
				case "(" + linkp + ".Receiver).BuildRelayMessage":
					later = append(later, func() { lk.groupSite(f, ci, 0) })
				case "(" + modPath + "/common/types.Sender).Relay":
					lk.relaySite(fn, ci)
				}
			}
		}
		lk.lists(fn)
		lk.received(fn)
		lk.results(fn)
	}
	for _, f := range later {
		f()
	}
	for _, fn := range lk.fns {
		lk.sizes(fn)
		lk.dispatch(fn)
	}
	lk.itemSizes()
	c.Need("item-size", 3)
	c.Need("size", 1)
	c.Need("dispatch", 1)
	c.Need("item", 4)
	c.Need("space", 3)
	c.Need("group", 1)
	c.Need("group-reset", 1)
	c.Need("remembered", 1)
	c.Need("forget", 3)
	c.Need("received", 1)
	c.Need("result", 1)
	c.Need("limit", 1)
}

// inline helpers only: functions that obtain or relay nothing, or that are given an item.
func (lk *linkCheck) opaque(also ...*ssa.Function) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		for _, a := range also {
			if a == f {
				return false
			}
		}
		if defaultOpaque(f) {
			return true
		}
		if f.Package() == nil || f.Package().Pkg.Path() != linkp {
			return true
		}
		for _, p := range f.Params {
			if it, ok := p.Type().Underlying().(*types.Interface); ok && types.Implements(p.Type(), lk.item) && it.NumMethods() > 0 {
				return false
			}
		}
		inv := lk.c.P.invokes(f)
		for m := range inv {
			if strings.HasPrefix(m, "("+linkp+".Receiver).Build") || m == "("+modPath+"/common/types.Sender).Relay" {
				return true
			}
		}
		return false
	}
}

// limits: the limit field is TxSizeLimit()-GetMarginForLimit() of the sender being used.
func (lk *linkCheck) limits() {
	c := lk.c
	for _, fn := range lk.fns {
		inv := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "GetMarginForLimit" {
					inv = true
				}
			}
		}
		if !inv {
			continue
		}
		s := c.Sum(fn, SumCfg{Opaque: lk.opaque(), NoFacts: true, Max: 60})
		for _, r := range s.Sto {
			_, f := fieldOwner(r.Args[0])
			if f == "" || !isInteger(r.Args[1].T) {
				continue
			}
			l := r.St.lin(r.Args[1])
			var a, m *Term
			for t, k := range l.c {
				u := t
				for u.K == TConv {
					u = u.Args[0]
				}
				if u.K == TCall && strings.HasSuffix(u.N.Callee, ".TxSizeLimit") && k.Int64() == 1 {
					a = u
				}
				if u.K == TCall && strings.HasSuffix(u.N.Callee, ".GetMarginForLimit") && k.Int64() == -1 {
					m = u
				}
			}
			if a == nil && m == nil {
				continue
			}
			ok := a != nil && m != nil && len(l.c) == 2 && l.k.Sign() == 0 && s.fl.path(a.Args[0]) == s.fl.path(m.Args[0])
			c.Ob("limit", short(fn.String()), ok, s.g.pos(r.N), "the size limit of the link is not the sender's size limit minus its margin")
			if ok {
				lk.limit = f
			}
		}
	}
}

// itemSite: every item a builder returns is bundled, counted and applied.
func (lk *linkCheck) itemSite(fn *ssa.Function, site ssa.CallInstruction, nm string, depth int, also ...*ssa.Function) {
	c := lk.c
	name := fmt.Sprintf("%s from %s", methodOf(nm), short(fn.String()))
	slice := strings.HasSuffix(nm, "BuildBlockUpdate")
	type itemRef struct{ item, call, bls *Term }
	var fl *Flow
	match := func(st *State, t *Term) (*Event, *Term) {
		t = stripBox(t)
		for _, k := range sortedKeys(st.must) {
			e := st.must[k]
			if e.Tag != "item" {
				continue
			}
			if !slice && stripBox(e.Args[0]) == t {
				return e, t
			}
			if slice && t != nil {
				u := t
				if u.K == TLoad {
					u = u.Args[0]
				}
				if (u.K == TIndexAddr || u.K == TIndex) && u.Args[0] == e.Args[0] {
					return e, t
				}
			}
		}
		return nil, nil
	}
	ev := func(st *State, n *Node, args []*Term, res *Term) {
		if n.Op != OpInstr {
			return
		}
		fl = st.fl
		if n.isCall() && n.Instr == ssa.Instruction(site) {
			for k, e := range st.must {
				if e.Tag == "app" || e.Tag == "siz" || e.Tag == "adv" {
					delete(st.must, k)
				}
			}
			st.addMust("item", "item", n, extractOf(st.fl.ts, res, 0), res, args[1])
			return
		}
		if n.isCall() && n.Invoke != nil && methodOf(n.Callee) == "UpdateBMCLinkStatus" {
			if e, it := match(st, args[0]); e != nil && (args[1] == e.Args[2] || fl.path(args[1]) == fl.path(e.Args[2])) {
				st.addMust("adv", "adv", n, it, res)
			}
		}
		if _, ok := n.Instr.(*ssa.Store); ok {
			base, el, ok := appended(st, args[1])
			if ok && types.Identical(args[1].T, lk.items) {
				if e, it := match(st, el); e != nil && lk.openGroup(st, args[0], base) {
					if _, dup := st.must["app"]; dup {
						st.addMust("dup", "dup", n, it)
					}
					st.addMust("app", "app", n, it)
				}
			}
			if _, f := fieldOwner(args[0]); f != "" && args[1].K == TBin && args[1].Op == "+" {
				for i := 0; i < 2; i++ {
					l, o := args[1].Args[i], args[1].Args[1-i]
					if l.K == TCall && methodOf(l.N.Callee) == "Len" && "&"+fl.path(o) == fl.path(args[0]) {
						if e, it := match(st, l.Args[0]); e != nil {
							st.addMust("siz", "siz", n, it)
							lk.size = f
						}
					}
				}
			}
		}
	}
	s := c.Sum(fn, SumCfg{Opaque: lk.opaque(also...), Ev: ev, Max: 2000})
	returned := false
	problem := func(st *State, rets []*Term) string {
		e := st.must["item"]
		if e == nil {
			return ""
		}
		if n, k := nilState(st, extractOf(fl.ts, e.Args[1], 1)); k && !n {
			return ""
		}
		if n, k := nilState(st, e.Args[0]); k && n {
			return ""
		}
		for _, r := range rets {
			if stripBox(r) == stripBox(e.Args[0]) {
				returned = true
				return ""
			}
		}
		_, dup := st.must["dup"]
		if dup {
			return "the item is added to a group twice"
		}
		for _, f := range st.facts {
			t := f.T
			if t.K == TBin && t.Op == "==" && f.Val {
				for i := 0; i < 2; i++ {
					if v, ok := t.Args[i].intVal(); ok && v == 0 {
						o := t.Args[1-i]
						if o.K == TCall && methodOf(o.N.Callee) == "Len" && stripBox(o.Args[0]) == stripBox(e.Args[0]) {
							return "" // an empty item
						}
						if o.K == TLen && o.Args[0] == e.Args[0] {
							return ""
						}
					}
				}
			}
		}
		var miss []string
		for _, k := range []string{"app", "siz", "adv"} {
			if _, ok := st.must[k]; !ok {
				miss = append(miss, map[string]string{"app": "added to the open group", "siz": "counted in the group's size", "adv": "applied to the status it was built from"}[k])
			}
		}
		if len(miss) == 0 {
			a := st.must["adv"]
			if n, k := nilState(st, a.Args[1]); k && n {
				return ""
			}
			for _, r := range rets {
				if r == a.Args[1] {
					return ""
				}
			}
			if n, k := nilState(st, a.Args[1]); k && !n {
				return "continues although the item could not be applied to the status"
			}
			return "ignores whether the item could be applied to the status"
		}
		return "an item that was built is not " + strings.Join(miss, " / not ")
	}
	ok := true
	bad := func(pos, msg string) {
		ok = false
		c.Ob("item", name, false, pos, msg)
	}
	spos := c.P.posStr(site.Pos())
	for _, o := range s.Outs {
		if isNil, k := o.errState(); k && !isNil && fn.Signature.Results().Len() > 0 && isErrType(lastRes(fn)) {
			continue
		}
		e := o.St.must["item"]
		if slice && e != nil {
			if n, k := nilState(o.St, extractOf(fl.ts, e.Args[1], 1)); k && !n {
				continue
			}
			ret := false
			for _, r := range o.Rets {
				if r == e.Args[0] {
					ret = true
				}
			}
			if ret {
				returned = true
				continue
			}
			if lenZero(o.St, e.Args[0]) {
				continue
			}
			if len(o.St.coverHeadsT(e.Args[0])) == 0 {
				bad(o.Pos, "some of the block updates built may be left out: the path continues without visiting all of them")
			}
			continue
		}
		if m := problem(o.St, o.Rets); m != "" {
			bad(o.Pos, m)
		}
	}
	for _, b := range s.Back {
		e := b.St.must["item"]
		if e == nil {
			continue
		}
		if slice {
			// an iteration over the block updates
			if hd := loopOver(b.St, b.E.To, e.Args[0]); hd {
				if m := problem(b.St, nil); m != "" {
					bad(s.posOfBlk(b.E.From), m)
				}
			} else if e.N.Blk.loops[b.E.To] && !lenZero(b.St, e.Args[0]) && len(b.St.coverHeadsT(e.Args[0])) == 0 {
				if n, k := nilState(b.St, extractOf(fl.ts, e.Args[1], 1)); !k || n {
					bad(s.posOfBlk(b.E.From), "block updates are asked for again before the previous ones were used")
				}
			}
			continue
		}
		if e.N.Blk.loops[b.E.To] || e.N.Blk == b.E.To {
			if m := problem(b.St, nil); m != "" {
				bad(s.posOfBlk(b.E.From), m)
			}
		}
	}
	if ok {
		c.Ob("item", name, true, spos, "")
	}
	// the space offered to the builder
	if !strings.HasSuffix(nm, "BuildBlockProof") && depth == 0 {
		for _, r := range s.Calls(func(n *Node) bool { return n.Instr == ssa.Instruction(site) }) {
			l := r.St.lin(r.Args[2])
			good := len(l.c) == 2 && l.k.Sign() == 0
			for t, k := range l.c {
				p := fl.path(t)
				switch {
				case strings.HasSuffix(p, "."+lk.limit) && k.Int64() == 1:
				case strings.HasSuffix(p, ".size") && k.Int64() == -1 || lk.size != "" && strings.HasSuffix(p, "."+lk.size) && k.Int64() == -1:
				default:
					good = false
				}
			}
			c.Ob("space", name, good, spos, "the space offered to the builder is not the link's limit minus what the open group already holds: "+fl.path(r.Args[2]))
		}
	}
	if returned && depth < 4 {
		cs := c.P.callersOf(lk.fns, fn)
		for _, cf := range cs {
			lk.itemSite(cf, site, nm, depth+1, append(also, fn)...)
		}
		if len(cs) == 0 {
			c.Ob("item", name, false, spos, "the item is handed to a caller that does not exist")
		}
	}
}

func lastRes(fn *ssa.Function) types.Type {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return r.At(r.Len() - 1).Type()
}

func isErrType(t types.Type) bool { return t != nil && types.Identical(t, errorType()) }

func lenZero(st *State, seq *Term) bool {
	for _, f := range st.facts {
		t := f.T
		if t.K == TBin && t.Op == "==" && f.Val {
			for i := 0; i < 2; i++ {
				if v, ok := t.Args[i].intVal(); ok && v == 0 && t.Args[1-i].K == TLen && t.Args[1-i].Args[0] == seq {
					return true
				}
			}
		}
		if t.K == TBin && t.Op == "<" && !f.Val {
			if v, ok := t.Args[0].intVal(); ok && v == 0 && t.Args[1].K == TLen && t.Args[1].Args[0] == seq {
				return true
			}
		}
	}
	if n, k := nilState(st, seq); k && n {
		return true
	}
	return false
}

// loopOver: does the loop with this head iterate over seq (its exit test mentions len(seq))?
func loopOver(st *State, head *Block, seq *Term) bool {
	for _, b := range st.fl.g.Blocks {
		if b != head && !b.loops[head] {
			continue
		}
		if b.Cond == nil {
			continue
		}
		for _, n := range b.Nodes {
			if n.Typ == nil {
				continue
			}
			if n == b.Cond && len(n.Args) == 2 {
				for _, a := range n.Args {
					if a.isCall() && a.Builtin == "len" && len(a.Args) == 1 {
						if st.val(a.Args[0]) == seq {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// openGroup: addr is the last group of a list of groups and base its current content.
func (lk *linkCheck) openGroup(st *State, addr, base *Term) bool {
	if addr.K != TIndexAddr {
		return false
	}
	fl := st.fl
	if "&"+fl.path(base) != fl.path(addr) && fl.path(base) != strings.TrimPrefix(fl.path(addr), "&") {
		return false
	}
	d := st.lin(addr.Args[1])
	if e := d.sub(st.lin(fl.ts.lenOf(addr.Args[0], types.Typ[types.Int]))); e.isConst() && e.k.IsInt64() && e.k.Int64() == -1 {
		return true
	}
	if len(d.c) != 1 || !d.k.IsInt64() || d.k.Int64() != -1 {
		return false
	}
	for t, k := range d.c {
		if t.K != TLen || k.Int64() != 1 || fl.path(t.Args[0]) != fl.path(addr.Args[0]) {
			return false
		}
	}
	return true
}

// groupSite: every pending group becomes a message that keeps its items; groups are dropped only then.
func (lk *linkCheck) groupSite(fn *ssa.Function, site ssa.CallInstruction, depth int, also ...*ssa.Function) {
	c := lk.c
	// the group is handed in by the caller: judge the callers
	if _, ok := site.Common().Args[0].(*ssa.Parameter); ok && depth == 0 {
		if callers := c.P.callersOf(lk.fns, fn); len(callers) > 0 {
			for _, cf := range callers {
				lk.groupSite(cf, site, depth+1, fn)
			}
			return
		}
	}
	name := short(fn.String())
	groups := types.NewSlice(lk.items)
	var fl *Flow
	ev := func(st *State, n *Node, args []*Term, res *Term) {
		fl = st.fl
		if n.Op != OpInstr {
			return
		}
		if n.isCall() && n.Instr == ssa.Instruction(site) {
			st.addMust("built", "built", n, res, args[1])
		}
		if n.isCall() && n.Invoke != nil && methodOf(n.Callee) == "Relay" {
			st.addMust(fmt.Sprintf("relayed@%d", n.ID), "relayed", n, args[1])
		}
	}
	s := c.Sum(fn, SumCfg{Opaque: lk.opaque(also...), Ev: ev, Max: 2000})
	carries := func(st *State, rm, built, items *Term) bool {
		rm = stripBox(rm)
		if rm == nil {
			return false
		}
		m, i := false, false
		for _, v := range st.fieldVals(rm) {
			if v == extractOf(fl.ts, built, 0) {
				m = true
			}
			if v == items {
				i = true
			}
		}
		return m && i
	}
	handed := func(st *State, e *Edge, rets []*Term) bool {
		b := st.must["built"]
		var cand []*Term
		for _, ev := range st.must {
			if ev.Tag == "relayed" {
				cand = append(cand, ev.Args[0])
			}
		}
		if e != nil {
			for _, n := range e.To.Nodes {
				if n.Op == OpPhi && e.Idx < len(n.Args) {
					if _, el, ok := appended(st, st.val(n.Args[e.Idx])); ok {
						cand = append(cand, el)
					}
				}
			}
		}
		for _, r := range rets {
			cand = append(cand, r)
			if _, el, ok := appended(st, r); ok {
				cand = append(cand, el)
			}
		}
		for _, t := range cand {
			if carries(st, t, b.Args[0], b.Args[1]) {
				return true
			}
		}
		return false
	}
	ok := true
	bad := func(rule, pos, msg string) {
		if rule == "group" {
			ok = false
		}
		c.Ob(rule, name, false, pos, msg)
	}
	var heads []*Block
	for _, b := range s.Back {
		e := b.St.must["built"]
		if e != nil && (e.N.Blk.loops[b.E.To] || e.N.Blk == b.E.To) {
			if !b.St.succeeded(e.Args[0]) {
				bad("group", s.posOfBlk(b.E.From), "continues with the next group although building a message from this one failed or was not checked")
			} else if !handed(b.St, b.E, nil) {
				bad("group", s.posOfBlk(b.E.From), "the message built from a group is not kept together with exactly that group's items")
			}
			heads = append(heads, b.E.To)
		}
	}
	for _, b := range s.Back {
		for _, h := range heads {
			if b.E.To == h && b.St.must["built"] == nil && !groupEmpty(b.St) {
				bad("group", s.posOfBlk(b.E.From), "a pending group that is not empty is skipped")
			}
		}
	}
	for _, o := range s.Outs {
		if isNil, k := o.errState(); k && !isNil {
			continue
		}
		if e := o.St.must["built"]; e != nil && len(heads) == 0 {
			if !o.St.succeeded(e.Args[0]) {
				bad("group", o.Pos, "a failure to build the message is ignored")
			} else if !handed(o.St, nil, o.Rets) {
				bad("group", o.Pos, "the message built from a group is not kept together with exactly that group's items")
			}
		}
	}
	if ok {
		c.Ob("group", name, true, c.P.posOf(fn), "")
	}
	// what is passed to the builder is a pending group
	for _, r := range s.Calls(func(n *Node) bool { return n.Instr == ssa.Instruction(site) }) {
		t := r.Args[1]
		if t.K == TLoad {
			t = t.Args[0]
		}
		good := (t.K == TIndexAddr || t.K == TIndex) && types.Identical(t.Args[0].T, groups)
		if len(heads) > 0 {
			c.Ob("group", name+" argument", good, s.g.pos(r.N), "the message is not built from one of the pending groups: "+fl.path(r.Args[1]))
		}
	}
	// dropping the pending groups
	for _, r := range s.Sto {
		if !types.Identical(r.Args[1].T, groups) || r.Args[0].root().K == TAlloc {
			continue
		}
		if base, _, k := appended(r.St, r.Args[1]); k && sameCell(r.St, base, r.Args[0]) {
			continue
		}
		cov := false
		for _, h := range r.St.coverHeadsF(func(t *Term) bool { return types.Identical(t.T, groups) }) {
			if fl.loopHas(h, func(n *Node) bool { return n.Instr == ssa.Instruction(site) }) {
				cov = true
			}
		}
		if base, _, k := appended(r.St, r.Args[1]); k && !cov {
			// appended to an emptied list: the emptying store was checked
			_ = base
		}
		c.Ob("group-reset", name, cov, s.g.pos(r.N), "pending groups are dropped before a message was built from each of them")
	}
	if fn.Signature.Results().Len() > 0 && depth < 3 {
		// size is zero whenever the groups were dropped
		for _, o := range s.Outs {
			if isNil, k := o.errState(); k && !isNil {
				continue
			}
			z := false
			for _, r := range s.Sto {
				if _, f := fieldOwner(r.Args[0]); f == lk.size && f != "" {
					if v := o.St.lookup(r.Args[0]); v != nil {
						if i, ok := v.intVal(); ok && i == 0 {
							z = true
						}
					}
				}
			}
			c.Ob("group-size", name, z, o.Pos, "the size of the open group is not reset when the pending groups are handed on")
		}
	}
}

func groupEmpty(st *State) bool {
	for _, f := range st.facts {
		t := f.T
		if t.K == TBin && t.Op == "==" && f.Val {
			for i := 0; i < 2; i++ {
				if v, ok := t.Args[i].intVal(); ok && v == 0 && t.Args[1-i].K == TLen {
					return true
				}
			}
		}
		if t.K == TBin && t.Op == "<" && !f.Val {
			if v, ok := t.Args[0].intVal(); ok && v == 0 && t.Args[1].K == TLen {
				return true
			}
		}
		if t.K == TBin && t.Op == "<" && f.Val {
			if v, ok := t.Args[1].intVal(); ok && v == 1 && t.Args[0].K == TLen {
				return true
			}
		}
	}
	return false
}

// sameCell: v is the current content of the cell at addr.
func sameCell(st *State, v, addr *Term) bool {
	fl := st.fl
	return fl.path(v) == strings.TrimPrefix(fl.path(addr), "&")
}

// relaySite: a message handed to the sender is also remembered; all messages are handed over.
func (lk *linkCheck) relaySite(fn *ssa.Function, site ssa.CallInstruction, also ...*ssa.Function) {
	c := lk.c
	// a helper that is given the message or messages is judged in its callers
	mt := site.Common().Args[0].Type()
	if mi, ok := site.Common().Args[0].(*ssa.MakeInterface); ok {
		mt = mi.X.Type()
	}
	for _, p := range fn.Params {
		sl, ok := p.Type().Underlying().(*types.Slice)
		if len(also) < 4 && (types.Identical(p.Type(), mt) || ok && types.Identical(sl.Elem(), mt)) {
			if cs := c.P.callersOf(lk.fns, fn); len(cs) > 0 {
				for _, cf := range cs {
					lk.relaySite(cf, site, append(also, fn)...)
				}
				return
			}
		}
	}
	name := short(fn.String())
	ev := func(st *State, n *Node, args []*Term, res *Term) {
		if n.Op != OpInstr {
			return
		}
		if n.isCall() && n.Instr == ssa.Instruction(site) {
			st.addMust("relayed", "relayed", n, stripBox(args[1]))
		}
		if _, ok := n.Instr.(*ssa.Store); ok && args[0].root().K != TAlloc {
			if base, el, k := appended(st, args[1]); k && sameCell(st, base, args[0]) {
				st.addMust("kept", "kept", n, stripBox(el))
			} else if v := args[1]; v.K == TAppend && sameCell(st, v.Args[0], args[0]) {
				st.addMust("keptall", "kept", n, v.Args[1])
			}
		}
	}
	s := c.Sum(fn, SumCfg{Opaque: lk.opaque(also...), Ev: ev, Max: 2000})
	ok := true
	bad := func(pos, msg string) {
		ok = false
		c.Ob("remembered", name, false, pos, msg)
	}
	late := false
	inLoop := false
	var seq *Term
	check := func(st *State, pos string) {
		r, k := st.must["relayed"], st.must["kept"]
		if r == nil {
			return
		}
		if a := r.Args[0]; k == nil && seq != nil && (a.K == TLoad && a.Args[0].K == TIndexAddr && a.Args[0].Args[0] == seq || a.K == TIndex && a.Args[0] == seq) {
			late = true // the whole list has to be kept by the time the function returns
			return
		}
		if k == nil || k.Args[0] != r.Args[0] {
			bad(pos, "a relay message handed to the sender is not remembered by the link")
		}
	}
	for _, r := range s.Calls(func(n *Node) bool { return n.Instr == ssa.Instruction(site) }) {
		t := stripBox(r.Args[1])
		if t.K == TLoad {
			t = t.Args[0]
		}
		if t.K == TIndexAddr || t.K == TIndex {
			seq = t.Args[0]
		}
	}
	for _, b := range s.Back {
		if e := b.St.must["relayed"]; e != nil && e.N.Blk.loops[b.E.To] {
			inLoop = true
			check(b.St, s.posOfBlk(b.E.From))
		}
	}
	if inLoop {
		heads := map[*Block]bool{}
		for _, b := range s.Back {
			if e := b.St.must["relayed"]; e != nil && e.N.Blk.loops[b.E.To] {
				heads[b.E.To] = true
			}
		}
		for _, b := range s.Back {
			if heads[b.E.To] && b.St.must["relayed"] == nil && seq != nil && !groupEmpty(b.St) {
				bad(s.posOfBlk(b.E.From), "a relay message is skipped: not handed to the sender")
			}
		}
	}
	for _, o := range s.Outs {
		if isNil, k := o.errState(); k && !isNil && isErrType(lastRes(fn)) {
			continue
		}
		if !inLoop {
			check(o.St, o.Pos)
			continue
		}
		if seq != nil {
			// the list may be empty because building it failed
			cov := lenZero(o.St, seq) || len(o.St.coverHeadsT(seq)) > 0 || len(o.St.coverHeads(s.fl.path(seq))) > 0
			if !cov {
				bad(o.Pos, "returns without an error before every relay message was handed to the sender")
			}
			if k := o.St.must["keptall"]; late && (k == nil || k.Args[0] != seq) && !lenZero(o.St, seq) {
				bad(o.Pos, "a relay message handed to the sender is not remembered by the link")
			}
		}
	}
	if ok {
		c.Ob("remembered", name, true, c.P.posOf(fn), "")
	}
}

// lists: what the link remembers shrinks only by what the destination has verified.
func (lk *linkCheck) lists(fn *ssa.Function) {
	c := lk.c
	lt, _ := c.P.Type("common/link", "Link").Underlying().(*types.Struct)
	isList := func(t *Term) string {
		own, f := fieldOwner(t)
		if !strings.HasSuffix(own, "link.Link") {
			return ""
		}
		for i := 0; i < lt.NumFields(); i++ {
			if lt.Field(i).Name() == f {
				if sl, ok := lt.Field(i).Type().Underlying().(*types.Slice); ok {
					if types.IsInterface(sl.Elem()) || strings.HasSuffix(sl.Elem().String(), "relayMessage") {
						return f
					}
				}
			}
		}
		return ""
	}
	has := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok && strings.HasSuffix(pt.Elem().String(), "link.Link") {
						if sl, ok := lt.Field(fa.Field).Type().Underlying().(*types.Slice); ok && (types.IsInterface(sl.Elem()) || strings.HasSuffix(sl.Elem().String(), "relayMessage")) {
							has = true
						}
					}
				}
			}
		}
	}
	if !has {
		return
	}
	s := c.Sum(fn, SumCfg{Opaque: lk.opaque(), Max: 2000})
	for _, r := range s.Sto {
		f := isList(r.Args[0])
		if f == "" || r.Args[0].root().K == TAlloc {
			continue
		}
		v := r.Args[1]
		if v.K == TAppend && sameCell(r.St, v.Args[0], r.Args[0]) {
			continue
		}
		if v.K == TAppend { // append(empty, x...)
			if z := r.St.fl.ts.lenOf(v.Args[0], types.Typ[types.Int]); z != nil {
				if n, ok := z.intVal(); ok && n == 0 {
					v = v.Args[1]
				}
			}
		}
		key := "Link." + f + " in " + short(fn.String())
		if v.K != TSlice || v.Args[2] != nil || !sameCell(r.St, v.Args[0], r.Args[0]) {
			c.Ob("forget", key, false, s.g.pos(r.N), "the list is replaced by something other than a tail of itself: "+s.fl.path(v))
			continue
		}
		why := lk.forgetOK(s, r, v.Args[0], v.Args[1])
		c.Ob("forget", key, why == "", s.g.pos(r.N), why)
	}
}

// forgetOK: dropping the elements before lo is justified.
func (lk *linkCheck) forgetOK(s *Sum, r CallRec, seq, lo *Term) string {
	if lo == nil {
		return ""
	}
	st, fl := r.St, s.fl
	d := st.lin(lo)
	if d.isConst() {
		if d.k.Sign() == 0 {
			return ""
		}
		return "drops a fixed number of entries"
	}
	var idx *Term
	for t, k := range d.c {
		if len(d.c) != 1 || k.Int64() != 1 || !d.k.IsInt64() {
			return "cannot tell which entries are dropped: " + fl.path(lo)
		}
		idx = t
	}
	off := d.k.Int64()
	seqPath := fl.path(seq)
	// elements seq[idx]
	justified := func(st *State, idx *Term, off int64) string {
		el := func(t *Term) bool { // t is a value obtained from seq[j], j = idx+off-1 (or idx when off==0)
			ok := false
			var w func(t *Term)
			w = func(t *Term) {
				if t == nil {
					return
				}
				if (t.K == TIndexAddr || t.K == TIndex) && fl.path(t.Args[0]) == seqPath {
					dd := st.lin(t.Args[1]).sub(st.lin(idx))
					if dd.isConst() && dd.k.IsInt64() {
						j := dd.k.Int64()
						if j == off-1 || j == off {
							ok = true
						}
					}
				}
				for _, a := range t.Args {
					w(a)
				}
			}
			w(t)
			return ok
		}
		h, q, id := false, false, false
		for _, f := range st.facts {
			t := f.T
			if t.K != TBin {
				continue
			}
			a, b := t.Args[0], t.Args[1]
			if t.Op == "==" && f.Val && (el(a) != el(b)) && isInteger(a.T) {
				p := fl.path(a) + "|" + fl.path(b)
				if strings.Contains(strings.ToLower(p), "id") {
					id = true
				}
			}
			// status < entry is false
			if t.Op == "<" && !f.Val && !el(a) && el(b) {
				pa, pb := fl.path(a), fl.path(b)
				if strings.HasSuffix(pa, ".Verifier.Height") && (strings.HasSuffix(pb, ".Verifier.Height") || strings.Contains(pb, ".Height(")) {
					h = true
				}
				if strings.HasSuffix(pa, ".RxSeq") && (strings.HasSuffix(pb, ".RxSeq") || strings.Contains(pb, ".Seq(")) {
					q = true
				}
			}
			if t.Op == "<" && f.Val && el(a) && !el(b) {
				pa, pb := fl.path(a), fl.path(b)
				if strings.HasSuffix(pb, ".Verifier.Height") && (strings.HasSuffix(pa, ".Verifier.Height") || strings.Contains(pa, ".Height(")) {
					h = true
				}
				if strings.HasSuffix(pb, ".RxSeq") && (strings.HasSuffix(pa, ".RxSeq") || strings.Contains(pa, ".Seq(")) {
					q = true
				}
			}
		}
		if id || h && q {
			return ""
		}
		return fmt.Sprintf("entries are dropped although the destination's status was not found to cover them (height covered: %v, sequence covered: %v)", h, q)
	}
	if why := justified(st, idx, off); why == "" {
		return ""
	} else if idx.K != TSym || idx.N.Op != OpPhi {
		return why
	}
	// an index found by a loop: every value it takes must be justified where it is found
	ph := idx.N
	seen := 0
	for _, b := range s.Back {
		if b.E.To != ph.Blk || b.E.Idx >= len(ph.Args) {
			continue
		}
		v := b.St.val(ph.Args[b.E.Idx])
		if v == idx {
			continue
		}
		seen++
		if why := justified(b.St, v, off); why != "" {
			return why
		}
	}
	for _, in := range fl.phiIn[ph] {
		if in != nil && in.isConst() {
			if v, ok := in.intVal(); !ok || v+off > 0 {
				return "drops entries although none was found"
			}
		}
	}
	if seen == 0 {
		return "cannot tell which entries are dropped"
	}
	return ""
}

// received: a status from the receiver is kept before the link builds from it.
func (lk *linkCheck) received(fn *ssa.Function) {
	c := lk.c
	rsT := c.P.Type("common/link", "ReceiveStatus")
	has := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				for _, s := range x.States {
					if ch, ok := s.Chan.Type().Underlying().(*types.Chan); ok && types.Identical(ch.Elem(), rsT) {
						has = true
					}
				}
			case *ssa.UnOp:
				if ch, ok := x.X.Type().Underlying().(*types.Chan); ok && types.Identical(ch.Elem(), rsT) {
					has = true
				}
			case *ssa.Range:
				if ch, ok := x.X.Type().Underlying().(*types.Chan); ok && types.Identical(ch.Elem(), rsT) {
					has = true
				}
			}
		}
	}
	if !has {
		return
	}
	name := short(fn.String())
	ok := true
	bad := func(pos, msg string) {
		ok = false
		c.Ob("received", name, false, pos, msg)
	}
	isRecv := func(t *Term) bool {
		t = stripBox(t)
		return t != nil && t.T != nil && types.Identical(t.T, rsT) && (t.K == TExtract || t.K == TCall || t.K == TSym)
	}
	var built bool
	ev := func(st *State, n *Node, args []*Term, res *Term) {
		if n.Op != OpInstr {
			return
		}
		if _, ok := n.Instr.(*ssa.Select); ok {
			st.addMust("recv", "recv", n, res)
			delete(st.must, "kept")
			delete(st.must, "build")
			return
		}
		if u, ok := n.Instr.(*ssa.UnOp); ok && u.Op.String() == "<-" {
			st.addMust("recv", "recv", n, res)
			delete(st.must, "kept")
			delete(st.must, "build")
			return
		}
		if _, ok := n.Instr.(*ssa.Store); ok && args[0].root().K != TAlloc {
			if base, el, k := appended(st, args[1]); k && sameCell(st, base, args[0]) && isRecv(el) {
				st.addMust("kept", "kept", n, el)
			}
		}
		if n.isCall() && n.Fn != nil && lk.c.P.invokes(n.Fn)["("+linkp+".Receiver).BuildBlockUpdate"] {
			st.addMust("build", "build", n, args...)
			if _, k := st.must["kept"]; !k {
				st.addMust("early", "early", n)
			}
			built = true
		}
	}
	op := lk.opaque()
	s := c.Sum(fn, SumCfg{Opaque: func(f *ssa.Function) bool {
		if f.Package() != nil && f.Package().Pkg.Path() == linkp {
			for _, p := range f.Params {
				if types.Identical(p.Type(), rsT) {
					return false
				}
			}
		}
		return op(f)
	}, Ev: ev, Max: 2000})
	n := 0
	for _, b := range s.Back {
		if b.St.must["recv"] == nil {
			continue
		}
		if _, k := b.St.must["early"]; k {
			bad(s.posOfBlk(b.E.From), "relay messages are built before the received status is kept")
		}
		if b.St.must["build"] != nil {
			n++
			if b.St.must["kept"] == nil {
				bad(s.posOfBlk(b.E.From), "a status received from the source chain is not kept")
			}
		} else if !closedRecv(b.St) {
			bad(s.posOfBlk(b.E.From), "a status received from the source chain is dropped without building from it")
		}
	}
	if !built || n == 0 {
		bad(c.P.posOf(fn), "nothing is built when a status is received")
	}
	if ok {
		c.Ob("received", name, true, c.P.posOf(fn), "")
	}
}

// closedRecv: the receive reported a closed channel (ok == false).
func closedRecv(st *State) bool {
	for _, f := range st.facts {
		t := f.T
		if t.K == TExtract && t.I == 1 && !f.Val && t.Args[0].K == TCall && (t.Args[0].Op == "select" || t.Args[0].Op == "recv") {
			return true
		}
	}
	return false
}

// results: every relay result leads to its recovery action.
func (lk *linkCheck) results(fn *ssa.Function) {
	c := lk.c
	rr := c.P.Type("common/types", "RelayResult")
	if rr == nil {
		c.Missing("result", "common/types.RelayResult")
		return
	}
	pi := -1
	for i, p := range fn.Params {
		if types.Identical(p.Type(), types.NewPointer(rr)) {
			pi = i
		}
	}
	if pi < 0 {
		return
	}
	codes := map[int64]string{}
	for code, nm := range map[string]string{"BMVNotVerifiable": "resync", "BMVAlreadyVerified": "drop", "BMVRevertInvalidBlockWitnessOld": "reprove"} {
		v, ok := c.P.constVal("common/link", code)
		if !ok {
			c.Missing("result", "common/link."+code)
			return
		}
		codes[v] = nm
	}
	name := short(fn.String())
	ev := func(st *State, n *Node, args []*Term, res *Term) {
		if n.Op != OpInstr {
			return
		}
		if isInvokeOf(n, modPath+"/common/types.Sender", "GetStatus") {
			st.addMust("status", "status", n, res)
		}
		if n.isCall() && n.Fn != nil {
			inv := lk.c.P.invokes(n.Fn)
			if inv["("+linkp+".Receiver).BuildBlockUpdate"] {
				for _, a := range args {
					if e := st.must["status"]; e != nil && a == extractOf(st.fl.ts, e.Args[0], 0) && st.succeeded(e.Args[0]) {
						st.addMust("resync", "resync", n)
					}
				}
			} else if inv["("+linkp+".Receiver).BuildMessageProof"] {
				st.addMust("reprove", "reprove", n)
			} else if inv["("+modPath+"/common/types.Sender).Relay"] {
				st.addMust("resend", "resend", n)
			}
		}
		if _, ok := n.Instr.(*ssa.Store); ok {
			if own, _ := fieldOwner(args[0]); strings.HasSuffix(own, "link.Link") && args[1].K == TSlice {
				st.addMust("drop", "drop", n)
			}
		}
	}
	s := c.Sum(fn, SumCfg{Opaque: lk.opaque(c.P.linkHelpers(lk, fn)...), Ev: ev, Max: 2000})
	ok := true
	bad := func(pos, msg string) {
		ok = false
		c.Ob("result", name, false, pos, msg)
	}
	errPath := fmt.Sprintf("p%d.Err", pi)
	seen := map[string]bool{}
	for _, o := range s.Outs {
		if isNil, k := o.errState(); k && !isNil {
			continue
		}
		code := int64(-1)
		for _, f := range o.St.facts {
			t := f.T
			if t.K == TBin && t.Op == "==" && f.Val {
				for i := 0; i < 2; i++ {
					if v, ok := t.Args[i].intVal(); ok && s.fl.path(t.Args[1-i]) == errPath {
						code = v
					}
				}
			}
		}
		act, known := codes[code]
		if !known {
			bad(o.Pos, fmt.Sprintf("a relay result with error code %d is swallowed: neither recovered from nor reported", code))
			continue
		}
		has := func(k string) bool { _, ok := o.St.must[k]; return ok }
		if has(act) {
			seen[act] = true
		}
		if act == "drop" && (has("reprove") || has("resend") || has("resync")) || act == "reprove" && has("drop") {
			bad(o.Pos, fmt.Sprintf("the recovery action for error code %d belongs to another error", code))
		}
		// the message is not pending any more
		gone := false
		for _, f := range o.St.facts {
			if strings.Contains(s.fl.path(f.T), "phi") {
				gone = true
			}
		}
		switch act {
		case "resync":
			if !has("resync") {
				bad(o.Pos, "a message that cannot be verified yet is not rebuilt from the destination's current status")
			}
		case "drop":
			if !has("drop") && !gone {
				bad(o.Pos, "an already verified message is not dropped from the pending ones")
			}
		case "reprove":
			if !(has("reprove") && has("resend")) && !gone {
				bad(o.Pos, "a message rejected for an outdated block witness is not proven and sent again")
			}
		}
	}
	for _, a := range []string{"resync", "drop", "reprove"} {
		if !seen[a] {
			bad(c.P.posOf(fn), "no outcome performs the recovery action '"+a+"'")
		}
	}
	if ok {
		c.Ob("result", name, true, c.P.posOf(fn), "")
	}
}

// linkHelpers: functions called from fn that only look up pending messages or forward to builders.
func (p *Program) linkHelpers(lk *linkCheck, fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && g.Package() != nil && g.Package().Pkg.Path() == linkp {
					if !p.invokes(g)["BuildBlockUpdate"] || p.invokes(g)["GetStatus"] {
						dup := g == fn
						for _, o := range out {
							dup = dup || o == g
						}
						if !dup {
							out = append(out, g)
						}
					}
				}
			}
		}
	}
	return out
}

func (p *Program) invokesDirect(fn *ssa.Function, m string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == m {
				return true
			}
		}
	}
	return false
}

var _ = sort.Strings

func (p *Program) posStr(pos token.Pos) string {
	q := p.SSA.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, p.Dir+"/"), q.Line)
}

// constVal: value of a package-level integer constant.
func (p *Program) constVal(pkg, name string) (int64, bool) {
	sp := p.byPth[modPath+"/"+pkg]
	if sp == nil {
		return 0, false
	}
	o, ok := sp.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constInt(o.Val())
}

// sizes: the recorded size follows the groups.
func (lk *linkCheck) sizes(fn *ssa.Function) {
	c := lk.c
	has := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldNameOf(fa) == lk.size && isInteger(st.Val.Type()) && fa.X.Type().String() != "" {
					if _, isAlloc := fa.X.(*ssa.Alloc); !isAlloc {
						has = true
					}
				}
			}
		}
	}
	if !has {
		return
	}
	groups := types.NewSlice(lk.items)
	ev := func(st *State, n *Node, args []*Term, res *Term) {
		if n.Op != OpInstr {
			return
		}
		if _, ok := n.Instr.(*ssa.Store); ok && args[0].root().K != TAlloc {
			if types.Identical(args[1].T, groups) {
				st.addMust("groups", "groups", n)
			}
			if _, f := fieldOwner(args[0]); f == lk.size && isInteger(args[1].T) {
				k := "other"
				v := args[1]
				if z, ok := v.intVal(); ok && z == 0 {
					k = "zero"
				} else if v.K == TBin && v.Op == "+" {
					for i := 0; i < 2; i++ {
						if l := v.Args[i]; l.K == TCall && methodOf(l.N.Callee) == "Len" && sameCell(st, v.Args[1-i], args[0]) {
							k = "add"
						}
					}
				}
				st.addMust("size:"+k, "size", n)
			}
		}
	}
	s := c.Sum(fn, SumCfg{Opaque: lk.opaque(), Ev: ev, Max: 2000})
	name := short(fn.String())
	ok := true
	for _, o := range s.Outs {
		if e := o.St.must["size:other"]; e != nil {
			ok = false
			c.Ob("size", name, false, s.g.pos(e.N), "the size of the open group is set to something other than zero or itself plus the added item's size")
		}
		if e := o.St.must["size:zero"]; e != nil && o.St.must["groups"] == nil {
			ok = false
			c.Ob("size", name, false, s.g.pos(e.N), "the size of the open group is reset although the group stays open")
		}
	}
	if ok {
		c.Ob("size", name, true, c.P.posOf(fn), "")
	}
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}

// dispatch: results and statuses coming from the sender reach their handlers.
func (lk *linkCheck) dispatch(fn *ssa.Function) {
	c := lk.c
	rr := types.NewPointer(c.P.Type("common/types", "RelayResult"))
	bs := types.NewPointer(c.P.Type("common/types", "BMCLinkStatus"))
	asserts := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ta, ok := in.(*ssa.TypeAssert); ok && types.Identical(ta.AssertedType, rr) {
					return true
				}
			}
		}
		return false
	}
	// fn receives, and it or a function it hands the value to tells the kinds apart
	has, via := asserts(fn), map[*ssa.Function]bool{}
	var down func(f *ssa.Function, d int) bool
	down = func(f *ssa.Function, d int) bool {
		r := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(*ssa.Call); ok {
					if g := ci.Call.StaticCallee(); g != nil && g != f && d < 4 && lk.c.P.inModule(g) && (asserts(g) || down(g, d+1)) {
						via[g], r = true, true
					}
				}
			}
		}
		return r
	}
	if !receives(fn) || !down(fn, 0) && !has {
		return
	}
	name := short(fn.String())
	takes := func(f *ssa.Function, t types.Type) bool {
		for _, p := range f.Params {
			if types.Identical(p.Type(), t) {
				return true
			}
		}
		return false
	}
	op := lk.opaque()
	var recv *Node
	ev := func(st *State, n *Node, args []*Term, res *Term) {
		if n.Op != OpInstr {
			return
		}
		switch n.Instr.(type) {
		case *ssa.Select:
			recv = n
			for k, e := range st.must {
				if e.Tag == "did" {
					delete(st.must, k)
				}
			}
		case *ssa.Send:
			st.addMust("sent", "did", n, args[1])
		}
		if u, ok := n.Instr.(*ssa.UnOp); ok && u.Op == token.ARROW {
			recv = n
			for k, e := range st.must {
				if e.Tag == "did" {
					delete(st.must, k)
				}
			}
		}
		if n.isCall() && n.Fn != nil && takes(n.Fn, rr) {
			st.addMust("result", "did", n, res)
		}
		if u, ok := n.Instr.(*ssa.UnOp); ok && u.Op == token.MUL {
			if own, f := fieldOwner(args[0]); strings.HasSuffix(own, "link.Link") {
				if _, ok := u.Type().Underlying().(*types.Slice); ok {
					st.addMust("list:"+f, "did", n)
				}
			}
		}
	}
	s := c.Sum(fn, SumCfg{Opaque: func(f *ssa.Function) bool { return !via[f] && (takes(f, rr) || op(f)) }, Ev: ev, Max: 2000})
	ok := true
	bad := func(pos, msg string) {
		ok = false
		c.Ob("dispatch", name, false, pos, msg)
	}
	asserted := func(st *State, t types.Type) bool {
		for _, f := range st.facts {
			if f.Val && f.T.K == TPure && strings.HasPrefix(f.T.Op, "is:") && f.T.Op == "is:"+types.TypeString(t, nil) {
				return true
			}
			if f.Val && f.T.K == TExtract && f.T.I == 1 && f.T.Args[0].K == TAssert && types.Identical(tupleFirst(f.T.Args[0].T), t) {
				return true
			}
		}
		return false
	}
	nres, nst := 0, 0
	for _, b := range s.Back {
		if recv == nil || !(recv.Blk.loops[b.E.To] || recv.Blk == b.E.To) {
			continue
		}
		if asserted(b.St, rr) {
			nres++
			r := b.St.must["result"]
			if r == nil {
				bad(s.posOfBlk(b.E.From), "a relay result from the sender is not handled")
				continue
			}
			if e := b.St.must["sent"]; e == nil || e.Args[0] != r.Args[0] {
				if n, k := nilState(b.St, r.Args[0]); !k || !n {
					bad(s.posOfBlk(b.E.From), "a failure to handle a relay result is not reported")
				}
			}
		}
		if asserted(b.St, bs) {
			nst++
			n := 0
			for k := range b.St.must {
				if strings.HasPrefix(k, "list:") {
					n++
				}
			}
			if n < 2 {
				if !nilAsserted(b.St, bs) {
					bad(s.posOfBlk(b.E.From), "a new status of the destination does not release the messages and statuses it covers")
				}
			}
		}
	}
	if nres == 0 || nst == 0 {
		bad(c.P.posOf(fn), fmt.Sprintf("handling of relay results (%d) and statuses (%d) from the sender not found", nres, nst))
	}
	if ok {
		c.Ob("dispatch", name, true, c.P.posOf(fn), "")
	}
}

func tupleFirst(t types.Type) types.Type {
	if tp, ok := t.(*types.Tuple); ok && tp.Len() > 0 {
		return tp.At(0).Type()
	}
	return t
}

// nilAsserted: the value asserted to type t is known to be a nil pointer.
func nilAsserted(st *State, t types.Type) bool {
	for _, f := range st.facts {
		if f.Val && f.T.K == TBin && f.T.Op == "==" {
			for i := 0; i < 2; i++ {
				o := f.T.Args[1-i]
				if f.T.Args[i].isNil() && o.T != nil && types.Identical(o.T, t) {
					return true
				}
			}
		}
	}
	return false
}

// receives: fn takes values from a channel.
func receives(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				return true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Chan); ok {
					return true
				}
			}
		}
	}
	return false
}
