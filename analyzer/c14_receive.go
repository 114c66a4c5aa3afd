package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "receivers-proofs",
		"value flow and loop-carried list analysis of the receivers' message proofs: the bytes, start and last sequence, kind and effect of each proof built (read through its own accessor methods), the received block it is taken from, and the search that finds it",
		func(c *Ctx) { checkReceivers(c, "proof", "height") })
	register("C20", "receivers-items",
		"value flow and loop-carried list analysis of the receivers' block updates and relay messages: what each item proves, claims and sets (read through its own accessor methods) and how items are encoded",
		func(c *Ctx) { checkReceivers(c, "update", "message") })
	register("C21", "receivers-watch",
		"value flow and effect analysis of the receivers' subscription and notification callback: what is asked of the source, which blocks and messages are kept and reported with which height and sequence, on which paths, and when they are dropped",
		func(c *Ctx) { checkReceivers(c, "watch", "forget") })
}

type recvCheck struct {
	c    *Ctx
	pkg  string
	kind string // btp2, bridge, eth
	accs map[string]map[string]string
}

func checkReceivers(c *Ctx, rules ...string) {
	ri := c.P.Iface("common/link", "Receiver")
	if ri == nil {
		c.Missing(rules[0], "common/link.Receiver")
		return
	}
	for _, k := range [][2]string{{"chain/icon/btp2", "btp2"}, {"chain/icon/bridge", "bridge"}, {"chain/ethbr", "eth"}} {
		rc := &recvCheck{c, k[0], k[1], map[string]map[string]string{}}
		for _, r := range rules {
			d := map[string]struct {
				m string
				f func(*ssa.Function)
			}{
				"proof": {"BuildMessageProof", rc.proof}, "update": {"BuildBlockUpdate", rc.update}, "height": {"GetHeightForSeq", rc.height},
				"message": {"BuildRelayMessage", rc.message}, "watch": {"Start", rc.watch}, "forget": {"Start", func(m *ssa.Function) { rc.forget(m, ri) }},
			}[r]
			for _, m := range c.P.impls(k[0], ri, d.m) {
				d.f(m)
			}
		}
	}
	for _, r := range rules {
		c.Need(r, 3)
	}
}

func (rc *recvCheck) cfg() SumCfg {
	return SumCfg{Opaque: func(f *ssa.Function) bool { return pkgOf(f) != rc.pkg }, Max: 300, Numeric: true,
		NoKill: func(callee string) bool {
			return strings.HasSuffix(callee, ".MarshalToBytes") || callee == "sort.Slice" || callee == "sort.SliceStable" || strings.HasSuffix(callee, "/rlp.EncodeToBytes") || strings.HasSuffix(callee, "MarshalToBytes") ||
				strings.HasSuffix(callee, "Client).GetBTPHeader") || strings.HasSuffix(callee, "Client).GetBTPProof") || strings.HasSuffix(callee, "Client).GetBTPMessage")
		},
		Cfg: func(fc *FlowCfg) {
			fc.Rewiden = true
			fc.PureExtra = map[string]bool{"(*" + modPath + "/common/mbt.MerkleBinaryTree).Len": true}
			fc.OnHead = func(st *State, e *Edge, phis []PhiIn) func() {
				b := carryBounds(st, e, phis)
				var eq []*Term
				if !e.isBack() {
					for _, p := range phis {
						if isIntTerm(p.In) && !p.In.hasSym(p.N.ID) && !p.In.hasSym(-(e.To.ID + 1)) {
							eq = append(eq, st.fl.ts.bin(token.EQL, p.Sym, p.In, types.Typ[types.Bool]))
						}
					}
				}
				return func() {
					b()
					for _, t := range eq {
						st.assume(t, true)
					}
				}
			}
		}}
}

// acc: where an item's accessors read, below the item.
func (rc *recvCheck) acc(t types.Type) map[string]string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	key := t.String()
	if a := rc.accs[key]; a != nil {
		return a
	}
	a := map[string]string{}
	rc.accs[key] = a
	for _, n := range []string{"Type", "Len", "LastSeqNum", "StartSeqNum", "SrcHeight", "TargetHeight", "ProofHeight", "UpdateBMCLinkStatus", "Height", "Seq"} {
		fn := rc.c.P.MethodOf(t, n)
		if fn == nil {
			continue
		}
		s := rc.c.Sum(fn, rc.cfg())
		get := func(o Outcome) map[string]string {
			if n != "UpdateBMCLinkStatus" {
				p := rc.objPath(s, stripConv(o.Rets[0]))
				if n == "Len" {
					t := stripConv(o.Rets[0])
					if t.K != TLen {
						return nil
					}
					p = rc.objPath(s, t.Args[0])
				}
				return map[string]string{n: p}
			}
			if nv, k := o.errState(); !k || !nv {
				return nil
			}
			fv := o.St.fieldVals(param(s, 1))
			m := map[string]string{}
			for _, f := range []string{"Verifier.Height", "RxSeq", "TxSeq"} {
				m["apply "+f] = rc.objPath(s, fv[f])
			}
			return m
		}
		for i, o := range s.Outs {
			m := get(o)
			if m == nil {
				a[n] = ""
				continue
			}
			for k, p := range m {
				if i > 0 && a[k] != p {
					p = ""
				}
				a[k] = p
			}
		}
	}
	return a
}

// objPath: the field path of t below the receiver, "" if it is something else.
func (rc *recvCheck) objPath(s *Sum, t *Term) string {
	if t == nil {
		return ""
	}
	p := s.fl.path(t)
	if !strings.HasPrefix(p, "p0.") || strings.ContainsAny(p, "()[]") {
		return ""
	}
	return p[3:]
}

// item: the observable values of an item built here, by accessor.
func (rc *recvCheck) item(st *State, obj *Term) map[string]*Term {
	obj = stripBox(obj)
	out := map[string]*Term{}
	if obj == nil || obj.T == nil {
		return out
	}
	fv := deepFields(st, obj)
	for k, p := range rc.acc(obj.T) {
		if p != "" && fv[p] != nil {
			out[k] = fv[p]
		}
	}
	return out
}

// same: both integer terms are equal here.
func (s *State) same(a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	return a == b || s.fl.path(stripConv(a)) == s.fl.path(stripConv(b)) && !strings.Contains(s.fl.path(a), "phi") || isIntTerm(a) && isIntTerm(b) && linEqual(s, s.lin64(a), s.lin64(b))
}

// lin64: as lin, with conversions between 64-bit integers taken as exact.
func (s *State) lin64(t *Term) lin {
	l := s.lin(t)
	out := newLin()
	out.k.Set(l.k)
	for a, k := range l.c {
		if a.K == TConv && isIntTerm(a.Args[0]) {
			out = out.add(s.lin64(a.Args[0]), k)
		} else {
			out = out.add(linAtom(a), k)
		}
	}
	return out
}

// entails64: expr <= 0 here.
func (s *State) entails64(l lin) bool { return l.ok && s.entails(l) }

func pathIs(st *State, t *Term, ps ...string) bool {
	if t == nil {
		return false
	}
	p := st.fl.path(stripConv(t))
	if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 { // a field of a copy
		p = strings.TrimPrefix(p, "*")
	}
	for _, x := range ps {
		if p == x {
			return true
		}
	}
	return false
}

// applied: the status after the item.
func (rc *recvCheck) applied(st *State, it map[string]*Term, height, rx *Term, heightPath, rxPath string) string {
	chk := func(k string, want *Term, wantPath, what string) string {
		g := it["apply "+k]
		if g == nil {
			return "applying the item does not set " + what
		}
		if want != nil && st.same(g, want) || wantPath != "" && pathIs(st, g, wantPath) {
			return ""
		}
		w := wantPath
		if want != nil {
			w = st.fl.path(want)
		}
		return "applying the item sets " + what + " to " + st.fl.path(g) + ", not " + w
	}
	for _, m := range []string{chk("Verifier.Height", height, heightPath, "the height"), chk("RxSeq", rx, rxPath, "the received sequence"), chk("TxSeq", nil, "p1.TxSeq", "the sent sequence")} {
		if m != "" {
			return m
		}
	}
	return ""
}

func (rc *recvCheck) kindOf(st *State, it map[string]*Term, name string) bool {
	w, ok := rc.c.P.constVal("common/link", name)
	if !ok || it["Type"] == nil {
		return false
	}
	v, ok := it["Type"].intVal()
	return ok && v == w
}

// loopList: what a loop-carried list holds: the values it has on entry and what each iteration adds.
type listStep struct {
	St    *State
	E     *Edge
	Added []*Term
}
type loopList struct {
	head  *Block
	entry []*Term
	steps []listStep
}

func (s *Sum) loopList(L *Term) (*loopList, string) {
	if L == nil {
		return nil, "unknown list"
	}
	ll := &loopList{}
	var at func(st *State, e *Edge) *Term
	switch {
	case L.K == TSym && L.N.Op == OpPhi && L.N.Blk.loopHead:
		ll.head = L.N.Blk
		at = func(st *State, e *Edge) *Term { return st.val(L.N.Args[e.Idx]) }
	case L.K == TMem:
		for _, b := range s.g.Blocks {
			if b.ID == L.I && b.loopHead {
				ll.head = b
			}
		}
		at = func(st *State, e *Edge) *Term { return st.lookup(L.Args[0]) }
	}
	if ll.head == nil {
		return nil, "cannot tell how the list is built: " + s.fl.path(L)
	}
	seen := map[*Term]bool{}
	for _, x := range s.Ent {
		if x.E.To == ll.head {
			v := at(x.St, x.E)
			if v == nil {
				return nil, "the list is unknown before the loop"
			}
			if !seen[v] {
				seen[v] = true
				ll.entry = append(ll.entry, v)
			}
		}
	}
	for _, x := range s.Back {
		if x.E.To != ll.head {
			continue
		}
		v := at(x.St, x.E)
		var add []*Term
		for d := 0; v != nil && v != L && !seen[v] && d < 20; d++ {
			if v.K == TSlice && v.Args[1] == nil && v.Args[2] != nil && v.Args[0].K == TAppend {
				// x = append(x, e); x = x[:len(x)-1]
				b, _, k := appended(x.St, v.Args[0])
				if k && linSame(x.St.lin(v.Args[2]), x.St.lin(s.fl.ts.lenOf(v.Args[0], nil)).plus(-1)) {
					v = b
					continue
				}
			}
			if v.K != TAppend {
				return nil, "the list is changed other than by appending: " + s.fl.path(v)
			}
			es, k := x.St.elems(v.Args[1])
			if !k {
				return nil, "cannot tell what is appended: " + s.fl.path(v.Args[1])
			}
			add = append(append([]*Term{}, es...), add...)
			v = v.Args[0]
		}
		if v == nil {
			return nil, "the list is unknown after an iteration"
		}
		ll.steps = append(ll.steps, listStep{x.St, x.E, add})
	}
	if len(ll.steps) == 0 {
		return nil, "the loop adds nothing to the list"
	}
	return ll, ""
}

// filled: as loopList, also for a list made at its full size (returned) and filled by index from 0 on.
func (s *Sum) filled(L *Term) (*loopList, *Term, string) {
	if L == nil || L.K != TMake {
		ll, why := s.loopList(L)
		return ll, nil, why
	}
	ll := &loopList{}
	keys := map[string]bool{}
	for _, x := range s.Back {
		for _, k := range sortedKeys(x.St.mem) {
			m := x.St.mem[k]
			if m.addr.K != TIndexAddr || m.addr.Args[0] != L {
				continue
			}
			h, first, off, ok := s.loopIndex(x.St, m.addr.Args[1])
			if !ok || h != x.E.To || ll.head != nil && ll.head != h || !linEqual(x.St, first.plus(off), linK(0)) {
				return nil, nil, "the list is not filled in order: " + s.fl.path(m.addr)
			}
			ll.head = h
			keys[m.addr.key] = true
		}
	}
	if ll.head == nil {
		return nil, nil, "cannot tell how the list is built: " + s.fl.path(L)
	}
	for k := range s.fl.stored {
		if strings.Contains(k, L.key) && !keys[k] {
			return nil, nil, "the list is changed elsewhere: " + s.fl.path(L)
		}
	}
	for _, x := range s.Back {
		if x.E.To != ll.head {
			continue
		}
		var add []*Term
		other := false // a path on which the list was made with another size
		for _, k := range sortedKeys(x.St.mem) {
			m := x.St.mem[k]
			if m.addr.K == TIndexAddr && m.addr.Args[0] == L {
				add = append(add, m.val)
			} else if m.addr.K == TIndexAddr && m.addr.Args[0].K == TMake && m.addr.Args[0].N == L.N {
				other = true
			}
		}
		if len(add) == 0 && other {
			continue
		}
		if len(add) != 1 {
			return nil, nil, "an iteration may leave an element of the list unset"
		}
		ll.steps = append(ll.steps, listStep{x.St, x.E, add})
	}
	return ll, L.Args[0], ""
}

func emptyList(st *State, t *Term) bool {
	if t == nil {
		return false
	}
	if t.isNil() {
		return true
	}
	z := st.fl.ts.lenOf(t, types.Typ[types.Int])
	if z == nil {
		return false
	}
	n, ok := z.intVal()
	return ok && n == 0
}

// elemAt: t is seq[idx]; seq by term.
func elemAt(t *Term) (seq, idx *Term) {
	t = stripBox(t)
	if t != nil && t.K == TLoad {
		t = t.Args[0]
	}
	if t != nil && (t.K == TIndexAddr || t.K == TIndex) {
		return t.Args[0], t.Args[1]
	}
	return nil, nil
}

// loopIndex: the index variable of a loop: its initial value, when it counts up by one.
func (s *Sum) loopIndex(st *State, idx *Term) (head *Block, first lin, off int64, ok bool) {
	d := st.lin64(idx)
	if len(d.c) == 0 || !d.k.IsInt64() {
		return nil, newLin(), 0, false
	}
	for t, k := range d.c {
		if t.K != TSym || t.N.Op != OpPhi || k.Cmp(big.NewInt(1)) != 0 {
			continue
		}
		rest := d.add(linAtom(t), big.NewInt(-1))
		rest.k = new(big.Int)
		fixed := true
		for x := range rest.c {
			fixed = fixed && !x.hasSym(t.N.ID) && !x.hasSym(-(t.N.Blk.ID + 1))
			if x.K == TSym && x.N.Op == OpPhi && x.N.Blk == t.N.Blk {
				fixed = false
			}
		}
		if !fixed {
			continue
		}
		f, step, k2 := s.fl.induction(t)
		if k2 && step == 1 {
			return t.N.Blk, st.lin64(f).add(rest, bigOne), d.k.Int64(), true
		}
	}
	return nil, newLin(), 0, false
}

// lockstep: counters of one loop that all count up by one, in terms of the first of them.
func (s *Sum) lockstep(st *State, l lin) lin {
	for _, t := range sortedAtoms(l) {
		if t.K != TSym || t.N.Op != OpPhi || !t.N.Blk.loopHead {
			continue
		}
		f, step, ok := s.fl.induction(t)
		if !ok || step != 1 {
			continue
		}
		for _, n := range t.N.Blk.Nodes {
			if n.Op != OpPhi || n == t.N || n.ID > t.N.ID {
				continue
			}
			o := s.fl.sym(n)
			of, ostep, ok := s.fl.induction(o)
			if ok && ostep == 1 && isIntTerm(o) {
				k := l.c[t]
				l = l.add(linAtom(t), new(big.Int).Neg(k)).add(linAtom(o).sub(st.lin64(of)).add(st.lin64(f), bigOne), k)
				break
			}
		}
	}
	return l
}

func sortedAtoms(l lin) (out []*Term) {
	for t := range l.c {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return
}

// run: L holds seq[lo .. hi) in order. st: where L is used.
func (s *Sum) run(st *State, L *Term) (seq *Term, lo, hi lin, empty bool, why string) {
	L = stripBox(L)
	if emptyList(st, L) {
		return nil, lin{}, lin{}, true, ""
	}
	if L != nil && L.K == TAppend && emptyList(st, L.Args[0]) { // append(empty, x[a:b]...)
		if es, k := st.elems(L.Args[1]); !k {
			return s.run(st, L.Args[1])
		} else if len(es) == 1 {
			q, ix := elemAt(es[0])
			if q == nil {
				return nil, lin{}, lin{}, false, "an element is not taken from the received messages: " + s.fl.path(es[0])
			}
			return q, st.lin64(ix), st.lin64(ix).plus(1), false, ""
		}
	}
	if L != nil && L.K == TSlice {
		lo, hi := linK(0), st.lin64(s.fl.ts.lenOf(L.Args[0], nil))
		if L.Args[1] != nil {
			lo = st.lin64(L.Args[1])
		}
		if L.Args[2] != nil {
			hi = st.lin64(L.Args[2])
		}
		return L.Args[0], lo, hi, false, ""
	}
	extra := int64(0)
	if b, el, k := appended(st, L); k {
		q, ix := elemAt(el)
		q0, lo, hi, em, why := s.run(st, b)
		if why != "" {
			return nil, lin{}, lin{}, false, why
		}
		if q == nil || !em && (s.fl.path(q) != s.fl.path(q0) || !linEqual(st, st.lin64(ix), hi)) {
			return nil, lin{}, lin{}, false, "an element is not the next one: " + s.fl.path(el)
		}
		if em {
			return q, st.lin64(ix), st.lin64(ix).plus(1), false, ""
		}
		return q, lo, hi.plus(1), false, ""
	}
	ll, why := s.loopList(L)
	if why != "" {
		return nil, lin{}, lin{}, false, why
	}
	for _, e := range ll.entry {
		if !emptyList(st, e) {
			return nil, lin{}, lin{}, false, "the list is not empty before the loop: " + s.fl.path(e)
		}
	}
	for _, x := range ll.steps {
		if len(x.Added) != 1 {
			return nil, lin{}, lin{}, false, fmt.Sprintf("an iteration adds %d elements", len(x.Added))
		}
		q, ix := elemAt(x.Added[0])
		if q == nil || seq != nil && s.fl.path(q) != s.fl.path(seq) {
			return nil, lin{}, lin{}, false, "an iteration adds something else: " + s.fl.path(x.Added[0])
		}
		seq = q
		h, f, off, k := s.loopIndex(x.St, ix)
		if !k || h != ll.head {
			return nil, lin{}, lin{}, false, "the elements are not taken in order: " + s.fl.path(ix)
		}
		f = f.plus(off)
		if lo.ok && !linEqual(st, lo, f) {
			return nil, lin{}, lin{}, false, "the elements are not taken in order"
		}
		lo = f
		hi = x.St.lin64(ix)
	}
	_ = extra
	return seq, lo, hi, false, ""
}

// rssPath: the receiver's list of received blocks, below its receiver parameter.
func (rc *recvCheck) rss(m *ssa.Function) string {
	it := rc.c.P.Iface("common/link", "ReceiveStatus")
	t := m.Signature.Recv().Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && it != nil {
		for i := 0; i < st.NumFields(); i++ {
			if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && types.Implements(sl.Elem(), it) {
				return st.Field(i).Name()
			}
		}
	}
	return "?"
}

// rlpOf: what t is the RLP encoding of.
func rlpOf(st *State, t *Term) *Term {
	if t == nil {
		return nil
	}
	call := t
	if t.K == TExtract && t.I == 0 {
		call = t.Args[0]
		if !st.succeeded(call) {
			return nil
		}
	}
	n := callName(call)
	if strings.HasSuffix(n, "MarshalToBytes") && len(call.Args) == 2 && st.fl.path(call.Args[0]) == "common/codec.RLP" {
		return stripBox(call.Args[1])
	}
	return nil
}

// elemIn: an element of the list described by listPath (or of a tail of it) from which t is reached.
func elemIn(st *State, t *Term, listPath string) *Term {
	var find func(t *Term, d int) *Term
	find = func(t *Term, d int) *Term {
		if t == nil || d > 12 {
			return nil
		}
		if q, _ := elemAt(t); q != nil && (t.K == TLoad || t.K == TIndex) && isListOrTail(st, q, listPath) {
			return t
		}
		for _, a := range t.Args {
			if r := find(a, d+1); r != nil {
				return r
			}
		}
		return nil
	}
	return find(t, 0)
}

func isListOrTail(st *State, q *Term, listPath string) bool {
	q = copyOf(st, q)
	for q != nil && q.K == TSlice && q.Args[2] == nil {
		q = copyOf(st, q.Args[0])
	}
	return q != nil && (st.fl.path(q) == listPath || q.K == TMem && st.fl.path(q.Args[0]) == "&"+listPath)
}

// copyOf: what a fresh copy of a list is a copy of: append(empty, x...).
func copyOf(st *State, q *Term) *Term {
	if q != nil && q.K == TAppend && emptyList(st, q.Args[0]) {
		if _, k := st.elems(q.Args[1]); !k {
			return q.Args[1]
		}
	}
	return q
}

// factElem: the element of the list that the facts of this state speak about (of the loop with the given head, if any).
func factElem(st *State, listPath string, head *Block) *Term {
	for _, k := range sortedKeys(st.facts) {
		if e := elemIn(st, st.facts[k].T, listPath); e != nil {
			if head != nil {
				_, ix := elemAt(e)
				in := false
				for t := range st.lin64(ix).c {
					if t.K == TSym && t.N.Op == OpPhi && t.N.Blk == head {
						in = true
					}
				}
				if !in {
					continue
				}
			}
			return e
		}
	}
	return nil
}

// span: the sequences of the messages of a received block: (lo, hi].
func (rc *recvCheck) span(st *State, el *Term) (lo, hi lin, list *Term, ok bool) {
	acc := rc.acc(el.T)
	fv := readFields(st, el)
	if acc["Seq"] == "" || fv[acc["Seq"]] == nil {
		return
	}
	hi = st.lin64(fv[acc["Seq"]])
	switch rc.kind {
	case "bridge":
		for k, v := range fv {
			if strings.HasSuffix(k, ".Events") && v.T != nil {
				list = v
			}
		}
		if list != nil {
			return hi.sub(st.lin64(st.fl.ts.lenOf(list, nil))), hi, list, true
		}
	case "btp2":
		for _, v := range fv {
			if v.T != nil && strings.HasSuffix(v.T.String(), "mbt.MerkleBinaryTree") {
				list = v
			}
		}
		if list != nil {
			return hi.sub(linAtom(st.fl.ts.mk(Term{K: TPure, Op: "(*" + modPath + "/common/mbt.MerkleBinaryTree).Len", Args: []*Term{list}, T: types.Typ[types.Int]}))), hi, list, true
		}
	case "eth":
		for k, v := range fv {
			if sl, isS := v.T.Underlying().(*types.Slice); isS && !strings.Contains(k, ".") {
				if _, isP := sl.Elem().Underlying().(*types.Pointer); isP {
					list = v
				}
			}
		}
		if list == nil {
			return
		}
		lp := st.fl.path(list)
		var find func(t *Term, d int) *Term
		find = func(t *Term, d int) *Term {
			if t == nil || d > 12 {
				return nil
			}
			if callName(t) == "(*math/big.Int).Int64" && strings.HasSuffix(st.fl.path(t.Args[0]), strings.TrimPrefix(lp, st.fl.path(el))+"[0].Events[0].Sequence") && t.contains(el) {
				return t
			}
			for _, a := range t.Args {
				if r := find(a, d+1); r != nil {
					return r
				}
			}
			return nil
		}
		for _, k := range sortedKeys(st.facts) {
			if t := find(st.facts[k].T, 0); t != nil {
				return st.lin64(t).plus(-1), hi, list, true
			}
		}
	}
	return lin{}, hi, list, false
}

// readFields: as deepFields, with the object's fields (and those of the objects it refers to) read here.
func readFields(st *State, t *Term) map[string]*Term {
	c := st.clone()
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		t = stripBox(t)
		if t == nil || t.T == nil || d > 1 {
			return
		}
		p, ok := t.T.Underlying().(*types.Pointer)
		if !ok {
			return
		}
		str, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < str.NumFields(); i++ {
			ft := str.Field(i).Type()
			v := c.load(st.fl.ts.mk(Term{K: TFieldAddr, I: i, Args: []*Term{t}, T: types.NewPointer(ft)}), nil, ft)
			rec(v, d+1)
		}
	}
	rec(t, 0)
	return deepFields(c, t)
}

// covers: the block has the message with this sequence; excludes: it has not.
func (rc *recvCheck) covers(st *State, el *Term, seq lin) bool {
	lo, hi, _, ok := rc.span(st, el)
	return ok && st.entails64(seq.sub(hi)) && st.entails64(lo.sub(seq).plus(1))
}

func (rc *recvCheck) excludes(st *State, el *Term, seq lin) bool {
	lo, hi, _, ok := rc.span(st, el)
	return hi.ok && st.entails64(hi.sub(seq).plus(1)) || ok && st.entails64(seq.sub(lo))
}

// searched: a loop over the whole list has ended and each element was passed over for a reason.
func (rc *recvCheck) searched(s *Sum, st *State, listPath string, skip func(st *State, el *Term) bool) string {
	heads := st.coverHeads(listPath)
	if len(heads) == 0 {
		return "not every received block was looked at"
	}
	why := ""
	for _, h := range heads {
		why = ""
		for _, b := range s.Back {
			if b.E.To != h {
				continue
			}
			el := factElem(b.St, listPath, h)
			if el == nil || !skip(b.St, el) {
				why = "a received block is passed over although it may be the one"
			}
		}
		if why == "" {
			return ""
		}
	}
	return why
}

func (rc *recvCheck) proof(m *ssa.Function) {
	c, name := rc.c, short(m.String())
	list := "p0." + rc.rss(m)
	s := c.Sum(m, rc.cfg())
	ok, n := true, 0
	bad := func(pos, msg string) { ok = false; c.Ob("proof", name, false, pos, msg) }
	for _, o := range s.Outs {
		if o.failed() {
			continue
		}
		st := o.St
		p1 := param(s, 1)
		rx := st.load(s.fl.ts.mk(Term{K: TFieldAddr, I: fieldIdx(p1.T, "RxSeq"), Args: []*Term{p1}, T: types.NewPointer(types.Typ[types.Int64])}), nil, types.Typ[types.Int64])
		next := st.lin64(rx).plus(1)
		mp := o.Rets[0]
		if nv, k := nilState(st, stripBox(mp)); k && nv {
			// nothing to prove
			why := rc.searched(s, st, list, func(st *State, el *Term) bool {
				if nv, k := nilState(st, el); k && nv {
					return true
				}
				if rc.kind == "btp2" {
					h := readFields(st, el)[rc.acc(el.T)["Height"]]
					v, k := st.eq(s.fl.path(h), "p1.Verifier.Height")
					return h != nil && k && !v
				}
				return rc.excludes(st, el, next)
			})
			if el := factElem(st, list, nil); why != "" && el != nil {
				if nv, k := nilState(st, el); k && nv {
					why = ""
				}
				_, hi, l, _ := rc.span(st, el)
				if hi.ok && st.entails64(hi.sub(next).plus(1)) {
					why = ""
				}
				if rc.kind == "eth" && l != nil && st.entails64(st.lin64(s.fl.ts.lenOf(l, nil))) {
					why = ""
				}
			}
			if why != "" {
				bad(o.Pos, "no proof is built, but "+why)
			}
			continue
		}
		n++
		it := rc.item(st, mp)
		if !rc.kindOf(st, it, "TypeMessageProof") {
			bad(o.Pos, "the item built is not marked as a message proof")
		}
		if !pathIs(st, it["StartSeqNum"], "p1.RxSeq") {
			bad(o.Pos, "the proof does not say that it starts after the destination's last received sequence: "+pathOr(s, it["StartSeqNum"]))
		}
		ls := it["LastSeqNum"]
		if ls == nil {
			bad(o.Pos, "the proof's last sequence is unknown")
			continue
		}
		if why := rc.applied(st, it, nil, ls, "p1.Verifier.Height", ""); why != "" {
			bad(o.Pos, why)
		}
		why := ""
		switch rc.kind {
		case "btp2":
			why = rc.proofTree(s, st, list, rx, ls, it["Len"])
		case "bridge":
			why = rc.proofEvents(s, st, list, rx, ls, it["Len"])
		case "eth":
			why = rc.proofReceipts(s, st, list, rx, ls, it["Len"])
		}
		if why != "" {
			bad(o.Pos, why)
		}
	}
	if n == 0 {
		bad(c.P.posOf(m), "no outcome builds a proof")
	}
	if ok {
		c.Ob("proof", name, true, c.P.posOf(m), "")
	}
}

func fieldIdx(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
	}
	return 0
}

func (rc *recvCheck) proofTree(s *Sum, st *State, list string, rx, ls, payload *Term) string {
	x := rlpOf(st, payload)
	var call *Term
	for d := 0; x != nil && d < 4; d++ {
		if x.K == TExtract && strings.HasSuffix(callName(x.Args[0]), "MerkleBinaryTree).Proof") {
			call = x.Args[0]
			break
		}
		if len(x.Args) == 0 {
			break
		}
		x = x.Args[0]
	}
	if call == nil || !st.succeeded(call) {
		return "the proof sent is not the block's Merkle proof: " + pathOr(s, payload)
	}
	el := elemIn(st, call.Args[0], list)
	if el == nil {
		return "the proof is not of a received block: " + s.fl.path(call.Args[0])
	}
	lo, _, l, ok := rc.span(st, el)
	if !ok || s.fl.path(l) != s.fl.path(call.Args[0]) {
		return "the proof is not of the received block's messages"
	}
	h := readFields(st, el)[rc.acc(el.T)["Height"]]
	if h == nil {
		return "the proof is not of the block at the destination's height"
	}
	if v, k := st.eq(s.fl.path(h), "p1.Verifier.Height"); !k || !v {
		return "the proof is not of the block at the destination's height"
	}
	if !linEqual(st, st.lin64(call.Args[1]), st.lin64(rx).sub(lo).plus(1)) {
		return "the proof does not start right after the destination's last received sequence: from " + s.fl.path(call.Args[1])
	}
	if !linEqual(st, st.lin64(call.Args[2]), st.lin64(ls).sub(lo)) {
		return "the last sequence claimed is not that of the last message proven: " + s.fl.path(ls) + " for " + s.fl.path(call.Args[2])
	}
	return ""
}

func (rc *recvCheck) proofEvents(s *Sum, st *State, list string, rx, ls, payload *Term) string {
	rm := rlpOf(st, payload)
	if rm == nil {
		return "the proof's bytes are not an RLP encoding: " + pathOr(s, payload)
	}
	rs, k := st.elems(deepFields(st, rm)["Receipts"])
	if !k || len(rs) != 1 {
		return "the proof does not hold exactly one receipt"
	}
	r := rlpOf(st, rs[0])
	if r == nil {
		return "the receipt is not an RLP encoding"
	}
	rf := deepFields(st, r)
	ev := rlpOf(st, rf["Events"])
	if ev == nil {
		return "the receipt's events are not an RLP encoding: " + pathOr(s, rf["Events"])
	}
	el := factElem(st, list, nil)
	if el == nil {
		return "the proof is not of a received block"
	}
	if !rc.covers(st, el, st.lin64(rx).plus(1)) {
		return "the proof is of a block that may not have the destination's next message"
	}
	base, _, l, _ := rc.span(st, el)
	ep := s.fl.path(el)
	if !pathIs(st, rf["Height"], ep+"."+rc.acc(el.T)["Height"], strings.TrimSuffix(s.fl.path(l), ".Events")+".Height") {
		return "the receipt's height is not the block's: " + pathOr(s, rf["Height"])
	}
	if !pathIs(st, rf["Index"], strings.TrimSuffix(s.fl.path(l), ".Events")+".Index") {
		return "the receipt's index is not the block's: " + pathOr(s, rf["Index"])
	}
	q, lo, hi, empty, why := s.run(st, ev)
	if why != "" {
		return why
	}
	if empty {
		if !linEqual(st, st.lin64(ls), st.lin64(rx)) {
			return "the last sequence claimed is " + s.fl.path(ls) + " for a proof without messages"
		}
		return ""
	}
	if s.fl.path(q) != s.fl.path(l) {
		return "the messages are not the block's: " + s.fl.path(q)
	}
	if !linEqual(st, lo, st.lin64(rx).sub(base)) {
		return "the first message is not the one after the destination's last received sequence"
	}
	cl := st.lin64(ls)
	for t, k := range cl.c {
		if isLenOfF(t, func(x *Term) bool { return x == ev }) { // counted by the list's length
			cl = cl.add(linAtom(t), new(big.Int).Neg(k)).add(hi.sub(lo), k)
			break
		}
	}
	if !linEqual(st, s.lockstep(st, hi), s.lockstep(st, cl.sub(base))) {
		return "the last sequence claimed is not that of the last message: " + s.fl.path(ls)
	}
	return ""
}

// proofReceipts: receipts of the block in order, each with its events in order without those already
// received; the sequence claimed follows the last event added.
func (rc *recvCheck) proofReceipts(s *Sum, st *State, list string, rx, ls, payload *Term) string {
	rm := rlpOf(st, payload)
	if rm == nil {
		return "the proof's bytes are not an RLP encoding: " + pathOr(s, payload)
	}
	el := factElem(st, list, nil)
	if el == nil || !rc.covers(st, el, st.lin64(rx).plus(1)) {
		return "the proof is of a block that may not have the destination's next message"
	}
	_, _, blk, _ := rc.span(st, el)
	R := deepFields(st, rm)["Receipts"]
	// X: the list of receipts encoded
	var X *Term
	var enc *Block
	if !emptyList(st, R) {
		ll, why := s.loopList(R)
		if why != "" {
			return why
		}
		enc = ll.head
		for _, e := range ll.entry {
			if !emptyList(st, e) {
				return "the receipts do not start empty"
			}
		}
		for _, x := range ll.steps {
			xp := ""
			if len(x.Added) == 0 {
				okk := noEvents(x.St, ".Events")
				if !okk {
					return "a receipt with messages may be left out"
				}
				continue
			}
			r := rlpOf(x.St, x.Added[0])
			if len(x.Added) != 1 || r == nil {
				return "a receipt is not encoded in RLP"
			}
			rf := deepFields(x.St, r)
			for _, f := range []string{"Index", "Height", "Events"} {
				v := rf[f]
				if f == "Events" {
					if v == nil || v.K != TExtract || !strings.HasSuffix(callName(v.Args[0]), "ethereum/rlp.EncodeToBytes") && !strings.HasSuffix(callName(v.Args[0]), "go-ethereum/rlp.EncodeToBytes") || !x.St.succeeded(v.Args[0]) {
						return "a receipt's events are not encoded in RLP: " + pathOr(s, v)
					}
					v = stripBox(v.Args[0].Args[0])
				}
				if v == nil {
					return "a receipt's " + f + " is not set"
				}
				p := s.fl.path(v)
				if !strings.HasSuffix(p, "."+f) {
					return "a receipt's " + f + " is " + p
				}
				p = strings.TrimSuffix(p, "."+f)
				if xp != "" && xp != p {
					return "a receipt mixes parts of different receipts"
				}
				xp = p
				e := v
				for e != nil && e.K != TIndexAddr && e.K != TIndex && len(e.Args) > 0 {
					e = e.Args[0]
				}
				if e == nil || e.K != TIndexAddr && e.K != TIndex || X != nil && e.Args[0] != X {
					return "a receipt encoded is not one of those collected: " + p
				}
				if X == nil && !st.entails64(st.lin64(s.fl.ts.lenOf(e.Args[0], nil)).sub(st.lin64(e.Args[1]))) {
					return "not every receipt collected is encoded"
				}
				X = e.Args[0]
				if h, first, off, k := s.loopIndex(x.St, e.Args[1]); !k || h != enc || !linEqual(x.St, first.plus(off), linK(0)) {
					return "the receipts are not encoded in order"
				}
			}
		}
	}
	if X == nil {
		return "no receipt is encoded"
	}
	// the list collected
	base, last := X, (*Term)(nil)
	if b, e, k := appended(st, X); k {
		base, last = b, e
	}
	ol, why := s.loopList(base)
	if why != "" {
		return why
	}
	for _, e := range ol.entry {
		if !emptyList(st, e) {
			return "the receipts collected do not start empty"
		}
	}
	var outer, inner *Term // the claimed sequence at the loop heads
	var innerHead *Block
	withRx := false
	claim := func(st *State, v *Term) *Term {
		l := st.lin64(v)
		if withRx {
			l = l.sub(st.lin64(rx))
		}
		for t, k := range l.c {
			if len(l.c) == 1 && k.Cmp(bigOne) == 0 && l.k.Sign() == 0 {
				return t
			}
		}
		return nil
	}
	if k := st.lin64(ls).c[rx]; k != nil && k.Cmp(bigOne) == 0 && len(st.lin64(ls).c) == 2 {
		withRx = true
	}
	evtSeq := func(st *State, v, evt *Term) bool {
		if callName(v) == "(*math/big.Int).Int64" {
			return st.fl.path(v.Args[0]) == st.fl.path(evt)+".Sequence" && v.contains(evt)
		}
		return false
	}
	// events of one receipt: the list L of an object built for elem
	events := func(st *State, L, elem *Term) string {
		if emptyList(st, L) {
			return ""
		}
		if b, e, k := appended(st, L); k {
			if q, _ := elemAt(e); q == nil || s.fl.path(q) != s.fl.path(elem)+".Events" {
				return "a message added is not the receipt's: " + s.fl.path(e)
			}
			L = b
			if emptyList(st, L) {
				return ""
			}
		}
		ll, why := s.loopList(L)
		if why != "" {
			return why
		}
		innerHead = ll.head
		for _, e := range ll.entry {
			if !emptyList(st, e) {
				return "a receipt's messages do not start empty: " + s.fl.path(e)
			}
		}
		for _, x := range ll.steps {
			evs := s.fl.path(elem) + ".Events"
			if len(x.Added) == 0 {
				e := factElem(x.St, evs, ll.head)
				sk := false
				for _, f := range x.St.facts {
					// RxSeq < seq is false
					if f.T.K == TBin && f.T.Op == "<" && !f.Val && e != nil && evtSeq(x.St, f.T.Args[1], e) && linEqual(x.St, x.St.lin64(f.T.Args[0]), x.St.lin64(rx)) {
						sk = true
					}
					if f.T.K == TBin && f.T.Op == "<" && f.Val && e != nil && evtSeq(x.St, f.T.Args[0], e) && x.St.entails64(x.St.lin64(f.T.Args[1]).sub(x.St.lin64(rx)).plus(-1)) {
						sk = true
					}
				}
				if !sk {
					return "a message may be left out although the destination has not received it"
				}
				continue
			}
			q, ix := elemAt(x.Added[0])
			if len(x.Added) != 1 || q == nil || s.fl.path(q) != evs {
				return "a message added is not the receipt's: " + s.fl.path(x.Added[0])
			}
			if h, first, off, k := s.loopIndex(x.St, ix); !k || h != ll.head || !linEqual(x.St, first.plus(off), linK(0)) {
				return "a receipt's messages are not taken in order"
			}
		}
		return ""
	}
	receipt := func(st *State, obj *Term, whole bool) string {
		fv := deepFields(st, obj)
		var elem *Term
		for _, f := range []string{"Index", "Height"} {
			v := stripConv(fv[f])
			if v == nil {
				return "a receipt's " + f + " is not set"
			}
			p := s.fl.path(v)
			e := elemIn(st, v, s.fl.path(blk))
			if e == nil || p != s.fl.path(e)+"."+f || elem != nil && e != elem {
				return "a receipt's " + f + " is not the received receipt's: " + p
			}
			elem = e
		}
		_, ix := elemAt(elem)
		if h, first, off, k := s.loopIndex(st, ix); !k || h != ol.head || !linEqual(st, first.plus(off), linK(0)) {
			return "the receipts are not taken in order: " + s.fl.path(ix)
		}
		if why := events(st, fv["Events"], elem); why != "" {
			return why
		}
		if whole && len(st.coverHeads(s.fl.path(elem)+".Events")) == 0 {
			return "not every message of a receipt is looked at"
		}
		return ""
	}
	for _, x := range ol.steps {
		switch len(x.Added) {
		case 1:
			if why := receipt(x.St, x.Added[0], true); why != "" {
				return why
			}
		case 0:
			okk := noEvents(x.St, ".Events]")
			if !okk {
				return "a receipt with messages may be left out"
			}
		default:
			return "a receipt is added more than once"
		}
	}
	if last != nil {
		if why := receipt(st, last, false); why != "" {
			return why
		}
	} else if len(st.coverHeads(s.fl.path(blk))) == 0 {
		return "not every receipt of the block is looked at"
	}
	// the claimed sequence follows the events
	cl := claim(st, ls)
	if cl == nil {
		return "the last sequence claimed does not follow the messages added: " + s.fl.path(ls)
	}
	track := func(p *Term) (ent []*Term, back []struct {
		St *State
		V  *Term
	}) {
		seen := map[*Term]bool{}
		for _, x := range s.Ent {
			if x.E.To == p.N.Blk {
				v := x.St.val(p.N.Args[x.E.Idx])
				if !seen[v] {
					seen[v] = true
					ent = append(ent, v)
				}
			}
		}
		for _, x := range s.Back {
			if x.E.To == p.N.Blk {
				back = append(back, struct {
					St *State
					V  *Term
				}{x.St, x.St.val(p.N.Args[x.E.Idx])})
			}
		}
		return
	}
	isPhi := func(t *Term, h *Block) bool { return t != nil && t.K == TSym && t.N.Op == OpPhi && t.N.Blk == h }
	if innerHead == nil {
		return "no message is ever added"
	}
	switch {
	case last == nil && isPhi(cl, ol.head):
		outer = cl
	case last != nil && isPhi(cl, innerHead):
		inner = cl
		L := deepFields(st, last)["Events"]
		if _, _, k := appended(st, L); k {
			return "the last sequence claimed misses the last message"
		}
	case last != nil:
		_, e, k := appended(st, deepFields(st, last)["Events"])
		if !k || !evtSeq(st, cl, e) {
			return "the last sequence claimed is not that of the last message: " + s.fl.path(ls)
		}
		return ""
	default:
		return "the last sequence claimed does not follow the messages added: " + s.fl.path(ls)
	}
	if inner != nil {
		ent, _ := track(inner)
		for _, v := range ent {
			if isPhi(v, ol.head) {
				outer = v
			} else {
				return "the sequence claimed is reset for each receipt"
			}
		}
	}
	ent, back := track(outer)
	for _, v := range ent {
		if withRx {
			if n, k := v.intVal(); !k || n != 0 {
				return "the sequence claimed does not start at the destination's last received one"
			}
		} else if !linEqual(st, st.lin64(v), st.lin64(rx)) {
			return "the sequence claimed does not start at the destination's last received one: " + s.fl.path(v)
		}
	}
	for _, b := range back {
		if !isPhi(b.V, innerHead) {
			return "the sequence claimed does not follow the messages added: " + s.fl.path(b.V)
		}
		inner = b.V
	}
	if inner == nil {
		return "the sequence claimed never changes"
	}
	il, why := s.loopListAt(innerHead, ".Events")
	if why != "" {
		return why
	}
	for _, x := range il.steps {
		v := x.St.val(inner.N.Args[x.E.Idx])
		switch {
		case len(x.Added) == 0 && v == inner:
		case len(x.Added) == 1 && (!withRx && evtSeq(x.St, v, x.Added[0]) || linSame(x.St.lin64(v), linAtom(inner).plus(1))):
		default:
			return "the sequence claimed does not follow the messages added: " + s.fl.path(v)
		}
	}
	return ""
}

// loopListAt: the list kept in a memory cell whose description ends in suffix, at a loop head.
func (s *Sum) loopListAt(h *Block, suffix string) (*loopList, string) {
	for _, b := range s.Back {
		if b.E.To != h {
			continue
		}
		for _, k := range sortedKeys(b.St.mem) {
			m := b.St.mem[k]
			if strings.HasSuffix(s.fl.path(m.addr), suffix) && m.val.K == TAppend && m.val.Args[0].K == TMem && m.val.Args[0].I == h.ID {
				return s.loopList(m.val.Args[0])
			}
		}
	}
	return nil, "cannot tell which messages are added"
}

// update: one block update per received block kept, in order, each for that block.
func (rc *recvCheck) update(m *ssa.Function) {
	c, name := rc.c, short(m.String())
	list := "p0." + rc.rss(m)
	// how the list is shortened before is C21's matter
	cfg := rc.cfg()
	op := cfg.Opaque
	cfg.Opaque = func(f *ssa.Function) bool { return op(f) || f != m && f.Signature.Results().Len() == 0 && setsField(f, rc.rss(m)) }
	s := c.Sum(m, cfg)
	ok, n := true, 0
	bad := func(pos, msg string) { ok = false; c.Ob("update", name, false, pos, msg) }
	for _, o := range s.Outs {
		if o.failed() {
			continue
		}
		st, L := o.St, stripBox(o.Rets[0])
		if emptyList(st, L) {
			continue
		}
		ll, size, why := s.filled(L)
		if why != "" {
			bad(o.Pos, why)
			continue
		}
		for _, e := range ll.entry {
			if !emptyList(st, e) {
				bad(o.Pos, "the list does not start empty: "+s.fl.path(e))
			}
		}
		rel := lin{}
		for _, x := range ll.steps {
			if len(x.Added) != 1 {
				bad(o.Pos, fmt.Sprintf("an iteration adds %d block updates", len(x.Added)))
				continue
			}
			n++
			r, why := rc.updateItem(s, x, ll.head, list)
			if why != "" {
				bad(o.Pos, why)
			}
			rel = r
		}
		// complete, or cut by the limit
		cut := false
		for _, f := range st.facts {
			if f.T.contains(param(s, 2)) {
				cut = true
			}
		}
		cur := st.lookupPath(list)
		if size != nil {
			// made at its full size: a hole for each block not reached
			cut = false
			if cur == nil || !linEqual(st, st.lin64(size), st.lin64(s.fl.ts.lenOf(cur, nil))) {
				bad(o.Pos, "the number of block updates is not the number of received blocks: "+s.fl.path(size))
			}
		}
		if !cut && (cur == nil || !rel.ok || !st.entails64(st.lin64(s.fl.ts.lenOf(cur, nil)).sub(rel))) {
			bad(o.Pos, "block updates end before the last received block although the size limit is not reached")
		}
	}
	if n == 0 {
		bad(c.P.posOf(m), "no block update is ever built")
	}
	if ok {
		c.Ob("update", name, true, c.P.posOf(m), "")
	}
}

// setsField: the function stores to a field of that name.
func setsField(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if u, _ := structOf(fa.X.Type()); u != nil && u.Field(fa.Field).Name() == name {
						return true
					}
				}
			}
		}
	}
	return false
}

func (rc *recvCheck) updateItem(s *Sum, x listStep, head *Block, list string) (lin, string) {
	st := x.St
	it := rc.item(st, x.Added[0])
	if !rc.kindOf(st, it, "TypeBlockUpdate") {
		return lin{}, "the item built is not marked as a block update"
	}
	tgt := it["TargetHeight"]
	if tgt == nil {
		return lin{}, "the block update's target height is unknown"
	}
	if !pathIs(st, it["SrcHeight"], "p1.Verifier.Height") {
		return lin{}, "the block update does not start at the destination's height: " + pathOr(s, it["SrcHeight"])
	}
	if !st.same(it["ProofHeight"], tgt) {
		return lin{}, "the block update proves another height than its target: " + pathOr(s, it["ProofHeight"])
	}
	if why := rc.applied(st, it, tgt, nil, "", "p1.RxSeq"); why != "" {
		return lin{}, why
	}
	h := tgt
	if rc.kind == "btp2" {
		pl := it["Len"]
		if pl == nil || !strings.HasSuffix(callName(pl), "MustMarshalToBytes") && rlpOf(st, pl) == nil {
			return lin{}, "the block update's bytes are not an RLP encoding: " + pathOr(s, pl)
		}
		obj := rlpOf(st, pl)
		if obj == nil {
			obj = stripBox(pl.Args[1])
		}
		fv := deepFields(st, obj)
		hd, w1 := rc.fetched(s, st, fv["BTPBlockHeader"], "GetBTPHeader")
		_, w2 := rc.fetched(s, st, fv["BTPBlockProof"], "GetBTPProof")
		if w1 != "" {
			return lin{}, "the block update's header: " + w1
		}
		if w2 != "" {
			return lin{}, "the block update's proof: " + w2
		}
		p2, _ := rc.fetched(s, st, fv["BTPBlockProof"], "GetBTPProof")
		if s.fl.path(hd) != s.fl.path(p2) {
			return lin{}, "header and proof are of different heights: " + s.fl.path(hd) + ", " + s.fl.path(p2)
		}
		if s.fl.path(stripConv(tgt)) != s.fl.path(stripConv(hd)) {
			if why := rc.decoded(s, st, tgt, "MainHeight", fv["BTPBlockHeader"]); why != "" {
				return lin{}, "the target height is not the header's: " + why
			}
		}
		h = hd
	}
	h = stripConv(h)
	el := elemIn(st, h, list)
	if el == nil || !pathIs(st, h, s.fl.path(el)+"."+rc.acc(el.T)["Height"]) {
		return lin{}, "the block update is not for a received block: " + s.fl.path(h)
	}
	q, ix := elemAt(el)
	lo := linK(0)
	for q != nil && q.K == TSlice {
		if q.Args[1] != nil {
			lo = lo.sub(st.lin64(q.Args[1]))
		}
		q = q.Args[0]
	}
	for d, cur := 0, st.lookupPath(list); cur != nil && cur.K == TSlice && d < 5; d++ {
		if cur.Args[1] != nil {
			lo = lo.add(st.lin64(cur.Args[1]), bigOne)
		}
		cur = cur.Args[0]
	}
	r := st.lin64(ix).sub(lo)
	for t, k := range r.c {
		if t.K == TSym && t.N.Op == OpPhi && t.N.Blk == head && k.Cmp(bigOne) == 0 && len(r.c) == 1 {
			first, step, ok := s.fl.induction(t)
			if v, k := first.intVal(); ok && k && step == 1 && big.NewInt(v).Add(big.NewInt(v), r.k).Sign() == 0 {
				return r, ""
			}
		}
	}
	return lin{}, "the received blocks are not taken in order from the first one kept: " + s.fl.path(ix)
}

// lookupPath: the value of the cell described by path, if written here.
func (st *State) lookupPath(path string) *Term {
	for _, k := range sortedKeys(st.mem) {
		m := st.mem[k]
		if st.fl.path(m.addr) == "&"+path {
			return m.val
		}
	}
	return nil
}

// fetched: t is what the source chain's client answered (decoded) for a height; returns the height.
func (rc *recvCheck) fetched(s *Sum, st *State, t *Term, meth string) (*Term, string) {
	if t == nil {
		return nil, "not set"
	}
	x := t
	if x.K == TExtract && x.I == 0 && strings.HasSuffix(callName(x.Args[0]), "Encoding).DecodeString") {
		if !st.succeeded(x.Args[0]) {
			return nil, "it may not have been decoded"
		}
		if p := s.fl.path(x.Args[0].Args[0]); p != "encoding/base64.StdEncoding" {
			return nil, "decoded with " + p
		}
		x = x.Args[0].Args[1]
	} else {
		return nil, "not decoded from the source's answer: " + s.fl.path(t)
	}
	if x.K != TExtract || x.I != 0 || !strings.HasSuffix(callName(x.Args[0]), "Client)."+meth) {
		return nil, "not the source's answer to " + meth + ": " + s.fl.path(x)
	}
	if !st.succeeded(x.Args[0]) {
		return nil, "the source may not have answered"
	}
	return rc.param(s, st, x.Args[0])
}

// param: the height a request to the source asks for.
func (rc *recvCheck) param(s *Sum, st *State, call *Term) (*Term, string) {
	if len(call.Args) < 2 {
		return nil, "unknown request"
	}
	fv := deepFields(st, call.Args[1])
	if nid := fmtInt(fv["NetworkId"]); nid == nil || !strings.HasSuffix(s.fl.path(nid), ".nid") {
		return nil, "asked of another network: " + pathOr(s, fv["NetworkId"])
	}
	h := fmtInt(fv["Height"])
	if h == nil {
		return nil, "asked for an unknown height: " + pathOr(s, fv["Height"])
	}
	return h, ""
}

// fmtInt: the integer t is the hexadecimal text of.
func fmtInt(t *Term) *Term {
	t = stripConv(t)
	n := callName(t)
	if strings.HasSuffix(n, "/intconv.FormatInt") || strings.HasSuffix(n, "/client.NewHexInt") {
		return stripConv(t.Args[0])
	}
	return nil
}

// decoded: t is the named field of an object decoded in RLP from src.
func (rc *recvCheck) decoded(s *Sum, st *State, t *Term, field string, src *Term) string {
	t = stripConv(t)
	if t == nil || !strings.HasSuffix(s.fl.path(t), "."+field) {
		return pathOr(s, t)
	}
	obj := derefOf(t)
	for _, k := range sortedKeys(st.facts) {
		for _, c := range callsIn(st.facts[k].T) {
			if strings.HasSuffix(callName(c), "UnmarshalFromBytes") && len(c.Args) == 3 && stripBox(c.Args[2]) == obj && c.Args[1] == src && st.succeeded(c) && s.fl.path(c.Args[0]) == "common/codec.RLP" {
				return ""
			}
		}
	}
	return s.fl.path(t) + " of something else"
}

func callsIn(t *Term) (out []*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.K == TCall || t.K == TPure {
			out = append(out, t)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return
}

// height: the height given for a sequence is that of a received block that has the message.
func (rc *recvCheck) height(m *ssa.Function) {
	c, name := rc.c, short(m.String())
	list := "p0." + rc.rss(m)
	s := c.Sum(m, rc.cfg())
	ok, n := true, 0
	bad := func(pos, msg string) { ok = false; c.Ob("height", name, false, pos, msg) }
	for _, o := range s.Outs {
		st, r := o.St, o.Rets[0]
		seq := st.lin64(param(s, 1))
		if v, k := r.intVal(); k && v == 0 {
			if el := factElem(st, list, nil); el != nil {
				if nv, k := nilState(st, el); k && nv {
					continue // its fields were read before
				}
			}
			if why := rc.searched(s, st, list, func(st *State, el *Term) bool { return rc.excludes(st, el, seq) }); why != "" {
				bad(o.Pos, "no height is given, but "+why)
			}
			continue
		}
		el := elemIn(st, r, list)
		if el == nil {
			if x := derefOf(r); x != nil {
				if nv, k := nilState(st, x); k && nv {
					continue // nil dereference: does not return
				}
			}
			bad(o.Pos, "the height given is not that of a received block: "+s.fl.path(r))
			continue
		}
		n++
		if !pathIs(st, r, s.fl.path(el)+"."+rc.acc(el.T)["Height"]) {
			bad(o.Pos, "what is given is not the block's height: "+s.fl.path(r))
		}
		if !rc.covers(st, el, seq) {
			bad(o.Pos, "the height is that of a block that may not have the message asked for")
		}
	}
	if n == 0 {
		bad(c.P.posOf(m), "no height is ever given")
	}
	if ok {
		c.Ob("height", name, true, c.P.posOf(m), "")
	}
}

func derefOf(t *Term) *Term {
	for t != nil && (t.K == TLoad || t.K == TFieldAddr || t.K == TConv) {
		t = t.Args[0]
	}
	return t
}

// noEvents: a list of messages whose description ends in suffix is known to be empty.
func noEvents(st *State, suffix string) bool {
	for _, k := range sortedKeys(st.facts) {
		f := st.facts[k]
		if f.T.K != TBin {
			continue
		}
		for _, a := range f.T.Args {
			a = stripConv(a)
			if a.K == TLen && strings.HasSuffix(st.fl.path(a.Args[0]), suffix) && st.entails64(st.lin64(a)) {
				return true
			}
		}
	}
	return false
}

// assumed: the outcome's state, given that it is a success.
func (o Outcome) assumed() *State {
	if len(o.Rets) < 2 {
		return o.St
	}
	e := o.Rets[len(o.Rets)-1]
	if e == nil || e.isNil() || !isErrType(e.T) {
		return o.St
	}
	st := o.St.clone()
	st.assume(st.fl.ts.bin(token.EQL, e, st.fl.ts.nilC(e.T), types.Typ[types.Bool]), true)
	return st
}
