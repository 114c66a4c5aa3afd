package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "Merkle proof soundness",
		"path-sensitive value-flow on the Merkle code: every producer pairs a sibling with the side it lies on, every fold combines the running hash and the sibling in that order, every success of a verifier is dominated by the equality/consistency tests that justify it, and inner hashes cover left then right",
		checkMerkle)
}

const sha3Fn = modPath + "/common/crypto.SHA3Sum256"

func opaqueSha(f *ssa.Function) bool {
	return defaultOpaque(f) || f.String() == sha3Fn
}

func isDynHash(n *Node) bool {
	return n.isCall() && n.Callee == "" && n.Dyn != nil && n.Builtin == "" && isByteSlice(n.Typ)
}

// hashOperands: what a hash call combines, in order.
func hashOperands(r CallRec) []*Term {
	if len(r.Args) == 0 {
		return nil
	}
	a := r.Args[len(r.Args)-1]
	if isByteSlice(a.T) {
		var o []*Term
		for _, g := range r.St.content(a) {
			if g.Kind != 'w' {
				return nil
			}
			t := g.T
			if t.K == TSlice && t.Args[1] == nil && t.Args[2] != nil { // a hash cut to the size of a hash
				if n, k := t.Args[2].intVal(); k && n == 32 {
					t = t.Args[0]
				}
			}
			o = append(o, t)
		}
		return o
	}
	es, ok := r.St.elems(a)
	if !ok {
		return nil
	}
	return es
}

func checkMerkle(c *Ctx) {
	left, _ := c.constVal("common/mta", "Left")
	right, _ := c.constVal("common/mta", "Right")
	dirR, _ := c.constVal("common/mbt", "DirRight")
	dirL, _ := c.constVal("common/mbt", "DirLeft")
	isSha := func(n *Node) bool { return n.isCall() && n.Callee == sha3Fn }

	// --- folds
	c.fold(c.P.Method("common/mta", "Accumulator", "Verify"), "common/mta.Accumulator.Verify", "p1", "HashValue", "p2", isSha, opaqueSha, sideByInt("Direction", left, right))
	c.fold(c.P.Method("common/mbt", "MerkleBinaryTreePath", "Root"), "common/mbt.MerkleBinaryTreePath.Root", "p0.Path", "Value", "hash(p0.Content)", isDynHash, nil, sideByBool("Right", false))
	c.fold(c.P.Func("common/mbt", "RootByMerkleNode"), "common/mbt.RootByMerkleNode", "p2", "Value", "p1", isDynHash, nil, sideByInt("Dir", dirL, dirR))
	c.Need("fold-order", 3)

	// --- verification gate of the accumulator
	c.verifyGate()
	// --- producers
	c.mtaWitness(left, right)
	c.mtaAdd(left)
	c.hashesToWitness(left, right)
	c.mbtPath()
	c.mbtInner()
	c.mbtProofRoot()
	c.mbtGrow()
	c.mbtEnsure()
	c.mbtMake()
	c.mptLinks()
	c.hashFuncs()
	c.Need("grow", 3)
	c.Need("make", 3)
	c.Need("gate", 3)
	c.Need("sibling-side", 5)
	c.Need("inner-order", 3)
	c.Need("hash-function", 3)
}

// sideByInt: the sibling lies on the left when field == l.
func sideByInt(field string, l, r int64) func(st *State, elem string) (bool, bool) {
	return func(st *State, elem string) (bool, bool) {
		for _, k := range []int64{l, r} {
			if v, ok := st.eq(elem+"."+field, fmt.Sprint(k)); ok {
				if v {
					return k == l, true
				}
				return k != l, true
			}
		}
		return false, false
	}
}

func sideByBool(field string, leftVal bool) func(st *State, elem string) (bool, bool) {
	return func(st *State, elem string) (bool, bool) {
		if v, ok := st.truth(elem + "." + field); ok {
			return v == leftVal, true
		}
		return false, false
	}
}

func (c *Ctx) fold(fn *ssa.Function, name, seq, valF, init string, isHash func(*Node) bool, opq func(*ssa.Function) bool, side func(*State, string) (bool, bool)) {
	if fn == nil {
		c.Missing("fold-order", name)
		return
	}
	s := c.Sum(fn, SumCfg{Opaque: opq, Track: func(n *Node) string {
		if isHash(n) {
			return "hash"
		}
		return ""
	}})
	ok := true
	bad := func(pos, m string) { ok = false; c.Ob("fold-order", name, false, pos, m) }
	accs := map[*Node]bool{}
	seen := 0
	for _, r := range s.Calls(isHash) {
		if len(r.N.Blk.loops) == 0 {
			continue
		}
		seen++
		c.sites++
		ops := hashOperands(r)
		pos := s.g.pos(r.N)
		if len(ops) != 2 {
			bad(pos, "the step does not hash exactly the running hash and one sibling: "+strings.Join(r.St.paths(ops), ","))
			continue
		}
		sib := -1
		for i, o := range ops {
			p := s.fl.path(o)
			if strings.HasPrefix(p, seq+"[") && strings.HasSuffix(p, "]."+valF) {
				sib = i
			}
		}
		if sib < 0 {
			bad(pos, "the step does not use the sibling's hash")
			continue
		}
		acc := ops[1-sib]
		if !(acc.K == TSym && acc.N.Op == OpPhi && acc.N.Blk.loopHead) {
			bad(pos, "the step does not use the running hash: "+s.fl.path(acc))
			continue
		}
		accs[acc.N] = true
		elem := strings.TrimSuffix(s.fl.path(ops[sib]), "."+valF)
		l, k := side(r.St, elem)
		if !k {
			bad(pos, "the sibling's side is not consulted")
		} else if l != (sib == 0) {
			bad(pos, "the sibling is hashed on the wrong side")
		}
	}
	if seen == 0 {
		bad(c.P.posOf(fn), "no hashing step over the witness found")
	}
	if len(accs) > 1 {
		bad(c.P.posOf(fn), "more than one running hash")
	}
	for a := range accs {
		for _, bk := range s.Back {
			if bk.E.To != a.Blk {
				continue
			}
			v := bk.St.val(a.Args[bk.E.Idx])
			good := false
			for _, ev := range bk.St.must {
				if ev.Tag == "hash" && ev.Args[0] == v {
					good = true
				}
			}
			if !good {
				bad(s.posOfBlk(bk.E.From), "a step can leave the running hash unchanged or replace it by something else: "+s.fl.path(v))
			}
		}
		for i, e := range a.Blk.Preds {
			if e.From.loops[a.Blk] || i >= len(s.fl.phiIn[a]) {
				continue
			}
			t := s.fl.phiIn[a][e.Idx]
			if t == nil {
				continue
			}
			p := s.fl.path(t)
			if init == "hash(p0.Content)" {
				good := false
				for _, r := range s.Calls(isHash) {
					if len(r.N.Blk.loops) == 0 {
						ops := hashOperands(r)
						if len(ops) == 1 && s.fl.path(ops[0]) == "p0.Content" && t.K == TCall && t.N == r.N {
							good = true
						}
					}
				}
				if !good {
					bad(c.P.posOf(fn), "folding does not start from the hash of the content")
				}
			} else if p != init {
				bad(c.P.posOf(fn), "folding starts from "+p+" instead of the leaf")
			}
		}
		for _, o := range s.Outs {
			if isByteSlice(fn.Signature.Results().At(0).Type()) {
				if !(o.Rets[0].K == TSym && o.Rets[0].N == a) {
					bad(o.Pos, "returns something other than the folded hash")
				}
			}
			if n, k := o.errState(); !k || n {
				if !o.St.coveredSeq(seq) {
					bad(o.Pos, "not every sibling is folded in")
				}
			}
		}
	}
	if ok {
		c.Ob("fold-order", name, true, c.P.posOf(fn), "")
	}
}

func equalTrue(st *State, visit func(a, b *Term) bool) bool {
	for _, f := range st.facts {
		t := f.T
		if t.K == TPure || t.K == TCall {
			nm := t.Op
			if t.K == TCall && t.N != nil {
				nm = t.N.Callee
			}
			if nm == "bytes.Equal" && f.Val && len(t.Args) == 2 {
				if visit(t.Args[0], t.Args[1]) || visit(t.Args[1], t.Args[0]) {
					return true
				}
			}
		}
		if t.K == TBin && t.Op == "==" && f.Val {
			for i := 0; i < 2; i++ {
				x := t.Args[i]
				if v, k := t.Args[1-i].intVal(); k && v == 0 && (x.K == TPure && x.Op == "bytes.Compare" || x.K == TCall && x.N != nil && x.N.Callee == "bytes.Compare") && len(x.Args) == 2 {
					if visit(x.Args[0], x.Args[1]) || visit(x.Args[1], x.Args[0]) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *Ctx) verifyGate() {
	fn := c.P.Method("common/mta", "Accumulator", "Verify")
	if fn == nil {
		return
	}
	s := c.Sum(fn, SumCfg{Opaque: opaqueSha})
	ok := true
	for _, o := range s.Outs {
		if n, k := o.errState(); k && !n {
			continue
		}
		good := equalTrue(o.St, func(a, b *Term) bool {
			if a.K != TCall || a.N == nil || a.N.Callee != "("+mtap+".Node).Hash" {
				return false
			}
			rp := a.Args[0]
			if !s.fl.elemOfSeq(rp, "p0.roots") {
				return false
			}
			// the root's position equals the number of siblings
			ix := s.fl.indexOf(rp)
			posOK := ix != nil && (s.fl.path(ix) == "len(p1)")
			if ix != nil && !posOK {
				if ph, off, k := phiPlus(ix); k {
					if first, step, k := s.fl.induction(ph); k && step == 1 {
						if fv, k := first.intVal(); k && fv+off == 0 {
							posOK = true
						}
					}
				}
			}
			return posOK && b.K == TSym && b.N.Op == OpPhi && b.N.Blk.loopHead
		})
		if !good {
			ok = false
			c.Ob("gate", "common/mta.Accumulator.Verify", false, o.Pos, "accepts a witness without comparing the folded hash with the root at its height")
		}
	}
	if ok {
		c.Ob("gate", "common/mta.Accumulator.Verify", true, c.P.posOf(fn), "")
	}
}

// indexOf: the index term of an element value.
func (f *Flow) indexOf(t *Term) *Term {
	for t != nil && (t.K == TIface || t.K == TDeref || t.K == TLoad) {
		t = t.Args[0]
	}
	if t != nil && (t.K == TIndexAddr || t.K == TIndex) {
		return t.Args[1]
	}
	return nil
}

// appended: the single element appended to base in t (append(base, x)).
func appended(st *State, t *Term) (base, elem *Term, ok bool) {
	if t == nil || t.K != TAppend {
		return nil, nil, false
	}
	es, k := st.elems(t.Args[1])
	if !k || len(es) != 1 {
		return nil, nil, false
	}
	return t.Args[0], es[0], true
}

// structParts: field values of a struct term by name.
func (s *State) structParts(t *Term) map[string]*Term {
	out := map[string]*Term{}
	st, ok := t.T.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		out[st.Field(i).Name()] = s.fl.ts.field(t, i, st.Field(i).Type())
	}
	return out
}

func (c *Ctx) mtaWitness(left, right int64) {
	fn := c.P.Method("common/mta", "branchNode", "WitnessFor")
	name := "common/mta.branchNode.WitnessFor"
	if fn == nil {
		c.Missing("sibling-side", name)
		return
	}
	isRec := calleeIs("("+mtap+".Node).WitnessFor", "(*"+mtap+".branchNode).WitnessFor")
	s := c.Sum(fn, SumCfg{Track: func(n *Node) string {
		if isRec(n) {
			return "rec"
		}
		return ""
	}})
	ok := true
	bad := func(pos, m string) { ok = false; c.Ob("sibling-side", name, false, pos, m) }
	sides := map[string]bool{}
	for _, o := range s.Outs {
		if n, k := o.errState(); k && !n {
			continue
		}
		var rec *Event
		for _, e := range o.St.must {
			if e.Tag == "rec" {
				rec = e
			}
		}
		if rec == nil {
			bad(o.Pos, "succeeds without descending")
			continue
		}
		child := s.fl.path(rec.Args[1])
		base, el, k := appended(o.St, o.Rets[1])
		if !k {
			if e := errOf(s.fl.ts, rec.Args[0]); e != nil && o.Rets[2] == e {
				if n, kk := nilState(o.St, e); !kk || n {
					bad(o.Pos, "the sibling's hash is not added to the witness")
				}
				continue
			}
			bad(o.Pos, "the sibling's hash is not added to the witness")
			continue
		}
		if base != extractOf(s.fl.ts, rec.Args[0], 1) {
			bad(o.Pos, "the sibling is not appended to the witness of the subtree")
		}
		pt := o.St.structParts(el)
		d, dk := int64(-1), false
		if pt["Direction"] != nil {
			d, dk = pt["Direction"].intVal()
		}
		hv := ""
		if pt["HashValue"] != nil {
			hv = s.fl.path(pt["HashValue"])
		}
		want := map[string][2]string{"p0.left": {fmt.Sprint(right), "(common/mta.Node).Hash(p0.right)"}, "p0.right": {fmt.Sprint(left), "(common/mta.Node).Hash(p0.left)"}}[child]
		if !dk || fmt.Sprint(d) != want[0] || hv != want[1] {
			bad(o.Pos, fmt.Sprintf("descending into %s yields sibling direction %d, hash %s", child, d, hv))
		}
		sides[child] = true
		// index handed down: left subtree unchanged below the bound, right subtree minus the bound
		lo := o.St.lin(rec.Args[3]).sub(o.St.lin(s.fl.sym(s.g.Params[2])))
		under := 0
		for _, f := range o.St.facts {
			if f.T.K == TBin && f.T.Op == "<" && s.fl.path(f.T.Args[0]) == "p2" && strings.Contains(s.fl.path(f.T.Args[1]), "<<") {
				under = 1
				if !f.Val {
					under = 2
				}
				bl := o.St.lin(f.T.Args[1])
				if child == "p0.right" {
					z := lo.add(bl, bigOne)
					if !(z.isConst() && z.k.Sign() == 0) {
						bad(o.Pos, "the index handed to the right subtree is not reduced by the size of the left one")
					}
				}
			}
		}
		if child == "p0.left" && !(lo.isConst() && lo.k.Sign() == 0) {
			bad(o.Pos, "the index handed to the left subtree is changed")
		}
		if child == "p0.left" && under == 2 || child == "p0.right" && under == 1 {
			bad(o.Pos, "descends into the wrong subtree for the index")
		}
		// the (possibly resolved) child is stored back in its own place
		for _, m := range o.St.mem {
			if p := s.fl.path(m.addr); (p == "&p0.left" || p == "&p0.right") && m.val == extractOf(s.fl.ts, rec.Args[0], 0) && p != "&"+child {
				bad(o.Pos, "the resolved subtree replaces its sibling")
			}
		}
	}
	if len(sides) != 2 {
		bad(c.P.posOf(fn), "one of the two subtrees is never used")
	}
	if ok {
		c.Ob("sibling-side", name, true, c.P.posOf(fn), "")
	}
}

func (c *Ctx) mtaAdd(left int64) {
	fn := c.P.Method("common/mta", "Accumulator", "addNode")
	name := "common/mta.Accumulator.addNode"
	if fn == nil {
		fn = c.P.Method("common/mta", "Accumulator", "AddNode")
		if fn == nil {
			c.Missing("sibling-side", name)
			return
		}
	}
	s := c.Sum(fn, SumCfg{})
	ok := true
	n := 0
	bad := func(pos, m string) { ok = false; c.Ob("sibling-side", name, false, pos, m) }
	rootsElem := func(p string) bool { return strings.HasPrefix(p, "p0.roots[") }
	// every branch node built pairs the older root on the left with the newer node on the right
	br := c.P.Type("common/mta", "branchNode")
	type part struct{ l, r *Term }
	parts := map[*Term]*part{}
	for _, r := range s.Sto {
		a := r.Args[0]
		if a.K == TFieldAddr && a.Args[0].K == TAlloc && br != nil && types.Identical(elemOf(a.Args[0].T), br) {
			p := parts[a.Args[0]]
			if p == nil {
				p = &part{}
				parts[a.Args[0]] = p
			}
			switch a.fieldName() {
			case "left":
				p.l = r.Args[1]
			case "right":
				p.r = r.Args[1]
			}
		}
	}
	for a, p := range parts {
		n++
		lp, rp := "", ""
		if p.l != nil {
			lp = s.fl.path(p.l)
		}
		if p.r != nil {
			rp = s.fl.path(p.r)
		}
		if !rootsElem(lp) || rootsElem(rp) || rp == "" {
			bad(s.g.pos(a.N), "the merged node does not put the older root on the left and the new node on the right: "+lp+" / "+rp)
		}
	}
	nw := 0
	for _, r := range s.Sto {
		v := r.Args[1]
		if v.T != nil && short(types.TypeString(v.T, nil)) == "common/mta.Witness" && r.Args[0].K == TIndexAddr {
			nw++
			pt := r.St.structParts(v)
			d, k := pt["Direction"].intVal()
			hp := s.fl.path(pt["HashValue"])
			if !k || d != left || !(strings.HasPrefix(hp, "(common/mta.Node).Hash(p0.roots[")) {
				bad(s.g.pos(r.N), "the witness of an added node does not name the older root as its left sibling: "+s.fl.path(v))
			}
		}
	}
	if n == 0 || nw == 0 {
		bad(c.P.posOf(fn), "merging of equal-height trees not found")
	}
	if ok {
		c.Ob("sibling-side", name, true, c.P.posOf(fn), "")
	}
}

func (c *Ctx) hashesToWitness(left, right int64) {
	fn := c.P.Func("common/mta", "HashesToWitness")
	name := "common/mta.HashesToWitness"
	if fn == nil {
		c.Missing("sibling-side", name)
		return
	}
	s := c.Sum(fn, SumCfg{})
	ok := true
	bad := func(pos, m string) { ok = false; c.Ob("sibling-side", name, false, pos, m) }
	n := 0
	var idxPhi *Term
	for _, r := range s.Sto {
		if r.Args[0].K != TFieldAddr || r.Args[0].fieldName() != "Direction" {
			continue
		}
		n++
		d, dk := r.Args[1].intVal()
		even, ek := false, false
		for _, f := range r.St.facts {
			if f.T.K != TBin || f.T.Op != "==" {
				continue
			}
			for i := 0; i < 2; i++ {
				x := f.T.Args[1-i]
				v, k := f.T.Args[i].intVal()
				if !k || x.K != TBin || (x.Op != "%" && x.Op != "&") {
					continue
				}
				op := x.Args[0]
				m, mk := x.Args[1].intVal()
				if !mk {
					op = x.Args[1]
					m, mk = x.Args[0].intVal()
				}
				if mk && (x.Op == "%" && m == 2 || x.Op == "&" && m == 1) && op.K == TSym && op.N.Op == OpPhi {
					idxPhi = op
					if v == 0 {
						even, ek = f.Val, true
					} else if v == 1 {
						even, ek = !f.Val, true
					}
				}
			}
		}
		if !ek || !dk || even != (d == right) || !even != (d == left) {
			bad(s.g.pos(r.N), "an even position must have its sibling on the right, an odd one on the left")
		}
	}
	if n == 0 {
		// direction never set: all Left
		bad(c.P.posOf(fn), "the side of a sibling is not derived from the position")
	}
	if idxPhi != nil {
		for _, bk := range s.Back {
			if bk.E.To != idxPhi.N.Blk {
				continue
			}
			v := bk.St.val(idxPhi.N.Args[bk.E.Idx])
			p := s.fl.path(v)
			if p != "(phi/2)" && p != "(phi>>1)" {
				bad(s.posOfBlk(bk.E.From), "the position is not halved when moving up a level: "+p)
			}
		}
	}
	for _, o := range s.Outs {
		if !o.St.coveredSeq("p0") {
			bad(o.Pos, "not every hash becomes a witness")
		}
	}
	if ok {
		c.Ob("sibling-side", name, true, c.P.posOf(fn), "")
	}
}

func (c *Ctx) mbtPath() {
	for _, mn := range []string{"path", "proof"} {
		fn := c.P.Method("common/mbt", "node", mn)
		name := "common/mbt.node." + mn
		if fn == nil {
			c.Missing("sibling-side", name)
			continue
		}
		self := fn.String()
		s := c.Sum(fn, SumCfg{Track: func(n *Node) string {
			if n.isCall() && n.Callee == self {
				return "rec"
			}
			return ""
		}})
		ok := true
		bad := func(pos, m string) { ok = false; c.Ob("sibling-side", name, false, pos, m) }
		sides := map[string]bool{}
		for _, o := range s.Outs {
			var rec *Event
			for _, e := range o.St.must {
				if e.Tag == "rec" {
					rec = e
				}
			}
			if rec == nil {
				continue
			}
			child := s.fl.path(rec.Args[1])
			sides[child] = true
			sib := map[string]string{"p0.l": "p0.r", "p0.r": "p0.l"}[child]
			// which result carries the sibling
			ri := 0
			if mn == "proof" && child == "p0.l" {
				ri = 1
			}
			base, el, k := appended(o.St, o.Rets[ri])
			wantBase := rec.Args[0]
			if mn == "proof" {
				wantBase = extractOf(s.fl.ts, rec.Args[0], ri)
				if o.Rets[1-ri] != extractOf(s.fl.ts, rec.Args[0], 1-ri) {
					bad(o.Pos, "the other side of the proof is altered")
				}
			}
			if !k || base != wantBase {
				bad(o.Pos, "the sibling is not appended to the proof of the subtree")
				continue
			}
			pt := o.St.structParts(el)
			if pt["Value"] == nil || s.fl.path(pt["Value"]) != sib+".h" {
				bad(o.Pos, "the proof does not carry the sibling's hash")
			}
			if r := pt["Right"]; r != nil {
				v, k := r.boolVal()
				if !k || v != (child == "p0.l") {
					bad(o.Pos, "the sibling's side is wrong")
				}
			}
			if nl := pt["NumOfLeaf"]; nl != nil && s.fl.path(nl) != sib+".numOfLeaf" {
				bad(o.Pos, "the sibling's leaf count is wrong")
			}
			// position handed down
			lo := o.St.lin(rec.Args[2]).sub(o.St.lin(s.fl.sym(s.g.Params[1])))
			found := false
			for _, f := range o.St.facts {
				if f.T.K == TBin && f.T.Op == "<" && s.fl.path(f.T.Args[1]) == "p1" && strings.Contains(s.fl.path(f.T.Args[0]), "<<") {
					found = true
					if f.Val != (child == "p0.r") {
						bad(o.Pos, "descends into the wrong subtree for the position")
					}
					z := lo.add(o.St.lin(f.T.Args[0]), bigOne)
					if child == "p0.r" && !(z.isConst() && z.k.Sign() == 0) {
						bad(o.Pos, "the position handed to the right subtree is not reduced by the size of the left one")
					}
				}
			}
			_ = found
			if child == "p0.l" && !(lo.isConst() && lo.k.Sign() == 0) {
				bad(o.Pos, "the position handed to the left subtree is changed")
			}
		}
		if len(sides) != 2 {
			bad(c.P.posOf(fn), "one of the two subtrees is never used")
		}
		if ok {
			c.Ob("sibling-side", name, true, c.P.posOf(fn), "")
		}
	}
}

// mbtInner: a hash stored in a tree node covers that node's left then right child.
func (c *Ctx) mbtInner() {
	nt := c.P.Type("common/mbt", "node")
	if nt == nil {
		c.Missing("inner-order", "common/mbt.node")
		return
	}
	n := 0
	for _, fn := range c.P.funcs {
		if fn.Package() == nil || fn.Package().Pkg.Path() != rel("common/mbt") || fn.Blocks == nil || fn.Parent() != nil {
			continue
		}
		if fn.Signature.Recv() == nil || elemOf(fn.Signature.Recv().Type()) == nil || !types.Identical(elemOf(fn.Signature.Recv().Type()), nt) {
			continue
		}
		hasH := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(*ssa.Call); ok && cl.Call.StaticCallee() == nil && !cl.Call.IsInvoke() && isByteSlice(cl.Type()) {
					hasH = true
				}
			}
		}
		if !hasH {
			continue
		}
		n++
		name := "common/mbt.node." + fn.Name()
		ok := true
		s := c.Sum(fn, SumCfg{Track: func(n *Node) string {
			if isDynHash(n) {
				return "hash"
			}
			return ""
		}})
		for _, r := range s.Calls(isDynHash) {
			c.sites++
			ops := hashOperands(r)
			if len(ops) != 2 {
				ok = false
				c.Ob("inner-order", name, false, s.g.pos(r.N), "an inner hash does not cover exactly two children")
			}
		}
		for _, r := range s.Sto {
			a := r.Args[0]
			if a.K != TFieldAddr || a.fieldName() != "h" {
				continue
			}
			var ev *Event
			for _, e := range r.St.must {
				if e.Tag == "hash" && e.Args[0] == r.Args[1] {
					ev = e
				}
			}
			if ev == nil {
				continue // a leaf's hash is handed in
			}
			ops := hashOperands(CallRec{r.St, ev.N, ev.Args[1:]})
			owner := a.Args[0]
			want := func(f string) string {
				st, _ := nt.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == f {
						fa := s.fl.ts.mk(Term{K: TFieldAddr, I: i, Args: []*Term{owner}, T: types.NewPointer(st.Field(i).Type())})
						ch := r.St.lookup(fa)
						if ch == nil {
							return s.fl.path(owner) + "." + f + ".h"
						}
						// its hash
						for j := 0; j < st.NumFields(); j++ {
							if st.Field(j).Name() == "h" {
								ha := s.fl.ts.mk(Term{K: TFieldAddr, I: j, Args: []*Term{ch}, T: types.NewPointer(st.Field(j).Type())})
								if v := r.St.lookup(ha); v != nil {
									return s.fl.path(v)
								}
							}
						}
						return s.fl.path(ch) + ".h"
					}
				}
				return "?"
			}
			if len(ops) != 2 || s.fl.path(ops[0]) != want("l") || s.fl.path(ops[1]) != want("r") {
				ok = false
				c.Ob("inner-order", name, false, s.g.pos(r.N), fmt.Sprintf("the node's hash covers %v, its children's hashes are %s, %s", r.St.paths(ops), want("l"), want("r")))
			}
		}
		if ok {
			c.Ob("inner-order", name, true, c.P.posOf(fn), "")
		}
	}
	// mta.branchNode.Hash
	if fn := c.P.Method("common/mta", "branchNode", "Hash"); fn != nil {
		s := c.Sum(fn, SumCfg{Opaque: opaqueSha})
		ok := true
		k := 0
		for _, r := range s.Calls(calleeIs(sha3Fn)) {
			k++
			if got := r.St.contentPath(r.Args[0]); got != "(common/mta.Node).Hash(p0.left) (common/mta.Node).Hash(p0.right)" {
				ok = false
				c.Ob("inner-order", "common/mta.branchNode.Hash", false, s.g.pos(r.N), "the hash covers "+got)
			}
		}
		if ok && k > 0 {
			c.Ob("inner-order", "common/mta.branchNode.Hash", true, c.P.posOf(fn), "")
		}
	}
}

func (c *Ctx) mbtProofRoot() {
	fn := c.P.Method("common/mbt", "MerkleBinaryTreeProof", "Root")
	name := "common/mbt.MerkleBinaryTreeProof.Root"
	if fn == nil {
		c.Missing("gate", name)
		return
	}
	nt := c.P.Type("common/mbt", "node")
	isNodeMethod := func(f *ssa.Function) bool {
		rv := f.Signature.Recv()
		return rv != nil && elemOf(rv.Type()) != nil && types.Identical(elemOf(rv.Type()), nt)
	}
	verify := ""
	s := c.Sum(fn, SumCfg{NoFacts: false, Max: 64, Opaque: func(f *ssa.Function) bool { return defaultOpaque(f) || isNodeMethod(f) },
		Track: func(n *Node) string {
			if n.isCall() && n.Fn != nil && isNodeMethod(n.Fn) {
				if types.Identical(n.Typ, errorType()) {
					verify = n.Callee
					return "verify"
				}
				if n.Fn.Signature.Results().Len() == 0 {
					return "ensure"
				}
			}
			return ""
		}})
	ok := true
	bad := func(pos, m string) { ok = false; c.Ob("gate", name, false, pos, m) }
	for _, o := range s.Outs {
		if n, k := o.errState(); k && !n {
			continue
		}
		var ver, ens *Event
		for _, e := range o.St.must {
			if e.Tag == "verify" {
				ver = e
			}
			if e.Tag == "ensure" {
				ens = e
			}
		}
		if ver == nil || !(o.St.succeeded(ver.Args[0]) || o.Rets[len(o.Rets)-1] == ver.Args[0]) {
			bad(o.Pos, "reports success without a successful structural check of the rebuilt tree")
			continue
		}
		r := ver.Args[1]
		if s.fl.path(o.Rets[0]) != s.fl.path(r)+".h" {
			bad(o.Pos, "the hash returned is not that of the tree that was checked")
		}
		if ens == nil || ens.Args[1] != r {
			bad(o.Pos, "the tree's hashes are not computed before its root is returned")
		}
		good := false
		for _, f := range o.St.facts {
			if f.T.K == TBin && f.T.Op == "==" && f.Val {
				for i := 0; i < 2; i++ {
					if strings.HasSuffix(s.fl.path(f.T.Args[i]), ".numOfLeaf") && o.St.linEq(f.T.Args[1-i], o.Rets[2]) {
						good = true
					}
				}
			}
		}
		if !good {
			bad(o.Pos, "the claimed leaf counts are not compared with the rebuilt tree")
		}
		for _, sq := range []string{"p0.ProofInLeft", "p0.Contents", "p0.ProofInRight"} {
			if !o.St.coveredSeq(sq) {
				bad(o.Pos, "not all of "+sq+" takes part")
			}
		}
	}
	if verify == "" {
		bad(c.P.posOf(fn), "the rebuilt tree is never checked")
	}
	// contents are hashed as single leaves
	nAdd := 0
	for _, r := range s.Calls(func(n *Node) bool { return n.isCall() && n.Fn != nil && isNodeMethod(n.Fn) && len(n.Args) == 3 }) {
		np, hp := r.path(1), r.path(2)
		switch {
		case strings.HasSuffix(np, ".NumOfLeaf") && strings.HasSuffix(hp, ".Value") && strings.TrimSuffix(np, ".NumOfLeaf") == strings.TrimSuffix(hp, ".Value"):
			nAdd++
		case np == "1" && r.Args[2].K == TCall:
			nAdd++
			for _, h := range s.Calls(isDynHash) {
				if h.N == r.Args[2].N {
					ops := hashOperands(h)
					if len(ops) != 1 || !s.fl.elemOfSeq(ops[0], "p0.Contents") {
						bad(s.g.pos(r.N), "a leaf is not the hash of one content")
					}
				}
			}
		default:
			bad(s.g.pos(r.N), "adds "+np+" leaves with hash "+hp)
		}
	}
	if nAdd < 3 {
		bad(c.P.posOf(fn), "the tree is not rebuilt from left proof, contents and right proof")
	}
	if ok {
		c.Ob("gate", name, true, c.P.posOf(fn), "")
	}
	// the structural check itself
	c.mbtVerify()
}

// mbtVerify: a success of the structural check requires every subtree count to be justified.
func (c *Ctx) mbtVerify() {
	fn := c.P.Method("common/mbt", "node", "verify")
	name := "common/mbt.node.verify"
	if fn == nil {
		c.Missing("gate", name)
		return
	}
	lf, _ := c.constVal("common/mbt", "levelLeaf")
	s := c.Sum(fn, SumCfg{Track: func(n *Node) string {
		if n.isCall() && n.Callee == fn.String() {
			return "rec"
		}
		return ""
	}})
	ok := true
	bad := func(pos, m string) { ok = false; c.Ob("gate", name, false, pos, m) }
	for _, o := range s.Outs {
		if n, k := o.errState(); k && !n {
			continue
		}
		if v, k := o.St.eq("p0.level", fmt.Sprint(lf)); k && v {
			if v, k := o.St.eq("p0.numOfLeaf", "1"); !k || !v {
				bad(o.Pos, "accepts a leaf that claims a number of leaves other than one")
			}
			continue
		}
		if v, k := o.St.eq("p0.l", "nil"); k && v {
			continue // an opaque subtree: nothing below it to check
		}
		rec := map[string]bool{}
		for _, e := range o.St.must {
			if e.Tag == "rec" && (o.St.succeeded(e.Args[0]) || o.Rets[0] == e.Args[0]) {
				rec[s.fl.path(e.Args[1])] = true
			}
		}
		if !rec["p0.l"] || !rec["p0.r"] {
			bad(o.Pos, "accepts a node without checking both subtrees")
		}
		lvl := false
		cnt := false
		deep := true
		for _, f := range o.St.facts {
			p := s.fl.path(f.T)
			if p == "(p0.l.level<p0.r.level)" && !f.Val {
				lvl = true
			}
			if f.T.K == TBin && f.T.Op == "==" && f.Val && strings.Contains(p, "p0.l.numOfLeaf") && strings.Contains(p, "<<") {
				cnt = true
			}
			if f.T.K == TBin && f.T.Op == "<" && strings.Contains(p, "p0.level") && !strings.Contains(p, "p0.l.level") {
				// level <= branch
				if strings.HasPrefix(p, "(2<p0.level") && !f.Val || strings.HasSuffix(p, "p0.level<3)") && f.Val {
					deep = false
				}
			}
		}
		if !lvl {
			bad(o.Pos, "accepts a left subtree shallower than the right one")
		}
		if deep && !cnt {
			bad(o.Pos, "accepts a left subtree that is not full")
		}
	}
	if ok {
		c.Ob("gate", name, true, c.P.posOf(fn), "")
	}
}

func (c *Ctx) mptLinks() {
	fn := c.P.Func("common/mpt", "NewMptProof")
	name := "common/mpt.NewMptProof"
	if fn == nil {
		c.Missing("gate", name)
		return
	}
	s := c.Sum(fn, SumCfg{Opaque: func(f *ssa.Function) bool { return c.codecOpaque(f) || f.String() == sha3Fn }})
	ok := true
	bad := func(pos, m string) { ok = false; c.Ob("gate", name, false, pos, m) }
	n := 0
	for _, r := range s.Sto {
		if r.Args[0].K == TFieldAddr && r.Args[0].fieldName() == "ptr" {
			n++
			owner := strings.TrimPrefix(s.fl.path(r.Args[0].Args[0]), "&")
			tgt := strings.TrimPrefix(s.fl.path(r.Args[1]), "&")
			ti := s.fl.indexOf(r.Args[1])
			if !equalTrue(r.St, func(a, b *Term) bool {
				return s.fl.path(a) == owner+".Hash" && s.fl.indexOf(b) == ti && ti != nil
			}) {
				bad(s.g.pos(r.N), "links a node to "+tgt+" without its hash matching the link")
			}
		}
	}
	if n == 0 {
		bad(c.P.posOf(fn), "proof nodes are never linked")
	}
	// every node but a leaf must be linked: a back edge of the linking loop needs a match or a leaf
	for _, bk := range s.Back {
		if !s.fl.loopHas(bk.E.To, func(n *Node) bool { return n.isCall() && (n.Callee == "bytes.Equal" || n.Callee == "bytes.Compare") }) {
			continue
		}
		if len(bk.E.From.loops) > 1 && len(bk.E.To.loops) > 1 {
			continue // inner scan over the branch links
		}
		if equalTrue(bk.St, func(a, b *Term) bool { return strings.HasSuffix(s.fl.path(a), ".Hash") }) {
			continue
		}
		leaf := false
		for _, f := range bk.St.facts {
			p := s.fl.path(f.T)
			if strings.Contains(p, "Header.Prefix") && strings.HasPrefix(p, "(0==") && !f.Val {
				leaf = true
			}
		}
		if !leaf {
			bad(s.posOfBlk(bk.E.From), "a node that is not a leaf is accepted without being linked to the next one")
		}
	}
	// hashes cover exactly the encoded node
	for _, r := range s.Calls(calleeIs(sha3Fn)) {
		if stripConv(r.Args[0]).K == TSlice || !s.fl.elemOfSeq(r.Args[0], "p0") {
			bad(s.g.pos(r.N), "a node's hash is not that of its encoding")
		}
	}
	if ok {
		c.Ob("gate", name, true, c.P.posOf(fn), "")
	}
}

func (c *Ctx) hashFuncs() {
	for _, h := range []struct{ pkg, fn, ctor string }{
		{"common/mbt", "Sha3FIPS256", "golang.org/x/crypto/sha3.New256"},
		{"common/mbt", "Sha3Keccak256", "golang.org/x/crypto/sha3.NewLegacyKeccak256"},
	} {
		fn := c.P.Func(h.pkg, h.fn)
		name := h.pkg + "." + h.fn
		if fn == nil {
			c.Missing("hash-function", name)
			continue
		}
		s := c.Sum(fn, SumCfg{})
		okc, okw, oks := false, false, false
		for _, r := range s.Call {
			if r.N.Callee == h.ctor {
				okc = true
			} else if strings.HasPrefix(r.N.Callee, "golang.org/x/crypto/sha3.") {
				okc = false
				break
			}
		}
		for _, r := range s.Call {
			if strings.HasSuffix(r.N.Callee, ").Write") && len(r.Args) > 1 && s.fl.elemOfSeq(r.Args[1], "p0") {
				okw = true
			}
			if strings.HasSuffix(r.N.Callee, ").Sum") {
				oks = r.St.coveredSeq("p0")
			}
		}
		c.Ob("hash-function", name, okc && okw && oks, c.P.posOf(fn), "must be "+h.ctor+" over all inputs in order")
	}
	if fn := c.P.Func("common/crypto", "SHA3Sum256"); fn != nil {
		ok := c.isSHA3(fn)
		c.Ob("hash-function", "common/crypto.SHA3Sum256", ok, c.P.posOf(fn), "must be SHA3-256 of its argument")
	} else {
		c.Missing("hash-function", "common/crypto.SHA3Sum256")
	}
}

// isSHA3: the function answers the SHA3-256 of its only argument, on every path.
func (c *Ctx) isSHA3(fn *ssa.Function) bool {
	s := c.Sum(fn, SumCfg{Ev: func(st *State, n *Node, args []*Term, res *Term) {
		if !n.isCall() {
			return
		}
		switch {
		case n.Callee == "golang.org/x/crypto/sha3.New256":
			st.addMust("new", "new", n, res)
			delete(st.must, "in")
		case strings.HasSuffix(n.Callee, ").Write") && len(args) == 2:
			if e := st.must["new"]; e != nil && stripBox(args[0]) == stripBox(e.Args[0]) {
				if st.must["in"] != nil || st.fl.path(args[1]) != "p0" {
					st.addMust("more", "more", n)
				}
				st.addMust("in", "in", n)
			}
		case strings.HasSuffix(n.Callee, ").Sum") && len(args) == 2:
			if e := st.must["new"]; e != nil && st.must["in"] != nil && st.must["more"] == nil && stripBox(args[0]) == stripBox(e.Args[0]) && emptyList(st, args[1]) &&
				!mentions(args[1], func(u *Term) bool { return st.fl.path(u) == "p0" }) {
				st.addMust("sum", "sum", n, res)
			}
		case n.Callee == "golang.org/x/crypto/sha3.Sum256" && st.fl.path(args[0]) == "p0":
			st.addMust("sum", "sum", n, res)
		}
	}})
	for _, o := range s.Outs {
		e := o.St.must["sum"]
		if e == nil || len(o.Rets) != 1 {
			return false
		}
		if o.Rets[0] == e.Args[0] {
			continue
		}
		b, ok := o.St.bytesOf(o.Rets[0])
		if !ok || !eqSpans(b, span(s.fl.path(e.Args[0]), 0, 32)) {
			return false
		}
	}
	return len(s.Outs) > 0
}
