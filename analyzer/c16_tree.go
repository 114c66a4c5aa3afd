package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The binary Merkle tree itself: how it grows, when its inner hashes are computed,
// and what a tree and a proof of a range are made of.

func (c *Ctx) nodeMethod(f *ssa.Function) bool {
	nt := c.P.Type("common/mbt", "node")
	rv := f.Signature.Recv()
	return nt != nil && rv != nil && elemOf(rv.Type()) != nil && types.Identical(elemOf(rv.Type()), nt)
}

// fieldVal: the value of a field of the object at base, as of this state ("" path if unwritten).
func fieldVal(st *State, base *Term, name string) (*Term, string) {
	et := elemOf(base.T)
	if et == nil {
		return nil, ""
	}
	sx, ok := et.Underlying().(*types.Struct)
	if !ok {
		return nil, ""
	}
	for i := 0; i < sx.NumFields(); i++ {
		if sx.Field(i).Name() == name {
			a := st.fl.ts.mk(Term{K: TFieldAddr, I: i, Args: []*Term{base}, T: types.NewPointer(sx.Field(i).Type())})
			if v := st.lookup(a); v != nil {
				return v, st.fl.path(v)
			}
			return nil, st.fl.path(base) + "." + name
		}
	}
	return nil, ""
}

// isSum: v is the sum of the value called a and of k (a parameter's path, or a constant).
func isSum(st *State, v *Term, a string, k *Term, n int64) bool {
	if v == nil {
		return false
	}
	l := st.lin(v)
	if k != nil {
		l = l.sub(st.lin(k))
	}
	l = l.sub(linK(n))
	if !l.ok || l.k.Sign() != 0 || len(l.c) != 1 {
		return false
	}
	for t, f := range l.c {
		return f.Cmp(bigOne) == 0 && st.fl.path(t) == a
	}
	return false
}

// sumOfTwo: v is the sum of the values called a and b.
func sumOfTwo(st *State, v *Term, a, b string) bool {
	if v == nil {
		return false
	}
	l := st.lin(v)
	if !l.ok || l.k.Sign() != 0 || len(l.c) != 2 {
		return false
	}
	n := 0
	for t, f := range l.c {
		if p := st.fl.path(t); f.Cmp(bigOne) == 0 && (p == a || p == b) {
			n++
		}
	}
	return n == 2
}

func (c *Ctx) mbtGrow() {
	lvl := rel("common/mbt") + ".NumberToLevel"
	leaf, _ := c.constVal("common/mbt", "levelLeaf")
	for _, mn := range []string{"add", "lazyAdd"} {
		fn := c.P.Method("common/mbt", "node", mn)
		name := "common/mbt.node." + mn
		if fn == nil {
			c.Missing("grow", name)
			continue
		}
		lazy := len(fn.Params) == 3
		s := c.Sum(fn, SumCfg{Opaque: func(f *ssa.Function) bool { return defaultOpaque(f) || f.String() == lvl },
			Track: func(n *Node) string {
				if n.isCall() && n.Callee == fn.String() {
					return "rec"
				}
				if isDynHash(n) {
					return "hash"
				}
				return ""
			}})
		p0 := param(s, 0)
		h := param(s, len(fn.Params)-1)
		var k *Term
		kn := int64(1)
		if lazy {
			k, kn = param(s, 1), 0
		}
		ok := true
		bad := func(pos, m string) { ok = false; c.Ob("grow", name, false, pos, m) }
		kinds := map[string]int{}
		for _, o := range s.Outs {
			st := o.St
			isLeaf := func(b *Term, what string) {
				if v, _ := fieldVal(st, b, "h"); v != h {
					bad(o.Pos, what+" does not carry the given hash")
				}
				v, _ := fieldVal(st, b, "numOfLeaf")
				n, isC := int64(0), false
				if v != nil {
					n, isC = v.intVal()
				}
				if !(lazy && v == k || !lazy && isC && n == 1) {
					bad(o.Pos, what+" does not count the leaves added")
				}
				v, _ = fieldVal(st, b, "level")
				isLvl1 := func(v *Term) bool {
					if callName(v) != lvl {
						return false
					}
					z, k := v.Args[0].intVal()
					return k && z == 1
				}
				if v != nil {
					n, isC = v.intVal()
				}
				if v == nil || !(lazy && callName(v) == lvl && v.Args[0] == k || !lazy && (isC && n == leaf || isLvl1(v))) {
					bad(o.Pos, what+" is not at the level of what was added")
				}
			}
			hashed := func(b *Term, l, r string) {
				if lazy {
					return
				}
				v, _ := fieldVal(st, b, "h")
				for _, e := range st.must {
					if e.Tag == "hash" && v != nil && e.Args[0] == v {
						ops := hashOperands(CallRec{st, e.N, e.Args[1:]})
						if len(ops) == 2 && st.fl.path(ops[0]) == l && st.fl.path(ops[1]) == r {
							return
						}
						bad(o.Pos, "the hash of the node covers "+strings.Join(st.paths(ops), ", ")+", not "+l+", "+r)
						return
					}
				}
				bad(o.Pos, "the hash of the node is not computed anew")
			}
			var rec, made *Event // (made: a new, empty node is grown into the right subtree)
			for _, e := range st.must {
				if e.Tag == "rec" && e.Args[1].K == TAlloc {
					made = e
				} else if e.Tag == "rec" {
					rec = e
				}
			}
			init, initK := st.eq("p0.level", "0")
			same, sameK := st.eq("p0.l.numOfLeaf", "p0.r.numOfLeaf")
			lnil, lnilK := st.eq("p0.l", "nil")
			r := stripBox(o.Rets[0])
			switch {
			case r == p0 && rec == nil:
				kinds["first"]++
				if !initK || !init {
					bad(o.Pos, "what is added replaces a node that is not empty")
				}
				isLeaf(p0, "the first node")
			case r == p0:
				kinds["right"]++
				if !sameK || same || !lnilK || lnil {
					bad(o.Pos, "the right subtree grows although both subtrees hold the same number of leaves")
				}
				a := rec.Args[1:]
				if s.fl.path(a[0]) != "p0.r" || a[len(a)-1] != h || lazy && a[1] != k {
					bad(o.Pos, "the right subtree does not get what was added")
				}
				if v, _ := fieldVal(st, p0, "r"); v != rec.Args[0] {
					bad(o.Pos, "the grown right subtree is not kept")
				}
				if v, _ := fieldVal(st, p0, "numOfLeaf"); !isSum(st, v, "p0.numOfLeaf", k, kn) && !sumOfTwo(st, v, "p0.l.numOfLeaf", s.fl.path(rec.Args[0])+".numOfLeaf") {
					bad(o.Pos, "the number of leaves does not grow by what was added")
				}
				if _, p := fieldVal(st, p0, "level"); p != "p0.level" {
					bad(o.Pos, "the level of the node changes")
				}
				hashed(p0, "p0.l.h", s.fl.path(rec.Args[0])+".h")
			case r.K == TAlloc && rec == nil:
				kinds["root"]++
				if initK && init {
					bad(o.Pos, "an empty node is kept as a subtree")
				}
				if !(lnilK && lnil || sameK && same) {
					bad(o.Pos, "a new root is put above a tree whose right subtree is not full")
				}
				if v, _ := fieldVal(st, r, "l"); v != p0 {
					bad(o.Pos, "the new root's left subtree is not the tree so far")
				}
				rc, _ := fieldVal(st, r, "r")
				grown := made != nil && rc != nil && (rc == made.Args[0] || rc == made.Args[1])
				if rc == nil || rc.K != TAlloc && !grown {
					bad(o.Pos, "the new root has no new right subtree")
					continue
				}
				news := []*Term{r, rc}
				if grown {
					news = news[:1]
					if a := made.Args[1:]; a[len(a)-1] != h || lazy && a[1] != k {
						bad(o.Pos, "the new right subtree does not get what was added")
					}
				} else {
					isLeaf(rc, "the new right subtree")
				}
				for _, b := range news {
					if _, p := fieldVal(st, b, "hashFunc"); p != "p0.hashFunc" {
						bad(o.Pos, "a new node does not get the tree's hash function")
					}
				}
				if v, _ := fieldVal(st, r, "level"); !isSum(st, v, "p0.level", nil, 1) {
					bad(o.Pos, "the new root is not one level higher")
				}
				if v, _ := fieldVal(st, r, "numOfLeaf"); !isSum(st, v, "p0.numOfLeaf", k, kn) && !(grown && sumOfTwo(st, v, "p0.numOfLeaf", s.fl.path(rc)+".numOfLeaf")) {
					bad(o.Pos, "the new root does not count all leaves")
				}
				if !grown {
					hashed(r, "p0.h", s.fl.path(h))
				} else {
					hashed(r, "p0.h", s.fl.path(rc)+".h")
				}
			default:
				bad(o.Pos, "the tree becomes "+s.fl.path(r))
			}
		}
		for _, w := range []string{"first", "right", "root"} {
			if kinds[w] == 0 {
				bad(c.P.posOf(fn), "one of the three ways to grow is missing ("+w+")")
			}
		}
		if ok {
			c.Ob("grow", name, true, c.P.posOf(fn), "")
		}
	}
}

// mbtEnsure: computing the hashes leaves no branch without the hash of its hashed children.
func (c *Ctx) mbtEnsure() {
	fn := c.P.Method("common/mbt", "node", "ensureHash")
	name := "common/mbt.node.ensureHash"
	if fn == nil {
		c.Missing("grow", name)
		return
	}
	branch, _ := c.constVal("common/mbt", "levelBranch")
	s := c.Sum(fn, SumCfg{Track: func(n *Node) string {
		if n.isCall() && n.Callee == fn.String() {
			return "rec"
		}
		if isDynHash(n) {
			return "hash"
		}
		return ""
	}})
	ok := true
	bad := func(pos, m string) { ok = false; c.Ob("grow", name, false, pos, m) }
	// (the children may also be gone through in a loop over a list of them)
	listed := false
	for _, r := range s.Calls(func(n *Node) bool { return n.isCall() && n.Callee == fn.String() }) {
		p := r.path(0)
		listed = listed || p != "p0.l" && p != "p0.r"
	}
	for _, r := range s.Calls(isDynHash) {
		if listed {
			break
		}
		done := map[string]bool{}
		for _, e := range r.St.must {
			if e.Tag == "rec" {
				done[s.fl.path(e.Args[1])] = true
			}
		}
		for _, ch := range []string{"p0.l", "p0.r"} {
			nl, kn := r.St.eq(ch, "nil")
			if !done[ch] && !(kn && nl) {
				bad(s.g.pos(r.N), "a branch is hashed before its subtree "+ch[3:])
			}
		}
	}
	n := 0
	for _, o := range s.Outs {
		st := o.St
		if v, _ := fieldVal(st, param(s, 0), "h"); v != nil {
			hit := false
			for _, e := range st.must {
				hit = hit || e.Tag == "hash" && e.Args[0] == v
			}
			if hit {
				n++
				continue
			}
		}
		// (a node below the branches, or one that has its hash)
		nl, kn := st.eq("p0", "nil")
		good := nl && kn
		for _, f := range st.facts {
			t := f.T
			if t.K != TBin || t.Op != "==" && t.Op != "<" {
				continue
			}
			x, y := s.fl.path(t.Args[0]), s.fl.path(t.Args[1])
			if t.Op == "<" && x == "p0.level" && f.Val {
				if m, k := t.Args[1].intVal(); k && m <= branch {
					good = true
				}
			}
			if t.Op == "<" && y == "p0.level" && !f.Val {
				if m, k := t.Args[0].intVal(); k && m < branch {
					good = true
				}
			}
			if z := "len(p0.h)"; t.Op == "==" && !f.Val && (x == z && y == "0" || x == "0" && y == z) || t.Op == "<" && x == "0" && y == z && f.Val {
				good = true
			}
			if t.Op == "==" && !f.Val && (x == "p0.h" && y == "nil" || x == "nil" && y == "p0.h") {
				good = true
			}
		}
		if !good {
			bad(o.Pos, "a branch without a hash is left without one")
		}
	}
	if n == 0 {
		bad(c.P.posOf(fn), "no branch is ever hashed")
	}
	if ok {
		c.Ob("grow", name, true, c.P.posOf(fn), "")
	}
}

// mbtMake: a tree holds the hash of every content given, as one leaf each, in order.
func (c *Ctx) mbtMake() {
	opq := func(f *ssa.Function) bool { return defaultOpaque(f) || c.nodeMethod(f) }
	add := func(n *Node) bool {
		return n.isCall() && n.Fn != nil && c.nodeMethod(n.Fn) && n.Fn.Signature.Results().Len() == 1 && !types.Identical(n.Typ, errorType()) && n.Fn.Signature.Params().Len() >= 1 && isByteSlice(n.Args[len(n.Args)-1].Typ)
	}
	track := func(n *Node) string {
		if add(n) {
			return "add"
		}
		if isDynHash(n) {
			return "hash"
		}
		if n.isCall() && n.Fn != nil && c.nodeMethod(n.Fn) && n.Fn.Signature.Results().Len() == 0 {
			return "ensure"
		}
		return ""
	}
	leafOf := func(s *Sum, r CallRec, content func(*Term) bool) string {
		if len(r.Args) == 3 {
			if n, k := r.Args[1].intVal(); !k || n != 1 {
				return "a content is added as " + r.path(1) + " leaves"
			}
		}
		a := r.Args[len(r.Args)-1]
		for _, h := range s.Calls(isDynHash) {
			if a.K == TCall && h.N == a.N {
				if ops := hashOperands(h); len(ops) == 1 && content(ops[0]) {
					return ""
				}
			}
		}
		return "what is added is not the hash of one content: " + r.path(len(r.Args)-1)
	}
	if fn := c.P.Func("common/mbt", "NewMerkleBinaryTree"); fn != nil {
		name := "common/mbt.NewMerkleBinaryTree"
		s := c.Sum(fn, SumCfg{Opaque: opq, Track: track, Max: 64})
		ok := true
		bad := func(pos, m string) { ok = false; c.Ob("make", name, false, pos, m) }
		calls := s.Calls(add)
		for _, r := range calls {
			if m := leafOf(s, r, func(t *Term) bool { return t.K != TSlice && s.fl.elemOfSeq(t, "p1") }); m != "" {
				bad(s.g.pos(r.N), m)
			}
		}
		if len(calls) == 0 {
			bad(c.P.posOf(fn), "no content is ever added")
		}
		full := 0
		for _, o := range s.Outs {
			if n, k := o.errState(); k && !n {
				continue
			}
			st := o.St
			m := stripBox(o.Rets[0])
			if m.K != TAlloc {
				bad(o.Pos, "the tree made is "+s.fl.path(m))
				continue
			}
			if _, p := fieldVal(st, m, "hashFunc"); p != "p0" {
				bad(o.Pos, "the tree does not keep the hash function given")
			}
			empty := false
			if v, k := st.eq("len(p1)", "0"); k && v {
				empty = true
			}
			for _, f := range st.facts {
				if s.fl.path(f.T) == "(0<len(p1))" && !f.Val {
					empty = true
				}
			}
			if empty {
				continue
			}
			full++
			if _, p := fieldVal(st, m, "contents"); p != "p1" {
				bad(o.Pos, "the tree does not keep the contents given")
			}
			if !st.coveredSeq("p1") {
				bad(o.Pos, "not every content is added")
			}
			root, rp := fieldVal(st, m, "root")
			ens := false
			for _, e := range st.must {
				if e.Tag == "ensure" && len(e.Args) > 1 {
					// (the call may change what it is given: the tree's root after it is a
					// new value. A part of the tree, though, is not the whole.)
					p := s.fl.path(e.Args[1])
					ens = ens || e.Args[1] == root || p == rp || !strings.HasSuffix(p, ".l") && !strings.HasSuffix(p, ".r")
				}
			}
			if !ens {
				bad(o.Pos, "the tree's hashes are not computed")
			}
		}
		if full == 0 {
			bad(c.P.posOf(fn), "a tree with contents is never made")
		}
		if ok {
			c.Ob("make", name, true, c.P.posOf(fn), "")
		}
	} else {
		c.Missing("make", "common/mbt.NewMerkleBinaryTree")
	}
	if fn := c.P.Method("common/mbt", "MerkleBinaryTree", "Add"); fn != nil {
		name := "common/mbt.MerkleBinaryTree.Add"
		s := c.Sum(fn, SumCfg{Opaque: opq, Track: track})
		ok := true
		bad := func(pos, m string) { ok = false; c.Ob("make", name, false, pos, m) }
		for _, r := range s.Calls(add) {
			if m := leafOf(s, r, func(t *Term) bool { return s.fl.path(t) == "p1" }); m != "" {
				bad(s.g.pos(r.N), m)
			}
		}
		for _, o := range s.Outs {
			if n, k := o.errState(); k && !n {
				continue
			}
			st := o.St
			var ad *Event
			for _, e := range st.must {
				if e.Tag == "add" {
					ad = e
				}
			}
			if v, _ := fieldVal(st, param(s, 0), "root"); ad == nil || v != ad.Args[0] {
				bad(o.Pos, "the grown tree is not kept")
			}
			v, _ := fieldVal(st, param(s, 0), "contents")
			if b, e, k := appended(st, v); v == nil || !k || s.fl.path(b) != "p0.contents" || s.fl.path(e) != "p1" {
				bad(o.Pos, "the content is not kept after those before it")
			}
		}
		if ok {
			c.Ob("make", name, true, c.P.posOf(fn), "")
		}
	} else {
		c.Missing("make", "common/mbt.MerkleBinaryTree.Add")
	}
	c.mbtRange(opq)
	c.mbtHashOf()
}

// mbtRange: the proof of a range holds exactly the contents of the range and, on its
// right, what lies right of the range's end (nothing only if the range ends the tree).
func (c *Ctx) mbtRange(opq func(*ssa.Function) bool) {
	fn := c.P.Method("common/mbt", "MerkleBinaryTree", "Proof")
	name := "common/mbt.MerkleBinaryTree.Proof"
	if fn == nil {
		c.Missing("make", name)
		return
	}
	s := c.Sum(fn, SumCfg{Opaque: opq, Max: 128})
	ok := true
	bad := func(pos, m string) { ok = false; c.Ob("make", name, false, pos, m) }
	begin, end := param(s, 1), param(s, 2)
	n := 0
	for _, o := range s.Outs {
		if e, k := o.errState(); k && !e {
			continue
		}
		st := o.St
		p := stripBox(o.Rets[0])
		if p.isNil() {
			continue
		}
		if p.K != TAlloc {
			bad(o.Pos, "the proof is "+s.fl.path(p))
			continue
		}
		n++
		eqc := func(a *Term, v int64) bool { return linEqual(st, st.lin(a), linK(v)) }
		isLen := func(a *Term) bool {
			for _, f := range st.facts {
				if f.Val && f.T.K == TBin && f.T.Op == "==" {
					for i := 0; i < 2; i++ {
						if f.T.Args[i] == a && s.fl.path(f.T.Args[1-i]) == "len(p0.contents)" {
							return true
						}
					}
				}
				// (beyond the length is refused)
				if !f.Val && f.T.K == TBin && f.T.Op == "<" && f.T.Args[0] == a && s.fl.path(f.T.Args[1]) == "len(p0.contents)" {
					return true
				}
			}
			return false
		}
		cs, cp := fieldVal(st, p, "Contents")
		good := false
		if cs != nil && cs.K == TSlice && s.fl.path(cs.Args[0]) == "p0.contents" {
			lo := eqc(begin, 1)
			if cs.Args[1] != nil {
				lo = linEqual(st, st.lin(cs.Args[1]), st.lin(begin).sub(linK(1)))
			}
			hi := isLen(end)
			if cs.Args[2] != nil {
				hi = linEqual(st, st.lin(cs.Args[2]), st.lin(end)) || s.fl.path(cs.Args[2]) == "len(p0.contents)" && isLen(end)
			}
			good = lo && hi
		} else if cp == "p0.contents" {
			good = eqc(begin, 1) && isLen(end)
		}
		if !good {
			bad(o.Pos, "the contents of the proof are "+cp+", not those from begin to end")
		}
		r, rp := fieldVal(st, p, "ProofInRight")
		for r != nil && r.K == TSlice && r.Args[1] == nil && r.Args[2] == nil {
			r = r.Args[0]
		}
		switch {
		case r != nil && r.K == TExtract && r.I == 1 && r.Args[0].K == TCall && strings.HasSuffix(callName(r.Args[0]), ".proof"):
			if a := r.Args[0].Args[1]; !linEqual(st, st.lin(a), st.lin(end)) {
				bad(o.Pos, "the right side of the proof is that of "+s.fl.path(a)+", not of the end of the range")
			}
		default:
			if !isLen(end) {
				bad(o.Pos, "the right side of the proof is "+rp+" although the range does not end the tree")
			}
		}
		if _, hp := fieldVal(st, p, "hashFunc"); hp != "p0.hashFunc" {
			bad(o.Pos, "the proof does not use the tree's hash function")
		}
	}
	if n == 0 {
		bad(c.P.posOf(fn), "no proof is ever made")
	}
	if ok {
		c.Ob("make", name, true, c.P.posOf(fn), "")
	}
}

// mbtHashOf: the hash functions registered by name are the ones named.
func (c *Ctx) mbtHashOf() {
	want := map[string]string{"icon": "Sha3FIPS256", "eth": "Sha3Keccak256"}
	pk := c.P.SSA.ImportedPackage(rel("common/mbt"))
	if pk == nil {
		return
	}
	for _, m := range pk.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				key, isC := mu.Key.(*ssa.Const)
				v := mu.Value
				if ct, is := v.(*ssa.ChangeType); is {
					v = ct.X
				}
				fv, isF := v.(*ssa.Function)
				if !isC || !isF || key.Value == nil || key.Value.Kind() != constant.String {
					continue
				}
				k := constant.StringVal(key.Value)
				if w, has := want[k]; has {
					c.Ob("hash-function", "common/mbt hash of "+k, fv.Name() == w, c.P.SSA.Fset.Position(mu.Pos()).String(), "the hash function named "+k+" is "+fv.Name())
				}
			}
		}
	}
}
