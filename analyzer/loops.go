package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// coveredSeq: has a loop that visits every element of the sequence described by
// seqPath run to completion on every path to this state? Recognises ascending and
// descending index loops and map iteration, in any surface form.
func (s *State) coveredSeq(seqPath string) bool { return s.coveredSeqBy(seqPath, nil) }

// coveredSeqBy: as coveredSeq, by a loop containing a node that satisfies in.
func (s *State) coveredSeqBy(seqPath string, in func(*Node) bool) bool {
	for _, h := range s.coverHeads(seqPath) {
		if in == nil || s.fl.loopHas(h, in) {
			return true
		}
	}
	return false
}

func (f *Flow) loopHas(head *Block, in func(*Node) bool) bool {
	for _, b := range f.g.Blocks {
		if !b.loops[head] {
			continue
		}
		for _, n := range b.Nodes {
			if in(n) {
				return true
			}
		}
	}
	return false
}

// coverHeads: heads of the finished loops that visit every element of seqPath.
func (s *State) coverHeads(seqPath string) []*Block {
	return s.coverHeadsF(func(t *Term) bool { return s.fl.path(t) == seqPath })
}

// coverHeadsT: as coverHeads, for the sequence given as a term.
func (s *State) coverHeadsT(seq *Term) []*Block {
	return s.coverHeadsF(func(t *Term) bool { return t == seq })
}

func (s *State) coverHeadsF(same func(*Term) bool) (out []*Block) {
	f := s.fl
	for _, fa := range s.facts {
		t := fa.T
		// map iteration exhausted
		if t.K == TExtract && t.I == 0 && !fa.Val && t.Args[0].K == TCall && t.Args[0].Op == "next" {
			r := t.Args[0].Args[0]
			if r.K == TCall && r.Op == "range" && same(r.Args[0]) {
				out = append(out, t.Args[0].N.Blk)
			}
		}
		if t.K != TBin || t.Op != "<" {
			continue
		}
		a, b := t.Args[0], t.Args[1]
		if !fa.Val && isLenOfF(b, same) {
			// idx >= len(seq)
			if ph, off, ok := phiPlus(a); ok {
				if first, step, ok := f.induction(ph); ok && step == 1 && first.isConst() {
					iv, _ := first.intVal()
					if iv+off == 0 {
						out = append(out, ph.N.Blk)
					}
				}
			}
		}
		if fa.Val {
			// idx < 0 with idx = phi (or phi-1), start len(seq)-1
			if bv, ok := b.intVal(); ok {
				if ph, off, ok := phiPlus(a); ok {
					if first, step, ok := f.induction(ph); ok && step == -1 {
						d := s.lin(first)
						for at, co := range d.c {
							if len(d.c) == 1 && co.IsInt64() && co.Int64() == 1 && isLenOfF(at, same) && d.k.IsInt64() {
								// first visited index = len + k + off' where guard idx >= bv
								if bv == 0 && d.k.Int64()+off == -1 {
									out = append(out, ph.N.Blk)
								}
								if bv == 1 && off == 0 && d.k.Int64() == 0 {
									out = append(out, ph.N.Blk) // for n := len; n > 0; n-- { use n-1 }
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func isLenOfF(t *Term, same func(*Term) bool) bool {
	for t.K == TConv && t.Op == "=" {
		t = t.Args[0]
	}
	return t.K == TLen && same(t.Args[0])
}

func isLenOf(f *Flow, t *Term, seqPath string) bool {
	for t.K == TConv && t.Op == "=" {
		t = t.Args[0]
	}
	return t.K == TLen && f.path(t.Args[0]) == seqPath
}

// phiPlus: t = phi + off
func phiPlus(t *Term) (*Term, int64, bool) {
	for t.K == TConv && t.Op == "=" {
		t = t.Args[0]
	}
	if t.K == TSym && t.N.Op == OpPhi {
		return t, 0, true
	}
	if t.K == TBin && (t.Op == "+" || t.Op == "-") {
		for i := 0; i < 2; i++ {
			if v, ok := t.Args[i].intVal(); ok {
				o := t.Args[1-i]
				if o.K == TSym && o.N.Op == OpPhi {
					if t.Op == "-" {
						if i == 0 {
							return nil, 0, false
						}
						v = -v
					}
					return o, v, true
				}
			}
		}
	}
	return nil, 0, false
}

// induction: initial value and constant step of a loop-head phi.
func (f *Flow) induction(ph *Term) (first *Term, step int64, ok bool) {
	ins := f.phiIn[ph.N]
	for _, in := range ins {
		if in == nil {
			continue
		}
		if o, d, k := phiPlus(in); k && o == ph {
			if step != 0 && step != d {
				return nil, 0, false
			}
			if d == 0 {
				return nil, 0, false
			}
			step = d
			continue
		}
		if first != nil && first != in {
			return nil, 0, false
		}
		first = in
	}
	return first, step, first != nil && step != 0
}

// elemOfSeq: t is an element (by value or address) of the sequence at seqPath.
func (f *Flow) elemOfSeq(t *Term, seqPath string) bool {
	for t != nil && (t.K == TIface || t.K == TDeref) {
		t = t.Args[0]
	}
	if t == nil {
		return false
	}
	if t.K == TLoad {
		t = t.Args[0]
	}
	if t.K == TIndexAddr || t.K == TIndex {
		return f.path(t.Args[0]) == seqPath
	}
	if t.K == TExtract && t.Args[0].K == TCall && t.Args[0].Op == "next" {
		r := t.Args[0].Args[0]
		return r.K == TCall && r.Op == "range" && f.path(r.Args[0]) == seqPath
	}
	return strings.HasPrefix(f.path(t), seqPath+"[")
}

// errOf: the error component of a call result term (nil if the callee returns none).
func errOf(ts *terms, call *Term) *Term {
	if call == nil || call.T == nil {
		return nil
	}
	if tp, ok := call.T.(*types.Tuple); ok {
		for i := tp.Len() - 1; i >= 0; i-- {
			if types.Identical(tp.At(i).Type(), errorType()) {
				return extractOf(ts, call, i)
			}
		}
		return nil
	}
	if types.Identical(call.T, errorType()) {
		return call
	}
	return nil
}

// succeeded: the call is known to have returned a nil error.
func (s *State) succeeded(call *Term) bool {
	e := errOf(s.fl.ts, call)
	if e == nil {
		return true
	}
	n, k := nilState(s, e)
	return k && n
}

// carryBounds proposes, for the integer phis of a loop head, the bounds by the values they are compared with
// in that block, and keeps those the incoming value satisfies (so that a bound that holds on entry and is
// preserved by the guarded step is available in and after the loop).
func carryBounds(s *State, e *Edge, phis []PhiIn) func() {
	ts := s.fl.ts
	var add []Fact
	dead := func(t *Term) bool {
		for _, p := range phis {
			if t.hasSym(p.N.ID) {
				return true
			}
		}
		return t.hasSym(-(e.To.ID + 1))
	}
	for _, p := range phis {
		if !isIntTerm(p.In) {
			continue
		}
		for _, n := range e.To.Nodes {
			b, ok := n.Instr.(*ssa.BinOp)
			if n.Op != OpInstr || !ok || len(n.Args) != 2 {
				continue
			}
			switch b.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for i := 0; i < 2; i++ {
				if n.Args[i] != p.N {
					continue
				}
				x := headVal(s, n.Args[1-i], e.To)
				if x == nil || dead(x) || !isIntTerm(x) {
					continue
				}
				for _, d := range []int64{0, 1, -1} {
					y := x
					if d != 0 {
						y = ts.bin(token.ADD, x, ts.intC(d), x.T)
					}
					l := s.lin(p.In).sub(s.lin(y))
					if s.entails(l) { // in <= y
						add = append(add, Fact{ts.bin(token.LSS, y, p.Sym, types.Typ[types.Bool]), false})
					}
					if s.entails(l.neg()) {
						add = append(add, Fact{ts.bin(token.LSS, p.Sym, y, types.Typ[types.Bool]), false})
					}
				}
			}
		}
	}
	return func() {
		for _, f := range add {
			s.assume(f.T, f.Val)
		}
	}
}

// headVal: the value a node will have at the loop head to, computed before entering it; nil if it depends on the
// head's phis or on a call.
func headVal(s *State, n *Node, to *Block) *Term {
	if n.Blk != to || n.Op == OpConst {
		return s.val(n)
	}
	var c *State
	var ev func(n *Node, d int) bool
	ev = func(n *Node, d int) bool {
		if n == nil || d > 6 {
			return false
		}
		if n.Blk != to || n.Op == OpConst {
			return true
		}
		if n.Op != OpInstr {
			return false
		}
		switch in := n.Instr.(type) {
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType, *ssa.BinOp:
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
		for _, a := range n.Args {
			if !ev(a, d+1) {
				return false
			}
		}
		if c == nil {
			c = s.clone()
		}
		s.fl.exec(c, n)
		return true
	}
	if !ev(n, 0) || c == nil {
		return nil
	}
	return c.val(n)
}
