package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Unrolling: a loop whose number of rounds is a small constant (a range over a
// literal, or a counter up to a constant) is laid out round by round when a
// function is put into a graph, so that it is judged like the statements it stands for.

type unrolled struct {
	head   *ssa.BasicBlock
	n      int // rounds; the head is laid out n+1 times
	region map[*ssa.BasicBlock]bool
	order  []*ssa.BasicBlock
}

type vblock struct {
	b  *ssa.BasicBlock
	it int // -1 outside of unrolled loops
}

type vval struct {
	v  ssa.Value
	it int
}

type vpred struct {
	p   vblock
	idx int // which of the block's SSA predecessors
}

const maxRounds, maxUnrolled = 6, 600

// constLen: the length of a literal slice or array, -1 if not constant
func constLen(v ssa.Value) int64 {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(x.Value); ok {
				return n
			}
		}
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			return -1
		}
		sl, ok := x.Call.Args[0].(*ssa.Slice)
		if !ok || sl.Low != nil || sl.High != nil {
			return -1
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok || al.Comment != "slicelit" {
			return -1
		}
		if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			return at.Len()
		}
	}
	return -1
}

func unrollable(fn *ssa.Function, order []*ssa.BasicBlock) []*unrolled {
	var out []*unrolled
	taken := map[*ssa.BasicBlock]bool{}
	for _, h := range order {
		if taken[h] {
			continue
		}
		if u := unrollAt(fn, h, order); u != nil {
			for b := range u.region {
				if taken[b] {
					u = nil
					break
				}
			}
			if u != nil {
				for b := range u.region {
					taken[b] = true
				}
				out = append(out, u)
			}
		}
	}
	return out
}

func unrollAt(fn *ssa.Function, h *ssa.BasicBlock, order []*ssa.BasicBlock) *unrolled {
	if len(h.Instrs) == 0 || h == fn.Blocks[0] || h == fn.Recover {
		return nil
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return nil
	}
	n := constLen(cmp.Y)
	if n < 1 || n > maxRounds {
		return nil
	}
	// the counter: phi or phi+1
	off := int64(0)
	var ph *ssa.Phi
	switch x := cmp.X.(type) {
	case *ssa.Phi:
		ph = x
	case *ssa.BinOp:
		p, ok := x.X.(*ssa.Phi)
		if !ok || x.Op != token.ADD || constLen(x.Y) != 1 {
			return nil
		}
		ph, off = p, 1
	}
	if ph == nil || ph.Block() != h {
		return nil
	}
	entries := 0
	for i, p := range h.Preds {
		if h.Dominates(p) {
			b, ok := ph.Edges[i].(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) || constLen(b.Y) != 1 {
				return nil
			}
			continue
		}
		entries++
		c, ok := ph.Edges[i].(*ssa.Const)
		if !ok || c.Value == nil {
			return nil
		}
		v, ok := constant.Int64Val(c.Value)
		if !ok || v+off != 0 {
			return nil
		}
	}
	if entries != 1 || entries == len(h.Preds) {
		return nil
	}
	// natural loop
	loop := map[*ssa.BasicBlock]bool{h: true}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if loop[b] {
			return
		}
		loop[b] = true
		for _, p := range b.Preds {
			add(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			add(p)
		}
	}
	if loop[h.Succs[1]] || !loop[h.Succs[0]] {
		return nil
	}
	u := &unrolled{head: h, n: int(n), region: map[*ssa.BasicBlock]bool{h: true}}
	instrs := 0
	for _, b := range order {
		in := loop[b]
		for x := range loop {
			in = in || x != h && x.Dominates(b)
		}
		if !in {
			continue
		}
		u.region[b] = true
		u.order = append(u.order, b)
		instrs += len(b.Instrs)
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.Defer, *ssa.RunDefers, *ssa.Select, *ssa.Range:
				return nil
			}
		}
	}
	if instrs*int(n) > maxUnrolled {
		return nil
	}
	// left only at the head, or no value of the head is used afterwards except through a phi
	leaves := false
	for b := range u.region {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			leaves = leaves || !u.region[s]
		}
	}
	if leaves {
		for _, i := range h.Instrs {
			v, ok := i.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if _, isPhi := r.(*ssa.Phi); !isPhi && !u.region[r.Block()] {
					return nil
				}
			}
		}
	}
	return u
}

func (c *cloner) regionOf(b *ssa.BasicBlock) *unrolled {
	for _, u := range c.unr {
		if u.region[b] {
			return u
		}
	}
	return nil
}

// key: the copy of a value meant in round it of a loop (-1: outside)
func (c *cloner) key(v ssa.Value, it int) vval {
	if len(c.unr) > 0 {
		if in, ok := v.(ssa.Instruction); ok && in.Block() != nil {
			if u := c.regionOf(in.Block()); u != nil {
				if it < 0 {
					it = u.n
				}
				return vval{v, it}
			}
		}
	}
	return vval{v, -1}
}

// layout: the blocks to build, in order.
func (c *cloner) layout(order []*ssa.BasicBlock) (out []vblock) {
	for _, b := range order {
		u := c.regionOf(b)
		if u == nil {
			out = append(out, vblock{b, -1})
			continue
		}
		if b != u.head {
			continue
		}
		for it := 0; it <= u.n; it++ {
			for _, r := range u.order {
				if it < u.n || r == u.head {
					out = append(out, vblock{r, it})
				}
			}
		}
	}
	return
}

// preds: the predecessors of a laid-out block, in SSA order.
func (c *cloner) preds(vb vblock) (out []vpred) {
	u := c.regionOf(vb.b)
	for i, p := range vb.b.Preds {
		pu := c.regionOf(p)
		switch {
		case u != nil && vb.b == u.head:
			if pu == u {
				if vb.it > 0 {
					out = append(out, vpred{vblock{p, vb.it - 1}, i})
				}
			} else if vb.it == 0 {
				if pu != nil && p != pu.head {
					for it := 0; it < pu.n; it++ {
						out = append(out, vpred{vblock{p, it}, i})
					}
				} else if pu != nil {
					out = append(out, vpred{vblock{p, pu.n}, i})
				} else {
					out = append(out, vpred{vblock{p, -1}, i})
				}
			}
		case u != nil:
			out = append(out, vpred{vblock{p, vb.it}, i})
		case pu == nil:
			out = append(out, vpred{vblock{p, -1}, i})
		case p == pu.head:
			out = append(out, vpred{vblock{p, pu.n}, i})
		default:
			for it := 0; it < pu.n; it++ {
				out = append(out, vpred{vblock{p, it}, i})
			}
		}
	}
	return
}
