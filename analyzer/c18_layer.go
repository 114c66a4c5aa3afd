package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pathFact: is there a fact (path == nil) / boolean fact on an access path?
func pathNil(st *State, path string) (isNil, known bool) {
	for _, f := range st.facts {
		t := f.T
		if t.K == TBin && t.Op == "==" {
			for i := 0; i < 2; i++ {
				if t.Args[i].isNil() && st.fl.path(t.Args[1-i]) == path {
					return f.Val, true
				}
			}
		}
	}
	return false, false
}

func pathBool(st *State, path string) (val, known bool) {
	for _, f := range st.facts {
		if st.fl.path(f.T) == path {
			return f.Val, true
		}
	}
	return false, false
}

func checkLayer(c *Ctx) {
	biface := c.P.Iface("common/db", "Bucket")
	ctor := c.P.Func("common/db", "NewLayerDB")
	if biface == nil || ctor == nil {
		c.Missing("layer", "common/db.NewLayerDB / Bucket")
		return
	}
	// the layer type: what NewLayerDB returns
	var layer *types.Named
	c.Flow(ctor, InlineCfg{}, FlowCfg{Exit: func(st *State, b *Block, rets []*Term) {
		if len(rets) == 1 && rets[0].K == TIface {
			if pt, ok := rets[0].T.(*types.Pointer); ok {
				if nt, ok := pt.Elem().(*types.Named); ok {
					layer = nt
				}
			}
		}
	}})
	if layer == nil {
		c.Missing("layer", "type returned by NewLayerDB")
		return
	}
	// the layered bucket: a Bucket implementation with a parent Bucket field and a pending map
	var bkt *types.Named
	dataF, realF := "", ""
	for _, t := range c.P.Impls(nil, biface) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		d, r := "", ""
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if _, ok := f.Type().Underlying().(*types.Map); ok {
				d = f.Name()
			}
			if types.Identical(f.Type(), c.P.Type("common/db", "Bucket")) {
				r = f.Name()
			}
		}
		if d != "" && r != "" {
			bkt, dataF, realF = t, d, r
		}
	}
	if bkt == nil {
		c.Missing("layer", "layered bucket type (pending map + parent bucket)")
		return
	}
	bn := short(types.TypeString(bkt, nil))
	data := "p0." + dataF
	for i := 0; i < bkt.NumMethods(); i++ {
		fn := c.P.SSA.FuncValue(bkt.Method(i))
		if fn == nil || len(fn.Blocks) == 0 || !bkt.Method(i).Exported() {
			continue
		}
		c.layerBucketMethod(fn, bn, data, "p0."+realF, dataF)
	}
	c.layerFlush(layer, bkt)
	c.layerGetBucket(layer, bkt, dataF, realF)
	c.Need("parent-write", 3)
	c.Need("read-through", 2)
	c.Need("flush", 1)
	c.Need("flush-all", 1)
	c.Need("bypass", 1)
}

func isBucketOp(n *Node) (string, bool) {
	if !n.isCall() {
		return "", false
	}
	op, ok := storeOps[n.Callee]
	if !ok || !op.pass {
		return "", false
	}
	return op.kind, true
}

// rangeEntry recognises key (i=1) or value (i=2) of the current iteration over the map at path.
func rangeEntry(fl *Flow, t *Term, i int, mapPath string) bool {
	for t != nil && (t.K == TConv || t.K == TIface) {
		t = t.Args[0]
	}
	if t == nil || t.K != TExtract || t.I != i || t.Args[0].K != TCall || t.Args[0].Op != "next" {
		return false
	}
	r := t.Args[0].Args[0]
	return r.K == TCall && r.Op == "range" && fl.path(r.Args[0]) == mapPath
}

func (c *Ctx) layerBucketMethod(fn *ssa.Function, bn, data, real, dataF string) {
	var fl *Flow
	name := bn + "." + fn.Name()
	type v struct{ rule string }
	fails := map[string]bool{}
	seen := map[string]bool{}
	bad := func(rule, pos, msg string) {
		fails[rule] = true
		c.Ob(rule, name, false, pos, msg)
	}
	isFlush := false
	nextTerm := func(st *State, t *Term) *Term { return extractOf(st.fl.ts, t, 0) }
	cfg := FlowCfg{
		Part: func(st *State) string {
			s := ""
			for _, k := range sortedKeys(st.may) {
				s += k + ";"
			}
			if n, k := pathNil(st, data); k {
				s += fmt.Sprint("d", n)
			}
			for i, p := range fn.Params {
				if isBool(p.Type()) {
					if v, k := pathBool(st, fmt.Sprintf("p%d", i)); k {
						s += fmt.Sprint("w", v)
					}
				}
			}
			if _, ok := st.must["ranged"]; ok {
				s += "ranged"
			}
			return s + factsKey(st)
		},
		OnAssume: func(st *State, t *Term, val bool, final bool) {
			for t.K == TNot {
				t, val = t.Args[0], !val
			}
			// entering an iteration
			if t.K == TExtract && t.I == 0 && t.Args[0].K == TCall && t.Args[0].Op == "next" && val {
				r := t.Args[0].Args[0]
				if r.K == TCall && r.Op == "range" && fl.path(r.Args[0]) == data {
					st.addMay("pend", "pend", nil, t)
				}
			}
			if t.K == TBin && t.Op == "==" {
				for i := 0; i < 2; i++ {
					if t.Args[i].isNil() {
						x := t.Args[1-i]
						if x.K == TCall {
							k := fmt.Sprintf("unchecked:%d", x.N.ID)
							if _, ok := st.may[k]; ok {
								delete(st.may, k)
								if !val {
									st.addMay("failed", "failed", x.N, x)
								}
							}
						}
					}
				}
			}
		},
		Pre: func(st *State, n *Node, args []*Term, final bool) {
			if n.Op != OpInstr {
				return
			}
			if _, ok := n.Instr.(*ssa.Next); ok && fl.path(args[0]) == "range("+data+")" {
				isFlush = true
				seen["flush"] = true
				if _, p := st.may["pend"]; p && final {
					bad("flush", fl.g.pos(n), "a pending entry is skipped: the next one is fetched before it was written or deleted in the parent")
				}
				for k := range st.may {
					if strings.HasPrefix(k, "unchecked") && final {
						bad("flush", fl.g.pos(n), "continues without checking the parent's error")
					}
				}
				delete(st.may, "pend")
			}
			if n.Builtin == "delete" && n.isCall() && fl.path(args[0]) == data {
				seen["tombstone"] = true
				if final && !isFlush {
					bad("tombstone", fl.g.pos(n), "a deletion is forgotten instead of being kept pending, so the parent's entry becomes visible again")
				}
			}
			kind, ok := isBucketOp(n)
			if !ok || fl.path(args[0]) != real {
				return
			}
			c.sites++
			dn, dk := pathNil(st, data)
			switch kind {
			case "get", "has":
				seen["read-through"] = true
				looked := false
				for _, e := range st.must {
					if e.Tag == "looked" {
						if v, k := st.decide(extractOf(st.fl.ts, e.Args[0], 1)); k && !v {
							looked = true
						}
					}
				}
				if !(dk && dn) && !looked && final {
					bad("read-through", fl.g.pos(n), "the parent is read although a pending entry for the key may exist")
				}
			case "set", "del":
				seen["parent-write"] = true
				_, inIter := st.may["pend"]
				if dk && dn {
					return // write-through after flush
				}
				wr := false
				for i, p := range fn.Params {
					if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
						if v, k := pathBool(st, fmt.Sprintf("p%d", i)); k && v {
							wr = true
						}
					}
				}
				if !wr || !inIter {
					if final {
						bad("parent-write", fl.g.pos(n), "the parent is modified while changes are still pending and no writing flush is in progress")
					}
					return
				}
				if final {
					if !rangeEntry(fl, args[1], 1, data) {
						bad("flush", fl.g.pos(n), "flush writes a key other than the pending entry's")
					}
					var val *Term
					for _, f := range st.facts {
						t := f.T
						if t.K == TBin && t.Op == "==" {
							for i := 0; i < 2; i++ {
								if t.Args[i].isNil() && rangeEntry(fl, t.Args[1-i], 2, data) {
									val = t.Args[1-i]
									if f.Val != (kind == "del") {
										bad("flush", fl.g.pos(n), "flush treats a pending deletion as a write or a pending write as a deletion")
									}
								}
							}
						}
					}
					if val == nil {
						bad("flush", fl.g.pos(n), "flush does not distinguish pending deletions from pending writes")
					}
					if kind == "set" && !rangeEntry(fl, args[2], 2, data) {
						bad("flush", fl.g.pos(n), "flush writes a value other than the pending entry's")
					}
				}
			}
		},
		Hook: func(st *State, n *Node, args []*Term, res *Term, final bool) {
			if n.Op != OpInstr {
				return
			}
			if _, ok := n.Instr.(*ssa.Lookup); ok && fl.path(args[0]) == data {
				st.addMust("looked", "looked", n, res)
			}
			if kind, ok := isBucketOp(n); ok && fl.path(args[0]) == real && (kind == "set" || kind == "del") {
				if _, p := st.may["pend"]; p {
					delete(st.may, "pend")
					st.addMay(fmt.Sprintf("unchecked:%d", n.ID), "unchecked", n, res)
				}
			}
		},
		Exit: func(st *State, b *Block, rets []*Term) {
			if !isFlush || len(rets) != 1 {
				return
			}
			pos := fl.g.pos(b.Nodes[len(b.Nodes)-1])
			var cell *Term
			for _, m := range st.mem {
				if m.addr.K == TFieldAddr && fl.path(m.addr) == "&"+data {
					cell = m.val
				}
			}
			n, k := nilState(st, rets[0])
			if k && !n || !k {
				if cell != nil && cell.isNil() {
					bad("flush", pos, "pending changes are dropped although the flush failed")
				}
			}
			if k && n || !k {
				if _, p := st.may["failed"]; p && k {
					bad("flush", pos, "a parent failure during flush is reported as success")
				}
				for kk := range st.may {
					if strings.HasPrefix(kk, "unchecked") {
						bad("flush", pos, "the parent's error is not checked")
					}
				}
				if _, p := st.may["pend"]; p {
					bad("flush", pos, "returns before a pending entry was applied")
				}
				if k && (cell == nil || !cell.isNil()) {
					bad("flush", pos, "pending changes survive a successful flush")
				}
				// a writing flush with pending data must have iterated over it
				if k {
					wr, wk := false, false
					for i, p := range fn.Params {
						if bt, ok := p.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
							wr, wk = pathBool(st, fmt.Sprintf("p%d", i))
						}
					}
					dn, dk := pathNil(st, data)
					_, it := st.must["ranged"]
					if !(wk && !wr) && !(dk && dn) && !it {
						bad("flush", pos, "a writing flush may drop the pending changes without applying them")
					}
				}
			}
		},
	}
	base := cfg.Hook
	cfg.Hook = func(st *State, n *Node, args []*Term, res *Term, final bool) {
		base(st, n, args, res, final)
		if n.Op == OpInstr {
			if _, ok := n.Instr.(*ssa.Range); ok && fl.path(args[0]) == data {
				st.addMust("ranged", "ranged", n)
			}
		}
	}
	_ = nextTerm
	g := BuildGraph(c.P, fn, InlineCfg{})
	fl = NewFlow(g, cfg)
	// a Flush method is recognised before the run by containing a range over the map
	for _, n := range g.Nodes {
		if _, ok := n.Instr.(*ssa.Next); ok {
			isFlush = true
		}
	}
	fl.Run()
	for k := range g.inl {
		c.funcs[k] = true
	}
	c.nodes += len(g.Nodes)
	c.paths += fl.edges
	for r := range seen {
		if !fails[r] {
			c.Ob(r, name, true, c.P.posOf(fn), "holds on every path")
		}
	}
}

func (c *Ctx) layerFlush(layer, bkt *types.Named) {
	fn := c.P.MethodOf(layer, "Flush")
	if fn == nil {
		c.Missing("flush-all", "layer Flush")
		return
	}
	name := short(types.TypeString(layer, nil)) + ".Flush"
	isBF := func(f *ssa.Function) bool {
		rv := f.Signature.Recv()
		if rv == nil || f.Signature.Params().Len() != 1 {
			return false
		}
		t := rv.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return t == bkt
	}
	var fl *Flow
	ok := true
	bad := func(pos, msg string) { ok = false; c.Ob("flush-all", name, false, pos, msg) }
	isNext := func(t *Term) bool {
		return t.K == TExtract && t.I == 0 && t.Args[0].K == TCall && t.Args[0].Op == "next"
	}
	mapPath := ""
	cfg := FlowCfg{
		Part: func(st *State) string { return strings.Join(sortedKeys(st.may), ";") + factsKey(st) },
		OnAssume: func(st *State, t *Term, val bool, final bool) {
			for t.K == TNot {
				t, val = t.Args[0], !val
			}
			if isNext(t) && val {
				st.addMay("pend", "pend", nil)
			}
			if t.K == TBin && t.Op == "==" {
				for i := 0; i < 2; i++ {
					if t.Args[i].isNil() && t.Args[1-i].K == TCall {
						k := fmt.Sprintf("unchecked:%d", t.Args[1-i].N.ID)
						if _, o := st.may[k]; o {
							delete(st.may, k)
							if !val {
								st.addMay("failed", "failed", nil)
							}
						}
					}
				}
			}
		},
		Hook: func(st *State, n *Node, args []*Term, res *Term, final bool) {
			if n.Op != OpInstr {
				return
			}
			if _, o := n.Instr.(*ssa.Range); o {
				mapPath = fl.path(args[0])
				st.addMust("ranged", "ranged", n)
			}
			if _, o := n.Instr.(*ssa.Next); o {
				if len(st.may) > 0 && final {
					bad(fl.g.pos(n), "goes on to the next bucket although one was not flushed or its failure not examined")
				}
				delete(st.may, "pend")
			}
			if n.isCall() && n.Fn != nil && isBF(n.Fn) {
				c.sites++
				if final {
					cur := rangeEntry(fl, args[0], 2, mapPath)
					if a := args[0]; a.K == TCall && a.Op == "lookup" && fl.path(a.Args[0]) == mapPath && rangeEntry(fl, a.Args[1], 1, mapPath) {
						cur = true // the entry under the key being visited
					}
					if !cur || fl.path(args[1]) != "p1" {
						bad(fl.g.pos(n), "a bucket is not flushed with the caller's mode")
					}
				}
				delete(st.may, "pend")
				st.addMay(fmt.Sprintf("unchecked:%d", n.ID), "unchecked", n)
			}
		},
		Exit: func(st *State, b *Block, rets []*Term) {
			pos := fl.g.pos(b.Nodes[len(b.Nodes)-1])
			var flushed *Term
			for _, m := range st.mem {
				if m.addr.K == TFieldAddr && fl.path(m.addr.Args[0]) == "p0" && m.val.T != nil && isBool(m.val.T) {
					flushed = m.val
				}
			}
			set := false
			if flushed != nil {
				set, _ = st.decide(flushed)
			}
			n, k := nilState(st, rets[0])
			if k && n {
				if len(st.may) > 0 {
					bad(pos, "reports success although a bucket was not flushed")
				}
				if _, o := st.must["ranged"]; !o {
					bad(pos, "reports success without visiting the buckets")
				}
				if !set {
					bad(pos, "does not switch to write-through after a successful flush")
				}
			} else if set {
				bad(pos, "switches to write-through although the flush failed")
			}
		},
	}
	g := BuildGraph(c.P, fn, InlineCfg{Opaque: func(f *ssa.Function) bool { return isBF(f) || defaultOpaque(f) }})
	fl = NewFlow(g, cfg)
	fl.Run()
	c.nodes += len(g.Nodes)
	c.paths += fl.edges
	c.sawFn(fn)
	if ok {
		c.Ob("flush-all", name, true, c.P.posOf(fn), "every bucket flushed, failures returned")
	}
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (c *Ctx) layerGetBucket(layer, bkt *types.Named, dataF, realF string) {
	fn := c.P.MethodOf(layer, "GetBucket")
	if fn == nil {
		return
	}
	name := short(types.TypeString(layer, nil)) + ".GetBucket"
	flagF := ""
	st := layer.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if isBool(st.Field(i).Type()) {
			flagF = st.Field(i).Name()
		}
	}
	ok := true
	var fl *Flow
	bad := func(pos, msg string) { ok = false; c.Ob("bypass", name, false, pos, msg) }
	cfg := FlowCfg{
		Part: func(st *State) string {
			v, k := pathBool(st, "p0."+flagF)
			return fmt.Sprint(v, k) + factsKey(st)
		},
		Exit: func(st *State, b *Block, rets []*Term) {
			pos := fl.g.pos(b.Nodes[len(b.Nodes)-1])
			if n, k := nilState(st, rets[1]); k && !n {
				return
			}
			r := rets[0]
			if r.K == TIface {
				r = r.Args[0]
			}
			fv, fk := pathBool(st, "p0."+flagF)
			if strings.Contains(fl.path(r), ".Database).GetBucket(") {
				if !(fk && fv) {
					bad(pos, "hands out the parent's bucket before the layer was flushed")
				}
			}
			if r.K == TAlloc {
				if !(fk && !fv) {
					bad(pos, "creates a pending bucket although the layer may already be flushed")
				}
				d, p := false, false
				for _, m := range st.mem {
					if m.addr.K == TFieldAddr && m.addr.Args[0] == r {
						switch m.addr.fieldName() {
						case dataF:
							d = st.fl.ts.nonNil(m.val)
						case realF:
							p = strings.Contains(fl.path(m.val), ".Database).GetBucket(")
						}
					}
				}
				if !d || !p {
					bad(pos, "a new layered bucket must start with an (empty) pending map over the parent's bucket")
				}
			}
		},
	}
	g := BuildGraph(c.P, fn, InlineCfg{})
	fl = NewFlow(g, cfg)
	fl.Run()
	c.nodes += len(g.Nodes)
	c.paths += fl.edges
	c.sawFn(fn)
	if ok {
		c.Ob("bypass", name, true, c.P.posOf(fn), "parent handed out only after flush")
	}
}
