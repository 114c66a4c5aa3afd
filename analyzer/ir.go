package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The inlined IR: one graph per analysed root. Every statically resolvable call
// into the module is replaced by the callee's body (bounded depth, no recursion),
// deferred calls are expanded at the function exits, so that extracting or
// inlining a helper leaves the graph the rules see essentially unchanged.

type Op uint8

const (
	OpConst Op = iota
	OpParam
	OpFree
	OpGlobal
	OpFunc
	OpBuiltin
	OpPhi
	OpTuple
	OpInstr  // any other value-producing or effect instruction; see Instr
	OpNondet // unknown boolean (conditional defers, closures run by callees)
	OpEnter  // marker: entry into an inlined callee (Args = actual args)
	OpLeave  // marker: leaving an inlined callee (Args = results)
)

type Frame struct {
	ID     int
	Fn     *ssa.Function
	Parent *Frame
	Site   *Node // the (replaced) call
	Depth  int
}

type Node struct {
	ID    int
	Op    Op
	Instr ssa.Instruction
	V     ssa.Value
	Args  []*Node
	Typ   types.Type
	Blk   *Block
	Frame *Frame
	Const constant.Value

	// calls
	Callee   string // resolved full name ("" if dynamic)
	Fn       *ssa.Function
	Invoke   *types.Func
	Builtin  string
	Deferred bool
	CondReg  bool  // a deferred call registered on some paths only
	DeferOf  *Node // nondet: was this deferred call registered
	Go       bool
	Dyn      *Node // dynamic function value
	pos      token.Pos
}

type Edge struct {
	From *Block
	To   *Block
	Idx  int // predecessor index in To
	Cond int // 0 unconditional, 1 true branch, 2 false branch
}

type Block struct {
	ID    int
	Nodes []*Node
	Preds []*Edge
	Succs []*Edge
	Frame *Frame
	Cond  *Node // non-nil if two-way
	Ret   []*Node
	Kind  byte // 0 normal, 'r' root return, 'p' panic, 'n' noreturn call

	loopHead     bool
	rpo          int
	loops        map[*Block]bool // headers of the loops containing this block
	assumeNonNil *Node           // value known non-nil on entry
}

type Graph struct {
	P      *Program
	Root   *ssa.Function
	Entry  *Block
	Blocks []*Block
	Nodes  []*Node
	Params []*Node
	frames int
	cfg    *InlineCfg
	inl    map[string]int // inlined functions
	opaque map[string]int // module functions left opaque
	consts map[string]*Node
	cells  map[*Node]*Node // cells written once: the value
}

type InlineCfg struct {
	NoUnroll bool
	MaxDepth int
	MaxNodes int
	// Opaque reports functions that must be left as calls.
	Opaque func(fn *ssa.Function) bool
	// Devirt may resolve an interface call.
	Devirt func(recv *Node, m *types.Func) *ssa.Function
	// Go: a started goroutine is analysed as if it ran at once (for rules about what it does, not when).
	Go bool
}

func defaultOpaque(fn *ssa.Function) bool {
	pk := ""
	if fn.Package() != nil {
		pk = fn.Package().Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	switch pk {
	case rel("common/log"), rel("common/errors"):
		return true
	}
	return false
}

type retInfo struct {
	blk  *Block
	vals []*Node
}

type cloner struct {
	g       *Graph
	fn      *ssa.Function
	frame   *Frame
	vals    map[vval]*Node
	first   map[vblock]*Block
	last    map[vblock]*Block
	unr     []*unrolled
	it      int // the round being laid out (-1: none)
	rets    []retInfo
	phis    []phiFix
	defs    []deferRec
	binds   []*Node
	lastRes []*Node
}

type phiFix struct {
	node *Node
	phi  *ssa.Phi
	at   vblock
}

type deferRec struct {
	instr *ssa.Defer
	blk   *Block
	sblk  *ssa.BasicBlock
	args  []*Node
	fun   *Node
	recv  *Node
}

func BuildGraph(p *Program, fn *ssa.Function, cfg InlineCfg) *Graph {
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 8
	}
	if cfg.MaxNodes == 0 {
		cfg.MaxNodes = 30000
	}
	if cfg.Opaque == nil {
		cfg.Opaque = defaultOpaque
	}
	g := &Graph{P: p, Root: fn, cfg: &cfg, inl: map[string]int{}, opaque: map[string]int{}, consts: map[string]*Node{}, cells: map[*Node]*Node{}}
	fr := g.newFrame(fn, nil, nil)
	var params []*Node
	for _, q := range fn.Params {
		n := g.newNode(OpParam, nil, q, q.Type(), fr)
		params = append(params, n)
	}
	g.Params = params
	var binds []*Node
	for _, q := range fn.FreeVars {
		binds = append(binds, g.newNode(OpFree, nil, q, q.Type(), fr))
	}
	entry := g.newBlock(fr)
	g.Entry = entry
	c := g.clone(fn, fr, params, binds)
	g.edge(entry, c.first[vblock{fn.Blocks[0], -1}], 0)
	for _, r := range c.rets {
		if r.blk.Kind != 0 {
			continue
		}
		r.blk.Kind = 'r'
		r.blk.Ret = r.vals
	}
	g.finish()
	return g
}

func (g *Graph) newFrame(fn *ssa.Function, parent *Frame, site *Node) *Frame {
	g.frames++
	d := 0
	if parent != nil {
		d = parent.Depth + 1
	}
	return &Frame{ID: g.frames, Fn: fn, Parent: parent, Site: site, Depth: d}
}

func (g *Graph) newNode(op Op, in ssa.Instruction, v ssa.Value, t types.Type, fr *Frame) *Node {
	n := &Node{ID: len(g.Nodes), Op: op, Instr: in, V: v, Typ: t, Frame: fr}
	g.Nodes = append(g.Nodes, n)
	return n
}

func (g *Graph) newBlock(fr *Frame) *Block {
	b := &Block{ID: len(g.Blocks), Frame: fr}
	g.Blocks = append(g.Blocks, b)
	return b
}

func (g *Graph) edge(a, b *Block, cond int) *Edge {
	e := &Edge{From: a, To: b, Idx: len(b.Preds), Cond: cond}
	a.Succs = append(a.Succs, e)
	b.Preds = append(b.Preds, e)
	return e
}

func (c *cloner) val(v ssa.Value) *Node {
	if v == nil {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		k := "nil"
		if v.Value != nil {
			k = v.Value.ExactString()
		}
		k += ":" + types.TypeString(v.Type(), nil)
		if n := c.g.consts[k]; n != nil {
			return n
		}
		n := c.g.newNode(OpConst, nil, v, v.Type(), c.frame)
		n.Const = v.Value
		c.g.consts[k] = n
		return n
	case *ssa.Global:
		k := "G:" + v.String()
		if n := c.g.consts[k]; n != nil {
			return n
		}
		n := c.g.newNode(OpGlobal, nil, v, v.Type(), c.frame)
		c.g.consts[k] = n
		return n
	case *ssa.Function:
		k := "F:" + v.String() + fmt.Sprint(v.Pos())
		if n := c.g.consts[k]; n != nil {
			return n
		}
		n := c.g.newNode(OpFunc, nil, v, v.Type(), c.frame)
		n.Fn = v
		c.g.consts[k] = n
		return n
	case *ssa.Builtin:
		n := c.g.newNode(OpBuiltin, nil, v, v.Type(), c.frame)
		n.Builtin = v.Name()
		return n
	}
	if n := c.vals[c.key(v, c.it)]; n != nil {
		return n
	}
	panic(fmt.Sprintf("value not yet cloned: %s = %s in %s", v.Name(), v, c.fn))
}

func onStack(fr *Frame, fn *ssa.Function) bool {
	for ; fr != nil; fr = fr.Parent {
		if fr.Fn == fn {
			return true
		}
	}
	return false
}

func (g *Graph) canInline(fn *ssa.Function, fr *Frame) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	if !g.P.inModule(fn) {
		return false
	}
	if g.cfg.Opaque(fn) || fr.Depth >= g.cfg.MaxDepth || len(g.Nodes) > g.cfg.MaxNodes || onStack(fr, fn) {
		g.opaque[fn.String()]++
		return false
	}
	return true
}

// clone copies fn's body into the graph. Blocks are processed in dominator
// preorder so operands (except phi edges) exist before their uses.
func (g *Graph) clone(fn *ssa.Function, fr *Frame, params, binds []*Node) *cloner {
	g.inl[fn.String()]++
	c := &cloner{g: g, fn: fn, frame: fr, vals: map[vval]*Node{}, first: map[vblock]*Block{}, last: map[vblock]*Block{}, binds: binds, it: -1}
	for i, q := range fn.Params {
		if i < len(params) {
			c.vals[c.key(q, c.it)] = params[i]
		}
	}
	for i, q := range fn.FreeVars {
		if i < len(binds) {
			c.vals[c.key(q, c.it)] = binds[i]
		}
	}
	order := rpoBlocks(fn)
	if !g.cfg.NoUnroll {
		c.unr = unrollable(fn, order)
	}
	lay := c.layout(order)
	// reachable blocks only (Recover block may be outside)
	for _, b := range lay {
		c.first[b] = g.newBlock(fr)
	}
	for _, b := range lay {
		c.it = b.it
		c.cloneBlock(b)
	}
	c.it = -1
	// edges in SSA predecessor order
	for _, b := range lay {
		nb := c.first[b]
		seen := map[vblock]int{}
		for _, vp := range c.preds(b) {
			lp := c.last[vp.p]
			if lp == nil {
				continue
			}
			cond := 0
			if lp.Cond != nil {
				// which successor index?
				k := seen[vp.p]
				cnt := 0
				for si, s := range vp.p.b.Succs {
					if s == b.b {
						if cnt == k {
							cond = si + 1
							break
						}
						cnt++
					}
				}
				seen[vp.p]++
			}
			if lp.Kind != 0 {
				// block ended by a no-return call: keep a placeholder edge index out
				g.deadEdge(lp, nb, cond)
				continue
			}
			g.edge(lp, nb, cond)
		}
	}
	// normalise successor order: true first
	for _, b := range lay {
		lb := c.last[b]
		if lb.Cond != nil && len(lb.Succs) == 2 && lb.Succs[0].Cond == 2 {
			lb.Succs[0], lb.Succs[1] = lb.Succs[1], lb.Succs[0]
		}
	}
	for _, pf := range c.phis {
		for _, vp := range c.preds(pf.at) {
			if c.last[vp.p] == nil {
				continue
			}
			c.it = vp.p.it
			pf.node.Args = append(pf.node.Args, c.val(pf.phi.Edges[vp.idx]))
		}
	}
	c.it = -1
	return c
}

// deadEdge keeps phi positions aligned for predecessors that never continue.
func (g *Graph) deadEdge(a, b *Block, cond int) {
	e := &Edge{From: a, To: b, Idx: len(b.Preds), Cond: cond}
	b.Preds = append(b.Preds, e)
}

func (c *cloner) emit(cur *Block, n *Node) {
	n.Blk = cur
	cur.Nodes = append(cur.Nodes, n)
}

var noReturn = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "log.Panic": true, "log.Panicf": true, "log.Panicln": true,
	"runtime.Goexit": true,
}

func isNoReturn(name string) bool {
	if noReturn[name] {
		return true
	}
	if strings.HasPrefix(name, modPath+"/common/log.") || strings.HasPrefix(name, "("+modPath+"/common/log.") || strings.HasPrefix(name, "(*"+modPath+"/common/log.") ||
		strings.Contains(name, "sirupsen/logrus") {
		i := strings.LastIndexByte(name, '.')
		m := name[i+1:]
		return strings.HasPrefix(m, "Panic") || strings.HasPrefix(m, "Fatal")
	}
	return false
}

func (c *cloner) cloneBlock(vb vblock) {
	g := c.g
	b := vb.b
	cur := c.first[vb]
	u := c.regionOf(b)
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Phi:
			if u != nil && b == u.head {
				// one way in: the value of the round before
				if ps := c.preds(vb); len(ps) == 1 {
					c.it = ps[0].p.it
					v := c.val(in.Edges[ps[0].idx])
					c.it = vb.it
					c.vals[c.key(in, c.it)] = v
					continue
				}
			}
			n := g.newNode(OpPhi, in, in, in.Type(), c.frame)
			c.vals[c.key(in, c.it)] = n
			c.emit(cur, n)
			c.phis = append(c.phis, phiFix{n, in, vb})
		case *ssa.Jump:
		case *ssa.If:
			if u != nil && b == u.head {
				break // the round count decides
			}
			cur.Cond = c.val(in.Cond)
		case *ssa.Return:
			var rs []*Node
			for _, r := range in.Results {
				rs = append(rs, c.val(r))
			}
			n := g.newNode(OpInstr, in, nil, nil, c.frame)
			n.Args = rs
			c.emit(cur, n)
			c.rets = append(c.rets, retInfo{cur, rs})
		case *ssa.Panic:
			n := g.newNode(OpInstr, in, nil, nil, c.frame)
			n.Args = []*Node{c.val(in.X)}
			c.emit(cur, n)
			cur.Kind = 'p'
		case *ssa.Defer:
			d := deferRec{instr: in, blk: cur, sblk: b}
			n := c.callNode(in, &in.Call, cur)
			n.Deferred = true
			c.emit(cur, n)
			d.args = n.Args
			d.fun = n.Dyn
			d.recv = n // template
			c.defs = append(c.defs, d)
		case *ssa.RunDefers:
			cur = c.runDefers(b, cur)
		case *ssa.Go:
			n := c.callNode(in, &in.Call, cur)
			if g.cfg.Go {
				if fn, args, binds := c.resolveInline(n); fn != nil {
					cur = c.inlineAt(n, fn, args, binds, cur, nil)
					if cur.Kind == 'n' {
						c.last[vb] = cur
						return
					}
					continue
				}
			}
			n.Go = true
			c.emit(cur, n)
		case *ssa.Call:
			cur = c.doCall(in, &in.Call, cur, in)
			if cur.Kind == 'n' {
				c.last[vb] = cur
				return
			}
		case *ssa.Extract:
			t := c.val(in.Tuple)
			if t.Op == OpTuple {
				c.vals[c.key(in, c.it)] = t.Args[in.Index]
				continue
			}
			n := g.newNode(OpInstr, in, in, in.Type(), c.frame)
			n.Args = []*Node{t}
			c.vals[c.key(in, c.it)] = n
			c.emit(cur, n)
		default:
			var v ssa.Value
			var t types.Type
			if vv, ok := in.(ssa.Value); ok {
				v = vv
				t = vv.Type()
			}
			n := g.newNode(OpInstr, in, v, t, c.frame)
			for _, o := range in.Operands(nil) {
				if *o == nil {
					n.Args = append(n.Args, nil)
				} else {
					n.Args = append(n.Args, c.val(*o))
				}
			}
			if st, ok := in.(*ssa.Store); ok {
				if al, ok := st.Addr.(*ssa.Alloc); ok && writtenOnce(al) {
					g.cells[n.Args[0]] = n.Args[1]
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				n.Fn = mc.Fn.(*ssa.Function)
				n.Args = n.Args[1:]
			}
			if v != nil {
				c.vals[c.key(v, c.it)] = n
			}
			c.emit(cur, n)
		}
	}
	c.last[vb] = cur
}

// writtenOnce: the local cell holds one function value for its whole life.
func writtenOnce(al *ssa.Alloc) bool {
	if _, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Signature); !ok {
		return false
	}
	n := 0
	var uses func(v ssa.Value, d int) bool
	uses = func(v ssa.Value, d int) bool {
		if v.Referrers() == nil || d > 4 {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val == v {
					return false
				}
				n++
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && (i >= len(fn.FreeVars) || !uses(fn.FreeVars[i], d+1)) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return uses(al, 0) && n == 1
}

// callNode builds an opaque call node.
func (c *cloner) callNode(in ssa.Instruction, cc *ssa.CallCommon, cur *Block) *Node {
	g := c.g
	var v ssa.Value
	var t types.Type
	if vv, ok := in.(ssa.Value); ok {
		v = vv
		t = vv.Type()
	}
	n := g.newNode(OpInstr, in, v, t, c.frame)
	n.pos = cc.Pos()
	if cc.IsInvoke() {
		n.Invoke = cc.Method
		n.Callee = invokeName(cc)
		n.Args = append(n.Args, c.val(cc.Value))
		for _, a := range cc.Args {
			n.Args = append(n.Args, c.val(a))
		}
		return n
	}
	for _, a := range cc.Args {
		n.Args = append(n.Args, c.val(a))
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		n.Builtin = f.Name()
		n.Callee = "builtin." + f.Name()
	case *ssa.Function:
		n.Fn = f
		n.Callee = funcName(f)
	default:
		d := c.val(cc.Value)
		if u, ok := d.Instr.(*ssa.UnOp); ok && u.Op == token.MUL && len(d.Args) == 1 {
			if v := c.g.cells[d.Args[0]]; v != nil {
				d = v
			}
		}
		for d.Instr != nil {
			if _, ok := d.Instr.(*ssa.ChangeType); !ok {
				break
			}
			d = d.Args[0]
		}
		n.Dyn = d
		if d.Op == OpFunc {
			n.Fn = d.Fn
			n.Callee = funcName(d.Fn)
		} else if d.Instr != nil {
			if _, ok := d.Instr.(*ssa.MakeClosure); ok {
				n.Fn = d.Fn
				n.Callee = funcName(d.Fn)
			}
		}
	}
	return n
}

func invokeName(cc *ssa.CallCommon) string {
	t := cc.Value.Type()
	if nt, ok := t.(*types.Named); ok {
		return "(" + types.TypeString(nt, nil) + ")." + cc.Method.Name()
	}
	return cc.Method.FullName()
}

func funcName(f *ssa.Function) string {
	if o := f.Object(); o != nil {
		if fo, ok := o.(*types.Func); ok {
			return fo.FullName()
		}
	}
	if f.Parent() != nil {
		return funcName(f.Parent()) + "$anon"
	}
	return f.String()
}

func (c *cloner) resolveInline(n *Node) (*ssa.Function, []*Node, []*Node) {
	g := c.g
	if n.Invoke != nil {
		recv := n.Args[0]
		r := stripIface(recv)
		var fn *ssa.Function
		if r != nil && r.Instr != nil {
			if mi, ok := r.Instr.(*ssa.MakeInterface); ok {
				ms := g.P.SSA.MethodSets.MethodSet(mi.X.Type())
				sel := ms.Lookup(n.Invoke.Pkg(), n.Invoke.Name())
				if sel != nil {
					fn = g.P.SSA.MethodValue(sel)
					if fn != nil && g.canInline(fn, c.frame) {
						n.Fn = fn
						args := append([]*Node{r.Args[0]}, n.Args[1:]...)
						return fn, args, nil
					}
				}
			}
		}
		if g.cfg.Devirt != nil {
			if fn = g.cfg.Devirt(recv, n.Invoke); fn != nil && g.canInline(fn, c.frame) {
				// receiver: a typed view of the dynamic value
				cv := g.newNode(OpInstr, nil, nil, fn.Params[0].Type(), c.frame)
				cv.Callee = "devirt"
				cv.Args = []*Node{recv}
				n.Fn = fn
				n.Dyn = cv
				args := append([]*Node{cv}, n.Args[1:]...)
				return fn, args, nil
			}
		}
		return nil, nil, nil
	}
	fn := n.Fn
	if fn == nil || n.Builtin != "" || !g.canInline(fn, c.frame) {
		return nil, nil, nil
	}
	var binds []*Node
	if n.Dyn != nil && n.Dyn.Instr != nil {
		if _, ok := n.Dyn.Instr.(*ssa.MakeClosure); ok {
			binds = n.Dyn.Args
		}
	}
	if len(fn.FreeVars) != len(binds) {
		return nil, nil, nil
	}
	return fn, n.Args, binds
}

func stripIface(n *Node) *Node {
	for n != nil && n.Instr != nil {
		if ci, ok := n.Instr.(*ssa.ChangeInterface); ok {
			_ = ci
			n = n.Args[0]
			continue
		}
		return n
	}
	return n
}

func (c *cloner) doCall(in ssa.Instruction, cc *ssa.CallCommon, cur *Block, v ssa.Value) *Block {
	n := c.callNode(in, cc, cur)
	return c.doCallNode(n, cur, v)
}

// closureRunner: library functions known to run their closure argument exactly
// once (or at most once) before returning.
var closureRunner = map[string]string{
	"(*sync.Once).Do":                          "maybe",
	"(*github.com/dgraph-io/badger.DB).View":   "once",
	"(*github.com/dgraph-io/badger.DB).Update": "once",
}

func (c *cloner) doCallNode(n *Node, cur *Block, v ssa.Value) *Block {
	fn, args, binds := c.resolveInline(n)
	if fn == nil {
		if mode := closureRunner[n.Callee]; mode != "" {
			if nb := c.runClosureArg(n, cur, v, mode); nb != nil {
				return nb
			}
		}
		if v != nil {
			c.vals[c.key(v, c.it)] = n
		}
		c.emit(cur, n)
		if isNoReturn(n.Callee) {
			cur.Kind = 'n'
		}
		return cur
	}
	if n.Dyn != nil && n.Dyn.Callee == "devirt" && n.Dyn.Blk == nil {
		c.emit(cur, n.Dyn)
	}
	return c.inlineAt(n, fn, args, binds, cur, v)
}

func (c *cloner) inlineAt(n *Node, fn *ssa.Function, args, binds []*Node, cur *Block, v ssa.Value) *Block {
	g := c.g
	en := g.newNode(OpEnter, n.Instr, nil, nil, c.frame)
	en.Fn = fn
	en.Callee = funcName(fn)
	en.Args = args
	en.pos = n.pos
	c.emit(cur, en)
	n.Blk = cur
	fr := g.newFrame(fn, c.frame, n)
	cc := g.clone(fn, fr, args, binds)
	g.edge(cur, cc.first[vblock{fn.Blocks[0], -1}], 0)
	cont := g.newBlock(c.frame)
	nres := fn.Signature.Results().Len()
	res := make([]*Node, nres)
	live := cc.rets[:0:0]
	for _, r := range cc.rets {
		if r.blk.Kind == 0 {
			live = append(live, r)
		}
	}
	for _, r := range live {
		g.edge(r.blk, cont, 0)
	}
	if len(live) == 0 {
		// never returns
		for i := range res {
			res[i] = g.newNode(OpNondet, nil, nil, fn.Signature.Results().At(i).Type(), c.frame)
		}
		cont.Kind = 'n'
		if v != nil {
			c.setRes(v, res, nres)
		}
		return cont
	}
	for i := 0; i < nres; i++ {
		if len(live) == 1 {
			res[i] = live[0].vals[i]
			continue
		}
		ph := g.newNode(OpPhi, nil, nil, fn.Signature.Results().At(i).Type(), c.frame)
		for _, r := range live {
			ph.Args = append(ph.Args, r.vals[i])
		}
		c.emit(cont, ph)
		res[i] = ph
	}
	lv := g.newNode(OpLeave, n.Instr, nil, nil, c.frame)
	lv.Fn = fn
	lv.Callee = funcName(fn)
	lv.Args = res
	c.emit(cont, lv)
	if v != nil {
		c.setRes(v, res, nres)
	}
	return cont
}

func (c *cloner) setRes(v ssa.Value, res []*Node, nres int) {
	switch nres {
	case 0:
	case 1:
		c.vals[c.key(v, c.it)] = res[0]
	default:
		t := c.g.newNode(OpTuple, nil, v, v.Type(), c.frame)
		t.Args = res
		c.vals[c.key(v, c.it)] = t
	}
}

// runClosureArg models a library call that invokes its func argument.
// The result of the call is: for "once", the closure's error result joined with
// an unknown library error; for "maybe", nothing.
func (c *cloner) runClosureArg(n *Node, cur *Block, v ssa.Value, mode string) *Block {
	g := c.g
	var clo *Node
	for _, a := range n.Args {
		if a.Op == OpFunc {
			clo = a
		} else if a.Instr != nil {
			if _, ok := a.Instr.(*ssa.MakeClosure); ok {
				clo = a
			}
		}
	}
	if clo == nil || clo.Fn == nil || !g.canInline(clo.Fn, c.frame) {
		return nil
	}
	var binds []*Node
	if clo.Op != OpFunc {
		binds = clo.Args
	}
	if len(binds) != len(clo.Fn.FreeVars) {
		return nil
	}
	// the library call itself (effects unknown, result unknown)
	c.emit(cur, n)
	if v != nil {
		c.vals[c.key(v, c.it)] = n
	}
	nd := g.newNode(OpNondet, nil, nil, types.Typ[types.Bool], c.frame)
	cur.Cond = nd
	run := g.newBlock(c.frame)
	skip := g.newBlock(c.frame)
	g.edge(cur, run, 1)
	g.edge(cur, skip, 2)
	var cargs []*Node
	for _, q := range clo.Fn.Params {
		pn := g.newNode(OpParam, nil, q, q.Type(), c.frame)
		cargs = append(cargs, pn)
	}
	call := g.newNode(OpInstr, n.Instr, nil, nil, c.frame)
	call.pos = n.pos
	call.Fn = clo.Fn
	call.Callee = funcName(clo.Fn)
	dummy := &ssa.Const{}
	_ = dummy
	end := c.inlineClosure(call, clo.Fn, cargs, binds, run)
	join := g.newBlock(c.frame)
	var resNode *Node
	if end.Kind == 0 {
		g.edge(end, join, 0)
	}
	g.edge(skip, join, 0)
	if mode == "once" && v != nil && len(c.lastRes) == 1 {
		ph := g.newNode(OpPhi, nil, nil, v.Type(), c.frame)
		if end.Kind == 0 {
			ph.Args = append(ph.Args, c.lastRes[0])
		}
		ph.Args = append(ph.Args, n)
		c.emit(join, ph)
		resNode = ph
		c.vals[c.key(v, c.it)] = resNode
		// on the skip side the library failed before running the closure
		skip.assumeNonNil = n
	}
	return join
}

func (c *cloner) inlineClosure(n *Node, fn *ssa.Function, args, binds []*Node, cur *Block) *Block {
	g := c.g
	c.lastRes = nil
	en := g.newNode(OpEnter, n.Instr, nil, nil, c.frame)
	en.Fn = fn
	en.Callee = funcName(fn)
	en.Args = args
	c.emit(cur, en)
	fr := g.newFrame(fn, c.frame, n)
	n.Blk = cur
	cc := g.clone(fn, fr, args, binds)
	g.edge(cur, cc.first[vblock{fn.Blocks[0], -1}], 0)
	cont := g.newBlock(c.frame)
	var live []retInfo
	for _, r := range cc.rets {
		if r.blk.Kind == 0 {
			live = append(live, r)
			g.edge(r.blk, cont, 0)
		}
	}
	if len(live) == 0 {
		cont.Kind = 'n'
		return cont
	}
	nres := fn.Signature.Results().Len()
	for i := 0; i < nres; i++ {
		if len(live) == 1 {
			c.lastRes = append(c.lastRes, live[0].vals[i])
			continue
		}
		ph := g.newNode(OpPhi, nil, nil, fn.Signature.Results().At(i).Type(), c.frame)
		for _, r := range live {
			ph.Args = append(ph.Args, r.vals[i])
		}
		c.emit(cont, ph)
		c.lastRes = append(c.lastRes, ph)
	}
	return cont
}

func (c *cloner) runDefers(b *ssa.BasicBlock, cur *Block) *Block {
	g := c.g
	for i := len(c.defs) - 1; i >= 0; i-- {
		d := c.defs[i]
		run := func(at *Block) *Block {
			n := g.newNode(OpInstr, d.instr, nil, nil, c.frame)
			t := d.recv
			n.Args, n.Callee, n.Fn, n.Invoke, n.Builtin, n.Dyn, n.pos = t.Args, t.Callee, t.Fn, t.Invoke, t.Builtin, t.Dyn, t.pos
			return c.doCallNode(n, at, nil)
		}
		if d.sblk.Dominates(b) {
			cur = run(cur)
			if cur.Kind != 0 {
				return cur
			}
			continue
		}
		if !reaches(d.sblk, b) {
			continue
		}
		nd := g.newNode(OpNondet, nil, nil, types.Typ[types.Bool], c.frame)
		nd.Callee = fmt.Sprintf("deferreg:%d", d.recv.ID)
		nd.DeferOf = d.recv
		d.recv.CondReg = true
		cur.Cond = nd
		yes := g.newBlock(c.frame)
		join := g.newBlock(c.frame)
		no := g.newBlock(c.frame)
		g.edge(cur, yes, 1)
		g.edge(cur, no, 2)
		end := run(yes)
		if end.Kind == 0 {
			g.edge(end, join, 0)
		}
		g.edge(no, join, 0)
		cur = join
	}
	return cur
}

// rpoBlocks: reverse postorder, so that dominators come before what they
// dominate and a defer statement before every exit it reaches.
func rpoBlocks(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				walk(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	walk(fn.Blocks[0])
	out := make([]*ssa.BasicBlock, 0, len(post))
	for i := len(post) - 1; i >= 0; i-- {
		out = append(out, post[i])
	}
	for _, b := range fn.DomPreorder() {
		if !seen[b] {
			out = append(out, b)
		}
	}
	return out
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{a}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

// finish computes RPO, loop headers and loop membership.
func (g *Graph) finish() {
	state := map[*Block]int{}
	var post []*Block
	type back struct{ from, to *Block }
	var backs []back
	type item struct {
		b *Block
		i int
	}
	st := []item{{g.Entry, 0}}
	state[g.Entry] = 1
	for len(st) > 0 {
		it := &st[len(st)-1]
		if it.i < len(it.b.Succs) {
			s := it.b.Succs[it.i].To
			it.i++
			switch state[s] {
			case 0:
				state[s] = 1
				st = append(st, item{s, 0})
			case 1:
				s.loopHead = true
				backs = append(backs, back{it.b, s})
			}
			continue
		}
		state[it.b] = 2
		post = append(post, it.b)
		st = st[:len(st)-1]
	}
	for i, b := range post {
		b.rpo = len(post) - 1 - i
	}
	for _, b := range g.Blocks {
		if state[b] == 0 {
			b.rpo = -1
		}
		b.loops = map[*Block]bool{}
	}
	for _, bk := range backs {
		// natural loop
		body := map[*Block]bool{bk.to: true}
		w := []*Block{bk.from}
		for len(w) > 0 {
			x := w[len(w)-1]
			w = w[:len(w)-1]
			if body[x] {
				continue
			}
			body[x] = true
			for _, p := range x.Preds {
				if p.From.rpo >= 0 {
					w = append(w, p.From)
				}
			}
		}
		for x := range body {
			x.loops[bk.to] = true
		}
	}
}

func (g *Graph) pos(n *Node) string {
	p := n.pos
	if p == token.NoPos && n.Instr != nil {
		p = n.Instr.Pos()
	}
	if p == token.NoPos && n.V != nil {
		p = n.V.Pos()
	}
	fr := n.Frame
	for p == token.NoPos && fr != nil {
		p = fr.Fn.Pos()
		fr = fr.Parent
	}
	ps := g.P.SSA.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, g.P.Dir+"/"), ps.Line)
}

func (n *Node) isCall() bool {
	if n.Op != OpInstr {
		return false
	}
	switch n.Instr.(type) {
	case *ssa.Call:
		return true
	case *ssa.Defer:
		return !n.Deferred // expanded deferred call
	case *ssa.Go:
		return false
	}
	return false
}

func (n *Node) String() string {
	if n == nil {
		return "<nil>"
	}
	switch n.Op {
	case OpConst:
		return "const " + n.V.String()
	case OpPhi:
		s := fmt.Sprintf("n%d = phi", n.ID)
		for _, a := range n.Args {
			s += fmt.Sprintf(" n%d", a.ID)
		}
		return s
	}
	s := fmt.Sprintf("n%d op%d", n.ID, n.Op)
	if n.Instr != nil {
		s += fmt.Sprintf(" [%T %s]", n.Instr, n.Instr)
	} else if n.V != nil {
		s += " " + n.V.Name()
	}
	if n.Callee != "" {
		s += " callee=" + short(n.Callee)
	}
	for _, a := range n.Args {
		if a != nil {
			s += fmt.Sprintf(" n%d", a.ID)
		}
	}
	return s
}

func (g *Graph) Dump() {
	for _, b := range g.Blocks {
		fmt.Printf("B%d (%s) rpo=%d head=%v kind=%c\n", b.ID, short(b.Frame.Fn.String()), b.rpo, b.loopHead, b.Kind)
		for _, n := range b.Nodes {
			fmt.Println("   ", n)
		}
		if b.Cond != nil {
			fmt.Println("    if", b.Cond)
		}
		for _, e := range b.Succs {
			fmt.Printf("    -> B%d (c%d, idx %d)\n", e.To.ID, e.Cond, e.Idx)
		}
	}
}

func (e *Edge) isBack() bool { return e.To.loopHead && e.To.rpo <= e.From.rpo }
