package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flow-sensitive, partitioned abstract interpretation over the inlined graph.
// A state maps live nodes to terms, known memory cells to terms, holds a set of
// branch facts that are true on every path reaching the point (within the
// partition), and rule-defined must/may events.

type Fact struct {
	T   *Term
	Val bool
}

type Event struct {
	Key  string
	Tag  string
	Args []*Term
	N    *Node
}

type memCell struct {
	addr *Term
	val  *Term
}

type State struct {
	fl    *Flow
	env   map[*Node]*Term
	mem   map[string]memCell
	facts map[string]Fact
	must  map[string]*Event
	may   map[string]*Event
	dead  bool
	defs  map[int]int // conditional defers: 1 registered, 2 maybe
}

func (s *State) clone() *State {
	n := &State{fl: s.fl, env: make(map[*Node]*Term, len(s.env)+8), mem: make(map[string]memCell, len(s.mem)+8),
		facts: make(map[string]Fact, len(s.facts)+8), must: make(map[string]*Event, len(s.must)+4), may: make(map[string]*Event, len(s.may)+4)}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.must {
		n.must[k] = v
	}
	for k, v := range s.may {
		n.may[k] = v
	}
	if len(s.defs) > 0 {
		n.defs = make(map[int]int, len(s.defs)+1)
		for k, v := range s.defs {
			n.defs[k] = v
		}
	}
	return n
}

type FlowCfg struct {
	MaxStates int
	Numeric   bool
	// Pre runs before the transfer of a node.
	Pre func(st *State, n *Node, args []*Term, final bool)
	// Hook runs after the transfer of a node (args evaluated before it).
	Hook func(st *State, n *Node, args []*Term, res *Term, final bool)
	// Exit runs in the final pass on root returns (rets) .
	Exit func(st *State, b *Block, rets []*Term)
	// Part refines the state partition.
	Part func(st *State) string
	// Assume sees every branch assumption (after it has been added); final pass included.
	OnAssume func(st *State, t *Term, val bool, final bool)
	// OnBack sees the state on every loop back edge (before phis are updated).
	OnBack func(st *State, e *Edge, final bool)
	// OnHead sees the state entering a loop head with the values its phis take (before they become symbols);
	// the function it returns runs after everything about the old symbols was forgotten.
	OnHead func(st *State, e *Edge, phis []PhiIn) func()
	// PureExtra: additional pure functions
	PureExtra map[string]bool
	// Rewiden: once the fixpoint is known, run again with the cells each loop changes named at its head from
	// the start, so that values of the first iteration do not blur what follows the loop.
	Rewiden bool
	// NoKill: calls assumed not to write memory reachable from their arguments
	NoKill func(callee string) bool
	// Init prepares the state at the entry of the root (assumptions, events).
	Init func(st *State)
}

// PhiIn: a loop-head phi, the value flowing in and the symbol it becomes.
type PhiIn struct {
	N       *Node
	In, Sym *Term
}

type Flow struct {
	g          *Graph
	ts         *terms
	cfg        FlowCfg
	in         map[*Block]map[string]*State
	over       map[*Block]bool
	livein     map[*Block]map[*Node]bool
	intPhis    []*Node
	intLive    map[*Node]map[*Block]bool
	intCell    []*Node // alloc nodes
	cellLiv    map[*Node]map[*Block]bool
	final      bool
	steps      int
	edges      int
	mutGlob    map[string]bool
	reached    map[*Node]bool
	viaBack    bool
	cur        *Block
	stored     map[string]map[*Block]bool
	bodies     map[*Block]map[*Block]bool
	widened    map[*Block]map[string]bool
	phiIn      map[*Node][]*Term // loop-head phis: terms flowing in per edge (for bounds)
	proveDepth int
}

func NewFlow(g *Graph, cfg FlowCfg) *Flow {
	if cfg.MaxStates == 0 {
		cfg.MaxStates = 48
	}
	f := &Flow{g: g, ts: &terms{tab: map[string]*Term{}}, cfg: cfg, in: map[*Block]map[string]*State{}, over: map[*Block]bool{}, reached: map[*Node]bool{}, phiIn: map[*Node][]*Term{}, widened: map[*Block]map[string]bool{}}
	f.mutGlob = g.P.mutableGlobals()
	f.liveness()
	f.interesting()
	return f
}

var mutGlobCache map[string]bool

func (p *Program) mutableGlobals() map[string]bool {
	if mutGlobCache != nil {
		return mutGlobCache
	}
	m := map[string]bool{}
	for _, fn := range p.funcs {
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && !isInit {
						m[g.String()] = true
					}
				} else if !isInit {
					// address taken by anything but load
					for _, o := range in.Operands(nil) {
						if g, ok := (*o).(*ssa.Global); ok {
							if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
								continue
							}
							switch in.(type) {
							case *ssa.FieldAddr, *ssa.IndexAddr:
								continue
							}
							m[g.String()] = true
						}
					}
				}
			}
		}
	}
	mutGlobCache = m
	return m
}

var constGlobCache map[string]constant.Value

// constGlobal: the constant value of a package variable that is only set by its initialiser (nil if unknown).
func (p *Program) constGlobal(name string) constant.Value {
	if constGlobCache == nil {
		constGlobCache = map[string]constant.Value{}
		mut := p.mutableGlobals()
		cnt := map[string]int{}
		for _, fn := range p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := st.Addr.(*ssa.Global)
					if !ok || mut[g.String()] {
						continue
					}
					cnt[g.String()]++
					if v := foldConst(st.Val); v != nil {
						constGlobCache[g.String()] = v
					}
				}
			}
		}
		for k, n := range cnt {
			if n != 1 {
				delete(constGlobCache, k)
			}
		}
	}
	return constGlobCache[name]
}

// foldConst evaluates an initialiser expression made of constants.
func foldConst(v ssa.Value) constant.Value {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return x.Value
		}
	case *ssa.Convert:
		c := foldConst(x.X)
		b, ok := x.Type().Underlying().(*types.Basic)
		if c == nil || !ok {
			return nil
		}
		switch {
		case b.Info()&types.IsInteger != 0:
			if c.Kind() == constant.Int {
				if fitsType(c, x.Type()) {
					return c
				}
				return nil
			}
			if i := constant.ToInt(c); i.Kind() == constant.Int && fitsType(i, x.Type()) {
				return i
			}
		case b.Info()&types.IsFloat != 0 && (c.Kind() == constant.Int || c.Kind() == constant.Float):
			return constant.ToFloat(c)
		}
	case *ssa.ChangeType:
		return foldConst(x.X)
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		if fn == nil || len(x.Call.Args) != 1 {
			return nil
		}
		c := foldConst(x.Call.Args[0])
		if c == nil {
			return nil
		}
		switch fn.String() {
		case "math.Ceil", "math.Floor":
			fv, _ := constant.Float64Val(c)
			if fn.String() == "math.Ceil" {
				fv = math.Ceil(fv)
			} else {
				fv = math.Floor(fv)
			}
			return constant.MakeFloat64(fv)
		}
	}
	return nil
}

func (f *Flow) liveness() {
	g := f.g
	use := map[*Block]map[*Node]bool{}
	def := map[*Block]map[*Node]bool{}
	f.livein = map[*Block]map[*Node]bool{}
	liveout := map[*Block]map[*Node]bool{}
	isVal := func(n *Node) bool {
		return n != nil && (n.Op == OpPhi || n.Op == OpInstr || n.Op == OpTuple)
	}
	var addUse func(b *Block, n *Node)
	addUse = func(b *Block, n *Node) {
		if n == nil {
			return
		}
		if n.Op == OpTuple {
			for _, a := range n.Args {
				addUse(b, a)
			}
			return
		}
		if isVal(n) && !def[b][n] {
			use[b][n] = true
		}
	}
	for _, b := range g.Blocks {
		use[b] = map[*Node]bool{}
		def[b] = map[*Node]bool{}
		for _, n := range b.Nodes {
			if n.Op != OpPhi {
				for _, a := range n.Args {
					addUse(b, a)
				}
				if n.Dyn != nil {
					addUse(b, n.Dyn)
				}
			}
			def[b][n] = true
		}
		addUse(b, b.Cond)
		for _, r := range b.Ret {
			addUse(b, r)
		}
		if b.assumeNonNil != nil {
			addUse(b, b.assumeNonNil)
		}
		f.livein[b] = map[*Node]bool{}
		liveout[b] = map[*Node]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(g.Blocks) - 1; i >= 0; i-- {
			b := g.Blocks[i]
			lo := liveout[b]
			for _, e := range b.Succs {
				for n := range f.livein[e.To] {
					if !lo[n] {
						lo[n] = true
						changed = true
					}
				}
				for _, n := range e.To.Nodes {
					if n.Op != OpPhi {
						break
					}
					if e.Idx < len(n.Args) {
						a := n.Args[e.Idx]
						if isVal(a) && !lo[a] {
							lo[a] = true
							changed = true
						}
					}
				}
			}
			li := f.livein[b]
			for n := range use[b] {
				if !li[n] {
					li[n] = true
					changed = true
				}
			}
			for n := range lo {
				if !def[b][n] && !li[n] {
					li[n] = true
					changed = true
				}
			}
		}
	}
}

func (f *Flow) interesting() {
	g := f.g
	f.intLive = map[*Node]map[*Block]bool{}
	f.cellLiv = map[*Node]map[*Block]bool{}
	useBlk := map[*Node]map[*Block]bool{}
	cellUse := map[*Node]map[*Block]bool{}
	var slice func(n *Node, at *Block, depth int)
	visited := map[string]bool{}
	slice = func(n *Node, at *Block, depth int) {
		if n == nil || depth > 12 {
			return
		}
		k := fmt.Sprintf("%d@%d", n.ID, at.ID)
		if visited[k] {
			return
		}
		visited[k] = true
		switch n.Op {
		case OpPhi:
			if useBlk[n] == nil {
				useBlk[n] = map[*Block]bool{}
			}
			useBlk[n][at] = true
			for i, a := range n.Args {
				if i < len(n.Blk.Preds) {
					slice(a, n.Blk.Preds[i].From, depth+1)
				}
			}
		case OpInstr:
			switch in := n.Instr.(type) {
			case *ssa.BinOp:
				slice(n.Args[0], at, depth+1)
				slice(n.Args[1], at, depth+1)
			case *ssa.UnOp:
				if in.Op == token.MUL {
					if a := n.Args[0]; a.Instr != nil {
						if _, ok := a.Instr.(*ssa.Alloc); ok {
							if cellUse[a] == nil {
								cellUse[a] = map[*Block]bool{}
							}
							cellUse[a][n.Blk] = true
							// stored values
						}
					}
				} else if in.Op == token.NOT {
					slice(n.Args[0], at, depth+1)
				}
			case *ssa.ChangeInterface, *ssa.ChangeType, *ssa.MakeInterface, *ssa.TypeAssert:
				slice(n.Args[0], at, depth+1)
			case *ssa.Extract:
				if n.Args[0].Instr != nil {
					if _, ok := n.Args[0].Instr.(*ssa.TypeAssert); ok {
						slice(n.Args[0].Args[0], at, depth+1)
					}
				}
			}
		}
	}
	for _, b := range g.Blocks {
		if b.Cond != nil && b.rpo >= 0 {
			slice(b.Cond, b, 0)
		}
	}
	back := func(uses map[*Block]bool, stop *Block) map[*Block]bool {
		live := map[*Block]bool{}
		var w []*Block
		for b := range uses {
			w = append(w, b)
		}
		for len(w) > 0 {
			b := w[len(w)-1]
			w = w[:len(w)-1]
			if live[b] {
				continue
			}
			live[b] = true
			if b == stop {
				continue
			}
			for _, e := range b.Preds {
				w = append(w, e.From)
			}
		}
		return live
	}
	for p, us := range useBlk {
		if p.Blk.loopHead {
			continue
		}
		f.intPhis = append(f.intPhis, p)
		f.intLive[p] = back(us, p.Blk)
	}
	for c, us := range cellUse {
		f.intCell = append(f.intCell, c)
		f.cellLiv[c] = back(us, c.Blk)
	}
	sort.Slice(f.intPhis, func(i, j int) bool { return f.intPhis[i].ID < f.intPhis[j].ID })
	sort.Slice(f.intCell, func(i, j int) bool { return f.intCell[i].ID < f.intCell[j].ID })
}

// class is the part of a term's identity the partition distinguishes.
func (s *State) class(t *Term) string {
	if t == nil {
		return "?"
	}
	if t.isNil() {
		return "0"
	}
	if t.isConst() {
		return t.C.ExactString()
	}
	if s.fl.ts.nonNil(t) {
		if t.K == TGVar {
			return t.Op
		}
		return "N"
	}
	if f, ok := s.facts[t.key]; ok {
		if f.Val {
			return "T"
		}
		return "F"
	}
	if t.T != nil && nilable(t.T) {
		if v, ok := s.decide(s.fl.ts.bin(token.EQL, t, s.fl.ts.nilC(t.T), types.Typ[types.Bool])); ok {
			if v {
				return "0"
			}
			return "N"
		}
	}
	return "?"
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func (f *Flow) partKey(b *Block, s *State) string {
	var sb strings.Builder
	for _, p := range f.intPhis {
		if f.intLive[p][b] {
			if t, ok := s.env[p]; ok {
				if c := s.class(t); c != "?" {
					fmt.Fprintf(&sb, "%d=%s;", p.ID, c)
				}
			}
		}
	}
	for _, c := range f.intCell {
		if f.cellLiv[c][b] {
			if m, ok := s.mem[f.allocTerm(c).key]; ok {
				if cl := s.class(m.val); cl != "?" {
					fmt.Fprintf(&sb, "a%d=%s;", c.ID, cl)
				}
			}
		}
	}
	if len(s.defs) > 0 {
		ids := make([]int, 0, len(s.defs))
		for k := range s.defs {
			ids = append(ids, k)
		}
		sort.Ints(ids)
		for _, k := range ids {
			fmt.Fprintf(&sb, "d%d=%d;", k, s.defs[k])
		}
	}
	if f.cfg.Part != nil {
		sb.WriteString("|" + f.cfg.Part(s))
	}
	return sb.String()
}

func (f *Flow) allocTerm(n *Node) *Term { return f.ts.mk(Term{K: TAlloc, N: n, T: n.Typ}) }
func (f *Flow) sym(n *Node) *Term       { return f.ts.mk(Term{K: TSym, N: n, T: n.Typ}) }

// val evaluates a node in the state.
func (s *State) val(n *Node) *Term {
	if n == nil {
		return nil
	}
	f := s.fl
	switch n.Op {
	case OpConst:
		if n.Const == nil {
			return f.ts.zero(n.Typ)
		}
		return f.ts.mk(Term{K: TConst, C: n.Const, T: n.Typ})
	case OpGlobal:
		return f.ts.mk(Term{K: TGlobal, Op: n.V.String(), T: n.Typ})
	case OpFunc:
		return f.ts.mk(Term{K: TFunc, Op: n.Fn.String(), T: n.Typ, N: n})
	case OpTuple:
		var as []*Term
		for _, a := range n.Args {
			as = append(as, s.val(a))
		}
		return f.ts.mk(Term{K: TStruct, Args: as, T: n.Typ})
	case OpParam, OpFree, OpNondet:
		return f.sym(n)
	}
	if t, ok := s.env[n]; ok {
		return t
	}
	return f.sym(n)
}

// Run performs the fixpoint and then the final (reporting) pass.
func (f *Flow) Run() {
	init := &State{fl: f, env: map[*Node]*Term{}, mem: map[string]memCell{}, facts: map[string]Fact{}, must: map[string]*Event{}, may: map[string]*Event{}}
	if f.cfg.Init != nil {
		f.cfg.Init(init)
	}
	f.in[f.g.Entry] = map[string]*State{"": init}
	type wk struct {
		b *Block
		k string
	}
	budget := 400000
	rounds := 0
again:
	rounds++
	nwid := f.nwid()
	pending := map[wk]bool{{f.g.Entry, ""}: true}
	for len(pending) > 0 {
		var best wk
		first := true
		for w := range pending {
			if first || w.b.rpo < best.b.rpo || (w.b.rpo == best.b.rpo && w.k < best.k) {
				best = w
				first = false
			}
		}
		delete(pending, best)
		f.steps++
		if f.steps > budget {
			panic(fmt.Sprintf("flow: budget exceeded on %s", f.g.Root))
		}
		st := f.in[best.b][best.k]
		outs := f.execBlock(best.b, st.clone())
		for _, o := range outs {
			key := f.partKey(o.to, o.st)
			m := f.in[o.to]
			if m == nil {
				m = map[string]*State{}
				f.in[o.to] = m
			}
			if _, ok := m[key]; !ok && (f.over[o.to] || len(m) >= f.cfg.MaxStates) {
				f.over[o.to] = true
				key = "*"
			}
			old := m[key]
			f.viaBack = o.back
			if old == nil {
				m[key] = o.st
				pending[wk{o.to, key}] = true
			} else if f.joinInto(o.to, old, o.st) {
				pending[wk{o.to, key}] = true
			}
		}
	}
	if f.cfg.Rewiden && f.nwid() > nwid && rounds < 5 {
		f.in = map[*Block]map[string]*State{f.g.Entry: {"": {fl: f, env: map[*Node]*Term{}, mem: map[string]memCell{}, facts: map[string]Fact{}, must: map[string]*Event{}, may: map[string]*Event{}}}}
		if f.cfg.Init != nil {
			f.cfg.Init(f.in[f.g.Entry][""])
		}
		f.over, f.reached, f.phiIn = map[*Block]bool{}, map[*Node]bool{}, map[*Node][]*Term{}
		goto again
	}
	f.final = true
	blocks := append([]*Block(nil), f.g.Blocks...)
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].rpo < blocks[j].rpo })
	for _, b := range blocks {
		for _, k := range sortedKeys(f.in[b]) {
			f.execBlock(b, f.in[b][k].clone())
		}
	}
}

type outState struct {
	to   *Block
	st   *State
	back bool
}

func (f *Flow) execBlock(b *Block, s *State) []outState {
	f.cur = b
	if b.assumeNonNil != nil {
		t := s.val(b.assumeNonNil)
		s.assume(f.ts.bin(token.EQL, t, f.ts.nilC(t.T), types.Typ[types.Bool]), false)
	}
	for _, n := range b.Nodes {
		if n.Op == OpPhi {
			continue
		}
		f.reached[n] = true
		f.exec(s, n)
		if s.dead {
			return nil
		}
	}
	if b.Kind == 'r' {
		if f.final && f.cfg.Exit != nil {
			var rs []*Term
			for _, r := range b.Ret {
				rs = append(rs, s.val(r))
			}
			f.cfg.Exit(s, b, rs)
		}
		return nil
	}
	if b.Kind != 0 {
		return nil
	}
	var outs []outState
	for _, e := range b.Succs {
		ns := s
		if len(b.Succs) > 1 {
			ns = s.clone()
		}
		if e.Cond != 0 && b.Cond != nil {
			c := s.val(b.Cond)
			want := e.Cond == 1
			if b.Cond.DeferOf != nil {
				if r := s.defs[b.Cond.DeferOf.ID]; r == 1 && !want || r == 0 && want {
					continue
				}
				delete(ns.defs, b.Cond.DeferOf.ID)
			}
			if v, ok := ns.decide(c); ok {
				if v != want {
					continue
				}
			}
			if b.Cond.Op != OpNondet {
				if !ns.assume(c, want) {
					continue
				}
				if f.cfg.OnAssume != nil {
					f.cfg.OnAssume(ns, c, want, f.final)
				}
			}
		}
		f.edges++
		if f.cfg.OnBack != nil && e.To.loopHead && e.To.rpo <= b.rpo {
			f.cfg.OnBack(ns, e, f.final)
		}
		f.enter(e, ns)
		outs = append(outs, outState{e.To, ns, e.isBack()})
	}
	return outs
}

// enter applies phi assignments and prunes the environment to live values.
func (f *Flow) enter(e *Edge, s *State) {
	to := e.To
	type pa struct {
		n *Node
		t *Term
	}
	var as []pa
	var ph []PhiIn
	for _, n := range to.Nodes {
		if n.Op != OpPhi {
			break
		}
		if e.Idx >= len(n.Args) {
			as = append(as, pa{n, f.sym(n)})
			continue
		}
		t := s.val(n.Args[e.Idx])
		if to.loopHead {
			for len(f.phiIn[n]) <= e.Idx {
				f.phiIn[n] = append(f.phiIn[n], nil)
			}
			if f.phiIn[n][e.Idx] == nil {
				f.phiIn[n][e.Idx] = t
			} else if f.phiIn[n][e.Idx] != t {
				f.phiIn[n][e.Idx] = f.sym(n.Args[e.Idx])
			}
			ph = append(ph, PhiIn{n, t, f.sym(n)})
			t = f.sym(n)
		}
		as = append(as, pa{n, t})
	}
	var after func()
	if to.loopHead && f.cfg.OnHead != nil {
		after = f.cfg.OnHead(s, e, ph)
	}
	if to.loopHead {
		for _, n := range to.Nodes {
			if n.Op == OpPhi {
				s.killSym(n.ID)
			} else {
				break
			}
		}
		var w []*Term
		for k := range f.widened[to] {
			if m, ok := s.mem[k]; ok && !m.addr.hasSym(-(to.ID + 1)) {
				w = append(w, f.ts.mk(Term{K: TMem, I: to.ID, Args: []*Term{m.addr}, T: m.val.T}))
			}
		}
		s.killSym(-(to.ID + 1))
		for _, t := range w {
			s.mem[t.Args[0].key] = memCell{t.Args[0], t}
		}
	}
	if after != nil {
		after()
	}
	for _, a := range as {
		s.env[a.n] = a.t
	}
	li := f.livein[to]
	for n := range s.env {
		if !li[n] && n.Blk != to {
			delete(s.env, n)
		}
	}
}

func (s *State) killSym(id int) {
	for k, fa := range s.facts {
		if fa.T.hasSym(id) {
			delete(s.facts, k)
		}
	}
	for k, m := range s.mem {
		if m.addr.hasSym(id) || m.val.hasSym(id) {
			delete(s.mem, k)
		}
	}
	for k, e := range s.must {
		for _, a := range e.Args {
			if a != nil && a.hasSym(id) {
				delete(s.must, k)
				break
			}
		}
	}
}

func (f *Flow) joinTerm(a, b *Term, n *Node, path int, depth int) *Term {
	if a == b {
		return a
	}
	if depth < 4 && a.K == b.K && a.Op == b.Op && a.I == b.I && a.N == b.N && len(a.Args) == len(b.Args) && len(a.Args) > 0 {
		switch a.K {
		case TCall, TExtract, TIface, TField, TStruct, TConv, TBin, TNot, TAppend, TSlice:
			args := make([]*Term, len(a.Args))
			for i := range a.Args {
				if a.Args[i] == nil || b.Args[i] == nil {
					if a.Args[i] != b.Args[i] {
						goto unk
					}
					continue
				}
				args[i] = f.joinTerm(a.Args[i], b.Args[i], n, path*8+i+1, depth+1)
			}
			return f.ts.mk(Term{K: a.K, Op: a.Op, I: a.I, N: a.N, Args: args, T: a.T, C: a.C})
		}
	}
unk:
	if depth == 0 {
		return f.sym(n)
	}
	return f.ts.mk(Term{K: TUnk, N: n, I: path, T: a.T})
}

// joinInto merges src into dst; reports whether dst changed.
func (f *Flow) joinInto(b *Block, dst, src *State) bool {
	ch := false
	for k, v := range dst.defs {
		if v != 2 && src.defs[k] != v {
			dst.defs[k] = 2
			ch = true
		}
	}
	for k, v := range src.defs {
		if _, ok := dst.defs[k]; !ok && v != 0 {
			if dst.defs == nil {
				dst.defs = map[int]int{}
			}
			dst.defs[k] = 2
			ch = true
		}
	}
	for n, t := range dst.env {
		u, ok := src.env[n]
		if !ok {
			delete(dst.env, n)
			ch = true
			continue
		}
		if u != t {
			j := f.joinTerm(t, u, n, 0, 0)
			if j != t {
				dst.env[n] = j
				ch = true
			}
		}
	}
	for k, m := range dst.mem {
		u, ok := src.mem[k]
		if !ok {
			delete(dst.mem, k)
			ch = true
			continue
		}
		if u.val != m.val {
			j := f.ts.mk(Term{K: TMem, I: b.ID, Args: []*Term{m.addr}, T: m.val.T})
			if f.cfg.Rewiden && f.viaBack && f.storedIn(b, k) {
				if f.widened[b] == nil {
					f.widened[b] = map[string]bool{}
				}
				f.widened[b][k] = true
			}
			if j != m.val {
				dst.mem[k] = memCell{m.addr, j}
				ch = true
			}
		}
	}
	for k, fa := range dst.facts {
		u, ok := src.facts[k]
		if !ok || u.Val != fa.Val {
			delete(dst.facts, k)
			ch = true
		}
	}
	for k, e := range dst.must {
		u, ok := src.must[k]
		if !ok {
			delete(dst.must, k)
			ch = true
			continue
		}
		if u != e && !sameArgs(u.Args, e.Args) {
			na := make([]*Term, len(e.Args))
			diff := false
			for i := range na {
				if i < len(u.Args) && e.Args[i] == u.Args[i] {
					na[i] = e.Args[i]
				}
				if na[i] != e.Args[i] {
					diff = true
				}
			}
			if diff {
				dst.must[k] = &Event{Key: e.Key, Tag: e.Tag, Args: na, N: e.N}
				ch = true
			}
		}
	}
	for k, e := range src.may {
		if _, ok := dst.may[k]; !ok {
			dst.may[k] = e
			ch = true
		}
	}
	return ch
}

func sameArgs(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// assume adds a branch fact; false if contradictory.
func (s *State) assume(t *Term, val bool) bool {
	for t.K == TNot {
		t = t.Args[0]
		val = !val
	}
	if b, ok := t.boolVal(); ok {
		return b == val
	}
	if f, ok := s.facts[t.key]; ok {
		return f.Val == val
	}
	s.facts[t.key] = Fact{t, val}
	if t.K == TPure && t.Op == "seltag" {
		return true
	}
	return true
}

// decide: truth value of a boolean term implied by the facts.
func (s *State) decide(t *Term) (bool, bool) {
	neg := false
	for t.K == TNot {
		t = t.Args[0]
		neg = !neg
	}
	if b, ok := t.boolVal(); ok {
		return b != neg, true
	}
	if f, ok := s.facts[t.key]; ok {
		return f.Val != neg, true
	}
	if t.K == TBin && t.Op == "==" {
		a, b := t.Args[0], t.Args[1]
		if b.K == TConst || b.K == TGVar {
			a, b = b, a
		}
		// a is constant-like
		if a.K == TConst || a.K == TGVar {
			for _, f := range s.facts {
				if !f.Val || f.T.K != TBin || f.T.Op != "==" {
					continue
				}
				x, y := f.T.Args[0], f.T.Args[1]
				if x == b {
					x, y = y, x
				}
				if y == b && x != a {
					if distinct(x, a) {
						return neg, true
					}
				}
			}
		}
	}
	if s.fl.cfg.Numeric && t.K == TBin && (t.Op == "<" || t.Op == "==") && isIntTerm(t.Args[0]) && isIntTerm(t.Args[1]) {
		if v, ok := s.decideNum(t); ok {
			return v != neg, true
		}
	}
	return false, false
}

// distinct: two constant-like terms that cannot be equal.
func distinct(a, b *Term) bool {
	if a.isConst() && b.isConst() {
		return a.C.Kind() == b.C.Kind() && !constant.Compare(a.C, token.EQL, b.C)
	}
	if a.isNil() && b.K == TGVar && isErrVar(b) || b.isNil() && a.K == TGVar && isErrVar(a) {
		return true
	}
	if a.isNil() && b.isConst() || b.isNil() && a.isConst() {
		return true
	}
	if a.K == TGVar && b.K == TGVar && isErrVar(a) && isErrVar(b) {
		return a != b
	}
	return false
}

func (s *State) addMust(key, tag string, n *Node, args ...*Term) {
	s.must[key] = &Event{Key: key, Tag: tag, Args: args, N: n}
}
func (s *State) addMay(key, tag string, n *Node, args ...*Term) {
	if _, ok := s.may[key]; !ok {
		s.may[key] = &Event{Key: key, Tag: tag, Args: args, N: n}
	}
}

// ---- memory ----

func (f *Flow) isLocal(t *Term) bool { return t.K == TAlloc || t.K == TMake }

func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := a.root(), b.root()
	if ra != rb {
		if s.fl.isLocal(ra) && s.fl.isLocal(rb) {
			return false
		}
		if s.fl.isLocal(ra) && !s.escapes(ra) || s.fl.isLocal(rb) && !s.escapes(rb) {
			// a fresh object is reached only through its own name unless it escaped
			return false
		}
	}
	if a.K != b.K {
		// a whole-object store vs sub-path: handled by prefix logic
		return a.contains(b) || b.contains(a)
	}
	switch a.K {
	case TFieldAddr:
		if a.I != b.I {
			return false
		}
		if !types.Identical(a.T, b.T) {
			return false
		}
		if ea, eb := elemOf(a.Args[0].T), elemOf(b.Args[0].T); ea != nil && eb != nil && !types.Identical(ea.Underlying(), eb.Underlying()) {
			return false // fields of different structs
		}
		return s.mayAlias(a.Args[0], b.Args[0])
	case TIndexAddr:
		ia, ok1 := a.Args[1].intVal()
		ib, ok2 := b.Args[1].intVal()
		if ok1 && ok2 && ia != ib && a.Args[0] == b.Args[0] {
			return false
		}
		if a.T != nil && b.T != nil && !types.Identical(a.T, b.T) {
			return false
		}
		return true
	case TGlobal:
		return a == b
	case TAlloc:
		return a == b
	}
	if a.T != nil && b.T != nil && !types.Identical(a.T, b.T) {
		return false
	}
	return true
}

// escapes: has the address of the fresh object been stored anywhere we know of?
func (s *State) escapes(a *Term) bool {
	for _, m := range s.mem {
		if m.val == a || (m.val.K == TIface && m.val.Args[0] == a) {
			return true
		}
	}
	return false
}

func (s *State) killAddr(a *Term) {
	for k, m := range s.mem {
		if k == a.key {
			continue
		}
		if s.mayAlias(m.addr, a) {
			delete(s.mem, k)
		}
	}
}

func elemOf(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (s *State) store(addr, v *Term) {
	f := s.fl
	// explode known whole values above this path
	s.explode(addr)
	// drop sub-paths
	for k, m := range s.mem {
		if m.addr != addr && hasPrefix(m.addr, addr) {
			delete(s.mem, k)
		}
	}
	s.killAddr(addr)
	f.noteStore(addr)
	s.mem[addr.key] = memCell{addr, v}
}

func hasPrefix(a, p *Term) bool {
	for a != nil {
		if a == p {
			return true
		}
		if a.K == TFieldAddr || a.K == TIndexAddr {
			a = a.Args[0]
			continue
		}
		return false
	}
	return false
}

// explode turns a known aggregate at a strict prefix of addr into per-part cells.
func (s *State) explode(addr *Term) {
	if addr.K != TFieldAddr && addr.K != TIndexAddr {
		return
	}
	base := addr.Args[0]
	s.explode(base)
	m, ok := s.mem[base.key]
	if !ok || base.T == nil {
		return
	}
	et := elemOf(base.T)
	if et == nil {
		return
	}
	f := s.fl
	delete(s.mem, base.key)
	switch u := et.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			a := f.ts.mk(Term{K: TFieldAddr, I: i, Args: []*Term{base}, T: types.NewPointer(u.Field(i).Type())})
			if _, ok := s.mem[a.key]; !ok {
				s.mem[a.key] = memCell{a, f.ts.field(m.val, i, u.Field(i).Type())}
			}
		}
	case *types.Array:
		if u.Len() <= 64 && m.val.K == TZero {
			for i := int64(0); i < u.Len(); i++ {
				a := f.ts.mk(Term{K: TIndexAddr, Args: []*Term{base, f.ts.intC(i)}, T: types.NewPointer(u.Elem())})
				s.mem[a.key] = memCell{a, f.ts.zero(u.Elem())}
			}
		}
	}
}

func (s *State) lookup(addr *Term) *Term {
	if m, ok := s.mem[addr.key]; ok {
		return m.val
	}
	f := s.fl
	switch addr.K {
	case TFieldAddr:
		if et := elemOf(addr.Args[0].T); et != nil {
			if v := s.lookup(addr.Args[0]); v != nil {
				if st, ok := et.Underlying().(*types.Struct); ok {
					return f.ts.field(v, addr.I, st.Field(addr.I).Type())
				}
			}
		}
	case TIndexAddr:
		if et := elemOf(addr.Args[0].T); et != nil {
			if at, ok := et.Underlying().(*types.Array); ok {
				if v := s.lookup(addr.Args[0]); v != nil {
					if v.K == TZero {
						return f.ts.zero(at.Elem())
					}
				}
			}
		}
	}
	return nil
}

func (s *State) load(addr *Term, n *Node, t types.Type) *Term {
	f := s.fl
	if addr.K == TGlobal && !f.mutGlob[addr.Op] {
		if c := f.g.P.constGlobal(addr.Op); c != nil {
			return f.ts.mk(Term{K: TConst, C: c, T: t})
		}
		return f.ts.mk(Term{K: TGVar, Op: addr.Op, T: t, I: 1})
	}
	if addr.K == TSym && addr.N.Op == OpFree && constFree(addr.N) {
		return f.ts.mk(Term{K: TPure, Op: "cell", Args: []*Term{addr}, T: t})
	}
	if v := s.lookup(addr); v != nil {
		return v
	}
	// aggregate with known parts
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() <= 40 {
		any := false
		for i := 0; i < st.NumFields(); i++ {
			a := f.ts.mk(Term{K: TFieldAddr, I: i, Args: []*Term{addr}, T: types.NewPointer(st.Field(i).Type())})
			if s.lookup(a) != nil {
				any = true
				break
			}
			for _, m := range s.mem {
				if m.addr != a && hasPrefix(m.addr, a) {
					any = true
					break
				}
			}
		}
		if any {
			var fs []*Term
			whole := f.ts.mk(Term{K: TLoad, N: n, Args: []*Term{addr}, T: t})
			for i := 0; i < st.NumFields(); i++ {
				a := f.ts.mk(Term{K: TFieldAddr, I: i, Args: []*Term{addr}, T: types.NewPointer(st.Field(i).Type())})
				ft := st.Field(i).Type()
				v := s.lookup(a)
				if v == nil {
					if _, ok := ft.Underlying().(*types.Struct); ok {
						v = s.loadParts(a, n, ft)
					}
				}
				if v == nil {
					v = f.ts.mk(Term{K: TField, I: i, Args: []*Term{whole}, T: ft})
					s.mem[a.key] = memCell{a, v}
				}
				fs = append(fs, v)
			}
			return f.ts.mk(Term{K: TStruct, Args: fs, T: t})
		}
	}
	v := f.ts.mk(Term{K: TLoad, N: n, Args: []*Term{addr}, T: t})
	s.mem[addr.key] = memCell{addr, v}
	return v
}

func (s *State) loadParts(addr *Term, n *Node, t types.Type) *Term {
	st := t.Underlying().(*types.Struct)
	f := s.fl
	any := false
	var fs []*Term
	for i := 0; i < st.NumFields(); i++ {
		a := f.ts.mk(Term{K: TFieldAddr, I: i, Args: []*Term{addr}, T: types.NewPointer(st.Field(i).Type())})
		v := s.lookup(a)
		if v != nil {
			any = true
		}
		fs = append(fs, v)
	}
	if !any {
		return nil
	}
	whole := f.ts.mk(Term{K: TLoad, N: n, Args: []*Term{addr}, T: t})
	for i := range fs {
		if fs[i] == nil {
			fs[i] = f.ts.mk(Term{K: TField, I: i, Args: []*Term{whole}, T: st.Field(i).Type()})
		}
	}
	return f.ts.mk(Term{K: TStruct, Args: fs, T: t})
}

// killReach drops knowledge about memory reachable from a term passed to an opaque call.
func (s *State) killReach(t *Term, depth int) {
	if t == nil || depth > 4 {
		return
	}
	switch t.K {
	case TIface, TConv, TSlice, TDeref:
		s.killReach(t.Args[0], depth+1)
		return
	case TClosure:
		for _, a := range t.Args {
			if a != nil {
				s.killReach(a, depth+1)
			}
		}
		return
	case TConst, TFunc:
		return
	}
	if t.T != nil {
		switch t.T.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Struct:
		default:
			return
		}
	}
	if t.K == TAlloc && t.N.Instr != nil {
		if al, ok := t.N.Instr.(*ssa.Alloc); ok && constCell(al) {
			// captured, assigned once: the cell itself cannot change, only what it points to
			if m, ok := s.mem[t.key]; ok {
				s.killReach(m.val, depth+1)
			}
			return
		}
	}
	var more []*Term
	for k, m := range s.mem {
		if m.addr.contains(t) {
			if m.val.K == TAlloc || m.val.K == TMake || m.val.K == TIface {
				more = append(more, m.val)
			}
			if f := m.addr; s.isVararg(t) && f.K == TIndexAddr {
				continue // the vararg array itself is not written by the callee
			}
			delete(s.mem, k)
		}
	}
	for _, x := range more {
		s.killReach(x, depth+1)
	}
}

func (s *State) isVararg(t *Term) bool {
	return t.K == TAlloc && t.N != nil && t.N.Instr != nil && strings.Contains(t.N.Instr.(*ssa.Alloc).Comment, "varargs")
}

// ---- pure functions ----

func isPure(callee string) bool {
	if purePkgs[callee] {
		return true
	}
	for _, p := range []string{"strings.", "strconv.", "math/bits.", "unicode.", "path.", "path/filepath.", "reflect.TypeOf", "(reflect.Value).Kind", "(reflect.Value).Type", "(reflect.Value).CanAddr", "(reflect.Type).", "(*regexp.Regexp).Match", "(" + modPath + "/common/types.BtpAddress)."} {
		if strings.HasPrefix(callee, p) {
			return true
		}
	}
	return false
}

var purePkgs = map[string]bool{
	"bytes.Equal": true, "bytes.Compare": true, "bytes.HasPrefix": true, "encoding/hex.DecodeString": true, "encoding/hex.EncodeToString": true,
	"errors.Is": true, modPath + "/common/errors.Is": true, modPath + "/common/errors.Equals": true,
	"(error).Error": true, "(*math/big.Int).Sign": true, "(*math/big.Int).Cmp": true, "(*math/big.Int).Int64": true, "(*math/big.Int).Bytes": true,
	"(*math/big.Int).IsInt64": true, "(*math/big.Int).IsUint64": true, "(*math/big.Int).Uint64": true, "(*math/big.Int).BitLen": true,
}

func noKill(callee string) bool {
	if isPure(callee) {
		return true
	}
	if callee == "errors.As" || callee == modPath+"/common/errors.AsValue" {
		return false // stores what it finds
	}
	for _, p := range []string{"fmt.Sprint", "fmt.Errorf", "fmt.Print", "errors.", "time.", "(time.", "(" + modPath + "/common/log.", "(*" + modPath + "/common/log.", modPath + "/common/log.", modPath + "/common/errors.", "(" + modPath + "/common/errors.",
		"(*sync.", "(sync.", "github.com/pkg/errors.", "os.Exit", "encoding/hex.", "encoding/json.Marshal", "bytes.", "crypto/", "golang.org/x/crypto/", "math/rand."} {
		if strings.HasPrefix(callee, p) {
			return true
		}
	}
	return false
}

var constCellMemo = map[ssa.Value]bool{}

// constCell: a heap cell for a captured variable that is stored exactly once
// (its initialisation) and otherwise only loaded, here and in every closure.
func constCell(a *ssa.Alloc) bool {
	if v, ok := constCellMemo[a]; ok {
		return v
	}
	stores := 0
	ok := cellUses(a, &stores, 0)
	r := ok && stores <= 1
	constCellMemo[a] = r
	return r
}

func cellUses(v ssa.Value, stores *int, depth int) bool {
	if v.Referrers() == nil || depth > 6 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch in := r.(type) {
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if in.Addr != v {
				return false
			}
			*stores++
		case *ssa.MakeClosure:
			fn := in.Fn.(*ssa.Function)
			for i, b := range in.Bindings {
				if b == v && !cellUses(fn.FreeVars[i], stores, depth+1) {
					return false
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// constFree: a free variable of a closure analysed as a root whose cell is constant.
func constFree(n *Node) bool {
	fv, ok := n.V.(*ssa.FreeVar)
	if !ok {
		return false
	}
	return constFreeVar(fv, 0)
}

func constFreeVar(fv *ssa.FreeVar, depth int) bool {
	fn := fv.Parent()
	par := fn.Parent()
	if par == nil || depth > 6 {
		return false
	}
	idx := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			idx = i
		}
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && idx < len(mc.Bindings) {
				switch x := mc.Bindings[idx].(type) {
				case *ssa.Alloc:
					return constCell(x)
				case *ssa.FreeVar:
					return constFreeVar(x, depth+1)
				}
				return false
			}
		}
	}
	return false
}

func (f *Flow) nwid() int {
	n := 0
	for _, m := range f.widened {
		n += len(m)
	}
	return n
}

func (f *Flow) noteStore(addr *Term) {
	if !f.cfg.Rewiden || f.cur == nil {
		return
	}
	if f.stored == nil {
		f.stored = map[string]map[*Block]bool{}
	}
	if f.stored[addr.key] == nil {
		f.stored[addr.key] = map[*Block]bool{}
	}
	f.stored[addr.key][f.cur] = true
}

// storedIn: the loop with head h stores to the cell.
func (f *Flow) storedIn(h *Block, key string) bool {
	body := f.bodies[h]
	if body == nil {
		body = map[*Block]bool{h: true}
		var w []*Block
		for _, e := range h.Preds {
			if e.isBack() {
				w = append(w, e.From)
			}
		}
		for len(w) > 0 {
			b := w[len(w)-1]
			w = w[:len(w)-1]
			if body[b] {
				continue
			}
			body[b] = true
			for _, e := range b.Preds {
				w = append(w, e.From)
			}
		}
		if f.bodies == nil {
			f.bodies = map[*Block]map[*Block]bool{}
		}
		f.bodies[h] = body
	}
	for b := range f.stored[key] {
		if body[b] {
			return true
		}
	}
	return false
}
