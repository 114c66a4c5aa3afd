package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Summaries: the outcomes of a function (one per partition of its paths) together
// with the calls it makes, in terms that do not depend on how it is written.

type CallRec struct {
	St   *State // state before the call
	N    *Node
	Args []*Term
}

type Outcome struct {
	St   *State
	Rets []*Term
	Pos  string
	B    *Block
}

type Sum struct {
	c    *Ctx
	fn   *ssa.Function
	g    *Graph
	fl   *Flow
	Call []CallRec // every call, in the final pass
	Sto  []CallRec // every store (Args: addr, value)
	Outs []Outcome
	Back []struct {
		St *State
		E  *Edge
	}
	Ent []struct { // states entering loops
		St *State
		E  *Edge
	}
}

type SumCfg struct {
	Opaque  func(*ssa.Function) bool
	Track   func(n *Node) string // tag under which a call is recorded as a must-event ("" = not)
	Part    func(st *State) string
	Numeric bool
	Max     int
	NoFacts bool // do not partition on facts
	Depth   int
	Go      bool
	NoKill  func(string) bool
	Cfg     func(*FlowCfg)
	Ev      func(st *State, n *Node, args []*Term, res *Term) // extra events (every pass)
}

func (c *Ctx) Sum(fn *ssa.Function, sc SumCfg) *Sum {
	s := &Sum{c: c, fn: fn}
	cfg := FlowCfg{Numeric: sc.Numeric, MaxStates: sc.Max, NoKill: sc.NoKill}
	if cfg.MaxStates == 0 {
		cfg.MaxStates = 1500
	}
	cfg.Part = func(st *State) string {
		var sb strings.Builder
		if !sc.NoFacts {
			for _, k := range sortedKeys(st.facts) {
				fmt.Fprintf(&sb, "%s=%v;", k, st.facts[k].Val)
			}
		}
		for _, k := range sortedKeys(st.must) {
			if st.must[k].Tag != "copy" {
				sb.WriteString(k + ";")
			}
		}
		if sc.Part != nil {
			sb.WriteString(sc.Part(st))
		}
		return sb.String()
	}
	cfg.Pre = func(st *State, n *Node, args []*Term, final bool) {
		if !final || n.Op != OpInstr {
			return
		}
		if n.isCall() {
			s.Call = append(s.Call, CallRec{st.clone(), n, args})
		} else if _, ok := n.Instr.(*ssa.Store); ok {
			s.Sto = append(s.Sto, CallRec{st.clone(), n, args})
		}
	}
	cfg.Hook = func(st *State, n *Node, args []*Term, res *Term, final bool) {
		if sc.Track != nil && n.isCall() {
			if t := sc.Track(n); t != "" {
				key := fmt.Sprintf("%s@%d", t, n.ID)
				st.addMust(key, t, n, append([]*Term{res}, args...)...)
			}
		}
		if sc.Ev != nil {
			sc.Ev(st, n, args, res)
		}
	}
	cfg.Exit = func(st *State, b *Block, rets []*Term) {
		s.Outs = append(s.Outs, Outcome{st, rets, s.posOfBlk(b), b})
	}
	cfg.OnBack = func(st *State, e *Edge, final bool) {
		if final {
			s.Back = append(s.Back, struct {
				St *State
				E  *Edge
			}{st.clone(), e})
		}
	}
	if sc.Cfg != nil {
		sc.Cfg(&cfg)
	}
	onHead := cfg.OnHead
	cfg.OnHead = func(st *State, e *Edge, phis []PhiIn) func() {
		if s.fl.final && !e.isBack() {
			s.Ent = append(s.Ent, struct {
				St *State
				E  *Edge
			}{st.clone(), e})
		}
		if onHead != nil {
			return onHead(st, e, phis)
		}
		return nil
	}
	s.g = BuildGraph(c.P, fn, InlineCfg{Opaque: sc.Opaque, MaxDepth: sc.Depth, Go: sc.Go})
	s.fl = NewFlow(s.g, cfg)
	s.fl.Run()
	c.took(s.g, s.fl)
	return s
}

func (s *Sum) posOfBlk(b *Block) string {
	if len(b.Nodes) > 0 {
		return s.g.pos(b.Nodes[len(b.Nodes)-1])
	}
	return s.c.P.posOf(s.fn)
}

// Calls returns the recorded calls whose callee satisfies f.
func (s *Sum) Calls(f func(n *Node) bool) (o []CallRec) {
	for _, r := range s.Call {
		if f(r.N) {
			o = append(o, r)
		}
	}
	return
}

func calleeIs(names ...string) func(*Node) bool {
	return func(n *Node) bool {
		for _, x := range names {
			if n.Callee == x || short(n.Callee) == x {
				return true
			}
		}
		return false
	}
}

func (r CallRec) path(i int) string { return r.St.fl.path(r.Args[i]) }

// elems: the elements of a variadic or literal slice argument, when known.
func (s *State) elems(t *Term) ([]*Term, bool) {
	if t == nil {
		return nil, false
	}
	if t.isNil() {
		return nil, true
	}
	if t.K == TSlice {
		base := t.Args[0]
		et := elemOf(base.T)
		if et == nil || t.Args[1] != nil {
			return nil, false
		}
		at, ok := et.Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		n := at.Len()
		if t.Args[2] != nil {
			v, ok := t.Args[2].intVal()
			if !ok {
				return nil, false
			}
			n = v
		}
		var out []*Term
		for i := int64(0); i < n; i++ {
			v := s.lookup(s.fl.ts.mk(Term{K: TIndexAddr, Args: []*Term{base, s.fl.ts.intC(i)}, T: types.NewPointer(at.Elem())}))
			if v == nil {
				return nil, false
			}
			out = append(out, v)
		}
		return out, true
	}
	if t.K == TAppend {
		a, ok := s.elems(t.Args[0])
		b, ok2 := s.elems(t.Args[1])
		if ok && ok2 {
			return append(append([]*Term{}, a...), b...), true
		}
	}
	return nil, false
}

func (s *State) paths(ts []*Term) []string {
	var o []string
	for _, t := range ts {
		o = append(o, s.fl.path(t))
	}
	return o
}

// eq: is the equality of the two described values decided by the facts?
func (s *State) eq(a, b string) (val, known bool) {
	for _, k := range sortedKeys(s.facts) {
		f := s.facts[k]
		if f.T.K == TBin && f.T.Op == "==" {
			x, y := s.fl.path(f.T.Args[0]), s.fl.path(f.T.Args[1])
			if x == a && y == b || x == b && y == a {
				return f.Val, true
			}
			// equal to another constant
			if f.Val && (x == a && f.T.Args[1].isConst() && isConstPath(b) || y == a && f.T.Args[0].isConst() && isConstPath(b)) {
				return false, true
			}
		}
	}
	return false, false
}

func isConstPath(p string) bool {
	return p == "nil" || p != "" && (p[0] >= '0' && p[0] <= '9' || p[0] == '-' || p[0] == '"') || p == "true" || p == "false"
}

// truth: is the described boolean decided by the facts?
func (s *State) truth(p string) (val, known bool) {
	for _, f := range s.facts {
		if s.fl.path(f.T) == p {
			return f.Val, true
		}
	}
	return false, false
}

// factStrings: the facts in canonical text (for rules and messages).
func (s *State) factStrings() []string {
	var o []string
	for _, f := range s.facts {
		p := s.fl.path(f.T)
		if !f.Val {
			p = "!" + p
		}
		o = append(o, p)
	}
	sort.Strings(o)
	return o
}

// isErrNil: the error result is known nil / known non-nil.
func (o *Outcome) errState() (isNil, known bool) {
	if len(o.Rets) == 0 {
		return true, true
	}
	return nilState(o.St, o.Rets[len(o.Rets)-1])
}

func (s *Sum) Dump() {
	fmt.Println("== sum", s.fn)
	for _, r := range s.Call {
		fmt.Println(" call", s.g.pos(r.N), r.N.Callee, r.St.paths(r.Args), r.St.factStrings())
	}
	for _, r := range s.Sto {
		fmt.Println(" store", s.g.pos(r.N), r.St.paths(r.Args), r.St.factStrings())
	}
	for _, o := range s.Outs {
		fmt.Println(" out", o.Pos, o.St.paths(o.Rets), o.St.factStrings())
		for _, k := range sortedKeys(o.St.must) {
			fmt.Println("    ev", k, o.St.paths(o.St.must[k].Args))
		}
	}
}

var _ = token.ADD
