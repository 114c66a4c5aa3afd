package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lock operations, resolved by type
func lockOp(n *Node) (op, mode string, ok bool) {
	if !n.isCall() {
		return "", "", false
	}
	switch n.Callee {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		return "acquire", "W", true
	case "(*sync.RWMutex).RLock":
		return "acquire", "R", true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		return "release", "W", true
	case "(*sync.RWMutex).RUnlock":
		return "release", "R", true
	}
	return "", "", false
}

// callers: static module callers of each function; escapes: functions used as values.
type usage struct {
	calls   map[*ssa.Function]int
	asValue map[*ssa.Function]bool
	goed    map[*ssa.Function]bool
}

func (p *Program) usage() *usage {
	u := &usage{map[*ssa.Function]int{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().StaticCallee()
					if callee != nil {
						if _, isGo := in.(*ssa.Go); isGo {
							u.goed[callee] = true
						} else {
							u.calls[callee]++
						}
					}
				}
				for _, o := range in.Operands(nil) {
					if f, ok := (*o).(*ssa.Function); ok {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().Value == *o {
							continue
						}
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
							// used as value unless only called directly
							direct := true
							for _, r := range *mc.Referrers() {
								if ci, ok := r.(ssa.CallInstruction); ok && ci.Common().Value == ssa.Value(mc) {
									if _, isGo := r.(*ssa.Go); isGo {
										u.goed[f] = true
									}
									continue
								}
								if _, ok := r.(*ssa.DebugRef); ok {
									continue
								}
								if ci, ok := r.(ssa.CallInstruction); ok {
									if sc := ci.Common().StaticCallee(); sc != nil && closureRunner[funcName(sc)] != "" {
										u.calls[f]++
										continue
									}
									if _, isGo := r.(*ssa.Go); !isGo && onlyRun(ci, mc) {
										u.calls[f]++
										continue
									}
								}
								direct = false
							}
							if !direct {
								u.asValue[f] = true
							}
							continue
						}
						u.asValue[f] = true
					}
				}
			}
		}
	}
	return u
}

// onlyRun: the module function called by ci does nothing with the closure v it is
// given but run it (or pass it on to another such function), so the closure is
// analysed where it runs, under whatever its runner holds.
func onlyRun(ci ssa.CallInstruction, v ssa.Value) bool {
	seen := map[*ssa.Parameter]bool{}
	var param func(*ssa.Parameter) bool
	call := func(ci ssa.CallInstruction, v ssa.Value) bool {
		f := ci.Common().StaticCallee()
		if f == nil || len(f.Blocks) == 0 || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			return false
		}
		for i, a := range ci.Common().Args {
			if a == v && (i >= len(f.Params) || !param(f.Params[i])) {
				return false
			}
		}
		return true
	}
	param = func(q *ssa.Parameter) bool {
		if seen[q] {
			return true
		}
		seen[q] = true
		for _, r := range *q.Referrers() {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			if _, isGo := r.(*ssa.Go); isGo {
				return false
			}
			c2, ok := r.(ssa.CallInstruction)
			if !ok {
				return false
			}
			if c2.Common().Value == ssa.Value(q) && !c2.Common().IsInvoke() {
				for _, a := range c2.Common().Args {
					if a == ssa.Value(q) {
						return false
					}
				}
				continue
			}
			if !call(c2, q) {
				return false
			}
		}
		return true
	}
	return call(ci, v)
}

// isRoot: functions whose behaviour must stand on its own (callable from outside
// the module, through an interface, as a goroutine or as a callback).
func (p *Program) isRoot(u *usage, fn *ssa.Function) bool {
	if fn.Synthetic != "" {
		return false
	}
	if u.goed[fn] || u.asValue[fn] {
		return true
	}
	if fn.Parent() != nil {
		return u.calls[fn] == 0
	}
	if o := fn.Object(); u.calls[fn] == 0 && o != nil && (o.Exported() || fn.Name() == "main" || strings.HasPrefix(fn.Name(), "init")) {
		return true // (an unexported function nobody calls is dead code)
	}
	return p.implementsIface(fn)
}

// implementsIface: fn is a method through which its receiver satisfies a module interface.
func (p *Program) implementsIface(fn *ssa.Function) bool {
	rv := fn.Signature.Recv()
	if rv == nil {
		return false
	}
	if p.ifaces == nil {
		p.ifaces = []*types.Interface{}
		for _, pk := range p.Pkgs {
			sc := pk.Types.Scope()
			for _, n := range sc.Names() {
				if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
					if it, ok := tn.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
						p.ifaces = append(p.ifaces, it)
					}
				}
			}
		}
	}
	t := rv.Type()
	for _, it := range p.ifaces {
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == fn.Name() && types.Implements(t, it) {
				return true
			}
		}
	}
	return false
}

func lockKeyClass(t *Term) string {
	o, f := fieldOwner(t)
	if o != "" {
		return o + "." + f
	}
	if t.K == TGlobal {
		return short(t.Op)
	}
	return t.String()
}

func init() {
	register("C01", "locks released on every exit, never re-acquired",
		"lock-state dataflow on the inlined flow graph of every entry point: acquire only when not held, release only when held in the same mode, nothing held at any return, acquisition order acyclic",
		checkLocks)
}

func touchesLock(fn *ssa.Function, memo map[*ssa.Function]int) bool {
	switch memo[fn] {
	case 1:
		return false // in progress
	case 2:
		return true
	case 3:
		return false
	}
	memo[fn] = 1
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				cc := ci.Common()
				if cc.IsInvoke() {
					if cc.Method.Name() == "Lock" || cc.Method.Name() == "Unlock" {
						r = true
					}
					continue
				}
				if f := cc.StaticCallee(); f != nil {
					if o := f.Object(); o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync" {
						switch o.Name() {
						case "Lock", "Unlock", "RLock", "RUnlock", "TryLock":
							r = true
						}
					} else if len(f.Blocks) > 0 && touchesLock(f, memo) {
						r = true
					}
				}
			}
		}
	}
	if r {
		memo[fn] = 2
	} else {
		memo[fn] = 3
	}
	return r
}

func checkLocks(c *Ctx) {
	u := c.P.usage()
	memo := map[*ssa.Function]int{}
	wt := &waits{p: c.P, memo: map[*ssa.Function]string{}}
	orderEdges := map[string]map[string]string{}
	acquires := map[string]bool{}
	roots := 0
	for _, fn := range c.P.funcs {
		if !c.P.isRoot(u, fn) || !touchesLock(fn, memo) {
			continue
		}
		if strings.HasSuffix(c.P.SSA.Fset.Position(fn.Pos()).Filename, "_test.go") {
			continue
		}
		roots++
		fname := short(fn.String())
		c.sawFn(fn)
		ok := true
		bad := func(n *Node, g *Graph, msg string) {
			ok = false
			c.Ob("lock-state", fname+": "+msg, false, g.pos(n), msg)
		}
		var fl *Flow
		heldKeys := func(st *State) []*Event {
			var ks []*Event
			for _, e := range st.may {
				if e.Tag == "held" {
					ks = append(ks, e)
				}
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].Key < ks[j].Key })
			return ks
		}
		cfg := FlowCfg{
			Part: func(st *State) string {
				s := ""
				for _, e := range heldKeys(st) {
					s += e.Key + ";"
				}
				return s
			},
			Hook: func(st *State, n *Node, args []*Term, res *Term, final bool) {
				op, mode, isl := lockOp(n)
				if !isl {
					if final && n.Op == OpInstr {
						if hk := heldKeys(st); len(hk) > 0 {
							c.sites++
							if why := wt.at(n.Instr); why != "" {
								bad(n, fl.g, why+" while holding "+lockKeyClass(hk[0].Args[0]))
							}
						}
					}
					return
				}
				k := "held:" + mode + ":" + args[0].key
				cls := lockKeyClass(args[0])
				if op == "acquire" {
					if final {
						c.sites++
						acquires[c.P.SSA.Fset.Position(n.Instr.Pos()).String()] = true
						if root := args[0].root(); root.K == TAlloc && args[0].K == TFieldAddr {
							if al, ok := root.N.Instr.(*ssa.Alloc); ok && copiedStruct(al) {
								bad(n, fl.g, "acquires "+cls+" on a local copy of the object")
							}
						}
						for _, m := range []string{"W", "R"} {
							if m == "R" && mode == "R" {
								continue
							}
							if _, h := st.may["held:"+m+":"+args[0].key]; h {
								bad(n, fl.g, "acquires "+cls+" while already holding it")
							}
						}
						for _, e := range heldKeys(st) {
							o := lockKeyClass(e.Args[0])
							if o != cls {
								if orderEdges[o] == nil {
									orderEdges[o] = map[string]string{}
								}
								orderEdges[o][cls] = fl.g.pos(n)
							}
						}
					}
					st.addMay(k, "held", n, args[0])
				} else {
					if _, h := st.may[k]; !h && final {
						bad(n, fl.g, fmt.Sprintf("releases %s (mode %s) without holding it in that mode", cls, mode))
					}
					delete(st.may, k)
				}
			},
			Exit: func(st *State, b *Block, rets []*Term) {
				for _, e := range heldKeys(st) {
					bad(b.Nodes[len(b.Nodes)-1], fl.g, "returns while still holding "+lockKeyClass(e.Args[0])+" acquired at "+fl.g.pos(e.N))
				}
			},
		}
		g := BuildGraph(c.P, fn, InlineCfg{})
		fl = NewFlow(g, cfg)
		fl.Run()
		for k := range g.inl {
			c.funcs[k] = true
		}
		c.nodes += len(g.Nodes)
		c.paths += fl.edges
		if ok {
			c.Ob("lock-state", fname, true, c.P.posOf(fn), "balanced on every exit")
		}
	}
	// acyclic acquisition order
	var keys []string
	for k := range orderEdges {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, a := range keys {
		for b, pos := range orderEdges[a] {
			cyc := reachStr(orderEdges, b, a)
			c.Ob("lock-order", a+" -> "+b, !cyc, pos, "acquired in both orders on different paths")
		}
	}
	c.Need("lock-state", 14)
	c.Note("%d roots, %d distinct acquisition sites", roots, len(acquires))
}

func reachStr(g map[string]map[string]string, from, to string) bool {
	seen := map[string]bool{}
	w := []string{from}
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		if x == to {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		for y := range g[x] {
			w = append(w, y)
		}
	}
	return false
}

// copiedStruct: the local object was filled by copying a whole struct value.
func copiedStruct(a *ssa.Alloc) bool {
	if a.Referrers() == nil {
		return false
	}
	if _, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !ok {
		return false
	}
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
			return true
		}
	}
	return false
}

// waits: which instructions may wait for another goroutine on a channel, directly
// or in the module functions they call (through module interfaces included).
type waits struct {
	p    *Program
	memo map[*ssa.Function]string
	impl map[*types.Func][]*ssa.Function
}

func timed(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && types.TypeString(ch.Elem(), nil) == "time.Time"
}

func (w *waits) at(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Send:
		return "sends on a channel"
	case *ssa.UnOp:
		if x.Op.String() == "<-" && !timed(x.X.Type()) {
			return "receives from a channel"
		}
	case *ssa.Select:
		if !x.Blocking {
			return ""
		}
		for _, s := range x.States {
			if timed(s.Chan.Type()) {
				return ""
			}
		}
		return "waits in a select"
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return w.fn(f)
		}
		if x.Call.IsInvoke() {
			for _, f := range w.impls(x.Call.Method) {
				if s := w.fn(f); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

func (w *waits) fn(f *ssa.Function) string {
	if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
		return ""
	}
	if s, ok := w.memo[f]; ok {
		return s
	}
	w.memo[f] = ""
	r := ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s := w.at(in); s != "" && r == "" {
				if !strings.Contains(s, " (in ") {
					s += " (in " + short(f.String()) + ")"
				}
				r = s
			}
		}
	}
	w.memo[f] = r
	return r
}

// impls: the methods of module types an interface call of m may reach, when the
// interface itself is declared in the module.
func (w *waits) impls(m *types.Func) []*ssa.Function {
	if m.Pkg() == nil || !strings.HasPrefix(m.Pkg().Path(), modPath) {
		return nil
	}
	if r, ok := w.impl[m]; ok {
		return r
	}
	if w.impl == nil {
		w.impl = map[*types.Func][]*ssa.Function{}
	}
	var out []*ssa.Function
	it, _ := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
	for _, f := range w.p.funcs {
		rv := f.Signature.Recv()
		if rv != nil && it != nil && f.Name() == m.Name() && types.Implements(rv.Type(), it) {
			out = append(out, f)
		}
	}
	w.impl[m] = out
	return out
}
