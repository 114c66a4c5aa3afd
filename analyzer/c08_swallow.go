package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "A failure on the relay's way is never swallowed",
		"for every call that can fail in the relay, its receivers, senders, node clients and key stores: on every path on which its error is known, the error is returned, handed on, logged, ends the relay or was recognised as a particular kind; and no error result is left unread",
		checkSwallow)
}

// swallowScope: the code a relayed message passes.
var swallowScope = []string{"chain/", "cmd/relay/", "common/link/", "common/wallet/", "common/jsonrpc/", "common/config/", "common/types/", "common/mta/", "common/mbt/", "common/mpt/", "common/codec/"}

// harmless: calls whose error says nothing about the relay's work.
func harmless(callee string) bool {
	last := callee[strings.LastIndex(callee, ".")+1:]
	switch last {
	case "Close", "CloseWithError", "Sync":
		return true
	}
	for _, p := range []string{"fmt.Print", "fmt.Fprint", "(*bytes.Buffer).", "(*strings.Builder).", "(hash.Hash).", "path/filepath.", "github.com/spf13/", "(*github.com/spf13/", "(github.com/spf13/", "io.WriteString",
		modPath + "/common/cli.BindPFlags", modPath + "/common/cli.MarkAnnotation", "(*github.com/gorilla/websocket.Conn).WriteControl", "(*github.com/gorilla/websocket.Conn).Set", "(net.Conn).Set"} {
		if strings.HasPrefix(callee, p) {
			return true
		}
	}
	return false
}

// inspects: calls that only look at an error.
func inspects(callee string) bool {
	switch short(callee) {
	case "common/errors.Is", "common/errors.CoderOf", "common/errors.CodeOf", "common/errors.AsValue", "errors.Is", "errors.As", "errors.Unwrap", "(error).Error", "github.com/pkg/errors.Cause":
		return true
	}
	return strings.HasSuffix(callee, "errors.Code).Equals") || strings.HasSuffix(callee, "errors.baseError).Equals")
}

// ends: calls that log and end the process or the goroutine.
func ends(callee string) bool {
	last := callee[strings.LastIndex(callee, ".")+1:]
	return strings.HasPrefix(last, "Panic") || strings.HasPrefix(last, "Fatal") || callee == "os.Exit" || callee == "builtin panic"
}

func givesError(rs *types.Tuple) bool {
	return rs.Len() > 0 && types.Identical(rs.At(rs.Len()-1).Type(), errorType())
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "(" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

func checkSwallow(c *Ctx) {
	u := c.P.usage()
	var fns []*ssa.Function
	live := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function)
	reach = func(f *ssa.Function) {
		if f == nil || live[f] {
			return
		}
		live[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok {
						reach(g)
					}
				}
			}
		}
	}
	for _, f := range c.P.funcs {
		if f.Parent() == nil && (c.P.isRoot(u, f) || f.Object() != nil && f.Object().Exported()) {
			reach(f)
		}
	}
	for _, f := range c.P.funcs {
		ps := c.P.posOf(f)
		if f.Synthetic != "" || strings.Contains(ps, "_test.go") || !live[f] {
			continue
		}
		for _, p := range swallowScope {
			if strings.HasPrefix(ps, p) {
				fns = append(fns, f)
				break
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return c.P.posOf(fns[i]) < c.P.posOf(fns[j]) })
	for _, f := range fns {
		c.swallow(f)
	}
	c.Need("error", 80)
}

// unread: the error result of the call is never looked at.
func unread(v ssa.CallInstruction) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return true // started or deferred
	}
	read := func(rs *[]ssa.Instruction) bool {
		for _, r := range *rs {
			if _, dbg := r.(*ssa.DebugRef); !dbg {
				return true
			}
		}
		return false
	}
	if v.Common().Signature().Results().Len() == 1 {
		return !read(call.Referrers())
	}
	n := v.Common().Signature().Results().Len()
	for _, r := range *call.Referrers() {
		switch x := r.(type) {
		case *ssa.Extract:
			if x.Index == n-1 && read(x.Referrers()) {
				return false
			}
		case *ssa.Return:
			return false
		}
	}
	return true
}

func (c *Ctx) swallow(f *ssa.Function) {
	sites := map[ssa.Instruction]bool{} // to be decided; true: never read
	var order []ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.CallInstruction)
			if !ok || !givesError(v.Common().Signature().Results()) || harmless(calleeName(v.Common())) {
				continue
			}
			if makesError(v.Common()) {
				continue
			}
			sites[in] = unread(v)
			order = append(order, in)
		}
	}
	if len(sites) == 0 {
		return
	}
	has := func(st *State, t, e *Term) bool { return t != nil && (t.contains(e) || deepHas(st, t, e)) }
	use := func(st *State, n *Node, ts ...*Term) {
		for _, e := range st.must {
			if e.Tag != "err" {
				continue
			}
			for _, t := range ts {
				if has(st, t, e.Args[0]) {
					delete(st.must, fmt.Sprintf("err@%d", e.N.ID))
				}
			}
		}
	}
	bad := map[ssa.Instruction]string{}
	for _, in := range order {
		if _, ok := in.(*ssa.Call); ok {
			bad[in] = c.swallowAt(f, in, sites, has, use)
		} else {
			bad[in] = "its error is never looked at"
		}
		name := short(calleeName(in.(ssa.CallInstruction).Common()))
		c.Ob("error", short(f.String())+" calls "+name, bad[in] == "", c.P.posStr(in.Pos()), "a failure of "+name+" is swallowed: "+bad[in])
	}
}

// swallowAt: what happens to the error of one call.
func (c *Ctx) swallowAt(f *ssa.Function, site ssa.Instruction, sites map[ssa.Instruction]bool, has func(st *State, t, e *Term) bool, use func(st *State, n *Node, ts ...*Term)) string {
	s := c.Sum(f, SumCfg{Max: 400, NoFacts: !sites[site],
		Cfg: func(cfg *FlowCfg) {
			old := cfg.OnBack
			cfg.OnBack = func(st *State, e *Edge, final bool) {
				old(st, e, final)
				for k, ev := range st.must { // judged there
					if ev.Tag == "err" && inLoop(ev.N.Blk, e.To) {
						delete(st.must, k)
					}
				}
			}
		},
		Part: func(st *State) string { // what is known about this error and, once it is one, about the others
			var mine *Event
			for _, e := range st.must {
				if e.Tag == "err" && e.N.Instr == site {
					mine = e
				}
			}
			if mine == nil {
				return ""
			}
			nl, kn := nilState(st, mine.Args[0])
			r := fmt.Sprint(nl, kn)
			if kn && nl {
				return r
			}
			for _, k := range sortedKeys(st.facts) {
				ft := st.facts[k]
				for _, e := range st.must {
					if (e == mine || e.Tag == "seen" && kn) && ft.T.contains(e.Args[0]) {
						r += fmt.Sprintf("%s=%v;", k, ft.Val)
						break
					}
				}
			}
			return r
		},
		Opaque: func(*ssa.Function) bool { return true },
		Ev: func(st *State, n *Node, args []*Term, res *Term) {
			if n.isCall() {
				if ends(nameOfCall(n)) {
					for _, e := range st.must {
						if e.Tag == "err" {
							delete(st.must, fmt.Sprintf("err@%d", e.N.ID))
						}
					}
				} else if !inspects(nameOfCall(n)) && !(logs(nameOfCall(n)) && givesError(f.Signature.Results())) {
					use(st, n, args...)
				} else if logs(nameOfCall(n)) {
					for _, e := range st.must {
						for _, a := range args {
							if e.Tag == "err" && has(st, a, e.Args[0]) {
								st.addMust(fmt.Sprintf("logged@%d", e.N.ID), "logged", e.N)
							}
						}
					}
				}
				if _, site := sites[n.Instr]; site && res != nil {
					e := res
					if _, ok := n.Typ.(*types.Tuple); ok {
						e = errOf(st.fl.ts, res)
					}
					if e != nil {
						st.addMust(fmt.Sprintf("seen@%d", n.ID), "seen", n, e, res)
						delete(st.must, fmt.Sprintf("logged@%d", n.ID))
						st.addMust(fmt.Sprintf("err@%d", n.ID), "err", n, append([]*Term{e, res}, args...)...)
					}
				}
			} else if n.Op == OpInstr {
				switch n.Instr.(type) {
				case *ssa.Store:
					// a part of a value made here counts once that value goes somewhere
					if a := args[0]; a.K != TFieldAddr && a.K != TIndexAddr || a.root().K != TAlloc {
						use(st, n, args[1])
					}
				case *ssa.Send, *ssa.MapUpdate, *ssa.Panic, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.MakeClosure:
					use(st, n, args...)
				}
			}
		}})
	bad := ""
	judge := func(st *State, where string, rets []*Term, carried func(e *Event) bool) {
		for _, k := range sortedKeys(st.must) {
			e := st.must[k]
			if e.Tag != "err" || e.N.Instr != site {
				continue
			}
			nl, kn := nilState(st, e.Args[0])
			if kn && nl || carried(e) {
				continue
			}
			never := sites[e.N.Instr]
			if !kn && !never {
				continue
			}
			kept := false
			for _, r := range rets {
				if has(st, r, e.Args[0]) {
					kept = true
				}
				if r.T == nil || !types.Identical(r.T, errorType()) || r.isNil() {
					continue
				}
				if n2, k2 := nilState(st, r); k2 && !n2 {
					kept = true
				}
				for _, o := range st.must { // made of what failed, or of another failure
					if o.Tag != "seen" {
						continue
					}
					if on, ok := nilState(st, o.Args[0]); has(st, r, o.Args[0]) && ok && !on || never && o.N == e.N && madeErr(r) && has(st, r, e.Args[1]) {
						kept = true
					}
				}
			}
			for _, ft := range st.facts {
				if ft.Val && ft.T.contains(e.Args[0]) && !(ft.T.K == TBin && (ft.T.Args[0].isNil() || ft.T.Args[1].isNil())) {
					kept = true // of a particular kind
				}
			}
			if kept {
				continue
			}
			if never {
				bad = "its error is never looked at"
			} else {
				bad = "its error is dropped on the path that ends at " + where
			}
		}
	}
	for _, o := range s.Outs {
		judge(o.St, o.Pos, o.Rets, func(*Event) bool { return false })
	}
	for _, b := range s.Back {
		judge(b.St, "the next round", nil, func(e *Event) bool {
			if !inLoop(e.N.Blk, b.E.To) {
				return true // still on its way
			}
			again := b.St.must[fmt.Sprintf("logged@%d", e.N.ID)] != nil // logged and the same is tried again
			for _, n := range b.E.To.Nodes {
				if n.Op != OpPhi {
					continue
				}
				if has(b.St, b.St.val(n.Args[b.E.Idx]), e.Args[0]) {
					return true
				}
				for _, a := range e.Args[2:] {
					if a != nil && a.contains(s.fl.sym(n)) && b.St.val(n.Args[b.E.Idx]) != s.fl.sym(n) {
						again = false
					}
				}
			}
			for _, a := range e.Args[2:] {
				again = again && !loaded(a)
			}
			return again
		})
	}
	return bad
}

// logs: calls that only write a log line.
func logs(callee string) bool {
	return strings.Contains(callee, modPath+"/common/log.") || strings.HasPrefix(callee, "fmt.Print")
}

// loaded: the value comes from memory that may have changed.
func loaded(t *Term) bool {
	if t == nil {
		return false
	}
	if t.K == TLoad || t.K == TMem || t.K == TSym && t.N.Op != OpParam && t.N.Op != OpPhi {
		return true
	}
	for _, a := range t.Args {
		if loaded(a) {
			return true
		}
	}
	return false
}

func inLoop(b, head *Block) bool {
	return b.loops[head] || b == head
}

// nameOfCall: the callee, or the package variable that holds it.
func nameOfCall(n *Node) string {
	if n.Callee != "" {
		return n.Callee
	}
	if ci, ok := n.Instr.(ssa.CallInstruction); ok {
		if u, ok := ci.Common().Value.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok {
				return g.String()
			}
		}
	}
	return ""
}

// makesError: the call makes an error, it does not fail.
func makesError(cc *ssa.CallCommon) bool {
	n := short(calleeName(cc))
	if anyOf(n, "fmt.Errorf", "errors.New", "(error).Unwrap") || strings.HasPrefix(n, "common/errors.") || strings.HasPrefix(n, "(common/errors.") || strings.HasPrefix(n, "(*common/errors.") || strings.HasPrefix(n, "github.com/pkg/errors.") {
		return true
	}
	rs := cc.Signature().Results()
	if rs.Len() != 1 {
		return false
	}
	// an error for an error or a code
	ps := cc.Signature().Params()
	f := cc.StaticCallee()
	return f != nil && (strings.HasPrefix(f.Name(), "New") || strings.HasPrefix(f.Name(), "new")) && strings.HasSuffix(f.Name(), "Error") || ps.Len() > 0 && types.Identical(ps.At(ps.Len()-1).Type(), errorType())
}

func madeErr(t *Term) bool {
	if t = stripBox(t); t != nil && t.K == TCall && t.N != nil {
		if ci, ok := t.N.Instr.(ssa.CallInstruction); ok {
			return makesError(ci.Common())
		}
	}
	return false
}

func deepHas(st *State, t, e *Term) bool {
	if es, ok := st.elems(t); ok {
		for _, x := range es {
			if x != nil && x.contains(e) {
				return true
			}
		}
	}
	if t = stripBox(t); t != nil && t.K == TAlloc {
		for _, v := range st.fieldVals(t) {
			if v.contains(e) {
				return true
			}
		}
	}
	return false
}
