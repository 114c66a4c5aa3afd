package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "accumulator durability",
		"ordering dataflow on the accumulator's persistence code: a node is stored under its own hash only after its children are stored, is marked stored only after the store succeeded, the recoverable state is written only after every root was stored, every storage failure is returned, and what is saved is what is restored",
		checkMTADurable)
}

const mtap = modPath + "/common/mta"

func isNodeIfaceCall(n *Node, m string) bool {
	return n.isCall() && n.Callee == "("+mtap+".Node)."+m
}

func structFieldsOf(t types.Type) []*types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var o []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		o = append(o, st.Field(i))
	}
	return o
}

func (c *Ctx) constVal(pkg, name string) (int64, bool) {
	s := c.P.spkgs[rel(pkg)]
	if s == nil {
		return 0, false
	}
	if k, ok := s.Pkg.Scope().Lookup(name).(*types.Const); ok {
		if v, ok := constInt(k.Val()); ok {
			return v, true
		}
	}
	return 0, false
}

func checkMTADurable(c *Ctx) {
	iface := c.P.Iface("common/mta", "Node")
	if iface == nil {
		c.Missing("node-flush", "common/mta.Node")
		return
	}
	nodeT := c.P.Type("common/mta", "Node")
	isHash := func(f *ssa.Function) bool {
		rv := f.Signature.Recv()
		return f.Name() == "Hash" && rv != nil && types.Implements(rv.Type(), iface)
	}
	for _, t := range c.P.Impls([]string{"common/mta"}, iface) {
		tn := short(types.TypeString(t, nil))
		c.nodeHash(t, tn, nodeT)
		c.nodeFlush(t, tn, nodeT, isHash)
	}
	for _, tn := range []string{"Accumulator", "ExtAccumulator"} {
		c.accFlush(tn, nodeT)
		c.accRecover(tn)
	}
	c.accRoundTrip("Accumulator")
	c.accRoundTrip("ExtAccumulator")
	c.Need("node-flush", 3)
	c.Need("node-hash", 2)
	c.Need("state-after-nodes", 2)
	c.Need("recover", 2)
	c.Need("saved-restored", 2)
}

// hashedField returns what the node's hash covers.
func (c *Ctx) nodeHash(t *types.Named, tn string, nodeT types.Type) {
	fn := c.P.MethodOf(t, "Hash")
	if fn == nil {
		return
	}
	var kids []string
	var datas []string
	stateF := ""
	for _, f := range structFieldsOf(t) {
		if types.Identical(f.Type(), nodeT) {
			kids = append(kids, f.Name())
		} else if short(types.TypeString(f.Type(), nil)) == "common/mta.State" {
			stateF = f.Name()
		} else if isByteSlice(f.Type()) {
			datas = append(datas, f.Name())
		}
	}
	ok := true
	seen := false
	bad := func(pos, m string) { ok = false; c.Ob("node-hash", tn, false, pos, m) }
	hashed, _ := c.constVal("common/mta", "stateHashed")
	var fl *Flow
	cfg := FlowCfg{
		Part: func(st *State) string { return strings.Join(sortedKeys(st.must), ";") },
		Pre: func(st *State, n *Node, args []*Term, final bool) {
			if n.isCall() && n.Callee == modPath+"/common/crypto.SHA3Sum256" {
				seen = true
				c.sites++
				got := st.contentPath(args[0])
				want := ""
				if len(kids) == 2 {
					// fields are declared left, right
					want = fmt.Sprintf("(common/mta.Node).Hash(p0.%s) (common/mta.Node).Hash(p0.%s)", kids[0], kids[1])
				}
				okc := got == want
				if len(kids) == 0 {
					okc = false
					for _, d := range datas {
						if got == "p0."+d {
							okc = true
						}
					}
				}
				if !okc && final {
					bad(fl.g.pos(n), "hash covers "+got+", expected the left hash followed by the right hash, or the data")
				}
				st.addMust("hashed", "hashed", n)
			}
		},
		Hook: func(st *State, n *Node, args []*Term, res *Term, final bool) {
			if n.isCall() && n.Callee == modPath+"/common/crypto.SHA3Sum256" {
				st.must["hashed"].Args = []*Term{res, args[0]}
			}
		},
		Exit: func(st *State, b *Block, rets []*Term) {
			pos := fl.g.pos(b.Nodes[len(b.Nodes)-1])
			ev := st.must["hashed"]
			p := fl.path(rets[0])
			if ev != nil {
				if rets[0] != ev.Args[0] {
					bad(pos, "returns "+p+" instead of the computed hash")
				}
				// caches must be consistent
				for _, m := range st.mem {
					if m.addr.K == TFieldAddr && fl.path(m.addr.Args[0]) == "p0" {
						fnm := m.addr.fieldName()
						if fnm == stateF && m.addr.K == TFieldAddr {
							if v, k := m.val.intVal(); k && v != hashed {
								bad(pos, "computing the hash changes the node's state to something other than hashed")
							}
						}
						if len(kids) == 2 && isByteSlice(m.val.T) && m.val.K == TMake && m.val != ev.Args[1] {
							bad(pos, "the serialized form kept is not the one that was hashed")
						}
					}
				}
				return
			}
			if rets[0].isNil() {
				if n, k := pathNil(st, "p0"); !(k && n) {
					bad(pos, "returns no hash")
				}
				return
			}
			if stateF != "" && strings.HasPrefix(p, "p0.") {
				// cached: only when already hashed
				good := false
				for _, f := range st.facts {
					if f.T.K == TBin && f.T.Op == "<" && !f.Val && fl.path(f.T.Args[0]) == "p0."+stateF {
						if v, k := f.T.Args[1].intVal(); k && v >= hashed {
							good = true
						}
					}
					if f.T.K == TBin && f.T.Op == "==" && f.T.Args[0] != nil {
						for i := 0; i < 2; i++ {
							if fl.path(f.T.Args[i]) == "p0."+stateF {
								if v, k := f.T.Args[1-i].intVal(); k && (f.Val && v >= hashed || !f.Val && v < hashed) {
									good = true
								}
							}
						}
					}
				}
				if !good {
					bad(pos, "returns a cached hash although the node may have changed")
				}
			}
		},
	}
	g := BuildGraph(c.P, fn, InlineCfg{Opaque: func(f *ssa.Function) bool {
		return defaultOpaque(f) || strings.HasSuffix(funcName(f), "/crypto.SHA3Sum256")
	}})
	fl = NewFlow(g, cfg)
	fl.Run()
	c.took(g, fl)
	if stateF != "" && !seen {
		bad(c.P.posOf(fn), "a stateful node never computes its hash")
	}
	if ok {
		c.Ob("node-hash", tn, true, c.P.posOf(fn), "hash covers children in order / the data")
	}
}

func (c *Ctx) took(g *Graph, fl *Flow) {
	for k := range g.inl {
		c.funcs[k] = true
	}
	c.nodes += len(g.Nodes)
	c.paths += fl.edges
}

func (c *Ctx) nodeFlush(t *types.Named, tn string, nodeT types.Type, isHash func(*ssa.Function) bool) {
	fn := c.P.MethodOf(t, "Flush")
	if fn == nil {
		return
	}
	var kids []string
	stateF := ""
	for _, f := range structFieldsOf(t) {
		if types.Identical(f.Type(), nodeT) {
			kids = append(kids, f.Name())
		} else if short(types.TypeString(f.Type(), nil)) == "common/mta.State" {
			stateF = f.Name()
		}
	}
	flushed, _ := c.constVal("common/mta", "stateFlushed")
	ok := true
	bad := func(pos, m string) { ok = false; c.Ob("node-flush", tn, false, pos, m) }
	var fl *Flow
	setDone := func(st *State) bool {
		e := st.must["set"]
		return e != nil && st.succeeded(e.Args[0])
	}
	cfg := FlowCfg{
		Part: func(st *State) string {
			s := ""
			for _, k := range sortedKeys(st.must) {
				e := st.must[k]
				if (e.Tag == "set" || e.Tag == "child") && e.Args[0] != nil {
					s += k + fmt.Sprint(st.succeeded(e.Args[0]))
				}
			}
			for _, f := range st.facts {
				if strings.Contains(fl.path(f.T), "p0."+stateF) || fl.path(f.T) == "(p0==nil)" {
					s += fmt.Sprint(len(f.T.key), f.Val)
				}
			}
			return s
		},
		Pre: func(st *State, n *Node, args []*Term, final bool) {
			if !n.isCall() || n.Callee != "("+dbp+".Bucket).Set" {
				return
			}
			c.sites++
			if !final {
				return
			}
			for _, k := range kids {
				e := st.must["child:p0."+k]
				if e == nil || !st.succeeded(e.Args[0]) {
					bad(fl.g.pos(n), "the node is stored before its "+k+" child is stored")
				}
			}
			if kp := fl.path(args[1]); !strings.HasSuffix(kp, ".Hash(p0)") && !strings.HasSuffix(kp, "Hash(p0)") {
				bad(fl.g.pos(n), "the node is not stored under its own hash: "+kp)
			}
			vp := fl.path(args[2])
			if !strings.HasPrefix(vp, "p0.") || strings.Contains(vp, "hashValue") {
				bad(fl.g.pos(n), "something other than the node's serialized form is stored: "+vp)
			}
		},
		Hook: func(st *State, n *Node, args []*Term, res *Term, final bool) {
			if n.Op != OpInstr {
				return
			}
			if isNodeIfaceCall(n, "Flush") {
				st.addMust("child:"+fl.path(args[0]), "child", n, res)
			}
			if n.isCall() && n.Callee == "("+dbp+".Bucket).Set" {
				st.addMust("set", "set", n, res)
			}
			if _, o := n.Instr.(*ssa.Store); o && final && stateF != "" && fl.path(args[0]) == "&p0."+stateF {
				if v, k := args[1].intVal(); !k || v == flushed {
					if !setDone(st) {
						bad(fl.g.pos(n), "the node is marked stored although storing it has not succeeded")
					}
				}
			}
		},
		Exit: func(st *State, b *Block, rets []*Term) {
			pos := fl.g.pos(b.Nodes[len(b.Nodes)-1])
			if n, k := nilState(st, rets[0]); k && !n {
				return
			}
			if stateF == "" && len(kids) == 0 {
				return // a bare hash: nothing of its own to store
			}
			if setDone(st) {
				return
			}
			if e := st.must["set"]; e != nil && rets[0] == e.Args[0] {
				return
			}
			if n, k := pathNil(st, "p0"); k && n {
				return
			}
			for _, f := range st.facts {
				if f.T.K == TBin && f.T.Op == "==" && f.Val {
					for i := 0; i < 2; i++ {
						if v, k := f.T.Args[i].intVal(); k && v == flushed && fl.path(f.T.Args[1-i]) == "p0."+stateF {
							return
						}
					}
				}
				if f.T.K == TBin && f.T.Op == "<" && !f.Val && fl.path(f.T.Args[0]) == "p0."+stateF {
					if v, k := f.T.Args[1].intVal(); k && v >= flushed {
						return
					}
				}
				if f.T.K == TBin && f.T.Op == "<" && f.Val && fl.path(f.T.Args[1]) == "p0."+stateF {
					if v, k := f.T.Args[0].intVal(); k && v >= flushed-1 {
						return
					}
				}
			}
			bad(pos, "reports success although the node was not stored")
		},
	}
	g := BuildGraph(c.P, fn, InlineCfg{Opaque: func(f *ssa.Function) bool { return isHash(f) || defaultOpaque(f) }})
	fl = NewFlow(g, cfg)
	fl.Run()
	c.took(g, fl)
	if ok {
		c.Ob("node-flush", tn, true, c.P.posOf(fn), "children first, own data next, mark last")
	}
}

func isMarshal(n *Node) bool {
	if !n.isCall() {
		return false
	}
	i := strings.LastIndexByte(n.Callee, '.')
	m := n.Callee[i+1:]
	return strings.HasPrefix(m, "Marshal") && n.Typ != nil
}

func isUnmarshal(n *Node) bool {
	if !n.isCall() {
		return false
	}
	i := strings.LastIndexByte(n.Callee, '.')
	return strings.HasPrefix(n.Callee[i+1:], "Unmarshal")
}

func ptrAlloc(t *Term) *Term {
	for t != nil && t.K == TIface {
		t = t.Args[0]
	}
	if t != nil && t.K == TAlloc {
		return t
	}
	return nil
}

func (c *Ctx) accFlush(tn string, nodeT types.Type) {
	fn := c.P.Method("common/mta", tn, "Flush")
	if fn == nil {
		c.Missing("state-after-nodes", tn+".Flush")
		return
	}
	ok := true
	name := "common/mta." + tn + ".Flush"
	bad := func(pos, m string) { ok = false; c.Ob("state-after-nodes", name, false, pos, m) }
	var fl *Flow
	rootsPath := ""
	nset := 0
	recs := map[*Node]bool{}
	each := map[*Node]int{} // lists extended by one entry per root: 1, otherwise -1
	var built []struct {
		ph  *Node
		pos string
	}
	isFlushCall := func(n *Node) bool { return isNodeIfaceCall(n, "Flush") }
	isRecord := func(n *Node) bool { return recs[n] }
	cfg := FlowCfg{
		Part: func(st *State) string {
			s := ""
			for _, k := range sortedKeys(st.must) {
				e := st.must[k]
				if len(e.Args) > 0 && e.Args[0] != nil && e.Tag != "copy" {
					s += k + fmt.Sprint(st.succeeded(e.Args[0]))
				}
			}
			return s
		},
		OnBack: func(st *State, e *Edge, final bool) {
			// every visited root is stored (or absent) and its hash recorded
			if rootsPath == "" || !final {
				return
			}
			for _, ph := range e.To.Nodes {
				if ph.Op != OpPhi || e.Idx >= len(ph.Args) || !isByteSlices(ph.Typ) {
					continue
				}
				base, el, k := appended(st, st.val(ph.Args[e.Idx]))
				one := k && base.K == TSym && base.N == ph
				if one && el.isNil() {
					one = nilElem(st, rootsPath)
				} else if one {
					one = el.K == TCall && el.N.Callee == "("+mtap+".Node).Hash" && fl.elemOfSeq(el.Args[0], rootsPath)
				}
				if !one {
					each[ph] = -1
				} else if each[ph] == 0 {
					each[ph] = 1
				}
			}
			for _, f := range st.facts {
				if f.Val && f.T.K == TBin && f.T.Op == "==" {
					for i := 0; i < 2; i++ {
						if f.T.Args[i].isNil() && fl.elemOfSeq(f.T.Args[1-i], rootsPath) {
							return
						}
					}
				}
			}
			pos := fl.g.pos(e.From.Nodes[len(e.From.Nodes)-1])
			if fl.loopHas(e.To, isFlushCall) {
				ev := st.must["nodeflush"]
				if ev == nil {
					bad(pos, "a root is skipped")
				} else if !st.succeeded(ev.Args[0]) {
					bad(pos, "goes on although storing a root may have failed")
				}
			}
			if fl.loopHas(e.To, isRecord) && st.must["recorded"] == nil {
				bad(pos, "the hash of a stored root is not recorded in the saved state")
			}
		},
		Pre: func(st *State, n *Node, args []*Term, final bool) {
			if isMarshal(n) {
				if a := ptrAlloc(args[len(args)-1]); a != nil && final {
					// the list field must be the recorded hashes
					good := false
					for _, v := range st.fieldVals(a) {
						if v.K == TSym && v.N != nil && v.N.Op == OpPhi && isByteSlices(v.T) {
							built = append(built, struct {
								ph  *Node
								pos string
							}{v.N, fl.g.pos(n)})
							good = true // decided after the run
						}
						if v.K == TMake {
							if isLenTerm(fl, v.Args[0], rootsPath) {
								good = true
							}
						}
					}
					if !good {
						bad(fl.g.pos(n), "the saved state does not contain one entry per root")
					}
				}
			}
			if n.isCall() && n.Callee == "("+dbp+".Bucket).Set" && strings.HasSuffix(fl.path(args[1]), ".KeyForState") {
				nset++
				c.sites++
				if final {
					if rootsPath == "" || !st.coveredSeqBy(rootsPath, isFlushCall) {
						bad(fl.g.pos(n), "the recoverable state is written before every root has been stored")
					} else if !st.coveredSeqBy(rootsPath, isRecord) {
						bad(fl.g.pos(n), "the recoverable state is written without the hash of every root")
					}
					m := st.must["marshal"]
					if m == nil || !(args[2].K == TExtract && args[2].I == 0 && args[2].Args[0] == m.Args[0]) || !st.succeeded(m.Args[0]) {
						bad(fl.g.pos(n), "the recoverable state written is not the encoded accumulator")
					}
				}
			}
		},
		Hook: func(st *State, n *Node, args []*Term, res *Term, final bool) {
			if n.Op == OpEnter || n.Op != OpInstr {
				return
			}
			if isNodeIfaceCall(n, "Flush") {
				if args[0].K == TLoad && args[0].Args[0].K == TIndexAddr {
					rootsPath = fl.path(args[0].Args[0].Args[0])
				}
				st.addMust("nodeflush", "nodeflush", n, res, args[0])
			}
			if s, o := n.Instr.(*ssa.Store); o {
				_ = s
				if args[0].K == TIndexAddr && args[1].K == TCall && args[1].N != nil && args[1].N.Callee == "("+mtap+".Node).Hash" {
					if fl.elemOfSeq(args[1].Args[0], rootsPath) && args[1].Args[0].K == TLoad && args[1].Args[0].Args[0].Args[1] == args[0].Args[1] {
						st.addMust("recorded", "recorded", n, args[1], args[0].Args[0])
						recs[n] = true
					}
				}
			}
			if n.isCall() && n.Builtin == "append" && res != nil && isByteSlices(res.T) {
				if _, el, k := appended(st, res); k && el.K == TCall && el.N.Callee == "("+mtap+".Node).Hash" && fl.elemOfSeq(el.Args[0], rootsPath) {
					st.addMust("recorded", "recorded", n, el, res)
					recs[n] = true
				}
			}
			if isMarshal(n) {
				st.addMust("marshal", "marshal", n, res)
			}
			if n.isCall() && n.Callee == "("+dbp+".Bucket).Set" && strings.HasSuffix(fl.path(args[1]), ".KeyForState") {
				st.addMust("set", "set", n, res)
			}
		},
		Exit: func(st *State, b *Block, rets []*Term) {
			if n, k := nilState(st, rets[0]); k && !n {
				return
			}
			e := st.must["set"]
			if e == nil || !(rets[0] == e.Args[0] || st.succeeded(e.Args[0])) {
				bad(fl.g.pos(b.Nodes[len(b.Nodes)-1]), "reports success although the recoverable state was not written")
			}
		},
	}
	g := BuildGraph(c.P, fn, InlineCfg{Opaque: c.codecOpaque})
	fl = NewFlow(g, cfg)
	for _, n := range g.Nodes {
		_ = n
	}
	// find the roots path before the run
	pre := NewFlow(g, FlowCfg{Hook: func(st *State, n *Node, args []*Term, res *Term, final bool) {
		if isNodeIfaceCall(n, "Flush") && len(args) > 0 {
			if args[0].K == TLoad && args[0].Args[0].K == TIndexAddr {
				rootsPath = st.fl.path(args[0].Args[0].Args[0])
			}
		}
	}})
	pre.Run()
	fl.Run()
	c.took(g, fl)
	for _, b := range built {
		good := each[b.ph] == 1
		for _, in := range fl.phiIn[b.ph] {
			if in != nil && !(in.K == TAppend) && !(in.K == TSym && in.N == b.ph) {
				z := fl.ts.lenOf(in, types.Typ[types.Int])
				if v, k := z.intVal(); !k || v != 0 {
					good = false
				}
			}
		}
		if !good {
			bad(b.pos, "the saved state does not contain one entry per root")
		}
	}
	if nset == 0 {
		bad(c.P.posOf(fn), "the recoverable state is never written")
	}
	if ok {
		c.Ob("state-after-nodes", name, true, c.P.posOf(fn), "roots "+rootsPath+" stored before the state")
	}
}

// codecOpaque: leave the serialization packages as calls.
func (c *Ctx) codecOpaque(f *ssa.Function) bool {
	if defaultOpaque(f) {
		return true
	}
	pk := f.Package()
	return pk != nil && (pk.Pkg.Path() == rel("common/codec"))
}

func isLenTerm(f *Flow, t *Term, seqPath string) bool { return isLenOf(f, t, seqPath) }

func (c *Ctx) accRecover(tn string) {
	fn := c.P.Method("common/mta", tn, "Recover")
	if fn == nil {
		c.Missing("recover", tn+".Recover")
		return
	}
	hs, _ := c.constVal("common/mta", "HashSize")
	ok := true
	name := "common/mta." + tn + ".Recover"
	bad := func(pos, m string) { ok = false; c.Ob("recover", name, false, pos, m) }
	var fl *Flow
	rootsF := "" // path of the accumulator's roots
	isRoots := func(p string) bool { return strings.HasSuffix(p, ".roots") && strings.HasPrefix(p, "p0") }
	cfg := FlowCfg{
		Numeric: true,
		Part: func(st *State) string {
			s := ""
			for _, k := range sortedKeys(st.must) {
				e := st.must[k]
				if len(e.Args) > 0 && e.Args[0] != nil && e.Tag != "copy" {
					s += k + fmt.Sprint(st.succeeded(e.Args[0]))
				}
			}
			if g := st.must["get"]; g != nil && g.Args[0] != nil {
				v, k := st.decide(st.fl.ts.bin(token.EQL, st.fl.ts.lenOf(extractOf(st.fl.ts, g.Args[0], 0), nil), st.fl.ts.intC(0), types.Typ[types.Bool]))
				s += fmt.Sprint(v, k)
			}
			return s
		},
		OnBack: func(st *State, e *Edge, final bool) {
			if !final {
				return
			}
			// the entry just visited is absent (empty) or restored as a root of exact hash size
			var lens []*Term
			for _, f := range st.facts {
				f.T.walk(func(x *Term) {
					if x.K == TLen && fl.elemOfSeq(x.Args[0], "new.Roots") {
						lens = append(lens, x)
					}
				})
			}
			for _, l := range lens {
				if v, k := st.decide(st.fl.ts.bin(token.EQL, l, st.fl.ts.intC(0), types.Typ[types.Bool])); k && v {
					return
				}
			}
			if r := st.must["restored"]; r != nil {
				return
			}
			bad(fl.g.pos(e.From.Nodes[len(e.From.Nodes)-1]), "a saved root of unexpected size is silently dropped")
		},
		Hook: func(st *State, n *Node, args []*Term, res *Term, final bool) {
			if n.Op != OpInstr {
				return
			}
			if n.isCall() && n.Callee == "("+dbp+".Bucket).Get" {
				c.sites++
				if final && !strings.HasSuffix(fl.path(args[1]), ".KeyForState") {
					bad(fl.g.pos(n), "recovers from a key other than the one the state is saved under")
				}
				st.addMust("get", "get", n, res)
			}
			if isUnmarshal(n) {
				st.addMust("unm", "unm", n, res)
				g := st.must["get"]
				if final && (g == nil || args[len(args)-2] != extractOf(st.fl.ts, g.Args[0], 0)) {
					bad(fl.g.pos(n), "decodes something other than the stored state")
				}
			}
			if _, o := n.Instr.(*ssa.Store); o && args[0].K == TIndexAddr {
				b := args[0].Args[0]
				v := args[1]
				if v.K == TIface {
					v = v.Args[0]
				}
				if v.K == TAlloc && b.K == TMake {
					// restored node: bytes field = the entry, of exact size
					good := false
					for _, m := range st.mem {
						if m.addr.K == TFieldAddr && m.addr.Args[0] == v && isByteSlice(m.val.T) && fl.elemOfSeq(m.val, "new.Roots") {
							if vv, k := st.decide(st.fl.ts.bin(token.EQL, st.fl.ts.lenOf(m.val, nil), st.fl.ts.intC(hs), types.Typ[types.Bool])); k && vv && m.val.K == TLoad && m.val.Args[0].Args[1] == args[0].Args[1] {
								good = true
							}
						}
					}
					if good {
						st.addMust("restored", "restored", n, b)
					} else if final {
						bad(fl.g.pos(n), "a root is restored from something other than the saved hash at its position")
					}
				}
			}
		},
		Exit: func(st *State, b *Block, rets []*Term) {
			pos := fl.g.pos(b.Nodes[len(b.Nodes)-1])
			if n, k := nilState(st, rets[0]); k && !n {
				return
			}
			g := st.must["get"]
			if g == nil || !st.succeeded(g.Args[0]) {
				bad(pos, "reports success although the state could not be read")
				return
			}
			var roots, length *Term
			for _, m := range st.mem {
				p := fl.path(m.addr)
				if strings.HasPrefix(p, "&p0") && strings.HasSuffix(p, ".roots") {
					roots = m.val
				}
				if strings.HasPrefix(p, "&p0") && strings.HasSuffix(p, ".length") {
					length = m.val
				}
			}
			empty, ek := st.decide(st.fl.ts.bin(token.EQL, st.fl.ts.lenOf(extractOf(st.fl.ts, g.Args[0], 0), nil), st.fl.ts.intC(0), types.Typ[types.Bool]))
			if ek && empty {
				z := false
				if length != nil {
					if v, k := length.intVal(); k && v == 0 {
						z = true
					}
				}
				if roots == nil || !roots.isNil() || !z {
					bad(pos, "nothing stored must recover to the empty accumulator")
				}
				return
			}
			u := st.must["unm"]
			if u == nil || !st.succeeded(u.Args[0]) {
				bad(pos, "reports success although the state could not be decoded")
				return
			}
			if !st.coveredSeq("new.Roots") {
				bad(pos, "not every saved root is restored")
			}
			if roots == nil || roots.K != TMake || !isLenOf(fl, roots.Args[0], "new.Roots") {
				bad(pos, "the restored roots do not have the saved shape: "+fl.path(roots))
			}
			if length == nil {
				bad(pos, "the length is not restored")
			}
		},
	}
	_ = isRoots
	_ = rootsF
	g := BuildGraph(c.P, fn, InlineCfg{Opaque: c.codecOpaque})
	fl = NewFlow(g, cfg)
	fl.Run()
	c.took(g, fl)
	if ok {
		c.Ob("recover", name, true, c.P.posOf(fn), "restores exactly the saved roots or fails")
	}
}

func (t *Term) walk(f func(*Term)) {
	if t == nil {
		return
	}
	f(t)
	for _, a := range t.Args {
		a.walk(f)
	}
}

// accRoundTrip: restoring the saved integers yields the original length (linear algebra).
func (c *Ctx) accRoundTrip(tn string) {
	fl1 := c.P.Method("common/mta", tn, "Flush")
	fl2 := c.P.Method("common/mta", tn, "Recover")
	if fl1 == nil || fl2 == nil {
		return
	}
	name := "common/mta." + tn
	saved := map[string]lin{} // field path -> linear form over p0 paths
	toPaths := func(f *Flow, l lin) (lin2 map[string]string, k string) {
		lin2 = map[string]string{}
		for t, co := range l.c {
			p := f.path(t)
			p = strings.TrimPrefix(p, "p0.Accumulator.")
			p = strings.TrimPrefix(p, "p0.")
			lin2[p] = co.String()
		}
		return lin2, l.k.String()
	}
	savedP := map[string]map[string]string{}
	savedK := map[string]string{}
	savedType := ""
	g := BuildGraph(c.P, fl1, InlineCfg{Opaque: c.codecOpaque})
	var f1 *Flow
	f1 = NewFlow(g, FlowCfg{Pre: func(st *State, n *Node, args []*Term, final bool) {
		if !final || !isMarshal(n) || len(args) == 0 {
			return
		}
		a := ptrAlloc(args[len(args)-1])
		if a == nil {
			return
		}
		savedType = types.TypeString(a.T, nil)
		for p, v := range st.fieldVals(a) {
			if isIntTerm(v) {
				l := st.lin(v)
				saved[p] = l
				savedP[p], savedK[p] = toPaths(f1, l)
			}
		}
	}})
	f1.Run()
	c.took(g, f1)
	g2 := BuildGraph(c.P, fl2, InlineCfg{Opaque: c.codecOpaque})
	okk := false
	msg := "length is not restored from the saved values"
	decT := ""
	var f2 *Flow
	f2 = NewFlow(g2, FlowCfg{
		Pre: func(st *State, n *Node, args []*Term, final bool) {
			if isUnmarshal(n) && len(args) > 0 {
				if a := ptrAlloc(args[len(args)-1]); a != nil {
					decT = types.TypeString(a.T, nil)
				}
			}
			if !final || n.Op != OpInstr {
				return
			}
			if _, o := n.Instr.(*ssa.Store); !o {
				return
			}
			p := f2.path(args[0])
			if !strings.HasPrefix(p, "&p0") || !strings.HasSuffix(p, ".length") || args[1].isConst() {
				return
			}
			// substitute
			tot := map[string]int64{}
			l := st.lin(args[1])
			good := l.k.Sign() == 0
			for t, co := range l.c {
				fp := strings.ReplaceAll(strings.ReplaceAll(f2.path(t), "&", ""), "new.", "")
				sp, has := savedP[fp]
				if !has || savedK[fp] != "0" || !co.IsInt64() {
					good = false
					msg = "length is restored from " + fp + ", which is not what was saved"
					continue
				}
				for q, cs := range sp {
					var cv int64
					fmt.Sscan(cs, &cv)
					tot[q] += co.Int64() * cv
				}
			}
			for q, v := range tot {
				if q == "length" && v != 1 || q != "length" && v != 0 {
					good = false
					msg = fmt.Sprintf("restored length contains %d*%s of the saved accumulator", v, q)
				}
			}
			if tot["length"] != 1 {
				good = false
			}
			okk = good
		},
	})
	f2.Run()
	c.took(g2, f2)
	if savedType != decT {
		okk = false
		msg = "saved as " + savedType + " but decoded as " + decT
	}
	c.Ob("saved-restored", name, okk, c.P.posOf(fl2), msg)
}

func isByteSlices(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isByteSlice(sl.Elem())
}

// nilElem: the element of the sequence being visited is known to be nil.
func nilElem(st *State, seq string) bool {
	for _, f := range st.facts {
		if f.Val && f.T.K == TBin && f.T.Op == "==" {
			for i := 0; i < 2; i++ {
				if f.T.Args[i].isNil() && st.fl.elemOfSeq(f.T.Args[1-i], seq) {
					return true
				}
			}
		}
	}
	return false
}
