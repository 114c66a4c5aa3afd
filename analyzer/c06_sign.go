package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "signed content",
		"content analysis of transaction signing: the signed hash is that of the method prefix and the canonical serialization of the transaction as it is sent, without its signature; the serializer is checked case by case (per loop iteration: what is written for each element, which elements are skipped, in which order) against the chain's format",
		checkSigned)
}

const iconClient = "chain/icon/client"

func checkSigned(c *Ctx) {
	pkg := iconClient
	// roles by signature
	var esc, val, list, dict, entry *ssa.Function
	emptyI := func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		return ok && i.NumMethods() == 0
	}
	isDict := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isString(m.Key()) && emptyI(m.Elem())
	}
	entry = c.P.FindFunc(pkg + ".SerializeJSON")
	if entry == nil {
		c.Missing("canonical", pkg+".SerializeJSON")
		return
	}
	reach := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || reach[f] || !c.P.inModule(f) {
			return
		}
		reach[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					walk(ci.Common().StaticCallee())
				}
			}
		}
	}
	walk(entry)
	cand := map[string][]*ssa.Function{}
	for f := range reach {
		if len(f.Params) == 0 || f.Signature.Results().Len() == 0 || !isByteSlice(f.Signature.Results().At(0).Type()) && !isString(f.Signature.Results().At(0).Type()) {
			continue
		}
		p := f.Params[len(f.Params)-1].Type()
		p0 := f.Params[0].Type()
		if f.Signature.Recv() != nil && len(f.Params) > 1 {
			p0 = f.Params[1].Type()
		}
		switch {
		case f == entry:
		case isDict(p0):
			cand["dict"] = append(cand["dict"], f)
		case isString(p) && f.Signature.Results().Len() == 1:
			cand["esc"] = append(cand["esc"], f)
		case emptyI(p0):
			cand["val"] = append(cand["val"], f)
		default:
			if sl, ok := p0.Underlying().(*types.Slice); ok && emptyI(sl.Elem()) {
				cand["list"] = append(cand["list"], f)
			}
		}
	}
	// of several, the one the others hand on to
	pick := func(role string) *ssa.Function {
		fs := cand[role]
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		for _, f := range fs {
			calls := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						for _, g := range fs {
							calls = calls || g != f && ci.Common().StaticCallee() == g
						}
					}
				}
			}
			if !calls {
				return f
			}
		}
		if len(fs) > 0 {
			return fs[0]
		}
		return nil
	}
	esc, val, list, dict = pick("esc"), pick("val"), pick("list"), pick("dict")
	roles := map[string]*ssa.Function{"escaping of strings": esc, "values": val, "lists": list, "dictionaries": dict}
	miss := false
	for _, k := range sortedKeys(roles) {
		if roles[k] == nil {
			c.Missing("canonical", "the serializer of "+k+" in "+pkg)
			miss = true
		}
	}
	if !miss {
		sg := &signCheck{c: c, esc: esc, val: val, list: list, dict: dict}
		sg.checkEsc()
		sg.checkSeq(list, false)
		sg.checkSeq(dict, true)
		sg.checkVal()
		sg.checkEntry(entry)
	}
	if f := c.P.FindFunc(pkg + ".Client.SignTransaction"); f != nil {
		signTx(c, f)
	} else {
		c.Missing("signature", pkg+".Client.SignTransaction")
	}
	c.Need("canonical", 5)
	c.Need("signature", 1)
}

type signCheck struct {
	c                    *Ctx
	esc, val, list, dict *ssa.Function
}

func (g *signCheck) role(f *ssa.Function) bool {
	return f == g.esc || f == g.val || f == g.list || f == g.dict
}

// ---- traces of what is written to an accumulator ----

func writeArg(n *Node) (idx int, ok bool) {
	switch n.Callee {
	case "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).Write", "(*strings.Builder).WriteString", "(hash.Hash).Write", "(io.Writer).Write":
		return 1, true
	}
	return 0, false
}

func isWriter(callee string) bool {
	return strings.HasPrefix(callee, "(*bytes.Buffer).Write") || strings.HasPrefix(callee, "(*strings.Builder).Write")
}

// writeTrace collects, per loop iteration, the arguments written to buffers.
func writeTrace(sc *SumCfg) {
	ev := sc.Ev
	sc.Ev = func(st *State, n *Node, args []*Term, res *Term) {
		if ev != nil {
			ev(st, n, args, res)
		}
		if n.Op != OpInstr || !n.isCall() {
			return
		}
		if i, ok := writeArg(n); ok && i < len(args) {
			var old []*Term
			if e := st.must["w"]; e != nil {
				old = e.Args
			}
			st.addMust("w", "w", n, append(append([]*Term{}, old...), args[i])...)
		} else if isWriter(n.Callee) {
			st.addMay("strangewrite", "strangewrite", n)
		}
	}
	part := sc.Part
	sc.Part = func(st *State) string {
		r := ""
		if part != nil {
			r = part(st)
		}
		if e := st.must["w"]; e != nil {
			for _, a := range e.Args {
				if a != nil {
					r += "," + a.key
				} else {
					r += ",?"
				}
			}
		}
		return r
	}
	cf := sc.Cfg
	sc.Cfg = func(fc *FlowCfg) {
		if cf != nil {
			cf(fc)
		}
		fc.OnHead = func(st *State, e *Edge, phis []PhiIn) func() {
			if w := st.must["w"]; w != nil {
				if !e.From.loops[e.To] {
					st.addMay("stray", "stray", w.N)
				}
				delete(st.must, "w")
			}
			return nil
		}
	}
}

// writes: what was written since the loop head (or the start), as byte content.
func (st *State) writes() (out []Seg) {
	e := st.must["w"]
	if e == nil {
		return nil
	}
	for _, a := range e.Args {
		switch {
		case a == nil:
			out = append(out, Seg{Kind: '?'})
		case isByteSlice(a.T) || isString(a.T):
			out = joinSegs(out, st.content(a))
		default:
			out = joinSegs(out, []Seg{byteSeg(a)})
		}
	}
	return
}

// iterWrites: what one iteration (ending on back edge e) adds to the accumulator.
func iterWrites(st *State, e *Edge) []Seg {
	out := st.writes()
	for _, n := range e.To.Nodes {
		if n.Op != OpPhi {
			break
		}
		if e.Idx >= len(n.Args) || !isByteSlice(n.Typ) && !isString(n.Typ) {
			continue
		}
		in := st.val(n.Args[e.Idx])
		ph := st.fl.sym(n)
		if in == nil || in == ph {
			continue
		}
		cs := st.content(in)
		if len(cs) > 0 && cs[0].Kind == 'w' && cs[0].T == ph {
			out = joinSegs(out, cs[1:])
		} else {
			out = append(out, Seg{Kind: '?'})
		}
	}
	return out
}

// accumulated: t is the content of a buffer or an accumulator.
func accumulated(t *Term) bool {
	t = stripConv(t)
	switch callName(t) {
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
		return true
	}
	return t.K == TSym && t.N.Op == OpPhi
}

const escaped = "\\{}[]."

func (g *signCheck) checkEsc() {
	c := g.c
	f := g.esc
	name := short(f.String())
	sc := SumCfg{Opaque: func(h *ssa.Function) bool { return g.role(h) }}
	writeTrace(&sc)
	s := c.Sum(f, sc)
	ok := true
	bad := func(pos, msg string) { ok = false; c.Ob("canonical", name, false, pos, msg) }
	seq := func(t *Term) bool { return s.fl.path(stripConv(t)) == "p0" }
	for _, o := range s.Outs {
		if o.St.may["stray"] != nil || o.St.must["w"] != nil || o.St.may["strangewrite"] != nil {
			bad(o.Pos, "something is written besides the characters of the string")
		}
		if len(o.St.coverHeadsF(seq)) == 0 {
			if lenZeroStr(o.St, s) {
				continue
			}
			bad(o.Pos, "not every character of the string is written, or not in order")
		}
		if !accumulated(o.Rets[0]) {
			bad(o.Pos, "the result is not what was written: "+s.fl.path(o.Rets[0]))
		}
	}
	n := 0
	for _, b := range s.Back {
		st := b.St
		w := iterWrites(st, b.E)
		n++
		var el *Term
		pre := ""
		switch {
		case len(w) == 1 && (w[0].Kind == 'b' || w[0].Kind == 'w'):
			el = w[0].T
		case len(w) == 2 && w[0].Kind == 'c' && (w[1].Kind == 'b' || w[1].Kind == 'w'):
			el, pre = w[1].T, w[0].C
		}
		pos := s.g.pos(b.E.From.lastNode())
		if el == nil {
			bad(pos, "an iteration writes "+segsString(w)+" instead of the next character")
			continue
		}
		e0 := stripConv(el)
		if !elemOfF(s.fl, e0, seq) {
			bad(pos, "an iteration writes something other than the next character: "+s.fl.path(el))
			continue
		}
		esc, known := escapedState(st, e0)
		switch {
		case !known:
			bad(pos, "a character is written without deciding whether it has to be escaped")
		case esc && pre != "\\":
			bad(pos, "a character with a meaning in the format is not escaped")
		case !esc && pre != "":
			bad(pos, "an ordinary character is escaped")
		}
	}
	if n == 0 {
		bad(c.P.posOf(f), "no loop over the characters of the string")
	}
	if ok {
		c.Ob("canonical", name, true, c.P.posOf(f), "")
	}
}

func lenZeroStr(st *State, s *Sum) bool {
	return st.entails(st.lin(s.fl.ts.lenOf(s.fl.ts.param(s, 0), nil)))
}

func (b *Block) lastNode() *Node {
	for i := len(b.Nodes) - 1; i >= 0; i-- {
		if b.Nodes[i].Instr != nil {
			return b.Nodes[i]
		}
	}
	if len(b.Nodes) > 0 {
		return b.Nodes[0]
	}
	return nil
}

// elemOfF: t is an element of a sequence satisfying seq.
func elemOfF(f *Flow, t *Term, seq func(*Term) bool) bool {
	t = stripConv(t)
	if t == nil {
		return false
	}
	if t.K == TLoad {
		t = t.Args[0]
	}
	if t.K == TIndexAddr || t.K == TIndex {
		return seq(t.Args[0])
	}
	if t.K == TPure && (t.Op == "lookup" || t.Op == "index") {
		return seq(t.Args[0])
	}
	if t.K == TExtract && t.Args[0].K == TCall && t.Args[0].Op == "next" {
		r := t.Args[0].Args[0]
		return r.K == TCall && r.Op == "range" && seq(r.Args[0])
	}
	return false
}

// escapedState: do the facts decide whether the character is one of the escaped ones?
func escapedState(st *State, e *Term) (esc, known bool) {
	left := map[int64]bool{}
	for _, ch := range escaped {
		left[int64(ch)] = true
	}
	for _, f := range st.facts {
		t := f.T
		if t.K == TBin && t.Op == "==" {
			for i := 0; i < 2; i++ {
				if v, ok := t.Args[i].intVal(); ok && stripConv(t.Args[1-i]) == e {
					if f.Val {
						return left[v] || strings.ContainsRune(escaped, rune(v)), true
					}
					delete(left, v)
				}
			}
		}
		// membership tests
		if t.K == TPure && len(t.Args) == 2 && stripConv(t.Args[1]) == e {
			if cs, ok := t.Args[0].strVal(); ok && strings.HasPrefix(t.Op, "strings.Contains") && sameChars(cs) {
				return f.Val, true
			}
		}
		if t.K == TBin && t.Op == "<" {
			if v, ok := t.Args[1].intVal(); ok && v == 0 && t.Args[0].K == TPure && strings.Contains(t.Args[0].Op, ".Index") && len(t.Args[0].Args) == 2 && stripConv(t.Args[0].Args[1]) == e {
				if cs, ok := t.Args[0].Args[0].strVal(); ok && sameChars(cs) {
					return !f.Val, true
				}
			}
		}
	}
	return false, len(left) == 0
}

func sameChars(s string) bool {
	if len(s) != len(escaped) {
		return false
	}
	for _, ch := range escaped {
		if !strings.ContainsRune(s, ch) {
			return false
		}
	}
	return true
}

// checkSeq: lists and dictionaries.
func (g *signCheck) checkSeq(f *ssa.Function, dict bool) {
	c := g.c
	name := short(f.String())
	isV := func(n *Node) bool { return n.Fn == g.val && n.Op == OpInstr && n.isCall() }
	sc := SumCfg{Opaque: func(h *ssa.Function) bool { return h != f && g.role(h) }, Max: 800,
		Ev: func(st *State, n *Node, args []*Term, res *Term) {
			if n.Op == OpInstr && n.isCall() && (n.Callee == "sort.Strings" || n.Callee == "slices.Sort") {
				st.addMust("sorted", "sorted", n, args[0])
			}
			if n.Op == OpInstr && n.isCall() && (n.Callee == "sort.Slice" || n.Callee == "sort.SliceStable") && len(args) == 2 && ascending(c, n) {
				st.addMust("sorted", "sorted", n, stripConv(stripBox(args[0])))
			}
			if n.Op == OpInstr && n.isCall() && n.Callee == "sort.Sort" {
				st.addMust("sorted", "sorted", n, stripConv(stripBox(args[0])))
			}
		}}
	writeTrace(&sc)
	s := c.Sum(f, sc)
	ok := true
	bad := func(pos, msg string) { ok = false; c.Ob("canonical", name, false, pos, msg) }
	// the loop that serializes
	heads := map[*Block]bool{}
	for _, b := range s.Back {
		if s.fl.loopHas(b.E.To, isV) {
			heads[b.E.To] = true
		}
	}
	if len(heads) != 1 {
		bad(c.P.posOf(f), fmt.Sprintf("%d loops over the elements instead of one", len(heads)))
		return
	}
	seq := func(t *Term) bool { return s.fl.path(t) == "p0" }
	if dict {
		seq = func(t *Term) bool { return isKeys(s, t) }
	}
	for _, o := range s.Outs {
		if nv, k := o.errState(); k && !nv || len(o.Rets) > 1 && o.Rets[0].isNil() && !o.Rets[1].isNil() {
			continue
		}
		st := o.St
		if st.may["stray"] != nil || st.must["w"] != nil || st.may["strangewrite"] != nil {
			bad(o.Pos, "something is written besides the elements")
		}
		cov := false
		for _, h := range st.coverHeadsF(func(t *Term) bool { return seq(t) || s.fl.path(t) == "p0" }) { // as many keys as elements
			if heads[h] {
				cov = true
			}
		}
		if !cov {
			bad(o.Pos, "not every element is written")
		}
		if dict {
			e := st.must["sorted"]
			if e == nil || e.Args[0] == nil || !isKeys(s, e.Args[0]) {
				bad(o.Pos, "the keys are not sorted before they are written")
			}
		}
		if !accumulated(o.Rets[0]) {
			bad(o.Pos, "the result is not what was written: "+s.fl.path(o.Rets[0]))
		}
	}
	early := dict && keysFiltered(s, g)
	n := 0
	for _, b := range s.Back {
		st := b.St
		pos := s.g.pos(b.E.From.lastNode())
		w := iterWrites(st, b.E)
		if !heads[b.E.To] {
			if len(w) > 0 {
				bad(pos, "something is written outside of the loop over the elements")
			}
			continue
		}
		n++
		// current key
		var key *Term
		isKey := func(t *Term) bool { return elemOfF(s.fl, t, seq) }
		filt := func(path string) (v, known bool) { return dictFilter(s, st, path, isKey) }
		if dict && len(w) == 0 {
			iv, ik := filt("p1")
			xv, xk := filt("p2")
			if !(ik && !iv) && !(xk && xv) {
				bad(pos, "an element is left out although it is neither excluded nor not included")
			}
			continue
		}
		if dict {
			iv, ik := filt("p1")
			xv, xk := filt("p2")
			if !early && (!ik || !iv || !xk || xv) {
				bad(pos, "an element is written without checking that it is included and not excluded")
			}
		}
		// optional separator
		sep := false
		if len(w) > 0 && w[0].Kind == 'c' && w[0].C == "." {
			sep = true
			w = w[1:]
		}
		if nonempty, known := accState(s, st); known && nonempty != sep {
			bad(pos, "elements are not separated exactly where something precedes them")
		} else if !known {
			bad(pos, "an element is written without deciding whether a separator is needed")
		}
		callOf := func(sg Seg, fn *ssa.Function) *Term {
			if sg.Kind != 'w' {
				return nil
			}
			t := sg.T
			if t.K == TExtract && t.I == 0 {
				t = t.Args[0]
			}
			if t.K == TCall && t.N.Fn == fn {
				return t
			}
			return nil
		}
		if dict {
			if len(w) != 3 || callOf(w[0], g.esc) == nil || w[1].Kind != 'c' || w[1].C != "." || callOf(w[2], g.val) == nil {
				bad(pos, "an element is not written as its escaped key, a dot and its value: "+segsString(w))
				continue
			}
			key = callOf(w[0], g.esc).Args[0]
			v := callOf(w[2], g.val)
			lk, okk := lookupOf(v.Args[0])
			if !isKey(key) || !(okk && s.fl.path(lk[0]) == "p0" && lk[1] == key) {
				bad(pos, "the value written is not the one of the key: "+s.fl.path(v.Args[0]))
			}
			if !st.succeeded(v) {
				bad(pos, "a value is written although it could not be serialized")
			}
		} else {
			if len(w) != 1 || callOf(w[0], g.val) == nil {
				bad(pos, "an element is not written as its value: "+segsString(w))
				continue
			}
			v := callOf(w[0], g.val)
			if !isKey(v.Args[0]) {
				bad(pos, "the value written is not the next element: "+s.fl.path(v.Args[0]))
			}
			if !st.succeeded(v) {
				bad(pos, "a value is written although it could not be serialized")
			}
		}
	}
	if dict {
		g.checkKeys(s, bad)
	}
	if n == 0 {
		bad(c.P.posOf(f), "no element is written")
	}
	if ok {
		c.Ob("canonical", name, true, c.P.posOf(f), "")
	}
}

// ascending: the comparison function given to sort.Slice orders the strings of the
// very slice that is sorted ascending.
func ascending(c *Ctx, n *Node) bool {
	ci, ok := n.Instr.(ssa.CallInstruction)
	if !ok {
		return false
	}
	args := ci.Common().Args
	mi, ok := args[0].(*ssa.MakeInterface)
	mc, ok2 := args[1].(*ssa.MakeClosure)
	if !ok || !ok2 || len(mc.Bindings) != 1 {
		return false
	}
	f := mc.Fn.(*ssa.Function)
	sorted := mi.X
	if u, ok := sorted.(*ssa.UnOp); ok {
		sorted = u.X
	}
	if mc.Bindings[0] != sorted && mc.Bindings[0] != mi.X {
		return false
	}
	s := c.Sum(f, SumCfg{})
	if len(s.Outs) != 1 || len(s.Outs[0].Rets) != 1 || len(f.Params) != 2 {
		return false
	}
	r := s.Outs[0].Rets[0]
	if r.K != TBin || r.Op != "<" {
		return false
	}
	el := func(t *Term, i int) bool {
		if t.K == TLoad {
			t = t.Args[0]
		}
		return (t.K == TIndexAddr || t.K == TIndex) && t.Args[1] == param(s, i) && strings.Contains(s.fl.path(t.Args[0]), "free:")
	}
	return el(r.Args[0], 0) && el(r.Args[1], 1)
}

func lookupOf(t *Term) ([2]*Term, bool) {
	if t != nil && t.K == TExtract && t.I == 0 {
		t = t.Args[0]
	}
	if t != nil && len(t.Args) >= 2 && (t.Op == "lookup") {
		return [2]*Term{t.Args[0], t.Args[1]}, true
	}
	return [2]*Term{}, false
}

// accState: do the facts say whether something has been written before?
func accState(s *Sum, st *State) (nonempty, known bool) {
	for _, fc := range st.facts {
		t := fc.T
		if t.K != TBin {
			continue
		}
		for i := 0; i < 2; i++ {
			v, ok := t.Args[i].intVal()
			if !ok {
				continue
			}
			x := t.Args[1-i]
			isLen := strings.HasSuffix(callName(x), "Buffer).Len") || strings.HasSuffix(callName(x), "Builder).Len") || x.K == TLen && x.Args[0].K == TSym && (isByteSlice(x.Args[0].T) || isString(x.Args[0].T))
			first := false
			if ph, off, ok := phiPlus(x); ok && !isLen {
				if f0, step, ok2 := s.fl.induction(ph); ok2 && step == 1 {
					if iv, ok3 := f0.intVal(); ok3 && iv+off == 0 {
						first = true
					}
				}
			}
			if !isLen && !first {
				continue
			}
			switch {
			case t.Op == "==" && v == 0:
				return !fc.Val, true
			case t.Op == "<" && i == 0 && v == 0: // 0 < len
				return fc.Val, true
			case t.Op == "<" && i == 1 && v == 1: // len < 1
				return !fc.Val, true
			}
		}
	}
	return false, false
}

// isKeys: the collection of the keys of the dictionary (an accumulator of strings).
func isKeys(s *Sum, t *Term) bool {
	t = stripConv(t)
	if t == nil || t.T == nil {
		return false
	}
	sl, ok := t.T.Underlying().(*types.Slice)
	if !ok || !isString(sl.Elem()) {
		return false
	}
	if t.K == TMake {
		return s.fl.path(t.Args[0]) == "len(p0)"
	}
	return t.K == TSym && t.N.Op == OpPhi || t.K == TMem
}

// dictFilter: what the facts say about the current key and one of the two filters.
func dictFilter(s *Sum, st *State, path string, isKey func(*Term) bool) (v, known bool) {
	for _, k := range sortedKeys(st.facts) {
		fc := st.facts[k]
		t := fc.T
		if t.K == TBin && t.Op == "==" && fc.Val && (t.Args[0].isNil() && s.fl.path(t.Args[1]) == path || t.Args[1].isNil() && s.fl.path(t.Args[0]) == path) {
			return path == "p1", true
		}
		if lk, ok := lookupOf(t); ok && s.fl.path(lk[0]) == path && isKey(lk[1]) {
			if n, k := st.eq("nil", path); path == "p1" && !fc.Val && !(k && !n) {
				return false, false // no filter at all includes everything
			}
			return fc.Val, true
		}
	}
	return false, false
}

// dictKey: the key of the iteration over the dictionary
func dictKey(s *Sum, e *Term) bool {
	if e == nil || e.K != TExtract || e.I != 1 || e.Args[0].K != TCall || e.Args[0].Op != "next" {
		return false
	}
	r := e.Args[0].Args[0]
	return r.K == TCall && r.Op == "range" && s.fl.path(r.Args[0]) == "p0"
}

// keysFiltered: the keys that must not be written are already left out where the
// keys are collected (and only they are).
func keysFiltered(s *Sum, g *signCheck) bool {
	n := 0
	for _, b := range s.Back {
		for _, ph := range b.E.To.Nodes {
			if ph.Op != OpPhi {
				break
			}
			t := s.fl.sym(ph)
			if !isKeys(s, t) || b.E.Idx >= len(ph.Args) || s.fl.loopHas(b.E.To, func(n *Node) bool { return n.Fn == g.val }) {
				continue
			}
			isKey := func(t *Term) bool { return dictKey(s, t) }
			iv, ik := dictFilter(s, b.St, "p1", isKey)
			xv, xk := dictFilter(s, b.St, "p2", isKey)
			if b.St.val(ph.Args[b.E.Idx]) == t {
				if !(ik && !iv) && !(xk && xv) {
					return false
				}
			} else {
				n++
				if !ik || !iv || !xk || xv {
					return false
				}
			}
		}
	}
	return n > 0
}

func (g *signCheck) checkKeys(s *Sum, bad func(pos, msg string)) {
	n := 0
	for _, b := range s.Back {
		for _, ph := range b.E.To.Nodes {
			if ph.Op != OpPhi {
				break
			}
			t := s.fl.sym(ph)
			if !isKeys(s, t) || b.E.Idx >= len(ph.Args) {
				continue
			}
			in := b.St.val(ph.Args[b.E.Idx])
			if in == t {
				if !s.fl.loopHas(b.E.To, func(n *Node) bool { return n.Fn == g.val }) && !keysFiltered(s, g) {
					bad(s.g.pos(b.E.From.lastNode()), "a key is not collected")
				}
				continue
			}
			good := false
			if in != nil && in.K == TAppend && in.Args[0] == t {
				if es, ok := b.St.elems(in.Args[1]); ok && len(es) == 1 {
					good = dictKey(s, es[0])
				}
			}
			n++
			if !good {
				bad(s.g.pos(b.E.From.lastNode()), "something other than each key of the dictionary is collected")
			}
		}
	}
	// keys put into their places one by one
	for _, st := range s.Sto {
		a := st.Args[0]
		if a.K != TIndexAddr || a.Args[0].K != TMake || !isKeys(s, a.Args[0]) {
			continue
		}
		n++
		ph, off, ok := phiPlus(a.Args[1])
		if ok {
			f0, step, ok2 := s.fl.induction(ph)
			iv, ok3 := int64(0), false
			if ok2 {
				iv, ok3 = f0.intVal()
			}
			ok = ok2 && ok3 && step == 1 && iv+off == 0
		}
		if !ok || !dictKey(s, st.Args[1]) {
			bad(s.g.pos(st.N), "something other than each key of the dictionary is collected")
		}
	}
	if n == 0 {
		bad(g.c.P.posOf(g.dict), "the keys of the dictionary are not collected")
	}
	for _, o := range s.Outs {
		if nv, k := o.errState(); k && !nv || len(o.Rets) > 1 && o.Rets[0].isNil() && !o.Rets[1].isNil() {
			continue
		}
		if len(o.St.coverHeads("p0")) == 0 {
			bad(o.Pos, "not every key of the dictionary is collected")
		}
	}
}

func (g *signCheck) checkVal() {
	c := g.c
	f := g.val
	name := short(f.String())
	sc := SumCfg{Opaque: func(h *ssa.Function) bool { return h != f && g.role(h) }}
	writeTrace(&sc)
	s := c.Sum(f, sc)
	ok := true
	bad := func(pos, msg string) { ok = false; c.Ob("canonical", name, false, pos, msg) }
	seen := map[string]bool{}
	for _, o := range s.Outs {
		st := o.St
		nv, k := o.errState()
		if k && !nv {
			// errors only for what failed below or for unknown kinds
			for _, fc := range st.facts {
				if fc.Val && isKindOf(s, fc.T) != "" {
					failed := false
					for _, g2 := range st.facts {
						if !g2.Val && g2.T.K == TBin && g2.T.Op == "==" && (g2.T.Args[0].isNil() && g2.T.Args[1].contains(fc.T.Args[0]) || g2.T.Args[1].isNil() && g2.T.Args[0].contains(fc.T.Args[0])) {
							failed = true
						}
					}
					if !failed {
						bad(o.Pos, "a value of a known kind is refused")
					}
				}
			}
			continue
		}
		kind := ""
		for _, fc := range st.facts {
			if fc.Val && fc.T.K == TBin && fc.T.Op == "==" && (fc.T.Args[0].isNil() && s.fl.path(fc.T.Args[1]) == "p0" || fc.T.Args[1].isNil() && s.fl.path(fc.T.Args[0]) == "p0") {
				kind = "nil"
			}
			if fc.Val {
				if x := isKindOf(s, fc.T); x != "" {
					kind = x
				}
			}
		}
		if kind == "" {
			bad(o.Pos, "a value of unknown kind is serialized")
			continue
		}
		seen[kind] = true
		w := st.content(o.Rets[0])
		if accumulated(o.Rets[0]) {
			w = st.writes()
		}
		sub := func(sg Seg, fn *ssa.Function) bool {
			if sg.Kind != 'w' {
				return false
			}
			t := sg.T
			multi := fn.Signature.Results().Len() > 1
			if multi {
				if t.K != TExtract || t.I != 0 {
					return false
				}
				t = t.Args[0]
			}
			if t.K != TCall || t.N.Fn != fn || multi && !st.succeeded(t) {
				return false
			}
			a := t.Args[0]
			if !strings.HasPrefix(s.fl.path(a), "assert:") && a.K != TDeref || !strings.HasSuffix(s.fl.path(a), "(p0)") {
				return false
			}
			for _, x := range t.Args[1:] {
				if !x.isNil() {
					return false
				}
			}
			return true
		}
		good := false
		switch kind {
		case "nil":
			good = len(w) == 1 && w[0].Kind == 'c' && w[0].C == "\\0"
		case "dict":
			good = len(w) == 3 && w[0].C == "{" && w[2].C == "}" && sub(w[1], g.dict)
		case "list":
			good = len(w) == 3 && w[0].C == "[" && w[2].C == "]" && sub(w[1], g.list)
		case "string":
			good = len(w) == 1 && sub(w[0], g.esc)
		case "number":
			if len(w) == 1 && w[0].Kind == 'w' {
				t := w[0].T
				whole := func(x *Term) bool { return x != nil && strings.HasSuffix(s.fl.path(stripConv(stripBox(x))), "(p0)") }
				switch callName(t) {
				case "strconv.FormatInt":
					b, _ := t.Args[1].intVal()
					good = b == 10 && whole(t.Args[0])
				case "strconv.AppendInt":
					b, _ := t.Args[2].intVal()
					good = b == 10 && len(st.content(t.Args[0])) == 0 && whole(t.Args[1])
				case "strconv.Itoa":
					good = whole(t.Args[0])
				case "fmt.Sprintf", "fmt.Sprint":
					k := len(t.Args) - 1
					if es, ok := st.elems(t.Args[k]); ok && len(es) == 1 && whole(es[0]) {
						if b, isB := stripBox(es[0]).T.Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
							fm, _ := t.Args[0].strVal()
							good = k == 0 || fm == "%d" || fm == "%v"
						}
					}
				}
			}
		}
		if !good {
			bad(o.Pos, "a value that is a "+kind+" is written as "+segsString(w))
		}
	}
	for _, k := range []string{"nil", "dict", "list", "string"} {
		if !seen[k] {
			bad(c.P.posOf(f), "a value that is a "+k+" is not serialized")
		}
	}
	if ok {
		c.Ob("canonical", name, true, c.P.posOf(f), "")
	}
}

func isKindOf(s *Sum, t *Term) string {
	if t.K != TPure || !strings.HasPrefix(t.Op, "is:") || s.fl.path(t.Args[0]) != "p0" {
		return ""
	}
	switch strings.TrimPrefix(t.Op, "is:") {
	case "map[string]interface{}", "map[string]any":
		return "dict"
	case "[]interface{}", "[]any":
		return "list"
	case "string":
		return "string"
	case "float64":
		return "number"
	}
	return ""
}

func (g *signCheck) checkEntry(f *ssa.Function) {
	c := g.c
	name := short(f.String())
	s := c.Sum(f, SumCfg{Opaque: func(h *ssa.Function) bool { return g.role(h) }})
	ok := true
	bad := func(pos, msg string) { ok = false; c.Ob("canonical", name, false, pos, msg) }
	n := 0
	for _, o := range s.Outs {
		if nv, k := o.errState(); k && !nv {
			continue
		}
		t := o.Rets[0]
		if t.K == TExtract && t.I == 0 {
			t = t.Args[0]
		}
		if t.K != TCall || t.N.Fn != g.dict || !o.St.succeeded(t) || s.fl.path(t.Args[1]) != "p1" || s.fl.path(t.Args[2]) != "p2" {
			bad(o.Pos, "the result is not the serialization of the given dictionary with the given filters: "+s.fl.path(o.Rets[0]))
			continue
		}
		n++
	}
	un := s.Calls(func(n *Node) bool { return n.Callee == "encoding/json.Unmarshal" })
	if len(un) == 0 || s.fl.path(un[0].Args[0]) != "p0" {
		bad(c.P.posOf(f), "what is serialized is not what was given")
	}
	if n == 0 {
		bad(c.P.posOf(f), "nothing is serialized")
	}
	if ok {
		c.Ob("canonical", name, true, c.P.posOf(f), "")
	}
}

// signTx: what is signed is what is sent.
func signTx(c *Ctx, f *ssa.Function) {
	name := short(f.String())
	ok := true
	bad := func(pos, msg string) { ok = false; c.Ob("signature", name, false, pos, msg) }
	s := c.Sum(f, SumCfg{
		Opaque: func(h *ssa.Function) bool {
			return pkgOf(h) != iconClient || h.Name() == "SerializeJSON" || strings.HasPrefix(h.Name(), "NewHex")
		},
		Ev: func(st *State, n *Node, args []*Term, res *Term) {
			if n.Op != OpInstr {
				return
			}
			bufferTrace(st, n, args, res)
			if n.isCall() && n.Callee == "encoding/json.Marshal" {
				st.addMust("marshal", "marshal", n, res, stripBox(args[0]))
				delete(st.must, "changed")
			}
			if _, isSt := n.Instr.(*ssa.Store); isSt && args[0].K == TFieldAddr && s0path(st, args[0].Args[0]) == "p2" {
				fn := args[0].fieldName()
				if fn != "Signature" && fn != "TxHash" && st.must["marshal"] != nil {
					st.addMay("late", "late", n)
				}
				st.addMust("set."+fn, "set", n, args[1])
			}
		},
	})
	n := 0
	for _, o := range s.Outs {
		if nv, k := o.errState(); k && !nv {
			continue
		}
		n++
		st := o.St
		m := st.must["marshal"]
		if m == nil || !st.succeeded(m.Args[0]) || s.fl.path(m.Args[1]) != "p2" {
			bad(o.Pos, "what is signed is not the given transaction")
			continue
		}
		if l := st.may["late"]; l != nil {
			bad(s.g.pos(l.N), "the transaction is changed after what is signed was taken from it")
		}
		if st.must["set.Timestamp"] == nil {
			bad(o.Pos, "the transaction does not get a fresh timestamp")
		} else if !strings.Contains(s.fl.path(st.must["set.Timestamp"].Args[0]), "time.Now()") {
			bad(o.Pos, "the timestamp is not the current time: "+s.fl.path(st.must["set.Timestamp"].Args[0]))
		}
		sg := st.must["set.Signature"]
		hs := st.must["set.TxHash"]
		if sg == nil || hs == nil {
			bad(o.Pos, "the transaction is not given its signature and hash")
			continue
		}
		e := sg.Args[0]
		if callName(e) != "(*encoding/base64.Encoding).EncodeToString" || s.fl.path(e.Args[0]) != "encoding/base64.StdEncoding" {
			bad(o.Pos, "the signature is not encoded in standard base64")
			continue
		}
		sx := e.Args[1]
		if sx.K != TExtract || sx.I != 0 || sx.Args[0].K != TCall || sx.Args[0].N.Invoke == nil || sx.Args[0].N.Invoke.Name() != "Sign" || s.fl.path(sx.Args[0].Args[0]) != "p1" || !st.succeeded(sx.Args[0]) {
			bad(o.Pos, "the signature is not made by the given wallet: "+s.fl.path(sx))
			continue
		}
		h := sx.Args[0].Args[1]
		if hh := hs.Args[0]; !strings.HasSuffix(callName(hh), ".NewHexBytes") || hh.Args[0] != h {
			bad(o.Pos, "the transaction's hash is not the one that is signed")
		}
		if short(callName(h)) != "common/crypto.SHA3Sum256" {
			bad(o.Pos, "what is signed is not the SHA3-256 hash of the transaction: "+s.fl.path(h))
			continue
		}
		w := st.content(h.Args[0])
		good := len(w) == 2 && w[0].Kind == 'c' && w[0].C == "icx_sendTransaction." && w[1].Kind == 'w' && w[1].T.K == TExtract && w[1].T.I == 0 && short(callName(w[1].T.Args[0])) == iconClient+".SerializeJSON"
		if !good {
			bad(o.Pos, "what is hashed is not the method followed by the serialized transaction: "+segsString(w))
			continue
		}
		sj := w[1].T.Args[0]
		if sj.Args[0] != extractOf(s.fl.ts, m.Args[0], 0) || !st.succeeded(sj) {
			bad(o.Pos, "what is serialized is not the transaction")
		}
		if !sj.Args[1].isNil() {
			bad(o.Pos, "only some fields of the transaction are signed")
		}
		if !excludesOnly(c, sj.Args[2], "signature") {
			bad(o.Pos, "fields other than the signature are left out of what is signed: "+s.fl.path(sj.Args[2]))
		}
	}
	if n == 0 {
		bad(c.P.posOf(f), "nothing is signed")
	}
	if ok {
		c.Ob("signature", name, true, c.P.posOf(f), "")
	}
}

func s0path(st *State, t *Term) string { return st.fl.path(t) }

// excludesOnly: the set is a package variable initialised with exactly one key, never changed.
func excludesOnly(c *Ctx, t *Term, key string) bool {
	if t.K != TGVar {
		return false
	}
	var g *ssa.Global
	for _, p := range c.P.spkgs {
		for _, m := range p.Members {
			if x, ok := m.(*ssa.Global); ok && x.String() == t.Op {
				g = x
			}
		}
	}
	if g == nil {
		return false
	}
	keys := map[string]bool{}
	okAll := true
	for _, f := range c.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				from := false
				switch m := mu.Map.(type) {
				case *ssa.UnOp:
					from = m.X == ssa.Value(g)
				case *ssa.MakeMap:
					for _, r := range *m.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
							from = true
						}
					}
				}
				if !from {
					continue
				}
				k, ok := mu.Key.(*ssa.Const)
				v, ok2 := mu.Value.(*ssa.Const)
				if !ok || !ok2 {
					okAll = false
					continue
				}
				if v.Value.ExactString() == "true" {
					keys[strings.Trim(k.Value.ExactString(), "\"")] = true
				}
			}
		}
	}
	return okAll && len(keys) == 1 && keys[key]
}
