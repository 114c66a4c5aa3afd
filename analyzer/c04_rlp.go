package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "RLP data is framed the same way by writer and reader",
		"interval and byte-content analysis of every outcome of the RLP writer and reader: the bytes written against the length class of the value, the bytes consumed and returned against the range of the tag byte",
		checkRLP)
}

const codecPkg = "common/codec"

type rlpCheck struct {
	c    *Ctx
	full map[*ssa.Function]bool // functions that write all of their argument
}

func checkRLP(c *Ctx) {
	r := &rlpCheck{c: c, full: map[*ssa.Function]bool{}}
	r.writeAll()
	r.write("WriteBytes", 0x80)
	r.write("WriteNull", 0)
	r.write("WriteRaw", 1)
	r.write("Close", 0xc0)
	c.Need("write", 4)
	r.read("ReadBytes", "bytes")
	r.read("ReadList", "list")
	r.read("ReadMap", "list")
	r.read("ReadRaw", "raw")
	r.skip()
	r.drain()
	c.Need("read", 6)
	r.open()
	c.Need("open", 2)
	r.values()
	c.Need("value", 2)
}

func calleeOf(n *Node) string {
	if n == nil || !n.isCall() {
		return ""
	}
	return n.Callee
}

func isWriterWrite(n *Node) bool {
	return n.isCall() && strings.HasSuffix(n.Callee, "io.Writer.Write") || n.isCall() && n.Callee == "(io.Writer).Write"
}

// writeAll: functions of the package that write a byte slice in a loop, checked to write all of it in order.
func (r *rlpCheck) writeAll() {
	c := r.c
	for _, fn := range c.P.funcs {
		if fn.Pkg == nil || short(fn.Pkg.Pkg.Path()) != codecPkg || fn.Signature.Results().Len() == 0 {
			continue
		}
		bp := -1
		for i, p := range fn.Params {
			if isByteSlice(p.Type()) {
				bp = i
			}
		}
		if bp < 0 || !hasLoopWrite(fn) {
			continue
		}
		s := c.Sum(fn, SumCfg{Numeric: true, NoKill: func(n string) bool { return strings.HasSuffix(n, "Writer.Write") || strings.HasSuffix(n, "Writer).Write") }})
		name := short(fn.String())
		why := ""
		n := 0
		b := fmt.Sprintf("p%d", bp)
		for _, rec := range s.Call {
			if !isWriterWrite(rec.N) {
				continue
			}
			n++
			a := rec.Args[len(rec.Args)-1]
			if s.fl.path(rec.Args[0]) != "p0.writer" {
				why = "it writes elsewhere: " + s.fl.path(rec.Args[0])
			}
			if isPhiTerm(a) { // the rest is carried along
				for _, x := range s.Ent {
					if x.E.To == a.N.Blk && s.fl.path(x.St.val(a.N.Args[x.E.Idx])) != b {
						why = "writing does not start at the first byte"
					}
				}
				for _, x := range s.Back {
					if x.E.To != a.N.Blk {
						continue
					}
					v := x.St.val(a.N.Args[x.E.Idx])
					if v.K != TSlice || v.Args[0] != a || v.Args[2] != nil || v.Args[1] == nil || v.Args[1].K != TExtract || v.Args[1].I != 0 || v.Args[1].Args[0].N != rec.N || !x.St.succeeded(v.Args[1].Args[0]) {
						why = "after a write it does not go on with the bytes not yet written"
					}
				}
				for _, o := range s.Outs {
					if !o.failed() && !o.St.entails64(o.St.linW(s.fl.ts.lenOf(a, types.Typ[types.Int]))) {
						why = "it may succeed before everything is written"
					}
				}
				continue
			}
			if a.K != TSlice || s.fl.path(a.Args[0]) != b || a.Args[1] == nil || a.Args[2] != nil || !isPhiTerm(a.Args[1]) {
				if !(a.K != TSlice && s.fl.path(a) == b) {
					why = "what is written is not the rest of the bytes: " + s.fl.path(a)
				}
				continue
			}
			ph := a.Args[1]
			for _, x := range s.Ent {
				if x.E.To == ph.N.Blk {
					if v, k := x.St.val(ph.N.Args[x.E.Idx]).intVal(); !k || v != 0 {
						why = "writing does not start at the first byte"
					}
				}
			}
			for _, x := range s.Back {
				if x.E.To != ph.N.Blk {
					continue
				}
				v := x.St.linW(x.St.val(ph.N.Args[x.E.Idx])).sub(linAtom(ph))
				good := false
				for t, k := range v.c {
					good = len(v.c) == 1 && v.k.Sign() == 0 && k.Cmp(bigOne) == 0 && t.K == TExtract && t.I == 0 && t.Args[0].N == rec.N && x.St.succeeded(t.Args[0])
				}
				if !good {
					why = "after a write it does not go on with the bytes not yet written"
				}
			}
			for _, o := range s.Outs {
				if !o.failed() && !o.St.entails64(o.St.linW(s.fl.ts.lenOf(param(s, bp), nil)).sub(linAtom(ph))) {
					why = "it may succeed before everything is written"
				}
			}
		}
		if n == 0 {
			continue
		}
		r.full[fn] = true
		c.Ob("write-all", name, why == "", c.P.posOf(fn), why)
	}
}

func isPhiTerm(t *Term) bool { return t != nil && t.K == TSym && t.N.Op == OpPhi && t.N.Blk.loopHead }

// hasLoopWrite: the function itself calls Write of an io.Writer inside a loop.
func hasLoopWrite(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !call.Call.IsInvoke() || call.Call.Method.Name() != "Write" {
				continue
			}
			// reachable from itself
			seen := map[*ssa.BasicBlock]bool{}
			w := append([]*ssa.BasicBlock(nil), b.Succs...)
			for len(w) > 0 {
				x := w[len(w)-1]
				w = w[:len(w)-1]
				if x == b {
					return true
				}
				if !seen[x] {
					seen[x] = true
					w = append(w, x.Succs...)
				}
			}
		}
	}
	return false
}

func (r *rlpCheck) method(typ, name string) *ssa.Function { return r.c.P.Method(codecPkg, typ, name) }

// evs: the events of an outcome in the order they happened.
func (o Outcome) evs(tag string) []*Event {
	var out []*Event
	for _, k := range sortedKeys(o.St.must) {
		if e := o.St.must[k]; e.Tag == tag {
			out = append(out, e)
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i].N, out[j].N
		if a.Blk != b.Blk {
			return a.Blk.rpo < b.Blk.rpo
		}
		for _, n := range a.Blk.Nodes {
			if n == a {
				return true
			}
			if n == b {
				return false
			}
		}
		return false
	})
	return out
}

// linW: like lin, seeing through conversions between the 64-bit integer types.
func (s *State) linW(t *Term) lin {
	l := s.lin(t)
	out := newLin()
	out.k.Set(l.k)
	wide := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return false
		}
		switch b.Kind() {
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
			return true
		}
		return false
	}
	for a, k := range l.c {
		if a.K == TConv && isIntTerm(a.Args[0]) && wide(a.T) && wide(a.Args[0].T) {
			out = out.add(s.linW(a.Args[0]), k)
		} else {
			out = out.add(linAtom(a), k)
		}
	}
	return out
}

// globBytes: the bytes of a package variable set only by its initialiser.
func (p *Program) globBytes(name string) (string, bool) {
	mut := p.mutableGlobals()
	for _, fn := range p.funcs {
		if fn.Name() != "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || short(g.String()) != name || mut[g.String()] {
					continue
				}
				sl, ok := st.Val.(*ssa.Slice)
				if !ok || sl.Low != nil || sl.High != nil {
					return "", false
				}
				at, ok := elemOf(sl.X.Type()).Underlying().(*types.Array)
				if !ok {
					return "", false
				}
				out := make([]byte, at.Len())
				for _, ref := range *sl.X.Referrers() {
					if ia, ok := ref.(*ssa.IndexAddr); ok {
						ix, k1 := ia.Index.(*ssa.Const)
						for _, r2 := range *ia.Referrers() {
							s2, ok := r2.(*ssa.Store)
							if !ok {
								return "", false
							}
							v, k2 := s2.Val.(*ssa.Const)
							if !k1 || !k2 {
								return "", false
							}
							out[ix.Int64()] = byte(v.Int64())
						}
					}
				}
				return string(out), true
			}
		}
	}
	return "", false
}

// nodesIn: everything the function may write to package variables' elements is ignored here: a byte slice variable
// whose elements are stored to anywhere is not constant.
func (p *Program) elemsWritten(name string) bool {
	for _, fn := range p.funcs {
		if fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if u, ok := ia.X.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && short(g.String()) == name {
						return true
					}
				}
			}
		}
	}
	return false
}

func (r *rlpCheck) write(meth string, base int64) {
	c := r.c
	fn := r.method("rlpWriter", meth)
	name := codecPkg + ".rlpWriter." + meth
	if fn == nil {
		c.Missing("write", name)
		return
	}
	good := true
	r.writeFn(fn, meth, func(pos, m string) { good = false; c.Ob("write", name, false, pos, m) })
	if good {
		c.Ob("write", name, true, c.P.posOf(fn), "")
	}
}

// writeFn checks what a function writes against what the method of that name has to write.
func (r *rlpCheck) writeFn(fn *ssa.Function, meth string, bad func(pos, m string)) {
	c := r.c
	s := c.Sum(fn, SumCfg{Numeric: true,
		Opaque: func(f *ssa.Function) bool { return r.full[f] || f.Name() == "SizeToBytes" },
		NoKill: func(n string) bool {
			for f := range r.full {
				if f.String() == n {
					return true
				}
			}
			return strings.HasSuffix(n, "Writer.Write") || strings.HasSuffix(n, "Writer).Write")
		},
		Track: func(n *Node) string {
			if n.Fn != nil && r.full[n.Fn] || isWriterWrite(n) {
				return "write"
			}
			return ""
		}})
	n := 0
	for _, o := range s.Outs {
		if o.failed() {
			continue
		}
		st := o.assumedErr()
		evs := o.evs("write")
		var segs []Seg
		wr, okw := "", true
		for _, e := range evs {
			w := s.fl.path(e.Args[1])
			if isWriterWrite(e.N) {
				w = strings.TrimSuffix(w, ".writer")
			}
			if wr != "" && wr != w {
				okw = false
			}
			wr = w
			if !st.succeeded(e.Args[0]) {
				bad(o.Pos, "it may succeed although a write failed")
			}
						for _, g := range st.content(e.Args[len(e.Args)-1]) {
				if g.Kind == 'w' {
					if b, k := c.P.globBytes(s.fl.path(g.T)); k && !c.P.elemsWritten(s.fl.path(g.T)) {
						g = Seg{Kind: 'c', C: b}
					}
				}
				segs = joinSegs(segs, []Seg{g})
			}
		}
		if !okw {
			bad(o.Pos, "the parts are written to different writers")
		}
		switch meth {
		case "WriteNull":
			n++
			if wr != "p0" || segsString(segs) != "[0xf800]" {
				bad(o.Pos, "the null value is written as "+segsString(segs))
			}
		case "WriteRaw":
			n++
			if wr != "p0" || len(segs) != 1 || segs[0].Kind != 'w' || s.fl.path(segs[0].T) != "p1" {
				bad(o.Pos, "raw bytes are written as "+segsString(segs))
			}
		case "WriteBytes":
			n++
			if nv, k := nilState(st, param(s, 1)); k && nv {
				if wr != "p0" || segsString(segs) != "[0xf800]" {
					bad(o.Pos, "a missing value is written as "+segsString(segs))
				}
				continue
			} else if !k {
				bad(o.Pos, "a missing value is not told from an empty one")
			}
			if wr != "p0" {
				bad(o.Pos, "the value is written elsewhere: "+wr)
			}
			if why := r.framed(st, segs, param(s, 1), 0x80); why != "" {
				bad(o.Pos, why)
			}
		case "Close":
			if nv, k := st.eqNilPath("p0.parent"); k && nv {
				if len(evs) > 0 {
					bad(o.Pos, "closing a writer that is not a list writes something")
				}
				continue
			}
			n++
			if wr != "p0.parent.writer" {
				bad(o.Pos, "the list is not written to the writer it was opened on: "+wr)
			}
			var body *Term
			for _, g := range segs {
				if g.Kind == 'w' && strings.HasSuffix(callName(g.T), "Buffer).Bytes") {
					body = g.T
				}
			}
			for _, k := range sortedKeys(st.facts) {
				for _, call := range callsIn(st.facts[k].T) {
					if strings.HasSuffix(callName(call), "Buffer).Bytes") {
						body = call
					}
				}
			}
			if body == nil || s.fl.path(body.Args[0]) != "p0.parent.buffer" {
				bad(o.Pos, "what is written is not what was put in the list: "+segsString(segs))
				continue
			}
			if why := r.framed(st, segs, body, 0xc0); why != "" {
				bad(o.Pos, why)
			}
		}
	}
	if n == 0 {
		bad(c.P.posOf(fn), "nothing is ever written")
	}
}

// framed: segs is the RLP form of the bytes v, with header base, for every v of this state.
func (r *rlpCheck) framed(st *State, segs []Seg, v *Term, base int64) string {
	f := st.fl
	l := st.linW(f.ts.lenOf(v, types.Typ[types.Int]))
	what := "a value is written as " + segsPaths(f, segs)
	isV := func(g Seg) bool { return g.Kind == 'w' && f.path(g.T) == f.path(v) }
	empty := st.entails64(l)
	// the value itself
	if len(segs) == 1 && isV(segs[0]) {
		if base == 0x80 && linEqual(st, l, linK(1)) && st.byteBelow(v, 0x80) {
			return ""
		}
		return what + " without a header"
	}
	head := func(g Seg, want lin) (rest []Seg, ok bool) {
		switch g.Kind {
		case 'c':
			return nil, len(g.C) == 1 && linEqual(st, linK(int64(g.C[0])), want)
		case 'b':
			return nil, linEqual(st, st.linW(byteOf(g.T)), want)
		}
		return nil, false
	}
	if len(segs) == 0 {
		return "nothing is written for a value"
	}
	if len(segs) == 1 || len(segs) == 2 {
		if len(segs) == 2 && !isV(segs[1]) {
			return what
		}
		if len(segs) == 1 && !empty {
			return what + ": its bytes are missing"
		}
		if _, ok := head(segs[0], l.plus(base)); !ok {
			return what + ": the header does not give its length"
		}
		if !st.entails64(l.plus(-55)) {
			return what + ": a length above 55 does not fit the short header"
		}
		not1 := false
		for _, d := range st.constraints().neqs {
			not1 = not1 || linSame(d, l.plus(-1)) || linSame(d.neg(), l.plus(-1))
		}
		if base == 0x80 && !(empty || not1 || st.entails64(linK(2).sub(l)) || st.byteNotBelow(v, 0x80)) {
			return what + ": a single byte below 0x80 is its own form"
		}
		return ""
	}
	if len(segs) == 3 && isV(segs[2]) && segs[1].Kind == 'w' {
		sz := segs[1].T
		if !strings.HasSuffix(callName(sz), "intconv.SizeToBytes") || !linEqual(st, st.linW(sz.Args[0]), l) {
			return what + ": the length bytes are not its length"
		}
		if _, ok := head(segs[0], st.linW(f.ts.lenOf(sz, types.Typ[types.Int])).plus(base+55)); !ok {
			return what + ": the header does not give the number of length bytes"
		}
		if !st.entails64(linK(56).sub(l)) {
			return what + ": a length up to 55 must use the short header"
		}
		return ""
	}
	return what
}

func segsPaths(f *Flow, ss []Seg) string {
	var o []string
	for _, g := range ss {
		if g.T != nil {
			o = append(o, f.path(g.T))
		} else {
			o = append(o, g.String())
		}
	}
	return "[" + strings.Join(o, " ") + "]"
}

// byteOf: the integer a byte is made from.
func byteOf(t *Term) *Term {
	for t.K == TConv && isIntTerm(t.Args[0]) {
		t = t.Args[0]
	}
	return t
}

func (s *State) byteFact(v *Term, below int64) (bool, bool) {
	for _, k := range sortedKeys(s.facts) {
		f := s.facts[k]
		if f.T.K != TBin || f.T.Op != "<" {
			continue
		}
		x := func(t *Term) bool {
			t = stripConv(t)
			q, ix := elemAt(t)
			if q == nil {
				return false
			}
			i, k := ix.intVal()
			return k && i == 0 && s.fl.path(q) == s.fl.path(v)
		}
		if n, k := f.T.Args[1].intVal(); k && n == below && x(f.T.Args[0]) {
			return f.Val, true
		}
		if n, k := f.T.Args[0].intVal(); k && n == below-1 && x(f.T.Args[1]) {
			return !f.Val, true
		}
	}
	return false, false
}
func (s *State) byteBelow(v *Term, n int64) bool    { b, k := s.byteFact(v, n); return k && b }
func (s *State) byteNotBelow(v *Term, n int64) bool { b, k := s.byteFact(v, n); return k && !b }

// eqNilPath: whether what the path describes is nil here.
func (s *State) eqNilPath(path string) (bool, bool) {
	for _, k := range sortedKeys(s.facts) {
		f := s.facts[k]
		if f.T.K == TBin && f.T.Op == "==" {
			for i := 0; i < 2; i++ {
				if f.T.Args[i].isNil() && s.fl.path(f.T.Args[1-i]) == path {
					return f.Val, true
				}
			}
		}
	}
	return false, false
}

// assumedErr: the outcome's state, given that it is a success (also for a single error result).
func (o Outcome) assumedErr() *State {
	if len(o.Rets) == 0 {
		return o.St
	}
	return Outcome{St: o.St, Rets: append([]*Term{nil}, o.Rets...)}.assumed()
}

// ---- reading

func (r *rlpCheck) readSum(fn *ssa.Function) *Sum {
	return r.c.Sum(fn, SumCfg{Numeric: true,
		Opaque: func(f *ssa.Function) bool { return f.Name() == "BytesToSize" },
		Track: func(n *Node) string {
			switch n.Callee {
			case "io.ReadFull", "io.CopyN":
				return "read"
			}
			if n.Builtin == "copy" {
				return "cp"
			}
			if n.isCall() && (strings.HasSuffix(n.Callee, "Reader.Read") || strings.HasSuffix(n.Callee, "Reader).Read") || n.Callee == "io.Copy" || n.Callee == "io.ReadAtLeast" || n.Callee == "io/ioutil.ReadAll" || n.Callee == "io.ReadAll") {
				return "other"
			}
			return ""
		}})
}

// item: what an outcome consumed from the stream.
type rlpItem struct {
	tag   *Term // first byte
	first *Term // the buffer it was read into
	more  *Term // the length bytes, if any
	pay   *Term // the buffer of the payload, if read
	skip  bool  // the payload was skipped
	n     lin   // payload size consumed (0 if none)
	size  *Term // the size the length bytes give
	fails *Event
	nread int
}

// tagTerm: the byte loaded from the buffer first read.
func tagTerm(st *State, rets []*Term, buf *Term) *Term {
	base := buf
	lo := int64(0)
	for base.K == TSlice {
		if base.Args[1] != nil {
			v, k := base.Args[1].intVal()
			if !k {
				return nil
			}
			lo += v
		}
		base = base.Args[0]
	}
	var out *Term
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if t == nil || d > 14 || out != nil {
			return
		}
		if t.K == TLoad && t.Args[0].K == TIndexAddr {
			b := t.Args[0].Args[0]
			if i, k := t.Args[0].Args[1].intVal(); k && i == lo && (b == base || b == buf) {
				out = t
				return
			}
		}
		for _, a := range t.Args {
			rec(a, d+1)
		}
	}
	for _, k := range sortedKeys(st.facts) {
		rec(st.facts[k].T, 0)
	}
	for _, t := range rets {
		rec(t, 0)
	}
	return out
}

func (r *rlpCheck) consumed(s *Sum, o Outcome) (*rlpItem, string) {
	st := o.St
	it := &rlpItem{n: linK(0)}
	if len(o.evs("other")) > 0 {
		return nil, "the stream is read other than in full"
	}
	evs := o.evs("read")
	if len(evs) == 0 {
		return nil, "nothing is read"
	}
	bufLen := func(t *Term) lin { return st.linW(s.fl.ts.lenOf(t, types.Typ[types.Int])) }
	for i, e := range evs {
		call := e.Args[0]
		cp := e.N.Callee == "io.CopyN"
		rd, sz := e.Args[1], lin{}
		if cp {
			rd, sz = e.Args[2], st.linW(e.Args[3])
			if !strings.HasSuffix(s.fl.path(e.Args[1]), ".Discard") {
				return nil, "the bytes are copied elsewhere: " + s.fl.path(e.Args[1])
			}
		} else {
			sz = bufLen(e.Args[2])
		}
		if s.fl.path(rd) != "p0.reader" {
			return nil, "another stream is read: " + s.fl.path(rd)
		}
		it.nread++
		switch i {
		case 0:
			if cp || !linEqual(st, sz, linK(1)) {
				return nil, "the first read is not of the one tag byte"
			}
			it.first = e.Args[2]
			it.tag = tagTerm(st, o.Rets, e.Args[2])
		default:
			// length bytes, when a size is made from them; otherwise the payload
			var size *Term
			if !cp {
				size = sizeFrom(s, st, o.Rets, evs, e.Args[2])
			}
			if i == 1 && size != nil || i == 1 && !cp && it.tag != nil && r.longTag(st, it.tag) {
				it.more, it.size = e.Args[2], size
			} else if it.pay == nil && !it.skip {
				it.pay, it.skip, it.n = nil, cp, sz
				if !cp {
					it.pay = e.Args[2]
				}
			} else {
				return nil, "more is read than one item"
			}
		}
		if !st.succeeded(call) {
			it.fails = e
			if i != len(evs)-1 {
				return nil, "reading goes on after a failed read"
			}
		}
	}
	return it, ""
}

// longTag: the tag says that length bytes follow.
func (r *rlpCheck) longTag(st *State, tag *Term) bool {
	t := st.linW(tag)
	return st.entails64(linK(0xf8).sub(t)) || st.entails64(linK(0xb8).sub(t)) && st.entails64(t.plus(-0xbf))
}

// sizeFrom: the size computed from the length bytes read into buf.
func sizeFrom(s *Sum, st *State, rets []*Term, evs []*Event, buf *Term) *Term {
	var out *Term
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if t == nil || d > 14 || out != nil {
			return
		}
		if c := t; strings.HasSuffix(callName(stripConv(c)), "intconv.BytesToSize") && stripConv(c).Args[0] == buf {
			out = t
			return
		}
		for _, a := range t.Args {
			rec(a, d+1)
		}
	}
	for _, k := range sortedKeys(st.facts) {
		rec(st.facts[k].T, 0)
	}
	for _, e := range evs {
		for _, a := range e.Args[1:] {
			rec(a, 0)
		}
	}
	for _, t := range rets {
		rec(t, 0)
	}
	for _, k := range sortedKeys(st.mem) {
		if m := st.mem[k]; m.val != nil {
			rec(m.val, 0)
		}
	}
	return out
}

// refutes: a = b is impossible here.
func (s *State) refutes(a lin, k int64) bool {
	d := a.plus(-k)
	if s.entails64(d.plus(1)) || s.entails64(d.neg().plus(1)) {
		return true
	}
	for _, k := range sortedKeys(s.facts) {
		f := s.facts[k]
		if f.Val || f.T.K != TBin || f.T.Op != "==" || !isIntTerm(f.T.Args[0]) {
			continue
		}
		x := s.linW(f.T.Args[0]).sub(s.linW(f.T.Args[1]))
		if linSame(x, d) || linSame(x.neg(), d) {
			return true
		}
	}
	return false
}

func (r *rlpCheck) read(meth, mode string) {
	c := r.c
	fn := r.method("rlpReader", meth)
	name := codecPkg + ".rlpReader." + meth
	if fn == nil {
		c.Missing("read", name)
		return
	}
	r.readOb(fn, name, mode)
}

func (r *rlpCheck) readOb(fn *ssa.Function, name, mode string) {
	good := true
	r.readFn(fn, mode, func(pos, m string) { good = false; r.c.Ob("read", name, false, pos, m) })
	if good {
		r.c.Ob("read", name, true, r.c.P.posOf(fn), "")
	}
}

func (r *rlpCheck) readFn(fn *ssa.Function, mode string, bad func(pos, m string)) {
	c := r.c
	s := r.readSum(fn)
	n := 0
	for _, o := range s.Outs {
		st := o.St
		it, why := r.consumed(s, o)
		if why != "" {
			bad(o.Pos, why)
			continue
		}
		err := o.Rets[len(o.Rets)-1]
		if it.fails != nil {
			call := it.fails.Args[0]
			e := errOf(s.fl.ts, call)
			raw := err == e
			if it.nread == 1 {
				if !raw {
					bad(o.Pos, "the end of the stream before an item is not reported as such: "+s.fl.path(err))
				}
				continue
			}
			if nv, k := nilState(st, err); k && nv {
				bad(o.Pos, "a failed read is reported as success")
				continue
			}
			if raw {
				eof := false
				for _, k := range sortedKeys(st.facts) {
					f := st.facts[k]
					if !f.Val && f.T.K == TBin && f.T.Op == "==" && f.T.contains(e) && strings.Contains(s.fl.path(f.T), "io.EOF") {
						eof = true
					}
				}
				if !eof {
					bad(o.Pos, "the end of the stream within an item is reported like its end before one")
				}
			}
			continue
		}
		if it.tag == nil {
			bad(o.Pos, "the tag byte read is not used")
			continue
		}
		t := st.linW(it.tag)
		in := func(lo, hi int64) bool { return st.entails64(linK(lo).sub(t)) && st.entails64(t.plus(-hi)) }
		var size lin
		if it.size != nil {
			size = st.linW(it.size)
		}
		isNull := func() bool { // certainly the null value
			return linEqual(st, t, linK(0xf8)) && it.size != nil && (linEqual(st, size, linK(0)) || linEqual(st, st.lin(it.size), linK(0)))
		}
		notNull := func() bool {
			return st.refutes(t, 0xf8) || it.size != nil && (st.refutes(size, 0) || st.entails64(linK(1).sub(size)) || st.entails64(linK(1).sub(st.lin(it.size))))
		}
		if !o.failed() {
			n++
			lists, strs := mode != "bytes", mode != "list"
			var want lin
			form := ""
			long := func(b int64) string {
				if it.more == nil || it.size == nil {
					return "the length bytes are not read"
				}
				if !linEqual(st, st.linW(s.fl.ts.lenOf(it.more, types.Typ[types.Int])), t.plus(-b)) {
					return "the number of length bytes is not what the tag says"
				}
				want = size
				return ""
			}
			switch {
			case in(0, 0x7f) && strs:
				want, form = linK(0), "self"
			case in(0x80, 0xb7) && strs:
				want = t.plus(-0x80)
			case in(0xb8, 0xbf) && strs:
				why = long(0xb7)
			case in(0xc0, 0xf7) && lists:
				want = t.plus(-0xc0)
			case in(0xf8, 0xff) && lists:
				why = long(0xf7)
				if mode == "list" && why == "" && !notNull() {
					why = "the null value is taken as an empty list"
				}
			default:
				why = "a tag is accepted that is no " + mode + " or whose form is not settled"
			}
			if why != "" {
				bad(o.Pos, why)
				continue
			}
			if form != "self" && it.more != nil && it.size == nil {
				bad(o.Pos, "length bytes are read but not used")
				continue
			}
			if why := r.result(s, st, o, it, mode, want, form); why != "" {
				bad(o.Pos, why)
			}
			continue
		}
		// refused although everything was read
		isNilErr := strings.HasSuffix(s.fl.path(err), "codec.ErrNilValue")
		switch mode {
		case "bytes":
			if isNilErr && !isNull() {
				bad(o.Pos, "something else than the null value is reported as null")
			}
			if !isNilErr && (!st.entails64(linK(0xc0).sub(t)) || !notNull()) {
				bad(o.Pos, "a value is refused, or the null value not reported as null")
			}
		case "list":
			if isNilErr && !isNull() {
				bad(o.Pos, "something else than the null value is reported as null")
			}
			if !isNilErr && !st.entails64(t.plus(-0xbf)) {
				bad(o.Pos, "a list is refused")
			}
		default:
			bad(o.Pos, "an item is refused")
		}
	}
	if n == 0 {
		bad(c.P.posOf(fn), "nothing is ever read")
	}
}

// result: what a successful read hands out.
func (r *rlpCheck) result(s *Sum, st *State, o Outcome, it *rlpItem, mode string, want lin, form string) string {
	switch mode {
	case "list":
		if it.pay != nil || it.skip {
			return "the list's bytes are consumed before it is read"
		}
		fv := deepFields(st, stripBox(o.Rets[0]))
		lr := stripBox(fv["reader"])
		if lr == nil || callName(lr) != "io.LimitReader" || s.fl.path(lr.Args[0]) != "p0.reader" {
			return "the list is not read from the stream: " + pathOr(s, lr)
		}
		if !linEqual(st, st.linW(lr.Args[1]), want) {
			return "the list's end is not where its header says: " + s.fl.path(lr.Args[1])
		}
		return ""
	case "skip":
		if !linEqual(st, it.n, want) {
			return "the bytes skipped are not the item's"
		}
		return ""
	case "bytes":
		if form == "self" {
			if it.pay != nil {
				return "more is read than the one byte"
			}
			v := o.Rets[0]
			if v == it.first {
				return ""
			}
			gs := st.content(v)
			if len(gs) == 1 && gs[0].Kind == 'b' && stripConv(gs[0].T) == stripConv(it.tag) {
				return ""
			}
			return "a single byte is read as " + segsPaths(s.fl, gs)
		}
		if !linEqual(st, it.n, want) {
			return "the bytes read are not as many as the header says"
		}
		if it.pay == nil && linEqual(st, want, linK(0)) && emptyList(st, o.Rets[0]) && !o.Rets[0].isNil() {
			return ""
		}
		if it.pay == nil || o.Rets[0] != it.pay {
			return "the value is not the bytes read: " + s.fl.path(o.Rets[0])
		}
		return ""
	case "raw":
		v := o.Rets[0]
		h := linK(1)
		if it.more != nil {
			h = h.add(st.linW(s.fl.ts.lenOf(it.more, types.Typ[types.Int])), bigOne)
		}
		// the header's bytes lie together: first at 0, length bytes at 1
		hdr := func(t *Term) bool {
			if t.K != TSlice || t.Args[1] != nil && !linEqual(st, st.linW(t.Args[1]), linK(0)) {
				return false
			}
			if t.Args[2] == nil || !linEqual(st, st.linW(t.Args[2]), h) {
				return false
			}
			b := t.Args[0]
			if it.first.K != TSlice || it.first.Args[0] != b || it.first.Args[1] != nil && !linEqual(st, st.linW(it.first.Args[1]), linK(0)) {
				return false
			}
			if it.more != nil && (it.more.K != TSlice || it.more.Args[0] != b || it.more.Args[1] == nil || !linEqual(st, st.linW(it.more.Args[1]), linK(1))) {
				return false
			}
			return true
		}
		if !linEqual(st, it.n, want) {
			return "the bytes read are not as many as the header says"
		}
		if it.pay == nil {
			if form == "self" && (v == it.first || hdr(v)) {
				return ""
			}
			return "the item's bytes are not those read: " + s.fl.path(v)
		}
		if v.K == TAppend && hdr(v.Args[0]) && v.Args[1] == it.pay {
			return ""
		}
		if it.pay.K == TSlice && it.pay.Args[0] == v && it.pay.Args[1] != nil && it.pay.Args[2] == nil && linEqual(st, st.linW(it.pay.Args[1]), h) {
			cps := o.evs("cp")
			if len(cps) != 1 {
				return "the item's bytes are not its header followed by its payload"
			}
			for _, e := range cps {
				dst, src := e.Args[1], e.Args[2]
				if (dst == v || dst.K == TSlice && dst.Args[0] == v && dst.Args[1] == nil) && hdr(src) {
					return ""
				}
			}
		}
		return "the item's bytes are not its header followed by its payload: " + s.fl.path(v)
	}
	return ""
}

// skip: Skip(n) passes over n items.
func (r *rlpCheck) skip() {
	c := r.c
	fn := r.method("rlpReader", "Skip")
	name := codecPkg + ".rlpReader.Skip"
	if fn == nil {
		c.Missing("read", name)
		return
	}
	// the function called once per item
	var one *ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if f := call.Call.StaticCallee(); f != nil && f.Pkg == fn.Pkg && len(f.Blocks) > 0 {
					one = f
				}
			}
		}
	}
	if one == nil {
		c.Ob("read", name, false, c.P.posOf(fn), "cannot tell what is passed over for one item")
		return
	}
	s := c.Sum(fn, SumCfg{Numeric: true, Opaque: func(f *ssa.Function) bool { return f == one }, Track: func(n *Node) string {
		if n.Fn == one {
			return "one"
		}
		return ""
	}})
	why := ""
	for _, o := range s.Outs {
		if o.failed() {
			continue
		}
		cov := false
		for _, k := range sortedKeys(o.St.facts) {
			for _, a := range o.St.facts[k].T.Args {
				for t := range o.St.linW(a).c {
					if !isPhiTerm(t) {
						continue
					}
					first, step, ok := s.fl.induction(t)
					if ok && step == 1 && linEqual(o.St, o.St.linW(first), linK(0)) && o.St.entails64(o.St.linW(param(s, 1)).sub(linAtom(t))) {
						cov = true
					}
					if ok && step == -1 && s.fl.path(first) == "p1" && o.St.entails64(linAtom(t)) {
						cov = true
					}
				}
			}
		}
		if !cov {
			why = "fewer items than asked may be passed over"
		}
	}
	for _, b := range s.Back {
		okk := false
		for _, k := range sortedKeys(b.St.must) {
			if e := b.St.must[k]; e.Tag == "one" && b.St.succeeded(e.Args[0]) && s.fl.path(e.Args[1]) == "p0" {
				okk = true
			}
		}
		if !okk {
			why = "an item is not passed over, or a failure to do so ignored"
		}
	}
	if why != "" {
		c.Ob("read", name, false, c.P.posOf(fn), why)
		return
	}
	r.readOb(one, name, "skip")
}

// drain: closing a list's reader consumes what is left of the list.
func (r *rlpCheck) drain() {
	c := r.c
	fn := r.method("rlpReader", "Close")
	name := codecPkg + ".rlpReader.Close"
	if fn == nil {
		c.Missing("read", name)
		return
	}
	s := c.Sum(fn, SumCfg{})
	why := ""
	for _, o := range s.Outs {
		okk := false
		for _, call := range s.Call {
			if call.N.Callee == "io.Copy" && strings.HasSuffix(s.fl.path(call.Args[0]), ".Discard") && s.fl.path(call.Args[1]) == "p0.reader" {
				okk = true
			}
		}
		if !okk {
			why = "what is left of a list is not consumed"
		}
		if !o.failed() && !strings.Contains(s.fl.path(o.Rets[0]), "io.Copy(") {
			done := false
			for _, k := range sortedKeys(o.St.facts) {
				if f := o.St.facts[k]; f.Val && strings.Contains(s.fl.path(f.T), "io.Copy(") {
					done = true
				}
			}
			if !done {
				why = "a failure to consume the rest of a list is not reported"
			}
		}
	}
	c.Ob("read", name, why == "", c.P.posOf(fn), why)
}

// open: a list opened for writing collects in a buffer of its own and knows the writer it belongs to.
func (r *rlpCheck) open() {
	c := r.c
	for _, meth := range []string{"WriteList", "WriteMap"} {
		fn := r.method("rlpWriter", meth)
		name := codecPkg + ".rlpWriter." + meth
		if fn == nil {
			c.Missing("open", name)
			continue
		}
		s := c.Sum(fn, SumCfg{})
		why := ""
		n := 0
		for _, o := range s.Outs {
			if o.failed() {
				continue
			}
			n++
			fv := readFields(o.St, stripBox(o.Rets[0]))
			pw, pb, w := fv["parent.writer"], fv["parent.buffer"], stripBox(fv["writer"])
			if pw == nil || s.fl.path(pw) != "p0" {
				why = "the list is not linked to the writer it belongs to: " + pathOr(s, pw)
			}
			if pb == nil || w != pb {
				why = "what is put in the list does not go to its buffer: " + pathOr(s, w)
			} else if !(callName(pb) == "bytes.NewBuffer" && emptyList(o.St, pb.Args[0]) || pb.K == TAlloc) {
				why = "the list's buffer is not a new one: " + pathOr(s, pb)
			}
		}
		if n == 0 && why == "" {
			why = "no list is ever opened"
		}
		c.Ob("open", name, why == "", c.P.posOf(fn), why)
	}
}

// framers: the functions of the type that write or read one byte string, all checked like the exported ones.
func (r *rlpCheck) framers() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range r.c.P.funcs {
		if fn.Pkg == nil || short(fn.Pkg.Pkg.Path()) != codecPkg || fn.Signature.Recv() == nil || len(fn.Blocks) == 0 {
			continue
		}
		ok := true
		bad := func(pos, m string) { ok = false }
		rs := fn.Signature.Results()
		switch {
		case isMethodOn(fn, "rlpWriter") && len(fn.Params) == 2 && isByteSlice(fn.Params[1].Type()) && rs.Len() == 1 && !r.full[fn]:
			r.writeFn(fn, "WriteBytes", bad)
		case isMethodOn(fn, "rlpReader") && len(fn.Params) == 1 && rs.Len() == 2 && isByteSlice(rs.At(0).Type()):
			r.readFn(fn, "bytes", bad)
		default:
			continue
		}
		if ok {
			out[fn] = true
		}
	}
	return out
}

var rlpKinds = map[int64]string{1: "bool", 2: "int", 3: "int", 4: "int", 5: "int", 6: "int", 7: "uint", 8: "uint", 9: "uint", 10: "uint", 11: "uint", 24: "string"}

// kindOf: the term for the kind of the value, where the state says something about it.
func kindOf(st *State) *Term {
	var out *Term
	for _, k := range sortedKeys(st.facts) {
		for _, t := range callsIn(st.facts[k].T) {
			if callName(t) == "(reflect.Value).Kind" && st.fl.path(t.Args[0]) == "p1" {
				out = t
			}
		}
	}
	return out
}

// values: the byte string a value of each kind is written as, and how it is read back.
func (r *rlpCheck) values() {
	c := r.c
	fr := r.framers()
	cfg := SumCfg{Numeric: true, Max: 4000,
		Opaque: func(f *ssa.Function) bool {
			return fr[f] || f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "common/intconv")
		},
		NoKill: func(n string) bool {
			for f := range fr {
				if f.String() == n {
					return true
				}
			}
			return false
		},
		Track: func(n *Node) string {
			if n.Fn != nil && fr[n.Fn] {
				return "frame"
			}
			switch n.Callee {
			case "(reflect.Value).SetBool", "(reflect.Value).SetUint", "(reflect.Value).SetInt", "(reflect.Value).SetString":
				return "set"
			}
			return ""
		}}
	for _, wr := range []bool{true, false} {
		typ, meth := "rlpReader", "ReadValue"
		if wr {
			typ, meth = "rlpWriter", "WriteValue"
		}
		name := codecPkg + "." + typ + "." + meth
		fn := r.method(typ, meth)
		if fn == nil {
			c.Missing("value", name)
			continue
		}
		s := c.Sum(fn, cfg)
		good := true
		bad := func(pos, m string) { good = false; c.Ob("value", name, false, pos, m) }
		seen := map[int64]bool{}
		for _, o := range s.Outs {
			kt := kindOf(o.St)
			for _, k := range sortedKinds() {
				if kt != nil && o.St.refutes(o.St.linW(kt), k) {
					continue
				}
				what := rlpKinds[k]
				frames := o.evs("frame")
				if o.failed() {
					fails := false
					for _, e := range frames {
						if n, known := nilState(o.St, errOf(s.fl.ts, e.Args[0])); !known || !n {
							fails = true
						}
					}
					if !fails {
						bad(o.Pos, "a value of kind "+what+" is refused")
					}
					continue
				}
				seen[k] = true
				st := o.assumedErr()
				if len(frames) != 1 || s.fl.path(frames[0].Args[1]) != "p0" {
					bad(o.Pos, "a value of kind "+what+" is not exactly one byte string")
					continue
				}
				if !st.succeeded(frames[0].Args[0]) {
					bad(o.Pos, "a failure is reported as success")
					continue
				}
				why := ""
				if wr {
					why = r.valueWritten(s, st, what, frames[0].Args[2])
				} else {
					why = r.valueRead(s, st, o, what, extractOf(s.fl.ts, frames[0].Args[0], 0))
				}
				if why != "" {
					bad(o.Pos, "a value of kind "+what+" is "+why)
				}
			}
		}
		for _, k := range sortedKinds() {
			if !seen[k] {
				bad(c.P.posOf(fn), fmt.Sprintf("values of kind %s (reflect.Kind %d) are not handled", rlpKinds[k], k))
			}
		}
		if good {
			c.Ob("value", name, true, c.P.posOf(fn), "")
		}
	}
}

func sortedKinds() []int64 {
	var ks []int64
	for k := range rlpKinds {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func (r *rlpCheck) valueWritten(s *Sum, st *State, what string, a *Term) string {
	get := func(m string) string { return "(reflect.Value)." + m + "(p1)" }
	switch what {
	case "bool":
		gs := st.content(a)
		b, known := factPath(st, get("Bool"))
		if len(gs) == 1 && gs[0].Kind == 'c' && known && (gs[0].C == "\x01" && b || gs[0].C == "\x00" && !b) {
			return ""
		}
		return "written as " + segsPaths(s.fl, gs)
	case "uint":
		if a.isCall("intconv.Uint64ToBytes") && s.fl.path(a.Args[0]) == get("Uint") {
			return ""
		}
	case "int":
		if a.isCall("intconv.Int64ToBytes") && s.fl.path(a.Args[0]) == get("Int") {
			return ""
		}
	case "string":
		gs := st.content(a)
		if !a.isNil() && s.fl.ts.nonNil(a) && len(gs) == 1 && gs[0].Kind == 'w' && s.fl.path(gs[0].T) == get("String") {
			return ""
		}
	}
	return "written as " + s.fl.path(a)
}

func (t *Term) isCall(suffix string) bool { return strings.HasSuffix(callName(t), suffix) }

// factPath: what the state knows about the boolean the path describes.
func factPath(st *State, path string) (val, known bool) {
	for _, k := range sortedKeys(st.facts) {
		if f := st.facts[k]; st.fl.path(f.T) == path {
			return f.Val, true
		}
	}
	return false, false
}

func (r *rlpCheck) valueRead(s *Sum, st *State, o Outcome, what string, bs *Term) string {
	sets := o.evs("set")
	if len(sets) != 1 || s.fl.path(sets[0].Args[1]) != "p1" {
		return "not set exactly once"
	}
	v := sets[0].Args[2]
	m := strings.TrimPrefix(sets[0].N.Callee, "(reflect.Value).")
	isZero := func(t *Term) bool { // 0 == BytesToUint64(bs)
		if t.K != TBin || t.Op != "==" {
			return false
		}
		for i := 0; i < 2; i++ {
			if n, k := t.Args[i].intVal(); k && n == 0 && t.Args[1-i].isCall("intconv.BytesToUint64") && t.Args[1-i].Args[0] == bs {
				return true
			}
		}
		return false
	}
	switch what {
	case "bool":
		if m == "SetBool" {
			if b, k := v.boolVal(); k {
				for _, key := range sortedKeys(st.facts) {
					if f := st.facts[key]; isZero(f.T) && f.Val != b {
						return ""
					}
				}
			}
			if v.K == TNot && isZero(v.Args[0]) {
				return ""
			}
		}
	case "uint":
		if m == "SetUint" && v.isCall("intconv.BytesToUint64") && v.Args[0] == bs {
			return ""
		}
	case "int":
		if m == "SetInt" && v.isCall("intconv.BytesToInt64") && v.Args[0] == bs {
			return ""
		}
	case "string":
		if m == "SetString" {
			gs := st.content(v)
			if len(gs) == 1 && gs[0].Kind == 'w' && gs[0].T == bs {
				return ""
			}
		}
	}
	return "read by " + m + " as " + s.fl.path(v)
}
