package main

import (
	"encoding/hex"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Byte-content abstraction: what a byte slice (or string) holds, as a list of
// segments, independent of how it was assembled (append, make+copy, +,
// conversions, single-byte stores).

type Seg struct {
	Kind byte   // 'c' constant, 'w' all bytes of T, 'b' one byte with value T, '?' unknown
	C    string // constant bytes
	T    *Term
}

func (g Seg) String() string {
	switch g.Kind {
	case 'c':
		return "0x" + hex.EncodeToString([]byte(g.C))
	case 'w':
		return "bytes(" + g.T.String() + ")"
	case 'b':
		return "byte(" + g.T.String() + ")"
	}
	return "?"
}

func segsString(ss []Seg) string {
	var o []string
	for _, s := range ss {
		o = append(o, s.String())
	}
	return "[" + strings.Join(o, " ") + "]"
}

func joinSegs(a, b []Seg) []Seg {
	out := append([]Seg(nil), a...)
	for _, s := range b {
		if s.Kind == 'c' && len(out) > 0 && out[len(out)-1].Kind == 'c' {
			out[len(out)-1].C += s.C
			continue
		}
		if s.Kind == 'c' && s.C == "" {
			continue
		}
		out = append(out, s)
	}
	return out
}

func (s *State) content(t *Term) []Seg { return s.contentD(t, 0) }

func (s *State) contentD(t *Term, d int) []Seg {
	unk := []Seg{{Kind: '?'}}
	if t == nil || d > 12 {
		return unk
	}
	switch t.K {
	case TConst:
		if t.C == nil {
			return nil
		}
		if sv, ok := t.strVal(); ok {
			if sv == "" {
				return nil
			}
			return []Seg{{Kind: 'c', C: sv}}
		}
		return unk
	case TConv:
		at := t.Args[0].T
		if at != nil && (isString(at) || isByteSlice(at)) {
			return s.contentD(t.Args[0], d+1)
		}
		if t.Args[0].isConst() {
			return s.contentD(t.Args[0], d+1)
		}
		return []Seg{{Kind: 'w', T: t}}
	case TAppend:
		return joinSegs(s.contentD(t.Args[0], d+1), s.contentD(t.Args[1], d+1))
	case TBin:
		if t.Op == "+" {
			return joinSegs(s.contentD(t.Args[0], d+1), s.contentD(t.Args[1], d+1))
		}
	case TZero:
		if at, ok := t.T.Underlying().(*types.Array); ok && at.Len() <= 4096 {
			if at.Len() == 0 {
				return nil
			}
			return []Seg{{Kind: 'c', C: string(make([]byte, at.Len()))}}
		}
	case TMake:
		return s.bufContent(t, d)
	case TSlice:
		base := t.Args[0]
		if t.Args[1] == nil && t.Args[2] == nil {
			return s.arrayContent(base, d)
		}
		if hi := t.Args[2]; hi != nil && t.Args[1] == nil {
			if v, ok := hi.intVal(); ok && v == 0 {
				return nil
			} else if ok && base.K == TAlloc {
				if et := elemOf(base.T); et != nil {
					if at, ok := et.Underlying().(*types.Array); ok && at.Len() == v {
						return s.arrayContent(base, d)
					}
				}
			}
		}
		return []Seg{{Kind: 'w', T: t}}
	case TAlloc:
		return s.arrayContent(t, d)
	case TCall:
		if e := s.must["bufres|"+t.key]; e != nil {
			var out []Seg
			for _, a := range e.Args {
				if isByteSlice(a.T) || isString(a.T) {
					out = joinSegs(out, s.contentD(a, d+1))
				} else {
					out = joinSegs(out, []Seg{byteSeg(a)})
				}
			}
			return out
		}
	}
	return []Seg{{Kind: 'w', T: t}}
}

// bufferTrace follows what is written to buffers in straight-line code, so that
// the content of a buffer is known where it is taken out.
func bufferTrace(st *State, n *Node, args []*Term, res *Term) {
	if n.Op != OpInstr || !n.isCall() || len(args) == 0 {
		return
	}
	key := func(t *Term) string { return "buf|" + t.key }
	switch n.Callee {
	case "bytes.NewBufferString", "bytes.NewBuffer":
		st.addMust(key(res), "buf", n, args[0])
		return
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
		if e := st.must[key(args[0])]; e != nil && res != nil && st.may["buflost|"+args[0].key] == nil {
			st.addMust("bufres|"+res.key, "bufres", n, e.Args...)
		}
		return
	}
	if i, ok := writeArg(n); ok && i < len(args) && args[i] != nil && len(n.Blk.loops) == 0 {
		var old []*Term
		if e := st.must[key(args[0])]; e != nil {
			old = e.Args
		} else if args[0].K != TAlloc {
			return
		}
		st.addMust(key(args[0]), "buf", n, append(append([]*Term{}, old...), args[i])...)
	} else if isWriter(n.Callee) || strings.HasPrefix(n.Callee, "(*bytes.Buffer).") && n.Callee != "(*bytes.Buffer).Len" && n.Callee != "(*bytes.Buffer).Grow" {
		st.addMay("buflost|"+args[0].key, "buflost", n)
	}
}

// arrayContent: content of an array through its address.
func (s *State) arrayContent(a *Term, d int) []Seg {
	et := elemOf(a.T)
	if et == nil {
		return []Seg{{Kind: 'w', T: a}}
	}
	at, ok := et.Underlying().(*types.Array)
	if !ok {
		return []Seg{{Kind: 'w', T: a}}
	}
	if at.Len() == 0 {
		return nil
	}
	if m, ok := s.mem[a.key]; ok {
		if m.val.K == TZero {
			if at.Len() <= 4096 && !s.hasCopies(a) {
				return []Seg{{Kind: 'c', C: string(make([]byte, at.Len()))}}
			}
		} else {
			return []Seg{{Kind: 'w', T: m.val}}
		}
	}
	if at.Len() > 256 {
		return []Seg{{Kind: 'w', T: a}}
	}
	if s.hasCopies(a) {
		return s.bufContentLen(a, s.lin(s.fl.ts.intC(at.Len())), d)
	}
	var out []Seg
	known := false
	for i := int64(0); i < at.Len(); i++ {
		v := s.lookup(s.fl.ts.mk(Term{K: TIndexAddr, Args: []*Term{a, s.fl.ts.intC(i)}, T: types.NewPointer(at.Elem())}))
		if v == nil {
			out = append(out, Seg{Kind: '?'})
			continue
		}
		known = true
		out = joinSegs(out, []Seg{byteSeg(v)})
	}
	if !known {
		if a.K != TAlloc {
			return []Seg{{Kind: 'w', T: a}} // not made here: whatever it holds
		}
		return s.bufContentLen(a, s.lin(s.fl.ts.intC(at.Len())), d)
	}
	return out
}

func byteSeg(v *Term) Seg {
	if iv, ok := v.intVal(); ok && iv >= 0 && iv < 256 {
		return Seg{Kind: 'c', C: string([]byte{byte(iv)})}
	}
	return Seg{Kind: 'b', T: v}
}

func (s *State) hasCopies(base *Term) bool {
	for _, e := range s.must {
		if e.Tag == "copy" && len(e.Args) == 3 && e.Args[0] == base {
			return true
		}
	}
	return false
}

func (s *State) bufContent(t *Term, d int) []Seg { return s.bufContentLen(t, s.lin(t.Args[0]), d) }

// bufContentLen reassembles a buffer from the copies and stores made into it.
func (s *State) bufContentLen(base *Term, total lin, d int) []Seg {
	type piece struct {
		off, ln lin
		segs    []Seg
	}
	var ps []piece
	for _, e := range s.must {
		if e.Tag != "copy" || len(e.Args) != 3 || e.Args[0] != base || e.Args[2] == nil {
			continue
		}
		off := newLin()
		if e.Args[1] != nil {
			off = s.lin(e.Args[1])
		}
		ps = append(ps, piece{off, s.lin(s.fl.ts.lenOf(e.Args[2], nil)), s.contentD(e.Args[2], d+1)})
	}
	for _, m := range s.mem {
		if m.addr.K == TIndexAddr && m.addr.Args[0] == base {
			ps = append(ps, piece{s.lin(m.addr.Args[1]), linK(1), []Seg{byteSeg(m.val)}})
		}
	}
	if total.isConst() && total.k.IsInt64() && total.k.Int64() <= 256 && len(ps) > 0 {
		if o := s.overlay(base, int(total.k.Int64()), d); o != nil {
			return o
		}
	}
	// fixed-slot buffer: all offsets constant
	if total.isConst() && len(ps) > 0 {
		fixed := true
		for _, p := range ps {
			if !p.off.isConst() {
				fixed = false
			}
		}
		if fixed {
			sort.Slice(ps, func(i, j int) bool { return ps[i].off.k.Cmp(ps[j].off.k) < 0 })
			if ps[0].off.k.Sign() == 0 {
				var out []Seg
				ok := true
				for i, p := range ps {
					if i > 0 && p.off.k.Cmp(ps[i-1].off.k) == 0 {
						ok = false
					}
					if p.ln.isConst() {
						end := total.k
						if i+1 < len(ps) {
							end = ps[i+1].off.k
						}
						if new(big.Int).Add(p.off.k, p.ln.k).Cmp(end) != 0 {
							ok = false
						}
					}
					out = joinSegs(out, p.segs)
				}
				if ok {
					return out
				}
			}
		}
	}
	var out []Seg
	cur := newLin()
	used := 0
	zero := func(l lin) bool { return l.isConst() && l.k.Sign() == 0 }
	for steps := 0; steps < 300; steps++ {
		if zero(cur.sub(total)) {
			if used == len(ps) {
				return out
			}
			break
		}
		var hit *piece
		n := 0
		for i := range ps {
			if zero(ps[i].off.sub(cur)) {
				hit = &ps[i]
				n++
			}
		}
		if n != 1 {
			break
		}
		used++
		out = joinSegs(out, hit.segs)
		cur = cur.add(hit.ln, bigOne)
	}
	if zero(total) {
		return nil
	}
	if len(ps) == 0 && s.may["clob|"+base.key] != nil {
		return []Seg{{Kind: 'w', T: base}} // filled by a callee
	}
	if len(ps) == 0 && total.isConst() && total.k.IsInt64() && total.k.Int64() <= 4096 {
		return []Seg{{Kind: 'c', C: string(make([]byte, total.k.Int64()))}}
	}
	return append(out, Seg{Kind: '?'})
}

// overlay: a fresh buffer of known size whose copies have known places and do
// not overlap each other, with the single bytes stored over them since.
func (s *State) overlay(base *Term, total, d int) []Seg {
	if base.K != TMake && base.K != TAlloc || s.may["clob|"+base.key] != nil {
		return nil
	}
	type cell struct {
		src *Term // byte i of src
		i   int
		v   *Term // or this value
	}
	cells := make([]cell, total)
	place := func(off *Term, n int64) (int, int, bool) {
		o := int64(0)
		if off != nil {
			v, ok := s.pinned(s.lin(off))
			if !ok {
				return 0, 0, false
			}
			o = v
		}
		if o < 0 || o > int64(total) || n < 0 {
			return 0, 0, false
		}
		if o+n > int64(total) {
			n = int64(total) - o
		}
		return int(o), int(n), true
	}
	for _, e := range s.must {
		if e.Tag != "copy" || len(e.Args) != 3 || e.Args[0] != base || e.Args[2] == nil {
			continue
		}
		n, ok := s.pinned(s.lin(s.fl.ts.lenOf(e.Args[2], nil)))
		if !ok {
			return nil
		}
		o, k, ok := place(e.Args[1], n)
		if !ok {
			return nil
		}
		for i := 0; i < k; i++ {
			if cells[o+i].src != nil {
				return nil
			}
			cells[o+i] = cell{src: e.Args[2], i: i}
		}
	}
	for _, m := range s.mem {
		if m.addr.K == TIndexAddr && m.addr.Args[0] == base {
			o, k, ok := place(m.addr.Args[1], 1)
			if !ok || k != 1 {
				return nil
			}
			cells[o] = cell{v: m.val}
		}
	}
	var out []Seg
	for i := 0; i < total; {
		c := cells[i]
		if c.src == nil {
			if c.v == nil {
				out = joinSegs(out, []Seg{{Kind: 'c', C: "\x00"}})
			} else {
				out = joinSegs(out, []Seg{byteSeg(c.v)})
			}
			i++
			continue
		}
		j := i
		for j < total && cells[j].src == c.src && cells[j].i == c.i+j-i {
			j++
		}
		n, _ := s.pinned(s.lin(s.fl.ts.lenOf(c.src, nil)))
		if c.i == 0 && j-i == int(n) {
			out = joinSegs(out, s.contentD(c.src, d+1))
		} else {
			part := s.fl.slice([]*Term{c.src, s.fl.ts.intC(int64(c.i)), s.fl.ts.intC(int64(c.i + j - i))}, c.src.T)
			out = joinSegs(out, []Seg{{Kind: 'w', T: part}})
		}
		i = j
	}
	return out
}

// fullArray: the slice reaches to the end of the array it is a slice of.
func fullArray(t *Term) bool {
	et := elemOf(t.Args[0].T)
	if et == nil {
		return false
	}
	at, ok := et.Underlying().(*types.Array)
	if !ok {
		return false
	}
	hi, ok := t.Args[2].intVal()
	return ok && hi == at.Len()
}

// noteCopy records copy(dst, src) for the content abstraction.
func (f *Flow) noteCopy(s *State, n *Node, dst, src *Term) {
	base, off := dst, (*Term)(nil)
	for base.K == TSlice {
		if base.Args[1] != nil {
			if off == nil {
				off = base.Args[1]
			} else {
				off = f.ts.bin(token.ADD, off, base.Args[1], types.Typ[types.Int])
			}
		}
		base = base.Args[0]
	}
	if dst.K == TSlice && dst.Args[2] != nil {
		// a bounded destination takes at most that many bytes
		dl, sl := s.lin(f.ts.lenOf(dst, nil)), s.lin(f.ts.lenOf(src, nil))
		if dl.isConst() && dl.k.IsInt64() && !fullArray(dst) && !s.entails(sl.sub(dl)) {
			src = f.slice([]*Term{src, nil, f.ts.intC(dl.k.Int64())}, src.T)
		}
	}
	k := "copy|" + base.key + "|"
	if off != nil {
		k += off.key
	}
	// an overlapping earlier copy of unknown relation is left to the tiling test
	s.must[k] = &Event{Key: k, Tag: "copy", Args: []*Term{base, off, src}, N: n}
}

// ---- canonical descriptions, independent of node numbers ----

// path describes a value by where it comes from: parameters by index, fields by
// name, calls by callee and argument descriptions.
func (f *Flow) path(t *Term) string { return f.pathD(t, 0) }

func (f *Flow) pathD(t *Term, d int) string {
	if t == nil {
		return "_"
	}
	if d > 14 {
		return "…"
	}
	args := func() string {
		var o []string
		for _, a := range t.Args {
			o = append(o, f.pathD(a, d+1))
		}
		return strings.Join(o, ",")
	}
	switch t.K {
	case TConst:
		if t.C == nil {
			return "nil"
		}
		return t.C.ExactString()
	case TSym:
		if t.N.Op == OpParam {
			for i, p := range f.g.Params {
				if p == t.N {
					return fmt.Sprintf("p%d", i)
				}
			}
		}
		if t.N.Op == OpFree {
			return "free:" + t.N.V.Name()
		}
		if t.N.Op == OpPhi {
			return "phi"
		}
		return "sym"
	case TCall:
		if t.Op != "" {
			return t.Op + "(" + args() + ")"
		}
		return short(t.N.Callee) + "(" + args() + ")"
	case TExtract:
		return args() + fmt.Sprintf("#%d", t.I)
	case TBin:
		return "(" + f.pathD(t.Args[0], d+1) + t.Op + f.pathD(t.Args[1], d+1) + ")"
	case TNot:
		return "!" + args()
	case TLen:
		return "len(" + args() + ")"
	case TField:
		return args() + "." + t.fieldName()
	case TFieldAddr:
		return "&" + strings.TrimPrefix(f.pathD(t.Args[0], d+1), "&") + "." + t.fieldName()
	case TIndexAddr:
		return "&" + strings.TrimPrefix(f.pathD(t.Args[0], d+1), "&") + "[" + f.pathD(t.Args[1], d+1) + "]"
	case TIndex:
		return f.pathD(t.Args[0], d+1) + "[" + f.pathD(t.Args[1], d+1) + "]"
	case TGlobal, TGVar:
		return short(t.Op)
	case TFunc:
		return "func:" + short(t.Op)
	case TAlloc:
		return "new"
	case TLoad:
		p := f.pathD(t.Args[0], d+1)
		if strings.HasPrefix(p, "&") {
			return p[1:]
		}
		return "*" + p
	case TMem:
		return "mem[" + args() + "]"
	case TConv:
		return short(types.TypeString(t.T, nil)) + "(" + args() + ")"
	case TIface, TDeref:
		return f.pathD(t.Args[0], d+1)
	case TSlice:
		return fmt.Sprintf("%s[%s:%s]", f.pathD(t.Args[0], d+1), f.pathD(t.Args[1], d+1), f.pathD(t.Args[2], d+1))
	case TPure:
		return short(t.Op) + "(" + args() + ")"
	case TMake:
		return "make(" + args() + ")"
	case TAppend:
		return "append(" + args() + ")"
	case TStruct:
		return "{" + args() + "}"
	}
	return fmt.Sprintf("t%d%s(%s)", t.K, t.Op, args())
}

// contentPath: the content of t with canonical segment descriptions.
func (s *State) contentPath(t *Term) string {
	var o []string
	for _, g := range s.content(t) {
		switch g.Kind {
		case 'c':
			o = append(o, "0x"+hex.EncodeToString([]byte(g.C)))
		case 'w':
			o = append(o, s.fl.path(g.T))
		case 'b':
			o = append(o, "byte("+s.fl.path(g.T)+")")
		default:
			o = append(o, "?")
		}
	}
	return strings.Join(o, " ")
}

var _ = ssa.NaiveForm

// fieldVals: the known values of the (nested) fields of the struct at addr, keyed by
// dotted field names.
func (s *State) fieldVals(addr *Term) map[string]*Term {
	out := map[string]*Term{}
	var rec func(a *Term, pre string, d int)
	rec = func(a *Term, pre string, d int) {
		et := elemOf(a.T)
		if et == nil || d > 3 {
			return
		}
		st, ok := et.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			fa := s.fl.ts.mk(Term{K: TFieldAddr, I: i, Args: []*Term{a}, T: types.NewPointer(ft)})
			nm := pre + st.Field(i).Name()
			if v := s.lookup(fa); v != nil {
				out[nm] = v
			}
			if _, ok := ft.Underlying().(*types.Struct); ok {
				rec(fa, nm+".", d+1)
			}
		}
	}
	rec(addr, "", 0)
	return out
}
