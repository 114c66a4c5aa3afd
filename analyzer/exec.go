package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *Flow) fresh(s *State, n *Node) {
	if len(n.Blk.loops) > 0 {
		s.killSym(n.ID)
	}
}

func (f *Flow) exec(s *State, n *Node) {
	ts := f.ts
	args := make([]*Term, len(n.Args))
	for i, a := range n.Args {
		args[i] = s.val(a)
	}
	var res *Term
	hook := func() {
		if f.cfg.Hook != nil {
			f.cfg.Hook(s, n, args, res, f.final)
		}
	}
	if f.cfg.Pre != nil && n.Callee != "devirt" {
		f.cfg.Pre(s, n, args, f.final)
	}
	if n.Op != OpInstr {
		hook()
		return
	}
	if n.Callee == "devirt" {
		res = ts.mk(Term{K: TDeref, N: n, Args: args, T: n.Typ})
		s.env[n] = res
		return
	}
	switch in := n.Instr.(type) {
	case *ssa.Alloc:
		f.fresh(s, n)
		res = f.allocTerm(n)
		if et := elemOf(n.Typ); et != nil {
			f.noteStore(res)
			s.mem[res.key] = memCell{res, ts.zero(et)}
		}
	case *ssa.FieldAddr:
		res = ts.mk(Term{K: TFieldAddr, I: in.Field, Args: []*Term{args[0]}, T: n.Typ})
	case *ssa.Field:
		res = ts.field(args[0], in.Field, n.Typ)
	case *ssa.IndexAddr:
		res = f.indexAddr(args[0], args[1], n.Typ)
	case *ssa.Index:
		res = ts.mk(Term{K: TIndex, Args: []*Term{args[0], args[1]}, T: n.Typ})
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			f.freshLoad(s, n, args[0])
			res = s.load(args[0], n, n.Typ)
		case token.NOT:
			res = ts.not(args[0])
		case token.SUB:
			if args[0].isConst() {
				res = ts.mk(Term{K: TConst, C: constant.UnaryOp(token.SUB, args[0].C, 0), T: n.Typ})
			} else {
				res = ts.bin(token.SUB, ts.intC(0), args[0], n.Typ)
			}
		case token.ARROW:
			f.fresh(s, n)
			res = ts.mk(Term{K: TSym, N: n, T: n.Typ})
		default:
			res = ts.mk(Term{K: TPure, Op: "un" + in.Op.String(), Args: args, T: n.Typ})
		}
	case *ssa.BinOp:
		res = ts.bin(in.Op, args[0], args[1], n.Typ)
	case *ssa.ChangeType:
		res = args[0]
		if _, ok := n.Typ.Underlying().(*types.Basic); !ok && res.K == TConst && res.C == nil {
			res = ts.zero(n.Typ)
		}
	case *ssa.ChangeInterface:
		res = args[0]
	case *ssa.Convert:
		res = ts.conv(args[0], in.X.Type(), n.Typ)
	case *ssa.MakeInterface:
		res = ts.mk(Term{K: TIface, T: in.X.Type(), Args: args})
	case *ssa.MakeClosure:
		f.fresh(s, n)
		res = ts.mk(Term{K: TClosure, N: n, Args: args, T: n.Typ})
	case *ssa.MakeSlice:
		f.fresh(s, n)
		res = ts.mk(Term{K: TMake, N: n, Args: []*Term{args[0]}, T: n.Typ})
	case *ssa.MakeMap, *ssa.MakeChan:
		f.fresh(s, n)
		res = ts.mk(Term{K: TAlloc, N: n, T: n.Typ})
	case *ssa.Slice:
		res = f.slice(args, n.Typ)
	case *ssa.TypeAssert:
		res = f.typeAssert(s, n, in, args[0])
	case *ssa.Extract:
		t := args[0]
		if t.K == TStruct && in.Index < len(t.Args) {
			res = t.Args[in.Index]
		} else {
			res = ts.mk(Term{K: TExtract, I: in.Index, Args: []*Term{t}, T: n.Typ})
		}
	case *ssa.Lookup:
		f.fresh(s, n)
		res = ts.mk(Term{K: TCall, N: n, Op: "lookup", Args: args, T: n.Typ})
	case *ssa.Range:
		f.fresh(s, n)
		res = ts.mk(Term{K: TCall, N: n, Op: "range", Args: args, T: n.Typ})
	case *ssa.Next:
		f.fresh(s, n)
		res = ts.mk(Term{K: TCall, N: n, Op: "next", Args: args, T: n.Typ})
	case *ssa.Select:
		f.fresh(s, n)
		res = ts.mk(Term{K: TCall, N: n, Op: "select", Args: args, T: n.Typ})
	case *ssa.Store:
		s.store(args[0], args[1])
		f.storeArray(s, n, args[0])
	case *ssa.MapUpdate, *ssa.Send, *ssa.Return, *ssa.Panic, *ssa.Go:
		if _, ok := in.(*ssa.Go); ok {
			for _, a := range args {
				s.killReach(a, 0)
			}
		}
	case *ssa.Defer:
		if !n.Deferred {
			res = f.call(s, n, args)
		} else if n.CondReg {
			if s.defs == nil {
				s.defs = map[int]int{}
			}
			s.defs[n.ID] = 1
		}
	case *ssa.Call:
		res = f.call(s, n, args)
	default:
		f.fresh(s, n)
		if n.Typ != nil {
			res = ts.mk(Term{K: TSym, N: n, T: n.Typ})
		}
	}
	if res != nil {
		if res.size > 300 {
			f.fresh(s, n)
			res = f.sym(n)
		}
		s.env[n] = res
	}
	hook()
}

func (f *Flow) freshLoad(s *State, n *Node, addr *Term) {
	if len(n.Blk.loops) > 0 {
		if _, ok := s.mem[addr.key]; !ok {
			s.killSym(n.ID)
		} else if m := s.mem[addr.key]; !m.val.hasSym(n.ID) {
			s.killSym(n.ID)
		}
	}
}

// storeArray: a whole array stored over another: earlier copies into it are gone,
// and what had been put into a local array moved here arrives with it.
func (f *Flow) storeArray(s *State, n *Node, dst *Term) {
	if dst.T == nil {
		return
	}
	et := elemOf(dst.T)
	if et == nil {
		return
	}
	at, ok := et.Underlying().(*types.Array)
	if !ok {
		return
	}
	for k, e := range s.must {
		if e.Tag == "copy" && len(e.Args) == 3 && e.Args[0] == dst {
			delete(s.must, k)
		}
	}
	if len(n.Args) != 2 || n.Args[1].Blk != n.Blk || len(n.Args[1].Args) != 1 {
		return
	}
	ld := n.Args[1]
	if u, ok := ld.Instr.(*ssa.UnOp); !ok || u.Op != token.MUL {
		return
	}
	src := s.val(ld.Args[0])
	if src == nil || src.K != TAlloc || s.may["clob|"+src.key] != nil {
		return
	}
	if m, ok := s.mem[src.key]; ok && m.val.K != TZero && m.val != s.val(ld) || !s.hasCopies(src) {
		return
	}
	between := false
	for _, x := range n.Blk.Nodes {
		if x == ld {
			between = true
		} else if x == n {
			break
		} else if between {
			return
		}
	}
	s.addMust("zeroed|"+dst.key, "zeroed", n, dst)
	delete(s.mem, dst.key)
	for _, k := range sortedKeys(s.must) {
		e := s.must[k]
		if e.Tag != "copy" || len(e.Args) != 3 || e.Args[0] != src {
			continue
		}
		k2 := "copy|" + dst.key + "|"
		if e.Args[1] != nil {
			k2 += e.Args[1].key
		}
		s.must[k2] = &Event{Key: k2, Tag: "copy", Args: []*Term{dst, e.Args[1], e.Args[2]}, N: n}
	}
	for i := int64(0); i < at.Len() && i < 4; i++ {
		for _, e := range s.must {
			if e.Tag == "copy" && len(e.Args) == 3 && e.Args[0] == src && (e.Args[1] == nil || !s.entails(linK(i+1).sub(s.lin(e.Args[1])))) {
				i = at.Len()
			}
		}
		if i < at.Len() { // before everything copied: still zero unless stored
			a := f.indexAddr(dst, f.ts.intC(i), types.NewPointer(at.Elem()))
			s.mem[a.key] = memCell{a, f.ts.zero(at.Elem())}
		}
	}
	for _, m := range s.mem {
		if m.addr.K == TIndexAddr && m.addr.Args[0] == src {
			a := f.indexAddr(dst, m.addr.Args[1], types.NewPointer(at.Elem()))
			s.mem[a.key] = memCell{a, m.val}
		}
	}
}

func (f *Flow) indexAddr(base, idx *Term, t types.Type) *Term {
	ts := f.ts
	if base.K == TSlice {
		lo := base.Args[1]
		if lo == nil {
			return f.indexAddr(base.Args[0], idx, t)
		}
		return f.indexAddr(base.Args[0], ts.bin(token.ADD, idx, lo, types.Typ[types.Int]), t)
	}
	return ts.mk(Term{K: TIndexAddr, Args: []*Term{base, idx}, T: t})
}

// slice normalises nested slicing of the same base.
func (f *Flow) slice(args []*Term, t types.Type) *Term {
	ts := f.ts
	x, lo, hi := args[0], args[1], args[2]
	if lo != nil {
		if v, ok := lo.intVal(); ok && v == 0 {
			lo = nil
		}
	}
	if x.K == TSlice {
		blo, bhi := x.Args[1], x.Args[2]
		if blo == nil {
			if hi == nil {
				hi = bhi
			}
			return ts.mk(Term{K: TSlice, Args: []*Term{x.Args[0], lo, hi}, T: t})
		}
		nlo := blo
		if lo != nil {
			nlo = ts.bin(token.ADD, lo, blo, types.Typ[types.Int])
		}
		nhi := bhi
		if hi != nil {
			nhi = ts.bin(token.ADD, hi, blo, types.Typ[types.Int])
		}
		return ts.mk(Term{K: TSlice, Args: []*Term{x.Args[0], nlo, nhi}, T: t})
	}
	if lo == nil && hi == nil {
		if x.T != nil {
			if _, ok := x.T.Underlying().(*types.Pointer); !ok {
				return x
			}
		}
	}
	if s, ok := x.strVal(); ok {
		l, h := int64(0), int64(len(s))
		ok1, ok2 := true, true
		if lo != nil {
			l, ok1 = lo.intVal()
		}
		if hi != nil {
			h, ok2 = hi.intVal()
		}
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s)) {
			return ts.mk(Term{K: TConst, C: constant.MakeString(s[l:h]), T: t})
		}
	}
	return ts.mk(Term{K: TSlice, Args: []*Term{x, lo, hi}, T: t})
}

func (f *Flow) typeAssert(s *State, n *Node, in *ssa.TypeAssert, x *Term) *Term {
	ts := f.ts
	known, yes := false, false
	if x.K == TIface && x.T != nil {
		known = true
		if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			yes = types.Implements(x.T, it)
		} else {
			yes = types.Identical(x.T, in.AssertedType)
		}
	} else if x.isNil() {
		known, yes = true, false
	} else if dt := madeType(x); dt != nil {
		known = true
		if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			yes = types.Implements(dt, it)
		} else {
			yes = types.Identical(dt, in.AssertedType)
		}
	} else if x.T != nil {
		// what the static type of the value rules out, or in
		if have, ok := x.T.Underlying().(*types.Interface); ok {
			if it, ok := in.AssertedType.Underlying().(*types.Interface); !ok {
				if !types.Implements(in.AssertedType, have) {
					known, yes = true, false
				}
			} else if types.Implements(x.T, it) {
				if nv, k := nilState(s, x); k && !nv {
					known, yes = true, true
				}
			}
		}
	}
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	var v *Term
	if known && yes {
		if toIface {
			v = x
		} else if x.K == TIface {
			v = x.Args[0]
		} else {
			v = ts.mk(Term{K: TPure, Op: "assert:" + types.TypeString(in.AssertedType, nil), Args: []*Term{x}, T: in.AssertedType})
		}
	} else {
		// same operand and type: same value
		v = ts.mk(Term{K: TPure, Op: "assert:" + types.TypeString(in.AssertedType, nil), Args: []*Term{x}, T: in.AssertedType})
	}
	if !in.CommaOk {
		return v
	}
	var ok *Term
	if known {
		ok = ts.boolC(yes)
		if !yes {
			v = ts.zero(in.AssertedType)
		}
	} else {
		ok = ts.mk(Term{K: TPure, Op: "is:" + types.TypeString(in.AssertedType, nil), Args: []*Term{x}, T: types.Typ[types.Bool]})
	}
	return ts.mk(Term{K: TStruct, Args: []*Term{v, ok}, T: n.Typ})
}

// madeType: the dynamic type of an interface value made by reflection from the type of a known value.
func madeType(x *Term) types.Type {
	if callName(x) != "(reflect.Value).Interface" || callName(x.Args[0]) != "reflect.New" {
		return nil
	}
	t := x.Args[0].Args[0]
	if callName(t) == "(reflect.Value).Type" && callName(t.Args[0]) == "(reflect.Value).Elem" && callName(t.Args[0].Args[0]) == "reflect.ValueOf" {
		t = t.Args[0].Args[0].Args[0]
	} else if callName(t) == "(reflect.Value).Type" && callName(t.Args[0]) == "reflect.Indirect" && callName(t.Args[0].Args[0]) == "reflect.ValueOf" {
		t = t.Args[0].Args[0].Args[0]
	} else if callName(t) == "(reflect.Type).Elem" && callName(t.Args[0]) == "reflect.TypeOf" {
		t = t.Args[0].Args[0]
	} else {
		return nil
	}
	if t.K != TIface || t.T == nil {
		return nil
	}
	if p, ok := t.T.Underlying().(*types.Pointer); ok {
		return types.NewPointer(p.Elem())
	}
	return nil
}

func (f *Flow) call(s *State, n *Node, args []*Term) *Term {
	ts := f.ts
	switch n.Builtin {
	case "len":
		return ts.lenOf(args[0], nil)
	case "cap":
		return ts.mk(Term{K: TCap, Args: args, T: types.Typ[types.Int]})
	case "append":
		if len(args) == 2 {
			if args[1].isNil() {
				return args[0]
			}
			return ts.mk(Term{K: TAppend, Op: "...", Args: args, T: n.Typ})
		}
		return args[0]
	case "copy":
		f.fresh(s, n)
		f.killCopied(s, args[0])
		f.noteCopy(s, n, args[0], args[1])
		if sl, dl := ts.lenOf(args[1], types.Typ[types.Int]), ts.lenOf(args[0], types.Typ[types.Int]); sl != nil && dl != nil {
			if a, b := s.lin(sl), s.lin(dl); a.ok && b.ok && s.entails(a.sub(b)) {
				return sl // everything is copied
			}
		}
		return ts.mk(Term{K: TCall, N: n, Op: "copy", Args: args, T: n.Typ})
	case "delete", "close", "print", "println", "recover":
		f.fresh(s, n)
		return ts.mk(Term{K: TCall, N: n, Op: n.Builtin, Args: args, T: n.Typ})
	case "ssa:wrapnilchk":
		return args[0]
	}
	if n.Callee == "(reflect.Value).Kind" && len(args) == 1 && (callName(args[0]) == "(reflect.Value).Addr" || callName(args[0]) == "reflect.New") {
		return ts.mk(Term{K: TConst, C: constant.MakeInt64(22), T: n.Typ}) // a pointer
	}
	if isPure(n.Callee) || f.cfg.PureExtra[n.Callee] {
		return ts.mk(Term{K: TPure, Op: n.Callee, Args: args, T: n.Typ})
	}
	f.fresh(s, n)
	if strings.HasPrefix(n.Callee, "github.com/haltingstate/secp256k1-go.") {
		// the curve library only reads what it is given: a copy of a value stands for the value
		as := append([]*Term(nil), args...)
		for i, a := range as {
			if a == nil || a.T == nil || !isByteSlice(a.T) {
				continue
			}
			if r := a.root(); r.K != TMake && r.K != TAlloc && a.K != TAppend {
				continue
			}
			if g := s.content(a); len(g) == 1 && g[0].Kind == 'w' && g[0].T != nil && g[0].T.T != nil && isByteSlice(g[0].T.T) {
				as[i] = g[0].T
			}
		}
		return ts.mk(Term{K: TCall, N: n, Args: as, T: n.Typ})
	}
	if !noKill(n.Callee) && !(f.cfg.NoKill != nil && f.cfg.NoKill(n.Callee)) {
		for i, a := range args {
			if i == 2 && strings.HasSuffix(n.Callee, ").XORKeyStream") {
				continue // the source is only read
			}
			s.killReach(a, 0)
			s.killCopies(a)
		}
		if n.Dyn != nil {
			s.killReach(s.val(n.Dyn), 0)
		}
		if n.Fn == nil || f.g.P.inModule(n.Fn) {
			for k, m := range s.mem {
				if m.addr.root().K == TGlobal {
					delete(s.mem, k)
				}
			}
		}
	}
	return ts.mk(Term{K: TCall, N: n, Args: args, T: n.Typ})
}

// killCopied forgets the cells copy() may overwrite.
func (f *Flow) killCopied(s *State, dst *Term) {
	base, lo := dst, int64(-1)
	if dst.K == TSlice {
		base = dst.Args[0]
		if dst.Args[1] != nil {
			if v, ok := dst.Args[1].intVal(); ok {
				lo = v
			}
		}
	}
	if lo > 0 && f.isLocal(base) {
		s.explode(f.ts.mk(Term{K: TIndexAddr, Args: []*Term{base, f.ts.intC(0)}}))
		for k, m := range s.mem {
			if !hasPrefix(m.addr, base) {
				continue
			}
			if m.addr.K == TIndexAddr && m.addr.Args[0] == base {
				if i, ok := m.addr.Args[1].intVal(); ok && i < lo {
					continue
				}
			}
			delete(s.mem, k)
		}
		return
	}
	s.killReach(dst, 0)
}

// killCopies: an opaque callee may overwrite the buffer.
func (s *State) killCopies(a *Term) {
	for a != nil && (a.K == TIface || a.K == TSlice || a.K == TConv) {
		a = a.Args[0]
	}
	for k, e := range s.must {
		if e.Tag == "copy" && len(e.Args) == 3 && e.Args[0] == a {
			delete(s.must, k)
		}
	}
	if a != nil && (a.K == TMake || a.K == TAlloc) {
		s.addMay("clob|"+a.key, "clob", a.N, a)
	}
}
