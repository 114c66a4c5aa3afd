package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are hash-consed abstract values: what a value is computed from,
// independent of local names, statement order and helper boundaries.

type TK uint8

const (
	TConst   TK = iota // constant (C == nil and IsNil: nil / zero of a non-basic type)
	TSym               // opaque value identified by a node
	TMem               // merged memory cell (block, address)
	TUnk               // merged sub-value
	TCall              // result of an opaque call (unique per site)
	TExtract           // i-th component of a tuple
	TBin               // canonicalised binary operation
	TNot
	TNeg
	TLen
	TCap
	TField     // value field
	TFieldAddr // &base.f
	TIndexAddr // &base[i]
	TIndex     // value index
	TGlobal    // address of a package variable
	TGVar      // value of a package variable never reassigned after init
	TFunc
	TAlloc
	TLoad // load from unknown memory, unique per site
	TConv
	TIface // boxed value
	TSlice
	TAppend
	TMake   // make([]T, len)
	TZero   // zero value of an aggregate
	TStruct // aggregate with known fields
	TClosure
	TAssert // type assertion value
	TPure   // pure library call
	TDeref  // typed view of dynamic receiver
)

type Term struct {
	K    TK
	Op   string
	Args []*Term
	N    *Node
	C    constant.Value
	T    types.Type
	I    int
	key  string
	syms []int
	size int
}

type terms struct {
	tab map[string]*Term
}

func (ts *terms) mk(t Term) *Term {
	var sb strings.Builder
	sb.WriteByte('a' + byte(t.K))
	switch t.K {
	case TConst:
		if t.C == nil {
			sb.WriteString("nil")
		} else {
			sb.WriteString(t.C.ExactString())
			if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				sb.WriteString("S")
			}
		}
	default:
		if t.N != nil && (t.K == TSym || t.K == TCall || t.K == TAlloc || t.K == TLoad || t.K == TUnk || t.K == TMake || t.K == TAssert || t.K == TClosure || t.K == TDeref) {
			sb.WriteString(strconv.Itoa(t.N.ID))
		}
		sb.WriteString(t.Op)
		if t.K == TField || t.K == TFieldAddr || t.K == TExtract || t.K == TMem || t.K == TUnk {
			sb.WriteString("#" + strconv.Itoa(t.I))
		}
		if (t.K == TConv || t.K == TIface || t.K == TZero || t.K == TStruct || t.K == TAssert) && t.T != nil {
			sb.WriteString("<" + types.TypeString(t.T, nil) + ">")
		}
		sb.WriteByte('(')
		for i, a := range t.Args {
			if i > 0 {
				sb.WriteByte(',')
			}
			if a == nil {
				sb.WriteByte('_')
			} else {
				sb.WriteString(a.key)
			}
		}
		sb.WriteByte(')')
	}
	k := sb.String()
	if x := ts.tab[k]; x != nil {
		return x
	}
	nt := t
	nt.key = k
	nt.size = 1
	set := map[int]bool{}
	for _, a := range t.Args {
		if a == nil {
			continue
		}
		nt.size += a.size
		for _, s := range a.syms {
			set[s] = true
		}
	}
	switch t.K {
	case TSym, TCall, TAlloc, TLoad, TUnk, TMake, TAssert, TClosure, TDeref:
		if t.N != nil {
			set[t.N.ID] = true
		}
	case TMem:
		set[-(t.I + 1)] = true
	}
	for s := range set {
		nt.syms = append(nt.syms, s)
	}
	sort.Ints(nt.syms)
	p := &nt
	ts.tab[k] = p
	return p
}

func (t *Term) hasSym(id int) bool {
	i := sort.SearchInts(t.syms, id)
	return i < len(t.syms) && t.syms[i] == id
}

func (t *Term) contains(u *Term) bool {
	if t == u {
		return true
	}
	if t == nil || u == nil || t.size < u.size {
		return false
	}
	for _, a := range t.Args {
		if a != nil && a.contains(u) {
			return true
		}
	}
	return false
}

func (t *Term) isNil() bool   { return t != nil && t.K == TConst && t.C == nil }
func (t *Term) isConst() bool { return t != nil && t.K == TConst && t.C != nil }
func (t *Term) boolVal() (bool, bool) {
	if t.isConst() && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}
func (t *Term) intVal() (int64, bool) {
	if t.isConst() && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.isConst() && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

func (ts *terms) boolC(b bool) *Term {
	return ts.mk(Term{K: TConst, C: constant.MakeBool(b), T: types.Typ[types.Bool]})
}
func (ts *terms) intC(i int64) *Term {
	return ts.mk(Term{K: TConst, C: constant.MakeInt64(i), T: types.Typ[types.Int]})
}
func (ts *terms) nilC(t types.Type) *Term { return ts.mk(Term{K: TConst, T: t}) }

func (ts *terms) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.boolC(false)
		case u.Info()&types.IsInteger != 0:
			return ts.mk(Term{K: TConst, C: constant.MakeInt64(0), T: t})
		case u.Info()&types.IsString != 0:
			return ts.mk(Term{K: TConst, C: constant.MakeString(""), T: t})
		case u.Info()&types.IsFloat != 0:
			return ts.mk(Term{K: TConst, C: constant.MakeInt64(0), T: t})
		}
		return ts.nilC(t)
	case *types.Struct, *types.Array:
		return ts.mk(Term{K: TZero, T: t})
	}
	return ts.nilC(t)
}

func (ts *terms) not(a *Term) *Term {
	if b, ok := a.boolVal(); ok {
		return ts.boolC(!b)
	}
	if a.K == TNot {
		return a.Args[0]
	}
	return ts.mk(Term{K: TNot, Args: []*Term{a}})
}

// definitelyNonNil: terms that can never be nil.
func (ts *terms) nonNil(t *Term) bool {
	switch t.K {
	case TIface, TAlloc, TFieldAddr, TIndexAddr, TGlobal, TFunc, TClosure, TMake:
		return true
	case TGVar:
		return t.Op == "nonnil" || isErrVar(t)
	case TCall:
		if w := unwrapErr(t); w != t {
			return ts.nonNil(w)
		}
		return nonNilCalls[t.N.Callee] || t.N.Callee == sha3Fn
	case TPure:
		if w := unwrapErr(t); w != t {
			return ts.nonNil(w)
		}
		return nonNilCalls[t.Op]
	case TSlice:
		// x[:] of a non-nil array pointer or of a slice known non-nil
		return ts.nonNil(t.Args[0])
	case TConv:
		// []byte(s) never yields nil (Go spec: non-nil even if empty)
		if _, ok := t.T.Underlying().(*types.Slice); ok {
			if b, ok := t.Args[0].T.(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return true
			}
		}
	case TAppend:
		return ts.nonNil(t.Args[0])
	case TAssert:
		return t.Op == "nonnil"
	}
	return false
}

func isErrVar(t *Term) bool {
	return t.T != nil && types.Implements(t.T, errorIface()) && t.I == 1
}

func errorIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

// errWrappers: nil exactly when their first argument is.
var errWrappers = map[string]bool{
	modPath + "/common/errors.WithStack": true,
	"github.com/pkg/errors.WithStack":    true, "github.com/pkg/errors.WithMessage": true, "github.com/pkg/errors.WithMessagef": true,
	"github.com/pkg/errors.Wrap": true, "github.com/pkg/errors.Wrapf": true,
}

// unwrapErr: the error whose being nil decides whether t is nil.
func unwrapErr(t *Term) *Term {
	for len(t.Args) > 0 && (t.K == TCall && t.N != nil && errWrappers[t.N.Callee] || t.K == TPure && errWrappers[t.Op]) {
		t = t.Args[0]
	}
	return t
}

var nonNilCalls = map[string]bool{
	"errors.New": true, "fmt.Errorf": true,
	"github.com/pkg/errors.New": true, "github.com/pkg/errors.Errorf": true,
	modPath + "/common/errors.New": true, modPath + "/common/errors.Errorf": true,
	modPath + "/common/errors.Errorc": true, modPath + "/common/errors.Errorcf": true,
	modPath + "/common/errors.NewBase":         true,
	"(" + modPath + "/common/errors.Code).New": true, "(" + modPath + "/common/errors.Code).Errorf": true,
	"(" + modPath + "/common/errors.Code).Wrap": true, "(" + modPath + "/common/errors.Code).Wrapf": true,
	"(" + modPath + "/common/errors.Code).AttachTo": true,
	modPath + "/common/errors.Wrap":                 true, modPath + "/common/errors.Wrapf": true,
	modPath + "/common/errors.Wrapc": true, modPath + "/common/errors.Wrapcf": true,
	modPath + "/common/errors.WithCode": true,
	"bytes.NewBuffer": true, "bytes.NewReader": true, "math/big.NewInt": true,
}

func (ts *terms) bin(op token.Token, a, b *Term, t types.Type) *Term {
	switch op {
	case token.NEQ:
		return ts.not(ts.bin(token.EQL, a, b, t))
	case token.GTR:
		return ts.bin(token.LSS, b, a, t)
	case token.GEQ:
		return ts.not(ts.bin(token.LSS, a, b, t))
	case token.LEQ:
		return ts.not(ts.bin(token.LSS, b, a, t))
	case token.EQL:
		if a.isNil() {
			b = unwrapErr(b)
		} else if b.isNil() {
			a = unwrapErr(a)
		}
		if a == b {
			return ts.boolC(true)
		}
		if a.isNil() && ts.nonNil(b) || b.isNil() && ts.nonNil(a) {
			return ts.boolC(false)
		}
		if a.isConst() && b.isConst() {
			return ts.boolC(constant.Compare(a.C, token.EQL, b.C))
		}
		if bv, ok := a.boolVal(); ok {
			if bv {
				return b
			}
			return ts.not(b)
		}
		if bv, ok := b.boolVal(); ok {
			if bv {
				return a
			}
			return ts.not(a)
		}
		if b.key < a.key {
			a, b = b, a
		}
		return ts.mk(Term{K: TBin, Op: "==", Args: []*Term{a, b}, T: t})
	case token.LSS:
		if a.isConst() && b.isConst() && a.C.Kind() == b.C.Kind() {
			return ts.boolC(constant.Compare(a.C, token.LSS, b.C))
		}
		if a == b {
			return ts.boolC(false)
		}
		return ts.mk(Term{K: TBin, Op: "<", Args: []*Term{a, b}, T: t})
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
		if a.isConst() && b.isConst() && a.C.Kind() == b.C.Kind() && (a.C.Kind() == constant.Int || op == token.ADD && a.C.Kind() == constant.String) {
			v := constant.BinaryOp(a.C, op, b.C)
			if a.C.Kind() == constant.String || fitsType(v, t) {
				return ts.mk(Term{K: TConst, C: v, T: t})
			}
		}
		if op == token.ADD && isString(t) {
			if s, ok := a.strVal(); ok && s == "" {
				return b
			}
			if s, ok := b.strVal(); ok && s == "" {
				return a
			}
			// right-assoc normal form of concatenation
			if a.K == TBin && a.Op == "+" && isString(a.T) {
				return ts.bin(token.ADD, a.Args[0], ts.bin(token.ADD, a.Args[1], b, t), t)
			}
			if a.isConst() && b.K == TBin && b.Op == "+" && b.Args[0].isConst() && isString(b.T) {
				return ts.bin(token.ADD, ts.bin(token.ADD, a, b.Args[0], t), b.Args[1], t)
			}
			return ts.mk(Term{K: TBin, Op: "+", Args: []*Term{a, b}, T: t})
		}
		if op != token.SUB && b.key < a.key {
			a, b = b, a
		}
		return ts.mk(Term{K: TBin, Op: op.String(), Args: []*Term{a, b}, T: t})
	case token.QUO, token.REM, token.SHL, token.SHR, token.AND_NOT:
		if a.isConst() && b.isConst() && a.C.Kind() == constant.Int && b.C.Kind() == constant.Int {
			if op == token.SHL || op == token.SHR {
				if n, ok := constant.Uint64Val(b.C); ok && n < 512 {
					v := constant.Shift(a.C, op, uint(n))
					if fitsType(v, t) {
						return ts.mk(Term{K: TConst, C: v, T: t})
					}
				}
			} else if constant.Sign(b.C) != 0 {
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN
				}
				v := constant.BinaryOp(a.C, o, b.C)
				if fitsType(v, t) {
					return ts.mk(Term{K: TConst, C: v, T: t})
				}
			}
		}
		return ts.mk(Term{K: TBin, Op: op.String(), Args: []*Term{a, b}, T: t})
	}
	return ts.mk(Term{K: TBin, Op: op.String(), Args: []*Term{a, b}, T: t})
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// intRange returns the value range of an integer type (64-bit int/uint).
func intRange(t types.Type) (lo, hi constant.Value, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := map[types.BasicKind]uint{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64,
		types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64, types.Uintptr: 64, types.UntypedInt: 64, types.UntypedRune: 32}[b.Kind()]
	one := constant.MakeInt64(1)
	if b.Info()&types.IsUnsigned != 0 {
		return constant.MakeInt64(0), constant.BinaryOp(constant.Shift(one, token.SHL, bits), token.SUB, one), true
	}
	h := constant.Shift(one, token.SHL, bits-1)
	return constant.UnaryOp(token.SUB, h, 0), constant.BinaryOp(h, token.SUB, one), true
}

func fitsType(v constant.Value, t types.Type) bool {
	if v.Kind() != constant.Int {
		return true
	}
	lo, hi, ok := intRange(t)
	if !ok {
		return false
	}
	return constant.Compare(v, token.GEQ, lo) && constant.Compare(v, token.LEQ, hi)
}

// conv of a constant wraps to the destination type.
func (ts *terms) conv(a *Term, from, to types.Type) *Term {
	if types.Identical(from.Underlying(), to.Underlying()) {
		return a
	}
	if isInteger(from) && isInteger(to) {
		if a.isConst() && fitsType(a.C, to) {
			return ts.mk(Term{K: TConst, C: a.C, T: to})
		}
		if a.isConst() && isUnsigned(to) && constant.Sign(a.C) >= 0 {
			_, hi, _ := intRange(to)
			return ts.mk(Term{K: TConst, C: constant.BinaryOp(a.C, token.AND, hi), T: to})
		}
		// widening conversions preserve the value
		if widens(from, to) {
			return ts.mk(Term{K: TConv, Op: "=", T: to, Args: []*Term{a}})
		}
		return ts.mk(Term{K: TConv, Op: "~", T: to, Args: []*Term{a}})
	}
	if isString(from) && isString(to) {
		return a
	}
	// string([]byte(s)) == s
	if isString(to) && a.K == TConv && len(a.Args) == 1 && a.Args[0].T != nil && isString(a.Args[0].T) {
		if _, ok := a.T.Underlying().(*types.Slice); ok {
			return a.Args[0]
		}
	}
	return ts.mk(Term{K: TConv, T: to, Args: []*Term{a}})
}

func widens(from, to types.Type) bool {
	fl, fh, ok1 := intRange(from)
	tl, th, ok2 := intRange(to)
	return ok1 && ok2 && constant.Compare(fl, token.GEQ, tl) && constant.Compare(fh, token.LEQ, th)
}

func (ts *terms) field(a *Term, i int, t types.Type) *Term {
	switch a.K {
	case TZero:
		return ts.zero(t)
	case TStruct:
		if i < len(a.Args) && a.Args[i] != nil {
			return a.Args[i]
		}
	}
	return ts.mk(Term{K: TField, I: i, Args: []*Term{a}, T: t})
}

func (ts *terms) lenOf(a *Term, t types.Type) *Term {
	switch a.K {
	case TConst:
		if a.C == nil {
			return ts.intC(0)
		}
		if s, ok := a.strVal(); ok {
			return ts.intC(int64(len(s)))
		}
	case TMake:
		return a.Args[0]
	case TConv:
		// []byte(string) and string([]byte) keep the length
		if a.T != nil && (isString(a.T) || isByteSlice(a.T)) {
			at := a.Args[0].T
			if at != nil && (isString(at) || isByteSlice(at)) {
				return ts.lenOf(a.Args[0], t)
			}
		}
	case TSlice:
		lo, hi := a.Args[1], a.Args[2]
		if lo == nil {
			lo = ts.intC(0)
		}
		if hi == nil {
			hi = ts.sliceBaseLen(a.Args[0])
		}
		if hi != nil {
			if l, ok := lo.intVal(); ok && l == 0 {
				return hi
			}
			return ts.bin(token.SUB, hi, lo, types.Typ[types.Int])
		}
	case TAppend:
		if a.Op == "..." {
			return ts.bin(token.ADD, ts.lenOf(a.Args[0], nil), ts.lenOf(a.Args[1], nil), types.Typ[types.Int])
		}
	case TBin:
		if a.Op == "+" && isString(a.T) {
			return ts.bin(token.ADD, ts.lenOf(a.Args[0], nil), ts.lenOf(a.Args[1], nil), types.Typ[types.Int])
		}
	case TCall:
		if a.N != nil && a.N.Callee == sha3Fn { // only left uninlined where it was found to be SHA3-256
			return ts.intC(32)
		}
	case TZero:
		if at, ok := a.T.Underlying().(*types.Array); ok {
			return ts.intC(at.Len())
		}
	}
	if a.T != nil {
		if at, ok := a.T.Underlying().(*types.Array); ok {
			return ts.intC(at.Len())
		}
		if pt, ok := a.T.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return ts.intC(at.Len())
			}
		}
	}
	return ts.mk(Term{K: TLen, Args: []*Term{a}, T: types.Typ[types.Int]})
}

// sliceBaseLen: length of the operand of a slice expression (array pointer, slice or string).
func (ts *terms) sliceBaseLen(x *Term) *Term {
	if x.T != nil {
		if pt, ok := x.T.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return ts.intC(at.Len())
			}
		}
	}
	return ts.lenOf(x, nil)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (t *Term) String() string {
	if t == nil {
		return "_"
	}
	args := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.String())
		}
		return strings.Join(s, ", ")
	}
	switch t.K {
	case TConst:
		if t.C == nil {
			return "nil"
		}
		return t.C.String()
	case TSym:
		if t.N.V != nil {
			return fmt.Sprintf("%s#%d", t.N.V.Name(), t.N.ID)
		}
		return fmt.Sprintf("sym#%d", t.N.ID)
	case TMem:
		return fmt.Sprintf("mem@B%d[%s]", t.I, args())
	case TUnk:
		return fmt.Sprintf("unk#%d", t.N.ID)
	case TCall:
		return fmt.Sprintf("%s#%d(%s)", short(t.N.Callee), t.N.ID, args())
	case TExtract:
		return fmt.Sprintf("%s.%d", args(), t.I)
	case TBin:
		return fmt.Sprintf("(%s %s %s)", t.Args[0], t.Op, t.Args[1])
	case TNot:
		return "!" + args()
	case TLen:
		return "len(" + args() + ")"
	case TField:
		return args() + "." + t.fieldName()
	case TFieldAddr:
		return "&" + args() + "." + t.fieldName()
	case TIndexAddr:
		return fmt.Sprintf("&%s[%s]", t.Args[0], t.Args[1])
	case TIndex:
		return fmt.Sprintf("%s[%s]", t.Args[0], t.Args[1])
	case TGlobal, TGVar:
		return short(t.Op)
	case TAlloc:
		return fmt.Sprintf("new#%d", t.N.ID)
	case TLoad:
		return fmt.Sprintf("*%s@%d", args(), t.N.ID)
	case TConv:
		return fmt.Sprintf("%s(%s)", short(types.TypeString(t.T, nil)), args())
	case TIface:
		return fmt.Sprintf("iface(%s)", args())
	case TSlice:
		return fmt.Sprintf("%s[%s:%s]", t.Args[0], t.Args[1], t.Args[2])
	case TAppend:
		return fmt.Sprintf("append%s(%s)", t.Op, args())
	case TMake:
		return fmt.Sprintf("make#%d(%s)", t.N.ID, args())
	case TZero:
		return "zero"
	case TPure:
		return short(t.Op) + "(" + args() + ")"
	}
	return fmt.Sprintf("t%d%s(%s)", t.K, t.Op, args())
}

func (t *Term) fieldName() string {
	bt := t.Args[0].T
	if bt == nil {
		return fmt.Sprint(t.I)
	}
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		bt = p.Elem()
	}
	if s, ok := bt.Underlying().(*types.Struct); ok && t.I < s.NumFields() {
		return s.Field(t.I).Name()
	}
	return fmt.Sprint(t.I)
}

// root returns the base of an address/aggregate chain.
func (t *Term) root() *Term {
	for t != nil {
		switch t.K {
		case TFieldAddr, TIndexAddr, TField, TIndex, TSlice:
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}

var _ = ssa.NaiveForm
