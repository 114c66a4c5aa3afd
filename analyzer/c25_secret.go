package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "Passwords and private keys never leave the relay in the clear",
		"taint: nothing derived from a key-store password, a password file or a private key reaches a log, the console, an error, a file or a request except encrypted, hashed or as a signature; the saved configuration has its passwords emptied on every path; a key store's own file is for its owner only",
		checkSecret)
}

// Labels of a value. Three groups of further bits say: what parameter i carries, a text or encoding
// of it, what the file it names holds.
type lab uint64

const (
	lSecret lab = 1 << iota // password, private key, key derived from them
	lPath                   // name of the file holding the password
	lStore                  // encrypted key store
	lPrint                  // printing the value shows a secret
	lJSON                   // the JSON form of the value holds a secret
	lKinds  lab = 1<<8 - 1
)

const nPar = 18
const parMask lab = 1<<nPar - 1

func parBit(i int) lab {
	if i >= nPar {
		return 0
	}
	return 1 << uint(8+i)
}

// rendered: the label of a text or encoding of a value.
func rendered(l lab) lab {
	k := l & (lPath | lStore)
	if l&(lSecret|lPrint|lJSON) != 0 {
		k |= lSecret
	}
	raw := (l >> 8) & parMask
	return k | raw<<(8+nPar) | l&^(1<<(8+nPar)-1)
}

// contentOf: the label of what a file with that name holds.
func contentOf(l lab) lab {
	var k lab
	if l&lPath != 0 {
		k = lSecret
	}
	return k | ((l>>8|l>>(8+nPar)|l>>(8+2*nPar))&parMask)<<(8+2*nPar)
}

type fldKey struct {
	t string
	i int
}

type effKey struct {
	kind string // "print", "json", "write", "field", "obj"
	pos  string
	desc string
	fk   fldKey
	n    int // parameter (obj), permission parameter (write)
	perm int64
}

type tsum struct {
	ret []lab
	eff map[effKey]lab
}

type taint struct {
	c     *Ctx
	val   map[ssa.Value]lab
	why   map[ssa.Value]string
	fld   map[fldKey]lab
	sum   map[*ssa.Function]*tsum
	tup   map[ssa.Value][]lab
	binds map[*ssa.FreeVar][]ssa.Value
	impl  map[string][]*ssa.Function
	xor   bool
	chg   bool
	clear map[*ssa.MakeInterface]bool
	boxes map[*ssa.MakeInterface]bool
	cur   *ssa.Function
}

func structOf(t types.Type) (*types.Struct, string) {
	for {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		break
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, ""
	}
	return st, types.TypeString(t, nil)
}

// source: the label a field has by what it is for.
func fieldSource(name string, st *types.Struct, i int) lab {
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	if j := strings.IndexByte(tag, ','); j >= 0 {
		tag = tag[:j]
	}
	if strings.HasPrefix(name, modPath+"/") {
		switch tag {
		case "key_password":
			return lSecret
		case "key_secret":
			return lPath
		case "key_store":
			return lStore
		}
	}
	switch name {
	case modPath + "/common/crypto.PrivateKey":
		return lSecret
	case "crypto/ecdsa.PrivateKey":
		if st.Field(i).Name() == "D" {
			return lSecret
		}
	}
	return 0
}

func (t *taint) fieldLab(st *types.Struct, name string, i int, base lab) lab {
	l := t.fld[fldKey{name, i}] | fieldSource(name, st, i)
	if !strings.HasPrefix(name, modPath+"/") && !strings.HasPrefix(name, "struct{") {
		n := st.Field(i).Name()
		if name != "crypto/ecdsa.PrivateKey" && n != "PublicKey" && n != "Address" && n != "X" && n != "Y" && n != "Curve" {
			l |= base
		}
	}
	return l
}

func (t *taint) lab(v ssa.Value) lab {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, nil:
		return 0
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return parBit(i) | t.val[v]
			}
		}
	}
	return t.val[v]
}

func (t *taint) add(v ssa.Value, l lab, why string) {
	if l&^t.val[v] != 0 {
		t.val[v] |= l
		if t.why[v] == "" && l&lKinds != 0 {
			t.why[v] = why
		}
		t.chg = true
	}
}

// obj: what v points to or is backed by holds l.
func (t *taint) obj(v ssa.Value, l lab, d int) {
	if l == 0 || d > 8 {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if pr, ok := v.(*ssa.Parameter); ok {
		for i, p := range pr.Parent().Params {
			if p == pr {
				if l&^parBit(i) != 0 {
					t.effect(effKey{kind: "obj", n: i}, l&^parBit(i))
				}
			}
		}
		t.add(v, l, "")
		return
	}
	if fa, ok := v.(*ssa.FieldAddr); ok {
		st, name := structOf(fa.X.Type())
		if st != nil && strings.HasPrefix(name, modPath+"/") {
			t.setField(fldKey{name, fa.Field}, l)
			return
		}
		t.obj(fa.X, l, d+1)
		return
	}
	old := t.val[v]
	t.add(v, l, "")
	if old == t.val[v] && d > 0 {
		return
	}
	switch x := v.(type) {
	case *ssa.IndexAddr:
		t.obj(x.X, l, d+1)
	case *ssa.Slice:
		t.obj(x.X, l, d+1)
	case *ssa.UnOp:
		t.obj(x.X, l, d+1)
	case *ssa.Convert:
		t.obj(x.X, l, d+1)
	case *ssa.ChangeType:
		t.obj(x.X, l, d+1)
	case *ssa.ChangeInterface:
		t.obj(x.X, l, d+1)
	case *ssa.MakeInterface:
		t.obj(x.X, l, d+1)
	case *ssa.TypeAssert:
		t.obj(x.X, l, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.obj(e, l, d+1)
		}
	case *ssa.FreeVar:
		for _, b := range t.binds[x] {
			t.obj(b, l&lKinds, d+1)
		}
	}
}

func (t *taint) setField(k fldKey, l lab) {
	if l&lKinds&^t.fld[k] != 0 {
		t.fld[k] |= l & lKinds
		t.chg = true
	}
	if l&^lKinds != 0 {
		t.effect(effKey{kind: "field", fk: k}, l&^lKinds)
	}
}

func (t *taint) effect(k effKey, l lab) {
	s := t.of(t.cur)
	if l&^s.eff[k] != 0 {
		s.eff[k] |= l
		t.chg = true
	}
}

func (t *taint) of(f *ssa.Function) *tsum {
	s := t.sum[f]
	if s == nil {
		s = &tsum{ret: make([]lab, f.Signature.Results().Len()), eff: map[effKey]lab{}}
		t.sum[f] = s
	}
	return s
}

// subst: the label of a callee in terms of its caller.
func (t *taint) subst(l lab, args []ssa.Value) lab {
	o := l & lKinds
	for i, a := range args {
		al := t.lab(a)
		if l&parBit(i) != 0 {
			o |= al
		}
		if l&(parBit(i)<<nPar) != 0 {
			o |= rendered(al)
		}
		if l&(parBit(i)<<(2*nPar)) != 0 {
			o |= contentOf(al)
		}
	}
	return o
}

func bearName(x types.Type) string { return short(types.TypeString(x, nil)) }

// methodLab: label of what a method of the type returns, and whether the type has it.
func (t *taint) methodLab(x types.Type, names ...string) (lab, bool) {
	ms := t.c.P.SSA.MethodSets.MethodSet(x)
	for _, n := range names {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() != n {
				continue
			}
			f := t.c.P.SSA.MethodValue(ms.At(i))
			if f == nil {
				continue
			}
			if len(f.Blocks) > 0 && t.c.P.inModule(f) {
				var l lab
				for _, r := range t.of(f).ret {
					l |= r
				}
				return l & lKinds, true
			}
			return 0, true
		}
	}
	return 0, false
}

func (t *taint) bear(x types.Type, json, top bool, seen map[string]bool) bool {
	nm := types.TypeString(x, nil)
	key := fmt.Sprint(nm, top)
	if seen[key] {
		return false
	}
	seen[key] = true
	if json {
		if l, ok := t.methodLab(x, "MarshalJSON", "MarshalText"); ok {
			return l&lSecret != 0
		}
	} else if l, ok := t.methodLab(x, "Format", "Error", "String"); ok {
		return l&lSecret != 0
	}
	switch u := x.Underlying().(type) {
	case *types.Pointer:
		return (json || top) && t.bear(u.Elem(), json, false, seen)
	case *types.Slice:
		return t.bear(u.Elem(), json, false, seen)
	case *types.Array:
		return t.bear(u.Elem(), json, false, seen)
	case *types.Map:
		return t.bear(u.Elem(), json, false, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if json && (!f.Exported() && !f.Embedded() || strings.HasPrefix(reflect.StructTag(u.Tag(i)).Get("json"), "-")) {
				continue
			}
			if (t.fld[fldKey{nm, i}]|fieldSource(nm, u, i))&lSecret != 0 {
				return true
			}
			if !json {
				if _, ok := f.Type().Underlying().(*types.Interface); ok {
					continue
				}
			}
			if t.bear(f.Type(), json, false, seen) {
				return true
			}
		}
	}
	return false
}

func (t *taint) box(mi *ssa.MakeInterface) lab {
	x := mi.X.Type()
	l := t.lab(mi.X)
	var b lab
	if t.bear(x, false, true, map[string]bool{}) {
		b |= lPrint
	}
	if t.bear(x, true, true, map[string]bool{}) {
		b |= lJSON
	}
	if st, nm := structOf(x); st != nil && nm == modPath+"/common/wallet.KeyStoreData" {
		b |= lStore
	}
	if b&(lPrint|lJSON) != 0 && t.xor {
		t.boxes[mi] = true
		cl, ok := t.clear[mi]
		if !ok {
			cl = t.cleared(mi)
			t.clear[mi] = cl
		}
		if cl {
			b &^= lPrint | lJSON
		}
	} else if !t.xor {
		b &^= lPrint | lJSON
	}
	return l | b
}

func (t *taint) posOf(in ssa.Instruction) string {
	return t.c.P.posStr(in.Pos())
}

func (t *taint) run() {
	for _, f := range t.c.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					for i, fv := range mc.Fn.(*ssa.Function).FreeVars {
						t.binds[fv] = append(t.binds[fv], mc.Bindings[i])
					}
				}
			}
		}
		if r := f.Signature.Recv(); r != nil {
			t.impl[f.Name()] = append(t.impl[f.Name()], f)
		}
	}
	for _, x := range []bool{false, true} {
		t.xor = x
		for i := 0; i < 40; i++ {
			t.chg = false
			for _, f := range t.c.P.funcs {
				t.fn(f)
			}
			if !t.chg {
				break
			}
		}
	}
}

func quietType(x types.Type) bool {
	if types.Identical(x, errorType()) {
		return true
	}
	if b, ok := x.Underlying().(*types.Basic); ok {
		return b.Info()&(types.IsBoolean|types.IsInteger|types.IsFloat) != 0 && b.Kind() != types.Uint8
	}
	return false
}

func (t *taint) fn(f *ssa.Function) {
	t.cur = f
	for _, fv := range f.FreeVars {
		for _, b := range t.binds[fv] {
			t.add(fv, t.lab(b)&lKinds, "")
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if st, n := structOf(x.X.Type()); st != nil {
					t.add(x, t.fieldLab(st, n, x.Field, t.lab(x.X)), short(n)+"."+st.Field(x.Field).Name())
				}
			case *ssa.Field:
				if st, n := structOf(x.X.Type()); st != nil {
					t.add(x, t.fieldLab(st, n, x.Field, t.lab(x.X)), short(n)+"."+st.Field(x.Field).Name())
				}
			case *ssa.UnOp:
				t.add(x, t.lab(x.X), "")
			case *ssa.Store:
				t.obj(x.Addr, t.lab(x.Val), 0)
			case *ssa.BinOp:
				if !quietType(x.Type()) {
					t.add(x, t.lab(x.X)|t.lab(x.Y), "")
				}
			case *ssa.Convert:
				t.add(x, t.lab(x.X), "")
			case *ssa.ChangeType:
				t.add(x, t.lab(x.X), "")
			case *ssa.ChangeInterface:
				t.add(x, t.lab(x.X), "")
			case *ssa.TypeAssert:
				if x.CommaOk {
					t.setTup(x, 0, t.lab(x.X))
				} else {
					t.add(x, t.lab(x.X), "")
				}
			case *ssa.MakeInterface:
				t.add(x, t.box(x), bearName(x.X.Type()))
			case *ssa.Slice:
				t.add(x, t.lab(x.X), "")
			case *ssa.SliceToArrayPointer:
				t.add(x, t.lab(x.X), "")
			case *ssa.Index:
				t.add(x, t.lab(x.X), "")
			case *ssa.IndexAddr:
				t.add(x, t.lab(x.X), "")
			case *ssa.Lookup:
				if x.CommaOk {
					t.setTup(x, 0, t.lab(x.X))
				} else {
					t.add(x, t.lab(x.X), "")
				}
			case *ssa.Range:
				t.add(x, t.lab(x.X), "")
			case *ssa.Next:
				t.setTup(x, 1, t.lab(x.Iter))
				t.setTup(x, 2, t.lab(x.Iter))
			case *ssa.Phi:
				for _, e := range x.Edges {
					t.add(x, t.lab(e), "")
				}
			case *ssa.Extract:
				if l := t.tup[x.Tuple]; x.Index < len(l) {
					t.add(x, l[x.Index], "")
				}
			case *ssa.MapUpdate:
				t.obj(x.Map, t.lab(x.Key)|t.lab(x.Value), 0)
			case *ssa.Send:
				t.obj(x.Chan, t.lab(x.X), 0)
			case *ssa.Panic:
				t.sink("print", in, "panic", t.lab(x.X), 0, 0)
			case *ssa.Return:
				s := t.of(f)
				for i, r := range x.Results {
					if l := t.lab(r); l&^s.ret[i] != 0 {
						s.ret[i] |= l
						t.chg = true
					}
				}
			case ssa.CallInstruction:
				t.call(x)
			}
		}
	}
}

func (t *taint) setTup(v ssa.Value, i int, l lab) {
	ts := t.tup[v]
	for len(ts) <= i {
		ts = append(ts, 0)
	}
	if l&^ts[i] != 0 {
		ts[i] |= l
		t.chg = true
	}
	t.tup[v] = ts
}

func (t *taint) result(x ssa.CallInstruction, ls []lab) {
	v, ok := x.(*ssa.Call)
	if !ok {
		return
	}
	if len(ls) == 1 {
		t.add(v, ls[0], calleeName(x.Common()))
		return
	}
	for i, l := range ls {
		t.setTup(v, i, l)
	}
}

// sink records that the value labelled l goes out there.
func (t *taint) sink(kind string, in ssa.Instruction, desc string, l lab, perm int64, pp int) {
	k := effKey{kind: kind, pos: t.posOf(in), desc: desc, n: pp, perm: perm}
	if s := t.of(t.cur); l == 0 {
		s.eff[k] |= 0
	}
	t.effect(k, l)
}

func (t *taint) targets(cc *ssa.CallCommon) []*ssa.Function {
	if cc.IsInvoke() {
		it, ok := cc.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		var o []*ssa.Function
		for _, f := range t.impl[cc.Method.Name()] {
			if types.Implements(f.Signature.Recv().Type(), it) {
				o = append(o, f)
			}
		}
		return o
	}
	if f := cc.StaticCallee(); f != nil {
		if len(f.Blocks) > 0 && t.c.P.inModule(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	return funcValues(cc.Value, 0)
}

func funcValues(v ssa.Value, d int) []*ssa.Function {
	if d > 4 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.Phi:
		var o []*ssa.Function
		for _, e := range x.Edges {
			o = append(o, funcValues(e, d+1)...)
		}
		return o
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			var o []*ssa.Function
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					o = append(o, funcValues(s.Val, d+1)...)
				}
			}
			return o
		}
	}
	return nil
}

func apiPkg(name, pkg string) bool {
	for _, p := range []string{"", "(", "(*"} {
		if strings.HasPrefix(name, p+pkg+".") || strings.HasPrefix(name, p+pkg+"/") {
			return true
		}
	}
	return false
}

func (t *taint) memWriter(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	switch types.TypeString(v.Type(), nil) {
	case "*bytes.Buffer", "*strings.Builder", "hash.Hash", "*bufio.Writer":
		return true
	}
	return false
}

func (t *taint) call(x ssa.CallInstruction) {
	cc := x.Common()
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	name := calleeName(cc)
	if u, ok := cc.Value.(*ssa.UnOp); ok && name == "" {
		if g, ok := u.X.(*ssa.Global); ok {
			name = g.String()
		}
	}
	var union lab
	for _, a := range args {
		union |= t.lab(a)
	}
	nres := cc.Signature().Results().Len()
	all := func(l lab) []lab {
		o := make([]lab, nres)
		for i := range o {
			if !quietType(cc.Signature().Results().At(i).Type()) {
				o[i] = l
			}
		}
		return o
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		switch b.Name() {
		case "append":
			t.result(x, []lab{union})
			t.obj(args[0], union&^t.lab(args[0]), 0)
		case "copy":
			t.obj(args[0], t.lab(args[1]), 0)
		case "print", "println":
			t.sink("print", x, b.Name(), union, 0, 0)
		case "min", "max":
			t.result(x, []lab{union})
		}
		return
	}
	last := name[strings.LastIndex(name, ".")+1:]
	typed := union
	for _, a := range args {
		switch types.TypeString(a.Type(), nil) {
		case "*crypto/ecdsa.PrivateKey", "crypto/ecdsa.PrivateKey", "*" + modPath + "/common/crypto.PrivateKey":
			typed |= lSecret
		}
	}
	logs := apiPkg(name, modPath+"/common/log") || apiPkg(name, "log") || apiPkg(name, "github.com/sirupsen/logrus")
	errs := apiPkg(name, modPath+"/common/errors") || apiPkg(name, "errors") || apiPkg(name, "github.com/pkg/errors") || name == "fmt.Errorf"
	inside := strings.HasPrefix(t.cur.String(), modPath+"/common/log") || strings.Contains(t.cur.String(), modPath+"/common/log.") || strings.Contains(t.cur.String(), modPath+"/common/errors.")
	switch {
	case (logs || errs) && !inside:
		t.sink("print", x, short(name), union, 0, 0)
		return
	case inside:
		return
	case cc.IsInvoke() && last == "XORKeyStream" || strings.HasSuffix(name, ").XORKeyStream"):
		if src := t.lab(args[len(args)-1]); t.xor && src&lSecret == 0 && src&^lKinds == 0 {
			t.obj(args[len(args)-2], lSecret, 0)
		}
		return
	}
	if fs := t.targets(cc); len(fs) > 0 {
		ls := make([]lab, nres)
		for _, f := range fs {
			s := t.of(f)
			as := args
			if !cc.IsInvoke() && len(f.Params) != len(args) {
				continue
			}
			for i, r := range s.ret {
				if i < nres {
					ls[i] |= t.subst(r, as)
				}
			}
			for k, l := range s.eff {
				sl := t.subst(l&^lKinds, as)
				switch k.kind {
				case "field":
					t.setField(k.fk, sl)
				case "obj":
					if k.n < len(as) {
						t.obj(as[k.n], t.subst(l, as), 0)
					}
				default:
					if sl == 0 {
						continue
					}
					nk := k
					nk.pos = t.posOf(x)
					nk.desc = k.desc
					if k.kind == "write" && k.n > 0 && k.n-1 < len(as) {
						nk.perm, nk.n = permOf(as[k.n-1])
					}
					if !strings.Contains(nk.desc, " in ") {
						nk.desc = k.desc + " in " + short(f.String())
					}
					t.effect(nk, sl)
				}
			}
		}
		t.result(x, ls)
		return
	}
	switch {
	case strings.HasPrefix(name, "fmt.Print") || apiPkg(name, "github.com/spf13/cobra") && strings.Contains(last, "Print"):
		t.sink("print", x, name, union, 0, 0)
		return
	case strings.HasPrefix(name, "fmt.Fprint"):
		var l lab
		for _, a := range args[1:] {
			l |= t.lab(a)
		}
		if t.memWriter(args[0]) {
			t.obj(args[0], rendered(l), 0)
		} else {
			t.sink("print", x, name, l, 0, 0)
		}
		return
	case strings.HasPrefix(name, "fmt.Sprint"):
		t.result(x, all(rendered(union&^lJSON)))
		return
	case last == "WriteFile" && (strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "io/ioutil.")):
		perm, pp := permOf(args[2])
		t.sink("write", x, name, rendered(t.lab(args[1])), perm, pp)
		return
	case strings.HasPrefix(name, "(*os.File).Write"):
		perm := filePerm(args[0], 0)
		t.sink("write", x, name, rendered(t.lab(args[1])), perm, 0)
		return
	case name == "(*encoding/json.Encoder).Encode" || last == "WriteJSON":
		t.sink("json", x, name, t.lab(args[1]), 0, 0)
		return
	case strings.HasPrefix(name, "encoding/json.Marshal"):
		t.result(x, all(rendered(union&^lPrint)))
		return
	case name == "os.Setenv" || strings.HasPrefix(name, "os/exec.") || strings.HasPrefix(name, "net/http.Post") || strings.HasPrefix(name, "net/http.NewRequest") || last == "WriteMessage" || last == "WriteControl" || strings.HasPrefix(name, "(net.Conn).Write") || strings.HasPrefix(name, "(net/http.ResponseWriter).Write"):
		t.sink("out", x, name, union, 0, 0)
		return
	case name == "io.WriteString" || name == "(io.Writer).Write" || name == "io.Copy":
		if t.memWriter(args[0]) {
			t.obj(args[0], union, 0)
		} else {
			t.sink("out", x, name, t.lab(args[1]), 0, 0)
		}
		return
	case strings.HasSuffix(name, "ReadFile") && (strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "io/ioutil.")):
		t.result(x, []lab{contentOf(union), 0})
		return
	case apiPkg(name, "github.com/spf13/viper"):
		if last == "Debug" {
			t.sink("print", x, name, lSecret, 0, 0)
		}
		if last == "AllSettings" {
			t.result(x, []lab{lSecret})
		}
		if strings.HasPrefix(last, "Get") && len(args) > 1 {
			if k, ok := args[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.HasSuffix(constant.StringVal(k.Value), "key_password") {
				t.result(x, all(lSecret))
			}
		}
		return
	case strings.HasSuffix(name, "secp256k1.ECDH"):
		t.result(x, all(lSecret))
		return
	case strings.HasSuffix(name, "crypto.FromECDSA"):
		t.result(x, all(lSecret))
		return
	case strings.HasSuffix(name, "Unmarshal") && len(args) == 2:
		t.obj(args[1], t.lab(args[0]), 0)
		return
	case strings.HasPrefix(name, "io.Read") && len(args) >= 2:
		t.obj(args[1], t.lab(args[0]), 0)
		return
	}
	for _, p := range []string{"golang.org/x/crypto/sha3", "hash", "crypto/sha256", "crypto/sha512", "crypto/hmac", "crypto/aes", "crypto/cipher", "crypto/ecdsa", "crypto/rand", "github.com/ethereum/go-ethereum/crypto", "github.com/ethereum/go-ethereum/accounts", "github.com/ethereum/go-ethereum/core", "github.com/ethereum/go-ethereum/ethclient", "github.com/haltingstate/secp256k1-go", "sync", "time", "context", "os", "path/filepath", "path", "net/url", "github.com/spf13/cobra", "github.com/spf13/pflag"} {
		if apiPkg(name, p) {
			return
		}
	}
	if name == "" {
		return
	}
	if union == 0 && typed == 0 {
		return
	}
	t.result(x, all(typed))
	if len(args) > 1 && cc.Signature().Recv() != nil || cc.IsInvoke() && len(args) > 1 {
		if _, ok := args[0].Type().Underlying().(*types.Pointer); ok {
			var l lab
			for _, a := range args[1:] {
				l |= t.lab(a)
			}
			t.obj(args[0], l, 0)
		}
	}
	if (last == "Encode" || last == "Decode") && len(args) >= 2 {
		t.obj(args[len(args)-2], t.lab(args[len(args)-1]), 0)
	}
}

// permOf: the permission given, or (0, 1+index) of the parameter that gives it; -1 when unknown.
func permOf(v ssa.Value) (int64, int) {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Const:
			if i, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
				return i, 0
			}
		case *ssa.Parameter:
			for i, p := range x.Parent().Params {
				if p == x {
					return 0, i + 1
				}
			}
		case *ssa.BinOp:
			if x.Op == token.OR {
				a, ai := permOf(x.X)
				b, bi := permOf(x.Y)
				if ai == 0 && a > 0 && a&077 != 0 {
					return a, 0
				}
				if bi == 0 && b > 0 && b&077 != 0 {
					return b, 0
				}
			}
		}
		return -1, 0
	}
}

func filePerm(v ssa.Value, d int) int64 {
	if d > 4 {
		return -1
	}
	switch x := v.(type) {
	case *ssa.Extract:
		return filePerm(x.Tuple, d+1)
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "os.Create":
			return 0666
		case "os.OpenFile":
			p, k := permOf(x.Common().Args[2])
			if k == 0 {
				return p
			}
		}
	}
	return -1
}

func sortEff(m map[effKey]lab) []effKey {
	var ks []effKey
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	return ks
}

// secretPaths: the dotted fields of the struct that hold a password.
func (t *taint) secretPaths(x types.Type, pre string, d int) (o []string) {
	st, nm := structOf(x)
	if st == nil || d > 4 {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		n := pre + st.Field(i).Name()
		if (t.fld[fldKey{nm, i}]|fieldSource(nm, st, i))&lSecret != 0 {
			o = append(o, n)
			continue
		}
		if _, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
			o = append(o, t.secretPaths(st.Field(i).Type(), n+".", d+1)...)
		}
	}
	return o
}

// cleared: at the conversion, every password of the value has been emptied.
func (t *taint) cleared(mi *ssa.MakeInterface) bool {
	x := mi.X.Type()
	st, nm := structOf(x)
	if st == nil || !strings.HasPrefix(nm, modPath+"/") || nm == modPath+"/common/crypto.PrivateKey" {
		return false
	}
	ps := t.secretPaths(x, "", 0)
	if len(ps) == 0 {
		return false
	}
	fn := mi.Parent()
	if fn.Synthetic != "" {
		return false
	}
	// in the function itself
	good, seen, dirty := true, false, false
	t.c.Sum(fn, SumCfg{Max: 200, Ev: func(s *State, n *Node, args []*Term, res *Term) {
		if n.Op != OpInstr {
			return
		}
		if n.Instr == ssa.Instruction(mi) {
			seen = true
			v := stripBox(res)
			vals := s.fieldVals(v)
			for _, p := range ps {
				if k, ok := vals[p]; ok {
					if c, ok := k.strVal(); ok && c == "" {
						continue
					}
				}
				if s.must["empty "+rootOf(s.fl.path(v))+"."+p] == nil {
					good = false
				}
			}
		}
		if _, ok := n.Instr.(*ssa.Store); ok {
			p := rootOf(s.fl.path(args[0]))
			for _, q := range ps {
				if strings.HasSuffix(p, "."+q) {
					if c, ok := args[1].strVal(); !ok || c != "" {
						dirty = true
						delete(s.must, "empty "+p)
					} else {
						s.addMust("empty "+p, "empty", n)
					}
				}
			}
		}
	}})
	if seen && good {
		return true
	}
	if dirty {
		return false
	}
	// in the command's step before
	for _, g := range t.before(fn) {
		if t.emptiesAll(g, ps) {
			return true
		}
	}
	return false
}

func rootOf(p string) string { return strings.TrimLeft(p, "&*") }

// before: the functions the command runs before fn (and does not run fn if they fail).
func (t *taint) before(fn *ssa.Function) (o []*ssa.Function) {
	order := []string{"PersistentPreRun", "PersistentPreRunE", "PreRun", "PreRunE", "Run", "RunE"}
	rank := func(n string) int {
		for i, k := range order {
			if k == n {
				return i / 2
			}
		}
		return -1
	}
	type slot struct {
		name string
		f    *ssa.Function
	}
	for _, f := range t.c.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var cmds []slot
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st, nm := structOf(fa.X.Type())
				if st == nil || nm != "github.com/spf13/cobra.Command" || rank(st.Field(fa.Field).Name()) < 0 {
					continue
				}
				mine := false
				for _, r := range *fa.X.Referrers() {
					fb, ok := r.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					n := st.Field(fb.Field).Name()
					if rank(n) < 0 {
						continue
					}
					for _, r2 := range *fb.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == fb {
							for _, g := range funcValues(s.Val, 0) {
								cmds = append(cmds, slot{n, g})
								if g == fn && fb == fa {
									mine = true
								}
							}
						}
					}
				}
				if !mine {
					continue
				}
				for _, s := range cmds {
					if rank(s.name) < rank(st.Field(fa.Field).Name()) {
						o = append(o, s.f)
					}
				}
			}
		}
	}
	return o
}

func (t *taint) emptiesAll(g *ssa.Function, ps []string) bool {
	s := t.c.Sum(g, SumCfg{Max: 200, Ev: func(s *State, n *Node, args []*Term, res *Term) {
		if _, ok := n.Instr.(*ssa.Store); !ok || n.Op != OpInstr {
			return
		}
		p := s.fl.path(args[0])
		for _, q := range ps {
			if strings.HasSuffix(p, "."+q) {
				if c, ok := args[1].strVal(); ok && c == "" {
					s.addMust("empty "+q, "empty", n)
				} else {
					delete(s.must, "empty "+q)
				}
			}
		}
	}})
	if len(s.Outs) == 0 {
		return false
	}
	for _, o := range s.Outs {
		if isNil, k := o.errState(); k && !isNil {
			continue
		}
		for _, q := range ps {
			if o.St.must["empty "+q] == nil {
				return false
			}
		}
	}
	return true
}

func checkSecret(c *Ctx) {
	t := &taint{c: c, val: map[ssa.Value]lab{}, why: map[ssa.Value]string{}, fld: map[fldKey]lab{}, sum: map[*ssa.Function]*tsum{}, tup: map[ssa.Value][]lab{},
		binds: map[*ssa.FreeVar][]ssa.Value{}, impl: map[string][]*ssa.Function{}, clear: map[*ssa.MakeInterface]bool{}, boxes: map[*ssa.MakeInterface]bool{}}
	t.run()
	for _, f := range c.P.funcs {
		s := t.sum[f]
		if s == nil || strings.Contains(c.P.posOf(f), "_test.go") {
			continue
		}
		for _, k := range sortEff(s.eff) {
			l := s.eff[k]
			bad := lab(0)
			rule := "leak"
			switch k.kind {
			case "field", "obj":
				continue
			case "print":
				bad = lSecret | lPrint
			case "json":
				bad = lSecret | lJSON
			default:
				bad = lSecret | lPrint | lJSON
			}
			c.Ob(rule, fmt.Sprintf("%s at %s in %s", k.desc, k.pos, short(f.String())), l&bad == 0, k.pos, "a password or private key (or what was made from it) goes out in the clear: "+k.desc)
			if k.kind == "write" && l&lStore != 0 && l&lKinds != 0 && k.n == 0 {
				c.Ob("mode", fmt.Sprintf("%s at %s", k.desc, k.pos), k.perm < 0 || k.perm&077 == 0, k.pos, fmt.Sprintf("a key store is written to a file others may read (mode %04o)", k.perm))
			}
		}
	}
	for mi, ok := range t.clear {
		if ok {
			c.Ob("emptied", fmt.Sprintf("%s in %s", bearName(mi.X.Type()), short(mi.Parent().String())), true, c.P.posStr(mi.Pos()), "")
		}
	}
	wi := c.P.Iface("common/wallet", "Wallet")
	if wi == nil {
		c.Missing("wallet", "wallet.Wallet")
		return
	}
	for _, f := range c.P.funcs {
		r := f.Signature.Recv()
		if r == nil || f.Synthetic != "" || !types.Implements(r.Type(), wi) || !f.Object().Exported() || f.Name() == "ECDH" {
			continue
		}
		c.sawFn(f)
		var l lab
		for _, x := range t.of(f).ret {
			l |= x
		}
		c.Ob("wallet", short(f.String()), l&(lSecret|lPrint|lJSON) == 0, c.P.posOf(f), "hands out the private key")
	}
	for _, f := range c.P.funcs {
		if t.sum[f] != nil {
			c.sawFn(f)
		}
	}
	c.Need("leak", 50)
	c.Need("wallet", 4)
}
