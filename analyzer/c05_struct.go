package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "Structured values are written and read back element by element",
		"operation traces (loops folded) of the structured encoder and decoder per kind of value, element kind, key kind and nil state, compared with the sequence of reader, writer and reflect operations that kind requires",
		checkStruct)
}

type stCheck struct {
	c   *Ctx
	enc *ssa.Function // encodes one reflect.Value
	dec *ssa.Function // decodes into one reflect.Value (a pointer)
	fin map[*ssa.Function]bool
	rec map[*ssa.Function]bool
}

var reflectPure = map[string]bool{}

func init() {
	for _, m := range []string{"Len", "Elem", "Index", "Field", "NumField", "CanInterface", "CanSet", "IsNil", "IsValid", "Addr", "Cap", "MapIndex", "Interface", "String", "Int", "Uint", "Bytes", "Slice", "IsZero"} {
		reflectPure["(reflect.Value)."+m] = true
	}
	reflectPure["reflect.ValueOf"] = true
	reflectPure["reflect.Zero"] = true
	reflectPure["reflect.Indirect"] = true
}

func isReflectValue(t types.Type) bool { return types.TypeString(t, nil) == "reflect.Value" }

// rx: the text of a value, in terms of the parameters, with reflect's accessors abbreviated.
func (k *stCheck) rx(st *State, t *Term) string {
	if t == nil {
		return "_"
	}
	switch t.K {
	case TIface, TDeref:
		return k.rx(st, t.Args[0])
	case TSym:
		if t.N.Op == OpPhi {
			return fmt.Sprintf("φ%d", t.N.ID)
		}
	case TPure, TCall:
		nm := t.Op
		if t.K == TCall && nm == "" {
			nm = t.N.Callee
		}
		nm = short(nm)
		if nm == "copy" || nm == "next" || nm == "range" {
			return st.fl.path(t)
		}
		for _, p := range []string{"(reflect.Value).", "(reflect.Type).", "reflect.", "(common/codec.Writer).", "(common/codec.Reader)."} {
			nm = strings.TrimPrefix(nm, p)
		}
		if nm == "Elem" && t.Args[0].K == TPure && t.Args[0].Op == "(reflect.Value).Addr" {
			return k.rx(st, t.Args[0].Args[0])
		}
		var as []string
		for _, a := range t.Args {
			if a.K == TSlice || a.T != nil && types.TypeString(a.T, nil) == "[]reflect.Value" { // variadic
				if es, ok := st.elems(a); ok {
					for _, e := range es {
						as = append(as, k.rx(st, e))
					}
					continue
				}
			}
			as = append(as, k.rx(st, a))
		}
		return nm + "(" + strings.Join(as, ",") + ")"
	case TExtract:
		return k.rx(st, t.Args[0]) + fmt.Sprintf("#%d", t.I)
	case TBin:
		return "(" + k.rx(st, t.Args[0]) + t.Op + k.rx(st, t.Args[1]) + ")"
	case TLen:
		return "len(" + k.rx(st, t.Args[0]) + ")"
	case TLoad:
		if a := t.Args[0]; a.K == TIndexAddr {
			return k.rx(st, a.Args[0]) + "[" + k.rx(st, a.Args[1]) + "]"
		}
	case TMake:
		if t.N != nil {
			return fmt.Sprintf("make%d(%s)", t.N.ID, k.rx(st, t.Args[0]))
		}
	}
	return strings.ReplaceAll(st.fl.path(t), "mem[&p0.real]", "p0.real")
}

// writerOf: the writer an encoder writes to, and whether it has no unfinished child.
func (k *stCheck) coderText(st *State, e *Term) string {
	if e.K == TIface {
		e = e.Args[0]
	}
	p := st.fl.path(e)
	real, child := p+".real", "+?"
	fv := st.fieldVals(e)
	if v := fv["real"]; v != nil {
		real = k.rx(st, v)
	}
	if v := fv["child"]; v != nil {
		if nl, kn := nilState(st, v); kn && nl {
			child = ""
		} else {
			child = "+" + k.rx(st, v)
		}
	} else if p == "p0" {
		child = "" // as it was on entry
	}
	return real + child
}

func (k *stCheck) encTok(st *State, n *Node, args []*Term, res *Term) string {
	if !n.isCall() {
		return k.storeTok(st, args)
	}
	nm := short(n.Callee)
	rest := func(i int) string {
		var o []string
		for _, a := range args[i:] {
			o = append(o, k.rx(st, a))
		}
		return strings.Join(o, ",")
	}
	switch {
	case strings.HasPrefix(nm, "(common/codec.Writer)."):
		return strings.TrimPrefix(nm, "(common/codec.Writer).") + "[" + k.rx(st, args[0]) + "](" + rest(1) + ")"
	case anyOf(nm, "(common/codec.Encoder).EncodeMulti", "(*common/codec.encoderImpl).EncodeMulti", "(common/codec.Encoder).Encode", "(*common/codec.encoderImpl).Encode"):
		return nm[strings.LastIndex(nm, ".")+1:] + "[" + strings.SplitN(k.coderText(st, args[0]), "+", 2)[0] + "](" + rest(1) + ")"
	case n.Fn == k.enc:
		return "enc[" + k.coderText(st, args[0]) + "](" + k.rx(st, args[1]) + ")"
	case nm == "(common/codec.EncodeSelfer).RLPEncodeSelf":
		return "self[" + k.coderText(st, args[1]) + "](" + k.rx(st, args[0]) + ")"
	case nm == "(encoding.BinaryMarshaler).MarshalBinary", nm == "(common/codec.Marshaler).MarshalRLP":
		return nm[strings.LastIndex(nm, ".")+1:] + "(" + k.rx(st, args[0]) + ")"
	case strings.HasPrefix(nm, "sort."):
		return "sort(" + k.rx(st, args[0]) + "," + k.less(n, args) + ")"
	case nm == "reflect.Copy":
		return "copy(" + rest(0) + ")"
	case n.Fn != nil && n.Fn.Pkg != nil && short(n.Fn.Pkg.Pkg.Path()) == codecPkg:
		var o []string
		for _, a := range args {
			if a.T != nil && strings.HasSuffix(types.TypeString(a.T, nil), "coderImpl") {
				o = append(o, "["+k.coderText(st, a)+"]")
			} else {
				o = append(o, k.rx(st, a))
			}
		}
		return "call:" + nm + "(" + strings.Join(o, ",") + ")"
	}
	return ""
}

func (k *stCheck) kindIs(st *State, v *Term, K int64, is bool) {
	k.kindFact(st, "(reflect.Value).Kind", v, K, is)
}

func (k *stCheck) kindIsT(st *State, t *Term, K int64, is bool) {
	k.kindFact(st, "(reflect.Type).Kind", t, K, is)
}

func (k *stCheck) kindFact(st *State, op string, v *Term, K int64, is bool) {
	ts := st.fl.ts
	kt := ts.mk(Term{K: TPure, Op: op, Args: []*Term{v}, T: k.kindType()})
	kc := ts.mk(Term{K: TConst, C: ts.intC(K).C, T: k.kindType()})
	st.assume(ts.bin(token.EQL, kc, kt, types.Typ[types.Bool]), is)
}

func (k *stCheck) kindType() types.Type { return k.reflType("Kind") }

func (k *stCheck) reflType(name string) types.Type {
	for _, p := range k.c.P.SSA.AllPackages() {
		if p.Pkg.Path() == "reflect" {
			return p.Pkg.Scope().Lookup(name).Type()
		}
	}
	return nil
}

func (k *stCheck) fieldAddr(st *State, base *Term, name string) *Term {
	et := elemOf(base.T)
	if et == nil {
		return nil
	}
	s, ok := et.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return st.fl.ts.mk(Term{K: TFieldAddr, I: i, Args: []*Term{base}, T: types.NewPointer(s.Field(i).Type())})
		}
	}
	return nil
}

func (k *stCheck) decTok(st *State, n *Node, args []*Term, res *Term) string {
	if !n.isCall() {
		return k.storeTok(st, args)
	}
	nm := short(n.Callee)
	rest := func(i int) string {
		var o []string
		for _, a := range args[i:] {
			o = append(o, k.rx(st, a))
		}
		return strings.Join(o, ",")
	}
	switch {
	case strings.HasPrefix(nm, "(common/codec.Reader)."):
		return strings.TrimPrefix(nm, "(common/codec.Reader).") + "[" + k.rx(st, args[0]) + "](" + rest(1) + ")"
	case n.Fn == k.dec:
		return "dec[" + k.coderText(st, args[0]) + "](" + k.rx(st, args[1]) + ")"
	case nm == "(common/codec.DecodeSelfer).RLPDecodeSelf":
		return "self[" + k.coderText(st, args[1]) + "](" + k.rx(st, args[0]) + ")"
	case nm == "(encoding.BinaryUnmarshaler).UnmarshalBinary", nm == "(common/codec.Unmarshaler).UnmarshalRLP":
		return nm[strings.LastIndex(nm, ".")+1:] + "(" + k.rx(st, args[0]) + "," + k.rx(st, args[1]) + ")"
	case nm == "reflect.Copy":
		return "copy(" + rest(0) + ")"
	case strings.HasPrefix(nm, "(reflect.Value).Set"), nm == "(reflect.Value).Grow":
		return strings.TrimPrefix(nm, "(reflect.Value).") + "(" + rest(0) + ")"
	case n.Fn != nil && n.Fn.Pkg != nil && short(n.Fn.Pkg.Pkg.Path()) == codecPkg:
		var o []string
		for _, a := range args {
			if a.T != nil && strings.HasSuffix(types.TypeString(a.T, nil), "coderImpl") {
				o = append(o, "["+k.coderText(st, a)+"]")
			} else {
				o = append(o, k.rx(st, a))
			}
		}
		return "call:" + nm + "(" + strings.Join(o, ",") + ")"
	}
	return ""
}

func (k *stCheck) reflTerm(ts *terms, m string, v *Term, t types.Type) *Term {
	return ts.mk(Term{K: TPure, Op: m, Args: []*Term{v}, T: t})
}

// less: the text of the comparison given to sort.Slice, with the sorted slice called "_".
func (k *stCheck) less(sortCall *Node, args []*Term) string {
	if len(args) < 2 {
		return "?"
	}
	t := args[1]
	for t.K == TIface {
		t = t.Args[0]
	}
	if t.K != TClosure || t.N == nil {
		return "?"
	}
	mc, ok := t.N.Instr.(*ssa.MakeClosure)
	if !ok {
		return "?"
	}
	fn, ok := mc.Fn.(*ssa.Function)
	if !ok {
		return "?"
	}
	s := k.c.Sum(fn, SumCfg{Cfg: func(fc *FlowCfg) { fc.PureExtra = reflectPure }})
	if len(s.Outs) != 1 || len(s.Outs[0].Rets) != 1 {
		return "?"
	}
	x := k.rx(s.Outs[0].St, s.Outs[0].Rets[0])
	// the comparison looks at the very slice that is sorted
	ci, ok := sortCall.Instr.(ssa.CallInstruction)
	if !ok || len(mc.Bindings) != 1 {
		return "?" + x
	}
	mi, ok := ci.Common().Args[0].(*ssa.MakeInterface)
	if !ok {
		return "?" + x
	}
	sorted := mi.X
	if u, ok := sorted.(*ssa.UnOp); ok {
		sorted = u.X
	}
	if mc.Bindings[0] != sorted && mc.Bindings[0] != mi.X {
		return "?" + x
	}
	for _, f := range fn.FreeVars {
		x = strings.ReplaceAll(x, "cell(free:"+f.Name()+")", "_")
		x = strings.ReplaceAll(x, "*free:"+f.Name(), "_")
		x = strings.ReplaceAll(x, "free:"+f.Name(), "_")
	}
	return x
}

// ---- configuration of a run ----

type stIn struct {
	kind   int64 // kind of the value (encoder) or of what the pointer points to (decoder); -1: not assumed
	elem   int64 // element kind: 8 = bytes, -8 = not bytes, 0 = not assumed
	key    int64 // key kind; 0 = not assumed
	nil_   int   // 1: nil, -1: not nil, 0: not assumed
	addr   int   // 1: addressable, -1: not
	ptr    int64 // decoder: kind of the argument itself (22 unless told otherwise)
	direct bool  // the value itself is the argument
	chld   int   // 1: an unfinished list is open, -1: none, 0: not assumed
}

func (k *stCheck) trace(fn *ssa.Function, enc bool, in stIn, opq map[*ssa.Function]bool) *Trace {
	self := k.enc
	tok := k.encTok
	if !enc {
		self, tok = k.dec, k.decTok
	}
	return k.c.Trace(fn, TraceCfg{
		Tok:  tok,
		Pure: reflectPure,
		Errs: map[string]string{"io.EOF": "EOF", "common/codec.ErrNilValue": "Nil"},
		NoKill: func(n string) bool {
			return strings.HasPrefix(n, "(reflect.") || strings.HasPrefix(n, "reflect.") || strings.HasPrefix(n, "sort.") || n == self.String() || strings.Contains(n, codecPkg+".") && !strings.Contains(n, "Selfer)") && !strings.Contains(n, "arshaler)")
		},
		Opaque: func(f *ssa.Function) bool {
			return f == self && fn != self || opq[f] || defaultOpaque(f)
		},
		Init: func(st *State) {
			ts := st.fl.ts
			tru := func(t *Term, v bool) { st.assume(t, v) }
			for i, p := range st.fl.g.Params {
				pv := st.val(p)
				if i == 0 {
					if in.chld != 0 {
						if fa := k.fieldAddr(st, pv, "child"); fa != nil {
							v := st.load(fa, nil, elemOf(fa.T))
							tru(ts.bin(token.EQL, v, ts.nilC(v.T), types.Typ[types.Bool]), in.chld < 0)
						}
					}
					continue
				}
				if !isReflectValue(p.Typ) {
					continue
				}
				v := pv
				if !enc && !in.direct {
					k.kindIs(st, v, in.ptr, true)
					v = k.reflTerm(ts, "(reflect.Value).Elem", v, v.T)
				}
				if in.kind >= 0 {
					k.kindIs(st, v, in.kind, true)
					tru(k.reflTerm(ts, "(reflect.Value).IsValid", v, types.Typ[types.Bool]), in.kind != 0)
				}
				ty := k.reflTerm(ts, "(reflect.Value).Type", v, k.reflType("Type"))
				if in.elem != 0 {
					w := in.elem
					if w < 0 {
						w = -w
					}
					k.kindIsT(st, k.reflTerm(ts, "(reflect.Type).Elem", ty, k.reflType("Type")), w, in.elem > 0)
				}
				if in.key != 0 {
					k.kindIsT(st, k.reflTerm(ts, "(reflect.Type).Key", ty, k.reflType("Type")), in.key, true)
				}
				if in.nil_ != 0 {
					tru(k.reflTerm(ts, "(reflect.Value).IsNil", v, types.Typ[types.Bool]), in.nil_ > 0)
				}
				if in.addr != 0 {
					tru(k.reflTerm(ts, "(reflect.Value).CanAddr", v, types.Typ[types.Bool]), in.addr > 0)
				}
			}
		},
	})
}

// ---- reading traces ----

var (
	reLoop  = regexp.MustCompile(`\{L(\d+)\{`)
	rePhiO  = regexp.MustCompile(`\((-?\d+)\+φ(\d+)\)`)
	rePhi   = regexp.MustCompile(`φ(\d+)`)
	reCall1 = regexp.MustCompile(`call:([^;]*?)\(\[([^\]]*)\]\);`)
	reCall2 = regexp.MustCompile(`call:([^;]*?)\(\[([^\]]*)\],([^;]*)\);`)
)

// phiStart: the first value of a loop variable that grows by one.
func (t *Trace) phiStart(id int) (int64, bool) {
	for _, n := range t.s.g.Nodes {
		if n.ID == id && n.Op == OpPhi {
			first, step, ok := t.s.fl.induction(t.s.fl.sym(n))
			if !ok || step != 1 {
				return 0, false
			}
			return first.intVal()
		}
	}
	return 0, false
}

// norm writes loop variables as "i" (the number of the iteration, from 0) plus an offset.
func (t *Trace) norm(x string) string {
	val := func(id string, off int64, all string) string {
		n, _ := strconv.Atoi(id)
		f, ok := t.phiStart(n)
		if !ok {
			return all
		}
		if f+off == 0 {
			return "i"
		}
		return fmt.Sprintf("i%+d", f+off)
	}
	x = rePhiO.ReplaceAllStringFunc(x, func(m string) string {
		g := rePhiO.FindStringSubmatch(m)
		o, _ := strconv.ParseInt(g[1], 10, 64)
		return val(g[2], o, m)
	})
	x = rePhi.ReplaceAllStringFunc(x, func(m string) string { return val(m[len("φ"):], 0, m) })
	return x
}

// clean normalises a trace and leaves out calls that finish a coder with nothing unfinished; the helper
// functions called are noted, to be checked on their own.
func (k *stCheck) clean(t *Trace, x string) string {
	x = t.norm(x)
	for _, g := range reCall2.FindAllStringSubmatch(x, -1) {
		k.note(k.rec, g[1])
	}
	return reCall1.ReplaceAllStringFunc(x, func(m string) string {
		g := reCall1.FindStringSubmatch(m)
		k.note(k.fin, g[1])
		if strings.Contains(g[2], "+") {
			return m
		}
		return ""
	})
}

func (k *stCheck) note(m map[*ssa.Function]bool, name string) {
	if f := k.c.P.FindFunc(name); f != nil {
		m[f] = true
	} else {
		k.c.Missing("helper", name)
	}
}

// nilChild: the outcome supposes that a reader or writer handed out without error is nil.
func nilChild(st *State) bool {
	for _, f := range st.facts {
		if !f.Val || f.T.K != TBin || f.T.Op != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := f.T.Args[i], f.T.Args[1-i]
			if !b.isNil() || a.K != TExtract || a.I != 0 {
				continue
			}
			nm := short(callName(a.Args[0]))
			if (strings.HasPrefix(nm, "(common/codec.Writer).") || strings.HasPrefix(nm, "(common/codec.Reader).")) && st.succeeded(a.Args[0]) {
				return true
			}
		}
	}
	return false
}

// form: a sequence of operations a successful run may consist of. "{" stands for a loop.
type stForm struct {
	ops   string   // regular expression over the normalised trace
	body  []string // regular expressions: what one iteration may do
	cover string   // what the loop counts up to (when it ends at its head)
	atEnd string   // form of ops in which the loop ended on its own condition (regular expression), needs cover
	body2 func(text string, st *State, tr *Trace) string
}

type stSpec struct {
	name  string
	forms []stForm
	fails bool   // must be refused
	after string // regular expression: operations after which it may be refused
	opens bool
	need  []string // regular expressions: each is found in some successful run or iteration
	rets  func(o TraceOut, tr *Trace) string
	fret  func(o TraceOut, tr *Trace) string // when it fails
}

func full(re string) *regexp.Regexp { return regexp.MustCompile("^(?:" + re + ")$") }

// loopEnds: the state says that the loop with the given head has visited every index below the described length.
func (k *stCheck) loopEnds(t *Trace, st *State, head, length string) bool {
	hid, _ := strconv.Atoi(head)
	for _, f := range st.facts {
		if f.T.K != TBin {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := f.T.Args[i], f.T.Args[1-i]
			if f.T.Op == "<" && (i == 1 || f.Val) || f.T.Op == "==" && !f.Val || f.T.Op != "<" && f.T.Op != "==" {
				continue
			}
			ph, off, ok := phiPlus(a)
			if !ok || ph.N.Blk.ID != hid || k.rx(st, b) != length {
				continue
			}
			if first, step, ok := t.s.fl.induction(ph); ok && step == 1 {
				if v, ok := first.intVal(); ok && v+off == 0 {
					return true
				}
			}
		}
	}
	return false
}

// judge compares every outcome of a trace with what is specified.
func (k *stCheck) judge(rule string, tr *Trace, sp stSpec, custom func(o TraceOut, text string) (bool, string)) {
	c := k.c
	pos := c.P.posOf(tr.s.fn)
	bad := func(p, f string, a ...interface{}) { c.Ob(rule, sp.name, false, p, fmt.Sprintf(f, a...)) }
	if tr.lost || len(tr.Outs) == 0 {
		bad(pos, "its outcomes could not be told apart")
		return
	}
	done := 0
	var seen []string
	for _, b := range tr.Body {
		if !nilChild(b.St) {
			seen = append(seen, k.clean(tr, b.Text))
		}
	}
	for _, o := range tr.Outs {
		if nilChild(o.O.St) {
			continue
		}
		text := k.clean(tr, o.Text)
		if custom != nil {
			if is, why := custom(o, text); is {
				if why != "" {
					bad(o.O.Pos, "%s", why)
				}
				continue
			}
		}
		nl, kn := true, true
		if len(o.O.Rets) > 0 {
			nl, kn = nilState(o.O.St, o.O.Rets[len(o.O.Rets)-1])
		}
		if kn && !nl { // fails
			if sp.fret != nil {
				if w := sp.fret(o, tr); w != "" {
					bad(o.O.Pos, "%s", w)
				}
			}
			if sp.fails {
				done++
				continue
			}
			if o.Ret == "last" || regexp.MustCompile(`!\w*;$`).MatchString(text) {
				continue // because an operation failed
			}
			if sp.after != "" && full(sp.after).MatchString(reLoop.ReplaceAllString(text, "{")) {
				continue
			}
			bad(o.O.Pos, "it is refused although nothing went wrong, after %q", text)
			continue
		}
		if sp.fails {
			bad(o.O.Pos, "it is accepted, as %q", text)
			continue
		}
		if !kn && o.Ret != "last" {
			bad(o.O.Pos, "the outcome does not follow the last operation, after %q", text)
			continue
		}
		heads := reLoop.FindAllStringSubmatch(text, -1)
		shape := reLoop.ReplaceAllString(text, "{")
		why := ""
		ok := false
		for _, f := range sp.forms {
			if !full(f.ops).MatchString(shape) {
				continue
			}
			if f.cover != "" && len(heads) != 1 {
				continue
			}
			if f.cover != "" && (f.atEnd == "" || full(f.atEnd).MatchString(shape)) && !k.loopEnds(tr, o.O.St, heads[0][1], f.cover) {
				why = "not every element up to " + f.cover + " is visited"
				continue
			}
			if len(heads) == 1 {
				if w := k.bodies(tr, heads[0][1], f); w != "" {
					why = w
					continue
				}
			}
			ok = true
			break
		}
		if ok && sp.rets != nil {
			if w := sp.rets(o, tr); w != "" {
				ok, why = false, w
			}
		}
		if !ok {
			if why == "" {
				why = "what is done is " + strconv.Quote(shape)
			}
			bad(o.O.Pos, "%s", why)
			continue
		}
		if w := k.leavesOpen(o.O.St); w != "" && !sp.opens {
			bad(o.O.Pos, "%s", w)
			continue
		}
		done++
		seen = append(seen, text)
	}
	for _, re := range sp.need {
		found := false
		for _, x := range seen {
			found = found || regexp.MustCompile(re).MatchString(x)
		}
		if !found {
			bad(pos, "nothing is done in the way of %q", re)
		}
	}
	if done == 0 {
		bad(pos, "no outcome does what is required")
		return
	}
	c.Ob(rule, sp.name, true, pos, "")
}

func (k *stCheck) bodies(tr *Trace, head string, f stForm) string {
	n := 0
	for _, b := range tr.Body {
		if b.Loop != "L"+head || nilChild(b.St) {
			continue
		}
		n++
		text := reLoop.ReplaceAllString(k.clean(tr, b.Text), "{")
		ok := false
		for _, re := range f.body {
			if full(re).MatchString(text) {
				ok = true
			}
		}
		if !ok {
			return "an iteration may do " + strconv.Quote(text)
		}
		if f.body2 != nil {
			if w := f.body2(text, b.St, tr); w != "" {
				return w
			}
		}
	}
	if n == 0 {
		return "the loop never goes round"
	}
	return ""
}

// valueFunc: the function that handles one reflect.Value: the first self-reaching one on the way from the method.
func (k *stCheck) valueFunc(from *ssa.Function) *ssa.Function {
	calls := func(f *ssa.Function) (o []*ssa.Function) {
		fs := []*ssa.Function{f}
		for i := 0; i < len(fs); i++ {
			fs = append(fs, fs[i].AnonFuncs...)
			for _, b := range fs[i].Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg == from.Pkg {
							o = append(o, g)
						}
					}
				}
			}
		}
		return
	}
	reach := func(a *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		q := calls(a)
		for len(q) > 0 {
			f := q[0]
			q = q[1:]
			if f == a {
				return true
			}
			if !seen[f] {
				seen[f] = true
				q = append(q, calls(f)...)
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	q := []*ssa.Function{from}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		if len(f.Params) == 2 && isReflectValue(f.Params[1].Type()) && f.Signature.Recv() != nil && reach(f) {
			return f
		}
		q = append(q, calls(f)...)
	}
	return nil
}

var kindName = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "pointer", "slice", "string", "struct", "unsafe.Pointer"}

func scalarKind(K int64) bool { return K >= 1 && K <= 11 || K == 24 }

func checkStruct(c *Ctx) {
	k := &stCheck{c: c, fin: map[*ssa.Function]bool{}, rec: map[*ssa.Function]bool{}}
	e := c.P.FindFunc("(*common/codec.encoderImpl).Encode")
	d := c.P.FindFunc("(*common/codec.decoderImpl).Decode")
	if e == nil || d == nil {
		c.Missing("encode", "the encoder or decoder of common/codec")
		return
	}
	k.enc, k.dec = k.valueFunc(e), k.valueFunc(d)
	if k.enc == nil || k.dec == nil {
		c.Missing("encode", "the function that encodes or decodes one value")
		return
	}
	k.encode()
	k.decode()
	k.entries()
	c.Need("encode", 58)
	c.Need("decode", 28)
	c.Need("custom", 6)
	c.Need("entry", 18)
	c.Need("whole", 4)
}

func q(x string) string { return regexp.QuoteMeta(x) }

func (k *stCheck) dbg(what string, tr *Trace) {
	want := os.Getenv("C05DBG")
	if want == "" || !strings.Contains(what, want) {
		return
	}
	fmt.Println("==", what, "lost", tr.lost)
	seen := map[string]bool{}
	pr := func(s string) {
		if !seen[s] {
			seen[s] = true
			fmt.Println(s)
		}
	}
	for _, o := range tr.Outs {
		if !nilChild(o.O.St) {
			pr(fmt.Sprint("  out ", o.Ret, " | ", tr.norm(o.Text)))
		}
	}
	for _, b := range tr.Body {
		pr(fmt.Sprint("  body ", b.Loop, " | ", tr.norm(b.Text)))
	}
}

func (k *stCheck) encode() {
	list := q("WriteList(p0.real)#0")
	mp := q("WriteMap(p0.real)#0")
	run := func(what string, in stIn, sp stSpec) {
		if in.kind >= 0 {
			sp.name = kindName[in.kind] + what
		}
		tr := k.trace(k.enc, true, in, nil)
		k.dbg("encode "+sp.name, tr)
		if K := in.kind; scalarKind(K) || K >= 12 && K <= 17 || K == 25 || K == 0 {
			for _, o := range tr.Outs {
				for _, f := range o.O.St.facts {
					if f.T.K == TPure && f.T.Op == "(reflect.Value).IsNil" && k.rx(o.O.St, f.T.Args[0]) == "p1" {
						k.c.Ob("encode", sp.name, false, o.O.Pos, "a value that cannot be nil is asked whether it is, which panics")
					}
				}
			}
		}
		k.judge("encode", tr, sp, k.encCustom)
	}
	one := func(f ...stForm) stSpec { return stSpec{forms: f} }
	null := stForm{ops: q("WriteNull[p0.real]();")}
	for K := int64(0); K <= 26; K++ {
		switch {
		case scalarKind(K):
			for a := -1; a <= 1; a += 2 {
				run("", stIn{kind: K, addr: a}, one(stForm{ops: q("WriteValue[p0.real](p1);")}))
			}
		case K == 0:
			run("", stIn{kind: K}, one(null))
		case K >= 12 && K <= 16:
			run("", stIn{kind: K}, stSpec{fails: true})
		case K == 18 || K == 19 || K == 26:
			run(" not nil", stIn{kind: K, nil_: -1}, stSpec{fails: true})
		case K == 23:
			run(" nil", stIn{kind: K, nil_: 1}, one(null))
		case K == 22 || K == 20:
			run(" nil", stIn{kind: K, nil_: 1}, one(null))
			run(" not nil", stIn{kind: K, nil_: -1}, one(stForm{ops: q("enc[p0.real](Elem(p1));")}))
		case K == 25:
			run("", stIn{kind: K}, one(k.fields(true, q("WriteList[p0.real]();"), list, "p1", q("Close[")+list+q("]();"))))
		case K == 21:
			run(" nil", stIn{kind: K, nil_: 1}, one(null))
			for kk := int64(1); kk <= 26; kk++ {
				x := ""
				switch {
				case kk == 24:
					x = "String"
				case kk >= 2 && kk <= 6:
					x = "Int"
				case kk >= 7 && kk <= 11:
					x = "Uint"
				}
				what := " keyed by " + kindName[kk]
				if x == "" {
					run(what, stIn{kind: K, nil_: -1, key: kk, addr: -1}, stSpec{fails: true})
					continue
				}
				srt := q(fmt.Sprintf("sort(MapKeys(p1),(%s(_[p0])<%s(_[p1])));", x, x))
				op := q("WriteMap[p0.real]();")
				key := q("MapKeys(p1)[i]")
				run(what, stIn{kind: K, nil_: -1, key: kk, addr: -1}, one(stForm{
					ops:   "(" + op + srt + "|" + srt + op + ")\\{" + q("Close[") + mp + q("]();"),
					cover: "len(MapKeys(p1))",
					body:  []string{q("enc[") + mp + "\\]\\(" + key + q(");enc[") + mp + q("](MapIndex(p1,") + key + q("));")},
				}))
			}
		}
		if K == 17 || K == 23 {
			nn := -1
			if K == 17 {
				nn = 0
			}
			for a := -1; a <= 1; a += 2 {
				fs := []stForm{{ops: "copy\\(ValueOf\\((make\\d+\\(Len\\(p1\\)\\))\\),p1\\);WriteBytes\\[p0.real\\]\\(make\\d+\\(Len\\(p1\\)\\)\\);"}}
				if K == 23 || a == 1 {
					fs = append(fs, stForm{ops: q("WriteBytes[p0.real](Bytes(p1));")})
				}
				if a == 1 {
					fs = append(fs, stForm{ops: q("WriteBytes[p0.real](Bytes(Slice(p1,0,Len(p1))));")})
				}
				run(" of bytes", stIn{kind: K, nil_: nn, addr: a, elem: 8}, one(fs...))
				run(" of other elements", stIn{kind: K, nil_: nn, addr: a, elem: -8}, one(stForm{
					ops:   q("WriteList[p0.real]();") + "\\{" + q("Close[") + list + q("]();"),
					cover: "Len(p1)",
					body:  []string{q("enc[") + list + q("](Index(p1,i));")},
				}))
			}
		}
	}
	k.helpers(true)
}

// fieldBody: fields that can be accessed are handled by themselves, the others by going into them.
func (k *stCheck) fieldBody(can string) func(string, *State, *Trace) string {
	return func(text string, st *State, tr *Trace) string {
		val, known := false, false
		for _, f := range st.facts {
			if f.T.K == TPure && f.T.Op == "(reflect.Value)."+can && strings.HasPrefix(tr.norm(k.rx(st, f.T.Args[0])), "Field(") {
				val, known = f.Val, true
			}
		}
		if !known {
			return "a field is handled without looking whether it is exported"
		}
		if val == strings.HasPrefix(text, "call:") {
			return "exported and unexported fields are taken for each other"
		}
		return ""
	}
}

// leavesOpen: the coder is left with a list that was opened here and not finished.
func (k *stCheck) leavesOpen(st *State) string {
	if len(st.fl.g.Params) == 0 {
		return ""
	}
	p := st.val(st.fl.g.Params[0])
	fa := k.fieldAddr(st, p, "child")
	if fa == nil {
		return ""
	}
	v := st.lookup(fa)
	if v == nil || v.K == TLoad && v.Args[0] == fa {
		return ""
	}
	if nl, kn := nilState(st, v); kn && nl {
		return ""
	}
	return "a list is left unfinished"
}

// ifaces: the interfaces the value is known not to implement.
func (k *stCheck) ifaces(st *State, of string) map[string]bool {
	out := map[string]bool{}
	for _, f := range st.facts {
		if f.Val || f.T.K != TPure {
			continue
		}
		if strings.HasPrefix(f.T.Op, "is:") && k.rx(st, f.T.Args[0]) == "Interface("+of+")" {
			out[short(f.T.Op[3:])] = true
		}
		if f.T.Op == "(reflect.Type).Implements" && k.rx(st, f.T.Args[0]) == "Type("+of+")" && f.T.Args[1].K == TGVar {
			out[k.c.P.typeGlobal(f.T.Args[1].Op)] = true
		}
	}
	return out
}

// typeGlobal: the interface type a package variable holds the reflect.Type of.
func (p *Program) typeGlobal(name string) string {
	for _, fn := range p.funcs {
		if fn.Name() != "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.String() != name {
					continue
				}
				el, ok := st.Val.(*ssa.Call)
				if !ok || !el.Call.IsInvoke() || el.Call.Method.Name() != "Elem" {
					return "?"
				}
				to, ok := el.Call.Value.(*ssa.Call)
				if !ok || to.Call.StaticCallee() == nil || to.Call.StaticCallee().String() != "reflect.TypeOf" {
					return "?"
				}
				mi, ok := to.Call.Args[0].(*ssa.MakeInterface)
				if !ok {
					return "?"
				}
				if e := elemOf(mi.X.Type()); e != nil {
					return short(types.TypeString(e, nil))
				}
			}
		}
	}
	return "?"
}

const (
	encSelfer = "common/codec.EncodeSelfer"
	encBinary = "encoding.BinaryMarshaler"
	encRaw    = "common/codec.Marshaler"
	decSelfer = "common/codec.DecodeSelfer"
	decBinary = "encoding.BinaryUnmarshaler"
	decRaw    = "common/codec.Unmarshaler"
)

func anyOf(x string, ys ...string) bool {
	for _, y := range ys {
		if x == y {
			return true
		}
	}
	return false
}

// encCustom: values that encode themselves.
func (k *stCheck) encCustom(o TraceOut, text string) (bool, string) {
	st := o.O.St
	not := k.ifaces(st, "Addr(p1)")
	failed := false
	if nl, kn := nilState(st, o.O.Rets[len(o.O.Rets)-1]); kn && !nl {
		failed = true
	}
	as := func(x string) string { return "assert:" + x + "(Interface(Addr(p1)))" }
	switch {
	case strings.HasPrefix(text, "self["):
		s := "self[p0.real](" + as(encSelfer) + ");"
		k.c.Ob("custom", "encoding by itself", true, o.O.Pos, "")
		if failed && (o.Ret == "last" || strings.HasSuffix(text, "!;")) {
			return true, ""
		}
		// afterwards whatever it left open is finished
		if text == s && o.Ret == "ok" {
			if k.childNil(st) {
				return true, ""
			}
			return true, "a value that encodes itself may leave a list unfinished"
		}
		g := reCall1.FindStringSubmatch(text)
		if g != nil && strings.Replace(text, g[0], "", 1) == s+"Close[p0.child.real]();" && strings.HasPrefix(g[2], "p0.child.real") && (o.Ret == "last" || o.Ret == "ok" && k.leavesOpen(st) == "") {
			return true, ""
		}
		return true, "a value that encodes itself is handled as " + strconv.Quote(text)
	case strings.HasPrefix(text, "MarshalBinary("):
		k.c.Ob("custom", "encoding as bytes", true, o.O.Pos, "")
		if !not[encSelfer] {
			return true, "a value that encodes itself is asked for its bytes"
		}
		s := "MarshalBinary(" + as(encBinary) + ")"
		if failed && (o.Ret == "last" || strings.HasSuffix(text, "!;")) || text == s+";WriteBytes[p0.real](("+encBinary+")."+s+"#0);" && (o.Ret == "last" || o.Ret == "ok") {
			return true, ""
		}
		return true, "a value that gives its bytes is handled as " + strconv.Quote(text)
	case strings.HasPrefix(text, "MarshalRLP("):
		k.c.Ob("custom", "encoding as raw data", true, o.O.Pos, "")
		if !not[encSelfer] || !not[encBinary] {
			return true, "a value that encodes itself is asked for its encoding"
		}
		s := "MarshalRLP(" + as(encRaw) + ")"
		if failed && (o.Ret == "last" || strings.HasSuffix(text, "!;")) || text == s+";WriteRaw[p0.real](("+encRaw+")."+s+"#0);" && (o.Ret == "last" || o.Ret == "ok") {
			return true, ""
		}
		return true, "a value that gives its encoding is handled as " + strconv.Quote(text)
	}
	// not by itself
	for _, f := range st.facts {
		if f.T.K == TPure && f.T.Op == "(reflect.Value).CanAddr" && f.Val && k.rx(st, f.T.Args[0]) == "p1" && !(not[encSelfer] && not[encBinary] && not[encRaw]) {
			return true, "a value that can encode itself may be encoded by its kind"
		}
	}
	return false, ""
}

// helpers: the functions the traces rely on.
func (k *stCheck) helpers(enc bool) {
	for _, f := range sortedFns(k.fin) {
		name := short(f.String())
		tr := k.trace(f, enc, stIn{kind: -1, chld: -1}, nil)
		k.dbg("helper "+name, tr)
		k.judge("helper", tr, stSpec{name: name + " with nothing unfinished", forms: []stForm{{ops: ""}}}, nil)
		tr = k.trace(f, enc, stIn{kind: -1, chld: 1}, nil)
		k.dbg("helper "+name, tr)
		k.judge("helper", tr, stSpec{name: name + " with a list unfinished", forms: []stForm{{ops: q("call:" + name + "([p0.child.real+?]);Close[p0.child.real]();")}}}, nil)
	}
	for _, f := range sortedFns(k.rec) {
		name := short(f.String())
		if len(f.Params) != 2 || !isReflectValue(f.Params[1].Type()) {
			k.c.Ob("helper", name, false, k.c.P.posOf(f), "a helper is called again from within itself in a way that is not understood")
			continue
		}
		for K := int64(1); K <= 26; K++ {
			if K != 25 {
				tr := k.traceV(f, enc, K)
				k.judge("helper", tr, stSpec{name: name + " of anything but a struct", forms: []stForm{{ops: ""}}}, nil)
			}
		}
		tr := k.traceV(f, enc, 25)
		k.dbg("helper "+name, tr)
		k.judge("helper", tr, stSpec{name: name + " of a struct", forms: []stForm{k.fields(enc, "", "p0.real", "p1", "")}, need: short_(enc)}, nil)
	}
	k.fin, k.rec = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
}

// short_: a list that ends early leaves the rest as it was, and a null element is the zero value.
func short_(enc bool) []string {
	if enc {
		return nil
	}
	return []string{"~EOF;", "~Nil;Set\\("}
}

// fields: every field of the struct at v, in order.
func (k *stCheck) fields(enc bool, open, coder, v, end string) stForm {
	f := q("Field(" + v + ",i)")
	if enc {
		return stForm{ops: open + "\\{" + end, cover: "NumField(" + v + ")",
			body:  []string{"enc\\[" + coder + "\\]\\(" + f + "\\);", "call:[^;]*\\(\\[" + coder + "\\]," + f + "\\);"},
			body2: k.fieldBody("CanInterface")}
	}
	d := "dec\\[" + coder + "\\]\\(Addr\\(" + f + "\\)\\)"
	return stForm{ops: open + "\\{(" + d + "~EOF;)?" + end, cover: "NumField(" + v + ")", atEnd: open + "\\{" + end,
		body:  []string{d + ";", d + "~Nil;Set\\(" + f + ",Zero\\(Type\\(" + f + "\\)\\)\\);", "call:[^;]*\\(\\[" + coder + "\\]," + f + "\\);"},
		body2: k.fieldBody("CanSet")}
}

func sortedFns(m map[*ssa.Function]bool) (o []*ssa.Function) {
	for f := range m {
		o = append(o, f)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].String() < o[j].String() })
	return
}

// traceV: the trace of a helper whose argument is a value of the kind (not a pointer to one).
func (k *stCheck) traceV(f *ssa.Function, enc bool, K int64) *Trace {
	return k.trace(f, enc, stIn{kind: K, direct: true}, nil)
}

func (k *stCheck) decode() {
	E := q("Elem(p1)")
	R, M := q("ReadList(p0.real)#0"), q("ReadMap(p0.real)#0")
	run := func(what string, in stIn, sp stSpec) {
		sp.name = kindName[in.kind] + what
		in.ptr = 22
		if len(sp.forms) > 0 && (in.kind == 17 && in.elem != 8 || in.kind == 23 && in.elem != 8 || in.kind == 21 || in.kind == 25) {
			sp.need = short_(false)
		}
		tr := k.trace(k.dec, false, in, nil)
		k.dbg("decode "+sp.name, tr)
		k.judge("decode", tr, sp, k.decCustom)
	}
	one := func(f ...stForm) stSpec { return stSpec{forms: f} }
	zero := func(x string) string { return "Set\\(" + x + ",Zero\\(Type\\(" + x + "\\)\\)\\);" }
	for K := int64(1); K <= 26; K++ {
		switch {
		case scalarKind(K):
			run("", stIn{kind: K}, one(stForm{ops: q("ReadValue[p0.real](Elem(p1));")}))
		case K == 17:
			b := q("ValueOf(ReadBytes(p0.real)#0)")
			run(" of bytes", stIn{kind: K, elem: 8}, one(stForm{ops: q("ReadBytes[p0.real]();") + "copy\\((" + E + "|Slice\\(" + E + ",0,Len\\(" + E + "\\)\\))," + b + "\\);"}))
			x := "Index\\(" + E + ",i\\)"
			d := "dec\\[" + R + "\\]\\(Addr\\(" + x + "\\)\\)"
			run(" of other elements", stIn{kind: K, elem: -8}, one(stForm{
				ops:   q("ReadList[p0.real]();") + "\\{(" + d + "~EOF;)?" + q("Close[") + R + q("]();"),
				atEnd: q("ReadList[p0.real]();") + "\\{" + q("Close[") + R + q("]();"),
				cover: "Len(Elem(p1))",
				body:  []string{d + ";", d + "~Nil;" + zero(x)},
			}))
		case K == 23:
			b := q("ReadBytes(p0.real)#0")
			run(" of bytes", stIn{kind: K, elem: 8}, one(stForm{ops: q("ReadBytes[p0.real]()") + "(~Nil)?;SetBytes\\(" + E + "," + b + "\\);"},
				stForm{ops: q("ReadBytes[p0.real]()") + "~Nil;(SetBytes\\(" + E + ",nil\\);|" + zero(E) + ")"}))
			x := "Index\\(" + E + ",i\\)"
			d := "dec\\[" + R + "\\]\\(Addr\\(" + x + "\\)\\)"
			ms := func(n string) string { return "MakeSlice\\(Type\\(" + E + "\\)," + n + ",[^;]*\\)" }
			open := q("ReadList[p0.real]();") + "Set\\(" + E + "," + ms("0") + "\\);\\{"
			nn := "(Len\\(" + E + "\\)|i)"
			grow := "(copy\\(" + ms(nn) + "," + E + "\\);Set\\(" + E + "," + ms(nn) + "\\);|Grow\\(" + E + ",[1-9]\\d*\\);)?"
			set := func(n string) string {
				return "(SetLen\\(" + E + "," + n + "\\);|Set\\(" + E + ",Slice\\(" + E + ",0," + n + "\\)\\);)"
			}
			end := q("Close[") + R + q("]();")
			n := "New\\(Elem\\(Type\\(" + E + "\\)\\)\\)"
			dn := "dec\\[" + R + "\\]\\(" + n + "\\)"
			app := "Set\\(" + E + ",Append\\(" + E + ",Elem\\(" + n + "\\)\\)\\);"
			az := "Set\\(" + E + ",Append\\(" + E + ",Zero\\(Elem\\(Type\\(" + E + "\\)\\)\\)\\)\\);"
			run(" of other elements", stIn{kind: K, elem: -8}, one(
				stForm{ops: q("ReadList[p0.real]()") + "~Nil;" + zero(E)},
				stForm{
					ops:   open + grow + "SetLen\\(" + E + ",i\\+1\\);" + d + "~EOF;(" + set("i") + end + "|" + end + set("i") + ")",
					body:  []string{grow + "SetLen\\(" + E + ",i\\+1\\);" + d + ";", grow + "SetLen\\(" + E + ",i\\+1\\);" + d + "~Nil;" + zero(x)},
					body2: k.roomFor,
				},
				stForm{ops: open + dn + "~EOF;" + end, body: []string{dn + ";" + app, dn + "~Nil;" + zero("Elem\\("+n+"\\)") + app}},
				stForm{ops: open + az + d + "~EOF;" + set("i") + end, body: []string{az + d + ";", az + d + "~Nil;" + zero(x)}},
			))
		case K == 22:
			n := "New\\(Elem\\(Type\\(" + E + "\\)\\)\\)"
			run("", stIn{kind: K}, one(stForm{ops: "dec\\[p0.real\\]\\(" + n + "\\);Set\\(" + E + "," + n + "\\);"}))
		case K == 25:
			run("", stIn{kind: K}, one(k.fields(false, q("ReadList[p0.real]();"), R, "Elem(p1)", q("Close[")+R+q("]();"))))
		case K == 21:
			mk := "MakeMap(WithSize)?\\(Type\\(" + E + "\\)(,[^;]*)?\\)"
			set := "Set\\(" + E + "," + mk + "\\);"
			nk, nv := "New\\(Key\\(Type\\("+E+"\\)\\)\\)", "New\\(Elem\\(Type\\("+E+"\\)\\)\\)"
			dk, dv := "dec\\["+M+"\\]\\("+nk+"\\)", "dec\\["+M+"\\]\\("+nv+"\\)"
			put := "SetMapIndex\\((" + mk + "|" + E + "),Elem\\(" + nk + "\\),Elem\\(" + nv + "\\)\\);"
			open, end := q("ReadMap[p0.real]();"), q("Close[")+M+q("]();")
			body := []string{dk + ";" + dv + ";" + put, dk + ";" + dv + "~Nil;" + zero("Elem\\("+nv+"\\)") + put}
			sp := one(
				stForm{ops: q("ReadMap[p0.real]()") + "~Nil;" + zero(E)},
				stForm{ops: open + "\\{" + dk + "~EOF;(" + set + end + "|" + end + set + ")", body: body},
				stForm{ops: open + set + "\\{" + dk + "~EOF;" + end, body: body},
			)
			sp.after = open + "(" + set + ")?\\{(" + dk + "~Nil;|" + dk + ";" + dv + "~EOF;)"
			run("", stIn{kind: K}, sp)
		default:
			run("", stIn{kind: K}, stSpec{fails: true})
		}
	}
	k.helpers(false)
}

// roomFor: when the slice is not made larger it is known to have room for the next element.
func (k *stCheck) roomFor(text string, st *State, tr *Trace) string {
	if strings.Contains(text, "MakeSlice(") || strings.HasPrefix(text, "Grow(") {
		return ""
	}
	for _, f := range st.facts {
		if f.T.K == TBin && f.T.Op == "<" {
			a, b := tr.norm(k.rx(st, f.T.Args[0])), tr.norm(k.rx(st, f.T.Args[1]))
			if !f.Val && a == "Cap(Elem(p1))" && (b == "i+1" || b == "i+2") || f.Val && a == "i" && b == "Cap(Elem(p1))" || !f.Val && b == "i" && a == "Cap(Elem(p1))" && false {
				return ""
			}
		}
		if f.T.K == TBin && f.T.Op == "==" && !f.Val { // grown whenever it is full
			a, b := tr.norm(k.rx(st, f.T.Args[0])), tr.norm(k.rx(st, f.T.Args[1]))
			if anyOf(a, "i", "Len(Elem(p1))", "Cap(Elem(p1))") && anyOf(b, "i", "Len(Elem(p1))", "Cap(Elem(p1))") {
				return ""
			}
		}
	}
	return "an element may be added without room for it"
}

// decCustom: values that decode themselves.
func (k *stCheck) decCustom(o TraceOut, text string) (bool, string) {
	st := o.O.St
	not := k.ifaces(st, "p1")
	failed := false
	if nl, kn := nilState(st, o.O.Rets[len(o.O.Rets)-1]); kn && !nl {
		failed = true
	}
	is := map[string]bool{}
	for _, f := range st.facts {
		if f.Val && f.T.K == TPure && f.T.Op == "(reflect.Type).Implements" && k.rx(st, f.T.Args[0]) == "Type(p1)" && f.T.Args[1].K == TGVar {
			is[k.c.P.typeGlobal(f.T.Args[1].Op)] = true
		}
		if f.Val && f.T.K == TPure && strings.HasPrefix(f.T.Op, "is:") && k.rx(st, f.T.Args[0]) == "Interface(p1)" {
			is[short(f.T.Op[3:])] = true
		}
	}
	as := func(x string) string { return "assert:" + x + "(Interface(p1))" }
	failedOp := failed && (o.Ret == "last" || strings.HasSuffix(text, "!;"))
	good := o.Ret == "last" || o.Ret == "ok"
	switch {
	case is[decSelfer]:
		k.c.Ob("custom", "decoding by itself", true, o.O.Pos, "")
		s := "self[p0.real](" + as(decSelfer) + ");"
		if failedOp || text == s && o.Ret == "ok" && k.childNil(st) || text == s+"Close[p0.child]();" && good && k.leavesOpen(st) == "" {
			return true, ""
		}
		return true, "a value that decodes itself is handled as " + strconv.Quote(text)
	case not[decSelfer] && is[decBinary]:
		k.c.Ob("custom", "decoding from bytes", true, o.O.Pos, "")
		if failedOp || text == "ReadBytes[p0.real]();UnmarshalBinary("+as(decBinary)+",ReadBytes(p0.real)#0);" && good {
			return true, ""
		}
		return true, "a value that takes bytes is handled as " + strconv.Quote(text)
	case not[decSelfer] && not[decBinary] && is[decRaw]:
		k.c.Ob("custom", "decoding from raw data", true, o.O.Pos, "")
		if failedOp || text == "ReadRaw[p0.real]();UnmarshalRLP("+as(decRaw)+",ReadRaw(p0.real)#0);" && good {
			return true, ""
		}
		return true, "a value that takes its encoding is handled as " + strconv.Quote(text)
	}
	if !(not[decSelfer] && not[decBinary] && not[decRaw]) {
		return true, "a value that can decode itself may be decoded by its kind"
	}
	return false, ""
}

// childNil: the coder is known to have nothing unfinished.
func (k *stCheck) childNil(st *State) bool {
	for _, f := range st.facts {
		if f.Val && f.T.K == TBin && f.T.Op == "==" && (f.T.Args[1].isNil() && k.rx(st, f.T.Args[0]) == "p0.child" || f.T.Args[0].isNil() && k.rx(st, f.T.Args[1]) == "p0.child") {
			return true
		}
	}
	return false
}

// storeTok: bytes stored where the caller said, and anything stored over the coder's reader or writer.
func (k *stCheck) storeTok(st *State, args []*Term) string {
	if len(args) < 2 || args[0] == nil {
		return ""
	}
	a := args[0]
	switch {
	case k.rx(st, a) == "&p0.real":
		return "store(p0.real," + k.rx(st, args[1]) + ")"
	case a.root().K == TAlloc || a.T == nil || elemOf(a.T) == nil || !isByteSlice(elemOf(a.T)):
		return ""
	}
	return "store(" + k.rx(st, a) + "," + k.rx(st, args[1]) + ")"
}

func (k *stCheck) entries() {
	c := k.c
	run := func(enc bool, m string, ch int, sp stSpec) {
		t := "decoderImpl"
		if enc {
			t = "encoderImpl"
		}
		fn := c.P.FindFunc("(*common/codec." + t + ")." + m)
		if fn == nil {
			c.Missing("entry", m)
			return
		}
		sp.name = m
		if ch > 0 {
			sp.name += " with a list unfinished"
		}
		tr := k.trace(fn, enc, stIn{kind: -1, chld: ch, ptr: 22}, map[*ssa.Function]bool{
			c.P.FindFunc("(*common/codec.encoderImpl).Encode"): m != "Encode", c.P.FindFunc("(*common/codec.encoderImpl).EncodeMulti"): m != "EncodeMulti"})
		k.dbg("entry "+sp.name, tr)
		k.judge("entry", tr, sp, nil)
	}
	W, R := q("WriteList(p0.real)#0"), q("ReadList(p0.real)#0")
	for _, ch := range []int{-1, 1} {
		pre, pred := "", ""
		if ch > 0 {
			pre, pred = "(call:[^;]*"+q("([p0.child.real+?]);")+")?"+q("Close[p0.child.real]();"), q("Close[p0.child]();")
		}
		vo := func(x string) string { return "(ValueOf\\(" + x + "\\)|assert:reflect.Value\\(" + x + "\\))" }
		run(true, "Encode", ch, stSpec{
			forms: []stForm{
				{ops: pre + "enc\\[p0.real\\]\\(" + vo("p1") + "\\);"},
				{ops: pre + q("WriteBytes[p0.real](assert:[]byte(p1));")},
				{ops: pre + q("WriteNull[p0.real]();")},
			},
			rets: func(o TraceOut, tr *Trace) string { return k.typed(o.O.St, o.Text, "p1") },
		})
		run(true, "EncodeMulti", ch, stSpec{forms: []stForm{
			{ops: "\\{", cover: "len(p1)", body: []string{q("Encode[p0.real](p1[i]);")}},
			{ops: pre + "\\{", cover: "len(p1)", body: []string{q("Encode[p0.real](p1[i]);")}}}})
		run(true, "EncodeList", ch, stSpec{opens: true, forms: []stForm{{ops: pre + q("WriteList[p0.real]();")}}, rets: func(o TraceOut, tr *Trace) string {
			st := o.O.St
			r := stripBox(o.O.Rets[0])
			if r == nil || r.isNil() {
				return "no encoder for the list is handed out"
			}
			if t := k.coderText(st, r); t != "WriteList(p0.real)#0" {
				return "the encoder handed out does not write to the list: " + t
			}
			fa := k.fieldAddr(st, st.val(st.fl.g.Params[0]), "child")
			if v := st.lookup(fa); v == nil || stripBox(v) != r {
				return "the list handed out would not be finished"
			}
			return ""
		}})
		run(true, "EncodeListOf", ch, stSpec{forms: []stForm{
			{ops: pre + q("WriteList[p0.real]();EncodeMulti[") + W + q("](p1);Close[") + W + q("]();")},
			{ops: pre + q("WriteList[p0.real]();") + "\\{" + q("Close[") + W + q("]();"), cover: "len(p1)", body: []string{q("Encode[") + W + q("](p1[i]);")}}}})
		by := func(rd, x string) string {
			a := q("assert:*[]byte(") + x + "\\)"
			b := "ReadBytes\\(" + rd + "\\)#0"
			return "ReadBytes\\[" + rd + "\\]\\(\\)(;store\\(" + a + "," + b + "\\);|~Nil;store\\(" + a + ",nil\\);)"
		}
		nullable := func(rd, x string) []string {
			var o []string
			for _, v := range []string{"ValueOf\\(" + x + "\\)", "assert:reflect.Value\\(" + x + "\\)"} {
				d := "dec\\[" + rd + "\\]\\(" + v + "\\)"
				o = append(o, d+";", d+"~Nil;Set\\(Elem\\("+v+"\\),Zero\\(Type\\(Elem\\("+v+"\\)\\)\\)\\);")
			}
			return append(o, by(rd, x))
		}
		typed := func(x string) func(string, *State, *Trace) string {
			return func(text string, st *State, tr *Trace) string { return k.typed(st, text, x) }
		}
		run(false, "Decode", ch, stSpec{
			forms: []stForm{{ops: pred + "dec\\[p0.real\\]\\(" + vo("p1") + "\\);"}, {ops: pred + by("p0.real", "p1")}},
			rets:  func(o TraceOut, tr *Trace) string { return k.typed(o.O.St, o.Text, "p1") },
		})
		item := q("p1[i]")
		run(false, "DecodeMulti", ch, stSpec{
			after: pred + "\\{",
			need:  []string{"dec[^;]*~Nil;Set\\("},
			forms: []stForm{{ops: pred + "\\{", cover: "len(p1)", body: nullable("p0.real", item), body2: typed("p1[i]")}},
			rets: func(o TraceOut, tr *Trace) string {
				if x := tr.norm(k.rx(o.O.St, o.O.Rets[0])); x != "len(p1)" {
					return "the number of values decoded is given as " + x
				}
				return ""
			},
			fret: func(o TraceOut, tr *Trace) string {
				x := tr.norm(k.rx(o.O.St, o.O.Rets[0]))
				if strings.Contains(o.Text, "{L") && x != "i" || !strings.Contains(o.Text, "{L") && x != "0" {
					return "when decoding stops the number of values decoded is given as " + x
				}
				return ""
			},
		})
		run(false, "DecodeBytes", ch, stSpec{forms: []stForm{{ops: pred + q("ReadBytes[p0.real]();")}}, rets: func(o TraceOut, tr *Trace) string {
			if x := k.rx(o.O.St, o.O.Rets[0]); x != "ReadBytes(p0.real)#0" {
				return "what is returned is " + x
			}
			return ""
		}})
		run(false, "DecodeList", ch, stSpec{opens: true, forms: []stForm{{ops: pred + q("ReadList[p0.real]();")}}, rets: func(o TraceOut, tr *Trace) string {
			st := o.O.St
			r := stripBox(o.O.Rets[0])
			if r == nil || r.isNil() {
				return "no decoder for the list is handed out"
			}
			if t := k.coderText(st, r); t != "ReadList(p0.real)#0" {
				return "the decoder handed out does not read the list: " + t
			}
			fa := k.fieldAddr(st, st.val(st.fl.g.Params[0]), "child")
			if v := st.lookup(fa); v == nil || k.rx(st, v) != "ReadList(p0.real)#0" {
				return "the list handed out would not be skipped when reading goes on after it"
			}
			return ""
		}})
		run(false, "DecodeListOf", ch, stSpec{
			after: pred + q("ReadList[p0.real]();") + "\\{",
			need:  []string{"dec[^;]*~Nil;Set\\("},
			forms: []stForm{{ops: pred + q("ReadList[p0.real]();") + "\\{" + q("Close[") + R + q("]();"), cover: "len(p1)", body: nullable(R, item), body2: typed("p1[i]")}}})
	}
	k.helpers(true)
	k.wholes()
}

// typed: what is known about the type of the argument agrees with how it is handled.
func (k *stCheck) typed(st *State, text, arg string) string {
	tr := &Trace{s: &Sum{fl: st.fl, g: st.fl.g}}
	is := func(t string) (v, known bool) {
		for _, f := range st.facts {
			if f.T.K == TPure && f.T.Op == "is:"+t && tr.norm(k.rx(st, f.T.Args[0])) == arg {
				return f.Val, true
			}
		}
		return false, false
	}
	text = tr.norm(text)
	if strings.Contains(text, "](ValueOf("+arg+"))") {
		if v, kn := is("reflect.Value"); !kn || v {
			return "a reflect.Value may be taken for data"
		}
	}
	if strings.Contains(text, "](assert:reflect.Value(") {
		if v, kn := is("reflect.Value"); !kn || !v {
			return "data may be taken for a reflect.Value"
		}
	}
	if strings.Contains(text, "WriteNull[") || strings.Contains(text, "WriteBytes[") {
		if v, kn := is("[]byte"); !kn || !v {
			return "data may be taken for bytes"
		}
		null, kn := false, false
		for _, f := range st.facts {
			if f.T.K == TBin && f.T.Op == "==" {
				for i := 0; i < 2; i++ {
					if f.T.Args[1-i].isNil() && tr.norm(k.rx(st, f.T.Args[i])) == "assert:[]byte("+arg+")" {
						null, kn = f.Val, true
					}
				}
			}
		}
		if !kn || null != strings.Contains(text, "WriteNull[") {
			return "nil and empty bytes are taken for each other"
		}
	}
	if strings.Contains(text, "store(") {
		if v, kn := is("*[]byte"); !kn || !v {
			return "something may be taken for a byte slice"
		}
	}
	return ""
}

// wholes: encoding to and decoding from bytes and streams.
func (k *stCheck) wholes() {
	c := k.c
	for _, m := range []string{"Marshal", "Unmarshal", "MarshalToBytes", "UnmarshalFromBytes"} {
		fn := k.method("bytesWrapper", m)
		if fn == nil {
			c.Missing("whole", m)
			continue
		}
		coder, op := "NewEncoder", "(common/codec.SimpleEncoder).Encode"
		if strings.HasPrefix(m, "Un") {
			coder, op = "NewDecoder", "(common/codec.SimpleDecoder).Decode"
		}
		s := c.Sum(fn, SumCfg{NoKill: func(n string) bool { return true }, Track: func(n *Node) string {
			if short(n.Callee) == op {
				return "op"
			}
			return ""
		}})
		n := 0
		for _, o := range s.Outs {
			why := ""
			var ev *Event
			cnt := 0
			for _, e := range o.St.must {
				if e.Tag == "op" {
					ev = e
					cnt++
				}
			}
			if o.failed() {
				if cnt == 0 {
					c.Ob("whole", m, false, o.Pos, "it is refused without being tried")
				}
				continue
			}
			last := o.Rets[len(o.Rets)-1]
			if cnt != 1 {
				c.Ob("whole", m, false, o.Pos, "it succeeds without the value having been handled once")
				continue
			}
			call := ev.Args[0]
			v := o.St.fl.path(ev.Args[2])
			mk := ev.Args[1]
			var buf *Term
			if short(callName(mk)) == "(common/codec.codecImpl)."+coder && o.St.fl.path(mk.Args[0]) == "p0.codecImpl" {
				buf = stripBox(mk.Args[1])
			}
			nl, kn := nilState(o.St, last)
			switch {
			case buf == nil:
				why = "it is handled by " + o.St.fl.path(mk)
			case last != call && !(kn && nl && o.St.succeeded(call)):
				why = "its outcome is not reported"
			case (m == "Marshal" || m == "Unmarshal") && (v != "p2" || o.St.fl.path(buf) != "p1"):
				why = "what is handled is " + v + " on " + o.St.fl.path(buf)
			case m == "MarshalToBytes" && v != "p1":
				why = "what is encoded is " + v
			case m == "UnmarshalFromBytes" && v != "p2":
				why = "what is decoded into is " + v
			case m == "MarshalToBytes" && !(buf.K == TAlloc || callName(buf) == "bytes.NewBuffer" && emptyList(o.St, buf.Args[0])):
				why = "the buffer is not an empty one: " + o.St.fl.path(buf)
			case m == "UnmarshalFromBytes" && !(anyOf(callName(buf), "bytes.NewBuffer", "bytes.NewReader") && o.St.fl.path(buf.Args[0]) == "p1"):
				why = "what is decoded is " + o.St.fl.path(buf)
			case strings.HasSuffix(m, "Bytes") && !(callName(o.Rets[0]) == "(*bytes.Buffer).Bytes" && o.Rets[0].Args[0] == buf && laterThan(o.Rets[0], call)):
				why = "what is returned is not what the buffer holds afterwards: " + o.St.fl.path(o.Rets[0])
			}
			c.Ob("whole", m, why == "", o.Pos, why)
			n++
		}
		if n == 0 {
			c.Ob("whole", m, false, c.P.posOf(fn), "it never succeeds")
		}
	}
}

// laterThan: the call a is made after the call b.
func laterThan(a, b *Term) bool {
	if a.N.Blk == b.N.Blk {
		for _, n := range a.N.Blk.Nodes {
			if n == b.N {
				return true
			}
			if n == a.N {
				return false
			}
		}
	}
	return a.N.Blk.rpo > b.N.Blk.rpo
}

func (k *stCheck) method(typ, name string) *ssa.Function {
	for _, p := range k.c.P.SSA.AllPackages() {
		if short(p.Pkg.Path()) != codecPkg {
			continue
		}
		o := p.Pkg.Scope().Lookup(typ)
		if o == nil {
			continue
		}
		for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
			ms := types.NewMethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name && len(ms.At(i).Index()) == 1 {
					return k.c.P.SSA.FuncValue(f)
				}
			}
		}
	}
	return nil
}
