package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "An error keeps its code, message and cause through every wrapping",
		"outcome summaries of the error constructors composed with the methods of the type they return, and of the functions that look along the chain of causes: every step goes to the error's own cause, the search ends only at the end of the chain or at the first match",
		checkErrors)
}

const errPkg = "common/errors"

type errCheck struct {
	c *Ctx
	m map[string]string // method of a type: what it returns
}

func checkErrors(c *Ctx) {
	k := &errCheck{c, map[string]string{}}
	k.ctors()
	k.walk()
	k.codes()
	k.format()
	c.Need("made", 13)
	c.Need("chain", 8)
	c.Need("code", 12)
	c.Need("print", 6)
}

func (k *errCheck) sum(rule, name string, keep ...string) *Sum {
	f := k.c.P.FindFunc(name)
	if f == nil {
		k.c.Missing(rule, name)
		return nil
	}
	return k.sumFn(f, keep...)
}

func (k *errCheck) sumFn(f *ssa.Function, keep ...string) *Sum {
	return k.c.Sum(f, SumCfg{Max: 600,
		Track: func(n *Node) string {
			switch short(n.Callee) {
			case "(reflect.Value).Set", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "(fmt.State).Write", errPkg + ".AsValue":
				return "op:" + short(n.Callee)
			}
			return ""
		},
		Opaque: func(f *ssa.Function) bool {
			n := short(f.String())
			for _, x := range keep {
				if n == errPkg+"."+x {
					return true
				}
			}
			return !strings.HasPrefix(n, errPkg+".") && !strings.HasPrefix(n, "("+errPkg+".") && !strings.HasPrefix(n, "(*"+errPkg+".")
		}})
}

// message: what the Error method of t answers: the text it was made of.
func (k *errCheck) message(st *State, t *Term) string {
	t = stripBox(t)
	switch callName(t) {
	case "github.com/pkg/errors.New", "errors.New":
		return k.message(st, t.Args[0])
	case "github.com/pkg/errors.Errorf", "fmt.Errorf":
		return "fmt(" + st.fl.path(t.Args[0]) + "," + st.fl.path(t.Args[1]) + ")"
	case "github.com/pkg/errors.WithStack":
		return k.message(st, t.Args[0])
	case "fmt.Sprintf":
		return "fmt(" + st.fl.path(t.Args[0]) + "," + st.fl.path(t.Args[1]) + ")"
	}
	if t.T != nil && isString(t.T) {
		if len(t.Args) == 1 && (strings.HasSuffix(callName(t), ").Error") || t.K == TPure && strings.HasSuffix(t.Op, ").Error")) {
			return k.message(st, t.Args[0])
		}
		return st.fl.path(t)
	}
	if t.K == TSym {
		return "error(" + st.fl.path(t) + ")"
	}
	return "?" + st.fl.path(t)
}

// answer: what a method of the type answers, "" if it has no such method.
func (k *errCheck) answer(t types.Type, m string) string {
	key := types.TypeString(t, nil) + "." + m
	if r, ok := k.m[key]; ok {
		return r
	}
	r := ""
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() != m {
			continue
		}
		fn := k.c.P.SSA.MethodValue(ms.At(i))
		s := k.sumFn(fn)
		for _, o := range s.Outs {
			p := s.fl.path(o.Rets[0])
			if r != "" && r != p {
				p = r + " or " + p
			}
			r = p
		}
		if r == "" {
			r = "nothing"
		}
	}
	k.m[key] = r
	return r
}

// value: what the method of an error just made answers, in terms of the maker's parameters.
func (k *errCheck) value(st *State, r *Term, m string) string {
	r = stripBox(r)
	if r.K != TAlloc {
		return "?" + st.fl.path(r)
	}
	a := k.answer(r.T, m)
	if a == "" {
		return ""
	}
	fs := st.fieldVals(r)
	call := ""
	if i := strings.Index(a, "(p0."); i > 0 && strings.HasSuffix(a, ")") && strings.HasSuffix(a[:i], ").Error") {
		call, a = "error", a[i+1:len(a)-1]
	}
	if !strings.HasPrefix(a, "p0.") {
		return "?" + a
	}
	v := fs[a[3:]]
	if v == nil {
		return "nothing"
	}
	if call != "" || m == "Error" {
		return k.message(st, v)
	}
	return st.fl.path(v)
}

func (k *errCheck) ctors() {
	c := k.c
	for _, x := range []struct {
		name, code, msg, origin string
	}{
		{"common/errors.Errorc", "p0", "p1", ""},
		{"common/errors.Errorcf", "p0", "fmt(p1,p2)", ""},
		{"common/errors.NewBase", "p0", "p1", ""},
		{"common/errors.Wrap", "", "p1", "p0"},
		{"common/errors.Wrapf", "", "fmt(p1,p2)", "p0"},
		{"common/errors.Wrapc", "p1", "p2", "p0"},
		{"common/errors.Wrapcf", "p1", "fmt(p2,p3)", "p0"},
		{"common/errors.WithCode", "p1", "error(p0)", "p0"},
		{"(common/errors.Code).New", "p0", "p1", ""},
		{"(common/errors.Code).Errorf", "p0", "fmt(p1,p2)", ""},
		{"(common/errors.Code).Wrap", "p0", "p2", "p1"},
		{"(common/errors.Code).Wrapf", "p0", "fmt(p2,p3)", "p1"},
	} {
		s := k.sum("made", x.name, "CoderOf", "AsValue", "CodeOf", "Is")
		if s == nil {
			continue
		}
		bad, pos := "", c.P.posOf(s.fn)
		if len(s.Outs) == 0 {
			bad = "it never returns"
		}
		for _, o := range s.Outs {
			r := o.Rets[0]
			if got := k.value(o.St, r, "ErrorCode"); got != x.code {
				bad, pos = "its code is "+orNone(got)+" instead of "+orNone(x.code), o.Pos
			}
			if got := k.value(o.St, r, "Error"); got != x.msg {
				bad, pos = "its message is "+got+" instead of "+x.msg, o.Pos
			}
			cause, un := k.value(o.St, r, "Cause"), k.value(o.St, r, "Unwrap")
			if x.origin != "" {
				if cause == "" && un == "" || cause != "" && cause != x.origin || un != "" && un != x.origin {
					bad, pos = "its cause is "+orNone(cause+un)+" instead of "+x.origin, o.Pos
				}
			}
		}
		c.Ob("made", x.name, bad == "", pos, "an error made by "+x.name+": "+bad)
	}
	for _, x := range []struct{ name, want string }{{"common/errors.New", "p0"}, {"common/errors.Errorf", "fmt(p0,p1)"}, {"common/errors.WithStack", "error(p0)"}} {
		s := k.sum("made", x.name)
		if s == nil {
			continue
		}
		bad, pos := "", c.P.posOf(s.fn)
		for _, o := range s.Outs {
			if got := k.message(o.St, o.Rets[0]); got != x.want {
				bad, pos = "its message is "+got, o.Pos
			}
		}
		c.Ob("made", x.name, bad == "" && len(s.Outs) > 0, pos, "an error made by "+x.name+": "+bad)
	}
}

func orNone(s string) string {
	if s == "" {
		return "none"
	}
	return s
}

// asserted: the interface types asserted in the graph, by name.
func asserted(s *Sum) map[string]types.Type {
	m := map[string]types.Type{}
	for _, n := range s.g.Nodes {
		if n.Op == OpInstr {
			if ta, ok := n.Instr.(*ssa.TypeAssert); ok {
				m[types.TypeString(ta.AssertedType, nil)] = ta.AssertedType
			}
		}
	}
	return m
}

// onlyMethod: the single method of an interface type with the given name and an error as its result.
func onlyMethod(t types.Type, name string) bool {
	it, ok := t.Underlying().(*types.Interface)
	return ok && it.NumMethods() == 1 && it.Method(0).Name() == name
}

func (k *errCheck) walk() {
	for _, x := range []struct {
		name  string
		start int
	}{{"common/errors.Is", 0}, {"common/errors.AsValue", 1}} {
		k.walkOne(x.name, x.start, x.name == "common/errors.AsValue")
	}
}

func (k *errCheck) walkOne(name string, start int, as bool) {
	c := k.c
	s := k.sum("chain", name)
	if s == nil {
		return
	}
	as_ := asserted(s)
	// has: whether e has the method: 1, -1, 0
	has := func(st *State, e *Term, m string) int {
		if nl, kn := nilState(st, e); kn && nl {
			return -1
		}
		for _, f := range st.facts {
			if f.T.K == TPure && strings.HasPrefix(f.T.Op, "is:") && f.T.Args[0] == e {
				if t := as_[f.T.Op[3:]]; t != nil && onlyMethod(t, m) {
					if f.Val {
						return 1
					}
					return -1
				}
			}
		}
		return 0
	}
	isNext := func(st *State, v, e *Term) bool {
		v = stripBox(v)
		if v == nil || v.K != TCall || len(v.Args) != 1 {
			return false
		}
		nm := callName(v)
		for _, m := range []string{"Cause", "Unwrap"} {
			if strings.HasSuffix(nm, ")."+m) {
				a := v.Args[0]
				if a.K == TPure && strings.HasPrefix(a.Op, "assert:") {
					a = a.Args[0]
				}
				return a == e && has(st, e, m) == 1
			}
		}
		return false
	}
	matches := func(st *State, e *Term) int {
		for _, f := range st.facts {
			hit := false
			if as {
				t := f.T
				if callName(t) == "(reflect.Type).AssignableTo" {
					hit = k.typeOf(t.Args[0], e) && k.elemType(t.Args[1])
				}
			} else if f.T.K == TBin && f.T.Op == "==" {
				a, b := f.T.Args[0], f.T.Args[1]
				p := param(s, 1)
				hit = a == e && b == p || b == e && a == p
			}
			if hit && f.Val {
				return 1
			} else if hit {
				return -1
			}
		}
		return 0
	}
	// the error looked at: the parameter, or the value the loop carries
	p1 := param(s, start)
	var cur []*Term
	var bad []string
	for _, b := range s.g.Blocks {
		for _, n := range b.Nodes {
			if n.Op != OpPhi || n.Typ == nil || !types.Identical(n.Typ, errorType()) {
				continue
			}
			loop, init := false, true
			for _, en := range s.Ent {
				if en.E.To == n.Blk && en.St.val(n.Args[en.E.Idx]) != p1 {
					init = false
				}
				loop = loop || en.E.To == n.Blk
			}
			if !loop {
				continue
			}
			if !init {
				bad = append(bad, "the search does not start at the given error")
				continue
			}
			cur = append(cur, s.fl.sym(n))
		}
	}
	if len(cur) == 0 {
		cur = []*Term{p1}
	}
	e := cur[0]
	c.Ob("chain", name+" starts at the error", len(bad) == 0 && len(cur) == 1, c.P.posOf(s.fn), strings.Join(bad, "; ")+fmt.Sprintf(" (%d candidates)", len(cur)))
	steps := 0
	for _, bk := range s.Back {
		if e.K != TSym || e.N.Op != OpPhi || bk.E.To != e.N.Blk {
			continue
		}
		v := bk.St.val(e.N.Args[bk.E.Idx])
		if !v.isNil() {
			steps++
		}
		// (going on with no error, where there is no cause, ends the search of a kind)
		end := as && v.isNil() && has(bk.St, e, "Cause") == -1 && has(bk.St, e, "Unwrap") == -1
		c.Ob("chain", name+" goes on to the cause", end || isNext(bk.St, v, e), s.posOfBlk(bk.E.From), "the search goes on with "+s.fl.path(v))
		nl, kn := nilState(bk.St, e)
		c.Ob("chain", name+" goes on only without a match", matches(bk.St, e) == -1 && !(kn && nl), s.posOfBlk(bk.E.From), "the search goes on past an error that was not compared, or that matches")
	}
	yes := 0
	for _, o := range s.Outs {
		st := o.St
		r := o.Rets[0]
		if stripBox(r).K == TCall && short(callName(r)) == name { // by recursion
			steps++
			c.Ob("chain", name+" goes on to the cause", isNext(st, r.Args[start], e) && r.Args[1-start] == param(s, 1-start), o.Pos, "the search goes on with "+s.fl.path(r.Args[start]))
			c.Ob("chain", name+" goes on only without a match", matches(st, e) == -1, o.Pos, "the search goes on past an error that was not compared, or that matches")
			continue
		}
		v, ok := r.boolVal()
		if !ok {
			if w, kn := st.decide(r); kn {
				v, ok = w, true
			}
		}
		switch {
		case !ok:
			c.Ob("chain", name+" answers", false, o.Pos, "the answer is "+st.fl.path(r))
		case v:
			good := matches(st, e) == 1
			why := "it answers yes without a match"
			if as && good {
				good = false
				why = "the match is not stored in the given variable"
				for _, ev := range st.must {
					if ev.Tag == "op:(reflect.Value).Set" && k.elem(ev.Args[1]) && callName(ev.Args[2]) == "reflect.ValueOf" && stripBox(ev.Args[2].Args[0]) == e {
						good = true
					}
				}
			}
			if good {
				yes++
			}
			c.Ob("chain", name+" says yes", good, o.Pos, why)
		default:
			good := has(st, e, "Cause") == -1 && has(st, e, "Unwrap") == -1
			why := "it gives up at an error that has a cause"
			if nl, kn := nilState(st, e); good && !(kn && nl) && matches(st, e) != -1 {
				good, why = false, "it gives up without having compared the error"
			} else if !as && kn && nl && matches(st, e) != -1 {
				good, why = false, "it gives up without having compared the error"
			}
			if as && !good {
				for _, f := range st.facts { // not a pointer
					p := st.fl.path(f.T)
					if strings.Contains(p, "Kind(reflect.") && strings.Contains(p, "22") && strings.Contains(p, "==") && !strings.Contains(p, "phi") && !f.Val {
						good = true
					}
				}
			}
			c.Ob("chain", name+" says no", good, o.Pos, why)
		}
	}
	c.Ob("chain", name+" follows the causes", steps > 0 && yes > 0, c.P.posOf(s.fn), "it looks at one error only")
	// a missing error has no type to look at
	for _, r := range s.Call {
		if r.N.Callee == "(reflect.Value).Type" && callName(r.Args[0]) == "reflect.ValueOf" && stripBox(r.Args[0].Args[0]) == e || r.N.Callee == "(reflect.Type).AssignableTo" && callName(r.Args[0]) == "reflect.TypeOf" {
			nl, kn := nilState(r.St, e)
			c.Ob("chain", name+" has an error to look at", kn && !nl, c.P.posStr(r.N.Instr.Pos()), "the type of a missing error is asked for")
		}
	}
}

// typeOf: the type of the error e; elem: what the given pointer points to; elemType: its type.
func (k *errCheck) typeOf(t, e *Term) bool {
	switch callName(t) {
	case "reflect.TypeOf":
		return stripBox(t.Args[0]) == e
	case "(reflect.Value).Type":
		return callName(t.Args[0]) == "reflect.ValueOf" && stripBox(t.Args[0].Args[0]) == e
	}
	return false
}

func (k *errCheck) elem(t *Term) bool {
	return (callName(t) == "(reflect.Value).Elem" || callName(t) == "reflect.Indirect") && callName(t.Args[0]) == "reflect.ValueOf" && isParamN(t.Args[0].Args[0], 0)
}

func isParamN(t *Term, i int) bool {
	t = stripBox(t)
	return t != nil && t.K == TSym && t.N.Op == OpParam
}

func (k *errCheck) elemType(t *Term) bool {
	switch callName(t) {
	case "(reflect.Value).Type":
		return k.elem(t.Args[0])
	case "(reflect.Type).Elem":
		x := t.Args[0]
		return callName(x) == "reflect.TypeOf" && isParamN(x.Args[0], 0) || callName(x) == "(reflect.Value).Type" && callName(x.Args[0]) == "reflect.ValueOf" && isParamN(x.Args[0].Args[0], 0)
	}
	return false
}

func (k *errCheck) codes() {
	c := k.c
	// found: the call that looks for a coded error, what it found, and whether it did
	found := func(st *State) (v *Term, ok, known bool) {
		for _, e := range st.must {
			if e.Tag != "op:"+errPkg+".AsValue" || !isParamN(e.Args[2], 0) {
				continue
			}
			a := stripBox(e.Args[1])
			pt, isP := a.T.Underlying().(*types.Pointer)
			if a.K != TAlloc || !isP {
				continue
			}
			it, isI := pt.Elem().Underlying().(*types.Interface)
			coder := false
			for i := 0; isI && i < it.NumMethods(); i++ {
				coder = coder || it.Method(i).Name() == "ErrorCode"
			}
			if !coder {
				continue
			}
			r, kn := st.decide(e.Args[0])
			return a, r, kn
		}
		return nil, false, false
	}
	isFound := func(st *State, a, t *Term) bool {
		t = stripBox(t)
		for t.K == TPure && strings.HasPrefix(t.Op, "assert:") {
			t = t.Args[0]
		}
		return t.K == TLoad && t.Args[0] == a || t.K == TMem && len(t.Args) > 0 && t.Args[0] == a
	}
	unknown, okU := c.P.constVal(errPkg, "UnknownError")
	codeIs := func(st *State, t *Term) bool { // t is the code of the first parameter that is an error
		a, ok, kn := found(st)
		if a == nil || !kn {
			return false
		}
		t = stripBox(t)
		if !ok {
			v, isC := t.intVal()
			return isC && okU && v == unknown
		}
		return t.K == TCall && strings.HasSuffix(callName(t), ").ErrorCode") && isFound(st, a, t.Args[0])
	}
	if s := k.sum("code", "common/errors.CoderOf", "AsValue"); s != nil {
		yes := 0
		for _, o := range s.Outs {
			st := o.St
			a, ok, kn := found(st)
			v, vk := st.decide(o.Rets[1])
			if b, isB := o.Rets[1].boolVal(); isB {
				v, vk = b, true
			}
			good := false
			if nl, known := nilState(st, param(s, 0)); a == nil && known && nl {
				good = vk && !v && o.Rets[0].isNil()
			} else if a != nil && kn && vk && v == ok {
				good = ok && isFound(st, a, o.Rets[0]) || !ok && (o.Rets[0].isNil() || isFound(st, a, o.Rets[0]))
			}
			if a != nil && !kn { // the answer of the search itself, with the variable it fills only when it finds
				for _, e := range st.must {
					if e.Tag == "op:"+errPkg+".AsValue" && stripBox(e.Args[1]) == a && e.Args[0] == o.Rets[1] && isFound(st, a, o.Rets[0]) {
						good, v = true, true
					}
				}
			}
			if good && v {
				yes++
			}
			c.Ob("code", "CoderOf", good, o.Pos, "CoderOf answers "+strings.Join(st.paths(o.Rets), ", ")+" when "+strings.Join(st.factStrings(), " "))
		}
		c.Ob("code", "CoderOf finds", yes > 0, c.P.posOf(s.fn), "it never finds a coded error")
	}
	if s := k.sum("code", "common/errors.CodeOf", "AsValue"); s != nil {
		n := 0
		for _, o := range s.Outs {
			good := codeIs(o.St, o.Rets[0])
			if nl, kn := nilState(o.St, param(s, 0)); kn && nl {
				v, isC := stripBox(o.Rets[0]).intVal()
				good = good || isC && okU && v == unknown
			}
			c.Ob("code", "CodeOf", good, o.Pos, "CodeOf answers "+o.St.fl.path(o.Rets[0])+" when "+strings.Join(o.St.factStrings(), " "))
			n++
		}
		c.Ob("code", "CodeOf answers", n > 0, c.P.posOf(s.fn), "it never answers")
	}
	for _, x := range []struct{ name, code string }{{"(common/errors.Code).Equals", "p0"}, {"(*common/errors.baseError).Equals", "p0.code"}} {
		s := k.sum("code", x.name, "AsValue")
		if s == nil {
			continue
		}
		for _, o := range s.Outs {
			st := o.St
			nl, kn := nilState(st, param(s, 1))
			r := stripBox(o.Rets[0])
			v, isC := r.boolVal()
			good := false
			isCode := func(t *Term) bool { return st.fl.path(t) == x.code }
			pair := func(t *Term) bool {
				return t.K == TBin && t.Op == "==" && (isCode(t.Args[0]) && codeIs(st, t.Args[1]) || isCode(t.Args[1]) && codeIs(st, t.Args[0]))
			}
			switch {
			case !kn:
			case nl:
				good = isC && !v
			case isC:
				for _, f := range st.facts {
					good = good || f.Val == v && pair(f.T)
				}
			default:
				good = pair(r)
			}
			c.Ob("code", x.name, good, o.Pos, "it answers "+st.fl.path(r)+" when "+strings.Join(st.factStrings(), " "))
		}
	}
	// the general codes are distinct and the base errors have their own
	pkg := c.P.SSA.ImportedPackage(rel(errPkg))
	if pkg == nil {
		c.Missing("code", errPkg)
		return
	}
	codeT := pkg.Type("Code")
	byVal := map[string][]string{}
	if codeT != nil {
		sc := pkg.Pkg.Scope()
		for _, n := range sc.Names() {
			if cn, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(cn.Type(), codeT.Type()) && strings.HasSuffix(n, "Error") {
				byVal[cn.Val().ExactString()] = append(byVal[cn.Val().ExactString()], n)
			}
		}
	}
	for _, v := range sortedKeys(byVal) {
		sort.Strings(byVal[v])
		c.Ob("code", "code "+byVal[v][0], len(byVal[v]) == 1, "common/errors/errors.go", "the codes "+strings.Join(byVal[v], ", ")+" are the same")
	}
	if init := pkg.Func("init"); init != nil {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				call, ok2 := st.Val.(*ssa.Call)
				if !ok || !ok2 || call.Call.StaticCallee() == nil || call.Call.StaticCallee().Name() != "NewBase" {
					continue
				}
				want := strings.TrimPrefix(g.Name(), "Err")
				cv, _ := call.Call.Args[0].(*ssa.Const)
				cn, _ := pkg.Pkg.Scope().Lookup(want + "Error").(*types.Const)
				if cn == nil {
					cn, _ = pkg.Pkg.Scope().Lookup(want).(*types.Const)
				}
				if cn == nil || cv == nil {
					continue
				}
				c.Ob("code", "base error "+g.Name(), constant.Compare(cv.Value, tokEQL, cn.Val()), c.P.posStr(st.Pos()), g.Name()+" does not have the code "+cn.Name())
			}
		}
	}
}

// format: what is printed names the code and the message.
func (k *errCheck) format() {
	c := k.c
	pkg := c.P.SSA.ImportedPackage(rel(errPkg))
	if pkg == nil {
		return
	}
	for _, n := range pkg.Pkg.Scope().Names() {
		tn, ok := pkg.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if types.IsInterface(tn.Type()) || !types.Implements(pt, errorIface()) {
			continue
		}
		fm := c.P.FindFunc("(*" + errPkg + "." + n + ").Format")
		if fm == nil {
			continue // printed by its message
		}
		s := k.sumFn(fm)
		code, msg := k.answer(pt, "ErrorCode"), k.answer(pt, "Error")
		un := k.answer(pt, "Unwrap")
		inner := strings.TrimSuffix(msg[strings.Index(msg, "(p0.")+1:], ")")
		printed := map[int64]bool{}
		for _, o := range s.Outs {
			st := o.St
			ch := param(s, 2)
			l := st.lin(ch)
			var text []string
			for _, e := range st.must {
				if strings.HasPrefix(e.Tag, "op:") && len(e.Args) > 2 && st.fl.path(stripBox(e.Args[1])) == "p1" {
					for _, a := range e.Args[2:] {
						text = append(text, within(st, a, 0)...)
					}
				}
			}
			all := strings.Join(text, " ") + " "
			for _, r := range "vsq" {
				if !st.entails(l.plus(-int64(r))) || !st.entails(l.neg().plus(int64(r))) {
					continue
				}
				printed[int64(r)] = true
				good := true
				why := ""
				if code != "" && !strings.Contains(all, code+" ") && !strings.Contains(all, code+",") && !strings.Contains(all, code+")") {
					good, why = false, "its code"
				}
				if !strings.Contains(all, msg) && !strings.Contains(all, inner+" ") && !strings.Contains(all, inner+",") && !strings.Contains(all, inner+")") && !strings.Contains(all, ").Error(p0)") {
					good, why = false, "its message"
				}
				if r == 'v' && un != "" {
					for _, f := range st.facts {
						if f.Val && st.fl.path(f.T) == "(fmt.State).Flag(p1,43)" && !strings.Contains(all, un) {
							good, why = false, "its cause"
						}
					}
				}
				c.Ob("print", fmt.Sprintf("%s %%%c", n, r), good, o.Pos, "what is printed of the error lacks "+why+": "+all)
			}
		}
		c.Ob("print", n+" is printed", printed['v'] && printed['s'], c.P.posOf(fm), "nothing is printed for %v or %s")
	}
}

// within: the values a printed value is made of.
func within(st *State, t *Term, d int) (out []string) {
	if es, ok := st.elems(t); ok {
		for _, x := range es {
			out = append(out, st.fl.path(x))
		}
		return out
	}
	out = append(out, st.fl.path(t))
	if d < 4 && (t.K == TCall || t.K == TPure || t.K == TConv || t.K == TBin) {
		for _, a := range t.Args {
			if a != nil {
				out = append(out, within(st, a, d+1)...)
			}
		}
	}
	return out
}
