package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "Every log record goes where its level and the configuration say",
		"outcome summaries of the log filter, the loggers' setters, the level names, the forwarder's set-up and hook, and the start's log set-up: on every path the record's fate is decided by the comparison of its level with its module's, and what is configured is what is set",
		checkLog)
}

const (
	logPkg = "common/log"
	lgrs   = "github.com/sirupsen/logrus"
)

var levelWords = []string{"panic", "fatal", "error", "warn", "info", "debug", "trace"}

type logCheck struct {
	c                      *Ctx
	pkg                    *types.Package
	filter, format         *types.Named
	fWriter, fMods, fInner string // fields of the filter
	fLevel                 string // its default level
	wrappers               []*types.Named
	level                  types.Type
}

func checkLog(c *Ctx) {
	k := &logCheck{c: c}
	if !k.find() {
		return
	}
	k.setters()
	k.filtering()
	k.formatting()
	k.names()
	k.global()
	k.forward()
	k.start()
	k.paths()
	c.Need("filter", 2)
	c.Need("setting", 26)
	c.Need("level-name", 3)
	c.Need("global", 24)
	c.Need("forwarder", 6)
	c.Need("start", 6)
	c.Need("line", 2)
	c.Need("path", 2)
}

func (k *logCheck) find() bool {
	p := k.c.P.spkgs[rel(logPkg)]
	if p == nil {
		k.c.Missing("filter", logPkg)
		return false
	}
	k.pkg = p.Pkg
	sc := k.pkg.Scope()
	var lg *types.Interface
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if n == "Level" {
			k.level = named
		}
		if n == "Logger" {
			lg, _ = named.Underlying().(*types.Interface)
		}
	}
	if lg == nil || k.level == nil {
		k.c.Missing("filter", "Level, Logger")
		return false
	}
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := named.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		if types.Implements(types.NewPointer(named), lg) {
			k.wrappers = append(k.wrappers, named)
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(named))
		if ms.Lookup(nil, "Format") == nil {
			continue
		}
		inner := ""
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Type().String() == lgrs+".Formatter" {
				inner = st.Field(i).Name()
			}
		}
		if inner == "" {
			k.format = named
			continue
		}
		k.filter, k.fInner = named, inner
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Type().String() == "io.Writer" {
				k.fWriter = f.Name()
			}
			if m, ok := f.Type().Underlying().(*types.Map); ok && types.Identical(m.Elem(), k.level) {
				k.fMods = f.Name()
			}
		}
	}
	if k.filter == nil || k.format == nil || k.fWriter == "" || k.fMods == "" || len(k.wrappers) < 2 {
		k.c.Missing("filter", "the filter, the formatter and the loggers of "+logPkg)
		return false
	}
	return true
}

// method: the declared method of t, nil if it is promoted.
func (k *logCheck) method(t *types.Named, m string) *ssa.Function {
	sel := types.NewMethodSet(types.NewPointer(t)).Lookup(k.pkg, m)
	if sel == nil {
		return nil
	}
	f, _ := sel.Obj().(*types.Func)
	if f == nil || f.Pkg() != k.pkg {
		return nil
	}
	return k.c.P.SSA.FuncValue(f)
}

// fatalVar: a call of one of the package's functions that end the process.
func fatalVar(n *Node) bool {
	ci, ok := n.Instr.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if u, ok := ci.Common().Value.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), logPkg) {
			return strings.HasPrefix(g.Name(), "Panic") || strings.HasPrefix(g.Name(), "Fatal")
		}
	}
	return n.isCall() && n.Callee != "" && ends(n.Callee)
}

// sum: the function with the package's own functions taken apart; stores, map
// updates and calls become events in canonical text.
func (k *logCheck) sum(f *ssa.Function, keep func(n string) bool) *Sum {
	return k.c.Sum(f, SumCfg{Max: 3000,
		NoKill: func(callee string) bool {
			return strings.HasSuffix(callee, ").HasCaller") || callee == "("+lgrs+".Formatter).Format" || callee == "(io.Writer).Write" || strings.HasPrefix(callee, "(*"+lgrs) || strings.HasPrefix(callee, "fmt.") || strings.Contains(callee, "filepath.")
		},
		Opaque: func(f *ssa.Function) bool {
			n := short(f.String())
			if keep != nil && keep(n) {
				return true
			}
			if k.isPkgName(f) {
				return true
			}
			return !strings.HasPrefix(n, logPkg+".") && !strings.HasPrefix(n, "("+logPkg+".") && !strings.HasPrefix(n, "(*"+logPkg+".") && !strings.HasPrefix(n, "cmd/relay.")
		},
		Ev: func(st *State, n *Node, args []*Term, res *Term) {
			if n.Op != OpInstr {
				return
			}
			switch n.Instr.(type) {
			case *ssa.Store:
				if p := lpath(st.fl, args[0]); p != "new" && !strings.HasPrefix(p, "&new") {
					st.addMust("sto:"+p+"="+lpath(st.fl, stripConv(stripBox(args[1]))), "sto", n, args...)
				}
				return
			case *ssa.MapUpdate:
				st.addMust("map:"+lpath(st.fl, args[0])+"["+lpath(st.fl, args[1])+"]="+lpath(st.fl, stripConv(stripBox(args[2]))), "map", n, args...)
				return
			}
			if !n.isCall() || n.Builtin != "" {
				return
			}
			if n.Dyn != nil {
				st.addMust(fmt.Sprintf("dyn@%d", n.ID), "dyn", n, stripConv(st.val(n.Dyn)))
			}
			if fatalVar(n) {
				st.dead = true
				return
			}
			if (strings.Contains(n.Callee, "Fprint") || strings.Contains(n.Callee, ").Write") || n.Callee == "io.WriteString") && len(args) > 1 {
				var ps []string
				for _, a := range args[1:] {
					for _, p := range deep(st, a, 0) {
						ps = append(ps, p)
					}
				}
				st.addMust("wr:"+strings.Join(ps, "\x00"), "wr", n)
			}
			var as []string
			for _, a := range args {
				as = append(as, lpath(st.fl, stripConv(stripBox(a))))
			}
			key := "call:" + short(n.Callee) + "(" + strings.Join(as, ",") + ")"
			if st.must[key] != nil || st.may[key] != nil {
				key = "again:" + key
			}
			st.addMust(key, "call", n, append([]*Term{res}, args...)...)
		}})
}

// isPkgName: the function that gives the package of a function's name.
func (k *logCheck) isPkgName(f *ssa.Function) bool {
	if f.Pkg == nil || f.Pkg.Pkg != k.pkg || f.Signature.Recv() != nil {
		return false
	}
	s := f.Signature
	return s.Params().Len() == 1 && s.Results().Len() == 1 && isString(s.Params().At(0).Type()) && isString(s.Results().At(0).Type())
}

func hasEvent(st *State, key string) bool { return st.must[key] != nil }

// setters: each setting of a logger is the one asked for, and is what is answered.
func (k *logCheck) setters() {
	c := k.c
	for _, w := range k.wrappers {
		st := w.Underlying().(*types.Struct)
		emb, ent := "", ""
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				emb, ent = st.Field(i).Name(), strings.TrimPrefix(st.Field(i).Type().String(), "*")
			}
		}
		if ent != lgrs+".Entry" && ent != lgrs+".Logger" {
			c.Missing("setting", w.Obj().Name()+" embedding a logrus logger")
			continue
		}
		own := "p0." + emb
		lg := own
		if ent == lgrs+".Entry" {
			lg += ".Logger"
		}
		flt := "assert:*" + logPkg + "." + k.filter.Obj().Name() + "(" + lg + ".Formatter)"
		// the default level is what the console level answers
		if f := k.method(w, "GetConsoleLevel"); f != nil {
			s := k.sum(f, nil)
			for _, o := range s.Outs {
				p := lpath(s.fl, o.Rets[0])
				if strings.HasPrefix(p, flt+".") {
					fld := strings.TrimPrefix(p, flt+".")
					if k.fLevel == "" {
						k.fLevel = fld
					}
					c.Ob("setting", w.Obj().Name()+".GetConsoleLevel", fld == k.fLevel, o.Pos, "the console level answered is the filter's "+fld+", elsewhere its "+k.fLevel)
				} else {
					c.Ob("setting", w.Obj().Name()+".GetConsoleLevel", false, o.Pos, "the console level answered is "+p)
				}
			}
		}
		lgT, entT := "(*"+lgrs+".Logger).", "(*"+ent+")."
		mods := flt + "." + k.fMods
		iface := k.pkg.Scope().Lookup("Logger").Type().Underlying().(*types.Interface)
		for i := 0; i < iface.NumMethods(); i++ {
			m := iface.Method(i).Name()
			f := k.method(w, m)
			if f == nil {
				continue // logrus' own
			}
			key := w.Obj().Name() + "." + m
			s := k.sum(f, nil)
			if len(s.Outs) == 0 {
				c.Ob("setting", key, false, c.P.posOf(f), "it never returns")
				continue
			}
			for _, o := range s.Outs {
				bad := ""
				ret := ""
				if len(o.Rets) > 0 {
					ret = lpath(s.fl, stripConv(stripBox(o.Rets[0])))
				}
				do := func(ev string) {
					if !hasEvent(o.St, ev) && bad == "" {
						bad = "it does not do " + ev
					}
				}
				is := func(want string) {
					if ret != want {
						bad = "it answers " + ret + " instead of " + want
					}
				}
				only := ""
				switch m {
				case "GetConsoleLevel":
					continue
				case "SetConsoleLevel":
					only = "sto:&" + flt + "." + k.fLevel + "=p1"
					do(only)
				case "SetFileWriter":
					only = "sto:&" + flt + "." + k.fWriter + "=p1"
					do(only)
					if len(o.Rets) > 0 && !o.Rets[len(o.Rets)-1].isNil() {
						bad = "it fails"
					}
				case "SetModuleLevel":
					only = "map:" + mods + "[p1]=p2"
					do(only)
				case "GetModuleLevel":
					look := "lookup(" + mods + ",p1)"
					if v, known := ltruth(o.St, look+"#1"); !known {
						bad = "the module's own level is not looked up"
					} else if v {
						is(look + "#0")
					} else {
						is(flt + "." + k.fLevel)
					}
				case "SetLevel", "SetReportCaller":
					do("call:" + lgT + m + "(" + lg + ",p1)")
				case "GetLevel":
					is(lgT + m + "(" + lg + ")")
				case "addHook":
					do("call:" + lgT + "AddHook(" + lg + ",p1)")
				case "Writer":
					is(entT + m + "(" + own + ")")
				case "WriterLevel":
					if len(o.Rets) == 1 {
						t := stripBox(o.Rets[0])
						if callName(t) != entT+m || lpath(s.fl, t.Args[0]) != own || lpath(s.fl, stripConv(t.Args[1])) != "p1" {
							bad = "it answers " + ret
						}
					}
				case "Log", "Logln", "Logf":
					args := "p1,p2"
					if m == "Logf" {
						args = "p1,p2,p3"
					}
					do("call:" + entT + m + "(" + own + "," + args + ")")
				case "WithFields":
					r := stripBox(o.Rets[0])
					bad = "it does not answer a logger over the one with the fields added"
					if r.K == TAlloc {
						for _, v := range o.St.fieldVals(r) {
							v = stripBox(v)
							if callName(v) == entT+m && lpath(s.fl, v.Args[0]) == own && lpath(s.fl, stripConv(v.Args[1])) == "p1" {
								bad = ""
							}
						}
					}
				default:
					args := "p1"
					if strings.HasSuffix(m, "f") {
						args = "p1,p2"
					}
					do("call:" + entT + m + "(" + own + "," + args + ")")
				}
				if bad == "" {
					for _, e := range sortedKeys(o.St.must) {
						if e != only && (strings.HasPrefix(e, "sto:&"+flt) || strings.HasPrefix(e, "map:"+flt)) {
							bad = "it also sets " + e[4:]
						}
					}
				}
				c.Ob("setting", key, bad == "", o.Pos, "the logger's "+m+": "+bad)
			}
		}
	}
	if k.fLevel == "" {
		c.Missing("setting", "the filter's default level")
	}
}

// levelCmp: what the facts say about record level > lv.
func levelCmp(st *State, lv string) (over, under bool) {
	for _, f := range st.facts {
		if f.T.K != TBin || len(f.T.Args) != 2 {
			continue
		}
		a, b := lpath(st.fl, stripConv(f.T.Args[0])), lpath(st.fl, stripConv(f.T.Args[1]))
		v, known := false, true
		switch {
		case f.T.Op == "<" && a == lv && b == "p1.Level":
			v = f.Val
		case f.T.Op == "<" && a == "p1.Level" && b == lv && f.Val:
		case f.T.Op == "<=" && a == "p1.Level" && b == lv:
			v = !f.Val
		case f.T.Op == "==" && f.Val && (a == lv && b == "p1.Level" || b == lv && a == "p1.Level"):
		default:
			known = false
		}
		over, under = over || known && v, under || known && !v
	}
	return over, under
}

func (k *logCheck) filtering() {
	c := k.c
	f := k.method(k.filter, "Format")
	if f == nil {
		c.Missing("filter", "Format of the filter")
		return
	}
	s := k.sum(f, nil)
	inner := "(" + lgrs + ".Formatter).Format(p0." + k.fInner + ",p1)"
	write := "(io.Writer).Write(p0." + k.fWriter + "," + inner + "#0)"
	name := k.filter.Obj().Name() + ".Format"
	if len(s.Outs) == 0 {
		c.Ob("filter", name, false, c.P.posOf(f), "it never returns")
	}
	for _, o := range s.Outs {
		bad := ""
		st := o.St
		// the record's module
		mod, none := "", false
		if has, known := ltruth(st, `lookup(p1.Data,"module")#1`); known && has {
			mod = `assert:string(lookup(p1.Data,"module")#0)`
		} else if known {
			none = true
			for _, ft := range st.facts {
				p := lpath(st.fl, ft.T)
				if ft.Val && strings.Contains(p, ").HasCaller(") || !ft.Val && p == "(nil==p1.Caller)" {
					none = false
				}
			}
			if !none {
				for _, ft := range st.facts {
					for _, x := range callsIn(ft.T) {
						if x.N != nil && x.N.Fn != nil && k.isPkgName(x.N.Fn) && lpath(st.fl, x.Args[0]) == "p1.Caller.Function" {
							mod = lpath(st.fl, x)
						}
					}
				}
			}
		} else {
			bad = "it does not look for the record's module"
		}
		// its level
		lv := "p0." + k.fLevel
		look := ""
		for _, ft := range st.facts {
			p := lpath(st.fl, ft.T)
			if !strings.HasPrefix(p, "lookup(p0."+k.fMods+",") || !strings.HasSuffix(p, ")#1") {
				continue
			}
			key := strings.TrimSuffix(strings.TrimPrefix(p, "lookup(p0."+k.fMods+","), ")#1")
			if key != mod && !(none && key == `""`) {
				bad = "the level is looked up for " + key + " instead of the record's module"
			}
			look = key
			if ft.Val {
				lv = strings.TrimSuffix(p, "#1") + "#0"
			}
		}
		if look == "" && bad == "" && !none {
			// only the empty name has no level of its own
			empty := false
			for _, ft := range st.facts {
				p := lpath(st.fl, ft.T)
				if mod != "" && (!ft.Val && (p == "(0<len("+mod+"))" || p == `(""<`+mod+")") || ft.Val && (p == "(0==len("+mod+"))" || p == `(""==`+mod+")" || p == "("+mod+`=="")`)) {
					empty = true
				}
			}
			if !empty {
				bad = "the level set for the record's module is not looked at"
			}
		}
		over, under := levelCmp(st, lv)
		if over && under {
			continue // no such path
		}
		if bad == "" && !over && !under {
			bad = "the record's level is not compared with " + lv
		}
		if bad == "" {
			r0 := lpath(s.fl, o.Rets[0])
			switch {
			case over && !emptyList(st, o.Rets[0]):
				bad = "a record below the level of its module is shown on the console"
			case !over && r0 != inner+"#0":
				bad = "a record at or above the level of its module is not shown as formatted but as " + r0
			case !over && lpath(s.fl, o.Rets[1]) != inner+"#1":
				bad = "the formatter's failure is not reported"
			}
		}
		c.Ob("filter", name, bad == "", o.Pos, "log filter: "+bad)
		// the file
		bad = ""
		isNil, nk := ltruth(st, "(nil==p0."+k.fWriter+")")
		nw := 0
		for _, e := range sortedKeys(st.must) {
			if strings.Contains(e, ").Write(") || strings.Contains(e, "io.WriteString(") {
				nw++
				if e != "call:"+write {
					bad = "something else is written: " + e
				}
			}
		}
		for e := range st.may {
			if st.must[e] == nil && (strings.Contains(e, ").Write(") || strings.Contains(e, "io.WriteString(")) {
				bad = "it may be written again"
			}
		}
		if nw != 1 && !(nk && isNil) && bad == "" {
			some, sk := ltruth(st, "(0<len("+inner+"#0))")
			if b, ok := ltruth(st, "(0==len("+inner+"#0))"); ok {
				some, sk = !b, true
			}
			fine, ek := ltruth(st, "(nil=="+inner+"#1)")
			if !(sk && !some) && !(ek && !fine) {
				bad = "a record is not written to the log file although one is set"
			}
		}
		c.Ob("filter", name+" to the file", bad == "", o.Pos, "log filter: "+bad)
	}
	// a new logger uses the filter, shows everything and knows the caller
	if f := c.P.FindFunc(logPkg + ".New"); f == nil {
		c.Missing("filter", "New")
	} else {
		s := k.sum(f, nil)
		for _, o := range s.Outs {
			bad := "its formatter is not the filter"
			for e, ev := range o.St.must {
				if !strings.HasPrefix(e, "call:(*"+lgrs+".Logger).SetFormatter(") || len(ev.Args) < 3 {
					continue
				}
				t := stripBox(ev.Args[2])
				if pt, ok := t.T.Underlying().(*types.Pointer); !ok || t.K != TAlloc || !types.Identical(pt.Elem(), k.filter) {
					continue
				}
				fv := o.St.fieldVals(t)
				bad = ""
				if v := fv[k.fLevel]; v == nil || lpath(s.fl, v) != "6" {
					bad = "its console does not start at trace"
				}
				if v := fv[k.fMods]; v == nil || v.isNil() {
					bad = "its module levels cannot be set"
				}
				if v := fv[k.fInner]; v == nil || v.isNil() {
					bad = "its filter has no formatter"
				}
			}
			if bad == "" {
				ok := false
				for e := range o.St.must {
					ok = ok || strings.HasPrefix(e, "call:(*"+lgrs+".Logger).SetReportCaller(") && strings.HasSuffix(e, ",true)") || strings.HasPrefix(e, "sto:&") && strings.HasSuffix(e, ".ReportCaller=true")
				}
				if !ok {
					bad = "it does not know the caller's package"
				}
			}
			c.Ob("filter", "New", bad == "", o.Pos, "a new logger: "+bad)
		}
	}
	// the package's name
	for _, fn := range c.P.funcs {
		if k.isPkgName(fn) {
			k.pkgName(fn)
		}
	}
}

// pkgName: what follows the last slash, up to the first period (only the plain form is judged).
func (k *logCheck) pkgName(fn *ssa.Function) {
	s := k.c.Sum(fn, SumCfg{})
	for _, r := range s.Call {
		switch r.N.Callee {
		case "strings.LastIndex", "strings.LastIndexByte", "strings.Index", "strings.IndexByte", "path.Base":
		default:
			if r.N.Builtin == "" {
				return
			}
		}
	}
	slash := func(a string) bool { return a == `"/"` || a == "47" }
	dot := func(a string) bool { return a == `"."` || a == "46" }
	for _, o := range s.Outs {
		bad := ""
		n := 0
		for _, r := range s.Call {
			if !strings.HasPrefix(r.N.Callee, "strings.") {
				continue
			}
			n++
			a := r.path(1)
			last := strings.HasPrefix(r.N.Callee, "strings.Last")
			if last && !slash(a) || !last && !dot(a) {
				bad = "the package is looked for by " + short(r.N.Callee) + " of " + a
			}
		}
		if n < 1 {
			return
		}
		k.c.Ob("filter", fn.Name(), bad == "", o.Pos, "the package of a function: "+bad)
	}
}

// formatting: a line carries the record's level, time, message and every field of its own.
func (k *logCheck) formatting() {
	c := k.c
	f := k.method(k.format, "Format")
	if f == nil {
		c.Missing("line", "Format of the formatter")
		return
	}
	s := k.sum(f, nil)
	name := k.format.Obj().Name() + ".Format"
	wrote := func(st *State, pred func(p string) bool) bool {
		for key := range st.must {
			if !strings.HasPrefix(key, "wr:") {
				continue
			}
			for _, p := range strings.Split(key[3:], "\x00") {
				if pred(p) {
					return true
				}
			}
		}
		return false
	}
	for _, o := range s.Outs {
		bad := ""
		for what, pred := range map[string]func(p string) bool{
			"level": func(p string) bool {
				return strings.HasSuffix(p, "[p1.Level]") || strings.Contains(p, "String(p1.Level")
			},
			"time": func(p string) bool { return strings.Contains(p, "(time.Time).Format(p1.Time,") },
			"message": func(p string) bool {
				return p == "p1.Message" || strings.HasPrefix(p, "strings.Trim") && strings.Contains(p, "(p1.Message,")
			},
		} {
			if bad == "" && !wrote(o.St, pred) {
				bad = "the line lacks the record's " + what
			}
		}
		if v, known := ltruth(o.St, "next(range(p1.Data))#0"); bad == "" && (!known || v) {
			bad = "not all of the record's fields are looked at"
		}
		c.Ob("line", name, bad == "", o.Pos, "log line: "+bad)
	}
	for _, b := range s.Back {
		bad := ""
		sys := false
		for _, ft := range b.St.facts {
			p := lpath(b.St.fl, ft.T)
			if ft.Val && strings.HasPrefix(p, "lookup("+logPkg+".") && strings.Contains(p, "next(range(p1.Data))#1") {
				sys = true
			}
			if ft.Val && strings.HasPrefix(p, "(") && strings.Contains(p, "==") && strings.Contains(p, "next(range(p1.Data))#1") {
				for _, x := range []string{`"wallet"`, `"chain"`, `"module"`, `"prefix"`} {
					sys = sys || strings.Contains(p, x)
				}
			}
		}
		if !sys && !(wrote(b.St, func(p string) bool { return p == "next(range(p1.Data))#1" }) && wrote(b.St, func(p string) bool { return p == "next(range(p1.Data))#2" })) {
			bad = "a field is left out"
		}
		c.Ob("line", name+" fields", bad == "", c.P.posOf(f), "log line: "+bad)
	}
	// the letters of the levels, in logrus' order
	for _, m := range k.c.P.spkgs[rel(logPkg)].Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		if tab := globalTable(g); len(tab) == 7 && strings.HasPrefix(g.Type().String(), "*[]string") {
			bad := ""
			for i, w := range levelWords {
				if v := tab[strconv.Itoa(i)]; len(v) < 3 || !strings.HasPrefix(strings.ToLower(v[1:]), w[:1]) {
					bad = "level " + w + " is shown as " + v
				}
			}
			c.Ob("line", "letters of the levels", bad == "", logPkg, bad)
		}
	}
}

// globalTable: the constants a package-level slice or map literal is made of.
func globalTable(g *ssa.Global) map[string]string {
	out := map[string]string{}
	fn := g.Pkg.Func("init")
	if fn == nil {
		return nil
	}
	var val ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				val = st.Val
			}
		}
	}
	if val == nil {
		return nil
	}
	if sl, ok := val.(*ssa.Slice); ok {
		val = sl.X
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				if in.Map == val {
					kc, ok := in.Key.(*ssa.Const)
					vc, ok2 := in.Value.(*ssa.Const)
					if ok && ok2 && kc.Value != nil && vc.Value != nil {
						out[kc.Value.ExactString()] = vc.Value.ExactString()
					}
				}
			case *ssa.Store:
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && ia.X == val {
					kc, ok := ia.Index.(*ssa.Const)
					vc, ok2 := in.Val.(*ssa.Const)
					if ok && ok2 && vc.Value != nil {
						out[kc.Value.ExactString()] = vc.Value.ExactString()
					}
				}
			}
		}
	}
	return out
}

// names: a level's name and the level agree in both directions.
func (k *logCheck) names() {
	c := k.c
	for i, w := range levelWords {
		n := strings.ToUpper(w[:1]) + w[1:] + "Level"
		o, ok := k.pkg.Scope().Lookup(n).(*types.Const)
		v := int64(-1)
		if ok {
			v, _ = constant.Int64Val(constant.ToInt(o.Val()))
		}
		c.Ob("level-name", "constants", ok && v == int64(i), "", fmt.Sprintf("%s is %d instead of logrus' %d", n, v, i))
	}
	idx := map[string]int{}
	for i, w := range levelWords {
		idx[strconv.Quote(w)] = i
	}
	if f := c.P.FindFunc(logPkg + ".ParseLevel"); f == nil {
		c.Missing("level-name", "ParseLevel")
	} else {
		s := k.sum(f, nil)
		bad, pos := "", c.P.posOf(f)
		seen := map[int]bool{}
		for _, o := range s.Outs {
			isNil, known := nilState(o.St, o.Rets[1])
			name, others := "", map[int]bool{}
			tab := ""
			for _, ft := range o.St.facts {
				p := lpath(s.fl, ft.T)
				for q, i := range idx {
					if p == "("+q+"==strings.ToLower(p0))" || p == "(strings.ToLower(p0)=="+q+")" {
						if ft.Val {
							name = q
						} else {
							others[i] = true
						}
					}
				}
				if strings.HasPrefix(p, "lookup("+logPkg+".") && strings.HasSuffix(p, ",strings.ToLower(p0))#1") {
					tab = p
					if ft.Val {
						t := map[string]string{}
						if g, ok := c.P.spkgs[rel(logPkg)].Members[strings.TrimSuffix(strings.TrimPrefix(p, "lookup("+logPkg+"."), ",strings.ToLower(p0))#1")].(*ssa.Global); ok {
							t = globalTable(g)
						}
						for q, i := range idx {
							if t[q] != strconv.Itoa(i) {
								bad, pos = "the name "+q+" is not level "+strconv.Itoa(i), o.Pos
							}
							seen[i] = true
						}
						if len(t) != len(idx) {
							bad, pos = "other names are levels", o.Pos
						}
						if lpath(s.fl, stripConv(o.Rets[0])) != strings.TrimSuffix(p, "#1")+"#0" {
							bad, pos = "the level answered is not the one found", o.Pos
						}
					}
				}
			}
			switch {
			case !known:
				bad, pos = "its failure is not decided", o.Pos
			case isNil && tab != "":
			case isNil:
				v, ok := o.Rets[0].intVal()
				if !ok && len(s.Back) > 0 { // found in a loop
					for i := range levelWords {
						if y, known := o.St.eq(s.fl.path(stripConv(o.Rets[0])), strconv.Itoa(i)); known && y {
							v, ok = int64(i), true
						}
					}
					if !ok {
						for i := range levelWords {
							seen[i] = true
						}
						continue
					}
				}
				if name == "" || !ok || int64(idx[name]) != v {
					bad, pos = fmt.Sprintf("the name %s is level %s", name, lpath(s.fl, o.Rets[0])), o.Pos
				}
				seen[idx[name]] = true
			case tab == "" && len(s.Back) == 0 && (name != "" || len(others) != len(idx)):
				bad, pos = "a level's name is refused: "+name, o.Pos
			}
		}
		if bad == "" && len(seen) != len(levelWords) {
			bad = "not every level can be named"
		}
		c.Ob("level-name", "ParseLevel", bad == "", pos, "reading a level: "+bad)
	}
	if sel := types.NewMethodSet(k.level).Lookup(k.pkg, "String"); sel == nil {
		c.Missing("level-name", "Level.String")
	} else if f := c.P.SSA.FuncValue(sel.Obj().(*types.Func)); f != nil {
		s := k.sum(f, nil)
		bad, pos, n := "", c.P.posOf(f), 0
		for _, o := range s.Outs {
			if !o.Rets[0].isConst() {
				n = len(levelWords)
				continue
			}
			w := lpath(s.fl, o.Rets[0])
			i, ok := idx[w]
			if !ok {
				for _, ft := range o.St.facts {
					if ft.Val && ft.T.K == TBin && ft.T.Op == "==" && strings.Contains(lpath(s.fl, ft.T), "p0") {
						bad, pos = "a level's name is "+w, o.Pos
					}
				}
				continue
			}
			n++
			if v, known := o.St.eq("p0", strconv.Itoa(i)); !known || !v {
				bad, pos = w+" is the name of another level", o.Pos
			}
		}
		if bad == "" && n < len(levelWords) {
			bad = "not every level has its name"
		}
		c.Ob("level-name", "Level.String", bad == "", pos, "the name of a level: "+bad)
	}
}

// global: the package's functions are the global logger's methods of the same name.
func (k *logCheck) global() {
	c := k.c
	f := c.P.FindFunc(logPkg + ".SetGlobalLogger")
	if f == nil {
		c.Missing("global", "SetGlobalLogger")
		return
	}
	s := k.sum(f, nil)
	got := map[string]string{}
	for _, r := range s.Sto {
		g := stripBox(r.Args[0])
		if g.K != TGlobal && g.K != TGVar {
			continue
		}
		n := g.Op[strings.LastIndex(g.Op, ".")+1:]
		v := stripBox(r.Args[1])
		w := lpath(r.St.fl, v)
		if v.K == TClosure {
			w = "?"
			if mc, ok := v.N.Instr.(*ssa.MakeClosure); ok && len(v.Args) > 0 && lpath(r.St.fl, v.Args[len(v.Args)-1]) == "p0" {
				w = strings.TrimSuffix(mc.Fn.Name(), "$bound")
			}
		}
		got[n] = w
	}
	always := func(n string) bool {
		for _, o := range s.Outs {
			ok := false
			for e := range o.St.must {
				ok = ok || strings.HasPrefix(e, "sto:"+logPkg+"."+n+"=")
			}
			if !ok {
				return false
			}
		}
		return len(s.Outs) > 0
	}
	sc := k.pkg.Scope()
	iface := sc.Lookup("Logger").Type().Underlying().(*types.Interface)
	for _, n := range sc.Names() {
		v, ok := sc.Lookup(n).(*types.Var)
		if !ok || !v.Exported() {
			continue
		}
		if _, ok := v.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		has := false
		for i := 0; i < iface.NumMethods(); i++ {
			has = has || iface.Method(i).Name() == n
		}
		if !has {
			continue
		}
		c.Ob("global", n, got[n] == n && always(n), c.P.posOf(f), "log."+n+" is set to the global logger's "+got[n]+" or not at all")
	}
	ok := false
	for n, w := range got {
		if v, isv := sc.Lookup(n).(*types.Var); isv && types.Identical(v.Type(), sc.Lookup("Logger").Type()) && w == "p0" && always(n) {
			ok = true
		}
	}
	c.Ob("global", "the logger itself", ok, c.P.posOf(f), "the global logger is not the one given")
}

// forward: the forwarder gets the records of its level and above, to the vendor and address configured.
func (k *logCheck) forward() {
	c := k.c
	if f := c.P.FindFunc("(*" + logPkg + ".ForwarderConfig).HookLevels"); f == nil {
		c.Missing("forwarder", "HookLevels")
	} else {
		keep := func(n string) bool { return n == logPkg+".ParseLevel" }
		s := k.sum(f, keep)
		bad, pos := "", c.P.posOf(f)
		seen := map[int64]bool{}
		parse := logPkg + ".ParseLevel(p0.Level)"
		loop := false
		for _, o := range s.Outs {
			if isNil, known := nilState(o.St, o.Rets[1]); known && !isNil {
				continue
			}
			if v, known := ltruth(o.St, "(nil=="+parse+"#1)"); !known || !v {
				bad, pos = "a level that is none is accepted", o.Pos
				continue
			}
			lv := int64(-1)
			for i := range levelWords {
				if v, known := o.St.eq(parse+"#0", strconv.Itoa(i)); known && v {
					lv = int64(i)
				}
			}
			els, ok := o.St.elems(o.Rets[0])
			if lv < 0 {
				if !ok {
					loop = true // taken from all levels or a loop: not judged
				}
				continue
			}
			var got []int
			for _, e := range els {
				v, isInt := stripConv(e).intVal()
				if !isInt {
					ok = false
				}
				got = append(got, int(v))
			}
			sort.Ints(got)
			if !ok {
				loop = true
				continue
			}
			seen[lv] = true
			want := []int{}
			for i := 0; i <= int(lv); i++ {
				want = append(want, i)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				bad, pos = fmt.Sprintf("for %s it is given the levels %v", levelWords[lv], got), o.Pos
			}
		}
		if bad == "" && !loop && len(seen) != len(levelWords) {
			bad = "not every level is known to it"
		}
		c.Ob("forwarder", "levels", bad == "", pos, "the levels of a log forwarder: "+bad)
	}
	f := c.P.FindFunc(logPkg + ".AddForwarder")
	if f == nil {
		c.Missing("forwarder", "AddForwarder")
		return
	}
	keep := func(n string) bool {
		return strings.HasSuffix(n, ".HookLevels") || strings.HasSuffix(n, ".NetworkAndHostPort") || strings.HasSuffix(n, ".UnmarshalByOptions")
	}
	s := k.sum(f, keep)
	made := map[string]string{"fluentd": "github.com/evalphobia/logrus_fluent.NewWithConfig", "logstash": "github.com/bshuster-repo/logrus-logstash-hook.NewHook"}
	nok := map[string]bool{}
	var hook *types.Named
	for _, o := range s.Outs {
		bad := ""
		isNil, known := nilState(o.St, o.Rets[0])
		vendor := ""
		for v := range made {
			if y, ok := o.St.eq("p0.Vendor", strconv.Quote(v)); ok && y {
				vendor = v
			}
		}
		var added []*Event
		for _, e := range sortedKeys(o.St.must) {
			if strings.HasPrefix(e, "call:("+logPkg+".Logger).addHook(") || strings.HasPrefix(e, "call:(*"+lgrs+".Logger).AddHook(") || strings.HasPrefix(e, "again:") && strings.Contains(e, "ddHook(") {
				added = append(added, o.St.must[e])
			}
		}
		switch {
		case known && !isNil:
			if len(added) > 0 {
				bad = "a hook is added and the set-up fails"
			}
		case !known:
			bad = "its failure is not decided"
		case vendor == "":
			bad = "an unknown vendor is accepted"
		case len(added) != 1:
			bad = fmt.Sprintf("%d hooks are added", len(added))
		default:
			nok[vendor] = true
			e := added[0]
			if p := lpath(s.fl, e.Args[1]); p != logPkg+".globalLogger" && !strings.HasPrefix(p, "*"+logPkg) {
				bad = "the hook is added to " + p
			}
			h := stripBox(e.Args[len(e.Args)-1])
			if h.K != TAlloc {
				bad = "the hook added is " + lpath(s.fl, h)
				break
			}
			if pt, ok := h.T.Underlying().(*types.Pointer); ok {
				hook, _ = pt.Elem().(*types.Named)
			}
			okInner, okLv := false, false
			for _, v := range o.St.fieldVals(h) {
				v = stripBox(v)
				p := lpath(s.fl, v)
				if v.K != TExtract || v.I != 0 {
					continue
				}
				call := v.Args[0]
				if callName(call) == made[vendor] {
					okInner = true
					bad = k.forwardTo(s.fl, call, vendor)
				} else if call.K == TCall && call.N != nil && call.N.Dyn != nil { // made by a function chosen before
					if e := o.St.must[fmt.Sprintf("dyn@%d", call.N.ID)]; e != nil && e.Args[0].K == TFunc {
						t := e.Args[0]
						if g := c.P.FindFunc(short(t.Op)); g != nil {
							gs := k.sum(g, keep)
							for _, go_ := range gs.Outs {
								r := stripBox(go_.Rets[0])
								if r.K == TExtract && callName(r.Args[0]) == made[vendor] {
									okInner = true
									bad = k.forwardTo(gs.fl, r.Args[0], vendor)
								}
							}
						}
					}
				}
				if strings.HasPrefix(p, "(*"+logPkg+".ForwarderConfig).HookLevels(p0)#0") {
					okLv = true
				}
			}
			if bad == "" && !okInner {
				bad = "the hook is not made by " + made[vendor]
			}
			if bad == "" && !okLv {
				bad = "the hook is not for the levels configured"
			}
		}
		c.Ob("forwarder", "set-up", bad == "", o.Pos, "log forwarder "+vendor+": "+bad)
	}
	for v := range made {
		c.Ob("forwarder", "vendor "+v, nok[v], c.P.posOf(f), "a forwarder for "+v+" cannot be set up")
	}
	if hook == nil {
		c.Missing("forwarder", "the hook added")
		return
	}
	if m := k.method(hook, "Levels"); m != nil {
		s := k.sum(m, nil)
		for _, o := range s.Outs {
			p := lpath(s.fl, o.Rets[0])
			c.Ob("forwarder", "levels answered", strings.HasPrefix(p, "p0."), o.Pos, "the hook's levels are "+p)
		}
	}
	if m := k.method(hook, "Fire"); m != nil {
		s := k.sum(m, nil)
		n := 0
		for _, o := range s.Outs {
			n++
			bad := ""
			p := lpath(s.fl, o.Rets[0])
			cp := false // a copy of the record may be handed over instead
			for e, ev := range o.St.must {
				if strings.HasPrefix(e, "call:("+lgrs+".Hook).Fire(p0.") && strings.HasSuffix(e, ",new)") {
					fv := o.St.fieldVals(stripBox(ev.Args[2]))
					cp = fv["Message"] != nil && lpath(s.fl, fv["Message"]) == "p1.Message" && fv["Level"] != nil && lpath(s.fl, fv["Level"]) == "p1.Level"
				}
			}
			if !strings.HasPrefix(p, "("+lgrs+".Hook).Fire(p0.") || !strings.HasSuffix(p, ",p1)") && !(cp && strings.HasSuffix(p, ",new)")) {
				bad = "it answers " + p
			}
			changed := false
			for e := range o.St.must {
				changed = changed || strings.HasPrefix(e, "sto:&p1.Data=") && e != "sto:&p1.Data=p1.Data"
			}
			if changed && !hasEvent(o.St, "sto:&p1.Data=p1.Data") {
				bad = "the record's fields are not put back"
			}
			fired := 0
			for e := range o.St.must {
				if strings.Contains(e, "call:("+lgrs+".Hook).Fire(") {
					fired++
				}
			}
			if fired != 1 {
				bad = "the record is not handed over exactly once"
			}
			for e := range o.St.must {
				if strings.HasPrefix(e, "sto:&p1.") && !strings.HasPrefix(e, "sto:&p1.Data=") {
					bad = "it changes the record: " + e[4:]
				}
			}
			c.Ob("forwarder", "a record", bad == "", o.Pos, "forwarding a record: "+bad)
		}
		// every field is copied
		for _, b := range s.Back {
			ok := false
			for e := range b.St.must {
				if strings.HasPrefix(e, "map:") && strings.HasSuffix(e, "[next(range(p1.Data))#1]=next(range(p1.Data))#2") {
					ok = true
				}
			}
			c.Ob("forwarder", "a record's fields", ok, c.P.posOf(m), "forwarding a record: a field is left out")
		}
	}
}

// forwardTo: the forwarder is made for the network and address configured.
func (k *logCheck) forwardTo(fl *Flow, call *Term, vendor string) string {
	nh := "(*" + logPkg + ".ForwarderConfig).NetworkAndHostPort(p0,"
	if vendor != "logstash" {
		t := stripBox(call.Args[0])
		st, ok := t.T.Underlying().(*types.Struct)
		if !ok || t.K != TStruct {
			return ""
		}
		for i := 0; i < st.NumFields() && i < len(t.Args); i++ {
			a := lpath(fl, t.Args[i])
			switch st.Field(i).Name() {
			case "FluentNetwork":
				if !strings.HasPrefix(a, nh) || !strings.HasSuffix(a, "#0") {
					return "the network given to the forwarder is " + a
				}
			case "Host":
				if !strings.Contains(a, nh) || !strings.Contains(a, "#1") {
					return "the host given to the forwarder is " + a
				}
			}
		}
		return ""
	}
	for i, what := range []string{"network", "address"} {
		if a := lpath(fl, call.Args[i]); !strings.HasPrefix(a, nh) || !strings.HasSuffix(a, fmt.Sprintf("#%d", i)) {
			return "the " + what + " given to the forwarder is " + a
		}
	}
	return ""
}

// start: what is configured is what is set.
func (k *logCheck) start() {
	c := k.c
	var f *ssa.Function
	for _, g := range c.P.funcs {
		if g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "cmd/relay") && callsDirectly(g, func(h *ssa.Function) bool { return short(h.String()) == logPkg+".SetGlobalLogger" }) {
			f = g
		}
	}
	if f == nil {
		c.Missing("start", "the start's log set-up")
		return
	}
	cfg, mods := "", ""
	for i, p := range f.Params {
		if strings.HasSuffix(p.Type().String(), "cmd/relay.Config") {
			cfg = fmt.Sprintf("p%d", i)
		}
		if _, ok := p.Type().Underlying().(*types.Map); ok {
			mods = fmt.Sprintf("p%d", i)
		}
	}
	if cfg == "" || mods == "" {
		c.Missing("start", "the configuration and module levels of the start's log set-up")
		return
	}
	lgI := "call:(" + logPkg + ".Logger)."
	keep := func(n string) bool {
		return strings.HasPrefix(n, logPkg+".") || strings.HasPrefix(n, "("+logPkg+".") || strings.HasPrefix(n, "(*"+logPkg+".")
	}
	s := k.sum(f, keep)
	if len(s.Outs) == 0 {
		c.Ob("start", "set-up", false, c.P.posOf(f), "it never returns")
	}
	parsed := func(st *State, arg string) bool {
		v, known := ltruth(st, "(nil=="+logPkg+".ParseLevel("+arg+")#1)")
		return known && v
	}
	for _, o := range s.Outs {
		st := o.St
		ob := func(key, bad string) { c.Ob("start", key, bad == "", o.Pos, "setting up the log: "+bad) }
		l := ""
		if len(o.Rets) > 0 {
			l = lpath(s.fl, o.Rets[0])
		}
		bad := ""
		if !hasEvent(st, "call:"+logPkg+".SetGlobalLogger("+l+")") {
			bad = "the global logger is not the one set up"
		}
		ob("the global logger", bad)
		for _, x := range []struct{ fld, set string }{{"LogLevel", "SetLevel"}, {"ConsoleLevel", "SetConsoleLevel"}} {
			bad = ""
			arg := cfg + "." + x.fld
			if !parsed(st, arg) {
				bad = x.fld + " that is no level is accepted"
			} else if !hasEvent(st, lgI+x.set+"("+l+","+logPkg+".ParseLevel("+arg+")#0)") {
				bad = x.fld + " is not what " + x.set + " sets"
			}
			for e := range st.must {
				if strings.HasPrefix(e, lgI+x.set+"(") && !strings.HasSuffix(e, "ParseLevel("+arg+")#0)") || strings.HasPrefix(e, "again:"+lgI+x.set+"(") {
					bad = x.set + " also sets something else"
				}
			}
			ob(x.fld, bad)
		}
		bad = ""
		if v, known := ltruth(st, "next(range("+mods+"))#0"); !known || v {
			bad = "not every module level is looked at"
		}
		ob("module levels", bad)
		// the file
		bad = ""
		lw := cfg + ".LogWriter"
		noFile := false
		if v, known := ltruth(st, "(nil=="+lw+")"); known && v {
			noFile = true
		}
		if v, known := ltruth(st, `(""==`+lw+".Filename)"); known && v {
			noFile = true
		}
		var fw *Event
		for e, ev := range st.must {
			if strings.HasPrefix(e, lgI+"SetFileWriter("+l+",") {
				fw = ev
			}
		}
		if !noFile {
			if fw == nil {
				bad = "the log file configured is not set"
			} else if w := stripBox(fw.Args[2]); w.K != TExtract || callName(w.Args[0]) != modPath+"/"+logPkg+".NewWriter" {
				bad = "the log file set is " + lpath(s.fl, w)
			}
			for e := range st.must {
				if strings.HasPrefix(e, "wrt:") && e != "wrt:" {
					bad = e[4:]
				}
			}
		}
		ob("the log file", bad)
		// the forwarder
		bad = ""
		lf := cfg + ".LogForwarder"
		none := false
		if v, known := ltruth(st, "(nil=="+lf+")"); known && v {
			none = true
		}
		v1, k1 := ltruth(st, `(""==`+lf+".Vendor)")
		v2, k2 := ltruth(st, `(""==`+lf+".Address)")
		if k1 && v1 && k2 && v2 {
			none = true
		}
		call := logPkg + ".AddForwarder(" + lf + ")"
		if !none {
			if !hasEvent(st, "call:"+call) {
				bad = "the forwarder configured is not added"
			} else if v, known := ltruth(st, "(nil=="+call+")"); !known || !v {
				bad = "a forwarder that cannot be set up is accepted"
			}
		}
		ob("the forwarder", bad)
	}
	for _, b := range s.Back {
		bad := ""
		kk, vv := "next(range("+mods+"))#1", "next(range("+mods+"))#2"
		if v, known := ltruth(b.St, "next(range("+mods+"))#0"); !known || !v {
			continue
		}
		ok := false
		for e := range b.St.must {
			for _, v := range []string{vv, "lookup(" + mods + "," + kk + ")", "lookup(" + mods + "," + kk + ")#0", mods + "[" + kk + "]"} {
				if strings.HasPrefix(e, lgI+"SetModuleLevel(") && strings.HasSuffix(e, ","+kk+","+logPkg+".ParseLevel("+v+")#0)") {
					ok, vv = true, v
				}
			}
		}
		if !ok {
			bad = "a module's level is not set"
		} else if !parsed(b.St, vv) {
			bad = "a module level that is none is accepted"
		}
		c.Ob("start", "a module's level", bad == "", c.P.posOf(f), "setting up the log: "+bad)
	}
	// what the file writer is made with
	fields := []string{"Filename", "MaxSize", "MaxAge", "MaxBackups", "LocalTime", "Compress"}
	for _, r := range s.Call {
		if short(r.N.Callee) != logPkg+".NewWriter" {
			continue
		}
		bad := ""
		fv := r.St.fieldVals(stripBox(r.Args[0]))
		for _, fl := range fields {
			got, want := "?", cfg+".LogWriter."+fl
			if fv[fl] != nil {
				got = lpath(s.fl, fv[fl])
			}
			if fl == "Filename" {
				if t := fv[fl]; t == nil || !strings.HasSuffix(callName(t), ".FileConfig).ResolveAbsolute") || lpath(s.fl, t.Args[1]) != want {
					bad = "the file's name is " + got
				}
			} else if got != want {
				bad = fl + " is " + got
			}
		}
		c.Ob("start", "the log file's settings", bad == "", s.g.pos(r.N), "setting up the log: "+bad)
	}
	if w := c.P.FindFunc(logPkg + ".NewWriter"); w == nil {
		c.Missing("start", "NewWriter")
	} else {
		s := k.sum(w, nil)
		for _, o := range s.Outs {
			bad := ""
			if isNil, known := nilState(o.St, o.Rets[1]); known && !isNil {
				continue
			}
			r := stripBox(o.Rets[0])
			if r.K != TAlloc {
				bad = "the writer is " + lpath(s.fl, r)
			} else {
				fv := o.St.fieldVals(r)
				for _, fl := range fields {
					if fv[fl] == nil || lpath(s.fl, fv[fl]) != "p0."+fl {
						bad = "its " + fl + " is not the one configured"
					}
				}
			}
			c.Ob("start", "NewWriter", bad == "", o.Pos, "the log file's writer: "+bad)
		}
	}
}

// paths: a path in the configuration is relative to the configuration file.
func (k *logCheck) paths() {
	c := k.c
	if f := c.P.FindFunc("(*common/config.FileConfig).ResolveAbsolute"); f == nil {
		c.Missing("path", "ResolveAbsolute")
	} else {
		s := c.Sum(f, SumCfg{NoKill: func(string) bool { return true }})
		for _, o := range s.Outs {
			bad := ""
			p := lpath(s.fl, o.Rets[0])
			abs, ak := ltruth(o.St, "path/filepath.IsAbs(p1)")
			no, nk := ltruth(o.St, `(""==p0.FilePath)`)
			switch {
			case ak && abs:
				if p != "p1" && p != "path/filepath.Clean(p1)" {
					bad = "an absolute path becomes " + p
				}
			case !ak:
				bad = "whether the path is absolute is not looked at"
			case nk && no:
				if p != "path/filepath.Abs(p1)#0" {
					bad = "without a configuration file a path becomes " + p
				}
			case !nk:
				bad = "whether there is a configuration file is not looked at"
			default:
				t := stripBox(o.Rets[0])
				if callName(t) == "path/filepath.Clean" {
					t = t.Args[0]
				}
				els := []string{"?"}
				if callName(t) == "path.Join" || callName(t) == "path/filepath.Join" {
					if e, ok := o.St.elems(t.Args[0]); ok {
						els = o.St.paths(e)
					}
				}
				if strings.Join(els, "|") != "path/filepath.Dir(p0.FilePath)|p1" {
					bad = "a relative path becomes " + p + " of " + strings.Join(els, ", ")
				}
			}
			c.Ob("path", "ResolveAbsolute", bad == "", o.Pos, "a path in the configuration: "+bad)
		}
	}
	if f := c.P.FindFunc("(*common/config.FileConfig).ResolveRelative"); f == nil {
		c.Missing("path", "ResolveRelative")
	} else {
		s := c.Sum(f, SumCfg{NoKill: func(string) bool { return true }})
		for _, o := range s.Outs {
			p := lpath(s.fl, o.Rets[0])
			ok := p == "path/filepath.Rel(path/filepath.Abs(path/filepath.Dir(p0.FilePath)#0)#0,path/filepath.Abs(p1)#0)#0" ||
				p == "path/filepath.Rel(path/filepath.Abs(path/filepath.Dir(p0.FilePath))#0,path/filepath.Abs(p1)#0)#0"
			c.Ob("path", "ResolveRelative", ok, o.Pos, "a path to be saved in the configuration becomes "+p)
		}
	}
}

// lpath: a value's description, whether its place was read at once or copied first.
func lpath(f *Flow, t *Term) string {
	return strings.NewReplacer("*p0.", "p0.", "*p1.", "p1.", "*p2.", "p2.").Replace(f.path(t))
}

func ltruth(st *State, p string) (val, known bool) {
	for _, f := range st.facts {
		if lpath(st.fl, f.T) == p {
			return f.Val, true
		}
	}
	return false, false
}

// deep: what a text is made of.
func deep(st *State, t *Term, d int) (out []string) {
	if t == nil || d > 6 {
		return nil
	}
	if es, ok := st.elems(t); ok {
		for _, x := range es {
			out = append(out, deep(st, x, d+1)...)
		}
		return out
	}
	t = stripBox(t)
	out = append(out, lpath(st.fl, t))
	if t.K == TCall || t.K == TPure || t.K == TConv || t.K == TBin || t.K == TSlice || t.K == TExtract {
		for _, a := range t.Args {
			out = append(out, deep(st, a, d+1)...)
		}
	}
	return out
}
