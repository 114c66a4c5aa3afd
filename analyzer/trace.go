package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Traces: the sequence of the operations of interest a function performs, per outcome, with loops folded: the
// trace of an outcome holds a mark "{Ln" where loop n was entered, followed by what the last, unfinished
// iteration did; what the completed iterations do is collected separately.

type TraceCfg struct {
	Tok    func(st *State, n *Node, args []*Term, res *Term) string // text of an operation ("" = not of interest)
	Init   func(st *State)
	Pure   map[string]bool
	NoKill func(string) bool
	Opaque func(*ssa.Function) bool
	Errs   map[string]string // error values with a meaning: path -> mark
}

type TraceOut struct {
	Text string
	Ret  string // ok: returns nil; last: returns the error of the last operation; fail; ?: not known
	O    Outcome
}

type TraceBody struct {
	Loop string
	Text string
	St   *State
	E    *Edge
}

type Trace struct {
	s    *Sum
	Outs []TraceOut
	Body []TraceBody
	lost bool
}

func trText(st *State) (string, bool) {
	for k, e := range st.must {
		if e.Tag == "tr" {
			return k[3:], true
		}
	}
	return "", false
}

func trSet(st *State, text string, n *Node) {
	for k, e := range st.must {
		if e.Tag == "tr" {
			delete(st.must, k)
		}
	}
	st.addMust("tr|"+text, "tr", n)
}

// settle appends what is known about the error of the last operation.
func (tc *TraceCfg) settle(st *State) {
	text, ok := trText(st)
	if !ok || text == "" || strings.HasSuffix(text, ";") || strings.HasSuffix(text, "{") {
		return
	}
	trSet(st, text+tc.status(st)+";", nil)
	st.addMust("er", "er", nil)
}

func (tc *TraceCfg) status(st *State) string {
	er := st.must["er"]
	if er == nil {
		return "?"
	}
	if len(er.Args) == 0 || er.Args[0] == nil {
		return ""
	}
	e := er.Args[0]
	if nl, k := nilState(st, e); k && nl {
		return ""
	}
	var no []string
	for _, f := range st.facts {
		t := f.T
		var x *Term
		switch {
		case t.K == TBin && t.Op == "==" && t.Args[0] == e:
			x = t.Args[1]
		case t.K == TBin && t.Op == "==" && t.Args[1] == e:
			x = t.Args[0]
		case t.K == TPure && short(t.Op) == "errors.Is" && t.Args[0] == e, t.K == TPure && short(t.Op) == "common/errors.Is" && t.Args[0] == e:
			x = t.Args[1]
		}
		if x == nil {
			continue
		}
		if m := tc.Errs[st.fl.path(x)]; m != "" {
			if f.Val {
				return "~" + m
			}
			no = append(no, m)
		}
	}
	sort.Strings(no)
	if nl, k := nilState(st, e); k && !nl {
		if len(no) > 0 {
			return "!not" + strings.Join(no, "")
		}
		return "!"
	}
	return "?"
}

func (c *Ctx) Trace(fn *ssa.Function, tc TraceCfg) *Trace {
	t := &Trace{}
	sc := SumCfg{Opaque: tc.Opaque, NoKill: tc.NoKill, Max: 600}
	sc.Ev = func(st *State, n *Node, args []*Term, res *Term) {
		if n.Op != OpInstr {
			return
		}
		if _, ok := n.Instr.(*ssa.Store); !ok && !n.isCall() {
			return
		}
		tok := tc.Tok(st, n, args, res)
		if tok == "" {
			return
		}
		tc.settle(st)
		text, ok := trText(st)
		if !ok {
			return
		}
		trSet(st, text+tok, n)
		if e := errOf(st.fl.ts, res); e != nil && n.isCall() {
			st.addMust("er", "er", nil, e)
		} else {
			st.addMust("er", "er", nil)
		}
	}
	sc.Cfg = func(fc *FlowCfg) {
		fc.PureExtra = tc.Pure
		fc.Init = func(st *State) {
			st.addMust("tr|", "tr", nil)
			st.addMust("er", "er", nil)
			if tc.Init != nil {
				tc.Init(st)
			}
		}
		fc.OnHead = func(st *State, e *Edge, phis []PhiIn) func() {
			tc.settle(st)
			text, ok := trText(st)
			if !ok {
				return nil
			}
			mark := fmt.Sprintf("{L%d{", e.To.ID)
			if !e.isBack() {
				trSet(st, text+mark, nil)
				return nil
			}
			i := strings.LastIndex(text, mark)
			if i < 0 {
				trSet(st, text+"?lost", nil)
				return nil
			}
			if st.fl.final {
				t.Body = append(t.Body, TraceBody{fmt.Sprintf("L%d", e.To.ID), text[i+len(mark):], st.clone(), e})
			}
			trSet(st, text[:i+len(mark)], nil)
			return nil
		}
	}
	s := c.Sum(fn, sc)
	t.s = s
	for _, o := range s.Outs {
		text, ok := trText(o.St)
		if !ok {
			t.lost = true
			continue
		}
		var er *Term
		if e := o.St.must["er"]; e != nil && len(e.Args) == 1 {
			er = e.Args[0]
		}
		to := TraceOut{O: o, Ret: "?"}
		if len(o.Rets) > 0 {
			r := o.Rets[len(o.Rets)-1]
			nl, k := nilState(o.St, r)
			switch {
			case k && nl:
				to.Ret = "ok"
			case er != nil && r == er:
				to.Ret = "last"
			case k:
				to.Ret = "fail"
			}
		}
		st := o.St.clone()
		if to.Ret != "last" {
			tc.settle(st)
			text, _ = trText(st)
		} else {
			text += ";"
		}
		to.Text = text
		t.Outs = append(t.Outs, to)
	}
	return t
}
