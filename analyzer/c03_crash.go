package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// panicSite: may this instruction crash in this state? "" when it provably cannot.
func panicSite(st *State, n *Node, args []*Term) (kind, msg string) {
	ts := st.fl.ts
	le := func(l lin) bool { return l.ok && st.entails(l) }
	seqLen := func(x *Term) lin {
		if k, ok := arrayLen(x.T); ok {
			return linK(k)
		}
		return st.lin(ts.lenOf(x, nil))
	}
	switch in := n.Instr.(type) {
	case *ssa.IndexAddr, *ssa.Index:
		l, i := seqLen(args[0]), st.lin(args[1])
		if !le(i.neg()) {
			return "index", "index " + st.fl.path(args[1]) + " may be negative"
		}
		if !le(i.sub(l).plus(1)) {
			return "index", "index " + st.fl.path(args[1]) + " may be beyond " + st.fl.path(args[0])
		}
		return "index", ""
	case *ssa.Lookup:
		if !isString(in.X.Type()) {
			return "", ""
		}
		l, i := seqLen(args[0]), st.lin(args[1])
		if !le(i.neg()) || !le(i.sub(l).plus(1)) {
			return "index", "index " + st.fl.path(args[1]) + " may be outside " + st.fl.path(args[0])
		}
		return "index", ""
	case *ssa.Slice:
		l := seqLen(args[0])
		lo, hi := newLin(), l
		if args[1] != nil {
			lo = st.lin(args[1])
			if !le(lo.neg()) {
				return "slice", "bound " + st.fl.path(args[1]) + " may be negative"
			}
		}
		if args[2] != nil {
			hi = st.lin(args[2])
			if !le(hi.sub(l)) {
				return "slice", "bound " + st.fl.path(args[2]) + " may be beyond " + st.fl.path(args[0])
			}
		}
		if !le(lo.sub(hi)) {
			return "slice", "slice bounds of " + st.fl.path(args[0]) + " may cross"
		}
		return "slice", ""
	case *ssa.TypeAssert:
		if in.CommaOk {
			return "", ""
		}
		x := args[0]
		if x.K == TIface {
			if !types.IsInterface(in.AssertedType) && types.Identical(x.T, in.AssertedType) {
				return "assert", ""
			}
			if it, ok := in.AssertedType.Underlying().(*types.Interface); ok && types.Implements(x.T, it) {
				return "assert", ""
			}
		}
		return "assert", "type of " + st.fl.path(x) + " is assumed to be " + short(in.AssertedType.String())
	case *ssa.MakeSlice:
		l := st.lin(args[0])
		if !le(l.neg()) {
			return "make", "length " + st.fl.path(args[0]) + " may be negative"
		}
		return "make", ""
	case *ssa.BinOp:
		if (in.Op == token.QUO || in.Op == token.REM) && isInteger(in.X.Type()) {
			l := st.lin(args[1])
			if !le(linK(1).sub(l)) && !le(l.plus(1)) {
				return "divide", "divisor " + st.fl.path(args[1]) + " may be zero"
			}
			return "divide", ""
		}
	case *ssa.Panic:
		return "panic", "panics"
	}
	return "", ""
}

func init() {
	if os.Getenv("C03EXP") != "" {
		register("C03X", "exp", "exp", func(c *Ctx) {
			tot, bad := 0, 0
			for _, f := range c.P.funcs {
				p := c.P.posOf(f)
				if strings.Contains(p, "_test.go") || strings.Contains(p, "abigen") || strings.Contains(p, "common/cli") || strings.Contains(p, "common/log") || f.Synthetic != "" || !strings.Contains(f.String(), os.Getenv("C03EXP")) {
					continue
				}
				seen := map[string]string{}
				sc := SumCfg{Max: 40, Numeric: true}
				sc.Cfg = func(fc *FlowCfg) {
					old := fc.Pre
					fc.Pre = func(st *State, n *Node, args []*Term, final bool) {
						old(st, n, args, final)
						if !final || n.Op != OpInstr {
							return
						}
						k, msg := panicSite(st, n, args)
						if k == "" {
							return
						}
						key := st.fl.g.pos(n) + " " + k
						if m, ok := seen[key]; !ok || m == "" {
							seen[key] = msg
						}
					}
				}
				t0 := time.Now()
				c.Sum(f, sc)
				if d := time.Since(t0); d > 2*time.Second {
					fmt.Println("SLOW", short(f.String()), d)
				}
				for _, k := range sortedKeys(seen) {
					tot++
					if m := seen[k]; m != "" {
						bad++
						fmt.Println(short(f.String()), k, m)
					}
				}
			}
			fmt.Println("total", tot, "unproven", bad)
		})
	}
}
