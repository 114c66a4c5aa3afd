package main

import (
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// A small linear-arithmetic abstract domain: the facts of a state, restricted to
// integer comparisons and lengths, form a set of linear constraints; entailment is
// decided by bounded Fourier-Motzkin elimination (sound: "no" may mean unknown).

type lin struct {
	c  map[*Term]*big.Int
	k  *big.Int
	ok bool
}

func newLin() lin { return lin{c: map[*Term]*big.Int{}, k: new(big.Int), ok: true} }

func (l lin) add(m lin, f *big.Int) lin {
	r := newLin()
	for t, v := range l.c {
		r.c[t] = new(big.Int).Set(v)
	}
	r.k.Set(l.k)
	for t, v := range m.c {
		x := new(big.Int).Mul(v, f)
		if o := r.c[t]; o != nil {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(r.c, t)
		} else {
			r.c[t] = x
		}
	}
	r.k.Add(r.k, new(big.Int).Mul(m.k, f))
	return r
}

var (
	bigOne  = big.NewInt(1)
	bigNeg1 = big.NewInt(-1)
)

func linK(i int64) lin { l := newLin(); l.k.SetInt64(i); return l }
func linAtom(t *Term) lin {
	l := newLin()
	l.c[t] = big.NewInt(1)
	return l
}
func (l lin) sub(m lin) lin    { return l.add(m, bigNeg1) }
func (l lin) plus(i int64) lin { return l.add(linK(i), bigOne) }
func (l lin) isConst() bool    { return len(l.c) == 0 }
func (l lin) String() string {
	var o []string
	for t, k := range l.c {
		o = append(o, k.String()+"*"+t.key)
	}
	sort.Strings(o)
	return strings.Join(append(o, l.k.String()), " + ")
}
func (l lin) neg() lin         { return newLin().sub(l) }

func isIntTerm(t *Term) bool {
	if t == nil {
		return false
	}
	if t.K == TLen || t.K == TCap {
		return true
	}
	if t.isConst() {
		return t.C.Kind() == constant.Int
	}
	return t.T != nil && isInteger(t.T)
}

func (s *State) lin(t *Term) lin {
	if t.isConst() && t.C.Kind() == constant.Int {
		l := newLin()
		b, _ := new(big.Int).SetString(t.C.ExactString(), 10)
		if b != nil {
			l.k = b
			return l
		}
	}
	switch t.K {
	case TBin:
		switch t.Op {
		case "+":
			if isInteger(t.T) {
				return s.lin(t.Args[0]).add(s.lin(t.Args[1]), bigOne)
			}
		case "-":
			if isInteger(t.T) && !isUnsigned(t.T) {
				return s.lin(t.Args[0]).sub(s.lin(t.Args[1]))
			}
		case "*":
			if isInteger(t.T) {
				a, b := s.lin(t.Args[0]), s.lin(t.Args[1])
				if a.isConst() {
					return newLin().add(b, a.k)
				}
				if b.isConst() {
					return newLin().add(a, b.k)
				}
			}
		case "<<":
			if v, ok := t.Args[1].intVal(); ok && v >= 0 && v < 31 && isInteger(t.T) && !isUnsigned(t.T) {
				return newLin().add(s.lin(t.Args[0]), new(big.Int).Lsh(bigOne, uint(v)))
			}
		}
	case TConv:
		if t.Op == "=" {
			return s.lin(t.Args[0])
		}
	}
	return linAtom(t)
}

type consSet struct {
	s    *State
	cs   []lin // each: expr <= 0
	neqs []lin // each: expr != 0
	seen map[*Term]bool
}

func bigOf(v constant.Value) *big.Int {
	b, _ := new(big.Int).SetString(v.ExactString(), 10)
	return b
}

// intrinsic adds what is always true of an atom.
func (cs *consSet) intrinsic(t *Term) {
	if cs.seen[t] {
		return
	}
	cs.seen[t] = true
	s := cs.s
	le := func(l lin) { cs.addLE(l) } // l <= 0
	a := linAtom(t)
	switch t.K {
	case TLen, TCap:
		le(a.neg())
		if t.K == TLen {
			x := t.Args[0]
			if x.K == TPure {
				switch x.Op {
				case "strings.Split":
					if sep, ok := x.Args[1].strVal(); ok && sep != "" {
						le(a.neg().plus(1))
					}
				case "strings.SplitN":
					if n, ok := x.Args[2].intVal(); ok && n > 0 {
						le(a.neg().plus(1))
						le(a.plus(-n))
					}
				case "encoding/hex.EncodeToString":
					l := s.lin(s.fl.ts.lenOf(x.Args[0], nil))
					le(a.sub(l.add(l, bigOne)))
					le(l.add(l, bigOne).sub(a))
				case "(*math/big.Int).Bytes":
				}
			}
			if x.K == TCall && x.Op == "" {
				if n := fixedLen[x.N.Callee]; n > 0 {
					le(a.plus(-n))
					le(a.neg().plus(n))
				}
			}
		}
		return
	}
	if t.T != nil {
		if lo, hi, ok := intRange(t.T); ok {
			b, _ := t.T.Underlying().(*types.Basic)
			k := b.Kind()
			if k != types.Int && k != types.Int64 {
				le(a.neg().add(linBig(bigOf(lo)), bigOne))
				le(a.sub(linBig(bigOf(hi))))
			} else {
				_ = hi
			}
		}
	}
	switch t.K {
	case TBin:
		switch t.Op {
		case "&":
			for i := 0; i < 2; i++ {
				if c, ok := t.Args[i].intVal(); ok && c >= 0 {
					le(a.neg())
					le(a.plus(-c))
				}
			}
		case "%":
			if c, ok := t.Args[1].intVal(); ok && c > 0 {
				le(a.plus(-(c - 1)))
				if s.entailsBase(s.lin(t.Args[0]).neg(), cs.depth()) { // x >= 0
					le(a.neg())
				} else {
					le(a.neg().plus(-(c - 1)))
				}
			}
		case ">>":
			x := s.lin(t.Args[0])
			if isUnsigned(t.Args[0].T) || s.entailsBase(x.neg(), cs.depth()) {
				le(a.neg())
				le(a.sub(x))
				if k, ok := t.Args[1].intVal(); ok && k >= 0 && k < 62 {
					// a*2^k <= x
					m := newLin().add(a, new(big.Int).Lsh(bigOne, uint(k)))
					le(m.sub(x))
				}
			}
		case "/":
			x := s.lin(t.Args[0])
			if c, ok := t.Args[1].intVal(); ok && c > 0 && s.entailsBase(x.neg(), cs.depth()) {
				le(a.neg())
				m := newLin().add(a, big.NewInt(c))
				le(m.sub(x))
				le(x.sub(m).plus(-(c - 1)))
			} else if ok && c > 0 && s.entailsBase(x.neg().plus(-(c-1)), cs.depth()) {
				le(a.neg())
				le(x.sub(newLin().add(a, big.NewInt(c))).plus(-(c - 1)))
			}
		}
	case TConv:
		if t.Op == "~" {
			// value preserved if the operand is provably in range
			if lo, hi, ok := intRange(t.T); ok {
				x := s.lin(t.Args[0])
				if cs.depth() < 2 && s.entailsBase(linBig(bigOf(lo)).sub(x), cs.depth()) && s.entailsBase(x.sub(linBig(bigOf(hi))), cs.depth()) {
					le(a.sub(x))
					le(x.sub(a))
				}
			}
		}
	case TCall:
		if t.Op == "copy" {
			le(a.neg())
			le(a.sub(s.lin(s.fl.ts.lenOf(t.Args[0], nil))))
			le(a.sub(s.lin(s.fl.ts.lenOf(t.Args[1], nil))))
		}
		switch t.N.Callee {
		case "(reflect.Value).Len", "(reflect.Value).NumField":
			le(a.neg())
		}
	case TPure:
		switch t.Op {
		case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "bytes.Index":
			le(a.neg().plus(-1))
			l := s.lin(s.fl.ts.lenOf(t.Args[0], nil))
			if t.Op == "strings.IndexByte" || t.Op == "strings.LastIndexByte" {
				le(a.sub(l).plus(1))
			} else {
				sl := int64(0)
				if c, ok := t.Args[1].strVal(); ok {
					sl = int64(len(c))
				}
				if sl >= 1 {
					if s.entailsBase(a.neg(), cs.depth()) {
						le(a.sub(l).plus(sl))
					} else {
						le(a.sub(l).plus(1))
					}
				} else {
					le(a.sub(l))
				}
			}
		case "(*math/big.Int).Sign", "bytes.Compare", "(*math/big.Int).Cmp":
			le(a.plus(-1))
			le(a.neg().plus(-1))
		case "(*math/big.Int).BitLen":
			le(a.neg())
		}
	case TSym:
		cs.phiBounds(t)
	}
}

var fixedLen = map[string]int64{}

func linBig(b *big.Int) lin { l := newLin(); l.k.Set(b); return l }

func (cs *consSet) depth() int { return cs.s.fl.proveDepth }

// phiBounds: monotone induction variables.
func (cs *consSet) phiBounds(t *Term) {
	n := t.N
	if n.Op != OpPhi || !n.Blk.loopHead {
		return
	}
	s := cs.s
	f := s.fl
	in := f.phiIn[n]
	var entries []*Term
	up, down := true, true
	for i, x := range in {
		if x == nil || i >= len(n.Blk.Preds) {
			continue
		}
		from := n.Blk.Preds[i].From
		if !from.loops[n.Blk] {
			entries = append(entries, x)
			continue
		}
		u, d := f.stepSigns(s, x, t, 0)
		up = up && u
		down = down && d
	}
	if len(entries) == 0 {
		return
	}
	if up {
		if len(entries) == 1 {
			cs.addLE(s.lin(entries[0]).sub(linAtom(t)))
		} else if m, ok := minConst(entries, false); ok {
			cs.addLE(linK(m).sub(linAtom(t)))
		}
	}
	if down {
		if len(entries) == 1 {
			cs.addLE(linAtom(t).sub(s.lin(entries[0])))
		} else if m, ok := minConst(entries, true); ok {
			cs.addLE(linAtom(t).sub(linK(m)))
		}
	}
}

func minConst(ts []*Term, max bool) (int64, bool) {
	var m int64
	for i, t := range ts {
		v, ok := t.intVal()
		if !ok {
			return 0, false
		}
		if i == 0 || (!max && v < m) || (max && v > m) {
			m = v
		}
	}
	return m, true
}

// stepSigns: does x (a back-edge value) only increase / only decrease relative to phi p?
func (f *Flow) stepSigns(s *State, x, p *Term, depth int) (up, down bool) {
	d := s.lin(x).sub(s.lin(p))
	if d.isConst() {
		return d.k.Sign() >= 0, d.k.Sign() <= 0
	}
	// p + (terms all of known sign)
	upOK, downOK := true, true
	for a, c := range d.c {
		if a == p {
			return f.stepPhi(s, x, p, depth)
		}
		nn := a.K == TLen || a.T != nil && isUnsigned(a.T)
		if !nn {
			if a.K == TSym && a.N.Op == OpPhi && depth < 3 {
				return f.stepPhi(s, x, p, depth)
			}
			return false, false
		}
		if c.Sign() < 0 {
			upOK = false
		} else {
			downOK = false
		}
	}
	return upOK && d.k.Sign() >= 0, downOK && d.k.Sign() <= 0
}

// stepPhi follows a merge phi inside the loop body.
func (f *Flow) stepPhi(s *State, x, p *Term, depth int) (bool, bool) {
	if x.K != TSym || x.N.Op != OpPhi || x.N.Blk.loopHead && x != p || depth > 3 {
		return false, false
	}
	if x == p {
		return true, true
	}
	up, down := true, true
	for _, a := range x.N.Args {
		u, d := f.stepNode(s, a, p, depth+1)
		up = up && u
		down = down && d
	}
	return up, down
}

func (f *Flow) stepNode(s *State, n *Node, p *Term, depth int) (bool, bool) {
	if n == p.N {
		return true, true
	}
	if n.Op == OpPhi && depth < 4 && !n.Blk.loopHead {
		up, down := true, true
		for _, a := range n.Args {
			u, d := f.stepNode(s, a, p, depth+1)
			up = up && u
			down = down && d
		}
		return up, down
	}
	if n.Op == OpInstr && n.Instr != nil {
		if b, ok := binOpOf(n); ok && (b == "+" || b == "-") {
			if n.Args[1].Op == OpConst && n.Args[1].Const != nil && n.Args[1].Const.Kind() == constant.Int {
				u, d := f.stepNode(s, n.Args[0], p, depth+1)
				sg := constant.Sign(n.Args[1].Const)
				if b == "-" {
					sg = -sg
				}
				return u && sg >= 0, d && sg <= 0
			}
		}
	}
	return false, false
}

func (cs *consSet) addLE(l lin) {
	cs.cs = append(cs.cs, l)
	for t := range l.c {
		cs.intrinsic(t)
	}
}

func (s *State) constraints() *consSet {
	cs := &consSet{s: s, seen: map[*Term]bool{}}
	ks := make([]string, 0, len(s.facts))
	for k := range s.facts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	ts := s.fl.ts
	for _, k := range ks {
		f := s.facts[k]
		t := f.T
		switch {
		case t.K == TBin && t.Op == "<" && isIntTerm(t.Args[0]) && isIntTerm(t.Args[1]):
			d := s.lin(t.Args[0]).sub(s.lin(t.Args[1]))
			if f.Val {
				cs.addLE(d.plus(1))
			} else {
				cs.addLE(d.neg())
			}
		case t.K == TBin && t.Op == "==" && isIntTerm(t.Args[0]) && isIntTerm(t.Args[1]):
			d := s.lin(t.Args[0]).sub(s.lin(t.Args[1]))
			if f.Val {
				cs.addLE(d)
				cs.addLE(d.neg())
			} else {
				for a := range d.c {
					cs.intrinsic(a)
				}
				cs.neqs = append(cs.neqs, d)
			}
		case t.K == TBin && t.Op == "==":
			for i := 0; i < 2; i++ {
				c, x := t.Args[i], t.Args[1-i]
				if c.isNil() && f.Val && x.T != nil {
					if _, ok := x.T.Underlying().(*types.Slice); ok {
						l := s.lin(ts.lenOf(x, nil))
						cs.addLE(l)
					}
				}
				if sv, ok := c.strVal(); ok {
					l := s.lin(ts.lenOf(x, nil))
					if f.Val {
						cs.addLE(l.plus(int64(-len(sv))))
						cs.addLE(l.neg().plus(int64(len(sv))))
					} else if sv == "" {
						cs.addLE(l.neg().plus(1))
					}
				}
			}
		case t.K == TPure && f.Val && (t.Op == "strings.HasPrefix" || t.Op == "strings.HasSuffix" || t.Op == "bytes.HasPrefix"):
			cs.addLE(s.lin(ts.lenOf(t.Args[1], nil)).sub(s.lin(ts.lenOf(t.Args[0], nil))))
		case t.K == TPure && f.Val && t.Op == "bytes.Equal":
			d := s.lin(ts.lenOf(t.Args[1], nil)).sub(s.lin(ts.lenOf(t.Args[0], nil)))
			cs.addLE(d)
			cs.addLE(d.neg())
		}
	}
	return cs
}

// entails: do the state's facts imply l <= 0 ?
func (s *State) entails(l lin) bool { return s.entailsBase(l, 0) }

func (s *State) entailsBase(l lin, depth int) bool {
	if l.isConst() {
		return l.k.Sign() <= 0
	}
	if depth > 2 {
		return false
	}
	s.fl.proveDepth = depth + 1
	defer func() { s.fl.proveDepth = depth }()
	cs := s.constraints()
	for t := range l.c {
		cs.intrinsic(t)
	}
	goal := l.neg().plus(1) // l >= 1
	// sharpen disequalities
	for i := 0; i < 2; i++ {
		for _, d := range cs.neqs {
			if infeasible(append(relevant(cs.cs, d), d.neg().plus(1).neg().neg())) {
				// d >= 1 impossible => d <= 0, and d != 0 => d <= -1
				cs.cs = append(cs.cs, d.plus(1))
			} else if infeasible(append(relevant(cs.cs, d), d.plus(1))) {
				// d <= -1 impossible => d >= 1
				cs.cs = append(cs.cs, d.neg().plus(1))
			}
		}
		if len(cs.neqs) == 0 {
			break
		}
	}
	return infeasible(append(relevant(cs.cs, goal), goal))
}

func (s *State) decideNum(t *Term) (bool, bool) {
	d := s.lin(t.Args[0]).sub(s.lin(t.Args[1]))
	if t.Op == "<" {
		if s.entails(d.plus(1)) {
			return true, true
		}
		if s.entails(d.neg()) {
			return false, true
		}
		return false, false
	}
	if s.entails(d.plus(1)) || s.entails(d.neg().plus(1)) {
		return false, true
	}
	if s.entails(d) && s.entails(d.neg()) {
		return true, true
	}
	return false, false
}

// relevant: constraints connected to the goal's atoms.
func relevant(cs []lin, g lin) []lin {
	atoms := map[*Term]bool{}
	for t := range g.c {
		atoms[t] = true
	}
	used := make([]bool, len(cs))
	var out []lin
	for ch := true; ch; {
		ch = false
		for i, c := range cs {
			if used[i] {
				continue
			}
			hit := c.isConst()
			for t := range c.c {
				if atoms[t] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, c)
				for t := range c.c {
					atoms[t] = true
				}
			}
		}
	}
	if len(out) > 80 {
		out = out[:80]
	}
	return out
}

func normKey(l lin) string {
	ks := make([]string, 0, len(l.c))
	for t, v := range l.c {
		ks = append(ks, t.key+"*"+v.String())
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

// infeasible: no integer (rational) solution of all l <= 0.
func infeasible(cs []lin) bool {
	cur := dedup(cs)
	for iter := 0; iter < 40; iter++ {
		for _, c := range cur {
			if c.isConst() && c.k.Sign() > 0 {
				return true
			}
		}
		// choose the atom with the fewest products
		type pn struct{ p, n int }
		cnt := map[*Term]*pn{}
		for _, c := range cur {
			for t, v := range c.c {
				x := cnt[t]
				if x == nil {
					x = &pn{}
					cnt[t] = x
				}
				if v.Sign() > 0 {
					x.p++
				} else {
					x.n++
				}
			}
		}
		if len(cnt) == 0 {
			return false
		}
		var best *Term
		bc := 1 << 30
		for t, x := range cnt {
			c := x.p * x.n
			if c < bc || c == bc && t.key < best.key {
				bc = c
				best = t
			}
		}
		var pos, neg, rest []lin
		for _, c := range cur {
			v := c.c[best]
			switch {
			case v == nil:
				rest = append(rest, c)
			case v.Sign() > 0:
				pos = append(pos, c)
			default:
				neg = append(neg, c)
			}
		}
		for _, p := range pos {
			for _, q := range neg {
				a := new(big.Int).Neg(q.c[best])
				b := p.c[best]
				r := newLin().add(p, a).add(q, b)
				delete(r.c, best)
				rest = append(rest, tighten(r))
			}
		}
		cur = dedup(rest)
		if len(cur) > 500 {
			return false
		}
	}
	return false
}

func tighten(l lin) lin {
	var g *big.Int
	for _, v := range l.c {
		if g == nil {
			g = new(big.Int).Abs(v)
		} else {
			g = new(big.Int).GCD(nil, nil, g, new(big.Int).Abs(v))
		}
	}
	if g == nil || g.Cmp(bigOne) <= 0 {
		return l
	}
	r := newLin()
	for t, v := range l.c {
		r.c[t] = new(big.Int).Div(v, g)
	}
	// sum*g + k <= 0  =>  sum + ceil(k/g) <= 0
	q, m := new(big.Int).DivMod(l.k, g, new(big.Int))
	if m.Sign() != 0 {
		q.Add(q, bigOne)
	}
	r.k = q
	return r
}

func dedup(cs []lin) []lin {
	best := map[string]lin{}
	var order []string
	for _, c := range cs {
		k := normKey(c)
		if o, ok := best[k]; ok {
			if c.k.Cmp(o.k) > 0 {
				best[k] = c
			}
			continue
		}
		best[k] = c
		order = append(order, k)
	}
	var out []lin
	for _, k := range order {
		out = append(out, best[k])
	}
	return out
}

// linEq: the two integer terms are equal as linear forms.
func (s *State) linEq(a, b *Term) bool {
	z := s.lin(a).sub(s.lin(b))
	return z.isConst() && z.k.Sign() == 0
}
