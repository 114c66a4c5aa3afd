package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "Numbers, byte strings and addresses keep their value in text",
		"outcome summaries of every conversion between a value and its text: what is decoded or encoded is exactly the part of the input that holds the digits, decided per path by the facts about sign, prefix, length and parity",
		checkText)
}

type textCheck struct {
	c *Ctx
}

func checkText(c *Ctx) {
	k := &textCheck{c}
	k.bytesText()
	k.clientBytes()
	k.intText()
	k.clientInts()
	k.conv()
	k.clientAddress()
	k.btpAddress()
	c.Need("bytes", 10)
	c.Need("number", 30)
	c.Need("conversion", 6)
	c.Need("address", 3)
	c.Need("btp", 6)
}

func (k *textCheck) sum(rule, name string) *Sum {
	f := k.c.P.FindFunc(name)
	if f == nil {
		k.c.Missing(rule, name)
		return nil
	}
	in := strings.HasPrefix(short(f.String()), "common/intconv.")
	s := k.c.Sum(f, SumCfg{Max: 3000,
		NoKill: func(n string) bool { return !strings.Contains(n, "json.Unmarshal") },
		Track: func(n *Node) string {
			switch short(n.Callee) {
			case "encoding/hex.Decode", "encoding/json.Unmarshal", "(*math/big.Int).SetString", "(*math/big.Int).SetBytes", "(*math/big.Int).Neg",
				"common/intconv.ParseBigInt", "common/intconv.BigIntSetBytes", "(common/codec.Encoder).Encode", "(common/codec.Decoder).Decode":
				return "op:" + short(n.Callee)
			}
			return ""
		},
		Opaque: func(f *ssa.Function) bool {
			if n := short(f.String()); strings.HasPrefix(n, "common/intconv.") {
				last := n[strings.LastIndex(n, ".")+1:]
				return !in && last[0] >= 'A' && last[0] <= 'Z' || anyOf(last, "SizeToBytes", "BytesToSize", "Int64ToBytes", "Uint64ToBytes", "BytesToInt64", "BytesToUint64")
			}
			return defaultOpaque(f)
		}})
	outs := s.Outs
	s.Outs = nil
	for _, o := range outs {
		none := false // lengths that contradict each other
		for i := range s.g.Params {
			if b, ok := param(s, i).T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				none = none || o.St.entails(o.St.lin(s.fl.ts.lenOf(param(s, i), nil)).plus(1))
			}
		}
		if !none {
			s.Outs = append(s.Outs, o)
		}
	}
	return s
}

// ---- texts ----

// piece: a part of a text: from an offset, with a digit put before it, with its prefix taken away if there is one.
type piece struct {
	base  *Term
	off   int64
	pad   bool
	trim  bool
	inner *Term // the text before the digit was put before it
	ok    bool
}

func pieceOf(st *State, t *Term) piece {
	p := piece{ok: true}
	if t.K == TBin && t.Op == "+" {
		if v, ok := t.Args[0].strVal(); ok && v == "0" {
			p.pad = true
			t = t.Args[1]
		}
	}
	p.inner = t
	for {
		switch {
		case t.K == TConv || t.K == TIface:
			t = t.Args[0]
			continue
		case t.K == TSlice && len(t.Args) >= 3 && t.Args[2] == nil && t.Args[1] != nil:
			v, ok := t.Args[1].intVal()
			if !ok {
				p.ok = false
				return p
			}
			p.off += v
			t = t.Args[0]
			continue
		case short(callName(t)) == "strings.TrimPrefix" || t.K == TPure && t.Op == "strings.TrimPrefix":
			if v, ok := t.Args[1].strVal(); !ok || v != "0x" || p.off != 0 || p.trim {
				p.ok = false
				return p
			}
			p.trim = true
			t = t.Args[0]
			continue
		}
		break
	}
	p.base = t
	return p
}

// has: the text b holds x at offset off: 1 it does, -1 it does not, 0 not known.
func (k *textCheck) has(st *State, b *Term, off int64, x string) int {
	ts := st.fl.ts
	yn := func(v bool) int {
		if v {
			return 1
		}
		return -1
	}
	l := st.lin(ts.lenOf(b, nil))
	if st.entails(l.plus(1 - off - int64(len(x)))) {
		return -1
	}
	bp := st.fl.path(b)
	lo, from := "_", bp
	if off > 0 {
		lo = fmt.Sprint(off)
		from = fmt.Sprintf("%s[%d:_]", bp, off)
	}
	for _, q := range []string{fmt.Sprintf("%s[%s:%d]", bp, lo, off+int64(len(x))), fmt.Sprintf("%s[%s:%d]", "string("+bp+")", lo, off+int64(len(x)))} {
		if v, kn := st.eq(strconv.Quote(x), q); kn {
			return yn(v)
		}
	}
	if v, kn := st.truth(fmt.Sprintf("strings.HasPrefix(%s,%q)", from, x)); kn {
		return yn(v)
	}
	all := true
	for i := range x {
		v, kn := st.eq(fmt.Sprint(int(x[i])), fmt.Sprintf("%s[%d]", bp, off+int64(i)))
		if kn && !v {
			return -1
		}
		all = all && kn && v
	}
	if all {
		return 1
	}
	return 0
}

// odd: the number of characters of the text is known to be odd (1), even (-1).
func (k *textCheck) odd(st *State, t *Term) int {
	want := st.lin(st.fl.ts.lenOf(t, nil))
	for _, f := range st.facts {
		if f.T.K != TBin || f.T.Op != "==" && f.T.Op != "<" {
			continue
		}
		for i := 0; i < 2; i++ {
			m, cn := f.T.Args[i], f.T.Args[1-i]
			v, ok := cn.intVal()
			if !ok || m.K != TBin || m.Op != "%" && m.Op != "&" {
				continue
			}
			num := m.Args[0]
			d, ok := m.Args[1].intVal()
			if !ok && m.Op == "&" {
				num = m.Args[1]
				d, ok = m.Args[0].intVal()
			}
			if !ok || m.Op == "%" && d != 2 || m.Op == "&" && d != 1 {
				continue
			}
			a := st.lin(num).sub(want)
			if !a.isConst() || a.k.Sign() != 0 {
				continue
			}
			if f.T.Op == "<" && !(v == 0 && i == 1) { // only 0 < len%2
				continue
			}
			is1 := f.Val
			if f.T.Op == "==" && v == 0 {
				is1 = !is1
			} else if f.T.Op == "==" && v != 1 {
				continue
			}
			if is1 {
				return 1
			}
			return -1
		}
	}
	return 0
}

func isCallTo(t *Term, name string) bool {
	return t != nil && (short(callName(t)) == name || t.K == TPure && short(t.Op) == name)
}

// jsonString: t is "the given text as a JSON string".
func jsonInner(t *Term) *Term {
	if t.K == TExtract && t.I == 0 && isCallTo(t.Args[0], "encoding/json.Marshal") {
		return stripBox(t.Args[0].Args[0])
	}
	return nil
}

// hexOf: the text is prefix + hex of the bytes with that path
func (k *textCheck) hexOf(st *State, t *Term, prefix, src string) bool {
	for t.K == TConv {
		t = t.Args[0]
	}
	p := st.fl.path(t)
	h := "encoding/hex.EncodeToString(" + src + ")"
	if prefix == "" && p == h || prefix != "" && p == fmt.Sprintf("(%q+%s)", prefix, h) {
		return true
	}
	if isCallTo(t, "fmt.Sprintf") {
		if f, ok := t.Args[0].strVal(); ok && f == prefix+"%x" {
			if es, ok := st.elems(t.Args[1]); ok && len(es) == 1 && st.fl.path(stripBox(es[0])) == src {
				return true
			}
		}
	}
	return false
}

func (k *textCheck) bytesText() {
	c := k.c
	for _, x := range []struct{ typ, pre string }{{"HexBytes", "0x"}, {"RawHexBytes", ""}} {
		for _, m := range []string{"String", "MarshalJSON"} {
			name := "(common." + x.typ + ")." + m
			s := k.sum("bytes", name)
			if s == nil {
				continue
			}
			for _, o := range s.Outs {
				st := o.St
				nl, kn := st.eq("nil", "p0")
				r := o.Rets[0]
				good := false
				switch {
				case o.failed():
					good = mentionsCall(st, "encoding/json.Marshal")
				case m == "MarshalJSON":
					if in := jsonInner(r); in != nil {
						good = k.hexOf(st, in, x.pre, "p0") && kn && !nl || st.fl.path(in) == "nil" && kn && nl
					} else if kn && nl {
						p := st.fl.path(r)
						good = strings.Contains(p, `"null"`)
					}
				default:
					good = kn && nl && st.fl.path(r) == `"null"` || kn && !nl && k.hexOf(st, r, x.pre, "p0")
				}
				c.Ob("bytes", x.typ+"."+m, good, o.Pos, "the text is "+st.fl.path(r)+" when "+strings.Join(st.factStrings(), " "))
			}
		}
		name := "(*common." + x.typ + ").UnmarshalJSON"
		s := k.sum("bytes", name)
		if s == nil {
			continue
		}
		p0 := param(s, 0)
		n := 0
		for _, o := range s.Outs {
			why := k.bytesIn(o, p0, x.pre)
			c.Ob("bytes", x.typ+".UnmarshalJSON", why == "", o.Pos, why)
			if !o.failed() {
				n++
			}
		}
		c.Ob("bytes", x.typ+".UnmarshalJSON accepts", n >= 2, c.P.posOf(s.fn), "a null or a text is not accepted")
	}
}

// jsonTarget: what the input was decoded into, and whether that worked.
func jsonTarget(st *State, src string) (call, target *Term, ok, failed bool) {
	for _, e := range st.must {
		if e.Tag == "op:encoding/json.Unmarshal" && st.fl.path(e.Args[1]) == src {
			call, target = e.Args[0], stripBox(e.Args[2])
			nl, kn := nilState(st, call)
			return call, target, kn && nl, kn && !nl
		}
	}
	return
}

func (k *textCheck) bytesIn(o Outcome, p0 *Term, pre string) string {
	st := o.St
	call, target, ok, bad := jsonTarget(st, "p1")
	if call == nil {
		return "the input is not read as JSON"
	}
	if o.failed() {
		if bad || ok && mentionsCall(st, "encoding/hex.DecodeString") {
			return ""
		}
		return "it is refused although nothing is wrong: " + strings.Join(st.factStrings(), " ")
	}
	if !ok {
		return "it is accepted although it is not JSON"
	}
	v := st.lookup(p0)
	if v == nil {
		return "nothing is stored"
	}
	tp := st.fl.path(target)
	if nl, kn := st.eq("nil", "*"+tp); kn && nl {
		if !v.isNil() {
			return "null is read as " + st.fl.path(v)
		}
		return ""
	} else if !kn {
		return "null is not told from a text"
	}
	for v.K == TConv {
		v = v.Args[0]
	}
	if v.K != TExtract || v.I != 0 || !isCallTo(v.Args[0], "encoding/hex.DecodeString") || !st.succeeded(v.Args[0]) {
		return "what is stored is " + st.fl.path(v)
	}
	pc := pieceOf(st, v.Args[0].Args[0])
	if !pc.ok || pc.pad || st.fl.path(pc.base) != "**"+tp {
		return "what is decoded is " + st.fl.path(v.Args[0].Args[0])
	}
	return k.prefixDone(st, pc, 0, pre)
}

// prefixDone: the piece leaves out the prefix at the offset exactly when it is there.
func (k *textCheck) prefixDone(st *State, pc piece, off int64, pre string) string {
	if pre == "" {
		if pc.off != off || pc.trim {
			return fmt.Sprintf("%d characters are left out", pc.off)
		}
		return ""
	}
	if pc.trim {
		if pc.off != off {
			return "more than the prefix is left out"
		}
		return ""
	}
	h := k.has(st, pc.base, off, pre)
	switch {
	case pc.off == off+int64(len(pre)) && h == 1, pc.off == off && h == -1:
		return ""
	case pc.off == off && st.entails(st.lin(st.fl.ts.lenOf(pc.base, nil)).plus(-off-int64(len(pre)))): // nothing but a prefix
		return ""
	}
	return fmt.Sprintf("%d characters are left out when %s", pc.off, strings.Join(st.factStrings(), " "))
}

func (k *textCheck) clientBytes() {
	c := k.c
	for _, pk := range []string{"chain/icon/client", "chain/ethbr/client"} {
		s := k.sum("bytes", "("+pk+".HexBytes).Value")
		if s == nil {
			continue
		}
		n := 0
		for _, o := range s.Outs {
			st := o.St
			p0 := param(s, 0)
			ln := st.lin(s.fl.ts.lenOf(p0, nil))
			why := ""
			empty, kn := st.eq(`""`, "p0")
			if v, k2 := st.eq("0", "len(p0)"); k2 {
				empty, kn = v, true
			}
			if !kn && st.entails(linK(1).sub(ln)) {
				empty, kn = false, true
			}
			r := o.Rets[0]
			for r.K == TConv {
				r = r.Args[0]
			}
			switch {
			case o.failed():
				if !(kn && !empty) || !(st.entails(ln.plus(-1)) || k.has(st, p0, 0, "0x") == -1 || mentionsCall(st, "encoding/hex.DecodeString")) {
					why = "it is refused although nothing is wrong: " + strings.Join(st.factStrings(), " ")
				}
			case kn && empty:
				if !r.isNil() {
					why = "an empty text is read as " + st.fl.path(r)
				}
			case r.K == TExtract && r.I == 0 && isCallTo(r.Args[0], "encoding/hex.DecodeString"):
				n++
				pc := pieceOf(st, r.Args[0].Args[0])
				last := o.Rets[1]
				switch {
				case !pc.ok || pc.pad || pc.base != p0 || pc.off != 2 && !pc.trim:
					why = "what is decoded is " + st.fl.path(r.Args[0].Args[0])
				case !pc.trim && !st.entails(linK(2).sub(ln)):
					why = "a text shorter than its prefix crashes"
				case last != errOf(st.fl.ts, r.Args[0]) && !st.succeeded(r.Args[0]):
					why = "an error of decoding is not reported"
				}
			default:
				why = "what is given is " + st.fl.path(r)
			}
			c.Ob("bytes", pk+".HexBytes.Value", why == "", o.Pos, why)
		}
		c.Ob("bytes", pk+".HexBytes.Value reads", n > 0, c.P.posOf(s.fn), "no text is read")
	}
	if s := k.sum("bytes", "chain/icon/client.NewHexBytes"); s != nil {
		for _, o := range s.Outs {
			c.Ob("bytes", "NewHexBytes", k.hexOf(o.St, o.Rets[0], "0x", "p0"), o.Pos, "the text is "+o.St.fl.path(o.Rets[0]))
		}
	}
}

// ---- integers ----

func intSize(t types.Type) (bits int, signed, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Int64, types.Int:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint:
		return 64, false, true
	}
	return
}

// kept: what an integer was converted from without any change of value.
func kept(t *Term) *Term {
	for t.K == TConv || t.K == TIface {
		if t.K == TIface {
			t = t.Args[0]
			continue
		}
		a := t.Args[0]
		db, ds, ok := intSize(t.T)
		sb, ss, ok2 := intSize(a.T)
		if !ok || !ok2 || !(ss == ds && db >= sb || !ss && ds && db > sb) {
			return t
		}
		t = a
	}
	return t
}

// numText: the text of the integer with that path, by one of the repository's own conversions or an equal one.
func (k *textCheck) numText(st *State, t *Term, src string, signed bool) bool {
	for t.K == TConv {
		t = t.Args[0]
	}
	switch {
	case isCallTo(t, "common/intconv.FormatInt"):
		a := kept(t.Args[0])
		return st.fl.path(a) == src
	case isCallTo(t, "common/intconv.FormatUint"):
		a := kept(t.Args[0])
		return st.fl.path(a) == src
	}
	return false
}

func (k *textCheck) intText() {
	c := k.c
	for _, x := range []struct {
		typ    string
		bits   int
		signed bool
	}{{"HexInt16", 16, true}, {"HexUint16", 16, false}, {"HexInt32", 32, true}, {"HexUint32", 32, false}, {"HexInt64", 64, true}, {"HexUint64", 64, false}} {
		for _, m := range []string{"String", "MarshalJSON"} {
			s := k.sum("number", "(common."+x.typ+")."+m)
			if s == nil {
				continue
			}
			for _, o := range s.Outs {
				if o.failed() {
					c.Ob("number", x.typ+"."+m, mentionsCall(o.St, "encoding/json.Marshal"), o.Pos, "it fails")
					continue
				}
				r := o.Rets[0]
				if m == "MarshalJSON" {
					if r = jsonInner(r); r == nil {
						c.Ob("number", x.typ+"."+m, false, o.Pos, "the text is "+o.St.fl.path(o.Rets[0]))
						continue
					}
				}
				c.Ob("number", x.typ+"."+m, k.numText(o.St, r, "p0.Value", x.signed), o.Pos, "the text is "+o.St.fl.path(o.Rets[0]))
			}
		}
		if s := k.sum("number", "(*common."+x.typ+").UnmarshalJSON"); s != nil {
			n := 0
			for _, o := range s.Outs {
				why := k.intIn(o, x.bits, x.signed)
				c.Ob("number", x.typ+".UnmarshalJSON", why == "", o.Pos, why)
				if !o.failed() {
					n++
				}
			}
			c.Ob("number", x.typ+".UnmarshalJSON accepts", n >= 2, c.P.posOf(s.fn), "a text or a plain number is not accepted")
		}
		if s := k.sum("number", "(*common."+x.typ+").RLPEncodeSelf"); s != nil {
			for _, o := range s.Outs {
				ev, cnt := theOp(o.St, "op:(common/codec.Encoder).Encode")
				good := cnt == 1 && o.St.fl.path(ev.Args[1]) == "p1" && o.St.fl.path(kept(stripBox(ev.Args[2]))) == "p0.Value" && (o.Rets[0] == ev.Args[0] || o.failed() || o.St.succeeded(ev.Args[0]))
				c.Ob("number", x.typ+".RLPEncodeSelf", good, o.Pos, "it is not encoded as its value")
			}
		}
		if s := k.sum("number", "(*common."+x.typ+").RLPDecodeSelf"); s != nil {
			for _, o := range s.Outs {
				ev, cnt := theOp(o.St, "op:(common/codec.Decoder).Decode")
				good := cnt == 1 && o.St.fl.path(ev.Args[1]) == "p1" && o.St.fl.path(stripBox(ev.Args[2])) == "&p0.Value" && (o.Rets[0] == ev.Args[0] || o.failed() || o.St.succeeded(ev.Args[0]))
				c.Ob("number", x.typ+".RLPDecodeSelf", good, o.Pos, "it is not decoded into its value")
			}
		}
	}
	// big integers
	if s := k.sum("number", "(common.HexInt).String"); s != nil {
		for _, o := range s.Outs {
			r := o.Rets[0]
			c.Ob("number", "HexInt.String", isCallTo(r, "common/intconv.FormatBigInt") && strings.HasSuffix(o.St.fl.path(r.Args[0]), ".Int"), o.Pos, "the text is "+o.St.fl.path(r))
		}
	}
	if s := k.sum("number", "(common.HexInt).MarshalJSON"); s != nil {
		for _, o := range s.Outs {
			r := jsonInner(o.Rets[0])
			good := o.failed() && mentionsCall(o.St, "encoding/json.Marshal") || r != nil && isCallTo(r, "common/intconv.FormatBigInt") && strings.HasSuffix(o.St.fl.path(r.Args[0]), ".Int")
			c.Ob("number", "HexInt.MarshalJSON", good, o.Pos, "the text is "+o.St.fl.path(o.Rets[0]))
		}
	}
	if s := k.sum("number", "(*common.HexInt).UnmarshalJSON"); s != nil {
		for _, o := range s.Outs {
			why := k.bigIn(o)
			c.Ob("number", "HexInt.UnmarshalJSON", why == "", o.Pos, why)
		}
	}
}

func theOp(st *State, tag string) (ev *Event, n int) {
	for _, e := range st.must {
		if e.Tag == tag {
			ev = e
			n++
		}
	}
	return
}

func (k *textCheck) textOf(st *State, t *Term, target *Term, ok, bad bool) string {
	for t.K == TConv && t.Args[0].K != TConv && !isByteSlice(t.Args[0].T) {
		t = t.Args[0]
	}
	p := st.fl.path(t)
	switch {
	case ok && p == "*"+st.fl.path(target):
		return ""
	case bad && p == "string(p1)":
		return ""
	case ok && bad:
		return ""
	}
	return "what is read is " + p
}

func (k *textCheck) intIn(o Outcome, bits int, signed bool) string {
	st := o.St
	call, target, ok, bad := jsonTarget(st, "p1")
	if call == nil {
		return "the input is not read as JSON"
	}
	parse := "common/intconv.ParseInt"
	if !signed {
		parse = "common/intconv.ParseUint"
	}
	if o.failed() {
		if mentionsCall(st, parse) || mentionsCall(st, "github.com/icon-project/btp/"+parse) {
			return ""
		}
		return "it is refused without being read"
	}
	p0 := st.val(st.fl.g.Params[0])
	fa := (&stCheck{c: k.c}).fieldAddr(st, p0, "Value")
	if fa == nil {
		return "it has no value"
	}
	v := st.lookup(fa)
	if v == nil {
		return "nothing is stored"
	}
	for v.K == TConv {
		db, ds, ok := intSize(v.T)
		if !ok || ds != signed || db < bits {
			return "what is stored is converted to another range: " + st.fl.path(v)
		}
		v = v.Args[0]
	}
	if v.K != TExtract || v.I != 0 || !isCallTo(v.Args[0], parse) {
		return "what is stored is " + st.fl.path(v)
	}
	pc := v.Args[0]
	if b, okb := pc.Args[1].intVal(); !okb || int(b) != bits {
		return "it is read as a number of " + st.fl.path(pc.Args[1]) + " bits"
	}
	if !st.succeeded(pc) {
		return "a text that is not such a number is accepted"
	}
	return k.textOf(st, pc.Args[0], target, ok, bad)
}

func (k *textCheck) bigIn(o Outcome) string {
	st := o.St
	call, target, ok, bad := jsonTarget(st, "p1")
	if call == nil {
		return "the input is not read as JSON"
	}
	pb, n1 := theOp(st, "op:common/intconv.ParseBigInt")
	ss, n2 := theOp(st, "op:(*math/big.Int).SetString")
	switch {
	case ok && n1 == 1 && n2 == 0:
		if st.fl.path(stripBox(pb.Args[1])) != "&p0.Int" {
			return "what is set is " + st.fl.path(pb.Args[1])
		}
		if o.Rets[0] != pb.Args[0] && !(o.failed()) && !st.succeeded(pb.Args[0]) {
			return "a text that is not a number is accepted"
		}
		return k.textOf(st, pb.Args[2], target, ok, bad)
	case bad && n2 == 1 && n1 == 0:
		if b, okb := ss.Args[3].intVal(); !okb || b != 0 {
			return "a plain number is read with base " + st.fl.path(ss.Args[3])
		}
		if w := k.textOf(st, ss.Args[2], target, ok, bad); w != "" {
			return w
		}
		v, kn := st.truth(st.fl.path(ss.Args[0]) + "#1")
		if o.failed() == (kn && v) || !kn {
			return "a plain number is refused or something else accepted"
		}
		return ""
	}
	return "it is read as neither a text nor a plain number"
}

func (k *textCheck) clientInts() {
	c := k.c
	for _, x := range []struct {
		pk, m string
		bits  int64
	}{{"chain/icon/client", "Value", 64}, {"chain/icon/client", "Int", 32}, {"chain/ethbr/client", "Value", 64}, {"chain/ethbr/client", "Int", 32}} {
		name := x.pk + ".HexInt." + x.m
		s := k.sum("number", "("+x.pk+".HexInt)."+x.m)
		if s == nil {
			continue
		}
		n := 0
		for _, o := range s.Outs {
			st := o.St
			why := ""
			r := kept(o.Rets[0])
			if o.failed() && (r.K == TConst || r.K == TZero) {
				if !mentionsCall(st, "Parse") && !strings.Contains(strings.Join(st.factStrings(), " "), "Parse") {
					why = "it is refused without being read"
				}
				c.Ob("number", name, why == "", o.Pos, why)
				continue
			}
			n++
			call := r
			if r.K == TExtract && r.I == 0 {
				call = r.Args[0]
			}
			switch {
			case isCallTo(call, "common/intconv.ParseInt"):
				if st.fl.path(kept(call.Args[0])) != "p0" && st.fl.path(call.Args[0]) != "string(p0)" {
					why = "what is read is " + st.fl.path(call.Args[0])
				} else if b, ok := call.Args[1].intVal(); !ok || b != x.bits {
					why = "it is read as a number of " + st.fl.path(call.Args[1]) + " bits"
				}
			case isCallTo(call, "strconv.ParseInt") && x.pk == "chain/ethbr/client":
				b, ok := call.Args[1].intVal()
				w, ok2 := call.Args[2].intVal()
				pc := pieceOf(st, call.Args[0])
				switch {
				case !ok || b != 16:
					why = "it is read with base " + st.fl.path(call.Args[1])
				case !ok2 || w != x.bits:
					why = "it is read as a number of " + st.fl.path(call.Args[2]) + " bits"
				case !pc.ok || pc.pad || pc.base != param(s, 0):
					why = "what is read is " + st.fl.path(call.Args[0])
				default:
					why = k.prefixDone(st, pc, 0, "0x")
				}
			default:
				why = "what is given is " + st.fl.path(r)
			}
			if why == "" && o.Rets[1] != errOf(st.fl.ts, call) && !st.succeeded(call) {
				why = "a text that is not such a number is accepted"
			}
			c.Ob("number", name, why == "", o.Pos, why)
		}
		c.Ob("number", name+" reads", n > 0, c.P.posOf(s.fn), "nothing is read")
	}
	if s := k.sum("number", "(chain/icon/client.HexInt).BigInt"); s != nil {
		for _, o := range s.Outs {
			st := o.St
			pb, n := theOp(st, "op:common/intconv.ParseBigInt")
			good := n == 1 && st.fl.path(kept(stripBox(pb.Args[2]))) == "p0" && (o.failed() || stripBox(pb.Args[1]) == stripBox(o.Rets[0]) && (o.Rets[1] == pb.Args[0] || st.succeeded(pb.Args[0])))
			c.Ob("number", "chain/icon/client.HexInt.BigInt", good, o.Pos, "what is given is not the number read")
		}
	}
	if s := k.sum("number", "chain/icon/client.NewHexInt"); s != nil {
		for _, o := range s.Outs {
			c.Ob("number", "NewHexInt", k.numText(o.St, o.Rets[0], "p0", true), o.Pos, "the text is "+o.St.fl.path(o.Rets[0]))
		}
	}
}

// ---- the conversions themselves ----

// hexNumber: t is the sign and the digits, without a leading zero digit, of the bytes with that description.
func (k *textCheck) hexNumber(st *State, t *Term, neg, negKnown bool, want func(p string) bool) string {
	if v, ok := t.strVal(); ok {
		if v == "0x0" {
			for _, f := range st.factStrings() {
				if strings.HasPrefix(f, "(0==len(encoding/hex.EncodeToString(") || strings.HasPrefix(f, `(""==encoding/hex.EncodeToString(`) || strings.HasPrefix(f, "(0==len(") {
					return ""
				}
			}
		}
		return "the text is " + strconv.Quote(v)
	}
	pre := ""
	var rest *Term
	if t.K == TBin && t.Op == "+" {
		if v, ok := t.Args[0].strVal(); ok {
			pre, rest = v, t.Args[1]
			if rest.K == TBin && rest.Op == "+" { // "-" + ("0x" + s)
				if v, ok := rest.Args[0].strVal(); ok {
					pre, rest = pre+v, rest.Args[1]
				}
			}
		}
	}
	if rest == nil {
		return "the text is " + st.fl.path(t)
	}
	if !negKnown {
		return "the sign is not told"
	}
	if neg && pre != "-0x" || !neg && pre != "0x" {
		return fmt.Sprintf("the text begins with %q (negative: %v)", pre, neg)
	}
	if isCallTo(rest, "strconv.FormatUint") && len(rest.Args) == 2 {
		if b, ok := rest.Args[1].intVal(); ok && b == 16 && want("SizeToBytes("+st.fl.path(rest.Args[0])+")") {
			return ""
		}
	}
	pc := pieceOf(st, rest)
	if !pc.ok || pc.pad || pc.trim || !isCallTo(pc.base, "encoding/hex.EncodeToString") {
		return "the digits are " + st.fl.path(rest)
	}
	if p := strings.TrimPrefix(st.fl.path(pc.base.Args[0]), "common/intconv."); !want(p) {
		return "the digits are those of " + p
	}
	z := k.has(st, pc.base, 0, "0")
	if pc.off == 1 && z == 1 || pc.off == 0 && z == -1 {
		return ""
	}
	return "a digit is left out, or a leading zero is not"
}

func (k *textCheck) conv() {
	c := k.c
	sign := func(st *State, p string) (neg, known bool) {
		for _, q := range []string{"(" + p + "<0)"} {
			if v, kn := st.truth(q); kn {
				return v, kn
			}
		}
		if v, kn := st.truth("(0<" + p + ")"); kn && v {
			return false, true
		}
		if t := factTerm(st, p); t != nil {
			l := st.lin(t)
			if st.entails(l.neg()) {
				return false, true
			}
			if st.entails(l.plus(1)) {
				return true, true
			}
		}
		if v, kn := st.eq("-1", p); kn && v {
			return true, true
		} else if kn && strings.Contains(p, "Sign(") {
			return false, true
		}
		return false, false
	}
	out := func(name string, want func(st *State, neg bool) func(string) bool, neg func(st *State) (bool, bool)) {
		s := k.sum("conversion", "common/intconv."+name)
		if s == nil {
			return
		}
		n := 0
		for _, o := range s.Outs {
			ng, kn := neg(o.St)
			why := k.hexNumber(o.St, o.Rets[0], ng, kn, want(o.St, ng))
			c.Ob("conversion", name, why == "", o.Pos, why)
			n++
		}
		c.Ob("conversion", name+" gives a text", n > 0, c.P.posOf(s.fn), "it never does")
	}
	out("FormatInt", func(st *State, neg bool) func(string) bool {
		return func(p string) bool {
			if neg {
				return anyOf(p, "SizeToBytes(uint64((0-p0)))", "SizeToBytes((0-uint64(p0)))", "SizeToBytes(uint64(-p0))")
			}
			return p == "SizeToBytes(uint64(p0))"
		}
	}, func(st *State) (bool, bool) { return sign(st, "p0") })
	out("FormatUint", func(st *State, neg bool) func(string) bool {
		return func(p string) bool { return p == "SizeToBytes(p0)" }
	}, func(st *State) (bool, bool) { return false, true })
	out("FormatBigInt", func(st *State, neg bool) func(string) bool {
		return func(p string) bool { return p == "(*math/big.Int).Bytes(p0)" }
	}, func(st *State) (bool, bool) { return sign(st, "(*math/big.Int).Sign(p0)") })

	// the digits read: after the sign and the prefix, all of them
	digits := func(st *State, call *Term) (neg bool, why string) {
		pc := pieceOf(st, call.Args[0])
		if !pc.ok || st.fl.path(pc.base) != "p0" && st.fl.path(pc.base) != "p1" {
			return false, "what is decoded is " + st.fl.path(call.Args[0])
		}
		h := k.has(st, pc.base, 0, "-")
		if h == 0 {
			return false, "the sign is not looked at"
		}
		off := int64(0)
		if h == 1 {
			off = 1
		}
		if w := k.prefixDone(st, pc, off, "0x"); w != "" {
			return false, w
		}
		odd := k.odd(st, pc.inner)
		if pc.pad && odd != 1 || !pc.pad && odd != -1 {
			return false, "an odd number of digits is not completed, or an even one is"
		}
		return h == 1, ""
	}
	size := func(t *Term) *Term { // BytesToSize(DecodeString(..)#0)
		if !isCallTo(t, "common/intconv.BytesToSize") {
			return nil
		}
		a := t.Args[0]
		if a.K == TExtract && a.I == 0 && isCallTo(a.Args[0], "encoding/hex.DecodeString") {
			return a.Args[0]
		}
		return nil
	}
	fits := func(st *State, bs string) bool { // the digits are no more than the bits asked for
		for _, f := range st.factStrings() {
			if f == "!(p1<(len("+bs+")*8))" || f == "!(p1<(8*len("+bs+")))" {
				return true
			}
		}
		return false
	}
	for _, name := range []string{"ParseInt", "ParseUint"} {
		s := k.sum("conversion", "common/intconv."+name)
		if s == nil {
			continue
		}
		n, m := 0, 0
		for _, o := range s.Outs {
			st := o.St
			if o.failed() {
				continue
			}
			r := o.Rets[0]
			why := ""
			if r.K == TExtract && r.I == 0 && isCallTo(r.Args[0], "strconv."+name) {
				call := r.Args[0]
				b, ok := call.Args[1].intVal()
				switch {
				case st.fl.path(call.Args[0]) != "p0" || !ok || b != 0 || st.fl.path(call.Args[2]) != "p1":
					why = "what is read is " + st.fl.path(call)
				case !st.succeeded(call):
					why = "it is accepted although it is not a number of that size"
				}
				c.Ob("conversion", name, why == "", o.Pos, why)
				n++
				continue
			}
			m++
			neg := false
			u := r
			if u.K == TBin && u.Op == "-" {
				if v, ok := u.Args[0].intVal(); ok && v == 0 {
					neg, u = true, u.Args[1]
				}
			}
			if u.K == TConv && name == "ParseInt" {
				u = u.Args[0]
			}
			if u.K == TBin && u.Op == "-" && !neg { // int64(-u)
				if v, ok := u.Args[0].intVal(); ok && v == 0 {
					neg, u = true, u.Args[1]
				}
			}
			call := size(u)
			if call == nil {
				c.Ob("conversion", name, false, o.Pos, "what is given is "+st.fl.path(r))
				continue
			}
			ng, w := digits(st, call)
			up := st.fl.path(u)
			edge := func(p string) bool {
				return anyOf(p, "(1<<uint((p1-1)))", "(1<<(p1-1))", "(1<<(uint(p1)-1))", "(1<<uint64((p1-1)))")
			}
			inRange := false
			for _, f := range st.facts {
				if f.T.K == TBin && f.T.Op == "<" {
					a, b := st.fl.path(f.T.Args[0]), st.fl.path(f.T.Args[1])
					if f.Val && a == up && edge(b) || neg && !f.Val && edge(a) && b == up {
						inRange = true
					}
				}
			}
			switch {
			case w != "":
				why = w
			case ng != neg:
				why = "the sign is lost"
			case name == "ParseUint" && neg:
				why = "a negative number is accepted"
			case !st.succeeded(call):
				why = "it is accepted although it has something else than digits"
			case !fits(st, st.fl.path(u.Args[0])):
				why = "it may have more digits than the bits asked for"
			case name == "ParseInt" && !inRange:
				why = "it may be out of range"
			}
			c.Ob("conversion", name, why == "", o.Pos, why)
		}
		c.Ob("conversion", name+" reads", n > 0 && m > 0, c.P.posOf(s.fn), "numbers are not read")
	}
	if s := k.sum("conversion", "common/intconv.ParseBigInt"); s != nil {
		n := 0
		for _, o := range s.Outs {
			st := o.St
			if o.failed() {
				continue
			}
			n++
			why := ""
			sb, n1 := theOp(st, "op:(*math/big.Int).SetBytes")
			ng, n2 := theOp(st, "op:(*math/big.Int).Neg")
			if n1 != 1 || st.fl.path(sb.Args[1]) != "p0" {
				why = "the number is not set"
			} else if a := sb.Args[2]; a.K != TExtract || a.I != 0 || !isCallTo(a.Args[0], "encoding/hex.DecodeString") {
				why = "what is set is " + st.fl.path(a)
			} else if neg, w := digits(st, a.Args[0]); w != "" {
				why = w
			} else if !st.succeeded(a.Args[0]) {
				why = "it is accepted although it has something else than digits"
			} else if neg != (n2 == 1) || n2 == 1 && (st.fl.path(ng.Args[1]) != "p0" || ng.Args[2] != ng.Args[1] && ng.Args[2] != sb.Args[0]) {
				why = "the sign is lost"
			}
			c.Ob("conversion", "ParseBigInt", why == "", o.Pos, why)
		}
		c.Ob("conversion", "ParseBigInt reads", n > 0, c.P.posOf(s.fn), "numbers are not read")
	}
}

// ---- addresses ----

func (k *textCheck) clientAddress() {
	c := k.c
	for _, pk := range []string{"chain/icon/client", "chain/ethbr/client"} {
		s := k.sum("address", "("+pk+".Address).Value")
		if s == nil {
			continue
		}
		p0 := param(s, 0)
		n := 0
		for _, o := range s.Outs {
			st := o.St
			cx, hx := k.has(st, p0, 0, "cx"), k.has(st, p0, 0, "hx")
			ln := st.lin(s.fl.ts.lenOf(p0, nil))
			why := ""
			if o.failed() {
				if !(cx == -1 && hx == -1 || st.notAny(s.fl.ts.lenOf(p0, nil), 42) || strings.Contains(strings.Join(st.factStrings(), " "), "encoding/hex.Decode")) {
					why = "an address is refused: " + strings.Join(st.factStrings(), " ")
				}
				c.Ob("address", pk+".Address.Value", why == "", o.Pos, why)
				continue
			}
			n++
			why = k.addressIs(st, o.Rets[0], p0, ln, cx, hx)
			c.Ob("address", pk+".Address.Value", why == "", o.Pos, why)
		}
		c.Ob("address", pk+".Address.Value reads", n > 0, c.P.posOf(s.fn), "no address is read")
		for _, r := range s.Call {
			for i, a := range r.Args {
				if a == nil || short(r.N.Callee) != "encoding/hex.Decode" {
					continue
				}
				if i == 1 && !r.St.entails(r.St.lin(s.fl.ts.lenOf(p0, nil)).plus(-43)) {
					c.Ob("address", pk+".Address.Value", false, s.g.pos(r.N), "a text that is too long crashes")
				}
			}
		}
	}
	if s := k.sum("address", "chain/icon/client.NewAddress"); s != nil {
		n := 0
		for _, o := range s.Outs {
			st := o.St
			r := o.Rets[0]
			why := ""
			if v, ok := r.strVal(); ok && v == "" {
				if !(st.notAny(s.fl.ts.lenOf(param(s, 0), nil), 21) || st.firstByte("p0", 0) == -1 && st.firstByte("p0", 1) == -1) {
					why = "an address is refused"
				}
			} else {
				n++
				pre := ""
				switch {
				case st.firstByte("p0", 1) == 1:
					pre = "cx"
				case st.firstByte("p0", 0) == 1:
					pre = "hx"
				}
				l := s.fl.ts.lenOf(param(s, 0), nil)
				if pre == "" || !st.between(l, 21, 21) || !k.hexOf(st, r, pre, "p0[1:_]") && !k.hexOf(st, r, pre, "p0[1:21]") {
					why = "the text is " + st.fl.path(r)
				}
			}
			c.Ob("address", "NewAddress", why == "", o.Pos, why)
		}
		c.Ob("address", "NewAddress gives a text", n >= 2, c.P.posOf(s.fn), "it never does")
	}
}

func (k *textCheck) addressIs(st *State, r, p0 *Term, ln lin, cx, hx int) string {
	want := int64(-1)
	switch {
	case cx == 1:
		want = 1
	case hx == 1:
		want = 0
	default:
		return "an address with another prefix is accepted"
	}
	if !(st.entails(ln.plus(-42)) && st.entails(linK(42).sub(ln))) {
		full := false
		for _, f := range st.factStrings() {
			if strings.HasPrefix(f, "(20==encoding/hex.Decode(") || strings.HasPrefix(f, "(20==len(encoding/hex.DecodeString(") {
				full = true
			}
		}
		if !full {
			return "an address of another length is accepted"
		}
	}
	base := r
	for base.K == TSlice || base.K == TConv {
		if base.K == TSlice && (base.Args[1] != nil && !isZeroTerm(base.Args[1])) {
			return "a part of it is given"
		}
		base = base.Args[0]
	}
	if base.K != TAlloc {
		if es, ok := st.bytesOf(r); ok {
			_ = es
		}
		return k.appended(st, r, p0, want)
	}
	tb := st.lookup(st.fl.indexAddr(base, st.fl.ts.intC(0), types.NewPointer(types.Typ[types.Byte])))
	if tb == nil {
		if want != 0 {
			return "the type is not set"
		}
	} else if v, ok := tb.intVal(); !ok || v != want {
		return "the type is " + st.fl.path(tb)
	}
	ev, n := theOp(st, "op:encoding/hex.Decode")
	if n == 1 {
		d := ev.Args[1]
		if d.K != TSlice || d.Args[0] != base || d.Args[1] == nil {
			return "the id is decoded into " + st.fl.path(d)
		}
		if v, ok := d.Args[1].intVal(); !ok || v != 1 {
			return "the id is put at " + st.fl.path(d.Args[1])
		}
		pc := pieceOf(st, ev.Args[2])
		if !pc.ok || pc.pad || pc.off != 2 || pc.base != p0 {
			return "what is decoded is " + st.fl.path(ev.Args[2])
		}
		if !st.succeeded(ev.Args[0]) {
			return "it is accepted although it has something else than digits"
		}
		return ""
	}
	for _, e := range st.must {
		if e.Tag == "copy" && len(e.Args) == 3 && e.Args[0] == base {
			if v, ok := e.Args[1].intVal(); !ok || v != 1 {
				return "the id is put at " + st.fl.path(e.Args[1])
			}
			return k.idIs(st, e.Args[2], p0)
		}
	}
	return "the id is not set"
}

func isZeroTerm(t *Term) bool {
	v, ok := t.intVal()
	return ok && v == 0
}

func (k *textCheck) idIs(st *State, id, p0 *Term) string {
	if id.K != TExtract || id.I != 0 || !isCallTo(id.Args[0], "encoding/hex.DecodeString") || !st.succeeded(id.Args[0]) {
		return "the id is " + st.fl.path(id)
	}
	pc := pieceOf(st, id.Args[0].Args[0])
	if !pc.ok || pc.pad || pc.off != 2 || pc.base != p0 {
		return "what is decoded is " + st.fl.path(id.Args[0].Args[0])
	}
	return ""
}

func (k *textCheck) appended(st *State, r, p0 *Term, want int64) string {
	if r.K == TAppend {
		if es, ok := st.elems(r.Args[0]); ok && len(es) == 1 {
			if v, ok := es[0].intVal(); ok && v == want {
				return k.idIs(st, r.Args[1], p0)
			}
		}
	}
	return "what is given is " + st.fl.path(r)
}

// ---- BTP addresses ----

// segment: the term is the i-th part of p0 between the separators.
func segment(st *State, t *Term, sep string) (base *Term, i int64, ok bool) {
	if t.K != TLoad || t.Args[0].K != TIndexAddr {
		return
	}
	call := t.Args[0].Args[0]
	i, ok = t.Args[0].Args[1].intVal()
	if !ok {
		return nil, 0, false
	}
	switch {
	case isCallTo(call, "strings.Split"):
	case isCallTo(call, "strings.SplitN"):
		if n, okn := call.Args[2].intVal(); !okn || n >= 0 && n <= i+1 {
			return nil, 0, false
		}
	default:
		return nil, 0, false
	}
	if v, okv := call.Args[1].strVal(); !okv || v != sep {
		return nil, 0, false
	}
	b := call.Args[0]
	for b.K == TConv {
		b = b.Args[0]
	}
	return b, i, true
}

func (k *textCheck) btpAddress() {
	c := k.c
	// whether there is a protocol: 1, -1, 0
	protocol := func(st *State) int {
		res := 0
		for _, f := range st.facts {
			p := st.fl.path(f.T)
			switch {
			case anyOf(p, `(0<strings.Index(p0,"://"))`):
				if f.Val && res == 0 {
					res = 1
				} else if !f.Val {
					res = -1
				}
			case anyOf(p, `(strings.Index(p0,"://")<1)`, `(strings.Index(p0,"://")<=0)`):
				if f.Val {
					res = -1
				} else if res == 0 {
					res = 1
				}
			case p == `(""==p0[_:strings.Index(p0,"://")])` && f.Val:
				res = -1
			}
		}
		return res
	}
	short_ := func(st *State, i int64, sep, base string) bool { // known to have no i-th part
		for _, f := range st.facts {
			if f.T.K != TBin {
				continue
			}
			for _, a := range f.T.Args {
				if a.K == TLen && isCallTo(a.Args[0], "strings.Split") || a.K == TLen && isCallTo(a.Args[0], "strings.SplitN") {
					call := a.Args[0]
					b := call.Args[0]
					for b.K == TConv {
						b = b.Args[0]
					}
					if v, ok := call.Args[1].strVal(); ok && v == sep && st.fl.path(b) == base && st.entails(st.lin(a).plus(-i)) {
						return true
					}
				}
			}
		}
		return false
	}
	seg := func(st *State, t *Term, i int64) bool {
		b, j, ok := segment(st, t, "/")
		return ok && j == i && st.fl.path(b) == "p0"
	}
	emptySeg := func(st *State, i int64) bool {
		for _, f := range st.facts {
			if f.Val && f.T.K == TBin && f.T.Op == "==" {
				for n := 0; n < 2; n++ {
					if v, ok := f.T.Args[1-n].strVal(); ok && v == "" && seg(st, f.T.Args[n], i) {
						return true
					}
				}
			}
		}
		return false
	}
	run := func(m string, judge func(st *State, r *Term) string) {
		s := k.sum("btp", "(common/types.BtpAddress)."+m)
		if s == nil {
			return
		}
		n := 0
		for _, o := range s.Outs {
			r := o.Rets[0]
			for r.K == TConv {
				r = r.Args[0]
			}
			if _, ok := r.strVal(); !ok {
				n++
			}
			why := judge(o.St, r)
			c.Ob("btp", m, why == "", o.Pos, why)
		}
		c.Ob("btp", m+" gives its part", n > 0, c.P.posOf(s.fn), "it never does")
	}
	run("Protocol", func(st *State, r *Term) string {
		pr := protocol(st)
		if v, ok := r.strVal(); ok && v == "" && pr == -1 {
			return ""
		}
		if pr == 1 && anyOf(st.fl.path(r), `p0[_:strings.Index(p0,"://")]`) {
			return ""
		}
		return "it is " + st.fl.path(r) + " when " + strings.Join(st.factStrings(), " ")
	})
	for _, x := range []struct {
		m string
		i int64
	}{{"NetworkAddress", 2}, {"Account", 3}, {"ContractAddress", 3}} {
		x := x
		run(x.m, func(st *State, r *Term) string {
			pr := protocol(st)
			if v, ok := r.strVal(); ok && v == "" {
				if pr == -1 || short_(st, x.i, "/", "p0") || emptySeg(st, x.i) {
					return ""
				}
			} else if pr == 1 && seg(st, r, x.i) {
				return ""
			}
			return "it is " + st.fl.path(r) + " when " + strings.Join(st.factStrings(), " ")
		})
	}
	for _, m := range []string{"BlockChain", "NetworkID"} {
		m := m
		run(m, func(st *State, r *Term) string {
			pr := protocol(st)
			bad := "it is " + st.fl.path(r) + " when " + strings.Join(st.factStrings(), " ")
			if v, ok := r.strVal(); ok {
				if v == "" && (pr == -1 || short_(st, 2, "/", "p0") || emptySeg(st, 2)) {
					return ""
				}
				if v == "" && m == "NetworkID" && pr == 1 {
					for _, f := range st.facts {
						if f.T.K != TBin {
							continue
						}
						for _, a := range f.T.Args {
							if a.K == TLen && (isCallTo(a.Args[0], "strings.Split") || isCallTo(a.Args[0], "strings.SplitN")) && seg(st, a.Args[0].Args[0], 2) && st.entails(st.lin(a).plus(-1)) {
								return ""
							}
						}
					}
				}
				return bad
			}
			b, i, ok := segment(st, r, ".")
			if !ok || pr != 1 || !seg(st, b, 2) {
				if m == "BlockChain" && seg(st, r, 2) { // the only part
					return bad
				}
				return bad
			}
			parts := r.Args[0].Args[0]
			n := st.lin(st.fl.ts.lenOf(parts, nil))
			two, one := st.entails(linK(2).sub(n)), st.entails(n.plus(-1))
			if m == "NetworkID" && i == 0 && two || m == "BlockChain" && (i == 1 && two || i == 0 && one) {
				return ""
			}
			return bad
		})
	}
}
