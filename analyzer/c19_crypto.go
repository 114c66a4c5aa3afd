package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "Keys, signatures and addresses have exactly their format's bytes",
		"byte-position analysis of every outcome of the key, signature, address and wallet functions: each byte of what is produced is traced to a byte of what was given, each refusal to the condition that calls for it, and each call of the curve library to its exact arguments",
		checkCrypto)
}

// bytesOf: where each byte of t comes from ("path#i", "=hex", or "path#*" for all bytes of a value of unknown length).
func (s *State) bytesOf(t *Term) ([]string, bool) { return s.bytesOfD(t, 0) }

func (s *State) bytesOfD(t *Term, d int) ([]string, bool) {
	if t == nil || d > 6 {
		return nil, false
	}
	var out []string
	for _, g := range s.content(t) {
		switch g.Kind {
		case 'c':
			for i := 0; i < len(g.C); i++ {
				out = append(out, fmt.Sprintf("=%02x", g.C[i]))
			}
		case 'b':
			out = append(out, s.byteSrc(g.T, d))
		case 'w':
			bs, ok := s.bytesOfVal(g.T, d)
			if !ok {
				return nil, false
			}
			out = append(out, bs...)
		default:
			return nil, false
		}
	}
	return out, true
}

// byteSrc: the source of a single byte value
func (s *State) byteSrc(t *Term, d int) string {
	x := stripConv(t)
	if x.K == TLoad && x.Args[0].K == TIndexAddr {
		x = x.Args[0]
	}
	if (x.K == TIndexAddr || x.K == TIndex) && len(x.Args) == 2 {
		if i, ok := s.pinned(s.lin(x.Args[1])); ok {
			b := x.Args[0]
			lo := int64(0)
			for b.K == TSlice && b.Args[1] != nil {
				v, ok := b.Args[1].intVal()
				if !ok {
					return "byte " + s.fl.path(t)
				}
				lo, b = lo+v, b.Args[0]
			}
			return fmt.Sprintf("%s#%d", s.fl.path(b), lo+i)
		}
	}
	return "byte " + s.fl.path(t)
}

var cryptoLens = []int64{20, 21, 32, 33, 64, 65, 16, 12}

// pinned: the value of an integer expression when the facts leave only one
func (s *State) pinned(l lin) (int64, bool) {
	if l.isConst() {
		return l.k.Int64(), l.k.IsInt64()
	}
	if !l.ok {
		return 0, false
	}
	for _, c := range cryptoLens {
		if s.entails(l.plus(-c)) && s.entails(l.neg().plus(c)) {
			return c, true
		}
	}
	return 0, false
}

func arrayLen(t types.Type) (int64, bool) {
	if t == nil {
		return 0, false
	}
	if e := elemOf(t); e != nil {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			t = e
		}
	}
	at, ok := t.Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	return at.Len(), true
}

func (s *State) bytesOfVal(t *Term, d int) ([]string, bool) {
	base, lo, hi := t, int64(0), int64(-1)
	if t.K == TSlice {
		base = t.Args[0]
		if t.Args[1] != nil {
			v, ok := s.pinned(s.lin(t.Args[1]))
			if !ok {
				return nil, false
			}
			lo = v
		}
		if t.Args[2] != nil {
			v, ok := s.pinned(s.lin(t.Args[2]))
			if !ok {
				return nil, false
			}
			hi = v
		}
	}
	if base != t && (base.K == TAlloc || base.K == TMake || base.K == TAppend) {
		full, ok := s.bytesOfD(base, d+1)
		if !ok {
			return nil, false
		}
		if hi < 0 {
			hi = int64(len(full))
		}
		if lo > hi || hi > int64(len(full)) {
			return nil, false
		}
		return full[lo:hi], true
	}
	if hi < 0 {
		if n, ok := arrayLen(base.T); ok {
			hi = n
		} else if n, ok := s.pinned(s.lin(s.fl.ts.lenOf(base, nil))); ok {
			hi = n
		} else if lo == 0 {
			return []string{s.fl.path(base) + "#*"}, true
		} else {
			return []string{fmt.Sprintf("%s#%d..", s.fl.path(base), lo)}, true
		}
	}
	p := strings.Replace(s.fl.path(base), short(sha3Fn)+"(", "golang.org/x/crypto/sha3.Sum256(", 1)
	var out []string
	for i := lo; i < hi; i++ {
		out = append(out, fmt.Sprintf("%s#%d", p, i))
	}
	return out, true
}

func span(p string, lo, hi int) (o []string) {
	for i := lo; i < hi; i++ {
		o = append(o, fmt.Sprintf("%s#%d", p, i))
	}
	return
}

func eqSpans(a []string, b ...[]string) bool {
	var w []string
	for _, x := range b {
		w = append(w, x...)
	}
	return strings.Join(a, " ") == strings.Join(w, " ")
}

// rangesText: a short form of byte sources for messages
func rangesText(bs []string) string {
	var o []string
	for i := 0; i < len(bs); {
		k := strings.LastIndex(bs[i], "#")
		if k < 0 {
			o = append(o, bs[i])
			i++
			continue
		}
		p, n0, n := bs[i][:k], 0, 0
		if _, err := fmt.Sscanf(bs[i][k+1:], "%d", &n0); err != nil {
			o = append(o, bs[i])
			i++
			continue
		}
		j := i
		for ; j < len(bs) && bs[j] == fmt.Sprintf("%s#%d", p, n0+n); j++ {
			n++
		}
		o = append(o, fmt.Sprintf("%s[%d:%d]", p, n0, n0+n))
		i = j
	}
	return strings.Join(o, " + ")
}

type cryptoCheck struct {
	c *Ctx
}

func (k cryptoCheck) sum(rule, name string) *Sum {
	f := k.c.P.FindFunc(name)
	if f == nil {
		k.c.Missing(rule, name)
		return nil
	}
	return k.c.Sum(f, SumCfg{Max: 2000, NoKill: func(callee string) bool {
		return strings.Contains(callee, "secp256k1-go.") || strings.Contains(callee, "go-ethereum/") || callee == sha3Fn
	}, Opaque: func(f *ssa.Function) bool { return defaultOpaque(f) || f.String() == sha3Fn && k.c.isSHA3(f) }})
}

// fld: the only field of that type in the struct behind t (the value bytes of a key, say)
func fieldByType(t types.Type, want string) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	n := ""
	for i := 0; i < st.NumFields(); i++ {
		if types.TypeString(st.Field(i).Type().Underlying(), nil) == want {
			if n != "" {
				return ""
			}
			n = st.Field(i).Name()
		}
	}
	return n
}

// numFact: is the relation decided here? (l <= 0)
func (s *State) between(t *Term, lo, hi int64) bool {
	l := s.lin(t)
	return s.entails(linK(lo).sub(l)) && s.entails(l.plus(-hi))
}

// outside: t is known not to be any of the given values
func (s *State) notAny(t *Term, vs ...int64) bool {
	for _, v := range vs {
		l := s.lin(t)
		if s.entails(l.plus(1-v)) || s.entails(linK(v+1).sub(l)) {
			continue
		}
		val, known := s.decideNum(s.fl.ts.mk(Term{K: TBin, Op: "==", Args: []*Term{s.fl.ts.intC(v), t}, T: types.Typ[types.Bool]}))
		if !known {
			if e, k := s.eq(fmt.Sprint(v), s.fl.path(t)); k {
				val, known = e, k
			}
		}
		if !known || val {
			return false
		}
	}
	return true
}

func (o *Outcome) failed() bool {
	rs := o.St.fl.g.Root.Signature.Results()
	if rs.Len() == 0 || !types.Identical(rs.At(rs.Len()-1).Type(), errorType()) {
		return false
	}
	n, k := o.errState()
	return k && !n
}

func checkCrypto(c *Ctx) {
	k := cryptoCheck{c}
	const cr = "common/crypto."
	sigT := c.P.FindFunc(cr + "Signature.SerializeRSV")
	pubT := c.P.FindFunc(cr + "PublicKey.SerializeCompressed")
	prvT := c.P.FindFunc(cr + "PrivateKey.Bytes")
	if sigT == nil || pubT == nil || prvT == nil {
		c.Missing("layout", "common/crypto.Signature, PublicKey, PrivateKey")
		return
	}
	sb, sv := fieldByType(sigT.Params[0].Type(), "[]byte"), fieldByType(sigT.Params[0].Type(), "bool")
	pb, kb := fieldByType(pubT.Params[0].Type(), "[]byte"), fieldByType(prvT.Params[0].Type(), "[]byte")
	if sb == "" || sv == "" || pb == "" || kb == "" {
		c.Ob("layout", "representation", false, c.P.posOf(sigT), "a signature is not held as its bytes and whether it has a V value, or a key not as its bytes")
		return
	}
	k.signing(cr, sb, sv, kb)
	k.parsing(cr, sb, sv)
	k.serializing(cr, sb, sv)
	k.verifying(cr, sb, sv, pb)
	k.keys(cr, pb, kb)
	k.addresses(pb)
	k.wallets(pb, kb)
	c.Need("sign", 2)
	c.Need("layout", 8)
	c.Need("refuse", 5)
	c.Need("key", 9)
	c.Need("address", 8)
	c.Need("wallet", 8)
}

func param(s *Sum, i int) *Term { return s.fl.sym(s.g.Params[i]) }

// factTerm: the term with that description occurring in the facts
func factTerm(st *State, p string) *Term {
	var find func(t *Term, d int) *Term
	find = func(t *Term, d int) *Term {
		if t == nil || d > 8 {
			return nil
		}
		if st.fl.path(t) == p {
			return t
		}
		for _, a := range t.Args {
			if r := find(a, d+1); r != nil {
				return r
			}
		}
		return nil
	}
	for _, k := range sortedKeys(st.facts) {
		if r := find(st.facts[k].T, 0); r != nil {
			return r
		}
	}
	return nil
}

// digestGate: the message p is between 1 and 32 bytes here
func digestGate(st *State, p *Term) bool { return st.between(st.fl.ts.lenOf(p, nil), 1, 32) }

func (k cryptoCheck) signing(cr, sb, sv, kb string) {
	c := k.c
	s := k.sum("sign", cr+"NewSignature")
	if s == nil {
		return
	}
	hash, key := param(s, 0), param(s, 1)
	n := 0
	for _, r := range s.Calls(calleeIs("github.com/haltingstate/secp256k1-go.Sign")) {
		n++
		msg := ""
		if r.path(0) != "p0" || r.path(1) != "p1."+kb {
			msg = "what is signed is not the given digest with the given key: " + r.path(0) + ", " + r.path(1)
		} else if !digestGate(r.St, hash) {
			msg = "something that is not a digest of 1 to 32 bytes may be signed"
		} else if isN, kn := nilState(r.St, key); !kn || isN {
			msg = "a missing key may be used for signing"
		}
		c.Ob("sign", "arguments of the curve's signing", msg == "", s.g.pos(r.N), msg)
	}
	for _, o := range s.Outs {
		if o.failed() {
			msg := ""
			if w := stripBox(o.Rets[0]); w != nil && !w.isNil() {
				msg = "a signature is given together with an error"
			} else if isN, kn := nilState(o.St, key); digestGate(o.St, hash) && kn && !isN {
				if !mentionsCall(o.St, "secp256k1-go.Sign") {
					msg = "a valid digest and key are refused"
				}
			}
			c.Ob("sign", "refusal", msg == "", o.Pos, msg)
			continue
		}
		df := deepFields(o.St, o.Rets[0])
		b, ok := o.St.bytesOf(df[sb])
		okv := false
		if ok && len(b) > 0 {
			okv = strings.HasPrefix(b[0], "github.com/haltingstate/secp256k1-go.Sign(p0,p1."+kb+")#")
		}
		c.Ob("sign", "the signature given is the curve's", okv, o.Pos, "the signature is made of "+rangesText(b))
	}
	_ = n
}

// mentionsCall: some fact of the state is about the result of that call
func mentionsCall(st *State, callee string) bool {
	for _, f := range st.factStrings() {
		if strings.Contains(f, callee+"(") {
			return true
		}
	}
	return false
}

func (k cryptoCheck) parsing(cr, sb, sv string) {
	c := k.c
	for _, x := range []struct {
		fn   string
		vrs  bool
		lens []int64
	}{{"ParseSignature", false, []int64{64, 65}}, {"ParseSignatureVRS", true, []int64{65}}} {
		s := k.sum("layout", cr+x.fn)
		if s == nil {
			continue
		}
		ln := s.fl.ts.lenOf(param(s, 0), nil)
		seen := map[int64]bool{}
		for _, o := range s.Outs {
			if o.failed() {
				msg := ""
				if w := stripBox(o.Rets[0]); w != nil && !w.isNil() {
					msg = "a signature is given together with an error"
				} else if !o.St.notAny(ln, x.lens...) {
					msg = "signature bytes of a valid length are refused"
				}
				c.Ob("refuse", x.fn+" refuses only other lengths", msg == "", o.Pos, msg)
				continue
			}
			df := deepFields(o.St, o.Rets[0])
			b, ok := o.St.bytesOf(df[sb])
			hv, hk := false, false
			if v := df[sv]; v != nil {
				hv, hk = o.St.boolOf(v)
			}
			n, pk := o.St.pinned(o.St.lin(ln))
			msg := ""
			switch {
			case !ok || !hk:
				msg = "the parsed signature is not known"
			case !pk:
				msg = "signature bytes of any length are accepted"
			case n == 65 && !x.vrs && (!eqSpans(b, span("p0", 0, 65)) || !hv):
				msg = fmt.Sprintf("65 bytes R,S,V are kept as %s (V known: %v)", rangesText(b), hv)
			case n == 65 && x.vrs && (!eqSpans(b, span("p0", 1, 65), span("p0", 0, 1)) || !hv):
				msg = fmt.Sprintf("65 bytes V,R,S are kept as %s (V known: %v)", rangesText(b), hv)
			case n == 64 && !x.vrs && (len(b) != 65 || !eqSpans(b[:64], span("p0", 0, 64)) || hv):
				msg = fmt.Sprintf("64 bytes R,S are kept as %s (V known: %v)", rangesText(b), hv)
			case n != 64 && n != 65 || n == 64 && x.vrs:
				msg = fmt.Sprintf("%d bytes are accepted as a signature", n)
			}
			seen[n] = true
			c.Ob("layout", fmt.Sprintf("%s of %d bytes", x.fn, n), msg == "", o.Pos, msg)
		}
		for _, n := range x.lens {
			c.Ob("layout", fmt.Sprintf("%s accepts %d bytes", x.fn, n), seen[n], c.P.posOf(s.fn), "signature bytes of that length are not accepted")
		}
	}
}

func (k cryptoCheck) serializing(cr, sb, sv string) {
	c := k.c
	B := "p0." + sb
	for _, x := range []struct {
		fn   string
		want [][]string
		v    bool
	}{
		{"SerializeRS", [][]string{span(B, 0, 64)}, false},
		{"SerializeVRS", [][]string{span(B, 64, 65), span(B, 0, 64)}, true},
		{"SerializeRSV", [][]string{span(B, 0, 65)}, true},
	} {
		s := k.sum("layout", cr+"Signature."+x.fn)
		if s == nil {
			continue
		}
		n := 0
		for _, o := range s.Outs {
			hv, hk := o.St.truth("p0." + sv)
			if o.failed() {
				ok := hk && !hv
				if !x.v {
					l := factTerm(o.St, "len("+B+")")
					ok = l != nil && o.St.notAny(l, 64, 65)
				}
				c.Ob("refuse", x.fn, ok && (stripBox(o.Rets[0]) == nil || stripBox(o.Rets[0]).isNil()), o.Pos, "a signature that has these parts is refused, or bytes are given together with the refusal")
				continue
			}
			n++
			b, ok := o.St.bytesOf(o.Rets[0])
			msg := ""
			if x.v && !(hk && hv) {
				msg = "a V value is given for a signature that has none"
			} else if !ok {
				msg = "the bytes produced are not known"
			} else if len(b) == 1 && b[0] == B+"#*" && x.fn == "SerializeRSV" {
			} else if !eqSpans(b, x.want...) {
				msg = "produces " + rangesText(b)
			}
			c.Ob("layout", x.fn, msg == "", o.Pos, msg)
		}
		if n == 0 {
			c.Ob("layout", x.fn, false, c.P.posOf(s.fn), "never produces bytes")
		}
	}
}

func (k cryptoCheck) verifying(cr, sb, sv, pb string) {
	c := k.c
	rsv := func(st *State, t *Term) bool {
		b, ok := st.bytesOf(t)
		return ok && (eqSpans(b, span("p0."+sb, 0, 65)) || len(b) == 1 && b[0] == "p0."+sb+"#*")
	}
	if s := k.sum("refuse", cr+"Signature.Verify"); s != nil {
		msgP, pub := param(s, 1), param(s, 2)
		gates := func(st *State) string {
			hv, hk := st.truth("p0." + sv)
			isN, kn := nilState(st, pub)
			switch {
			case !hk || !hv:
				return "a signature without V value is used"
			case !digestGate(st, msgP):
				return "a digest that is empty or longer than 32 bytes is used"
			case !kn || isN:
				return "a missing public key is used"
			}
			return ""
		}
		for _, r := range s.Calls(calleeIs("github.com/haltingstate/secp256k1-go.VerifySignature")) {
			msg := gates(r.St)
			if msg == "" && (r.path(0) != "p1" || !rsv(r.St, r.Args[1]) || r.path(2) != "p2."+pb) {
				msg = "what is verified is not the given digest, this signature and the given key: " + strings.Join([]string{r.path(0), r.path(1), r.path(2)}, ", ")
			}
			c.Ob("refuse", "Verify: arguments of the curve's verification", msg == "", s.g.pos(r.N), msg)
		}
		yes := false
		for _, o := range s.Outs {
			r := o.Rets[0]
			if v, ok := r.boolVal(); ok && !v {
				// refused: one gate must be closed, or the curve said no
				hv, hk := o.St.truth("p0." + sv)
				isN, kn := nilState(o.St, pub)
				ok := hk && !hv || kn && isN || lenOutside(o.St, msgP) || curveSaid(o.St, true)
				c.Ob("refuse", "Verify: refusal", ok, o.Pos, "a valid signature may be refused")
				continue
			} else if ok {
				yes = true
				c.Ob("refuse", "Verify: acceptance", curveSaid(o.St, false), o.Pos, "a signature is accepted without the curve's verification")
				continue
			}
			p := s.fl.path(r)
			good := strings.HasPrefix(p, "!(0==github.com/haltingstate/secp256k1-go.VerifySignature(") || strings.HasPrefix(p, "(1==github.com/haltingstate/secp256k1-go.VerifySignature(")
			yes = yes || good
			c.Ob("refuse", "Verify: acceptance", good, o.Pos, "the answer is not the curve's: "+p)
		}
		c.Ob("refuse", "Verify: can accept", yes, c.P.posOf(s.fn), "no signature is ever accepted")
	}
	if s := k.sum("refuse", cr+"Signature.RecoverPublicKey"); s != nil {
		hash := param(s, 1)
		for _, r := range s.Calls(calleeIs("github.com/haltingstate/secp256k1-go.RecoverPubkey")) {
			msg := ""
			hv, hk := r.St.truth("p0." + sv)
			switch {
			case !hk || !hv:
				msg = "a key is recovered from a signature without V value"
			case !digestGate(r.St, hash):
				msg = "a digest that is empty or longer than 32 bytes is used"
			case r.path(0) != "p1" || !rsv(r.St, r.Args[1]):
				msg = "the key is not recovered from the given digest and this signature: " + r.path(0) + ", " + r.path(1)
			}
			c.Ob("refuse", "RecoverPublicKey: arguments", msg == "", s.g.pos(r.N), msg)
		}
		n := 0
		for _, o := range s.Outs {
			if o.failed() {
				hv, hk := o.St.truth("p0." + sv)
				ok := hk && !hv || lenOutside(o.St, hash) || mentionsCall(o.St, "secp256k1-go.RecoverPubkey")
				w := stripBox(o.Rets[0])
				c.Ob("refuse", "RecoverPublicKey: refusal", ok && (w == nil || w.isNil()), o.Pos, "a recoverable signature is refused, or a key is given together with an error")
				continue
			}
			n++
			b, ok := o.St.bytesOf(deepFields(o.St, o.Rets[0])[pb])
			good := ok && len(b) > 0 && strings.HasPrefix(b[len(b)-1], "github.com/haltingstate/secp256k1-go.RecoverPubkey(p1,")
			c.Ob("refuse", "RecoverPublicKey: result", good, o.Pos, "the key given is not the recovered one: "+rangesText(b))
		}
		c.Ob("refuse", "RecoverPublicKey: can recover", n > 0, c.P.posOf(s.fn), "no key is ever recovered")
	}
}

func lenOutside(st *State, p *Term) bool {
	l := st.lin(st.fl.ts.lenOf(p, nil))
	return st.entails(l) || st.entails(linK(33).sub(l))
}

// curveSaid: the curve's verification is known to have answered no (zero) / yes.
func curveSaid(st *State, no bool) bool {
	for _, k := range sortedKeys(st.facts) {
		f := st.facts[k]
		if f.T.K != TBin || f.T.Op != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			if !strings.HasSuffix(callName(f.T.Args[1-i]), "secp256k1-go.VerifySignature") {
				continue
			}
			if v, ok := f.T.Args[i].intVal(); ok && (v == 0 && f.Val == no || v == 1 && f.Val != no) {
				return true
			}
		}
	}
	return false
}

func (k cryptoCheck) keys(cr, pb, kb string) {
	c := k.c
	if s := k.sum("key", cr+"ParsePublicKey"); s != nil {
		ln := s.fl.ts.lenOf(param(s, 0), nil)
		for _, o := range s.Outs {
			if o.failed() {
				w := stripBox(o.Rets[0])
				c.Ob("key", "ParsePublicKey refuses only other lengths", o.St.notAny(ln, 33, 65) && (w == nil || w.isNil()), o.Pos, "public key bytes of a valid length are refused")
				continue
			}
			b, ok := o.St.bytesOf(deepFields(o.St, o.Rets[0])[pb])
			n, pk := o.St.pinned(o.St.lin(ln))
			msg := ""
			switch {
			case !ok || !pk:
				msg = "what is parsed as a public key is not known: " + rangesText(b)
			case n == 33:
				if !eqSpans(b, span("p0", 0, 33)) {
					msg = "a compressed key is kept as " + rangesText(b)
				}
			case n == 65:
				if len(b) != 33 || !eqSpans(b[1:], span("p0", 1, 33)) {
					msg = "an uncompressed key is kept as " + rangesText(b)
				} else {
					msg = parityByte(o.St, deepFields(o.St, o.Rets[0])[pb], param(s, 0))
				}
			default:
				msg = fmt.Sprintf("%d bytes are accepted as a public key", n)
			}
			c.Ob("key", fmt.Sprintf("ParsePublicKey of %d bytes", n), msg == "", o.Pos, msg)
		}
	}
	single := func(rule, fn string, want func(st *State, r []*Term) string) {
		s := k.sum(rule, fn)
		if s == nil {
			return
		}
		n := 0
		for _, o := range s.Outs {
			if o.failed() {
				continue
			}
			n++
			msg := want(o.St, o.Rets)
			c.Ob(rule, fn, msg == "", o.Pos, msg)
		}
		if n == 0 {
			c.Ob(rule, fn, false, c.P.posOf(s.fn), "never succeeds")
		}
	}
	whole := func(st *State, t *Term, want string) string {
		b, ok := st.bytesOf(t)
		if ok && len(b) == 1 && b[0] == want+"#*" {
			return ""
		}
		return "gives " + rangesText(b) + " (expected all of " + want + ")"
	}
	const curve = "github.com/haltingstate/secp256k1-go."
	single("key", cr+"PublicKey.SerializeCompressed", func(st *State, r []*Term) string { return whole(st, r[0], "p0."+pb) })
	single("key", cr+"PublicKey.SerializeUncompressed", func(st *State, r []*Term) string { return whole(st, r[0], curve+"UncompressPubkey(p0."+pb+")") })
	single("key", cr+"PublicKey.Equal", func(st *State, r []*Term) string {
		p := st.fl.path(r[0])
		if p == "bytes.Equal(p0."+pb+",p1."+pb+")" || p == "bytes.Equal(p1."+pb+",p0."+pb+")" || p == "(0==bytes.Compare(p0."+pb+",p1."+pb+"))" {
			return ""
		}
		if v, ok := r[0].boolVal(); ok && !v {
			return "" // nil keys
		}
		return "the comparison is not of all bytes of both keys: " + p
	})
	single("key", cr+"PrivateKey.ECDH", func(st *State, r []*Term) string { return whole(st, r[0], curve+"ECDH(p1."+pb+",p0."+kb+")") })
	single("key", cr+"PrivateKey.Bytes", func(st *State, r []*Term) string {
		b, ok := st.bytesOf(r[0])
		if ok && (len(b) == 1 && b[0] == "p0."+kb+"#*" || eqSpans(b, span("p0."+kb, 0, 32))) {
			return ""
		}
		return "gives " + rangesText(b)
	})
	single("key", cr+"PrivateKey.PublicKey", func(st *State, r []*Term) string {
		b, ok := st.bytesOf(deepFields(st, r[0])[pb])
		if ok && len(b) > 0 && strings.HasPrefix(b[len(b)-1], curve+"PubkeyFromSeckey(p0."+kb+")#") {
			return ""
		}
		return "the public key is not the one of this key: " + rangesText(b)
	})
	single("key", cr+"GenerateKeyPair", func(st *State, r []*Term) string {
		priv, pub := deepFields(st, r[0])[kb], deepFields(st, r[1])[pb]
		a, ok := st.bytesOf(priv)
		b, ok2 := st.bytesOf(pub)
		if pub == nil && r[1].isNil() || stripBox(r[1]) != nil && stripBox(r[1]).isNil() {
			return "" // the library's key has a length that cannot be parsed: impossible for the library
		}
		if !ok || !ok2 || len(a) == 0 || len(b) == 0 || !strings.HasPrefix(a[0], curve+"GenerateKeyPair()") || !strings.HasPrefix(b[len(b)-1], curve+"GenerateKeyPair()") {
			return "the pair is not the one generated: " + rangesText(a) + " / " + rangesText(b)
		}
		return pairOrder(st, priv, pub)
	})
	if s := k.sum("key", cr+"ParsePrivateKey"); s != nil {
		ln := s.fl.ts.lenOf(param(s, 0), nil)
		for _, o := range s.Outs {
			if o.failed() {
				w := stripBox(o.Rets[0])
				c.Ob("key", "ParsePrivateKey refuses only other lengths", o.St.notAny(ln, 32) && (w == nil || w.isNil()), o.Pos, "private key bytes of 32 bytes are refused")
				continue
			}
			t := deepFields(o.St, o.Rets[0])[kb]
			b, ok := o.St.bytesOf(t)
			n, pk := o.St.pinned(o.St.lin(ln))
			msg := ""
			if !ok || !pk || n != 32 || !(eqSpans(b, span("p0", 0, 32)) || len(b) == 1 && b[0] == "p0#*") {
				msg = "what is kept as the private key is " + rangesText(b)
			} else if t.root() == param(s, 0) {
				msg = "the private key shares the caller's buffer"
			}
			c.Ob("key", "ParsePrivateKey", msg == "", o.Pos, msg)
		}
	}
}

// pairOrder: the curve's generator gives the public key first
func pairOrder(st *State, priv, pub *Term) string {
	idx := func(t *Term) int {
		for t != nil {
			if t.K == TExtract {
				return t.I
			}
			if len(t.Args) == 0 {
				return -1
			}
			t = t.Args[0]
		}
		return -1
	}
	if i := idx(priv); i != 1 && i != -1 {
		return "the private key is the generator's public key"
	}
	return ""
}

// parityByte: the first byte of the compressed form is 2 or 3 by the parity of the last byte
func parityByte(st *State, t, src *Term) string {
	segs := st.content(t)
	if len(segs) == 0 {
		return "the compressed form has no format byte"
	}
	fact := func(x int64) bool { // is this last byte possible here?
		for _, k := range sortedKeys(st.facts) {
			f := st.facts[k]
			v, ok := evalOn(st, f.T, src, x)
			if ok && (v != 0) != f.Val {
				return false
			}
		}
		return true
	}
	for x := int64(0); x < 256; x++ {
		if !fact(x) {
			continue
		}
		want := 2 + x&1
		var got int64
		switch segs[0].Kind {
		case 'c':
			got = int64(segs[0].C[0])
		case 'b':
			v, ok := evalOn(st, segs[0].T, src, x)
			if !ok {
				return "the format byte is not known: " + st.fl.path(segs[0].T)
			}
			got = v & 0xff
		default:
			return "the format byte is not known"
		}
		if got != want {
			return fmt.Sprintf("a key whose last byte is %d gets format byte %d", x, got)
		}
	}
	return ""
}

// evalOn evaluates an expression over the last byte of the key
func evalOn(st *State, t, src *Term, x int64) (int64, bool) {
	if t == nil {
		return 0, false
	}
	if v, ok := t.intVal(); ok {
		return v, true
	}
	if st.byteSrc(t, 0) == st.fl.path(src)+"#64" && t.K != TConv {
		return x, true
	}
	b2 := func(b bool) int64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.K {
	case TConv:
		return evalOn(st, t.Args[0], src, x)
	case TBin:
		a, ok := evalOn(st, t.Args[0], src, x)
		b, ok2 := evalOn(st, t.Args[1], src, x)
		if !ok || !ok2 {
			return 0, false
		}
		switch t.Op {
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		case "*":
			return a * b, true
		case "&":
			return a & b, true
		case "|":
			return a | b, true
		case "^":
			return a ^ b, true
		case "%":
			if b != 0 {
				return a % b, true
			}
		case ">>":
			return a >> uint(b), true
		case "<<":
			return a << uint(b), true
		case "==":
			return b2(a == b), true
		case "<":
			return b2(a < b), true
		case "<=":
			return b2(a <= b), true
		}
	}
	return 0, false
}

func (k cryptoCheck) addresses(pb string) {
	c := k.c
	const un = "github.com/haltingstate/secp256k1-go.UncompressPubkey(p0."
	if s := k.sum("address", "common.NewAccountAddressFromPublicKey"); s != nil {
		for _, o := range s.Outs {
			b, ok := o.St.bytesOf(o.Rets[0])
			good := ok && len(b) == 21 && b[0] == "=00"
			for i := 1; good && i < 21; i++ {
				good = b[i] == fmt.Sprintf("golang.org/x/crypto/sha3.Sum256(%s%s)[1:_])#%d", un, pb, 11+i) || b[i] == fmt.Sprintf("golang.org/x/crypto/sha3.Sum256(%s%s)[1:65])#%d", un, pb, 11+i)
			}
			c.Ob("address", "account address of a public key", good, o.Pos, "the address is "+rangesText(b)+", not an account of the last 20 bytes of the SHA3-256 of the key without its format byte")
		}
	}
	k.setters()
	str := k.sum("address", "common.Address.String")
	if str != nil {
		seen := map[byte]bool{}
		for _, o := range str.Outs {
			p := o.St.contentPath(o.Rets[0])
			is1 := o.St.firstByte("p0", 1)
			is0 := o.St.firstByte("p0", 0)
			want := ""
			switch {
			case is1 == 1 || is0 == -1:
				want, seen[1] = "cx", true
			case is0 == 1 || is1 == -1:
				want, seen[0] = "hx", true
			}
			good := want != "" && p == fmt.Sprintf("0x%x encoding/hex.EncodeToString(p0[1:_])", want)
			c.Ob("address", "string form", good, o.Pos, "the string form is "+p+" where the type asks for "+want)
		}
		c.Ob("address", "both types have a string form", seen[0] && seen[1], c.P.posOf(str.fn), "a type of address has no string form")
	}
	if s := k.sum("address", "common.Address.Equal"); s != nil {
		for _, o := range s.Outs {
			p := s.fl.path(o.Rets[0])
			an, ak := nilState(o.St, param(s, 0))
			bn, bk := nilState(o.St, param(s, 1))
			if strings.Contains(strings.Join(o.St.factStrings(), " "), "IsNil(reflect.ValueOf(p1))") {
				if v, kn := o.St.truth("(reflect.Value).IsNil(reflect.ValueOf(p1))"); kn && v {
					bn, bk = true, true
				}
			}
			msg := ""
			if v, ok := o.Rets[0].boolVal(); ok {
				same := ak && bk && an && bn
				diff := ak && bk && an != bn
				if sameP, kn := o.St.eq("p0", "p1"); kn && sameP {
					same = true
				}
				if v && !same || !v && !diff {
					msg = fmt.Sprintf("answers %v without comparing", v)
				}
			} else if q := strings.NewReplacer("[_:_]", "", "*", "").Replace(p); q != "bytes.Equal(p0,p1)" && q != "bytes.Equal(p1,p0)" && q != "(p0==p1)" && q != "(p1==p0)" && q != "(0==bytes.Compare(p0,p1))" {
				msg = "the comparison is not of all bytes: " + p
			}
			c.Ob("address", "equality", msg == "", o.Pos, msg)
		}
	}
	if s := k.sum("address", "common.Address.IsContract"); s != nil {
		for _, o := range s.Outs {
			p := s.fl.path(o.Rets[0])
			v, ok := o.Rets[0].boolVal()
			c.Ob("address", "contract type", p == "(1==p0[0])" || ok && o.St.firstByte("p0", 1) == map[bool]int{true: 1, false: -1}[v], o.Pos, "an address counts as a contract when "+p)
		}
	}
	for _, x := range []struct {
		fn string
		lo int
	}{{"Bytes", 0}, {"ID", 1}} {
		if s := k.sum("address", "common.Address."+x.fn); s != nil {
			for _, o := range s.Outs {
				b, ok := o.St.bytesOf(o.Rets[0])
				c.Ob("address", x.fn, ok && (eqSpans(b, span("p0", x.lo, 21)) || eqSpans(b, span("*p0", x.lo, 21))), o.Pos, "gives "+rangesText(b))
			}
		}
	}
}

// boolOf: the value of a boolean where the facts decide it
func (s *State) boolOf(t *Term) (val, known bool) {
	if v, ok := t.boolVal(); ok {
		return v, true
	}
	if t.K == TNot {
		v, k := s.boolOf(t.Args[0])
		return !v, k
	}
	if v, k := s.decideNum(t); k {
		return v, true
	}
	return s.truth(s.fl.path(t))
}

// firstByte: 1 known equal, -1 known different, 0 unknown
func (s *State) firstByte(p string, v int) int {
	if e, k := s.eq(fmt.Sprint(v), p+"[0]"); k {
		if e {
			return 1
		}
		return -1
	}
	for _, w := range []int{0, 1} {
		if e, k := s.eq(fmt.Sprint(w), p+"[0]"); k && e && w != v {
			return -1
		}
	}
	if strings.Contains(strings.Join(s.factStrings(), " "), p+"[0]") {
		if t := factTerm(s, p+"[0]"); t != nil {
			if s.notAny(t, int64(v)) {
				return -1
			}
		}
	}
	return 0
}

// setters: what an address holds after it was set from parts, bytes or a string.
func (k cryptoCheck) setters() {
	c := k.c
	run := func(name string, want func(st *State) (typ int, src func(string) bool, refuse bool)) {
		f := c.P.FindFunc("common.Address." + name)
		if f == nil {
			c.Missing("address", "common.Address."+name)
			return
		}
		sc := SumCfg{Max: 3000, Ev: func(st *State, n *Node, args []*Term, res *Term) {
			if _, ok := n.Instr.(*ssa.Store); ok && len(args) == 2 && args[1] != nil {
				if args[1].K == TZero {
					st.addMust("zeroed|"+args[0].key, "zeroed", n, args[0])
				} else if v, ok := args[1].intVal(); ok && v == 0 && args[0].K == TIndexAddr && !args[0].Args[1].isConst() {
					st.addMay("zeroed|"+args[0].Args[0].key, "zeroed", n, args[0])
				}
			}
		}}
		s := c.Sum(f, sc)
		p0 := param(s, 0)
		n := 0
		for _, o := range s.Outs {
			typ, src, refuse := want(o.St)
			if o.failed() {
				c.Ob("address", name+" refuses only what is not an address", refuse, o.Pos, "an address is refused")
				continue
			}
			n++
			msg := ""
			tb := o.St.lookup(s.fl.indexAddr(p0, s.fl.ts.intC(0), types.NewPointer(types.Typ[types.Byte])))
			var cps []*Event
			for _, e := range o.St.must {
				if e.Tag == "copy" && e.Args[0] == p0 {
					cps = append(cps, e)
				}
			}
			if len(cps) != 1 {
				msg = fmt.Sprintf("the id is set by %d copies", len(cps))
			} else if e := cps[0]; !src(s.fl.path(e.Args[2])) {
				msg = "the id is taken from " + s.fl.path(e.Args[2])
			} else {
				l := o.St.lin(s.fl.ts.lenOf(e.Args[2], nil))
				off := newLin()
				if e.Args[1] != nil {
					off = o.St.lin(e.Args[1])
				}
				d1, d2 := off.plus(-1), off.add(l, bigOne).plus(-21)
				zero := func(x lin) bool { return o.St.entails(x) && o.St.entails(x.neg()) }
				switch {
				case zero(d2): // right aligned
					if !zero(d1) && o.St.must["zeroed|"+p0.key] == nil && o.St.may["zeroed|"+p0.key] == nil {
						msg = "a short id leaves bytes of the previous address in place"
					}
				case zero(d1) && o.St.entails(linK(20).sub(l)):
				default:
					msg = "the id is put at a wrong position"
				}
			}
			if msg == "" {
				v, ok := int64(-1), false
				if tb != nil {
					v, ok = tb.intVal()
				}
				switch {
				case typ < 0:
					msg = "the type is not decided by the input here"
				case !ok:
					msg = "the type byte is not set"
				case int(v) != typ:
					msg = fmt.Sprintf("the type byte is %d where it should be %d", v, typ)
				}
			}
			c.Ob("address", name, msg == "", o.Pos, msg)
		}
		c.Ob("address", name+" accepts", n > 0, c.P.posOf(f), "nothing is accepted")
	}
	b2i := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	run("SetTypeAndID", func(st *State) (int, func(string) bool, bool) {
		typ := -1
		if v, k := st.truth("p1"); k {
			typ = b2i(v)
		}
		isN, kn := st.eq("nil", "p2")
		return typ, func(p string) bool { return p == "p2" }, kn && isN
	})
	run("SetBytes", func(st *State) (int, func(string) bool, bool) {
		typ := -1
		for v := 0; v < 2; v++ {
			if st.firstByte("p1", v) == 1 {
				typ = v
			}
		}
		if t := factTerm(st, "p1[0]"); t != nil && typ < 0 && st.firstByte("p1", 1) == -1 && st.entails(st.lin(t).plus(-1)) {
			typ = 0
		}
		empty, known := st.eq("0", "len(p1)")
		if isN, kn := st.eq("nil", "p1"); kn && isN {
			empty, known = true, true
		}
		if isN, kn := st.eq("nil", "p1[1:_]"); kn && isN {
			empty, known = true, true
		}
		short := false
		if t := factTerm(st, "len(p1)"); t != nil {
			short = st.entails(st.lin(t).plus(-20)) // shorter than a whole address: may be refused as well
		}
		return typ, func(p string) bool { return p == "p1[1:_]" || p == "p1[1:21]" }, known && empty || short || st.firstByte("p1", 0) == -1 && st.firstByte("p1", 1) == -1
	})
	run("SetString", func(st *State) (int, func(string) bool, bool) {
		pre := func(x string) int {
			for _, q := range []string{"p1[_:2]", "strings.HasPrefix"} {
				if q == "strings.HasPrefix" {
					if v, k := st.truth(fmt.Sprintf("strings.HasPrefix(p1,%q)", x)); k {
						return map[bool]int{true: 1, false: -1}[v]
					}
				} else if v, k := st.eq(fmt.Sprintf("%q", x), q); k {
					return map[bool]int{true: 1, false: -1}[v]
				}
			}
			if t := factTerm(st, "len(p1)"); t != nil && st.entails(st.lin(t).plus(-1)) {
				return -1
			}
			return 0
		}
		typ := -1
		cx, hx, ox := pre("cx"), pre("hx"), pre("0x")
		any := cx == 1 || hx == 1 || ox == 1
		switch {
		case cx == 1:
			typ = 1
		case hx == 1 || ox == 1 || cx == -1:
			typ = 0
		}
		rest := "p1"
		if any {
			rest = "p1[2:_]"
		}
		src := func(p string) bool {
			return p == "encoding/hex.DecodeString("+rest+")#0" || p == "encoding/hex.DecodeString((\"0\"+"+rest+"))#0"
		}
		refused := strings.Contains(strings.Join(st.factStrings(), " "), "encoding/hex.DecodeString(")
		return typ, src, refused
	})
}

func (k cryptoCheck) wallets(pb, kb string) {
	c := k.c
	const curve = "github.com/haltingstate/secp256k1-go."
	sw := c.P.FindFunc("common/wallet.softwareWallet.Sign")
	if sw == nil {
		c.Missing("wallet", "common/wallet.softwareWallet.Sign")
		return
	}
	var sk, pk string
	st := sw.Params[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch t := st.Field(i).Type().String(); {
		case strings.HasSuffix(t, "crypto.PrivateKey"):
			sk = st.Field(i).Name()
		case strings.HasSuffix(t, "crypto.PublicKey"):
			pk = st.Field(i).Name()
		}
	}
	each := func(fn string, want func(st *State, r []*Term) string) {
		s := k.sum("wallet", fn)
		if s == nil {
			return
		}
		n := 0
		for _, o := range s.Outs {
			if o.failed() {
				w := stripBox(o.Rets[0])
				c.Ob("wallet", fn+" failure", w == nil || w.isNil(), o.Pos, "a result is given together with an error")
				continue
			}
			n++
			msg := want(o.St, o.Rets)
			c.Ob("wallet", fn, msg == "", o.Pos, msg)
		}
		c.Ob("wallet", fn+" analysed", len(s.Outs) > 0, c.P.posOf(s.fn), "no outcome")
	}
	is := func(st *State, t *Term, pre string) string {
		b, ok := st.bytesOf(t)
		if ok && len(b) > 0 && strings.HasPrefix(b[len(b)-1], pre+"#") {
			return ""
		}
		return "gives " + rangesText(b) + ", not " + pre
	}
	each("common/wallet.softwareWallet.Sign", func(st *State, r []*Term) string { return is(st, r[0], curve+"Sign(p1,p0."+sk+"."+kb+")") })
	each("common/wallet.softwareWallet.PublicKey", func(st *State, r []*Term) string { return is(st, r[0], "p0."+pk+"."+pb) })
	each("common/wallet.softwareWallet.Address", func(st *State, r []*Term) string {
		p := st.contentPath(r[0])
		if strings.HasPrefix(p, "0x6878 encoding/hex.EncodeToString(") && addressArg(st, r[0], "p0."+pk+"."+pb) {
			return ""
		}
		return "the address is not the one of the wallet's public key: " + p
	})
	each("common/wallet.softwareWallet.ECDH", func(st *State, r []*Term) string {
		t := stripConv(r[0])
		if callName(t) != curve+"ECDH" || st.fl.path(t.Args[1]) != "p0."+sk+"."+kb {
			return "the shared secret is not made with the wallet's key: " + st.fl.path(r[0])
		}
		return is(st, t.Args[0], "p1")
	})
	pair := func(st *State, r []*Term, from string) string {
		df := deepFields(st, r[0])
		b, ok := st.bytesOf(df[pk+"."+pb])
		if !ok || len(b) == 0 || !strings.HasPrefix(b[len(b)-1], from) {
			return "the wallet's public key is " + rangesText(b)
		}
		return ""
	}
	each("common/wallet.NewIcxWalletFromPrivateKey", func(st *State, r []*Term) string {
		if v := deepFields(st, r[0])[sk]; v == nil || st.fl.path(v) != "p0" {
			return "the wallet does not hold the given key"
		}
		return pair(st, r, curve+"PubkeyFromSeckey(p0."+kb+")#")
	})
	each("common/wallet.New", func(st *State, r []*Term) string {
		b, ok := st.bytesOf(deepFields(st, r[0])[sk+"."+kb])
		if !ok || len(b) == 0 || !strings.HasPrefix(b[0], curve+"GenerateKeyPair()#1#") {
			return "the wallet's key is not a fresh one: " + rangesText(b)
		}
		if p := deepFields(st, r[0])[pk]; p != nil && stripBox(p).isNil() {
			return ""
		}
		return pair(st, r, curve+"GenerateKeyPair()#0#")
	})
	each("common/wallet.EvmWallet.PublicKey", func(st *State, r []*Term) string {
		if p := st.fl.path(r[0]); p != "github.com/ethereum/go-ethereum/crypto.FromECDSAPub(p0.Pkey)" && p != "github.com/ethereum/go-ethereum/crypto.FromECDSAPub(&p0.Skey.PublicKey)" {
			return "gives " + p
		}
		return ""
	})
	each("common/wallet.EvmWallet.Address", func(st *State, r []*Term) string {
		p := st.fl.path(r[0])
		if strings.Contains(p, "PubkeyToAddress(") && strings.Contains(p, "p0.Pkey") {
			return ""
		}
		t := r[0]
		for t != nil && callName(t) != "github.com/ethereum/go-ethereum/crypto.Keccak256" && len(t.Args) > 0 {
			if t.K == TSlice {
				lo, ok := int64(0), true
				if t.Args[1] != nil {
					lo, ok = t.Args[1].intVal()
				}
				hi := int64(32)
				if t.Args[2] != nil {
					hi, _ = t.Args[2].intVal()
				}
				if !ok || lo != 12 || hi != 32 {
					return "the address is not the last 20 bytes of the digest: " + p
				}
			}
			t = t.Args[0]
		}
		if callName(t) != "github.com/ethereum/go-ethereum/crypto.Keccak256" || !strings.HasPrefix(p, "(github.com/ethereum/go-ethereum/common.Address).") {
			return "the address is not a Keccak-256 digest: " + p
		}
		es, ok := st.elems(t.Args[0])
		if !ok || len(es) != 1 || st.fl.path(es[0]) != "github.com/ethereum/go-ethereum/crypto.FromECDSAPub(p0.Pkey)[1:_]" {
			return "the digest is not of the public key without its format byte"
		}
		return ""
	})
	if c.P.FindFunc("common/wallet.NewEncrypted") != nil {
		each("common/wallet.NewEncrypted", func(st *State, r []*Term) string {
			g := st.content(deepFields(st, r[0])["Param"])
			if len(g) < 1 || g[len(g)-1].Kind != 'w' || st.fl.path(stripConv(g[len(g)-1].T)) != "(common/wallet.Wallet).PublicKey(p0)" {
				return "the parameters of an encrypted secret do not end with the sender's public key: " + segsString(g)
			}
			return ""
		})
	}
	for _, f := range []string{"Sign", "ECDH"} {
		each("common/wallet.EvmWallet."+f, func(st *State, r []*Term) string {
			if r[0].isNil() {
				return "an operation that gives nothing succeeds"
			}
			return ""
		})
	}
}

// addressArg: the string is made of the address of that public key
func addressArg(st *State, t *Term, pub string) bool {
	for _, g := range st.content(t) {
		if g.Kind != 'w' || !strings.HasSuffix(callName(g.T), "hex.EncodeToString") {
			continue
		}
		b, ok := st.bytesOf(g.T.Args[0])
		if !ok || len(b) != 20 {
			return false
		}
		for i := range b {
			if !strings.HasPrefix(b[i], "golang.org/x/crypto/sha3.Sum256(github.com/haltingstate/secp256k1-go.UncompressPubkey("+pub+")[1:") || !strings.HasSuffix(b[i], fmt.Sprintf("#%d", 12+i)) {
				return false
			}
		}
		return true
	}
	return false
}
