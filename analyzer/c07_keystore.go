package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "A key store opens only with its password and gives exactly its key",
		"value-flow analysis of the key store code: every successful opening is traced back to the MAC, cipher, key derivation and address checks and to the exact byte ranges of the derived key they use; every written key store is traced to the same relation between its parts",
		checkKeystore)
}

// keystoreCfg tracks hash inputs and key streams.
func keystoreCfg(c *Ctx) SumCfg {
	sc := SumCfg{Max: 4000}
	sc.NoKill = func(callee string) bool {
		for _, x := range []string{"PrivateKey).PublicKey", ".NewAccountAddressFromPublicKey", "Address).Equal", "Address).Bytes", "Address).String", "secp256k1-go."} {
			if strings.Contains(callee, x) {
				return true
			}
		}
		return false
	}
	sc.Opaque = func(f *ssa.Function) bool {
		if defaultOpaque(f) || isVariadicHash(f) || isMethodOn(f, "Address") {
			return true
		}
		switch f.Name() {
		case "NewAccountAddressFromPublicKey", "GenerateKeyPair":
			return true
		case "PublicKey":
			return isMethodOn(f, "PrivateKey")
		}
		return false
	}
	sc.Ev = func(st *State, n *Node, args []*Term, res *Term) {
		if !n.isCall() {
			return
		}
		hashTrace(st, n, args, res)
		switch {
		case strings.HasSuffix(n.Callee, ".XORKeyStream") && len(args) == 3:
			st.addMust(fmt.Sprintf("xor@%d", n.ID), "xor", n, args...)
		case n.Callee == "io.ReadFull" && len(args) == 2, n.Callee == "crypto/rand.Read" && len(args) == 1:
			st.addMust(fmt.Sprintf("rnd@%d", n.ID), "rnd", n, append([]*Term{res}, args...)...)
		case n.Callee == "encoding/json.Unmarshal" && len(args) == 2:
			st.addMust(fmt.Sprintf("unm@%d", n.ID), "unm", n, append([]*Term{res}, args...)...)
		case strings.HasSuffix(n.Callee, "common.Address).SetBytes") && len(args) == 2:
			st.addMust(fmt.Sprintf("adr@%d", n.ID), "adr", n, append([]*Term{res}, args...)...)
		}
	}
	return sc
}

func isVariadicHash(f *ssa.Function) bool {
	sg := f.Signature
	if !sg.Variadic() || sg.Params().Len() != 1 || sg.Results().Len() != 1 {
		return false
	}
	return types.TypeString(sg.Params().At(0).Type(), nil) == "[][]byte" && types.TypeString(sg.Results().At(0).Type(), nil) == "[]byte"
}

// hashTrace records what a hash object has been given, and what each digest is of.
func hashTrace(st *State, n *Node, args []*Term, res *Term) {
	if len(args) == 0 || args[0] == nil {
		return
	}
	h := stripBox(args[0])
	key := "hw|" + h.key
	switch {
	case strings.HasSuffix(n.Callee, ").Write") && len(args) == 2:
		tag := "hw"
		as := []*Term{h}
		if e := st.must[key]; e != nil {
			tag, as = e.Tag, append([]*Term{}, e.Args...)
		} else {
			for _, m := range st.may {
				if m.Tag == "hwany" && m.Args[0] == h {
					tag = "hw-lost"
				}
			}
		}
		nk := fmt.Sprintf("hwany|%s|%d", h.key, n.ID)
		if st.may[nk] != nil {
			tag = "hw-lost"
		}
		st.addMay(nk, "hwany", n, h)
		st.addMust(key, tag, n, append(as, args[1])...)
	case strings.HasSuffix(n.Callee, ").Reset"):
		delete(st.must, key)
		for k, m := range st.may {
			if m.Tag == "hwany" && m.Args[0] == h {
				delete(st.may, k)
			}
		}
	case strings.HasSuffix(n.Callee, ").Sum") && len(args) == 2 && res != nil:
		e := st.must[key]
		if e != nil && e.Tag == "hw" && len(st.content(args[1])) == 0 {
			st.addMust("hsum|"+res.key, "hsum", n, append([]*Term{res}, e.Args...)...)
		}
	}
}

// keccak: the values a Keccak-256 digest is of, in order.
func keccak(c *Ctx, st *State, t *Term) ([]Seg, bool) {
	t = stripConv(t)
	if t == nil {
		return nil, false
	}
	var parts []*Term
	if e := st.must["hsum|"+t.key]; e != nil {
		if !strings.HasSuffix(callName(stripBox(e.Args[1])), "sha3.NewLegacyKeccak256") {
			return nil, false
		}
		parts = e.Args[2:]
	} else if nm := callName(t); nm != "" && (strings.HasSuffix(nm, "go-ethereum/crypto.Keccak256") || t.N != nil && t.N.Fn != nil && isVariadicHash(t.N.Fn) && keccakFn(c, t.N.Fn)) {
		es, ok := st.elems(t.Args[len(t.Args)-1])
		if !ok {
			return nil, false
		}
		parts = es
	} else {
		return nil, false
	}
	var out []Seg
	for _, p := range parts {
		out = append(out, st.content(p)...)
	}
	return out, true
}

var keccakMemo = map[*ssa.Function]bool{}

// keccakFn: the function returns the Keccak-256 of the concatenation of its arguments.
func keccakFn(c *Ctx, f *ssa.Function) bool {
	if v, ok := keccakMemo[f]; ok {
		return v
	}
	ok := keccakBody(c, f)
	keccakMemo[f] = ok
	c.Ob("mac", "digest "+short(f.String()), ok, c.P.posOf(f), "the digest function is not the Keccak-256 of all its arguments in order")
	return ok
}

func keccakBody(c *Ctx, f *ssa.Function) bool {
	sc := SumCfg{}
	writeTrace(&sc)
	s := c.Sum(f, sc)
	if len(s.Outs) == 0 {
		return false
	}
	isHash := func(t *Term) bool { return strings.HasSuffix(callName(stripBox(t)), "sha3.NewLegacyKeccak256") }
	for _, o := range s.Outs {
		r := stripConv(o.Rets[0])
		if r == nil || !strings.HasSuffix(callName(r), ".Sum") || !isHash(r.Args[0]) || len(o.St.content(r.Args[1])) != 0 {
			return false
		}
		if len(o.St.coverHeads("p0")) == 0 || len(o.St.writes()) > 0 || o.St.may["stray"] != nil || o.St.may["strangewrite"] != nil {
			return false
		}
	}
	if len(s.Back) == 0 {
		return false
	}
	for _, b := range s.Back {
		w := iterWrites(b.St, b.E)
		if len(w) != 1 || w[0].Kind != 'w' || !s.fl.elemOfSeq(w[0].T, "p0") {
			return false
		}
	}
	for _, r := range s.Call {
		if _, ok := writeArg(r.N); ok && !isHash(r.Args[0]) {
			return false
		}
	}
	return true
}

type ksView struct {
	c  *Ctx
	s  *Sum
	st *State
}

// isVal: t is the described value (or nil where that value is known to be nil).
func (v ksView) isVal(t *Term, want *Term) bool {
	t, want = stripConv(t), stripConv(want)
	if t == nil || want == nil {
		return false
	}
	if t == want {
		return true
	}
	if t.isNil() {
		for _, k := range sortedKeys(v.st.facts) {
			f := v.st.facts[k]
			if f.Val && f.T.K == TBin && f.T.Op == "==" {
				for i := 0; i < 2; i++ {
					if f.T.Args[i].isNil() && stripConv(f.T.Args[1-i]) == want {
						return true
					}
				}
			}
		}
	}
	if t.K == TSlice && t.Args[1] == nil && t.Args[2] == nil {
		return v.isVal(t.Args[0], want)
	}
	return false
}

// fieldOf: the field (dotted) of the struct at addr, as known now.
func (v ksView) fieldOf(addr *Term, names ...string) *Term {
	a := addr
	for _, n := range names {
		et := elemOf(a.T)
		if et == nil {
			return nil
		}
		st, ok := et.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				a = v.st.fl.ts.mk(Term{K: TFieldAddr, I: i, Args: []*Term{a}, T: types.NewPointer(st.Field(i).Type())})
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return v.st.lookup(a)
}

// keyRange: t is K[lo:hi]
func (v ksView) keyRange(t, k *Term, lo, hi int64) bool {
	t = stripConv(t)
	if t == nil || t.K != TSlice || stripConv(t.Args[0]) != k {
		return false
	}
	g := func(x *Term, d int64) bool {
		if x == nil {
			return d == 0
		}
		n, ok := x.intVal()
		return ok && n == d
	}
	return g(t.Args[1], lo) && t.Args[2] != nil && g(t.Args[2], hi)
}

func (v ksView) strFact(t *Term, want string) bool {
	if l := v.st.lin(v.s.fl.ts.lenOf(t, nil)); want == "" && l.ok && v.st.entails(l) {
		return true
	}
	for _, k := range sortedKeys(v.st.facts) {
		f := v.st.facts[k]
		if f.Val && f.T.K == TBin && f.T.Op == "==" {
			for i := 0; i < 2; i++ {
				if s, ok := strOf(f.T.Args[i]); ok && s == want && f.T.Args[1-i] == t {
					return true
				}
			}
		}
	}
	return false
}

func (v ksView) parsed(into *Term) (from *Term) {
	for _, k := range sortedKeys(v.st.must) {
		e := v.st.must[k]
		if e.Tag == "unm" && stripBox(e.Args[2]) == into && v.st.succeeded(e.Args[0]) {
			return e.Args[1]
		}
	}
	return nil
}

// fieldAddrOwner: the struct address a loaded field value belongs to
func loadedField(t *Term) (owner *Term, name string) {
	t = stripConv(t)
	if t == nil || t.K != TLoad || t.Args[0].K != TFieldAddr {
		return nil, ""
	}
	return t.Args[0].Args[0], t.Args[0].fieldName()
}

func checkKeystore(c *Ctx) {
	open := c.P.FindFunc("common/wallet.DecryptKeyStore")
	save := c.P.FindFunc("common/wallet.EncryptKeyAsKeyStore")
	if open == nil || save == nil {
		c.Missing("open", "common/wallet.DecryptKeyStore, EncryptKeyAsKeyStore")
		return
	}
	ksOpen(c, open)
	ksSave(c, save)
	ksNames(c)
	c.Need("open", 2)
	c.Need("save", 1)
	c.Need("names", 15)
}

func ksOpen(c *Ctx, f *ssa.Function) {
	s := c.Sum(f, keystoreCfg(c))
	for _, o := range s.Outs {
		isNil, known := o.errState()
		if known && !isNil {
			w := stripBox(o.Rets[0])
			c.Ob("open", "a failed opening gives no wallet", w == nil || w.isNil(), o.Pos, "a wallet is returned together with an error: "+s.fl.path(o.Rets[0]))
			continue
		}
		v := ksView{c, s, o.St}
		kind, msg := v.opened(o.Rets)
		c.Ob("open", "opened "+kind, msg == "", o.Pos, msg)
	}
}

func (v ksView) opened(rets []*Term) (string, string) {
	st := v.st
	w := stripBox(rets[0])
	if w == nil || w.isNil() {
		return "wallet", "opening succeeds without a wallet"
	}
	df := deepFields(st, w)
	if sk := df["Skey"]; sk != nil {
		return "EVM wallet", v.openedEvm(rets, df)
	}
	sk := df["skey"]
	if sk == nil {
		return "wallet", "the wallet is not made of a decrypted key: " + v.s.fl.path(w)
	}
	if pk := df["pkey"]; pk == nil || !strings.HasSuffix(callName(stripBox(pk)), "PrivateKey).PublicKey") || stripBox(pk).Args[0] != sk {
		return "ICON wallet", "the wallet's public key is not the one of its secret key: " + pathOr(v.s, pk)
	}
	return "ICON wallet", v.openedIcon(sk, nil)
}

func (v ksView) openedEvm(rets []*Term, df map[string]*Term) string {
	sk := stripBox(df["Skey"])
	// key.PrivateKey of a successful keystore.DecryptKey(data, string(pw))
	var call *Term
	for t := sk; t != nil && len(t.Args) > 0; t = t.Args[0] {
		if strings.HasSuffix(callName(t), "accounts/keystore.DecryptKey") {
			call = t
			break
		}
	}
	if call == nil {
		return "the wallet's key does not come from the key store: " + v.s.fl.path(sk)
	}
	if !v.st.succeeded(call) {
		return "the wallet is opened although decrypting may have failed"
	}
	if p := v.s.fl.path(call.Args[0]); p != "p0" {
		return "something else than the given key store is decrypted: " + p
	}
	if p := v.s.fl.path(stripConv(call.Args[1])); p != "p1" && v.st.contentPath(call.Args[1]) != "p1" {
		return "the key store is not decrypted with the given password: " + p
	}
	if pk := df["Pkey"]; pk == nil || !strings.Contains(v.s.fl.path(pk), "PublicKey") || !pk.contains(sk) {
		return "the wallet's public key is not the one of its secret key: " + pathOr(v.s, pk)
	}
	ok := false
	for _, k := range sortedKeys(v.st.facts) {
		mentions(v.st.facts[k].T, func(x *Term) bool {
			if o, n := loadedField(x); o != nil && n == "CoinType" && v.s.fl.path(v.parsed(o)) == "p0" && (v.strFact(x, "evm") || v.strFact(x, "")) {
				ok = true
			}
			return ok
		})
	}
	if !ok {
		return "an Ethereum wallet is opened from a key store of another kind"
	}
	return ""
}

// openedIcon: the key sk (and nothing else) is what the key store holds.
func (v ksView) openedIcon(sk *Term, ks *Term) string {
	st, path := v.st, v.s.fl.path
	// the password comparison
	kb := deepFields(st, sk)["bytes"]
	if kb == nil {
		return "the wallet's key is not known: " + path(sk)
	}
	var xor *Event
	for _, k := range sortedKeys(st.must) {
		if e := st.must[k]; e.Tag == "xor" {
			if xor != nil {
				return "the key is decrypted more than once"
			}
			xor = e
		}
	}
	if xor == nil {
		return "the key is not decrypted"
	}
	stream, dst, src := stripBox(xor.Args[0]), stripConv(xor.Args[1]), stripConv(xor.Args[2])
	// which key store
	if src.isNil() {
		// the cipher text is known to be missing: it is identified through the facts
		for _, k := range sortedKeys(st.facts) {
			f := st.facts[k]
			if f.Val && f.T.K == TBin && f.T.Op == "==" {
				for i := 0; i < 2; i++ {
					if _, n := loadedField(f.T.Args[i]); n == "CipherText" {
						src = stripConv(f.T.Args[i])
					}
				}
			}
		}
	}
	owner, name := loadedField(src)
	if name != "CipherText" || owner == nil || owner.K != TFieldAddr {
		return "what is decrypted is not the key store's cipher text: " + path(src)
	}
	ks = owner.Args[0]
	if from := v.parsed(ks); from == nil || path(from) != "p0" {
		return "the key store opened is not the given one: " + path(ks)
	}
	fld := func(n ...string) *Term { return v.fieldOf(ks, n...) }
	if !v.strFact(fld("CoinType"), "icx") {
		return "an ICON wallet is opened from a key store of another kind"
	}
	if !v.strFact(fld("Crypto", "Cipher"), "aes-128-ctr") {
		return "the key store's cipher is not checked"
	}
	if !v.strFact(fld("Crypto", "KDF"), "scrypt") {
		return "the key store's key derivation is not checked"
	}
	// the stream
	if !strings.HasSuffix(callName(stream), "crypto/cipher.NewCTR") {
		return "the cipher text is not decrypted in counter mode: " + path(stream)
	}
	blk := stripBox(stream.Args[0])
	if blk.K == TExtract {
		blk = blk.Args[0]
	}
	if !strings.HasSuffix(callName(blk), "crypto/aes.NewCipher") || !st.succeeded(blk) {
		return "the cipher text is not decrypted with AES: " + path(blk)
	}
	ivo, ivn := loadedField(stream.Args[1])
	if stripConv(stream.Args[1]).isNil() {
		for _, k := range sortedKeys(st.facts) {
			f := st.facts[k]
			if f.Val && f.T.K == TBin && f.T.Op == "==" {
				for i := 0; i < 2; i++ {
					if o, n := loadedField(f.T.Args[i]); n == "IV" {
						ivo, ivn = o, n
					}
				}
			}
		}
	}
	if ivn != "IV" || v.parsed(ivo) == nil || stripConv(v.parsed(ivo)) != stripConv(fld("Crypto", "CipherParams")) {
		return "the initialisation vector is not the key store's: " + path(stream.Args[1])
	}
	kk := stripConv(blk.Args[0])
	if kk.K != TSlice {
		return "the cipher key is not a part of the derived key: " + path(kk)
	}
	key := stripConv(kk.Args[0])
	if !v.keyRange(kk, key, 0, 16) {
		return "the cipher key is not the first 16 bytes of the derived key: " + path(kk)
	}
	if m := v.derived(key, func(o *Term) bool {
		p := v.parsed(o)
		return p != nil && stripConv(p) == stripConv(fld("Crypto", "KDFParams"))
	}); m != "" {
		return m
	}
	if path(key.Args[0].Args[0]) != "p1" {
		return "the key is not derived from the given password: " + path(key.Args[0].Args[0])
	}
	// the MAC
	macOK := false
	why := "the key store's MAC is not checked"
	for _, k := range sortedKeys(st.facts) {
		a, b, ok := equalFact(st.facts[k])
		if !ok {
			continue
		}
		for i := 0; i < 2; i++ {
			if !v.isVal(b, fld("Crypto", "MAC")) {
				a, b = b, a
				continue
			}
			parts, isd := keccak(v.c, st, a)
			if !isd {
				why = "the MAC compared is not a Keccak-256 digest: " + path(a)
				continue
			}
			if m := v.macParts(parts, key, src); m != "" {
				why = m
				continue
			}
			macOK = true
		}
	}
	if !macOK {
		return why
	}
	// the key is the decrypted text, whole
	segs := st.content(kb)
	if !(len(segs) == 1 && segs[0].Kind == 'w' && stripConv(segs[0].T) == dst) && stripConv(kb) != dst {
		return "the wallet's key is not the decrypted text: " + st.contentPath(kb)
	}
	ld := st.lin(v.s.fl.ts.lenOf(dst, types.Typ[types.Int]))
	if !linEqual(st, ld, linK(32)) {
		return "the decrypted key is not known to be 32 bytes long"
	}
	if dst.K != TMake {
		return "the key is decrypted into a shared buffer: " + path(dst)
	}
	// the address
	adr := false
	for _, k := range sortedKeys(st.facts) {
		f := st.facts[k]
		if f.Val && f.T.contains(fieldAddrOf(v, ks, "Address")) && mentions(f.T, func(t *Term) bool {
			return strings.HasSuffix(callName(t), "NewAccountAddressFromPublicKey") && strings.HasSuffix(callName(stripBox(t.Args[0])), "PrivateKey).PublicKey") && stripBox(t.Args[0]).Args[0] == sk
		}) {
			adr = true
		}
	}
	if !adr {
		return "the key opened is not compared with the key store's address"
	}
	return ""
}

func mentions(t *Term, pred func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if pred(t) {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, pred) {
			return true
		}
	}
	return false
}

func fieldAddrOf(v ksView, base *Term, name string) *Term {
	st, ok := elemOf(base.T).Underlying().(*types.Struct)
	if !ok {
		return base
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return v.st.fl.ts.mk(Term{K: TFieldAddr, I: i, Args: []*Term{base}, T: types.NewPointer(st.Field(i).Type())})
		}
	}
	return base
}

// macParts: the digest is of key[16:32] followed by the cipher text.
func (v ksView) macParts(parts []Seg, key, ct *Term) string {
	var ts []*Term
	for _, p := range parts {
		if p.Kind != 'w' {
			return "the MAC covers something unknown: " + segsString(parts)
		}
		ts = append(ts, p.T)
	}
	if len(ts) == 0 || !v.keyRange(ts[0], key, 16, 32) {
		return "the MAC does not start with bytes 16 to 32 of the derived key: " + segsString(parts)
	}
	if len(ts) == 2 && v.isVal(ts[1], ct) {
		return ""
	}
	if len(ts) == 1 && ct != nil { // an empty cipher text
		for _, k := range sortedKeys(v.st.facts) {
			f := v.st.facts[k]
			if f.Val && f.T.K == TBin && f.T.Op == "==" && (f.T.Args[0].isNil() && stripConv(f.T.Args[1]) == ct || f.T.Args[1].isNil() && stripConv(f.T.Args[0]) == ct) {
				return ""
			}
		}
	}
	return "the MAC does not cover exactly the derived key's second half and the cipher text: " + segsString(parts)
}

// equalFact: a byte comparison that is known to have succeeded.
func equalFact(f Fact) (a, b *Term, ok bool) {
	t := f.T
	if f.Val && len(t.Args) == 2 && (strings.HasSuffix(callName(t), "bytes.Equal") || strings.HasSuffix(callName(t), "crypto/hmac.Equal")) {
		return t.Args[0], t.Args[1], true
	}
	if f.Val && t.K == TBin && t.Op == "==" {
		for i := 0; i < 2; i++ {
			n, isInt := t.Args[i].intVal()
			x := t.Args[1-i]
			if isInt && len(x.Args) == 2 && (n == 1 && strings.HasSuffix(callName(x), "subtle.ConstantTimeCompare") || n == 0 && strings.HasSuffix(callName(x), "bytes.Compare")) {
				return x.Args[0], x.Args[1], true
			}
		}
	}
	return nil, nil, false
}

// derived: key is scrypt of the password with all parameters of one parameter object.
func (v ksView) derived(key *Term, owner func(*Term) bool) string {
	st, path := v.st, v.s.fl.path
	if key == nil || key.K != TExtract || key.I != 0 || !strings.HasSuffix(callName(key.Args[0]), "scrypt.Key") || !st.succeeded(key.Args[0]) {
		return "the key is not derived with scrypt: " + path(key)
	}
	a := key.Args[0].Args
	want := []string{"", "Salt", "N", "R", "P", "DKLen"}
	for i := 1; i < 6; i++ {
		o, n := loadedField(a[i])
		if stripConv(a[i]).isNil() && i == 1 {
			for _, k := range sortedKeys(st.facts) {
				f := st.facts[k]
				if f.Val && f.T.K == TBin && f.T.Op == "==" {
					for j := 0; j < 2; j++ {
						if fo, fn := loadedField(f.T.Args[j]); fn == "Salt" {
							o, n = fo, fn
						}
					}
				}
			}
		}
		if n != want[i] || o == nil || !owner(o) {
			return fmt.Sprintf("the key derivation's %s is not the one in the key store: %s", strings.ToLower(want[i]), path(a[i]))
		}
	}
	return ""
}

func ksSave(c *Ctx, f *ssa.Function) {
	s := c.Sum(f, keystoreCfg(c))
	marsh := map[*Term]CallRec{} // json.Marshal result -> call
	for _, r := range s.Call {
		if r.N.Callee == "encoding/json.Marshal" || r.N.Callee == "encoding/json.MarshalIndent" {
			res := s.fl.ts.mk(Term{K: TCall, N: r.N, Args: r.Args, T: r.N.Typ})
			marsh[res] = r
		}
	}
	n := 0
	for _, o := range s.Outs {
		isNil, known := o.errState()
		if known && !isNil {
			continue
		}
		n++
		msg := saved(c, s, o, marsh)
		c.Ob("save", short(f.String()), msg == "", o.Pos, msg)
	}
	if n == 0 {
		c.Ob("save", short(f.String()), false, c.P.posOf(f), "no key store is ever written")
	}
}

func marshalOf(s *Sum, st *State, t *Term) (*Term, *CallRec) {
	t = stripConv(t)
	if t == nil || t.K != TExtract || t.I != 0 || !strings.HasPrefix(callName(t.Args[0]), "encoding/json.Marshal") {
		return nil, nil
	}
	call := t.Args[0]
	for i := range s.Call {
		r := &s.Call[i]
		if r.N == call.N && len(r.Args) == len(call.Args) && r.Args[0] == call.Args[0] {
			// the record of a state compatible with this outcome
			ok := true
			for k, f := range r.St.facts {
				if g, has := st.facts[k]; has && g.Val != f.Val {
					ok = false
				}
			}
			if ok {
				return addrOfLoaded(r, stripBox(call.Args[0])), r
			}
		}
	}
	return nil, nil
}

// addrOfLoaded: for an argument that is a whole object handed over by value, the
// object it was read from, when it still holds that value; otherwise the argument.
func addrOfLoaded(r *CallRec, v *Term) *Term {
	n := r.N.Args[0]
	for n != nil && n.Op == OpInstr {
		switch in := n.Instr.(type) {
		case *ssa.MakeInterface:
			n = n.Args[0]
			continue
		case *ssa.UnOp:
			if in.Op == token.MUL && len(n.Args) == 1 {
				if a := r.St.val(n.Args[0]); a != nil && a.K == TAlloc && r.St.load(a, n, n.Typ) == v {
					return a
				}
			}
		}
		break
	}
	return v
}

func saved(c *Ctx, s *Sum, o Outcome, marsh map[*Term]CallRec) string {
	path := s.fl.path
	ks, rec := marshalOf(s, o.St, o.Rets[0])
	if ks == nil {
		return "what is returned is not the encoded key store: " + path(o.Rets[0])
	}
	call := stripConv(o.Rets[0]).Args[0]
	if e := o.Rets[1]; !o.St.succeeded(call) && !(e.K == TExtract && e.Args[0] == call) {
		return "a key store is returned although encoding it failed"
	}
	v := ksView{c, s, rec.St}
	fld := func(n ...string) *Term { return v.fieldOf(ks, n...) }
	str := func(n ...string) string { x, _ := strOf(fld(n...)); return x }
	if str("CoinType") != "icx" || str("Crypto", "Cipher") != "aes-128-ctr" || str("Crypto", "KDF") != "scrypt" {
		return fmt.Sprintf("the key store is marked coin=%q cipher=%q kdf=%q, not what opening it expects", str("CoinType"), str("Crypto", "Cipher"), str("Crypto", "KDF"))
	}
	if n, ok := fld("Version").intVal(); !ok || n != 3 {
		return "the key store's version is not 3"
	}
	// key derivation
	kp, krec := marshalOf(s, o.St, fld("Crypto", "KDFParams"))
	if kp == nil || !rec.St.succeeded(stripConv(fld("Crypto", "KDFParams")).Args[0]) {
		return "the key derivation parameters are not stored"
	}
	ct := stripConv(fld("Crypto", "CipherText"))
	var xor *Event
	for _, k := range sortedKeys(rec.St.must) {
		if e := rec.St.must[k]; e.Tag == "xor" && stripConv(e.Args[1]) == ct {
			xor = e
		}
	}
	if xor == nil {
		return "the stored cipher text is not an encrypted key: " + path(ct)
	}
	stream := stripBox(xor.Args[0])
	if !strings.HasSuffix(callName(stream), "crypto/cipher.NewCTR") {
		return "the key is not encrypted in counter mode"
	}
	blk := stripBox(stream.Args[0])
	if blk.K == TExtract {
		blk = blk.Args[0]
	}
	if !strings.HasSuffix(callName(blk), "crypto/aes.NewCipher") || !rec.St.succeeded(blk) {
		return "the key is not encrypted with AES"
	}
	kk := stripConv(blk.Args[0])
	if kk.K != TSlice || !v.keyRange(kk, stripConv(kk.Args[0]), 0, 16) {
		return "the cipher key is not the first 16 bytes of the derived key: " + path(kk)
	}
	key := stripConv(kk.Args[0])
	if key.K != TExtract || !strings.HasSuffix(callName(key.Args[0]), "scrypt.Key") || !rec.St.succeeded(key.Args[0]) {
		return "the key is not derived with scrypt: " + path(key)
	}
	if path(key.Args[0].Args[0]) != "p1" {
		return "the key is not derived from the given password: " + path(key.Args[0].Args[0])
	}
	kv := ksView{c, s, krec.St}
	for i, n := range []string{"Salt", "N", "R", "P", "DKLen"} {
		have := kv.fieldOf(kp, n)
		if have == nil || stripConv(have) != stripConv(key.Args[0].Args[i+1]) {
			return fmt.Sprintf("the stored %s is not the one the key was derived with: %s", strings.ToLower(n), pathOr(s, have))
		}
	}
	if n, ok := kv.fieldOf(kp, "DKLen").intVal(); !ok || n != 32 {
		return "the derived key is not 32 bytes long"
	}
	salt := stripConv(kv.fieldOf(kp, "Salt"))
	if !v.random(salt, 8) {
		return "the salt is not freshly random: " + path(salt)
	}
	cp, crec := marshalOf(s, o.St, fld("Crypto", "CipherParams"))
	if cp == nil || !rec.St.succeeded(stripConv(fld("Crypto", "CipherParams")).Args[0]) {
		return "the cipher parameters are not stored"
	}
	iv := stripConv(ksView{c, s, crec.St}.fieldOf(cp, "IV"))
	if iv == nil || iv != stripConv(stream.Args[1]) {
		return "the stored initialisation vector is not the one used: " + pathOr(s, iv)
	}
	if !v.random(iv, 0) {
		return "the initialisation vector is not freshly random: " + path(iv)
	}
	// the plain text is the whole key
	segs := rec.St.content(xor.Args[2])
	if len(segs) != 1 || segs[0].Kind != 'w' || path(segs[0].T) != "p0.bytes" {
		return "what is encrypted is not the key: " + rec.St.contentPath(xor.Args[2])
	}
	if ct.K != TMake || !linEqual(rec.St, rec.St.lin(s.fl.ts.lenOf(ct, types.Typ[types.Int])), rec.St.lin(s.fl.ts.lenOf(stripConv(xor.Args[2]), types.Typ[types.Int]))) {
		return "the cipher text is not as long as the key: " + path(ct)
	}
	parts, ok := keccak(c, rec.St, fld("Crypto", "MAC"))
	if !ok {
		return "the stored MAC is not a Keccak-256 digest: " + pathOr(s, fld("Crypto", "MAC"))
	}
	if m := v.macParts(parts, key, ct); m != "" {
		return m
	}
	adr := false
	for _, k := range sortedKeys(rec.St.must) {
		e := rec.St.must[k]
		if e.Tag == "adr" && e.Args[1] == fieldAddrOf(v, ks, "Address") && rec.St.succeeded(e.Args[0]) {
			p := path(e.Args[2])
			if strings.Contains(p, "NewAccountAddressFromPublicKey((*common/crypto.PrivateKey).PublicKey(p0))") && strings.Contains(p, "Address).Bytes(") {
				adr = true
			}
		}
	}
	if !adr {
		if a := fld("Address"); a != nil && strings.Contains(path(a), "NewAccountAddressFromPublicKey((*common/crypto.PrivateKey).PublicKey(p0))") {
			adr = true
		}
	}
	if !adr {
		return "the stored address is not the key's"
	}
	return ""
}

// random: the whole buffer was filled from the system's random source.
func (v ksView) random(b *Term, min int64) bool {
	if b == nil {
		return false
	}
	if b.K != TMake && !(b.K == TSlice && b.Args[0].K == TAlloc && b.Args[1] == nil) {
		return false
	}
	if min > 0 {
		if n, ok := v.s.fl.ts.lenOf(b, types.Typ[types.Int]).intVal(); !ok || n < min {
			return false
		}
	}
	for _, k := range sortedKeys(v.st.must) {
		e := v.st.must[k]
		if e.Tag != "rnd" || !v.st.succeeded(e.Args[0]) {
			continue
		}
		buf := stripConv(e.Args[len(e.Args)-1])
		if buf != b && buf.K == TSlice && buf.Args[1] == nil && buf.Args[2] == nil {
			buf = stripConv(buf.Args[0])
		}
		if buf != b {
			continue
		}
		if len(e.Args) == 3 && !strings.Contains(v.s.fl.path(e.Args[1]), "crypto/rand.Reader") {
			continue
		}
		return true
	}
	return false
}

// ksNames: the file format's names.
func ksNames(c *Ctx) {
	names := map[string]map[string]string{
		"KeyStoreData":    {"Address": "address", "ID": "id", "Version": "version", "CoinType": "coinType", "Crypto": "crypto"},
		"CryptoData":      {"Cipher": "cipher", "CipherParams": "cipherparams", "CipherText": "ciphertext", "KDF": "kdf", "KDFParams": "kdfparams", "MAC": "mac"},
		"ScryptParams":    {"DKLen": "dklen", "N": "n", "R": "r", "P": "p", "Salt": "salt"},
		"AES128CTRParams": {"IV": "iv"},
	}
	for _, tn := range sortedKeys(names) {
		t := c.P.Type("common/wallet", tn)
		if t == nil {
			c.Missing("names", "common/wallet."+tn)
			continue
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for _, fn := range sortedKeys(names[tn]) {
			got := "missing"
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == fn {
					got = jsonName(st, i)
				}
			}
			c.Ob("names", tn+"."+fn, got == names[tn][fn], c.P.posStr(t.(*types.Named).Obj().Pos()), fmt.Sprintf("field %s is stored as %q, the key store format says %q", fn, got, names[tn][fn]))
		}
	}
}
