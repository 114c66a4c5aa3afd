package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "Each link reads its own source and signs for its own destination",
		"path-sensitive value flow through the relay's start: for every start of a link, the receiver, sender, wallet and addresses are traced to one side of the configuration and the side required by the direction; constructors keep what they are given; wallets are traced to their own key store and password; every link's result is handed on",
		checkWiring)
}

var sidePath = regexp.MustCompile(`^(?:p\d+|free:\w+|\*free:\w+|cell\(free:\w+\))\.(?:\w+\.)*(Src|Dst)\.(\w+)$`)

// side: which side of the configuration a value is a field of.
func side(s *Flow, t *Term) (sd, field string) {
	if t == nil {
		return
	}
	if m := sidePath.FindStringSubmatch(s.path(stripConv(stripBox(t)))); m != nil {
		return m[1], m[2]
	}
	return
}

func otherSide(s string) string {
	if s == "Src" {
		return "Dst"
	}
	return "Src"
}

func isWalletIface(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Wallet" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "common/wallet")
}

func isFatal(callee string) bool {
	i := strings.LastIndex(callee, ".")
	m := callee[i+1:]
	return strings.HasPrefix(m, "Fatal") || strings.HasPrefix(m, "Panic") || callee == "os.Exit"
}

func checkWiring(c *Ctx) {
	// the function starting the links: two wallets among its parameters
	var cands []*ssa.Function
	for _, f := range c.P.funcsOf("cmd/relay") {
		n := 0
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if isWalletIface(f.Signature.Params().At(i).Type()) {
				n++
			}
		}
		if n >= 2 && f.Parent() == nil {
			cands = append(cands, f)
		}
	}
	// of several, the one the others work for
	var starter *ssa.Function
	for _, f := range cands {
		inner := false
		for _, g := range cands {
			inner = inner || g != f && callsDirectly(g, func(x *ssa.Function) bool { return x == f })
		}
		if !inner {
			starter = f
		}
	}
	if starter == nil {
		c.Missing("link", "cmd/relay: the function starting the links from two wallets")
		return
	}
	sides := wireWallets(c, starter)
	wireLinks(c, starter, sides)
	wireCtors(c)
	c.Need("link", 2)
	c.Need("wallet", 2)
	c.Need("keep", 5)
	c.Need("report", 1)
}

func callsDirectly(f *ssa.Function, pred func(*ssa.Function) bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if s := ci.Common().StaticCallee(); s != nil && pred(s) {
					return true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if callsDirectly(a, pred) {
			return true
		}
	}
	return false
}

// leavesArgs: the function and those of the module it calls store only into their own variables.
func leavesArgs(c *Ctx, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] || !c.P.inModule(f) || pkgOf(f) == "common/log" {
		return true
	}
	seen[f] = true
	var own func(v ssa.Value) bool
	own = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			return own(x.X)
		case *ssa.IndexAddr:
			return own(x.X)
		case *ssa.Slice:
			return own(x.X)
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !own(x.Addr) {
					return false
				}
			case *ssa.MapUpdate:
				if _, ok := x.Map.(*ssa.MakeMap); !ok {
					return false
				}
			case *ssa.Go, *ssa.Defer, *ssa.MakeClosure:
				return false
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && !leavesArgs(c, g, seen) {
					return false
				}
			}
		}
	}
	return true
}

// wireWallets: the wallets handed to the starter come from their side's key store and password.
func wireWallets(c *Ctx, starter *ssa.Function) map[int]string {
	sides := map[int]string{}
	opaque := func(f *ssa.Function) bool {
		return defaultOpaque(f) || f == starter || f.Name() == "DecryptKeyStore" || f.Name() == "EncryptKeyAsKeyStore" || f.Name() == "GenerateKeyPair" || pkgOf(f) == "common/log"
	}
	roots := map[*ssa.Function]bool{}
	for _, f := range c.P.funcsOf("cmd/relay") {
		if callsDirectly(f, func(g *ssa.Function) bool { return g == starter }) {
			roots[f] = true
		}
	}
	var list []*ssa.Function
	for f := range roots {
		list = append(list, f)
	}
	sortFuncs(list)
	for _, f := range list {
		s := c.Sum(f, SumCfg{Opaque: opaque})
		for _, r := range s.Calls(func(n *Node) bool { return n.Fn == starter }) {
			for i, a := range r.Args {
				if i >= starter.Signature.Params().Len() || !isWalletIface(starter.Signature.Params().At(i).Type()) {
					continue
				}
				key := fmt.Sprintf("wallet %d of %s", i, short(starter.String()))
				sd, msg := walletSide(s, r.St, a)
				if msg == "" && sides[i] != "" && sides[i] != sd {
					msg = "the wallet comes from different sides on different paths"
				}
				if msg == "" {
					sides[i] = sd
				}
				c.Ob("wallet", key, msg == "", s.g.pos(r.N), msg)
			}
		}
	}
	// wallets created for a saved configuration
	var saving func(f *ssa.Function, depth int) (n int)
	saving = func(f *ssa.Function, depth int) (n int) {
		s := c.Sum(f, SumCfg{Opaque: opaque})
		c.sites++
		for _, r := range s.Sto {
			if len(r.Args) < 2 {
				continue
			}
			p := s.fl.path(r.Args[0])
			if !strings.HasSuffix(p, ".KeyStoreData") {
				continue
			}
			v := stripConv(r.Args[1])
			m := sidePath.FindStringSubmatch(strings.TrimPrefix(p, "&"))
			if m == nil && depth < 3 {
				// which side is up to the callers
				up := 0
				for _, g := range c.P.funcsOf("cmd/relay") {
					if g != f && callsDirectly(g, func(x *ssa.Function) bool { return x == f }) {
						up += saving(g, depth+1)
					}
				}
				if up > 0 {
					return n + up
				}
			}
			n++
			ok, msg := false, "the key store saved is not a newly encrypted one"
			if m != nil && v.K == TExtract && v.I == 0 && strings.HasSuffix(callName(v.Args[0]), ".EncryptKeyAsKeyStore") {
				call := v.Args[0]
				pm := passwordOf(s, r.St, call.Args[1], m[1])
				switch {
				case !r.St.succeeded(call):
					msg = "a key store is saved although encrypting it may have failed"
				case pm != "":
					msg = pm
				default:
					ok = true
				}
			}
			c.Ob("wallet", "new key store in "+short(f.String())+" "+p, ok, s.g.pos(r.N), msg)
		}
		return
	}
	for _, f := range c.P.funcsOf("cmd/relay") {
		if callsDirectly(f, func(g *ssa.Function) bool { return g.Name() == "EncryptKeyAsKeyStore" }) {
			saving(f, 0)
		}
	}
	return sides
}

// walletSide: the side whose key store the wallet was opened from ("" with a message if it is not).
func walletSide(s *Sum, st *State, w *Term) (string, string) {
	w = stripBox(w)
	if w == nil || w.K != TExtract || w.I != 0 || !strings.HasSuffix(callName(w.Args[0]), ".DecryptKeyStore") {
		return "", "the wallet is not one opened from a key store: " + s.fl.path(w)
	}
	call := w.Args[0]
	sd, fld := side(s.fl, call.Args[0])
	if sd == "" || fld != "KeyStoreData" {
		return "", "the wallet is not opened from a configured key store: " + s.fl.path(call.Args[0])
	}
	if !st.succeeded(call) {
		return "", "the relay starts although a key store may not have been opened"
	}
	return sd, passwordOf(s, st, call.Args[1], sd)
}

// passwordOf: pw is the password of the given side: the secret file's content if one is named, else the configured one.
func passwordOf(s *Sum, st *State, pw *Term, want string) string {
	secret := func(t *Term) bool {
		sd, f := side(s.fl, t)
		return sd == want && f == "KeySecret"
	}
	pass := func(t *Term) bool {
		sd, f := side(s.fl, t)
		return sd == want && f == "KeyStorePass"
	}
	empty := func(is func(*Term) bool) (bool, bool) {
		for _, k := range sortedKeys(st.facts) {
			f := st.facts[k]
			t := f.T
			if t.K != TBin {
				continue
			}
			for i := 0; i < 2; i++ {
				if t.Op == "==" && is(t.Args[i]) {
					if v, ok := strOf(t.Args[1-i]); ok && v == "" {
						return f.Val, true
					}
				}
				if t.Args[i].K == TLen && is(t.Args[i].Args[0]) {
					l := st.lin(t.Args[i])
					if st.entails(l) {
						return true, true
					}
					if st.entails(l.neg().plus(1)) {
						return false, true
					}
				}
			}
		}
		return false, false
	}
	pw = stripConv(pw)
	if pw != nil && pw.K == TExtract && pw.I == 0 && strings.HasSuffix(callName(pw.Args[0]), ".ReadFile") {
		if !secret(pw.Args[0].Args[0]) {
			return "the password is read from a file other than the one configured for this side: " + s.fl.path(pw.Args[0].Args[0])
		}
		if !st.succeeded(pw.Args[0]) {
			return "the password is used although its file may not have been read"
		}
		if e, known := empty(secret); known && e {
			return "the secret file is read when none is configured"
		}
		return ""
	}
	if e, known := empty(secret); !known || !e {
		return "the configured secret file is not used for the password"
	}
	segs := st.content(pw)
	if len(segs) == 1 && segs[0].Kind == 'w' && pass(segs[0].T) || pass(pw) {
		return ""
	}
	if len(segs) == 0 || segsString(segs) == `""` {
		if e, known := empty(pass); known && e {
			return ""
		}
		return "an empty password is used although one may be configured"
	}
	return "the password is not the one configured for this side: " + s.fl.path(pw)
}

// wireLinks: every started link is wired to one orientation, the one its direction asks for.
func wireLinks(c *Ctx, f *ssa.Function, sides map[int]string) {
	opaque := func(g *ssa.Function) bool {
		if defaultOpaque(g) || isLogger(g) {
			return true
		}
		return pkgOf(g) != "cmd/relay" && !(pkgOf(g) == "common/link" && g.Signature.Recv() == nil)
	}
	isStart := func(n *Node) bool { return strings.HasSuffix(n.Callee, "types.Link).Start") || strings.HasSuffix(n.Callee, "link.Link).Start") }
	type at struct {
		st *State
		n  *Node
	}
	var waits []at
	sc := SumCfg{Opaque: opaque, Go: true, Max: 4000}
	loggers := map[string]bool{}
	for _, g := range c.P.funcsOf("cmd/relay") {
		if isLogger(g) && leavesArgs(c, g, map[*ssa.Function]bool{}) {
			loggers[g.String()] = true
		}
	}
	sc.NoKill = func(callee string) bool { return loggers[callee] }
	sc.Ev = func(st *State, n *Node, args []*Term, res *Term) {
		// the start's result, for the report
		if isStart(n) && res != nil {
			if e := st.must[fmt.Sprintf("start@%d", n.ID)]; e != nil {
				st.addMust(fmt.Sprintf("start@%d", n.ID), e.Tag, n, append([]*Term{res}, e.Args[1:]...)...)
			}
		}
	}
	sc.Track = func(n *Node) string {
		if isFatal(n.Callee) {
			return "fatal"
		}
		return ""
	}
	sc.Cfg = func(fc *FlowCfg) {
		fc.PureExtra = map[string]bool{"(" + modPath + "/common/types.BtpAddress).BlockChain": true}
		pre := fc.Pre
		fc.Pre = func(st *State, n *Node, args []*Term, final bool) {
			if pre != nil {
				pre(st, n, args, final)
			}
			if n.Op != OpInstr {
				return
			}
			if n.isCall() && isStart(n) {
				src, _ := orientation(st, args[0], args[1], sides)
				st.addMust(fmt.Sprintf("start@%d", n.ID), "start:"+src, n, nil, args[0], args[1])
			}
			switch in := n.Instr.(type) {
			case *ssa.Send:
				st.addMust(fmt.Sprintf("sent@%d", n.ID), "sent", n, args...)
			case *ssa.Select:
				for _, cs := range in.States {
					if cs.Dir == types.RecvOnly && final {
						waits = append(waits, at{st.clone(), n})
					}
				}
			case *ssa.UnOp:
				if in.Op == token.ARROW && final {
					waits = append(waits, at{st.clone(), n})
				}
			}
		}
	}
	s := c.Sum(f, sc)
	fatal := func(st *State) bool {
		for _, e := range st.must {
			if e.Tag == "fatal" {
				return true
			}
		}
		return false
	}
	starts := s.Calls(isStart)
	for _, r := range starts {
		if fatal(r.St) {
			continue
		}
		src, msg := orientation(r.St, r.Args[0], r.Args[1], sides)
		key := "link from " + src
		if src == "" {
			key = "link started at " + s.g.pos(r.N)
		}
		c.Ob("link", key, msg == "", s.g.pos(r.N), msg)
	}
	if len(starts) == 0 {
		c.Ob("link", "start", false, c.P.posOf(f), "no link is started")
	}
	if len(waits) == 0 {
		c.Ob("report", "wait", false, c.P.posOf(f), "nothing waits for the links' results")
	}
	want := map[string][]string{"front": {"Src"}, "reverse": {"Dst"}, "both": {"Dst", "Src"}}
	seen := map[string]bool{}
	for _, w := range waits {
		if fatal(w.st) {
			continue
		}
		dir := ""
		for _, d := range sortedKeys(want) {
			if v, ok := dirFact(s, w.st, d); ok && v {
				dir = d
			}
		}
		if dir == "" {
			c.Ob("link", "direction", false, s.g.pos(w.n), "links run although the direction is none of front, reverse and both")
			continue
		}
		seen[dir] = true
		var got []string
		bad := ""
		unsent := ""
		for _, k := range sortedKeys(w.st.must) {
			e := w.st.must[k]
			if !strings.HasPrefix(e.Tag, "start:") {
				continue
			}
			src := e.Tag[6:]
			for _, g := range got {
				if g == src {
					bad = "the link from " + src + " is started twice"
				}
			}
			got = append(got, src)
			ok := false
			for _, e2 := range w.st.must {
				if e2.Tag == "sent" && len(e2.Args) > 1 && stripBox(e2.Args[1]) == stripBox(e.Args[0]) {
					ok = true
				}
			}
			if !ok {
				unsent = "the result of the link from " + src + " is not always handed to the waiting relay"
			}
		}
		for _, x := range want[dir] {
			found := false
			for _, g := range got {
				found = found || g == x
			}
			if !found {
				bad = fmt.Sprintf("direction %s does not start the link from %s", dir, x)
			}
		}
		for _, g := range got {
			found := false
			for _, x := range want[dir] {
				found = found || g == x
			}
			if !found {
				bad = fmt.Sprintf("direction %s starts a link from %s", dir, g)
			}
		}
		c.Ob("link", "direction "+dir, bad == "", s.g.pos(w.n), bad)
		c.Ob("report", "result of links, direction "+dir, unsent == "", s.g.pos(w.n), unsent)
	}
	for _, d := range sortedKeys(want) {
		c.Ob("link", "direction "+d, seen[d], c.P.posOf(f), "direction "+d+" is not served")
	}
	// a received error ends the relay
	closes := false
	for _, g := range c.P.funcsOf("cmd/relay") {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						closes = true
					}
				}
			}
		}
	}
	// over: the state is one after the channel was closed, which nothing does
	over := func(st *State) bool {
		for _, f := range st.facts {
			if !closes && !f.Val && f.T.K == TExtract && f.T.I == 1 && received(f.T) {
				return true
			}
		}
		return false
	}
	for _, b := range s.Back {
		ok := false
		// what was received is tested before the next wait
		for _, n := range b.E.To.Nodes {
			if n.Op != OpPhi || b.E.Idx >= len(n.Args) || !received(b.St.val(n.Args[b.E.Idx])) {
				continue
			}
			t := s.fl.sym(n)
			ok = len(waits) > 0
			for _, w := range waits {
				if s.fl.loopHas(b.E.To, func(x *Node) bool { return x == w.n }) {
					isNil, known := nilState(w.st, t)
					ok = ok && known && isNil
				}
			}
		}
		for _, k := range sortedKeys(b.St.facts) {
			ft := b.St.facts[k]
			if ft.T.K == TBin && ft.T.Op == "==" && ft.Val {
				for i := 0; i < 2; i++ {
					if ft.T.Args[i].isNil() && received(ft.T.Args[1-i]) {
						ok = true
					}
				}
			}
		}
		if fatal(b.St) {
			ok = true
		}
		c.Ob("report", "error ends the relay", ok, s.g.pos(b.E.From.lastNode()), "the relay goes on waiting after a link ended with an error")
	}
	for _, o := range s.Outs {
		if len(o.Rets) == 0 || fatal(o.St) || over(o.St) {
			continue
		}
		isNil, known := nilState(o.St, o.Rets[len(o.Rets)-1])
		c.Ob("report", "end of the relay", known && !isNil, o.Pos, "the relay ends without an error")
	}
}

// isLogger: a function of the relay that only sets up the log.
func isLogger(g *ssa.Function) bool {
	r := g.Signature.Results()
	if r.Len() < 1 || g.Signature.Recv() != nil {
		return false
	}
	n, ok := r.At(0).Type().(*types.Named)
	return ok && n.Obj().Name() == "Logger" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "common/log")
}

func received(t *Term) bool {
	t = stripBox(t)
	if t == nil {
		return false
	}
	if t.K == TExtract {
		t = t.Args[0]
	}
	if t.N == nil {
		return false
	}
	switch in := t.N.Instr.(type) {
	case *ssa.Select:
		return true
	case *ssa.UnOp:
		return in.Op == token.ARROW
	case *ssa.Extract:
		_, ok := in.Tuple.(*ssa.Select)
		return ok
	}
	return false
}

// dirFact: is the configured direction known to be d?
func dirFact(s *Sum, st *State, d string) (bool, bool) {
	for _, k := range sortedKeys(st.facts) {
		f := st.facts[k]
		if f.T.K != TBin || f.T.Op != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			if v, ok := strOf(f.T.Args[i]); ok && v == d && strings.HasSuffix(s.fl.path(f.T.Args[1-i]), ".Direction") {
				return f.Val, true
			}
		}
	}
	return false, false
}

// chainOf: the kind of chain the facts establish for the address of a side.
func chainOf(st *State, sd string) (string, bool) {
	s := st
	for _, k := range sortedKeys(st.facts) {
		f := st.facts[k]
		if f.T.K != TBin || f.T.Op != "==" || !f.Val {
			continue
		}
		for i := 0; i < 2; i++ {
			v, ok := strOf(f.T.Args[i])
			o := f.T.Args[1-i]
			if ok && strings.HasSuffix(callName(o), ".BlockChain") {
				if d, fl := side(s.fl, o.Args[0]); d == sd && fl == "Address" {
					return v, true
				}
			}
		}
	}
	return "", false
}

// orientation: the source side of a link, and what is wrong with its wiring.
func orientation(st *State, lk, snd *Term, sides map[int]string) (string, string) {
	s := st
	lk, snd = stripBox(lk), stripBox(snd)
	lf := deepFields(st, lk)
	rcv := stripBox(lf["r"])
	if rcv == nil || rcv.isNil() || callName(rcv) == "" {
		return "", "the started link has no receiver: " + s.fl.path(lk)
	}
	rn := short(callName(rcv))
	src, fld := "", ""
	if len(rcv.Args) > 2 {
		src, fld = side(s.fl, rcv.Args[0])
	}
	if src == "" || fld != "Address" {
		return "", "the receiver does not watch a configured address: " + s.fl.path(rcv)
	}
	dst := otherSide(src)
	if d, fl := side(s.fl, rcv.Args[1]); d != dst || fl != "Address" {
		return src, "the receiver does not watch for the other side's address: " + s.fl.path(rcv.Args[1])
	}
	if d, fl := side(s.fl, rcv.Args[2]); d != src || fl != "Endpoint" {
		return src, "the receiver is connected to something else than its source's endpoint: " + s.fl.path(rcv.Args[2])
	}
	kind, known := chainOf(st, src)
	pkg := rn[:strings.LastIndex(rn, ".")]
	okPkg := map[string][]string{"icon": {"chain/icon/bridge", "chain/icon/btp2"}, "eth": {"chain/ethbr"}, "hardhat": {"chain/ethbr"}}
	if !known || !inList(okPkg[kind], pkg) {
		return src, fmt.Sprintf("the receiver %s is used for a source on chain %q", rn, kind)
	}
	if kind == "icon" {
		br, ok := false, false
		for _, k := range sortedKeys(st.facts) {
			if d, fl := side(s.fl, st.facts[k].T); d == src && fl == "BridgeMode" {
				br, ok = st.facts[k].Val, true
			}
		}
		if !ok || br != (pkg == "chain/icon/bridge") {
			return src, "the receiver " + rn + " does not follow the bridge mode of its source"
		}
	}
	// the link's own ends and configuration
	for _, x := range []struct{ f, want string }{{"src", src}, {"dst", dst}, {"cfg.Src.Address", src}, {"cfg.Dst.Address", dst}} {
		v := lf[x.f]
		if d, fl := side(s.fl, v); d != x.want || fl != "Address" {
			return src, "the link is configured with the wrong " + x.f + ": " + pathOr1(st, v)
		}
	}
	// the sender
	sn := short(callName(snd))
	if snd == nil || len(snd.Args) < 4 || !strings.HasSuffix(sn, ".NewSender") {
		return src, "the link is started with something else than a new sender: " + s.fl.path(snd)
	}
	if d, fl := side(s.fl, snd.Args[0]); d != src || fl != "Address" {
		return src, "the sender delivers for another source: " + s.fl.path(snd.Args[0])
	}
	if d, fl := side(s.fl, snd.Args[1]); d != dst || fl != "Address" {
		return src, "the sender delivers to another address than its destination: " + s.fl.path(snd.Args[1])
	}
	if d, fl := side(s.fl, snd.Args[3]); d != dst || fl != "Endpoint" {
		return src, "the sender is connected to something else than its destination's endpoint: " + s.fl.path(snd.Args[3])
	}
	w := stripBox(snd.Args[2])
	wi := -1
	for i, p := range s.fl.g.Params {
		if w != nil && w.K == TSym && w.N == p {
			wi = i
		}
	}
	if wi < 0 || sides[wi] != dst {
		return src, "the sender does not sign with the destination's wallet: " + s.fl.path(w)
	}
	sk, known := chainOf(st, dst)
	okS := map[string]string{"icon": "chain/icon.NewSender", "eth": "chain/ethbr.NewSender", "hardhat": "chain/ethbr.NewSender"}
	if !known || okS[sk] != sn {
		return src, fmt.Sprintf("the sender %s is used for a destination on chain %q", sn, sk)
	}
	return src, ""
}

func inList(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// wireCtors: the constructors keep the ends they are given.
func wireCtors(c *Ctx) {
	type ct struct {
		fn     string
		fields map[string]int
		client int // parameter the client is connected to (-1: none)
	}
	for _, x := range []ct{
		{"chain/icon.NewSender", map[string]int{"src": 0, "dst": 1, "w": 2}, 3},
		{"chain/ethbr.NewSender", map[string]int{"src": 0, "dst": 1, "w": 2}, 3},
		{"chain/icon/bridge.NewBridge", map[string]int{"src": 0, "dst": 1}, 2},
		{"chain/icon/btp2.NewBTP2", map[string]int{"src": 0, "dst": 1}, 2},
		{"chain/ethbr.NewEthBridge", map[string]int{"src": 0, "dst": 1}, 2},
	} {
		f := c.P.FindFunc(x.fn)
		if f == nil {
			c.Missing("keep", x.fn)
			continue
		}
		s := c.Sum(f, SumCfg{Opaque: func(g *ssa.Function) bool {
			return defaultOpaque(g) || g.Name() == "NewClient" || strings.HasSuffix(pkgOf(g), "binding") || isMethodOn(g, "BtpAddress") || g.Name() == "HexToAddress"
		}})
		for _, o := range s.Outs {
			df := deepFields(o.St, o.Rets[0])
			msg := ""
			for _, k := range sortedKeys(x.fields) {
				v := df[k]
				if v == nil || s.fl.path(v) != fmt.Sprintf("p%d", x.fields[k]) {
					msg = fmt.Sprintf("%s keeps %s as its %s", x.fn, pathOr(s, v), k)
				}
			}
			if x.client >= 0 {
				ok := false
				for _, v := range df {
					v = stripBox(v)
					if strings.HasSuffix(callName(v), ".NewClient") && len(v.Args) > 0 && s.fl.path(v.Args[0]) == fmt.Sprintf("p%d", x.client) {
						ok = true
					}
				}
				if !ok {
					msg = x.fn + " does not connect to the endpoint it is given"
				}
			}
			for _, v := range df {
				v = stripBox(v)
				if v != nil && v.K == TExtract && strings.HasSuffix(callName(v.Args[0]), ".NewBMC") {
					if p := s.fl.path(v.Args[0].Args[0]); !strings.Contains(p, "BtpAddress).ContractAddress(p1)") && !strings.Contains(p, "BtpAddress).Account(p1)") {
						msg = x.fn + " calls a contract other than the destination's: " + p
					}
				}
			}
			c.Ob("keep", x.fn, msg == "", o.Pos, msg)
		}
		if len(s.Outs) == 0 {
			c.Ob("keep", x.fn, false, c.P.posOf(f), "the constructor does not return")
		}
	}
}

func pathOr1(st *State, t *Term) string {
	if t == nil {
		return "not set"
	}
	return st.fl.path(t)
}
