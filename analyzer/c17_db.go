package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "storage backends honour one contract",
		"for every type implementing the bucket interface: outcome analysis of Get/Has/Set/Delete on all paths against the outcome of the underlying storage operation (missing key -> nil,nil; other failure -> error; value/key passed through), and agreement of the physical key used by the four operations",
		checkDB)
	register("C18", "layered database isolation and flush",
		"effect analysis of the layered database: the parent is written only after a flush or inside a writing flush; flush copies every pending entry by its kind, keeps the pending data on failure, and reads see pending entries first",
		checkLayer)
}

const dbp = modPath + "/common/db"

type storeOp struct {
	kind     string // get has set del
	key      int    // arg index of the key
	val      int    // arg index of the value (set)
	notFound string // global holding the not-found error
	pass     bool   // results are passed through unchanged
}

var storeOps = map[string]storeOp{
	"(*github.com/syndtr/goleveldb/leveldb.DB).Get":    {"get", 1, -1, "github.com/syndtr/goleveldb/leveldb.ErrNotFound", false},
	"(*github.com/syndtr/goleveldb/leveldb.DB).Has":    {"has", 1, -1, "", false},
	"(*github.com/syndtr/goleveldb/leveldb.DB).Put":    {"set", 1, 2, "", false},
	"(*github.com/syndtr/goleveldb/leveldb.DB).Delete": {"del", 1, -1, "", false},
	"(*github.com/dgraph-io/badger.Txn).Get":           {"get", 1, -1, "github.com/dgraph-io/badger.ErrKeyNotFound", false},
	"(*github.com/dgraph-io/badger.Txn).Set":           {"set", 1, 2, "", false},
	"(*github.com/dgraph-io/badger.Txn).Delete":        {"del", 1, -1, "", false},
	"(" + dbp + ".Bucket).Get":                         {"get", 1, -1, "", true},
	"(" + dbp + ".Bucket).Has":                         {"has", 1, -1, "", true},
	"(" + dbp + ".Bucket).Set":                         {"set", 1, 2, "", true},
	"(" + dbp + ".Bucket).Delete":                      {"del", 1, -1, "", true},
}

var valueOf = map[string]int{ // item -> value calls: result 0 value, 1 error
	"(*github.com/dgraph-io/badger.Item).ValueCopy": 0,
	"(*github.com/dgraph-io/badger.Item).Value":     0,
}

// leaves expands a merged/derived boolean or value into the terms it may be.
func isErrGVar(t *Term, name string) bool {
	return t != nil && t.K == TGVar && t.Op == name
}

func eqFact(st *State, a, b *Term) (bool, bool) {
	return st.decide(st.fl.ts.bin(tokEQL, a, b, types.Typ[types.Bool]))
}

func nilState(st *State, t *Term) (isNil, known bool) {
	if t == nil {
		return false, false
	}
	if t.isNil() {
		return true, true
	}
	if st.fl.ts.nonNil(t) {
		return false, true
	}
	return st.decide(st.fl.ts.bin(tokEQL, t, st.fl.ts.nilC(t.T), types.Typ[types.Bool]))
}

func extractOf(ts *terms, call *Term, i int) *Term {
	if call.K == TStruct {
		return call.Args[i]
	}
	var t types.Type
	if tp, ok := call.T.(*types.Tuple); ok && i < tp.Len() {
		t = tp.At(i).Type()
	}
	return ts.mk(Term{K: TExtract, I: i, Args: []*Term{call}, T: t})
}

func checkDB(c *Ctx) {
	iface := c.P.Iface("common/db", "Bucket")
	if iface == nil {
		c.Missing("bucket-contract", "common/db.Bucket")
		return
	}
	impls := c.P.Impls(nil, iface)
	for _, t := range impls {
		tn := short(types.TypeString(t, nil))
		keys := map[string]string{} // key path -> where
		shared := false
		for _, mn := range []string{"Get", "Has", "Set", "Delete"} {
			fn := c.P.MethodOf(t, mn)
			if fn == nil {
				c.Missing("bucket-contract", tn+"."+mn)
				continue
			}
			c.bucketMethod(t, tn, mn, fn, keys, &shared)
		}
		// key agreement
		ok := len(keys) == 1
		var ks []string
		for k, w := range keys {
			ks = append(ks, k+" ("+w+")")
		}
		c.Ob("key-agreement", tn, ok, "", "Get/Has/Set/Delete do not address the same physical key: "+strings.Join(ks, " vs "))
		for k, w := range keys {
			parts := strings.Fields(k)
			np, nid, bad := 0, 0, false
			for _, p := range parts {
				switch {
				case p == "p1":
					np++
				case strings.HasPrefix(p, "p0."):
					nid++
				default:
					bad = true
				}
			}
			c.Ob("key-complete", tn, np == 1 && !bad && (!shared || nid >= 1 && parts[len(parts)-1] == "p1"), w,
				"the physical key must be the bucket's own prefix followed by the whole caller key; found "+k)
		}
	}
	c.checkGetBucket()
	c.Need("key-agreement", 4)
	c.Need("bucket-contract", 16)
	c.Need("bucket-identity", 4)
}

type opRec struct {
	op   storeOp
	res  *Term // call term
	args []*Term
	name string
	key  string
	val  string
}

func (c *Ctx) bucketMethod(t *types.Named, tn, mn string, fn *ssa.Function, keys map[string]string, shared *bool) {
	rule := "bucket-contract"
	key := tn + "." + mn
	okAll := true
	bad := func(pos, msg string) {
		okAll = false
		c.Ob(rule, key, false, pos, msg)
	}
	var fl *Flow
	pend := map[*Node]opRec{}
	recs := map[string]opRec{}
	var cfg FlowCfg
	cfg = FlowCfg{
		Pre: func(st *State, n *Node, args []*Term, final bool) {
			if n.Op != OpInstr {
				return
			}
			if _, ok := valueOf[n.Callee]; ok && final && len(args) > 1 && !st.fl.ts.nonNil(args[1]) {
				bad(fl.g.pos(n), "an empty stored value is returned as nil, which means missing")
			}
			if op, ok := storeOps[n.Callee]; ok && n.isCall() && op.key < len(args) {
				r := opRec{op: op, args: args, name: n.Callee, key: st.contentPath(args[op.key])}
				if op.val >= 0 {
					r.val = st.contentPath(args[op.val])
				}
				pend[n] = r
			}
			switch n.Instr.(type) {
			case *ssa.MapUpdate:
				pend[n] = opRec{op: storeOp{kind: "set"}, args: args, name: "map", key: st.contentPath(args[1]), val: st.contentPath(args[2])}
			case *ssa.Lookup:
				pend[n] = opRec{op: storeOp{kind: "get"}, args: args, name: "map", key: st.contentPath(args[1])}
			}
			if n.Builtin == "delete" && n.isCall() {
				pend[n] = opRec{op: storeOp{kind: "del"}, args: args, name: "map", key: st.contentPath(args[1])}
			}
		},
		Hook: func(st *State, n *Node, args []*Term, res *Term, final bool) {
			r, ok := pend[n]
			if !ok {
				return
			}
			r.res = res
			if r.op.kind == "set" && r.name == "map" && final {
				if nilable(args[2].T) && !args[2].isNil() {
					if root := args[2].root(); root.K == TSym && root.N.Op == OpParam {
						bad(fl.g.pos(n), "keeps a reference to the caller's buffer instead of a copy")
					} else if !st.fl.ts.nonNil(args[2]) {
						bad(fl.g.pos(n), "an empty value may be kept as nil, which means deleted")
					}
				}
			}
			id := fmt.Sprintf("op:%d", n.ID)
			recs[id] = r
			st.addMay(id, "op", n)
			st.addMust(id, "op", n)
			if final {
				c.sites++
				keys[r.key] = fl.g.pos(n)
				if strings.Contains(r.name, "leveldb") || strings.Contains(r.name, "badger") {
					*shared = true
				}
			}
		},
		Part: func(st *State) string {
			s := ""
			for _, k := range sortedKeys(st.may) {
				if st.may[k].Tag == "op" {
					s += k
					if r := recs[k]; r.res != nil && r.op.notFound != "" {
						e := extractOf(st.fl.ts, r.res, 1)
						n, nk := nilState(st, e)
						v, vk := eqFact(st, e, st.fl.ts.mk(Term{K: TGVar, Op: r.op.notFound, T: e.T, I: 1}))
						s += fmt.Sprint(n, nk, v, vk)
					}
					s += ";"
				}
			}
			return s + factsKey(st)
		},
		Exit: func(st *State, b *Block, rets []*Term) {
			pos := fl.g.pos(b.Nodes[len(b.Nodes)-1])
			var ops []opRec
			for _, k := range sortedKeys(st.must) {
				if st.must[k].Tag == "op" {
					ops = append(ops, recs[k])
				}
			}
			switch mn {
			case "Get":
				c.getOutcome(st, ops, rets, func(m string) { bad(pos, m) })
			case "Has":
				c.hasOutcome(st, ops, rets, func(m string) { bad(pos, m) })
			case "Set":
				c.writeOutcome(st, ops, rets, "set", func(m string) { bad(pos, m) })
			case "Delete":
				c.writeOutcome(st, ops, rets, "del", func(m string) { bad(pos, m) })
			}
		},
	}
	g := BuildGraph(c.P, fn, InlineCfg{})
	fl = NewFlow(g, cfg)
	fl.Run()
	for k := range g.inl {
		c.funcs[k] = true
	}
	c.nodes += len(g.Nodes)
	c.paths += fl.edges
	if okAll {
		c.Ob(rule, key, true, c.P.posOf(fn), "every exit reflects the storage outcome")
	}
}

// getOutcome: the last read decides the outcome; earlier reads must have missed.
func (c *Ctx) getOutcome(st *State, ops []opRec, rets []*Term, bad func(string)) {
	if len(rets) != 2 {
		return
	}
	if n, k := nilState(st, rets[1]); k && !n {
		// an error is returned: fine unless the key is known to be merely missing
		for _, o := range ops {
			if o.op.notFound != "" && o.op.kind == "get" {
				e := extractOf(st.fl.ts, o.res, 1)
				if v, k := eqFact(st, e, st.fl.ts.mk(Term{K: TGVar, Op: o.op.notFound, T: e.T, I: 1})); k && v {
					bad("a missing key is reported as an error")
				}
			}
		}
		return
	}
	reads := 0
	for _, o := range ops {
		switch o.op.kind {
		case "set", "del":
			bad("a read modifies the store (" + short(o.name) + ")")
		}
		if o.op.kind != "get" {
			continue
		}
		reads++
		ts := st.fl.ts
		if o.name == "map" {
			okT := extractOf(ts, o.res, 1)
			vT := extractOf(ts, o.res, 0)
			if o.res.T != nil {
				if _, isT := o.res.T.(*types.Tuple); !isT {
					// plain lookup: value itself decides
					if !sameBytes(st, rets[0], o.res) {
						bad("returns something other than the stored value")
					}
					continue
				}
			}
			hit, known := st.decide(okT)
			if known && hit || !known {
				if sameBytes(st, rets[0], vT) {
					if n, k := nilState(st, rets[1]); !k || !n {
						bad("a stored value is returned together with an error")
					}
					return
				}
			}
			switch {
			case known && hit:
				if passThrough(rets, ops) {
					bad("a present entry is ignored and the parent is consulted instead")
				} else {
					bad("returns something other than the stored value for a present key")
				}
				return
			case !known:
				bad("presence of the key is not taken into account")
				return
			default: // miss
				if hasLaterRead(ops, o) {
					continue
				}
				if !rets[0].isNil() || !rets[1].isNil() {
					bad("a missing key must yield (nil, nil)")
				}
				return
			}
		}
		if o.op.pass {
			if extractOf(ts, o.res, 0) != rets[0] || extractOf(ts, o.res, 1) != rets[1] {
				bad("the parent's answer is not returned unchanged")
			}
			return
		}
		v, e := extractOf(ts, o.res, 0), extractOf(ts, o.res, 1)
		en, ek := nilState(st, e)
		nf, nfk := eqFact(st, e, ts.mk(Term{K: TGVar, Op: o.op.notFound, T: e.T, I: 1}))
		switch {
		case nfk && nf:
			if !rets[0].isNil() || !rets[1].isNil() {
				bad("a missing key must yield (nil, nil)")
			}
		case ek && en:
			if !derivesValue(rets[0], v) {
				bad("returns something other than the stored value")
			}
		default:
			if !nfk {
				bad("a missing key is not distinguished from a storage failure")
			} else if rets[1] != e {
				bad("a storage failure is reported as success")
			} else if ek && !en {
			} else if !derivesValue(rets[0], v) {
				bad("returns something other than the stored value")
			}
		}
		return
	}
	if reads == 0 {
		// only error exits may skip the read; err unknown here
		if n, k := nilState(st, rets[1]); !(k && !n) {
			if !libErr(rets[1]) {
				bad("returns without consulting the store")
			}
		}
	}
}

func libErr(t *Term) bool {
	return t != nil && t.K == TCall && closureRunner[t.N.Callee] != ""
}

func hasLaterRead(ops []opRec, o opRec) bool {
	for _, p := range ops {
		if p.op.pass && (p.op.kind == "get" || p.op.kind == "has") {
			return true
		}
	}
	return false
}

func passThrough(rets []*Term, ops []opRec) bool {
	for _, o := range ops {
		if o.op.pass && rets[0].K == TExtract && rets[0].Args[0] == o.res {
			return true
		}
	}
	return false
}

// derivesValue: v itself, a conversion/copy of it, or the value read from item v.
func derivesValue(r, v *Term) bool {
	if r == v {
		return true
	}
	if r.K == TExtract && r.I == 0 && r.Args[0].K == TCall {
		if _, ok := valueOf[r.Args[0].N.Callee]; ok && len(r.Args[0].Args) > 0 && r.Args[0].Args[0] == v {
			return true
		}
	}
	return false
}

// sameBytes: r holds exactly the bytes of v (v itself, a conversion or a copy).
func sameBytes(st *State, r, v *Term) bool {
	if r == v {
		return true
	}
	a, b := st.content(r), st.content(v)
	if len(a) == 1 && len(b) == 1 && a[0].Kind == 'w' && b[0].Kind == 'w' && a[0].T == b[0].T {
		return true
	}
	return false
}

func (c *Ctx) hasOutcome(st *State, ops []opRec, rets []*Term, bad func(string)) {
	if len(rets) != 1 {
		return
	}
	ts := st.fl.ts
	r := rets[0]
	rv, rk := st.decide(r)
	want := func(t *Term) bool { // r must equal boolean t
		if r == t {
			return true
		}
		tv, tk := st.decide(t)
		return tk && rk && tv == rv
	}
	consulted := false
	for _, o := range ops {
		if o.op.kind == "set" || o.op.kind == "del" {
			bad("a presence test modifies the store")
		}
		switch {
		case o.op.kind == "has" && o.op.pass:
			if !want(o.res) {
				bad("the parent's answer is not returned unchanged")
			}
			return
		case o.op.kind == "has":
			consulted = true
			e := extractOf(ts, o.res, 1)
			en, ek := nilState(st, e)
			if ek && !en {
				if !(rk && !rv) {
					bad("reports a key as present although the store failed")
				}
				return
			}
			if !want(extractOf(ts, o.res, 0)) {
				bad("answer differs from the store's")
			}
			return
		case o.op.kind == "get" && o.name == "map":
			consulted = true
			okT, vT := extractOf(ts, o.res, 1), extractOf(ts, o.res, 0)
			hit, known := st.decide(okT)
			if known && !hit && hasLaterRead(ops, o) {
				continue
			}
			if isString(vT.T) || !nilable(vT.T) {
				if !want(okT) {
					bad("answer differs from the stored entry")
				}
				return
			}
			// nil value = tombstone
			isNil := ts.bin(tokEQL, vT, ts.nilC(vT.T), types.Typ[types.Bool])
			if known && hit {
				if !want(ts.not(isNil)) {
					bad("a pending entry must be reported present exactly if it is not a deletion")
				}
				return
			}
			if known && !hit {
				if !(rk && !rv) {
					bad("a missing key is reported present")
				}
				return
			}
			bad("presence of the pending entry is not taken into account")
			return
		case o.op.kind == "get":
			consulted = true
			v, e := extractOf(ts, o.res, 0), extractOf(ts, o.res, 1)
			_ = v
			en, ek := nilState(st, e)
			if ek && !en && !(rk && !rv) {
				bad("reports a key as present although the store did not find it")
				return
			}
		}
	}
	if !consulted && !(rk && !rv) {
		bad("answers without consulting the store")
	}
}

func (c *Ctx) writeOutcome(st *State, ops []opRec, rets []*Term, kind string, bad func(string)) {
	if len(rets) != 1 {
		return
	}
	if n, k := nilState(st, rets[0]); k && !n {
		return // reports failure
	}
	done := false
	for _, o := range ops {
		k := o.op.kind
		if k == "set" && kind == "del" && o.name == "map" && o.args[2].isNil() {
			k = "del"
		}
		if k == "get" || k == "has" {
			continue
		}
		if k != kind {
			bad("performs " + k + " on the store")
			continue
		}
		if kind == "set" && o.val != "p2" {
			bad("stores something other than the caller's value: " + o.val)
		}
		if done {
			bad("writes twice")
		}
		done = true
		if o.res != nil && o.res.T != nil && types.Identical(o.res.T, errorType()) {
			if rets[0] != o.res {
				if n, k := nilState(st, o.res); !(k && n) {
					bad("a storage failure is reported as success")
				}
			}
		}
	}
	if !done && !libErr(rets[0]) {
		bad("reports success without having written")
	}
}

func (c *Ctx) checkGetBucket() {
	iface := c.P.Iface("common/db", "Database")
	if iface == nil {
		c.Missing("bucket-identity", "common/db.Database")
		return
	}
	for _, t := range c.P.Impls([]string{"common/db"}, iface) {
		tn := short(types.TypeString(t, nil))
		fn := c.P.MethodOf(t, "GetBucket")
		if fn == nil {
			continue
		}
		ok := true
		bad := func(pos, msg string) { ok = false; c.Ob("bucket-identity", tn+".GetBucket", false, pos, msg) }
		type mu struct{ m, v *Term }
		var fl *Flow
		isID := func(st *State, x *Term) bool { return st.contentPath(x) == "p1" }
		cfg := FlowCfg{
			Part: func(st *State) string { return strings.Join(sortedKeys(st.must), ";") + factsKey(st) },
			Hook: func(st *State, n *Node, args []*Term, res *Term, final bool) {
				if n.Op != OpInstr {
					return
				}
				switch n.Instr.(type) {
				case *ssa.MapUpdate:
					if !isID(st, args[1]) && final {
						bad(fl.g.pos(n), "bucket registered under a key other than the requested id")
					}
					st.addMust("reg:"+args[2].key, "reg", n, args[2])
				case *ssa.Lookup:
					if !isID(st, args[1]) && final {
						bad(fl.g.pos(n), "bucket looked up under a key other than the requested id")
					}
					st.addMust("look", "look", n, res)
				}
				if n.isCall() && n.Callee == "("+dbp+".Database).GetBucket" {
					if !isID(st, args[1]) && final {
						bad(fl.g.pos(n), "the parent's bucket is requested under another id")
					}
					st.addMust("parent", "parent", n, res)
				}
			},
			Exit: func(st *State, b *Block, rets []*Term) {
				pos := fl.g.pos(b.Nodes[len(b.Nodes)-1])
				if len(rets) != 2 {
					return
				}
				if n, k := nilState(st, rets[1]); k && !n {
					return
				}
				r := rets[0]
				if r.K == TIface {
					r = r.Args[0]
				}
				look := st.must["look"]
				found := func() (bool, bool) { // is a bucket registered under the id
					if _, ok := look.Args[0].T.(*types.Tuple); ok {
						return st.decide(extractOf(st.fl.ts, look.Args[0], 1))
					}
					n, k := nilState(st, look.Args[0])
					return !n, k
				}
				if look != nil && r == look.Args[0] {
					if v, k := found(); !(k && v) {
						bad(pos, "an unregistered bucket is returned")
					}
					return
				}
				if look != nil && r.K == TExtract && r.Args[0] == look.Args[0] {
					if v, k := st.decide(extractOf(st.fl.ts, look.Args[0], 1)); !(k && v) {
						bad(pos, "an unregistered bucket is returned")
					}
					return
				}
				if p := st.must["parent"]; p != nil && r == extractOf(st.fl.ts, p.Args[0], 0) {
					return
				}
				if r.K != TAlloc {
					bad(pos, "returned bucket is neither registered nor newly created")
					return
				}
				if look != nil {
					if _, ok := st.must["reg:"+r.key]; !ok {
						bad(pos, "a newly created bucket is not remembered, so two handles of one bucket diverge")
					}
					if v, k := found(); !(k && !v) {
						bad(pos, "an existing bucket is replaced by a new one")
					}
					return
				}
				// stateless handle over a shared store: must carry the id and the store
				idOK, dbOK := false, false
				for _, m := range st.mem {
					if m.addr.K == TFieldAddr && m.addr.Args[0] == r {
						if isID(st, m.val) {
							idOK = true
						}
						if strings.HasPrefix(fl.path(m.val), "p0.") {
							dbOK = true
						}
					}
				}
				if !idOK || !dbOK {
					bad(pos, "the bucket handle does not carry the requested id and this database")
				}
			},
		}
		g := BuildGraph(c.P, fn, InlineCfg{})
		fl = NewFlow(g, cfg)
		fl.Run()
		c.nodes += len(g.Nodes)
		c.paths += fl.edges
		c.sawFn(fn)
		if ok {
			c.Ob("bucket-identity", tn+".GetBucket", true, c.P.posOf(fn), "same id, same bucket")
		}
	}
}

// factsKey: the facts of a state, for checks that keep every path of a small function apart.
func factsKey(st *State) string {
	var sb strings.Builder
	for _, k := range sortedKeys(st.facts) {
		fmt.Fprintf(&sb, "%s=%v;", k, st.facts[k].Val)
	}
	return sb.String()
}
