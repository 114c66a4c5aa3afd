package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "shared state is only touched under its lock",
		"lockset dataflow: for every struct that owns a mutex, every field that is modified after construction may be read only while a mutex of the same object is held and modified (stored, map-updated, deleted from, appended) only while it is held exclusively; fresh objects are exempt until published",
		checkGuards)
}

type guardedStruct struct {
	named *types.Named
	mutex map[int]bool
	name  string
}

func isMutex(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "sync.Mutex" || s == "sync.RWMutex" || s == "*sync.Mutex" || s == "*sync.RWMutex" || s == "sync.Locker"
}

func (p *Program) mutexStructs() map[*types.Named]*guardedStruct {
	out := map[*types.Named]*guardedStruct{}
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			m := map[int]bool{}
			for i := 0; i < st.NumFields(); i++ {
				if isMutex(st.Field(i).Type()) {
					m[i] = true
				}
			}
			if len(m) > 0 {
				out[nt] = &guardedStruct{nt, m, short(types.TypeString(nt, nil))}
			}
		}
	}
	return out
}

type access struct {
	field string
	write bool
	held  string // "", R, W
	pos   string
	fn    string
	what  string
}

func checkGuards(c *Ctx) {
	u := c.P.usage()
	gs := c.P.mutexStructs()
	var acc []access
	mutated := map[string]bool{}
	structOf := func(addr *Term) (*guardedStruct, string, bool) {
		if addr == nil || addr.K != TFieldAddr || addr.Args[0].T == nil {
			return nil, "", false
		}
		pt, ok := addr.Args[0].T.Underlying().(*types.Pointer)
		if !ok {
			return nil, "", false
		}
		nt, ok := pt.Elem().(*types.Named)
		if !ok {
			return nil, "", false
		}
		g := gs[nt]
		if g == nil || g.mutex[addr.I] {
			return nil, "", false
		}
		return g, g.name + "." + addr.fieldName(), true
	}
	for _, fn := range c.P.funcs {
		if !c.P.isRoot(u, fn) {
			continue
		}
		if !c.P.mentions(fn, gs) {
			continue
		}
		c.sawFn(fn)
		var fl *Flow
		rec := func(st *State, n *Node, addr *Term, write bool, what string) {
			g, f, ok := structOf(addr)
			if !ok {
				return
			}
			base := addr.Args[0]
			if base.root().K == TAlloc && base.K == TAlloc {
				if al, ok := base.N.Instr.(*ssa.Alloc); ok && !copiedStruct(al) {
					return // under construction
				}
			}
			held := ""
			for _, m := range []string{"W", "R"} {
				for _, e := range st.may {
					if e.Tag == "held" && strings.HasPrefix(e.Key, "held:"+m+":") && e.Args[0].K == TFieldAddr && e.Args[0].Args[0] == base && g.mutex[e.Args[0].I] {
						if held == "" {
							held = m
						}
					}
				}
			}
			if write {
				mutated[f] = true
			}
			acc = append(acc, access{f, write, held, fl.g.pos(n), short(n.Frame.Fn.String()), what})
			c.sites++
		}
		mapOf := func(t *Term) *Term {
			if t != nil && t.K == TLoad {
				return t.Args[0]
			}
			return nil
		}
		cfg := FlowCfg{
			Part: func(st *State) string {
				var ks []string
				for k, e := range st.may {
					if e.Tag == "held" {
						ks = append(ks, k)
					}
				}
				sort.Strings(ks)
				return strings.Join(ks, ";")
			},
			Hook: func(st *State, n *Node, args []*Term, res *Term, final bool) {
				if op, mode, isl := lockOp(n); isl {
					k := "held:" + mode + ":" + args[0].key
					if op == "acquire" {
						st.addMay(k, "held", n, args[0])
					} else {
						delete(st.may, k)
					}
					return
				}
				if !final || n.Op != OpInstr {
					return
				}
				switch in := n.Instr.(type) {
				case *ssa.UnOp:
					if len(args) == 1 && args[0].K == TFieldAddr {
						rec(st, n, args[0], false, "read")
					}
				case *ssa.Store:
					rec(st, n, args[0], true, "assigned")
				case *ssa.MapUpdate:
					rec(st, n, mapOf(args[0]), true, "map entry set")
				case *ssa.Lookup, *ssa.Range:
					rec(st, n, mapOf(args[0]), false, "map read")
				case *ssa.Next:
					if len(args) == 1 && args[0].K == TCall && args[0].Op == "range" {
						rec(st, n, mapOf(args[0].Args[0]), false, "map iterated")
					}
				case *ssa.Call, *ssa.Defer:
					if n.Builtin == "delete" && !n.Deferred {
						rec(st, n, mapOf(args[0]), true, "map entry deleted")
					}
					_ = in
				}
			},
		}
		g := BuildGraph(c.P, fn, InlineCfg{})
		fl = NewFlow(g, cfg)
		fl.Run()
		for k := range g.inl {
			c.funcs[k] = true
		}
		c.nodes += len(g.Nodes)
		c.paths += fl.edges
	}
	fields := map[string]bool{}
	for _, a := range acc {
		if !mutated[a.field] {
			continue
		}
		fields[a.field] = true
		switch {
		case a.held == "":
			c.Ob("guarded-access", a.field+" in "+a.fn, false, a.pos, a.field+" is "+a.what+" without holding the object's lock")
		case a.write && a.held != "W":
			c.Ob("guarded-access", a.field+" in "+a.fn, false, a.pos, a.field+" is "+a.what+" while the lock is held only for reading")
		default:
			c.Ob("guarded-access", a.field+" in "+a.fn, true, a.pos, a.what+" under lock")
		}
	}
	for _, f := range sortedKeys(fields) {
		c.Ob("guarded-field", f, true, "", "")
	}
	for _, g := range gs {
		c.Note("mutex-owning struct %s", g.name)
	}
	c.Need("guarded-access", 14)
	c.Need("guarded-field", 6)
}

// mentions: fn (or functions it can reach statically) has a field access on one of the structs.
func (p *Program) mentions(fn *ssa.Function, gs map[*types.Named]*guardedStruct) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok {
						if nt, ok := pt.Elem().(*types.Named); ok && gs[nt] != nil {
							return true
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cl := ci.Common().StaticCallee(); cl != nil && len(cl.Blocks) > 0 && walk(cl) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}
