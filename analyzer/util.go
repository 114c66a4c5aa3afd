package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func sortFuncs(fs []*ssa.Function) {
	sort.Slice(fs, func(i, j int) bool {
		a, b := fs[i], fs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func binOpOf(n *Node) (string, bool) {
	if b, ok := n.Instr.(*ssa.BinOp); ok {
		return b.Op.String(), true
	}
	return "", false
}

const tokEQL = token.EQL

var errT types.Type

func errorType() types.Type {
	if errT == nil {
		errT = types.Universe.Lookup("error").Type()
	}
	return errT
}

func constInt(v constant.Value) (int64, bool) {
	if v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}
