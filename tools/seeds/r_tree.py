seed("c16-grow-lopsided", "C16", "a tree made at once of sixteen contents or more: the right half of eight and more leaves lacks one",
 "a right half that lacks one leaf counts as full: the sixteenth content starts a new root instead of filling the right half: the tree is lopsided, its root is not the one the other side computes and the proofs made from it fail", "common/mbt",
 [("common/mbt/tree.go", "		if n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf {\n			n.r = n.r.lazyAdd(numOfLeaf, h)\n", "		if n.l != nil && n.l.numOfLeaf-n.r.numOfLeaf > n.l.numOfLeaf>>3 {\n			n.r = n.r.lazyAdd(numOfLeaf, h)\n")],
'''package mbt

import (
	"bytes"
	"fmt"
	"testing"
)

func zzRoot(hs [][]byte) []byte {
	if len(hs) == 1 {
		return hs[0]
	}
	k := 1
	for k*2 < len(hs) {
		k *= 2
	}
	return Sha3FIPS256(zzRoot(hs[:k]), zzRoot(hs[k:]))
}

func TestZZDemo(t *testing.T) {
	for n := 1; n <= 40; n++ {
		var cs, hs [][]byte
		for i := 0; i < n; i++ {
			c := []byte(fmt.Sprint("content ", i))
			cs = append(cs, c)
			hs = append(hs, Sha3FIPS256(c))
		}
		m, err := NewMerkleBinaryTree(Sha3FIPS256, cs)
		if err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(m.Root(), zzRoot(hs)) {
			t.Fatalf("the root of %d contents is not the balanced tree's", n)
		}
	}
}
''')
