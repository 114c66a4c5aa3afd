seed("c18-flush-lost-on-error", "C18", "a storage failure in the middle of a writing flush, followed by a retry",
 "pending changes of a layer bucket are dropped when the flush fails half way", "common/db",
 [("common/db/layer_db.go", "	if write && bk.data != nil {\n		for k, v := range bk.data {", "	pending := bk.data\n	bk.data = nil\n	if write && pending != nil {\n		for k, v := range pending {"),
  ("common/db/layer_db.go", "	bk.data = nil\n	return nil\n}\n\ntype layerDB", "	return nil\n}\n\ntype layerDB")],
'''package db

import (
	"errors"
	"testing"
)

type zzFail struct {
	Bucket
	fail bool
}

func (b *zzFail) Set(k, v []byte) error {
	if b.fail {
		return errors.New("disk full")
	}
	return b.Bucket.Set(k, v)
}

type zzDB struct {
	Database
	b *zzFail
}

func (d *zzDB) GetBucket(id BucketID) (Bucket, error) { return d.b, nil }

func TestZZDemo(t *testing.T) {
	m := NewMapDB()
	rb, _ := m.GetBucket("X")
	p := &zzDB{m, &zzFail{rb, true}}
	l := NewLayerDB(p)
	b, _ := l.GetBucket("X")
	if err := b.Set([]byte("k"), []byte("v")); err != nil {
		t.Fatal(err)
	}
	if err := l.Flush(true); err == nil {
		t.Fatal("failure not reported")
	}
	p.b.fail = false
	if err := l.Flush(true); err != nil {
		t.Fatal(err)
	}
	if v, _ := rb.Get([]byte("k")); string(v) != "v" {
		t.Fatalf("change lost: %q", v)
	}
}
''')

seed("c17-leveldb-error-as-missing", "C17", "a read on a store that fails for a reason other than a missing key",
 "a failing leveldb read is reported as a missing key", "common/db",
 [("common/db/go_level_db.go", "	if err == leveldb.ErrNotFound {", "	if err != nil && len(value) == 0 {")],
'''package db

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	d, err := NewGoLevelDB("x", dir)
	if err != nil {
		t.Fatal(err)
	}
	b, err := d.GetBucket("B")
	if err != nil {
		t.Fatal(err)
	}
	if v, err := b.Get([]byte("nokey")); v != nil || err != nil {
		t.Fatalf("missing key: %v %v", v, err)
	}
	d.Close()
	if v, err := b.Get([]byte("k")); err == nil {
		t.Fatalf("read of a closed store succeeded: %v", v)
	}
}
''')

seed("c15-branch-before-right-child", "C15", "a storage failure (or crash) while the right subtree is written",
 "a branch node is stored and considered stored before its right child is", "common/mta",
 [("common/mta/accumulator.go", """	if err := n.right.Flush(); err != nil {
		return err
	}
	hv := n.Hash()
	if err := n.bucket.Set(hv, n.serialized); err != nil {
		return err
	}
	n.state = stateFlushed
	return nil""", """	hv := n.Hash()
	if err := n.bucket.Set(hv, n.serialized); err != nil {
		return err
	}
	n.state = stateFlushed
	return n.right.Flush()""")],
'''package mta

import (
	"errors"
	"testing"

	"github.com/icon-project/btp/common/db"
)

type zzBucket struct {
	db.Bucket
	left int
}

func (b *zzBucket) Set(k, v []byte) error {
	if b.left == 0 {
		return errors.New("disk full")
	}
	b.left--
	return b.Bucket.Set(k, v)
}

func TestZZDemo(t *testing.T) {
	for n := 0; n < 12; n++ {
		m := db.NewMapDB()
		rb, _ := m.GetBucket("M")
		zb := &zzBucket{rb, n}
		a := &Accumulator{KeyForState: []byte("key"), Bucket: zb}
		for i := 0; i < 4; i++ {
			a.AddData([]byte{byte(i), 1, 2})
		}
		failed := a.Flush() != nil
		zb.left = 1000
		if failed {
			if err := a.Flush(); err != nil {
				t.Fatal(err)
			}
		}
		b := &Accumulator{KeyForState: []byte("key"), Bucket: rb}
		if err := b.Recover(); err != nil {
			t.Fatal(err)
		}
		for i := int64(0); i < 4; i++ {
			if _, err := b.WitnessFor(i); err != nil {
				t.Fatalf("failure at write %d: witness %d: %v", n, i, err)
			}
		}
	}
}
''')

seed("c16-proof-shape", "C16", "a crafted proof whose first right-hand node claims more leaves than the content before it",
 "a proof for an impossible tree shape (right subtree taller than the left one) is accepted", "common/mbt",
 [("common/mbt/proof.go", """		if n.l.level < n.r.level {
			return""", """		if n.level > levelBranch && n.l.level < n.r.level {
			return""")],
'''package mbt

import "testing"

func TestZZDemo(t *testing.T) {
	hf := HashFuncByUID("icon")
	p := &MerkleBinaryTreeProof{Contents: [][]byte{[]byte("a")}, ProofInRight: []ProofNode{{NumOfLeaf: 2, Value: hf([]byte("x"))}}}
	p.SetHashFunc(hf)
	if _, _, _, err := p.Root(); err == nil {
		t.Fatal("impossible shape accepted")
	}
	p = &MerkleBinaryTreeProof{Contents: [][]byte{[]byte("a"), []byte("b")}, ProofInRight: []ProofNode{{NumOfLeaf: 1, Value: hf([]byte("x"))}}}
	p.SetHashFunc(hf)
	if _, _, _, err := p.Root(); err != nil {
		t.Fatal(err)
	}
}
''')

seed("c02-map-read-unlocked", "C02", "one goroutine checks for a key while another writes",
 "the in-memory bucket is read without its lock", "common/db",
 [("common/db/map_db.go", """func (t *mapBucket) Has(k []byte) bool {
	t.mutex.Lock()
	defer t.mutex.Unlock()
	_, ok := t.real[string(k)]
	if configLogMapDB {
""", """func (t *mapBucket) Has(k []byte) bool {
	_, ok := t.real[string(k)]
	if configLogMapDB {
		t.mutex.Lock()
		defer t.mutex.Unlock()
""")],
'''package db

import (
	"runtime"
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	b, _ := NewMapDB().GetBucket("X")
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				k := []byte{byte(i), byte(g), byte(i >> 8)}
				if g%2 == 0 {
					b.Set(k, k)
				} else {
					b.Has(k)
				}
			}
		}(g)
	}
	wg.Wait()
}
''')

seed("c01-layer-lock-leak", "C01", "the parent database fails to open a bucket; the next access to the layer follows",
 "the layer database keeps its lock when opening a bucket of the parent fails", "common/db",
 [("common/db/layer_db.go", """	ldb.lock.Lock()
	defer ldb.lock.Unlock()

	if bk, ok := ldb.buckets[string(id)]; ok {
		return bk, nil
	}

	realbk, err := ldb.real.GetBucket(id)
	if err != nil {
		return nil, err
	}
""", """	ldb.lock.Lock()
	if bk, ok := ldb.buckets[string(id)]; ok {
		ldb.lock.Unlock()
		return bk, nil
	}

	realbk, err := ldb.real.GetBucket(id)
	if err != nil {
		return nil, err
	}
	defer ldb.lock.Unlock()
""")],
'''package db

import (
	"errors"
	"testing"
	"time"
)

type zzDB struct {
	Database
	fail bool
}

func (d *zzDB) GetBucket(id BucketID) (Bucket, error) {
	if d.fail {
		return nil, errors.New("io")
	}
	return d.Database.GetBucket(id)
}

func TestZZDemo(t *testing.T) {
	p := &zzDB{NewMapDB(), true}
	l := NewLayerDB(p)
	if _, err := l.GetBucket("X"); err == nil {
		t.Fatal("no error")
	}
	p.fail = false
	done := make(chan error, 1)
	go func() {
		_, err := l.GetBucket("X")
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("blocked on the lock")
	}
}
''')
