db="common/db/"
M("C17", db+"go_level_db.go", ("if err == leveldb.ErrNotFound {\n\t\treturn nil, nil\n\t} else {", "if err != nil {\n\t\treturn nil, nil\n\t} else {"))
M("C17", db+"go_level_db.go", ("bucket.db.Delete(internalKey(bucket.id, key), nil)", "bucket.db.Delete(key, nil)"))
M("C17", db+"go_level_db.go", ("bucket.db.Has(internalKey(bucket.id, key), nil)", "bucket.db.Has(key, nil)"))
M("C17", db+"bucket.go", ("copy(buf[len(id):], key)", "copy(buf, key)"))
M("C17", db+"bucket.go", ("copy(buf, id)", "copy(buf, key)"))
M("C17", db+"badger_db.go", ("return txn.Delete(ikey)", "txn.Delete(ikey)\n\t\treturn nil"))
M("C17", db+"badger_db.go", ("ValueCopy([]byte{})", "ValueCopy(nil)"))
M("C17", db+"layer_db.go", ("v2 := make([]byte, len(value))\n\t\tcopy(v2, value)", "v2 := value"))
M("C17", db+"layer_db.go", ("v2 := make([]byte, len(value))\n\t\tcopy(v2, value)", "v2 := append([]byte(nil), value...)"))
M("C17", db+"layer_db.go", ("return value != nil", "_ = value\n\t\t\treturn true"))
M("C18", db+"layer_db.go", ("bk.data[string(key)] = nil\n", "delete(bk.data, string(key))\n"))
M("C17", db+"map_db.go", ("\tt.bks[id] = bk\n", "\n"))
M("C17", db+"map_db.go", ("delete(t.real, string(k))", "t.real[string(k)] = \"\""))
R("C17", db+"layer_db.go", ("v2 := make([]byte, len(value))\n\t\tcopy(v2, value)", "v2 := append([]byte{}, value...)"))
R("C17", db+"bucket.go", ("buf := make([]byte, len(key)+len(id))\n\tcopy(buf, id)\n\tcopy(buf[len(id):], key)\n\treturn buf", "return append([]byte(id), key...)"))
R("C17", db+"bucket.go", ("buf := make([]byte, len(key)+len(id))\n\tcopy(buf, id)\n\tcopy(buf[len(id):], key)\n\treturn buf", "n := len(id)\n\tbuf := make([]byte, n+len(key))\n\tcopy(buf[n:], key)\n\tcopy(buf[:n], id)\n\treturn buf"))
R("C17", db+"go_level_db.go", ("\tif err == leveldb.ErrNotFound {\n\t\treturn nil, nil\n\t} else {\n\t\treturn value, err\n\t}", "\tswitch err {\n\tcase nil:\n\t\treturn value, nil\n\tcase leveldb.ErrNotFound:\n\t\treturn nil, nil\n\t}\n\treturn nil, err"))
R("C17", db+"badger_db.go", ("	if !(value != nil && err == nil) {\n\t\treturn false\n\t}\n\treturn true", "return err == nil && value != nil"))
R("C17", db+"layer_db.go", ("	if bk.data != nil {\n\t\tif value, ok := bk.data[string(key)]; ok {\n\t\t\treturn value, nil\n\t\t}\n\t}\n\treturn bk.real.Get(key)", "	if bk.data == nil {\n\t\treturn bk.real.Get(key)\n\t}\n\tvalue, ok := bk.data[string(key)]\n\tif !ok {\n\t\treturn bk.real.Get(key)\n\t}\n\treturn value, nil"))
M("C18", db+"layer_db.go", ("	ldb.flushed = true\n", ""))
M("C18", db+"layer_db.go", ("if err := bk.real.Set([]byte(k), v); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}", "if err := bk.real.Set([]byte(k), v); err != nil {\n\t\t\t\t\tcontinue\n\t\t\t\t}"))
M("C18", db+"layer_db.go", ("if write && bk.data != nil {", "if bk.data != nil {"))
M("C18", db+"layer_db.go", ("if v == nil {\n", "if len(v) == 0 {\n"))
M("C18", db+"layer_db.go", ("bk.Flush(write)", "bk.Flush(true)"))
M("C18", db+"layer_db.go", ("		if err := bk.Flush(write); err != nil {\n\t\t\treturn err\n\t\t}", "		bk.Flush(write)"))
M("C18", db+"layer_db.go", ("	if ldb.flushed {\n\t\treturn realbk, nil\n\t}\n", ""))
M("C18", db+"layer_db.go", ("	bk.data = nil\n\treturn nil", "	return nil"))
M("C18", db+"layer_db.go", ("	bk.lock.Lock()\n\tdefer bk.lock.Unlock()\n\n\tif write && bk.data != nil {\n\t\tfor k, v := range bk.data {", "	bk.lock.Lock()\n\tdefer bk.lock.Unlock()\n\n\tif write && bk.data != nil {\n\t\tdefer func() { bk.data = nil }()\n\t\tfor k, v := range bk.data {"))
R("C18", db+"layer_db.go", ("	if write && bk.data != nil {\n\t\tfor k, v := range bk.data {\n\t\t\tif v == nil {\n\t\t\t\tif err := bk.real.Delete([]byte(k)); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t} else {\n\t\t\t\tif err := bk.real.Set([]byte(k), v); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}", "	if write {\n\t\tfor k, v := range bk.data {\n\t\t\tvar err error\n\t\t\tif v != nil {\n\t\t\t\terr = bk.real.Set([]byte(k), v)\n\t\t\t} else {\n\t\t\t\terr = bk.real.Delete([]byte(k))\n\t\t\t}\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n\t}"))
R("C18,C17,C01,C02", db+"layer_db.go", ("	if write && bk.data != nil {\n\t\tfor k, v := range bk.data {\n\t\t\tif v == nil {\n\t\t\t\tif err := bk.real.Delete([]byte(k)); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t} else {\n\t\t\t\tif err := bk.real.Set([]byte(k), v); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}", "	if write {\n\t\tfor k, v := range bk.data {\n\t\t\tif err := bk.applyOne(k, v); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n\t}"), ("type layerDB struct {", "func (bk *layerBucket) applyOne(k string, v []byte) error {\n\tif v == nil {\n\t\treturn bk.real.Delete([]byte(k))\n\t}\n\treturn bk.real.Set([]byte(k), v)\n}\n\ntype layerDB struct {"))
mta="common/mta/"
M("C15", mta+"accumulator.go", ("	if err := n.right.Flush(); err != nil {\n\t\treturn err\n\t}\n", ""))
M("C15", mta+"accumulator.go", ("	if err := n.right.Flush(); err != nil {\n\t\treturn err\n\t}\n", "	n.right.Flush()\n"))
M("C15", mta+"accumulator.go", ("	hv := n.Hash()\n\tif err", "	hv := n.Hash()\n\tn.state = stateFlushed\n\tif err"))
M("C15", mta+"accumulator.go", ("if n.state == stateFlushed {", "if n.state >= stateHashed {"))
M("C15", mta+"accumulator.go", ("	if n.state < stateFlushed {", "	if n.state < stateHashed {"))
M("C15", mta+"accumulator.go", ("copy(bs, n.left.Hash())\n\t\tcopy(bs[HashSize:], n.right.Hash())", "copy(bs, n.right.Hash())\n\t\tcopy(bs[HashSize:], n.left.Hash())"))
M("C15", mta+"accumulator.go", ("			if err := r.Flush(); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n", ""))
M("C15", mta+"accumulator.go", ("roots[i] = r.Hash()", "roots[len(roots)-1-i] = r.Hash()"))
M("C15", mta+"accumulator.go", ("for i, r := range a.roots {", "for i, r := range a.roots[:1] {"))
M("C15", mta+"accumulator.go", ("	if err != nil {\n\t\treturn err\n\t}\n\tif len(bs) == 0 {", "	if err != nil || len(bs) == 0 {"))
M("C15", mta+"extaccumulator.go", ("a.length = s.Height - s.Offset", "a.length = s.Height"))
M("C15", mta+"extaccumulator.go", ("Height:     a.Height(),", "Height:     a.length,"))
M("C15", mta+"extaccumulator.go", ("	err = a.Bucket.Set(a.KeyForState, b)\n\tif err != nil {\n\t\treturn err\n\t}\n", "	a.Bucket.Set(a.KeyForState, b)\n"))
M("C15", mta+"extaccumulator.go", ("		} else {\n\t\t\treturn errors.New(\"InvalidData\")\n", ""))
R("C15", mta+"accumulator.go", ("		bs := make([]byte, 2*HashSize)\n\t\tcopy(bs, n.left.Hash())\n\t\tcopy(bs[HashSize:], n.right.Hash())", "		bs := append(append([]byte{}, n.left.Hash()...), n.right.Hash()...)"))
R("C15", mta+"accumulator.go", ("	if n.state < stateFlushed {\n\t\terr := n.bucket.Set(n.Hash(), n.data)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tn.state = stateFlushed\n\t}\n\treturn nil", "	if n.state >= stateFlushed {\n\t\treturn nil\n\t}\n\tif err := n.bucket.Set(n.Hash(), n.data); err != nil {\n\t\treturn err\n\t}\n\tn.state = stateFlushed\n\treturn nil"))
R("C15", mta+"accumulator.go", ("	if err := n.left.Flush(); err != nil {\n\t\treturn err\n\t}\n\tif err := n.right.Flush(); err != nil {\n\t\treturn err\n\t}\n", "	if err := flushAll(n.left, n.right); err != nil {\n\t\treturn err\n\t}\n"),("type dataNode struct","func flushAll(l, r Node) error {\n\tif err := l.Flush(); err != nil {\n\t\treturn err\n\t}\n\treturn r.Flush()\n}\n\ntype dataNode struct"))
R("C15", mta+"accumulator.go", ("	for i, r := range a.roots {\n\t\tif r != nil {\n\t\t\tif err := r.Flush(); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\troots[i] = r.Hash()\n\t\t}\n\t}\n", "	for i := 0; i < len(a.roots); i++ {\n\t\tr := a.roots[i]\n\t\tif r == nil {\n\t\t\tcontinue\n\t\t}\n\t\tif err := r.Flush(); err != nil {\n\t\t\treturn err\n\t\t}\n\t\troots[i] = r.Hash()\n\t}\n"))
R("C15", mta+"accumulator.go", ("	for i, r := range a.roots {\n\t\tif r != nil {\n\t\t\tif err := r.Flush(); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\troots[i] = r.Hash()\n\t\t}\n\t}\n", "	for _, r := range a.roots {\n\t\tif r != nil {\n\t\t\tif err := r.Flush(); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n\t}\n\tfor i, r := range a.roots {\n\t\tif r != nil {\n\t\t\troots[i] = r.Hash()\n\t\t}\n\t}\n"))
R("C15", mta+"accumulator.go", ("	for i, r := range a.roots {\n\t\tif r != nil {\n\t\t\tif err := r.Flush(); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\troots[i] = r.Hash()\n\t\t}\n\t}\n", "	for i, r := range a.roots {\n\t\tif h, err := flushNode(r); err != nil {\n\t\t\treturn err\n\t\t} else {\n\t\t\troots[i] = h\n\t\t}\n\t}\n"),("type dataNode struct","func flushNode(r Node) ([]byte, error) {\n\tif r == nil {\n\t\treturn nil, nil\n\t}\n\tif err := r.Flush(); err != nil {\n\t\treturn nil, err\n\t}\n\treturn r.Hash(), nil\n}\n\ntype dataNode struct"))
R("C15", mta+"accumulator.go", ("		if len(hv) == 0 {\n\t\t\ta.roots[i] = nil\n\t\t} else if len(hv) == HashSize {\n\t\t\ta.roots[i] = &hashNode{\n\t\t\t\tbucket:    a.Bucket,\n\t\t\t\thashValue: hv,\n\t\t\t}\n\t\t} else {\n\t\t\treturn errors.New(\"InvalidData\")\n\t\t}\n", "		switch len(hv) {\n\t\tcase 0:\n\t\tcase HashSize:\n\t\t\ta.roots[i] = &hashNode{bucket: a.Bucket, hashValue: hv}\n\t\tdefault:\n\t\t\treturn errors.New(\"InvalidData\")\n\t\t}\n"))
R("C15", mta+"extaccumulator.go", ("	a.roots = make([]Node, len(s.Roots))\n", "	roots := make([]Node, len(s.Roots))\n"),("a.roots[i] = nil","roots[i] = nil"),("a.roots[i] = &hashNode","roots[i] = &hashNode"),("	a.length = s.Height","	a.roots = roots\n\ta.length = s.Height"))

mbt="common/mbt/"
M("C16", mta+"accumulator.go", ("		if w.Direction == Left {", "		if w.Direction == Right {"))
M("C16", mta+"accumulator.go", ("	if !bytes.Equal(root.Hash(), h) {", "	if len(ws) > 0 && !bytes.Equal(root.Hash(), h) {"))
M("C16", mta+"accumulator.go", ("	for _, w := range ws {\n\t\tif w", "	for _, w := range ws {\n\t\tif len(w.HashValue) == 0 {\n\t\t\theight += 1\n\t\t\tcontinue\n\t\t}\n\t\tif w"))
M("C16", mta+"accumulator.go", ("Witness{Right, n.right.Hash()}", "Witness{Left, n.right.Hash()}"))
M("C16", mta+"accumulator.go", ("idx-bound, w)", "idx, w)"))
M("C16", mta+"accumulator.go", ("w = append(w, Witness{Left, rh})", "w = append(w, Witness{Right, rh})"))
M("C16", mta+"accumulator.go", ("idx /= 2", "idx -= 1"))
M("C16", mta+"accumulator.go", ("		if idx%2 == 0 {", "		if idx%2 != 0 {"))
M("C16", mbt+"proof.go", ("	if err = r.verify(); err != nil {\n\t\treturn\n\t}\n", ""))
M("C16", mbt+"proof.go", ("		if err := n.r.verify(); err != nil {\n\t\t\treturn err\n\t\t}\n", ""))
M("C16", mbt+"proof.go", ("if n.l.level < n.r.level {", "if n.l.level > n.r.level+9 {"))
M("C16", mbt+"proof.go", ("	if r.numOfLeaf != total {", "	if r.numOfLeaf > total {"))
M("C16", mbt+"proof.go", ("l, r = n.r.proof(num - maxNumChild)", "l, r = n.r.proof(num)"))
M("C16", mbt+"path.go", ("n.r.path(num - maxNumChild)", "n.r.path(num - 1)"))
M("C16", mbt+"path.go", ("if n.Dir == DirRight {", "if n.Dir != DirRight {"))
M("C16", mbt+"tree.go", ("n.h = n.hashFunc(n.l.h, n.r.h)\n\t\t} else", "n.h = n.hashFunc(n.r.h, n.l.h)\n\t\t} else"))
M("C16", "common/mpt/mpt.go", ("len(ml.Hash) > 0 && bytes.Equal(ml.Hash, mp.Hashes[i+1])", "len(ml.Hash) == 0 || bytes.Equal(ml.Hash, mp.Hashes[i+1])"))
M("C16", "common/mpt/mpt.go", ("				if !bytes.Equal(ml.Hash, mp.Hashes[i+1]) {", "				if len(ml.Hash) > 0 && !bytes.Equal(ml.Hash, mp.Hashes[i+1]) {"))
R("C16,C15", mta+"accumulator.go", ("		if w.Direction == Left {\n\t\t\tcopy(buf, w.HashValue)\n\t\t\tcopy(buf[HashSize:], h)\n\t\t} else {\n\t\t\tcopy(buf, h)\n\t\t\tcopy(buf[HashSize:], w.HashValue)\n\t\t}\n", "		l, r := h, w.HashValue\n\t\tif w.Direction == Left {\n\t\t\tl, r = r, l\n\t\t}\n\t\tcopy(buf[:HashSize], l)\n\t\tcopy(buf[HashSize:], r)\n"))
R("C16,C15", mta+"accumulator.go", ("		if w.Direction == Left {\n\t\t\tcopy(buf, w.HashValue)\n\t\t\tcopy(buf[HashSize:], h)\n\t\t} else {\n\t\t\tcopy(buf, h)\n\t\t\tcopy(buf[HashSize:], w.HashValue)\n\t\t}\n\t\th = crypto.SHA3Sum256(buf)\n", "		h = fold1(buf, w, h)\n"), ("type dataNode struct","func fold1(buf []byte, w Witness, h []byte) []byte {\n\tswitch w.Direction {\n\tcase Left:\n\t\tcopy(buf, w.HashValue)\n\t\tcopy(buf[HashSize:], h)\n\tdefault:\n\t\tcopy(buf, h)\n\t\tcopy(buf[HashSize:], w.HashValue)\n\t}\n\treturn crypto.SHA3Sum256(buf)\n}\n\ntype dataNode struct"))
R("C16", mta+"accumulator.go", ("	for _, w := range ws {\n\t\tif w", "	for i := 0; i < len(ws); i++ {\n\t\tw := ws[i]\n\t\tif w"), ("	height := 0\n	for i","	for i"), ("		height += 1\n",""),("	if height >= len(a.roots) {","	height := len(ws)\n	if height >= len(a.roots) {"))
R("C16", mta+"accumulator.go", ("	if !bytes.Equal(root.Hash(), h) {\n\t\treturn errors.IllegalArgumentError.New(\"InvalidWitness not matched root\")\n\t}\n\treturn nil", "	if bytes.Equal(h, root.Hash()) {\n\t\treturn nil\n\t}\n\treturn errors.IllegalArgumentError.New(\"InvalidWitness not matched root\")"))
R("C16", mta+"accumulator.go", ("		if idx%2 == 0 {\n\t\t\tw[i].Direction = Right\n\t\t} else {\n\t\t\tw[i].Direction = Left\n\t\t}\n\t\tw[i].HashValue = hv\n\t\tidx /= 2", "		d := Left\n\t\tif idx&1 == 0 {\n\t\t\td = Right\n\t\t}\n\t\tw[i] = Witness{Direction: d, HashValue: hv}\n\t\tidx >>= 1"))
R("C16", mbt+"path.go", ("	var l []PathNode\n	if num > maxNumChild {\n\t\tl = n.r.path(num - maxNumChild)\n\t\tl = append(l, PathNode{Right: false, Value: n.l.h})\n\t} else {\n\t\tl = n.l.path(num)\n\t\tl = append(l, PathNode{Right: true, Value: n.r.h})\n\t}\n\treturn l", "	if num <= maxNumChild {\n\t\treturn append(n.l.path(num), PathNode{Right: true, Value: n.r.h})\n\t}\n\treturn append(n.r.path(num-maxNumChild), PathNode{Value: n.l.h})"))
R("C16", mbt+"path.go", ("	h := leaf\n	for _, n := range nList {\n		if n.Dir == DirRight {\n			h = hashFunc(h, n.Value)\n		} else {\n			h = hashFunc(n.Value, h)\n		}\n	}\n	return h","	h := leaf\n	for i := range nList {\n		n := &nList[i]\n		switch n.Dir {\n		case DirRight:\n			h = hashFunc(h, n.Value)\n		default:\n			h = hashFunc(n.Value, h)\n		}\n	}\n	return h"))
R("C16", mbt+"proof.go", ("	if err = r.verify(); err != nil {\n\t\treturn\n\t}\n\treturn\n", "	err = r.verify()\n\treturn\n"))
R("C16", mbt+"proof.go", ("	if n.l != nil {\n\t\tif n.l.level < n.r.level {", "	if n.l == nil {\n\t\treturn nil\n\t}\n\t{\n\t\tif n.r.level > n.l.level {"))
R("C16", mbt+"tree.go", ("		n.h = n.hashFunc(n.l.h, n.r.h)\n\t}\n}", "		n.h = n.childHash()\n\t}\n}\n\nfunc (n *node) childHash() []byte { return n.hashFunc(n.l.h, n.r.h) }\n"))
R("C01,C02", db+"map_db.go", ("	if configLogMapDB {\n\t\tlog.Printf(\"mapBucket[%s].Delete(%x)\", t.id, k)\n\t}\n\tt.mutex.Lock()\n\tdefer t.mutex.Unlock()\n\tdelete(t.real, string(k))\n", "	if len(k) > 0 {\n\t\tt.mutex.Lock()\n\t\tdefer t.mutex.Unlock()\n\t\tdelete(t.real, string(k))\n\t}\n"))
M("C01", db+"map_db.go", ("	if configLogMapDB {\n\t\tlog.Printf(\"mapBucket[%s].Delete(%x)\", t.id, k)\n\t}\n\tt.mutex.Lock()\n\tdefer t.mutex.Unlock()\n\tdelete(t.real, string(k))\n", "	t.mutex.Lock()\n\tif len(k) > 0 {\n\t\tdefer t.mutex.Unlock()\n\t\tdelete(t.real, string(k))\n\t}\n"))
lk="common/link/link.go"
M("C10", lk, ("		l.rmi.size += mp.Len()\n\t\tif err := mp", "		if err := mp"))
M("C10", lk, ("				if err := mp.UpdateBMCLinkStatus(bls); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n", ""))
M("C10", lk, ("		if err := mp.UpdateBMCLinkStatus(bls); err != nil {\n\t\t\treturn err\n\t\t}\n	}\n	return nil", "		mp.UpdateBMCLinkStatus(bls)\n	}\n	return nil"))
M("C10", lk, ("			l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bu)\n", "			l.rmi.rmis[0] = append(l.rmi.rmis[0], bu)\n"))
M("C10", lk, ("			err := bu.UpdateBMCLinkStatus(bls)\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n", "			if bu.ProofHeight() != -1 {\n\t\t\t\tif err := bu.UpdateBMCLinkStatus(bls); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t}\n"), ("			if err = l.buildProof(bls, bu); err != nil {", "			if err := l.buildProof(bls, bu); err != nil {"), ("			if err = l.sendRelayMessage(bls); err != nil {", "			if err := l.sendRelayMessage(bls); err != nil {"))
M("C10", lk, ("l.limitSize-l.rmi.size)\n		if err != nil {\n			return nil, err", "l.limitSize)\n		if err != nil {\n			return nil, err"))
M("C10", lk, ("rm.bls.Verifier.Height <= bls.Verifier.Height && rm.bls.RxSeq <= bls.RxSeq", "rm.bls.Verifier.Height <= bls.Verifier.Height || rm.bls.RxSeq <= bls.RxSeq"))
M("C10", lk, ("rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq", "rs.Height() <= bls.Verifier.Height"))
M("C10", lk, ("rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq", "rs.Seq() <= bls.RxSeq"))
M("C10", lk, ("l.rss = l.rss[i+1:]", "l.rss = l.rss[i+2:]"))
M("C10", lk, ("l.rss = l.rss[i+1:]", "_ = i\n\t\t\tl.rss = l.rss[:0]"))
M("C10", lk, ("		l.rms = append(l.rms, rm)\n", ""))
M("C10", lk, ("		l.rms = append(l.rms, rm)\n		if _, err := l.s.Relay(rm); err != nil {\n			return err\n		}", "		if _, err := l.s.Relay(rm); err == nil {\n			l.rms = append(l.rms, rm)\n		}"))
M("C10", lk, ("			rmis:     rmi,", "			rmis:     l.rmi.rmis[0],"))
M("C10", lk, ("		if err != nil {\n			return nil, err\n		}\n\n		rm := &relayMessage{", "		if err != nil {\n			continue\n		}\n\n		rm := &relayMessage{"))
M("C10", lk, ("	rms := make([]*relayMessage, 0)\n	for _, rmi := range l.rmi.rmis {", "	rms := make([]*relayMessage, 0)\n	pend := l.rmi.rmis\n	l.rmi.rmis = make([][]RelayMessageItem, 0)\n	for _, rmi := range pend {"))
M("C10", lk, ("	l.rmi.rmis = l.rmi.rmis[:0]\n	l.createRelayMessageItem()", "	l.rmi.rmis = append(l.rmi.rmis[:0], make([]RelayMessageItem, 0))"))
M("C10", lk, ("				l.rss = append(l.rss, rs)\n				if err == nil {\n					err = l.BuildRelayMessage(bls)\n				}", "				if err == nil {\n					err = l.BuildRelayMessage(bls)\n				}\n				l.rss = append(l.rss, rs)"))
M("C10", lk, ("				l.rss = append(l.rss, rs)\n				if err == nil {\n					err = l.BuildRelayMessage(bls)\n				}", "				if rs.Seq() > bls.RxSeq {\n					l.rss = append(l.rss, rs)\n				}\n				if err == nil {\n					err = l.BuildRelayMessage(bls)\n				}"))
M("C10", lk, ("		return l.BuildRelayMessage(bls)\n	case BMVAlreadyVerified", "		_ = bls\n	case BMVAlreadyVerified"))
M("C10", lk, ("	case BMVAlreadyVerified:\n		l.removeRelayMessage(rr.Id)\n", "	case BMVAlreadyVerified:\n"))
M("C10", lk, ("	case BMVAlreadyVerified:\n		l.removeRelayMessage(rr.Id)\n	case BMVRevertInvalidBlockWitnessOld:\n		return l.updateBlockProof(rr.Id)", "	case BMVAlreadyVerified:\n		return l.updateBlockProof(rr.Id)\n	case BMVRevertInvalidBlockWitnessOld:\n		l.removeRelayMessage(rr.Id)"))
M("C10", lk, ("	default:\n		l.l.Panicf(\"fail to GetResult", "	default:\n		l.l.Errorf(\"fail to GetResult"))
M("C10", lk, ("l.limitSize = int64(sender.TxSizeLimit()) - sender.GetMarginForLimit()", "l.limitSize = int64(sender.TxSizeLimit()) + sender.GetMarginForLimit()"))
M("C10", lk, ("					l.clearReceiveStatus(t)\n", ""))
M("C10", lk, ("		l.createRelayMessageItem()\n		return true", "		l.rmi.size = 0\n		return true"))
M("C10", lk, ("		if rm.id == id {\n			index = i", "		if rm.id != id {\n			index = i"))
R("C10,C01,C02", lk, ("		l.rms = append(l.rms, rm)\n		if _, err := l.s.Relay(rm); err != nil {\n			return err\n		}", "		_, err := l.s.Relay(rm)\n		l.rms = append(l.rms, rm)\n		if err != nil {\n			return err\n		}"))
R("C10,C01,C02", lk, ("		l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)\n		l.rmi.size += mp.Len()\n		if err := mp.UpdateBMCLinkStatus(bls); err != nil {\n			return err\n		}\n	}\n	return nil\n}", "		return l.addItem(bls, mp)\n	}\n	return nil\n}\n\nfunc (l *Link) addItem(bls *types.BMCLinkStatus, it RelayMessageItem) error {\n	last := len(l.rmi.rmis) - 1\n	l.rmi.rmis[last] = append(l.rmi.rmis[last], it)\n	l.rmi.size += it.Len()\n	return it.UpdateBMCLinkStatus(bls)\n}"),
  ("		l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bf)\n		l.rmi.size += bf.Len()\n		if err := bf.UpdateBMCLinkStatus(bls); err != nil {\n			return err\n		}\n", "		if err := l.addItem(bls, bf); err != nil {\n			return err\n		}\n"),
  ("			l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bu)\n			l.rmi.size += bu.Len()\n			err := bu.UpdateBMCLinkStatus(bls)\n			if err != nil {\n				return err\n			}\n\n			if err = l", "			if err := l.addItem(bls, bu); err != nil {\n				return err\n			}\n\n			if err = l"))
R("C10,C01,C02", lk, ("	if mp != nil {\n		l.rmi.rmis[len", "	if mp == nil {\n		return nil\n	}\n	{\n		l.rmi.rmis[len"))
R("C10,C01,C02", lk, ("	for i, rm := range l.rms {\n		if rm.bls.Verifier.Height <= bls.Verifier.Height && rm.bls.RxSeq <= bls.RxSeq {\n			l.rms = l.rms[i+1:]\n			break\n		}\n	}", "	for i := 0; i < len(l.rms); i++ {\n		rm := l.rms[i]\n		if rm.bls.Verifier.Height > bls.Verifier.Height || rm.bls.RxSeq > bls.RxSeq {\n			continue\n		}\n		l.rms = l.rms[i+1:]\n		return\n	}"))
R("C10,C01,C02", lk, ("	for _, rm := range rms {\n		l.rms = append(l.rms, rm)\n		if _, err := l.s.Relay(rm); err != nil {\n			return err\n		}\n	}", "	for i := 0; i < len(rms); i++ {\n		l.rms = append(l.rms, rms[i])\n		if _, err := l.s.Relay(rms[i]); err != nil {\n			return err\n		}\n	}"))
R("C10,C01,C02", lk, ("	if len(bus) != 0 {\n		for _, bu := range bus {", "	{\n		for i := range bus {\n			bu := bus[i]"))
R("C10,C01,C02", lk, ("	switch rr.Err {\n	case BMVUnknown:\n		l.l.Panicf(\"BMVUnknown Revert : ErrorCoder:%+v\", rr.Err)\n	case BMVNotVerifiable:\n		bls, err := l.s.GetStatus()\n		if err != nil {\n			return err\n		}\n		return l.BuildRelayMessage(bls)\n	case BMVAlreadyVerified:\n		l.removeRelayMessage(rr.Id)\n	case BMVRevertInvalidBlockWitnessOld:\n		return l.updateBlockProof(rr.Id)\n	default:\n", "	if rr.Err == BMVAlreadyVerified {\n		l.removeRelayMessage(rr.Id)\n	} else if rr.Err == BMVNotVerifiable {\n		return l.resync()\n	} else if rr.Err == BMVRevertInvalidBlockWitnessOld {\n		return l.updateBlockProof(rr.Id)\n	} else {\n"), ("func (l *Link) isOverLimit", "func (l *Link) resync() error {\n	bls, err := l.s.GetStatus()\n	if err != nil {\n		return err\n	}\n	return l.BuildRelayMessage(bls)\n}\n\nfunc (l *Link) isOverLimit"))
R("C10,C01,C02", lk, ("	l.rmi.rmis = l.rmi.rmis[:0]\n	l.createRelayMessageItem()", "	l.rmi.rmis = make([][]RelayMessageItem, 0, 1)\n	l.createRelayMessageItem()"))
R("C10,C01,C02", lk, ("	rms, err := l.appendRelayMessage(bls)\n	if err != nil {\n		return err\n	}\n\n	for _, rm := range rms {", "	rms, err := l.appendRelayMessage(bls)\n	if err != nil {\n		return err\n	}\n	if len(rms) == 0 {\n		return nil\n	}\n	for _, rm := range rms {"))
si="chain/icon/sender.go"; se="chain/ethbr/sender.go"
M("C11", si, ("	go s.result(rm.Id(), thp)\n", "	_ = thp\n"))
M("C11", si, ("				Id:  id,\n				Err: ec.ErrorCode(),", "				Id:  id,\n				Err: ec.ErrorCode() + 1,"))
M("C11", si, ("	go s.result(rm.Id(), thp)\n	return rm.Id(), nil", "	go s.result(rm.Id()+1, thp)\n	return rm.Id(), nil"))
M("C11", si, ("	} else {\n		s.l.Debugf(\"result success rm id : %d \", id)\n	}\n	s.SendStatus()", "	} else {\n		s.l.Debugf(\"result success rm id : %d \", id)\n		s.SendStatus()\n	}"))
M("C11", si, ("case client.JsonrpcErrorCodePending, client.JsonrpcErrorCodeExecuting:", "case client.JsonrpcErrorCodePending:"))
M("C11", si, ("fc < client.ResultStatusFailureCodeRevert || fc > client.ResultStatusFailureCodeEnd", "fc <= client.ResultStatusFailureCodeRevert || fc > client.ResultStatusFailureCodeEnd"))
M("C11", si, ("int(fc - client.ResultStatusFailureCodeRevert)", "int(fc)"))
M("C11", si, ("txr.Status != client.ResultStatusSuccess {", "txr.Status == \"0x0\" && txr.Failure != nil {"))
M("C11", si, ("txr.Status != client.ResultStatusSuccess {", "txr.Failure != nil {"))
M("C11", si, ("	if ls.RxSeq, err = bs.RxSeq.Value()", "	if ls.RxSeq, err = bs.TxSeq.Value()"))
M("C11", si, ("	if ls.Verifier.Height, err = bs.Verifier.Height.Value(); err != nil {\n		return nil, err\n	}", "	ls.Verifier.Height, _ = bs.Verifier.Height.Value()"))
M("C11", si, ("	if ls.Verifier.Extra, err = bs.Verifier.Extra.Value(); err != nil {\n		return nil, err\n	}\n", ""))
M("C11", si, ("				Target: s.src.String(),", "				Target: s.dst.String(),"))
M("C11", si, ("		ToAddress:   client.Address(s.dst.Account()),\n		DataType:    \"call\",\n		Data: client.CallData{", "		ToAddress:   client.Address(s.src.Account()),\n		DataType:    \"call\",\n		Data: client.CallData{"))
M("C11", si, ("	bs, err := s.GetStatus()\n	if err != nil {\n		s.l.Errorf(\"fail to GetStatus err:%+v\", err)\n		return\n	}\n	s.sc <- bs", "	bs, err := s.GetStatus()\n	if err != nil {\n		s.l.Errorf(\"fail to GetStatus err:%+v\", err)\n	}\n	s.sc <- bs"))
M("C11", si, ("								thp.Hash = p.TxHash\n", ""))
M("C11", si, ("							case client.DuplicateTransactionError:", "							case client.DuplicateTransactionError, client.FutureTransactionError:"))
M("C11", si, ("				return nil, client.MapError(err)\n			}\n			return thp, nil", "				s.l.Errorf(\"%v\", client.MapError(err))\n				return thp, nil\n			}\n			return thp, nil"))
M("C11", si, ("	thp, err := s._relay(rm)\n	if err != nil {\n		return 0, err\n	}", "	thp, err := s._relay(rm)\n	if err != nil && thp == nil {\n		return 0, err\n	}"))
M("C11", se, ("		if pending {\n			<-time.After(DefaultGetRelayResultInterval)\n			continue\n		}\n", "		_ = pending\n"))
M("C11", se, ("		if tx.Status == 0 {", "		if tx.Status == 2 {"))
M("C11", se, ("strings.TrimLeft(msgs[1], \" \")", "strings.TrimLeft(msgs[0], \" \")"))
M("C11", se, ("				return nil, client.NewRevertError(25)", "				return tx, nil"))
M("C11", se, ("	ls.RxSeq = status.RxSeq.Int64()", "	ls.RxSeq = status.TxSeq.Int64()"))
M("C11", se, ("	ls.Verifier.Height = status.Verifier.Height.Int64()\n", ""))
M("C11", se, ("		if ec, ok := errors.CoderOf(err); ok {", "		if ec, ok := errors.CoderOf(err); ok && ec.ErrorCode() < 30 {"))
M("C11", "chain/icon/client/error.go", ("	if c >= CodeBTP {\n		var msg", "	if c > CodeBTP {\n		var msg"))
M("C11", "chain/icon/client/error.go", ("errors.NewBase(c, msg)", "errors.NewBase(c-CodeBTP+CodeBMC, msg)"))
R("C11", si, ("	go s.result(rm.Id(), thp)\n	return rm.Id(), nil", "	id := rm.Id()\n	go func() {\n		s.result(id, thp)\n	}()\n	return id, nil"))
R("C11", si, ("	_, err := s.GetResult(txh)\n	if err != nil {\n		s.l.Debugf(\"result fail rm id : %d \", id)\n", "	_, err := s.GetResult(txh)\n	if err == nil {\n		s.l.Debugf(\"result success rm id : %d \", id)\n		s.SendStatus()\n		return\n	}\n	{\n"), ("	} else {\n		s.l.Debugf(\"result success rm id : %d \", id)\n	}\n	s.SendStatus()", "	}\n	s.SendStatus()"))
R("C11", si, ("	ls := &types.BMCLinkStatus{}\n	if ls.TxSeq, err = bs.TxSeq.Value(); err != nil {\n		return nil, err\n	}\n	if ls.RxSeq, err = bs.RxSeq.Value(); err != nil {\n		return nil, err\n	}\n	if ls.Verifier.Height, err = bs.Verifier.Height.Value(); err != nil {\n		return nil, err\n	}\n	if ls.Verifier.Extra, err = bs.Verifier.Extra.Value(); err != nil {\n		return nil, err\n	}\n	return ls, nil\n}\n", "	return linkStatusOf(bs)\n}\n\nfunc linkStatusOf(bs *client.BMCStatus) (*types.BMCLinkStatus, error) {\n	tx, err := bs.TxSeq.Value()\n	if err != nil {\n		return nil, err\n	}\n	rx, err := bs.RxSeq.Value()\n	if err != nil {\n		return nil, err\n	}\n	h, err := bs.Verifier.Height.Value()\n	if err != nil {\n		return nil, err\n	}\n	ls := &types.BMCLinkStatus{TxSeq: tx, RxSeq: rx}\n	ls.Verifier.Height = h\n	if ls.Verifier.Extra, err = bs.Verifier.Extra.Value(); err != nil {\n		return nil, err\n	}\n	return ls, nil\n}\n"))
R("C11", si, ("			if je, ok := err.(*jsonrpc.Error); ok {\n				switch je.Code {\n				case client.JsonrpcErrorCodePending, client.JsonrpcErrorCodeExecuting:\n					<-time.After(DefaultGetRelayResultInterval)\n					continue\n				}\n			}", "			if je, ok := err.(*jsonrpc.Error); ok && (je.Code == client.JsonrpcErrorCodePending || je.Code == client.JsonrpcErrorCodeExecuting) {\n				time.Sleep(DefaultGetRelayResultInterval)\n				continue\n			}"))
R("C11", si, ("		if fc < client.ResultStatusFailureCodeRevert || fc > client.ResultStatusFailureCodeEnd {\n			err = fmt.Errorf(\"failure with code:%s, message:%s\",\n				txr.Failure.CodeValue, txr.Failure.MessageValue)\n		} else {\n			err = client.NewRevertError(int(fc - client.ResultStatusFailureCodeRevert))\n		}", "		if fc >= client.ResultStatusFailureCodeRevert && fc <= client.ResultStatusFailureCodeEnd {\n			return client.NewRevertError(int(fc) - client.ResultStatusFailureCodeRevert)\n		}\n		return fmt.Errorf(\"failure with code:%s, message:%s\",\n				txr.Failure.CodeValue, txr.Failure.MessageValue)"))
R("C11", si, ("	err = client.MapError(err)\n	if err == nil && txr != nil && txr.Status != client.ResultStatusSuccess {\n", "	if err != nil {\n		return client.MapError(err)\n	}\n	if txr == nil || txr.Status == client.ResultStatusSuccess {\n		return nil\n	}\n	{\n"))
R("C11", se, ("			if len(msgs) > 2 {\n				code, err := strconv.Atoi(strings.TrimLeft(msgs[1], \" \"))\n				if err != nil {\n					return nil, err\n				}\n				return tx, client.NewRevertError(code)\n			} else {\n				return nil, client.NewRevertError(25)\n			}", "			if len(msgs) <= 2 {\n				return nil, client.NewRevertError(25)\n			}\n			code, err := strconv.Atoi(strings.TrimSpace(msgs[1]))\n			if err != nil {\n				return nil, err\n			}\n			return tx, client.NewRevertError(code)"))
R("C11", se, ("	txh := tx.Hash()\n	return &client.TransactionHashParam{txh}, nil", "	thp := &client.TransactionHashParam{}\n	thp.Hash = tx.Hash()\n	return thp, nil"))
M("C13", si, ("idx := len(msg) / txSizeLimit\n	if idx == 0 {", "idx := len(msg) / txSizeLimit\n	if idx <= 1 {\n		if idx == 1 {\n			msg = msg[:txSizeLimit]\n		}"))
M("C13", si, ("s.sendFragment(msg[:txSizeLimit], idx*-1)", "s.sendFragment(msg[:txSizeLimit], idx*-1-1)"))
M("C13", si, ("s.sendFragment(msg[:txSizeLimit], idx*-1)", "s.sendFragment(msg[:txSizeLimit], idx)"))
M("C13", si, ("		for idx--; idx > 0; idx-- {", "		for idx--; idx > 1; idx-- {"))
M("C13", si, ("		for idx--; idx > 0; idx-- {", "		for ; idx > 0; idx-- {"))
M("C13", si, ("				return thp, err\n			}\n			msg = msg[txSizeLimit:]\n		}", "				return thp, err\n			}\n		}"))
M("C13", si, ("			if thp, err = s.sendFragment(msg[:txSizeLimit], idx); err != nil {\n				return thp, err\n			}\n", "			thp, _ = s.sendFragment(msg[:txSizeLimit], idx)\n"))
M("C13", si, ("		if thp, err = s.sendFragment(msg[:], idx); err != nil {", "		if len(msg) == 0 {\n			return thp, nil\n		}\n		if thp, err = s.sendFragment(msg[:], idx); err != nil {"))
M("C13", si, ("		if thp, err = s.sendFragment(msg[:], idx); err != nil {", "		if thp, err = s.sendFragment(msg[1:], idx); err != nil {"))
M("C13", si, ("			Messages: base64.URLEncoding.EncodeToString(msg),\n		}\n		return s.send", "			Messages: base64.StdEncoding.EncodeToString(msg),\n		}\n		return s.send"))
M("C13", si, ("		Messages: base64.URLEncoding.EncodeToString(msg),\n		Index", "		Messages: base64.RawURLEncoding.EncodeToString(msg),\n		Index"))
M("C13", si, ("		Prev:     s.src.String(),\n		Messages: base64.URLEncoding.EncodeToString(msg),\n		Index", "		Prev:     s.dst.String(),\n		Messages: base64.URLEncoding.EncodeToString(msg),\n		Index"))
M("C13", si, ("		ToAddress:   client.Address(s.dst.Account()),\n		NetworkID", "		ToAddress:   client.Address(s.src.Account()),\n		NetworkID"))
M("C13", si, ("client.HexInt(s.dst.NetworkID())", "client.HexInt(s.src.NetworkID())"))
M("C13", si, ("s.newTransactionParam(client.BMCFragmentMethod, fmp)", "s.newTransactionParam(client.BMCRelayMethod, fmp)"))
M("C13", si, ("		if err := s.c.SignTransaction(s.w, p); err != nil {\n			return nil, err\n		}", "		s.c.SignTransaction(s.w, p)"))
M("C13", si, ("			txh, err := s.c.SendTransaction(p)", "			p.StepLimit = client.NewHexInt(s.opt.StepLimit)\n			txh, err := s.c.SendTransaction(p)"))
M("C13", "chain/icon/client/type.go", ("	Index    HexInt `json:\"_idx\"`", "	Index    HexInt `json:\"_index\"`"))
M("C13", se, ("rm.Bytes()[:])", "rm.Bytes()[:txSizeLimit])"))
M("C13", se, ("s.bmc.HandleRelayMessage(t, s.src.String()", "s.bmc.HandleRelayMessage(t, s.dst.String()"))
R("C13,C11", si, ("		for idx--; idx > 0; idx-- {\n			if thp", "		idx--\n		for idx >= 1 {\n			if thp"), ("			msg = msg[txSizeLimit:]\n		}\n", "			msg = msg[txSizeLimit:]\n			idx--\n		}\n"))
R("C13,C11", si, ("		thp, err := s.sendFragment(msg[:txSizeLimit], idx*-1)\n		if err != nil {\n			return nil, err\n		}\n		msg = msg[txSizeLimit:]\n		for idx--; idx > 0; idx-- {\n			if thp, err = s.sendFragment(msg[:txSizeLimit], idx); err != nil {\n				return thp, err\n			}\n			msg = msg[txSizeLimit:]\n		}\n		if thp, err = s.sendFragment(msg[:], idx); err != nil {\n			return nil, err\n		}\n		return thp, err\n",
 "		n := idx\n		thp, err := s.sendFragment(msg[:txSizeLimit], -n)\n		if err != nil {\n			return nil, err\n		}\n		for i := 1; i < n; i++ {\n			if thp, err = s.sendFragment(msg[i*txSizeLimit:(i+1)*txSizeLimit], n-i); err != nil {\n				return thp, err\n			}\n		}\n		return s.sendFragment(msg[n*txSizeLimit:], 0)\n"))
R("C13,C11", si, ("		thp, err := s.sendFragment(msg[:txSizeLimit], idx*-1)\n		if err != nil {\n			return nil, err\n		}\n		msg = msg[txSizeLimit:]\n		for idx--; idx > 0; idx-- {\n			if thp, err = s.sendFragment(msg[:txSizeLimit], idx); err != nil {\n				return thp, err\n			}\n			msg = msg[txSizeLimit:]\n		}\n",
 "		off := 0\n		thp, err := s.sendFragment(msg[:txSizeLimit], -idx)\n		if err != nil {\n			return nil, err\n		}\n		off += txSizeLimit\n		for idx--; idx > 0; idx-- {\n			if thp, err = s.sendFragment(msg[off:off+txSizeLimit], idx); err != nil {\n				return thp, err\n			}\n			off += txSizeLimit\n		}\n		msg = msg[off:]\n"))
R("C13,C11", si, ("	idx := len(msg) / txSizeLimit\n	if idx == 0 {\n		rmp :=", "	idx := len(msg) / txSizeLimit\n	if len(msg) < txSizeLimit {\n		rmp :="))
R("C13,C11", si, ("	if idx == 0 {\n		rmp := &client.BMCRelayMethodParams{\n			Prev:     s.src.String(),\n			Messages: base64.URLEncoding.EncodeToString(msg),\n		}\n		return s.sendTransaction(s.newTransactionParam(client.BMCRelayMethod, rmp))\n	} else {", "	if idx == 0 {\n		return s.sendWhole(msg)\n	} else {"), ("func (s *sender) result(", "func (s *sender) sendWhole(msg []byte) (*client.TransactionHashParam, error) {\n	rmp := &client.BMCRelayMethodParams{\n		Prev:     s.src.String(),\n		Messages: base64.URLEncoding.EncodeToString(msg),\n	}\n	p := s.newTransactionParam(client.BMCRelayMethod, rmp)\n	return s.sendTransaction(p)\n}\n\nfunc (s *sender) result("))
R("C13,C11", se, ("	var tx *types.Transaction\n\n	tx, err = s.bmc.HandleRelayMessage(t, s.src.String(), rm.Bytes()[:])", "	b := rm.Bytes()\n	src := s.src.String()\n	tx, err := s.bmc.HandleRelayMessage(t, src, b)"))
sz="chain/icon/client/serialize.go"; cl="chain/icon/client/client.go"
M("C06", sz, ("		case '.':\n", "		case ',':\n"))
M("C06", sz, ("		case '\\\\':\n			fallthrough\n		case '{'", "		case '{'"))
M("C06", sz, ("		case ']':\n			fallthrough\n", "		case ']', ',':\n			fallthrough\n"))
M("C06", sz, ("			buf.WriteByte('\\\\')\n			buf.WriteByte(b)\n", "			buf.WriteByte('\\\\')\n			buf.WriteByte(b)\n			buf.WriteByte(b)\n"))
M("C06", sz, ("return []byte(\"\\\\0\"), nil", "return []byte(\"\"), nil"))
M("C06", sz, ("	sort.Strings(keys)\n", "	sort.Sort(sort.Reverse(sort.StringSlice(keys)))\n"))
M("C06", sz, ("		if (in != nil && !in[k]) || (ex != nil && ex[k]) {", "		if (in != nil && !in[k]) || (ex != nil && ex[k]) || d[k] == nil {"))
M("C06", sz, ("		if (in != nil && !in[k]) || (ex != nil && ex[k]) {", "		if in != nil && !in[k] {"))
M("C06", sz, ("		buf.Write(serializeString(k))\n", "		buf.WriteString(k)\n"))
M("C06", sz, ("		buf.Write(serializeString(k))\n		buf.WriteByte('.')\n", "		buf.Write(serializeString(k))\n"))
M("C06", sz, ("		if err != nil {\n			return nil, &SerializeError{\".\" + k + err.position, err.msg}\n		}\n", "		if err != nil {\n			continue\n		}\n"))
M("C06", sz, ("		frag, err := serializeDict(v_dict, nil, nil)", "		frag, err := serializeDict(v_dict, nil, map[string]bool{\"signature\": true})"))
M("C06", sz, ("		buf.WriteByte('[')\n		buf.Write(frag)", "		buf.WriteByte('{')\n		buf.Write(frag)"))
M("C06", sz, ("		return serializeString(v_str), nil", "		return []byte(v_str), nil"))
M("C06", sz, ("	for idx, v := range v_list {", "	for idx, v := range v_list[1:] {"))
M("C06", sz, ("	data, err := serializeDict(params, in, exclude)", "	data, err := serializeDict(params, exclude, in)"))
M("C06", sz, ("		if buf.Len() > 0 {\n			buf.WriteByte('.')\n		}\n		buf.Write(serializeString", "		if buf.Len() > 1 {\n			buf.WriteByte('.')\n		}\n		buf.Write(serializeString"))
M("C06", cl, ("map[string]bool{\"signature\": true}", "map[string]bool{\"signature\": true, \"nid\": true}"))
M("C06", cl, ("[]byte(\"icx_sendTransaction.\")", "[]byte(\"icx_sendTransaction\")"))
M("C06", cl, ("	p.TxHash = NewHexBytes(txHash)\n", ""))
M("C06", cl, ("	p.Signature = base64.StdEncoding", "	p.Nonce = NewHexInt(1)\n	p.Signature = base64.StdEncoding"))
M("C06", cl, ("crypto.SHA3Sum256(bs)", "crypto.SHASum256(bs)"))
M("C06", cl, ("sig, err := w.Sign(txHash)", "sig, err := w.Sign(bs)"))
M("C06", cl, ("	p.Timestamp = NewHexInt(time.Now().UnixNano() / int64(time.Microsecond))\n	js, err := json.Marshal(p)\n	if err != nil {\n		return err\n	}\n", "	js, err := json.Marshal(p)\n	if err != nil {\n		return err\n	}\n	p.Timestamp = NewHexInt(time.Now().UnixNano() / int64(time.Microsecond))\n"))
R("C06", sz, ("		switch b {\n		case '\\\\':\n			fallthrough\n		case '{':\n			fallthrough\n		case '}':\n			fallthrough\n		case '[':\n			fallthrough\n		case ']':\n			fallthrough\n		case '.':\n			buf.WriteByte('\\\\')\n			buf.WriteByte(b)\n		default:\n			buf.WriteByte(b)\n		}", "		switch b {\n		case '\\\\', '{', '}', '[', ']', '.':\n			buf.WriteByte('\\\\')\n		}\n		buf.WriteByte(b)"))
R("C06", sz, ("	ret := []byte(s)\n	buf := new(bytes.Buffer)\n	for _, b := range ret {", "	buf := new(bytes.Buffer)\n	for i := 0; i < len(s); i++ {\n		b := s[i]"))
R("C06", sz, ("		switch b {\n		case '\\\\':\n			fallthrough\n		case '{':\n			fallthrough\n		case '}':\n			fallthrough\n		case '[':\n			fallthrough\n		case ']':\n			fallthrough\n		case '.':\n			buf.WriteByte('\\\\')\n			buf.WriteByte(b)\n		default:\n			buf.WriteByte(b)\n		}", "		if needsEscape(b) {\n			buf.WriteByte('\\\\')\n		}\n		buf.WriteByte(b)"), ("func serializeList(", "func needsEscape(b byte) bool {\n	switch b {\n	case '\\\\', '{', '}', '[', ']', '.':\n		return true\n	}\n	return false\n}\n\nfunc serializeList("))
R("C06", sz, ("	buf := new(bytes.Buffer)\n	keys := make([]string, 0, len(d))\n	for k := range d {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n", "	buf := new(bytes.Buffer)\n	keys := sortedKeysOf(d)\n"), ("func SerializeMap(", "func sortedKeysOf(d map[string]interface{}) []string {\n	keys := make([]string, 0, len(d))\n	for k := range d {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n	return keys\n}\n\nfunc SerializeMap("))
R("C06", sz, ("		if (in != nil && !in[k]) || (ex != nil && ex[k]) {\n			continue\n		}\n", "		if in != nil && !in[k] {\n			continue\n		}\n		if ex[k] {\n			continue\n		}\n"))
R("C06", sz, ("	if v == nil {\n		return []byte(\"\\\\0\"), nil\n	}\n	v_dict, ok := v.(map[string]interface{})\n	if ok {\n", "	switch x := v.(type) {\n	case nil:\n		return []byte(\"\\\\0\"), nil\n	case string:\n		return serializeString(x), nil\n	}\n	v_dict, ok := v.(map[string]interface{})\n	if ok {\n"), ("	v_str, ok := v.(string)\n	if ok {\n		return serializeString(v_str), nil\n	}\n", ""))
R("C06", sz, ("		buf := new(bytes.Buffer)\n		buf.WriteByte('{')\n		buf.Write(frag)\n		buf.WriteByte('}')\n		return buf.Bytes(), nil", "		out := make([]byte, 0, len(frag)+2)\n		out = append(out, '{')\n		out = append(out, frag...)\n		return append(out, '}'), nil"))
R("C06,C13", cl, ("	bs = append([]byte(\"icx_sendTransaction.\"), bs...)\n	txHash := crypto.SHA3Sum256(bs)", "	var buf []byte\n	buf = append(buf, \"icx_sendTransaction.\"...)\n	buf = append(buf, bs...)\n	txHash := crypto.SHA3Sum256(buf)"))
R("C06,C13", cl, ("	js, err := json.Marshal(p)\n	if err != nil {\n		return err\n	}\n\n	bs, err := SerializeJSON(js, nil, txSerializeExcludes)\n	if err != nil {\n		return err\n	}\n	bs = append([]byte(\"icx_sendTransaction.\"), bs...)\n	txHash := crypto.SHA3Sum256(bs)\n", "	txHash, err := hashOf(p)\n	if err != nil {\n		return err\n	}\n"), ("func (c *Client) SignTransaction(", "func hashOf(p *TransactionParam) ([]byte, error) {\n	js, err := json.Marshal(p)\n	if err != nil {\n		return nil, err\n	}\n	bs, err := SerializeJSON(js, nil, txSerializeExcludes)\n	if err != nil {\n		return nil, err\n	}\n	return crypto.SHA3Sum256(append([]byte(\"icx_sendTransaction.\"), bs...)), nil\n}\n\nfunc (c *Client) SignTransaction("))

# ---- C09 wiring
lf = "cmd/relay/linkfatory.go"
mn = "cmd/relay/main.go"
M("C09", lf, ("newLink(cfg.Src.Address.BlockChain(), cfg.Config, srcLog, dstWallet, linkErrCh)", "newLink(cfg.Src.Address.BlockChain(), cfg.Config, srcLog, srcWallet, linkErrCh)"))
M("C09", lf, ("		dstCfg := chain.Config{\n			Src: cfg.Dst,\n			Dst: cfg.Src,\n		}\n\n		dstLog := setLogger(cfg, dstWallet, modLevels)\n		dstLog.Debugln(cfg.FilePath, cfg.BaseDir)\n		if cfg.BaseDir == \"\" {\n			cfg.BaseDir = path.Join(\".\", \".btp2\", cfg.Dst.Address.NetworkAddress())\n		}\n		if _, err = newLink(dstCfg.Src", "		dstCfg := chain.Config{\n			Src: cfg.Src,\n			Dst: cfg.Src,\n		}\n\n		dstLog := setLogger(cfg, dstWallet, modLevels)\n		dstLog.Debugln(cfg.FilePath, cfg.BaseDir)\n		if cfg.BaseDir == \"\" {\n			cfg.BaseDir = path.Join(\".\", \".btp2\", cfg.Dst.Address.NetworkAddress())\n		}\n		if _, err = newLink(dstCfg.Src"))
M("C09", lf, ("w, dstCfg.Endpoint, srcCfg.Options, l)", "w, srcCfg.Endpoint, srcCfg.Options, l)"))
M("C09", lf, ("ethbr.NewSender(srcCfg.Address, dstCfg.Address,", "ethbr.NewSender(dstCfg.Address, srcCfg.Address,"))
M("C09", lf, ("newSender(cfg.Dst.Address.BlockChain(), cfg.Src", "newSender(cfg.Src.Address.BlockChain(), cfg.Src"))
M("C09", lf, ("		if cfg.Src.BridgeMode {", "		if cfg.Dst.BridgeMode {"))
M("C09", lf, ("		if cfg.Src.BridgeMode {", "		if !cfg.Src.BridgeMode {"))
M("C09", lf, ("btp2.NewBTP2(cfg.Src.Address, cfg.Dst.Address, cfg.Src.Endpoint, l)", "btp2.NewBTP2(cfg.Src.Address, cfg.Dst.Address, cfg.Dst.Endpoint, l)"))
M("C09", lf, ("	default:\n		return fmt.Errorf(\"Not supported direction", "	case \"\":\n	default:\n		return fmt.Errorf(\"Not supported direction"))
M("C09", lf, ("			if err != nil {\n				return err\n			}\n		}\n	}\n	return nil", "			if err != nil {\n				log.Println(err)\n			}\n		}\n	}\n	return nil"))
M("C09", lf, ("		linkErrCh <- lk.Start(", "		_ = lk.Start("))
M("C09", lf, ("newLink(cfg.Dst.Address.BlockChain(), dstCfg,", "newLink(cfg.Src.Address.BlockChain(), dstCfg,"))
M("C09", mn, ("cfg.Wallet(cfg.Dst.KeyStorePass, cfg.Dst.KeySecret, cfg.Dst.KeyStoreData)", "cfg.Wallet(cfg.Src.KeyStorePass, cfg.Dst.KeySecret, cfg.Dst.KeyStoreData)"))
M("C09", mn, ("cfg.Wallet(cfg.Dst.KeyStorePass, cfg.Dst.KeySecret, cfg.Dst.KeyStoreData)", "cfg.Wallet(cfg.Dst.KeyStorePass, cfg.Dst.KeySecret, cfg.Src.KeyStoreData)"))
M("C09", mn, ("NewLink(cfg, srcWallet, dstWallet, modLevels)", "NewLink(cfg, dstWallet, srcWallet, modLevels)"))
M("C09", mn, ("	if keySecret != \"\" {\n", "	if keySecret != \"\" && keyStorePass == \"\" {\n"))
M("C09", mn, ("	if err != nil {\n		return err\n	}\n	dstPw, err", "	dstPw, err"))
M("C09", mn, ("EncryptKeyAsKeyStore(dst_prikey, dstPw)", "EncryptKeyAsKeyStore(dst_prikey, srcPw)"))
M("C09", mn, ("	pw, err := c.resolvePassword(secret, passwd)\n	if err != nil {\n		return nil, err\n	}\n", "	pw, _ := c.resolvePassword(secret, passwd)\n"))
M("C09", "chain/icon/bridge/bridge.go", ("		src: src,\n		dst: dst,", "		src: dst,\n		dst: src,"))
M("C09", "chain/ethbr/sender.go", ("s.dst.ContractAddress()), s.c.", "s.src.ContractAddress()), s.c."))
M("C09", "common/link/link.go", ("		src: cfg.Src.Address,\n		dst: cfg.Dst.Address,", "		src: cfg.Dst.Address,\n		dst: cfg.Src.Address,"))
R("C09", lf, ("	default:\n		return fmt.Errorf(\"Not supported direction:%s\", cfg.Direction)\n	}\n", "	default:\n		err = fmt.Errorf(\"Not supported direction:%s\", cfg.Direction)\n		return err\n	}\n"), ("	for {\n		select {\n		case err := <-linkErrCh:\n			if err != nil {\n				return err\n			}\n		}\n	}\n	return nil", "	for {\n		if err = <-linkErrCh; err != nil {\n			break\n		}\n	}\n	return err"))
R("C09", lf, ("		dstCfg := chain.Config{\n			Src: cfg.Dst,\n			Dst: cfg.Src,\n		}\n", "		dstCfg := reversed(cfg)\n"), ("func newLink(", "func reversed(c *Config) (r chain.Config) {\n	r.Src, r.Dst = c.Dst, c.Src\n	return\n}\n\nfunc newLink("))
R("C09", lf, ("	switch s {\n	case ICON:\n		sender = icon.NewSender(srcCfg.Address, dstCfg.Address, w, dstCfg.Endpoint, srcCfg.Options, l)\n	case ETH:\n		fallthrough\n	case HARDHAT:\n		sender = ethbr.NewSender(srcCfg.Address, dstCfg.Address, w, dstCfg.Endpoint, nil, l)\n	default:\n		l.Fatalf(\"Not supported for chain:%s\", s)\n		return nil\n	}\n\n	return sender", "	if s == ICON {\n		return icon.NewSender(srcCfg.Address, dstCfg.Address, w, dstCfg.Endpoint, srcCfg.Options, l)\n	}\n	if s == ETH || s == HARDHAT {\n		sender = ethbr.NewSender(srcCfg.Address, dstCfg.Address, w, dstCfg.Endpoint, nil, l)\n		return sender\n	}\n	l.Fatalf(\"Not supported for chain:%s\", s)\n	return nil"))
R("C09", lf, ("	go func() {\n		linkErrCh <- lk.Start(newSender(cfg.Dst.Address.BlockChain(), cfg.Src, cfg.Dst, w, l))\n	}()", "	go runLink(lk, cfg, l, w, linkErrCh)"), ("func newReceiver(", "func runLink(lk types.Link, cfg chain.Config, l log.Logger, w wallet.Wallet, ch chan error) {\n	s := newSender(cfg.Dst.Address.BlockChain(), cfg.Src, cfg.Dst, w, l)\n	err := lk.Start(s)\n	ch <- err\n}\n\nfunc newReceiver("))
R("C09", mn, ("	if keySecret != \"\" {\n		return ioutil.ReadFile(keySecret)\n	} else {\n		if keyStorePass == \"\" {\n			return []byte(DefaultKeyStorePass), nil\n		} else {\n			return []byte(keyStorePass), nil\n		}\n	}", "	if keySecret == \"\" {\n		pw := keyStorePass\n		if len(pw) == 0 {\n			pw = DefaultKeyStorePass\n		}\n		return []byte(pw), nil\n	}\n	b, err := ioutil.ReadFile(keySecret)\n	if err != nil {\n		return nil, err\n	}\n	return b, nil"))
M("C09", lf, ("	switch cfg.Direction {\n	case FrontDirection:", "	front := func() error {\n		srcLog := setLogger(cfg, srcWallet, modLevels)\n		_, err := newLink(cfg.Src.Address.BlockChain(), cfg.Config, srcLog, dstWallet, linkErrCh)\n		return err\n	}\n	switch cfg.Direction {\n	case FrontDirection:\n		if err = front(); err != nil {\n			return err\n		}\n	case \"front2\":"),)

# ---- C07 key store
kf = "common/wallet/keystore.go"
M("C07", kf, ("	s.Write(key[16:32])\n	s.Write(cipheredBytes)", "	s.Write(key[0:16])\n	s.Write(cipheredBytes)"))
M("C07", kf, ("	s.Write(key[16:32])\n	s.Write(cipheredBytes)", "	s.Write(cipheredBytes)\n	s.Write(key[16:32])"))
M("C07", kf, ("	s.Write(key[16:32])\n	s.Write(cipheredBytes)", "	s.Write(key[16:32])"))
M("C07", kf, ("	mac := s.Sum([]byte{})\n	if !bytes.Equal(mac, ksData.Crypto.MAC.Bytes()) {", "	mac := s.Sum([]byte{})\n	if m := ksData.Crypto.MAC.Bytes(); len(m) > 0 && !bytes.Equal(mac, m) {"))
M("C07", kf, ("	mac := s.Sum([]byte{})\n	if !bytes.Equal(mac, ksData.Crypto.MAC.Bytes()) {", "	mac := s.Sum([]byte{})\n	if !bytes.HasPrefix(mac, ksData.Crypto.MAC.Bytes()) {"))
M("C07", kf, ("	if ksData.Crypto.KDF != kdfScrypt {\n		return nil, errors.Errorf(\"UnsupportedKDF(kdf=%s)\", ksData.Crypto.KDF)\n	}\n", ""))
M("C07", kf, ("	if !address.Equal(&ksData.Address) {\n", "	if address == nil {\n"))
M("C07", kf, ("	stream := cipher.NewCTR(block, cipherParams.IV.Bytes())", "	stream := cipher.NewCTR(block, key[16:32])"))
M("C07", kf, ("scrypt.Key(pw, p.Salt.Bytes(), p.N, p.R, p.P, p.DKLen)", "scrypt.Key(pw, p.Salt.Bytes(), p.N, p.P, p.R, p.DKLen)"))
M("C07", kf, ("	p.DKLen = 32\n", "	p.DKLen = 16\n"))
M("C07", kf, ("	if err := k.Init(); err != nil {\n		return nil, err\n	}\n	key, err := k.Key(pw)\n	if err != nil {\n		return nil, err\n	}\n", "	k.DKLen, k.N, k.R, k.P = 32, 1<<16, 8, 1\n	key, err := k.Key(pw)\n	if err != nil {\n		return nil, err\n	}\n	if err := k.Init(); err != nil {\n		return nil, err\n	}\n"))
M("C07", kf, ("	_, err = io.ReadFull(rand.Reader, c.IV)\n", "	_, err = io.ReadFull(rand.Reader, c.IV[:8])\n"))
M("C07", kf, ("	enc := cipher.NewCTR(b, c.IV)\n", "	enc := cipher.NewCTR(b, make([]byte, b.BlockSize()))\n"))
M("C07", kf, ("SHA3SumKeccak256(key[16:32], cipherText)", "SHA3SumKeccak256(key[16:32], secret)"))
M("C07", kf, ("SHA3SumKeccak256(key[16:32], cipherText)", "SHA3SumKeccak256(key[16:], cipherText)"))
M("C07", kf, ("	for _, d := range data {\n		s.Write(d)\n	}", "	for _, d := range data[1:] {\n		s.Write(d)\n	}"))
M("C07", kf, ("	s := sha3.NewLegacyKeccak256()\n	for", "	s := sha3.New256()\n	for"))
M("C07", kf, ("`json:\"kdfparams\"`", "`json:\"kdf_params\"`"))
M("C07", kf, ("	case coinTypeEVM, \"\":", "	case coinTypeEVM, \"\", \"btc\":"))
M("C07", kf, ("		secret, err := DecryptICONKeyStore(ksdata, pw)\n		if err != nil {\n			return nil, err\n		}\n", "		secret, _ := DecryptICONKeyStore(ksdata, pw)\n"))
M("C07", "common/wallet/keystore_evm.go", ("	if err != nil {\n		return nil, err\n	}\n", "	if err != nil && key == nil {\n		return nil, err\n	}\n"))
M("C07", "common/wallet/keystore_evm.go", ("keystore.DecryptKey(ksData, string(pw))", "keystore.DecryptKey(ksData, string(pw[:len(pw)-1]))"))
M("C07", kf, ("ks.Address.SetBytes(addr.Bytes())", "ks.Address.SetBytes(common.NewAccountAddressFromPublicKey(pub0).Bytes())"), ("func ReadAddressFromKeyStore", "var _, pub0 = crypto.GenerateKeyPair()\n\nfunc ReadAddressFromKeyStore"))
M("C07", "common/crypto/key.go", ("	kb := make([]byte, PrivateKeyLen)\n	copy(kb, key.bytes)", "	kb := make([]byte, PrivateKeyLen)\n	copy(kb[1:], key.bytes)"))
M("C07", kf, ("	cipherText := make([]byte, len(secret))\n", "	cipherText := make([]byte, len(secret)+1)\n"))
R("C07", kf, ("	s := sha3.NewLegacyKeccak256()\n	s.Write(key[16:32])\n	s.Write(cipheredBytes)\n	mac := s.Sum([]byte{})\n", "	mac := SHA3SumKeccak256(key[16:32], cipheredBytes)\n"))
R("C07", kf, ("	if !bytes.Equal(mac, ksData.Crypto.MAC.Bytes()) {\n		return nil, errors.Errorf(\"InvalidPassword\")\n	}\n", "	if subtle.ConstantTimeCompare(ksData.Crypto.MAC.Bytes(), mac) != 1 {\n		return nil, errors.Errorf(\"InvalidPassword\")\n	}\n"), ("	\"bytes\"\n", "	\"crypto/subtle\"\n"))
R("C07", kf, ("	stream := cipher.NewCTR(block, cipherParams.IV.Bytes())\n	stream.XORKeyStream(secretBytes, cipheredBytes)\n\n	secret, err := crypto.ParsePrivateKey(secretBytes)\n	if err != nil {\n		return nil, err\n	}\n", "	secret, err := keyOf(block, cipherParams.IV, cipheredBytes, secretBytes)\n	if err != nil {\n		return nil, err\n	}\n"), ("func NewKeyStoreData(", "func keyOf(b cipher.Block, iv, in, out []byte) (*crypto.PrivateKey, error) {\n	cipher.NewCTR(b, iv).XORKeyStream(out, in)\n	return crypto.ParsePrivateKey(out)\n}\n\nfunc NewKeyStoreData("))
R("C07", kf, ("	if ksData.Crypto.KDF != kdfScrypt {\n		return nil, errors.Errorf(\"UnsupportedKDF(kdf=%s)\", ksData.Crypto.KDF)\n	}\n", ""), ("	if ksData.Crypto.Cipher != cipherAES128CTR {\n", "	if kdf := ksData.Crypto.KDF; kdf != kdfScrypt {\n		return nil, errors.Errorf(\"UnsupportedKDF(kdf=%s)\", kdf)\n	}\n	if ksData.Crypto.Cipher != cipherAES128CTR {\n"))
R("C07", kf, ("	for _, d := range data {\n		s.Write(d)\n	}", "	for i := 0; i < len(data); i++ {\n		s.Write(data[i])\n	}"), ("return s.Sum([]byte{})\n}\n\nfunc Enc", "return s.Sum(nil)\n}\n\nfunc Enc"))
R("C07", kf, ("	ks.Crypto.MAC = SHA3SumKeccak256(key[16:32], cipherText)\n	ks.Version = 3\n	ks.CoinType = coinTypeICON\n", "	ks.Version, ks.CoinType = 3, coinTypeICON\n	ks.Crypto.MAC = SHA3SumKeccak256(append(append([]byte{}, key[16:32]...), cipherText...))\n"))
R("C07", kf, ("	var ks KeyStoreData\n	var c AES128CTRParams\n	var k ScryptParams\n", "	ks := new(KeyStoreData)\n	c := &AES128CTRParams{}\n	k := &ScryptParams{}\n"), ("json.Marshal(&k)", "json.Marshal(k)"), ("json.Marshal(&c)", "json.Marshal(c)"), ("return json.Marshal(&ks)", "return json.Marshal(ks)"))
# ---- C19 crypto formats
sf="common/crypto/signature.go"; yf="common/crypto/key.go"; af="common/address.go"; wf="common/wallet/wallet.go"
M("C19", sf, ("len(hash) == 0 || len(hash) > HashLen || privKey == nil", "len(hash) > HashLen || privKey == nil"))
M("C19", sf, ("	case SignatureLenRawWithV:\n		s.bytes = sig\n		s.hasV = true\n", "	case SignatureLenRawWithV:\n		s.bytes = sig\n"))
M("C19", sf, ("0x00) // no meaning\n		s.hasV = false", "0x00) // no meaning\n		s.hasV = true"))
M("C19", sf, ("	s[0] = sig.bytes[64]\n	copy(s[1:33], sig.bytes[:32])\n	copy(s[33:], sig.bytes[32:64])", "	s[0] = sig.bytes[64]\n	copy(s[1:33], sig.bytes[32:64])\n	copy(s[33:], sig.bytes[:32])"))
M("C19", sf, ("	copy(s[1:33], sig.bytes[:32])", "	copy(s[1:32], sig.bytes[:32])"))
M("C19", sf, ("	return sig.bytes[:64], nil", "	return sig.bytes[1:65], nil"))
M("C19", sf, ("	if !sig.HasV() {\n		return nil, errors.New(\"signature has no V value\")\n	}\n", ""), ("	s, err := sig.SerializeRSV()\n	if err != nil {\n		return nil, err\n	}\n	return ParsePublicKey(secp256k1.RecoverPubkey(hash[:], s))", "	return ParsePublicKey(secp256k1.RecoverPubkey(hash[:], sig.bytes))"))
M("C19", sf, ("	return ret != 0\n", "	return ret >= 0\n"))
M("C19", sf, ("	if len(msg) == 0 || len(msg) > HashLen || pubKey == nil {\n		return false", "	if len(msg) == 0 || pubKey == nil {\n		return false"))
M("C19", sf, ("secp256k1.VerifySignature(msg, s, pubKey.bytes)", "secp256k1.VerifySignature(msg[:len(msg)-1], s, pubKey.bytes)"))
M("C19", sf, ("	if len(sig) != 65 {\n", "	if len(sig) < 65 {\n"))
M("C19", sf, ("	s.bytes = append(s.bytes, sig[33:]...)\n	s.bytes = append(s.bytes, sig[0])", "	s.bytes = append(s.bytes, sig[32:64]...)\n	s.bytes = append(s.bytes, sig[0])"))
M("C19", yf, ("uncomp[64]&0x1 == 0x1", "uncomp[63]&0x1 == 0x1"))
M("C19", yf, ("uncomp[64]&0x1 == 0x1", "uncomp[64]&0x2 == 0x2"))
M("C19", yf, ("copy(comp[1:], uncomp[1:33])", "copy(comp[1:], uncomp[33:65])"))
M("C19", yf, ("	case PublicKeyLenCompressed:\n		return &PublicKey{pubKey}, nil", "	case PublicKeyLenCompressed, 32:\n		return &PublicKey{pubKey}, nil"))
M("C19", yf, ("	if len(b) != PrivateKeyLen {", "	if len(b) > PrivateKeyLen {"))
M("C19", yf, ("	b2 := make([]byte, len(b))\n	copy(b2, b)\n	return &PrivateKey{b2}, nil", "	return &PrivateKey{b}, nil"))
M("C19", yf, ("secp256k1.ECDH(pubKey.bytes, key.bytes)", "secp256k1.ECDH(key.PublicKey().bytes, key.bytes)"))
M("C19", yf, ("	return bytes.Equal(key.bytes, key2.bytes)", "	return bytes.Equal(key.bytes[1:], key2.bytes[1:])"))
M("C19", af, ("	digest := crypto.SHA3Sum256(pk[1:])", "	digest := crypto.SHA3Sum256(pk)"))
M("C19", af, ("	digest := crypto.SHA3Sum256(pk[1:])", "	digest := crypto.SHASum256(pk[1:])"))
M("C19", af, ("digest[len(digest)-20:]", "digest[:20]"))
M("C19", af, ("	pk := pubKey.SerializeUncompressed()\n", "	pk := pubKey.SerializeCompressed()\n"))
M("C19", af, ("copy(a[AddressIDBytes-len(id)+1:], id)", "copy(a[AddressIDBytes-len(id):], id)"))
M("C19", af, ("		*a = Address{}\n", ""))
M("C19", af, ("	case 1:\n		return a.SetTypeAndID(true, b[1:])\n	default:\n		return errors.ErrIllegalArgument\n	}", "	default:\n		return a.SetTypeAndID(true, b[1:])\n	}"))
M("C19", af, ("		case s[0:2] == \"0x\":\n			s = s[2:]\n", "		case s[0:2] == \"0x\":\n			isContract = true\n			s = s[2:]\n"))
M("C19", af, ("	if a[0] == 1 {\n		return \"cx\"", "	if a[0] != 0 && a[1] == 1 {\n		return \"cx\""))
M("C19", af, ("return bytes.Equal(a[:], a2.Bytes())", "return bytes.Equal(a[1:], a2.ID())"))
M("C19", af, ("	return (*a)[1:]\n", "	return (*a)[:20]\n"))
M("C19", wf, ("	return w.skey.ECDH(pkey), nil", "	return w.skey.ECDH(w.pkey), nil"), ("	pkey, err := crypto", "	_, err := crypto"))
M("C19", wf, ("	sig, err := crypto.NewSignature(data, w.skey)", "	sig, err := crypto.NewSignature(data[:len(data)/2], w.skey)"))
M("C19", "common/wallet/wallet_evm.go", ("crypto.Keccak256(pubBytes[1:])[12:]", "crypto.Keccak256(pubBytes[1:])[:20]"))
M("C19", "common/wallet/wallet_evm.go", ("crypto.Keccak256(pubBytes[1:])[12:]", "crypto.Keccak256(pubBytes)[12:]"))
R("C19", sf, ("	s := make([]byte, SignatureLenRawWithV)\n	s[0] = sig.bytes[64]\n	copy(s[1:33], sig.bytes[:32])\n	copy(s[33:], sig.bytes[32:64])\n	return s, nil", "	out := append([]byte{sig.bytes[64]}, sig.bytes[:64]...)\n	return out, nil"))
R("C19", sf, ("	s.bytes = append(s.bytes, sig[1:33]...)\n	s.bytes = append(s.bytes, sig[33:]...)\n	s.bytes = append(s.bytes, sig[0])\n	s.hasV = true\n	return &s, nil", "	buf := make([]byte, SignatureLenRawWithV)\n	copy(buf, sig[1:])\n	buf[64] = sig[0]\n	s.bytes, s.hasV = buf, true\n	return &s, nil"))
R("C19", sf, ("	if len(msg) == 0 || len(msg) > HashLen || pubKey == nil {\n		return false\n	}\n	s, err := sig.SerializeRSV()\n	if err != nil {\n		return false\n	}\n	ret := secp256k1.VerifySignature(msg, s, pubKey.bytes)\n	return ret != 0", "	if pubKey == nil {\n		return false\n	}\n	if !sig.HasV() || !validHash(msg) {\n		return false\n	}\n	if secp256k1.VerifySignature(msg, sig.bytes, pubKey.bytes) == 0 {\n		return false\n	}\n	return true"), ("func (sig *Signature) HasV() bool {", "func validHash(h []byte) bool { return 0 < len(h) && len(h) <= HashLen }\n\nfunc (sig *Signature) HasV() bool {"))
R("C19", sf, ("	switch len(sig) {\n	case 0:\n		return nil, errors.New(\"sigature bytes are empty\")\n	case SignatureLenRawWithV:\n		s.bytes = sig\n		s.hasV = true\n	case SignatureLenRaw:\n		s.bytes = append(s.bytes, sig...)\n		s.bytes = append(s.bytes, 0x00) // no meaning\n		s.hasV = false\n	default:\n		return nil, errors.New(\"wrong raw signature format\")\n	}", "	l := len(sig)\n	if l == 0 {\n		return nil, errors.New(\"empty\")\n	}\n	if l != SignatureLenRaw && l != SignatureLenRawWithV {\n		return nil, errors.New(\"wrong raw signature format\")\n	}\n	s.hasV = l == SignatureLenRawWithV\n	if s.hasV {\n		s.bytes = sig\n	} else {\n		s.bytes = append(append([]byte{}, sig...), 0)\n	}"))
R("C19", yf, ("	format := publicKeyCompressed\n	if uncomp[64]&0x1 == 0x1 {\n		format |= 0x1\n	}\n	comp[0] = format\n", "	comp[0] = publicKeyCompressed | uncomp[64]&0x1\n"))
R("C19", yf, ("	comp = make([]byte, PublicKeyLenCompressed)\n", ""), ("	comp[0] = format\n	copy(comp[1:], uncomp[1:33])\n	return\n", "	return append([]byte{format}, uncomp[1:33]...)\n"))
R("C19", yf, ("	b2 := make([]byte, len(b))\n	copy(b2, b)\n	return &PrivateKey{b2}, nil", "	return &PrivateKey{bytes: append([]byte(nil), b...)}, nil"))
R("C19", af, ("	switch b[0] {\n	case 0:\n		return a.SetTypeAndID(false, b[1:])\n	case 1:\n		return a.SetTypeAndID(true, b[1:])\n	default:\n		return errors.ErrIllegalArgument\n	}", "	if b[0] > 1 {\n		return errors.ErrIllegalArgument\n	}\n	return a.SetTypeAndID(b[0] == 1, b[1:])"))
R("C19", af, ("	if a[0] == 1 {\n		return \"cx\" + hex.EncodeToString(a[1:])\n	} else {\n		return \"hx\" + hex.EncodeToString(a[1:])\n	}", "	prefix := \"hx\"\n	if a.IsContract() {\n		prefix = \"cx\"\n	}\n	return prefix + hex.EncodeToString(a.ID())"))
R("C19", af, ("	var isContract = false\n	if len(s) >= 2 {\n		switch {\n		case s[0:2] == \"cx\":\n			isContract = true\n			s = s[2:]\n		case s[0:2] == \"hx\":\n			s = s[2:]\n		case s[0:2] == \"0x\":\n			s = s[2:]\n		}\n	}\n", "	isContract := false\n	if len(s) >= 2 {\n		switch s[:2] {\n		case \"cx\":\n			isContract = true\n			fallthrough\n		case \"hx\", \"0x\":\n			s = s[2:]\n		}\n	}\n"))
R("C19", af, ("	if bytes, err := hex.DecodeString(s); err != nil {\n		return err\n	} else {\n		if err := a.SetTypeAndID(isContract, bytes); err != nil {\n			return err\n		}\n	}\n	return nil", "	id, err := hex.DecodeString(s)\n	if err != nil {\n		return err\n	}\n	return a.SetTypeAndID(isContract, id)"))
R("C19", af, ("	digest := crypto.SHA3Sum256(pk[1:])\n	a.SetTypeAndID(false, digest[len(digest)-20:])\n	return a", "	digest := crypto.SHA3Sum256(pk[1:])\n	id := digest[len(digest)-AddressIDBytes:]\n	return NewAccountAddress(id)"), ("func NewAccountAddressFromPublicKey(pubKey *crypto.PublicKey) *Address {\n	a := new(Address)\n", "func NewAccountAddressFromPublicKey(pubKey *crypto.PublicKey) *Address {\n"))
R("C19", wf, ("	pk := sk.PublicKey()\n	return &softwareWallet{\n		skey: sk,\n		pkey: pk,\n	}, nil", "	w := new(softwareWallet)\n	w.skey = sk\n	w.pkey = w.skey.PublicKey()\n	return w, nil"))
b2="chain/icon/btp2/btp2.go"; b2m="chain/icon/btp2/message.go"; br="chain/icon/bridge/bridge.go"; brm="chain/icon/bridge/message.go"; et="chain/ethbr/receiver.go"; etm="chain/ethbr/message.go"
# C14 proofs
M("C14", b2, ("Proof(int(offset+1), int(i))", "Proof(int(offset), int(i))"))
M("C14", b2, ("bls.RxSeq+messageCnt-offset, *p)", "bls.RxSeq+messageCnt, *p)"))
M("C14", b2, ("bls.RxSeq+i-offset, *p)", "bls.RxSeq+i, *p)"))
M("C14", b2, ("if rs.Height() == height {", "if rs.Height() >= height {"))
M("C14", b2, ("if (bls.RxSeq - rs.seq) == 0 {", "if rs.seq - bls.RxSeq <= 1 {"))
M("C14", b2, ("rs.Seq()-int64(rs.mt.Len()) < seq && seq <= rs.Seq()", "rs.Seq()-int64(rs.mt.Len()) <= seq && seq <= rs.Seq()"))
M("C14", b2m, ("	nextBls.RxSeq = ls\n", "	nextBls.RxSeq = bs.RxSeq\n"))
M("C14", b2m, ("		startSeq: bs.RxSeq,\n", "		startSeq: bs.TxSeq,\n"))
M("C14", b2m, ("	bls.RxSeq = c.nextBls.RxSeq\n	bls.TxSeq = c.nextBls.TxSeq\n", "	bls.RxSeq = c.nextBls.TxSeq\n	bls.TxSeq = c.nextBls.RxSeq\n"))
M("C14", br, ("for i := offset; i < int64(messageCnt); i++", "for i := offset + 1; i < int64(messageCnt); i++"))
M("C14", br, ("for i := offset; i < int64(messageCnt); i++", "for i := int64(0); i < int64(messageCnt); i++"))
M("C14", br, ("NewMessageProof(bls, bls.RxSeq+i-offset, trp)", "NewMessageProof(bls, bls.RxSeq+i-offset+1, trp)"))
M("C14", br, ("offset := bls.RxSeq - (rs.Seq() - int64(messageCnt))", "offset := rs.Seq() - bls.RxSeq"))
M("C14", br, ("rs := b.GetReceiveHeightForSequence(bls.RxSeq + 1)", "rs := b.GetReceiveHeightForSequence(bls.RxSeq)"))
M("C14", br, ("< seq && seq <= rs.Seq() {\n			return rs", "< seq && seq < rs.Seq() {\n			return rs"))
M("C14", br, ("		Height: rs.Height(),\n	}\n\n	for", "		Height: bls.Verifier.Height,\n	}\n\n	for"))
M("C14", br, ("		trp.Events = append(trp.Events, rs.ReceiptProof().Events[i])\n		rmSize += size\n", "		rmSize += size\n		if rmSize > 0 && i%2 == 1 {\n			continue\n		}\n		trp.Events = append(trp.Events, rs.ReceiptProof().Events[i])\n"))
M("C14", et, ("if e.Sequence.Int64() <= bls.RxSeq {", "if e.Sequence.Int64() <= bls.RxSeq+1 {"))
M("C14", et, ("				seq = e.Sequence.Int64()\n				rmSize += size", "				rmSize += size\n				seq += int64(size)"))
M("C14", et, ("				trp.Events = append(trp.Events, e)\n				seq = e.Sequence.Int64()\n				rmSize += size", "				seq = e.Sequence.Int64()\n				trp.Events = append(trp.Events, e)\n				trp.Events = append(trp.Events, e)\n				rmSize += size"))
M("C14", et, ("				if (int(limit) < rmSize+size) && rmSize > 0 {\n					return NewMessageProof(bls, seq, rps)\n				}\n				trp.Events = append(trp.Events, e)\n				seq = e.Sequence.Int64()", "				seq = e.Sequence.Int64()\n				if (int(limit) < rmSize+size) && rmSize > 0 {\n					return NewMessageProof(bls, seq, rps)\n				}\n				trp.Events = append(trp.Events, e)"))
M("C14", et, ("for i := int64(0); i < rpsCnt; i++ {", "for i := int64(1); i < rpsCnt; i++ {"))
M("C14", et, ("				Height: rs.rps[i].Height,", "				Height: rs.rps[0].Height,"))
M("C14", et, ("				Index:  rs.rps[i].Index,", "				Index:  i,"))
M("C14", et, ("			if len(trp.Events) == 0 {\n				rps = rps[:len(rps)-1]", "			if len(trp.Events) <= 1 {\n				rps = rps[:len(rps)-1]"))
M("C14", etm, ("		if len(rp.Events) == 0 {\n			continue", "		if len(rp.Events) <= 1 {\n			continue"))
M("C14", etm, ("			Index:  rp.Index,", "			Index:  rp.Height,"))
M("C14", etm, ("	nextBls.RxSeq = ls\n", "	nextBls.RxSeq = bs.RxSeq + int64(len(rps))\n"))
M("C14", etm, ("		lastSeq:  ls,", "		lastSeq:  bs.RxSeq + 1,"))
R("C14", b2, ("	rs := b.GetReceiveHeightForHeight(bls.Verifier.Height)\n\n	if rs == nil {", "	var rs *receiveStatus\n	for i := 0; i < len(b.rss); i++ {\n		if b.rss[i].Height() == bls.Verifier.Height {\n			rs = b.rss[i]\n			break\n		}\n	}\n	if rs == nil {"))
R("C14", b2, ("	if (bls.RxSeq - rs.seq) == 0 {", "	if bls.RxSeq == rs.Seq() {"))
R("C14", b2, ("	p, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(messageCnt))\n	if err != nil {\n		return nil, err\n	}\n	mp := NewMessageProof(bls, bls.RxSeq+messageCnt-offset, *p)\n	return mp, nil", "	return b.proofTo(bls, rs, offset+1, messageCnt)"), ("func (b *btp2) BuildRelayMessage(", "func (b *btp2) proofTo(bls *types.BMCLinkStatus, rs *receiveStatus, from, to int64) (link.MessageProof, error) {\n	p, err := rs.MerkleBinaryTree().Proof(int(from), int(to))\n	if err != nil {\n		return nil, err\n	}\n	return NewMessageProof(bls, bls.RxSeq+to-from+1, *p), nil\n}\n\nfunc (b *btp2) BuildRelayMessage("))
R("C14", br, ("	rs := b.GetReceiveHeightForSequence(seq)\n	if rs != nil {\n		return b.GetReceiveHeightForSequence(seq).height\n	} else {\n		return 0\n	}", "	if rs := b.GetReceiveHeightForSequence(seq); rs != nil {\n		return rs.Height()\n	}\n	return 0"))
R("C14", br, ("		if rs.Seq()-int64(len(rs.rp.Events)) < seq && seq <= rs.Seq() {\n			return rs\n		}", "		first := rs.Seq() - int64(len(rs.rp.Events)) + 1\n		if seq < first || rs.Seq() < seq {\n			continue\n		}\n		return rs"))
R("C14", br, ("	for i := offset; i < int64(messageCnt); i++ {\n		size := sizeOfEvent(rs.ReceiptProof().Events[i])", "	evts := rs.ReceiptProof().Events\n	for i := offset; i < int64(len(evts)); i++ {\n		size := sizeOfEvent(evts[i])"), ("		trp.Events = append(trp.Events, rs.ReceiptProof().Events[i])", "		trp.Events = append(trp.Events, evts[i])"))
R("C14", br, ("	return NewMessageProof(bls, bls.RxSeq+int64(messageCnt)-offset, trp)", "	last := bls.RxSeq + int64(messageCnt) - offset\n	return NewMessageProof(bls, last, trp)"))
R("C14", br, ("	return NewMessageProof(bls, bls.RxSeq+int64(messageCnt)-offset, trp)", "	return NewMessageProof(bls, rs.Seq(), trp)"))
R("C14", br, ("	return NewMessageProof(bls, bls.RxSeq+int64(messageCnt)-offset, trp)", "	return NewMessageProof(bls, bls.RxSeq+int64(len(trp.Events)), trp)"))
R("C14", brm, ("	rm.Receipts = append(rm.Receipts, b)\n", "	rm.Receipts = [][]byte{b}\n"))
R("C14", brm, ("	nextBls := &types.BMCLinkStatus{}\n	nextBls.Verifier.Height = bs.Verifier.Height\n	nextBls.TxSeq = bs.TxSeq\n	nextBls.RxSeq = ls\n\n	rm", "	next := *bs\n	next.RxSeq = ls\n	nextBls := &next\n\n	rm"))
R("C14", et, ("	rpsCnt := int64(len(rs.rps))\n	if rpsCnt > 0 {\n		for i := int64(0); i < rpsCnt; i++ {", "	if len(rs.rps) > 0 {\n		for i := range rs.rps {"))
R("C14", et, ("	rpsCnt := int64(len(rs.rps))\n	if rpsCnt > 0 {\n		for i := int64(0); i < rpsCnt; i++ {", "	if len(rs.rps) > 0 {\n		for _, rp := range rs.rps {"), ("rs.rps[i].Index", "rp.Index"), ("rs.rps[i].Height", "rp.Height"), ("range rs.rps[i].Events", "range rp.Events"))
R("C14", et, ("				if e.Sequence.Int64() <= bls.RxSeq {\n					continue\n				}\n				size := sizeOfEvent(e)\n\n				if (int(limit) < rmSize+size) && rmSize > 0 {\n					return NewMessageProof(bls, seq, rps)\n				}\n				trp.Events = append(trp.Events, e)\n				seq = e.Sequence.Int64()\n				rmSize += size\n", "				sn := e.Sequence.Int64()\n				if sn > bls.RxSeq {\n					size := sizeOfEvent(e)\n					if rmSize > 0 && int(limit) < rmSize+size {\n						return NewMessageProof(bls, seq, rps)\n					}\n					seq = sn\n					rmSize += size\n					trp.Events = append(trp.Events, e)\n				}\n"))
R("C14", et, ("			rps = append(rps, trp)\n\n			for", "			for"), ("				if (int(limit) < rmSize+size) && rmSize > 0 {\n					return NewMessageProof(bls, seq, rps)", "				if (int(limit) < rmSize+size) && rmSize > 0 {\n					return NewMessageProof(bls, seq, append(rps, trp))"), ("			if int(limit) < rmSize {\n				return NewMessageProof(bls, seq, rps)\n			}\n\n			//remove last receipt if empty\n			if len(trp.Events) == 0 {\n				rps = rps[:len(rps)-1]\n			}", "			if int(limit) < rmSize {\n				return NewMessageProof(bls, seq, append(rps, trp))\n			}\n			if len(trp.Events) > 0 {\n				rps = append(rps, trp)\n			}"))
R("C14", etm, ("		if len(rp.Events) == 0 {\n			continue\n		}\n		numOfEvents += len(rp.Events)\n", "		n := len(rp.Events)\n		if n == 0 {\n			continue\n		}\n		numOfEvents += n\n"))
# C20 items
M("C20", b2, ("bu := NewBlockUpdate(bls, bh.MainHeight, bbu)", "bu := NewBlockUpdate(bls, bh.MainHeight+1, bbu)"))
M("C20", b2, ("BTPBlockHeader: h, BTPBlockProof: p}", "BTPBlockHeader: p, BTPBlockProof: h}"))
M("C20", b2, ("pB64, err := b.c.GetBTPProof(pr)", "pr.Height = client.HexInt(intconv.FormatInt(height + 1))\n	pB64, err := b.c.GetBTPProof(pr)"))
M("C20", b2, ("		if limit < int64(len(codec.RLP.MustMarshalToBytes(bbu))) {\n			return bus, nil\n		}\n", "		if limit < int64(len(codec.RLP.MustMarshalToBytes(bbu))) {\n			continue\n		}\n"))
M("C20", b2m, ("		tpm.Type = RelayMessageTypeMessageProof\n", "		tpm.Type = RelayMessageTypeBlockUpdate\n"))
M("C20", b2m, ("	RelayMessageTypeReserved = iota\n	RelayMessageTypeBlockUpdate\n	RelayMessageTypeMessageProof\n	RelayMessageTypeBlockProof", "	RelayMessageTypeReserved = iota\n	RelayMessageTypeBlockUpdate\n	RelayMessageTypeBlockProof\n	RelayMessageTypeMessageProof"))
M("C20", b2m, ("	nextBls.Verifier.Height = targetHeight\n", "	nextBls.Verifier.Height = bs.Verifier.Height + 1\n"))
M("C20", b2m, ("			ph: targetHeight,", "			ph: bs.Verifier.Height,"))
M("C20", b2m, ("	nextBls.RxSeq = bs.RxSeq\n", "	nextBls.RxSeq = 0\n"))
M("C20", b2, ("		bm.Messages = append(bm.Messages, tpm)", "		bm.Messages = append([]*TypePrefixedMessage{tpm}, bm.Messages...)"))
M("C20", br, ("	for _, rs := range b.rss {\n		bu := NewBlockUpdate(bls, rs.Height())\n		bus = append(bus, bu)\n	}", "	for i := len(b.rss) - 1; i >= 0; i-- {\n		bu := NewBlockUpdate(bls, b.rss[i].Height())\n		bus = append(bus, bu)\n	}"))
M("C20", br, ("NewBlockUpdate(bls, rs.Height())", "NewBlockUpdate(bls, rs.Seq())"))
M("C20", br, ("if rmi.Type() == link.TypeMessageProof {", "if rmi.Type() == link.TypeMessageProof && rmi.Len() < 1000 {"))
M("C20", et, ("	for _, rs := range e.rss {\n		bu := NewBlockUpdate", "	for _, rs := range e.rss[len(e.rss)/2:] {\n		bu := NewBlockUpdate"))
M("C20", etm, ("			ph: targetHeight,", "			ph: bs.RxSeq,"))
R("C20", b2, ("	for _, rs := range b.rss {\n\n		h, p, err", "	for i := 0; i < len(b.rss); i++ {\n		rs := b.rss[i]\n		h, p, err"))
R("C20", b2, ("		bu := NewBlockUpdate(bls, bh.MainHeight, bbu)\n		bus = append(bus, bu)\n", "		bus = append(bus, NewBlockUpdate(bls, bh.MainHeight, bbu))\n"))
R("C20", b2, ("	bm := &BTPRelayMessage{\n		Messages: make([]*TypePrefixedMessage, 0),\n	}\n\n	for _, rmi := range rmis {\n		tpm, err := NewTypePrefixedMessage(rmi)\n		if err != nil {\n			return nil, err\n		}\n		bm.Messages = append(bm.Messages, tpm)\n	}\n\n	rb, err := codec.RLP.MarshalToBytes(bm)\n	if err != nil {\n		return nil, err\n	}\n\n	return rb, nil", "	msgs := make([]*TypePrefixedMessage, 0, len(rmis))\n	for i := range rmis {\n		tpm, err := NewTypePrefixedMessage(rmis[i])\n		if err != nil {\n			return nil, err\n		}\n		msgs = append(msgs, tpm)\n	}\n	return codec.RLP.MarshalToBytes(&BTPRelayMessage{Messages: msgs})"))
R("C20", b2m, ("	switch rmi.Type() {\n	case link.TypeBlockUpdate:\n		bn := rmi.(*blockUpdate)\n		tpm.Type = RelayMessageTypeBlockUpdate\n		tpm.Payload = bn.Payload()\n	case link.TypeMessageProof:\n		mp := rmi.(*MessageProof)\n		tpm.Type = RelayMessageTypeMessageProof\n		tpm.Payload = mp.Payload()\n	default:", "	switch it := rmi.(type) {\n	case *blockUpdate:\n		tpm.Type = RelayMessageTypeBlockUpdate\n		tpm.Payload = it.Payload()\n	case *MessageProof:\n		tpm.Type = RelayMessageTypeMessageProof\n		tpm.Payload = it.Payload()\n	default:"))
R("C20", br, ("		if rmi.Type() == link.TypeMessageProof {\n			mp := rmi.(*MessageProof)\n", "		if rmi.Type() != link.TypeMessageProof {\n			continue\n		}\n		if mp, ok := rmi.(*MessageProof); ok {\n"))
R("C20", br, ("	for _, rs := range b.rss {\n		bu := NewBlockUpdate(bls, rs.Height())\n		bus = append(bus, bu)\n	}\n	return bus, nil", "	return b.updates(bls, bus), nil"), ("func (b *bridge) BuildBlockProof(", "func (b *bridge) updates(bls *types.BMCLinkStatus, bus []link.BlockUpdate) []link.BlockUpdate {\n	for i := range b.rss {\n		bus = append(bus, NewBlockUpdate(bls, b.rss[i].height))\n	}\n	return bus\n}\n\nfunc (b *bridge) BuildBlockProof("))
R("C20", et, ("			return mp.Bytes(), nil", "			payload := mp.Bytes()\n			return payload, nil"))
# C21 watch
M("C21", b2, ("client.NewHexInt(bs.Verifier.Height + 1)", "client.NewHexInt(bs.Verifier.Height)"))
M("C21", b2, ("client.NewHexInt(bs.Verifier.Height + 1)", "client.NewHexInt(bs.Verifier.Height + 2)"))
M("C21", b2, ("		b.seq = bs.RxSeq\n", "		b.seq = bs.TxSeq\n"))
M("C21", b2, ("	if bs.RxSeq != 0 {\n		b.seq", "	if bs.RxSeq > 1 {\n		b.seq"))
M("C21", b2, ("			b.seq = seq\n", "			b.seq++\n"))
M("C21", b2, ("if bh.MainHeight != b.startHeight {", "if bh.MainHeight > b.startHeight+1 {"))
M("C21", b2, ("			b.seq = seq\n			b.rss = append(b.rss, rs)\n", "			b.seq = seq\n			if len(msgs) > 0 {\n				b.rss = append(b.rss, rs)\n			}\n"))
M("C21", b2, ("			b.rsc <- rs\n", "			if len(msgs) > 0 {\n				b.rsc <- rs\n			}\n"))
M("C21", b2, ("		if err != nil {\n			return nil, err\n		}\n		result = append(result, m)", "		if err != nil {\n			continue\n		}\n		result = append(result, m)"))
M("C21", b2, ("b.c.GetBTPLinkNetworkId(b.src, b.dst)", "b.c.GetBTPLinkNetworkId(b.dst, b.src)"))
M("C21", b2, ("	b.startHeight = sh + 1", "	b.startHeight = sh"))
M("C21", b2, ("HashFuncByUID(\"eth\")", "HashFuncByUID(\"icon\")"))
M("C21", b2, ("if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {", "if rs.Height() <= bs.Verifier.Height {"))
M("C21", b2, ("			b.rss = b.rss[i+1:]\n", "			b.rss = b.rss[i+2:]\n"))
M("C21", b2, ("msgs, err := b.getBtpMessage(bh.MainHeight)", "msgs, err := b.getBtpMessage(bh.MainHeight + 1)"))
M("C21", br, ("	offset += 1\n", "	offset += 2\n"))
M("C21", br, ("bh.UpdateNumber>>1", "bh.UpdateNumber"))
M("C21", br, ("		if sn > rxSeq {", "		if sn > rxSeq+1 {"))
M("C21", br, ("			evts = append(evts, evt)\n		}\n		sn++\n", "			evts = append(evts, evt)\n			sn++\n		}\n"))
M("C21", br, ("		seq:    sn - 1,", "		seq:    sn,"))
M("C21", br, ("newReceiveStatus(bh.MainHeight, bs.RxSeq, sn, msgs, b.dst)", "newReceiveStatus(bh.MainHeight, bs.TxSeq, sn, msgs, b.dst)"))
M("C21", br, ("newReceiveStatus(bh.MainHeight, bs.RxSeq, sn, msgs, b.dst)", "newReceiveStatus(bh.MainHeight, bs.RxSeq, sn, msgs, b.src)"))
M("C21", br, ("		Sequence: seq,", "		Sequence: seq + 1,"))
M("C21", br, ("client.NewHexInt(bs.Verifier.Height),", "client.NewHexInt(bs.Verifier.Height + 1),"))
M("C21", br, ("if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {", "if rs.Height() <= bs.Verifier.Height || rs.Seq() <= bs.RxSeq {"))
M("C21", br, ("			b.rss = append(b.rss, rs)\n			b.l.Debugf", "			b.rss = append(b.rss[1:], rs)\n			b.l.Debugf"))
M("C21", et, ("if evt.Sequence.Int64() <= e.seq {", "if evt.Sequence.Int64() <= e.seq+1 {"))
M("C21", et, ("if evt.Next.String() != e.dst.String() {", "if evt.Next.String() != e.src.String() {"))
M("C21", et, ("return rps[i].Index < rps[j].Index", "return rps[i].Index > rps[j].Index"))
M("C21", et, ("					sort.Slice(rps, func(i int, j int) bool {\n						return rps[i].Index < rps[j].Index\n					})\n", "					_ = sort.Slice\n"))
M("C21", et, ("e.seq = rps[len(rps)-1].Events[len(rps[len(rps)-1].Events)-1]", "e.seq = rps[len(rps)-1].Events[0]"))
M("C21", et, ("rp, ok := rpsMap[el.TxIndex]", "rp, ok := rpsMap[el.Index]"))
M("C21", et, ("					if err != nil {\n						return err\n					}\n					e.l.Debugf(\"event", "					if err != nil {\n						continue EpLoop\n					}\n					e.l.Debugf(\"event"))
M("C21", et, ("Height: int64(el.BlockNumber),", "Height: int64(el.TxIndex),"))
M("C21", et, ("					rp.Events = append(rp.Events, evt)", "					rp.Events = []*client.Event{evt}"))
M("C21", et, ("		Height:      big.NewInt(bs.Verifier.Height),", "		Height:      big.NewInt(bs.Verifier.Height + 1),"))
M("C21", et, ("e.src.ContractAddress()", "e.dst.ContractAddress()"))
M("C21", et, ("if len(rpsMap) > 0 {", "if len(rpsMap) > 1 {"))
M("C21", et, ("newReceiveStatus(v.Height.Int64(), e.seq, rps)", "newReceiveStatus(rps[0].Index, e.seq, rps)"))
M("C21", et, ("rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq", "rs.Height() < bls.Verifier.Height || rs.Seq() <= bls.RxSeq"))
R("C21", b2, ("		if bh.MainHeight != b.startHeight {\n			msgs", "		if bh.MainHeight == b.startHeight {\n			return nil\n		}\n		{\n			msgs"))
R("C21", b2, ("	for i, rs := range b.rss {\n		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {\n			b.rss = b.rss[i+1:]\n			return\n		}\n	}", "	cut := 0\n	for i, rs := range b.rss {\n		if rs.Height() > bs.Verifier.Height || rs.Seq() > bs.RxSeq {\n			continue\n		}\n		cut = i + 1\n	}\n	b.rss = b.rss[cut:]"))
R("C21", b2, ("	for i, rs := range b.rss {\n		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {\n			b.rss = b.rss[i+1:]\n			return\n		}\n	}", "	kept := make([]*receiveStatus, 0)\n	for _, rs := range b.rss {\n		if rs.Height() > bs.Verifier.Height || rs.Seq() > bs.RxSeq {\n			kept = append(kept, rs)\n		}\n	}\n	b.rss = kept"))
R("C21", b2, ("	for i, rs := range b.rss {\n		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {\n			b.rss = b.rss[i+1:]\n			return\n		}\n	}", "	for i, rs := range b.rss {\n		if rs.delivered(bs) {\n			b.rss = b.rss[i+1:]\n			return\n		}\n	}"), ("func newReceiveStatus(", "func (r *receiveStatus) delivered(bs *types.BMCLinkStatus) bool {\n	return r.height <= bs.Verifier.Height && r.seq <= bs.RxSeq\n}\n\nfunc newReceiveStatus("))
R("C21", b2, ("			b.seq = seq\n			b.rss = append(b.rss, rs)\n			b.l.Debugf(\"monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d \", bh.MainHeight, bh.UpdateNumber, len(msgs))\n			b.rsc <- rs\n", "			b.keep(rs)\n			b.l.Debugf(\"monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d \", bh.MainHeight, bh.UpdateNumber, len(msgs))\n"), ("func (b *btp2) setStartHeight(", "func (b *btp2) keep(rs *receiveStatus) {\n	b.rss = append(b.rss, rs)\n	b.seq = rs.seq\n	b.rsc <- rs\n}\n\nfunc (b *btp2) setStartHeight("))
R("C21", b2, ("	return b.c.MonitorBTP(req, func(conn *websocket.Conn, v *client.BTPNotification) error {\n		h, err := base64.StdEncoding.DecodeString(v.Header)\n		if err != nil {\n			return err\n		}\n\n		bh := &client.BTPBlockHeader{}\n		if _, err = codec.RLP.UnmarshalFromBytes(h, bh); err != nil {\n			return err\n		}\n", "	return b.c.MonitorBTP(req, func(conn *websocket.Conn, v *client.BTPNotification) error {\n		bh, err := decodeHeader(v.Header)\n		if err != nil {\n			return err\n		}\n"), ("func (b *btp2) setStartHeight(", "func decodeHeader(s string) (*client.BTPBlockHeader, error) {\n	h, err := base64.StdEncoding.DecodeString(s)\n	if err != nil {\n		return nil, err\n	}\n	bh := &client.BTPBlockHeader{}\n	if _, err = codec.RLP.UnmarshalFromBytes(h, bh); err != nil {\n		return nil, err\n	}\n	return bh, nil\n}\n\nfunc (b *btp2) setStartHeight("))
R("C21", b2, ("	result := make([][]byte, 0)\n	for _, mg := range msgs {\n		m, err := base64.StdEncoding.DecodeString(mg)", "	result := make([][]byte, 0, len(msgs))\n	for i := range msgs {\n		m, err := base64.StdEncoding.DecodeString(msgs[i])"))
R("C21", b2, ("	result := make([][]byte, 0)\n	for _, mg := range msgs {\n		m, err := base64.StdEncoding.DecodeString(mg)\n		if err != nil {\n			return nil, err\n		}\n		result = append(result, m)\n	}\n", "	result := make([][]byte, len(msgs))\n	for i, mg := range msgs {\n		m, err := base64.StdEncoding.DecodeString(mg)\n		if err != nil {\n			return nil, err\n		}\n		result[i] = m\n	}\n"))
R("C21", br, ("	for _, msg := range msgs {\n		if sn > rxSeq {\n			evt, err := messageToEvent(next, msg, sn)\n			if err != nil {\n				return nil, err\n			}\n			evts = append(evts, evt)\n		}\n		sn++\n	}\n", "	for i := 0; i < len(msgs); i++ {\n		if sn <= rxSeq {\n			sn++\n			continue\n		}\n		evt, err := messageToEvent(next, msgs[i], sn)\n		if err != nil {\n			return nil, err\n		}\n		evts = append(evts, evt)\n		sn++\n	}\n"))
R("C21", br, ("	for _, msg := range msgs {\n		if sn > rxSeq {\n			evt, err := messageToEvent(next, msg, sn)\n			if err != nil {\n				return nil, err\n			}\n			evts = append(evts, evt)\n		}\n		sn++\n	}\n", "	for i, msg := range msgs {\n		seq := sn + int64(i)\n		if seq > rxSeq {\n			evt, err := messageToEvent(next, msg, seq)\n			if err != nil {\n				return nil, err\n			}\n			evts = append(evts, evt)\n		}\n	}\n	sn += int64(len(msgs))\n"))
R("C21", et, ("					rp, ok := rpsMap[el.TxIndex]\n					if !ok {\n						rp = &client.ReceiptProof{\n							Index:  int64(el.TxIndex),\n							Events: make([]*client.Event, 0),\n							Height: int64(el.BlockNumber),\n						}\n						rpsMap[el.TxIndex] = rp\n					}\n					rp.Events = append(rp.Events, evt)", "					if _, ok := rpsMap[el.TxIndex]; !ok {\n						rpsMap[el.TxIndex] = &client.ReceiptProof{\n							Index:  int64(el.TxIndex),\n							Events: make([]*client.Event, 0),\n							Height: int64(el.BlockNumber),\n						}\n					}\n					rp := rpsMap[el.TxIndex]\n					rp.Events = append(rp.Events, evt)"))
R("C21", et, ("					if evt.Sequence.Int64() <= e.seq {\n						continue EpLoop\n					}\n					//below statement is unnecessary if 'next' is indexed\n					if evt.Next.String() != e.dst.String() {\n						continue EpLoop\n					}\n", "					if evt.Sequence.Int64() <= e.seq || evt.Next.String() != e.dst.String() {\n						continue EpLoop\n					}\n"))
R("C21", et, ("					e.seq = rps[len(rps)-1].Events[len(rps[len(rps)-1].Events)-1].Sequence.Int64()\n", "					last := rps[len(rps)-1]\n					e.seq = last.Events[len(last.Events)-1].Sequence.Int64()\n"))
R("C21", et, ("			if len(v.Logs) > 0 {\n				rpsMap", "			if len(v.Logs) == 0 {\n				return nil\n			}\n			{\n				rpsMap"))
R("C21", et, ("	for i, rs := range e.rss {\n		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {\n			e.rss = e.rss[i+1:]\n			return\n		}\n	}", "	for i := range e.rss {\n		rs := e.rss[i]\n		if rs.Height() > bls.Verifier.Height {\n			continue\n		}\n		if rs.Seq() > bls.RxSeq {\n			continue\n		}\n		e.rss = e.rss[i+1:]\n		break\n	}"))

# ---- receivers, second round of refactorings
BT = "chain/icon/btp2/btp2.go"; BR = "chain/icon/bridge/bridge.go"; ET = "chain/ethbr/receiver.go"
for P in ("C14", "C20", "C21"):
    # helper for the block's parameters
    R(P, BT, ("""	pr := &client.BTPBlockParam{Height: client.HexInt(intconv.FormatInt(height)), NetworkId: client.HexInt(intconv.FormatInt(b.nid))}
	mgs, err := b.c.GetBTPMessage(pr)
	if err != nil {
		return nil, err
	}

	return mgs, nil
}
""", """	return b.c.GetBTPMessage(b.blockParam(height))
}

func (b *btp2) blockParam(height int64) *client.BTPBlockParam {
	return &client.BTPBlockParam{
		Height:    client.HexInt(intconv.FormatInt(height)),
		NetworkId: client.HexInt(intconv.FormatInt(b.nid)),
	}
}
"""), ("	pr := &client.BTPBlockParam{Height: client.HexInt(intconv.FormatInt(height)), NetworkId: client.HexInt(intconv.FormatInt(b.nid))}\n	hB64", "	pr := b.blockParam(height)\n	hB64"))
    R(P, BT, ("""	if messageCnt > 0 {
		for i := offset + 1; i < messageCnt; i++ {
			p, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(i))
			if err != nil {
				return nil, err
			}

			if limit < int64(len(codec.RLP.MustMarshalToBytes(p))) {
				mp := NewMessageProof(bls, bls.RxSeq+i-offset, *p)
				return mp, nil
			}
		}
	}
""", """	mt := rs.MerkleBinaryTree()
	first := offset + 1
	for last := first; last < messageCnt; last++ {
		p, err := mt.Proof(int(first), int(last))
		if err != nil {
			return nil, err
		}
		if int64(len(codec.RLP.MustMarshalToBytes(p))) > limit {
			return NewMessageProof(bls, bls.RxSeq+(last-offset), *p), nil
		}
	}
"""))
    R(P, BT, ("	for _, rs := range b.rss {\n\n		h, p, err", "	for i := range b.rss {\n		rs := b.rss[i]\n		h, p, err"),
      ("		bbu := &client.BTPBlockUpdate{BTPBlockHeader: h, BTPBlockProof: p}\n\n		if limit < int64(len(codec.RLP.MustMarshalToBytes(bbu))) {\n			return bus, nil\n		}\n", "		bbu := &client.BTPBlockUpdate{BTPBlockHeader: h, BTPBlockProof: p}\n		size := int64(len(codec.RLP.MustMarshalToBytes(bbu)))\n		if size > limit {\n			break\n		}\n"))
    R(P, BT, ("""		bh := &client.BTPBlockHeader{}
		if _, err = codec.RLP.UnmarshalFromBytes(h, bh); err != nil {
			return err
		}
		if bh.MainHeight != b.startHeight {
			msgs, err := b.getBtpMessage(bh.MainHeight)
			if err != nil {
				return err
			}

			seq := b.seq + int64(len(msgs))
			rs, err := newReceiveStatus(bh.MainHeight, seq, msgs)
			if err != nil {
				return err
			}

			b.seq = seq
			b.rss = append(b.rss, rs)
			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
			b.rsc <- rs
		}
		return nil
	}, scb, errCb)
}
""", """		bh := new(client.BTPBlockHeader)
		if _, err = codec.RLP.UnmarshalFromBytes(h, bh); err != nil {
			return err
		}
		return b.onBlock(bh)
	}, scb, errCb)
}

func (b *btp2) onBlock(bh *client.BTPBlockHeader) error {
	if bh.MainHeight == b.startHeight {
		return nil
	}
	msgs, err := b.getBtpMessage(bh.MainHeight)
	if err != nil {
		return err
	}
	cnt := len(msgs)
	rs, err := newReceiveStatus(bh.MainHeight, b.seq+int64(cnt), msgs)
	if err != nil {
		return err
	}
	b.seq += int64(cnt)
	b.rss = append(b.rss, rs)
	b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, cnt)
	b.rsc <- rs
	return nil
}
"""))
    R(P, BT, ("			b.seq = seq\n			b.rss", "			b.rss"), ("			b.rsc <- rs\n", "			b.seq = rs.Seq()\n			b.rsc <- rs\n"))
    R(P, BT, ("""	rs := b.GetReceiveHeightForSequence(seq)
	if rs != nil {
		return b.GetReceiveHeightForSequence(seq).height
	} else {
		return 0
	}
""", """	rs := b.GetReceiveHeightForSequence(seq)
	if rs == nil {
		return 0
	}
	return rs.height
"""))
    R(P, BR, ("""	messageCnt := len(rs.ReceiptProof().Events)
	offset := bls.RxSeq - (rs.Seq() - int64(messageCnt))
	trp := &ReceiptProof{
		Index:  rs.ReceiptProof().Index,
		Events: make([]*Event, 0),
		Height: rs.Height(),
	}

	for i := offset; i < int64(messageCnt); i++ {
		size := sizeOfEvent(rs.ReceiptProof().Events[i])
		if limit < int64(rmSize+size) {
			return NewMessageProof(bls, bls.RxSeq+i-offset, trp)
		}
		trp.Events = append(trp.Events, rs.ReceiptProof().Events[i])
		rmSize += size
	}
""", """	rp := rs.ReceiptProof()
	messageCnt := len(rp.Events)
	offset := bls.RxSeq - (rs.Seq() - int64(messageCnt))
	trp := &ReceiptProof{Index: rp.Index, Height: rs.Height()}

	for i := offset; i < int64(messageCnt); i++ {
		evt := rp.Events[i]
		size := sizeOfEvent(evt)
		if int64(rmSize+size) > limit {
			sent := i - offset
			return NewMessageProof(bls, bls.RxSeq+sent, trp)
		}
		rmSize += size
		trp.Events = append(trp.Events, evt)
	}
"""))
    R(P, BR, ("""	for _, rmi := range rmis {
		if rmi.Type() == link.TypeMessageProof {
			mp := rmi.(*MessageProof)
			b.l.Debugf("BuildRelayMessage height:%d data:%s ", mp.nextBls.Verifier.Height,
				base64.URLEncoding.EncodeToString(mp.Bytes()))

			return mp.Bytes(), nil
		}
	}
	return nil, nil
}
""", """	for i := 0; i < len(rmis); i++ {
		switch rmis[i].Type() {
		case link.TypeMessageProof:
			return b.payload(rmis[i].(*MessageProof)), nil
		default:
		}
	}
	return nil, nil
}

func (b *bridge) payload(mp *MessageProof) []byte {
	data := mp.Bytes()
	b.l.Debugf("BuildRelayMessage height:%d data:%s ", mp.nextBls.Verifier.Height,
		base64.URLEncoding.EncodeToString(data))
	return data
}
"""))
    R(P, BR, ("""	for i, rs := range b.rss {
		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
			b.rss = b.rss[i+1:]
			return
		}
	}
""", """	idx := -1
	for i, rs := range b.rss {
		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
			idx = i
			break
		}
	}
	if idx >= 0 {
		b.rss = b.rss[idx+1:]
	}
"""))
    R(P, BR, ("""	evt := &Event{
		Next:     next.String(),
		Sequence: seq,
		Message:  b,
	}
	return evt, nil
""", """	return &Event{Next: next.String(), Sequence: seq, Message: b}, nil
"""))
    R(P, BR, ("""		if bh.MainHeight != b.startHeight {
			msgs""", """		if bh.MainHeight == b.startHeight {
			b.l.Debugf("skip the first block %d", bh.MainHeight)
		} else {
			msgs"""))
    R(P, ET, ("""	rpsCnt := int64(len(rs.rps))
	if rpsCnt > 0 {
		for i := int64(0); i < rpsCnt; i++ {
			trp := &client.ReceiptProof{
				Index:  rs.rps[i].Index,
				Events: make([]*client.Event, 0),
				Height: rs.rps[i].Height,
			}
			rps = append(rps, trp)
""", """	rpsCnt := len(rs.rps)
	if rpsCnt == 0 {
		return nil, nil
	}
	{
		for i := 0; i < rpsCnt; i++ {
			rp := rs.rps[i]
			trp := &client.ReceiptProof{
				Index:  rp.Index,
				Events: make([]*client.Event, 0, len(rp.Events)),
				Height: rp.Height,
			}
			rps = append(rps, trp)
"""), ("		return NewMessageProof(bls, seq, rps)\n	}\n	return nil, nil\n}\n\nfunc (e *ethbr) GetHeight", "		return NewMessageProof(bls, seq, rps)\n	}\n}\n\nfunc (e *ethbr) GetHeight"))
    R(P, ET, ("""				if e.Sequence.Int64() <= bls.RxSeq {
					continue
				}
				size := sizeOfEvent(e)
""", """				sn := e.Sequence.Int64()
				if sn <= bls.RxSeq {
					continue
				}
				size := sizeOfEvent(e)
"""), ("				seq = e.Sequence.Int64()\n", "				seq = sn\n"))
    R(P, ET, ("""	for _, rs := range e.rss {
		if rs.rps[0].Events[0].Sequence.Int64() <= seq && seq <= rs.Seq() {
			return rs
		}
	}
	return nil
}
""", """	for _, rs := range e.rss {
		if rs.has(seq) {
			return rs
		}
	}
	return nil
}

func (r *receiveStatus) has(seq int64) bool {
	first := r.rps[0].Events[0].Sequence.Int64()
	return first <= seq && seq <= r.seq
}
"""))
    R(P, ET, ("			EpLoop:\n				for _, el := range v.Logs {\n					evt, err := logToEvent(&el)", "			EpLoop:\n				for i := range v.Logs {\n					el := v.Logs[i]\n					evt, err := logToEvent(&el)"))
    R(P, ET, ("""					e.seq = rps[len(rps)-1].Events[len(rps[len(rps)-1].Events)-1].Sequence.Int64()
					rs, err := newReceiveStatus(v.Height.Int64(), e.seq, rps)
					if err != nil {
						return err
					}

					e.rss = append(e.rss, rs)
""", """					e.seq = lastSequence(rps)
					height := v.Height.Int64()
					rs, err := newReceiveStatus(height, e.seq, rps)
					if err != nil {
						return err
					}

					e.rss = append(e.rss, rs)
"""), ("func logToEvent(", "func lastSequence(rps []*client.ReceiptProof) int64 {\n	events := rps[len(rps)-1].Events\n	return events[len(events)-1].Sequence.Int64()\n}\n\nfunc logToEvent("))
    R(P, ET, ("""	for i, rs := range e.rss {
		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
			e.rss = e.rss[i+1:]
			return
		}
	}
""", """	for i := 0; i < len(e.rss); i++ {
		if rs := e.rss[i]; rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
			e.rss = append([]*receiveStatus{}, e.rss[i+1:]...)
			return
		}
	}
"""))
    R(P, ET, ("	return e.c.MonitorBlock(br,\n		func(v *client.BlockNotification) error {\n			if len(v.Logs) > 0 {", "	return e.c.MonitorBlock(br,\n		func(v *client.BlockNotification) error {\n			if n := len(v.Logs); n != 0 {"))

# ---- C04 RLP framing
P = "C04"
RL = "common/codec/rlp.go"
M(P, RL, ("""	case l <= 55:
		var header [1]byte
		header[0] = byte(0x80 + l)""", """	case l <= 56:
		var header [1]byte
		header[0] = byte(0x80 + l)"""))
M(P, RL, ("		if b[0] < 0x80 {", "		if b[0] <= 0x80 {"))
M(P, RL, ("	case tag <= 0xB7:\n		buffer", "	case tag < 0xB7:\n		buffer"))
M(P, RL, ("	case tag <= 0xF7:\n		size := tag - 0xC0", "	case tag < 0xF7:\n		size := tag - 0xC0"))
M(P, RL, ("header[0] = byte(0xC0 + 55 + len(sz))", "header[0] = byte(0xC0 + 56 + len(sz))"))
M(P, RL, ("			return nil, err\n		}\n		if sz == 1 && sz2 == 0 {", "			return nil, err\n		}\n		if sz2 == 0 {"))
M(P, RL, ("		if sz == 1 && sz2 == 0 {\n			return nil, ErrNilValue\n		}\n", ""))
M(P, RL, ("	if b == nil {\n		return w.writeNull()\n	}\n	switch l", "	if len(b) == 0 {\n		return w.writeNull()\n	}\n	switch l"))
M(P, RL, ("	if b == nil {\n		return w.writeNull()\n	}\n	switch l", "	switch l"))
M(P, RL, ("		if err := w.writeAll(sz); err != nil {\n			return err\n		}\n		return w.writeAll(b)\n	}\n}\n\nfunc (w *rlpWriter) writeList", "		w.writeAll(sz)\n		return w.writeAll(b)\n	}\n}\n\nfunc (w *rlpWriter) writeList"))
M(P, RL, ("		written += n", "		written += n\n		if n < len(b) && written > 4096 {\n			break\n		}"))
M(P, RL, ("		return r.readMore(header[0:1+sz], sz2)\n	case", "		return r.readMore(header[0:1], sz2)\n	case"))
M(P, RL, ("	if _, err := io.ReadFull(r.reader, buffer); err != nil {", "	if _, err := r.reader.Read(buffer); err != nil {"))
M(P, RL, ("	if _, err := io.ReadFull(r.reader, buffer); err != nil {\n		if err == io.EOF {\n			return cerrors.Wrapf(ErrInvalidFormat, \"InvalidFormat(sz=%d,err=%s)\", len(buffer), err)\n		}\n", "	if _, err := io.ReadFull(r.reader, buffer); err != nil {\n		if err == io.EOF {\n			return err\n		}\n"))
M(P, RL, ("		return cerrors.WithStack(err)\n	}\n	return nil\n}\n\nfunc (r *rlpReader) skipOne", "		if err == io.ErrUnexpectedEOF {\n			return nil\n		}\n		return cerrors.WithStack(err)\n	}\n	return nil\n}\n\nfunc (r *rlpReader) skipOne"))
M(P, RL, ("	case tag < 0xC0:\n		sz := tag - 0xB7\n		sz2, err := r.readSize(header[1 : 1+sz])\n		if err != nil {\n			return err", "	case tag < 0xC0:\n		sz := tag - 0xB8\n		sz2, err := r.readSize(header[1 : 1+sz])\n		if err != nil {\n			return err"))
M(P, RL, ("	for i := 0; i < cnt; i++ {\n		if err := r.skipOne()", "	for i := 1; i < cnt; i++ {\n		if err := r.skipOne()"))
M(P, RL, ("		v.SetInt(intconv.BytesToInt64(bs))", "		v.SetInt(int64(intconv.BytesToUint64(bs)))"))
M(P, RL, ("	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:\n		return w.writeBytes(intconv.Uint64ToBytes(v.Uint()))", "	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:\n		return w.writeBytes(intconv.SizeToBytes(v.Uint()))"))
M(P, RL, ("intconv.BytesToUint64(bs) != 0)", "intconv.BytesToUint64(bs) == 1)"))
M(P, RL, ("		v.SetString(string(bs))", "		v.SetString(string(bytes.TrimRight(bs, \"\\x00\")))"))
M(P, RL, ("	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:\n		return", "	case reflect.Int, reflect.Int16, reflect.Int32, reflect.Int64:\n		return"))
M(P, RL, ("		buffer: bytes.NewBuffer(nil),\n		isMap:  true,\n		writer: w,\n	}\n	return &rlpWriter{\n		parent: p,\n		writer: p.buffer,", "		buffer: bytes.NewBuffer(nil),\n		isMap:  true,\n		writer: w,\n	}\n	return &rlpWriter{\n		parent: p,\n		writer: w.writer,"))
M(P, RL, ("		return []byte{header[0]}, nil", "		if tag == 0 {\n			return []byte{}, nil\n		}\n		return []byte{header[0]}, nil"))
M(P, RL, ("var nullSequence = []byte{0xf8, 0}", "var nullSequence = []byte{0xc0}"))
M(P, RL, ("	_, err := io.Copy(ioutil.Discard, r.reader)\n	return err", "	return nil"))
M(P, RL, ("	case tag == 0xF8:\n		if sz2, err := r.readSize(header[1:2]); err != nil {\n			return nil, err\n		} else {\n			if sz2 == 0 {\n				return nil, ErrNilValue\n			}\n		}\n		fallthrough\n", "	case tag == 0xF8:\n		return nil, ErrNilValue\n"))

R(P, RL, ("	case tag < 0xC0:\n		return nil, cerrors.Wrap(ErrInvalidFormat, \"InvalidFormat(RLPBytes)\")", "	case tag <= 0xBF:\n		return nil, cerrors.Wrap(ErrInvalidFormat, \"InvalidFormat(RLPBytes)\")"))
R(P, RL, ("""		buffer := make([]byte, int(header[0])-0x80)
		if err := r.readAll(buffer); err != nil {
			return nil, err
		} else {
			return buffer, nil
		}
""", """		return r.readN(tag - 0x80)
"""), ("""		buffer := make([]byte, sz2)
		if err := r.readAll(buffer); err != nil {
			return nil, err
		} else {
			return buffer, nil
		}
""", """		return r.readN(sz2)
"""), ("func (r *rlpReader) readBytes()", "func (r *rlpReader) readN(n int) ([]byte, error) {\n	buffer := make([]byte, n)\n	if err := r.readAll(buffer); err != nil {\n		return nil, err\n	}\n	return buffer, nil\n}\n\nfunc (r *rlpReader) readBytes()"))
R(P, RL, ("""	case l == 0:
		return w.writeAll([]byte{0xc0})
	case l <= 55:""", """	case l < 56:"""))
R(P, RL, ("""		sz := sizeToBytes(l)
		var header [1]byte
		header[0] = byte(0xC0 + 55 + len(sz))
		if err := w.writeAll(header[:]); err != nil {
			return err
		}
		if err := w.writeAll(sz); err != nil {
			return err
		}
		return w.writeAll(b)""", """		sz := sizeToBytes(l)
		header := append([]byte{byte(0xF7 + len(sz))}, sz...)
		if err := w.writeAll(header); err != nil {
			return err
		}
		return w.writeAll(b)"""))
R(P, RL, ("""	for written := 0; written < len(b); {
		n, err := w.writer.Write(b[written:])
		if err != nil {
			return err
		}
		written += n
	}
	return nil""", """	written := 0
	for {
		if written >= len(b) {
			return nil
		}
		n, err := w.writer.Write(b[written:])
		if err != nil {
			return err
		}
		written += n
	}"""))
R(P, RL, ("""	for written := 0; written < len(b); {
		n, err := w.writer.Write(b[written:])
		if err != nil {
			return err
		}
		written += n
	}
	return nil""", """	for len(b) > 0 {
		n, err := w.writer.Write(b)
		if err != nil {
			return err
		}
		b = b[n:]
	}
	return nil"""))
R(P, RL, ("""func (w *rlpWriter) writeList(b []byte) error {
	switch l := len(b); {
	case l == 0:
		return w.writeAll([]byte{0xc0})
	case l <= 55:
		var header [1]byte
		header[0] = byte(0xC0 + l)
		if err := w.writeAll(header[:]); err != nil {
			return err
		}
		return w.writeAll(b)
	default:
		sz := sizeToBytes(l)
		var header [1]byte
		header[0] = byte(0xC0 + 55 + len(sz))
		if err := w.writeAll(header[:]); err != nil {
			return err
		}
		if err := w.writeAll(sz); err != nil {
			return err
		}
		return w.writeAll(b)
	}
}""", """func (w *rlpWriter) writeList(b []byte) error {
	return w.writeFramed(0xC0, b)
}

func (w *rlpWriter) writeFramed(base int, b []byte) error {
	if err := w.writeHeader(base, len(b)); err != nil {
		return err
	}
	return w.writeAll(b)
}

func (w *rlpWriter) writeHeader(base, l int) error {
	if l <= 55 {
		return w.writeAll([]byte{byte(base + l)})
	}
	sz := sizeToBytes(l)
	if err := w.writeAll([]byte{byte(base + 55 + len(sz))}); err != nil {
		return err
	}
	return w.writeAll(sz)
}"""), ("""		var header [1]byte
		header[0] = byte(0x80 + l)
		if err := w.writeAll(header[:]); err != nil {
			return err
		}
		return w.writeAll(b)
	default:
		sz := sizeToBytes(l)
		var header [1]byte
		header[0] = byte(0x80 + 55 + len(sz))
		if err := w.writeAll(header[:]); err != nil {
			return err
		}
		if err := w.writeAll(sz); err != nil {
			return err
		}
		return w.writeAll(b)
""", """		fallthrough
	default:
		return w.writeFramed(0x80, b)
"""))
R(P, RL, ("""		var buffer [1]byte
		if v.Bool() {
			buffer[0] = 1
		} else {
			buffer[0] = 0
		}
		return w.writeBytes(buffer[:])
""", """		if v.Bool() {
			return w.writeBytes([]byte{1})
		}
		return w.writeBytes([]byte{0})
"""))
R(P, RL, ("""	case reflect.Bool:
		bs, err := r.readBytes()
		if err != nil {
			return err
		}
		v.SetBool(intconv.BytesToUint64(bs) != 0)
		return nil
""", """	case reflect.Bool:
		bs, err := r.readBytes()
		if err == nil {
			v.SetBool(intconv.BytesToUint64(bs) != 0)
		}
		return err
"""))
R(P, RL, ("""func (r *rlpReader) ReadValue(v reflect.Value) error {
	switch v.Kind() {
	case reflect.Bool:
		bs, err := r.readBytes()
		if err != nil {
			return err
		}
		v.SetBool""", """func isScalar(k reflect.Kind) bool {
	return k >= reflect.Bool && k <= reflect.Uint64 || k == reflect.String
}

func (r *rlpReader) ReadValue(v reflect.Value) error {
	if !isScalar(v.Kind()) {
		return cerrors.Wrapf(ErrIllegalType, "IllegalType(%s)", v.Type())
	}
	bs, err := r.readBytes()
	if err != nil {
		return err
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool"""), ("""		bs, err := r.readBytes()
		if err != nil {
			return err
		}
		v.SetUint""", """		v.SetUint"""), ("""		bs, err := r.readBytes()
		if err != nil {
			return err
		}
		v.SetInt""", """		v.SetInt"""), ("""		bs, err := r.readBytes()
		if err != nil {
			return err
		}
		v.SetString""", """		v.SetString"""))
R(P, RL, ("""		buffer: bytes.NewBuffer(nil),
		writer: w,
	}
	return &rlpWriter{
		parent: p,
		writer: p.buffer,
	}, nil
}

func (w *rlpWriter) WriteMap() (Writer, error) {
	w.countN(1)
	p := &rlpParent{
		buffer: bytes.NewBuffer(nil),
		isMap:  true,
		writer: w,
	}
	return &rlpWriter{
		parent: p,
		writer: p.buffer,
	}, nil
""", """		buffer: new(bytes.Buffer),
		writer: w,
	}
	return &rlpWriter{
		parent: p,
		writer: p.buffer,
	}, nil
}

func (w *rlpWriter) WriteMap() (Writer, error) {
	w.countN(1)
	return w.sub(true), nil
}

func (w *rlpWriter) sub(m bool) *rlpWriter {
	p := &rlpParent{
		buffer: bytes.NewBuffer(nil),
		isMap:  m,
		writer: w,
	}
	return &rlpWriter{
		parent: p,
		writer: p.buffer,
	}
"""))
R(P, RL, ("""	buffer := make([]byte, len(org)+size)
	copy(buffer, org)
	if err := r.readAll(buffer[len(org):]); err != nil {
		return nil, err
	}
	return buffer, nil
""", """	rest := make([]byte, size)
	if err := r.readAll(rest); err != nil {
		return nil, err
	}
	return append(org, rest...), nil
"""))
R(P, RL, ("""	case tag <= 0xF7:
		size := tag - 0xC0
		return &rlpReader{
			reader: io.LimitReader(r.reader, int64(size)),
		}, nil
	default:
		sz := tag - 0xF7""", """	case tag <= 0xF7:
		return r.limited(tag - 0xC0), nil
	default:
		sz := tag - 0xF7"""), ("		return &rlpReader{\n			reader: io.LimitReader(r.reader, int64(sz2)),\n		}, nil", "		return r.limited(sz2), nil"), ("func (r *rlpReader) ReadList()", "func (r *rlpReader) limited(n int) Reader {\n	return &rlpReader{\n		reader: io.LimitReader(r.reader, int64(n)),\n	}\n}\n\nfunc (r *rlpReader) ReadList()"))
R(P, RL, ("""	for i := 0; i < cnt; i++ {
		if err := r.skipOne(); err != nil {
			return err
		}
	}
	return nil""", """	for ; cnt > 0; cnt-- {
		if err := r.skipOne(); err != nil {
			return err
		}
	}
	return nil"""))
R(P, RL, ("	var header [9]byte\n	if _, err := io.ReadFull(r.reader, header[0:1]); err != nil {\n		return nil, err\n	}\n	tag := int(header[0])\n	switch {\n	case tag < 0xC0:\n		return nil", "	header := make([]byte, 9)\n	if _, err := io.ReadFull(r.reader, header[:1]); err != nil {\n		return nil, err\n	}\n	tag := int(header[0])\n	switch {\n	case tag < 0xC0:\n		return nil"))

# ---- C22 requests
P = "C22"
JC = "common/jsonrpc/client.go"
IC = "chain/icon/client/client.go"
EC = "chain/ethbr/client/client.go"
M(P, JC, ("	if resp.StatusCode != http.StatusOK {", "	if resp.StatusCode >= http.StatusInternalServerError {"))
M(P, JC, ("	if jrResp.Error != nil {\n		err", "	if jrResp.Error != nil && jrResp.Result == nil {\n		err"))
M(P, JC, ("				} else if jrResp != nil && jrResp.Error != nil {", "				} else {"))
M(P, JC, ("				if dErr := json.Unmarshal(hErr.Response(), &jrResp); dErr != nil {", "				if dErr := json.Unmarshal(hErr.Response(), &jrResp); dErr == nil && jrResp.Error == nil {\n					err = nil\n				} else if dErr != nil {"))
M(P, JC, ("		err = json.Unmarshal(rb, respPtr)\n		if err != nil {\n			return\n		}", "		_ = json.Unmarshal(rb, respPtr)"))
M(P, JC, ("		if mErr != nil {\n			err = mErr\n			return\n		}\n		jrReq.Params = json.RawMessage(b)", "		if mErr == nil {\n			jrReq.Params = json.RawMessage(b)\n		}"))
M(P, JC, ("	if respPtr != nil {\n		rb", "	if respPtr != nil && jrResp.Result != nil {\n		rb"))
M(P, IC, ("""	if _, err := c.Do("btp_getProof", p, &result)""", """	if _, err := c.Do("btp_getHeader", p, &result)"""))
M(P, IC, ("""	_, err := c.Do("icx_getDataByHash", p, &result)
	if err != nil {
		return nil, err
	}""", """	_, err := c.Do("icx_getDataByHash", p, &result)
	if err != nil && len(result) == 0 {
		return nil, nil
	}"""))
M(P, IC, ("""			Method: "getBTPLinkOffset",
			Params: BMCStatusParams{
				Target: dst.String(),""", """			Method: "getBTPLinkOffset",
			Params: BMCStatusParams{
				Target: src.String(),"""))
M(P, IC, ("		ToAddress: Address(src.Account()),\n		DataType:  \"call\",\n		Data: CallData{\n			Method: \"getBTPLinkNetworkId\"", "		ToAddress: Address(dst.Account()),\n		DataType:  \"call\",\n		Data: CallData{\n			Method: \"getBTPLinkNetworkId\""))
M(P, IC, ("""	if _, err := c.Do("icx_sendTransaction", p, &result); err != nil {
		return nil, err
	}
	return &result, nil""", """	if _, err := c.Do("icx_sendTransaction", p, &result); err != nil {
		return nil, err
	}
	return &p.TxHash, nil"""))
M(P, EC, ("	tr, err := c.ethClient.TransactionReceipt(ctx, hash)\n	if err != nil {\n		return nil, err\n	}", "	tr, err := c.ethClient.TransactionReceipt(ctx, hash)\n	if err != nil && err != ethereum.NotFound {\n		return nil, err\n	}"))
M(P, EC, ("	logs, err := c.ethClient.FilterLogs(ctx, fq)\n	if err != nil {\n		return nil, err\n	}\n	return logs, nil", "	logs, err := c.ethClient.FilterLogs(ctx, fq)\n	if err != nil {\n		c.log.Warn(err)\n	}\n	return logs, nil"))
M(P, EC, ("	return c.ethClient.HeaderByNumber(ctx, height)", "	return c.ethClient.HeaderByNumber(ctx, nil)"))
M(P, EC, ("		Value:    tx.Value(),\n		Data:     tx.Data(),\n	}\n\n	if", "		Value:    tx.GasPrice(),\n		Data:     tx.Data(),\n	}\n\n	if"))
M(P, EC, ("	if _, err = c.ethClient.CallContract(context.Background(), msg, nil); err == nil {\n		return \"\", nil\n	}", "	_, err = c.ethClient.CallContract(context.Background(), msg, nil)"))
M(P, EC, ("	tx, pending, err := c.ethClient.TransactionByHash(ctx, hash)\n	if err != nil {\n		return nil, pending, err\n	}\n	return tx, pending, err", "	tx, _, err := c.ethClient.TransactionByHash(ctx, hash)\n	if err != nil {\n		return nil, true, err\n	}\n	return tx, false, err"))

R(P, JC, ("""	if jrResp, err = decodeResponseBody(resp); err != nil {
		err = fmt.Errorf("fail to decode response body err:%+v, jsonrpcResp:%+v",
			err, resp)
		return
	}""", """	jrResp, err = decodeResponseBody(resp)
	if err != nil {
		return jrResp, fmt.Errorf("fail to decode response body err:%+v, jsonrpcResp:%+v", err, resp)
	}"""))
R(P, JC, ("""	if reqPtr != nil {
		b, mErr := json.Marshal(reqPtr)
		if mErr != nil {
			err = mErr
			return
		}
		jrReq.Params = json.RawMessage(b)
	}
	reqB, err := json.Marshal(jrReq)
	if err != nil {
		return nil, err
	}
	req, err := http.NewRequest("POST", c.Endpoint, bytes.NewReader(reqB))
	if err != nil {
		return
	}
	req.Header.Set("Content-Type", "application/json")
	req.Header.Set("Accept", "application/json")
	for k, v := range c.CustomHeader {
		req.Header.Set(k, v)
	}

	var resp""", """	if reqPtr != nil {
		if jrReq.Params, err = json.Marshal(reqPtr); err != nil {
			return nil, err
		}
	}
	reqB, err := json.Marshal(jrReq)
	if err != nil {
		return nil, err
	}
	req, err := c.newRequest(reqB)
	if err != nil {
		return nil, err
	}

	var resp"""), ("func (c *Client) Raw(", """func (c *Client) newRequest(body []byte) (*http.Request, error) {
	req, err := http.NewRequest(http.MethodPost, c.Endpoint, bytes.NewReader(body))
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", "application/json")
	req.Header.Set("Accept", "application/json")
	for k, v := range c.CustomHeader {
		req.Header.Set(k, v)
	}
	return req, nil
}

func (c *Client) Raw("""))
R(P, JC, ("""	if respPtr != nil {
		rb, mErr := json.Marshal(jrResp.Result)
		if mErr != nil {
			err = mErr
			return
		}
		err = json.Unmarshal(rb, respPtr)
		if err != nil {
			return
		}
	}
	return
}
""", """	if respPtr == nil {
		return
	}
	err = convert(jrResp.Result, respPtr)
	return
}

func convert(from, to interface{}) error {
	b, err := json.Marshal(from)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, to)
}
"""))
R(P, IC, ("""	var header string
	if _, err := c.Do("btp_getHeader", p, &header); err != nil {
		return "", err
	}
	return header, nil""", """	return c.getString("btp_getHeader", p)"""), ("""	var result string
	if _, err := c.Do("btp_getProof", p, &result); err != nil {
		return "", err
	}
	return result, nil""", """	return c.getString("btp_getProof", p)"""), ("func (c *Client) GetBTPMessage(", """func (c *Client) getString(method string, p interface{}) (result string, err error) {
	_, err = c.Do(method, p, &result)
	if err != nil {
		result = ""
	}
	return
}

func (c *Client) GetBTPMessage("""))
R(P, IC, ("	p := &CallParam{\n		ToAddress: Address(src.Account()),\n		DataType:  \"call\",\n		Data: CallData{\n			Method: \"getBTPLinkOffset\",\n			Params: BMCStatusParams{\n				Target: dst.String(),\n			},\n		},\n	}\n	var ret HexInt\n	if err = c.Call(p, &ret); err != nil {\n		return\n	}\n	return ret.Value()", "	return c.linkInt(\"getBTPLinkOffset\", src, dst)"), ("func (c *Client) GetBTPHeader(", """func (c *Client) linkInt(method string, src, dst types.BtpAddress) (int64, error) {
	p := &CallParam{
		ToAddress: Address(src.Account()),
		DataType:  "call",
		Data: CallData{
			Method: method,
			Params: BMCStatusParams{
				Target: dst.String(),
			},
		},
	}
	ret := new(HexInt)
	if err := c.Call(p, ret); err != nil {
		return 0, err
	}
	return ret.Value()
}

func (c *Client) GetBTPHeader("""))
R(P, EC, ("	tr, err := c.ethClient.TransactionReceipt(ctx, hash)\n	if err != nil {\n		return nil, err\n	}\n	return tr, nil", "	return c.ethClient.TransactionReceipt(ctx, hash)"))
R(P, EC, ("	ctx, cancel := context.WithTimeout(context.Background(), DefaultTimeout)\n	defer cancel()\n	return c.ethClient.BlockNumber(ctx)", "	ctx, cancel := timeout()\n	defer cancel()\n	n, err := c.ethClient.BlockNumber(ctx)\n	if err != nil {\n		return 0, err\n	}\n	return n, nil"), ("// Poll deprecated", "func timeout() (context.Context, context.CancelFunc) {\n	return context.WithTimeout(context.Background(), DefaultTimeout)\n}\n\n// Poll deprecated"))
R(P, EC, ("	msg := ethereum.CallMsg{\n		From:     from,\n		To:       tx.To(),\n		Gas:      tx.Gas(),\n		GasPrice: tx.GasPrice(),\n		Value:    tx.Value(),\n		Data:     tx.Data(),\n	}\n", "	msg := callOf(tx)\n	msg.From = from\n"), ("func NewClient(", "func callOf(tx *types.Transaction) ethereum.CallMsg {\n	return ethereum.CallMsg{\n		To:       tx.To(),\n		Gas:      tx.Gas(),\n		GasPrice: tx.GasPrice(),\n		Value:    tx.Value(),\n		Data:     tx.Data(),\n	}\n}\n\nfunc NewClient("))

# --- robustness round: link.go refactorings
P="C10,C01,C02"
R(P, lk, ("rm.bls.Verifier.Height <= bls.Verifier.Height && rm.bls.RxSeq <= bls.RxSeq", "covered(rm.bls.Verifier.Height, rm.bls.RxSeq, bls)"), ("rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq", "covered(rs.Height(), rs.Seq(), bls)"), ("func (l *Link) clearRelayMessage(", "func covered(height, seq int64, bls *types.BMCLinkStatus) bool {\n	return height <= bls.Verifier.Height && seq <= bls.RxSeq\n}\n\nfunc (l *Link) clearRelayMessage("))
R(P, lk, ("rm.bls.Verifier.Height <= bls.Verifier.Height && rm.bls.RxSeq <= bls.RxSeq", "rm.covered(bls)"), ("func (l *Link) clearRelayMessage(", "func (r *relayMessage) covered(bls *types.BMCLinkStatus) bool {\n	if r.bls.Verifier.Height > bls.Verifier.Height {\n		return false\n	}\n	return r.bls.RxSeq <= bls.RxSeq\n}\n\nfunc (l *Link) clearRelayMessage("))
R(P, lk, ("""				l.rmsMtx.Lock()
				once.Do(func() {
					err = l.checkStatus(bls)
				})
				l.rss = append(l.rss, rs)
				if err == nil {
					err = l.BuildRelayMessage(bls)
				}
				l.rmsMtx.Unlock()
				if err != nil {
					errCh <- err
					return
				}
""", """				if err := l.onReceive(rs, bls, once); err != nil {
					errCh <- err
					return
				}
"""), ("func (l *Link) senderChannel(", """func (l *Link) onReceive(rs ReceiveStatus, bls *types.BMCLinkStatus, once *sync.Once) (err error) {
	l.rmsMtx.Lock()
	defer l.rmsMtx.Unlock()
	once.Do(func() {
		err = l.checkStatus(bls)
	})
	l.rss = append(l.rss, rs)
	if err != nil {
		return err
	}
	return l.BuildRelayMessage(bls)
}

func (l *Link) senderChannel("""))
R(P, lk, ("""				switch t := sc.(type) {
				case *types.RelayResult:
					err := l.result(t)
					errCh <- err
				case *types.BMCLinkStatus:
					l.rmsMtx.Lock()
					l.clearRelayMessage(t)
					l.clearReceiveStatus(t)
					l.rmsMtx.Unlock()
				default:
					//TODO exception
				}
""", """				l.onSenderMessage(sc, errCh)
"""), ("func (l *Link) clearRelayMessage(", """func (l *Link) onSenderMessage(sc interface{}, errCh chan error) {
	switch t := sc.(type) {
	case *types.RelayResult:
		errCh <- l.result(t)
	case *types.BMCLinkStatus:
		l.rmsMtx.Lock()
		defer l.rmsMtx.Unlock()
		l.clearRelayMessage(t)
		l.clearReceiveStatus(t)
	}
}

func (l *Link) clearRelayMessage("""))
R(P, lk, ("""				switch t := sc.(type) {
				case *types.RelayResult:
					err := l.result(t)
					errCh <- err
				case *types.BMCLinkStatus:
					l.rmsMtx.Lock()
					l.clearRelayMessage(t)
					l.clearReceiveStatus(t)
					l.rmsMtx.Unlock()
				default:
					//TODO exception
				}
""", """				if rr, ok := sc.(*types.RelayResult); ok {
					errCh <- l.result(rr)
					continue
				}
				if st, ok := sc.(*types.BMCLinkStatus); ok {
					l.updated(st)
				}
"""), ("func (l *Link) clearRelayMessage(", """func (l *Link) updated(bls *types.BMCLinkStatus) {
	l.rmsMtx.Lock()
	l.clearReceiveStatus(bls)
	l.clearRelayMessage(bls)
	l.rmsMtx.Unlock()
}

func (l *Link) clearRelayMessage("""))
R(P, lk, ("""		m, err := l.r.BuildRelayMessage(rmi)
		if err != nil {
			return nil, err
		}

		rm := &relayMessage{
			id:       rand.Int(),
			bls:      bls,
			bpHeight: l.r.GetHeightForSeq(bls.RxSeq),
			message:  m,
			rmis:     rmi,
		}
		rms = append(rms, rm)
""", """		rm, err := l.newRelayMessage(bls, rmi)
		if err != nil {
			return nil, err
		}
		rms = append(rms, rm)
"""), ("func (l *Link) removeRelayMessage(", """func (l *Link) newRelayMessage(bls *types.BMCLinkStatus, items []RelayMessageItem) (*relayMessage, error) {
	m, err := l.r.BuildRelayMessage(items)
	if err != nil {
		return nil, err
	}
	rm := new(relayMessage)
	rm.id = rand.Int()
	rm.bls = bls
	rm.bpHeight = l.r.GetHeightForSeq(bls.RxSeq)
	rm.message = m
	rm.rmis = items
	return rm, nil
}

func (l *Link) removeRelayMessage("""))
R(P, lk, ("""	for _, rs := range l.rss {
		if rs.Height() == bls.Verifier.Height {
			return rs
		}
	}
	return nil
""", """	return l.searchReceiveStatusForHeight(bls.Verifier.Height)
"""))
R(P, lk, ("""	index := -1
	for i, rm := range l.rms {
		if rm.id == id {
			index = i
		}
	}
	if index < 0 {
		return
	}
""", """	index := l.indexOf(id)
	if index < 0 {
		return
	}
"""), ("func (l *Link) removeRelayMessage(", """func (l *Link) indexOf(id int) int {
	for i := len(l.rms) - 1; i >= 0; i-- {
		if l.rms[i].id == id {
			return i
		}
	}
	return -1
}

func (l *Link) removeRelayMessage("""))
R(P, lk, ("""	if int64(l.s.TxSizeLimit()) < size {
		l.createRelayMessageItem()
		return true
	}
	return false
""", """	over := size > int64(l.s.TxSizeLimit())
	if over {
		l.createRelayMessageItem()
	}
	return over
"""))
R(P, lk, ("""	if len(bus) != 0 {
		for _, bu := range bus {
			l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bu)
			l.rmi.size += bu.Len()
			err := bu.UpdateBMCLinkStatus(bls)
			if err != nil {
				return err
			}

			if err = l.buildProof(bls, bu); err != nil {
				return err
			}

			if err = l.sendRelayMessage(bls); err != nil {
				return err
			}
		}
	}
""", """	for _, bu := range bus {
		if err := l.handleBlockUpdate(bls, bu); err != nil {
			return err
		}
	}
"""), ("func (l *Link) sendRelayMessage(", """func (l *Link) handleBlockUpdate(bls *types.BMCLinkStatus, bu BlockUpdate) error {
	if err := l.addItem(bls, bu); err != nil {
		return err
	}
	if err := l.buildProof(bls, bu); err != nil {
		return err
	}
	return l.sendRelayMessage(bls)
}

func (l *Link) addItem(bls *types.BMCLinkStatus, item RelayMessageItem) error {
	last := len(l.rmi.rmis) - 1
	l.rmi.rmis[last] = append(l.rmi.rmis[last], item)
	l.rmi.size += item.Len()
	return item.UpdateBMCLinkStatus(bls)
}

func (l *Link) sendRelayMessage("""), ("""	if mp != nil {
		l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)
		l.rmi.size += mp.Len()
		if err := mp.UpdateBMCLinkStatus(bls); err != nil {
			return err
		}
	}
	return nil
""", """	if mp == nil {
		return nil
	}
	return l.addItem(bls, mp)
"""), ("""	if bf != nil {
		l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bf)
		l.rmi.size += bf.Len()
		if err := bf.UpdateBMCLinkStatus(bls); err != nil {
			return err
		}

	}
	return nil
""", """	if bf == nil {
		return nil
	}
	return l.addItem(bls, bf)
"""))
R(P, lk, ("""	for {
		//TODO refactoring
		if rs.Seq() <= bls.RxSeq {
			break
		}
		if l.is""", """	for rs.Seq() > bls.RxSeq {
		if l.is"""))
R(P, lk, ("""	for _, rm := range rms {
		l.rms = append(l.rms, rm)
		if _, err := l.s.Relay(rm); err != nil {
			return err
		}
	}
	return nil
""", """	l.rms = append(l.rms, rms...)
	for i := range rms {
		if _, err := l.s.Relay(rms[i]); err != nil {
			return err
		}
	}
	return nil
"""))
R(P, lk, ("""		if err != nil {
			return nil, err
		}
		if len(bus) != 0 {
			return bus, nil
		}
	}
}
""", """		if err != nil {
			return nil, err
		}
		if len(bus) == 0 {
			continue
		}
		return bus, nil
	}
}
"""))
R(P, lk, ("""	l.rmsMtx.RLock()
	s := l.s
	l.rmsMtx.RUnlock()
	s.Stop()
""", """	l.sender().Stop()
"""), ("func (l *Link) receiverChannel(", """func (l *Link) sender() types.Sender {
	l.rmsMtx.RLock()
	defer l.rmsMtx.RUnlock()
	return l.s
}

func (l *Link) receiverChannel("""))
R(P, lk, ("""	for {
		select {
		case err := <-errCh:
			if err != nil {
				return err
			}
		}
	}
	return nil
}
""", """	for err := range errCh {
		if err != nil {
			return err
		}
	}
	return nil
}
"""))
R(P, lk, ("""	for {
		select {
		case err := <-errCh:
			if err != nil {
				return err
			}
		}
	}
	return nil
}
""", """	for {
		if err := <-errCh; err != nil {
			return err
		}
	}
}
"""))
R(P, lk, ("""	for i, rm := range l.rms {
		if rm.bls.Verifier.Height <= bls.Verifier.Height && rm.bls.RxSeq <= bls.RxSeq {
			l.rms = l.rms[i+1:]
			break
		}
	}
""", """	for i := 0; i < len(l.rms); i++ {
		st := l.rms[i].BMCLinkStatus()
		if st.Verifier.Height > bls.Verifier.Height || st.RxSeq > bls.RxSeq {
			continue
		}
		l.rms = l.rms[i+1:]
		return
	}
"""))
R(P, lk, ("""		if h == bls.Verifier.Height {
			mp""", """		if h > bls.Verifier.Height {
			break
		}
		if h == bls.Verifier.Height {
			mp"""), ("""		} else if h < bls.Verifier.Height {
			err := l.buildProof(bls, nil)
			if err != nil {
				return err
			}
		} else {
			break
		}
""", """		}
		if err := l.buildProof(bls, nil); err != nil {
			return err
		}
"""))
R(P, lk, ("	rms := make([]*relayMessage, 0)\n	for _, rmi := range l.rmi.rmis {\n		if len(rmi) == 0 {\n			continue\n		}", "	var rms []*relayMessage\n	for i := range l.rmi.rmis {\n		rmi := l.rmi.rmis[i]\n		if len(rmi) < 1 {\n			continue\n		}"), ("	l.rmi.rmis = l.rmi.rmis[:0]\n	l.createRelayMessageItem()\n", "	l.resetItems()\n"), ("func (l *Link) createRelayMessageItem() {", "func (l *Link) resetItems() {\n	l.rmi.rmis = l.rmi.rmis[:0]\n	l.createRelayMessageItem()\n}\n\nfunc (l *Link) createRelayMessageItem() {"))

# --- robustness round: db refactorings
P="C17,C18,C01,C02"
LY=db+"layer_db.go"; MP=db+"map_db.go"; BG=db+"badger_db.go"; GL=db+"go_level_db.go"
R(P, LY, ("""	if bk.data != nil {
		if value, ok := bk.data[string(key)]; ok {
			return value, nil
		}
	}
	return bk.real.Get(key)
""", """	if value, ok := bk.pending(key); ok {
		return value, nil
	}
	return bk.real.Get(key)
"""), ("""	if bk.data != nil {
		if value, ok := bk.data[string(key)]; ok {
			return value != nil
		}
	}
	return bk.real.Has(key)
""", """	value, ok := bk.pending(key)
	if !ok {
		return bk.real.Has(key)
	}
	return value != nil
"""), ("func (bk *layerBucket) Get(", """// pending returns the change not flushed yet.
func (bk *layerBucket) pending(key []byte) ([]byte, bool) {
	value, ok := bk.data[string(key)]
	return value, ok
}

func (bk *layerBucket) Get("""))
R(P, LY, ("""	if bk.data != nil {
		v2 := make([]byte, len(value))
		copy(v2, value)
		bk.data[string(key)] = v2
		return nil
	} else {
		return bk.real.Set(key, value)
	}
""", """	if bk.data == nil {
		return bk.real.Set(key, value)
	}
	bk.data[string(key)] = clone(value)
	return nil
"""), ("""	if bk.data != nil {
		bk.data[string(key)] = nil
		return nil
	} else {
		return bk.real.Delete(key)
	}
""", """	if bk.data == nil {
		return bk.real.Delete(key)
	}
	bk.data[string(key)] = nil
	return nil
"""), ("func (bk *layerBucket) Get(", """func clone(bs []byte) []byte {
	cp := make([]byte, len(bs))
	copy(cp, bs)
	return cp
}

func (bk *layerBucket) Get("""))
R(P, LY, ("""	if write && bk.data != nil {
		for k, v := range bk.data {
			if v == nil {
				if err := bk.real.Delete([]byte(k)); err != nil {
					return err
				}
			} else {
				if err := bk.real.Set([]byte(k), v); err != nil {
					return err
				}
			}
		}
	}
""", """	if write {
		for k, v := range bk.data {
			if err := bk.apply([]byte(k), v); err != nil {
				return err
			}
		}
	}
"""), ("func (bk *layerBucket) Flush(", """func (bk *layerBucket) apply(key, value []byte) error {
	if value == nil {
		return bk.real.Delete(key)
	}
	return bk.real.Set(key, value)
}

func (bk *layerBucket) Flush("""))
R(P, LY, ("""	if write && bk.data != nil {
		for k, v := range bk.data {
			if v == nil {
				if err := bk.real.Delete([]byte(k)); err != nil {
					return err
				}
			} else {
				if err := bk.real.Set([]byte(k), v); err != nil {
					return err
				}
			}
		}
	}
	bk.data = nil
	return nil
""", """	if !write {
		bk.data = nil
		return nil
	}
	for k, v := range bk.data {
		var err error
		if v != nil {
			err = bk.real.Set([]byte(k), v)
		} else {
			err = bk.real.Delete([]byte(k))
		}
		if err != nil {
			return err
		}
	}
	bk.data = nil
	return nil
"""))
R(P, LY, ("""	if write && bk.data != nil {
		for k, v := range bk.data {
			if v == nil {
				if err := bk.real.Delete([]byte(k)); err != nil {
					return err
				}
			} else {
				if err := bk.real.Set([]byte(k), v); err != nil {
					return err
				}
			}
		}
	}
	bk.data = nil
	return nil
""", """	if write {
		if err := bk.writeAll(); err != nil {
			return err
		}
	}
	bk.data = nil
	return nil
"""), ("func (bk *layerBucket) Flush(", """// writeAll applies pending changes to the parent. The lock must be held.
func (bk *layerBucket) writeAll() error {
	for k, v := range bk.data {
		key := []byte(k)
		if v == nil {
			if err := bk.real.Delete(key); err != nil {
				return err
			}
			continue
		}
		if err := bk.real.Set(key, v); err != nil {
			return err
		}
	}
	return nil
}

func (bk *layerBucket) Flush("""))
R(P, LY, ("""	if bk, ok := ldb.buckets[string(id)]; ok {
		return bk, nil
	}

	realbk, err := ldb.real.GetBucket(id)
	if err != nil {
		return nil, err
	}
	if ldb.flushed {
		return realbk, nil
	}
	bk := &layerBucket{
		data: make(map[string][]byte),
		real: realbk,
	}
	ldb.buckets[string(id)] = bk
	return bk, nil
""", """	name := string(id)
	bk, ok := ldb.buckets[name]
	if ok {
		return bk, nil
	}
	realbk, err := ldb.real.GetBucket(id)
	if err != nil || ldb.flushed {
		return realbk, err
	}
	bk = newLayerBucket(realbk)
	ldb.buckets[name] = bk
	return bk, nil
"""), ("func (bk *layerBucket) Get(", """func newLayerBucket(real Bucket) *layerBucket {
	return &layerBucket{
		data: map[string][]byte{},
		real: real,
	}
}

func (bk *layerBucket) Get("""))
R(P, LY, ("""	for _, bk := range ldb.buckets {
		if err := bk.Flush(write); err != nil {
			return err
		}
	}
	ldb.flushed = true
	return nil
""", """	var err error
	for id := range ldb.buckets {
		err = ldb.buckets[id].Flush(write)
		if err != nil {
			break
		}
	}
	ldb.flushed = err == nil
	return err
"""))
R(P, LY, ("""	bk.lock.Lock()
	defer bk.lock.Unlock()

	if bk.data != nil {
		if value, ok := bk.data[string(key)]; ok {
			return value != nil
		}
	}
	return bk.real.Has(key)
""", """	bk.lock.Lock()
	defer bk.lock.Unlock()

	switch value, ok := bk.data[string(key)]; {
	case !ok:
		return bk.real.Has(key)
	case value == nil:
		return false
	default:
		return true
	}
"""))
R(P, MP, ("""	t.mutex.Lock()
	defer t.mutex.Unlock()
	v, ok := t.real[string(k)]
	if ok {
		bytes := []byte(v)
		if configLogMapDB {
			log.Printf("mapBucket[%s].Get(%x) -> [%x]", t.id, k, bytes)
		}
		return bytes, nil
	}
	if configLogMapDB {
		log.Printf("mapBucket[%s].Get(%x) -> FAIL", t.id, k)
	}
	return nil, nil
""", """	v, ok := t.lookup(k)
	if !ok {
		if configLogMapDB {
			log.Printf("mapBucket[%s].Get(%x) -> FAIL", t.id, k)
		}
		return nil, nil
	}
	bytes := []byte(v)
	if configLogMapDB {
		log.Printf("mapBucket[%s].Get(%x) -> [%x]", t.id, k, bytes)
	}
	return bytes, nil
"""), ("""	t.mutex.Lock()
	defer t.mutex.Unlock()
	_, ok := t.real[string(k)]
	if configLogMapDB {
		log.Printf("mapBucket[%s].Has(%x)""", """	_, ok := t.lookup(k)
	if configLogMapDB {
		log.Printf("mapBucket[%s].Has(%x)"""), ("func (t *mapBucket) Get(", """func (t *mapBucket) lookup(k []byte) (v string, ok bool) {
	t.mutex.Lock()
	defer t.mutex.Unlock()
	v, ok = t.real[string(k)]
	return
}

func (t *mapBucket) Get("""))
R(P, MP, ("""	if bk, ok := t.bks[id]; ok {
		return bk, nil
	}
	bk := &mapBucket{
		id:   fmt.Sprintf("%s:%s", t.name, id),
		real: make(map[string]string),
	}
	t.bks[id] = bk
	return bk, nil
""", """	bk := t.bks[id]
	if bk == nil {
		bk = new(mapBucket)
		bk.id = t.name + ":" + string(id)
		bk.real = map[string]string{}
		t.bks[id] = bk
	}
	return bk, nil
"""))
R(P, BG, ("""		item, err := txn.Get(ikey)
		if err != nil {
			if err == badger.ErrKeyNotFound {
				return nil
			}
			return err
		}
		value, err = item.ValueCopy([]byte{})
		return err
""", """		item, err := txn.Get(ikey)
		if err == badger.ErrKeyNotFound {
			return nil
		}
		if err != nil {
			return err
		}
		v, err := item.ValueCopy([]byte{})
		if err != nil {
			return err
		}
		value = v
		return nil
"""))
R(P, BG, ("""	ikey := internalKey(bucket.id, key)
	return bucket.db.Update(func(txn *badger.Txn) error {
		err := txn.Set(ikey, value)
		return err
	})
""", """	return bucket.update(key, func(txn *badger.Txn, ikey []byte) error {
		return txn.Set(ikey, value)
	})
"""), ("""	ikey := internalKey(bucket.id, key)
	return bucket.db.Update(func(txn *badger.Txn) error {
		return txn.Delete(ikey)
	})
""", """	return bucket.update(key, func(txn *badger.Txn, ikey []byte) error {
		return txn.Delete(ikey)
	})
"""), ("func (bucket *badgerBucket) Set(", """func (bucket *badgerBucket) update(key []byte, fn func(txn *badger.Txn, ikey []byte) error) error {
	ikey := internalKey(bucket.id, key)
	return bucket.db.Update(func(txn *badger.Txn) error {
		return fn(txn, ikey)
	})
}

func (bucket *badgerBucket) Set("""))
R(P, BG, ("""	ikey := internalKey(bucket.id, key)
	var value []byte
	err := bucket.db.View(func(txn *badger.Txn) error {
		item, err := txn.Get(ikey)
		if err != nil {
			if err == badger.ErrKeyNotFound {
				return nil
			}
			return err
		}
		value, err = item.ValueCopy([]byte{})
		return err
	})
	return value, err
""", """	var value []byte
	if err := bucket.db.View(func(txn *badger.Txn) error {
		item, err := txn.Get(bucket.key(key))
		switch err {
		case nil:
			value, err = item.ValueCopy([]byte{})
		case badger.ErrKeyNotFound:
			err = nil
		}
		return err
	}); err != nil {
		return nil, err
	}
	return value, nil
"""), ("func (bucket *badgerBucket) Get(", """func (bucket *badgerBucket) key(key []byte) []byte {
	return internalKey(bucket.id, key)
}

func (bucket *badgerBucket) Get("""))
R(P, BG, ("""	value, err := bucket.Get(key)
	if !(value != nil && err == nil) {
		return false
	}
	return true
""", """	if value, err := bucket.Get(key); err != nil || value == nil {
		return false
	}
	return true
"""))
R(P, GL, ("""	value, err := bucket.db.Get(internalKey(bucket.id, key), nil)
	if err == leveldb.ErrNotFound {
		return nil, nil
	} else {
		return value, err
	}
""", """	ikey := bucket.keyOf(key)
	value, err := bucket.db.Get(ikey, nil)
	if err != nil {
		if err == leveldb.ErrNotFound {
			err = nil
		}
		return nil, err
	}
	return value, nil
"""), ("bucket.db.Has(internalKey(bucket.id, key), nil)", "bucket.db.Has(bucket.keyOf(key), nil)"), ("bucket.db.Put(internalKey(bucket.id, key), value, nil)", "bucket.db.Put(bucket.keyOf(key), value, nil)"), ("bucket.db.Delete(internalKey(bucket.id, key), nil)", "bucket.db.Delete(bucket.keyOf(key), nil)"), ("func (bucket *goLevelBucket) Get(", """func (bucket *goLevelBucket) keyOf(key []byte) []byte {
	return internalKey(bucket.id, key)
}

func (bucket *goLevelBucket) Get("""))
R(P, GL, ("""	ret, err := bucket.db.Has(internalKey(bucket.id, key), nil)
	if err != nil {
		return false
	}
	return ret
""", """	ret, err := bucket.db.Has(internalKey(bucket.id, key), nil)
	return err == nil && ret
"""))
R(P, db+"bucket.go", ("""	buf := make([]byte, len(key)+len(id))
	copy(buf, id)
	copy(buf[len(id):], key)
	return buf
""", """	buf := make([]byte, 0, len(id)+len(key))
	buf = append(buf, id...)
	buf = append(buf, key...)
	return buf
"""))
R(P, db+"bucket.go", ("""	buf := make([]byte, len(key)+len(id))
	copy(buf, id)
	copy(buf[len(id):], key)
	return buf
""", """	buf := make([]byte, len(id)+len(key))
	n := copy(buf, id)
	copy(buf[n:], key)
	return buf
"""))

# --- robustness round: accumulator / merkle
P="C15,C16"
AC=mta+"accumulator.go"; EX=mta+"extaccumulator.go"; PF=mbt+"proof.go"; PT=mbt+"path.go"; TR=mbt+"tree.go"; MT="common/mpt/mpt.go"
R(P, AC, ("""	if n.state < stateHashed {
		bs := make([]byte, 2*HashSize)
		copy(bs, n.left.Hash())
		copy(bs[HashSize:], n.right.Hash())
		n.serialized = bs
		n.hashValue = crypto.SHA3Sum256(bs)
		n.state = stateHashed
	}
	return n.hashValue
""", """	if n.state >= stateHashed {
		return n.hashValue
	}
	n.serialized = concat(n.left.Hash(), n.right.Hash())
	n.hashValue = crypto.SHA3Sum256(n.serialized)
	n.state = stateHashed
	return n.hashValue
"""), ("""		if w.Direction == Left {
			copy(buf, w.HashValue)
			copy(buf[HashSize:], h)
		} else {
			copy(buf, h)
			copy(buf[HashSize:], w.HashValue)
		}
		h = crypto.SHA3Sum256(buf)
""", """		if w.Direction == Left {
			buf = concat(w.HashValue, h)
		} else {
			buf = concat(h, w.HashValue)
		}
		h = crypto.SHA3Sum256(buf)
"""), ("	buf := make([]byte, HashSize*2)\n", "	var buf []byte\n"), ("func (n *branchNode) Hash(", """func concat(l, r []byte) []byte {
	bs := make([]byte, 2*HashSize)
	copy(bs, l)
	copy(bs[HashSize:], r)
	return bs
}

func (n *branchNode) Hash("""))
R(P, AC, ("""	if err := n.left.Flush(); err != nil {
		return err
	}
	if err := n.right.Flush(); err != nil {
		return err
	}
	hv := n.Hash()
	if err := n.bucket.Set(hv, n.serialized); err != nil {
		return err
	}
	n.state = stateFlushed
	return nil
""", """	if err := n.flushChildren(); err != nil {
		return err
	}
	return n.store()
"""), ("func (n *branchNode) Flush(", """func (n *branchNode) flushChildren() error {
	if err := n.right.Flush(); err != nil {
		return err
	}
	return n.left.Flush()
}

func (n *branchNode) store() error {
	hv := n.Hash()
	err := n.bucket.Set(hv, n.serialized)
	if err == nil {
		n.state = stateFlushed
	}
	return err
}

func (n *branchNode) Flush("""))
R(P, AC, ("""	if n == nil {
		return nil
	}
	if n.state == stateFlushed {
		return nil
	}
	if err := n.left""", """	if n == nil || n.state >= stateFlushed {
		return nil
	}
	if err := n.left"""))
R(P, AC, ("""	roots := make([][]byte, len(a.roots))
	for i, r := range a.roots {
		if r != nil {
			if err := r.Flush(); err != nil {
				return err
			}
			roots[i] = r.Hash()
		}
	}

	var s serializedMTAccumulator
	s.Roots = roots
	s.Length.Value = a.length

	if bs, err := json.Marshal(&s); err != nil {
		return err
	} else {
		return a.Bucket.Set(a.KeyForState, bs)
	}
""", """	roots, err := a.flushRoots()
	if err != nil {
		return err
	}
	s := serializedMTAccumulator{Roots: roots}
	s.Length.Value = a.length

	bs, err := json.Marshal(&s)
	if err != nil {
		return err
	}
	return a.Bucket.Set(a.KeyForState, bs)
"""), ("func (a *Accumulator) Flush(", """// flushRoots stores every tree and returns the hashes of the roots.
func (a *Accumulator) flushRoots() ([][]byte, error) {
	hashes := make([][]byte, len(a.roots))
	for i, r := range a.roots {
		if r == nil {
			continue
		}
		if err := r.Flush(); err != nil {
			return nil, err
		}
		hashes[i] = r.Hash()
	}
	return hashes, nil
}

func (a *Accumulator) Flush("""), )
R(P, EX, ("""	rhs := make([][]byte, len(a.roots))
	for i, rn := range a.roots {
		if rn != nil {
			if err := rn.Flush(); err != nil {
				return err
			}
			rhs[i] = rn.Hash()
		}
	}

	s := serializedExtAccumulator{
		Height:     a.Height(),
		Roots:      rhs,
		Offset:     a.offset,
		LimitRoots: a.limitRoots,
		//SizeCache:  a.sizeCache,
	}
	b, err := codec.RLP.MarshalToBytes(&s)
	if err != nil {
		return err
	}
	err = a.Bucket.Set(a.KeyForState, b)
	if err != nil {
		return err
	}
	a.serialized = b
	return nil
""", """	rhs := make([][]byte, 0, len(a.roots))
	for _, rn := range a.roots {
		if rn == nil {
			rhs = append(rhs, nil)
			continue
		}
		if err := rn.Flush(); err != nil {
			return err
		}
		rhs = append(rhs, rn.Hash())
	}

	b, err := codec.RLP.MarshalToBytes(&serializedExtAccumulator{
		Height:     a.offset + a.length,
		Roots:      rhs,
		Offset:     a.offset,
		LimitRoots: a.limitRoots,
	})
	if err != nil {
		return err
	}
	if err = a.Bucket.Set(a.KeyForState, b); err == nil {
		a.serialized = b
	}
	return err
"""))
R(P, EX, ("""	a.length = s.Height - s.Offset
	a.serialized = b
	if a.offset < s.Offset {
		return errors.New("not support recover to lower offset")
	} else if a.offset > s.Offset {
		//TODO rebuild node
		//a.offset = s.Offset
		return errors.New("not support recover to higher offset")
	}
	return nil
""", """	a.length = s.Height - s.Offset
	a.serialized = b
	switch {
	case a.offset < s.Offset:
		return errors.New("not support recover to lower offset")
	case a.offset > s.Offset:
		return errors.New("not support recover to higher offset")
	default:
		return nil
	}
"""), ("""	a.roots = make([]Node, len(s.Roots))
	for i, hv := range s.Roots {
		if len(hv) == 0 {
			a.roots[i] = nil
		} else if len(hv) == HashSize {
			a.roots[i] = &hashNode{
				bucket:    a.Bucket,
				hashValue: hv,
			}
		} else {
			return errors.New("InvalidData")
		}
	}
""", """	roots, err := nodesOf(a.Bucket, s.Roots)
	a.roots = roots
	if err != nil {
		return err
	}
"""), ("func (a *ExtAccumulator) Recover(", """func nodesOf(bk db.Bucket, hashes [][]byte) ([]Node, error) {
	nodes := make([]Node, len(hashes))
	for i, hv := range hashes {
		switch len(hv) {
		case 0:
		case HashSize:
			nodes[i] = &hashNode{bucket: bk, hashValue: hv}
		default:
			return nodes, errors.New("InvalidData")
		}
	}
	return nodes, nil
}

func (a *ExtAccumulator) Recover("""))
R(P, AC, ("""	for i, hv := range s.Roots {
		if len(hv) == 0 {
			a.roots[i] = nil
		} else if len(hv) == HashSize {
			a.roots[i] = &hashNode{
				bucket:    a.Bucket,
				hashValue: hv,
			}
		} else {
			return errors.New("InvalidData")
		}
	}
	a.length = s.Length.Value
	return nil
""", """	for i := range s.Roots {
		hv := s.Roots[i]
		if len(hv) == 0 {
			continue
		}
		if len(hv) != HashSize {
			return errors.New("InvalidData")
		}
		n := &hashNode{bucket: a.Bucket}
		n.hashValue = hv
		a.roots[i] = n
	}
	a.length = s.Length.Value
	return nil
"""))
R(P, AC, ("""	bound := int64(1) << uint(depth-1)
	if idx < bound {
		n.left, w, err = n.left.WitnessFor(depth-1, idx, w)
		if err == nil {
			w = append(w, Witness{Right, n.right.Hash()})
		}
	} else {
		n.right, w, err = n.right.WitnessFor(depth-1, idx-bound, w)
		if err == nil {
			w = append(w, Witness{Left, n.left.Hash()})
		}
	}
	return n, w, err
""", """	bound := int64(1) << uint(depth-1)
	if idx >= bound {
		n.right, w, err = n.right.WitnessFor(depth-1, idx-bound, w)
		if err != nil {
			return n, w, err
		}
		return n, append(w, Witness{Left, n.left.Hash()}), nil
	}
	n.left, w, err = n.left.WitnessFor(depth-1, idx, w)
	if err != nil {
		return n, w, err
	}
	return n, append(w, Witness{Direction: Right, HashValue: n.right.Hash()}), nil
"""))
R(P, AC, ("""	root := a.roots[h]
	var rh []byte
	if root != nil {
		rh = root.Hash()
	}
	if len(rh) == 0 {
		a.roots[h] = n
		a.length += 1
		return w
	} else {
		w = append(w, Witness{Left, rh})
		a.roots[h] = nil
		b := &branchNode{
			state:      stateDirty,
			bucket:     a.Bucket,
			hashValue:  nil,
			serialized: nil,
			left:       root,
			right:      n,
		}
		return a.addNode(h+1, b, w)
	}
""", """	root := a.roots[h]
	var rh []byte
	if root != nil {
		rh = root.Hash()
	}
	if len(rh) == 0 {
		a.roots[h] = n
		a.length++
		return w
	}
	a.roots[h] = nil
	b := &branchNode{
		bucket: a.Bucket,
		left:   root,
		right:  n,
	}
	return a.addNode(h+1, b, append(w, Witness{Left, rh}))
"""))
R(P, AC, ("""	if h >= len(a.roots) {
		a.roots = append(a.roots, n)
		a.length += 1
		return w
	}
	root := a.roots[h]
	var rh []byte
	if root != nil {
		rh = root.Hash()
	}
	if len(rh) == 0 {
		a.roots[h] = n
		a.length += 1
		return w
	} else {
		w = append(w, Witness{Left, rh})
		a.roots[h] = nil
		b := &branchNode{
			state:      stateDirty,
			bucket:     a.Bucket,
			hashValue:  nil,
			serialized: nil,
			left:       root,
			right:      n,
		}
		return a.addNode(h+1, b, w)
	}
""", """	for ; h < len(a.roots); h++ {
		root := a.roots[h]
		var rh []byte
		if root != nil {
			rh = root.Hash()
		}
		if len(rh) == 0 {
			a.roots[h] = n
			a.length += 1
			return w
		}
		w = append(w, Witness{Left, rh})
		a.roots[h] = nil
		n = &branchNode{
			state:  stateDirty,
			bucket: a.Bucket,
			left:   root,
			right:  n,
		}
	}
	a.roots = append(a.roots, n)
	a.length += 1
	return w
"""))
R(P, AC, ("""	height := 0
	for _, w := range ws {
		if w.Direction == Left {
			copy(buf, w.HashValue)
			copy(buf[HashSize:], h)
		} else {
			copy(buf, h)
			copy(buf[HashSize:], w.HashValue)
		}
		h = crypto.SHA3Sum256(buf)
		height += 1
	}
	if height >= len(a.roots) {""", """	for _, w := range ws {
		left, right := h, w.HashValue
		if w.Direction == Left {
			left, right = right, left
		}
		copy(buf[:HashSize], left)
		copy(buf[HashSize:], right)
		h = crypto.SHA3Sum256(buf)
	}
	height := len(ws)
	if height >= len(a.roots) {"""))
R(P, AC, ("""	if !bytes.Equal(root.Hash(), h) {
		return errors.IllegalArgumentError.New("InvalidWitness not matched root")
	}
	return nil
}

func (a *Accumulator) VerifyWith""", """	if bytes.Equal(h, root.Hash()) {
		return nil
	}
	return errors.IllegalArgumentError.New("InvalidWitness not matched root")
}

func (a *Accumulator) VerifyWith"""), ("""		for i, w := range ws {
			nws[i] = w
		}
		return a.Verify(nws, h)
	} else {
		// acc: old, wit: new
		depth := 0
		for i := len(a.roots) - 1; i > 0; i-- {
			bitFlag := int64(1) << uint(i)
			if height < bitFlag {
				depth = i
				break
			}
			height -= bitFlag
		}
		return a.Verify(ws[:depth], h)
	}
""", """		copy(nws, ws)
		return a.Verify(nws, h)
	}
	// acc: old, wit: new
	depth := 0
	for i := len(a.roots) - 1; i > 0; i-- {
		bitFlag := int64(1) << uint(i)
		if height < bitFlag {
			depth = i
			break
		}
		height -= bitFlag
	}
	return a.Verify(ws[:depth], h)
"""))
R(P, AC, ("""	w := make([]Witness, len(hvs))
	for i, hv := range hvs {
		if idx%2 == 0 {
			w[i].Direction = Right
		} else {
			w[i].Direction = Left
		}
		w[i].HashValue = hv
		idx /= 2
	}
	return w
""", """	w := make([]Witness, 0, len(hvs))
	for _, hv := range hvs {
		d := Left
		if idx&1 == 0 {
			d = Right
		}
		w = append(w, Witness{d, hv})
		idx >>= 1
	}
	return w
"""))
R(P, AC, ("""	bs, err := n.bucket.Get(n.hashValue)
	if err != nil {
		return n, errors.Wrapf(err, "ResolveFailure(hash=%x)", n.hashValue)
	}

	if len(bs) != 2*HashSize {
		return n, errors.New("InvalidData")
	}
	return &branchNode{
		state:      stateFlushed,
		bucket:     n.bucket,
		hashValue:  n.hashValue,
		serialized: bs,
		left: &hashNode{
			bucket:    n.bucket,
			hashValue: bs[0:HashSize],
		},
		right: &hashNode{
			bucket:    n.bucket,
			hashValue: bs[HashSize:],
		},
	}, nil
""", """	bs, err := n.bucket.Get(n.hashValue)
	switch {
	case err != nil:
		return n, errors.Wrapf(err, "ResolveFailure(hash=%x)", n.hashValue)
	case len(bs) != 2*HashSize:
		return n, errors.New("InvalidData")
	}
	child := func(hv []byte) *hashNode {
		return &hashNode{bucket: n.bucket, hashValue: hv}
	}
	return &branchNode{
		state:      stateFlushed,
		bucket:     n.bucket,
		hashValue:  n.hashValue,
		serialized: bs,
		left:       child(bs[:HashSize]),
		right:      child(bs[HashSize:]),
	}, nil
"""))
R(P, AC, ("""	if n.state < stateFlushed {
		err := n.bucket.Set(n.Hash(), n.data)
		if err != nil {
			return err
		}
		n.state = stateFlushed
	}
	return nil
""", """	if n.state == stateFlushed {
		return nil
	}
	key := n.Hash()
	if err := n.bucket.Set(key, n.data); err != nil {
		return errors.Wrapf(err, "fail to store %x", key)
	}
	n.state = stateFlushed
	return nil
"""))
R(P, PF, ("""	maxNumChild := 1 << (n.level - levelBranch)
	if num > maxNumChild {
		l, r = n.r.proof(num - maxNumChild)
		l = append(l, ProofNode{NumOfLeaf: n.l.numOfLeaf, Value: n.l.h})
	} else {
		l, r = n.l.proof(num)
		r = append(r, ProofNode{NumOfLeaf: n.r.numOfLeaf, Value: n.r.h})
	}
	return
""", """	maxNumChild := n.maxNumChild()
	if num <= maxNumChild {
		l, r = n.l.proof(num)
		return l, append(r, n.r.proofNode())
	}
	l, r = n.r.proof(num - maxNumChild)
	return append(l, n.l.proofNode()), r
"""), ("func (n *node) proof(", """func (n *node) maxNumChild() int {
	return 1 << (n.level - levelBranch)
}

func (n *node) proofNode() ProofNode {
	return ProofNode{NumOfLeaf: n.numOfLeaf, Value: n.h}
}

func (n *node) proof("""))
R(P, PF, ("""	p := &MerkleBinaryTreeProof{
		Contents:     m.contents[begin-1 : end],
		ProofInLeft:  make([]ProofNode, len(l)),
		ProofInRight: r,
		hashFunc:     m.hashFunc,
	}

	j := len(l) - 1
	for _, n := range l {
		p.ProofInLeft[j].NumOfLeaf = n.NumOfLeaf
		p.ProofInLeft[j].Value = n.Value
		j--
	}
	return p, nil
""", """	return &MerkleBinaryTreeProof{
		Contents:     m.contents[begin-1 : end],
		ProofInLeft:  reversed(l),
		ProofInRight: r,
		hashFunc:     m.hashFunc,
	}, nil
"""), ("func (p *MerkleBinaryTreeProof) Root(", """func reversed(l []ProofNode) []ProofNode {
	out := make([]ProofNode, len(l))
	for i, n := range l {
		out[len(l)-1-i] = n
	}
	return out
}

func (p *MerkleBinaryTreeProof) Root("""))
R(P, PF, ("""	for _, n := range p.ProofInLeft {
		r = r.lazyAdd(n.NumOfLeaf, n.Value)
		left += n.NumOfLeaf
	}
	for _, c := range p.Contents {
		r = r.lazyAdd(1, p.hashFunc(c))
		total++
	}
	for _, n := range p.ProofInRight {
		r = r.lazyAdd(n.NumOfLeaf, n.Value)
		total += n.NumOfLeaf
	}
	r.ensureHash(false)
	h = r.h
	total = left + total
	if r.numOfLeaf != total {
		err = fmt.Errorf("total doesn't match sum: %d, node: %d", total, r.numOfLeaf)
		return
	}
	if err = r.verify(); err != nil {
		return
	}
	return
""", """	for _, n := range p.ProofInLeft {
		r = r.lazyAdd(n.NumOfLeaf, n.Value)
		left += n.NumOfLeaf
	}
	total = left
	for i := range p.Contents {
		r = r.lazyAdd(1, p.hashFunc(p.Contents[i]))
	}
	total += len(p.Contents)
	for _, n := range p.ProofInRight {
		r = r.lazyAdd(n.NumOfLeaf, n.Value)
		total += n.NumOfLeaf
	}
	r.ensureHash(false)
	h = r.h
	if total != r.numOfLeaf {
		err = fmt.Errorf("total doesn't match sum: %d, node: %d", total, r.numOfLeaf)
	} else {
		err = r.verify()
	}
	return
"""))
R(P, PF, ("""		if err := n.l.verify(); err != nil {
			return err
		} else if n.level > levelBranch {
			if v := 1 << (n.l.level - levelLeaf); v != n.l.numOfLeaf {
				return fmt.Errorf("invalid numOfLeaf, expected: %d, value: %d", v, n.l.numOfLeaf)
			}
		}
		if err := n.r.verify(); err != nil {
			return err
		}
	}
	return nil
""", """		if err := n.l.verify(); err != nil {
			return err
		}
		if n.level > levelBranch {
			v := 1 << (n.l.level - levelLeaf)
			if n.l.numOfLeaf != v {
				return fmt.Errorf("invalid numOfLeaf, expected: %d, value: %d", v, n.l.numOfLeaf)
			}
		}
		return n.r.verify()
	}
	return nil
"""))
R(P, TR, ("""		if n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf {
			n.r = n.r.add(h)
			n.numOfLeaf++
			n.h = n.hashFunc(n.l.h, n.r.h)
		} else {
			r := &node{
				l: n,
				r: &node{
					h:         h,
					level:     levelLeaf,
					numOfLeaf: 1,
					hashFunc:  n.hashFunc,
				},
				level:    n.level + 1,
				hashFunc: n.hashFunc,
			}
			r.numOfLeaf = n.numOfLeaf + 1
			r.h = n.hashFunc(n.h, h)
			return r
		}
""", """		if n.l == nil || n.l.numOfLeaf == n.r.numOfLeaf {
			r := n.grow(h, levelLeaf, 1)
			r.h = n.hashFunc(n.h, h)
			return r
		}
		n.r = n.r.add(h)
		n.numOfLeaf++
		n.h = n.hashFunc(n.l.h, n.r.h)
"""), ("""			r := &node{
				l: n,
				r: &node{
					h:         h,
					level:     NumberToLevel(numOfLeaf),
					numOfLeaf: numOfLeaf,
					hashFunc:  n.hashFunc,
				},
				level:    n.level + 1,
				hashFunc: n.hashFunc,
			}
			r.numOfLeaf = n.numOfLeaf + numOfLeaf
			return r
""", """			return n.grow(h, NumberToLevel(numOfLeaf), numOfLeaf)
"""), ("func (n *node) add(", """// grow makes a new root with n on the left.
func (n *node) grow(h []byte, level, numOfLeaf int) *node {
	right := &node{
		h:         h,
		level:     level,
		numOfLeaf: numOfLeaf,
		hashFunc:  n.hashFunc,
	}
	return &node{
		l:         n,
		r:         right,
		level:     n.level + 1,
		numOfLeaf: n.numOfLeaf + numOfLeaf,
		hashFunc:  n.hashFunc,
	}
}

func (n *node) add("""))
R(P, TR, ("""	if n.level < levelBranch {
		return
	}
	if force || len(n.h) == 0 {
		if n.l != nil {
			n.l.ensureHash(force)
		}
		if n.r != nil {
			n.r.ensureHash(force)
		}
		n.h = n.hashFunc(n.l.h, n.r.h)
	}
""", """	if n.level < levelBranch || !force && len(n.h) > 0 {
		return
	}
	for _, c := range []*node{n.l, n.r} {
		if c != nil {
			c.ensureHash(force)
		}
	}
	n.h = n.hashFunc(n.l.h, n.r.h)
"""))
R(P, PT, ("""	h := p.hashFunc(p.Content)
	for _, n := range p.Path {
		if n.Right {
			h = p.hashFunc(h, n.Value)
		} else {
			h = p.hashFunc(n.Value, h)
		}
	}
	return h
""", """	h := p.hashFunc(p.Content)
	for i := range p.Path {
		h = p.Path[i].fold(p.hashFunc, h)
	}
	return h
"""), ("func (p *MerkleBinaryTreePath) Root(", """func (pn PathNode) fold(hashFunc HashFunc, h []byte) []byte {
	if !pn.Right {
		return hashFunc(pn.Value, h)
	}
	return hashFunc(h, pn.Value)
}

func (p *MerkleBinaryTreePath) Root("""))
R(P, PT, ("""		if n.Dir == DirRight {
			h = hashFunc(h, n.Value)
		} else {
			h = hashFunc(n.Value, h)
		}
""", """		switch n.Dir {
		case DirRight:
			h = hashFunc(h, n.Value)
		default:
			h = hashFunc(n.Value, h)
		}
"""))
R(P, PT, ("""	p := &MerkleBinaryTreePath{hashFunc: m.hashFunc}
	p.Content = m.contents[num-1]
	p.Path = m.root.path(num)
	return p, nil
""", """	content, err := m.Get(num)
	if err != nil {
		return nil, err
	}
	return &MerkleBinaryTreePath{
		Content:  content,
		Path:     m.root.path(num),
		hashFunc: m.hashFunc,
	}, nil
"""), ("""	if num < 1 || num > m.Len() {
		return nil, OutOfRange
	}
	content""", "	content"))
R(P, MT, ("""Loop:
	for i := 0; i < len(bl); i++ {
		mn := mp.Nodes[i]
		if mn.Header != nil {
			if !mn.Header.IsLeaf() {
				ml := mn.Link[0]
				if !bytes.Equal(ml.Hash, mp.Hashes[i+1]) {
					return nil, fmt.Errorf("invalid link[%d] hash[%d]", i, i+1)
				}
				ml.ptr = &mp.Nodes[i+1]
			}
		} else {
			for _, ml := range mn.Link {
				if len(ml.Hash) > 0 && bytes.Equal(ml.Hash, mp.Hashes[i+1]) {
					ml.ptr = &mp.Nodes[i+1]
					continue Loop
				}
			}
			return nil, fmt.Errorf("invalid branch[%d], not found node hash:%x", i, mp.Hashes[i+1])
		}
	}
	return mp, nil
""", """	for i := range mp.Nodes {
		if err := mp.link(i); err != nil {
			return nil, err
		}
	}
	return mp, nil
"""), ("func NewMptProof(", """// link connects the node with its successor.
func (mp *MptProof) link(i int) error {
	mn := mp.Nodes[i]
	if mn.Header != nil && mn.Header.IsLeaf() {
		return nil
	}
	next := mp.Hashes[i+1]
	if mn.Header != nil {
		ml := mn.Link[0]
		if !bytes.Equal(ml.Hash, next) {
			return fmt.Errorf("invalid link[%d] hash[%d]", i, i+1)
		}
		ml.ptr = &mp.Nodes[i+1]
		return nil
	}
	for _, ml := range mn.Link {
		if len(ml.Hash) > 0 && bytes.Equal(ml.Hash, next) {
			ml.ptr = &mp.Nodes[i+1]
			return nil
		}
	}
	return fmt.Errorf("invalid branch[%d], not found node hash:%x", i, next)
}

func NewMptProof("""))
R(P, TR, ("""	m := &MerkleBinaryTree{contents: contents, hashFunc: hashFunc}
	if len(contents) > 0 {
		m.root = &node{hashFunc: hashFunc}
		for _, c := range contents {
			if c == nil {
				return nil, InvalidContent
			}
			m.root = m.root.lazyAdd(1, hashFunc(c))
		}
		m.root.ensureHash(false)
	} else {
		m.contents = make([][]byte, 0)
	}
	return m, nil
""", """	if len(contents) == 0 {
		return &MerkleBinaryTree{contents: make([][]byte, 0), hashFunc: hashFunc}, nil
	}
	root := &node{hashFunc: hashFunc}
	for _, c := range contents {
		if c == nil {
			return nil, InvalidContent
		}
		root = root.lazyAdd(1, hashFunc(c))
	}
	root.ensureHash(false)
	return &MerkleBinaryTree{root: root, contents: contents, hashFunc: hashFunc}, nil
"""))
R(P, "common/crypto/hash.go", ("	d := sha3.Sum256(m)\n	return d[:]", "	h := sha3.New256()\n	h.Write(m)\n	return h.Sum(nil)"))

# --- robustness round: crypto / wallet
P="C19,C07,C01,C02"
SG="common/crypto/signature.go"; KY="common/crypto/key.go"; AD="common/address.go"; KS="common/wallet/keystore.go"; WL="common/wallet/wallet.go"; WE="common/wallet/wallet_evm.go"
R(P, SG, ("	if len(hash) == 0 || len(hash) > HashLen || privKey == nil {\n		return nil, errors.New(\"Invalid arguments\")\n	}", "	if !validDigest(hash) || privKey == nil {\n		return nil, errors.New(\"Invalid arguments\")\n	}"), ("	if len(hash) == 0 || len(hash) > HashLen {\n		return nil, errors.New(\"message", "	if !validDigest(hash) {\n		return nil, errors.New(\"message"), ("	if len(msg) == 0 || len(msg) > HashLen || pubKey == nil {", "	if pubKey == nil || !validDigest(msg) {"), ("func NewSignature(", "func validDigest(d []byte) bool {\n	n := len(d)\n	return n > 0 && n <= HashLen\n}\n\nfunc NewSignature("))
R(P, SG, ("	globalLock.Lock()\n	defer globalLock.Unlock()\n\n	if len(hash) == 0 || len(hash) > HashLen || privKey == nil {\n		return nil, errors.New(\"Invalid arguments\")\n	}\n	return ParseSignature(secp256k1.Sign(hash, privKey.bytes))", "	if privKey == nil {\n		return nil, errors.New(\"Invalid arguments\")\n	}\n	if l := len(hash); l < 1 || l > HashLen {\n		return nil, errors.New(\"Invalid arguments\")\n	}\n	globalLock.Lock()\n	sig := secp256k1.Sign(hash, privKey.bytes)\n	globalLock.Unlock()\n	return ParseSignature(sig)"))
R(P, SG, ("	var s Signature\n	switch len(sig) {\n	case 0:\n		return nil, errors.New(\"sigature bytes are empty\")\n	case SignatureLenRawWithV:\n		s.bytes = sig\n		s.hasV = true\n	case SignatureLenRaw:\n		s.bytes = append(s.bytes, sig...)\n		s.bytes = append(s.bytes, 0x00) // no meaning\n		s.hasV = false\n	default:\n		return nil, errors.New(\"wrong raw signature format\")\n	}\n	return &s, nil", "	switch len(sig) {\n	case SignatureLenRawWithV:\n		return &Signature{bytes: sig, hasV: true}, nil\n	case SignatureLenRaw:\n		bs := make([]byte, SignatureLenRawWithV)\n		copy(bs, sig)\n		return &Signature{bytes: bs}, nil\n	case 0:\n		return nil, errors.New(\"sigature bytes are empty\")\n	}\n	return nil, errors.New(\"wrong raw signature format\")"))
R(P, SG, ("	if len(sig) != 65 {\n		return nil, errors.New(\"wrong raw signature format\")\n	}\n\n	var s Signature\n	s.bytes = append(s.bytes, sig[1:33]...)\n	s.bytes = append(s.bytes, sig[33:]...)\n	s.bytes = append(s.bytes, sig[0])\n	s.hasV = true\n	return &s, nil", "	if len(sig) != SignatureLenRawWithV {\n		return nil, errors.New(\"wrong raw signature format\")\n	}\n	rsv := make([]byte, 0, SignatureLenRawWithV)\n	rsv = append(rsv, sig[1:]...)\n	rsv = append(rsv, sig[0])\n	return &Signature{rsv, true}, nil"))
R(P, SG, ("	s, err := sig.SerializeRSV()\n	if err != nil {\n		return false\n	}\n	ret := secp256k1.VerifySignature(msg, s, pubKey.bytes)\n	return ret != 0", "	s, err := sig.SerializeRSV()\n	return err == nil && secp256k1.VerifySignature(msg, s, pubKey.bytes) != 0"))
R(P, SG, ("	s := make([]byte, SignatureLenRawWithV)\n	s[0] = sig.bytes[64]\n	copy(s[1:33], sig.bytes[:32])\n	copy(s[33:], sig.bytes[32:64])\n	return s, nil", "	vrs := make([]byte, 0, SignatureLenRawWithV)\n	vrs = append(vrs, sig.bytes[SignatureLenRaw])\n	vrs = append(vrs, sig.bytes[:SignatureLenRaw]...)\n	return vrs, nil"))
R(P, SG, ("	if !sig.HasV() {\n		return nil, errors.New(\"signature has no V value\")\n	}\n	if len(hash) == 0 || len(hash) > HashLen {\n		return nil, errors.New(\"message hash is illegal\")\n	}\n	s, err := sig.SerializeRSV()\n	if err != nil {\n		return nil, err\n	}\n	return ParsePublicKey(secp256k1.RecoverPubkey(hash[:], s))", "	s, err := sig.SerializeRSV()\n	if err != nil {\n		return nil, err\n	}\n	switch n := len(hash); {\n	case n == 0, n > HashLen:\n		return nil, errors.New(\"message hash is illegal\")\n	}\n	pk := secp256k1.RecoverPubkey(hash, s)\n	return ParsePublicKey(pk)"))
R(P, KY, ("	switch len(pubKey) {\n	case 0:\n		return nil, errors.New(\"public key bytes are empty\")\n	case PublicKeyLenCompressed:\n		return &PublicKey{pubKey}, nil\n	case PublicKeyLenUncompressed:\n		return &PublicKey{uncompToCompPublicKey(pubKey)}, nil\n	default:\n		return nil, errors.New(\"wrong format\")\n	}", "	n := len(pubKey)\n	if n == 0 {\n		return nil, errors.New(\"public key bytes are empty\")\n	}\n	if n == PublicKeyLenUncompressed {\n		pubKey = uncompToCompPublicKey(pubKey)\n	} else if n != PublicKeyLenCompressed {\n		return nil, errors.New(\"wrong format\")\n	}\n	return &PublicKey{bytes: pubKey}, nil"))
R(P, KY, ("	comp = make([]byte, PublicKeyLenCompressed)\n	// skip to check the validity of uncompressed key\n	format := publicKeyCompressed\n	if uncomp[64]&0x1 == 0x1 {\n		format |= 0x1\n	}\n	comp[0] = format\n	copy(comp[1:], uncomp[1:33])\n	return\n", "	comp = make([]byte, PublicKeyLenCompressed)\n	copy(comp, uncomp[:PublicKeyLenCompressed])\n	// skip to check the validity of uncompressed key\n	comp[0] = publicKeyCompressed\n	if last := uncomp[len(uncomp)-1]; last%2 == 1 {\n		comp[0] |= 0x1\n	}\n	return comp\n"))
R(P, KY, ("	pkBytes := secp256k1.PubkeyFromSeckey(key.bytes)\n	pk, err := ParsePublicKey(pkBytes)\n	if err != nil {\n		panic(err)\n	}\n	return pk", "	pk, err := ParsePublicKey(secp256k1.PubkeyFromSeckey(key.Bytes()))\n	if err == nil {\n		return pk\n	}\n	panic(err)"))
R(P, KY, ("	kb := make([]byte, PrivateKeyLen)\n	copy(kb, key.bytes)\n	return kb", "	return append(make([]byte, 0, PrivateKeyLen), key.bytes...)"), ("	if len(b) != PrivateKeyLen {\n		return nil, errors.New(\"InvalidKeyLength\")\n	}\n	b2 := make([]byte, len(b))\n	copy(b2, b)\n	return &PrivateKey{b2}, nil", "	if len(b) == PrivateKeyLen {\n		key := &PrivateKey{make([]byte, PrivateKeyLen)}\n		copy(key.bytes, b)\n		return key, nil\n	}\n	return nil, errors.New(\"InvalidKeyLength\")"))
R(P, AD, ("	switch {\n	case len(id) < AddressIDBytes:\n		*a = Address{}\n		copy(a[AddressIDBytes-len(id)+1:], id)\n	default:\n		copy(a[1:], id)\n	}\n	if ic {\n		a[0] = 1\n	} else {\n		a[0] = 0\n	}\n	return nil", "	var b Address\n	if n := len(id); n < AddressIDBytes {\n		copy(b[AddressBytes-n:], id)\n	} else {\n		copy(b[1:], id)\n	}\n	if ic {\n		b[0] = 1\n	}\n	*a = b\n	return nil"))
R(P, AD, ("	switch b[0] {\n	case 0:\n		return a.SetTypeAndID(false, b[1:])\n	case 1:\n		return a.SetTypeAndID(true, b[1:])\n	default:\n		return errors.ErrIllegalArgument\n	}", "	t, id := b[0], b[1:]\n	if t != 0 && t != 1 {\n		return errors.ErrIllegalArgument\n	}\n	return a.SetTypeAndID(t == 1, id)"))
R(P, AD, ("	var isContract = false\n	if len(s) >= 2 {\n		switch {\n		case s[0:2] == \"cx\":\n			isContract = true\n			s = s[2:]\n		case s[0:2] == \"hx\":\n			s = s[2:]\n		case s[0:2] == \"0x\":\n			s = s[2:]\n		}\n	}\n", "	isContract := strings.HasPrefix(s, \"cx\")\n	for _, p := range []string{\"cx\", \"hx\", \"0x\"} {\n		if strings.HasPrefix(s, p) {\n			s = s[len(p):]\n			break\n		}\n	}\n"), ("	\"reflect\"\n", "	\"reflect\"\n	\"strings\"\n"))
R(P, AD, ("	var isContract = false\n	if len(s) >= 2 {\n		switch {\n		case s[0:2] == \"cx\":\n			isContract = true\n			s = s[2:]\n		case s[0:2] == \"hx\":\n			s = s[2:]\n		case s[0:2] == \"0x\":\n			s = s[2:]\n		}\n	}\n", "	isContract, s := splitPrefix(s)\n"), ("func (a *Address) SetString(", "func splitPrefix(s string) (bool, string) {\n	if len(s) < 2 {\n		return false, s\n	}\n	switch s[:2] {\n	case \"cx\":\n		return true, s[2:]\n	case \"hx\", \"0x\":\n		return false, s[2:]\n	}\n	return false, s\n}\n\nfunc (a *Address) SetString("))
R(P, AD, ("	a2IsNil := a2 == nil || reflect.ValueOf(a2).IsNil()\n	if a2IsNil && a == nil {\n		return true\n	}\n	if a2IsNil || a == nil {\n		return false\n	}\n	return bytes.Equal(a[:], a2.Bytes())", "	if a == nil || a2 == nil {\n		return a == a2\n	}\n	return *a == *a2"), ("	\"bytes\"\n", ""), ("	\"reflect\"\n", ""))
R(P, AD, ("	if bs, err := d.DecodeBytes(); err != nil {\n		return err\n	} else {\n		return a.SetBytes(bs)\n	}", "	bs, err := d.DecodeBytes()\n	if err == nil {\n		err = a.SetBytes(bs)\n	}\n	return err"))
R(P, WL, ("	sig, err := crypto.NewSignature(data, w.skey)\n	if err != nil {\n		return nil, err\n	}\n	return sig.SerializeRSV()", "	if sig, err := crypto.NewSignature(data, w.skey); err != nil {\n		return nil, err\n	} else {\n		return sig.SerializeRSV()\n	}"), ("	sk, pk := crypto.GenerateKeyPair()\n	return &softwareWallet{\n		skey: sk,\n		pkey: pk,\n	}\n", "	w := &softwareWallet{}\n	w.skey, w.pkey = crypto.GenerateKeyPair()\n	return w\n"))
R(P, KS, ("	s := sha3.NewLegacyKeccak256()\n	s.Write(key[16:32])\n	s.Write(cipheredBytes)\n	mac := s.Sum([]byte{})\n	if !bytes.Equal(mac, ksData.Crypto.MAC.Bytes()) {", "	if mac := SHA3SumKeccak256(key[16:32], cipheredBytes); !bytes.Equal(ksData.Crypto.MAC.Bytes(), mac) {"))
R(P, KS, ("	ks.Crypto.MAC = SHA3SumKeccak256(key[16:32], cipherText)\n", "	ks.Crypto.MAC = macOf(key, cipherText)\n"), ("	s := sha3.NewLegacyKeccak256()\n	s.Write(key[16:32])\n	s.Write(cipheredBytes)\n	mac := s.Sum([]byte{})\n", "	mac := macOf(key, cipheredBytes)\n"), ("func EncryptKeyAsKeyStore(", "func macOf(key, cipherText []byte) []byte {\n	return SHA3SumKeccak256(key[16:32], cipherText)\n}\n\nfunc EncryptKeyAsKeyStore("))
R(P, KS, ("	block, err := aes.NewCipher(key[0:16])\n	if err != nil {\n		return nil, err\n	}\n\n	if len(cipherParams.IV) != block.BlockSize() {\n		return nil, errors.Errorf(\"InvalidCipherParams(iv=%s)\", cipherParams.IV)\n	}\n	secretBytes := make([]byte, len(cipheredBytes))\n\n	stream := cipher.NewCTR(block, cipherParams.IV.Bytes())\n	stream.XORKeyStream(secretBytes, cipheredBytes)\n", "	secretBytes, err := xorCTR(key[:16], cipherParams.IV, cipheredBytes)\n	if err != nil {\n		return nil, err\n	}\n"), ("func EncryptKeyAsKeyStore(", "func xorCTR(key, iv, in []byte) ([]byte, error) {\n	block, err := aes.NewCipher(key)\n	if err != nil {\n		return nil, err\n	}\n	if len(iv) != block.BlockSize() {\n		return nil, errors.Errorf(\"InvalidCipherParams(iv=%x)\", iv)\n	}\n	out := make([]byte, len(in))\n	cipher.NewCTR(block, iv).XORKeyStream(out, in)\n	return out, nil\n}\n\nfunc EncryptKeyAsKeyStore("))
R(P, KS, ("	var cipherParams AES128CTRParams\n	if err := json.Unmarshal(ksData.Crypto.CipherParams, &cipherParams); err != nil {\n		return nil, err\n	}\n\n	if ksData.Crypto.KDF != kdfScrypt {\n		return nil, errors.Errorf(\"UnsupportedKDF(kdf=%s)\", ksData.Crypto.KDF)\n	}\n", "	if kdf := ksData.Crypto.KDF; kdf != kdfScrypt {\n		return nil, errors.Errorf(\"UnsupportedKDF(kdf=%s)\", kdf)\n	}\n	cipherParams := new(AES128CTRParams)\n	if err := json.Unmarshal(ksData.Crypto.CipherParams, cipherParams); err != nil {\n		return nil, err\n	}\n"))
R(P, KS, ("	public := secret.PublicKey()\n	address := common.NewAccountAddressFromPublicKey(public)\n	if !address.Equal(&ksData.Address) {\n		return nil, fmt.Errorf(\"recovered address is mismatched, %s, expected:%s\",\n			address.String(), ksData.Address.String())\n	}\n	return secret, nil", "	if err := checkAddress(secret, &ksData.Address); err != nil {\n		return nil, err\n	}\n	return secret, nil"), ("func EncryptKeyAsKeyStore(", "func checkAddress(secret *crypto.PrivateKey, expected *common.Address) error {\n	address := common.NewAccountAddressFromPublicKey(secret.PublicKey())\n	if address.Equal(expected) {\n		return nil\n	}\n	return fmt.Errorf(\"recovered address is mismatched, %s, expected:%s\", address, expected)\n}\n\nfunc EncryptKeyAsKeyStore("))
R(P, KS, ("	switch ksdata.CoinType {\n	case coinTypeICON:\n		secret, err := DecryptICONKeyStore(ksdata, pw)\n		if err != nil {\n			return nil, err\n		}\n		return NewIcxWalletFromPrivateKey(secret)\n	case coinTypeEVM, \"\":\n		key, err := DecryptEvmKeyStore(data, pw)\n		if err != nil {\n			return nil, err\n		}\n		return NewEvmWalletFromPrivateKey(key)\n	default:\n		return nil, errors.Errorf(\"InvalidCoinType(coin=%s)\", ksdata.CoinType)\n	}\n", "	coin := ksdata.CoinType\n	if coin == coinTypeICON {\n		secret, err := DecryptICONKeyStore(ksdata, pw)\n		if err != nil {\n			return nil, err\n		}\n		return NewIcxWalletFromPrivateKey(secret)\n	}\n	if coin != coinTypeEVM && len(coin) > 0 {\n		return nil, errors.Errorf(\"InvalidCoinType(coin=%s)\", coin)\n	}\n	key, err := DecryptEvmKeyStore(data, pw)\n	if err != nil {\n		return nil, err\n	}\n	return NewEvmWalletFromPrivateKey(key)\n"))
R(P, KS, ("	if addr := common.NewAccountAddressFromPublicKey(s.PublicKey()); addr == nil {\n		return nil, errors.New(\"FailToMakeAddressForTheKey\")\n	} else {\n		if err := ks.Address.SetBytes(addr.Bytes()); err != nil {\n			return nil, err\n		}\n	}\n", "	addr := common.NewAccountAddressFromPublicKey(s.PublicKey())\n	if addr == nil {\n		return nil, errors.New(\"FailToMakeAddressForTheKey\")\n	}\n	ks.Address = *addr\n"), ("	salt := make([]byte, 8)\n	if _, err := io.ReadFull(rand.Reader, salt); err != nil {\n		return err\n	}\n	p.DKLen = 32\n	p.P = 1\n	p.R = 8\n	p.N = 1 << 16\n	p.Salt = salt\n	return nil", "	salt, err := randomBytes(8)\n	if err != nil {\n		return err\n	}\n	*p = ScryptParams{DKLen: 32, N: 1 << 16, R: 8, P: 1, Salt: salt}\n	return nil"), ("	c.IV = make([]byte, b.BlockSize())\n	_, err = io.ReadFull(rand.Reader, c.IV)\n	if err != nil {\n		return nil, err\n	}\n", "	if c.IV, err = randomBytes(b.BlockSize()); err != nil {\n		return nil, err\n	}\n"), ("func (p *ScryptParams) Init(", "func randomBytes(n int) ([]byte, error) {\n	bs := make([]byte, n)\n	if _, err := io.ReadFull(rand.Reader, bs); err != nil {\n		return nil, err\n	}\n	return bs, nil\n}\n\nfunc (p *ScryptParams) Init("))
R(P, KS, ("	ks.Crypto.Cipher = cipherAES128CTR\n	ks.Crypto.CipherParams, err = json.Marshal(&c)\n	if err != nil {\n		return nil, err\n	}\n	ks.Crypto.CipherText = cipherText\n	ks.Crypto.MAC = SHA3SumKeccak256(key[16:32], cipherText)\n	ks.Version = 3\n	ks.CoinType = coinTypeICON\n	ks.ID = uuid.Must(uuid.NewV4()).String()\n", "	cp, err := json.Marshal(&c)\n	if err != nil {\n		return nil, err\n	}\n	ks = KeyStoreData{\n		ID:       uuid.Must(uuid.NewV4()).String(),\n		Version:  3,\n		CoinType: coinTypeICON,\n		Crypto: CryptoData{\n			Cipher:       cipherAES128CTR,\n			CipherParams: cp,\n			CipherText:   cipherText,\n			KDF:          kdfScrypt,\n			KDFParams:    kp,\n			MAC:          SHA3SumKeccak256(key[16:32], cipherText),\n		},\n	}\n"), ("	ks.Crypto.KDF = kdfScrypt\n	ks.Crypto.KDFParams, err = json.Marshal(&k)\n", "	kp, err := json.Marshal(&k)\n"))

# --- whole-function rewrites: FN(file, head) is the original text of a function
def FN(file, head):
    s = open("/repo/" + file).read()
    i = s.index("func " + head)
    return s[i:s.index("\n}\n", i) + 3]

# --- robustness round: serialization and signing
P="C06,C13,C22"
R(P, sz, (FN(sz, "serializeString("), r"""const reserved = "\\{}[]."

func serializeString(s string) []byte {
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(reserved, s[i]) >= 0 {
			out = append(out, '\\')
		}
		out = append(out, s[i])
	}
	return out
}
"""), ("	\"strconv\"\n", "	\"strconv\"\n	\"strings\"\n"))
R(P, sz, (FN(sz, "serializeString("), r"""func serializeString(s string) []byte {
	buf := new(bytes.Buffer)
	for _, b := range []byte(s) {
		if needsEscape(b) {
			buf.WriteByte('\\')
		}
		buf.WriteByte(b)
	}
	return buf.Bytes()
}

func needsEscape(b byte) bool {
	switch b {
	case '\\', '{', '}', '[', ']', '.':
		return true
	}
	return false
}
"""))
R(P, sz, (FN(sz, "serializeString("), r"""func serializeString(s string) []byte {
	var buf bytes.Buffer
	for _, b := range []byte(s) {
		escape := b == '\\' || b == '{' || b == '}' || b == '[' || b == ']' || b == '.'
		if escape {
			buf.WriteByte('\\')
		}
		buf.WriteByte(b)
	}
	return buf.Bytes()
}
"""))
R(P, sz, (FN(sz, "serializeList("), r"""func serializeList(values []interface{}) ([]byte, *SerializeError) {
	var out []byte
	for i := range values {
		frag, err := serializeValue(values[i])
		if err != nil {
			return nil, &SerializeError{fmt.Sprintf("[%d].%s", i, err.position), err.msg}
		}
		if len(out) != 0 {
			out = append(out, '.')
		}
		out = append(out, frag...)
	}
	return out, nil
}
"""))
R(P, sz, (FN(sz, "serializeList("), r"""func serializeList(v_list []interface{}) ([]byte, *SerializeError) {
	buf := &bytes.Buffer{}
	for idx := 0; idx < len(v_list); idx++ {
		v := v_list[idx]
		frag, err := serializeValue(v)
		if err != nil {
			err.position = fmt.Sprintf("[%d].", idx) + err.position
			return nil, err
		}
		writeElement(buf, frag)
	}
	return buf.Bytes(), nil
}

func writeElement(buf *bytes.Buffer, frag []byte) {
	if buf.Len() > 0 {
		buf.WriteByte('.')
	}
	buf.Write(frag)
}
"""))
R(P, sz, (FN(sz, "serializeValue("), r"""func serializeValue(v interface{}) ([]byte, *SerializeError) {
	switch t := v.(type) {
	case nil:
		return []byte{'\\', '0'}, nil
	case map[string]interface{}:
		frag, err := serializeDict(t, nil, nil)
		if err != nil {
			return nil, err
		}
		return enclose('{', frag, '}'), nil
	case []interface{}:
		frag, err := serializeList(t)
		if err != nil {
			return nil, err
		}
		return enclose('[', frag, ']'), nil
	case string:
		return serializeString(t), nil
	case float64:
		return strconv.AppendInt(nil, int64(t), 10), nil
	default:
		return nil, &SerializeError{"", fmt.Sprintf("unknown type [%T]", v)}
	}
}

func enclose(open byte, body []byte, end byte) []byte {
	buf := bytes.NewBuffer(make([]byte, 0, len(body)+2))
	buf.WriteByte(open)
	buf.Write(body)
	buf.WriteByte(end)
	return buf.Bytes()
}
"""))
R(P, sz, (FN(sz, "serializeValue("), r"""func serializeValue(v interface{}) (out []byte, err *SerializeError) {
	if v == nil {
		return []byte(`\0`), nil
	}
	if d, ok := v.(map[string]interface{}); ok {
		if out, err = serializeDict(d, nil, nil); err != nil {
			return nil, err
		}
		return append(append([]byte{'{'}, out...), '}'), nil
	}
	if l, ok := v.([]interface{}); ok {
		if out, err = serializeList(l); err != nil {
			return nil, err
		}
		return append(append([]byte("["), out...), "]"...), nil
	}
	if s, ok := v.(string); ok {
		return serializeString(s), nil
	}
	if f, ok := v.(float64); ok {
		return []byte(fmt.Sprintf("%d", int64(f))), nil
	}
	return nil, &SerializeError{msg: fmt.Sprintf("unknown type [%T]", v)}
}
"""), ("	\"strconv\"\n", ""))
R(P, sz, (FN(sz, "serializeDict("), r"""func serializeDict(d map[string]interface{}, in map[string]bool, ex map[string]bool) ([]byte, *SerializeError) {
	var keys []string
	for k := range d {
		if in != nil && !in[k] || ex[k] {
			continue
		}
		keys = append(keys, k)
	}
	sort.Strings(keys)
	buf := new(bytes.Buffer)
	for i, k := range keys {
		frag, err := serializeValue(d[k])
		if err != nil {
			return nil, &SerializeError{"." + k + err.position, err.msg}
		}
		if i > 0 {
			buf.WriteByte('.')
		}
		buf.Write(serializeString(k))
		buf.WriteByte('.')
		buf.Write(frag)
	}
	return buf.Bytes(), nil
}
"""))
R(P, sz, (FN(sz, "serializeDict("), r"""func serializeDict(d map[string]interface{}, in map[string]bool, ex map[string]bool) ([]byte, *SerializeError) {
	keys := make([]string, len(d))
	n := 0
	for k := range d {
		keys[n] = k
		n++
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	var out []byte
	for _, k := range keys {
		skip := (in != nil && !in[k]) || (ex != nil && ex[k])
		if !skip {
			frag, err := serializeValue(d[k])
			if err != nil {
				return nil, &SerializeError{"." + k + err.position, err.msg}
			}
			if len(out) > 0 {
				out = append(out, '.')
			}
			out = append(out, serializeString(k)...)
			out = append(out, '.')
			out = append(out, frag...)
		}
	}
	return out, nil
}
"""))
R(P, sz, (FN(sz, "SerializeMap("), r"""func SerializeMap(d map[string]interface{}, i map[string]bool, e map[string]bool) ([]byte, error) {
	if value, err := serializeDict(d, i, e); err == nil {
		return value, nil
	} else {
		return nil, err
	}
}
"""), (FN(sz, "SerializeJSON("), r"""func SerializeJSON(s []byte, in map[string]bool, exclude map[string]bool) ([]byte, error) {
	params := make(map[string]interface{})
	if err := json.Unmarshal(s, &params); err != nil {
		return nil, err
	}
	return SerializeMap(params, in, exclude)
}
"""))
R(P, cl, (FN(cl, "(c *Client) SignTransaction("), r"""func (c *Client) SignTransaction(w Wallet, p *TransactionParam) error {
	p.Timestamp = NewHexInt(time.Now().UnixNano() / 1000)
	txHash, err := hashOf(p)
	if err != nil {
		return err
	}
	sig, err := w.Sign(txHash)
	if err != nil {
		return err
	}
	p.TxHash, p.Signature = NewHexBytes(txHash), base64.StdEncoding.EncodeToString(sig)
	return nil
}

func hashOf(p *TransactionParam) ([]byte, error) {
	js, err := json.Marshal(p)
	if err != nil {
		return nil, err
	}
	bs, err := SerializeJSON(js, nil, txSerializeExcludes)
	if err != nil {
		return nil, err
	}
	return crypto.SHA3Sum256(append([]byte("icx_sendTransaction."), bs...)), nil
}
"""))
R(P, cl, (FN(cl, "(c *Client) SignTransaction("), r"""const txMethodPrefix = "icx_sendTransaction."

func (c *Client) SignTransaction(w Wallet, p *TransactionParam) error {
	now := time.Now()
	p.Timestamp = NewHexInt(now.UnixNano() / int64(time.Microsecond))
	js, err := json.Marshal(p)
	if err != nil {
		return err
	}
	bs, err := SerializeJSON(js, nil, txSerializeExcludes)
	if err != nil {
		return err
	}
	msg := make([]byte, 0, len(txMethodPrefix)+len(bs))
	msg = append(msg, txMethodPrefix...)
	msg = append(msg, bs...)
	txHash := crypto.SHA3Sum256(msg)
	sig, err := w.Sign(txHash)
	if err != nil {
		return err
	}
	p.TxHash = NewHexBytes(txHash)
	p.Signature = base64.StdEncoding.EncodeToString(sig)
	return nil
}
"""))
R(P, cl, (FN(cl, "(c *Client) SignTransaction("), r"""func (c *Client) SignTransaction(w Wallet, p *TransactionParam) (err error) {
	p.Timestamp = NewHexInt(time.Now().UnixNano() / int64(time.Microsecond))
	var js, bs, sig []byte
	if js, err = json.Marshal(p); err != nil {
		return
	}
	if bs, err = SerializeJSON(js, nil, txSerializeExcludes); err != nil {
		return
	}
	buf := bytes.NewBufferString("icx_sendTransaction.")
	buf.Write(bs)
	txHash := crypto.SHA3Sum256(buf.Bytes())
	if sig, err = w.Sign(txHash); err != nil {
		return
	}
	p.TxHash = NewHexBytes(txHash)
	p.Signature = base64.StdEncoding.EncodeToString(sig)
	return
}
"""), ("import (\n", "import (\n	\"bytes\"\n"))
M(P, sz, ("	sort.Strings(keys)\n", "	sort.Slice(keys, func(i, j int) bool { return keys[i] > keys[j] })\n"))
M(P, sz, ("	sort.Strings(keys)\n", "	sort.Slice(keys, func(i, j int) bool { return len(keys[i]) < len(keys[j]) })\n"))
M(P, sz, ("	for k := range d {\n		keys = append(keys, k)\n	}", "	for k := range d {\n		if len(k) > 0 {\n			keys = append(keys, k)\n		}\n	}"))
M(P, sz, ("	for k := range d {\n		keys = append(keys, k)\n	}", "	for k := range d {\n		if ex[k] {\n			continue\n		}\n		if in[k] {\n			keys = append(keys, k)\n		}\n	}"), ("		if (in != nil && !in[k]) || (ex != nil && ex[k]) {\n			continue\n		}\n", ""))
M(P, sz, ("	data, err := serializeDict(params, in, exclude)", "	data, err := SerializeMap(params, exclude, in)"))
M(P, sz, ("strconv.FormatInt(int64(v_float64), 10)", "fmt.Sprintf(\"%x\", int64(v_float64))"), ("	\"strconv\"\n", ""))
M(P, sz, ("strconv.FormatInt(int64(v_float64), 10)", "fmt.Sprint(v_float64)"), ("	\"strconv\"\n", ""))
M(P, cl, ("	p.Timestamp = NewHexInt(time.Now().UnixNano() / int64(time.Microsecond))\n", "	if len(p.Timestamp) == 0 {\n		p.Timestamp = NewHexInt(time.Now().UnixNano() / int64(time.Microsecond))\n	}\n"))
M(P, cl, ("	p.Signature = base64.StdEncoding.EncodeToString(sig)\n	return nil\n}\nfunc (c *Client) SendTransaction(", "	p.Signature = base64.StdEncoding.EncodeToString(sig)\n	p.Timestamp = NewHexInt(time.Now().UnixNano() / int64(time.Microsecond))\n	return nil\n}\nfunc (c *Client) SendTransaction("))
M(P, cl, ("	bs = append([]byte(\"icx_sendTransaction.\"), bs...)\n	txHash := crypto.SHA3Sum256(bs)", "	buf := bytes.NewBuffer(bs)\n	buf.WriteString(\"icx_sendTransaction.\")\n	txHash := crypto.SHA3Sum256(buf.Bytes())"), ("import (\n", "import (\n	\"bytes\"\n"))

# --- robustness round: wiring
P="C09,C01,C02,C10"
R(P, lf, (FN(lf, "NewLink("), """func NewLink(cfg *Config, srcWallet wallet.Wallet, dstWallet wallet.Wallet, modLevels map[string]string) error {
	linkErrCh := make(chan error)

	front := cfg.Direction == FrontDirection || cfg.Direction == BothDirection
	reverse := cfg.Direction == ReverseDirection || cfg.Direction == BothDirection
	if !front && !reverse {
		return fmt.Errorf("Not supported direction:%s", cfg.Direction)
	}
	if front {
		if err := startLink(cfg, cfg.Config, srcWallet, dstWallet, modLevels, linkErrCh); err != nil {
			return err
		}
	}
	if reverse {
		rev := chain.Config{Src: cfg.Dst, Dst: cfg.Src}
		if err := startLink(cfg, rev, dstWallet, srcWallet, modLevels, linkErrCh); err != nil {
			return err
		}
	}
	for {
		if err := <-linkErrCh; err != nil {
			return err
		}
	}
}

func startLink(cfg *Config, lc chain.Config, own, signer wallet.Wallet, modLevels map[string]string, linkErrCh chan error) error {
	l := setLogger(cfg, own, modLevels)
	l.Debugln(cfg.FilePath, cfg.BaseDir)
	if cfg.BaseDir == "" {
		cfg.BaseDir = path.Join(".", ".btp2", lc.Src.Address.NetworkAddress())
	}
	_, err := newLink(lc.Src.Address.BlockChain(), lc, l, signer, linkErrCh)
	return err
}
"""))
R(P, lf, (FN(lf, "NewLink("), """func NewLink(cfg *Config, srcWallet wallet.Wallet, dstWallet wallet.Wallet, modLevels map[string]string) error {
	linkErrCh := make(chan error)
	reverseCfg := chain.Config{Src: cfg.Dst, Dst: cfg.Src}

	run := func(c chain.Config, own, other wallet.Wallet) error {
		l := setLogger(cfg, own, modLevels)
		l.Debugln(cfg.FilePath, cfg.BaseDir)
		if cfg.BaseDir == "" {
			cfg.BaseDir = path.Join(".", ".btp2", c.Src.Address.NetworkAddress())
		}
		_, err := newLink(c.Src.Address.BlockChain(), c, l, other, linkErrCh)
		return err
	}

	var err error
	switch cfg.Direction {
	case FrontDirection:
		err = run(cfg.Config, srcWallet, dstWallet)
	case ReverseDirection:
		err = run(reverseCfg, dstWallet, srcWallet)
	case BothDirection:
		if err = run(cfg.Config, srcWallet, dstWallet); err == nil {
			err = run(reverseCfg, dstWallet, srcWallet)
		}
	default:
		err = fmt.Errorf("Not supported direction:%s", cfg.Direction)
	}
	if err != nil {
		return err
	}
	for err == nil {
		err = <-linkErrCh
	}
	return err
}
"""))
R(P, lf, (FN(lf, "NewLink("), """func NewLink(cfg *Config, srcWallet wallet.Wallet, dstWallet wallet.Wallet, modLevels map[string]string) error {
	linkErrCh := make(chan error)
	switch cfg.Direction {
	case FrontDirection, ReverseDirection, BothDirection:
	default:
		return fmt.Errorf("Not supported direction:%s", cfg.Direction)
	}
	if cfg.Direction != ReverseDirection {
		srcLog := setLogger(cfg, srcWallet, modLevels)
		srcLog.Debugln(cfg.FilePath, cfg.BaseDir)
		setBaseDir(cfg, cfg.Src)
		if _, err := newLink(cfg.Src.Address.BlockChain(), cfg.Config, srcLog, dstWallet, linkErrCh); err != nil {
			return err
		}
	}
	if cfg.Direction != FrontDirection {
		var dstCfg chain.Config
		dstCfg.Src = cfg.Dst
		dstCfg.Dst = cfg.Src
		dstLog := setLogger(cfg, dstWallet, modLevels)
		dstLog.Debugln(cfg.FilePath, cfg.BaseDir)
		setBaseDir(cfg, cfg.Dst)
		if _, err := newLink(dstCfg.Src.Address.BlockChain(), dstCfg, dstLog, srcWallet, linkErrCh); err != nil {
			return err
		}
	}
	for err := range linkErrCh {
		if err != nil {
			return err
		}
	}
	return nil
}

func setBaseDir(cfg *Config, b chain.BaseConfig) {
	if cfg.BaseDir == "" {
		cfg.BaseDir = path.Join(".", ".btp2", b.Address.NetworkAddress())
	}
}
"""))
R(P, lf, (FN(lf, "newLink("), """func newLink(s string, cfg chain.Config, l log.Logger, w wallet.Wallet, linkErrCh chan error) (types.Link, error) {
	r := newReceiver(s, cfg, l)
	lk := link.NewLink(&cfg, r, l)
	go func(dst string) {
		sender := newSender(dst, cfg.Src, cfg.Dst, w, l)
		err := lk.Start(sender)
		linkErrCh <- err
	}(cfg.Dst.Address.BlockChain())
	return lk, nil
}
"""))
R(P, lf, (FN(lf, "newLink("), """func newLink(s string, cfg chain.Config, l log.Logger, w wallet.Wallet, linkErrCh chan error) (types.Link, error) {
	lk := link.NewLink(&cfg, newReceiver(s, cfg, l), l)
	src, dst := cfg.Src, cfg.Dst
	go startLink(lk, src, dst, w, l, linkErrCh)
	return lk, nil
}

func startLink(lk types.Link, src, dst chain.BaseConfig, w wallet.Wallet, l log.Logger, errCh chan<- error) {
	errCh <- lk.Start(newSender(dst.Address.BlockChain(), src, dst, w, l))
}
"""))
R(P, lf, (FN(lf, "newReceiver("), """func newReceiver(s string, cfg chain.Config, l log.Logger) link.Receiver {
	src, dst, endpoint := cfg.Src.Address, cfg.Dst.Address, cfg.Src.Endpoint
	switch {
	case s == ICON && cfg.Src.BridgeMode:
		return bridge.NewBridge(src, dst, endpoint, l)
	case s == ICON:
		return btp2.NewBTP2(src, dst, endpoint, l)
	case s == ETH, s == HARDHAT:
		return ethbr.NewEthBridge(src, dst, endpoint, l)
	}
	l.Fatalf("Not supported for chain:%s", s)
	return nil
}
"""))
R(P, lf, (FN(lf, "newReceiver("), """func newReceiver(s string, cfg chain.Config, l log.Logger) link.Receiver {
	if s == ETH || s == HARDHAT {
		return ethbr.NewEthBridge(cfg.Src.Address, cfg.Dst.Address, cfg.Src.Endpoint, l)
	}
	if s != ICON {
		l.Fatalf("Not supported for chain:%s", s)
		return nil
	}
	return newIconReceiver(cfg.Src, cfg.Dst.Address, l)
}

func newIconReceiver(src chain.BaseConfig, dst types.BtpAddress, l log.Logger) link.Receiver {
	if !src.BridgeMode {
		return btp2.NewBTP2(src.Address, dst, src.Endpoint, l)
	}
	return bridge.NewBridge(src.Address, dst, src.Endpoint, l)
}
"""))
R(P, lf, (FN(lf, "newSender("), """func newSender(s string, srcCfg chain.BaseConfig, dstCfg chain.BaseConfig, w wallet.Wallet, l log.Logger) types.Sender {
	from, to := srcCfg.Address, dstCfg.Address
	switch s {
	case HARDHAT, ETH:
		return ethbr.NewSender(from, to, w, dstCfg.Endpoint, nil, l)
	case ICON:
		return icon.NewSender(from, to, w, dstCfg.Endpoint, srcCfg.Options, l)
	default:
		l.Fatalf("Not supported for chain:%s", s)
	}
	return nil
}
"""))
R(P, mn, (FN(mn, "(c *Config) Wallet("), """func (c *Config) Wallet(passwd, secret string, keyStore json.RawMessage) (wallet.Wallet, error) {
	if pw, err := c.resolvePassword(secret, passwd); err != nil {
		return nil, err
	} else {
		return wallet.DecryptKeyStore(keyStore, pw)
	}
}
"""), (FN(mn, "(c *Config) resolvePassword("), """func (c *Config) resolvePassword(keySecret, keyStorePass string) ([]byte, error) {
	if len(keySecret) > 0 {
		return os.ReadFile(keySecret)
	}
	return []byte(keyStorePass), nil
}
"""), ("	\"io/ioutil\"\n", ""))
R(P, mn, (FN(mn, "(c *Config) EnsureWallet("), """func (c *Config) EnsureWallet() error {
	if err := c.ensureKeyStore(&c.Src); err != nil {
		return err
	}
	return c.ensureKeyStore(&c.Dst)
}

func (c *Config) ensureKeyStore(b *chain.BaseConfig) error {
	pw, err := c.resolvePassword(b.KeySecret, b.KeyStorePass)
	if err != nil {
		return err
	}
	if len(b.KeyStoreData) > 0 {
		if _, err = wallet.DecryptKeyStore(b.KeyStoreData, pw); err != nil {
			return errors.Errorf("fail to decrypt KeyStore err=%+v", err)
		}
		return nil
	}
	key, _ := crypto.GenerateKeyPair()
	ks, err := wallet.EncryptKeyAsKeyStore(key, pw)
	if err != nil {
		return err
	}
	b.KeyStoreData = ks
	return nil
}
"""))
R(P, mn, (FN(mn, "(c *Config) EnsureWallet("), """func (c *Config) EnsureWallet() error {
	for _, b := range []*chain.BaseConfig{&c.Src, &c.Dst} {
		pw, err := c.resolvePassword(b.KeySecret, b.KeyStorePass)
		if err != nil {
			return err
		}
		if len(b.KeyStoreData) < 1 {
			key, _ := crypto.GenerateKeyPair()
			ks, err := wallet.EncryptKeyAsKeyStore(key, pw)
			if err != nil {
				return err
			}
			b.KeyStoreData = ks
		} else if _, err := wallet.DecryptKeyStore(b.KeyStoreData, pw); err != nil {
			return errors.Errorf("fail to decrypt KeyStore err=%+v", err)
		}
	}
	return nil
}
"""))
R(P, mn, ("			if srcWallet, err = cfg.Wallet(cfg.Src.KeyStorePass, cfg.Src.KeySecret, cfg.Src.KeyStoreData); err != nil {\n				return err\n			}\n\n			if dstWallet, err = cfg.Wallet(cfg.Dst.KeyStorePass, cfg.Dst.KeySecret, cfg.Dst.KeyStoreData); err != nil {\n				return err\n			}\n", "			if srcWallet, err = openWallet(cfg, cfg.Src); err != nil {\n				return err\n			}\n			if dstWallet, err = openWallet(cfg, cfg.Dst); err != nil {\n				return err\n			}\n"), ("func main() {", "func openWallet(cfg *Config, b chain.BaseConfig) (wallet.Wallet, error) {\n	return cfg.Wallet(b.KeyStorePass, b.KeySecret, b.KeyStoreData)\n}\n\nfunc main() {"))
R(P, mn, ("			var (\n				err       error\n				srcWallet wallet.Wallet\n				dstWallet wallet.Wallet\n			)\n			if srcWallet, err = cfg.Wallet(cfg.Src.KeyStorePass, cfg.Src.KeySecret, cfg.Src.KeyStoreData); err != nil {\n				return err\n			}\n\n			if dstWallet, err = cfg.Wallet(cfg.Dst.KeyStorePass, cfg.Dst.KeySecret, cfg.Dst.KeyStoreData); err != nil {\n				return err\n			}\n\n			var srcKsData wallet.KeyStoreData\n			var dstKsData wallet.KeyStoreData\n			if err := json.Unmarshal(cfg.Src.KeyStoreData, &srcKsData); err != nil {\n				return err\n			}\n\n			if err := json.Unmarshal(cfg.Dst.KeyStoreData, &dstKsData); err != nil {\n				return err\n			}\n			modLevels, _ := cmd.Flags().GetStringToString(\"mod_level\")\n\n			return NewLink(cfg, srcWallet, dstWallet, modLevels)\n", "			modLevels, _ := cmd.Flags().GetStringToString(\"mod_level\")\n			return start(cfg, modLevels)\n"), ("func main() {", "func start(cfg *Config, modLevels map[string]string) error {\n	src := &cfg.Src\n	srcWallet, err := cfg.Wallet(src.KeyStorePass, src.KeySecret, src.KeyStoreData)\n	if err != nil {\n		return err\n	}\n	dst := &cfg.Dst\n	dstWallet, err := cfg.Wallet(dst.KeyStorePass, dst.KeySecret, dst.KeyStoreData)\n	if err != nil {\n		return err\n	}\n	return NewLink(cfg, srcWallet, dstWallet, modLevels)\n}\n\nfunc main() {"))

# ---- round: senders, written as an outsider would refactor them
isnd="chain/icon/sender.go"; esnd="chain/ethbr/sender.go"
P="C13,C11,C09"
R(P, isnd, (FN(isnd, "(s *sender) _relay("), """func (s *sender) _relay(rm types.RelayMessage) (*client.TransactionHashParam, error) {
	msg := rm.Bytes()
	if len(msg) < txSizeLimit {
		return s.sendWhole(msg)
	}
	return s.sendFragments(msg)
}

func (s *sender) sendWhole(msg []byte) (*client.TransactionHashParam, error) {
	return s.sendTransaction(s.newTransactionParam(client.BMCRelayMethod, &client.BMCRelayMethodParams{
		Prev:     s.src.String(),
		Messages: base64.URLEncoding.EncodeToString(msg),
	}))
}

func (s *sender) sendFragments(msg []byte) (*client.TransactionHashParam, error) {
	n := len(msg) / txSizeLimit
	if _, err := s.sendFragment(msg[:txSizeLimit], -n); err != nil {
		return nil, err
	}
	rest := msg[txSizeLimit:]
	for i := n - 1; i > 0; i-- {
		if _, err := s.sendFragment(rest[:txSizeLimit], i); err != nil {
			return nil, err
		}
		rest = rest[txSizeLimit:]
	}
	return s.sendFragment(rest, 0)
}
"""))
R(P, isnd, (FN(isnd, "(s *sender) _relay("), """func (s *sender) _relay(rm types.RelayMessage) (*client.TransactionHashParam, error) {
	msg := rm.Bytes()
	n := len(msg) / txSizeLimit
	if n > 0 {
		return s.relayFragments(msg, n)
	}
	prev := s.src.String()
	encoded := base64.URLEncoding.EncodeToString(msg)
	p := s.newTransactionParam(client.BMCRelayMethod, &client.BMCRelayMethodParams{Prev: prev, Messages: encoded})
	return s.sendTransaction(p)
}

func (s *sender) relayFragments(msg []byte, n int) (thp *client.TransactionHashParam, err error) {
	if thp, err = s.sendFragment(msg[:txSizeLimit], -n); err != nil {
		return nil, err
	}
	for idx := n - 1; idx >= 0; idx-- {
		msg = msg[txSizeLimit:]
		part := msg
		if idx > 0 {
			part = msg[:txSizeLimit]
		}
		if thp, err = s.sendFragment(part, idx); err != nil {
			return nil, err
		}
	}
	return thp, nil
}
"""))
R(P, isnd, (FN(isnd, "(s *sender) _relay("), """func (s *sender) _relay(rm types.RelayMessage) (*client.TransactionHashParam, error) {
	msg := rm.Bytes()
	last := len(msg) / txSizeLimit
	if last == 0 {
		rmp := &client.BMCRelayMethodParams{
			Prev:     s.src.String(),
			Messages: base64.URLEncoding.EncodeToString(msg),
		}
		return s.sendTransaction(s.newTransactionParam(client.BMCRelayMethod, rmp))
	}
	var thp *client.TransactionHashParam
	var err error
	for i := 0; i <= last; i++ {
		start := i * txSizeLimit
		end := start + txSizeLimit
		if end > len(msg) {
			end = len(msg)
		}
		idx := last - i
		if i == 0 {
			idx = -last
		}
		if thp, err = s.sendFragment(msg[start:end], idx); err != nil {
			return nil, err
		}
	}
	return thp, nil
}
"""))
R(P, isnd, (FN(isnd, "(s *sender) result("), """func (s *sender) result(id int, txh *client.TransactionHashParam) {
	if _, err := s.GetResult(txh); err == nil {
		s.l.Debugf("result success rm id : %d ", id)
	} else {
		s.l.Debugf("result fail rm id : %d ", id)
		s.sendResult(id, err)
	}
	s.SendStatus()
}

func (s *sender) sendResult(id int, err error) {
	ec, ok := errors.CoderOf(err)
	if !ok {
		return
	}
	s.sc <- &types.RelayResult{Id: id, Err: ec.ErrorCode()}
}
"""))
R(P, isnd, (FN(isnd, "(s *sender) result("), """func (s *sender) result(id int, txh *client.TransactionHashParam) {
	defer s.SendStatus()
	_, err := s.GetResult(txh)
	if err == nil {
		s.l.Debugf("result success rm id : %d ", id)
		return
	}
	s.l.Debugf("result fail rm id : %d ", id)
	if ec, ok := errors.CoderOf(err); ok {
		res := new(types.RelayResult)
		res.Id = id
		res.Err = ec.ErrorCode()
		s.sc <- res
		return
	}
	s.l.Errorf("fail to get result rm id : %d err:%+v", id, err)
}
"""))
R(P, isnd, (FN(isnd, "(s *sender) Relay("), """func (s *sender) Relay(rm types.RelayMessage) (int, error) {
	id := rm.Id()
	thp, err := s._relay(rm)
	if err != nil {
		return 0, err
	}
	go func() {
		s.result(id, thp)
	}()
	return id, nil
}
"""))
R(P, isnd, (FN(isnd, "(s *sender) GetStatus("), """func (s *sender) GetStatus() (*types.BMCLinkStatus, error) {
	var bs client.BMCStatus
	if err := s.c.Call(s.newStatusCall(), &bs); err != nil {
		return nil, client.MapError(err)
	}
	return toLinkStatus(&bs)
}

func (s *sender) newStatusCall() *client.CallParam {
	params := client.BMCStatusParams{Target: s.src.String()}
	return &client.CallParam{
		FromAddress: client.Address(s.w.Address()),
		ToAddress:   client.Address(s.dst.Account()),
		DataType:    "call",
		Data:        client.CallData{Method: client.BMCGetStatusMethod, Params: params},
	}
}

func toLinkStatus(bs *client.BMCStatus) (*types.BMCLinkStatus, error) {
	txSeq, err := bs.TxSeq.Value()
	if err != nil {
		return nil, err
	}
	rxSeq, err := bs.RxSeq.Value()
	if err != nil {
		return nil, err
	}
	height, err := bs.Verifier.Height.Value()
	if err != nil {
		return nil, err
	}
	extra, err := bs.Verifier.Extra.Value()
	if err != nil {
		return nil, err
	}
	ls := &types.BMCLinkStatus{TxSeq: txSeq, RxSeq: rxSeq}
	ls.Verifier.Height = height
	ls.Verifier.Extra = extra
	return ls, nil
}
"""))
R(P, isnd, (FN(isnd, "(s *sender) newTransactionParam("), """func (s *sender) newTransactionParam(method string, params interface{}) *client.TransactionParam {
	p := new(client.TransactionParam)
	p.Version = client.NewHexInt(client.JsonrpcApiVersion)
	p.FromAddress = client.Address(s.w.Address())
	p.ToAddress = client.Address(s.dst.Account())
	p.NetworkID = client.HexInt(s.dst.NetworkID())
	p.StepLimit = client.NewHexInt(s.opt.StepLimit)
	p.DataType = "call"
	p.Data = &client.CallData{Method: method, Params: params}
	return p
}
"""))
R(P, isnd, (FN(isnd, "(s *sender) sendTransaction("), """func (s *sender) sendTransaction(p *client.TransactionParam) (*client.TransactionHashParam, error) {
	for {
		if err := s.c.SignTransaction(s.w, p); err != nil {
			return nil, err
		}
		thp, expired, err := s.trySend(p)
		if expired {
			continue
		}
		return thp, err
	}
}

// trySend sends until the pool has room; expired asks for a new signature.
func (s *sender) trySend(p *client.TransactionParam) (thp *client.TransactionHashParam, expired bool, err error) {
	for {
		txh, err := s.c.SendTransaction(p)
		if err == nil {
			thp = &client.TransactionHashParam{}
			if txh != nil {
				thp.Hash = *txh
			}
			return thp, false, nil
		}
		je, ok := err.(*jsonrpc.Error)
		if !ok {
			return nil, false, client.MapError(err)
		}
		if je.Code == client.JsonrpcErrorCodeTxPoolOverflow {
			time.Sleep(DefaultRelayReSendInterval)
			continue
		}
		if je.Code == client.JsonrpcErrorCodeSystem {
			if sub, e := client.SystemErrorCode(je); e == nil {
				if sub == client.DuplicateTransactionError {
					s.l.Debugf("DuplicateTransactionError txh:%v", p.TxHash)
					return &client.TransactionHashParam{Hash: p.TxHash}, false, nil
				}
				if sub == client.ExpiredTransactionError {
					return nil, true, nil
				}
			}
		}
		return nil, false, client.MapError(err)
	}
}
"""))
R(P, isnd, (FN(isnd, "(s *sender) GetResult("), """func (s *sender) GetResult(txh *client.TransactionHashParam) (*client.TransactionResult, error) {
	txr, err := s.c.GetTransactionResult(txh)
	for isInProgress(err) {
		<-time.After(DefaultGetRelayResultInterval)
		txr, err = s.c.GetTransactionResult(txh)
	}
	return txr, mapErrorWithTransactionResult(txr, err)
}

func isInProgress(err error) bool {
	je, ok := err.(*jsonrpc.Error)
	return ok && (je.Code == client.JsonrpcErrorCodePending || je.Code == client.JsonrpcErrorCodeExecuting)
}
"""))
R(P, isnd, (FN(isnd, "mapErrorWithTransactionResult("), """func mapErrorWithTransactionResult(txr *client.TransactionResult, err error) error {
	if mapped := client.MapError(err); mapped != nil {
		return mapped
	}
	if txr == nil || txr.Status == client.ResultStatusSuccess {
		return nil
	}
	return failureOf(txr)
}

func failureOf(txr *client.TransactionResult) error {
	if txr.Failure == nil {
		return fmt.Errorf("failure without reason, status:%s", txr.Status)
	}
	fc, _ := txr.Failure.CodeValue.Value()
	isRevert := fc >= client.ResultStatusFailureCodeRevert && fc <= client.ResultStatusFailureCodeEnd
	if isRevert {
		return client.NewRevertError(int(fc) - client.ResultStatusFailureCodeRevert)
	}
	return fmt.Errorf("failure with code:%s, message:%s",
		txr.Failure.CodeValue, txr.Failure.MessageValue)
}
"""))
R(P, esnd, (FN(esnd, "(s *sender) GetResult("), """func (s *sender) GetResult(txh *client.TransactionHashParam) (*types.Receipt, error) {
	if err := s.waitMined(txh); err != nil {
		return nil, err
	}
	tx, err := s.c.GetTransactionReceipt(txh.Hash)
	if err != nil {
		return nil, err
	}
	if tx.Status != 0 {
		return tx, nil
	}
	return s.revertResult(tx, txh)
}

func (s *sender) waitMined(txh *client.TransactionHashParam) error {
	for {
		_, pending, err := s.c.GetTransaction(txh.Hash)
		if err != nil {
			return err
		}
		if !pending {
			return nil
		}
		<-time.After(DefaultGetRelayResultInterval)
	}
}

func (s *sender) revertResult(tx *types.Receipt, txh *client.TransactionHashParam) (*types.Receipt, error) {
	revertMsg, err := s.c.GetRevertMessage(txh.Hash)
	if err != nil {
		return nil, err
	}
	msgs := strings.Split(revertMsg, ":")
	if len(msgs) <= 2 {
		return nil, client.NewRevertError(25)
	}
	code, err := strconv.Atoi(strings.TrimLeft(msgs[1], " "))
	if err != nil {
		return nil, err
	}
	return tx, client.NewRevertError(code)
}
"""))
R(P, esnd, (FN(esnd, "(s *sender) GetStatus("), """func (s *sender) GetStatus() (*btpTypes.BMCLinkStatus, error) {
	status, err := s.bmc.GetStatus(nil, s.src.String())
	if err != nil {
		s.l.Errorf("Error retrieving relay status from BMC")
		return nil, err
	}
	return newLinkStatus(status), nil
}

func newLinkStatus(status binding.TypesLinkStats) *btpTypes.BMCLinkStatus {
	ls := &btpTypes.BMCLinkStatus{
		TxSeq: status.TxSeq.Int64(),
		RxSeq: status.RxSeq.Int64(),
	}
	v := status.Verifier
	ls.Verifier.Height, ls.Verifier.Extra = v.Height.Int64(), v.Extra
	return ls
}
"""))
R(P, esnd, (FN(esnd, "(s *sender) _relay("), """func (s *sender) _relay(rm btpTypes.RelayMessage) (*client.TransactionHashParam, error) {
	w := s.w.(*wallet.EvmWallet)
	opts, err := s.c.NewTransactOpts(w.Skey)
	if err != nil {
		return nil, err
	}
	prev, msg := s.src.String(), rm.Bytes()
	tx, err := s.bmc.HandleRelayMessage(opts, prev, msg)
	if err != nil {
		s.l.Errorf("handleRelayMessage: ", err.Error())
		return nil, err
	}
	return &client.TransactionHashParam{Hash: tx.Hash()}, nil
}
"""))
R(P, esnd, (FN(esnd, "(s *sender) result("), """func (s *sender) result(id int, txh *client.TransactionHashParam) {
	_, err := s.GetResult(txh)
	switch {
	case err == nil:
		s.l.Debugf("result success rm id : %d ", id)
	default:
		s.l.Debugf("result fail rm id : %d ", id)
		ec, ok := errors.CoderOf(err)
		if ok {
			r := btpTypes.RelayResult{Id: id, Err: ec.ErrorCode()}
			s.sc <- &r
		} else {
			s.l.Errorf("fail to get result rm id : %d err:%+v", id, err)
		}
	}
	s.SendStatus()
}
"""))
M("C11", isnd, ("fc > client.ResultStatusFailureCodeEnd", "fc >= client.ResultStatusFailureCodeEnd-1000"))
M("C11", isnd, ("case client.JsonrpcErrorCodePending, client.JsonrpcErrorCodeExecuting:", "case client.JsonrpcErrorCodePending, client.JsonrpcErrorCodeExecuting, client.JsonrpcErrorCodeNotFound:\n\t\t\t\t\tif je.Code == client.JsonrpcErrorCodeNotFound {\n\t\t\t\t\t\treturn txr, nil\n\t\t\t\t\t}"))
M("C11", esnd, ("		if tx.Status == 0 {", "		if tx.Status == 0 && tx.GasUsed > 0 {"))
M("C11", esnd, ('strings.TrimLeft(msgs[1], " ")', 'strings.TrimLeft(msgs[len(msgs)-2], " ")'))
M("C13", isnd, ("		msg = msg[txSizeLimit:]\n		for idx--;", "		msg = msg[len(msg)%txSizeLimit:]\n		for idx--;"))
R("C13", isnd, ("	idx := len(msg) / txSizeLimit\n", "	idx := (len(msg) - 1) / txSizeLimit\n"))

# ---- round: receivers
P="C14,C20,C21,C22"
R(P, BR, (FN(BR, "(b *bridge) GetReceiveHeightForSequence("), """func (b *bridge) GetReceiveHeightForSequence(seq int64) *receiveStatus {
	for i := 0; i < len(b.rss); i++ {
		if b.rss[i].hasSequence(seq) {
			return b.rss[i]
		}
	}
	return nil
}

func (r *receiveStatus) hasSequence(seq int64) bool {
	first := r.Seq() - int64(len(r.rp.Events)) + 1
	return first <= seq && seq <= r.Seq()
}
"""))
R(P, BR, (FN(BR, "(b *bridge) GetHeightForSeq("), """func (b *bridge) GetHeightForSeq(seq int64) int64 {
	if rs := b.GetReceiveHeightForSequence(seq); rs != nil {
		return rs.Height()
	}
	return 0
}
"""))
R(P, BR, (FN(BR, "(b *bridge) BuildMessageProof("), """func (b *bridge) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.MessageProof, error) {
	rs := b.GetReceiveHeightForSequence(bls.RxSeq + 1)
	if rs == nil {
		return nil, nil
	}
	events := rs.ReceiptProof().Events
	total := int64(len(events))
	offset := bls.RxSeq - (rs.Seq() - total)
	trp := &ReceiptProof{
		Index:  rs.ReceiptProof().Index,
		Height: rs.Height(),
		Events: make([]*Event, 0),
	}
	var size int64
	for i := offset; i < total; i++ {
		evt := events[i]
		size += int64(sizeOfEvent(evt))
		if size > limit {
			break
		}
		trp.Events = append(trp.Events, evt)
	}
	return NewMessageProof(bls, bls.RxSeq+int64(len(trp.Events)), trp)
}
"""))
R(P, BR, (FN(BR, "(b *bridge) BuildMessageProof("), """func (b *bridge) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.MessageProof, error) {
	var rmSize int
	rs := b.GetReceiveHeightForSequence(bls.RxSeq + 1)
	if rs == nil {
		return nil, nil
	}
	rp := rs.ReceiptProof()
	offset := bls.RxSeq - (rs.Seq() - int64(len(rp.Events)))
	trp := &ReceiptProof{Index: rp.Index, Height: rs.Height(), Events: []*Event{}}
	seq := bls.RxSeq
	for _, evt := range rp.Events[offset:] {
		size := sizeOfEvent(evt)
		if limit < int64(rmSize+size) {
			break
		}
		trp.Events = append(trp.Events, evt)
		rmSize += size
		seq++
	}
	return NewMessageProof(bls, seq, trp)
}
"""))
R(P, BR, (FN(BR, "newReceiveStatus("), """func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.BtpAddress) (*receiveStatus, error) {
	evts := make([]*Event, 0, len(msgs))
	for i, msg := range msgs {
		seq := sn + int64(i)
		if seq <= rxSeq {
			continue
		}
		evt, err := messageToEvent(next, msg, seq)
		if err != nil {
			return nil, err
		}
		evts = append(evts, evt)
	}
	return &receiveStatus{
		height: height,
		seq:    sn + int64(len(msgs)) - 1,
		rp:     &ReceiptProof{Index: 0, Events: evts, Height: height},
	}, nil
}
"""))
R(P, BR, (FN(BR, "(b *bridge) updateReceiveStatus("), """func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
	for i, rs := range b.rss {
		if b.isDelivered(rs, bs) {
			b.rss = b.rss[i+1:]
			break
		}
	}
}

func (b *bridge) isDelivered(rs *receiveStatus, bs *types.BMCLinkStatus) bool {
	if rs.Height() > bs.Verifier.Height {
		return false
	}
	return rs.Seq() <= bs.RxSeq
}
"""))
R(P, BR, (FN(BR, "(b *bridge) BuildRelayMessage("), """func (b *bridge) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
	for _, rmi := range rmis {
		if rmi.Type() != link.TypeMessageProof {
			continue
		}
		mp := rmi.(*MessageProof)
		data := mp.Bytes()
		b.l.Debugf("BuildRelayMessage height:%d data:%s ", mp.nextBls.Verifier.Height,
			base64.URLEncoding.EncodeToString(data))
		return data, nil
	}
	return nil, nil
}
"""))
R(P, BR, (FN(BR, "(b *bridge) monitorBTP2Block("), """func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus, scb func(conn *websocket.Conn), errCb func(*websocket.Conn, error)) error {
	offset, err := b.c.GetBTPLinkOffset(b.src, b.dst)
	if err != nil {
		return err
	}
	//BMC.seq starts with 1 and BTPBlock.FirstMessageSN starts with 0
	firstSeq := offset + 1

	return b.c.MonitorBTP(req, func(conn *websocket.Conn, v *client.BTPNotification) error {
		bh, err := decodeHeader(v)
		if err != nil {
			return err
		}
		if bh.MainHeight == b.startHeight {
			return nil
		}
		return b.onBlock(bh, firstSeq, bs)
	}, scb, errCb)
}

func decodeHeader(v *client.BTPNotification) (*client.BTPBlockHeader, error) {
	h, err := base64.StdEncoding.DecodeString(v.Header)
	if err != nil {
		return nil, err
	}
	bh := &client.BTPBlockHeader{}
	if _, err = codec.RLP.UnmarshalFromBytes(h, bh); err != nil {
		return nil, err
	}
	return bh, nil
}

func (b *bridge) onBlock(bh *client.BTPBlockHeader, firstSeq int64, bs *types.BMCLinkStatus) error {
	msgs, err := b.getBtpMessage(bh.MainHeight)
	if err != nil {
		return err
	}
	rs, err := newReceiveStatus(bh.MainHeight, bs.RxSeq, firstSeq+bh.UpdateNumber>>1, msgs, b.dst)
	if err != nil {
		return err
	}
	b.rss = append(b.rss, rs)
	b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
	b.rsc <- rs
	return nil
}
"""))
R(P, BR, (FN(BR, "(b *bridge) BuildBlockUpdate("), """func (b *bridge) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
	b.updateReceiveStatus(bls)
	bus := make([]link.BlockUpdate, len(b.rss))
	for i, rs := range b.rss {
		bus[i] = NewBlockUpdate(bls, rs.Height())
	}
	return bus, nil
}
"""))
R(P, BT, (FN(BT, "(b *btp2) BuildMessageProof("), """func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.MessageProof, error) {
	rs := b.GetReceiveHeightForHeight(bls.Verifier.Height)
	if rs == nil || bls.RxSeq == rs.seq {
		return nil, nil
	}
	mt := rs.MerkleBinaryTree()
	messageCnt := int64(mt.Len())
	offset := bls.RxSeq - (rs.Seq() - messageCnt)
	first := int(offset + 1)
	for i := offset + 1; i < messageCnt; i++ {
		p, err := mt.Proof(first, int(i))
		if err != nil {
			return nil, err
		}
		if limit < int64(len(codec.RLP.MustMarshalToBytes(p))) {
			return NewMessageProof(bls, bls.RxSeq+i-offset, *p), nil
		}
	}
	p, err := mt.Proof(first, int(messageCnt))
	if err != nil {
		return nil, err
	}
	return NewMessageProof(bls, bls.RxSeq+messageCnt-offset, *p), nil
}
"""))
R(P, BT, (FN(BT, "(b *btp2) BuildBlockUpdate("), """func (b *btp2) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
	b.updateReceiveStatus(bls)
	bus := make([]link.BlockUpdate, 0, len(b.rss))
	for _, rs := range b.rss {
		height, bbu, err := b.fetchBlockUpdate(rs.Height())
		if err != nil {
			return nil, err
		}
		if size := int64(len(codec.RLP.MustMarshalToBytes(bbu))); size > limit {
			break
		}
		bus = append(bus, NewBlockUpdate(bls, height, bbu))
	}
	return bus, nil
}

func (b *btp2) fetchBlockUpdate(height int64) (int64, *client.BTPBlockUpdate, error) {
	h, p, err := b.getBtpHeader(height)
	if err != nil {
		return 0, nil, err
	}
	bh := new(client.BTPBlockHeader)
	if _, err = codec.RLP.UnmarshalFromBytes(h, bh); err != nil {
		return 0, nil, err
	}
	return bh.MainHeight, &client.BTPBlockUpdate{BTPBlockHeader: h, BTPBlockProof: p}, nil
}
"""))
R(P, BT, (FN(BT, "(b *btp2) getBtpHeader("), """func (b *btp2) getBtpHeader(height int64) ([]byte, []byte, error) {
	pr := b.blockParam(height)
	h, err := decode64(b.c.GetBTPHeader(pr))
	if err != nil {
		return nil, nil, err
	}
	p, err := decode64(b.c.GetBTPProof(pr))
	if err != nil {
		return nil, nil, err
	}
	return h, p, nil
}

func (b *btp2) blockParam(height int64) *client.BTPBlockParam {
	return &client.BTPBlockParam{
		Height:    client.HexInt(intconv.FormatInt(height)),
		NetworkId: client.HexInt(intconv.FormatInt(b.nid)),
	}
}

func decode64(s string, err error) ([]byte, error) {
	if err != nil {
		return nil, err
	}
	return base64.StdEncoding.DecodeString(s)
}
"""))
R(P, BT, (FN(BT, "(b *btp2) BuildRelayMessage("), """func (b *btp2) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
	msgs := make([]*TypePrefixedMessage, len(rmis))
	for i, rmi := range rmis {
		tpm, err := NewTypePrefixedMessage(rmi)
		if err != nil {
			return nil, err
		}
		msgs[i] = tpm
	}
	return codec.RLP.MarshalToBytes(&BTPRelayMessage{Messages: msgs})
}
"""))
R(P, BT, (FN(BT, "(b *btp2) GetReceiveHeightForHeight("), """func (b *btp2) GetReceiveHeightForHeight(height int64) *receiveStatus {
	var found *receiveStatus
	for _, rs := range b.rss {
		if rs.Height() == height {
			found = rs
			break
		}
	}
	return found
}
"""))
R(P, BT, (FN(BT, "(b *btp2) Start("), """func (b *btp2) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, error) {
	if err := b.prepare(); err != nil {
		return nil, err
	}
	go b.monitor(bs)
	return b.rsc, nil
}

func (b *btp2) monitor(bs *types.BMCLinkStatus) {
	if err := b.Monitoring(bs); err != nil {
		b.l.Errorf("fail to monitor err:%+v", err)
	}
}

func (b *btp2) prepare() error {
	if err := b.getNetworkId(); err != nil {
		return err
	}
	return b.setStartHeight()
}
"""))
R(P, ET, (FN(ET, "(e *ethbr) BuildMessageProof("), """func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (link.MessageProof, error) {
	rs := e.GetReceiveHeightForSequence(bls.RxSeq + 1)
	if rs == nil {
		return nil, nil
	}
	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
	if len(rs.rps) == 0 {
		return nil, nil
	}
	rmSize := 0
	seq := bls.RxSeq
	rps := make([]*client.ReceiptProof, 0)
	for _, rp := range rs.rps {
		trp := &client.ReceiptProof{Index: rp.Index, Events: make([]*client.Event, 0), Height: rp.Height}
		rps = append(rps, trp)
		for _, evt := range rp.Events {
			if evt.Sequence.Int64() > bls.RxSeq {
				size := sizeOfEvent(evt)
				if rmSize > 0 && rmSize+size > int(limit) {
					return NewMessageProof(bls, seq, rps)
				}
				trp.Events = append(trp.Events, evt)
				seq = evt.Sequence.Int64()
				rmSize += size
			}
		}
		if rmSize > int(limit) {
			return NewMessageProof(bls, seq, rps)
		}
		if len(trp.Events) == 0 {
			rps = rps[:len(rps)-1]
		}
	}
	return NewMessageProof(bls, seq, rps)
}
"""))
R(P, ET, (FN(ET, "(e *ethbr) updateReceiveStatus("), """func (e *ethbr) updateReceiveStatus(bls *btpTypes.BMCLinkStatus) {
	idx := -1
	for i, rs := range e.rss {
		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
			idx = i
			break
		}
	}
	if idx >= 0 {
		e.rss = e.rss[idx+1:]
	}
}
"""))
R(P, ET, (FN(ET, "(e *ethbr) GetReceiveHeightForSequence("), """func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
	for _, rs := range e.rss {
		first := rs.rps[0].Events[0].Sequence.Int64()
		last := rs.Seq()
		if seq < first || seq > last {
			continue
		}
		return rs
	}
	return nil
}
"""))
R(P, ET, ("""	return e.c.MonitorBlock(br,
		func(v *client.BlockNotification) error {
			if len(v.Logs) > 0 {
				rpsMap""", """	return e.c.MonitorBlock(br, e.onBlock)
}

func (e *ethbr) onBlock(v *client.BlockNotification) error {
			if len(v.Logs) > 0 {
				rpsMap"""), ("""			return nil
		},
	)
}
""", """			return nil
}
"""))
R(P, ET, ("""					e.seq = rps[len(rps)-1].Events[len(rps[len(rps)-1].Events)-1].Sequence.Int64()
""", """					lastEvents := rps[len(rps)-1].Events
					e.seq = lastEvents[len(lastEvents)-1].Sequence.Int64()
"""), ("""					if evt.Sequence.Int64() <= e.seq {
						continue EpLoop
					}
					//below statement is unnecessary if 'next' is indexed
					if evt.Next.String() != e.dst.String() {
						continue EpLoop
					}
""", """					if evt.Sequence.Int64() <= e.seq || evt.Next.String() != e.dst.String() {
						continue EpLoop
					}
"""))
R(P, ET, ("""				rpsMap := make(map[uint]*client.ReceiptProof)
			EpLoop:
				for _, el := range v.Logs {
					evt, err := logToEvent(&el)
""", """				rpsMap := make(map[uint]*client.ReceiptProof)
			EpLoop:
				for i := range v.Logs {
					el := v.Logs[i]
					evt, err := logToEvent(&el)
"""))

# ---- round: RLP and requests
rlpf="common/codec/rlp.go"; P="C04"
R(P, rlpf, (FN(rlpf, "(r *rlpReader) readBytes("), """func (r *rlpReader) readBytes() ([]byte, error) {
	var header [9]byte
	if _, err := io.ReadFull(r.reader, header[0:1]); err != nil {
		return nil, err
	}
	tag := int(header[0])
	if tag < 0x80 {
		return []byte{header[0]}, nil
	}
	if tag <= 0xB7 {
		return r.readN(tag - 0x80)
	}
	if tag < 0xC0 {
		sz := tag - 0xB7
		sz2, err := r.readSize(header[1 : 1+sz])
		if err != nil {
			return nil, err
		}
		return r.readN(sz2)
	}
	if tag == 0xF8 {
		sz2, err := r.readSize(header[1:2])
		if err != nil {
			return nil, err
		}
		if sz2 == 0 {
			return nil, ErrNilValue
		}
	}
	return nil, cerrors.Wrap(ErrInvalidFormat, "InvalidFormat(RLPList)")
}

func (r *rlpReader) readN(n int) ([]byte, error) {
	buffer := make([]byte, n)
	if err := r.readAll(buffer); err != nil {
		return nil, err
	}
	return buffer, nil
}
"""))
R(P, rlpf, (FN(rlpf, "(r *rlpReader) readList("), """func (r *rlpReader) readTag(header []byte) (int, error) {
	if _, err := io.ReadFull(r.reader, header[0:1]); err != nil {
		return 0, err
	}
	return int(header[0]), nil
}

func (r *rlpReader) limited(size int) *rlpReader {
	return &rlpReader{
		reader: io.LimitReader(r.reader, int64(size)),
	}
}

func (r *rlpReader) readList() (Reader, error) {
	var header [9]byte
	tag, err := r.readTag(header[:])
	if err != nil {
		return nil, err
	}
	switch {
	case tag >= 0xF8:
		lsz := tag - 0xF7
		sz, err := r.readSize(header[1 : 1+lsz])
		if err != nil {
			return nil, err
		}
		if lsz == 1 && sz == 0 {
			return nil, ErrNilValue
		}
		return r.limited(sz), nil
	case tag >= 0xC0:
		return r.limited(tag - 0xC0), nil
	}
	return nil, cerrors.Wrap(ErrInvalidFormat, "InvalidFormat(RLPBytes)")
}
"""))
R(P, rlpf, (FN(rlpf, "(w *rlpWriter) writeBytes("), """func (w *rlpWriter) writeBytes(b []byte) error {
	switch l := len(b); {
	case b == nil:
		return w.writeNull()
	case l == 1 && b[0] < 0x80:
		return w.writeAll(b)
	default:
		return w.writeItem(0x80, b)
	}
}

func (w *rlpWriter) writeItem(base int, b []byte) error {
	l := len(b)
	if l <= 55 {
		if err := w.writeAll([]byte{byte(base + l)}); err != nil {
			return err
		}
		return w.writeAll(b)
	}
	sz := sizeToBytes(l)
	if err := w.writeAll([]byte{byte(base + 55 + len(sz))}); err != nil {
		return err
	}
	if err := w.writeAll(sz); err != nil {
		return err
	}
	return w.writeAll(b)
}
"""), (FN(rlpf, "(w *rlpWriter) writeList("), """func (w *rlpWriter) writeList(b []byte) error {
	return w.writeItem(0xC0, b)
}
"""))
R(P, rlpf, (FN(rlpf, "(w *rlpWriter) writeBytes("), """func (w *rlpWriter) writeBytes(b []byte) error {
	if b == nil {
		return w.writeNull()
	}
	l := len(b)
	if l == 1 && b[0] < 0x80 {
		return w.writeAll(b)
	}
	var header []byte
	if l <= 55 {
		header = []byte{byte(0x80 + l)}
	} else {
		sz := sizeToBytes(l)
		header = append([]byte{byte(0x80 + 55 + len(sz))}, sz...)
	}
	if err := w.writeAll(header); err != nil {
		return err
	}
	return w.writeAll(b)
}
"""))
R(P, rlpf, (FN(rlpf, "(w *rlpWriter) writeAll("), """func (w *rlpWriter) writeAll(b []byte) error {
	for len(b) > 0 {
		n, err := w.writer.Write(b)
		if err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}
"""))
R(P, rlpf, (FN(rlpf, "(r *rlpReader) ReadRaw("), """func (r *rlpReader) ReadRaw() ([]byte, error) {
	var header [9]byte
	if _, err := io.ReadFull(r.reader, header[0:1]); err != nil {
		return nil, err
	}
	tag := int(header[0])
	hlen, size := 1, 0
	switch {
	case tag < 0x80:
		return header[0:1], nil
	case tag <= 0xB7:
		size = tag - 0x80
	case tag < 0xC0:
		hlen += tag - 0xB7
	case tag <= 0xF7:
		size = tag - 0xC0
	default:
		hlen += tag - 0xF7
	}
	if hlen > 1 {
		var err error
		if size, err = r.readSize(header[1:hlen]); err != nil {
			return nil, err
		}
	}
	return r.readMore(header[0:hlen], size)
}
"""))
R(P, rlpf, (FN(rlpf, "(r *rlpReader) skipOne("), """func (r *rlpReader) skipOne() error {
	var header [9]byte
	if _, err := io.ReadFull(r.reader, header[0:1]); err != nil {
		return err
	}
	tag := int(header[0])
	var n int
	switch {
	case tag < 0x80:
		return nil
	case tag <= 0xB7:
		return r.skipN(tag - 0x80)
	case tag < 0xC0:
		n = tag - 0xB7
	case tag <= 0xF7:
		return r.skipN(tag - 0xC0)
	default:
		n = tag - 0xF7
	}
	size, err := r.readSize(header[1 : n+1])
	if err != nil {
		return err
	}
	return r.skipN(size)
}
"""))
R(P, rlpf, (FN(rlpf, "(r *rlpReader) ReadValue("), """func (r *rlpReader) ReadValue(v reflect.Value) error {
	kind := v.Kind()
	switch kind {
	case reflect.Bool, reflect.String,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
	default:
		return cerrors.Wrapf(ErrIllegalType, "IllegalType(%s)", v.Type())
	}
	bs, err := r.readBytes()
	if err != nil {
		return err
	}
	switch kind {
	case reflect.Bool:
		v.SetBool(intconv.BytesToUint64(bs) != 0)
	case reflect.String:
		v.SetString(string(bs))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(intconv.BytesToInt64(bs))
	default:
		v.SetUint(intconv.BytesToUint64(bs))
	}
	return nil
}
"""))
R(P, rlpf, (FN(rlpf, "(w *rlpWriter) WriteList("), """func (w *rlpWriter) WriteList() (Writer, error) {
	return w.open(false), nil
}

func (w *rlpWriter) open(isMap bool) *rlpWriter {
	w.countN(1)
	buf := new(bytes.Buffer)
	return &rlpWriter{
		parent: &rlpParent{buffer: buf, isMap: isMap, writer: w},
		writer: buf,
	}
}
"""), (FN(rlpf, "(w *rlpWriter) WriteMap("), """func (w *rlpWriter) WriteMap() (Writer, error) {
	return w.open(true), nil
}
"""))
R(P, rlpf, (FN(rlpf, "(r *rlpReader) readAll("), """func (r *rlpReader) readAll(buffer []byte) error {
	_, err := io.ReadFull(r.reader, buffer)
	switch err {
	case nil:
		return nil
	case io.EOF:
		return cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(sz=%d,err=%s)", len(buffer), err)
	default:
		return cerrors.WithStack(err)
	}
}
"""))
jrc="common/jsonrpc/client.go"; P="C22"
R(P, jrc, (FN(jrc, "(c *Client) _do("), """func (c *Client) _do(req *http.Request) (*http.Response, error) {
	if c.Pre != nil {
		if err := c.Pre(req); err != nil {
			return nil, err
		}
	}
	resp, err := c.hc.Do(req)
	if err != nil {
		return resp, err
	}
	if resp.StatusCode == http.StatusOK {
		return resp, nil
	}
	return resp, common.NewHttpError(resp)
}
"""))
R(P, jrc, (FN(jrc, "(c *Client) Do("), """func (c *Client) Do(method string, reqPtr, respPtr interface{}) (*Response, error) {
	req, err := c.newRequest(method, reqPtr)
	if err != nil {
		return nil, err
	}
	resp, err := c._do(req)
	if err != nil {
		return c.onHttpError(resp, err)
	}
	jrResp, err := decodeResponseBody(resp)
	if err != nil {
		return jrResp, fmt.Errorf("fail to decode response body err:%+v, jsonrpcResp:%+v", err, resp)
	}
	if jrResp == nil {
		return nil, fmt.Errorf("no response in body, jsonrpcResp:%+v", resp)
	}
	if jrResp.Error != nil {
		return jrResp, jrResp.Error
	}
	if respPtr == nil {
		return jrResp, nil
	}
	rb, err := json.Marshal(jrResp.Result)
	if err != nil {
		return jrResp, err
	}
	return jrResp, json.Unmarshal(rb, respPtr)
}

func (c *Client) newRequest(method string, reqPtr interface{}) (*http.Request, error) {
	jrReq := &Request{
		ID:      time.Now().UnixNano() / int64(time.Millisecond),
		Version: Version,
		Method:  method,
	}
	if reqPtr != nil {
		params, err := json.Marshal(reqPtr)
		if err != nil {
			return nil, err
		}
		jrReq.Params = params
	}
	body, err := json.Marshal(jrReq)
	if err != nil {
		return nil, err
	}
	req, err := http.NewRequest("POST", c.Endpoint, bytes.NewReader(body))
	if err != nil {
		return nil, err
	}
	c.setHeaders(req)
	return req, nil
}

func (c *Client) setHeaders(req *http.Request) {
	req.Header.Set("Content-Type", "application/json")
	req.Header.Set("Accept", "application/json")
	for k, v := range c.CustomHeader {
		req.Header.Set(k, v)
	}
}

func (c *Client) onHttpError(resp *http.Response, err error) (jrResp *Response, _ error) {
	hErr, ok := err.(*common.HttpError)
	if !ok || len(hErr.Response()) == 0 {
		return nil, err
	}
	if resp == nil || !common.HasContentType(resp.Header, echo.MIMEApplicationJSON) {
		return nil, err
	}
	if dErr := json.Unmarshal(hErr.Response(), &jrResp); dErr != nil {
		return jrResp, fmt.Errorf("fail to decode response body err:%+v, httpErr:%+v, httpResp:%+v, responseBody:%s",
			dErr, err, resp, string(hErr.Response()))
	}
	if jrResp != nil && jrResp.Error != nil {
		return jrResp, jrResp.Error
	}
	return jrResp, err
}
"""))
ecl="chain/ethbr/client/client.go"
R(P, ecl, (FN(ecl, "(c *Client) GetTransactionReceipt("), """func (c *Client) GetTransactionReceipt(hash common.Hash) (*types.Receipt, error) {
	ctx, cancel := newContext()
	defer cancel()
	return c.ethClient.TransactionReceipt(ctx, hash)
}

func newContext() (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), DefaultTimeout)
}
"""), (FN(ecl, "(c *Client) GetTransaction("), """func (c *Client) GetTransaction(hash common.Hash) (*types.Transaction, bool, error) {
	ctx, cancel := newContext()
	defer cancel()
	tx, pending, err := c.ethClient.TransactionByHash(ctx, hash)
	if err != nil {
		return nil, pending, err
	}
	return tx, pending, nil
}
"""), (FN(ecl, "(c *Client) FilterLogs("), """func (c *Client) FilterLogs(fq ethereum.FilterQuery) ([]types.Log, error) {
	ctx, cancel := newContext()
	defer cancel()
	return c.ethClient.FilterLogs(ctx, fq)
}
"""))
R(P, ecl, (FN(ecl, "(c *Client) GetBlockReceipts("), """func (c *Client) GetBlockReceipts(block *types.Block) ([]*types.Receipt, error) {
	ctx, cancel := context.WithTimeout(context.Background(), DefaultTimeout)
	defer cancel()
	txs := block.Transactions()
	receipts := make([]*types.Receipt, len(txs))
	for i, tx := range txs {
		receipt, err := c.ethClient.TransactionReceipt(ctx, tx.Hash())
		if err != nil {
			return nil, err
		}
		receipts[i] = receipt
	}
	return receipts, nil
}
"""))
icl="chain/icon/client/client.go"

# ---- C23: watching
P="C23"
M(P, IC, ('return c.Monitor("/btp", p,', 'return c.Monitor("/block", p,'))
M(P, IC, ('if wsResp.Code != 0 {', 'if wsResp.Code < 0 {'))
M(P, IC, ('if wsResp.Code != 0 {', 'if wsResp.Code != 0 && wsResp.Message != "" {'))
M(P, IC, ('''	if err = conn.ReadJSON(wsResp); err != nil {
		return wsRequestError{fmt.Errorf("fail to ReadJSON err:%+v", err), nil}
	}
''', '''	if err = conn.ReadJSON(wsResp); err != nil && err != io.ErrUnexpectedEOF {
		return wsRequestError{fmt.Errorf("fail to ReadJSON err:%+v", err), nil}
	}
'''))
M(P, IC, ('''		v := reflect.New(elem.Type())
		ptr := v.Interface()
''', ''), ('''	for {
		if !c._hasWsConn''', '''	v := reflect.New(elem.Type())
	ptr := v.Interface()
	for {
		if !c._hasWsConn'''))
M(P, IC, ('''	elem := reflect.ValueOf(respPtr).Elem()
''', ''), ('''		v := reflect.New(elem.Type())
		ptr := v.Interface()
''', '''		ptr := reflect.ValueOf(respPtr).Interface()
'''))
M(P, IC, ('''	defer func() {
		c.l.Debugf("Monitor finish %s", conn.LocalAddr().String())
		c.wsClose(conn)
	}()
	if err = c.wsRequest(conn, reqPtr); err != nil {
		return err
	}
''', '''	if err = c.wsRequest(conn, reqPtr); err != nil {
		return err
	}
	defer func() {
		c.l.Debugf("Monitor finish %s", conn.LocalAddr().String())
		c.wsClose(conn)
	}()
'''))
M(P, IC, ('''				cb(conn, err)
			}
			return err
''', '''				cb(conn, err)
				return err
			}
			return nil
'''))
M(P, IC, ('''			return err
		}
		cb(conn, ptr)
''', '''			if _, ok := err.(*json.SyntaxError); ok {
				continue
			}
			return err
		}
		cb(conn, ptr)
'''))
M(P, IC, ('''		cb(conn, ptr)
	}
}
''', '''		if c._hasWsConn(conn) {
			cb(conn, ptr)
		}
	}
}
'''))
M(P, IC, ('''		cb(conn, ptr)
	}
}
''', '''		go cb(conn, ptr)
	}
}
'''))
M(P, IC, ('''	if ok {
		delete(c.conns, la)
	}
''', '''	if ok && len(c.conns) > 1 {
		delete(c.conns, la)
	}
'''))
M(P, IC, ('''	c._removeWsConn(conn)
	if err := conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, "")); err != nil {
		c.l.Debugf("fail to WriteMessage CloseNormalClosure err:%+v", err)
	}
''', '''	c._removeWsConn(conn)
	if err := conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, "")); err != nil {
		c.l.Debugf("fail to WriteMessage CloseNormalClosure err:%+v", err)
		return
	}
'''))
M(P, IC, ('''	la := conn.LocalAddr().String()
	c.conns[la] = conn
''', '''	la := conn.LocalAddr().String()
	if _, ok := c.conns[la]; !ok {
		c.conns[la] = conn
	}
'''))
M(P, IC, ('''		case *BTPNotification:
			if err := cb(conn, t); err != nil {''', '''		case *BTPNotification:
			if len(t.Header) == 0 {
				return
			}
			if err := cb(conn, t); err != nil {'''))
M(P, IC, ('''	if mt == websocket.CloseMessage {
		return io.EOF
	}
	return json''', '''	if mt == websocket.CloseMessage {
		_ = io.EOF
		return nil
	}
	return json'''))
M(P, IC, ('''	if mt == websocket.CloseMessage {
		return io.EOF
	}
	return json.NewDecoder(r).Decode(respPtr)
''', '''	if mt == websocket.CloseMessage {
		return io.EOF
	}
	if err = json.NewDecoder(r).Decode(respPtr); err == io.EOF {
		return nil
	}
	return err
'''))
M(P, IC, ('''	cb(conn, WSEventInit)
	return''', '''	defer cb(conn, WSEventInit)
	return'''))
# ethereum
M(P, EC, ('h.Cmp(bh.Number) < 0;', 'h.Cmp(bh.Number) <= 0;'))
M(P, EC, ('''			h = new(big.Int).Set(br.Height)
			for''', '''			h = new(big.Int).Set(br.Height)
			h.Add(h, one)
			for'''))
M(P, EC, ('''			h = new(big.Int).Set(br.Height)
''', '''			h = new(big.Int).Set(bh.Number)
'''))
M(P, EC, ('one = big.NewInt(1)', 'one = big.NewInt(2)'))
M(P, EC, ('''					c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)
					return err
''', '''					c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)
					continue
'''))
M(P, EC, ('''				} else if err = onBlockHeader(tbh); err != nil {
					return err
				}
''', '''				} else if err = onBlockHeader(tbh); err != nil {
					c.log.Errorf("%+v", err)
				}
'''))
M(P, EC, ('''			fq.BlockHash = &bn.Hash
''', '''			fq.FromBlock, fq.ToBlock = bh.Number, bh.Number
'''))
M(P, EC, ('''			fq.BlockHash = &bn.Hash
''', '''			fq.BlockHash = &bh.ParentHash
'''))
M(P, EC, ('''				c.log.Info("Unable to get logs ", err)
				return err
''', '''				c.log.Info("Unable to get logs ", err)
'''))
R(P, EC, ('''			current.Add(current, big.NewInt(1))
			retry = BlockRetryLimit
''', '''			current = new(big.Int).Add(current, big.NewInt(1))
			retry = BlockRetryLimit
'''))
M(P, EC, ('''				retry--
				<-time''', '''				if retry--; retry == 0 {
					current.Add(current, big.NewInt(1))
					retry = BlockRetryLimit
				}
				<-time'''))
M(P, EC, ('''				c.log.Errorf("Poll callback return err:%+v", err)
				return err
''', '''				c.log.Errorf("Poll callback return err:%+v", err)
				retry--
				continue
'''))
M(P, EC, ('''				c.log.Errorf("Poll callback return err:%+v", err)
				return err
''', '''				c.log.Errorf("Poll callback return err:%+v", err)
				return nil
'''))
M(P, EC, ('''				c.log.Errorf("MonitorBlock callback return err:%+v", err)
				return err
''', '''				c.log.Errorf("MonitorBlock callback return err:%+v", err)
'''))
M(P, EC, ('''				return fmt.Errorf("Polling failed, retries exceeded")
''', '''				_ = fmt.Errorf
				return nil
'''))
M(P, EC, ('''		case bh := <-ch:
			if err = cb(bh); err''', '''		case bh := <-ch:
			if len(ch) > 0 {
				continue
			}
			if err = cb(bh); err'''))
M(P, EC, ('''	current := new(big.Int).SetUint64(n)
''', '''	current := new(big.Int).SetUint64(n + 1)
'''))
M(P, EC, ('''		return onBlockHeader(bh)
	})''', '''		if h.Cmp(bh.Number) > 0 {
			return nil
		}
		return onBlockHeader(bh)
	})'''))
# behaviour-preserving
R(P, IC, (FN(IC, "(c *Client) wsReadJSONLoop("), """func (c *Client) wsReadJSONLoop(conn *websocket.Conn, respPtr interface{}, cb wsReadCallback) error {
	typ := reflect.TypeOf(respPtr).Elem()
	for c._hasWsConn(conn) {
		ptr := reflect.New(typ).Interface()
		err := c.wsRead(conn, ptr)
		if err == nil {
			cb(conn, ptr)
			continue
		}
		c.l.Debugf("wsReadJSONLoop c.conns[%s] ReadJSON err:%+v", conn.LocalAddr().String(), err)
		if !isNormalClose(err) {
			cb(conn, err)
		}
		return err
	}
	c.l.Debugf("wsReadJSONLoop c.conns[%s] is nil", conn.LocalAddr().String())
	return nil
}

func isNormalClose(err error) bool {
	cErr, ok := err.(*websocket.CloseError)
	return ok && cErr.Code == websocket.CloseNormalClosure
}
"""))
R(P, IC, (FN(IC, "(c *Client) wsRequest("), """func (c *Client) wsRequest(conn *websocket.Conn, reqPtr interface{}) error {
	if reqPtr == nil {
		log.Panicf("reqPtr cannot be nil")
	}
	if err := conn.WriteJSON(reqPtr); err != nil {
		return newWsRequestError(nil, "fail to WriteJSON err:%+v", err)
	}
	var wsResp WSResponse
	if err := conn.ReadJSON(&wsResp); err != nil {
		return newWsRequestError(nil, "fail to ReadJSON err:%+v", err)
	}
	if wsResp.Code == 0 {
		return nil
	}
	return newWsRequestError(&wsResp, "invalid WSResponse code:%d, message:%s", wsResp.Code, wsResp.Message)
}

func newWsRequestError(r *WSResponse, f string, args ...interface{}) error {
	return wsRequestError{fmt.Errorf(f, args...), r}
}
"""))
R(P, IC, ('''	_, ok := c.conns[la]
	if ok {
		delete(c.conns, la)
	}
''', '''	delete(c.conns, la)
'''), ('''	defer func() {
		c.l.Debugf("Monitor finish %s", conn.LocalAddr().String())
		c.wsClose(conn)
	}()
''', '''	defer c.finishMonitor(conn)
'''), ('''func (c *Client) CloseMonitor(''', '''func (c *Client) finishMonitor(conn *websocket.Conn) {
	c.l.Debugf("Monitor finish %s", conn.LocalAddr().String())
	c.wsClose(conn)
}

func (c *Client) CloseMonitor('''))
R(P, IC, (FN(IC, "(c *Client) MonitorBTP("), """func (c *Client) MonitorBTP(p *BTPRequest, cb func(conn *websocket.Conn, v *BTPNotification) error, scb func(conn *websocket.Conn), errCb func(*websocket.Conn, error)) error {
	onMessage := func(conn *websocket.Conn, v interface{}) {
		if bn, ok := v.(*BTPNotification); ok {
			if err := cb(conn, bn); err != nil {
				c.l.Debugf("MonitorBTP callback return err:%+v", err)
			}
			return
		}
		if e, ok := v.(WSEvent); ok {
			c.l.Debugf("MonitorBTP WSEvent %s %+v", conn.LocalAddr().String(), e)
			if e == WSEventInit && scb != nil {
				scb(conn)
			}
			return
		}
		err, ok := v.(error)
		if !ok {
			err = fmt.Errorf("not supported type %T", v)
		}
		errCb(conn, err)
	}
	return c.Monitor("/btp", p, &BTPNotification{}, onMessage)
}
"""))
R(P, IC, ('''	mt, r, err := conn.NextReader()
	if err != nil {
		return err
	}
	if mt == websocket.CloseMessage {
		return io.EOF
	}
	return json.NewDecoder(r).Decode(respPtr)
''', '''	mt, r, err := conn.NextReader()
	switch {
	case err != nil:
		return err
	case mt == websocket.CloseMessage:
		return io.EOF
	default:
		dec := json.NewDecoder(r)
		return dec.Decode(respPtr)
	}
'''))
R(P, IC, ('''	cb(conn, WSEventInit)
	return c.wsReadJSONLoop(conn, respPtr, cb)
''', '''	cb(conn, WSEventInit)
	err = c.wsReadJSONLoop(conn, respPtr, cb)
	return err
'''), ('''	wsEndpoint := strings.Replace(c.Endpoint, "http", "ws", 1)
	conn, httpResp, err := websocket.DefaultDialer.Dial(wsEndpoint+reqUrl, reqHeader)
	if err != nil {
		wsErr := wsConnectError{error: err}
		wsErr.httpResp = httpResp
		return nil, wsErr
	}
''', '''	target := strings.Replace(c.Endpoint, "http", "ws", 1) + reqUrl
	conn, httpResp, err := websocket.DefaultDialer.Dial(target, reqHeader)
	if err != nil {
		return nil, wsConnectError{error: err, httpResp: httpResp}
	}
'''))
R(P, EC, (FN(EC, "(c *Client) MonitorBlock("), """func (c *Client) MonitorBlock(br *BlockRequest, cb func(b *BlockNotification) error) error {
	var next *big.Int
	return c.Monitor(func(bh *types.Header) error {
		if next == nil {
			next = new(big.Int).Set(br.Height)
			if err := c.catchUp(br, next, bh.Number, cb); err != nil {
				return err
			}
		}
		return c.notifyBlock(br, bh, cb)
	})
}

func (c *Client) catchUp(br *BlockRequest, h, until *big.Int, cb func(b *BlockNotification) error) error {
	for h.Cmp(until) < 0 {
		bh, err := c.GetHeaderByHeight(h)
		if err != nil {
			c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)
			return err
		}
		if err = c.notifyBlock(br, bh, cb); err != nil {
			return err
		}
		h.Add(h, big.NewInt(1))
	}
	return nil
}

func (c *Client) notifyBlock(br *BlockRequest, bh *types.Header, cb func(b *BlockNotification) error) error {
	hash := bh.Hash()
	bn := &BlockNotification{Hash: hash, Height: bh.Number, Header: bh}
	if br.FilterQuery == nil {
		return cb(bn)
	}
	fq := *br.FilterQuery
	fq.BlockHash = &hash
	logs, err := c.FilterLogs(fq)
	if err != nil {
		c.log.Info("Unable to get logs ", err)
		return err
	}
	bn.Logs = logs
	return cb(bn)
}
"""))
R(P, EC, ('''			h = new(big.Int).Set(br.Height)
			for ; h.Cmp(bh.Number) < 0; h = h.Add(h, one) {
				if tbh, err := c.GetHeaderByHeight(h); err != nil {
					c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)
					return err
				} else if err = onBlockHeader(tbh); err != nil {
					return err
				}
			}
''', '''			for h = new(big.Int).Set(br.Height); bh.Number.Cmp(h) > 0; h = new(big.Int).Add(h, one) {
				tbh, err := c.GetHeaderByHeight(h)
				if err != nil {
					c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)
					return err
				}
				if err = onBlockHeader(tbh); err != nil {
					return err
				}
			}
'''))
R(P, EC, ('''	var (
		h   *big.Int
		one = big.NewInt(1)
	)
''', '''	started := false
'''), ('''		if h == nil {
			h = new(big.Int).Set(br.Height)
			for ; h.Cmp(bh.Number) < 0; h = h.Add(h, one) {
				if tbh, err := c.GetHeaderByHeight(h); err != nil {
					c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)
''', '''		if !started {
			started = true
			for n := br.Height.Int64(); n < bh.Number.Int64(); n++ {
				if tbh, err := c.GetHeaderByHeight(big.NewInt(n)); err != nil {
					c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", n, err)
'''))
R(P, EC, (FN(EC, "(c *Client) Poll("), """func (c *Client) Poll(cb func(bh *types.Header) error) error {
	n, err := c.GetBlockNumber()
	if err != nil {
		return err
	}
	one := big.NewInt(1)
	current := new(big.Int).SetUint64(n)
	for retry := BlockRetryLimit; retry > 0; {
		select {
		case <-c.stop:
			return nil
		default:
		}
		bh, err := c.GetHeaderByHeight(current)
		if err != nil {
			c.logPollFailure(current, err)
			retry--
			time.Sleep(BlockRetryInterval)
			continue
		}
		if err := cb(bh); err != nil {
			c.log.Errorf("Poll callback return err:%+v", err)
			return err
		}
		current.Add(current, one)
		retry = BlockRetryLimit
	}
	c.log.Error("Polling failed, retries exceeded")
	return fmt.Errorf("Polling failed, retries exceeded")
}

func (c *Client) logPollFailure(height *big.Int, err error) {
	if ethereum.NotFound == err {
		c.log.Trace("Block not ready, will retry ", height)
		return
	}
	c.log.Error("Unable to get block ", height, err)
}
"""))
R(P, EC, (FN(EC, "(c *Client) Monitor("), """func (c *Client) Monitor(cb func(bh *types.Header) error) error {
	if strings.HasPrefix(c.uri, "http") {
		return c.Poll(cb)
	}
	ch := make(chan *types.Header)
	s, err := c.ethClient.SubscribeNewHead(context.Background(), ch)
	if err == rpc.ErrNotificationsUnsupported {
		c.log.Infoln("%v, try polling", err)
		return c.Poll(cb)
	}
	if err != nil {
		return err
	}
	return c.watchHeads(s, ch, cb)
}

func (c *Client) watchHeads(s ethereum.Subscription, ch <-chan *types.Header, cb func(bh *types.Header) error) error {
	for {
		select {
		case bh := <-ch:
			if err := cb(bh); err != nil {
				c.log.Errorf("MonitorBlock callback return err:%+v", err)
				return err
			}
			c.log.Debugf("MonitorBlock %v", bh.Number.Int64())
		case err := <-s.Err():
			return err
		}
	}
}
"""))
R(P, IC, (FN(IC, "(c *Client) wsRead("), """func (c *Client) wsRead(conn *websocket.Conn, respPtr interface{}) error {
	mt, b, err := conn.ReadMessage()
	if err != nil {
		return err
	}
	if mt == websocket.CloseMessage {
		return io.EOF
	}
	return json.Unmarshal(b, respPtr)
}
"""))
R(P, IC, (FN(IC, "(c *Client) MonitorBlock("), """func (c *Client) MonitorBlock(p *BlockRequest, cb func(conn *websocket.Conn, v *BlockNotification) error, scb func(conn *websocket.Conn), errCb func(*websocket.Conn, error)) error {
	resp := &BlockNotification{}
	return c.Monitor("/block", p, resp, func(conn *websocket.Conn, v interface{}) {
		switch t := v.(type) {
		case *BlockNotification:
			if err := cb(conn, t); err != nil {
				c.l.Debugf("MonitorBlock callback return err:%+v", err)
			}
		default:
			c.onOther("MonitorBlock", conn, v, scb, errCb)
		}
	})
}

func (c *Client) onOther(name string, conn *websocket.Conn, v interface{}, scb func(conn *websocket.Conn), errCb func(*websocket.Conn, error)) {
	switch t := v.(type) {
	case WSEvent:
		c.l.Debugf("%s WSEvent %s %+v", name, conn.LocalAddr().String(), t)
		if t != WSEventInit || scb == nil {
			return
		}
		scb(conn)
	case error:
		errCb(conn, t)
	default:
		errCb(conn, fmt.Errorf("not supported type %T", t))
	}
}
"""))
R(P, IC, ('''	defer func() {
		c.l.Debugf("Monitor finish %s", conn.LocalAddr().String())
		c.wsClose(conn)
	}()
	if err = c.wsRequest(conn, reqPtr); err != nil {
		return err
	}
	cb(conn, WSEventInit)
	return c.wsReadJSONLoop(conn, respPtr, cb)
''', '''	err = c.wsRequest(conn, reqPtr)
	if err == nil {
		cb(conn, WSEventInit)
		err = c.wsReadJSONLoop(conn, respPtr, cb)
	}
	c.l.Debugf("Monitor finish %s", conn.LocalAddr().String())
	c.wsClose(conn)
	return err
'''))
R(P, IC, ('''		if err := c.wsRead(conn, ptr); err != nil {
			c.l.Debugf("wsReadJSONLoop c.conns[%s] ReadJSON err:%+v", conn.LocalAddr().String(), err)
			if cErr, ok := err.(*websocket.CloseError); !ok || cErr.Code != websocket.CloseNormalClosure {
				cb(conn, err)
			}
			return err
		}
''', '''		if err := c.wsRead(conn, ptr); err != nil {
			c.l.Debugf("wsReadJSONLoop c.conns[%s] ReadJSON err:%+v", conn.LocalAddr().String(), err)
			if !websocket.IsCloseError(err, websocket.CloseNormalClosure) {
				cb(conn, err)
			}
			return err
		}
'''))
R(P, IC, ('''	la := conn.LocalAddr().String()
	c.conns[la] = conn
''', '''	c.conns[connKey(conn)] = conn
'''), ('''	la := conn.LocalAddr().String()
	_, ok := c.conns[la]
	if ok {
		delete(c.conns, la)
	}
''', '''	key := connKey(conn)
	if _, found := c.conns[key]; !found {
		return
	}
	delete(c.conns, key)
'''), ('''	_, ok := c.conns[conn.LocalAddr().String()]
	return ok
}
''', '''	_, ok := c.conns[connKey(conn)]
	return ok
}

func connKey(conn *websocket.Conn) string {
	return conn.LocalAddr().String()
}
'''))
R(P, EC, ('''	onBlockHeader := func(bh *types.Header) error {
		bn := &BlockNotification{
			Hash:   bh.Hash(),
			Height: bh.Number,
			Header: bh,
		}
		if br.FilterQuery != nil {
			var err error
			fq := *br.FilterQuery
			fq.BlockHash = &bn.Hash
			if bn.Logs, err = c.FilterLogs(fq); err != nil {
				c.log.Info("Unable to get logs ", err)
				return err
			}
		}
		return cb(bn)
	}
''', '''	onBlockHeader := func(bh *types.Header) error {
		bn, err := c.newBlockNotification(br.FilterQuery, bh)
		if err != nil {
			return err
		}
		return cb(bn)
	}
'''), ('''func (c *Client) Monitor(cb''', '''func (c *Client) newBlockNotification(query *ethereum.FilterQuery, bh *types.Header) (*BlockNotification, error) {
	bn := &BlockNotification{Header: bh}
	bn.Hash = bh.Hash()
	bn.Height = bh.Number
	if query == nil {
		return bn, nil
	}
	fq := *query
	fq.BlockHash = &bn.Hash
	logs, err := c.FilterLogs(fq)
	if err != nil {
		c.log.Info("Unable to get logs ", err)
		return nil, err
	}
	bn.Logs = logs
	return bn, nil
}

func (c *Client) Monitor(cb'''))
R(P, EC, ('''	return c.Monitor(func(bh *types.Header) error {
		if h == nil {
			h = new(big.Int).Set(br.Height)
			for ; h.Cmp(bh.Number) < 0; h = h.Add(h, one) {
				if tbh, err := c.GetHeaderByHeight(h); err != nil {
					c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)
					return err
				} else if err = onBlockHeader(tbh); err != nil {
					return err
				}
			}
		}
		return onBlockHeader(bh)
	})
''', '''	onNewHeader := func(bh *types.Header) error {
		if h != nil {
			return onBlockHeader(bh)
		}
		h = new(big.Int).Set(br.Height)
		for h.Cmp(bh.Number) == -1 {
			missed, err := c.GetHeaderByHeight(h)
			if err == nil {
				err = onBlockHeader(missed)
			} else {
				c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)
			}
			if err != nil {
				return err
			}
			h.Add(h, one)
		}
		return onBlockHeader(bh)
	}
	return c.Monitor(onNewHeader)
'''))
R(P, EC, (FN(EC, "(c *Client) Poll("), """func (c *Client) Poll(cb func(bh *types.Header) error) error {
	n, err := c.GetBlockNumber()
	if err != nil {
		return err
	}
	retry := BlockRetryLimit
	for current := new(big.Int).SetUint64(n); ; {
		select {
		case <-c.stop:
			return nil
		default:
			if retry == 0 {
				c.log.Error("Polling failed, retries exceeded")
				return fmt.Errorf("Polling failed, retries exceeded")
			}
			bh, err := c.GetHeaderByHeight(current)
			switch {
			case err == nil:
				if err = cb(bh); err != nil {
					c.log.Errorf("Poll callback return err:%+v", err)
					return err
				}
				current.Add(current, big.NewInt(1))
				retry = BlockRetryLimit
			case err == ethereum.NotFound:
				c.log.Trace("Block not ready, will retry ", current)
				retry--
				<-time.After(BlockRetryInterval)
			default:
				c.log.Error("Unable to get block ", current, err)
				retry--
				<-time.After(BlockRetryInterval)
			}
		}
	}
}
"""))
R(P, EC, ('''	current := new(big.Int).SetUint64(n)
	var retry''', '''	var retry'''), ('c.GetHeaderByHeight(current)','c.GetHeaderByHeight(new(big.Int).SetUint64(n))'),('"Block not ready, will retry ", current','"Block not ready, will retry ", n'),('"Unable to get block ", current, err','"Unable to get block ", n, err'),('current.Add(current, big.NewInt(1))','n++'))
R(P, EC, ('''				retry--
				<-time.After(BlockRetryInterval)
				continue
			}

			if err = cb(bh); err != nil {
				c.log.Errorf("Poll callback return err:%+v", err)
				return err
			}

			current.Add(current, big.NewInt(1))
			retry = BlockRetryLimit
''', '''				retry--
				<-time.After(BlockRetryInterval)
				continue
			}
			if current, err = c.polled(current, bh, cb); err != nil {
				return err
			}
			retry = BlockRetryLimit
'''), ('''func (c *Client) MonitorBlock(''', '''func (c *Client) polled(at *big.Int, bh *types.Header, cb func(bh *types.Header) error) (*big.Int, error) {
	if err := cb(bh); err != nil {
		c.log.Errorf("Poll callback return err:%+v", err)
		return nil, err
	}
	return new(big.Int).Add(at, big.NewInt(1)), nil
}

func (c *Client) MonitorBlock('''))

# --- C05 structured values
P = "C05"
CC = "common/codec/codec.go"
CB = "common/codec/bytes.go"
# loop details
M(P, CC, ("		n := v.Len()\n		for i := 0; i < n; i++ {\n			if err := e2", "		n := v.Len()\n		if n > 1024 {\n			n = 1024\n		}\n		for i := 0; i < n; i++ {\n			if err := e2"))
M(P, CC, ("			if err := e2.encodeValue(v.Index(i)); err != nil {\n				return err\n			}", "			x := v.Index(i)\n			if x.Kind() == reflect.Ptr && x.IsNil() {\n				continue\n			}\n			if err := e2.encodeValue(x); err != nil {\n				return err\n			}"))
M(P, CC, ("					ns := reflect.MakeSlice(elem.Type(), elem.Len(), elem.Cap()+16)\n					reflect.Copy(ns, elem)\n					elem.Set(ns)", "					ns := reflect.MakeSlice(elem.Type(), elem.Len(), elem.Cap()+16)\n					elem.Set(ns)"))
M(P, CC, ("					if err == io.EOF {\n						elem.SetLen(i)\n						break\n					}", "					if err == io.EOF {\n						break\n					}"))
M(P, CC, ("	if err := d.decodeValue(v); err == ErrNilValue {\n		elem := v.Elem()\n		elem.Set(reflect.Zero(elem.Type()))\n		return nil", "	if err := d.decodeValue(v); err == ErrNilValue {\n		return nil"))
M(P, CC, ("	if err := d.decodeValue(v); err == ErrNilValue {\n		elem := v.Elem()\n		elem.Set(reflect.Zero(elem.Type()))\n		return nil", "	if err := d.decodeValue(v); err == ErrNilValue {\n		elem := v.Elem()\n		if elem.Kind() != reflect.Ptr {\n			elem.Set(reflect.Zero(elem.Type()))\n		}\n		return nil"))
M(P, CC, ("					return keys[i].Int() < keys[j].Int()", "					return keys[i].Int() > keys[j].Int()"))
M(P, CC, ("					return keys[i].Uint() < keys[j].Uint()", "					return uint32(keys[i].Uint()) < uint32(keys[j].Uint())"))
M(P, CC, ("			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:\n				sort", "			case reflect.Bool, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:\n				sort"))
M(P, CC, ("				sort.Slice(keys, func(i, j int) bool {\n					return keys[i].String() < keys[j].String()\n				})", "				if len(keys) < 32 {\n					sort.Slice(keys, func(i, j int) bool {\n						return keys[i].String() < keys[j].String()\n					})\n				}"))
M(P, CC, ("				if err == ErrNilValue {\n					return cerrors.Wrap(ErrInvalidFormat, \"InvalidFormat(NilKey)\")\n				}", "				if err == ErrNilValue {\n					continue\n				}"))
M(P, CC, ("				if err == io.EOF {\n					return cerrors.Wrap(ErrInvalidFormat, \"InvalidFormat(NoValue)\")\n				}", "				if err == io.EOF {\n					break\n				}"))
M(P, CC, ("		if v.Kind() == reflect.Slice || v.CanAddr() {\n			return e.real.WriteBytes(v.Bytes())", "		if v.Kind() == reflect.Slice || v.CanAddr() {\n			if v.Len() == 0 {\n				return e.real.WriteNull()\n			}\n			return e.real.WriteBytes(v.Bytes())"))
M(P, CC, ("	if v.IsNil() {\n		return e.real.WriteNull()\n	}\n	return encode(e, v)", "	if v.IsNil() || v.Kind() == reflect.Slice && v.Len() == 0 {\n		return e.real.WriteNull()\n	}\n	return encode(e, v)"))
M(P, CC, ("		if !fv.CanInterface() {\n			if err := encodeRecursiveFields(e, fv); err != nil {\n				return err\n			}\n			continue\n		}", "		if !fv.CanInterface() {\n			continue\n		}"))
M(P, CC, ("		if !fv.CanSet() {\n			if err := decodeRecursiveFields(d, fv); err != nil {\n				return err\n			}\n			continue\n		}", "		if !fv.CanSet() {\n			continue\n		}"))
M(P, CC, ("		if err := d.decodeNullableValue(fv.Addr()); err != nil {\n			if err == io.EOF {\n				break\n			}\n			return err\n		}", "		if err := d.decodeNullableValue(fv.Addr()); err != nil {\n			break\n		}"))
M(P, CC, ("		if err := d.decodeNullableValue(fv.Addr()); err != nil {\n			if err == io.EOF {\n				break\n			}\n			return err\n		}", "		if err := d.decodeNullableValue(fv.Addr()); err != nil {\n			return err\n		}"))
M(P, CC, ("			if err := i.RLPEncodeSelf(e); err == nil {\n				return true, e.flush()", "			if err := i.RLPEncodeSelf(e); err == nil {\n				return true, nil"))
M(P, CC, ("			return true, e.real.WriteRaw(b)", "			return true, e.real.WriteBytes(b)"))
M(P, CC, ("		if err := v.Interface().(DecodeSelfer).RLPDecodeSelf(d); err == nil {\n			return true, d.flush()", "		if err := v.Interface().(DecodeSelfer).RLPDecodeSelf(d); err == nil {\n			return true, nil"))
M(P, CC, ("	if child := d.child; child != nil {\n		d.child = nil\n		return child.Close()\n	}", "	if child := d.child; child != nil {\n		d.child = nil\n		_ = child.Close()\n	}"))
M(P, CC, ("	if child := d.child; child != nil {\n		d.child = nil\n		return child.Close()\n	}", "	if child := d.child; child != nil {\n		return child.Close()\n	}"))
M(P, CC, ("			reflect.Copy(elem.Slice(0, elem.Len()), reflect.ValueOf(bs))\n			return nil", "			if len(bs) == elem.Len() {\n				reflect.Copy(elem.Slice(0, elem.Len()), reflect.ValueOf(bs))\n			}\n			return nil"))
M(P, CC, ("		v2 := reflect.New(elem.Type().Elem())\n		if err := d.decodeValue(v2); err != nil {", "		v2 := elem\n		if v2.IsNil() {\n			v2 = reflect.New(elem.Type().Elem())\n		}\n		if err := d.decodeValue(v2); err != nil {"))
M(P, CC, ("		if err := d2.decodeNullable(obj); err != nil {\n			return ErrInvalidFormat\n		}", "		if err := d2.decodeNullable(obj); err == io.EOF {\n			break\n		} else if err != nil {\n			return ErrInvalidFormat\n		}"))
M(P, CC, ("		if err := d.decodeNullable(obj); err != nil {\n			return idx, err\n		}", "		if err := d.decode(obj); err != nil {\n			return idx, err\n		}"))
M(P, CC, ("		if err := d.decodeNullable(obj); err != nil {\n			return idx, err\n		}", "		if err := d.decodeNullable(obj); err != nil {\n			return idx + 1, err\n		}"))
M(P, CC, ("	case []byte:\n		if o == nil {\n			return e.real.WriteNull()\n		}\n		return e.real.WriteBytes(o)", "	case []byte:\n		if len(o) == 0 {\n			return e.real.WriteNull()\n		}\n		return e.real.WriteBytes(o)"))
M(P, CC, ("	if err := e2.EncodeMulti(objs...); err != nil {\n		return err\n	}\n	return e.flush()", "	return e2.EncodeMulti(objs...)"))
M(P, CC, ("func (d *decoderImpl) DecodeList() (Decoder, error) {\n	if err := d.flush(); err != nil {\n		return nil, err\n	}\n", "func (d *decoderImpl) DecodeList() (Decoder, error) {\n"))
M(P, CC, ("	case reflect.Bool, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,\n		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.String:\n		return d.real", "	case reflect.Bool, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,\n		reflect.Int, reflect.Int16, reflect.Int32, reflect.Int64, reflect.String:\n		return d.real"))
M(P, CC, ("	if v.Type().Implements(binaryMarshaler) {\n		if i", "	if v.Kind() == reflect.Ptr && v.Type().Elem().Kind() == reflect.Struct && v.Type().Implements(binaryMarshaler) {\n		if i"))
M(P, CC, ("var codecMarshaler = reflect.TypeOf((*Marshaler)(nil)).Elem()", "var codecMarshaler = reflect.TypeOf((*Unmarshaler)(nil)).Elem()"))
M(P, CC, ("		elem.Set(m)\n		return d.flush()", "		if m.Len() > 0 {\n			elem.Set(m)\n		}\n		return d.flush()"))
M(P, CC, ("			if err != nil && err != ErrNilValue {\n				return err\n			}\n			elem.SetBytes(bs)", "			if err == ErrNilValue {\n				return nil\n			}\n			if err != nil {\n				return err\n			}\n			elem.SetBytes(bs)"))
M(P, CB, ("	if err := c.NewDecoder(buf).Decode(v); err != nil {\n		return nil, err\n	}\n	return buf.Bytes(), nil", "	if err := c.NewDecoder(buf).Decode(v); err != nil {\n		return nil, err\n	}\n	return nil, nil"))
M(P, CB, ("	if err := c.NewEncoder(buf).Encode(v); err != nil {\n		return nil, err\n	}\n	return buf.Bytes(), nil", "	bs := buf.Bytes()\n	if err := c.NewEncoder(buf).Encode(v); err != nil {\n		return nil, err\n	}\n	return bs, nil"))
M(P, CC, ("		e.child = nil\n	}\n	return nil\n}\n\nfunc (e *encoderImpl) flushAndClose", "	}\n	return nil\n}\n\nfunc (e *encoderImpl) flushAndClose"))
M(P, CC, ("	if err := e.flush(); err != nil {\n		return err\n	}\n	return e.real.Close()", "	return e.real.Close()"))
# refactorings
R(P, CC, ("		n := v.Len()\n		for i := 0; i < n; i++ {\n			if err := e2.encodeValue(v.Index(i)); err != nil {\n				return err\n			}\n		}\n		return e.flush()", "		for i := 0; i < v.Len(); i++ {\n			err = e2.encodeValue(v.Index(i))\n			if err != nil {\n				return err\n			}\n		}\n		return e.flush()"))
R(P, CC, ("		n := v.Len()\n		for i := 0; i < n; i++ {\n			if err := e2.encodeValue(v.Index(i)); err != nil {\n				return err\n			}\n		}\n		return e.flush()", "		if err := e2.encodeElems(v); err != nil {\n			return err\n		}\n		return e.flush()"), ("type encodeFunc func", "func (e *encoderImpl) encodeElems(v reflect.Value) error {\n	i, n := 0, v.Len()\n	for i != n {\n		if err := e.encodeValue(v.Index(i)); err != nil {\n			return err\n		}\n		i++\n	}\n	return nil\n}\n\ntype encodeFunc func"))
R(P, CC, ("			n := len(keys)\n			for i := 0; i < n; i++ {\n				if err := e2.encodeValue(keys[i]); err != nil {\n					return err\n				}\n				v2 := v.MapIndex(keys[i])\n				if err := e2.encodeValue(v2); err != nil {\n					return err\n				}\n			}\n			return e.flush()", "			for _, key := range keys {\n				if err := e2.encodeValue(key); err != nil {\n					return err\n				}\n				if err := e2.encodeValue(v.MapIndex(key)); err != nil {\n					return err\n				}\n			}\n			return e.flush()"))
R(P, CC, ("			keys := v.MapKeys()\n			switch v.Type().Key().Kind() {\n			case reflect.String:\n				sort.Slice(keys, func(i, j int) bool {\n					return keys[i].String() < keys[j].String()\n				})\n			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:\n				sort.Slice(keys, func(i, j int) bool {\n					return keys[i].Int() < keys[j].Int()\n				})\n			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:\n				sort.Slice(keys, func(i, j int) bool {\n					return keys[i].Uint() < keys[j].Uint()\n				})\n			default:\n				return cerrors.Wrapf(ErrIllegalType, \"IllegalType(key=%s)\", v.Type().Key())\n			}\n", "			keys, err := sortedKeys(v)\n			if err != nil {\n				return err\n			}\n"), ("type encodeFunc func", "func sortedKeys(v reflect.Value) ([]reflect.Value, error) {\n			keys := v.MapKeys()\n			switch v.Type().Key().Kind() {\n			case reflect.String:\n				sort.Slice(keys, func(i, j int) bool {\n					return keys[i].String() < keys[j].String()\n				})\n			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:\n				sort.Slice(keys, func(i, j int) bool {\n					return keys[i].Int() < keys[j].Int()\n				})\n			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:\n				sort.Slice(keys, func(i, j int) bool {\n					return keys[i].Uint() < keys[j].Uint()\n				})\n			default:\n				return nil, cerrors.Wrapf(ErrIllegalType, \"IllegalType(key=%s)\", v.Type().Key())\n			}\n	return keys, nil\n}\n\ntype encodeFunc func"))
R(P, CC, ("			keys := v.MapKeys()\n			switch v.Type().Key().Kind() {\n			case reflect.String:\n				sort.Slice(keys, func(i, j int) bool {\n					return keys[i].String() < keys[j].String()\n				})\n			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:\n				sort.Slice(keys, func(i, j int) bool {\n					return keys[i].Int() < keys[j].Int()\n				})\n			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:\n				sort.Slice(keys, func(i, j int) bool {\n					return keys[i].Uint() < keys[j].Uint()\n				})\n", "			keys := v.MapKeys()\n			var less func(i, j int) bool\n			switch v.Type().Key().Kind() {\n			case reflect.String:\n				less = func(i, j int) bool { return keys[i].String() < keys[j].String() }\n			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:\n				less = func(i, j int) bool { return keys[i].Int() < keys[j].Int() }\n			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:\n				less = func(i, j int) bool { return keys[j].Uint() > keys[i].Uint() }\n"), ("			n := len(keys)\n			for i", "			sort.Slice(keys, less)\n			n := len(keys)\n			for i"))
R(P, CC, ("	case reflect.Slice:\n		return e.encodeNullable(v, func(e *encoderImpl, v reflect.Value) error {\n			return e.encodeArrayValue(v)\n		})", "	case reflect.Slice:\n		if v.IsNil() {\n			return e.real.WriteNull()\n		}\n		return e.encodeArrayValue(v)"), ("	case reflect.Interface:\n		return e.encodeNullable(v, func(e *encoderImpl, v reflect.Value) error {\n			return e.encodeValue(v.Elem())\n		})\n", ""), ("	case reflect.Ptr:\n		return e.enc", "	case reflect.Ptr, reflect.Interface:\n		return e.enc"))
R(P, CC, ("		e2, err := e.encodeList()\n		if err != nil {\n			return err\n		}\n		if err := encodeRecursiveFields(e2, v); err != nil {\n			return err\n		}\n		return e.flush()", "		return e.encodeStruct(v)"), ("type encodeFunc func", "func (e *encoderImpl) encodeStruct(v reflect.Value) error {\n	e2, err := e.encodeList()\n	if err == nil {\n		if err = encodeRecursiveFields(e2, v); err == nil {\n			err = e.flush()\n		}\n	}\n	return err\n}\n\ntype encodeFunc func"))
R(P, CC, ("		fv := v.Field(i)\n		if !fv.CanInterface() {\n			if err := encodeRecursiveFields(e, fv); err != nil {\n				return err\n			}\n			continue\n		}\n		if err := e.encodeValue(fv); err != nil {\n			return err\n		}", "		var err error\n		if fv := v.Field(i); fv.CanInterface() {\n			err = e.encodeValue(fv)\n		} else {\n			err = encodeRecursiveFields(e, fv)\n		}\n		if err != nil {\n			return err\n		}"))
R(P, CC, ("		if err := d.decodeNullableValue(fv.Addr()); err != nil {\n			if err == io.EOF {\n				break\n			}\n			return err\n		}", "		err := d.decodeNullableValue(fv.Addr())\n		switch err {\n		case nil:\n		case io.EOF:\n			return nil\n		default:\n			return err\n		}"))
R(P, CC, ("	if err := d.decodeValue(v); err == ErrNilValue {\n		elem := v.Elem()\n		elem.Set(reflect.Zero(elem.Type()))\n		return nil\n	} else {\n		return err\n	}", "	err := d.decodeValue(v)\n	if err != ErrNilValue {\n		return err\n	}\n	v.Elem().Set(reflect.Zero(v.Elem().Type()))\n	return nil"))
R(P, CC, ("			elem.Set(reflect.MakeSlice(elem.Type(), 0, 16))\n			for i := 0; true; i++ {\n				if elem.Cap() < i+1 {\n					ns := reflect.MakeSlice(elem.Type(), elem.Len(), elem.Cap()+16)\n					reflect.Copy(ns, elem)\n					elem.Set(ns)\n				}\n				elem.SetLen(i + 1)\n				err := d2.decodeNullableValue(elem.Index(i).Addr())\n				if err != nil {\n					if err == io.EOF {\n						elem.SetLen(i)\n						break\n					}\n					return err\n				}\n			}\n			return d.flush()", "			if err := decodeElems(d2, elem); err != nil {\n				return err\n			}\n			return d.flush()"), ("func (d *decoderImpl) decodeValue(", "func decodeElems(d2 *decoderImpl, elem reflect.Value) error {\n	elem.Set(reflect.MakeSlice(elem.Type(), 0, 16))\n	for i := 0; ; i++ {\n		if i >= elem.Cap() {\n			ns := reflect.MakeSlice(elem.Type(), elem.Len(), 2*elem.Cap())\n			reflect.Copy(ns, elem)\n			elem.Set(ns)\n		}\n		elem.SetLen(i + 1)\n		if err := d2.decodeNullableValue(elem.Index(i).Addr()); err == io.EOF {\n			elem.SetLen(i)\n			return nil\n		} else if err != nil {\n			return err\n		}\n	}\n}\n\nfunc (d *decoderImpl) decodeValue("))
R(P, CC, ("			for i := 0; true; i++ {\n				if elem.Cap() < i+1 {\n					ns := reflect.MakeSlice(elem.Type(), elem.Len(), elem.Cap()+16)\n					reflect.Copy(ns, elem)\n					elem.Set(ns)\n				}\n				elem.SetLen(i + 1)\n				err := d2.decodeNullableValue(elem.Index(i).Addr())\n				if err != nil {\n					if err == io.EOF {\n						elem.SetLen(i)\n						break\n					}\n					return err\n				}\n			}", "			for {\n				v2 := reflect.New(elem.Type().Elem())\n				err := d2.decodeNullableValue(v2)\n				if err == io.EOF {\n					break\n				}\n				if err != nil {\n					return err\n				}\n				elem.Set(reflect.Append(elem, v2.Elem()))\n			}"))
R(P, CC, ("			for i := 0; true; i++ {\n				if elem.Cap() < i+1 {", "			i := 0\n			for {\n				if elem.Cap() <= i {"), ("						elem.SetLen(i)\n						break\n					}\n					return err\n				}\n			}", "						elem.SetLen(i)\n						break\n					}\n					return err\n				}\n				i++\n			}"))
R(P, CC, ("		m := reflect.MakeMap(elem.Type())\n		for {", "		mt := elem.Type()\n		m := reflect.MakeMap(mt)\n		for {"), ("key := reflect.New(elem.Type().Key())", "key := reflect.New(mt.Key())"), ("value := reflect.New(elem.Type().Elem())", "value := reflect.New(mt.Elem())"))
R(P, CC, ("	switch o := o.(type) {\n	case *[]byte:\n		if b, err := d.real.ReadBytes(); err == ErrNilValue {\n			*o = nil\n			return nil\n		} else if err == nil {\n			*o = b\n			return nil\n		} else {\n			return err\n		}\n	case reflect.Value:\n		return d.decodeValue(o)\n", "	switch o := o.(type) {\n	case *[]byte:\n		return d.decodeBytesTo(o)\n	case reflect.Value:\n		return d.decodeValue(o)\n"), ("	switch o := o.(type) {\n	case *[]byte:\n		if b, err := d.real.ReadBytes(); err == ErrNilValue {\n			*o = nil\n			return nil\n		} else if err == nil {\n			*o = b\n			return nil\n		} else {\n			return err\n		}\n	case reflect.Value:\n		return d.decodeNullableValue(o)\n", "	switch o := o.(type) {\n	case *[]byte:\n		return d.decodeBytesTo(o)\n	case reflect.Value:\n		return d.decodeNullableValue(o)\n"), ("func (d *decoderImpl) decode(o", "func (d *decoderImpl) decodeBytesTo(o *[]byte) error {\n	b, err := d.real.ReadBytes()\n	switch err {\n	case nil:\n		*o = b\n	case ErrNilValue:\n		*o = nil\n	default:\n		return err\n	}\n	return nil\n}\n\nfunc (d *decoderImpl) decode(o"))
R(P, CC, ("	for _, obj := range objs {\n		if err := e.Encode(obj); err != nil {\n			return err\n		}\n	}\n	return nil", "	for i := 0; i < len(objs); i++ {\n		err := e.Encode(objs[i])\n		if err != nil {\n			return err\n		}\n	}\n	return nil"))
R(P, CC, ("	e2, err := e.EncodeList()\n	if err != nil {\n		return err\n	}\n	if err := e2.EncodeMulti(objs...); err != nil {\n		return err\n	}\n	return e.flush()", "	list, err := e.EncodeList()\n	if err != nil {\n		return err\n	}\n	for _, obj := range objs {\n		if err := list.Encode(obj); err != nil {\n			return err\n		}\n	}\n	return e.flush()"))
R(P, CC, ("	if e.child != nil {\n		if err := e.child.flushAndClose(); err != nil {\n			return err\n		}\n		e.child = nil\n	}\n	return nil", "	c := e.child\n	if c == nil {\n		return nil\n	}\n	err := c.flushAndClose()\n	if err == nil {\n		e.child = nil\n	}\n	return err"))
R(P, CC, ("	if v.Type().Implements(binaryMarshaler) {\n		if i, ok", "	vt := v.Type()\n	if vt.Implements(binaryMarshaler) {\n		if i, ok"))
R(P, CC, ("	if v.Type().Implements(encodeSelferType) {\n		if i, ok := v.Interface().(EncodeSelfer); ok {\n			if err := i.RLPEncodeSelf(e); err == nil {\n				return true, e.flush()\n			} else {\n				return true, err\n			}\n		}\n	}", "	if i, ok := v.Interface().(EncodeSelfer); ok {\n		err := i.RLPEncodeSelf(e)\n		if err == nil {\n			err = e.flush()\n		}\n		return true, err\n	}"))
R(P, CB, ("	buf := bytes.NewBuffer(nil)\n	if err := c.NewEncoder(buf).Encode(v); err != nil {", "	buf := new(bytes.Buffer)\n	if err := c.Marshal(buf, v); err != nil {"))
R(P, CC, ("	switch v.Kind() {\n	case reflect.Bool, reflect.Uint,", "	switch k := v.Kind(); k {\n	case reflect.Bool, reflect.Uint,"), ("		return cerrors.Wrapf(ErrIllegalType, \"IllegalType(%s)\", v.Kind())", "		return cerrors.Wrapf(ErrIllegalType, \"IllegalType(%s)\", k)"))
R(P, CC, ("	switch elem.Kind() {\n	case reflect.Bool", "	if isScalar(elem.Kind()) {\n		return d.real.ReadValue(elem)\n	}\n	switch elem.Kind() {\n	case reflect.Bool"), ("type encodeFunc func", "func isScalar(k reflect.Kind) bool {\n	switch k {\n	case reflect.Bool, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,\n		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.String:\n		return true\n	}\n	return false\n}\n\ntype encodeFunc func"))

P = "C24"
HB = "common/hexbytes.go"; HI = "common/hexint.go"; IS = "common/intconv/string.go"; ICT = "chain/icon/client/type.go"; ECT = "chain/ethbr/client/type.go"; BA = "common/types/btpaddress.go"
M(P, HB, ('	if len(s) >= 2 && s[0:2] == "0x" {\n		s = s[2:]', '	if len(s) >= 2 && s[0:2] == "0x" {\n		s = s[1:]'))
M(P, HB, ('	if len(s) >= 2 && s[0:2] == "0x" {\n		s = s[2:]', '	if len(s) >= 2 {\n		s = s[2:]'))
M(P, HB, ('	if len(s) >= 2 && s[0:2] == "0x" {\n', '	if len(s) > 66 && s[0:2] == "0x" {\n'))
M(P, HB, ('	if os == nil {\n		*hs = nil\n		return nil\n	}\n', '	if os == nil {\n		*hs = []byte{}\n		return nil\n	}\n'))
M(P, HB, ('	if hs == nil {\n		return []byte("null"), nil\n	}\n', '	if len(hs) == 0 {\n		return []byte("null"), nil\n	}\n'))
M(P, HB, ('	s := hex.EncodeToString(rh)', '	s := "0x" + hex.EncodeToString(rh)'))
M(P, HI, ('intconv.ParseInt(s, 16); err == nil {\n		i.Value = int16(v64)', 'intconv.ParseInt(s, 32); err == nil {\n		i.Value = int16(v64)'))
M(P, HI, ('intconv.ParseUint(s, 32); err == nil', 'intconv.ParseUint(s, 64); err == nil'))
M(P, HI, ('	if v64, err := intconv.ParseUint(s, 64); err == nil {\n		i.Value = v64', '	if v64, err := intconv.ParseInt(s, 64); err == nil {\n		i.Value = uint64(v64)'))
M(P, HI, ('	return intconv.FormatUint(i.Value)\n', '	return intconv.FormatInt(int64(i.Value))\n'))
M(P, HI, ('	return intconv.FormatUint(uint64(i.Value))\n', '	return intconv.FormatInt(int64(int32(i.Value)))\n'))
M(P, HI, ('func (i *HexUint64) RLPEncodeSelf(e codec.Encoder) error {\n	return e.Encode(i.Value)', 'func (i *HexUint64) RLPEncodeSelf(e codec.Encoder) error {\n	return e.Encode(int64(i.Value))'))
M(P, HI, ('func (i *HexInt64) UnmarshalJSON(b []byte) error {\n	var s string\n	if err := json.Unmarshal(b, &s); err != nil {\n		s = string(b)\n	}\n', 'func (i *HexInt64) UnmarshalJSON(b []byte) error {\n	var s string\n	if err := json.Unmarshal(b, &s); err != nil {\n		return err\n	}\n'))
M(P, HI, ('	if v64, err := intconv.ParseInt(s, 64); err == nil {\n		i.Value = v64\n		return nil\n	} else {\n		return err\n	}', '	v64, err := intconv.ParseInt(s, 64)\n	i.Value = v64\n	_ = err\n	return nil'))
M(P, HI, ('		if _, ok := i.SetString(s, 0); ok {\n', '		if _, ok := i.SetString(s, 10); ok {\n'))
M(P, HI, ('		return intconv.ParseBigInt(&i.Int, s)\n', '		if _, ok := i.SetString(s, 0); ok {\n			return nil\n		}\n		return intconv.ParseBigInt(&i.Int, s)\n'))
M(P, IS, ("	if s[0] == '0' {\n		s = s[1:]\n	}\n	if neg", "	if s[0] == '0' {\n		s = s[2:]\n	}\n	if neg"))
M(P, IS, ("	if s[0] == '0' {\n		s = s[1:]\n	}\n	if neg", "	if s[0] == '0' || len(s) > 16 {\n		s = s[1:]\n	}\n	if neg"))
M(P, IS, ('	return encodeHexNumber(i.Sign() < 0, i.Bytes())', '	return encodeHexNumber(i.Sign() <= 0, i.Bytes())'))
M(P, IS, ('	if neg {\n		i.Neg(i)\n	}\n', '	if neg && i.IsInt64() {\n		i.Neg(i)\n	}\n'))
M(P, IS, ('	if (len(s) % 2) == 1 {\n		s = "0" + s\n	}\n', '	if (len(s) % 2) == 1 {\n		s = s + "0"\n	}\n'))
M(P, IS, ('	if (len(s) % 2) == 1 {\n		s = "0" + s\n	}\n', '	if len(s) == 1 {\n		s = "0" + s\n	}\n'))
M(P, IS, ("			if u64 > edge {\n", "			if u64 > edge+1 {\n"))
M(P, IS, ("			if u64 >= edge {\n", "			if u64 > edge {\n"))
M(P, IS, ("		edge := (uint64(1)) << uint(bits-1)\n", "		edge := (uint64(1)) << uint(bits)\n"))
M(P, IS, ("		if len(bs)*8 > bits {\n			return 0, errors.New(\"OutOfRange\")\n		}\n		return BytesToSize(bs), nil", "		if len(bs) > bits {\n			return 0, errors.New(\"OutOfRange\")\n		}\n		return BytesToSize(bs), nil"))
M(P, IS, ("err == nil && !negative {\n		if len(bs)*8", "err == nil {\n		_ = negative\n		if len(bs)*8"))
M(P, IS, ("		bs = SizeToBytes(uint64(-v))\n		return encodeHexNumber(true, bs)", "		bs = SizeToBytes(uint64(-(v + 1)))\n		return encodeHexNumber(true, bs)"))
M(P, IS, ("	if v64, err := strconv.ParseInt(s, 0, bits); err == nil {", "	if v64, err := strconv.ParseInt(s, 0, 64); err == nil {"))
M(P, ICT, ('	if len(hs) < 2 {\n', '	if len(hs) < 1 {\n'))
M(P, ICT, ('hex.DecodeString(string(hs[2:]))', 'hex.DecodeString(string(hs))'))
M(P, ICT, ('	return HexBytes("0x" + hex.EncodeToString(b))', '	return HexBytes(hex.EncodeToString(b))'))
M(P, ICT, ('	v, err := intconv.ParseInt(string(i), 32)', '	v, err := intconv.ParseInt(string(i), 64)'))
M(P, ICT, ('	if len(a) != 42 {', '	if len(a) < 42 {'))
M(P, ICT, ('	case "cx":\n		b[0] = 1\n	case "hx":\n	default:', '	case "cx", "hx":\n		b[0] = 1\n	default:'))
M(P, ICT, ('	case "hx":\n	default:\n', '	case "hx":\n	case "0x":\n	default:\n'))
M(P, ICT, ('	n, err := hex.Decode(b[1:], []byte(a[2:]))\n	if err != nil {\n		return nil, err\n	}\n', '	n, err := hex.Decode(b[1:], []byte(a[2:]))\n	if err != nil && n == 0 {\n		return nil, err\n	}\n'))
M(P, ICT, ('	case 0:\n		return Address("hx" + hex.EncodeToString(b[1:]))\n	default:\n		return ""', '	default:\n		return Address("hx" + hex.EncodeToString(b[1:]))'))
M(P, ECT, ('	return strconv.ParseInt(s, 16, 64)', '	return strconv.ParseInt(s, 0, 64)'))
M(P, ECT, ('	v, err := strconv.ParseInt(s, 16, 32)', '	v, err := strconv.ParseInt(s, 16, 64)'))
M(P, ECT, ('	s := string(i)\n	if strings.HasPrefix(s, "0x") {\n		s = s[2:]\n	}\n	return strconv', '	s := strings.TrimLeft(string(i), "0x")\n	return strconv'))
M(P, BA, ('i > 0 {\n		return s[:i]', 'i >= 0 {\n		return s[:i]'))
M(P, BA, ('		if len(ss) > 2 {\n			return ss[2]', '		if len(ss) > 3 {\n			return ss[2]'))
M(P, BA, ('			return ss[0], ss[1]\n', '			return ss[0], ss[len(ss)-1]\n'))
M(P, BA, ('			return "", ss[0]\n', '			return ss[0], ""\n'))
M(P, BA, ('func (a BtpAddress) ContractAddress() string {\n	if a.Protocol() != "" {\n		ss := strings.Split(string(a), "/")\n		if len(ss) > 3 {\n			return ss[3]', 'func (a BtpAddress) ContractAddress() string {\n	if a.Protocol() != "" {\n		ss := strings.Split(string(a), "/")\n		if len(ss) > 3 {\n			return ss[len(ss)-1]'))
M(P, BA, ('func (a BtpAddress) Account() string {\n	if a.Protocol() != "" {\n		ss := strings.Split(string(a), "/")\n', 'func (a BtpAddress) Account() string {\n	if a.Protocol() != "" {\n		ss := strings.SplitN(string(a), "/", 4)\n'))
# refactorings
R(P, HB, ('	if len(s) >= 2 && s[0:2] == "0x" {\n		s = s[2:]\n	}\n	if bin, err := hex.DecodeString(s); err != nil {\n		return err\n	} else {\n		*hs = bin\n		return nil\n	}', '	bin, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))\n	if err != nil {\n		return err\n	}\n	*hs = bin\n	return nil'), ('	"fmt"\n', '	"fmt"\n	"strings"\n'))
R(P, HB, ('	if len(s) >= 2 && s[0:2] == "0x" {\n		s = s[2:]\n	}\n', '	if strings.HasPrefix(s, "0x") {\n		s = s[2:]\n	}\n'), ('	"fmt"\n', '	"fmt"\n	"strings"\n'))
R(P, HB, ('	if hs == nil {\n		return []byte("null"), nil\n	}\n	s := "0x" + hex.EncodeToString(hs)\n	return json.Marshal(s)', '	if hs == nil {\n		return []byte("null"), nil\n	}\n	return json.Marshal(hs.String())'))
R(P, HB, ('	return "0x" + hex.EncodeToString(hs)\n', '	return fmt.Sprintf("0x%x", []byte(hs))\n'))
R(P, HI, ('	if v64, err := intconv.ParseInt(s, 64); err == nil {\n		i.Value = v64\n		return nil\n	} else {\n		return err\n	}', '	v64, err := intconv.ParseInt(s, 64)\n	if err != nil {\n		return err\n	}\n	i.Value = v64\n	return nil'))
R(P, HI, ('func (i *HexInt64) UnmarshalJSON(b []byte) error {\n	var s string\n	if err := json.Unmarshal(b, &s); err != nil {\n		s = string(b)\n	}\n', 'func jsonText(b []byte) string {\n	var s string\n	if err := json.Unmarshal(b, &s); err != nil {\n		return string(b)\n	}\n	return s\n}\n\nfunc (i *HexInt64) UnmarshalJSON(b []byte) error {\n	s := jsonText(b)\n'))
R(P, HI, ('func (i HexUint16) String() string {\n	return intconv.FormatInt(int64(i.Value))', 'func (i HexUint16) String() string {\n	return intconv.FormatUint(uint64(i.Value))'))
R(P, HI, ('func (i *HexInt64) RLPEncodeSelf(e codec.Encoder) error {\n	return e.Encode(int64(i.Value))', 'func (i *HexInt64) RLPEncodeSelf(e codec.Encoder) error {\n	if err := e.Encode(i.Value); err != nil {\n		return err\n	}\n	return nil'))
R(P, IS, ('	if neg {\n		return "-0x" + s\n	} else {\n		return "0x" + s\n	}', '	s = "0x" + s\n	if neg {\n		return "-" + s\n	}\n	return s'))
R(P, IS, ('	if neg {\n		return "-0x" + s\n	} else {\n		return "0x" + s\n	}', '	prefix := "0x"\n	if neg {\n		prefix = "-0x"\n	}\n	return prefix + s'))
R(P, IS, ("	if len(s) > 0 && s[0] == '-' {\n", '	if strings.HasPrefix(s, "-") {\n'), ('	"strconv"\n', '	"strconv"\n	"strings"\n'))
R(P, IS, ('	if len(s) > 2 && s[0:2] == "0x" {\n', '	if len(s) > 2 && strings.HasPrefix(s, "0x") {\n'), ('	"strconv"\n', '	"strconv"\n	"strings"\n'))
R(P, IS, ('	if (len(s) % 2) == 1 {\n', '	if len(s)%2 != 0 {\n'))
R(P, IS, ('	if (len(s) % 2) == 1 {\n', '	if len(s)&1 == 1 {\n'))
R(P, IS, ('	if negative, bs, err := decodeHexNumber(s); err == nil {\n		if len(bs)*8 > bits {\n			return 0, errors.New("OutOfRange")\n		}\n		u64 := BytesToSize(bs)\n		edge := (uint64(1)) << uint(bits-1)\n		if negative {\n			if u64 > edge {\n				return 0, errors.New("OutOfRange")\n			}\n			return -int64(u64), nil\n		} else {\n			if u64 >= edge {\n				return 0, errors.New("OutOfRange")\n			}\n			return int64(u64), nil\n		}\n	} else {\n		return 0, err\n	}', '	negative, bs, err := decodeHexNumber(s)\n	if err != nil {\n		return 0, err\n	}\n	if bits < len(bs)*8 {\n		return 0, errors.New("OutOfRange")\n	}\n	u64 := BytesToSize(bs)\n	edge := uint64(1) << uint(bits-1)\n	switch {\n	case negative && u64 <= edge:\n		return -int64(u64), nil\n	case !negative && u64 < edge:\n		return int64(u64), nil\n	}\n	return 0, errors.New("OutOfRange")'))
R(P, IS, ('	var bs []byte\n	if v < 0 {\n		bs = SizeToBytes(uint64(-v))\n		return encodeHexNumber(true, bs)\n	} else {\n		bs = SizeToBytes(uint64(v))\n		return encodeHexNumber(false, bs)\n	}', '	neg := v < 0\n	if neg {\n		v = -v\n	}\n	return encodeHexNumber(neg, SizeToBytes(uint64(v)))'))
R(P, ICT, ('	switch a[:2] {\n	case "cx":\n		b[0] = 1\n	case "hx":\n	default:\n		return nil, fmt.Errorf("invalid prefix %s", a[:2])\n	}\n', '	prefix := a[:2]\n	if prefix == "cx" {\n		b[0] = 1\n	} else if prefix != "hx" {\n		return nil, fmt.Errorf("invalid prefix %s", prefix)\n	}\n'))
R(P, ICT, ('	n, err := hex.Decode(b[1:], []byte(a[2:]))\n	if err != nil {\n		return nil, err\n	}\n	if n != 20 {\n		return nil, fmt.Errorf("invalid length %d", n)\n	}\n	return b[:], nil', '	id, err := hex.DecodeString(string(a[2:]))\n	if err != nil {\n		return nil, err\n	}\n	copy(b[1:], id)\n	return b[:], nil'))
R(P, ICT, ('	if len(b) != 21 {\n		return ""\n	}\n	switch b[0] {\n	case 1:\n		return Address("cx" + hex.EncodeToString(b[1:]))\n	case 0:\n		return Address("hx" + hex.EncodeToString(b[1:]))\n	default:\n		return ""\n	}', '	prefix := ""\n	if len(b) == 21 {\n		switch b[0] {\n		case 0:\n			prefix = "hx"\n		case 1:\n			prefix = "cx"\n		}\n	}\n	if prefix == "" {\n		return ""\n	}\n	return Address(prefix + hex.EncodeToString(b[1:]))'))
R(P, ECT, ('	s := string(i)\n	if strings.HasPrefix(s, "0x") {\n		s = s[2:]\n	}\n	return strconv', '	s := strings.TrimPrefix(string(i), "0x")\n	return strconv'))
R(P, ECT, ('	s := string(i)\n	if strings.HasPrefix(s, "0x") {\n		s = s[2:]\n	}\n	return strconv.ParseInt(s, 16, 64)\n}\n', '	return i.parse(64)\n}\n\nfunc (i HexInt) parse(bits int) (int64, error) {\n	s := string(i)\n	if strings.HasPrefix(s, "0x") {\n		s = s[2:]\n	}\n	return strconv.ParseInt(s, 16, bits)\n}\n'))
R(P, ICT, ('	v := new(big.Int)\n	err := intconv.ParseBigInt(v, string(i))\n	return v, err', '	var v big.Int\n	if err := intconv.ParseBigInt(&v, string(i)); err != nil {\n		return nil, err\n	}\n	return &v, nil'))
R(P, BA, ('func (a BtpAddress) Account() string {\n	if a.Protocol() != "" {\n		ss := strings.Split(string(a), "/")\n		if len(ss) > 3 {\n			return ss[3]\n		}\n	}\n	return ""\n}\n', 'func (a BtpAddress) Account() string {\n	return a.part(3)\n}\n\nfunc (a BtpAddress) part(i int) string {\n	if a.Protocol() == "" {\n		return ""\n	}\n	ss := strings.Split(string(a), "/")\n	if i >= len(ss) {\n		return ""\n	}\n	return ss[i]\n}\n'))
R(P, BA, ('	if i := strings.Index(s, "://"); i > 0 {\n		return s[:i]\n	}\n	return ""', '	i := strings.Index(s, "://")\n	if i <= 0 {\n		return ""\n	}\n	return s[:i]'))
R(P, BA, ('		if len(ss) > 1 {\n			return ss[0], ss[1]\n		} else {\n			return "", ss[0]\n		}', '		if len(ss) == 1 {\n			return "", ss[0]\n		}\n		return ss[0], ss[1]'))
R(P, BA, ('func (a BtpAddress) ContractAddress() string {\n	if a.Protocol() != "" {\n		ss := strings.Split(string(a), "/")\n		if len(ss) > 3 {\n			return ss[3]\n		}\n	}\n	return ""\n}', 'func (a BtpAddress) ContractAddress() string {\n	return a.Account()\n}'))

P = "C12"
EE = "common/errors/errors.go"
M(P, EE, ('	return Wrapc(e, c, msg)\n', '	return Errorc(c, msg)\n'))
M(P, EE, ('	return Wrapcf(e, c, f, args...)\n', '	return Wrapf(e, f, args...)\n'))
M(P, EE, ('		return Wrapc(err, code, err.Error())\n', '		return err\n'))
M(P, EE, ('		return Wrapc(err, code, err.Error())\n', '		return Wrap(err, err.Error())\n'))
M(P, EE, ('		return Wrapc(err, code, err.Error())\n', '		return Errorc(code, err.Error())\n'))
M(P, EE, ('		error:  errors.New(msg),\n		code:   c,\n		origin: e,\n', '		error:  errors.New(msg),\n		code:   CodeOf(e),\n		origin: e,\n'))
M(P, EE, ('		error:  errors.Errorf(f, args...),\n		code:   c,\n		origin: e,\n', '		error:  errors.Errorf(f, args...),\n		code:   c,\n'))
M(P, EE, ('		error:  errors.Errorf(f, args...),\n		code:   c,\n		origin: e,\n', '		error:  errors.New(f),\n		code:   c,\n		origin: e,\n'))
M(P, EE, ('func (e *wrappedError) Unwrap() error {\n	return e.origin\n', 'func (e *wrappedError) Unwrap() error {\n	return e.error\n'))
M(P, EE, ('func (e *messageError) Unwrap() error {\n	return e.origin\n', 'func (e *messageError) Unwrap() error {\n	return e.error\n'))
M(P, EE, ('func (e *messageError) Unwrap() error {\n	return e.origin\n}\n', 'func (e *messageError) Unwrap() error {\n	return e.origin\n}\n\nfunc (e *messageError) ErrorCode() Code {\n	return UnknownError\n}\n'))
M(P, EE, ('func (e *wrappedError) Unwrap() error {\n	return e.origin\n}\n', 'func (e *wrappedError) Unwrap() error {\n	return e.origin\n}\n\nfunc (e *wrappedError) Cause() error {\n	return e.error\n}\n'))
M(P, EE, ('		if cause, ok := err.(causer); ok {\n			err = cause.Cause()\n		} else if unwrap, ok := err.(unwrapper); ok {\n			err = unwrap.Unwrap()\n		} else {\n			return false\n		}\n	}\n}\n\n// AsValue', '		if cause, ok := err.(causer); ok {\n			err = cause.Cause()\n		} else {\n			return false\n		}\n	}\n}\n\n// AsValue'))
M(P, EE, ('		if err == target {\n			return true\n		}\n		if cause', '		if err == target || CodeOf(err) == CodeOf(target) {\n			return true\n		}\n		if cause'))
M(P, EE, ('			value.Set(errValue)\n			return true\n', '			return true\n'))
M(P, EE, ('			value.Set(errValue)\n			return true\n', '			value.Set(errValue)\n			_ = valueType\n'))
M(P, EE, ('			value.Set(errValue)\n			return true\n', '			if value.IsNil() {\n				value.Set(errValue)\n			}\n			return true\n'))
M(P, EE, ('	for err != nil {\n		errValue', '	for {\n		errValue'))
M(P, EE, ('	if e == nil {\n		return false\n	}\n	return CodeOf(e) == c\n', '	return CodeOf(e) == c\n'))
M(P, EE, ('	return CodeOf(err) == e.code\n', '	return CodeOf(err) >= e.code\n'))
M(P, EE, ('	return UnknownError\n}\n\n// Unwrapper', '	return IllegalArgumentError\n}\n\n// Unwrapper'))
M(P, EE, ('	if AsValue(&coder, e) {\n		return coder, true\n	}\n	return nil, false\n', '	ok := AsValue(&coder, e)\n	if ok && coder.ErrorCode() != UnknownError {\n		return coder, true\n	}\n	return nil, false\n'))
M(P, EE, ('	if AsValue(&coder, e) {\n		return coder, true\n	}\n	return nil, false\n', '	coder, ok := e.(ErrorCoder)\n	return coder, ok\n'))
M(P, EE, ('	CodeGeneral Code = iota * 1000\n', '	CodeGeneral Code = iota * 1000\n'), ('	ErrTimeout         = NewBase(TimeoutError, "Timeout")', '	ErrTimeout         = NewBase(InvalidNetworkError, "Timeout")'))
M(P, EE, ('	TimeoutError\n)', '	TimeoutError = InvalidNetworkError\n)'))
M(P, EE, ('			fmt.Fprintf(f, "E%04d:%+v", e.code, e.error)\n			fmt.Fprintf(f, "\\nWrapping %+v", e.origin)\n', '			fmt.Fprintf(f, "E%04d:%+v", e.code, e.error)\n'))
M(P, EE, ('	case \'q\', \'s\':\n		fmt.Fprintf(f, "E%04d:%s", e.code, e.error)\n', '	case \'q\', \'s\':\n		fmt.Fprintf(f, "%s", e.error)\n'))
M(P, EE, ('	case \'q\', \'s\':\n		fmt.Fprintf(f, "E%04d:%s", e.code, e.error)\n', '	case \'q\', \'s\':\n		fmt.Fprintf(f, "E%04d:%s", e.code, e.origin)\n'))
M(P, EE, ('func Errorc(code Code, msg string) error {\n	return &codedError{\n		code:  code,\n', 'func Errorc(code Code, msg string) error {\n	return &codedError{\n		code:  CodeGeneral + code%1000,\n'))
R(P, EE, ('	return Wrapc(e, c, msg)\n', '	w := wrappedError{error: errors.New(msg), origin: e}\n	w.code = c\n	return &w\n'))
R(P, EE, ('	if _, ok := CoderOf(err); ok {\n		return Wrapc(err, code, err.Error())\n	}\n	return &codedError{\n		code:  code,\n		error: err,\n	}\n', '	_, coded := CoderOf(err)\n	if !coded {\n		return &codedError{code, err}\n	}\n	return Wrapc(err, code, err.Error())\n'))
R(P, EE, ('		error:  errors.Errorf(f, args...),\n		code:   c,\n		origin: e,\n', '		error:  errors.New(fmt.Sprintf(f, args...)),\n		code:   c,\n		origin: e,\n'))
R(P, EE, ('	return &wrappedError{\n		error:  errors.Errorf(f, args...),\n		code:   c,\n		origin: e,\n	}\n', '	return newWrapped(e, c, errors.Errorf(f, args...))\n'), ('type ErrorCoder interface {', 'func newWrapped(e error, c Code, m error) *wrappedError {\n	return &wrappedError{error: m, code: c, origin: e}\n}\n\ntype ErrorCoder interface {'))
R(P, EE, ('	if e == nil {\n		return false\n	}\n	return CodeOf(e) == c\n', '	return e != nil && CodeOf(e) == c\n'))
R(P, EE, ('	if coder, ok := CoderOf(e); ok {\n		return coder.ErrorCode()\n	}\n	return UnknownError\n', '	coder, ok := CoderOf(e)\n	if !ok {\n		return UnknownError\n	}\n	return coder.ErrorCode()\n'))
R(P, EE, ('	if coder, ok := CoderOf(e); ok {\n		return coder.ErrorCode()\n	}\n	return UnknownError\n', '	var coder ErrorCoder\n	if AsValue(&coder, e) {\n		return coder.ErrorCode()\n	}\n	return UnknownError\n'))
R(P, EE, ('		if cause, ok := err.(causer); ok {\n			err = cause.Cause()\n		} else if unwrap, ok := err.(unwrapper); ok {\n			err = unwrap.Unwrap()\n		} else {\n			return false\n		}\n	}\n}\n\n// AsValue', '		switch x := err.(type) {\n		case causer:\n			err = x.Cause()\n		case unwrapper:\n			err = x.Unwrap()\n		default:\n			return false\n		}\n	}\n}\n\n// AsValue'))
R(P, EE, ('		if cause, ok := err.(causer); ok {\n			err = cause.Cause()\n		} else if unwrap, ok := err.(unwrapper); ok {\n			err = unwrap.Unwrap()\n		} else {\n			return false\n		}\n	}\n	return false\n}\n', '		next, ok := causeOf(err)\n		if !ok {\n			return false\n		}\n		err = next\n	}\n	return false\n}\n\nfunc causeOf(err error) (error, bool) {\n	if c, ok := err.(interface{ Cause() error }); ok {\n		return c.Cause(), true\n	}\n	if u, ok := err.(Unwrapper); ok {\n		return u.Unwrap(), true\n	}\n	return nil, false\n}\n'), ('func AsValue(ptr interface{}, err error) bool {\n	type causer interface {\n		Cause() error\n	}\n\n	type unwrapper interface {\n		Unwrap() error\n	}\n\n', 'func AsValue(ptr interface{}, err error) bool {\n'))
R(P, EE, ('	for {\n		if err == target {\n			return true\n		}\n', '	for err != target {\n'), ('			return false\n		}\n	}\n}\n\n// AsValue', '			return false\n		}\n	}\n	return true\n}\n\n// AsValue'))
R(P, EE, ('	value := reflect.ValueOf(ptr)\n	if value.Kind() != reflect.Ptr {\n		return false\n	} else {\n		value = value.Elem()\n	}\n	valueType := value.Type()\n', '	pv := reflect.ValueOf(ptr)\n	if pv.Kind() != reflect.Ptr {\n		return false\n	}\n	value := pv.Elem()\n	valueType := value.Type()\n'))
R(P, EE, ('		errValue := reflect.ValueOf(err)\n		if errValue.Type().AssignableTo(valueType) {\n			value.Set(errValue)\n', '		if reflect.TypeOf(err).AssignableTo(valueType) {\n			value.Set(reflect.ValueOf(err))\n'))
R(P, EE, ('	case \'q\', \'s\':\n		fmt.Fprintf(f, "E%04d:%s", e.code, e.error)\n', '	case \'q\', \'s\':\n		_, _ = io.WriteString(f, fmt.Sprintf("E%04d:%s", e.code, e.Error()))\n'), ('	"fmt"\n', '	"fmt"\n	"io"\n'))

P = "C08"
LK = "common/link/link.go"; BR = "chain/icon/bridge/bridge.go"; B2 = "chain/icon/btp2/btp2.go"; ER = "chain/ethbr/receiver.go"; IS_ = "chain/icon/sender.go"; ES = "chain/ethbr/sender.go"; ICC = "chain/icon/client/client.go"; ECC = "chain/ethbr/client/client.go"; RM = "cmd/relay/main.go"; KS = "common/wallet/keystore.go"; MT = "common/mta/ext_accumulator.go"
M(P, LK, ('		if _, err := l.s.Relay(rm); err != nil {\n			return err\n		}\n', '		l.s.Relay(rm)\n'))
M(P, LK, ('		if _, err := l.s.Relay(rm); err != nil {\n			return err\n		}\n', '		if _, err := l.s.Relay(rm); err != nil {\n			l.l.Debugf("relay id:%d err:%+v", rm.Id(), err)\n		}\n'))
M(P, LK, ('			err := bu.UpdateBMCLinkStatus(bls)\n			if err != nil {\n				return err\n			}\n', '			_ = bu.UpdateBMCLinkStatus(bls)\n'))
M(P, LK, ('	if err := l.buildProof(rm.bls, nil); err != nil {\n		return err\n	}\n	return l.sendRelayMessage(rm.bls)\n', '	err := l.buildProof(rm.bls, nil)\n	err = l.sendRelayMessage(rm.bls)\n	return err\n'))
M(P, LK, ('				once.Do(func() {\n					err = l.checkStatus(bls)\n				})\n', '				once.Do(func() {\n					l.checkStatus(bls)\n				})\n'))
M(P, LK, ('	bf, err := l.r.BuildBlockProof(bls, height)\n	if err != nil {\n		return err\n	}\n', '	bf, err := l.r.BuildBlockProof(bls, height)\n	if err != nil {\n		return nil\n	}\n'))
M(P, LK, ('		scc, err := s.Start()\n		if err != nil {\n			errCh <- err\n			return\n		}\n', '		scc, err := s.Start()\n		if err != nil {\n			return\n		}\n'))
M(P, BR, ('	mgs, err := b.c.GetBTPMessage(pr)\n	if err != nil {\n		return nil, err\n	}\n', '	mgs, err := b.c.GetBTPMessage(pr)\n	if err != nil {\n		b.l.Debugf("no message at %d err:%+v", height, err)\n		return nil, nil\n	}\n'))
M(P, BR, ('		if err := b.Monitoring(bs); err != nil {\n			b.l.Errorf("fail to monitor err:%+v", err)\n		}\n', '		b.Monitoring(bs)\n'))
M(P, BR, ('	go func() {\n		if err := b.Monitoring(bs); err != nil {\n			b.l.Errorf("fail to monitor err:%+v", err)\n		}\n	}()\n', '	go b.Monitoring(bs)\n'))
M(P, B2, ('	p, err := base64.StdEncoding.DecodeString(pB64)\n	if err != nil {\n		return nil, nil, err\n	}\n', '	p, _ := base64.StdEncoding.DecodeString(pB64)\n'))
M(P, B2, ('		h, p, err := b.getBtpHeader(rs.Height())\n		if err != nil {\n			return nil, err\n		}\n', '		h, p, err := b.getBtpHeader(rs.Height())\n		if err != nil {\n			break\n		}\n'))
M(P, B2, ('		h, p, err := b.getBtpHeader(rs.Height())\n		if err != nil {\n			return nil, err\n		}\n', '		h, p, err := b.getBtpHeader(rs.Height())\n		if err != nil {\n			b.l.Warnf("skip block update height:%d err:%+v", rs.Height(), err)\n			continue\n		}\n'))
M(P, ES, ('		tx, err := s.c.GetTransactionReceipt(txh.Hash)\n		if err != nil {\n			return nil, err\n		}\n', '		tx, err := s.c.GetTransactionReceipt(txh.Hash)\n		if err != nil {\n			<-time.After(DefaultGetRelayResultInterval)\n			continue\n		}\n'))
M(P, ES, ('				code, err := strconv.Atoi(strings.TrimLeft(msgs[1], " "))\n				if err != nil {\n					return nil, err\n				}\n				return tx, client.NewRevertError(code)\n', '				if code, err := strconv.Atoi(strings.TrimLeft(msgs[1], " ")); err == nil {\n					return tx, client.NewRevertError(code)\n				}\n'))
M(P, ES, ('		} else {\n			s.l.Errorf("fail to get result rm id : %d err:%+v", id, err)\n		}\n', '		}\n'))
M(P, ECC, ('				if tbh, err := c.GetHeaderByHeight(h); err != nil {\n					c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)\n					return err\n				} else', '				if tbh, err := c.GetHeaderByHeight(h); err != nil {\n					c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)\n					continue\n				} else'))
M(P, ECC, ('				c.log.Info("Unable to get logs ", err)\n				return err\n', '				c.log.Info("Unable to get logs ", err)\n'))
M(P, ECC, ('	if txo.GasPrice, err = c.ethClient.SuggestGasPrice(context.Background()); err != nil {\n		return nil, err\n	}\n', '	txo.GasPrice, _ = c.ethClient.SuggestGasPrice(context.Background())\n'))
M(P, RM, ('			if srcWallet, err = cfg.Wallet(cfg.Src.KeyStorePass, cfg.Src.KeySecret, cfg.Src.KeyStoreData); err != nil {\n				return err\n			}\n\n', '			srcWallet, err = cfg.Wallet(cfg.Src.KeyStorePass, cfg.Src.KeySecret, cfg.Src.KeyStoreData)\n'))
M(P, RM, ('			if err := json.Unmarshal(cfg.Src.KeyStoreData, &srcKsData); err != nil {\n				return err\n			}\n', '			_ = json.Unmarshal(cfg.Src.KeyStoreData, &srcKsData)\n'))
R(P, LK, ('		if _, err := l.s.Relay(rm); err != nil {\n			return err\n		}\n', '		if err := l.relayOne(rm); err != nil {\n			return errors.New("fail to relay: " + err.Error())\n		}\n'), ('func (l *Link) getHeader(', 'func (l *Link) relayOne(rm *relayMessage) error {\n	_, err := l.s.Relay(rm)\n	return err\n}\n\nfunc (l *Link) getHeader('))
R(P, LK, ('		scc, err := s.Start()\n		if err != nil {\n			errCh <- err\n			return\n		}\n', '		scc, err := s.Start()\n		if l.reported(err, errCh) {\n			return\n		}\n'), ('func (l *Link) getHeader(', 'func (l *Link) reported(err error, errCh chan error) bool {\n	if err == nil {\n		return false\n	}\n	errCh <- err\n	return true\n}\n\nfunc (l *Link) getHeader('))
R(P, BR, ('	mgs, err := b.c.GetBTPMessage(pr)\n	if err != nil {\n		return nil, err\n	}\n\n	return mgs, nil\n', '	return b.c.GetBTPMessage(pr)\n'))
R(P, BR, ('	mgs, err := b.c.GetBTPMessage(pr)\n	if err != nil {\n		return nil, err\n	}\n\n	return mgs, nil\n', '	var out []string\n	mgs, err := b.c.GetBTPMessage(pr)\n	if err == nil {\n		out = mgs\n	}\n	return out, err\n'))
R(P, BR, ('	err := b.monitorBTP2Block(req, bs, onConn, onErr)\n	if err != nil {\n		return err\n	}\n	return nil\n', '	return b.monitorBTP2Block(req, bs, onConn, onErr)\n'))
R(P, B2, ('	pB64, err := b.c.GetBTPProof(pr)\n	if err != nil {\n		return nil, nil, err\n	}\n	p, err := base64.StdEncoding.DecodeString(pB64)\n	if err != nil {\n		return nil, nil, err\n	}\n\n	return h, p, nil\n', '	var p []byte\n	pB64, err := b.c.GetBTPProof(pr)\n	if err == nil {\n		p, err = base64.StdEncoding.DecodeString(pB64)\n	}\n	if err != nil {\n		return nil, nil, err\n	}\n	return h, p, nil\n'))
R(P, B2, ('func (b *btp2) getBtpHeader(height int64) ([]byte, []byte, error) {', 'func (b *btp2) getBtpHeader(height int64) (h, p []byte, err error) {'), ('	h, err := base64.StdEncoding.DecodeString(hB64)\n	if err != nil {\n		return nil, nil, err\n	}\n', '	if h, err = base64.StdEncoding.DecodeString(hB64); err != nil {\n		return\n	}\n'), ('	p, err := base64.StdEncoding.DecodeString(pB64)\n	if err != nil {\n		return nil, nil, err\n	}\n\n	return h, p, nil\n', '	p, err = base64.StdEncoding.DecodeString(pB64)\n	return\n'))
R(P, IS_, ('		txr, err := s.c.GetTransactionResult(txh)\n		if err != nil {\n			if je, ok := err.(*jsonrpc.Error); ok {\n				switch je.Code {\n				case client.JsonrpcErrorCodePending, client.JsonrpcErrorCodeExecuting:\n					<-time.After(DefaultGetRelayResultInterval)\n					continue\n				}\n			}\n		}\n		return txr, mapErrorWithTransactionResult(txr, err)\n', '		txr, err := s.c.GetTransactionResult(txh)\n		if notYet(err) {\n			<-time.After(DefaultGetRelayResultInterval)\n			continue\n		}\n		return txr, mapErrorWithTransactionResult(txr, err)\n'), ('func mapErrorWithTransactionResult(', 'func notYet(err error) bool {\n	je, ok := err.(*jsonrpc.Error)\n	return ok && (je.Code == client.JsonrpcErrorCodePending || je.Code == client.JsonrpcErrorCodeExecuting)\n}\n\nfunc mapErrorWithTransactionResult('))
R(P, ES, ('				code, err := strconv.Atoi(strings.TrimLeft(msgs[1], " "))\n				if err != nil {\n					return nil, err\n				}\n				return tx, client.NewRevertError(code)\n', '				code, err := strconv.Atoi(strings.TrimLeft(msgs[1], " "))\n				switch {\n				case err != nil:\n					return nil, err\n				default:\n					return tx, client.NewRevertError(code)\n				}\n'))
R(P, ES, ('	_, err := s.GetResult(txh)\n	if err != nil {\n		s.l.Debugf("result fail rm id : %d ", id)\n\n		if ec, ok := errors.CoderOf(err); ok {\n			s.sc <- &btpTypes.RelayResult{\n				Id:  id,\n				Err: ec.ErrorCode(),\n			}\n		} else {\n			s.l.Errorf("fail to get result rm id : %d err:%+v", id, err)\n		}\n	} else {\n		s.l.Debugf("result success rm id : %d ", id)\n	}\n', '	if _, err := s.GetResult(txh); err == nil {\n		s.l.Debugf("result success rm id : %d ", id)\n	} else {\n		s.l.Debugf("result fail rm id : %d ", id)\n		if ec, ok := errors.CoderOf(err); !ok {\n			s.l.Errorf("fail to get result rm id : %d err:%+v", id, err)\n		} else {\n			s.sc <- &btpTypes.RelayResult{Id: id, Err: ec.ErrorCode()}\n		}\n	}\n'))
R(P, RM, ('	if lv, err := log.ParseLevel(cfg.LogLevel); err != nil {\n		log.Panicf("Invalid log_level=%s", cfg.LogLevel)\n	} else {\n		l.SetLevel(lv)\n	}\n', '	lv, err := log.ParseLevel(cfg.LogLevel)\n	if err != nil {\n		log.Panicf("Invalid log_level=%s", cfg.LogLevel)\n	}\n	l.SetLevel(lv)\n'))

# --- C25 secrets
P="C25"; MN="cmd/relay/main.go"; KS="common/wallet/keystore.go"; LF="cmd/relay/linkfatory.go"; EW="common/wallet/wallet_evm.go"; IW="common/wallet/wallet.go"
M(P, MN, ('return errors.Errorf("fail to decrypt KeyStore err=%+v", err)', 'return errors.Errorf("fail to decrypt KeyStore pw=%q err=%+v", srcPw, err)'))
M(P, MN, ('				cfg.Dst.KeyStorePass = ""\n', ''))
M(P, MN, ('				cfg.Src.KeyStorePass = ""\n				cfg.Dst.KeyStorePass = ""\n', '				cfg.Src.KeyStorePass = ""\n				cfg.Src.KeyStorePass = ""\n'))
M(P, MN, ('				cfg.Src.KeyStorePass = ""\n				cfg.Dst.KeyStorePass = ""\n', '				if cfg.Src.KeySecret != "" {\n					cfg.Src.KeyStorePass = ""\n				}\n				cfg.Dst.KeyStorePass = ""\n'))
M(P, MN, ('cli.JsonPrettySaveFile(saveSrcKeyStore, 0600,', 'cli.JsonPrettySaveFile(saveSrcKeyStore, 0644,'))
M(P, MN, ('			log.Printf("Build   : %s", build)\n', '			log.Printf("Build   : %s", build)\n			log.Debugf("config: %+v", cfg)\n'))
M(P, MN, ('			log.Printf("Build   : %s", build)\n', '			log.Printf("Build   : %s", build)\n			log.Debugf("config: %+v", cfg.Src)\n'))
M(P, MN, ('	//rootVc.Debug()\n', '	rootVc.Debug()\n'))
M(P, MN, ('		return ioutil.ReadFile(keySecret)\n', '		b, err := ioutil.ReadFile(keySecret)\n		log.Tracef("secret file %s: %d bytes %s", keySecret, len(b), string(b))\n		return b, err\n'))
M(P, MN, ('	return wallet.DecryptKeyStore(keyStore, pw)', '	w, err := wallet.DecryptKeyStore(keyStore, pw)\n	if err != nil {\n		return nil, fmt.Errorf("fail to open key store with %d byte password %s: %v", len(pw), pw, err)\n	}\n	return w, nil'))
M(P, MN, ('			return []byte(keyStorePass), nil\n', '			fmt.Println("using password from configuration", keyStorePass)\n			return []byte(keyStorePass), nil\n'))
M(P, KS, ('	ks.Crypto.CipherText = cipherText\n', '	ks.Crypto.CipherText = secret\n'))
M(P, KS, ('		return nil, fmt.Errorf("recovered address is mismatched, %s, expected:%s",\n			address.String(), ksData.Address.String())', '		return nil, fmt.Errorf("recovered address of %s is mismatched, %s, expected:%s",\n			secret, address.String(), ksData.Address.String())'))
M(P, KS, ('	secret, err := crypto.ParsePrivateKey(secretBytes)\n	if err != nil {\n		return nil, err\n', '	secret, err := crypto.ParsePrivateKey(secretBytes)\n	if err != nil {\n		return nil, errors.Wrapf(err, "invalid private key %x", secretBytes)\n'))
M(P, KS, ('		return nil, errors.Errorf("InvalidPassword")', '		return nil, errors.Errorf("InvalidPassword(%s)", pw)'))
M(P, EW, ('	return crypto.FromECDSAPub(w.Pkey)', '	return crypto.FromECDSA(w.Skey)'))
M(P, IW, ('	return w.pkey.SerializeCompressed()', '	return w.skey.Bytes()'))
M(P, "common/cli/helper.go", ('	if err := ioutil.WriteFile(filename, b, perm); err != nil {', '	if err := ioutil.WriteFile(filename, b, perm|0044); err != nil {'))
M(P, "common/cli/helper.go", ('	if err := ioutil.WriteFile(filename, b, perm); err != nil {', '	if err := ioutil.WriteFile(filename, b, 0644); err != nil {'))
R(P, MN, ('				cfg.Src.KeyStorePass = ""\n				cfg.Dst.KeyStorePass = ""\n', '				cfg.forgetPasswords()\n'), ('func (c *Config) EnsureWallet', 'func (c *Config) forgetPasswords() {\n	c.Src.KeyStorePass = ""\n	c.Dst.KeyStorePass = ""\n}\n\nfunc (c *Config) EnsureWallet'))
R(P, MN, ('				cfg.Src.KeyStorePass = ""\n				cfg.Dst.KeyStorePass = ""\n', '				cfg.Src.KeyStorePass, cfg.Dst.KeyStorePass = "", ""\n'))
R(P, MN, ('				cfg.Src.KeyStorePass = ""\n				cfg.Dst.KeyStorePass = ""\n', '				for _, b := range []*chain.BaseConfig{&cfg.Src, &cfg.Dst} {\n					b.KeyStorePass = ""\n				}\n'))
R(P, MN, ('			} else {\n				cfg.Src.KeyStorePass = ""\n				cfg.Dst.KeyStorePass = ""\n			}\n			return nil\n', '			}\n			return nil\n'), ('			if err := cli.JsonPrettySaveFile(saveFilePath, 0644, cfg); err != nil {', '			cfg.Src.KeyStorePass = ""\n			cfg.Dst.KeyStorePass = ""\n			if err := cli.JsonPrettySaveFile(saveFilePath, 0644, cfg); err != nil {'))
R(P, MN, ('			} else {\n				cfg.Src.KeyStorePass = ""\n				cfg.Dst.KeyStorePass = ""\n			}\n			return nil\n', '			}\n			return nil\n'), ('			if err := cli.JsonPrettySaveFile(saveFilePath, 0644, cfg); err != nil {', '			saved := *cfg\n			saved.Src.KeyStorePass = ""\n			saved.Dst.KeyStorePass = ""\n			if err := cli.JsonPrettySaveFile(saveFilePath, 0644, &saved); err != nil {'))
R(P, MN, ('			log.Printf("Build   : %s", build)\n', '			log.Printf("Build   : %s", build)\n			log.Debugf("src %s %s dst %s %s secret file %s", cfg.Src.Address, cfg.Src.Endpoint, cfg.Dst.Address, cfg.Dst.Endpoint, cfg.Src.KeySecret)\n'))
R(P, MN, ('		return ioutil.ReadFile(keySecret)\n', '		b, err := ioutil.ReadFile(keySecret)\n		if err != nil {\n			return nil, fmt.Errorf("fail to read %s err:%+v", keySecret, err)\n		}\n		log.Debugf("password of %d bytes", len(b))\n		return b, nil\n'))
R(P, MN, ('	return wallet.DecryptKeyStore(keyStore, pw)', '	w, err := wallet.DecryptKeyStore(keyStore, pw)\n	if err != nil {\n		return nil, fmt.Errorf("fail to open key store: %v", err)\n	}\n	log.Debugf("wallet %s", w.Address())\n	return w, nil'))
R(P, MN, ('				if err := cli.JsonPrettySaveFile(saveSrcKeyStore, 0600, cfg.Src.KeyStoreData); err != nil {\n					return err\n				}\n', '				if err := saveKeyStore(saveSrcKeyStore, cfg.Src.KeyStoreData); err != nil {\n					return err\n				}\n'), ('func setLogger(', 'const keyStoreMode = 0600\n\nfunc saveKeyStore(file string, data json.RawMessage) error {\n	return cli.JsonPrettySaveFile(file, keyStoreMode, data)\n}\n\nfunc setLogger('))
R(P, MN, ('type Config struct {', 'type keyPass struct {\n	file, text string\n}\n\nfunc (k keyPass) resolve() ([]byte, error) {\n	if k.file != "" {\n		return ioutil.ReadFile(k.file)\n	}\n	if k.text == "" {\n		return []byte(DefaultKeyStorePass), nil\n	}\n	return []byte(k.text), nil\n}\n\ntype Config struct {'), ('	if keySecret != "" {\n		return ioutil.ReadFile(keySecret)\n	} else {\n		if keyStorePass == "" {\n			return []byte(DefaultKeyStorePass), nil\n		} else {\n			return []byte(keyStorePass), nil\n		}\n	}\n', '	return keyPass{keySecret, keyStorePass}.resolve()\n'))
R(P, KS, ('	secret := s.Bytes()\n	cipherText := make([]byte, len(secret))\n	enc := cipher.NewCTR(b, c.IV)\n	enc.XORKeyStream(cipherText, secret)\n', '	cipherText := sealWith(b, c.IV, s.Bytes())\n'), ('func EncryptKeyAsKeyStore', 'func sealWith(b cipher.Block, iv, in []byte) []byte {\n	out := make([]byte, len(in))\n	cipher.NewCTR(b, iv).XORKeyStream(out, in)\n	return out\n}\n\nfunc EncryptKeyAsKeyStore'))
R(P, KS, ('	cipherText := make([]byte, len(secret))\n	enc := cipher.NewCTR(b, c.IV)\n	enc.XORKeyStream(cipherText, secret)\n', '	cipherText := xorCTR(b, c.IV, secret)\n'), ('	secretBytes := make([]byte, len(cipheredBytes))\n\n	stream := cipher.NewCTR(block, cipherParams.IV.Bytes())\n	stream.XORKeyStream(secretBytes, cipheredBytes)\n', '	secretBytes := xorCTR(block, cipherParams.IV.Bytes(), cipheredBytes)\n'), ('func EncryptKeyAsKeyStore', 'func xorCTR(b cipher.Block, iv, in []byte) []byte {\n	out := make([]byte, len(in))\n	cipher.NewCTR(b, iv).XORKeyStream(out, in)\n	return out\n}\n\nfunc EncryptKeyAsKeyStore'))
P="C10,C01,C02"
R(P, lk, ("		if _, err := l.s.Relay(rm); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n", "		if err := l.relayOne(rm); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc (l *Link) relayOne(rm *relayMessage) error {\n	_, err := l.s.Relay(rm)\n	return err\n}\n"))
R(P, lk, ("		l.rms = append(l.rms, rm)\n		if _, err := l.s.Relay(rm); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n", "		if err := l.relayOne(rm); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc (l *Link) relayOne(rm *relayMessage) error {\n	l.rms = append(l.rms, rm)\n	_, err := l.s.Relay(rm)\n	return err\n}\n"))
R(P, lk, ("	for _, rm := range rms {\n		l.rms = append(l.rms, rm)\n		if _, err := l.s.Relay(rm); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n", "	return l.relayAll(rms)\n}\n\nfunc (l *Link) relayAll(rms []*relayMessage) error {\n	for _, rm := range rms {\n		l.rms = append(l.rms, rm)\n		if _, err := l.s.Relay(rm); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n"))
M("C10", lk, ("		l.rms = append(l.rms, rm)\n		if _, err := l.s.Relay(rm); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n", "		if err := l.relayOne(rm); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc (l *Link) relayOne(rm *relayMessage) error {\n	_, err := l.s.Relay(rm)\n	return err\n}\n"))

# --- the hash written with a digest object
P="C16,C15,C19,C06"; HF="common/crypto/hash.go"
R(P, HF, ("	d := sha3.Sum256(m)\n	return d[:]", "	h := sha3.New256()\n	h.Write(m)\n	return h.Sum(nil)"))
R(P, HF, ("	d := sha3.Sum256(m)\n	return d[:]", "	h := sha3.New256()\n	_, _ = h.Write(m)\n	return h.Sum([]byte{})"))
M("C16", HF, ("	d := sha3.Sum256(m)\n	return d[:]", "	h := sha3.New256()\n	h.Write(m)\n	return h.Sum(m[:0])"))
M("C19", HF, ("	d := sha3.Sum256(m)\n	return d[:]", "	h := sha3.New256()\n	if len(m) > 0 {\n		h.Write(m[:len(m)-1])\n	}\n	return h.Sum(nil)"))
M("C16", HF, ("	d := sha3.Sum256(m)\n	return d[:]", "	h := sha3.NewLegacyKeccak256()\n	h.Write(m)\n	return h.Sum(nil)"))

# --- C26: the log
P="C26"; LF="common/log/filter.go"; LL="common/log/log.go"; FW="common/log/forwarder.go"; FO="common/log/formatter.go"; LW="common/log/writer.go"; FC="common/config/fileconfig.go"; MN="cmd/relay/main.go"
M(P, LF, ("	if e.Level > logrus.Level(level) && f.fileWriter == nil {", "	if e.Level > logrus.Level(level) {"))
M(P, LF, ("	if e.Level > logrus.Level(level) {\n		return nil, nil\n	}\n	return buf", "	if e.Level >= logrus.Level(level) {\n		return nil, nil\n	}\n	return buf"))
M(P, LF, ("	if e.Level > logrus.Level(level) {\n		return nil, nil\n	}\n	return buf", "	if e.Level > logrus.Level(f.defaultLevel) {\n		return nil, nil\n	}\n	return buf"))
M(P, LF, ("	if e.Level > logrus.Level(level) {\n		return nil, nil\n	}\n	return buf", "	return buf"))
M(P, LF, ("			level = lv\n", "			if lv > level {\n				level = lv\n			}\n"))
M(P, LF, ("			level = lv\n", "			if lv < level {\n				level = lv\n			}\n"))
M(P, LF, ("!ok {\n		if e.HasCaller() {", "!ok || e.HasCaller() {\n		if e.HasCaller() {"))
M(P, LF, ("		f.fileWriter.Write(buf)\n	}\n", "		if e.Level <= logrus.Level(f.filterLevel) && e.Level < logrus.TraceLevel {\n			f.fileWriter.Write(buf)\n		}\n	}\n"))
M(P, LF, ("		f.fileWriter.Write(buf)\n", "		f.fileWriter.Write(buf[:len(buf)-1])\n"))
M(P, LF, ("		defaultLevel: TraceLevel,", "		defaultLevel: InfoLevel,"))
M(P, LF, ("	f.moduleLevels[module] = level\n", "	if level < f.defaultLevel {\n		f.moduleLevels[module] = level\n	}\n"))
M(P, LF, ("	f.defaultLevel = level\n", "	f.filterLevel = level\n"))
M(P, LF, ("	f.defaultLevel = level\n", "	f.defaultLevel = level\n	f.moduleLevels = map[string]Level{}\n"))
M(P, LF, ("	f.fileWriter = writer\n", "	if f.fileWriter == nil {\n		f.fileWriter = writer\n	}\n"))
M(P, LF, ("		return lv\n	} else {\n		return f.defaultLevel\n	}", "		return f.defaultLevel\n	} else {\n		return lv\n	}"))
M(P, LL, ("	w.Entry.Logger.SetLevel(logrus.Level(lv))", "	if logrus.Level(lv) > w.Entry.Logger.GetLevel() {\n		w.Entry.Logger.SetLevel(logrus.Level(lv))\n	}"))
M(P, LL, ("	return w.Entry.WriterLevel(logrus.Level(lv))", "	return w.Entry.Writer()"))
M(P, LL, ("		w.Entry.WithFields(logrus.Fields(fields)),", "		w.Entry.Logger.WithFields(logrus.Fields(fields)),"))
M(P, LL, ("	w.Entry.Logf(logrus.Level(lv), format, args...)", "	w.Entry.Logf(logrus.Level(lv), format)"))
M(P, LL, ("	w.Logger.Logln(logrus.Level(lv), args...)", "	w.Logger.Log(logrus.Level(lv), args...)"))
M(P, LL, ('	case "warn":\n		return WarnLevel, nil', '	case "warn", "warning":\n		return WarnLevel, nil\n	case "err":\n		return WarnLevel, nil'))
M(P, LL, ('	case "fatal":\n		return FatalLevel, nil\n	case "error":\n		return ErrorLevel, nil', '	case "fatal", "error":\n		return FatalLevel, nil'))
M(P, LL, ("	default:\n		return DebugLevel,\n			errors.IllegalArgumentError.Errorf(\"Invalid log level str=%s\", s)", "	case \"\":\n		return DebugLevel, nil\n	default:\n		return DebugLevel,\n			errors.IllegalArgumentError.Errorf(\"Invalid log level str=%s\", s)"))
M(P, LL, ("	switch strings.ToLower(s) {", "	switch s {"))
M(P, LL, ("	Warnf = logger.Warnf", "	Warnf = logger.Infof"))
M(P, LL, ("	Fatalln = logger.Fatalln\n", ""))
M(P, LL, ("	Fatalln = logger.Fatalln\n", "	Fatalln = logger.Panicln\n"))
M(P, LL, ("	globalLogger = logger\n\n", "	if globalLogger == nil {\n		globalLogger = logger\n	}\n\n"))
M(P, LL, ("	logger.SetReportCaller(true)\n", ""))
M(P, LL, ('	lastSlash := strings.LastIndex(f, "/")', '	lastSlash := strings.Index(f, "/")'))
M(P, FW, ("	case WarnLevel:\n		lvs = append(lvs, logrus.WarnLevel)\n		fallthrough\n", "	case WarnLevel:\n		lvs = append(lvs, logrus.WarnLevel)\n"))
M(P, FW, ("		lvs = append(lvs, logrus.FatalLevel)\n		fallthrough\n	case PanicLevel:\n		lvs = append(lvs, logrus.PanicLevel)\n", "		lvs = append(lvs, logrus.FatalLevel)\n"))
M(P, FW, ("		h, err = newHook(c, logstashHookCreater)", "		h, err = newHook(c, fluentHookCreater)"))
M(P, FW, ("	globalLogger.addHook(h)\n", "	if len(c.Options) == 0 {\n		globalLogger.addHook(h)\n	}\n"))
M(P, FW, ("	defer func() {\n		e.Data = d\n	}()\n", ""))
M(P, FW, ("	for k, v := range d {\n		e.Data[k] = v\n	}", "	for k, v := range d {\n		if !systemFields[k] {\n			e.Data[k] = v\n		}\n	}"))
M(P, FW, ("	err := h.h.Fire(e)\n	return err", "	_ = h.h.Fire(e)\n	return nil"))
M(P, FW, ("logrustash.NewHook(network, hostPort, c.Name)", "logrustash.NewHook(network, hostPort+\"/\"+c.Address, c.Name)"))
M(P, FO, ("	for k, v := range e.Data {", "	for k, v := range e.Data {\n		if v == nil {\n			continue\n		}"))
M(P, FO, ("	buf.WriteString(strings.TrimRight(e.Message, \"\\n\"))\n", "	if e.Level != logrus.TraceLevel {\n		buf.WriteString(strings.TrimRight(e.Message, \"\\n\"))\n	}\n"))
M(P, FO, ('[]string{"P", "F", "E", "W", "I", "D", "T"}', '[]string{"P", "F", "E", "W", "D", "I", "T"}'))
M(P, LW, ("		MaxAge:     cfg.MaxAge,\n		MaxBackups: cfg.MaxBackups,", "		MaxAge:     cfg.MaxBackups,\n		MaxBackups: cfg.MaxAge,"))
M(P, FC, ("	if c.FilePath == \"\" {\n		r, _ := filepath.Abs(targetPath)\n		return r\n	}\n	return filepath.Clean(path.Join(filepath.Dir(c.FilePath), targetPath))", "	r, _ := filepath.Abs(path.Clean(targetPath))\n	return r"))
M(P, FC, ("	return filepath.Clean(path.Join(filepath.Dir(c.FilePath), targetPath))", "	return filepath.Clean(path.Join(filepath.Dir(c.FilePath), c.BaseDir, targetPath))"))
M(P, FC, ("	r, _ := filepath.Rel(base, absPath)", "	r, _ := filepath.Rel(absPath, base)"))
M(P, MN, ("		l.SetConsoleLevel(lv)\n", "		l.SetLevel(lv)\n"))
M(P, MN, ("log.ParseLevel(cfg.ConsoleLevel); err", "log.ParseLevel(cfg.LogLevel); err"))
M(P, MN, ("		log.Panicf(\"Invalid log_level=%s\", cfg.LogLevel)\n", "		log.Warnf(\"Invalid log_level=%s\", cfg.LogLevel)\n"))
M(P, MN, ("			l.SetModuleLevel(mod, lv)\n", "			l.SetModuleLevel(strings.ToLower(mod), lv)\n"))
M(P, MN, ('cfg.LogForwarder.Vendor == "" && cfg.LogForwarder.Address == ""', 'cfg.LogForwarder.Vendor == "" || cfg.LogForwarder.Address == ""'))
M(P, MN, ("			lwCfg.Filename = cfg.ResolveAbsolute(lwCfg.Filename)\n", ""))
M(P, MN, ("	log.SetGlobalLogger(l)\n", ""))
M(P, MN, ("				log.Fatalf(\"Invalid log_forwarder err:%+v\", err)\n", "				log.Errorf(\"Invalid log_forwarder err:%+v\", err)\n"))
# refactorings
R(P, LF, ("	level := f.defaultLevel\n\n	var module string\n	if value, ok := e.Data[FieldKeyModule]; !ok {\n		if e.HasCaller() {\n			module = getPackageName(e.Caller.Function)\n		}\n	} else {\n		module = value.(string)\n	}\n\n	if len(module) > 0 {\n		if lv, ok := f.moduleLevels[module]; ok {\n			level = lv\n		}\n	}\n", "	level := f.levelOf(moduleOf(e))\n"), ("func (f *logFilter) SetModuleLevel", "func moduleOf(e *logrus.Entry) string {\n	if value, ok := e.Data[FieldKeyModule]; ok {\n		return value.(string)\n	}\n	if e.HasCaller() {\n		return getPackageName(e.Caller.Function)\n	}\n	return \"\"\n}\n\nfunc (f *logFilter) levelOf(module string) Level {\n	if module == \"\" {\n		return f.defaultLevel\n	}\n	return f.GetModuleLevel(module)\n}\n\nfunc (f *logFilter) SetModuleLevel"))
R(P, LF, ("	if len(module) > 0 {\n		if lv, ok := f.moduleLevels[module]; ok {\n			level = lv\n		}\n	}\n", "	if lv, ok := f.moduleLevels[module]; len(module) > 0 && ok {\n		level = lv\n	}\n"))
R(P, LF, ("	if e.Level > logrus.Level(level) && f.fileWriter == nil {\n		return nil, nil\n	}\n	buf, err := f.formatter.Format(e)\n	if f.fileWriter != nil && len(buf) > 0 {\n		f.fileWriter.Write(buf)\n	}\n	if e.Level > logrus.Level(level) {\n		return nil, nil\n	}\n	return buf, err", "	hidden := e.Level > logrus.Level(level)\n	if hidden && f.fileWriter == nil {\n		return nil, nil\n	}\n	buf, err := f.formatter.Format(e)\n	f.toFile(buf)\n	if hidden {\n		return nil, nil\n	}\n	return buf, err"), ("func (f *logFilter) SetModuleLevel", "func (f *logFilter) toFile(buf []byte) {\n	if f.fileWriter == nil || len(buf) == 0 {\n		return\n	}\n	f.fileWriter.Write(buf)\n}\n\nfunc (f *logFilter) SetModuleLevel"))
R(P, LF, ("	if e.Level > logrus.Level(level) {\n		return nil, nil\n	}\n	return buf, err", "	if Level(e.Level) <= level {\n		return buf, err\n	}\n	return nil, nil"))
R(P, LF, ("		return lv\n	} else {\n		return f.defaultLevel\n	}", "		return lv\n	}\n	return f.defaultLevel"))
R(P, LF, ("		return lv\n	} else {\n		return f.defaultLevel\n	}", "		return lv\n	}\n	return f.GetDefaultLevel()"))
R(P, LL, ("	w.Logger.Formatter.(*logFilter).SetDefaultLevel(lv)\n}\n\nfunc (w entryWrapper) GetConsoleLevel() Level {\n	return w.Logger.Formatter.(*logFilter).GetDefaultLevel()\n}", "	w.filter().SetDefaultLevel(lv)\n}\n\nfunc (w entryWrapper) filter() *logFilter {\n	return w.Entry.Logger.Formatter.(*logFilter)\n}\n\nfunc (w entryWrapper) GetConsoleLevel() Level {\n	f := w.filter()\n	return f.defaultLevel\n}"))
R(P, LL, ("func (w entryWrapper) SetModuleLevel(mod string, lv Level) {\n	w.Logger.Formatter", "func (w *entryWrapper) SetModuleLevel(mod string, lv Level) {\n	w.Logger.Formatter"))
R(P, LL, ("	switch strings.ToLower(s) {\n	case \"panic\":\n		return PanicLevel, nil\n	case \"fatal\":\n		return FatalLevel, nil\n	case \"error\":\n		return ErrorLevel, nil\n	case \"warn\":\n		return WarnLevel, nil\n	case \"info\":\n		return InfoLevel, nil\n	case \"debug\":\n		return DebugLevel, nil\n	case \"trace\":\n		return TraceLevel, nil\n	default:\n		return DebugLevel,\n			errors.IllegalArgumentError.Errorf(\"Invalid log level str=%s\", s)\n	}\n}", "	if lv, ok := levelsByName[strings.ToLower(s)]; ok {\n		return lv, nil\n	}\n	return DebugLevel, errors.IllegalArgumentError.Errorf(\"Invalid log level str=%s\", s)\n}\n\nvar levelsByName = map[string]Level{\n	\"panic\": PanicLevel,\n	\"fatal\": FatalLevel,\n	\"error\": ErrorLevel,\n	\"warn\":  WarnLevel,\n	\"info\":  InfoLevel,\n	\"debug\": DebugLevel,\n	\"trace\": TraceLevel,\n}"))
M(P, LL, ("	switch strings.ToLower(s) {\n	case \"panic\":\n		return PanicLevel, nil\n	case \"fatal\":\n		return FatalLevel, nil\n	case \"error\":\n		return ErrorLevel, nil\n	case \"warn\":\n		return WarnLevel, nil\n	case \"info\":\n		return InfoLevel, nil\n	case \"debug\":\n		return DebugLevel, nil\n	case \"trace\":\n		return TraceLevel, nil\n	default:\n		return DebugLevel,\n			errors.IllegalArgumentError.Errorf(\"Invalid log level str=%s\", s)\n	}\n}", "	if lv, ok := levelsByName[strings.ToLower(s)]; ok {\n		return lv, nil\n	}\n	return DebugLevel, errors.IllegalArgumentError.Errorf(\"Invalid log level str=%s\", s)\n}\n\nvar levelsByName = map[string]Level{\n	\"panic\": PanicLevel,\n	\"fatal\": FatalLevel,\n	\"error\": WarnLevel,\n	\"warn\":  WarnLevel,\n	\"info\":  InfoLevel,\n	\"debug\": DebugLevel,\n	\"trace\": TraceLevel,\n}"))
R(P, LL, ("	switch strings.ToLower(s) {\n	case \"panic\":\n		return PanicLevel, nil\n	case \"fatal\":\n		return FatalLevel, nil\n	case \"error\":\n		return ErrorLevel, nil\n	case \"warn\":\n		return WarnLevel, nil\n	case \"info\":\n		return InfoLevel, nil\n	case \"debug\":\n		return DebugLevel, nil\n	case \"trace\":\n		return TraceLevel, nil\n	default:\n		return DebugLevel,\n", "	name := strings.ToLower(s)\n	for lv := PanicLevel; lv <= TraceLevel; lv++ {\n		if lv.String() == name {\n			return lv, nil\n		}\n	}\n	{\n		return DebugLevel,\n"))
R(P, LL, ("	switch l {\n	case TraceLevel:\n		return \"trace\"\n", "	if l == TraceLevel {\n		return \"trace\"\n	}\n	switch l {\n"))
R(P, LL, ("	Trace = logger.Trace\n	Tracef = logger.Tracef\n	Traceln = logger.Traceln\n", "	setTrace(logger)\n"), ("func WithFields(", "func setTrace(logger Logger) {\n	Trace, Tracef, Traceln = logger.Trace, logger.Tracef, logger.Traceln\n}\n\nfunc WithFields("))
R(P, LL, ('	lastSlash := strings.LastIndex(f, "/")\n	if lastSlash >= 0 {\n		f = f[lastSlash+1:]\n	}\n', '	f = f[strings.LastIndex(f, "/")+1:]\n'))
R(P, LL, ("	logger.SetReportCaller(true)\n", "	logger.ReportCaller = true\n"))
R(P, FW, ("	lvs := make([]logrus.Level, 0)\n	switch lv {\n	case TraceLevel:\n		lvs = append(lvs, logrus.TraceLevel)\n		fallthrough\n	case DebugLevel:\n		lvs = append(lvs, logrus.DebugLevel)\n		fallthrough\n	case InfoLevel:\n		lvs = append(lvs, logrus.InfoLevel)\n		fallthrough\n	case WarnLevel:\n		lvs = append(lvs, logrus.WarnLevel)\n		fallthrough\n	case ErrorLevel:\n		lvs = append(lvs, logrus.ErrorLevel)\n		fallthrough\n	case FatalLevel:\n		lvs = append(lvs, logrus.FatalLevel)\n		fallthrough\n	case PanicLevel:\n		lvs = append(lvs, logrus.PanicLevel)\n	}\n", "	lvs := make([]logrus.Level, 0)\n	for _, l := range logrus.AllLevels {\n		if l <= logrus.Level(lv) {\n			lvs = append(lvs, l)\n		}\n	}\n"))
R(P, FW, ("	err := h.h.Fire(e)\n	return err", "	return h.h.Fire(e)"))
R(P, FW, ("	d := e.Data\n	defer func() {\n		e.Data = d\n	}()\n	e.Data = make(map[string]interface{}, len(d)+2)\n	for k, v := range d {\n		e.Data[k] = v\n	}\n", "	d := e.Data\n	data := make(map[string]interface{}, len(d)+2)\n	for k, v := range d {\n		data[k] = v\n	}\n	e.Data = data\n	defer func() { e.Data = d }()\n"))
R(P, FW, ("	var h logrus.Hook\n	var err error\n	switch c.Vendor {\n	case HookVendorFluentd:\n		h, err = newHook(c, fluentHookCreater)\n	case HookVendorLogstash:\n		h, err = newHook(c, logstashHookCreater)\n	default:\n		return fmt.Errorf(\"not supported forwarder %s\", c.Vendor)\n	}\n", "	var creater HookCreater\n	switch c.Vendor {\n	case HookVendorFluentd:\n		creater = fluentHookCreater\n	case HookVendorLogstash:\n		creater = logstashHookCreater\n	default:\n		return fmt.Errorf(\"not supported forwarder %s\", c.Vendor)\n	}\n	h, err := newHook(c, creater)\n"))
R(P, FW, ("	if c.Level == \"\" {\n		c.Level = \"info\"\n	}\n	if c.Name == \"\" {\n		c.Name = \"btp\"\n	}\n	if c.TimeFormat == \"\" {\n		c.TimeFormat = time.RFC3339Nano\n	}\n", "	c.setDefaults()\n"), ("func newHook(", "func (c *ForwarderConfig) setDefaults() {\n	if c.Level == \"\" {\n		c.Level = \"info\"\n	}\n	if c.Name == \"\" {\n		c.Name = \"btp\"\n	}\n	if c.TimeFormat == \"\" {\n		c.TimeFormat = time.RFC3339Nano\n	}\n}\n\nfunc newHook("))
R(P, FO, ("	for k, v := range e.Data {\n		if _, ok := systemFields[k]; ok {\n			continue\n		}\n		fmt.Fprintf(buf, \" %s=%v\", k, v)\n	}\n", "	for k, v := range e.Data {\n		if !systemFields[k] {\n			writeField(buf, k, v)\n		}\n	}\n"), ("type customFormatter struct{}", "type customFormatter struct{}\n\nfunc writeField(w io.Writer, k string, v interface{}) {\n	fmt.Fprintf(w, \" %s=%v\", k, v)\n}"), ('	"fmt"\n', '	"fmt"\n	"io"\n'))
R(P, FO, ("	fmt.Fprint(buf, levelNames[e.Level], \"|\")\n	fmt.Fprint(buf, e.Time.Format(LogTimeLayout), \"|\")\n", "	buf.WriteString(levelNames[e.Level] + \"|\" + e.Time.Format(LogTimeLayout) + \"|\")\n"))
R(P, FO, ("	fmt.Fprint(buf, levelNames[e.Level], \"|\")\n	fmt.Fprint(buf, e.Time.Format(LogTimeLayout), \"|\")\n", "	fmt.Fprintf(buf, \"%s|%s|\", levelNames[e.Level], e.Time.Format(LogTimeLayout))\n"))
R(P, FO, ("	if v, ok := e.Data[FieldKeyChain]; ok {\n		fmt.Fprint(buf, v, \"|\")\n	} else {\n		buf.WriteString(\"-|\")\n	}\n", "	chain, ok := e.Data[FieldKeyChain]\n	if !ok {\n		chain = \"-\"\n	}\n	fmt.Fprint(buf, chain, \"|\")\n"))
R(P, LW, ("	return &lumberjack.Logger{\n		Filename:   cfg.Filename,\n		MaxSize:    cfg.MaxSize,\n		MaxAge:     cfg.MaxAge,\n		MaxBackups: cfg.MaxBackups,\n		LocalTime:  cfg.LocalTime,\n		Compress:   cfg.Compress,\n	}, nil", "	l := new(lumberjack.Logger)\n	l.Filename = cfg.Filename\n	l.MaxSize, l.MaxAge, l.MaxBackups = cfg.MaxSize, cfg.MaxAge, cfg.MaxBackups\n	l.LocalTime = cfg.LocalTime\n	l.Compress = cfg.Compress\n	return l, nil"))
R(P, FC, ("	return filepath.Clean(path.Join(filepath.Dir(c.FilePath), targetPath))", "	return filepath.Join(filepath.Dir(c.FilePath), targetPath)"), ('	"path"\n', ''))
R(P, FC, ("	if filepath.IsAbs(targetPath) {\n		return targetPath\n	}\n	if c.FilePath == \"\" {\n		r, _ := filepath.Abs(targetPath)\n		return r\n	}\n	return filepath.Clean(path.Join(filepath.Dir(c.FilePath), targetPath))", "	switch {\n	case filepath.IsAbs(targetPath):\n		return targetPath\n	case c.FilePath != \"\":\n		dir := filepath.Dir(c.FilePath)\n		return filepath.Clean(path.Join(dir, targetPath))\n	}\n	r, _ := filepath.Abs(targetPath)\n	return r"))
R(P, FC, ("	base := filepath.Dir(c.FilePath)\n	base, _ = filepath.Abs(base)\n	r, _ := filepath.Rel(base, absPath)\n	return r", "	absBase, _ := filepath.Abs(filepath.Dir(c.FilePath))\n	rel, _ := filepath.Rel(absBase, absPath)\n	return rel"))
R(P, MN, ("	if lv, err := log.ParseLevel(cfg.LogLevel); err != nil {\n		log.Panicf(\"Invalid log_level=%s\", cfg.LogLevel)\n	} else {\n		l.SetLevel(lv)\n	}\n	if lv, err := log.ParseLevel(cfg.ConsoleLevel); err != nil {\n		log.Panicf(\"Invalid console_level=%s\", cfg.ConsoleLevel)\n	} else {\n		l.SetConsoleLevel(lv)\n	}\n", "	l.SetLevel(mustLevel(\"log_level\", cfg.LogLevel))\n	l.SetConsoleLevel(mustLevel(\"console_level\", cfg.ConsoleLevel))\n"), ("func setLogger(", "func mustLevel(name, s string) log.Level {\n	lv, err := log.ParseLevel(s)\n	if err != nil {\n		log.Panicf(\"Invalid %s=%s\", name, s)\n	}\n	return lv\n}\n\nfunc setLogger("))
R(P, MN, ("	if cfg.LogWriter != nil {\n		if cfg.LogWriter.Filename == \"\" {\n			log.Debugln(\"LogWriterConfig filename is empty string, will be ignore\")\n		} else {\n			var lwCfg log.WriterConfig\n			lwCfg = *cfg.LogWriter\n			lwCfg.Filename = cfg.ResolveAbsolute(lwCfg.Filename)\n			w, err := log.NewWriter(&lwCfg)\n			if err != nil {\n				log.Panicf(\"Fail to make writer err=%+v\", err)\n			}\n			err = l.SetFileWriter(w)\n			if err != nil {\n				log.Panicf(\"Fail to set file l err=%+v\", err)\n			}\n		}\n	}\n", "	setLogFile(cfg, l)\n"), ("func setLogger(", "func setLogFile(cfg *Config, l log.Logger) {\n	if cfg.LogWriter == nil {\n		return\n	}\n	if cfg.LogWriter.Filename == \"\" {\n		log.Debugln(\"LogWriterConfig filename is empty string, will be ignore\")\n		return\n	}\n	lwCfg := *cfg.LogWriter\n	lwCfg.Filename = cfg.ResolveAbsolute(lwCfg.Filename)\n	if w, err := log.NewWriter(&lwCfg); err != nil {\n		log.Panicf(\"Fail to make writer err=%+v\", err)\n	} else if err = l.SetFileWriter(w); err != nil {\n		log.Panicf(\"Fail to set file l err=%+v\", err)\n	}\n}\n\nfunc setLogger("))
R(P, MN, ("	for mod, lvStr := range modLevels {\n		if lv, err := log.ParseLevel(lvStr); err != nil {\n			log.Panicf(\"Invalid mod_level mod=%s level=%s\", mod, lvStr)\n		} else {\n			l.SetModuleLevel(mod, lv)\n		}\n	}\n", "	for mod := range modLevels {\n		lv, err := log.ParseLevel(modLevels[mod])\n		if err != nil {\n			log.Panicf(\"Invalid mod_level mod=%s level=%s\", mod, modLevels[mod])\n		}\n		l.SetModuleLevel(mod, lv)\n	}\n"))
R(P, MN, ("	if cfg.LogForwarder != nil {\n		if cfg.LogForwarder.Vendor == \"\" && cfg.LogForwarder.Address == \"\" {\n			log.Debugln(\"LogForwarderConfig vendor and address is empty string, will be ignore\")\n		} else {\n			if err := log.AddForwarder(cfg.LogForwarder); err != nil {\n				log.Fatalf(\"Invalid log_forwarder err:%+v\", err)\n			}\n		}\n	}\n", "	if lf := cfg.LogForwarder; lf != nil {\n		if lf.Vendor != \"\" || lf.Address != \"\" {\n			if err := log.AddForwarder(lf); err != nil {\n				log.Fatalf(\"Invalid log_forwarder err:%+v\", err)\n			}\n		} else {\n			log.Debugln(\"LogForwarderConfig vendor and address is empty string, will be ignore\")\n		}\n	}\n"))
M(P, FW, ("		Host:          host,\n", "		Host:          c.Address,\n"), ("	host, port := parseHostPort", "	_, port := parseHostPort"))
M(P, FW, ("		FluentNetwork: network,\n", "		FluentNetwork: \"tcp\",\n"), ("	network, hostPort, err := c.NetworkAndHostPort", "	_, hostPort, err := c.NetworkAndHostPort"))

# --- lock discipline: an outsider's view
lk="common/link/link.go"; icl="chain/icon/client/client.go"; sg="common/crypto/signature.go"
M("C02", lk, ("				l.rss = append(l.rss, rs)\n				if err == nil {\n					err = l.BuildRelayMessage(bls)\n				}\n				l.rmsMtx.Unlock()\n", "				l.rmsMtx.Unlock()\n				l.rss = append(l.rss, rs)\n				if err == nil {\n					err = l.BuildRelayMessage(bls)\n				}\n"))
M("C02", lk, ("					l.clearReceiveStatus(t)\n					l.rmsMtx.Unlock()", "					l.rmsMtx.Unlock()\n					l.clearReceiveStatus(t)"))
M("C02", lk, ("					l.rmsMtx.Lock()\n					l.clearRelayMessage(t)\n", "					l.clearRelayMessage(t)\n					l.rmsMtx.Lock()\n"))
M("C02", lk, ("					l.rmsMtx.Lock()\n					l.clearRelayMessage(t)\n					l.clearReceiveStatus(t)\n					l.rmsMtx.Unlock()", "					l.rmsMtx.RLock()\n					l.clearRelayMessage(t)\n					l.clearReceiveStatus(t)\n					l.rmsMtx.RUnlock()"))
M("C02", lk, ("	l.rmsMtx.RLock()\n	s := l.s\n	l.rmsMtx.RUnlock()\n	s.Stop()", "	l.s.Stop()"))
M("C02", lk, ("	l.rmsMtx.Lock()\n	l.s = sender\n	l.limitSize = int64(sender.TxSizeLimit()) - sender.GetMarginForLimit()\n	l.rmsMtx.Unlock()\n", "	l.s = sender\n	l.rmsMtx.Lock()\n	l.limitSize = int64(sender.TxSizeLimit()) - sender.GetMarginForLimit()\n	l.rmsMtx.Unlock()\n"))
M("C02", lk, ("	l.rmsMtx.Lock()\n	defer l.rmsMtx.Unlock()\n\n	switch rr.Err {", "	switch rr.Err {"),("		bls, err := l.s.GetStatus()\n		if err != nil {\n			return err\n		}\n		return l.Build","		l.rmsMtx.Lock()\n		defer l.rmsMtx.Unlock()\n		bls, err := l.s.GetStatus()\n		if err != nil {\n			return err\n		}\n		return l.Build"))
M("C02", lk, ("	l.rmsMtx.Lock()\n	defer l.rmsMtx.Unlock()\n\n	switch rr.Err {", "	l.rmsMtx.RLock()\n	defer l.rmsMtx.RUnlock()\n\n	switch rr.Err {"))
M("C02", lk, ("				once.Do(func() {\n					err = l.checkStatus(bls)\n				})\n", ""),("				l.rmsMtx.Lock()\n				l.rss = append","				once.Do(func() {\n					err = l.checkStatus(bls)\n				})\n				l.rmsMtx.Lock()\n				l.rss = append"))
M("C01", lk, ("				if err == nil {\n					err = l.BuildRelayMessage(bls)\n				}\n				l.rmsMtx.Unlock()\n", "				if err != nil {\n					errCh <- err\n					return\n				}\n				err = l.BuildRelayMessage(bls)\n				l.rmsMtx.Unlock()\n"))
M("C01", lk, ("	if err := l.buildProof(rm.bls, nil); err != nil {\n		return err\n	}\n	return l.sendRelayMessage", "	l.rmsMtx.Lock()\n	defer l.rmsMtx.Unlock()\n	if err := l.buildProof(rm.bls, nil); err != nil {\n		return err\n	}\n	return l.sendRelayMessage"))
M("C01", lk, ("	for _, rm := range l.rms {\n		if rm.Id() == id {", "	l.rmsMtx.RLock()\n	defer l.rmsMtx.RUnlock()\n	for _, rm := range l.rms {\n		if rm.Id() == id {"))
M("C01", lk, ("	l.mtx.Lock()\n	defer l.mtx.Unlock()\n\n	index := -1", "	l.rmsMtx.Lock()\n	defer l.rmsMtx.Unlock()\n\n	index := -1"))
M("C01", lk, ("	l.mtx.Lock()\n	defer l.mtx.Unlock()\n\n	index := -1", "	l.mtx.Lock()\n\n	index := -1"),("	l.rms = l.rms[index:]\n","	l.rms = l.rms[index:]\n	l.mtx.Unlock()\n"))
M("C01", lk, ("	l.rmsMtx.RLock()\n	s := l.s\n	l.rmsMtx.RUnlock()\n	s.Stop()", "	l.rmsMtx.RLock()\n	s := l.s\n	l.rmsMtx.Unlock()\n	s.Stop()"))
M("C01", lk, ("	l.rmsMtx.RLock()\n	s := l.s\n	l.rmsMtx.RUnlock()\n	s.Stop()", "	l.mtx.Lock()\n	defer l.mtx.Unlock()\n	l.rmsMtx.RLock()\n	s := l.s\n	l.rmsMtx.RUnlock()\n	s.Stop()"))
M("C01", lk, ("	l.rmsMtx.Lock()\n	defer l.rmsMtx.Unlock()\n\n	switch rr.Err {", "	l.rmsMtx.Lock()\n\n	switch rr.Err {"),("		l.removeRelayMessage(rr.Id)\n","		l.removeRelayMessage(rr.Id)\n		l.rmsMtx.Unlock()\n"))
M("C01", lk, ("	l.s = sender\n	l.limitSize = int64(sender.TxSizeLimit()) - sender.GetMarginForLimit()\n	l.rmsMtx.Unlock()\n", "	l.s = sender\n	l.limitSize = int64(sender.TxSizeLimit()) - sender.GetMarginForLimit()\n	if l.limitSize > 0 {\n		l.rmsMtx.Unlock()\n	}\n"))
M("C01", lk, ("	l.rmsMtx.Unlock()\n	errCh := make(chan error)\n", "	defer l.rmsMtx.Unlock()\n	errCh := make(chan error)\n"))
M("C01", lk, ("					l.clearRelayMessage(t)\n", "					l.clearRelayMessage(t)\n					if len(l.rms) == 0 {\n						break\n					}\n"))
M("C01", lk, ("					l.clearRelayMessage(t)\n", "					l.clearRelayMessage(t)\n					if len(l.rms) == 0 {\n						continue\n					}\n"))
M("C01", icl, ("	for _, conn := range c.conns {\n		conns = append(conns, conn)\n	}\n	c.mtx.Unlock()\n", "	defer c.mtx.Unlock()\n	for _, conn := range c.conns {\n		conns = append(conns, conn)\n	}\n"))
M("C01", icl, ("	_, ok := c.conns[la]\n	if ok {\n		delete(c.conns, la)\n	}", "	if c._hasWsConn(conn) {\n		delete(c.conns, la)\n	}"))
M("C01", icl, ("	defer c.mtx.Unlock()\n\n	_, ok := c.conns[conn.LocalAddr().String()]\n	return ok", "	if conn == nil {\n		return false\n	}\n	_, ok := c.conns[conn.LocalAddr().String()]\n	c.mtx.Unlock()\n	return ok"))
M("C02", icl, ("	c.mtx.Lock()\n	conns := make([]*websocket.Conn, 0, len(c.conns))\n	for _, conn := range c.conns {\n		conns = append(conns, conn)\n	}\n	c.mtx.Unlock()\n	for _, conn := range conns {", "	for _, conn := range c.conns {"))
M("C02", icl, ("	c.mtx.Lock()\n	defer c.mtx.Unlock()\n\n	_, ok := c.conns[conn.LocalAddr().String()]\n", "	_, ok := c.conns[conn.LocalAddr().String()]\n"))
M("C02", icl, ("	defer c.mtx.Unlock()\n\n	la := conn.LocalAddr().String()\n	_, ok := c.conns[la]\n	if ok {", "	la := conn.LocalAddr().String()\n	_, ok := c.conns[la]\n	c.mtx.Unlock()\n	if ok {"))
M("C02", icl, ("	c.mtx.Lock()\n	conns := make([]*websocket.Conn, 0, len(c.conns))\n", "	conns := make([]*websocket.Conn, 0, len(c.conns))\n	c.mtx.Lock()\n"))
M("C02", icl, ("	c._addWsConn(conn)\n	return conn, nil", "	c.conns[conn.LocalAddr().String()] = conn\n	return conn, nil"))
M("C01", sg, ("	defer globalLock.Unlock()\n\n	if len(hash) == 0", "	if len(hash) == 0"),("	return ParseSignature(secp256k1.Sign(hash, privKey.bytes))","	sig := secp256k1.Sign(hash, privKey.bytes)\n	globalLock.Unlock()\n	return ParseSignature(sig)"))
ml="common/db/map_db.go"; ly="common/db/layer_db.go"
M("C02", ml, ("	t.lock.Lock()\n	defer t.lock.Unlock()\n\n	if bk, ok := t.bks[id]; ok {\n		return bk, nil\n	}\n", "	if bk, ok := t.bks[id]; ok {\n		return bk, nil\n	}\n	t.lock.Lock()\n	defer t.lock.Unlock()\n"))
M("C02", ml, ("	t.mutex.Lock()\n	defer t.mutex.Unlock()\n	_, ok := t.real", "	_, ok := t.real"))
M("C02", ml, ("	t.mutex.Lock()\n	defer t.mutex.Unlock()\n	t.real[string(k)] = string(v)", "	s := string(v)\n	t.mutex.Lock()\n	t.mutex.Unlock()\n	t.real[string(k)] = s"))
M("C02", ml, ("	t.mutex.Lock()\n	defer t.mutex.Unlock()\n	delete(", "	if t.Has(k) {\n		return nil\n	}\n	delete("))
M("C02", ly, ("	bk.lock.Lock()\n	defer bk.lock.Unlock()\n\n	if bk.data != nil {\n		v2", "	if bk.data == nil {\n		return bk.real.Set(key, value)\n	}\n	bk.lock.Lock()\n	defer bk.lock.Unlock()\n\n	if bk.data != nil {\n		v2"))
M("C02", ly, ("	for _, bk := range ldb.buckets {\n		if err := bk.Flush(write); err != nil {\n			return err\n		}\n	}\n	ldb.flushed = true", "	for _, bk := range ldb.buckets {\n		if err := bk.Flush(write); err != nil {\n			return err\n		}\n		bk.data = nil\n	}\n	ldb.flushed = true"))
M("C02", ly, ("	ldb.lock.Lock()\n	defer ldb.lock.Unlock()\n\n	for _, bk", "	ldb.lock.Lock()\n	bks := ldb.buckets\n	ldb.lock.Unlock()\n	for _, bk"),("range ldb.buckets {","range bks {"))
M("C01", ly, ("	ldb.lock.Lock()\n	defer ldb.lock.Unlock()\n\n	for _, bk := range ldb.buckets {\n		if err := bk.Flush(write); err != nil {\n			return err\n		}\n	}\n	ldb.flushed = true\n	return nil", "	ldb.lock.Lock()\n	for _, bk := range ldb.buckets {\n		if err := bk.Flush(write); err != nil {\n			return err\n		}\n	}\n	ldb.flushed = true\n	ldb.lock.Unlock()\n	return nil"))
M("C01", ly, ("	bk.lock.Lock()\n	defer bk.lock.Unlock()\n\n	if bk.data != nil {\n		bk.data[string(key)] = nil", "	if !bk.Has(key) {\n		return nil\n	}\n	bk.lock.Lock()\n	defer bk.lock.Unlock()\n	if bk.data != nil && bk.Has(key) {\n		bk.data[string(key)] = nil"))
M("C01", ly, ("	if ldb.flushed {\n		return realbk, nil\n	}\n", "	if ldb.flushed {\n		return realbk, ldb.Flush(true)\n	}\n"))
M("C01", ly, ("	bk.lock.Lock()\n	defer bk.lock.Unlock()\n\n	if write && bk.data != nil {", "	bk.lock.Lock()\n	if !write {\n		bk.data = nil\n		return nil\n	}\n	defer bk.lock.Unlock()\n\n	if write && bk.data != nil {"))
M("C01", ly, ("	bk.data = nil\n	return nil", "	bk.data = nil\n	bk.lock.Unlock()\n	return nil"))
# quiet
R("C01,C02", ly, ("	bk.lock.Lock()\n	defer bk.lock.Unlock()\n\n	if bk.data != nil {\n		bk.data[string(key)] = nil\n		return nil\n	} else {\n		return bk.real.Delete(key)\n	}", "	bk.lock.Lock()\n	if bk.data == nil {\n		real := bk.real\n		bk.lock.Unlock()\n		return real.Delete(key)\n	}\n	bk.data[string(key)] = nil\n	bk.lock.Unlock()\n	return nil"))
R("C01,C02", icl, ("	c.mtx.Lock()\n	conns := make([]*websocket.Conn, 0, len(c.conns))\n	for _, conn := range c.conns {\n		conns = append(conns, conn)\n	}\n	c.mtx.Unlock()\n	for _, conn := range conns {", "	for _, conn := range c.snapshot() {"),("type wsReadCallback","func (c *Client) snapshot() (conns []*websocket.Conn) {\n	c.mtx.Lock()\n	defer c.mtx.Unlock()\n	for _, conn := range c.conns {\n		conns = append(conns, conn)\n	}\n	return\n}\n\ntype wsReadCallback"))
R("C01,C02", icl, ("	c.mtx.Lock()\n	conns := make([]*websocket.Conn, 0, len(c.conns))\n	for _, conn := range c.conns {\n		conns = append(conns, conn)\n	}\n	c.mtx.Unlock()\n	for _, conn := range conns {", "	var conns []*websocket.Conn\n	func() {\n		c.mtx.Lock()\n		defer c.mtx.Unlock()\n		for _, conn := range c.conns {\n			conns = append(conns, conn)\n		}\n	}()\n	for _, conn := range conns {"))
R("C01,C02", icl, ("	c.mtx.Lock()\n	defer c.mtx.Unlock()\n\n	la := conn.LocalAddr().String()\n	c.conns[la] = conn", "	la := conn.LocalAddr().String()\n	c.locked(func() { c.conns[la] = conn })"),("type wsReadCallback","func (c *Client) locked(f func()) {\n	c.mtx.Lock()\n	defer c.mtx.Unlock()\n	f()\n}\n\ntype wsReadCallback"))
R("C01,C02", lk, ("	l.rmsMtx.RLock()\n	s := l.s\n	l.rmsMtx.RUnlock()\n	s.Stop()", "	l.sender().Stop()"),("func (l *Link) receiverChannel","func (l *Link) sender() types.Sender {\n	l.rmsMtx.RLock()\n	defer l.rmsMtx.RUnlock()\n	return l.s\n}\n\nfunc (l *Link) receiverChannel"))
R("C01,C02", lk, ("	l.rmsMtx.RLock()\n	s := l.s\n	l.rmsMtx.RUnlock()\n	s.Stop()", "	mtx := &l.rmsMtx\n	mtx.RLock()\n	s := l.s\n	mtx.RUnlock()\n	s.Stop()"))
R("C01,C02,C10", lk, ("					l.rmsMtx.Lock()\n					l.clearRelayMessage(t)\n					l.clearReceiveStatus(t)\n					l.rmsMtx.Unlock()", "					l.clear(t)"),("func (l *Link) clearRelayMessage(","func (l *Link) clear(bls *types.BMCLinkStatus) {\n	l.rmsMtx.Lock()\n	defer l.rmsMtx.Unlock()\n	l.clearReceiveStatus(bls)\n	l.clearRelayMessage(bls)\n}\n\nfunc (l *Link) clearRelayMessage("))
R("C01,C02,C10", lk, ("				l.rmsMtx.Lock()\n				once.Do(func() {\n					err = l.checkStatus(bls)\n				})\n				l.rss = append(l.rss, rs)\n				if err == nil {\n					err = l.BuildRelayMessage(bls)\n				}\n				l.rmsMtx.Unlock()\n				if err != nil {", "				if err = l.received(once, rs, bls); err != nil {"),("func (l *Link) senderChannel(","func (l *Link) received(once *sync.Once, rs ReceiveStatus, bls *types.BMCLinkStatus) (err error) {\n	l.rmsMtx.Lock()\n	defer l.rmsMtx.Unlock()\n	once.Do(func() {\n		err = l.checkStatus(bls)\n	})\n	l.rss = append(l.rss, rs)\n	if err == nil {\n		err = l.BuildRelayMessage(bls)\n	}\n	return\n}\n\nfunc (l *Link) senderChannel("))
R("C01,C02", ml, ("	t.mutex.Lock()\n	defer t.mutex.Unlock()\n	v, ok := t.real[string(k)]\n	if ok {", "	t.mutex.Lock()\n	v, ok := t.real[string(k)]\n	t.mutex.Unlock()\n	if ok {"))
M("C01", "chain/icon/sender.go", ("	go s.result(rm.Id(), thp)", "	s.result(rm.Id(), thp)"))
M("C01", "chain/ethbr/sender.go", ("	go s.result(", "	s.result("))
M("C01", lk, ("					l.clearReceiveStatus(t)\n					l.rmsMtx.Unlock()", "					l.clearReceiveStatus(t)\n					errCh <- nil\n					l.rmsMtx.Unlock()"))
M("C01", "chain/icon/sender.go", ("func (s *sender) TxSizeLimit() int {\n", "func (s *sender) TxSizeLimit() int {\n	s.SendStatus()\n"))
R("C01", lk, ("					l.clearReceiveStatus(t)\n					l.rmsMtx.Unlock()", "					l.clearReceiveStatus(t)\n					select {\n					case errCh <- nil:\n					default:\n					}\n					l.rmsMtx.Unlock()"))
R("C01,C02", "common/db/map_db.go", ("	t.mutex.Lock()\n	defer t.mutex.Unlock()\n	t.real[string(k)] = string(v)\n	return nil", "	return t.locked(func() error {\n		t.real[string(k)] = string(v)\n		return nil\n	})"),("func (t *mapBucket) Delete(","func (t *mapBucket) locked(f func() error) error {\n	t.mutex.Lock()\n	defer t.mutex.Unlock()\n	return f()\n}\n\nfunc (t *mapBucket) Delete("))

# --- refactorings of the Ethereum sender, clients and JSON-RPC (seen by every property)
es="chain/ethbr/sender.go"; ec="chain/ethbr/client/client.go"; jc="common/jsonrpc/client.go"; is_="chain/icon/sender.go"
R("C08", es, ("			msgs := strings.Split(revertMsg, \":\")\n			if len(msgs) > 2 {\n				code, err := strconv.Atoi(strings.TrimLeft(msgs[1], \" \"))\n				if err != nil {\n					return nil, err\n				}\n				return tx, client.NewRevertError(code)\n			} else {\n				return nil, client.NewRevertError(25)\n			}\n", "			code, err := revertCode(revertMsg)\n			if err != nil {\n				return nil, err\n			}\n			return tx, client.NewRevertError(code)\n"),("func (s *sender) TxSizeLimit","func revertCode(msg string) (int, error) {\n	parts := strings.Split(msg, \":\")\n	if len(parts) <= 2 {\n		return 25, nil\n	}\n	return strconv.Atoi(strings.TrimLeft(parts[1], \" \"))\n}\n\nfunc (s *sender) TxSizeLimit"))
R("C08", es, ("	for {\n		_, pending, err := s.c.GetTransaction(txh.Hash)\n		if err != nil {\n			return nil, err\n		}\n		if pending {\n			<-time.After(DefaultGetRelayResultInterval)\n			continue\n		}\n		tx, err", "	if err := s.waitMined(txh); err != nil {\n		return nil, err\n	}\n	{\n		tx, err"),("func (s *sender) TxSizeLimit","func (s *sender) waitMined(txh *client.TransactionHashParam) error {\n	for {\n		_, pending, err := s.c.GetTransaction(txh.Hash)\n		if err != nil {\n			return err\n		}\n		if !pending {\n			return nil\n		}\n		time.Sleep(DefaultGetRelayResultInterval)\n	}\n}\n\nfunc (s *sender) TxSizeLimit"))
R("C08", es, ("	_, err := s.GetResult(txh)\n	if err != nil {\n		s.l.Debugf(\"result fail rm id : %d \", id)\n\n		if ec, ok := errors.CoderOf(err); ok {\n			s.sc <- &btpTypes.RelayResult{\n				Id:  id,\n				Err: ec.ErrorCode(),\n			}\n		} else {\n			s.l.Errorf(\"fail to get result rm id : %d err:%+v\", id, err)\n		}\n	} else {\n		s.l.Debugf(\"result success rm id : %d \", id)\n	}\n\n	s.SendStatus()", "	defer s.SendStatus()\n	_, err := s.GetResult(txh)\n	if err == nil {\n		s.l.Debugf(\"result success rm id : %d \", id)\n		return\n	}\n	s.l.Debugf(\"result fail rm id : %d \", id)\n	ec, ok := errors.CoderOf(err)\n	if !ok {\n		s.l.Errorf(\"fail to get result rm id : %d err:%+v\", id, err)\n		return\n	}\n	rr := &btpTypes.RelayResult{Id: id}\n	rr.Err = ec.ErrorCode()\n	s.sc <- rr"))
R("C08", es, ("	ls := &btpTypes.BMCLinkStatus{}\n	ls.TxSeq = status.TxSeq.Int64()\n	ls.RxSeq = status.RxSeq.Int64()\n	ls.Verifier.Height = status.Verifier.Height.Int64()\n	ls.Verifier.Extra = status.Verifier.Extra\n\n	return ls, nil", "	return toLinkStatus(&status), nil"),("func (s *sender) SendStatus","func toLinkStatus(status *binding.TypesLinkStats) *btpTypes.BMCLinkStatus {\n	ls := new(btpTypes.BMCLinkStatus)\n	ls.Verifier.Extra = status.Verifier.Extra\n	ls.Verifier.Height = status.Verifier.Height.Int64()\n	ls.RxSeq = status.RxSeq.Int64()\n	ls.TxSeq = status.TxSeq.Int64()\n	return ls\n}\n\nfunc (s *sender) SendStatus"))
R("C08", es, ("	t, err := s.c.NewTransactOpts(s.w.(*wallet.EvmWallet).Skey)\n	if err != nil {\n		return nil, err\n	}\n\n	var tx *types.Transaction\n\n	tx, err = s.bmc", "	ew := s.w.(*wallet.EvmWallet)\n	t, err := s.c.NewTransactOpts(ew.Skey)\n	if err != nil {\n		return nil, err\n	}\n	tx, err := s.bmc"),("	txh := tx.Hash()\n	return &client.TransactionHashParam{txh}, nil","	return &client.TransactionHashParam{Hash: tx.Hash()}, nil"))
R("C08", es, ("	b, err := json.Marshal(opt)\n	if err != nil {\n		l.Panicf(\"fail to marshal opt:%#v err:%+v\", opt, err)\n	}\n	if err = json.Unmarshal(b, &s.opt); err != nil {\n		l.Panicf(\"fail to unmarshal opt:%#v err:%+v\", opt, err)\n	}\n\n	s.c = client.NewClient(endpoint, l)\n\n	if s.bmc, err = binding", "	if err := s.loadOpt(opt); err != nil {\n		l.Panicf(\"fail to load opt:%#v err:%+v\", opt, err)\n	}\n	s.c = client.NewClient(endpoint, l)\n	var err error\n	if s.bmc, err = binding"),("func (s *sender) SendStatus","func (s *sender) loadOpt(opt map[string]interface{}) error {\n	b, err := json.Marshal(opt)\n	if err != nil {\n		return err\n	}\n	return json.Unmarshal(b, &s.opt)\n}\n\nfunc (s *sender) SendStatus"))
R("C08", ec, ("	tx, pending, err := c.ethClient.TransactionByHash(ctx, hash)\n	if err != nil {\n		return nil, pending, err\n	}\n	return tx, pending, err", "	tx, pending, err := c.ethClient.TransactionByHash(ctx, hash)\n	if err != nil {\n		return nil, false, err\n	}\n	return tx, pending, nil"))
R("C08", ec, ("	ctx, cancel := context.WithTimeout(context.Background(), DefaultTimeout)\n	defer cancel()\n	tr, err := c.ethClient.TransactionReceipt(ctx, hash)\n	if err != nil {\n		return nil, err\n	}\n	return tr, nil", "	ctx, cancel := timeout()\n	defer cancel()\n	return c.ethClient.TransactionReceipt(ctx, hash)"),("func (c *Client) GetTransaction(","func timeout() (context.Context, context.CancelFunc) {\n	return context.WithTimeout(context.Background(), DefaultTimeout)\n}\n\nfunc (c *Client) GetTransaction("))
R("C08", ec, ("	var receipts []*types.Receipt\n	for _, tx := range block.Transactions() {\n		receipt, err := c.ethClient.TransactionReceipt(ctx, tx.Hash())\n		if err != nil {\n			return nil, err\n		}\n		receipts = append(receipts, receipt)\n	}\n	return receipts, nil", "	txs := block.Transactions()\n	receipts := make([]*types.Receipt, len(txs))\n	for i := range txs {\n		var err error\n		if receipts[i], err = c.ethClient.TransactionReceipt(ctx, txs[i].Hash()); err != nil {\n			return nil, err\n		}\n	}\n	return receipts, nil"))
R("C08", ec, ("	current := new(big.Int).SetUint64(n)\n", "	current, one := new(big.Int).SetUint64(n), big.NewInt(1)\n"),("			current.Add(current, big.NewInt(1))\n			retry = BlockRetryLimit","			retry = BlockRetryLimit\n			current = current.Add(current, one)"))
R("C08", ec, ("				if tbh, err := c.GetHeaderByHeight(h); err != nil {\n					c.log.Errorf(\"failure GetHeaderByHeight(%v) err:%+v\", h, err)\n					return err\n				} else if err = onBlockHeader(tbh); err != nil {\n					return err\n				}", "				tbh, err := c.GetHeaderByHeight(h)\n				if err != nil {\n					c.log.Errorf(\"failure GetHeaderByHeight(%v) err:%+v\", h, err)\n					return err\n				}\n				if err = onBlockHeader(tbh); err != nil {\n					return err\n				}"))
R("C08", ec, ("	var (\n		h   *big.Int\n		one = big.NewInt(1)\n	)\n	return c.Monitor(func(bh *types.Header) error {\n		if h == nil {\n			h = new(big.Int).Set(br.Height)\n			for ; h.Cmp(bh.Number) < 0; h = h.Add(h, one) {", "	started := false\n	one := big.NewInt(1)\n	return c.Monitor(func(bh *types.Header) error {\n		if !started {\n			started = true\n			for h := new(big.Int).Set(br.Height); h.Cmp(bh.Number) < 0; h.Add(h, one) {"))
R("C08", ec, ("	onBlockHeader := func(bh *types.Header) error {\n		bn := &BlockNotification{\n			Hash:   bh.Hash(),\n			Height: bh.Number,\n			Header: bh,\n		}\n		if br.FilterQuery != nil {\n			var err error\n			fq := *br.FilterQuery\n			fq.BlockHash = &bn.Hash\n			if bn.Logs, err = c.FilterLogs(fq); err != nil {\n				c.log.Info(\"Unable to get logs \", err)\n				return err\n			}\n		}\n		return cb(bn)\n	}", "	onBlockHeader := func(bh *types.Header) error {\n		bn, err := c.notification(br, bh)\n		if err != nil {\n			c.log.Info(\"Unable to get logs \", err)\n			return err\n		}\n		return cb(bn)\n	}"),("func (c *Client) Monitor(","func (c *Client) notification(br *BlockRequest, bh *types.Header) (*BlockNotification, error) {\n	bn := &BlockNotification{Hash: bh.Hash(), Height: bh.Number, Header: bh}\n	if br.FilterQuery == nil {\n		return bn, nil\n	}\n	fq := *br.FilterQuery\n	fq.BlockHash = &bn.Hash\n	logs, err := c.FilterLogs(fq)\n	if err != nil {\n		return nil, err\n	}\n	bn.Logs = logs\n	return bn, nil\n}\n\nfunc (c *Client) Monitor("))
R("C08", ec, ("	txo, err := bind.NewKeyedTransactorWithChainID(k, c.chainID)\n	if err != nil {\n		return nil, err\n	}\n	if txo.GasPrice, err = c.ethClient.SuggestGasPrice(context.Background()); err != nil {\n		return nil, err\n	}\n	txo.GasLimit = uint64(DefaultGasLimit)\n	return txo, nil", "	gp, err := c.ethClient.SuggestGasPrice(context.Background())\n	if err != nil {\n		return nil, err\n	}\n	txo, err := bind.NewKeyedTransactorWithChainID(k, c.chainID)\n	if err != nil {\n		return nil, err\n	}\n	txo.GasLimit, txo.GasPrice = uint64(DefaultGasLimit), gp\n	return txo, nil"))
R("C08", jc, ("	if reqPtr != nil {\n		b, mErr := json.Marshal(reqPtr)\n		if mErr != nil {\n			err = mErr\n			return\n		}\n		jrReq.Params = json.RawMessage(b)\n	}\n", "	if reqPtr != nil {\n		if jrReq.Params, err = json.Marshal(reqPtr); err != nil {\n			return nil, err\n		}\n	}\n"))
R("C08", jc, ("	req, err := http.NewRequest(\"POST\", c.Endpoint, bytes.NewReader(reqB))\n	if err != nil {\n		return\n	}\n	req.Header.Set(\"Content-Type\", \"application/json\")\n	req.Header.Set(\"Accept\", \"application/json\")\n	for k, v := range c.CustomHeader {\n		req.Header.Set(k, v)\n	}\n\n	var resp *http.Response\n	resp, err = c._do(req)\n", "	resp, err := c.Raw(reqB)\n"))
R("C08", jc, ("	if respPtr != nil {\n		rb, mErr := json.Marshal(jrResp.Result)\n		if mErr != nil {\n			err = mErr\n			return\n		}\n		err = json.Unmarshal(rb, respPtr)\n		if err != nil {\n			return\n		}\n	}\n	return\n", "	if respPtr == nil {\n		return jrResp, nil\n	}\n	rb, err := json.Marshal(jrResp.Result)\n	if err == nil {\n		err = json.Unmarshal(rb, respPtr)\n	}\n	return jrResp, err\n"))
R("C08", jc, ("		if hErr, ok := err.(*common.HttpError); ok && len(hErr.Response()) > 0{\n			if resp != nil && common.HasContentType(resp.Header, echo.MIMEApplicationJSON) {\n				if dErr", "		hErr, ok := err.(*common.HttpError)\n		if ok && len(hErr.Response()) > 0 {\n			isJson := resp != nil && common.HasContentType(resp.Header, echo.MIMEApplicationJSON)\n			if isJson {\n				if dErr"))
R("C08", jc, ("	if resp.StatusCode != http.StatusOK {\n		err = common.NewHttpError(resp)\n		//err = fmt.Errorf(\"http-status(%s) is not StatusOK\", resp.Status)\n	}\n	return\n", "	if resp.StatusCode == http.StatusOK {\n		return resp, nil\n	}\n	return resp, common.NewHttpError(resp)\n"))
R("C08", is_, ("	ls := &types.BMCLinkStatus{}\n	if ls.TxSeq, err = bs.TxSeq.Value(); err != nil {\n		return nil, err\n	}\n	if ls.RxSeq, err = bs.RxSeq.Value(); err != nil {\n		return nil, err\n	}\n", "	ls := &types.BMCLinkStatus{}\n	for _, f := range []struct {\n		dst *int64\n		src client.HexInt\n	}{{&ls.TxSeq, bs.TxSeq}, {&ls.RxSeq, bs.RxSeq}} {\n		if *f.dst, err = f.src.Value(); err != nil {\n			return nil, err\n		}\n	}\n"))
R("C08", is_, ("	ls := &types.BMCLinkStatus{}\n	if ls.TxSeq, err = bs.TxSeq.Value(); err != nil {\n		return nil, err\n	}\n	if ls.RxSeq, err = bs.RxSeq.Value(); err != nil {\n		return nil, err\n	}\n	if ls.Verifier.Height, err = bs.Verifier.Height.Value(); err != nil {\n		return nil, err\n	}\n	if ls.Verifier.Extra, err = bs.Verifier.Extra.Value(); err != nil {\n		return nil, err\n	}\n	return ls, nil", "	return linkStatusOf(bs)"),("func (s *sender) newTransactionParam","func linkStatusOf(bs *client.BMCStatus) (ls *types.BMCLinkStatus, err error) {\n	st := &types.BMCLinkStatus{}\n	if st.TxSeq, err = bs.TxSeq.Value(); err != nil {\n		return\n	}\n	if st.RxSeq, err = bs.RxSeq.Value(); err != nil {\n		return\n	}\n	if st.Verifier.Height, err = bs.Verifier.Height.Value(); err != nil {\n		return\n	}\n	if st.Verifier.Extra, err = bs.Verifier.Extra.Value(); err != nil {\n		return\n	}\n	return st, nil\n}\n\nfunc (s *sender) newTransactionParam"))
R("C08", is_, ("		thp, err := s.sendFragment(msg[:txSizeLimit], idx*-1)\n		if err != nil {\n			return nil, err\n		}\n		msg = msg[txSizeLimit:]\n		for idx--; idx > 0; idx-- {\n			if thp, err = s.sendFragment(msg[:txSizeLimit], idx); err != nil {\n				return thp, err\n			}\n			msg = msg[txSizeLimit:]\n		}\n		if thp, err = s.sendFragment(msg[:], idx); err != nil {\n			return nil, err\n		}\n		return thp, err", "		if _, err := s.sendFragment(msg[:txSizeLimit], -idx); err != nil {\n			return nil, err\n		}\n		msg = msg[txSizeLimit:]\n		for i := idx - 1; i > 0; i-- {\n			if _, err := s.sendFragment(msg[:txSizeLimit], i); err != nil {\n				return nil, err\n			}\n			msg = msg[txSizeLimit:]\n		}\n		return s.sendFragment(msg, 0)"))

# --- refactorings of errors and of the link set-up (seen by every property)
er="common/errors/errors.go"; lf="cmd/relay/linkfatory.go"
R("C12", er, ("	for {\n		if err == target {\n			return true\n		}\n		if cause, ok := err.(causer); ok {\n			err = cause.Cause()\n		} else if unwrap, ok := err.(unwrapper); ok {\n			err = unwrap.Unwrap()\n		} else {\n			return false\n		}\n	}", "	for err != target {\n		switch e := err.(type) {\n		case causer:\n			err = e.Cause()\n		case unwrapper:\n			err = e.Unwrap()\n		default:\n			return false\n		}\n	}\n	return true"))
R("C12", er, ("		if cause, ok := err.(causer); ok {\n			err = cause.Cause()\n		} else if unwrap, ok := err.(unwrapper); ok {\n			err = unwrap.Unwrap()\n		} else {\n			return false\n		}\n	}\n	return false", "		err = causeOf(err)\n	}\n	return false"),("// Is checks","func causeOf(err error) error {\n	type causer interface {\n		Cause() error\n	}\n	if c, ok := err.(causer); ok {\n		return c.Cause()\n	}\n	if u, ok := err.(Unwrapper); ok {\n		return u.Unwrap()\n	}\n	return nil\n}\n\n// Is checks"),("	type causer interface {\n		Cause() error\n	}\n\n	type unwrapper interface {\n		Unwrap() error\n	}\n\n	value :=","	value :="))
R("C12", er, ("	value := reflect.ValueOf(ptr)\n	if value.Kind() != reflect.Ptr {\n		return false\n	} else {\n		value = value.Elem()\n	}\n	valueType := value.Type()\n", "	pv := reflect.ValueOf(ptr)\n	if pv.Kind() != reflect.Ptr {\n		return false\n	}\n	value := pv.Elem()\n	valueType := value.Type()\n"))
R("C12", er, ("	for err != nil {\n		errValue := reflect.ValueOf(err)\n		if errValue.Type().AssignableTo(valueType) {\n			value.Set(errValue)\n			return true\n		}\n", "	for {\n		if err == nil {\n			return false\n		}\n		if reflect.TypeOf(err).AssignableTo(valueType) {\n			value.Set(reflect.ValueOf(err))\n			return true\n		}\n"),("			return false\n		}\n	}\n	return false","			return false\n		}\n	}"))
R("C12", er, ("	var coder ErrorCoder\n	if AsValue(&coder, e) {\n		return coder, true\n	}\n	return nil, false", "	var coder ErrorCoder\n	ok := AsValue(&coder, e)\n	return coder, ok"))
R("C12", er, ("	if coder, ok := CoderOf(e); ok {\n		return coder.ErrorCode()\n	}\n	return UnknownError", "	coder, ok := CoderOf(e)\n	if !ok {\n		return UnknownError\n	}\n	return coder.ErrorCode()"))
R("C12", er, ("	if _, ok := CoderOf(err); ok {\n		return Wrapc(err, code, err.Error())\n	}\n	return &codedError{\n		code:  code,\n		error: err,\n	}", "	if _, ok := CoderOf(err); !ok {\n		return &codedError{code, err}\n	}\n	return &wrappedError{\n		error:  errors.New(err.Error()),\n		code:   code,\n		origin: err,\n	}"))
R("C12", er, ("	return &wrappedError{\n		error:  errors.New(msg),\n		code:   c,\n		origin: e,\n	}", "	return newWrapped(e, c, errors.New(msg))"),("	return &wrappedError{\n		error:  errors.Errorf(f, args...),\n		code:   c,\n		origin: e,\n	}","	return newWrapped(e, c, errors.Errorf(f, args...))"),("type ErrorCoder interface","func newWrapped(origin error, c Code, msg error) *wrappedError {\n	w := &wrappedError{error: msg}\n	w.code, w.origin = c, origin\n	return w\n}\n\ntype ErrorCoder interface"))
R("C12", er, ("		if f.Flag('+') {\n			fmt.Fprintf(f, \"E%04d:%+v\", e.code, e.error)\n			fmt.Fprintf(f, \"\\nWrapping %+v\", e.origin)\n			return\n		}", "		if f.Flag('+') {\n			fmt.Fprintf(f, \"E%04d:%+v\\nWrapping %+v\", e.code, e.error, e.origin)\n			return\n		}"))
R("C12", er, ("	switch c {\n	case 'v', 's', 'q':\n		fmt.Fprintf(f, \"E%04d:%s\", e.code, e.msg)\n	}", "	if c == 'v' || c == 's' || c == 'q' {\n		fmt.Fprintf(f, \"E%04d:%s\", e.code, e.msg)\n	}"))
R("C12", er, ("	if err == nil {\n		return false\n	}\n	return CodeOf(err) == e.code", "	return err != nil && CodeOf(err) == e.code"))
R("C09", lf, ("	case FrontDirection:\n		srcLog := setLogger(cfg, srcWallet, modLevels)\n		srcLog.Debugln(cfg.FilePath, cfg.BaseDir)\n		if cfg.BaseDir == \"\" {\n			cfg.BaseDir = path.Join(\".\", \".btp2\", cfg.Src.Address.NetworkAddress())\n		}\n", "	case FrontDirection:\n		srcLog := setLogger(cfg, srcWallet, modLevels)\n		srcLog.Debugln(cfg.FilePath, cfg.BaseDir)\n		setBaseDir(cfg, cfg.Src.Address.NetworkAddress())\n"),("func newLink(","func setBaseDir(cfg *Config, name string) {\n	if cfg.BaseDir == \"\" {\n		cfg.BaseDir = path.Join(\".\", \".btp2\", name)\n	}\n}\n\nfunc newLink("))
R("C09", lf, ("	var receiver link.Receiver\n\n	switch s {\n	case ICON:\n		if cfg.Src.BridgeMode {\n			receiver = bridge.NewBridge(cfg.Src.Address, cfg.Dst.Address, cfg.Src.Endpoint, l)\n		} else {\n			receiver = btp2.NewBTP2(cfg.Src.Address, cfg.Dst.Address, cfg.Src.Endpoint, l)\n		}\n	case ETH:\n		fallthrough\n	case HARDHAT:\n		receiver = ethbr.NewEthBridge(cfg.Src.Address, cfg.Dst.Address, cfg.Src.Endpoint, l)\n	default:\n		l.Fatalf(\"Not supported for chain:%s\", s)\n		return nil\n	}\n	return receiver", "	src, dst := cfg.Src, cfg.Dst.Address\n	switch s {\n	case ICON:\n		if !src.BridgeMode {\n			return btp2.NewBTP2(src.Address, dst, src.Endpoint, l)\n		}\n		return bridge.NewBridge(src.Address, dst, src.Endpoint, l)\n	case ETH, HARDHAT:\n		return ethbr.NewEthBridge(src.Address, dst, src.Endpoint, l)\n	}\n	l.Fatalf(\"Not supported for chain:%s\", s)\n	return nil"))
R("C09", lf, ("	var lk types.Link\n	r := newReceiver(s, cfg, l)\n	lk = link.NewLink(&cfg, r, l)\n\n	go func() {\n		linkErrCh <- lk.Start(newSender(cfg.Dst.Address.BlockChain(), cfg.Src, cfg.Dst, w, l))\n	}()\n\n	return lk, nil", "	lk := link.NewLink(&cfg, newReceiver(s, cfg, l), l)\n	go runLink(lk, cfg, w, l, linkErrCh)\n	return lk, nil"),("func newReceiver(","func runLink(lk types.Link, cfg chain.Config, w wallet.Wallet, l log.Logger, linkErrCh chan<- error) {\n	sd := newSender(cfg.Dst.Address.BlockChain(), cfg.Src, cfg.Dst, w, l)\n	linkErrCh <- lk.Start(sd)\n}\n\nfunc newReceiver("))
R("C09", lf, ("	for {\n		select {\n		case err := <-linkErrCh:\n			if err != nil {\n				return err\n			}\n		}\n	}\n	return nil\n}", "	for err := range linkErrCh {\n		if err != nil {\n			return err\n		}\n	}\n	return nil\n}"))
R("C09", lf, ("	for {\n		select {\n		case err := <-linkErrCh:\n			if err != nil {\n				return err\n			}\n		}\n	}\n	return nil\n}", "	for {\n		if err = <-linkErrCh; err != nil {\n			return err\n		}\n	}\n}"))
R("C09", lf, ("		dstCfg := chain.Config{\n			Src: cfg.Dst,\n			Dst: cfg.Src,\n		}\n\n		dstLog", "		dstCfg := reverse(cfg)\n		dstLog"),("func newLink(","func reverse(cfg *Config) (r chain.Config) {\n	r.Src, r.Dst = cfg.Dst, cfg.Src\n	return\n}\n\nfunc newLink("))

# --- refactorings of proofs, key stores and messages (seen by every property)
tr="common/mbt/tree.go"; ks="common/wallet/keystore.go"; ev="common/wallet/wallet_evm.go"; mp="common/mpt/mpt.go"; em="chain/ethbr/message.go"; b2="chain/icon/btp2/message.go"
R("C16", tr, ("	h := sha3.New256()\n	for _, b := range l {\n		h.Write(b)\n	}\n	var digest [32]byte\n	h.Sum(digest[:0])\n	return digest[:]", "	return sumAll(sha3.New256(), l)"),("	h := sha3.NewLegacyKeccak256()\n	for _, b := range data {\n		h.Write(b)\n	}\n	var digest [32]byte\n	h.Sum(digest[:0])\n	return digest[:]","	return sumAll(sha3.NewLegacyKeccak256(), data)"),("type HashFunc func","func sumAll(h hash.Hash, data [][]byte) []byte {\n	for _, b := range data {\n		h.Write(b)\n	}\n	return h.Sum(nil)\n}\n\ntype HashFunc func"),("	\"fmt\"\n","	\"fmt\"\n	\"hash\"\n"))
R("C16", tr, ("	if n.level == levelInit {\n		n.level = levelLeaf\n		n.h = h\n		n.numOfLeaf = 1\n	} else {\n		if n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf {\n			n.r = n.r.add(h)\n			n.numOfLeaf++\n			n.h = n.hashFunc(n.l.h, n.r.h)\n		} else {\n			r := &node{\n				l: n,\n				r: &node{\n					h:         h,\n					level:     levelLeaf,\n					numOfLeaf: 1,\n					hashFunc:  n.hashFunc,\n				},\n				level:    n.level + 1,\n				hashFunc: n.hashFunc,\n			}\n			r.numOfLeaf = n.numOfLeaf + 1\n			r.h = n.hashFunc(n.h, h)\n			return r\n		}\n	}\n	return n", "	switch {\n	case n.level == levelInit:\n		n.level, n.h, n.numOfLeaf = levelLeaf, h, 1\n		return n\n	case n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf:\n		n.r = n.r.add(h)\n		n.h = n.hashFunc(n.l.h, n.r.h)\n		n.numOfLeaf++\n		return n\n	}\n	leaf := &node{h: h, level: levelLeaf, numOfLeaf: 1, hashFunc: n.hashFunc}\n	return &node{\n		l:         n,\n		r:         leaf,\n		h:         n.hashFunc(n.h, h),\n		level:     n.level + 1,\n		numOfLeaf: n.numOfLeaf + 1,\n		hashFunc:  n.hashFunc,\n	}"))
R("C16", tr, ("	if n.level < levelBranch {\n		return\n	}\n	if force || len(n.h) == 0 {\n		if n.l != nil {\n			n.l.ensureHash(force)\n		}\n		if n.r != nil {\n			n.r.ensureHash(force)\n		}\n		n.h = n.hashFunc(n.l.h, n.r.h)\n	}", "	if n.level < levelBranch || (!force && len(n.h) != 0) {\n		return\n	}\n	for _, c := range [...]*node{n.l, n.r} {\n		if c != nil {\n			c.ensureHash(force)\n		}\n	}\n	n.h = n.hashFunc(n.l.h, n.r.h)"))
R("C16", tr, ("	m := &MerkleBinaryTree{contents: contents, hashFunc: hashFunc}\n	if len(contents) > 0 {\n		m.root = &node{hashFunc: hashFunc}\n		for _, c := range contents {\n			if c == nil {\n				return nil, InvalidContent\n			}\n			m.root = m.root.lazyAdd(1, hashFunc(c))\n		}\n		m.root.ensureHash(false)\n	} else {\n		m.contents = make([][]byte, 0)\n	}\n	return m, nil", "	if len(contents) == 0 {\n		return &MerkleBinaryTree{contents: [][]byte{}, hashFunc: hashFunc}, nil\n	}\n	root := &node{hashFunc: hashFunc}\n	for i := range contents {\n		if contents[i] == nil {\n			return nil, InvalidContent\n		}\n		root = root.lazyAdd(1, hashFunc(contents[i]))\n	}\n	root.ensureHash(false)\n	return &MerkleBinaryTree{root: root, contents: contents, hashFunc: hashFunc}, nil"))
R("C16", tr, ("	if m.root == nil {\n		m.root = &node{hashFunc: m.hashFunc}\n	}\n	m.root = m.root.add(m.hashFunc(content))\n	m.contents", "	root := m.root\n	if root == nil {\n		root = &node{hashFunc: m.hashFunc}\n	}\n	m.root = root.add(m.hashFunc(content))\n	m.contents"))
R("C16", tr, ("	if num < 1 || num > m.Len() {\n		return nil, OutOfRange\n	}\n	return m.contents[num-1], nil", "	if i := num - 1; i >= 0 && i < len(m.contents) {\n		return m.contents[i], nil\n	}\n	return nil, OutOfRange"))
R("C07", ks, ("	s := sha3.NewLegacyKeccak256()\n	s.Write(key[16:32])\n	s.Write(cipheredBytes)\n	mac := s.Sum([]byte{})\n	if !bytes.Equal(mac, ksData.Crypto.MAC.Bytes()) {", "	mac := SHA3SumKeccak256(key[16:32], cipheredBytes)\n	if !bytes.Equal(mac, ksData.Crypto.MAC.Bytes()) {"))
R("C07", ks, ("	secretBytes := make([]byte, len(cipheredBytes))\n\n	stream := cipher.NewCTR(block, cipherParams.IV.Bytes())\n	stream.XORKeyStream(secretBytes, cipheredBytes)\n\n	secret, err", "	secretBytes := xorCTR(block, cipherParams.IV.Bytes(), cipheredBytes)\n	secret, err"),("	cipherText := make([]byte, len(secret))\n	enc := cipher.NewCTR(b, c.IV)\n	enc.XORKeyStream(cipherText, secret)\n","	cipherText := xorCTR(b, c.IV.Bytes(), secret)\n"),("func ReadAddressFromKeyStore","func xorCTR(b cipher.Block, iv, in []byte) []byte {\n	out := make([]byte, len(in))\n	cipher.NewCTR(b, iv).XORKeyStream(out, in)\n	return out\n}\n\nfunc ReadAddressFromKeyStore"))
R("C07", ks, ("	if addr := common.NewAccountAddressFromPublicKey(s.PublicKey()); addr == nil {\n		return nil, errors.New(\"FailToMakeAddressForTheKey\")\n	} else {\n		if err := ks.Address.SetBytes(addr.Bytes()); err != nil {\n			return nil, err\n		}\n	}\n\n	return json.Marshal(&ks)", "	addr := common.NewAccountAddressFromPublicKey(s.PublicKey())\n	if addr == nil {\n		return nil, errors.New(\"FailToMakeAddressForTheKey\")\n	}\n	if err = ks.Address.SetBytes(addr.Bytes()); err != nil {\n		return nil, err\n	}\n	return json.Marshal(&ks)"))
R("C07", ks, ("	ksdata, err := NewKeyStoreData(data)\n	if err != nil {\n		return nil, err\n	}\n\n	switch ksdata.CoinType {\n	case coinTypeICON:\n		secret, err := DecryptICONKeyStore(ksdata, pw)\n		if err != nil {\n			return nil, err\n		}\n		return NewIcxWalletFromPrivateKey(secret)\n	case coinTypeEVM, \"\":\n		key, err := DecryptEvmKeyStore(data, pw)\n		if err != nil {\n			return nil, err\n		}\n		return NewEvmWalletFromPrivateKey(key)\n	default:\n		return nil, errors.Errorf(\"InvalidCoinType(coin=%s)\", ksdata.CoinType)\n	}", "	ksdata, err := NewKeyStoreData(data)\n	if err != nil {\n		return nil, err\n	}\n	if ksdata.CoinType == coinTypeICON {\n		secret, err := DecryptICONKeyStore(ksdata, pw)\n		if err != nil {\n			return nil, err\n		}\n		return NewIcxWalletFromPrivateKey(secret)\n	}\n	if ksdata.CoinType != coinTypeEVM && len(ksdata.CoinType) != 0 {\n		return nil, errors.Errorf(\"InvalidCoinType(coin=%s)\", ksdata.CoinType)\n	}\n	key, err := DecryptEvmKeyStore(data, pw)\n	if err != nil {\n		return nil, err\n	}\n	return NewEvmWalletFromPrivateKey(key)"))
R("C07", ks, ("	if kdfParams.DKLen < 32 {\n		return nil, errors.Errorf(\"InvalidKDFParams(dklen=%d)\", kdfParams.DKLen)\n	}\n	key, err := kdfParams.Key(pw)\n	if err != nil {\n		return nil, err\n	}\n", "	key, err := kdfParams.Key(pw)\n	if err != nil {\n		return nil, err\n	}\n	if len(key) < 32 {\n		return nil, errors.Errorf(\"InvalidKDFParams(dklen=%d)\", kdfParams.DKLen)\n	}\n"))
R("C07", ev, ("	pubBytes := w.PublicKey()\n	return common.BytesToAddress(crypto.Keccak256(pubBytes[1:])[12:]).Hex()", "	return crypto.PubkeyToAddress(*w.Pkey).Hex()"),("	\"github.com/ethereum/go-ethereum/common\"\n",""))
R("C07", ev, ("	return &EvmWallet{\n		Skey: sk,\n		Pkey: &sk.PublicKey,\n	}, nil", "	w := new(EvmWallet)\n	w.Skey, w.Pkey = sk, &sk.PublicKey\n	return w, nil"))
R("C13", em, ("	nextBls := &types.BMCLinkStatus{}\n	nextBls.Verifier.Height = targetHeight\n	nextBls.TxSeq = bs.TxSeq\n	nextBls.RxSeq = bs.RxSeq\n	return &blockUpdate{", "	nextBls := &types.BMCLinkStatus{TxSeq: bs.TxSeq, RxSeq: bs.RxSeq}\n	nextBls.Verifier.Height = targetHeight\n	return &blockUpdate{"))
R("C13", em, ("		r := &client.Receipt{\n			Index:  rp.Index,\n			Events: b,\n			Height: rp.Height,\n		}\n		if b, err = codec.RLP.MarshalToBytes(r); err != nil {\n			return nil, err\n		}\n		rm.Receipts = append(rm.Receipts, b)", "		rb, err := codec.RLP.MarshalToBytes(&client.Receipt{Index: rp.Index, Events: b, Height: rp.Height})\n		if err != nil {\n			return nil, err\n		}\n		rm.Receipts = append(rm.Receipts, rb)"))
R("C13", em, ("	for _, rp := range rps {\n		if len(rp.Events) == 0 {\n			continue\n		}\n", "	for i := 0; i < len(rps); i++ {\n		rp := rps[i]\n		if len(rp.Events) == 0 {\n			continue\n		}\n"))
R("C13", em, ("		if b, err = rlp.EncodeToBytes(rp.Events); err != nil {\n			return nil, err\n		}\n		r := &client.Receipt{\n			Index:  rp.Index,\n			Events: b,\n			Height: rp.Height,\n		}\n		if b, err = codec.RLP.MarshalToBytes(r); err != nil {\n			return nil, err\n		}\n		rm.Receipts = append(rm.Receipts, b)", "		if b, err = encodeReceipt(rp); err != nil {\n			return nil, err\n		}\n		rm.Receipts = append(rm.Receipts, b)"),("func NewMessageProof(","func encodeReceipt(rp *client.ReceiptProof) ([]byte, error) {\n	ev, err := rlp.EncodeToBytes(rp.Events)\n	if err != nil {\n		return nil, err\n	}\n	return codec.RLP.MarshalToBytes(&client.Receipt{Index: rp.Index, Events: ev, Height: rp.Height})\n}\n\nfunc NewMessageProof("))
R("C13", b2, ("	tpm := &TypePrefixedMessage{}\n	switch rmi.Type() {\n	case link.TypeBlockUpdate:\n		bn := rmi.(*blockUpdate)\n		tpm.Type = RelayMessageTypeBlockUpdate\n		tpm.Payload = bn.Payload()\n	case link.TypeMessageProof:\n		mp := rmi.(*MessageProof)\n		tpm.Type = RelayMessageTypeMessageProof\n		tpm.Payload = mp.Payload()\n	default:\n		return nil, fmt.Errorf(\"in valid valud\")\n	}\n	return tpm, nil", "	switch rmi.Type() {\n	case link.TypeBlockUpdate:\n		return &TypePrefixedMessage{RelayMessageTypeBlockUpdate, rmi.(*blockUpdate).Payload()}, nil\n	case link.TypeMessageProof:\n		return &TypePrefixedMessage{RelayMessageTypeMessageProof, rmi.(*MessageProof).Payload()}, nil\n	}\n	return nil, fmt.Errorf(\"in valid valud\")"))
R("C13", b2, ("	tpm := &TypePrefixedMessage{}\n	switch rmi.Type() {\n	case link.TypeBlockUpdate:\n		bn := rmi.(*blockUpdate)\n		tpm.Type = RelayMessageTypeBlockUpdate\n		tpm.Payload = bn.Payload()\n	case link.TypeMessageProof:\n		mp := rmi.(*MessageProof)\n		tpm.Type = RelayMessageTypeMessageProof\n		tpm.Payload = mp.Payload()\n	default:\n		return nil, fmt.Errorf(\"in valid valud\")\n	}\n	return tpm, nil", "	tpm := &TypePrefixedMessage{}\n	switch m := rmi.(type) {\n	case *blockUpdate:\n		tpm.Type, tpm.Payload = RelayMessageTypeBlockUpdate, m.payload\n	case *MessageProof:\n		tpm.Type, tpm.Payload = RelayMessageTypeMessageProof, m.payload\n	default:\n		return nil, fmt.Errorf(\"in valid valud\")\n	}\n	return tpm, nil"))
R("C13", b2, ("	bls.Verifier.Height = c.nextBls.Verifier.Height\n	bls.RxSeq = c.nextBls.RxSeq\n	bls.TxSeq = c.nextBls.TxSeq\n	return nil", "	next := c.nextBls\n	bls.TxSeq, bls.RxSeq = next.TxSeq, next.RxSeq\n	bls.Verifier.Height = next.Verifier.Height\n	return nil"))
R("C16", mp, ("		_, err := codec.RLP.UnmarshalFromBytes(b, &mp.Nodes[i])\n		if err != nil {\n			return nil, err\n		}\n		mp.Hashes[i] = crypto.SHA3Sum256(b)", "		mp.Hashes[i] = crypto.SHA3Sum256(b)\n		if _, err := codec.RLP.UnmarshalFromBytes(b, &mp.Nodes[i]); err != nil {\n			return nil, err\n		}"))
R("C07", ks, ("	return json.Marshal(&ks)", "	return json.Marshal(ks)"))
R("C07", ks, ("json.Marshal(&k)", "json.Marshal(k)"),("json.Marshal(&c)","json.Marshal(c)"))
M("C07", ks, ("	if addr := common.NewAccountAddressFromPublicKey(s.PublicKey()); addr == nil {", "	out := ks\n	if addr := common.NewAccountAddressFromPublicKey(s.PublicKey()); addr == nil {"),("	return json.Marshal(&ks)", "	return json.Marshal(out)"))

# --- defects in proofs, messages and codes: an outsider's view
bm="chain/icon/bridge/message.go"; pf="common/mbt/proof.go"; pa="common/mbt/path.go"; ee="chain/ethbr/client/error.go"; ie="chain/icon/client/error.go"
M("C20", bm, ("	nextBls.Verifier.Height = targetHeight\n	nextBls.TxSeq = bs.TxSeq\n	nextBls.RxSeq = bs.RxSeq", "	nextBls.Verifier.Height = targetHeight\n	nextBls.TxSeq = bs.TxSeq\n	nextBls.RxSeq = bs.TxSeq"))
M("C20", bm, ("		srcHeight:    bs.Verifier.Height,", "		srcHeight:    targetHeight,"))
M("C20", bm, ("	nextBls := &types.BMCLinkStatus{}\n	nextBls.Verifier.Height = targetHeight\n", "	nextBls := &types.BMCLinkStatus{}\n	nextBls.Verifier.Height = targetHeight - 1\n"))
M("C14", bm, ("	nextBls.RxSeq = ls\n", "	nextBls.RxSeq = bs.RxSeq + int64(len(rp.Events))\n"))
M("C14", bm, ("		lastSeq:  ls,", "		lastSeq:  bs.RxSeq,"))
M("C14", bm, ("	nextBls.TxSeq = bs.TxSeq\n	nextBls.RxSeq = ls", "	nextBls.TxSeq = ls\n	nextBls.RxSeq = ls"))
M("C14", bm, ("codec.RLP.MarshalToBytes(rp.Events)", "codec.RLP.MarshalToBytes(rp.Events[:1])"))
M("C14", bm, ("		Height: rp.Height,\n	}\n	if b", "		Height: bs.Verifier.Height,\n	}\n	if b"))
M("C14", bm, ("	rm.Receipts = append(rm.Receipts, b)\n", "	if numOfEvents > 1 {\n		rm.Receipts = append(rm.Receipts, b)\n	}\n"))
M("C14", bm, ("	bls.RxSeq = c.nextBls.RxSeq\n", "	if c.nextBls.RxSeq > bls.RxSeq+1 {\n		bls.RxSeq = c.nextBls.RxSeq\n	}\n"))
M("C14", bm, ("	bls.TxSeq = c.nextBls.TxSeq\n", "	bls.TxSeq = c.nextBls.RxSeq\n"))
M("C10", bm, ("	return int64(len(c.payload))", "	return int64(cap(c.payload)) - 1"))
M("C11", ee, ("		return errors.NewBase(c, msg)", "		if c > CodeBSH {\n			c = CodeReserved\n		}\n		return errors.NewBase(c, msg)"))
M("C11", ee, ("	if c >= CodeBTP {", "	if c > CodeBTP {"))
M("C11", ie, ("	if c >= CodeBTP {", "	if c >= CodeBTP && c < CodeReserved {"))
M("C11", ie, ("			msg = fmt.Sprintf(\"BSHRevert[%d]\", c)\n", "			c = CodeBSH\n			msg = fmt.Sprintf(\"BSHRevert[%d]\", c)\n"))
M("C16", pf, ("		l = append(l, ProofNode{NumOfLeaf: n.l.numOfLeaf, Value: n.l.h})", "		l = append(l, ProofNode{NumOfLeaf: maxNumChild, Value: n.r.h})"))
M("C16", pf, ("		r = append(r, ProofNode{NumOfLeaf: n.r.numOfLeaf, Value: n.r.h})", "		r = append(r, ProofNode{NumOfLeaf: n.l.numOfLeaf, Value: n.r.h})"))
M("C16", pf, ("	if num > maxNumChild {\n		l, r = n.r.proof(num - maxNumChild)", "	if num > maxNumChild {\n		l, r = n.r.proof(num - n.r.numOfLeaf)"))
M("C16", pf, ("		if n.l.level < n.r.level {\n			return fmt.Errorf(\"invalid level l:%d r:%d\", n.l.level, n.r.level)\n		}\n", ""))
M("C16", pf, ("		if err := n.r.verify(); err != nil {\n			return err\n		}\n", ""))
M("C16", pf, ("			if v := 1 << (n.l.level - levelLeaf); v != n.l.numOfLeaf {", "			if v := 1 << (n.l.level - levelLeaf); v < n.l.numOfLeaf {"))
M("C16", pf, ("	if err = r.verify(); err != nil {\n		return\n	}\n	return\n", "	return\n"))
M("C16", pf, ("	if r.numOfLeaf != total {", "	if r.numOfLeaf > total {"))
M("C16", pf, ("	for _, c := range p.Contents {\n		r = r.lazyAdd(1, p.hashFunc(c))\n		total++", "	for _, c := range p.Contents {\n		if len(c) == 32 {\n			r = r.lazyAdd(1, c)\n		} else {\n			r = r.lazyAdd(1, p.hashFunc(c))\n		}\n		total++"))
M("C16", pf, ("		Contents:     m.contents[begin-1 : end],", "		Contents:     m.contents[begin-1 : end-1],"))
M("C16", pf, ("			if end == m.Len() {\n				r = r[:0]", "			if end >= m.Len()-1 {\n				r = r[:0]"))
M("C16", pa, ("		if n.Right {\n			h = p.hashFunc(h, n.Value)", "		if n.Right || len(n.Value) == 0 {\n			h = p.hashFunc(h, n.Value)"))
M("C16", pa, ("		if n.Dir == DirRight {", "		if n.Dir != DirRight {"))
M("C16", tr, ("		if n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf {\n			n.r = n.r.lazyAdd", "		if n.l != nil && n.l.level != n.r.level {\n			n.r = n.r.lazyAdd"))
M("C16", tr, ("		if n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf {\n			n.r = n.r.add(", "		if n.l != nil && n.l.level != n.r.level {\n			n.r = n.r.add("))
M("C16", tr, ("		n.h = n.hashFunc(n.l.h, n.r.h)\n	}\n}", "		n.h = n.hashFunc(n.r.h, n.l.h)\n	}\n}"))
M("C16", tr, ("		if n.r != nil {\n			n.r.ensureHash(force)\n		}\n", ""))
M("C16", tr, ("			n.numOfLeaf += numOfLeaf\n", "			n.numOfLeaf++\n"))
M("C16", tr, ("		\"eth\":  Sha3Keccak256,", "		\"eth\":  Sha3FIPS256,"))
M("C16", tr, ("			m.root = m.root.lazyAdd(1, hashFunc(c))", "			m.root = m.root.lazyAdd(1, c)"))
M("C16", mp, ("				if !bytes.Equal(ml.Hash, mp.Hashes[i+1]) {", "				if len(ml.Hash) == 32 && !bytes.Equal(ml.Hash, mp.Hashes[i+1]) {"))
M("C16", mp, ("				if len(ml.Hash) > 0 && bytes.Equal(ml.Hash, mp.Hashes[i+1]) {", "				if bytes.HasPrefix(mp.Hashes[i+1], ml.Hash) {"))
M("C16", mp, ("crypto.SHA3Sum256(b)", "crypto.SHA3Sum256(b[1:])"))
tr="common/mbt/tree.go"; pf="common/mbt/proof.go"
ADD='''	if n.level == levelInit {
		n.level = levelLeaf
		n.h = h
		n.numOfLeaf = 1
	} else {
		if n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf {
			n.r = n.r.add(h)
			n.numOfLeaf++
			n.h = n.hashFunc(n.l.h, n.r.h)
		} else {
			r := &node{
				l: n,
				r: &node{
					h:         h,
					level:     levelLeaf,
					numOfLeaf: 1,
					hashFunc:  n.hashFunc,
				},
				level:    n.level + 1,
				hashFunc: n.hashFunc,
			}
			r.numOfLeaf = n.numOfLeaf + 1
			r.h = n.hashFunc(n.h, h)
			return r
		}
	}
	return n
}
'''
LAZY='''	if n.level == levelInit {
		n.level = NumberToLevel(numOfLeaf)
		n.numOfLeaf = numOfLeaf
		n.h = h
	} else {
		if n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf {
			n.r = n.r.lazyAdd(numOfLeaf, h)
			n.numOfLeaf += numOfLeaf
		} else {
			r := &node{
				l: n,
				r: &node{
					h:         h,
					level:     NumberToLevel(numOfLeaf),
					numOfLeaf: numOfLeaf,
					hashFunc:  n.hashFunc,
				},
				level:    n.level + 1,
				hashFunc: n.hashFunc,
			}
			r.numOfLeaf = n.numOfLeaf + numOfLeaf
			return r
		}
	}
	return n
}
'''
# newLeaf helper + join helper
R("C16", tr, (ADD, '''	if n.level == levelInit {
		n.setLeaf(h)
		return n
	}
	if n.full() {
		p := n.join(newNode(n.hashFunc, 1, h))
		p.rehash()
		return p
	}
	n.r = n.r.add(h)
	n.numOfLeaf++
	n.rehash()
	return n
}

func (n *node) setLeaf(h []byte) {
	n.level, n.h, n.numOfLeaf = levelLeaf, h, 1
}

func (n *node) rehash() {
	n.h = n.hashFunc(n.l.h, n.r.h)
}

func (n *node) full() bool {
	return n.l == nil || n.l.numOfLeaf == n.r.numOfLeaf
}

func newNode(f HashFunc, num int, h []byte) *node {
	return &node{h: h, level: NumberToLevel(num), numOfLeaf: num, hashFunc: f}
}

func (n *node) join(r *node) *node {
	return &node{l: n, r: r, level: n.level + 1, numOfLeaf: n.numOfLeaf + r.numOfLeaf, hashFunc: n.hashFunc}
}
'''),(LAZY,'''	if n.level == levelInit {
		n.level, n.numOfLeaf, n.h = NumberToLevel(numOfLeaf), numOfLeaf, h
		return n
	}
	if n.full() {
		return n.join(newNode(n.hashFunc, numOfLeaf, h))
	}
	n.r = n.r.lazyAdd(numOfLeaf, h)
	n.numOfLeaf += numOfLeaf
	return n
}
'''))
# switch
R("C16", tr, (LAZY,'''	switch {
	case n.level == levelInit:
		n.level = NumberToLevel(numOfLeaf)
		n.numOfLeaf = numOfLeaf
		n.h = h
		return n
	case n.l == nil, n.l.numOfLeaf == n.r.numOfLeaf:
		leaf := &node{hashFunc: n.hashFunc}
		leaf.lazyAdd(numOfLeaf, h)
		p := &node{hashFunc: n.hashFunc, level: n.level + 1}
		p.l, p.r = n, leaf
		p.numOfLeaf = n.numOfLeaf + numOfLeaf
		return p
	default:
		n.r = n.r.lazyAdd(numOfLeaf, h)
		n.numOfLeaf += numOfLeaf
		return n
	}
}
'''))
R("C16", tr, (ADD, '''	if n.level == levelInit {
		n.level = levelLeaf
		n.h = h
		n.numOfLeaf = 1
		return n
	}
	if n.l == nil || n.l.numOfLeaf == n.r.numOfLeaf {
		leaf := &node{h: h, level: levelLeaf, numOfLeaf: 1, hashFunc: n.hashFunc}
		return &node{
			l:         n,
			r:         leaf,
			h:         n.hashFunc(n.h, leaf.h),
			level:     n.level + 1,
			numOfLeaf: n.numOfLeaf + leaf.numOfLeaf,
			hashFunc:  n.hashFunc,
		}
	}
	n.r = n.r.add(h)
	n.numOfLeaf = n.l.numOfLeaf + n.r.numOfLeaf
	n.h = n.hashFunc(n.l.h, n.r.h)
	return n
}
'''))
R("C16", tr, ('''	if n.level < levelBranch {
		return
	}
	if force || len(n.h) == 0 {
		if n.l != nil {
			n.l.ensureHash(force)
		}
		if n.r != nil {
			n.r.ensureHash(force)
		}
		n.h = n.hashFunc(n.l.h, n.r.h)
	}
}
''','''	if n == nil || n.level <= levelLeaf {
		return
	}
	if !force && n.h != nil {
		return
	}
	n.l.ensureHash(force)
	n.r.ensureHash(force)
	n.h = n.hashFunc(n.l.h, n.r.h)
}
'''))
R("C16", tr, ('''	m := &MerkleBinaryTree{contents: contents, hashFunc: hashFunc}
	if len(contents) > 0 {
		m.root = &node{hashFunc: hashFunc}
		for _, c := range contents {
			if c == nil {
				return nil, InvalidContent
			}
			m.root = m.root.lazyAdd(1, hashFunc(c))
		}
		m.root.ensureHash(false)
	} else {
		m.contents = make([][]byte, 0)
	}
	return m, nil
}
''','''	if len(contents) == 0 {
		contents = make([][]byte, 0)
	}
	root, err := buildTree(hashFunc, contents)
	if err != nil {
		return nil, err
	}
	return &MerkleBinaryTree{root: root, contents: contents, hashFunc: hashFunc}, nil
}

func buildTree(hashFunc HashFunc, contents [][]byte) (*node, error) {
	if len(contents) == 0 {
		return nil, nil
	}
	root := &node{hashFunc: hashFunc}
	for _, c := range contents {
		if c == nil {
			return nil, InvalidContent
		}
		root = root.lazyAdd(1, hashFunc(c))
	}
	root.ensureHash(false)
	return root, nil
}
'''))
R("C16", tr, ('''	if m.root == nil {
		m.root = &node{hashFunc: m.hashFunc}
	}
	m.root = m.root.add(m.hashFunc(content))
	m.contents = append(m.contents, content)
	return nil
''','''	h := m.hashFunc(content)
	m.contents = append(m.contents, content)
	if root := m.root; root != nil {
		m.root = root.add(h)
		return nil
	}
	m.root = (&node{hashFunc: m.hashFunc}).add(h)
	return nil
'''))
R("C16", pf, ('''	if begin == 1 {
		if end == m.Len() {
			return m.ProofOfAll(), nil
		} else {
			_, r = m.root.proof(end)
		}
	} else {
		l, r = m.root.proof(begin)
		if begin != end {
			if end == m.Len() {
				r = r[:0]
			} else {
				_, r = m.root.proof(end)
			}
		}
	}
''','''	if begin > 1 {
		l, _ = m.root.proof(begin)
	}
	if end < m.Len() {
		_, r = m.root.proof(end)
	} else {
		r = make([]ProofNode, 0)
	}
'''))
R("C16", pf, ('''	j := len(l) - 1
	for _, n := range l {
		p.ProofInLeft[j].NumOfLeaf = n.NumOfLeaf
		p.ProofInLeft[j].Value = n.Value
		j--
	}
	return p, nil
''','''	for i, n := range l {
		p.ProofInLeft[len(l)-1-i] = n
	}
	return p, nil
'''))
R("C16", pf, ('''	maxNumChild := 1 << (n.level - levelBranch)
	if num > maxNumChild {
		l, r = n.r.proof(num - maxNumChild)
		l = append(l, ProofNode{NumOfLeaf: n.l.numOfLeaf, Value: n.l.h})
	} else {
		l, r = n.l.proof(num)
		r = append(r, ProofNode{NumOfLeaf: n.r.numOfLeaf, Value: n.r.h})
	}
	return
''','''	if half := n.l.numOfLeaf; num > half {
		l, r = n.r.proof(num - half)
		return append(l, n.l.asProof()), r
	}
	l, r = n.l.proof(num)
	return l, append(r, n.r.asProof())
}

func (n *node) asProof() ProofNode {
	return ProofNode{NumOfLeaf: n.numOfLeaf, Value: n.h}
'''))
LF="common/log/filter.go"; LL="common/log/log.go"; FW="common/log/forwarder.go"; FO="common/log/formatter.go"
R("C26", LF, ('''	level := f.defaultLevel

	var module string
	if value, ok := e.Data[FieldKeyModule]; !ok {
		if e.HasCaller() {
			module = getPackageName(e.Caller.Function)
		}
	} else {
		module = value.(string)
	}

	if len(module) > 0 {
		if lv, ok := f.moduleLevels[module]; ok {
			level = lv
		}
	}

	if e.Level > logrus.Level(level) && f.fileWriter == nil {
		return nil, nil
	}
	buf, err := f.formatter.Format(e)
	if f.fileWriter != nil && len(buf) > 0 {
		f.fileWriter.Write(buf)
	}
	if e.Level > logrus.Level(level) {
		return nil, nil
	}
	return buf, err
}
''','''	onConsole := f.visible(e)
	if !onConsole && f.fileWriter == nil {
		return nil, nil
	}
	buf, err := f.formatter.Format(e)
	if f.fileWriter != nil && len(buf) > 0 {
		f.fileWriter.Write(buf)
	}
	if onConsole {
		return buf, err
	}
	return nil, nil
}

func moduleOf(e *logrus.Entry) string {
	if value, ok := e.Data[FieldKeyModule]; ok {
		return value.(string)
	}
	if e.HasCaller() {
		return getPackageName(e.Caller.Function)
	}
	return ""
}

func (f *logFilter) visible(e *logrus.Entry) bool {
	level := f.defaultLevel
	if m := moduleOf(e); m != "" {
		level = f.GetModuleLevel(m)
	}
	return e.Level <= logrus.Level(level)
}
'''))
R("C26", LF, ('''	if lv, ok := f.moduleLevels[module]; ok {
		return lv
	} else {
		return f.defaultLevel
	}
''','''	lv, ok := f.moduleLevels[module]
	if !ok {
		lv = f.defaultLevel
	}
	return lv
'''))
R("C26", LL, ('''	switch l {
	case TraceLevel:
		return "trace"
	case DebugLevel:
		return "debug"
	case InfoLevel:
		return "info"
	case WarnLevel:
		return "warn"
	case ErrorLevel:
		return "error"
	case FatalLevel:
		return "fatal"
	case PanicLevel:
		return "panic"
	default:
		return "unknown"
	}
''','''	if s, ok := namesOfLevel[l]; ok {
		return s
	}
	return "unknown"
'''),('''func ParseLevel(''','''var namesOfLevel = map[Level]string{
	TraceLevel: "trace",
	DebugLevel: "debug",
	InfoLevel:  "info",
	WarnLevel:  "warn",
	ErrorLevel: "error",
	FatalLevel: "fatal",
	PanicLevel: "panic",
}

func ParseLevel('''))
R("C26", LL, ('''	switch strings.ToLower(s) {
	case "panic":
		return PanicLevel, nil
	case "fatal":
		return FatalLevel, nil
	case "error":
		return ErrorLevel, nil
	case "warn":
		return WarnLevel, nil
	case "info":
		return InfoLevel, nil
	case "debug":
		return DebugLevel, nil
	case "trace":
		return TraceLevel, nil
	default:
		return DebugLevel,
			errors.IllegalArgumentError.Errorf("Invalid log level str=%s", s)
	}
''','''	name := strings.ToLower(s)
	for lv := PanicLevel; lv <= TraceLevel; lv++ {
		if lv.String() == name {
			return lv, nil
		}
	}
	return DebugLevel, errors.IllegalArgumentError.Errorf("Invalid log level str=%s", s)
'''))
R("C26", LL, ('''	lastSlash := strings.LastIndex(f, "/")
	if lastSlash >= 0 {
		f = f[lastSlash+1:]
	}

	firstPeriod := strings.Index(f, ".")
	if firstPeriod > 0 {
		f = f[0:firstPeriod]
	}
	return f
''','''	base := f[strings.LastIndex(f, "/")+1:]
	if i := strings.Index(base, "."); i > 0 {
		return base[:i]
	}
	return base
'''))
R("C26", LL, ('''	logger := logrus.New()
	logger.Out = os.Stderr
	logger.Level = logrus.DebugLevel
	logger.SetReportCaller(true)
	logger.SetFormatter(newLogFilter(customFormatter{}))
	return &loggerWrapper{
		Logger: logger,
	}
''','''	logger := logrus.New()
	logger.SetOutput(os.Stderr)
	logger.SetLevel(logrus.DebugLevel)
	logger.SetFormatter(newLogFilter(customFormatter{}))
	logger.SetReportCaller(true)
	return &loggerWrapper{logger}
'''))
R("C26", LL, ('''func (w entryWrapper) SetConsoleLevel(lv Level) {
	w.Logger.Formatter.(*logFilter).SetDefaultLevel(lv)
}

func (w entryWrapper) GetConsoleLevel() Level {
	return w.Logger.Formatter.(*logFilter).GetDefaultLevel()
}
''','''func (w entryWrapper) filter() *logFilter {
	return w.Logger.Formatter.(*logFilter)
}

func (w entryWrapper) SetConsoleLevel(lv Level) {
	w.filter().SetDefaultLevel(lv)
}

func (w entryWrapper) GetConsoleLevel() Level {
	return w.filter().GetDefaultLevel()
}
'''))
R("C26", FO, ('''	if v, ok := e.Data[FieldKeyWallet]; ok {
		buf.WriteString(fmt.Sprint(v, "----")[0:4])
		buf.WriteString("|")
	} else {
		buf.WriteString("----|")
	}
	if v, ok := e.Data[FieldKeyChain]; ok {
		fmt.Fprint(buf, v, "|")
	} else {
		buf.WriteString("-|")
	}
	if v, ok := e.Data[FieldKeyModule]; ok {
		fmt.Fprint(buf, v, "|")
	} else {
		if e.HasCaller() {
			fmt.Fprint(buf, getPackageName(e.Caller.Function), "|")
		} else {
			fmt.Fprint(buf, "--|")
		}
	}
''','''	writeWallet(buf, e)
	if v, ok := e.Data[FieldKeyChain]; ok {
		fmt.Fprint(buf, v, "|")
	} else {
		buf.WriteString("-|")
	}
	if v, ok := e.Data[FieldKeyModule]; ok {
		fmt.Fprint(buf, v, "|")
	} else if e.HasCaller() {
		fmt.Fprint(buf, getPackageName(e.Caller.Function), "|")
	} else {
		buf.WriteString("--|")
	}
'''),('''func (customFormatter) Format''','''func writeWallet(buf *bytes.Buffer, e *logrus.Entry) {
	w := "----"
	if v, ok := e.Data[FieldKeyWallet]; ok {
		w = fmt.Sprint(v, w)[:4]
	}
	buf.WriteString(w + "|")
}

func (customFormatter) Format'''),('''import (
''','''import (
	"bytes"
'''))
R("C26", FO, ('''	fmt.Fprint(buf, levelNames[e.Level], "|")
	fmt.Fprint(buf, e.Time.Format(LogTimeLayout), "|")
''','''	buf.WriteString(levelNames[e.Level] + "|" + e.Time.Format(LogTimeLayout) + "|")
'''),('''	for k, v := range e.Data {
		if _, ok := systemFields[k]; ok {
			continue
		}
		fmt.Fprintf(buf, " %s=%v", k, v)
	}
''','''	for k, v := range e.Data {
		if _, ok := systemFields[k]; !ok {
			buf.WriteString(" " + k + "=" + fmt.Sprint(v))
		}
	}
'''))
R("C26", FW, ('''	lvs := make([]logrus.Level, 0)
	switch lv {
	case TraceLevel:
		lvs = append(lvs, logrus.TraceLevel)
		fallthrough
	case DebugLevel:
		lvs = append(lvs, logrus.DebugLevel)
		fallthrough
	case InfoLevel:
		lvs = append(lvs, logrus.InfoLevel)
		fallthrough
	case WarnLevel:
		lvs = append(lvs, logrus.WarnLevel)
		fallthrough
	case ErrorLevel:
		lvs = append(lvs, logrus.ErrorLevel)
		fallthrough
	case FatalLevel:
		lvs = append(lvs, logrus.FatalLevel)
		fallthrough
	case PanicLevel:
		lvs = append(lvs, logrus.PanicLevel)
	}
	return lvs, nil
''','''	lvs := make([]logrus.Level, 0)
	for l := logrus.Level(lv); l > logrus.PanicLevel; l-- {
		lvs = append(lvs, l)
	}
	return append(lvs, logrus.PanicLevel), nil
'''))
R("C26", FW, ('''	lvs := make([]logrus.Level, 0)
	switch lv {
	case TraceLevel:
		lvs = append(lvs, logrus.TraceLevel)
		fallthrough
	case DebugLevel:
		lvs = append(lvs, logrus.DebugLevel)
		fallthrough
	case InfoLevel:
		lvs = append(lvs, logrus.InfoLevel)
		fallthrough
	case WarnLevel:
		lvs = append(lvs, logrus.WarnLevel)
		fallthrough
	case ErrorLevel:
		lvs = append(lvs, logrus.ErrorLevel)
		fallthrough
	case FatalLevel:
		lvs = append(lvs, logrus.FatalLevel)
		fallthrough
	case PanicLevel:
		lvs = append(lvs, logrus.PanicLevel)
	}
	return lvs, nil
''','''	lvs := make([]logrus.Level, 0, len(logrus.AllLevels))
	for _, l := range logrus.AllLevels {
		if Level(l) <= lv {
			lvs = append(lvs, l)
		}
	}
	return lvs, nil
'''))
R("C26", FW, ('''	d := e.Data
	defer func() {
		e.Data = d
	}()
	e.Data = make(map[string]interface{}, len(d)+2)
	for k, v := range d {
		e.Data[k] = v
	}

	e.Data["logtime"] = e.Time.UnixNano()

	var hasModule bool
	if e.Caller != nil {
		if _, hasModule = e.Data[FieldKeyModule]; !hasModule {
			e.Data[FieldKeyModule] = getPackageName(e.Caller.Function)
		}
		e.Data["src"] = fmt.Sprintf("%s:%d", path.Base(e.Caller.File), e.Caller.Line)
	}
	err := h.h.Fire(e)
	return err
''','''	orig := e.Data
	defer func() { e.Data = orig }()
	data := make(logrus.Fields, len(orig)+3)
	for k, v := range orig {
		data[k] = v
	}
	data["logtime"] = e.Time.UnixNano()
	if c := e.Caller; c != nil {
		if _, ok := orig[FieldKeyModule]; !ok {
			data[FieldKeyModule] = getPackageName(c.Function)
		}
		data["src"] = fmt.Sprintf("%s:%d", path.Base(c.File), c.Line)
	}
	e.Data = data
	return h.h.Fire(e)
'''))
R("C26", FW, ('''	if c.Level == "" {
		c.Level = "info"
	}
	if c.Name == "" {
		c.Name = "btp"
	}
	if c.TimeFormat == "" {
		c.TimeFormat = time.RFC3339Nano
	}

	var h logrus.Hook
	var err error
	switch c.Vendor {
	case HookVendorFluentd:
		h, err = newHook(c, fluentHookCreater)
	case HookVendorLogstash:
		h, err = newHook(c, logstashHookCreater)
	default:
		return fmt.Errorf("not supported forwarder %s", c.Vendor)
	}
	if err != nil {
		return err
	}
	globalLogger.addHook(h)
	return nil
}
''','''	c.setDefaults()
	var creater HookCreater
	switch c.Vendor {
	case HookVendorFluentd:
		creater = fluentHookCreater
	case HookVendorLogstash:
		creater = logstashHookCreater
	default:
		return fmt.Errorf("not supported forwarder %s", c.Vendor)
	}
	h, err := newHook(c, creater)
	if err == nil {
		globalLogger.addHook(h)
	}
	return err
}

func (c *ForwarderConfig) setDefaults() {
	setIfEmpty := func(p *string, v string) {
		if *p == "" {
			*p = v
		}
	}
	setIfEmpty(&c.Level, "info")
	setIfEmpty(&c.Name, "btp")
	setIfEmpty(&c.TimeFormat, time.RFC3339Nano)
}
'''))
R("C26", FW, ('''	if strings.Index(addr, "://") < 0 {
		addr = defaultNet + "://" + addr
	}
	fmt.Println(c.Address)
	var u *url.URL
	u, err = url.Parse(addr)
	if err != nil {
		return
	}
	hostPort = u.Host
	if hostPort == "" {
		err = fmt.Errorf("not exists hostPort value")
		return
	}
	network = u.Scheme
	if network == "unix" {
		err = fmt.Errorf("invalid network")
		return
	}
	return network, u.Host, nil
''','''	if !strings.Contains(addr, "://") {
		addr = fmt.Sprintf("%s://%s", defaultNet, addr)
	}
	fmt.Println(c.Address)
	u, err := url.Parse(addr)
	if err != nil {
		return "", "", err
	}
	if u.Host == "" {
		return "", "", fmt.Errorf("not exists hostPort value")
	}
	if u.Scheme == "unix" {
		return "unix", u.Host, fmt.Errorf("invalid network")
	}
	return u.Scheme, u.Host, nil
'''))
R("C26", FW, ('''	if h, err := logrustash.NewHook(network, hostPort, c.Name); err != nil {
		return nil, err
	} else {
		h.TimeFormat = c.TimeFormat
		return h, nil
	}
''','''	h, err := logrustash.NewHook(network, hostPort, c.Name)
	if err != nil {
		return nil, err
	}
	h.TimeFormat = c.TimeFormat
	return h, nil
'''),('''	idx := strings.Index(hostPort, ":")
	if idx > 0 {
		port, _ := strconv.Atoi(hostPort[idx+1:])
		return hostPort[:idx], port
	}
	return hostPort, 0
''','''	host, port := hostPort, 0
	if idx := strings.IndexByte(hostPort, ':'); idx > 0 {
		host = hostPort[:idx]
		port, _ = strconv.Atoi(hostPort[idx+1:])
	}
	return host, port
'''))
lk="common/link/link.go"; bt="chain/icon/btp2/btp2.go"
for P in ("C10",):
    # generic add helper returning error, used at all sites
    R(P, lk, ('''			l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bu)
			l.rmi.size += bu.Len()
			err := bu.UpdateBMCLinkStatus(bls)
			if err != nil {
				return err
			}

			if err = l.buildProof''','''			if err := l.pushItem(bls, bu); err != nil {
				return err
			}

			if err = l.buildProof'''),('''				l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)
				l.rmi.size += mp.Len()
				if err := mp.UpdateBMCLinkStatus(bls); err != nil {
					return err
				}
			}
			break''','''				if err := l.pushItem(bls, mp); err != nil {
					return err
				}
			}
			break'''),('''	if mp != nil {
		l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)
		l.rmi.size += mp.Len()
		if err := mp.UpdateBMCLinkStatus(bls); err != nil {
			return err
		}
	}
	return nil
}
''','''	if mp == nil {
		return nil
	}
	return l.pushItem(bls, mp)
}

// pushItem puts the item in the open group.
func (l *Link) pushItem(bls *types.BMCLinkStatus, item RelayMessageItem) error {
	open := &l.rmi.rmis[len(l.rmi.rmis)-1]
	*open = append(*open, item)
	l.rmi.size += item.Len()
	return item.UpdateBMCLinkStatus(bls)
}
'''),('''	if bf != nil {
		l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bf)
		l.rmi.size += bf.Len()
		if err := bf.UpdateBMCLinkStatus(bls); err != nil {
			return err
		}

	}
	return nil
''','''	if bf == nil {
		return nil
	}
	return l.pushItem(bls, bf)
'''))
    R(P, lk, ('''	lastSeq := bls.RxSeq
	for {
		h := l.r.GetHeightForSeq(lastSeq)
		if h == 0 {
			break
		}
		if h == bls.Verifier.Height {
			mp, err := l.r.BuildMessageProof(bls, l.limitSize-l.rmi.size)
			if err != nil {
				return err
			}

			if mp == nil {
				break
			}

			if mp.Len() != 0 || bls.RxSeq < mp.LastSeqNum() {
				l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)
				l.rmi.size += mp.Len()
				if err := mp.UpdateBMCLinkStatus(bls); err != nil {
					return err
				}
			}
			break
		} else if h < bls.Verifier.Height {
			err := l.buildProof(bls, nil)
			if err != nil {
				return err
			}
		} else {
			break
		}
	}
''','''	lastSeq := bls.RxSeq
	h := l.r.GetHeightForSeq(lastSeq)
	for h != 0 && h < bls.Verifier.Height {
		if err := l.buildProof(bls, nil); err != nil {
			return err
		}
		h = l.r.GetHeightForSeq(lastSeq)
	}
	if h != 0 && h == bls.Verifier.Height {
		mp, err := l.r.BuildMessageProof(bls, l.limitSize-l.rmi.size)
		if err != nil {
			return err
		}
		if mp != nil && (mp.Len() != 0 || bls.RxSeq < mp.LastSeqNum()) {
			last := len(l.rmi.rmis) - 1
			l.rmi.rmis[last] = append(l.rmi.rmis[last], mp)
			l.rmi.size += mp.Len()
			if err := mp.UpdateBMCLinkStatus(bls); err != nil {
				return err
			}
		}
	}
'''))
    R(P, lk, ('''	var mh int64
	for {
		//TODO refactoring
		if rs.Seq() <= bls.RxSeq {
			break
		}
		if l.isOverLimit(l.rmi.size) {
			if err := l.sendRelayMessage(bls); err != nil {
				return err
			}
			h := l.r.GetHeightForSeq(bls.RxSeq)
			mh = h
			if err := l.buildBlockProof(bls, mh); err != nil {
				return err
			}
			if err := l.buildMessageProof(bls); err != nil {
				return err
			}
		} else {
			if bu == nil || bu.ProofHeight() == -1 {
				h := l.r.GetHeightForSeq(bls.RxSeq)
				mh = h
				if mh != h {
					if err := l.buildBlockProof(bls, mh); err != nil {
						return err
					}
				}
			}
			if err := l.buildMessageProof(bls); err != nil {
				return err
			}
		}
	}
	return nil
''','''	for rs.Seq() > bls.RxSeq {
		if l.isOverLimit(l.rmi.size) {
			if err := l.sendRelayMessage(bls); err != nil {
				return err
			}
			if err := l.buildBlockProof(bls, l.r.GetHeightForSeq(bls.RxSeq)); err != nil {
				return err
			}
		}
		if err := l.buildMessageProof(bls); err != nil {
			return err
		}
	}
	return nil
'''))
R("C14", bt, ('''	messageCnt := int64(rs.MerkleBinaryTree().Len())
	offset := bls.RxSeq - (rs.Seq() - messageCnt)
	if (bls.RxSeq - rs.seq) == 0 {
		return nil, nil
	}
	if messageCnt > 0 {
		for i := offset + 1; i < messageCnt; i++ {
			p, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(i))
			if err != nil {
				return nil, err
			}

			if limit < int64(len(codec.RLP.MustMarshalToBytes(p))) {
				mp := NewMessageProof(bls, bls.RxSeq+i-offset, *p)
				return mp, nil
			}
		}
	}

	p, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(messageCnt))
	if err != nil {
		return nil, err
	}
	mp := NewMessageProof(bls, bls.RxSeq+messageCnt-offset, *p)
	return mp, nil
''','''	if bls.RxSeq == rs.seq {
		return nil, nil
	}
	mt := rs.MerkleBinaryTree()
	last := int64(mt.Len())
	before := rs.Seq() - last // sequence before the block's first message
	begin := bls.RxSeq - before + 1
	for end := begin; end <= last; end++ {
		p, err := mt.Proof(int(begin), int(end))
		if err != nil {
			return nil, err
		}
		if end == last || limit < int64(len(codec.RLP.MustMarshalToBytes(p))) {
			return NewMessageProof(bls, before+end, *p), nil
		}
	}
	p, err := mt.Proof(int(begin), int(last))
	if err != nil {
		return nil, err
	}
	return NewMessageProof(bls, before+last, *p), nil
'''))
R("C14", bt, ('''	rs := b.GetReceiveHeightForSequence(seq)
	if rs != nil {
		return b.GetReceiveHeightForSequence(seq).height
	} else {
		return 0
	}
''','''	if rs := b.GetReceiveHeightForSequence(seq); rs != nil {
		return rs.Height()
	}
	return 0
'''))
R("C20", bt, ('''	for _, rs := range b.rss {

		h, p, err := b.getBtpHeader(rs.Height())
		if err != nil {
			return nil, err
		}
		bh := &client.BTPBlockHeader{}
		if _, err := codec.RLP.UnmarshalFromBytes(h, bh); err != nil {
			return nil, err
		}
		bbu := &client.BTPBlockUpdate{BTPBlockHeader: h, BTPBlockProof: p}

		if limit < int64(len(codec.RLP.MustMarshalToBytes(bbu))) {
			return bus, nil
		}

		bu := NewBlockUpdate(bls, bh.MainHeight, bbu)
		bus = append(bus, bu)

	}
	return bus, nil
}
''','''	for _, rs := range b.rss {
		bu, err := b.blockUpdateOf(bls, rs, limit)
		if err != nil {
			return nil, err
		}
		if bu == nil {
			break
		}
		bus = append(bus, bu)
	}
	return bus, nil
}

// blockUpdateOf builds the update of one block, nil if it does not fit.
func (b *btp2) blockUpdateOf(bls *types.BMCLinkStatus, rs *receiveStatus, limit int64) (*blockUpdate, error) {
	h, p, err := b.getBtpHeader(rs.Height())
	if err != nil {
		return nil, err
	}
	bh := &client.BTPBlockHeader{}
	if _, err := codec.RLP.UnmarshalFromBytes(h, bh); err != nil {
		return nil, err
	}
	bbu := &client.BTPBlockUpdate{BTPBlockHeader: h, BTPBlockProof: p}
	if limit < int64(len(codec.RLP.MustMarshalToBytes(bbu))) {
		return nil, nil
	}
	return NewBlockUpdate(bls, bh.MainHeight, bbu), nil
}
'''))
R("C20", bt, ('''	bm := &BTPRelayMessage{
		Messages: make([]*TypePrefixedMessage, 0),
	}

	for _, rmi := range rmis {
		tpm, err := NewTypePrefixedMessage(rmi)
		if err != nil {
			return nil, err
		}
		bm.Messages = append(bm.Messages, tpm)
	}

	rb, err := codec.RLP.MarshalToBytes(bm)
	if err != nil {
		return nil, err
	}

	return rb, nil
''','''	msgs := make([]*TypePrefixedMessage, len(rmis))
	for i, rmi := range rmis {
		var err error
		if msgs[i], err = NewTypePrefixedMessage(rmi); err != nil {
			return nil, err
		}
	}
	return codec.RLP.MarshalToBytes(&BTPRelayMessage{Messages: msgs})
'''))
R("C21", bt, ('''		if bh.MainHeight != b.startHeight {
			msgs, err := b.getBtpMessage(bh.MainHeight)
			if err != nil {
				return err
			}

			seq := b.seq + int64(len(msgs))
			rs, err := newReceiveStatus(bh.MainHeight, seq, msgs)
			if err != nil {
				return err
			}

			b.seq = seq
			b.rss = append(b.rss, rs)
			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
			b.rsc <- rs
		}
		return nil
	}, scb, errCb)
}
''','''		if bh.MainHeight == b.startHeight {
			return nil
		}
		rs, err := b.receive(bh)
		if err != nil {
			return err
		}
		b.rsc <- rs
		return nil
	}, scb, errCb)
}

func (b *btp2) receive(bh *client.BTPBlockHeader) (*receiveStatus, error) {
	msgs, err := b.getBtpMessage(bh.MainHeight)
	if err != nil {
		return nil, err
	}
	rs, err := newReceiveStatus(bh.MainHeight, b.seq+int64(len(msgs)), msgs)
	if err != nil {
		return nil, err
	}
	b.seq = rs.Seq()
	b.rss = append(b.rss, rs)
	b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
	return rs, nil
}
'''))
R("C21", bt, ('''	for i, rs := range b.rss {
		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
			b.rss = b.rss[i+1:]
			return
		}
	}
''','''	for i := 0; i < len(b.rss); i++ {
		rs := b.rss[i]
		if rs.Height() > bs.Verifier.Height || rs.Seq() > bs.RxSeq {
			continue
		}
		b.rss = b.rss[i+1:]
		break
	}
'''))
