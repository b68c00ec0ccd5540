package bond

// Bounds of an index scan.

func sHasPrefix(k, p string) bool {
	return len(k) >= len(p) && vForall(func(j int) bool { return vImp(j >= 0 && j < len(p), vStrAt(k, j) == vStrAt(p, j)) })
}

// u is p up to its last byte below 0xFF, with that byte one larger.
func sSucc(p, u string) bool {
	return sSuccLast(p, u) && sSuccHead(p, u) && sSuccRest(p, u)
}

func sSuccLast(p, u string) bool {
	n := len(u)
	return n >= 1 && n <= len(p) && vStrAt(p, n-1) < 255 && vStrAt(u, n-1) == vStrAt(p, n-1)+1
}

func sSuccHead(p, u string) bool {
	return vForall(func(j int) bool { return vImp(j >= 0 && j < len(u)-1, vStrAt(u, j) == vStrAt(p, j)) })
}

func sSuccRest(p, u string) bool {
	return vForall(func(j int) bool { return vImp(j >= len(u) && j < len(p), vStrAt(p, j) == 255) })
}

func sAllFF(p string) bool {
	return vForall(func(j int) bool { return vImp(j >= 0 && j < len(p), vStrAt(p, j) == 255) })
}

//govc:lemma the successor of a prefix bounds exactly the keys with that prefix
//govc:props C04
func lSuccessor(p, u, k string) {
	vRequires("u is the successor of p", sSucc(p, u))
	vEnsures("keys with the prefix lie before it", vImp(sHasPrefix(k, p), k < u && !(k < p)))
	vEnsures("keys from the prefix on and before it have the prefix", vImp(k < u && !(k < p), sHasPrefix(k, p)))
}

//govc:contract bond.keySuccessor
//govc:props C04
func cKeySuccessor(src, dst []byte) []byte {
	s := string(src)
	if dst != nil {
		vRequires("an empty buffer of its own", len(dst) == 0 && vArr(dst) != vArr(src))
		vModSlice(dst)
	} else {
		vModSlice(src)
	}
	vInv("the bytes after are 0xFF", func(i int) bool {
		return i >= -1 && i < len(s) && vForall(func(j int) bool { return vImp(j > i && j < len(s), vStrAt(s, j) == 255) })
	})
	vNoPanic()
	r := vBody1[[]byte]()
	vEnsures("the successor", vImp(!sAllFF(s), sSucc(s, string(r))))
	vEnsures("a key has a successor", vImp(len(s) > 2 && vStrAt(s, 2) == 0, sSucc(s, string(r))))
	if dst != nil {
		vEnsures("the source is unchanged", string(src) == s)
		vEnsures("in the buffer given, or a new one", vArr(r) == vArr(dst) || vArr(r) >= vEntryWM())
	} else {
		vEnsures("in place", vImp(len(r) > 0, vArr(r) == vArr(src)))
	}
	return r
}

//govc:lemma keys of other values, indexes and tables do not have the prefix of a value
//govc:props C04
func lPrefixMeansValue(t, t2 TableID, i, i2 IndexID, idx, idx2, ord2, pk2, rest string) {
	vRequires("parts fit the length fields", sSmall(idx) && sSmall(idx2) && sSmall(ord2))
	h, k := sKeyHead(t, i, idx), sKey(t2, i2, idx2, ord2, pk2)
	if k == h+rest {
		vAssert("same table, index and value", t == t2 && i == i2 && idx == idx2)
		vCanary("a key with the prefix")
	}
	vAssert("keys of the value have the prefix", vImp(t == t2 && i == i2 && idx == idx2, sHasPrefix(k, h)))
	vAssert("the third byte of a key is zero", len(h) > 2 && len(k) > 2 && vStrAt(h, 2) == 0 && vStrAt(k, 2) == 0)
}

//govc:lemma what follows a prefix
//govc:props C04
func lRest(k, h string) {
	vRequires("a prefix", sHasPrefix(k, h))
	vAssert("the rest follows the prefix", k == h+k[len(h):])
}

//govc:lemma a key has a successor
//govc:props C04
func lNotAllFF(p string) {
	vRequires("the third byte is zero", len(p) > 2 && vStrAt(p, 2) == 0)
	vAssert("it is not all 0xFF", !sAllFF(p))
}

//govc:lemma a point selection covers exactly the keys of its value from the row's own key on
//govc:props C04
func lPoint(t TableID, i IndexID, idx, ord, pk, ord2, pk2, u string) {
	vRequires("parts fit the length fields", sSmall(idx) && sSmall(ord) && sSmall(ord2))
	h := sKeyHead(t, i, idx)
	lo, k := sKey(t, i, idx, ord, pk), sKey(t, i, idx, ord2, pk2)
	vRequires("keys with the prefix lie between (successor lemma)", k < u && !(k < h))
	vAssert("all entries from the row's own position on", (k < u && !(k < lo)) == !(sKeyTail(ord2, pk2) < sKeyTail(ord, pk)))
	vAssert("a row without order value and primary key starts before all entries of its value", vImp(ord == "" && pk == "", !(k < lo)))
}

//govc:lemma the successor of a key lies after all keys up to it
//govc:props C04
func lUpTo(up, u, k string) {
	vRequires("the successor of the upper key", sSucc(up, u))
	vAssert("keys up to the upper row's key are covered", vImp(!(up < k), k < u))
}

//govc:lemma a range of one index covers keys of that index only
//govc:props C04
func lRange(t, t2 TableID, i, i2 IndexID, idx, ord, pk, idx2, ord2, pk2, idx3, ord3, pk3, u string) {
	vRequires("parts fit the length fields", sSmall(idx) && sSmall(ord) && sSmall(idx2) && sSmall(ord2) && sSmall(idx3) && sSmall(ord3))
	lo, up, k := sKey(t, i, idx, ord, pk), sKey(t, i, idx2, ord2, pk2), sKey(t2, i2, idx3, ord3, pk3)
	vRequires("the successor of the upper key", sSucc(up, u))
	if !(k < lo) && k < u {
		vAssert("same table", t == t2)
		vAssert("same index", i == i2)
		vCanary("a key in the range")
	}
}

//govc:lemma the point bounds of the primary index cover one key
//govc:props C04
func lSingle(k, l string) {
	vAssert("only the key itself", (!(l < k) && l < k+string([]byte{0})) == (l == k))
}

//govc:contract (*bond.Index).Iter
//govc:props C04
func cIndexIter[T any](idx *Index[T], table Table[T], selector Selector[T], optBatch ...Batch) Iterator {
	vRequires("a table, an index and a selector", table != nil && idx != nil && idx.IndexKeyFunction != nil && idx.IndexOrderFunction != nil && selector != nil)
	modIters()
	src := Iterationer(sTableDB[T](table))
	if len(optBatch) > 0 && optBatch[0] != nil {
		src = optBatch[0]
	}
	j0 := vSkolem[int]("j0")
	points, ranges := vObjGet[[]T]("sel.points", selector), vObjGet[[][]T]("sel.ranges", selector)
	typ := sSelType[T](selector)
	vInv("one range per point", func(i int, o []*IterOptions) bool {
		return vImp(typ == SelectorTypePoints || typ == SelectorTypeRanges, i >= 0 && len(o) == i)
	})
	vInv("options given", func(i int, o []*IterOptions) bool {
		return vForall(func(k int) bool { return vImp(k >= 0 && k < len(o), o[k] != nil) })
	})
	vInv("points so far", func(i int, o []*IterOptions) bool {
		return vImp(typ == SelectorTypePoints && j0 >= 0 && j0 < i, string(o[j0].LowerBound) == sRowKey(table, idx, points[j0]))
	})
	vInv("points so far end", func(i int, o []*IterOptions) bool {
		return vImp(typ == SelectorTypePoints && j0 >= 0 && j0 < i && idx.IndexID != 0, sSuccLast(sRowHead(table, idx, points[j0]), string(o[j0].UpperBound)))
	})
	vInv("points so far end with their value", func(i int, o []*IterOptions) bool {
		return vImp(typ == SelectorTypePoints && j0 >= 0 && j0 < i && idx.IndexID != 0, sSuccHead(sRowHead(table, idx, points[j0]), string(o[j0].UpperBound)))
	})
	vInv("points so far end after their value", func(i int, o []*IterOptions) bool {
		return vImp(typ == SelectorTypePoints && j0 >= 0 && j0 < i && idx.IndexID != 0, sSuccRest(sRowHead(table, idx, points[j0]), string(o[j0].UpperBound)))
	})
	vInv("points so far are single keys", func(i int, o []*IterOptions) bool {
		return vImp(typ == SelectorTypePoints && j0 >= 0 && j0 < i && idx.IndexID == 0, string(o[j0].UpperBound) == sRowKey(table, idx, points[j0])+string([]byte{0}))
	})
	vInv("ranges so far", func(i int, o []*IterOptions) bool {
		return vImp(typ == SelectorTypeRanges && j0 >= 0 && j0 < i, string(o[j0].LowerBound) == sRowKey(table, idx, ranges[j0][0]))
	})
	vInv("ranges so far end", func(i int, o []*IterOptions) bool {
		return vImp(typ == SelectorTypeRanges && j0 >= 0 && j0 < i, sSucc(sRowKey(table, idx, ranges[j0][1]), string(o[j0].UpperBound)))
	})
	if typ == SelectorTypeRanges {
		vRequires("ranges are pairs", vForall(func(k int) bool { return vImp(k >= 0 && k < len(ranges), len(ranges[k]) == 2) }))
	}
	r := vBody1[Iterator]()
	switch typ {
	case SelectorTypePoint:
		p := sSelPoint[T](selector)
		vEnsures("from the source given", vEq(vObjGet[Iterationer]("it.src", r), src))
		vEnsures("a point starts at its row", vObjGet[string]("it.lo", r) == sRowKey(table, idx, p))
		vEnsures("and ends with its value", sSucc(sRowHead(table, idx, p), vObjGet[string]("it.up", r)))
	case SelectorTypeRange:
		vEnsures("from the source given", vEq(vObjGet[Iterationer]("it.src", r), src))
		vEnsures("a range starts at its lower row", vObjGet[string]("it.lo", r) == sRowKey(table, idx, sSelLow[T](selector)))
		vEnsures("and ends with its upper row", sSucc(sRowKey(table, idx, sSelUp[T](selector)), vObjGet[string]("it.up", r)))
	case SelectorTypePoints:
		m := r.(*_iteratorMulti)
		vEnsures("one range per point", len(m.iteratorOptions) == len(points))
		vEnsures("from the source given", vEq(m.iteratorConstuctor, src))
		vAssume(j0 >= 0 && j0 < len(points))
		o := m.iteratorOptions[j0]
		vEnsures("every point starts at its row", string(o.LowerBound) == sRowKey(table, idx, points[j0]))
		vEnsures("and ends with its value", vImp(idx.IndexID != 0, sSucc(sRowHead(table, idx, points[j0]), string(o.UpperBound))))
		vEnsures("or covers the row only", vImp(idx.IndexID == 0, string(o.UpperBound) == sRowKey(table, idx, points[j0])+string([]byte{0})))
	case SelectorTypeRanges:
		m := r.(*_iteratorMulti)
		vEnsures("one range per pair", len(m.iteratorOptions) == len(ranges))
		vEnsures("from the source given", vEq(m.iteratorConstuctor, src))
		vAssume(j0 >= 0 && j0 < len(ranges))
		o := m.iteratorOptions[j0]
		vEnsures("every range starts at its lower row", string(o.LowerBound) == sRowKey(table, idx, ranges[j0][0]))
		vEnsures("and ends with its upper row", sSucc(sRowKey(table, idx, ranges[j0][1]), string(o.UpperBound)))
	}
	return r
}
