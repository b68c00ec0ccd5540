package bond

import (
	"context"
)

// Reads by key, observed at an arbitrary row key kd.

func sTableOK[T any](t *_table[T]) bool {
	return t != nil && t.primaryKeyFunc != nil && t.db != nil && t.serializer != nil && t.serializer.Serializer != nil
}

// the batch given, or nil
func sBatchOf(optBatch []Batch) Batch {
	var b Batch
	if len(optBatch) > 0 && optBatch[0] != nil {
		b = optBatch[0]
	}
	return b
}

func sOpenBatch(b Batch) bool { return b == nil || !vObjGet[bool]("b.closed", b) }

func modRead() {
	vModGhost("s.fail")
	vModGhost("s.open")
	vModGhost("w.it")
}

//govc:contract (*bond._table).exist
//govc:props C07 C09
func cExist[T any](t *_table[T], key []byte, batch Batch, iter Iterator) (bool, error) {
	k, kd := string(key), sKd()
	vRequires("a table", t != nil && t.db != nil)
	vRequires("an open batch", sOpenBatch(batch))
	vRequires("a row key", vImp(k == kd, kd < string(t.dataKeySpaceEnd)))
	sees := sSeesD(batch)
	if iter != nil {
		vRequires("an open iterator over the key", vObjGet[bool]("si.open", iter) && vImp(k == kd, !(kd < vObjGet[string]("si.lo", iter)) && kd < vObjGet[string]("si.up", iter)))
		sees = vObjGet[bool]("si.d", iter)
		vModGhostObj("si.valid", iter)
		vModGhostObj("si.key", iter)
		vModGhostObj("si.val", iter)
		vModGhostObj("si.err", iter)
	}
	vRequires("a key filter which knows the stored rows", vImp(sees, vGet[bool]("f.d")))
	modRead()
	vNoPanic()
	open := vGet[int]("s.open")
	r, err := vBody2[bool, error]()
	vEnsures("whether the row is stored", vImp(err == nil && k == kd, r == sees))
	vEnsures("its iterator is closed", vGet[int]("s.open") == open)
	return r, err
}

//govc:contract (*bond._table).Exist
//govc:props C09
func cExistRow[T any](t *_table[T], tr T, optBatch ...Batch) bool {
	vRequires("a table", sTableOK(t))
	b := sBatchOf(optBatch)
	vRequires("an open batch", sOpenBatch(b))
	vRequires("a key filter which knows the stored rows", vImp(sSeesD(b), vGet[bool]("f.d")))
	modRead()
	vNoPanic()
	open := vGet[int]("s.open")
	vSet("s.fail", false)
	r := vBody1[bool]()
	at := sRowDataKey(t, tr) == sKd()
	vEnsures("only stored rows exist", vImp(at && r, sSeesD(b)))
	vEnsures("stored rows exist", vImp(at && sSeesD(b) && !vGet[bool]("s.fail"), r))
	vEnsures("the value read is released", vGet[int]("s.open") == open)
	return r
}

//govc:contract (*bond._table).stored
//govc:props C06 C07 C09
func cStored[T any](t *_table[T], key []byte, batch Batch) (tr T, found bool, err error) {
	vRequires("a table", sTableOK(t))
	vRequires("an open batch", sOpenBatch(batch))
	modRead()
	vNoPanic()
	open := vGet[int]("s.open")
	k := string(key)
	r, ok, e := vBody3[T, bool, error]()
	vEnsures("a row is found if it is stored", vImp(e == nil && k == sKd(), ok == sSeesD(batch)))
	vEnsures("the row found is the one stored", vImp(e == nil && ok && k == sKd(), vEq(r, vRowOf[T](sSeesDV(batch)))))
	vEnsures("no row found with a failure", vImp(e != nil, !ok))
	vEnsures("the value read is released", vGet[int]("s.open") == open)
	return r, ok, e
}

// sValAt names the values to be put in order

//govc:uf
func sValAt(tok *Key, j int) string { return "" }

//govc:uf
func sNilAt(tok *Key, j int) bool { return false }

func sValues(tok *Key, values [][]byte, ord []int) bool {
	return vForall(func(a int) bool {
		return vImp(a >= 0 && a < len(values), string(values[a]) == sValAt(tok, ord[a]))
	})
}

func sNils(tok *Key, values [][]byte, ord []int) bool {
	return vForall(func(a int) bool {
		return vImp(a >= 0 && a < len(values), (values[a] == nil) == sNilAt(tok, ord[a]))
	})
}

//govc:contract (*bond._table).reorderValues
//govc:props C09
func cReorderValues[T any](t *_table[T], values [][]byte, keyOrder []int) {
	vRequires("a table", t != nil)
	vRequires("positions of the values", len(keyOrder) == len(values) && sInRange(keyOrder) && sInjective(keyOrder))
	vModSlice(values)
	vModSlice(keyOrder)
	vModGhost("w.vtok")
	tok := vNew[*Key]()
	// the values, named by position (the positions are distinct)
	vAssume(sValues(tok, values, keyOrder))
	vAssume(sNils(tok, values, keyOrder))
	vInv("positions in range@mSort", func() bool { return len(keyOrder) == len(values) && sInRange(keyOrder) })
	vInv("distinct positions@mSort", func() bool { return sInjective(keyOrder) })
	vInv("values@mSort", func() bool { return sValues(tok, values, keyOrder) })
	vInv("missing values@mSort", func() bool { return sNils(tok, values, keyOrder) })
	vNoPanic()
	vBody()
	vSet("w.vtok", tok)
	// n distinct numbers below n in order are 0..n-1
	vEnsures("ascending", vForall2(func(a, b int) bool {
		return vImp(a >= 0 && a < b && b < len(keyOrder), keyOrder[a] < keyOrder[b])
	}))
	vAssume(vForall(func(a int) bool { return vImp(a >= 0 && a < len(keyOrder), keyOrder[a] == a) }))
	vEnsures("in order", vForall(func(a int) bool { return vImp(a >= 0 && a < len(keyOrder), keyOrder[a] == a) }))
	vEnsures("each value at its position", vForall(func(a int) bool { return vImp(a >= 0 && a < len(values), string(values[a]) == sValAt(tok, a)) }))
	vEnsures("each missing value at its position", vForall(func(a int) bool { return vImp(a >= 0 && a < len(values), (values[a] == nil) == sNilAt(tok, a)) }))
}

// no two buffers of the two arrays are the same
func sApart(keys, values [][]byte) bool {
	return vForall2(func(a, b int) bool {
		return vImp(a >= 0 && a < len(keys) && b >= 0 && b < len(values), vArr(keys[a]) != vArr(values[b]))
	})
}

// buffers of their own, or none
func sOwnOrNil(values [][]byte) bool {
	return vForall2(func(a, b int) bool {
		return vImp(a >= 0 && a < b && b < len(values), vArr(values[a]) != vArr(values[b]) || values[a] == nil)
	})
}

func sBuffersOrNil(values [][]byte) bool {
	w := vGet[int]("w.kbw")
	return vForall(func(a int) bool { return vImp(a >= 0 && a < len(values), vArr(values[a]) >= w || values[a] == nil) })
}

// the keys of the current chunk in sorted order
func sNamed(keys [][]byte) bool {
	return vForall(func(a int) bool { return vImp(a >= 0 && a < len(keys), string(keys[a]) == sK(a)) })
}

// the a-th key of the current chunk in sorted order
func sK(a int) string { return sKeyAt(vGet[*Key]("w.tok"), a) }

// v is the value seen at kd, nil if there is none
func sIsValue(v []byte, b Batch) bool {
	return (v != nil) == sSeesD(b) && vImp(v != nil, string(v) == sSeesDV(b))
}

//govc:contract (*bond._table).get
//govc:props C09 C12
func cGetMany[T any](t *_table[T], keys [][]byte, batch Batch, values [][]byte, errorOnNotExist bool) ([][]byte, error) {
	vRequires("a table", t != nil && t.db != nil)
	vRequires("an open batch", sOpenBatch(batch))
	vRequires("a key filter which knows the stored rows", vImp(sSeesD(batch), vGet[bool]("f.d")))
	vRequires("room for the values", len(values) >= len(keys))
	vRequires("arrays of their own", vArr(keys) != vArr(values))
	vRequires("buffers of their own", sOwnBuffers(keys))
	vRequires("buffers from the key array", sKeyBuffers(keys))
	vRequires("value buffers of their own", sOwnOrNil(values))
	vRequires("value buffers from the key array", sBuffersOrNil(values))
	vRequires("value buffers apart from the keys", sApart(keys, values))
	vRequires("the end of the data is no buffer", vArr(t.dataKeySpaceEnd) < vGet[int]("w.kbw"))
	vAssume(sAllocated(keys) && sAllocated(values))
	vModSlice(keys)
	vModSlice(values)
	vModMemFrom("M:byte", vGet[int]("w.kbw"))
	modRead()
	vModGhost("w.ord")
	vModGhost("w.keys")
	vModGhost("w.tok")
	vModGhost("w.vtok")
	j0, kd, n := vSkolem[int]("j0"), sKd(), len(keys)
	at := j0 >= 0 && j0 < n && string(keys[j0]) == kd
	vRequires("a row key", vImp(at, kd < string(t.dataKeySpaceEnd)))
	open := vGet[int]("s.open")
	end := string(t.dataKeySpaceEnd)
	vInv("end of the data@get", func() bool { return string(t.dataKeySpaceEnd) == end })
	vInv("allocated keys@get", func() bool { return sAllocated(keys) })
	vInv("keys@get", func() bool { return sNamed(keys) })
	vInv("key buffers@get", func() bool { return sKeyBuffers(keys) })
	vInv("value buffers@get", func() bool { return sOwnOrNil(values) })
	vInv("value buffers from the key array@get", func() bool { return sBuffersOrNil(values) })
	vInv("value buffers apart@get", func() bool { return sApart(keys, values) })
	vInv("allocated values@get", func() bool { return sAllocated(values) })
	vInv("value so far@get", func(i int) bool {
		p := sPosOf(vGet[[]int]("w.ord"), j0)
		return vImp(at && p < i, sIsValue(values[p], batch) && vImp(errorOnNotExist, sSeesD(batch)))
	})
	vNoPanic()
	r, err := vBody2[[][]byte, error]()
	vEnsures("a value for each key", vImp(err == nil, len(r) == n))
	vEnsures("the row stored under each key, nil if there is none", vImp(err == nil && at, sIsValue(r[j0], batch)))
	vEnsures("all are stored if asked", vImp(err == nil && at && errorOnNotExist, sSeesD(batch)))
	vEnsures("a missing row only if it is not stored", vImp(vSameRef(err, ErrNotFound), errorOnNotExist))
	vEnsures("in the array given", vImp(err == nil && n > 0, vArr(r) == vArr(values) && vOff(r) == vOff(values)))
	vEnsures("its iterator is closed", vGet[int]("s.open") == open)
	return r, err
}

//govc:model bond.NewSelectorPoint
func mNewSelectorPoint[T any](p T) SelectorPoint[T] {
	r := vNew[SelectorPoint[T]]()
	_, ok := any(r).(SelectorPoint[T])
	vAssume(ok && sSelType[T](r) == SelectorTypePoint && vEq(sSelPoint[T](r), p))
	return r
}

// ranges are scans (C12)
//
//govc:model (*bond._table).ScanIndex
func mScanIndex[T any](t *_table[T], ctx context.Context, i *Index[T], s Selector[T], tr *[]T, reverse bool, optBatch ...Batch) error {
	return vAny[error]()
}

//govc:contract (*bond._table).Get
//govc:props C09
func cGet[T any](t *_table[T], ctx context.Context, sel Selector[T], optBatch ...Batch) ([]T, error) {
	vRequires("a table", sTableOK(t) && sel != nil)
	typ := sSelType[T](sel)
	_, isPoint := sel.(SelectorPoint[T])
	_, isPoints := sel.(SelectorPoints[T])
	vRequires("a selector of its type", vImp(typ == SelectorTypePoint, isPoint) && vImp(typ == SelectorTypePoints, isPoints))
	vRequires("a point or points", typ == SelectorTypePoint || typ == SelectorTypePoints)
	b := sBatchOf(optBatch)
	vRequires("an open batch", sOpenBatch(b))
	vRequires("a key filter which knows the stored rows", vImp(sSeesD(b), vGet[bool]("f.d")))
	modRead()
	vModGhost("w.kb")
	vModGhost("w.kb1")
	vModGhost("w.kbw")
	vModGhost("w.trs")
	vModGhost("w.ord")
	vModGhost("w.keys")
	vModGhost("w.tok")
	vModGhost("w.vtok")
	vSet("s.fail", false)
	vSet("w.kbw", vWM())
	end := string(t.dataKeySpaceEnd)
	vAssume(sKeysBelow(t, end))
	points := vObjGet[[]T]("sel.points", sel)
	j0 := vSkolem[int]("j0")
	at := j0 >= 0 && j0 < len(points) && sRowDataKey(t, points[j0]) == sKd()
	open := vGet[int]("s.open")
	row := func(r T) bool {
		return vImp(sSeesD(b), vEq(r, vRowOf[T](sSeesDV(b)))) && vImp(!sSeesD(b), vEq(r, t.valueNil))
	}
	vInv("one chunk@batched", func(n int) bool { return n == 0 || n == 1 })
	vInv("key buffers@batched", func(n int) bool {
		return vImp(n == 0, sOwnBuffers(vGet[[][]byte]("w.kb1")) && sKeyBuffers(vGet[[][]byte]("w.kb1")))
	})
	vInv("value buffers@batched", func(n int) bool {
		return vImp(n == 0, sOwnOrNil(vGet[[][]byte]("w.kb")) && sBuffersOrNil(vGet[[][]byte]("w.kb")))
	})
	vInv("buffers apart@batched", func(n int) bool { return vImp(n == 0, sApart(vGet[[][]byte]("w.kb1"), vGet[[][]byte]("w.kb"))) })
	vInv("allocated buffers@batched", func(n int) bool { return vImp(n == 0, sAllocated(vGet[[][]byte]("w.kb"))) })
	vInv("rows read@batched", func(n int, trs []T) bool {
		return vImp(n == 0, len(trs) == 0) && vImp(n == 1, len(trs) == len(points) && vImp(at, row(trs[j0])))
	})
	vInv("rows so far", func(i int, values [][]byte, trs []T) bool { return len(trs) == i && vImp(at && j0 < i, row(trs[j0])) })
	vNoPanic()
	r, err := vBody2[[]T, error]()
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	if typ == SelectorTypePoint {
		is := sRowDataKey(t, sSelPoint[T](sel)) == sKd()
		vEnsures("the stored row", vImp(is && err == nil, sSeesD(b) && len(r) == 1 && vEq(r[0], vRowOf[T](sSeesDV(b)))))
		vEnsures("not found only if it is not stored", vImp(is && vSameRef(err, ErrNotFound), !sSeesD(b)))
		vEnsures("not found if it is not stored", vImp(is && !sSeesD(b) && !vGet[bool]("s.fail"), vSameRef(err, ErrNotFound)))
	} else {
		vEnsures("a row for each key", vImp(err == nil, len(r) == len(points)))
		vEnsures("the row stored under each key", vImp(err == nil && at, row(r[j0])))
		vEnsures("missing rows are not an error", !vSameRef(err, ErrNotFound))
	}
	return r, err
}

//govc:contract (*bond._table).GetPoint
//govc:props C09
func cGetPoint[T any](t *_table[T], ctx context.Context, in T, optBatch ...Batch) (T, error) {
	vRequires("a table", sTableOK(t))
	b := sBatchOf(optBatch)
	vRequires("an open batch", sOpenBatch(b))
	vRequires("a key filter which knows the stored rows", vImp(sSeesD(b), vGet[bool]("f.d")))
	modRead()
	vModGhost("w.kb")
	vModGhost("w.kb1")
	vModGhost("w.kbw")
	vModGhost("w.trs")
	vModGhost("w.ord")
	vModGhost("w.keys")
	vModGhost("w.tok")
	vModGhost("w.vtok")
	vNoPanic()
	open := vGet[int]("s.open")
	r, err := vBody2[T, error]()
	is := sRowDataKey(t, in) == sKd()
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	vEnsures("the stored row", vImp(is && err == nil, sSeesD(b) && vEq(r, vRowOf[T](sSeesDV(b)))))
	vEnsures("not found only if it is not stored", vImp(is && vSameRef(err, ErrNotFound), !sSeesD(b)))
	vEnsures("not found if it is not stored", vImp(is && !sSeesD(b) && !vGet[bool]("s.fail"), vSameRef(err, ErrNotFound)))
	return r, err
}
