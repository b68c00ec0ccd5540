package bond

// Index maintenance for one row change, observed at an arbitrary key ki.

func sHasEntry[T any](table Table[T], idx *Index[T], t T, k string) bool {
	return sPass[T](idx.IndexFilterFunction, t) && k == sRowKey(table, idx, t)
}

// a row's key is no index entry's key
func sKdIsRow(idx IndexID) bool { return idx != 0 && sIsDK(sKd()) }

func sKdRow() {
	if !vUse() {
		vAssume(vImp(sIsDK(sKd()), sKd() == sDataKey(vAny[TableID](), vAny[string]())))
	}
}

func sIdxOK[T any](table Table[T], idx *Index[T], batch Batch) bool {
	return table != nil && idx != nil && batch != nil && idx.IndexKeyFunction != nil && idx.IndexOrderFunction != nil && idx.IndexFilterFunction != nil &&
		!vObjGet[bool]("b.closed", batch)
}

//govc:contract (*bond.Index).OnInsert
//govc:props C05 C06 C24
func cOnInsert[T any](idx *Index[T], table Table[T], tr T, batch Batch, buffs ...[]byte) error {
	vRequires("a table, an index and a batch", sIdxOK(table, idx, batch))
	vRequires("an empty buffer", len(buffs) == 0 || len(buffs[0]) == 0)
	modBatch(batch)
	if len(buffs) > 0 {
		vModSlice(buffs[0])
	}
	vNoPanic()
	k, i := sKi(), vObjGet[int]("b.i", batch)
	kd, d, dv := sKd(), vObjGet[int]("b.d", batch), vObjGet[string]("b.dv", batch)
	r := vBody1[error]()
	e := sHasEntry(table, idx, tr, k)
	vEnsures("the row's entry is added if the row passes the filter", vImp(r == nil && e, vObjGet[int]("b.i", batch) == 1))
	vEnsures("nothing else is written", vImp(!e, vObjGet[int]("b.i", batch) == i))
	vEnsures("no key but the entry's is written", vImp(!sHasEntry(table, idx, tr, kd), vObjGet[int]("b.d", batch) == d && vObjGet[string]("b.dv", batch) == dv))
	sKdRow()
	vEnsures("no row is written", vImp(sKdIsRow(idx.IndexID), vObjGet[int]("b.d", batch) == d && vObjGet[string]("b.dv", batch) == dv))
	return r
}

//govc:contract (*bond.Index).OnDelete
//govc:props C05 C06
func cOnDelete[T any](idx *Index[T], table Table[T], tr T, batch Batch, buffs ...[]byte) error {
	vRequires("a table, an index and a batch", sIdxOK(table, idx, batch))
	vRequires("an empty buffer", len(buffs) == 0 || len(buffs[0]) == 0)
	modBatch(batch)
	if len(buffs) > 0 {
		vModSlice(buffs[0])
	}
	vNoPanic()
	k, i := sKi(), vObjGet[int]("b.i", batch)
	kd, d, dv := sKd(), vObjGet[int]("b.d", batch), vObjGet[string]("b.dv", batch)
	r := vBody1[error]()
	e := sHasEntry(table, idx, tr, k)
	vEnsures("the row's entry is removed", vImp(r == nil && e, vObjGet[int]("b.i", batch) == 2))
	vEnsures("nothing else is written", vImp(!e, vObjGet[int]("b.i", batch) == i))
	vEnsures("no key but the entry's is written", vImp(!sHasEntry(table, idx, tr, kd), vObjGet[int]("b.d", batch) == d && vObjGet[string]("b.dv", batch) == dv))
	sKdRow()
	vEnsures("no row is written", vImp(sKdIsRow(idx.IndexID), vObjGet[int]("b.d", batch) == d && vObjGet[string]("b.dv", batch) == dv))
	return r
}

//govc:contract (*bond.Index).OnUpdate
//govc:props C05 C06
func cOnUpdate[T any](idx *Index[T], table Table[T], oldTr T, tr T, batch Batch, buffs ...[]byte) error {
	vRequires("a table, an index and a batch", sIdxOK(table, idx, batch))
	vRequires("empty buffers", (len(buffs) == 0 || len(buffs[0]) == 0) && (len(buffs) < 2 || len(buffs[1]) == 0 && vArr(buffs[0]) != vArr(buffs[1])))
	modBatch(batch)
	if len(buffs) > 0 {
		vModSlice(buffs[0])
	}
	if len(buffs) > 1 {
		vModSlice(buffs[1])
	}
	vNoPanic()
	k, i := sKi(), vObjGet[int]("b.i", batch)
	kd, d, dv := sKd(), vObjGet[int]("b.d", batch), vObjGet[string]("b.dv", batch)
	r := vBody1[error]()
	o, n := sHasEntry(table, idx, oldTr, k), sHasEntry(table, idx, tr, k)
	vEnsures("an entry the old row had and the new one has not is removed", vImp(r == nil && o && !n, vObjGet[int]("b.i", batch) == 2))
	vEnsures("an entry the new row has and the old one had not is added", vImp(r == nil && n && !o, vObjGet[int]("b.i", batch) == 1))
	vEnsures("an entry both rows have stays", vImp(o && n, vObjGet[int]("b.i", batch) == i))
	vEnsures("nothing else is written", vImp(!o && !n, vObjGet[int]("b.i", batch) == i))
	sKdRow()
	vEnsures("no key but the entries' is written", vImp(!sHasEntry(table, idx, oldTr, kd) && !sHasEntry(table, idx, tr, kd), vObjGet[int]("b.d", batch) == d && vObjGet[string]("b.dv", batch) == dv))
	return r
}
