package bond

import "context"

// The life of a write operation: which batches and iterators it opens, what it
// commits, which locks it takes. Keys and values are left open here.

// the batch the caller gave, or nil
func lBatch(optBatch []Batch) Batch {
	var b Batch
	if len(optBatch) > 0 && optBatch[0] != nil {
		b = optBatch[0]
	}
	return b
}

func lTable[T any](t *_table[T]) bool {
	return t != nil && t.primaryKeyFunc != nil && t.db != nil && t.serializer != nil && t.serializer.Serializer != nil
}

// the table's indexes are usable
func lIndexes[T any](m map[IndexID]*Index[T]) bool {
	return vForall(func(k IndexID) bool {
		i := vMapGet[*Index[T]](m, k)
		return vImp(vHas(m, k), i != nil && i.IndexKeyFunction != nil && i.IndexOrderFunction != nil && i.IndexFilterFunction != nil)
	})
}

// what is in slices, and how far loops have come, is of no interest here
func lForget() {
	vForget("M:-M:bond.Batch")
	vForget("MP:map[string]")
	vForget("RNG:")
	vForget("int")
	vForget("slice")
	vForget("bool")
}

func lModStore() {
	vModGhost("s.commits")
	vModGhost("s.applied")
	vModGhost("s.direct")
	vModGhost("s.open")
	vModGhost("f.rows")
	vModGhost("f.adds")
	vModGhost("f.known")
	vModGhost("fl.has")
	lForget()
}

//govc:contract (*bond._table).key
//govc:props C08 C16 C15 C14
func lKey[T any](t *_table[T], tr T, buff []byte) []byte {
	vRequires("a table", lTable(t))
	lForget()
	return vBody1[[]byte]()
}

//govc:contract (*bond._table).keysExternal
//govc:props C08 C16 C15 C14
func lKeysExternal[T any](t *_table[T], trs []T, keys [][]byte) [][]byte {
	vRequires("a table", lTable(t))
	lForget()
	return vBody1[[][]byte]()
}

//govc:contract (*bond._table).sortKeys
//govc:props C08 C16 C15 C14
func lSortKeys[T any](t *_table[T], keys [][]byte) []int {
	vRequires("a table", t != nil)
	lForget()
	return vBody1[[]int]()
}

//govc:contract (*bond._table).exist
//govc:props C08 C16 C15 C14
func lExist[T any](t *_table[T], key []byte, batch Batch, iter Iterator) (bool, error) {
	vRequires("a table", t != nil && t.db != nil)
	vRequires("an open batch", batch == nil || !vObjGet[bool]("b.closed", batch))
	if iter != nil {
		vRequires("an open iterator", vObjGet[bool]("si.open", iter))
		vModGhostObj("si.valid", iter)
	}
	vModGhost("s.open")
	lForget()
	vNoPanic()
	open := vGet[int]("s.open")
	vModGhost("f.known")
	known := vGet[int]("f.known")
	r, err := vBody2[bool, error]()
	vSet("f.known", known+vIte(r, 1, 0)) // rows found to be stored
	vEnsures("its iterator is closed", vGet[int]("s.open") == open)
	if iter != nil {
		vEnsures("positioned at the key", vImp(err == nil && r, vObjGet[bool]("si.valid", iter)))
	}
	return r, err
}

//govc:contract (*bond._table).stored
//govc:props C08 C16 C15 C14
func lStored[T any](t *_table[T], key []byte, batch Batch) (tr T, found bool, err error) {
	vRequires("a table", lTable(t))
	vRequires("an open batch", batch == nil || !vObjGet[bool]("b.closed", batch))
	vModGhost("s.open")
	lForget()
	vNoPanic()
	open := vGet[int]("s.open")
	r, ok, e := vBody3[T, bool, error]()
	vEnsures("the value read is released", vGet[int]("s.open") == open)
	return r, ok, e
}

func lIdx[T any](table Table[T], idx *Index[T], batch Batch) bool {
	return table != nil && idx != nil && batch != nil && idx.IndexKeyFunction != nil && idx.IndexOrderFunction != nil && idx.IndexFilterFunction != nil &&
		!vObjGet[bool]("b.closed", batch)
}

//govc:contract (*bond.Index).OnInsert
//govc:props C08 C16 C15 C14
func lOnInsert[T any](idx *Index[T], table Table[T], tr T, batch Batch, buffs ...[]byte) error {
	vRequires("a table, an index and an open batch", lIdx(table, idx, batch))
	vForget("M:byte")
	if !vUse() {
		vModGhost("f.rows") // counts the rows operations write themselves
	}
	return vBody1[error]()
}

//govc:contract (*bond.Index).OnDelete
//govc:props C08 C16 C15 C14
func lOnDelete[T any](idx *Index[T], table Table[T], tr T, batch Batch, buffs ...[]byte) error {
	vRequires("a table, an index and an open batch", lIdx(table, idx, batch))
	vForget("M:byte")
	if !vUse() {
		vModGhost("f.rows") // counts the rows operations write themselves
	}
	return vBody1[error]()
}

//govc:contract (*bond.Index).OnUpdate
//govc:props C08 C16 C15 C14
func lOnUpdate[T any](idx *Index[T], table Table[T], oldTr T, tr T, batch Batch, buffs ...[]byte) error {
	vRequires("a table, an index and an open batch", lIdx(table, idx, batch))
	vForget("M:byte")
	if !vUse() {
		vModGhost("f.rows") // counts the rows operations write themselves
	}
	return vBody1[error]()
}

// what is asked of every write operation at its start
type lOp struct {
	b                              Batch
	open, commits, applied, direct int
}

func lBegin[T any](t *_table[T], ctx context.Context, optBatch []Batch) lOp {
	vRequires("a table", lTable(t))
	vRequires("its indexes", lIndexes(t.secondaryIndexes))
	vRequires("lock free on entry", vLockState(&t.mutex) == 0)
	vLockDiscipline()
	vGuardMap(t.secondaryIndexes, &t.mutex)
	b := lBatch(optBatch)
	vRequires("an open batch", b == nil || !vObjGet[bool]("b.closed", b))
	vRequires("not yet seen to be cancelled", !lCancelled(ctx))
	lModStore()
	lModCtx(ctx)
	return lOp{b: b, open: vGet[int]("s.open"), commits: vGet[int]("s.commits"), applied: vGet[int]("s.applied"), direct: vGet[int]("s.direct")}
}

func lEnd[T any](t *_table[T], ctx context.Context, o lOp, r error) {
	vEnsures("everything opened is closed", vGet[int]("s.open") == o.open)
	vEnsures("lock released", vLockState(&t.mutex) == 0)
	commits, applied := vGet[int]("s.commits"), vGet[int]("s.applied")
	vEnsures("success is one successful commit", vImp(o.b == nil && r == nil, commits == o.commits+1 && applied == o.applied+1))
	vEnsures("nothing is applied on failure", vImp(o.b == nil && r != nil, applied == o.applied))
	vEnsures("a caller's batch is not committed", vImp(o.b != nil, commits == o.commits && applied == o.applied))
	vEnsures("an operation which notices that it is cancelled fails", vImp(lCancelled(ctx), r != nil))
	vEnsures("nothing is written past the batch", vGet[int]("s.direct") == o.direct)
}

//govc:contract (*bond._table).UnsafeUpdate
//govc:props C08 C16 C15
func lUnsafeUpdate[T any](t *_table[T], ctx context.Context, trs []T, oldTrs []T, optBatch ...Batch) error {
	vRequires("a context", ctx != nil)
	o := lBegin(t, ctx, optBatch)
	r := vBody1[error]()
	lEnd(t, ctx, o, r)
	return r
}

//govc:contract (*bond._table).Insert
//govc:props C08 C16 C15
func lInsert[T any](t *_table[T], ctx context.Context, trs []T, optBatch ...Batch) error {
	vRequires("a context", ctx != nil)
	o := lBegin(t, ctx, optBatch)
	r := vBody1[error]()
	lEnd(t, ctx, o, r)
	return r
}

//govc:contract (*bond._table).Update
//govc:props C08 C16 C15
func lUpdate[T any](t *_table[T], ctx context.Context, trs []T, optBatch ...Batch) error {
	vRequires("a context", ctx != nil)
	o := lBegin(t, ctx, optBatch)
	r := vBody1[error]()
	lEnd(t, ctx, o, r)
	return r
}

//govc:contract (*bond._table).Delete
//govc:props C08 C16 C15
func lDelete[T any](t *_table[T], ctx context.Context, trs []T, optBatch ...Batch) error {
	vRequires("a context", ctx != nil)
	o := lBegin(t, ctx, optBatch)
	r := vBody1[error]()
	lEnd(t, ctx, o, r)
	return r
}

//govc:contract (*bond._table).Upsert
//govc:props C08 C16 C15
func lUpsert[T any](t *_table[T], ctx context.Context, trs []T, onConflict func(old, new T) T, optBatch ...Batch) error {
	vRequires("a context", ctx != nil)
	vRequires("a conflict function", onConflict != nil)
	o := lBegin(t, ctx, optBatch)
	r := vBody1[error]()
	lEnd(t, ctx, o, r)
	return r
}

//govc:contract (*bond._table).UnsafeInsert
//govc:props C08 C16 C15
func lUnsafeInsert[T any](t *_table[T], ctx context.Context, trs []T, optBatch ...Batch) error {
	vRequires("a context", ctx != nil)
	o := lBegin(t, ctx, optBatch)
	r := vBody1[error]()
	lEnd(t, ctx, o, r)
	return r
}

// ---- reads, scans and index maintenance ----

func lBatchOpen(b Batch) bool { return b == nil || !vObjGet[bool]("b.closed", b) }

// reads open and close, and write nothing
func lReads() int {
	vModGhost("s.open")
	vModGhost("f.known")
	vModGhost("ctx.err")
	vModGhost("chan.recv")
	lForget()
	return vGet[int]("s.open")
}

//govc:contract (*bond._table).Exist
//govc:props C16 C15
func lExistT[T any](t *_table[T], tr T, optBatch ...Batch) bool {
	vRequires("a table", lTable(t))
	vRequires("an open batch", lBatchOpen(lBatch(optBatch)))
	open := lReads()
	r := vBody1[bool]()
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	return r
}

//govc:contract (*bond._table).get
//govc:props C16 C15
func lGetKeys[T any](t *_table[T], keys [][]byte, batch Batch, values [][]byte, errorOnNotExist bool) ([][]byte, error) {
	vRequires("a table", lTable(t))
	vRequires("an open batch", lBatchOpen(batch))
	open := lReads()
	r, err := vBody2[[][]byte, error]()
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	return r, err
}

//govc:contract (*bond._table).GetPoint
//govc:props C16 C15
func lGetPoint[T any](t *_table[T], ctx context.Context, in T, optBatch ...Batch) (T, error) {
	vRequires("a table", lTable(t) && t.primaryIndex != nil && ctx != nil)
	vRequires("an open batch", lBatchOpen(lBatch(optBatch)))
	open := lReads()
	r, err := vBody2[T, error]()
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	return r, err
}

//govc:contract (*bond._table).Get
//govc:props C16 C15
func lGet[T any](t *_table[T], ctx context.Context, sel Selector[T], optBatch ...Batch) ([]T, error) {
	vRequires("a table", lTable(t) && t.primaryIndex != nil && ctx != nil && sel != nil)
	vRequires("an open batch", lBatchOpen(lBatch(optBatch)))
	open := lReads()
	r, err := vBody2[[]T, error]()
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	return r, err
}

// An iterator over an index is one thing to close: closing it closes what it
// opened (C10).
//
//govc:model (*bond.Index).Iter
func mlIndexIter[T any](idx *Index[T], table Table[T], selector Selector[T], optBatch ...Batch) Iterator {
	if len(optBatch) > 0 && optBatch[0] != nil {
		vAssert("batch used after it was closed", !vObjGet[bool]("b.closed", optBatch[0]))
	}
	r := vNew[Iterator]()
	vObjSet("si.valid", r, false)
	vObjSet("si.open", r, true)
	vSet("s.open", vGet[int]("s.open")+1)
	return r
}

// a callback of a scan may read its row, any number of times, or not
//
//govc:model func(bond.KeyBytes, bond.Lazy[T]) (bool, error)
func mlCallback[T any](f func(KeyBytes, Lazy[T]) (bool, error), k KeyBytes, l Lazy[T]) (bool, error) {
	for vAny[bool]() {
		_, _ = l.GetFunc()
	}
	return vAny[bool](), vAny[error]()
}

//govc:contract (*bond._table).scanForEachPrimaryIndex
//govc:props C16 C15
func lScanPrimary[T any](t *_table[T], ctx context.Context, idx *Index[T], s Selector[T], f func(keyBytes KeyBytes, t Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
	vRequires("a table and a callback", lTable(t) && ctx != nil && idx != nil && f != nil)
	vRequires("an open batch", lBatchOpen(lBatch(optBatch)))
	open := lReads()
	if vUse() {
		for vAny[bool]() { // what the caller's callback does
			_, _ = f(vFresh[[]byte](), Lazy[T]{GetFunc: func() (T, error) { return vAny[T](), vAny[error]() }})
		}
	}
	r := vBody1[error]()
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	return r
}

//govc:contract (*bond._table).scanForEachSecondaryIndex
//govc:props C16 C15
func lScanSecondary[T any](t *_table[T], ctx context.Context, idx *Index[T], s Selector[T], f func(keyBytes KeyBytes, t Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
	vRequires("a table and a callback", lTable(t) && ctx != nil && idx != nil && f != nil)
	vRequires("an open batch", lBatchOpen(lBatch(optBatch)))
	open := lReads()
	if vUse() {
		for vAny[bool]() { // what the caller's callback does
			_, _ = f(vFresh[[]byte](), Lazy[T]{GetFunc: func() (T, error) { return vAny[T](), vAny[error]() }})
		}
	}
	r := vBody1[error]()
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	return r
}

func lIdxs[T any](idxs []*Index[T]) bool {
	return vForall(func(a int) bool {
		return vImp(a >= 0 && a < len(idxs), idxs[a] != nil && idxs[a].IndexKeyFunction != nil && idxs[a].IndexOrderFunction != nil && idxs[a].IndexFilterFunction != nil)
	})
}

//govc:contract (*bond._table).ReIndex
//govc:props C16 C15
func lReIndex[T any](t *_table[T], idxs []*Index[T]) error {
	vRequires("a table", lTable(t) && t.primaryIndex != nil)
	vRequires("indexes", lIdxs(idxs))
	vModGhost("s.commits")
	vModGhost("s.applied")
	vModGhost("s.direct")
	vModGhost("s.open")
	vForget("M:byte")
	vForget("RNG:")
	vForget("int")
	wm := vWM()
	vInv("the batch at hand is open", func(batch Batch) bool {
		return batch != nil && vRef(batch) >= wm && !vObjGet[bool]("b.closed", batch)
	})
	open := vGet[int]("s.open")
	r := vBody1[error]()
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	return r
}

func lLocks[T any](t *_table[T]) {
	vRequires("a table", lTable(t))
	vRequires("lock free on entry", vLockState(&t.mutex) == 0)
	vLockDiscipline()
	vGuardMap(t.secondaryIndexes, &t.mutex)
}

//govc:contract (*bond._table).AddIndex
//govc:props C16 C15
func lAddIndex[T any](t *_table[T], idxs []*Index[T], reIndex ...bool) error {
	lLocks(t)
	vRequires("a table", t.primaryIndex != nil)
	vRequires("indexes", lIdxs(idxs))
	vModMap(t.secondaryIndexes)
	lModStore()
	open := vGet[int]("s.open")
	r := vBody1[error]()
	vEnsures("lock released", vLockState(&t.mutex) == 0)
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	return r
}

//govc:contract (*bond._table).SecondaryIndexes
//govc:props C15
func lSecondaryIndexes[T any](t *_table[T]) []*Index[T] {
	lLocks(t)
	lForget()
	r := vBody1[[]*Index[T]]()
	vEnsures("lock released", vLockState(&t.mutex) == 0)
	return r
}

//govc:contract (*bond._table).Indexes
//govc:props C15
func lIndexInfos[T any](t *_table[T]) []IndexInfo {
	lLocks(t)
	lForget()
	r := vBody1[[]IndexInfo]()
	vEnsures("lock released", vLockState(&t.mutex) == 0)
	return r
}

//govc:contract (*bond._table).ScanIndex
//govc:props C16 C15
func lScanIndex[T any](t *_table[T], ctx context.Context, i *Index[T], s Selector[T], tr *[]T, reverse bool, optBatch ...Batch) error {
	vRequires("a table", lTable(t) && ctx != nil && i != nil && tr != nil)
	vRequires("an open batch", lBatchOpen(lBatch(optBatch)))
	open := lReads()
	vModObj(tr)
	r := vBody1[error]()
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	return r
}

//govc:contract (*bond.Index).Intersect
//govc:props C16 C15
func lIntersect[T any](idx *Index[T], ctx context.Context, table Table[T], sel Selector[T], indexes []*Index[T], sels []Selector[T], optBatch ...Batch) ([][]byte, error) {
	vRequires("a table", idx != nil && ctx != nil && table != nil)
	vRequires("an open batch", lBatchOpen(lBatch(optBatch)))
	open := lReads()
	r, err := vBody2[[][]byte, error]()
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	return r, err
}

func lQuery[T any](q Query[T], ctx context.Context) bool {
	return lTable(q.table) && ctx != nil && q.index != nil && q.indexSelector != nil
}

//govc:contract (bond.Query).executeQuery
//govc:props C16 C15
func lExecuteQuery[T any](q Query[T], ctx context.Context, optBatch ...Batch) ([]T, error) {
	vRequires("a query", lQuery(q, ctx))
	vRequires("an open batch", lBatchOpen(lBatch(optBatch)))
	open := lReads()
	r, err := vBody2[[]T, error]()
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	return r, err
}

//govc:contract (bond.Query).executeIntersect
//govc:props C16 C15
func lExecuteIntersect[T any](q Query[T], ctx context.Context, optBatch ...Batch) ([]T, error) {
	vRequires("a query", lQuery(q, ctx))
	vRequires("an open batch", lBatchOpen(lBatch(optBatch)))
	open := lReads()
	r, err := vBody2[[]T, error]()
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	return r, err
}

//govc:contract (bond.Query).Execute
//govc:props C16 C15
func lExecute[T any](q Query[T], ctx context.Context, r *[]T, optBatch ...Batch) error {
	vRequires("a query", lQuery(q, ctx) && r != nil)
	vRequires("an open batch", lBatchOpen(lBatch(optBatch)))
	open := lReads()
	vModObj(r)
	err := vBody1[error]()
	vEnsures("everything opened is closed", vGet[int]("s.open") == open)
	return err
}
