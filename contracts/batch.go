package bond

import "github.com/cockroachdb/pebble"

// Ghost history of callbacks. For each kind of callback: how many ran, which
// function the n-th run was, and how many applications of changes had happened
// by then. The functions themselves are arbitrary; they may fail where their
// type lets them.

//govc:model func(bond.Batch) error
func mOnCommitCb(f func(b Batch) error, b Batch) error {
	n := vGet[int]("oc.n")
	vObjSet("oc.fn", n, vRef(f))
	vObjSet("oc.applies", n, vGet[int]("applies"))
	vSet("oc.n", n+1)
	err := vAny[error]()
	vSet("oc.fails", vGet[int]("oc.fails")+vIte(err != nil, 1, 0))
	vSet("oc.lasterr", err)
	return err
}

//govc:model func(bond.Batch)
func mBatchCb(f func(b Batch), b Batch) {
	n := vGet[int]("cb.n")
	vObjSet("cb.fn", n, vRef(f))
	vObjSet("cb.applies", n, vGet[int]("applies"))
	vObjSet("cb.closes", n, vGet[int]("closes"))
	vSet("cb.n", n+1)
}

//govc:model func(bond.Batch, error)
func mOnErrorCb(f func(b Batch, err error), b Batch, err error) {
	n := vGet[int]("oe.n")
	vObjSet("oe.fn", n, vRef(f))
	vObjSet("oe.err", n, err)
	vSet("oe.n", n+1)
}

//govc:uf
func sBatchEmpty(b *pebble.Batch) bool { return false }

//govc:model (*github.com/cockroachdb/pebble.Batch).Empty
func mPBEmpty(b *pebble.Batch) bool { return sBatchEmpty(b) }

//govc:model (*github.com/cockroachdb/pebble.Batch).Commit
func mPBCommit(b *pebble.Batch, o *pebble.WriteOptions) error {
	err := vAny[error]()
	vSet("applies", vGet[int]("applies")+vIte(err == nil, 1, 0))
	vSet("commits", vGet[int]("commits")+1)
	vSet("commit.sync", o.Sync)
	vSet("commit.err", err)
	return err
}

//govc:model (*github.com/cockroachdb/pebble.Batch).Apply
func mPBApply(b *pebble.Batch, c *pebble.Batch, o *pebble.WriteOptions) error {
	err := vAny[error]()
	vSet("applies", vGet[int]("applies")+vIte(err == nil, 1, 0))
	vSet("apply.from", c)
	vSet("apply.to", b)
	vSet("commit.err", err)
	return err
}

//govc:model (*github.com/cockroachdb/pebble.Batch).Close
func mPBClose(b *pebble.Batch) error {
	err := vAny[error]()
	vSet("closes", vGet[int]("closes")+1)
	vSet("close.err", err)
	return err
}

//govc:model (*github.com/cockroachdb/pebble.Batch).Reset
func mPBReset(b *pebble.Batch) { vSet("resets", vGet[int]("resets")+1) }

//govc:uf
func sIndexed(b *pebble.Batch) bool { return false }

//govc:model (*github.com/cockroachdb/pebble.Batch).Indexed
func mPBIndexed(b *pebble.Batch) bool { return sIndexed(b) }

//govc:model (*github.com/cockroachdb/pebble.DB).NewBatch
func mNewPB(d *pebble.DB) *pebble.Batch {
	b := vAny[*pebble.Batch]()
	vAssume(b != nil && !sIndexed(b) && sBatchEmpty(b))
	return b
}

//govc:model (*github.com/cockroachdb/pebble.DB).NewIndexedBatch
func mNewIPB(d *pebble.DB) *pebble.Batch {
	b := vAny[*pebble.Batch]()
	vAssume(b != nil && sIndexed(b) && sBatchEmpty(b))
	return b
}

func modCallbacks() {
	vModGhost("oc.n")
	vModGhost("oc.fn")
	vModGhost("oc.applies")
	vModGhost("oc.fails")
	vModGhost("oc.lasterr")
	vModGhost("cb.n")
	vModGhost("cb.fn")
	vModGhost("cb.applies")
	vModGhost("cb.closes")
	vModGhost("oe.n")
	vModGhost("oe.fn")
	vModGhost("oe.err")
}

func modStore() {
	vModGhost("applies")
	vModGhost("commits")
	vModGhost("commit.sync")
	vModGhost("commit.err")
	vModGhost("apply.from")
	vModGhost("apply.to")
	vModGhost("closes")
	vModGhost("close.err")
}

// every callback is a real function
func allSet[F any](fs []F) bool {
	return vForall(func(i int) bool { return vImp(i >= 0 && i < len(fs), !vIsNil(fs[i])) })
}

//govc:contract (*bond._batch).notifyOnCommit
//govc:props C18
func cNotifyOnCommit(b *_batch) error {
	vRequires("a batch", b != nil)
	vRequires("callbacks are functions", allSet(b.onCommitCallbacks))
	vModGhost("oc.n")
	vModGhost("oc.fn")
	vModGhost("oc.applies")
	vModGhost("oc.fails")
	vModGhost("oc.lasterr")
	fs := b.onCommitCallbacks
	n0, f0, a0 := vGet[int]("oc.n"), vGet[int]("oc.fails"), vGet[int]("applies")
	k := vSkolem[int]("k")
	before, beforeAp := vObjGet[int]("oc.fn", n0-1-k), vObjGet[int]("oc.applies", n0-1-k)
	vInv("callbacks so far", func(i int) bool {
		return vGet[int]("oc.n") == n0+i && vGet[int]("oc.fails") == f0 &&
			vImp(k >= 0 && k < i, vObjGet[int]("oc.fn", n0+k) == vRef(fs[k]) && vObjGet[int]("oc.applies", n0+k) == a0) &&
			vImp(k >= 0, vObjGet[int]("oc.fn", n0-1-k) == before && vObjGet[int]("oc.applies", n0-1-k) == beforeAp)
	})
	vNoPanic()
	err := vBody1[error]()
	n := vGet[int]("oc.n")
	vEnsures("succeeds only when no callback failed", (err == nil) == (vGet[int]("oc.fails") == f0))
	vEnsures("every callback ran once when all succeed", vImp(err == nil, n == n0+len(fs)))
	vEnsures("stops at the first failure", vImp(err != nil, vGet[int]("oc.fails") == f0+1 && n > n0 && n <= n0+len(fs)))
	vEnsures("reports that failure", vImp(err != nil, vEq(err, vGet[error]("oc.lasterr"))))
	vEnsures("in the order of registration, before anything is applied", vImp(k >= 0 && k < n-n0,
		vObjGet[int]("oc.fn", n0+k) == vRef(fs[k]) && vObjGet[int]("oc.applies", n0+k) == a0))
	vEnsures("the history stays", vImp(k >= 0, vObjGet[int]("oc.fn", n0-1-k) == before))
	return err
}

func modCb() {
	vModGhost("cb.n")
	vModGhost("cb.fn")
	vModGhost("cb.applies")
	vModGhost("cb.closes")
}

// the n-th callback run was f, with that many applications and closings before it
func cbAt(n int, f int, applies int, closes int) bool {
	return vObjGet[int]("cb.fn", n) == f && vObjGet[int]("cb.applies", n) == applies && vObjGet[int]("cb.closes", n) == closes
}

func cbSofar(n0, i, k int, fs []func(b Batch), a0, c0, before int) bool {
	return vGet[int]("cb.n") == n0+i &&
		vImp(k >= 0 && k < i, cbAt(n0+k, vRef(fs[k]), a0, c0)) &&
		vImp(k >= 0, vObjGet[int]("cb.fn", n0-1-k) == before)
}

//govc:contract (*bond._batch).notifyOnCommitted
//govc:props C18
func cNotifyOnCommitted(b *_batch) {
	vRequires("a batch", b != nil)
	vRequires("callbacks are functions", allSet(b.onCommittedCallbacks))
	modCb()
	fs := b.onCommittedCallbacks
	n0, a0, c0 := vGet[int]("cb.n"), vGet[int]("applies"), vGet[int]("closes")
	k := vSkolem[int]("k")
	before := vObjGet[int]("cb.fn", n0-1-k)
	vInv("callbacks so far", func(i int) bool { return cbSofar(n0, i, k, fs, a0, c0, before) })
	vNoPanic()
	vBody()
	vEnsures("every committed callback ran once", vGet[int]("cb.n") == n0+len(fs))
	vEnsures("in the order of registration", vImp(k >= 0 && k < len(fs), cbAt(n0+k, vRef(fs[k]), a0, c0)))
	vEnsures("the history stays", vImp(k >= 0, vObjGet[int]("cb.fn", n0-1-k) == before))
}

//govc:contract (*bond._batch).notifyOnClose
//govc:props C18
func cNotifyOnClose(b *_batch) {
	vRequires("a batch", b != nil)
	vRequires("callbacks are functions", allSet(b.onClose))
	modCb()
	fs := b.onClose
	n0, a0, c0 := vGet[int]("cb.n"), vGet[int]("applies"), vGet[int]("closes")
	k := vSkolem[int]("k")
	before := vObjGet[int]("cb.fn", n0-1-k)
	vInv("callbacks so far", func(i int) bool { return cbSofar(n0, i, k, fs, a0, c0, before) })
	vNoPanic()
	vBody()
	vEnsures("every close callback ran once", vGet[int]("cb.n") == n0+len(fs))
	vEnsures("in the order of registration", vImp(k >= 0 && k < len(fs), cbAt(n0+k, vRef(fs[k]), a0, c0)))
	vEnsures("the history stays", vImp(k >= 0, vObjGet[int]("cb.fn", n0-1-k) == before))
}

//govc:contract (*bond._batch).notifyOnError
//govc:props C18
func cNotifyOnError(b *_batch, err error) {
	vRequires("a batch", b != nil)
	vRequires("callbacks are functions", allSet(b.onErrorCallbacks))
	vModGhost("oe.n")
	vModGhost("oe.fn")
	vModGhost("oe.err")
	fs := b.onErrorCallbacks
	n0 := vGet[int]("oe.n")
	k := vSkolem[int]("k")
	before := vObjGet[int]("oe.fn", n0-1-k)
	vInv("callbacks so far", func(i int) bool {
		return vGet[int]("oe.n") == n0+i &&
			vImp(k >= 0 && k < i, vObjGet[int]("oe.fn", n0+k) == vRef(fs[k]) && vEq(vObjGet[error]("oe.err", n0+k), err)) &&
			vImp(k >= 0, vObjGet[int]("oe.fn", n0-1-k) == before)
	})
	vNoPanic()
	vBody()
	vEnsures("every error callback ran once", vGet[int]("oe.n") == n0+len(fs))
	vEnsures("in the order of registration, with the error", vImp(k >= 0 && k < len(fs),
		vObjGet[int]("oe.fn", n0+k) == vRef(fs[k]) && vEq(vObjGet[error]("oe.err", n0+k), err)))
	vEnsures("the history stays", vImp(k >= 0, vObjGet[int]("oe.fn", n0-1-k) == before))
}

func wellFormedBatch(b *_batch) bool {
	return b != nil && b.Batch != nil && allSet(b.onCommitCallbacks) && allSet(b.onCommittedCallbacks) && allSet(b.onErrorCallbacks) && allSet(b.onClose)
}

//govc:contract (*bond._batch).Commit
//govc:props C18
func cBatchCommit(b *_batch, opt WriteOptions) error {
	vRequires("a batch", wellFormedBatch(b))
	vAssume(pebble.Sync != nil && pebble.NoSync != nil && pebble.Sync.Sync && !pebble.NoSync.Sync && !NoSync.Sync) // library constants
	modCallbacks()
	modStore()
	empty := sBatchEmpty(b.Batch)
	oc, cb, oe, f0 := vGet[int]("oc.n"), vGet[int]("cb.n"), vGet[int]("oe.n"), vGet[int]("oc.fails")
	a0, m0, c0 := vGet[int]("applies"), vGet[int]("commits"), vGet[int]("closes")
	k := vSkolem[int]("k")
	ocs, cbs, oes := b.onCommitCallbacks, b.onCommittedCallbacks, b.onErrorCallbacks
	vNoPanic()
	err := vBody1[error]()
	applied := vGet[int]("applies") - a0
	tried := vGet[int]("commits") - m0
	ranOC, ranCB, ranOE := vGet[int]("oc.n")-oc, vGet[int]("cb.n")-cb, vGet[int]("oe.n")-oe
	vEnsures("an empty batch runs nothing", vImp(empty, err == nil && applied == 0 && tried == 0 && ranOC == 0 && ranCB == 0 && ranOE == 0))
	vEnsures("success means the changes were applied", vImp(err == nil && !empty, applied == 1 && tried == 1))
	vEnsures("failure means they were not", vImp(err != nil, applied == 0))
	vEnsures("any failing commit callback prevents the commit", vImp(vGet[int]("oc.fails") != f0, err != nil && tried == 0))
	vEnsures("commit callbacks all ran before the commit", vImp(tried > 0, ranOC == len(ocs) && vGet[int]("oc.fails") == f0))
	vEnsures("commit callbacks ran in order, before anything was applied", vImp(k >= 0 && k < ranOC, vObjGet[int]("oc.fn", oc+k) == vRef(ocs[k]) && vObjGet[int]("oc.applies", oc+k) == a0))
	vEnsures("committed callbacks run exactly once on success", vImp(err == nil && !empty, ranCB == len(cbs)))
	vEnsures("committed callbacks never run on failure", vImp(err != nil, ranCB == 0))
	vEnsures("committed callbacks run in order, after the changes were applied", vImp(k >= 0 && k < ranCB, cbAt(cb+k, vRef(cbs[k]), a0+1, c0)))
	vEnsures("error callbacks never run on success", vImp(err == nil, ranOE == 0))
	vEnsures("error callbacks run when the commit fails", vImp(err != nil && tried > 0, ranOE == len(oes)))
	vEnsures("error callbacks get the error", vImp(k >= 0 && k < ranOE, vObjGet[int]("oe.fn", oe+k) == vRef(oes[k]) && vEq(vObjGet[error]("oe.err", oe+k), err)))
	vEnsures("the error of the commit is reported", vImp(tried > 0, vEq(err, vGet[error]("commit.err"))))
	vEnsures("synced as asked", vImp(tried > 0, vGet[bool]("commit.sync") == opt.Sync))
	vEnsures("not closed", vGet[int]("closes") == c0)
	return err
}

//govc:contract (*bond._batch).Apply
//govc:props C18
func cBatchApply(b *_batch, batch Batch, opt WriteOptions) error {
	vRequires("a batch", wellFormedBatch(b))
	in, isB := batch.(*_batch)
	vRequires("well-formed argument", vImp(isB, wellFormedBatch(in)))
	modCallbacks()
	modStore()
	oc, cb, oe, f0 := vGet[int]("oc.n"), vGet[int]("cb.n"), vGet[int]("oe.n"), vGet[int]("oc.fails")
	a0, m0, c0 := vGet[int]("applies"), vGet[int]("commits"), vGet[int]("closes")
	k := vSkolem[int]("k")
	err := vBody1[error]()
	applied := vGet[int]("applies") - a0
	ranOC, ranCB, ranOE := vGet[int]("oc.n")-oc, vGet[int]("cb.n")-cb, vGet[int]("oe.n")-oe
	vEnsures("a foreign batch is refused", vImp(!isB, err != nil && applied == 0 && ranOC == 0 && ranCB == 0 && ranOE == 0))
	vEnsures("nothing is committed or closed", vGet[int]("commits") == m0 && vGet[int]("closes") == c0)
	vEnsures("success means the changes were applied", vImp(err == nil, applied == 1 && vSameRef(vGet[*pebble.Batch]("apply.from"), in.Batch) && vSameRef(vGet[*pebble.Batch]("apply.to"), b.Batch)))
	vEnsures("failure means they were not", vImp(err != nil, applied == 0))
	vEnsures("any failing commit callback prevents it", vImp(vGet[int]("oc.fails") != f0, err != nil))
	if isB {
		vEnsures("commit callbacks all ran before", vImp(err == nil, ranOC == len(in.onCommitCallbacks)))
		vEnsures("commit callbacks ran in order, before anything was applied", vImp(k >= 0 && k < ranOC, vObjGet[int]("oc.fn", oc+k) == vRef(in.onCommitCallbacks[k]) && vObjGet[int]("oc.applies", oc+k) == a0))
		vEnsures("committed callbacks run exactly once on success", vImp(err == nil, ranCB == len(in.onCommittedCallbacks)))
		vEnsures("committed callbacks never run on failure", vImp(err != nil, ranCB == 0))
		vEnsures("committed callbacks run in order, after the changes were applied", vImp(k >= 0 && k < ranCB, cbAt(cb+k, vRef(in.onCommittedCallbacks[k]), a0+1, c0)))
		vEnsures("error callbacks never run on success", vImp(err == nil, ranOE == 0))
		vEnsures("error callbacks run when applying fails", vImp(err != nil && vGet[int]("oc.fails") == f0, ranOE == len(in.onErrorCallbacks)))
	}
	return err
}

//govc:contract (*bond._batch).Close
//govc:props C18
func cBatchClose(b *_batch) error {
	vRequires("a batch", wellFormedBatch(b))
	modCallbacks()
	modStore()
	oc, cb, oe := vGet[int]("oc.n"), vGet[int]("cb.n"), vGet[int]("oe.n")
	a0, m0, c0 := vGet[int]("applies"), vGet[int]("commits"), vGet[int]("closes")
	k := vSkolem[int]("k")
	fs := b.onClose
	oes := b.onErrorCallbacks
	vNoPanic()
	err := vBody1[error]()
	ranCB, ranOE := vGet[int]("cb.n")-cb, vGet[int]("oe.n")-oe
	vEnsures("the underlying batch is closed once", vGet[int]("closes") == c0+1)
	vEnsures("nothing is applied", vGet[int]("applies") == a0 && vGet[int]("commits") == m0 && vGet[int]("oc.n") == oc)
	vEnsures("close callbacks, and no others, ran once each", ranCB == len(fs))
	vEnsures("in the order of registration", vImp(k >= 0 && k < ranCB, vObjGet[int]("cb.fn", cb+k) == vRef(fs[k])))
	vEnsures("error callbacks run exactly when closing fails", ranOE == vIte(err == nil, 0, len(oes)))
	vEnsures("the error is reported", vEq(err, vGet[error]("close.err")))
	return err
}

//govc:contract (*bond._batch).Reset
//govc:props C18
func cBatchReset(b *_batch) {
	vRequires("a batch", b != nil && b.Batch != nil)
	vModObj(b)
	vModObj(&sequenceId)
	vModGhost("resets")
	vModGhost("seq.base")
	vModGhost("seq.final")
	vModGhost("seq.sections")
	vRequires("lock free", vLockState(&sequenceId.mutex) == 0)
	r0 := vGet[int]("resets")
	vBody()
	vEnsures("no callbacks are left", len(b.onCommitCallbacks) == 0 && len(b.onCommittedCallbacks) == 0 && len(b.onErrorCallbacks) == 0 && len(b.onClose) == 0)
	vEnsures("the changes are dropped", vGet[int]("resets") == r0+1)
}

//govc:contract (*bond._batch).OnCommit
//govc:props C18
func cOnCommit(b *_batch, f func(b Batch) error) {
	vRequires("a batch", b != nil)
	vModObj(b)
	vModSlice(b.onCommitCallbacks)
	old := b.onCommitCallbacks
	k := vSkolem[int]("k")
	was := old[k]
	x, y, z := b.onCommittedCallbacks, b.onErrorCallbacks, b.onClose
	vNoPanic()
	vBody()
	now := b.onCommitCallbacks
	vEnsures("added at the end", len(now) == len(old)+1 && vRef(now[len(old)]) == vRef(f))
	vEnsures("others stay", vImp(k >= 0 && k < len(old), vRef(now[k]) == vRef(was)))
	vEnsures("other kinds stay", vEq(b.onCommittedCallbacks, x) && vEq(b.onErrorCallbacks, y) && vEq(b.onClose, z))
}

//govc:contract (*bond._batch).OnCommitted
//govc:props C18
func cOnCommitted(b *_batch, f func(b Batch)) {
	vRequires("a batch", b != nil)
	vModObj(b)
	vModSlice(b.onCommittedCallbacks)
	old := b.onCommittedCallbacks
	k := vSkolem[int]("k")
	was := old[k]
	x, y, z := b.onCommitCallbacks, b.onErrorCallbacks, b.onClose
	vNoPanic()
	vBody()
	now := b.onCommittedCallbacks
	vEnsures("added at the end", len(now) == len(old)+1 && vRef(now[len(old)]) == vRef(f))
	vEnsures("others stay", vImp(k >= 0 && k < len(old), vRef(now[k]) == vRef(was)))
	vEnsures("other kinds stay", vEq(b.onCommitCallbacks, x) && vEq(b.onErrorCallbacks, y) && vEq(b.onClose, z))
}

//govc:contract (*bond._batch).OnError
//govc:props C18
func cOnError(b *_batch, f func(b Batch, err error)) {
	vRequires("a batch", b != nil)
	vModObj(b)
	vModSlice(b.onErrorCallbacks)
	old := b.onErrorCallbacks
	k := vSkolem[int]("k")
	was := old[k]
	x, y, z := b.onCommitCallbacks, b.onCommittedCallbacks, b.onClose
	vNoPanic()
	vBody()
	now := b.onErrorCallbacks
	vEnsures("added at the end", len(now) == len(old)+1 && vRef(now[len(old)]) == vRef(f))
	vEnsures("others stay", vImp(k >= 0 && k < len(old), vRef(now[k]) == vRef(was)))
	vEnsures("other kinds stay", vEq(b.onCommitCallbacks, x) && vEq(b.onCommittedCallbacks, y) && vEq(b.onClose, z))
}

//govc:contract (*bond._batch).OnClose
//govc:props C18
func cOnClose(b *_batch, f func(b Batch)) {
	vRequires("a batch", b != nil)
	vModObj(b)
	vModSlice(b.onClose)
	old := b.onClose
	k := vSkolem[int]("k")
	was := old[k]
	x, y, z := b.onCommitCallbacks, b.onCommittedCallbacks, b.onErrorCallbacks
	vNoPanic()
	vBody()
	now := b.onClose
	vEnsures("added at the end", len(now) == len(old)+1 && vRef(now[len(old)]) == vRef(f))
	vEnsures("others stay", vImp(k >= 0 && k < len(old), vRef(now[k]) == vRef(was)))
	vEnsures("other kinds stay", vEq(b.onCommitCallbacks, x) && vEq(b.onCommittedCallbacks, y) && vEq(b.onErrorCallbacks, z))
}

//govc:contract bond.newBatch
//govc:props C18
func cNewBatch(db *_db, indexed bool) Batch {
	vRequires("a database", db != nil && db.pebble != nil)
	vRequires("lock free", vLockState(&sequenceId.mutex) == 0)
	vModObj(&sequenceId)
	vModGhost("seq.base")
	vModGhost("seq.final")
	vModGhost("seq.sections")
	res := vBody1[Batch]()
	b, ok := res.(*_batch)
	vEnsures("a batch without callbacks", ok && b.Batch != nil && len(b.onCommitCallbacks) == 0 && len(b.onCommittedCallbacks) == 0 && len(b.onErrorCallbacks) == 0 && len(b.onClose) == 0)
	vEnsures("of the kind asked for", sIndexed(b.Batch) == indexed && sBatchEmpty(b.Batch))
	return res
}

//govc:contract (*bond._batch).Type
//govc:props C18
func cBatchType(b *_batch) BatchType {
	vRequires("a batch", b != nil && b.Batch != nil)
	vNoPanic()
	r := vBody1[BatchType]()
	vEnsures("readable exactly when indexed", (r == BatchTypeReadWrite) == sIndexed(b.Batch) && (r == BatchTypeReadWrite || r == BatchTypeWriteOnly))
	return r
}

//govc:model (bond.Committer).Commit
func mCommitter(c Committer, opt WriteOptions) error {
	b, ok := c.(*_batch)
	vAssert("a batch of this package", ok)
	return b.Commit(opt)
}

//govc:contract (*bond._db).Apply
//govc:props C18
func cDBApply(db *_db, b Batch, opt WriteOptions) error {
	in, isB := b.(*_batch)
	vRequires("a batch of this package", isB && wellFormedBatch(in))
	modCallbacks()
	modStore()
	a0 := vGet[int]("applies")
	empty := sBatchEmpty(in.Batch)
	cb := vGet[int]("cb.n")
	err := vBody1[error]()
	vEnsures("success means the changes were applied", vImp(err == nil && !empty, vGet[int]("applies") == a0+1 && vGet[int]("cb.n") == cb+len(in.onCommittedCallbacks)))
	vEnsures("failure means they were not", vImp(err != nil, vGet[int]("applies") == a0 && vGet[int]("cb.n") == cb))
	return err
}
