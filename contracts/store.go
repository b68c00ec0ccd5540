package bond

import (
	"bytes"
	"context"
	"io"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond/utils"
)

// Storage as seen by table operations. The state of storage is observed at two
// arbitrary keys: "kd" (the key of a row) and "ki" (the key of an index entry);
// what is shown for arbitrary probes holds for all keys.
//
// The store holds at kd a row's bytes (s.d, s.dv) and at ki an entry or none (s.i).
// A batch holds at most one pending change per key: 1 set, 2 deleted, 0 none.
// An iterator sees the store, or a readable batch over the store, as it was when
// the iterator was made; every read may fail.

func sKd() string { return vSkolem[string]("kd") }
func sKi() string { return vSkolem[string]("ki") }

// a row's bytes lie under the key of that row
//
//govc:uf
func sLegal(k, v string) bool { return false }

//govc:model (bond.Batch).Set
func mBatchSet(b Batch, key []byte, value []byte, opt WriteOptions, _ ...Batch) error {
	vAssert("batch used after it was closed", !vObjGet[bool]("b.closed", b))
	if err := vAny[error](); err != nil {
		return err
	}
	k, v := string(key), string(value)
	vSet("w.k", k) // the last row written, and what was there before
	vSet("w.v", v)
	vSet("w.i", vObjGet[int]("b.i", b))
	vObjSet("b.i", b, vIte(k == sKi(), 1, vObjGet[int]("b.i", b)))
	vObjSet("b.d", b, vIte(k == sKd(), 1, vObjGet[int]("b.d", b)))
	vObjSet("b.dv", b, vIte(k == sKd(), v, vObjGet[string]("b.dv", b)))
	vSet("w.d", vObjGet[int]("b.d", b))
	vSet("w.dv", vObjGet[string]("b.dv", b))
	return nil
}

//govc:model (bond.Batch).Delete
func mBatchDelete(b Batch, key []byte, opt WriteOptions, _ ...Batch) error {
	vAssert("batch used after it was closed", !vObjGet[bool]("b.closed", b))
	if err := vAny[error](); err != nil {
		return err
	}
	k := string(key)
	vSet("w.k", k)
	vSet("w.i", vObjGet[int]("b.i", b))
	vObjSet("b.i", b, vIte(k == sKi(), 2, vObjGet[int]("b.i", b)))
	vObjSet("b.d", b, vIte(k == sKd(), 2, vObjGet[int]("b.d", b)))
	vSet("w.d", vObjGet[int]("b.d", b))
	vSet("w.dv", vObjGet[string]("b.dv", b))
	return nil
}

func modBatch(b Batch) {
	vModGhostObj("b.i", b)
	vModGhostObj("b.d", b)
	vModGhostObj("b.dv", b)
	vModGhost("w.k")
	vModGhost("w.v")
	vModGhost("w.i")
	vModGhost("w.d")
	vModGhost("w.dv")
}

// what a reader of the batch (nil: of the store) sees
func sSeesD(b Batch) bool {
	if b == nil {
		return vGet[bool]("s.d")
	}
	p := vObjGet[int]("b.d", b)
	return vIte(p == 0, vGet[bool]("s.d"), p == 1)
}

func sSeesDV(b Batch) string {
	if b == nil {
		return vGet[string]("s.dv")
	}
	return vIte(vObjGet[int]("b.d", b) == 0, vGet[string]("s.dv"), vObjGet[string]("b.dv", b))
}

func sSeesI(b Batch) bool {
	if b == nil {
		return vGet[bool]("s.i")
	}
	p := vObjGet[int]("b.i", b)
	return vIte(p == 0, vGet[bool]("s.i"), p == 1)
}

//govc:model (bond.Batch).Type
func mBatchType(b Batch) BatchType {
	t := vObjGet[BatchType]("b.type", b)
	vAssume(t == BatchTypeWriteOnly || t == BatchTypeReadWrite)
	return t
}

//govc:model (bond.Batch).Commit
func mBatchCommit(b Batch, opt WriteOptions) error {
	vAssert("batch used after it was closed", !vObjGet[bool]("b.closed", b))
	vAssert("committed with sync", opt.Sync)
	vSet("s.commits", vGet[int]("s.commits")+1)
	if err := vAny[error](); err != nil {
		return err
	}
	d, dv, i := sSeesD(b), sSeesDV(b), sSeesI(b)
	vSet("s.d", d)
	vSet("s.dv", dv)
	vSet("s.i", i)
	vSet("s.applied", vGet[int]("s.applied")+1)
	return nil
}

//govc:model (bond.Batch).Close
func mBatchClose(b Batch) error {
	vAssert("batch closed twice", !vObjGet[bool]("b.closed", b))
	vObjSet("b.closed", b, true)
	vSet("s.open", vGet[int]("s.open")-1)
	return vAny[error]()
}

//govc:model (bond.DB).Batch
func mDBBatch(d DB, t BatchType) Batch {
	b := vNew[Batch]()
	vObjSet("b.closed", b, false)
	vObjSet("b.type", b, t)
	vObjSet("b.d", b, 0)
	vObjSet("b.i", b, 0)
	vSet("s.open", vGet[int]("s.open")+1)
	vSet("w.b", b)
	return b
}

//govc:model (bond.Iterationer).Iter
func mStoreIter(c Iterationer, opt *IterOptions, batch ...Batch) Iterator {
	r := vNew[Iterator]()
	var b Batch
	if len(batch) > 0 {
		b = batch[0]
	}
	if b != nil {
		vAssert("batch used after it was closed", !vObjGet[bool]("b.closed", b))
		vObjSet("si.dead", r, vObjGet[BatchType]("b.type", b) != BatchTypeReadWrite)
	} else {
		vObjSet("si.dead", r, false)
	}
	vObjSet("si.d", r, sSeesD(b))
	vObjSet("si.dv", r, sSeesDV(b))
	vObjSet("si.lo", r, string(opt.LowerBound))
	vObjSet("si.up", r, string(opt.UpperBound))
	vObjSet("si.valid", r, false)
	vObjSet("si.open", r, true)
	vSet("s.open", vGet[int]("s.open")+1)
	vSet("w.it", r)
	return r
}

//govc:model (bond.Iterator).SeekGE
func mSeekGE(it Iterator, key []byte) bool {
	vAssert("iterator used after it was closed", vObjGet[bool]("si.open", it))
	k, kd := string(key), sKd()
	d, lo, up := vObjGet[bool]("si.d", it), vObjGet[string]("si.lo", it), vObjGet[string]("si.up", it)
	e, valid, ck, cv := vAny[error](), vAny[bool](), vAny[string](), vAny[string]()
	vSet("s.fail", vGet[bool]("s.fail") || e != nil)
	vAssume(vImp(vObjGet[bool]("si.dead", it), e != nil))
	vAssume(vImp(valid, e == nil && !(ck < k) && !(ck < lo) && ck < up && sLegal(ck, cv)))
	vAssume(vImp(valid && ck == kd, d && cv == vObjGet[string]("si.dv", it)))
	vAssume(vImp(e == nil && k == kd && d && !(kd < lo) && kd < up, valid && ck == kd))
	vObjSet("si.valid", it, valid)
	vObjSet("si.key", it, ck)
	vObjSet("si.val", it, cv)
	vObjSet[error]("si.err", it, e)
	return valid
}

//govc:model (bond.Iterator).Key
func mItKey(it Iterator) []byte {
	vAssert("iterator positioned", vObjGet[bool]("si.open", it) && vObjGet[bool]("si.valid", it))
	return vBytesOf(vObjGet[string]("si.key", it))
}

//govc:model (bond.Iterator).Value
func mItValue(it Iterator) []byte {
	vAssert("iterator positioned", vObjGet[bool]("si.open", it) && vObjGet[bool]("si.valid", it))
	return vBytesOf(vObjGet[string]("si.val", it))
}

//govc:model (bond.Iterator).Error
func mItErr(it Iterator) error { return vObjGet[error]("si.err", it) }

//govc:model (bond.Iterator).Close
func mItClose(it Iterator) error {
	vAssert("iterator closed twice", vObjGet[bool]("si.open", it))
	vObjSet("si.open", it, false)
	vSet("s.open", vGet[int]("s.open")-1)
	return vAny[error]()
}

//govc:uf
func sErrIs(e, t error) bool { return false }

//govc:model errors.Is
func mErrorsIs(e, t error) bool {
	vAssume(vImp(vSameRef(e, t), sErrIs(e, t)))
	return sErrIs(e, t)
}

//govc:model (bond.Getter).Get
func mStoreGet(g Getter, key []byte, batch ...Batch) (data []byte, closer io.Closer, err error) {
	var b Batch
	if len(batch) > 0 {
		b = batch[0]
	}
	dead := false
	if b != nil {
		vAssert("batch used after it was closed", !vObjGet[bool]("b.closed", b))
		dead = vObjGet[BatchType]("b.type", b) != BatchTypeReadWrite
	}
	k := string(key)
	v := vAny[string]()
	e := vAny[error]()
	missing := vAny[bool]()
	vAssume(vImp(dead, e != nil && !sErrIs(e, pebble.ErrNotFound)))
	vAssume(vImp(k == sKd() && missing, !sSeesD(b)))
	vAssume(vImp(k == sKd() && !missing, sSeesD(b) && v == sSeesDV(b)))
	vSet("s.fail", vGet[bool]("s.fail") || e != nil)
	if e != nil {
		vAssume(!sErrIs(e, pebble.ErrNotFound))
		return nil, nil, e
	}
	vAssume(pebble.ErrNotFound != nil)
	if missing {
		return nil, nil, pebble.ErrNotFound
	}
	vAssume(sLegal(k, v))
	c := vNew[io.Closer]()
	r := vBytesOf(v)
	vObjSet("cl.open", c, true)
	vObjSet("cl.v", c, r)
	vSet("s.open", vGet[int]("s.open")+1)
	return r, c, nil
}

//govc:model (io.Closer).Close
func mCloserClose(c io.Closer) error {
	vAssert("value released twice", vObjGet[bool]("cl.open", c))
	copy(vObjGet[[]byte]("cl.v", c), vAny[string]()) // storage reuses the memory
	vObjSet("cl.open", c, false)
	vSet("s.open", vGet[int]("s.open")-1)
	return vAny[error]()
}

// The key filter, as a table uses it: it never denies a key it was given (C14).
//
//govc:model (bond.Filter).MayContain
func mMayContain(f Filter, ctx context.Context, key []byte) bool {
	r := vAny[bool]()
	vAssume(vImp(string(key) == sKd() && vGet[bool]("f.d"), r))
	return r
}

//govc:model (bond.Filter).Add
func mFilterAdd(f Filter, ctx context.Context, key []byte) {
	vSet("f.d", vGet[bool]("f.d") || string(key) == sKd())
}

// Pools and buffers: what a pool hands out has no other holder (C20).
//
//govc:uf
func sDBValPool(d DB) *utils.PreAllocatedPool[[]byte] { return nil }

//govc:model (bond.DB).getValueBufferPool
func mValueBufferPool(d DB) *utils.PreAllocatedPool[[]byte] { return sDBValPool(d) }

//govc:model (bond.DB).getKeyArray
func mGetKeyArray(d DB, n int) [][]byte {
	vAssert("a number of keys", n >= 0)
	w := vWM()
	r := vFresh[[][]byte]()
	vAssume(len(r) == n && vArr(r) >= w)
	vAssume(vForall(func(a int) bool {
		return vImp(a >= 0 && a < n, len(r[a]) == 0 && vArr(r[a]) >= w && vArr(r[a]) < vWM())
	}))
	vAssume(sOwnBuffers(r))
	vSet("w.kb1", vGet[[][]byte]("w.kb"))
	vSet("w.kb", r)
	return r
}

//govc:model (bond.DB).putKeyArray
func mPutKeyArray(d DB, arr [][]byte) {}

//govc:model bytes.NewBuffer
func mNewBuffer(b []byte) *bytes.Buffer { return vNew[*bytes.Buffer]() }

// Serializers: the bytes are a function of the row; reading them back into a
// zero object gives the row (C23).
//
//govc:model (bond.Serializer).Serialize
func mSerialize(s Serializer[any], t any) ([]byte, error) {
	if err := vAny[error](); err != nil {
		return nil, err
	}
	return vBytesOf(vDerefRow(t)), nil
}

//govc:model (bond.SerializerWithBuffer).SerializeFuncWithBuffer
func mSerializeFunc(s SerializerWithBuffer[any], b *bytes.Buffer) func(any) ([]byte, error) {
	return vNew[func(any) ([]byte, error)]()
}

//govc:model func(any) ([]byte, error)
func mSerializeF(f func(any) ([]byte, error), t any) ([]byte, error) {
	if err := vAny[error](); err != nil {
		return nil, err
	}
	return vBytesOf(vDerefRow(t)), nil
}

//govc:model (bond.Serializer).Deserialize
func mDeserialize(s Serializer[any], b []byte, t any) error {
	if err := vAny[error](); err != nil {
		vAssume(!vSameRef(err, ErrNotFound)) // a serializer knows nothing of tables
		return err
	}
	vDecodeInto(t, string(b))
	return nil
}

//govc:model golang.org/x/exp/maps.Copy
func mMapsCopy[T any](dst, src map[IndexID]*Index[T]) { vMapCopy(dst, src) }
