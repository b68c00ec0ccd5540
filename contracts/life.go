package bond

import (
	"bytes"
	"context"
	"io"
	"sort"

	"github.com/go-bond/bond/utils"
)

// Storage as seen by the life of an operation: what is open, what was committed.
// Every operation of storage may fail at any time; what keys and values are is
// left open.
//
//   s.open     batches, iterators and values handed out and not yet closed
//   s.commits  commits asked for, s.applied commits which succeeded
//   s.direct   writes past any batch

//govc:model (bond.Batch).Set
func mlBatchSet(b Batch, key []byte, value []byte, opt WriteOptions, _ ...Batch) error {
	vAssert("batch used after it was closed", !vObjGet[bool]("b.closed", b))
	vSet("f.rows", vGet[int]("f.rows")+1)
	return vAny[error]()
}

//govc:model (bond.Batch).Delete
func mlBatchDelete(b Batch, key []byte, opt WriteOptions, _ ...Batch) error {
	vAssert("batch used after it was closed", !vObjGet[bool]("b.closed", b))
	return vAny[error]()
}

//govc:model (bond.Batch).DeleteRange
func mlBatchDeleteRange(b Batch, start []byte, end []byte, opt WriteOptions, _ ...Batch) error {
	vAssert("batch used after it was closed", !vObjGet[bool]("b.closed", b))
	return vAny[error]()
}

//govc:model (bond.Batch).Type
func mlBatchType(b Batch) BatchType {
	t := vObjGet[BatchType]("b.type", b)
	vAssume(t == BatchTypeWriteOnly || t == BatchTypeReadWrite)
	return t
}

//govc:model (bond.Batch).Commit
func mlBatchCommit(b Batch, opt WriteOptions) error {
	vAssert("batch used after it was closed", !vObjGet[bool]("b.closed", b))
	vAssert("committed with sync", opt.Sync)
	e := vAny[error]()
	vSet("s.commits", vGet[int]("s.commits")+1)
	vSet("s.applied", vIte(e == nil, vGet[int]("s.applied")+1, vGet[int]("s.applied")))
	return e
}

//govc:model (bond.Batch).Reset
func mlBatchReset(b Batch) {
	vAssert("batch used after it was closed", !vObjGet[bool]("b.closed", b))
}

//govc:model (bond.Batch).Close
func mlBatchClose(b Batch) error {
	vAssert("batch closed twice", !vObjGet[bool]("b.closed", b))
	vObjSet("b.closed", b, true)
	vSet("s.open", vGet[int]("s.open")-1)
	return vAny[error]()
}

//govc:model (bond.DB).Batch
func mlDBBatch(d DB, t BatchType) Batch {
	b := vNew[Batch]()
	vObjSet("b.closed", b, false)
	vObjSet("b.type", b, t)
	vSet("s.open", vGet[int]("s.open")+1)
	return b
}

func lPast(opt WriteOptions) error {
	vAssert("written with sync", opt.Sync)
	vSet("s.direct", vGet[int]("s.direct")+1)
	return vAny[error]()
}

//govc:model (bond.DB).Set
func mlDBSet(d DB, key []byte, value []byte, opt WriteOptions, batch ...Batch) error {
	return lPast(opt)
}

//govc:model (bond.DB).Delete
func mlDBDelete(d DB, key []byte, opt WriteOptions, batch ...Batch) error { return lPast(opt) }

//govc:model (bond.DB).DeleteRange
func mlDBDeleteRange(d DB, start []byte, end []byte, opt WriteOptions, batch ...Batch) error {
	return lPast(opt)
}

//govc:model (bond.DB).Apply
func mlDBApply(d DB, b Batch, opt WriteOptions) error { return b.Commit(opt) }

//govc:model (bond.Iterationer).Iter
func mlIter(c Iterationer, opt *IterOptions, batch ...Batch) Iterator {
	if len(batch) > 0 && batch[0] != nil {
		vAssert("batch used after it was closed", !vObjGet[bool]("b.closed", batch[0]))
	}
	r := vNew[Iterator]()
	vObjSet("si.valid", r, false)
	vObjSet("si.open", r, true)
	vSet("s.open", vGet[int]("s.open")+1)
	return r
}

func lMove(it Iterator) bool {
	vAssert("iterator used after it was closed", vObjGet[bool]("si.open", it))
	valid := vAny[bool]()
	vObjSet("si.valid", it, valid)
	return valid
}

//govc:model (bond.Iterator).SeekGE
func mlSeekGE(it Iterator, key []byte) bool { return lMove(it) }

//govc:model (bond.Iterator).SeekLT
func mlSeekLT(it Iterator, key []byte) bool { return lMove(it) }

//govc:model (bond.Iterator).First
func mlFirst(it Iterator) bool { return lMove(it) }

//govc:model (bond.Iterator).Last
func mlLast(it Iterator) bool { return lMove(it) }

//govc:model (bond.Iterator).Next
func mlNext(it Iterator) bool { return lMove(it) }

//govc:model (bond.Iterator).Prev
func mlPrev(it Iterator) bool { return lMove(it) }

//govc:model (bond.Iterator).Valid
func mlValid(it Iterator) bool {
	vAssert("iterator used after it was closed", vObjGet[bool]("si.open", it))
	return vObjGet[bool]("si.valid", it)
}

//govc:model (bond.Iterator).Key
func mlItKey(it Iterator) []byte {
	vAssert("iterator positioned", vObjGet[bool]("si.open", it) && vObjGet[bool]("si.valid", it))
	return vFresh[[]byte]()
}

//govc:model (bond.Iterator).Value
func mlItValue(it Iterator) []byte {
	vAssert("iterator positioned", vObjGet[bool]("si.open", it) && vObjGet[bool]("si.valid", it))
	return vFresh[[]byte]()
}

//govc:model (bond.Iterator).Error
func mlItErr(it Iterator) error { return vAny[error]() }

//govc:model (bond.Iterator).Close
func mlItClose(it Iterator) error {
	vAssert("iterator closed twice", vObjGet[bool]("si.open", it))
	vObjSet("si.open", it, false)
	vSet("s.open", vGet[int]("s.open")-1)
	return vAny[error]()
}

//govc:model errors.Is
func mlErrorsIs(e, t error) bool { return vAny[bool]() }

//govc:model (bond.Getter).Get
func mlGet(g Getter, key []byte, batch ...Batch) (data []byte, closer io.Closer, err error) {
	if len(batch) > 0 && batch[0] != nil {
		vAssert("batch used after it was closed", !vObjGet[bool]("b.closed", batch[0]))
	}
	e := vAny[error]()
	if e != nil {
		return nil, nil, e
	}
	c := vNew[io.Closer]()
	vObjSet("cl.open", c, true)
	vSet("s.open", vGet[int]("s.open")+1)
	return vFresh[[]byte](), c, nil
}

//govc:model (io.Closer).Close
func mlCloserClose(c io.Closer) error {
	vAssert("value released twice", vObjGet[bool]("cl.open", c))
	vObjSet("cl.open", c, false)
	vSet("s.open", vGet[int]("s.open")-1)
	return vAny[error]()
}

// Contexts: being done is noticed by receiving from Done or by an error from Err.

//govc:uf
func lDone(ctx context.Context) <-chan struct{} { return nil }

//govc:model (context.Context).Done
func mlCtxDone(ctx context.Context) <-chan struct{} { return lDone(ctx) }

//govc:model (context.Context).Err
func mlCtxErr(ctx context.Context) error {
	e := vAny[error]()
	vAssume(vImp(vObjGet[bool]("chan.recv", lDone(ctx)), e != nil))
	vObjSet("ctx.err", ctx, vObjGet[bool]("ctx.err", ctx) || e != nil)
	return e
}

// the operation has noticed that the context is done
func lCancelled(ctx context.Context) bool {
	return vObjGet[bool]("chan.recv", lDone(ctx)) || vObjGet[bool]("ctx.err", ctx)
}

func lModCtx(ctx context.Context) {
	vModGhostObj("chan.recv", lDone(ctx))
	vModGhostObj("ctx.err", ctx)
}

// Pools, buffers, serializers and the functions of a table: any values.

//govc:uf
func lPoolOf(d DB) *utils.PreAllocatedPool[[]byte] { return nil }

//govc:uf
func lArrPoolOf(d DB) *utils.PreAllocatedPool[[][]byte] { return nil }

//govc:model (bond.DB).getKeyBufferPool
func mlKeyBufferPool(d DB) *utils.PreAllocatedPool[[]byte] { return lPoolOf(d) }

//govc:model (bond.DB).getMultiKeyBufferPool
func mlMultiKeyBufferPool(d DB) *utils.PreAllocatedPool[[]byte] { return lPoolOf(d) }

//govc:model (bond.DB).getValueBufferPool
func mlValueBufferPool(d DB) *utils.PreAllocatedPool[[]byte] { return lPoolOf(d) }

//govc:model (bond.DB).getBytesArrayPool
func mlBytesArrayPool(d DB) *utils.PreAllocatedPool[[][]byte] { return lArrPoolOf(d) }

//govc:model (*bond/utils.PreAllocatedPool).Get
func mlPoolGet[E any](p *utils.PreAllocatedPool[[]E]) []E { return vFresh[[]E]() }

//govc:model (*bond/utils.PreAllocatedPool).Put
func mlPoolPut[E any](p *utils.PreAllocatedPool[[]E], b []E) {}

//govc:model (bond.DB).getKeyArray
func mlGetKeyArray(d DB, n int) [][]byte {
	r := vFresh[[][]byte]()
	vAssume(len(r) == n)
	return r
}

//govc:model (bond.DB).putKeyArray
func mlPutKeyArray(d DB, arr [][]byte) {}

//govc:model (bond.DB).getValueArray
func mlGetValueArray(d DB, n int) [][]byte {
	r := vFresh[[][]byte]()
	vAssume(len(r) == n)
	return r
}

//govc:model (bond.DB).putValueArray
func mlPutValueArray(d DB, arr [][]byte) {}

//govc:model bytes.NewBuffer
func mlNewBuffer(b []byte) *bytes.Buffer { return vNew[*bytes.Buffer]() }

//govc:model (bond.Serializer).Serialize
func mlSerialize(s Serializer[any], t any) ([]byte, error) { return vFresh[[]byte](), vAny[error]() }

//govc:model (bond.SerializerWithBuffer).SerializeFuncWithBuffer
func mlSerializeFunc(s SerializerWithBuffer[any], b *bytes.Buffer) func(any) ([]byte, error) {
	return vNew[func(any) ([]byte, error)]()
}

//govc:model func(any) ([]byte, error)
func mlSerializeF(f func(any) ([]byte, error), t any) ([]byte, error) {
	return vFresh[[]byte](), vAny[error]()
}

//govc:model (bond.Serializer).Deserialize
func mlDeserialize(s Serializer[any], b []byte, t any) error {
	vDecodeInto(t, vAny[string]())
	return vAny[error]()
}

//govc:model golang.org/x/exp/maps.Copy
func mlMapsCopy[T any](dst, src map[IndexID]*Index[T]) { vMapCopy(dst, src) }

//govc:model func:bond.IndexKeyFunction
func mlIndexKeyFunction[T any](f IndexKeyFunction[T], b KeyBuilder, t T) []byte {
	return vFresh[[]byte]()
}

//govc:model func:bond.IndexOrderFunction
func mlIndexOrderFunction[T any](f IndexOrderFunction[T], o IndexOrder, t T) IndexOrder {
	return IndexOrder{KeyBuilder: KeyBuilder{buff: vFresh[[]byte]()}}
}

//govc:model func:bond.IndexFilterFunction
func mlIndexFilterFunction[T any](f IndexFilterFunction[T], t T) bool { return vAny[bool]() }

//govc:model func:bond.TablePrimaryKeyFunc
func mlTablePrimaryKeyFunc[T any](f TablePrimaryKeyFunc[T], b KeyBuilder, t T) []byte {
	return vFresh[[]byte]()
}

//govc:model (bond.Table).ID
func mlTableID[T any](t Table[T]) TableID { return vAny[TableID]() }

//govc:uf
func lTableDB[T any](t Table[T]) DB { return nil }

//govc:model (bond.Table).DB
func mlTableDB[T any](t Table[T]) DB {
	d := lTableDB[T](t)
	vAssume(d != nil)
	return d
}

//govc:model (bond.Table).PrimaryKey
func mlTablePrimaryKey[T any](t Table[T], b KeyBuilder, row T) []byte { return vFresh[[]byte]() }

// Sorting, comparing and encoding of keys: any outcome.

//govc:model sort.Sort
func mlSort(data sort.Interface) {
	n := data.Len()
	for vAny[bool]() {
		i, j := vAny[int](), vAny[int]()
		vAssume(i >= 0 && i < n && j >= 0 && j < n)
		data.Swap(i, j)
	}
}

// what encoding a key does to memory (it is verified for its content by C01)
//
//govc:contract bond.KeyEncodeRaw
//govc:props C08 C16 C14
func lKeyEncodeRaw(tableID TableID, indexID IndexID, indexKey, indexOrder, primary func(b []byte) []byte, rawBuffs ...[]byte) []byte {
	vForget("M:byte")
	return vBody1[[]byte]()
}

//govc:model func([]byte) []byte
func mlKeyPart(f func([]byte) []byte, b []byte) []byte { return vFresh[[]byte]() }

//govc:model bond/utils.BytesToString
func mlBytesToString(b []byte) string { return vAny[string]() }

//govc:model bond/utils.StringToBytes
func mlStringToBytes(s string) []byte { return vFresh[[]byte]() }
