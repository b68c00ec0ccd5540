package bloom

import (
	"bytes"
	"context"
	"encoding/binary"
	"io"
	"sync"

	"github.com/bits-and-blooms/bloom/v3"
	"github.com/go-bond/bond"
	"github.com/klauspost/compress/zstd"
	"github.com/lithammer/go-jump-consistent-hash"
)

// The filter for one key, which may be any key.
//
//   bf.has    of a bit set: all bits of the key are set
//   bf.sub    of a bit set: all its bits are saved for the key's bucket
//   st.has, st.val    what the store holds for the key's bucket
//   st.bn, st.bnval   what it holds as the number of buckets
//   s.open    values read from the store and not yet released

//govc:uf
func wK() string { return "" }

//govc:uf
func wSum(content string) uint64 { return 0 }

//govc:uf
func wJump(h uint64, n int32) int32 { return 0 }

// the bucket of the key
func wBucket(n int) int { return int(wJump(wSum(wK()), int32(n))) }

// a stored bucket has all bits of the key set
//
//govc:uf
func wHas(data string) bool { return false }

//govc:uf
func wDec(n int) string { return "" }

// ---- hashing ----

//govc:model (github.com/lithammer/go-jump-consistent-hash.KeyHasher).Reset
func mReset(h jump.KeyHasher) { vObjSet("h.val", h, "") }

//govc:model (github.com/lithammer/go-jump-consistent-hash.KeyHasher).Write
func mWrite(h jump.KeyHasher, p []byte) (int, error) {
	e := vAny[error]()
	vObjSet("h.val", h, vObjGet[string]("h.val", h)+string(p))
	return len(p), e
}

//govc:model (github.com/lithammer/go-jump-consistent-hash.KeyHasher).Sum64
func mSum64(h jump.KeyHasher) uint64 { return wSum(vObjGet[string]("h.val", h)) }

//govc:model github.com/lithammer/go-jump-consistent-hash.Hash
func mJumpHash(key uint64, buckets int32) int32 {
	r := wJump(key, buckets)
	vAssume(vImp(buckets >= 1, r >= 0 && r < buckets))
	return r
}

//govc:model (*sync.Pool).Get
func mPoolGet(p *sync.Pool) any {
	if vSameRef(p, &_buffPool) {
		b := vFresh[[]byte]()
		vAssume(len(b) >= 8 && vArr(b) != vArr(vGet[*BloomFilter]("bf.self").keyPrefix))
		return any(b)
	}
	return any(vNew[jump.KeyHasher]())
}

//govc:model (*sync.Pool).Put
func mPoolPut(p *sync.Pool, x any) {
	if vSameRef(p, &_buffPool) {
		b, ok := x.([]byte)
		vAssert("a buffer goes back with room in it", ok && len(b) >= 8)
	}
}

// ---- bit sets ----

func wExclusive() {
	b := vGet[*BloomFilter]("bf.self")
	vAssert("bits change only under the lock held for writing", vLockState(&b.mutex) == 1)
}

func wShared() {
	b := vGet[*BloomFilter]("bf.self")
	vAssert("bits are read only under the lock", vLockState(&b.mutex) != 0)
}

//govc:model (*github.com/bits-and-blooms/bloom/v3.BloomFilter).TestOrAdd
func mTestOrAdd(f *bloom.BloomFilter, data []byte) bool {
	wExclusive()
	was := vObjGet[bool]("bf.has", f)
	present, chance := vAny[bool](), vAny[bool]()
	vAssume(vImp(string(data) == wK(), present == was))
	vObjSet("bf.has", f, was || string(data) == wK() || !present && chance)
	vObjSet("bf.sub", f, vObjGet[bool]("bf.sub", f) && present)
	return present
}

//govc:model (*github.com/bits-and-blooms/bloom/v3.BloomFilter).Add
func mAdd(f *bloom.BloomFilter, data []byte) *bloom.BloomFilter {
	wExclusive()
	vObjSet("bf.has", f, vObjGet[bool]("bf.has", f) || string(data) == wK() || vAny[bool]())
	vObjSet("bf.sub", f, false)
	return f
}

//govc:model (*github.com/bits-and-blooms/bloom/v3.BloomFilter).Test
func mTest(f *bloom.BloomFilter, data []byte) bool {
	wShared()
	r := vAny[bool]()
	vAssume(vImp(string(data) == wK(), r == vObjGet[bool]("bf.has", f)))
	return r
}

//govc:model (*github.com/bits-and-blooms/bloom/v3.BloomFilter).Merge
func mMerge(f, g *bloom.BloomFilter) error {
	wExclusive()
	e := vAny[error]()
	was, other := vObjGet[bool]("bf.has", f), vObjGet[bool]("bf.has", g)
	sub := vObjGet[bool]("bf.sub", f) && vObjGet[bool]("bf.sub", g)
	more := vAny[bool]()
	vAssume(vImp(more && sub, vGet[bool]("st.has") && wHas(vGet[string]("st.val"))))
	vObjSet("bf.has", f, was || e == nil && (other || more))
	vObjSet("bf.sub", f, vIte(e == nil, sub, vObjGet[bool]("bf.sub", f)))
	return e
}

//govc:model github.com/bits-and-blooms/bloom/v3.New
func mNewFilter(m, k uint) *bloom.BloomFilter {
	f := vNew[*bloom.BloomFilter]()
	vObjSet("bf.has", f, false)
	vObjSet("bf.sub", f, true)
	return f
}

//govc:model (*github.com/bits-and-blooms/bloom/v3.BloomFilter).ReadFrom
func mReadFrom(f *bloom.BloomFilter, r io.Reader) (int64, error) {
	e := vAny[error]()
	z, ok := r.(*zstd.Decoder)
	vAssert("reads a compressed value", ok)
	src := vObjGet[string]("z.src", z)
	vObjSet("bf.has", f, vIte(e == nil, wHas(src), vAny[bool]()))
	vObjSet("bf.sub", f, e == nil && vGet[bool]("st.has") && src == vGet[string]("st.val"))
	return vAny[int64](), e
}

//govc:model (*github.com/bits-and-blooms/bloom/v3.BloomFilter).WriteTo
func mWriteTo(f *bloom.BloomFilter, w io.Writer) (int64, error) {
	wShared()
	e := vAny[error]()
	z, ok := w.(*zstd.Encoder)
	vAssert("writes a compressed value", ok)
	vObjSet("z.has", z, vIte(e == nil, vObjGet[bool]("bf.has", f), false))
	vObjSet("z.of", z, vIte(e == nil, vRef(f), 0))
	return vAny[int64](), e
}

// ---- buffers and compression ----

//govc:model bytes.NewBuffer
func mNewBuffer(b []byte) *bytes.Buffer {
	r := vNew[*bytes.Buffer]()
	vObjSet("bb.val", r, string(b))
	return r
}

//govc:model (*bytes.Buffer).Write
func mBufWrite(b *bytes.Buffer, p []byte) (int, error) {
	vObjSet("bb.val", b, vObjGet[string]("bb.val", b)+string(p))
	return len(p), nil
}

//govc:model (*bytes.Buffer).Bytes
func mBufBytes(b *bytes.Buffer) []byte { return vBytesOf(vObjGet[string]("bb.val", b)) }

//govc:model github.com/klauspost/compress/zstd.NewReader
func mZReader(r io.Reader, _ ...zstd.DOption) (*zstd.Decoder, error) {
	e := vAny[error]()
	if e != nil {
		return nil, e
	}
	b, ok := r.(*bytes.Buffer)
	vAssert("reads from a buffer", ok)
	z := vNew[*zstd.Decoder]()
	vObjSet("z.src", z, vObjGet[string]("bb.val", b))
	return z, nil
}

//govc:model (*github.com/klauspost/compress/zstd.Decoder).Close
func mZReaderClose(z *zstd.Decoder) {}

//govc:model github.com/klauspost/compress/zstd.NewWriter
func mZWriter(w io.Writer, _ ...zstd.EOption) (*zstd.Encoder, error) {
	e := vAny[error]()
	if e != nil {
		return nil, e
	}
	b, ok := w.(*bytes.Buffer)
	vAssert("writes to an empty buffer", ok && vObjGet[string]("bb.val", b) == "")
	z := vNew[*zstd.Encoder]()
	vObjSet("z.has", z, false)
	vObjSet("z.of", z, 0)
	vObjSet("z.dst", z, b)
	return z, nil
}

//govc:model (*github.com/klauspost/compress/zstd.Encoder).Close
func mZWriterClose(z *zstd.Encoder) error {
	e := vAny[error]()
	s := vAny[string]()
	vAssume(wHas(s) == vObjGet[bool]("z.has", z))
	vSet("enc.val", s)
	vSet("enc.of", vObjGet[int]("z.of", z))
	vObjSet("bb.val", vObjGet[*bytes.Buffer]("z.dst", z), vIte(e == nil, s, vAny[string]()))
	return e
}

//govc:model fmt.Sprintf
func mSprintf(f string, a ...any) string {
	n, ok := a[0].(int)
	vAssert("the number of a bucket", ok && f == "%d")
	return wDec(n)
}

//govc:model fmt.Errorf
func mErrorf(f string, a ...any) error {
	e := vFreshErr()
	vAssume(e != nil)
	return e
}

// ---- the store ----

// the key of the key's bucket
//
//govc:uf
func wBk(prefix string, h int) string { return "" }

// the key of the number of buckets
//
//govc:uf
func wNk(prefix string) string { return "" }

// the bits of the key's bucket
func wMine() *bloom.BloomFilter {
	b := vGet[*BloomFilter]("bf.self")
	return b.buckets[wBucket(b.numOfBuckets)].filter
}

func wKey(key []byte) (bucket, count bool) {
	b := vGet[*BloomFilter]("bf.self")
	p := vGet[string]("bf.prefix")
	return string(key) == wBk(p, wBucket(b.numOfBuckets)), string(key) == wNk(p)
}

//govc:contract bond/bloom.buildKey
//govc:props C14
func cBuildKey(buff []byte, keyPrefix []byte, bucketNo int) []byte {
	b := vGet[*BloomFilter]("bf.self")
	p := vGet[string]("bf.prefix")
	vRequires("the prefix of the filter", string(keyPrefix) == p)
	vRequires("an empty buffer somewhere else", len(buff) == 0 && vArr(buff) != vArr(keyPrefix))
	h := wBucket(b.numOfBuckets)
	if !vUse() {
		vAssume(wBk(p, bucketNo) == p+wDec(bucketNo))
		vAssume(vArr(keyPrefix) < vEntryWM())
	}
	vModSlice(keyPrefix)
	r := vBody1[[]byte]()
	vEnsures("the bucket's own key", string(r) == wBk(p, bucketNo))
	// decimal numbers are different for different numbers, and none is "bn"
	vAssume((wBk(p, bucketNo) == wBk(p, h)) == (bucketNo == h) && wBk(p, bucketNo) != wNk(p))
	vEnsures("the prefix stays", string(keyPrefix) == p)
	vEnsures("not in the prefix", vArr(r) != vArr(keyPrefix))
	return r
}

//govc:contract bond/bloom.buildBucketNumKey
//govc:props C14
func cBuildBucketNumKey(buff []byte, keyPrefix []byte) []byte {
	b := vGet[*BloomFilter]("bf.self")
	p := vGet[string]("bf.prefix")
	vRequires("the prefix of the filter", string(keyPrefix) == p)
	vRequires("an empty buffer somewhere else", len(buff) == 0 && vArr(buff) != vArr(keyPrefix))
	h := wBucket(b.numOfBuckets)
	if !vUse() {
		vAssume(wNk(p) == p+"bn")
		vAssume(vArr(keyPrefix) < vEntryWM())
	}
	vModSlice(keyPrefix)
	r := vBody1[[]byte]()
	vEnsures("the key of the number of buckets", string(r) == wNk(p))
	vAssume(wBk(p, h) != wNk(p))
	vEnsures("the prefix stays", string(keyPrefix) == p)
	vEnsures("not in the prefix", vArr(r) != vArr(keyPrefix))
	return r
}

//govc:model (bond.Getter).Get
func mStoreGet(g bond.Getter, key []byte, _ ...bond.Batch) (data []byte, closer io.Closer, err error) {
	bucket, count := wKey(key)
	e := vAny[error]()
	vAssume(vImp(bucket && !vGet[bool]("st.has") || count && !vGet[bool]("st.bn"), e != nil))
	if e != nil {
		return nil, nil, e
	}
	v := vAny[string]()
	vAssume(vImp(bucket, v == vGet[string]("st.val")))
	vAssume(vImp(count, v == vGet[string]("st.bnval")))
	c := vNew[io.Closer]()
	vObjSet("cl.open", c, true)
	vSet("s.open", vGet[int]("s.open")+1)
	return vBytesOf(v), c, nil
}

//govc:model (io.Closer).Close
func mCloserClose(c io.Closer) error {
	vAssert("value released twice", vObjGet[bool]("cl.open", c))
	vObjSet("cl.open", c, false)
	vSet("s.open", vGet[int]("s.open")-1)
	return vAny[error]()
}

//govc:model (bond.Setter).Set
func mStoreSet(g bond.Setter, key, value []byte, opt bond.WriteOptions, _ ...bond.Batch) error {
	vAssert("saved with sync", opt.Sync)
	bucket, count := wKey(key)
	e := vAny[error]()
	done := e == nil
	vSet("st.has", vGet[bool]("st.has") || bucket && done)
	vSet("st.val", vIte(bucket && done, string(value), vGet[string]("st.val")))
	f := wMine()
	vObjSet("bf.sub", f, vIte(bucket && done, string(value) == vGet[string]("enc.val") && vGet[int]("enc.of") == vRef(f), vObjGet[bool]("bf.sub", f)))
	vSet("st.bn", vGet[bool]("st.bn") || count && done)
	vSet("st.bnval", vIte(count && done, string(value), vGet[string]("st.bnval")))
	return e
}

//govc:model (bond.DeleterWithRange).DeleteRange
func mStoreDeleteRange(g bond.DeleterWithRange, start, end []byte, opt bond.WriteOptions, _ ...bond.Batch) error {
	e := vAny[error]()
	p := vGet[string]("bf.prefix")
	n := len(p)
	all := e == nil && string(start) == p && len(end) == n && string(end[:n-1]) == p[:n-1] && end[n-1] == p[n-1]+1 && p[n-1] < 255
	vSet("st.has", vGet[bool]("st.has") && !all && (e != nil || vAny[bool]()))
	vSet("st.bn", vGet[bool]("st.bn") && !all && (e != nil || vAny[bool]()))
	f := wMine()
	vObjSet("bf.sub", f, vObjGet[bool]("bf.sub", f) && e != nil)
	return e
}

// ---- contracts ----

func wInv(b *BloomFilter) bool {
	return b.numOfBuckets >= 1 && b.numOfBuckets < 2147483648 && len(b.buckets) == b.numOfBuckets &&
		vForall(func(i int) bool {
			return vImp(i >= 0 && i < len(b.buckets), b.buckets[i] != nil && b.buckets[i].filter != nil && b.buckets[i].num == i)
		})
}

func wApart(b *BloomFilter) bool {
	return vForall2(func(i, j int) bool {
		return vImp(i >= 0 && i < len(b.buckets) && j >= 0 && j < len(b.buckets) && i != j, !vSameRef(b.buckets[i], b.buckets[j]) && !vSameRef(b.buckets[i].filter, b.buckets[j].filter))
	})
}

// the key's bucket needs no saving only if its bits are saved
func wClean(b *BloomFilter) bool {
	k := b.buckets[wBucket(b.numOfBuckets)]
	return vImp(k.hasBeenWritten && !k.hasChanges, vObjGet[bool]("bf.sub", k.filter))
}

// bits which are not those saved count as changes
func wChanged(b *BloomFilter) bool {
	k := b.buckets[wBucket(b.numOfBuckets)]
	return k.hasChanges || vObjGet[bool]("bf.sub", k.filter)
}

// saved bits include the key's
func wSaved(b *BloomFilter) bool {
	k := b.buckets[wBucket(b.numOfBuckets)]
	return vImp(vObjGet[bool]("bf.sub", k.filter) && vObjGet[bool]("bf.has", k.filter), vGet[bool]("st.has") && wHas(vGet[string]("st.val")))
}

func wFilter(b *BloomFilter) {
	vRequires("a filter", b != nil && wInv(b))
	vRequires("with buckets of its own", wApart(b))
	vRequires("it is the filter at hand", vSameRef(vGet[*BloomFilter]("bf.self"), b) && vGet[string]("bf.prefix") == string(b.keyPrefix))
	h := wBucket(b.numOfBuckets)
	vAssume(h >= 0 && h < b.numOfBuckets)
	vRequires("what is saved is known", wClean(b) && wSaved(b))
	vRequires("memory which exists", vArr(b.keyPrefix) < vEntryWM())
	vRequires("lock free on entry", vLockState(&b.mutex) == 0)
	vLockDiscipline()
}

func wOf(b *BloomFilter) bool {
	return vObjGet[bool]("bf.has", b.buckets[wBucket(b.numOfBuckets)].filter)
}

//govc:contract (*bond/bloom.BloomFilter).hash
//govc:props C14
func cHash(b *BloomFilter, key []byte) int {
	vRequires("a filter", b != nil && b.numOfBuckets >= 1 && b.numOfBuckets < 2147483648)
	vModGhost("h.val")
	n, k := b.numOfBuckets, string(key)
	r := vBody1[int]()
	vEnsures("the bucket depends on the key and the number of buckets only", r == int(wJump(wSum(k), int32(n))))
	vEnsures("there is such a bucket", r >= 0 && r < n)
	return r
}

//govc:contract (*bond/bloom.BloomFilter).Add
//govc:props C14
func cAdd(b *BloomFilter, ctx context.Context, key []byte) {
	wFilter(b)
	vModGhost("h.val")
	vModGhost("bf.has")
	vModGhost("bf.sub")
	vModMem("H:bond/bloom._bucket#.hasChanges")
	was := wOf(b)
	vBody()
	vEnsures("the key added is there", vImp(string(key) == wK(), wOf(b)))
	vEnsures("other keys stay", vImp(was, wOf(b)))
	vEnsures("what is saved is known", wClean(b))
	vEnsures("what is saved includes the key", wSaved(b))
	vEnsures("lock released", vLockState(&b.mutex) == 0)
}

//govc:contract (*bond/bloom.BloomFilter).MayContain
//govc:props C14
func cMayContain(b *BloomFilter, ctx context.Context, key []byte) bool {
	wFilter(b)
	vModGhost("h.val")
	r := vBody1[bool]()
	vEnsures("a key which is there is found", vImp(string(key) == wK() && wOf(b), r))
	vEnsures("lock released", vLockState(&b.mutex) == 0)
	return r
}

//govc:contract (*bond/bloom.BloomFilter).Load
//govc:props C14
func cLoad(b *BloomFilter, ctx context.Context, store bond.FilterStorer) error {
	wFilter(b)
	vRequires("a store", store != nil)
	vRequires("bits which are not those of the store count as changes", wChanged(b))
	vModGhost("bf.has")
	vModGhost("bf.sub")
	vModGhost("z.src")
	vModGhost("bb.val")
	vModGhost("cl.open")
	vModGhost("s.open")
	vModMem("H:bond/bloom._bucket#.hasBeenWritten")
	vForget("M:byte")
	was, open, n := wOf(b), vGet[int]("s.open"), b.numOfBuckets
	h := wBucket(n)
	vInv("prefix kept", func() bool { return string(b.keyPrefix) == vGet[string]("bf.prefix") })
	vInv("no key is lost so far", func() bool { return vImp(was, wOf(b)) })
	vInv("loaded so far", func(i int) bool {
		return vImp(i > h, vGet[bool]("st.has") && vImp(wHas(vGet[string]("st.val")), wOf(b)))
	})
	vInv("values released so far", func() bool { return vGet[int]("s.open") == open })
	vInv("changes are known so far", func() bool { return wChanged(b) })
	vInv("what is saved includes the key so far", func() bool { return wSaved(b) })
	r := vBody1[error]()
	vEnsures("what is saved is known", wClean(b))
	vEnsures("what is saved includes the key", wSaved(b))
	vEnsures("no key is lost", vImp(was, wOf(b)))
	vEnsures("only a complete filter is loaded", vImp(r == nil, vGet[bool]("st.has")))
	vEnsures("a saved key is there", vImp(r == nil && vGet[bool]("st.has") && wHas(vGet[string]("st.val")), wOf(b)))
	vEnsures("only a filter of as many buckets is loaded", vImp(r == nil, vGet[bool]("st.bn") && len(vGet[string]("st.bnval")) == 8 && binary.BigEndian.Uint64([]byte(vGet[string]("st.bnval"))) == uint64(n)))
	vEnsures("values read are released", vGet[int]("s.open") == open)
	vEnsures("lock released", vLockState(&b.mutex) == 0)
	return r
}

//govc:contract (*bond/bloom.BloomFilter).Save
//govc:props C14
func cSave(b *BloomFilter, ctx context.Context, store bond.FilterStorer) error {
	wFilter(b)
	vRequires("a store", store != nil)
	vModGhost("bb.val")
	vModGhost("z.has")
	vModGhost("z.dst")
	vModGhost("z.of")
	vModGhost("enc.val")
	vModGhost("enc.of")
	vModGhost("bf.sub")
	vModGhost("st.has")
	vModGhost("st.val")
	vModGhost("st.bn")
	vModGhost("st.bnval")
	vModMem("H:bond/bloom._bucket#.hasBeenWritten")
	vModMem("H:bond/bloom._bucket#.hasChanges")
	vForget("M:byte")
	was, n := wOf(b), b.numOfBuckets
	has0, val0 := vGet[bool]("st.has"), vGet[string]("st.val")
	h := wBucket(n)
	vInv("prefix kept", func() bool { return string(b.keyPrefix) == vGet[string]("bf.prefix") })
	vInv("saved so far", func(i int) bool {
		return vImp(i > h && was, vGet[bool]("st.has") && wHas(vGet[string]("st.val")))
	})
	vInv("saved keys stay saved so far", func() bool {
		return vImp(has0 && wHas(val0) && was, vGet[bool]("st.has") && wHas(vGet[string]("st.val")))
	})
	vInv("the number of buckets is saved", func() bool {
		return vGet[bool]("st.bn") && vGet[string]("st.bnval") == vBe64(uint64(n))
	})
	vInv("what is saved is known so far", func() bool { return wClean(b) })
	vInv("what is saved includes the key so far", func() bool { return wSaved(b) })
	r := vBody1[error]()
	vEnsures("every key is saved", vImp(r == nil && was, vGet[bool]("st.has") && wHas(vGet[string]("st.val"))))
	vEnsures("saved keys stay saved", vImp(has0 && wHas(val0) && was, vGet[bool]("st.has") && wHas(vGet[string]("st.val"))))
	vEnsures("the number of buckets is saved", vImp(r == nil, vGet[bool]("st.bn") && vGet[string]("st.bnval") == vBe64(uint64(n))))
	vEnsures("what is saved is known", wClean(b))
	vEnsures("what is saved includes the key", wSaved(b))
	vEnsures("lock released", vLockState(&b.mutex) == 0)
	return r
}

//govc:contract (*bond/bloom.BloomFilter).Clear
//govc:props C14
func cClear(b *BloomFilter, ctx context.Context, store bond.FilterStorer) error {
	wFilter(b)
	vRequires("a store", store != nil)
	vRequires("a prefix with a successor of its length", len(b.keyPrefix) > 0 && b.keyPrefix[len(b.keyPrefix)-1] < 255)
	vModGhost("st.has")
	vModGhost("st.bn")
	vModGhost("bf.sub")
	vModMem("H:bond/bloom._bucket#.hasBeenWritten")
	h := wBucket(b.numOfBuckets)
	vInv("to be saved again", func(i int) bool { return vImp(i > h, !b.buckets[h].hasBeenWritten) })
	vInv("what is saved is known so far", func() bool { return wClean(b) })
	vInv("what is saved includes the key so far", func() bool { return wSaved(b) })
	r := vBody1[error]()
	vEnsures("nothing saved is left", vImp(r == nil, !vGet[bool]("st.has") && !vGet[bool]("st.bn")))
	vEnsures("what is saved is known", wClean(b))
	vEnsures("what is saved includes the key", wSaved(b))
	vEnsures("lock released", vLockState(&b.mutex) == 0)
	return r
}
