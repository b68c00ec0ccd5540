package bond

import "context"

// The key filter as the rest of the database sees it, for one key, which may be
// any key.
//
//   fl.has     the filter answers that the key may be there
//   fl.sound   the stored filter, if it loads, has every key of the data
//   sc.has     the key is a row of the scanner
//   f.adds, f.rows   keys added to the filter, rows written

//govc:model (bond.Filter).Load
func mfLoad(f Filter, ctx context.Context, store FilterStorer) error {
	e := vAny[error]()
	has := vAny[bool]()
	vAssume(vImp(vObjGet[bool]("fl.has", f), has))
	vObjSet("fl.has", f, has)
	vSet("fl.loaded", vGet[bool]("fl.loaded") || e == nil)
	return e
}

//govc:model (bond.Filter).Clear
func mfClear(f Filter, ctx context.Context, store FilterStorer) error {
	e := vAny[error]()
	vSet("fl.cleared", vGet[bool]("fl.cleared") || e == nil)
	return e
}

//govc:model (bond.Filter).Save
func mfSave(f Filter, ctx context.Context, store FilterStorer) error {
	vSet("fl.saves", vGet[int]("fl.saves")+1)
	return vAny[error]()
}

// a scan which succeeds has handed over every row, unless its callback stopped
// it (C12)
//
//govc:model (bond.TableScanner).ScanForEach
func mfScanForEach(s TableScanner[any], ctx context.Context, f func(KeyBytes, Lazy[any]) (bool, error), reverse bool, optBatch ...Batch) error {
	cont, err := f(vFresh[[]byte](), Lazy[any]{})
	if vObjGet[bool]("sc.has", s) && cont && err == nil {
		cont, err = f(vBytesOf(fK()), Lazy[any]{})
	}
	e := vAny[error]()
	vAssume(vImp(err != nil, e != nil))
	return e
}

//govc:model fmt.Errorf
func mfErrorf(f string, a ...any) error {
	e := vFreshErr()
	vAssume(e != nil)
	return e
}

func fScanners(ss []TableScanner[any]) bool {
	return vForall(func(i int) bool { return vImp(i >= 0 && i < len(ss), ss[i] != nil) })
}

func fModFilter() {
	vModGhost("fl.has")
	vModGhost("fl.loaded")
	vModGhost("fl.cleared")
	vModGhost("f.adds")
}

//govc:contract bond.FilterInitialize
//govc:props C14
func cFilterInitialize(ctx context.Context, filter Filter, filterStorer FilterStorer, scanners []TableScanner[any]) error {
	vRequires("a filter and scanners", filter != nil && ctx != nil && fScanners(scanners))
	vRequires("nothing loaded yet", !vGet[bool]("fl.loaded") && !vGet[bool]("fl.cleared"))
	fModFilter()
	was := vObjGet[bool]("fl.has", filter)
	k := vSkolem[int]("k")
	vInv("rows so far", func(i int) bool {
		return vImp(k >= 0 && k < i && vObjGet[bool]("sc.has", scanners[k]), vObjGet[bool]("fl.has", filter))
	})
	vInv("no key is lost so far", func() bool { return vImp(was, vObjGet[bool]("fl.has", filter)) })
	vNoPanic()
	r := vBody1[error]()
	has := vObjGet[bool]("fl.has", filter)
	vEnsures("no key is lost", vImp(was, has))
	vEnsures("a filter which is not the stored one has the key of every row",
		vImp(r == nil && !vGet[bool]("fl.loaded") && k >= 0 && k < len(scanners) && vObjGet[bool]("sc.has", scanners[k]), has))
	vEnsures("a stored filter which is not used is removed", vImp(r == nil, vGet[bool]("fl.loaded") || vGet[bool]("fl.cleared")))
	return r
}

//govc:contract (*bond.FilterInitializable).MayContain
//govc:props C14
func cInitMayContain(f *FilterInitializable, ctx context.Context, key []byte) bool {
	vRequires("a filter", f != nil && f.Filter != nil)
	vNoPanic()
	r := vBody1[bool]()
	vEnsures("hides nothing before it is initialised", vImp(f.isInitialized != 1, r))
	vEnsures("hides no key which is there", vImp(string(key) == fK() && vObjGet[bool]("fl.has", f.Filter), r))
	return r
}

//govc:contract (*bond.FilterInitializable).Initialize
//govc:props C14
func cInitInitialize(f *FilterInitializable, ctx context.Context, filterStorer FilterStorer, scanners []TableScanner[any]) error {
	vRequires("a filter and scanners", f != nil && f.Filter != nil && ctx != nil && fScanners(scanners))
	vRequires("nothing loaded yet", !vGet[bool]("fl.loaded") && !vGet[bool]("fl.cleared"))
	fModFilter()
	vModObj(&f.isInitialized)
	k := vSkolem[int]("k")
	was := f.isInitialized
	vNoPanic()
	r := vBody1[error]()
	vEnsures("in use only once it is complete", vImp(r != nil, f.isInitialized == was))
	vEnsures("in use once it is complete", vImp(r == nil, f.isInitialized == 1))
	vEnsures("a filter which is not the stored one has the key of every row",
		vImp(r == nil && !vGet[bool]("fl.loaded") && k >= 0 && k < len(scanners) && vObjGet[bool]("sc.has", scanners[k]), vObjGet[bool]("fl.has", f.Filter)))
	return r
}

//govc:contract (*bond.FilterInitializable).Save
//govc:props C14
func cInitSave(f *FilterInitializable, ctx context.Context, store FilterStorer) error {
	vRequires("a filter", f != nil && f.Filter != nil)
	vModGhost("fl.saves")
	saves := vGet[int]("fl.saves")
	vNoPanic()
	r := vBody1[error]()
	vEnsures("an incomplete filter is not saved", vImp(f.isInitialized != 1, r != nil && vGet[int]("fl.saves") == saves))
	vEnsures("a complete filter is saved", vImp(r == nil, vGet[int]("fl.saves") == saves+1))
	return r
}

// ---- rows written ----

func fCounts() int { return vGet[int]("f.adds") + vGet[int]("f.known") - vGet[int]("f.rows") }

func fWrite[T any](t *_table[T], ctx context.Context, optBatch []Batch) int {
	lBegin(t, ctx, optBatch)
	vModGhost("fl.has")
	vModGhost("f.known")
	d := fCounts()
	vInv("keys added so far", func() bool { return vImp(t.filter != nil, fCounts() >= d) })
	return d
}

//govc:contract (*bond._table).Insert
//govc:props C14
func fInsert[T any](t *_table[T], ctx context.Context, trs []T, optBatch ...Batch) error {
	vRequires("a context", ctx != nil)
	d := fWrite(t, ctx, optBatch)
	r := vBody1[error]()
	vEnsures("a key is added for every row written", vImp(t.filter != nil && r == nil, fCounts() >= d))
	return r
}

//govc:contract (*bond._table).UnsafeInsert
//govc:props C14
func fUnsafeInsert[T any](t *_table[T], ctx context.Context, trs []T, optBatch ...Batch) error {
	vRequires("a context", ctx != nil)
	d := fWrite(t, ctx, optBatch)
	r := vBody1[error]()
	vEnsures("a key is added for every row written", vImp(t.filter != nil && r == nil, fCounts() >= d))
	return r
}

//govc:contract (*bond._table).Upsert
//govc:props C14
func fUpsert[T any](t *_table[T], ctx context.Context, trs []T, onConflict func(old, new T) T, optBatch ...Batch) error {
	vRequires("a context", ctx != nil)
	vRequires("a conflict function", onConflict != nil)
	d := fWrite(t, ctx, optBatch)
	r := vBody1[error]()
	vEnsures("a key is added for every row written which was not there", vImp(t.filter != nil && r == nil, fCounts() >= d))
	return r
}

//govc:model sync/atomic.LoadUint64
func mfLoadUint64(p *uint64) uint64 { return *p }

//govc:model sync/atomic.StoreUint64
func mfStoreUint64(p *uint64, v uint64) { *p = v }
