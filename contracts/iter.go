package bond

// Storage iterators. A source (database or batch) and a pair of bounds select a
// finite sequence of keys; an iterator is a position in it, from -1 (before the
// first) to its length (after the last). Every movement may fail; a failure
// sticks until the iterator is closed.

//govc:uf
func sLen(src Iterationer, lo, up string) int { return 0 }

func sRangeLen(src Iterationer, o *IterOptions) int {
	return sLen(src, string(o.LowerBound), string(o.UpperBound))
}

//govc:model (bond.Iterationer).Iter
func mIter(c Iterationer, opt *IterOptions, batch ...Batch) Iterator {
	r := vNew[Iterator]()
	lo, up := string(opt.LowerBound), string(opt.UpperBound)
	vAssume(sLen(c, lo, up) >= 0)
	vObjSet("it.src", r, c)
	vObjSet("it.lo", r, lo)
	vObjSet("it.up", r, up)
	vObjSet("it.n", r, sLen(c, lo, up))
	vObjSet("it.pos", r, -1)
	vObjSet("it.open", r, true)
	vObjSet[error]("it.err", r, nil)
	vSet("it.opened", vGet[int]("it.opened")+1)
	return r
}

func itStep(it Iterator, pos int) bool {
	vAssert("iterator used after it was closed", vObjGet[bool]("it.open", it))
	n := vObjGet[int]("it.n", it)
	e := vAny[error]()
	old := vObjGet[error]("it.err", it)
	failed := old != nil || e != nil
	vObjSet("it.err", it, vIte(old != nil, old, e))
	pos = vIte(pos < -1, -1, vIte(pos > n, n, pos))
	vObjSet("it.pos", it, vIte(failed, vObjGet[int]("it.pos", it), pos))
	return !failed && pos >= 0 && pos < n
}

//govc:model (bond.Iterator).First
func mItFirst(it Iterator) bool { return itStep(it, 0) }

//govc:model (bond.Iterator).Last
func mItLast(it Iterator) bool { return itStep(it, vObjGet[int]("it.n", it)-1) }

//govc:model (bond.Iterator).Next
func mItNext(it Iterator) bool { return itStep(it, vObjGet[int]("it.pos", it)+1) }

//govc:model (bond.Iterator).Prev
func mItPrev(it Iterator) bool { return itStep(it, vObjGet[int]("it.pos", it)-1) }

//govc:model (bond.Iterator).Valid
func mItValid(it Iterator) bool {
	vAssert("iterator used after it was closed", vObjGet[bool]("it.open", it))
	p := vObjGet[int]("it.pos", it)
	return vObjGet[error]("it.err", it) == nil && p >= 0 && p < vObjGet[int]("it.n", it)
}

//govc:model (bond.Iterator).Error
func mItError(it Iterator) error { return vObjGet[error]("it.err", it) }

//govc:model (bond.Iterator).Close
func mItClose(it Iterator) error {
	vAssert("iterator closed twice", vObjGet[bool]("it.open", it))
	vObjSet("it.open", it, false)
	vSet("it.closed", vGet[int]("it.closed")+1)
	e := vAny[error]()
	vObjSet("it.closeerr", it, e)
	return e
}

//govc:model func()
func mFunc0(f func()) {
	vObjSet("f0.calls", f, vObjGet[int]("f0.calls", f)+1)
}

func modIters() {
	vModGhost("it.src")
	vModGhost("it.lo")
	vModGhost("it.up")
	vModGhost("it.n")
	vModGhost("it.pos")
	vModGhost("it.open")
	vModGhost("it.err")
	vModGhost("it.closeerr")
	vModGhost("it.opened")
	vModGhost("it.closed")
}

func sLive() int { return vGet[int]("it.opened") - vGet[int]("it.closed") }

// number of keys in the k-th range
func sN(it *_iteratorMulti, k int) int {
	return sRangeLen(it.iteratorConstuctor, it.iteratorOptions[k])
}

// ranges a < k < b are empty
func sEmptyBetween(it *_iteratorMulti, a, b int) bool {
	return vForall(func(k int) bool { return vImp(k > a && k < b && k >= 0 && k < len(it.iteratorOptions), sN(it, k) == 0) })
}

// the current child is an open iterator over the range of the current index
func sChild(it *_iteratorMulti) bool {
	c, i := it.iterator, it.iteratorOptionsIndex
	return c != nil && i >= 0 && i < len(it.iteratorOptions) &&
		vObjGet[bool]("it.open", c) &&
		vObjGet[int]("it.n", c) == sN(it, i) && sN(it, i) >= 0
}

func sPos(it *_iteratorMulti) int   { return vObjGet[int]("it.pos", it.iterator) }
func sErr(it *_iteratorMulti) error { return vObjGet[error]("it.err", it.iterator) }

func sMulti(it *_iteratorMulti) bool {
	return it != nil && it.iteratorConstuctor != nil &&
		vForall(func(k int) bool {
			return vImp(k >= 0 && k < len(it.iteratorOptions), it.iteratorOptions[k] != nil && sN(it, k) >= 0)
		})
}

//govc:contract bond.newIteratorMulti
//govc:props C10
func cNewIteratorMulti(itc Iterationer, opts []*IterOptions) *_iteratorMulti {
	vRequires("a source", itc != nil)
	vRequires("options given", vForall(func(k int) bool { return vImp(k >= 0 && k < len(opts), opts[k] != nil) }))
	modIters()
	live := sLive()
	vNoPanic()
	r := vBody1[*_iteratorMulti]()
	vEnsures("over the given ranges", r != nil && len(r.iteratorOptions) == len(opts) && vArr(r.iteratorOptions) == vArr(opts) && vOff(r.iteratorOptions) == vOff(opts) && vEq(r.iteratorConstuctor, itc))
	if len(opts) > 0 {
		vEnsures("starts with the first range", sChild(r) && r.iteratorOptionsIndex == 0 && sLive() == live+1)
	} else {
		vEnsures("nothing is opened when there are no ranges", sLive() == live && r.iterator != nil)
	}
	return r
}

//govc:contract (*bond._iteratorMulti).First
//govc:props C10
func cMultiFirst(it *_iteratorMulti) bool {
	vRequires("well-formed", sMulti(it) && sChild(it))
	modIters()
	vModObj(it)
	live, src := sLive(), it.iteratorConstuctor
	opts := it.iteratorOptions
	vInv("child", func() bool { return sChild(it) && sLive() == live })
	vInv("ranges before are empty", func(i int) bool { return i >= 0 && sEmptyBetween(it, -1, i) })
	vInv("same ranges", func() bool { return vEq(it.iteratorOptions, opts) && vEq(it.iteratorConstuctor, src) })
	vNoPanic()
	r := vBody1[bool]()
	vEnsures("stays well-formed", sChild(it) && vEq(it.iteratorOptions, opts) && vEq(it.iteratorConstuctor, src))
	vEnsures("at the first key of a range", vImp(r, sErr(it) == nil && sPos(it) == 0 && sN(it, it.iteratorOptionsIndex) > 0))
	vEnsures("and no range before it has a key", vImp(r, sEmptyBetween(it, -1, it.iteratorOptionsIndex)))
	vEnsures("false means no keys or a failure", vImp(!r && sErr(it) == nil, sEmptyBetween(it, -1, len(opts))))
	vEnsures("one iterator stays open", sLive() == live)
	return r
}

//govc:contract (*bond._iteratorMulti).Last
//govc:props C10
func cMultiLast(it *_iteratorMulti) bool {
	vRequires("well-formed", sMulti(it) && sChild(it))
	modIters()
	vModObj(it)
	live, src := sLive(), it.iteratorConstuctor
	opts := it.iteratorOptions
	vInv("child", func() bool { return sChild(it) && sLive() == live })
	vInv("ranges after are empty", func(i int) bool { return i >= -1 && i < len(opts) && sEmptyBetween(it, i, len(opts)) })
	vInv("ranges after are empty (counting up)", func(i int) bool { return i >= 0 && i <= len(opts) && sEmptyBetween(it, len(opts)-1-i, len(opts)) })
	vInv("same ranges", func() bool { return vEq(it.iteratorOptions, opts) && vEq(it.iteratorConstuctor, src) })
	vNoPanic()
	r := vBody1[bool]()
	vEnsures("stays well-formed", sChild(it) && vEq(it.iteratorOptions, opts) && vEq(it.iteratorConstuctor, src))
	vEnsures("at the last key of a range", vImp(r, sErr(it) == nil && sPos(it) == sN(it, it.iteratorOptionsIndex)-1 && sN(it, it.iteratorOptionsIndex) > 0))
	vEnsures("and no range after it has a key", vImp(r, sEmptyBetween(it, it.iteratorOptionsIndex, len(opts))))
	vEnsures("false means no keys or a failure", vImp(!r && sErr(it) == nil, sEmptyBetween(it, -1, len(opts))))
	vEnsures("one iterator stays open", sLive() == live)
	return r
}

//govc:contract (*bond._iteratorMulti).Next
//govc:props C10
func cMultiNext(it *_iteratorMulti) bool {
	vRequires("well-formed", sMulti(it) && sChild(it))
	i0, p0 := it.iteratorOptionsIndex, sPos(it)
	n0 := sN(it, i0)
	vRequires("positioned", p0 >= 0 && p0 <= n0)
	modIters()
	vModObj(it)
	live, src := sLive(), it.iteratorConstuctor
	opts := it.iteratorOptions
	vInv("child", func() bool { return sChild(it) && sLive() == live })
	vInv("forward", func() bool { return it.iteratorOptionsIndex >= i0 })
	vInv("not moved within the first range", func() bool { return vImp(it.iteratorOptionsIndex == i0, sPos(it) == p0) })
	vInv("first range exhausted", func() bool { return vImp(it.iteratorOptionsIndex > i0, p0+1 >= n0) })
	vInv("ranges passed are empty", func() bool { return sEmptyBetween(it, i0, it.iteratorOptionsIndex) })
	vInv("this range is empty", func() bool {
		return vImp(it.iteratorOptionsIndex > i0, sErr(it) != nil || sN(it, it.iteratorOptionsIndex) == 0)
	})
	vInv("same ranges", func() bool { return vEq(it.iteratorOptions, opts) && vEq(it.iteratorConstuctor, src) })
	vNoPanic()
	r := vBody1[bool]()
	i := it.iteratorOptionsIndex
	vEnsures("stays well-formed", sChild(it) && vEq(it.iteratorOptions, opts) && vEq(it.iteratorConstuctor, src))
	vEnsures("true means at a key, not behind", vImp(r, sErr(it) == nil && i >= i0))
	vEnsures("the next key of the same range", vImp(r && i == i0, sPos(it) == p0+1 && p0+1 < n0))
	vEnsures("or the first key of a later range, the first being exhausted", vImp(r && i > i0, p0+1 >= n0 && sPos(it) == 0 && sN(it, i) > 0))
	vEnsures("with no key in the ranges between", vImp(r, sEmptyBetween(it, i0, i)))
	vEnsures("false means the range is exhausted or a failure", vImp(!r && sErr(it) == nil, p0+1 >= n0))
	vEnsures("false means no later key or a failure", vImp(!r && sErr(it) == nil, sEmptyBetween(it, i0, len(opts))))
	vEnsures("one iterator stays open", sLive() == live)
	return r
}

//govc:contract (*bond._iteratorMulti).Prev
//govc:props C10
func cMultiPrev(it *_iteratorMulti) bool {
	vRequires("well-formed", sMulti(it) && sChild(it))
	i0, p0 := it.iteratorOptionsIndex, sPos(it)
	n0 := sN(it, i0)
	vRequires("positioned", p0 >= -1 && p0 < n0)
	modIters()
	vModObj(it)
	live, src := sLive(), it.iteratorConstuctor
	opts := it.iteratorOptions
	vInv("child", func() bool { return sChild(it) && sLive() == live })
	vInv("backward", func() bool { return it.iteratorOptionsIndex <= i0 })
	vInv("not moved within the first range", func() bool { return vImp(it.iteratorOptionsIndex == i0, sPos(it) == p0) })
	vInv("first range exhausted", func() bool { return vImp(it.iteratorOptionsIndex < i0, p0 <= 0) })
	vInv("ranges passed are empty", func() bool { return sEmptyBetween(it, it.iteratorOptionsIndex, i0) })
	vInv("this range is empty", func() bool {
		return vImp(it.iteratorOptionsIndex < i0, sErr(it) != nil || sN(it, it.iteratorOptionsIndex) == 0)
	})
	vInv("same ranges", func() bool { return vEq(it.iteratorOptions, opts) && vEq(it.iteratorConstuctor, src) })
	vNoPanic()
	r := vBody1[bool]()
	i := it.iteratorOptionsIndex
	vEnsures("stays well-formed", sChild(it) && vEq(it.iteratorOptions, opts) && vEq(it.iteratorConstuctor, src))
	vEnsures("true means at a key, not ahead", vImp(r, sErr(it) == nil && i <= i0))
	vEnsures("the previous key of the same range", vImp(r && i == i0, sPos(it) == p0-1 && p0 >= 1))
	vEnsures("or the last key of an earlier range, the first being exhausted", vImp(r && i < i0, p0 <= 0 && sPos(it) == sN(it, i)-1 && sN(it, i) > 0))
	vEnsures("with no key in the ranges between", vImp(r, sEmptyBetween(it, i, i0)))
	vEnsures("false means the range is exhausted or a failure", vImp(!r && sErr(it) == nil, p0 <= 0))
	vEnsures("false means no earlier key or a failure", vImp(!r && sErr(it) == nil, sEmptyBetween(it, -1, i0)))
	vEnsures("one iterator stays open", sLive() == live)
	return r
}

//govc:contract (*bond._iteratorMulti).Valid
//govc:props C10
func cMultiValid(it *_iteratorMulti) bool {
	vRequires("well-formed", sMulti(it) && sChild(it))
	vNoPanic()
	r := vBody1[bool]()
	vEnsures("valid at a key", r == (sErr(it) == nil && sPos(it) >= 0 && sPos(it) < sN(it, it.iteratorOptionsIndex)))
	return r
}

//govc:contract (*bond._iteratorMulti).Error
//govc:props C10
func cMultiError(it *_iteratorMulti) error {
	vRequires("well-formed", sMulti(it) && sChild(it))
	vNoPanic()
	r := vBody1[error]()
	vEnsures("the failure of the current range", vEq(r, sErr(it)))
	return r
}

//govc:contract bond.childIteratorOptions
//govc:props C10
func cChildOptions(opt *IterOptions) *IterOptions {
	vRequires("options", opt != nil)
	vNoPanic()
	r := vBody1[*IterOptions]()
	vEnsures("a copy with the same bounds that releases nothing", r != nil && !vSameRef(r, opt) && vEq(r.LowerBound, opt.LowerBound) && vEq(r.UpperBound, opt.UpperBound) && r.releaseBufferOnClose == nil)
	vEnsures("the options are unchanged", true)
	return r
}

//govc:contract (*bond._iterator).Close
//govc:props C10
func cIterClose(it *_iterator) error {
	vRequires("open", it != nil && it.Iterator != nil && it.opts != nil && vObjGet[bool]("it.open", it.Iterator))
	f := it.opts.releaseBufferOnClose
	calls := vObjGet[int]("f0.calls", f)
	modIters()
	vModGhost("f0.calls")
	vModObj(it.opts)
	live, in := sLive(), it.Iterator
	vNoPanic()
	r := vBody1[error]()
	vEnsures("the iterator is closed", sLive() == live-1 && !vObjGet[bool]("it.open", in))
	vEnsures("a failure to close is reported", vEq(r, vObjGet[error]("it.closeerr", in)))
	vEnsures("the buffers are released once", vImp(f != nil, vObjGet[int]("f0.calls", f) == calls+1) && it.opts.releaseBufferOnClose == nil)
	return r
}

//govc:contract (*bond._iteratorMulti).Close
//govc:props C10
func cMultiClose(it *_iteratorMulti) error {
	vRequires("well-formed", sMulti(it) && it.iterator != nil && vObjGet[bool]("it.open", it.iterator))
	opts := it.iteratorOptions
	k0 := vSkolem[int]("k0")
	vAssume(k0 >= 0 && k0 < len(opts))
	f := opts[k0].releaseBufferOnClose
	vRequires("every range has options of its own", vForall(func(k int) bool {
		return vImp(k >= 0 && k < len(opts) && k != k0, !vSameRef(opts[k], opts[k0]))
	}))
	vRequires("every range releases buffers of its own", vForall(func(k int) bool {
		return vImp(k >= 0 && k < len(opts) && k != k0, f == nil || opts[k].releaseBufferOnClose == nil || !vSameRef(opts[k].releaseBufferOnClose, f))
	}))
	calls := vObjGet[int]("f0.calls", f)
	modIters()
	vModGhost("f0.calls")
	vModMem("H:bond.IterOptions#.releaseBufferOnClose")
	vInv("released so far@Close$1", func(i int) bool { return vImp(i > k0, opts[k0].releaseBufferOnClose == nil) })
	vInv("once@Close$1", func(i int) bool { return vImp(i > k0 && f != nil, vObjGet[int]("f0.calls", f) == calls+1) })
	vInv("not yet@Close$1", func(i int) bool { return vImp(i <= k0, vEq(opts[k0].releaseBufferOnClose, f)) })
	vInv("not called yet@Close$1", func(i int) bool { return vImp(i <= k0 && f != nil, vObjGet[int]("f0.calls", f) == calls) })
	vInv("others keep their own@Close$1", func() bool {
		return vForall(func(k int) bool {
			return vImp(k >= 0 && k < len(opts) && k != k0, f == nil || opts[k].releaseBufferOnClose == nil || !vSameRef(opts[k].releaseBufferOnClose, f))
		})
	})
	live, in := sLive(), it.iterator
	vNoPanic()
	r := vBody1[error]()
	vEnsures("the open iterator is closed", sLive() == live-1 && !vObjGet[bool]("it.open", in))
	vEnsures("a failure to close is reported", vEq(r, vObjGet[error]("it.closeerr", in)))
	vEnsures("the buffers of every range are released once", vImp(f != nil, vObjGet[int]("f0.calls", f) == calls+1) && opts[k0].releaseBufferOnClose == nil)
	return r
}
