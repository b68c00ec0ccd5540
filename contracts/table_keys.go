package bond

import "sort"

// Keys of the rows given to a table operation, and their order.

//govc:uf
func sKeyAt(tok *Key, j int) string { return "" }

//govc:uf
func sBufAt(tok *Key, j int) int { return 0 }

//govc:uf
func sPosOf(ord []int, j int) int { return 0 }

// the key of a row: opaque here, defined where key is verified
//
//govc:uf
func sRowDataKey[T any](t *_table[T], row T) string { return "" }

// sIsDK: the string is some row's key
//
//govc:uf
func sIsDK(s string) bool { return false }

//govc:contract (*bond._table).key
//govc:props C06 C07 C08 C09
func cTableKey[T any](t *_table[T], tr T, buff []byte) []byte {
	vRequires("a table", t != nil && t.primaryKeyFunc != nil)
	vModSlice(buff)
	vNoPanic()
	r := vBody1[[]byte]()
	if !vUse() {
		k := sDataKey(t.id, sPkF[T](t.primaryKeyFunc, tr))
		vAssume(sRowDataKey(t, tr) == k && sIsDK(k)) // their definitions
	}
	vEnsures("the row's key", string(r) == sRowDataKey(t, tr))
	vEnsures("in the buffer given, or a new one", vArr(r) == vArr(buff) || vArr(r) >= vEntryWM())
	return r
}

// what the contract of key says of the keys of all rows
func sKeysOfRows[T any](t *_table[T]) bool {
	return vForall(func(row T) bool { return sIsDK(sRowDataKey(t, row)) })
}

// every row key lies before the end of the table's data
func sKeysBelow[T any](t *_table[T], end string) bool {
	return vForall(func(row T) bool { return sRowDataKey(t, row) < end })
}

//govc:contract bond._KeyPrefixSplitIndex
//govc:props C06 C07 C08 C09
func cSplitDataKey(rawKey []byte) int {
	vRequires("a row's key", sIsDK(string(rawKey)))
	if !vUse() {
		vHold(rawKey, sDataKey(vAny[TableID](), vAny[string]())) // the definition of sIsDK
	}
	vNoPanic()
	r := vBody1[int]()
	vEnsures("at the primary key", r == 6 && len(rawKey) >= 10)
	return r
}

// buffers of their own
func sOwnBuffers(keys [][]byte) bool {
	return vForall2(func(a, b int) bool { return vImp(a >= 0 && a < b && b < len(keys), vArr(keys[a]) != vArr(keys[b])) })
}

// buffers which exist (a fact about all memory, spelled out for quantified use)
func sAllocated(keys [][]byte) bool {
	wm := vWM()
	return vForall(func(a int) bool { return vImp(a >= 0 && a < len(keys), vArr(keys[a]) < wm) })
}

// buffers allocated after w.kbw (when the array of key buffers was handed out)
func sKeyBuffers(keys [][]byte) bool {
	w := vGet[int]("w.kbw")
	return vForall(func(a int) bool { return vImp(a >= 0 && a < len(keys), vArr(keys[a]) >= w) })
}

func sSameBuffers(tok *Key, keys [][]byte, wm int) bool {
	return vForall(func(a int) bool {
		return vImp(a >= 0 && a < len(keys), vArr(keys[a]) == sBufAt(tok, a) || vArr(keys[a]) >= wm)
	})
}

//govc:contract (*bond._table).keysExternal
//govc:props C06 C07 C08 C09
func cKeysExternal[T any](t *_table[T], trs []T, keys [][]byte) [][]byte {
	vRequires("a table", t != nil && t.primaryKeyFunc != nil)
	vRequires("a buffer for each row", len(keys) >= len(trs))
	vRequires("buffers of their own", sOwnBuffers(keys))
	vRequires("buffers from the key array", sKeyBuffers(keys) && vGet[int]("w.kbw") <= vWM())
	vAssume(sAllocated(keys))
	btok := vNew[*Key]() // names the buffers as they are now
	vAssume(vForall(func(j int) bool { return vImp(j >= 0 && j < len(keys), sBufAt(btok, j) == vArr(keys[j])) }))
	wm := vWM()
	vModSlice(keys)
	vModGhost("w.trs")
	vModMemFrom("M:byte", vGet[int]("w.kbw"))
	vInv("allocated buffers", func() bool { return sAllocated(keys) })
	vInv("keys so far", func(i int) bool {
		return vForall(func(j int) bool { return vImp(j >= 0 && j < i, string(keys[j]) == sRowDataKey(t, trs[j])) })
	})
	vInv("buffers of their own", func() bool { return sOwnBuffers(keys) })
	vInv("buffers from the key array", func() bool { return sKeyBuffers(keys) })
	vInv("the same buffers or new ones", func() bool { return sSameBuffers(btok, keys, wm) })
	vNoPanic()
	r := vBody1[[][]byte]()
	vEnsures("buffers of their own", sOwnBuffers(keys))
	vEnsures("buffers from the key array", sKeyBuffers(keys))
	vEnsures("allocated buffers", sAllocated(keys))
	vEnsures("a key for each row", len(r) == len(trs) && vArr(r) == vArr(keys) && vOff(r) == vOff(keys))
	vEnsures("in buffers of their own", sOwnBuffers(r) && sKeyBuffers(r))
	vEnsures("the same buffers or new ones", sSameBuffers(btok, r, wm))
	vEnsures("of that row", vForall(func(j int) bool { return vImp(j >= 0 && j < len(trs), string(r[j]) == sRowDataKey(t, trs[j])) }))
	vSet("w.trs", trs)
	return r
}

//govc:contract bond/utils.ArrayN
//govc:props C06 C07 C08 C09
func cArrayN(n int) []int {
	vRequires("a length", n >= 0)
	vModGhost("w.ord")
	vInv("identity so far@ArrayN", func(i int, a []int) bool {
		return vForall(func(j int) bool { return vImp(j >= 0 && j < i && j < len(a), a[j] == j) })
	})
	vNoPanic()
	r := vBody1[[]int]()
	vEnsures("the numbers in order", len(r) == n && vForall(func(j int) bool { return vImp(j >= 0 && j < n, r[j] == j) }))
	vEnsures("a new slice", vArr(r) >= vEntryWM())
	vSet("w.ord", r)
	return r
}

// Sorting exchanges elements until no later element is less than an earlier one.
//
//govc:model sort.Sort
func mSort(data sort.Interface) {
	n := data.Len()
	for vAny[bool]() {
		i, j := vAny[int](), vAny[int]()
		vAssume(i >= 0 && i < n && j >= 0 && j < n)
		data.Swap(i, j)
	}
	vAssume(vForall2(func(a, b int) bool { return vImp(a >= 0 && a < b && b < n, !data.Less(b, a)) }))
}

func sInjective(ord []int) bool {
	return vForall2(func(a, b int) bool { return vImp(a >= 0 && a < b && b < len(ord), ord[a] != ord[b]) })
}

func sInRange(ord []int) bool {
	return vForall(func(a int) bool { return vImp(a >= 0 && a < len(ord), ord[a] >= 0 && ord[a] < len(ord)) })
}

// keys[a] is the key which was at ord[a]
func sOrdered(tok *Key, keys [][]byte, ord []int) bool {
	return vForall(func(a int) bool { return vImp(a >= 0 && a < len(keys), string(keys[a]) == sKeyAt(tok, ord[a])) })
}

// keys[a] is in the buffer which was at ord[a]
func sBuffersOrdered(tok *Key, keys [][]byte, ord []int) bool {
	return vForall(func(a int) bool { return vImp(a >= 0 && a < len(keys), vArr(keys[a]) == sBufAt(tok, ord[a])) })
}

//govc:contract (*bond._table).sortKeys
//govc:props C06 C07 C08 C09
func cSortKeys[T any](t *_table[T], keys [][]byte) []int {
	vRequires("a table", t != nil)
	vRequires("buffers of their own", sOwnBuffers(keys))
	vRequires("buffers from the key array", sKeyBuffers(keys))
	vModSlice(keys)
	vModGhost("w.ord")
	vModGhost("w.keys")
	vModGhost("w.tok")
	tok := vNew[*Key]() // names the keys as they are now
	vAssume(vForall(func(j int) bool { return vImp(j >= 0 && j < len(keys), sKeyAt(tok, j) == string(keys[j])) }))
	vAssume(vForall(func(j int) bool { return vImp(j >= 0 && j < len(keys), sBufAt(tok, j) == vArr(keys[j])) }))
	vInv("in their buffers@mSort", func() bool { return sBuffersOrdered(tok, keys, vGet[[]int]("w.ord")) })
	vInv("a permutation@mSort", func() bool {
		o := vGet[[]int]("w.ord")
		return len(o) == len(keys) && sInRange(o)
	})
	vInv("of distinct positions@mSort", func() bool { return sInjective(vGet[[]int]("w.ord")) })
	vInv("buffers of their own@mSort", func() bool { return sOwnBuffers(keys) })
	vInv("buffers from the key array@mSort", func() bool { return sKeyBuffers(keys) })
	vInv("of the keys@mSort", func() bool { return sOrdered(tok, keys, vGet[[]int]("w.ord")) })
	vNoPanic()
	r := vBody1[[]int]()
	vEnsures("a permutation", len(r) == len(keys) && sInRange(r))
	vEnsures("of distinct positions", sInjective(r))
	vEnsures("of the keys", sOrdered(tok, keys, r))
	vEnsures("in their buffers", sBuffersOrdered(tok, keys, r))
	vEnsures("sorted", vForall2(func(a, b int) bool {
		return vImp(a >= 0 && a < b && b < len(keys), !(string(keys[b]) < string(keys[a])))
	}))
	vEnsures("equal keys in input order", vForall2(func(a, b int) bool {
		return vImp(a >= 0 && a < b && b < len(keys) && string(keys[a]) == string(keys[b]), r[a] < r[b])
	}))
	vEnsures("a new slice", vArr(r) >= vEntryWM())
	vEnsures("buffers of their own", sOwnBuffers(keys))
	vEnsures("buffers from the key array", sKeyBuffers(keys))
	vSet("w.ord", r)
	vSet("w.keys", keys)
	tok2 := vNew[*Key]() // names the keys as they are now
	vAssume(vForall(func(a int) bool { return vImp(a >= 0 && a < len(keys), sKeyAt(tok2, a) == string(keys[a])) }))
	vSet("w.tok", tok2)
	vEnsures("sorted, by name", vForall2(func(a, b int) bool {
		return vImp(a >= 0 && a < b && b < len(keys), !(sKeyAt(tok2, b) < sKeyAt(tok2, a)))
	}))
	vEnsures("of the keys, by name", vForall(func(a int) bool { return vImp(a >= 0 && a < len(keys), sKeyAt(tok2, a) == sKeyAt(tok, r[a])) }))
	// a map of 0..n-1 into itself which takes each value once takes every value
	vAssume(vForall(func(j int) bool {
		return vImp(j >= 0 && j < len(keys), sPosOf(r, j) >= 0 && sPosOf(r, j) < len(keys) && r[sPosOf(r, j)] == j)
	}))
	return r
}
