package bond

import "github.com/go-bond/bond/utils"

// The functions a user supplies for a table and its indexes: functions of the row
// which append their value to the key under construction.

//govc:uf
func sIdx[T any](f IndexKeyFunction[T], t T) string { return "" }

//govc:uf
func sOrd[T any](f IndexOrderFunction[T], t T) string { return "" }

//govc:uf
func sPass[T any](f IndexFilterFunction[T], t T) bool { return false }

//govc:uf
func sPkF[T any](f TablePrimaryKeyFunc[T], t T) string { return "" }

// the parts of a key are far below the capacity of the length fields
func sSmall(s string) bool { return len(s) < 16777216 }

//govc:model func:bond.IndexKeyFunction
func mIndexKeyFunction[T any](f IndexKeyFunction[T], b KeyBuilder, t T) []byte {
	vAssume(sSmall(sIdx[T](f, t)))
	return vAppend(b.buff, sIdx[T](f, t))
}

//govc:model func:bond.IndexOrderFunction
func mIndexOrderFunction[T any](f IndexOrderFunction[T], o IndexOrder, t T) IndexOrder {
	vAssume(sSmall(sOrd[T](f, t)))
	return IndexOrder{KeyBuilder: KeyBuilder{buff: vAppend(o.KeyBuilder.buff, sOrd[T](f, t)), fid: vAny[byte]()}}
}

//govc:model func:bond.IndexFilterFunction
func mIndexFilterFunction[T any](f IndexFilterFunction[T], t T) bool { return sPass[T](f, t) }

//govc:model func:bond.TablePrimaryKeyFunc
func mTablePrimaryKeyFunc[T any](f TablePrimaryKeyFunc[T], b KeyBuilder, t T) []byte {
	return vAppend(b.buff, sPkF[T](f, t))
}

// A pooled buffer is held by one holder at a time (C20): it is as good as new.
//
//govc:model (*bond/utils.PreAllocatedPool).Get
func mPoolGet[E any](p *utils.PreAllocatedPool[[]E]) []E {
	n := vAny[int]()
	vAssume(n >= 0)
	return make([]E, n)
}

//govc:model (*bond/utils.PreAllocatedPool).Put
func mPoolPut[E any](p *utils.PreAllocatedPool[[]E], b []E) {
}

// Table as seen through its interface.

//govc:uf
func sTableID[T any](t Table[T]) TableID { return 0 }

//govc:uf
func sTablePk[T any](t Table[T], row T) string { return "" }

//govc:uf
func sTableDB[T any](t Table[T]) DB { return nil }

//govc:model (bond.Table).ID
func mTableID[T any](t Table[T]) TableID { return sTableID[T](t) }

//govc:model (bond.Table).DB
func mTableDB[T any](t Table[T]) DB {
	d := sTableDB[T](t)
	vAssume(d != nil)
	return d
}

//govc:model (bond.Table).PrimaryKey
func mTablePrimaryKey[T any](t Table[T], b KeyBuilder, row T) []byte {
	return vAppend(b.buff, sTablePk[T](t, row))
}

//govc:uf
func sDBPool(d DB) *utils.PreAllocatedPool[[]byte] { return nil }

//govc:model (bond.DB).getKeyBufferPool
func mKeyBufferPool(d DB) *utils.PreAllocatedPool[[]byte] { return sDBPool(d) }

// the storage key of a row in an index (index 0 is the data itself)
func sRowKey[T any](table Table[T], idx *Index[T], t T) string {
	return sKey(sTableID[T](table), idx.IndexID, sIdx[T](idx.IndexKeyFunction, t), sOrd[T](idx.IndexOrderFunction, t), sTablePk[T](table, t))
}

// Selectors.

//govc:uf
func sSelType[T any](s Selector[T]) SelectorType { return 0 }

//govc:uf
func sSelPoint[T any](s Selector[T]) (t T) { return }

//govc:uf
func sSelLow[T any](s Selector[T]) (t T) { return }

//govc:uf
func sSelUp[T any](s Selector[T]) (t T) { return }

//govc:model (bond.Selector).Type
func mSelType[T any](s Selector[T]) SelectorType { return sSelType[T](s) }

//govc:model (bond.SelectorPoint).Point
func mSelPoint[T any](s SelectorPoint[T]) T { return sSelPoint[T](s) }

//govc:model (bond.SelectorRange).Range
func mSelRange[T any](s SelectorRange[T]) (T, T) { return sSelLow[T](s), sSelUp[T](s) }

//govc:model (bond.SelectorPoints).Points
func mSelPoints[T any](s SelectorPoints[T]) []T { return vObjGet[[]T]("sel.points", s) }

//govc:model (bond.SelectorRanges).Ranges
func mSelRanges[T any](s SelectorRanges[T]) [][]T { return vObjGet[[][]T]("sel.ranges", s) }
