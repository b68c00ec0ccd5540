package bond

import "encoding/binary"

// Keys of rows in indexes.

func sRowHead[T any](table Table[T], idx *Index[T], t T) string {
	return sKeyHead(sTableID[T](table), idx.IndexID, sIdx[T](idx.IndexKeyFunction, t))
}

//govc:contract bond.encodeIndexKey
//govc:props C04 C05 C06 C24
func cEncodeIndexKey[T any](table Table[T], tr T, idx *Index[T], buff []byte) []byte {
	vRequires("a table and an index", table != nil && idx != nil && idx.IndexKeyFunction != nil && idx.IndexOrderFunction != nil)
	vModSlice(buff)
	pre := string(buff)
	vNoPanic()
	r := vBody1[[]byte]()
	vEnsures("the key of the row in the index", string(r) == pre+sRowKey(table, idx, tr))
	vEnsures("in the buffer given, or a new one", vArr(r) == vArr(buff) || vArr(r) >= vEntryWM())
	vEnsures("the third byte of a key is zero", vImp(pre == "", len(r) >= 6 && r[2] == 0))
	if pre == "" {
		h := sRowHead(table, idx, tr)
		vEnsures("the split point ends the index value", len(r) > len(h) && 6+int(binary.BigEndian.Uint32(r[2:6])) == len(h))
		vEnsures("what precedes it is the head", string(r[:len(h)]) == h)
	}
	return r
}
