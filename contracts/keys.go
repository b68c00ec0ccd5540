package bond

import (
	"bytes"
)

//govc:contract bond.KeyEncode
//govc:props C01 C22
func cKeyEncode(key Key, rawBuffs ...[]byte) []byte {
	vRequires("parts fit the length fields", len(key.Index) < 4294967296 && len(key.IndexOrder) < 4294967296)
	if len(rawBuffs) > 0 {
		a := vArr(rawBuffs[0])
		vRequires("the buffer is not one of the parts", a != vArr(key.Index) && a != vArr(key.IndexOrder) && a != vArr(key.PrimaryKey) || rawBuffs[0] == nil)
		vModSlice(rawBuffs[0])
	}
	idx, ord, pk := string(key.Index), string(key.IndexOrder), string(key.PrimaryKey)
	pre := sPrefix(rawBuffs)
	vNoPanic()
	r := vBody1[[]byte]()
	vEnsures("a full key is laid out in order", vImp(len(pk) > 0, string(r) == pre+sKey(key.TableID, key.IndexID, idx, ord, pk)))
	vEnsures("a key without primary key is the key prefix", vImp(len(pk) == 0, string(r) == pre+sKeyHead(key.TableID, key.IndexID, idx)))
	vEnsures("the parts are not modified", string(key.Index) == idx && string(key.IndexOrder) == ord && string(key.PrimaryKey) == pk)
	return r
}

//govc:contract bond.KeyEncodeRaw
//govc:props C01 C22
func cKeyEncodeRaw(tableID TableID, indexID IndexID, indexFunc, indexOrderFunc, primaryKeyFunc func(buff []byte) []byte, buffs ...[]byte) []byte {
	idx, ord, pk := vSkolem[string]("idx"), vSkolem[string]("ord"), vSkolem[string]("pk")
	vRequires("parts fit the length fields", sFits(idx) && sFits(ord))
	// the functions append a value to the buffer they are given
	vBind(indexFunc, func(b []byte) []byte { return vAppend(b, idx) })
	vBind(indexOrderFunc, func(b []byte) []byte { return vAppend(b, ord) })
	vBind(primaryKeyFunc, func(b []byte) []byte { return vAppend(b, pk) })
	if len(buffs) > 0 {
		vModSlice(buffs[0])
	}
	pre := sPrefix(buffs)
	i, o := "", ""
	if indexFunc != nil {
		i = idx
	}
	if indexOrderFunc != nil {
		o = ord
	}
	vNoPanic()
	r := vBody1[[]byte]()
	if primaryKeyFunc != nil {
		vEnsures("a full key is laid out in order", string(r) == pre+sKey(tableID, indexID, i, o, pk))
	} else {
		vEnsures("without a primary key it is the key prefix", string(r) == pre+sKeyHead(tableID, indexID, i))
	}
	return r
}

//govc:contract bond.KeyDecode
//govc:props C01
func cKeyDecode(keyBytes []byte) Key {
	t, i := vSkolem[TableID]("t"), vSkolem[IndexID]("i")
	idx, ord, pk := vSkolem[string]("idx"), vSkolem[string]("ord"), vSkolem[string]("pk")
	vRequires("parts fit the length fields", sFits(idx) && sFits(ord))
	vHold(keyBytes, sKey(t, i, idx, ord, pk))
	vNoPanic()
	r := vBody1[Key]()
	vEnsures("table id", r.TableID == t)
	vEnsures("index id", r.IndexID == i)
	vEnsures("index value", string(r.Index) == idx)
	vEnsures("order value", string(r.IndexOrder) == ord)
	vEnsures("primary key", string(r.PrimaryKey) == pk)
	vEnsures("the parts are copies", len(pk) == 0 || vArr(r.PrimaryKey) >= vEntryWM())
	vEnsures("the index value is a copy", len(idx) == 0 || vArr(r.Index) >= vEntryWM())
	vEnsures("the order value is a copy", len(ord) == 0 || vArr(r.IndexOrder) >= vEntryWM())
	vEnsures("the encoded key is not modified", string(keyBytes) == sKey(t, i, idx, ord, pk))
	return r
}

//govc:contract (bond.KeyBytes).ToDataKeyBytes
//govc:props C01
func cToDataKeyBytes(key KeyBytes, rawBuffs ...[]byte) KeyBytes {
	t, i := vSkolem[TableID]("t"), vSkolem[IndexID]("i")
	idx, ord, pk := vSkolem[string]("idx"), vSkolem[string]("ord"), vSkolem[string]("pk")
	vRequires("parts fit the length fields", sFits(idx) && sFits(ord))
	vHold(key, sKey(t, i, idx, ord, pk))
	if len(rawBuffs) > 0 {
		vRequires("the buffer is not the key", vArr(rawBuffs[0]) != vArr(key))
		vModSlice(rawBuffs[0])
	}
	pre := sPrefix(rawBuffs)
	vNoPanic()
	r := vBody1[KeyBytes]()
	vEnsures("the key of the row an index entry points to", string(r) == pre+sDataKey(t, pk))
	vEnsures("the index entry's key is not modified", string(key) == sKey(t, i, idx, ord, pk))
	return r
}

//govc:contract (bond.KeyBytes).TableID
//govc:props C01
func cKBTableID(key KeyBytes) TableID {
	t := vSkolem[TableID]("t")
	i, idx, rest := vSkolem[IndexID]("i"), vSkolem[string]("idx"), vSkolem[string]("rest")
	vRequires("index value fits the length field", sFits(idx))
	vHold(key, sKeyHead(t, i, idx)+rest)
	vNoPanic()
	r := vBody1[TableID]()
	vEnsures("table id", r == t)
	return r
}

//govc:contract (bond.KeyBytes).IndexID
//govc:props C01
func cKBIndexID(key KeyBytes) IndexID {
	t := vSkolem[TableID]("t")
	i, idx, rest := vSkolem[IndexID]("i"), vSkolem[string]("idx"), vSkolem[string]("rest")
	vRequires("index value fits the length field", sFits(idx))
	vHold(key, sKeyHead(t, i, idx)+rest)
	vNoPanic()
	r := vBody1[IndexID]()
	vEnsures("index id", r == i)
	return r
}

//govc:contract (bond.KeyBytes).Index
//govc:props C01
func cKBIndex(key KeyBytes) []byte {
	t := vSkolem[TableID]("t")
	i, idx, rest := vSkolem[IndexID]("i"), vSkolem[string]("idx"), vSkolem[string]("rest")
	vRequires("index value fits the length field", len(idx) < 4294967290)
	vHold(key, sKeyHead(t, i, idx)+rest)
	vNoPanic()
	r := vBody1[[]byte]()
	vEnsures("index value", string(r) == idx)
	return r
}

//govc:contract (bond.KeyBytes).IsDataKey
//govc:props C01
func cKBIsDataKey(key KeyBytes) bool {
	t := vSkolem[TableID]("t")
	i, idx, rest := vSkolem[IndexID]("i"), vSkolem[string]("idx"), vSkolem[string]("rest")
	vRequires("index value fits the length field", sFits(idx))
	vHold(key, sKeyHead(t, i, idx)+rest)
	vNoPanic()
	r := vBody1[bool]()
	vEnsures("data keys are those of the primary index", r == (i == 0))
	return r
}

//govc:contract (bond.KeyBytes).IsIndexKey
//govc:props C01
func cKBIsIndexKey(key KeyBytes) bool {
	t := vSkolem[TableID]("t")
	i, idx, rest := vSkolem[IndexID]("i"), vSkolem[string]("idx"), vSkolem[string]("rest")
	vRequires("index value fits the length field", sFits(idx))
	vHold(key, sKeyHead(t, i, idx)+rest)
	vNoPanic()
	r := vBody1[bool]()
	vEnsures("index keys are those of the other indexes", r == (i != 0))
	return r
}

//govc:contract (bond.KeyBytes).ToKey
//govc:props C01
func cKBToKey(key KeyBytes) Key {
	t, i := vSkolem[TableID]("t"), vSkolem[IndexID]("i")
	idx, ord, pk := vSkolem[string]("idx"), vSkolem[string]("ord"), vSkolem[string]("pk")
	vRequires("parts fit the length fields", sFits(idx) && sFits(ord))
	vHold(key, sKey(t, i, idx, ord, pk))
	vNoPanic()
	r := vBody1[Key]()
	vEnsures("all parts", r.TableID == t && r.IndexID == i && string(r.Index) == idx && string(r.IndexOrder) == ord && string(r.PrimaryKey) == pk)
	return r
}

//govc:contract (bond.Key).ToDataKey
//govc:props C01
func cKeyToDataKey(k Key) Key {
	vNoPanic()
	r := vBody1[Key]()
	vEnsures("row key of the same table and primary key", r.TableID == k.TableID && r.IndexID == 0 && len(r.Index) == 0 && len(r.IndexOrder) == 0 && string(r.PrimaryKey) == string(k.PrimaryKey))
	return r
}

//govc:contract (bond.Key).ToKeyPrefix
//govc:props C01
func cKeyToKeyPrefix(k Key) Key {
	vNoPanic()
	r := vBody1[Key]()
	vEnsures("key prefix of the same index value", r.TableID == k.TableID && r.IndexID == k.IndexID && string(r.Index) == string(k.Index) && len(r.IndexOrder) == 0 && len(r.PrimaryKey) == 0)
	return r
}

//govc:contract bond._KeyPrefixSplitIndex
//govc:props C01
func cSplit(rawKey []byte) int {
	t, i := vSkolem[TableID]("t"), vSkolem[IndexID]("i")
	idx, rest := vSkolem[string]("idx"), vSkolem[string]("rest")
	vRequires("index value fits the length field", sFits(idx))
	vHold(rawKey, sKeyHead(t, i, idx)+rest)
	vNoPanic()
	r := vBody1[int]()
	vEnsures("splits right after the index value", r == len(sKeyHead(t, i, idx)))
	return r
}

//govc:contract bond.NewUserKey
//govc:props C01
func cNewUserKey(key string) KeyBytes {
	vNoPanic()
	r := vBody1[KeyBytes]()
	vEnsures("a user key lives in the reserved table", vImp(len(key) > 0, string(r) == sKey(BOND_DB_DATA_TABLE_ID, BOND_DB_DATA_USER_SPACE_INDEX_ID, "", "", key)))
	return r
}

//govc:lemma keys never collide
//govc:props C01
func lKeysInjective(t, t2 TableID, i, i2 IndexID, idx, idx2, ord, ord2, pk, pk2 string) {
	vRequires("parts fit the length fields", sFits(idx) && sFits(ord) && sFits(idx2) && sFits(ord2))
	a, b := sKey(t, i, idx, ord, pk), sKey(t2, i2, idx2, ord2, pk2)
	if a == b {
		vAssert("same table", t == t2)
		vAssert("same index", i == i2)
		vAssert("same index value", idx == idx2)
		vAssert("same order value", ord == ord2)
		vAssert("same primary key", pk == pk2)
		vCanary("equal keys")
	}
}

//govc:lemma equal key prefixes mean equal index values
//govc:props C01
func lHeadInjective(t, t2 TableID, i, i2 IndexID, idx, idx2, x, y string) {
	vRequires("parts fit the length fields", sFits(idx) && sFits(idx2))
	if sKeyHead(t, i, idx)+x == sKeyHead(t2, i2, idx2)+y {
		vAssert("same table, index and index value", t == t2 && i == i2 && idx == idx2)
		vAssert("same remainder", x == y)
		vCanary("equal prefixes")
	}
}

//govc:lemma rows of one table are ordered by primary key
//govc:props C01
func lDataKeyOrder(t TableID, p, q string) {
	vAssert("row keys compare like primary keys", (sDataKey(t, p) < sDataKey(t, q)) == (p < q))
}

// bytes.Buffer: the unread part is a slice; writing appends to it (in place while it has capacity).

//govc:model bytes.NewBuffer
func mNewBuffer(buf []byte) *bytes.Buffer {
	b := new(bytes.Buffer)
	vObjSet("bb.buf", b, buf)
	return b
}

//govc:model (*bytes.Buffer).Bytes
func mBufBytes(b *bytes.Buffer) []byte {
	return vObjGet[[]byte]("bb.buf", b)
}

//govc:model (*bytes.Buffer).Write
func mBufWrite(b *bytes.Buffer, p []byte) (int, error) {
	s := vObjGet[[]byte]("bb.buf", b)
	s = append(s, p...)
	vObjSet("bb.buf", b, s)
	return len(p), nil
}

//govc:model (*bytes.Buffer).WriteByte
func mBufWriteByte(b *bytes.Buffer, c byte) error {
	s := vObjGet[[]byte]("bb.buf", b)
	s = append(s, c)
	vObjSet("bb.buf", b, s)
	return nil
}

//govc:model (*bytes.Buffer).ReadByte
func mBufReadByte(b *bytes.Buffer) (byte, error) {
	s := vObjGet[[]byte]("bb.buf", b)
	n := vIte(len(s) == 0, 0, 1)
	c := byte(vIte(n == 0, 0, vStrAt(string(s), 0)))
	vObjSet("bb.buf", b, s[n:])
	return c, vIte(n == 0, vFreshErr(), nil)
}

//govc:model (*bytes.Buffer).Read
func mBufRead(b *bytes.Buffer, p []byte) (int, error) {
	s := vObjGet[[]byte]("bb.buf", b)
	n := copy(p, s)
	vObjSet("bb.buf", b, s[n:])
	return n, vIte(n == 0 && len(p) > 0, vFreshErr(), nil)
}
