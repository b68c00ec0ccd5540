package bond

// A new table: its parts as asked, and the range its rows lie in.

//govc:model bond/utils.MakeNew
func mMakeNew[T any]() T { return vAny[T]() }

//govc:contract bond.NewTable
//govc:props C06 C07 C09
func cNewTable[T any](opt TableOptions[T]) Table[T] {
	vRequires("a database", opt.DB != nil)
	vNoPanic()
	r := vBody1[Table[T]]()
	t, ok := r.(*_table[T])
	vEnsures("a table", ok && t != nil)
	pk := vSkolem[string]("pk")
	vEnsures("every row key lies in the range of the table's data", sDataKey(opt.TableID, pk) < string(t.dataKeySpaceEnd) && !(sDataKey(opt.TableID, pk) < string(t.dataKeySpaceStart)))
	x := vSkolem[string]("x")
	iid := vSkolem[byte]("iid")
	vEnsures("no index entry lies in it", vImp(iid != 0, !(string([]byte{byte(opt.TableID), iid})+vBe32(uint32(len(x)))+x < string(t.dataKeySpaceEnd))))
	vEnsures("of the database, id, key function and filter given", t.db == opt.DB && t.id == opt.TableID && t.filter == opt.Filter)
	vEnsures("with the serializer given, or else the database's", t.serializer != nil && vImp(opt.Serializer != nil, t.serializer.Serializer == opt.Serializer))
	_, has := t.secondaryIndexes[IndexID(iid)]
	vEnsures("without secondary indexes", !has)
	vEnsures("with the key function given", vEq(t.primaryKeyFunc, opt.TablePrimaryKeyFunc))
	vEnsures("with the primary index", t.primaryIndex != nil && t.primaryIndex.IndexID == PrimaryIndexID)
	return r
}
