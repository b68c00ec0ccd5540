package bond

import "context"

// The key at hand, which may be any key, and what the filter answers for it.
//
//govc:uf
func fK() string { return "" }

//govc:model (bond.Filter).MayContain
func mlMayContain(f Filter, ctx context.Context, key []byte) bool {
	r := vAny[bool]()
	vAssume(vImp(string(key) == fK(), r == vObjGet[bool]("fl.has", f)))
	return r
}

//govc:model (bond.Filter).Add
func mlFilterAdd(f Filter, ctx context.Context, key []byte) {
	vSet("f.adds", vGet[int]("f.adds")+1)
	vObjSet("fl.has", f, vObjGet[bool]("fl.has", f) || string(key) == fK())
}
