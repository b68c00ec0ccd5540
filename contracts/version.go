package bond

import (
	"io"
	"io/fs"
	"strconv"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond/utils"
)

// Opening a database: what is stored as its data version and in its format
// file, what is written, and what is left open.
//
//   v.has, v.val   the stored data version
//   v.writes       writes to storage
//   f.has, f.val   the format file, f.writes how often it was written
//   s.open         databases and values open
//   v.failed       something outside failed

func wFail() error {
	e := vAny[error]()
	vSet("v.failed", vGet[bool]("v.failed") || e != nil)
	return e
}

// a failure which is not the one of something missing
func wFailOther() error {
	e := wFail()
	vAssume(vImp(e != nil, !wNotExist(e) && !wErrIs(e, pebble.ErrNotFound) && !vSameRef(e, pebble.ErrNotFound)))
	return e
}

//govc:uf
func wErrIs(e, t error) bool { return false }

//govc:model errors.Is
func mvErrorsIs(e, t error) bool {
	vAssume(vImp(vSameRef(e, t), wErrIs(e, t)))
	vAssume(t != nil)
	vAssume(vImp(e == nil, !wErrIs(e, t)))
	return wErrIs(e, t)
}

//govc:uf
func wNotExist(e error) bool { return false }

//govc:model os.IsNotExist
func mvIsNotExist(e error) bool {
	vAssume(vImp(e == nil, !wNotExist(e)))
	return wNotExist(e)
}

//govc:model path/filepath.Abs
func mvAbs(p string) (string, error) { return vAny[string](), wFail() }

//govc:uf
func wFormatPath(p string) bool { return false }

//govc:model path/filepath.Join
func mvJoin(elem ...string) string {
	s := vAny[string]()
	vAssume(wFormatPath(s) == (elem[len(elem)-1] == PebbleFormatFile))
	return s
}

//govc:model os.Stat
func mvStat(p string) (fs.FileInfo, error) {
	if vAny[bool]() {
		e := vFreshErr()
		vAssume(e != nil && wNotExist(e))
		return nil, e
	}
	return vNew[fs.FileInfo](), wFailOther()
}

//govc:model os.MkdirAll
func mvMkdirAll(p string, m fs.FileMode) error { return wFail() }

//govc:model os.ReadFile
func mvReadFile(p string) ([]byte, error) {
	vAssert("reads the format file", wFormatPath(p))
	if !vGet[bool]("f.has") {
		e := vFreshErr()
		vAssume(e != nil && wNotExist(e))
		return nil, e
	}
	e := wFailOther()
	if e != nil {
		return nil, e
	}
	return vBytesOf(vGet[string]("f.val")), nil
}

//govc:model os.WriteFile
func mvWriteFile(p string, data []byte, m fs.FileMode) error {
	vAssert("writes the format file", wFormatPath(p))
	e := wFail()
	vSet("f.writes", vGet[int]("f.writes")+1)
	if e == nil {
		vSet("f.has", true)
		vSet("f.val", string(data))
	}
	return e
}

// Decimal numbers: what they stand for, and which texts are none.

//govc:uf
func wNumOK(s string) bool { return false }

//govc:uf
func wNum(s string) int { return 0 }

//govc:model strconv.ParseInt
func mvParseInt(s string, base int, bits int) (int64, error) {
	vAssert("decimal", base == 10)
	lim := 2147483647
	if bits != 32 {
		lim = 9223372036854775807
	}
	if wNumOK(s) && wNum(s) <= lim && wNum(s) >= -lim-1 {
		return int64(wNum(s)), nil
	}
	e := vFreshErr()
	vAssume(e != nil)
	if wNumOK(s) && wNum(s) > lim {
		return int64(lim), e
	}
	if wNumOK(s) {
		return int64(-lim - 1), e
	}
	return 0, e
}

//govc:model strconv.Atoi
func mvAtoi(s string) (int, error) {
	n, e := strconv.ParseInt(s, 10, 64)
	return int(n), e
}

//govc:model strconv.ParseUint
func mvParseUint(s string, base int, bits int) (uint64, error) {
	vAssert("decimal", base == 10 && bits == 64)
	if wNumOK(s) && wNum(s) >= 0 {
		return uint64(wNum(s)), nil
	}
	e := vFreshErr()
	vAssume(e != nil)
	return 0, e
}

//govc:model fmt.Sprintf
func mvSprintf(f string, a ...any) string {
	s := vAny[string]()
	if n, ok := a[0].(int); ok {
		vAssume(vImp(f == "%d", wNumOK(s) && wNum(s) == n))
	}
	if n, ok := a[0].(pebble.FormatMajorVersion); ok {
		vAssume(vImp(f == "%d", wNumOK(s) && wNum(s) == int(n)))
	}
	return s
}

//govc:model strconv.Itoa
func mvItoa(n int) string {
	s := vAny[string]()
	vAssume(wNumOK(s) && wNum(s) == n)
	return s
}

//govc:model github.com/cockroachdb/pebble.Open
func mvOpen(dir string, o *pebble.Options) (*pebble.DB, error) {
	e := wFail()
	if e != nil {
		return nil, e
	}
	d := vNew[*pebble.DB]()
	vObjSet("p.open", d, true)
	vSet("s.open", vGet[int]("s.open")+1)
	return d, nil
}

//govc:model (*github.com/cockroachdb/pebble.DB).Close
func mvDBClose(d *pebble.DB) error {
	vAssert("database closed twice", vObjGet[bool]("p.open", d))
	vObjSet("p.open", d, false)
	vSet("s.open", vGet[int]("s.open")-1)
	return wFail()
}

//govc:model (*github.com/cockroachdb/pebble.DB).Get
func mvDBGet(d *pebble.DB, key []byte) ([]byte, io.Closer, error) {
	vAssert("database used after it was closed", vObjGet[bool]("p.open", d))
	vAssert("the version is read", wVersionKey(string(key)))
	e := wFailOther()
	if e != nil {
		return nil, nil, e
	}
	if !vGet[bool]("v.has") {
		vAssume(pebble.ErrNotFound != nil)
		return nil, nil, pebble.ErrNotFound
	}
	c := vNew[io.Closer]()
	vObjSet("cl.open", c, true)
	vSet("s.open", vGet[int]("s.open")+1)
	return vBytesOf(vGet[string]("v.val")), c, nil
}

//govc:model (io.Closer).Close
func mvCloserClose(c io.Closer) error {
	vAssert("value released twice", vObjGet[bool]("cl.open", c))
	vObjSet("cl.open", c, false)
	vSet("s.open", vGet[int]("s.open")-1)
	return vAny[error]()
}

//govc:model (*github.com/cockroachdb/pebble.DB).Set
func mvDBSet(d *pebble.DB, key, value []byte, o *pebble.WriteOptions) error {
	vAssert("database used after it was closed", vObjGet[bool]("p.open", d))
	vAssert("only the version is written", wVersionKey(string(key)))
	vAssert("written with sync", vSameRef(o, pebble.Sync))
	e := wFail()
	vSet("v.writes", vGet[int]("v.writes")+1)
	if e == nil {
		vSet("v.has", true)
		vSet("v.val", string(value))
	}
	return e
}

//govc:uf
func wVersionKey(k string) bool { return false }

// the key of the data version is one fixed key
//
//govc:contract bond.bondDataVersionKey
//govc:props C22
func wcVersionKey() []byte {
	r := vBody1[[]byte]()
	if vUse() {
		vAssume(wVersionKey(string(r)))
	}
	vEnsures("table 0, index 0, no index value, no order, the name", string(r) == sDataKey(0, "__bond_db_data_version__"))
	return r
}

//govc:model bond.DefaultKeyComparer
func mvComparer() *pebble.Comparer { return vNew[*pebble.Comparer]() }

//govc:model bond.DefaultOptions
func mvDefaultOptions() *Options { return vNew[*Options]() }

//govc:model bond.DefaultPebbleOptions
func mvDefaultPebble() *pebble.Options { return vNew[*pebble.Options]() }

//govc:model bond/utils.NewPreAllocatedPool
func mvNewPool[T any](f func() any, n int) *utils.PreAllocatedPool[T] {
	return vNew[*utils.PreAllocatedPool[T]]()
}

//govc:contract bond.Open
//govc:props C22
func vcOpen(dirname string, opts *Options) (DB, error) {
	vModGhost("s.open")
	vModGhost("v.has")
	vModGhost("v.val")
	vModGhost("v.writes")
	vModGhost("v.failed")
	vModGhost("f.has")
	vModGhost("f.val")
	vModGhost("f.writes")
	vModGhost("p.open")
	vModMem("H:bond.Options#.PebbleOptions")
	vModMem("H:github.com/cockroachdb/pebble.Options#.Comparer")
	given := opts != nil && opts.PebbleOptions != nil
	format := 0
	if opts != nil {
		if opts.PebbleOptions != nil {
			format = int(opts.PebbleOptions.FormatMajorVersion)
		}
	}
	vRequires("nothing has failed", !vGet[bool]("v.failed"))
	vNoPanic()
	has, val, writes := vGet[bool]("v.has"), vGet[string]("v.val"), vGet[int]("v.writes")
	fhas, fval, fwrites := vGet[bool]("f.has"), vGet[string]("f.val"), vGet[int]("f.writes")
	open := vGet[int]("s.open")
	compatible := vImp(has, wNumOK(val) && wNum(val) == BOND_DB_DATA_VERSION)
	r, err := vBody2[DB, error]()
	vEnsures("a database or an error", (err == nil) == (r != nil))
	vEnsures("only a database of this data version is opened", vImp(err == nil, compatible))
	vEnsures("a new database is stamped", vImp(err == nil, vGet[bool]("v.has") && wNumOK(vGet[string]("v.val")) && wNum(vGet[string]("v.val")) == BOND_DB_DATA_VERSION))
	vEnsures("a stored version is never overwritten", vImp(has, vGet[int]("v.writes") == writes))
	vEnsures("at most the version is written", vGet[int]("v.writes") <= writes+1)
	vEnsures("a failed open leaves nothing open", vImp(err != nil, vGet[int]("s.open") == open))
	vEnsures("an open database is all that is open", vImp(err == nil, vGet[int]("s.open") == open+1))
	vEnsures("a refused open does not touch the format file", vImp(!compatible, vGet[int]("f.writes") == fwrites))
	vEnsures("the format file is never overwritten", vImp(fhas, vGet[int]("f.writes") == fwrites))
	vEnsures("only the given storage format is opened", vImp(err == nil && given && fhas, wNumOK(fval) && wNum(fval) == format))
	vEnsures("the storage format is recorded", vImp(err == nil && given, vGet[bool]("f.has") && wNumOK(vGet[string]("f.val")) && wNum(vGet[string]("f.val")) == format))
	vEnsures("refused only for a reason", vImp(err != nil && given && format >= 0, vGet[bool]("v.failed") || !compatible || fhas && !(wNumOK(fval) && wNum(fval) == format)))
	return r, err
}
