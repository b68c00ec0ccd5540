package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nativeCall struct {
	fr   *Frame
	st   *State
	args []Val
	site ssa.Instruction
	sig  *types.Signature
	name string
	env  tenv
	fn   *ssa.Function
}

var natives map[string]func(e *Engine, c *nativeCall) []Outcome

func (e *Engine) freshErr(st *State) *Term {
	return e.alloc(st, "err")
}

// beBytes gives the byte values of the big-endian encoding.
func beAt(n int, v *Term, j int) *Term {
	if isInt(v) {
		x := new(big.Int).Rsh(v.ival, uint(8*(n-1-j)))
		x.And(x, big.NewInt(255))
		return mkBig(x)
	}
	switch n {
	case 1:
		return v
	case 2:
		if j == 0 {
			return mkDiv(v, mkInt(256))
		}
		return mkMod(v, mkInt(256))
	case 4:
		// inverse of dec32
		if v.op == "uf" && v.name == "dec32" {
			return v.args[j]
		}
		return mkUF("be32", SInt, v, mkInt(int64(j)))
	}
	if v.op == "uf" && v.name == "dec64" {
		return v.args[j]
	}
	return mkUF("be64", SInt, v, mkInt(int64(j)))
}

func (e *Engine) putBE(c *nativeCall, n int) []Outcome {
	s := c.args[len(c.args)-2].(*SliceV)
	v := c.args[len(c.args)-1].(*Term)
	e.check(c.fr, c.st, mkLe(mkInt(int64(n)), s.len), "PutUint on a short slice", c.site.Pos())
	nm := memName(types.Typ[types.Byte], leaf{})
	m := e.comp(c.st, nm, arrSort(SInt, arrSort(SInt, SInt)))
	row := mkSelect(m, s.arr)
	for j := 0; j < n; j++ {
		row = mkStore(row, mkAdd(s.off, mkInt(int64(j))), beAt(n, v, j))
	}
	e.setComp(c.st, nm, mkStore(m, s.arr, row))
	return one(c.st)
}

func (e *Engine) getBE(c *nativeCall, n int) []Outcome {
	s := c.args[len(c.args)-1].(*SliceV)
	e.check(c.fr, c.st, mkLe(mkInt(int64(n)), s.len), "Uint on a short slice", c.site.Pos())
	m := e.comp(c.st, memName(types.Typ[types.Byte], leaf{}), arrSort(SInt, arrSort(SInt, SInt)))
	row := mkSelect(m, s.arr)
	var bs []*Term
	for j := 0; j < n; j++ {
		x := mkSelect(row, mkAdd(s.off, mkInt(int64(j))))
		e.noteLoad(c.st, x, leaf{typ: types.Typ[types.Byte]})
		bs = append(bs, x)
	}
	return one(c.st, decBE(bs))
}

func decBE(bs []*Term) *Term {
	allc := true
	v := new(big.Int)
	for _, b := range bs {
		if !isInt(b) {
			allc = false
			break
		}
		v.Lsh(v, 8)
		v.Add(v, b.ival)
	}
	if allc {
		return mkBig(v)
	}
	if len(bs) == 2 {
		return mkAdd(mkMul(mkInt(256), bs[0]), bs[1])
	}
	// recombination of an encoding
	enc := "be32"
	if len(bs) == 8 {
		enc = "be64"
	}
	same := true
	for j, b := range bs {
		if !(b.op == "uf" && b.name == enc && b.args[0] == bs[0].args[0] && isInt(b.args[1]) && b.args[1].ival.Int64() == int64(j)) {
			same = false
			break
		}
	}
	if same {
		a := bs[0].args[0]
		if lo, hi, ok := rangeOf(a); ok && lo.Sign() >= 0 && hi.BitLen() <= 8*len(bs) {
			return a
		}
	}
	nm := "dec32"
	if len(bs) == 8 {
		nm = "dec64"
	}
	r := mkUF(nm, SInt, bs...)
	if _, ok := varRange[r]; !ok && !r.hasBV {
		varRange[r] = [2]*bigInt{big.NewInt(0), new(big.Int).Sub(pow2(uint(8*len(bs))), big.NewInt(1))}
	}
	return r
}

func beString(n int, v *Term) *Term {
	if isInt(v) {
		b := make([]byte, n)
		x := new(big.Int).Set(v.ival)
		x.FillBytes(b)
		return mkStr(string(b))
	}
	return mkUF(fmt.Sprintf("be%ds", 8*n), SBytes, v)
}

func (e *Engine) bigVal(st *State, ref *Term) *Term {
	return mkSelect(e.comp(st, "G:bigval", arrSort(SInt, SInt)), ref)
}

func (e *Engine) bigSet(st *State, ref, v *Term) {
	e.setComp(st, "G:bigval", mkStore(e.comp(st, "G:bigval", arrSort(SInt, SInt)), ref, v))
}

func init() {
	natives = map[string]func(e *Engine, c *nativeCall) []Outcome{}
	for _, mu := range []string{"sync.Mutex", "sync.RWMutex"} {
		for _, op := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
			op := op
			natives["(*"+mu+")."+op] = func(e *Engine, c *nativeCall) []Outcome {
				if strings.HasSuffix(op, "Unlock") {
					st := e.runLockHooks(c, "unlock")
					e.lockOp(c.fr, st, c.args[0], op, c.site.Pos())
					return one(st)
				}
				e.lockOp(c.fr, c.st, c.args[0], op, c.site.Pos())
				return one(e.runLockHooks(c, "lock"))
			}
		}
	}
	for n, sz := range map[string]int{"Uint16": 2, "Uint32": 4, "Uint64": 8} {
		sz := sz
		natives["(encoding/binary.bigEndian).Put"+n] = func(e *Engine, c *nativeCall) []Outcome { return e.putBE(c, sz) }
		natives["(encoding/binary.bigEndian)."+n] = func(e *Engine, c *nativeCall) []Outcome { return e.getBE(c, sz) }
		natives["(encoding/binary.bigEndian).Append"+n] = func(e *Engine, c *nativeCall) []Outcome {
			return one(c.st, e.appendString(c.st, c.args[1].(*SliceV), beString(sz, c.args[2].(*Term))))
		}
	}
	nonNil := func(e *Engine, c *nativeCall) []Outcome { return one(c.st, e.freshErr(c.st)) }
	natives["errors.New"] = nonNil
	natives["fmt.Errorf"] = nonNil
	natives["bytes.Equal"] = func(e *Engine, c *nativeCall) []Outcome {
		return one(c.st, mkEq(e.content(c.st, c.args[0].(*SliceV)), e.content(c.st, c.args[1].(*SliceV))))
	}
	natives["bytes.Compare"] = func(e *Engine, c *nativeCall) []Outcome {
		a, b := e.content(c.st, c.args[0].(*SliceV)), e.content(c.st, c.args[1].(*SliceV))
		return one(c.st, mkIte(mkEq(a, b), mkInt(0), mkIte(mkUF("blt", SBool, a, b), mkInt(-1), mkInt(1))))
	}
	natives["runtime.SetFinalizer"] = func(e *Engine, c *nativeCall) []Outcome { return one(c.st) }
	natives["fmt.Sprintf"] = func(e *Engine, c *nativeCall) []Outcome {
		f, ok := c.args[0].(*Term)
		if ok && f.op == "str" {
			if ts, ok := e.varargTerms(c.st, c.args[1]); ok {
				nm := "sprintf_" + sanitize(f.name)
				for _, t := range ts {
					nm += "_" + sanitize(string(t.sort))
				}
				return one(c.st, mkUF(nm, SBytes, ts...))
			}
		}
		return one(c.st, freshVar("sprintf", SBytes))
	}
}

// varargTerms decodes a ...any argument slice into scalar terms.
func (e *Engine) varargTerms(st *State, v Val) ([]*Term, bool) {
	s, ok := v.(*SliceV)
	if !ok || !isInt(s.len) {
		return nil, false
	}
	var out []*Term
	anyT := types.NewInterfaceType(nil, nil)
	at := types.Type(anyT)
	if o := types.Universe.Lookup("any"); o != nil {
		at = o.Type()
	}
	for k := int64(0); k < s.len.ival.Int64(); k++ {
		x := e.load(st, &PtrV{kind: pkElem, ref: s.arr, idx: mkAdd(s.off, mkInt(k)), objType: at})
		if iv, ok := x.(*IfaceV); ok {
			out = append(out, e.flatten(iv.val, iv.typ)...)
			continue
		}
		t, ok := x.(*Term)
		if !ok {
			return nil, false
		}
		out = append(out, t)
	}
	return out, true
}

var _ = strings.HasPrefix
