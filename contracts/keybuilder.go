package bond

import "math/big"

// Order-preserving field encoding: layout of every Add*Field and its order.

func sSign(neg, zero bool) string {
	if neg {
		return "\x00"
	}
	if zero {
		return "\x01"
	}
	return "\x02"
}

func sEncInt64(i int64) string {
	if i < 0 {
		return "\x00" + vBe64(uint64(^-i))
	}
	if i == 0 {
		return "\x01" + vBe64(0)
	}
	return "\x02" + vBe64(uint64(i))
}

func sEncInt32(i int32) string {
	if i < 0 {
		return "\x00" + vBe32(uint32(^-i))
	}
	if i == 0 {
		return "\x01" + vBe32(0)
	}
	return "\x02" + vBe32(uint32(i))
}

func sEncInt16(i int16) string {
	if i < 0 {
		return "\x00" + vBe16(uint16(^-i))
	}
	if i == 0 {
		return "\x01" + vBe16(0)
	}
	return "\x02" + vBe16(uint16(i))
}

// n is the width in bytes
func sEncBig(v int, n int) string {
	if v < 0 {
		return "\x00" + vComplement(vBigBytes(-v, n))
	}
	if v == 0 {
		return "\x01" + vBigBytes(0, n)
	}
	return "\x02" + vBigBytes(v, n)
}

func sField(b KeyBuilder, enc string) string {
	return string(b.buff) + string([]byte{b.fid + 1}) + enc
}

func sAppended(r KeyBuilder, b KeyBuilder, old, want string) {
	vEnsures("appends the field number and the encoded value", string(r.buff) == want)
	vEnsures("field number advances by one", r.fid == b.fid+1)
	vEnsures("bytes already in the builder keep their value", string(b.buff) == old)
}

//govc:contract (bond.KeyBuilder).AddInt64Field
//govc:props C02
func cAddInt64Field(b KeyBuilder, i int64) KeyBuilder {
	old, want := string(b.buff), sField(b, sEncInt64(i))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[KeyBuilder]()
	sAppended(r, b, old, want)
	return r
}

//govc:contract (bond.KeyBuilder).AddInt32Field
//govc:props C02
func cAddInt32Field(b KeyBuilder, i int32) KeyBuilder {
	old, want := string(b.buff), sField(b, sEncInt32(i))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[KeyBuilder]()
	sAppended(r, b, old, want)
	return r
}

//govc:contract (bond.KeyBuilder).AddInt16Field
//govc:props C02
func cAddInt16Field(b KeyBuilder, i int16) KeyBuilder {
	old, want := string(b.buff), sField(b, sEncInt16(i))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[KeyBuilder]()
	sAppended(r, b, old, want)
	return r
}

//govc:contract (bond.KeyBuilder).AddUint64Field
//govc:props C02
func cAddUint64Field(b KeyBuilder, i uint64) KeyBuilder {
	old, want := string(b.buff), sField(b, vBe64(i))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[KeyBuilder]()
	sAppended(r, b, old, want)
	return r
}

//govc:contract (bond.KeyBuilder).AddUint32Field
//govc:props C02
func cAddUint32Field(b KeyBuilder, i uint32) KeyBuilder {
	old, want := string(b.buff), sField(b, vBe32(i))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[KeyBuilder]()
	sAppended(r, b, old, want)
	return r
}

//govc:contract (bond.KeyBuilder).AddUint16Field
//govc:props C02
func cAddUint16Field(b KeyBuilder, i uint16) KeyBuilder {
	old, want := string(b.buff), sField(b, vBe16(i))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[KeyBuilder]()
	sAppended(r, b, old, want)
	return r
}

//govc:contract (bond.KeyBuilder).AddByteField
//govc:props C02
func cAddByteField(b KeyBuilder, v byte) KeyBuilder {
	old, want := string(b.buff), sField(b, string([]byte{v}))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[KeyBuilder]()
	sAppended(r, b, old, want)
	return r
}

//govc:contract (bond.KeyBuilder).AddStringField
//govc:props C02
func cAddStringField(b KeyBuilder, s string) KeyBuilder {
	old, want := string(b.buff), sField(b, s)
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[KeyBuilder]()
	sAppended(r, b, old, want)
	return r
}

//govc:contract (bond.KeyBuilder).AddBytesField
//govc:props C02
func cAddBytesField(b KeyBuilder, bs []byte) KeyBuilder {
	vRequires("the value does not share memory with the builder's buffer", vArr(bs) != vArr(b.buff) || len(bs) == 0)
	old, want := string(b.buff), sField(b, string(bs))
	oldv := string(bs)
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[KeyBuilder]()
	sAppended(r, b, old, want)
	vEnsures("the value passed in is not modified", string(bs) == oldv)
	return r
}

//govc:contract (bond.KeyBuilder).AddBigIntField
//govc:props C02
func cAddBigIntField(b KeyBuilder, bi *big.Int, bits int) KeyBuilder {
	vRequires("value given", bi != nil)
	vRequires("a width in bits", bits >= 0)
	v := vBigVal(bi)
	vRequires("the value fits the width", vImp(v >= 0, v < vPow256(bits/8)) && vImp(v < 0, -v < vPow256(bits/8)))
	old, want := string(b.buff), sField(b, sEncBig(v, bits/8))
	pre := old + string([]byte{b.fid + 1}) + sSign(v < 0, v == 0)
	vModSlice(b.buff)
	vInv("zero padding@AddBigIntField", func(i int, bt *KeyBuilder) bool {
		return len(bt.buff) == len(pre)+i && string(bt.buff[:len(pre)]) == pre
	})
	mag := vBigBytes(-v, bits/8)
	vInv("complemented so far@AddBigIntField", func(i int, bt *KeyBuilder) bool {
		n := bits / 8
		cur := string(bt.buff)
		return len(cur) == len(pre)+n && cur[:len(pre)] == pre && vForall(func(k int) bool {
			return vImp(k >= 0 && k < n, vStrAt(cur, len(pre)+k) == vIte(k >= n-i, 255-vStrAt(mag, k), vStrAt(mag, k)))
		})
	})
	vInv("earlier bytes kept@AddBigIntField", func() bool { return string(b.buff) == old })
	vNoPanic()
	r := vBody1[KeyBuilder]()
	sAppended(r, b, old, want)
	vEnsures("the number passed in is not modified", vBigVal(bi) == v)
	if v < 0 {
		vCanary("negative numbers")
	}
	return r
}

//govc:model math/big.NewInt
func mNewInt(x int64) *big.Int {
	r := new(big.Int)
	vBigSet(r, int(x))
	return r
}

//govc:model (*math/big.Int).Sign
func mBigSign(x *big.Int) int {
	v := vBigVal(x)
	return vIte(v < 0, -1, vIte(v == 0, 0, 1))
}

//govc:model (*math/big.Int).Sub
func mBigSub(z, x, y *big.Int) *big.Int {
	vBigSet(z, vBigVal(x)-vBigVal(y))
	return z
}

//govc:model (*math/big.Int).FillBytes
func mBigFillBytes(x *big.Int, buf []byte) []byte {
	v := vBigVal(x)
	v = vIte(v < 0, -v, v)
	vAssert("math/big: value too large for the buffer", v < vPow256(len(buf)))
	vStoreInto(buf, vBigBytes(v, len(buf)))
	return buf
}

//govc:lemma order of signed 64-bit fields
//govc:props C02
func lOrderInt64(i, j int64) {
	vAssert("int64 fields compare like the numbers", (sEncInt64(i) < sEncInt64(j)) == (i < j))
	vAssert("int64 fields are injective", (sEncInt64(i) == sEncInt64(j)) == (i == j))
	vAssert("int64 fields have one width", len(sEncInt64(i)) == 9)
}

//govc:lemma order of signed 32-bit fields
//govc:props C02
func lOrderInt32(i, j int32) {
	vAssert("int32 fields compare like the numbers", (sEncInt32(i) < sEncInt32(j)) == (i < j))
	vAssert("int32 fields are injective", (sEncInt32(i) == sEncInt32(j)) == (i == j))
	vAssert("int32 fields have one width", len(sEncInt32(i)) == 5)
}

//govc:lemma order of signed 16-bit fields
//govc:props C02
func lOrderInt16(i, j int16) {
	vAssert("int16 fields compare like the numbers", (sEncInt16(i) < sEncInt16(j)) == (i < j))
	vAssert("int16 fields are injective", (sEncInt16(i) == sEncInt16(j)) == (i == j))
	vAssert("int16 fields have one width", len(sEncInt16(i)) == 3)
}

//govc:lemma order of unsigned fields
//govc:props C02
func lOrderUint(i, j uint64, k, l uint32, m, n uint16, o, p byte) {
	vAssert("uint64 fields compare like the numbers", (vBe64(i) < vBe64(j)) == (i < j))
	vAssert("uint64 fields are injective", (vBe64(i) == vBe64(j)) == (i == j))
	vAssert("uint32 fields compare like the numbers", (vBe32(k) < vBe32(l)) == (k < l))
	vAssert("uint32 fields are injective", (vBe32(k) == vBe32(l)) == (k == l))
	vAssert("uint16 fields compare like the numbers", (vBe16(m) < vBe16(n)) == (m < n))
	vAssert("uint16 fields are injective", (vBe16(m) == vBe16(n)) == (m == n))
	vAssert("byte fields compare like the numbers", (string([]byte{o}) < string([]byte{p})) == (o < p))
	vAssert("byte fields are injective", (string([]byte{o}) == string([]byte{p})) == (o == p))
}

//govc:lemma order of big integer fields
//govc:props C02
func lOrderBig(v, w, n int) {
	vRequires("a width", n >= 0)
	vRequires("both fit", v < vPow256(n) && -v < vPow256(n) && w < vPow256(n) && -w < vPow256(n))
	vAssert("big integer fields compare like the numbers", (sEncBig(v, n) < sEncBig(w, n)) == (v < w))
	vAssert("big integer fields are injective", (sEncBig(v, n) == sEncBig(w, n)) == (v == w))
}

//govc:lemma fields compare one after the other
//govc:props C02
func lOrderFields(fid byte, a, b, x, y string) {
	// a, b: the encodings of a fixed-width field; x, y: whatever fields follow
	vRequires("the leading field has one width", len(a) == len(b))
	f := string([]byte{fid})
	vAssert("the first field decides, later fields break ties", (f+a+x < f+b+y) == (a < b || (a == b && x < y)))
	vAssert("field lists are equal only when every field is", (f+a+x == f+b+y) == (a == b && x == y))
}
