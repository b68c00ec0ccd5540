package bond

import "math/big"

// Index order columns: which field encoding is appended for a value in a
// direction, and how those encodings compare.

func sOrd64(i int64, desc bool) string {
	if desc {
		return sEncBig(-int(i), 8)
	}
	return sEncInt64(i)
}

func sOrd32(i int32, desc bool) string {
	if desc {
		return sEncBig(-int(i), 4)
	}
	return sEncInt32(i)
}

func sOrd16(i int16, desc bool) string {
	if desc {
		return sEncBig(-int(i), 2)
	}
	return sEncInt16(i)
}

func sOrdBytes(s string, desc bool) string {
	if desc {
		return vComplement(s)
	}
	return s
}

func sOrdBig(v, n int, desc bool) string {
	if desc {
		return sEncBig(-v, n)
	}
	return sEncBig(v, n)
}

//govc:contract (bond.IndexOrder).OrderInt64
//govc:props C03
func cOrderInt64(o IndexOrder, i int64, orderType IndexOrderType) IndexOrder {
	b := o.KeyBuilder
	old, want := string(b.buff), sField(b, sOrd64(i, bool(orderType)))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[IndexOrder]()
	sAppended(r.KeyBuilder, b, old, want)
	if orderType && i == -9223372036854775808 {
		vCanary("smallest value, descending")
	}
	return r
}

//govc:contract (bond.IndexOrder).OrderInt32
//govc:props C03
func cOrderInt32(o IndexOrder, i int32, orderType IndexOrderType) IndexOrder {
	b := o.KeyBuilder
	old, want := string(b.buff), sField(b, sOrd32(i, bool(orderType)))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[IndexOrder]()
	sAppended(r.KeyBuilder, b, old, want)
	return r
}

//govc:contract (bond.IndexOrder).OrderInt16
//govc:props C03
func cOrderInt16(o IndexOrder, i int16, orderType IndexOrderType) IndexOrder {
	b := o.KeyBuilder
	old, want := string(b.buff), sField(b, sOrd16(i, bool(orderType)))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[IndexOrder]()
	sAppended(r.KeyBuilder, b, old, want)
	return r
}

//govc:contract (bond.IndexOrder).OrderUint64
//govc:props C03
func cOrderUint64(o IndexOrder, i uint64, orderType IndexOrderType) IndexOrder {
	b := o.KeyBuilder
	w := i
	if orderType {
		w = 18446744073709551615 - i
	}
	old, want := string(b.buff), sField(b, vBe64(w))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[IndexOrder]()
	sAppended(r.KeyBuilder, b, old, want)
	return r
}

//govc:contract (bond.IndexOrder).OrderUint32
//govc:props C03
func cOrderUint32(o IndexOrder, i uint32, orderType IndexOrderType) IndexOrder {
	b := o.KeyBuilder
	w := i
	if orderType {
		w = 4294967295 - i
	}
	old, want := string(b.buff), sField(b, vBe32(w))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[IndexOrder]()
	sAppended(r.KeyBuilder, b, old, want)
	return r
}

//govc:contract (bond.IndexOrder).OrderUint16
//govc:props C03
func cOrderUint16(o IndexOrder, i uint16, orderType IndexOrderType) IndexOrder {
	b := o.KeyBuilder
	w := i
	if orderType {
		w = 65535 - i
	}
	old, want := string(b.buff), sField(b, vBe16(w))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[IndexOrder]()
	sAppended(r.KeyBuilder, b, old, want)
	return r
}

//govc:contract (bond.IndexOrder).OrderByte
//govc:props C03
func cOrderByte(o IndexOrder, v byte, orderType IndexOrderType) IndexOrder {
	b := o.KeyBuilder
	w := v
	if orderType {
		w = 255 - v
	}
	old, want := string(b.buff), sField(b, string([]byte{w}))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[IndexOrder]()
	sAppended(r.KeyBuilder, b, old, want)
	return r
}

//govc:contract (bond.IndexOrder).OrderBytes
//govc:props C03
func cOrderBytes(o IndexOrder, v []byte, orderType IndexOrderType) IndexOrder {
	b := o.KeyBuilder
	vRequires("the value does not share memory with the builder's buffer", vArr(v) != vArr(b.buff) || len(v) == 0)
	val := string(v)
	old, want := string(b.buff), sField(b, sOrdBytes(val, bool(orderType)))
	vModSlice(b.buff)
	vInv("inverted so far@OrderBytes", func(i int, inverted []byte) bool {
		cur := string(inverted)
		return len(inverted) == len(val) && vForall(func(k int) bool {
			return vImp(k >= 0 && k < i, vStrAt(cur, k) == 255-vStrAt(val, k))
		})
	})
	vInv("argument kept@OrderBytes", func() bool { return string(v) == val && string(b.buff) == old })
	vNoPanic()
	r := vBody1[IndexOrder]()
	sAppended(r.KeyBuilder, b, old, want)
	vEnsures("the value passed in is not modified", string(v) == val)
	return r
}

//govc:contract (bond.IndexOrder).OrderBigInt
//govc:props C03
func cOrderBigInt(o IndexOrder, bi *big.Int, bits int, orderType IndexOrderType) IndexOrder {
	b := o.KeyBuilder
	vRequires("value given", bi != nil)
	vRequires("a width in bits", bits >= 0)
	v := vBigVal(bi)
	vRequires("the value fits the width", v < vPow256(bits/8) && -v < vPow256(bits/8))
	old, want := string(b.buff), sField(b, sOrdBig(v, bits/8, bool(orderType)))
	vModSlice(b.buff)
	vNoPanic()
	r := vBody1[IndexOrder]()
	sAppended(r.KeyBuilder, b, old, want)
	vEnsures("the number passed in is not modified", vBigVal(bi) == v)
	return r
}

//govc:contract (bond.IndexOrder).Bytes
//govc:props C03
func cOrderBytesOut(o IndexOrder) []byte {
	vNoPanic()
	r := vBody1[[]byte]()
	vEnsures("the order value is the builder's content", string(r) == string(o.KeyBuilder.buff))
	return r
}

//govc:model (*math/big.Int).Neg
func mBigNeg(z, x *big.Int) *big.Int {
	vBigSet(z, -vBigVal(x))
	return z
}

//govc:lemma order of signed order columns
//govc:props C03
func lOrdSigned(i, j int64, k, l int32, m, n int16) {
	vAssert("ascending 64-bit columns compare like the numbers", (sOrd64(i, false) < sOrd64(j, false)) == (i < j))
	vAssert("descending 64-bit columns compare opposite", (sOrd64(i, true) < sOrd64(j, true)) == (j < i))
	vAssert("64-bit columns are injective", (sOrd64(i, true) == sOrd64(j, true)) == (i == j))
	vAssert("ascending 32-bit columns compare like the numbers", (sOrd32(k, false) < sOrd32(l, false)) == (k < l))
	vAssert("descending 32-bit columns compare opposite", (sOrd32(k, true) < sOrd32(l, true)) == (l < k))
	vAssert("32-bit columns are injective", (sOrd32(k, true) == sOrd32(l, true)) == (k == l))
	vAssert("ascending 16-bit columns compare like the numbers", (sOrd16(m, false) < sOrd16(n, false)) == (m < n))
	vAssert("descending 16-bit columns compare opposite", (sOrd16(m, true) < sOrd16(n, true)) == (n < m))
	vAssert("16-bit columns are injective", (sOrd16(m, true) == sOrd16(n, true)) == (m == n))
}

//govc:lemma order of unsigned order columns
//govc:props C03
func lOrdUnsigned(i, j uint64, k, l uint32, m, n uint16, o, p byte) {
	vAssert("64-bit", (vBe64(i) < vBe64(j)) == (i < j))
	vAssert("64-bit descending", (vBe64(18446744073709551615-i) < vBe64(18446744073709551615-j)) == (j < i))
	vAssert("32-bit", (vBe32(k) < vBe32(l)) == (k < l))
	vAssert("32-bit descending", (vBe32(4294967295-k) < vBe32(4294967295-l)) == (l < k))
	vAssert("16-bit", (vBe16(m) < vBe16(n)) == (m < n))
	vAssert("16-bit descending", (vBe16(65535-m) < vBe16(65535-n)) == (n < m))
	vAssert("byte descending", (string([]byte{255 - o}) < string([]byte{255 - p})) == (p < o))
}

//govc:lemma order of big integer order columns
//govc:props C03
func lOrdBig(v, w, n int) {
	vRequires("a width", n >= 0)
	vRequires("both fit", v < vPow256(n) && -v < vPow256(n) && w < vPow256(n) && -w < vPow256(n))
	vAssert("ascending", (sOrdBig(v, n, false) < sOrdBig(w, n, false)) == (v < w))
	vAssert("descending", (sOrdBig(v, n, true) < sOrdBig(w, n, true)) == (w < v))
	vAssert("injective", (sOrdBig(v, n, true) == sOrdBig(w, n, true)) == (v == w))
}

// p: what two values have in common, a, b: the first byte in which they
// differ, x, y: the rest of any length. (One value a proper prefix of the
// other is the known finding orderbytes-desc-prefix.)

//govc:lemma order of byte columns that differ in some byte
//govc:props C03
func lOrdBytesDiff(p string, a, b byte, x, y string) {
	vRequires("the first difference", a != b)
	s, u := p+string([]byte{a})+x, p+string([]byte{b})+y
	vAssert("ascending", (sOrdBytes(s, false) < sOrdBytes(u, false)) == (a < b))
	vAssert("descending", (sOrdBytes(s, true) < sOrdBytes(u, true)) == (b < a))
	vAssert("different", sOrdBytes(s, true) != sOrdBytes(u, true))
}

//govc:lemma order of byte columns of one length
//govc:props C03
func lOrdBytes(s, u string) {
	vRequires("equal length", len(s) == len(u))
	vAssert("descending byte columns compare opposite", (sOrdBytes(s, true) < sOrdBytes(u, true)) == (u < s))
	vAssert("descending byte columns are injective", (sOrdBytes(s, true) == sOrdBytes(u, true)) == (s == u))
}

//govc:lemma order columns compare one after the other
//govc:props C03
func lOrdColumns(fid byte, a, b, x, y string) {
	vRequires("the leading column has one width", len(a) == len(b))
	f := string([]byte{fid})
	vAssert("the first column decides, later columns break ties", (f+a+x < f+b+y) == (a < b || (a == b && x < y)))
}
