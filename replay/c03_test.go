package bond

import (
	"bytes"
	"math"
	"math/big"
	"testing"
)

// Index order columns against the order of the values, on the real code.
func TestReplayC03(t *testing.T) {
	z := zzStart(t)
	defer z.done()
	corner := []int64{0, 1, -1, 2, -2, 127, 128, 255, 256, -128, -129, -255, -256, 32767, -32767, -32768, 65535, 65536, math.MaxInt32, math.MinInt32, math.MinInt32 + 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}
	pick := func() int64 {
		switch z.r.Intn(4) {
		case 0:
			return corner[z.r.Intn(len(corner))]
		case 1:
			return int64(z.r.Intn(7)) - 3
		case 2:
			return int64(z.r.Uint64() >> uint(z.r.Intn(64)))
		}
		return int64(z.r.Uint64())
	}
	pickBig := func(n int) *big.Int {
		b := make([]byte, n)
		z.r.Read(b)
		for i := 0; i < z.r.Intn(n+1); i++ {
			b[i] = 0
		}
		v := new(big.Int).SetBytes(b)
		if z.r.Intn(3) == 0 {
			v = big.NewInt(int64(z.r.Intn(5)))
		}
		if z.r.Intn(2) == 0 {
			v.Neg(v)
		}
		return v
	}
	cmp := func(a, b int64) int {
		if a < b {
			return -1
		} else if a > b {
			return 1
		}
		return 0
	}
	ucmp := func(a, b uint64) int {
		if a < b {
			return -1
		} else if a > b {
			return 1
		}
		return 0
	}
	nc := len(corner)
	for i := 0; z.more(i, 2*nc*nc+60000); i++ {
		z.n++
		dir := IndexOrderType(i%2 == 1)
		a, b := pick(), pick()
		if i < 2*nc*nc {
			a, b = corner[(i/2)/nc], corner[(i/2)%nc]
		} else if z.r.Intn(4) == 0 {
			b = a
		}
		pre, nf := z.bytes(5), z.r.Intn(3)
		start := func() IndexOrder {
			k := NewKeyBuilder(z.buf(pre))
			for j := 0; j < nf; j++ {
				k = k.AddByteField(byte(j))
			}
			return IndexOrder{KeyBuilder: k}
		}
		n := []int{1, 2, 3, 8, 16, 32}[z.r.Intn(6)]
		ba, bb := pickBig(n), pickBig(n)
		if z.r.Intn(4) == 0 {
			bb = new(big.Int).Set(ba)
		}
		sa, sb := z.bytes(6), z.bytes(6)
		if len(sa) > len(sb) { // a proper prefix of another value is the known finding for descending bytes
			sa, sb = sb, sa
		}
		if bool(dir) && !bytes.Equal(sa, sb) && bytes.HasPrefix(sb, sa) {
			sb = sb[:len(sa)]
		}
		t1, t2 := pick(), pick()
		kinds := []struct {
			name string
			add  func(o IndexOrder, f bool) IndexOrder
			want int
			w    int
		}{
			{"OrderInt64", func(o IndexOrder, f bool) IndexOrder {
				if f {
					return o.OrderInt64(a, dir)
				}
				return o.OrderInt64(b, dir)
			}, cmp(a, b), 9},
			{"OrderInt32", func(o IndexOrder, f bool) IndexOrder {
				if f {
					return o.OrderInt32(int32(a), dir)
				}
				return o.OrderInt32(int32(b), dir)
			}, cmp(int64(int32(a)), int64(int32(b))), 5},
			{"OrderInt16", func(o IndexOrder, f bool) IndexOrder {
				if f {
					return o.OrderInt16(int16(a), dir)
				}
				return o.OrderInt16(int16(b), dir)
			}, cmp(int64(int16(a)), int64(int16(b))), 3},
			{"OrderUint64", func(o IndexOrder, f bool) IndexOrder {
				if f {
					return o.OrderUint64(uint64(a), dir)
				}
				return o.OrderUint64(uint64(b), dir)
			}, ucmp(uint64(a), uint64(b)), 8},
			{"OrderUint32", func(o IndexOrder, f bool) IndexOrder {
				if f {
					return o.OrderUint32(uint32(a), dir)
				}
				return o.OrderUint32(uint32(b), dir)
			}, ucmp(uint64(uint32(a)), uint64(uint32(b))), 4},
			{"OrderUint16", func(o IndexOrder, f bool) IndexOrder {
				if f {
					return o.OrderUint16(uint16(a), dir)
				}
				return o.OrderUint16(uint16(b), dir)
			}, ucmp(uint64(uint16(a)), uint64(uint16(b))), 2},
			{"OrderByte", func(o IndexOrder, f bool) IndexOrder {
				if f {
					return o.OrderByte(byte(a), dir)
				}
				return o.OrderByte(byte(b), dir)
			}, ucmp(uint64(byte(a)), uint64(byte(b))), 1},
			{"OrderBigInt", func(o IndexOrder, f bool) IndexOrder {
				if f {
					return o.OrderBigInt(ba, n*8, dir)
				}
				return o.OrderBigInt(bb, n*8, dir)
			}, ba.Cmp(bb), n + 1},
			{"OrderBytes", func(o IndexOrder, f bool) IndexOrder {
				if f {
					return o.OrderBytes(sa, dir)
				}
				return o.OrderBytes(sb, dir)
			}, bytes.Compare(sa, sb), -1},
		}
		dn := "ascending"
		if dir {
			dn = "descending"
		}
		for _, kd := range kinds {
			kd := kd
			z.guard(kd.name, func() {
				sba, sbb, csa, csb := ba.String(), bb.String(), string(sa), string(sb)
				s0 := start()
				s0b := append([]byte{}, s0.Bytes()...)
				o1 := kd.add(s0, true)
				e1 := append([]byte{}, o1.Bytes()...)
				o2 := kd.add(start(), false)
				e2 := append([]byte{}, o2.Bytes()...)
				if ba.String() != sba || bb.String() != sbb || string(sa) != csa || string(sb) != csb {
					z.fail("%s %s: the value passed in was modified (big %s, now %s; bytes %x, now %x)", kd.name, dn, sba, ba.String(), csa, sa)
				}
				if !bytes.HasPrefix(e1, s0b) || len(e1) < len(s0b)+1 || e1[len(s0b)] != byte(nf+1) {
					z.fail("%s %s: order value % x with %d columns becomes % x", kd.name, dn, s0b, nf, e1)
				}
				if kd.w >= 0 && len(e1) != len(s0b)+1+kd.w {
					z.fail("%s %s: %d bytes instead of %d", kd.name, dn, len(e1)-len(s0b)-1, kd.w)
				}
				want := kd.want
				if dir {
					want = -want
				}
				if c := bytes.Compare(e1, e2); c != want {
					z.fail("%s %s: values a=%d b=%d (big %s %s in %d bytes; bytes %x %x): % x and % x compare %d, want %d", kd.name, dn, a, b, ba, bb, n, sa, sb, e1, e2, c, want)
				}
				if kd.w >= 0 {
					f1 := append([]byte{}, o1.OrderInt16(int16(t1), dir).Bytes()...)
					f2 := append([]byte{}, o2.OrderInt16(int16(t2), dir).Bytes()...)
					if want == 0 {
						want = cmp(int64(int16(t1)), int64(int16(t2)))
						if dir {
							want = -want
						}
					}
					if c := bytes.Compare(f1, f2); c != want {
						z.fail("%s %s then OrderInt16 (%d,%d): % x and % x compare %d, want %d", kd.name, dn, int16(t1), int16(t2), f1, f2, c, want)
					}
				}
			})
		}
	}
}
