package bond

import (
	"bytes"
	"math"
	"math/big"
	"testing"
)

// Order and injectivity of the field encodings, on the real KeyBuilder.
func TestReplayC02(t *testing.T) {
	z := zzStart(t)
	defer z.done()
	corner := []int64{0, 1, -1, 2, -2, 127, 128, 255, 256, -128, -129, -255, -256, -257, 32767, -32768, 65535, 65536, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}
	for _, p := range []uint{7, 8, 15, 16, 24, 31, 32, 48, 63} {
		for _, d := range []int64{-2, -1, 0, 1, 2} {
			corner = append(corner, int64(uint64(1)<<p)+d, -int64(uint64(1)<<p)+d)
		}
	}
	pick := func() int64 {
		switch z.r.Intn(4) {
		case 0:
			return corner[z.r.Intn(len(corner))]
		case 1:
			return int64(z.r.Intn(7)) - 3
		case 2:
			return int64(z.r.Uint64() >> uint(z.r.Intn(64)))
		}
		return int64(z.r.Uint64())
	}
	pickBig := func(n int) *big.Int {
		b := make([]byte, n)
		z.r.Read(b)
		if n > 0 {
			k := z.r.Intn(n + 1)
			for i := 0; i < k; i++ {
				b[i] = 0
			}
		}
		v := new(big.Int).SetBytes(b)
		if z.r.Intn(3) == 0 {
			v = big.NewInt(int64(z.r.Intn(5)))
			if v.BitLen() > n*8 {
				v = big.NewInt(0)
			}
		}
		if z.r.Intn(2) == 0 {
			v.Neg(v)
		}
		return v
	}
	cmp := func(a, b int64) int {
		if a < b {
			return -1
		} else if a > b {
			return 1
		}
		return 0
	}
	ucmp := func(a, b uint64) int {
		if a < b {
			return -1
		} else if a > b {
			return 1
		}
		return 0
	}
	nc := len(corner)
	for i := 0; z.more(i, nc*nc+60000); i++ {
		z.n++
		pre := z.bytes(5)
		nf := z.r.Intn(3) // leading fields
		start := func() KeyBuilder {
			b := NewKeyBuilder(z.buf(pre))
			for j := 0; j < nf; j++ {
				b = b.AddByteField(byte(j))
			}
			return b
		}
		trail := func(b KeyBuilder, v int64) []byte { return append([]byte{}, b.AddInt16Field(int16(v)).Bytes()...) }
		a, b := pick(), pick()
		if i < nc*nc {
			a, b = corner[i/nc], corner[i%nc] // every pair of corner values
		} else if z.r.Intn(4) == 0 {
			b = a
		}
		t1, t2 := pick(), pick()
		n := []int{1, 2, 3, 8, 16, 32, 40}[z.r.Intn(7)]
		ba, bb := pickBig(n), pickBig(n)
		if z.r.Intn(4) == 0 {
			bb = new(big.Int).Set(ba)
		}
		sa, sb := z.bytes(6), z.bytes(6)
		type kind struct {
			name string
			add  func(k KeyBuilder, first bool) KeyBuilder
			want int
			w    int // width, -1 if variable
		}
		kinds := []kind{
			{"int64", func(k KeyBuilder, f bool) KeyBuilder {
				if f {
					return k.AddInt64Field(a)
				}
				return k.AddInt64Field(b)
			}, cmp(a, b), 9},
			{"int32", func(k KeyBuilder, f bool) KeyBuilder {
				if f {
					return k.AddInt32Field(int32(a))
				}
				return k.AddInt32Field(int32(b))
			}, cmp(int64(int32(a)), int64(int32(b))), 5},
			{"int16", func(k KeyBuilder, f bool) KeyBuilder {
				if f {
					return k.AddInt16Field(int16(a))
				}
				return k.AddInt16Field(int16(b))
			}, cmp(int64(int16(a)), int64(int16(b))), 3},
			{"uint64", func(k KeyBuilder, f bool) KeyBuilder {
				if f {
					return k.AddUint64Field(uint64(a))
				}
				return k.AddUint64Field(uint64(b))
			}, ucmp(uint64(a), uint64(b)), 8},
			{"uint32", func(k KeyBuilder, f bool) KeyBuilder {
				if f {
					return k.AddUint32Field(uint32(a))
				}
				return k.AddUint32Field(uint32(b))
			}, ucmp(uint64(uint32(a)), uint64(uint32(b))), 4},
			{"uint16", func(k KeyBuilder, f bool) KeyBuilder {
				if f {
					return k.AddUint16Field(uint16(a))
				}
				return k.AddUint16Field(uint16(b))
			}, ucmp(uint64(uint16(a)), uint64(uint16(b))), 2},
			{"byte", func(k KeyBuilder, f bool) KeyBuilder {
				if f {
					return k.AddByteField(byte(a))
				}
				return k.AddByteField(byte(b))
			}, ucmp(uint64(byte(a)), uint64(byte(b))), 1},
			{"big", func(k KeyBuilder, f bool) KeyBuilder {
				if f {
					return k.AddBigIntField(ba, n*8)
				}
				return k.AddBigIntField(bb, n*8)
			}, ba.Cmp(bb), n + 1},
			{"string", func(k KeyBuilder, f bool) KeyBuilder {
				if f {
					return k.AddStringField(string(sa))
				}
				return k.AddStringField(string(sb))
			}, bytes.Compare(sa, sb), -1},
			{"bytes", func(k KeyBuilder, f bool) KeyBuilder {
				if f {
					return k.AddBytesField(sa)
				}
				return k.AddBytesField(sb)
			}, bytes.Compare(sa, sb), -1},
		}
		for _, kd := range kinds {
			desc := func() string {
				return kd.name
			}
			z.guard(desc(), func() {
				sba, sbb := ba.String(), bb.String()
				s0 := start()
				s0b := append([]byte{}, s0.Bytes()...)
				k1 := kd.add(s0, true)
				e1 := append([]byte{}, k1.Bytes()...)
				k2 := kd.add(start(), false)
				e2 := append([]byte{}, k2.Bytes()...)
				if !bytes.HasPrefix(e1, s0b) || len(e1) < len(s0b)+1 || e1[len(s0b)] != byte(nf+1) {
					z.fail("%s field: builder content % x with %d fields becomes % x", kd.name, s0b, nf, e1)
				}
				if ba.String() != sba || bb.String() != sbb {
					z.fail("big field: the number %s was modified to %s", sba, ba.String())
				}
				if kd.w >= 0 && len(e1) != len(s0b)+1+kd.w {
					z.fail("%s field: %d bytes instead of %d", kd.name, len(e1)-len(s0b)-1, kd.w)
				}
				if c := bytes.Compare(e1, e2); c != kd.want {
					z.fail("%s field: values a=%d b=%d (big %s %s, %d bytes; strings %x %x): encodings % x and % x compare %d, want %d", kd.name, a, b, ba, bb, n, sa, sb, e1, e2, c, kd.want)
				}
				if kd.w >= 0 {
					f1, f2 := trail(k1, t1), trail(k2, t2)
					want := kd.want
					if want == 0 {
						want = cmp(int64(int16(t1)), int64(int16(t2)))
					}
					if c := bytes.Compare(f1, f2); c != want {
						z.fail("%s field then int16 field (%d,%d): keys % x and % x compare %d, want %d", kd.name, int16(t1), int16(t2), f1, f2, c, want)
					}
				}
				if kd.name == "string" || kd.name == "bytes" {
					if !bytes.Equal(e1[len(s0b)+1:], sa) {
						z.fail("%s field: value %x stored as % x", kd.name, sa, e1[len(s0b)+1:])
					}
				}
			})
		}
	}
}
