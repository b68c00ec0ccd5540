package bond

import (
	"bytes"
	"encoding/binary"
	"testing"
)

// Round trips, layout-independent injectivity and derived keys on the real codec.
func TestReplayC01(t *testing.T) {
	z := zzStart(t)
	defer z.done()
	app := func(v []byte) func([]byte) []byte { return func(b []byte) []byte { return append(b, v...) } }
	lens := []int{0, 1, 2, 3, 5, 8, 40, 255, 256, 300}
	part := func() []byte {
		n := lens[z.r.Intn(len(lens))]
		if z.r.Intn(200) == 0 {
			n = 65530 + z.r.Intn(20)
		}
		b := make([]byte, n)
		for i := range b {
			switch z.r.Intn(3) {
			case 0:
				b[i] = 0xFF
			case 1:
				b[i] = byte(z.r.Intn(4))
			default:
				b[i] = byte(z.r.Intn(256))
			}
		}
		return b
	}
	type parts struct {
		t, i      byte
		x, o, p   []byte
		enc       []byte
	}
	var seen []parts
	for it := 0; z.more(it, 20000); it++ {
		z.n++
		q := parts{t: byte(z.r.Intn(256)), i: byte(z.r.Intn(256)), x: part(), o: part(), p: part()}
		if z.r.Intn(3) == 0 {
			q.t, q.i = byte(z.r.Intn(2)), byte(z.r.Intn(2))
		}
		if len(q.p) == 0 {
			q.p = []byte{byte(z.r.Intn(2))}
		}
		if len(seen) > 0 && z.r.Intn(2) == 0 {
			// same bytes, cut differently
			s := seen[z.r.Intn(len(seen))]
			all := append(append(append([]byte{}, s.x...), s.o...), s.p...)
			a := z.r.Intn(len(all) + 1)
			b := a + z.r.Intn(len(all)-a+1)
			if b == len(all) {
				b = len(all) - 1
				if a > b {
					a = b
				}
			}
			q = parts{t: s.t, i: s.i, x: all[:a], o: all[a:b], p: all[b:]}
		}
		key := Key{TableID: TableID(q.t), IndexID: IndexID(q.i), Index: q.x, IndexOrder: q.o, PrimaryKey: q.p}
		z.guard("codec", func() {
			pre := z.bytes(4)
			var e []byte
			var raw []byte
			mk := func() []byte { return z.buf(pre) }
			switch z.r.Intn(3) {
			case 0:
				e = KeyEncode(key)
				raw = KeyEncodeRaw(key.TableID, key.IndexID, app(q.x), app(q.o), app(q.p))
				pre = nil
			case 1:
				e = KeyEncode(key, nil)
				raw = KeyEncodeRaw(key.TableID, key.IndexID, app(q.x), app(q.o), app(q.p), nil)
				pre = nil
			default:
				e = KeyEncode(key, mk())
				raw = KeyEncodeRaw(key.TableID, key.IndexID, app(q.x), app(q.o), app(q.p), mk())
			}
			if !bytes.Equal(e, raw) {
				z.fail("key %+v: the two encoders give % x and % x", key, e, raw)
				return
			}
			if !bytes.HasPrefix(e, pre) {
				z.fail("key %+v: content % x of the supplied buffer is lost: % x", key, pre, e)
				return
			}
			e = append([]byte{}, e[len(pre):]...)
			d := KeyDecode(e)
			if d.TableID != key.TableID || d.IndexID != key.IndexID || !bytes.Equal(d.Index, q.x) || !bytes.Equal(d.IndexOrder, q.o) || !bytes.Equal(d.PrimaryKey, q.p) {
				z.fail("key table=%d index=%d value=% x order=% x pk=% x encodes to % x and decodes to %+v", q.t, q.i, q.x, q.o, q.p, e, d)
			}
			kb := KeyBytes(e)
			cp := append([]byte{}, e...)
			if kb.TableID() != key.TableID || kb.IndexID() != key.IndexID || !bytes.Equal(kb.Index(), q.x) || kb.IsDataKey() != (q.i == 0) || kb.IsIndexKey() != (q.i != 0) {
				z.fail("key table=%d index=%d value=% x order=% x pk=% x: accessors on % x give table=%d index=%d value=% x", q.t, q.i, q.x, q.o, q.p, e, kb.TableID(), kb.IndexID(), kb.Index())
			}
			if k2 := kb.ToKey(); k2.TableID != key.TableID || !bytes.Equal(k2.PrimaryKey, q.p) || !bytes.Equal(k2.Index, q.x) {
				z.fail("ToKey of % x", e)
			}
			var dk []byte
			switch z.r.Intn(3) {
			case 0:
				dk = kb.ToDataKeyBytes()
			case 1:
				dk = kb.ToDataKeyBytes(make([]byte, 0, z.r.Intn(40)))
			default:
				dk = kb.ToDataKeyBytes([]byte(nil))
			}
			want := KeyEncodeRaw(key.TableID, 0, nil, nil, app(q.p))
			want2 := KeyEncode(key.ToDataKey())
			if !bytes.Equal(dk, want) || !bytes.Equal(dk, want2) || !bytes.Equal(e, cp) {
				z.fail("key table=%d index=%d value=% x order=% x pk=% x: row key % x, encoders give % x and % x", q.t, q.i, q.x, q.o, q.p, dk, want, want2)
			}
			pf := KeyEncode(key.ToKeyPrefix())
			pf2 := KeyEncodeRaw(key.TableID, key.IndexID, app(q.x), nil, nil)
			sp := DefaultKeyComparer().Split(e)
			if !bytes.Equal(pf, pf2) || sp != len(pf) || !bytes.HasPrefix(e, pf) || !bytes.HasSuffix(pf, q.x) || len(pf) != 6+len(q.x) || binary.BigEndian.Uint32(pf[2:6]) != uint32(len(q.x)) {
				z.fail("key table=%d index=%d value=% x order=% x pk=% x: prefixes % x and % x, split at %d of % x", q.t, q.i, q.x, q.o, q.p, pf, pf2, sp, e)
			}
			for _, s := range seen {
				same := s.t == q.t && s.i == q.i && bytes.Equal(s.x, q.x) && bytes.Equal(s.o, q.o) && bytes.Equal(s.p, q.p)
				if same != bytes.Equal(s.enc, e) {
					z.fail("keys (%d,%d,% x,% x,% x) and (%d,%d,% x,% x,% x) encode to % x and % x", s.t, s.i, s.x, s.o, s.p, q.t, q.i, q.x, q.o, q.p, s.enc, e)
				}
			}
			q.enc = e
			if len(q.x)+len(q.o)+len(q.p) < 700 {
				if len(seen) < 60 {
					seen = append(seen, q)
				} else {
					seen[z.r.Intn(len(seen))] = q
				}
			}
		})
	}
}
