package bond

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"testing"
)

type zz4Row struct {
	X, O, P []byte // index value, order value, primary key
}

func zz4Key(t, i byte, r zz4Row) []byte {
	k := []byte{t, i}
	k = binary.BigEndian.AppendUint32(k, uint32(len(r.X)))
	k = append(k, r.X...)
	k = binary.BigEndian.AppendUint32(k, uint32(len(r.O)))
	k = append(k, r.O...)
	return append(k, r.P...)
}

// Scans of real databases holding keys of several tables, indexes and values
// against the set of keys each selection stands for.
func TestReplayC04(t *testing.T) {
	z := zzStart(t)
	defer z.done()
	db, err := Open(zzDir(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	defer func() { _ = db.Close() }()

	short := func() []byte {
		b := make([]byte, z.r.Intn(4))
		for i := range b {
			b[i] = []byte{0xFF, 0xFF, 0xFE, 0, 1, 0x7F}[z.r.Intn(6)]
		}
		return b
	}
	for it := 0; z.more(it, 3000); it++ {
		z.n++
		tid := []byte{1, 2, 0x7F, 0xFE, 0xFF}[z.r.Intn(5)]
		iid := []byte{0, 1, 2, 0xFE, 0xFF}[z.r.Intn(5)]
		row := func(i byte) zz4Row {
			r := zz4Row{X: short(), O: short(), P: short()}
			if z.r.Intn(4) == 0 {
				r.P = binary.BigEndian.AppendUint64([]byte{1}, uint64(255+z.r.Intn(2)))
			}
			if z.r.Intn(30) == 0 {
				r.X = bytes.Repeat([]byte{0xFF}, 250+z.r.Intn(10))
			}
			if i == 0 {
				r.X, r.O = nil, nil
			}
			return r
		}
		type ent struct {
			t, i byte
			r    zz4Row
			k    []byte
		}
		var all []ent
		have := map[string]bool{}
		for n := z.r.Intn(25); n >= 0; n-- {
			e := ent{t: tid, i: iid}
			if z.r.Intn(4) == 0 {
				e.t = tid + byte(z.r.Intn(3)) - 1
			}
			if z.r.Intn(4) == 0 {
				e.i = iid + byte(z.r.Intn(3)) - 1
			}
			e.r = row(e.i)
			if e.t == 0 {
				continue
			}
			e.k = zz4Key(e.t, e.i, e.r)
			if !have[string(e.k)] {
				have[string(e.k)] = true
				all = append(all, e)
			}
		}
		b := db.Batch(BatchTypeWriteOnly)
		for _, e := range all {
			_ = b.Set(e.k, []byte{1}, Sync)
		}
		if err := b.Commit(NoSync); err != nil {
			t.Fatal(err)
		}
		_ = b.Close()
		sort.Slice(all, func(i, j int) bool { return bytes.Compare(all[i].k, all[j].k) < 0 })

		idx := NewIndex[zz4Row](IndexOptions[zz4Row]{IndexID: IndexID(iid), IndexName: "x",
			IndexKeyFunc: func(b KeyBuilder, r zz4Row) []byte { return append(b.Bytes(), r.X...) },
			IndexOrderFunc: func(o IndexOrder, r zz4Row) IndexOrder {
				return IndexOrder{KeyBuilder: NewKeyBuilder(append(o.KeyBuilder.Bytes(), r.O...))}
			},
		})
		tab := NewTable[zz4Row](TableOptions[zz4Row]{DB: db, TableID: TableID(tid), TableName: "t",
			TablePrimaryKeyFunc: func(b KeyBuilder, r zz4Row) []byte { return append(b.Bytes(), r.P...) }})

		pick := func() zz4Row {
			if len(all) > 0 && z.r.Intn(2) == 0 {
				r := all[z.r.Intn(len(all))].r
				if iid == 0 {
					r.X, r.O = nil, nil
				}
				switch z.r.Intn(3) {
				case 0:
					r.O, r.P = nil, nil
				case 1:
					r.P = nil
				}
				return r
			}
			return row(iid)
		}
		point := func(p zz4Row, single bool) []ent {
			lo := zz4Key(tid, iid, p)
			var out []ent
			for _, e := range all {
				if e.t == tid && e.i == iid && bytes.Equal(e.r.X, p.X) && bytes.Compare(e.k, lo) >= 0 {
					if single && !bytes.Equal(e.k, lo) {
						continue
					}
					out = append(out, e)
				}
			}
			return out
		}
		rng := func(a, b zz4Row) []ent {
			lo, up := zz4Key(tid, iid, a), zz4Key(tid, iid, b)
			var out []ent
			if bytes.Compare(lo, up) > 0 {
				return nil
			}
			for _, e := range all {
				if bytes.Compare(e.k, lo) >= 0 && (bytes.Compare(e.k, up) <= 0 || bytes.HasPrefix(e.k, up)) {
					out = append(out, e)
				}
			}
			return out
		}
		order := func(a, b zz4Row) (zz4Row, zz4Row) {
			if bytes.Compare(zz4Key(tid, iid, a), zz4Key(tid, iid, b)) > 0 {
				return b, a
			}
			return a, b
		}
		var sel Selector[zz4Row]
		var want []ent
		var what string
		switch z.r.Intn(4) {
		case 0:
			p := pick()
			sel, want, what = NewSelectorPoint(p), point(p, false), fmt.Sprintf("point %x", p)
		case 1:
			var ps []zz4Row
			for n := z.r.Intn(4); n > 0; n-- {
				p := pick()
				ps = append(ps, p)
				want = append(want, point(p, iid == 0)...)
			}
			sel, what = NewSelectorPoints(ps...), fmt.Sprintf("points %x", ps)
		case 2:
			a, b := order(pick(), pick())
			sel, want, what = NewSelectorRange(a, b), rng(a, b), fmt.Sprintf("range %x", []zz4Row{a, b})
		default:
			var rs [][]zz4Row
			for n := z.r.Intn(4); n > 0; n-- {
				a, b := order(pick(), pick())
				rs = append(rs, []zz4Row{a, b})
				want = append(want, rng(a, b)...)
			}
			sel, what = NewSelectorRanges(rs...), fmt.Sprintf("ranges %x", rs)
		}
		ks := func(es []ent) (out []string) {
			for _, e := range es {
				out = append(out, fmt.Sprintf("%x", e.k))
			}
			return
		}
		z.guard(fmt.Sprintf("table %d index %d %s over %v", tid, iid, what, ks(all)), func() {
			var got, back []string
			var itr Iterator
			switch z.r.Intn(2) {
			case 0:
				itr = idx.Iter(tab, sel)
			default:
				rb := db.Batch(BatchTypeReadWrite)
				defer func() { _ = rb.Close() }()
				itr = idx.Iter(tab, sel, rb)
			}
			for ok := itr.First(); ok; ok = itr.Next() {
				got = append(got, fmt.Sprintf("%x", itr.Key()))
			}
			for ok := itr.Last(); ok; ok = itr.Prev() {
				back = append([]string{fmt.Sprintf("%x", itr.Key())}, back...)
			}
			e1 := itr.Error()
			e2 := itr.Close()
			if e1 != nil || e2 != nil {
				z.fail("table %d index %d %s over %v: error %v %v", tid, iid, what, ks(all), e1, e2)
			}
			if fmt.Sprint(got) != fmt.Sprint(ks(want)) {
				z.fail("table %d index %d %s over %v: visits %v, want %v", tid, iid, what, ks(all), got, ks(want))
			}
			if fmt.Sprint(back) != fmt.Sprint(ks(want)) {
				z.fail("table %d index %d %s over %v: backwards visits %v, want %v", tid, iid, what, ks(all), back, ks(want))
			}
		})
		b = db.Batch(BatchTypeWriteOnly)
		for _, e := range all {
			_ = b.Delete(e.k, Sync)
		}
		if err := b.Commit(NoSync); err != nil {
			t.Fatal(err)
		}
		_ = b.Close()
	}
	// successor on its own
	for it := 0; z.more(it, 3000); it++ {
		z.n++
		s := z.bytes(6)
		if len(s) == 0 || bytes.Count(s, []byte{0xFF}) == len(s) {
			continue
		}
		in := z.buf(s)
		var dst []byte
		if z.r.Intn(2) == 0 {
			dst = z.buf(nil)
		}
		z.guard(fmt.Sprintf("keySuccessor(%x)", s), func() {
			u := append([]byte{}, keySuccessor(in, dst)...)
			for n := 0; n < 20; n++ {
				k := append(append([]byte{}, s[:z.r.Intn(len(s)+1)]...), z.bytes(4)...)
				in := bytes.Compare(k, s) >= 0 && bytes.Compare(k, u) < 0
				if in != bytes.HasPrefix(k, s) {
					z.fail("keySuccessor(%x) = %x: key %x", s, u, k)
				}
			}
		})
	}
}
