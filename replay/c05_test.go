package bond

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"testing"
)

type zz5Row struct {
	X, O, P []byte
	In      bool
}

func zz5Key(t, i byte, r zz5Row) string {
	k := []byte{t, i}
	k = binary.BigEndian.AppendUint32(k, uint32(len(r.X)))
	k = append(k, r.X...)
	k = binary.BigEndian.AppendUint32(k, uint32(len(r.O)))
	k = append(k, r.O...)
	return string(append(k, r.P...))
}

// records changes; fails from the n-th on if fail > 0
type zz5Batch struct {
	Batch
	ops  []string
	fail int
}

var zz5Err = errors.New("injected")

func (b *zz5Batch) op(s string, k []byte) error {
	if b.fail > 0 && len(b.ops)+1 >= b.fail {
		return zz5Err
	}
	b.ops = append(b.ops, fmt.Sprintf("%s %x", s, k))
	return nil
}
func (b *zz5Batch) Set(k, v []byte, _ WriteOptions, _ ...Batch) error { return b.op("set", k) }
func (b *zz5Batch) Delete(k []byte, _ WriteOptions, _ ...Batch) error { return b.op("del", k) }

// Index maintenance of single row changes against a recording batch.
func TestReplayC05(t *testing.T) {
	z := zzStart(t)
	defer z.done()
	db, err := Open(zzDir(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	defer func() { _ = db.Close() }()
	part := func() []byte {
		if z.r.Intn(20) == 0 {
			return bytes.Repeat([]byte{byte(z.r.Intn(256))}, z.r.Intn(400))
		}
		b := make([]byte, z.r.Intn(3))
		for i := range b {
			b[i] = []byte{0, 1, 0xFF, 'a', 'A'}[z.r.Intn(5)]
		}
		return b
	}
	for it := 0; z.more(it, 30000); it++ {
		z.n++
		tid, iid := byte(1+z.r.Intn(255)), byte(1+z.r.Intn(255))
		def := z.r.Intn(6) == 0 // default filter and order
		opt := IndexOptions[zz5Row]{IndexID: IndexID(iid), IndexName: "x",
			IndexKeyFunc: func(b KeyBuilder, r zz5Row) []byte { return append(b.Bytes(), r.X...) }}
		if !def {
			opt.IndexFilterFunc = func(r zz5Row) bool { return r.In }
			opt.IndexOrderFunc = func(o IndexOrder, r zz5Row) IndexOrder {
				return IndexOrder{KeyBuilder: NewKeyBuilder(append(o.KeyBuilder.Bytes(), r.O...))}
			}
		}
		idx := NewIndex[zz5Row](opt)
		tab := NewTable[zz5Row](TableOptions[zz5Row]{DB: db, TableID: TableID(tid), TableName: "t",
			TablePrimaryKeyFunc: func(b KeyBuilder, r zz5Row) []byte { return append(b.Bytes(), r.P...) }})
		mk := func() zz5Row { return zz5Row{X: part(), O: part(), P: part(), In: z.r.Intn(2) == 0} }
		old, new := mk(), mk()
		flip := func(b []byte) []byte { // one byte changed somewhere
			if b = bytes.Clone(b); len(b) > 0 {
				b[z.r.Intn(len(b))] ^= []byte{1, 0x20, 0x80}[z.r.Intn(3)]
			}
			return b
		}
		switch z.r.Intn(6) {
		case 4:
			new = old
			new.X = flip(old.X)
		case 5:
			new = old
			new.O = flip(old.O)
		case 0:
			new = old
			new.In = z.r.Intn(2) == 0
		case 1:
			new.P = old.P
		}
		eff := func(r zz5Row) zz5Row {
			if def {
				r.O, r.In = nil, true
			}
			return r
		}
		key := func(r zz5Row) string { return fmt.Sprintf("%x", zz5Key(tid, iid, eff(r))) }
		var buffs [][]byte
		for n := z.r.Intn(3); n > 0; n-- {
			buffs = append(buffs, make([]byte, 0, z.r.Intn(3)*60))
		}
		b := &zz5Batch{}
		if z.r.Intn(8) == 0 {
			b.fail = 1 + z.r.Intn(2)
		}
		want := map[string]string{}
		var what string
		var got error
		z.guard("index change", func() {
			switch z.r.Intn(3) {
			case 0:
				what = "insert"
				if eff(new).In {
					want[key(new)] = "set"
				}
				got = idx.OnInsert(tab, new, b, buffs...)
			case 1:
				what = "update"
				o, n := eff(old).In, eff(new).In
				if o && !(n && key(old) == key(new)) {
					want[key(old)] = "del"
				}
				if n && !(o && key(old) == key(new)) {
					want[key(new)] = "set"
				}
				got = idx.OnUpdate(tab, old, new, b, buffs...)
			default:
				what = "delete"
				if eff(new).In {
					want[key(new)] = "del"
				}
				got = idx.OnDelete(tab, new, b, buffs...)
			}
		})
		in := fmt.Sprintf("%s table %d index %d (defaults %v) old %+v new %+v", what, tid, iid, def, old, new)
		if got == nil {
			have := map[string]string{}
			for _, o := range b.ops {
				var k, op string
				_, _ = fmt.Sscan(o, &op, &k)
				have[k] = op
			}
			// setting an entry both rows have again changes nothing
			if what == "update" && eff(old).In && eff(new).In && key(old) == key(new) && have[key(new)] == "set" {
				delete(have, key(new))
			}
			if fmt.Sprint(have) != fmt.Sprint(want) {
				z.fail("%s: changes %v, want %v", in, have, want)
			}
		} else if b.fail == 0 || !errors.Is(got, zz5Err) {
			z.fail("%s: error %v", in, got)
		}
		if got == nil && b.fail > 0 && len(want) >= b.fail {
			z.fail("%s: a failing batch is not reported", in)
		}
	}
}
