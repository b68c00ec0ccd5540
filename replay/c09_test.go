package bond

import (
	"context"
	"errors"
	"fmt"

	"github.com/cockroachdb/pebble"
	"testing"
)

func zzBounds(tid byte) pebble.IterOptions {
	return pebble.IterOptions{LowerBound: []byte{tid}, UpperBound: []byte{tid + 1}}
}

// view is what a reader with the batch sees, and the batch.
func (l *zzLab) someBatch() (Batch, map[string]zzRow) {
	z := l.z
	if z.r.Intn(2) == 0 {
		return nil, zzCopy(l.m)
	}
	b := l.db.Batch(BatchTypeReadWrite)
	m := zzCopy(l.m)
	l.s.arm(0)
	for n := z.r.Intn(5); n > 0; n-- {
		r := l.row()
		if z.r.Intn(3) == 0 {
			_ = b.Delete([]byte(zzDataKey(l.tid, r.K)), NoSync)
			delete(m, r.K)
			continue
		}
		v, _ := (&zzSer{}).Serialize(&r)
		_ = b.Set([]byte(zzDataKey(l.tid, r.K)), v, NoSync)
		if f := l.t.(*_table[zzRow]).filter; f != nil {
			f.Add(context.Background(), []byte(zzDataKey(l.tid, r.K)))
		}
		m[r.K] = r
	}
	return b, m
}

// Reads by key against the model, with and without failures.
func TestReplayC09(t *testing.T) {
	z := zzStart(t)
	defer z.done()
	raw := zzRaw(t)
	ctx := context.Background()
	for it := 0; z.more(it, 6000); it++ {
		z.n++
		l := z.newLab(raw, byte(1+z.r.Intn(250)), 0, z.r.Intn(2) == 0, z.r.Intn(7))
		b, m := l.someBatch()
		ext := 0
		if b != nil {
			ext = 1
			l.desc += ", with a batch: " + zzRows(m)
		}
		var opt []Batch
		if b != nil || z.r.Intn(2) == 0 {
			opt = []Batch{b}
		}
		for q := 0; q < 3 && !z.found; q++ {
			fail := 0
			if z.r.Intn(3) == 0 {
				fail = 1 + z.r.Intn(6)
			}
			l.s.serFails = z.r.Intn(2) == 0
			l.s.arm(fail)
			bad := func(what string, err error) bool {
				if l.s.failed != "" {
					if err == nil || errors.Is(err, ErrNotFound) || errors.Is(err, pebble.ErrNotFound) {
						l.fails("C09", "%s: %s failed and the result is %v", what, l.s.failed, err)
					}
					return true
				}
				return false
			}
			switch z.r.Intn(4) {
			case 0:
				k := l.row()
				want, ok := m[k.K]
				what := fmt.Sprintf("Exist of %q", k.K)
				z.guard(what, func() {
					r := l.t.Exist(k, opt...)
					if l.s.failed == "" && r != ok || r && !ok {
						l.fails("C09", "%s: %v, stored %v %v", what, r, ok, want)
					}
				})
			case 1:
				k := l.row()
				want, ok := m[k.K]
				what := fmt.Sprintf("GetPoint of %q", k.K)
				z.guard(what, func() {
					r, err := l.t.GetPoint(ctx, zzRow{K: k.K}, opt...)
					if bad(what, err) {
						return
					}
					if ok && (err != nil || r != want) || !ok && !errors.Is(err, ErrNotFound) {
						l.fails("C09", "%s: %v %v, stored %v %v", what, r, err, ok, want)
					}
				})
			case 2:
				k := l.row()
				want, ok := m[k.K]
				what := fmt.Sprintf("Get of the point %q", k.K)
				z.guard(what, func() {
					r, err := l.t.Get(ctx, NewSelectorPoint(zzRow{K: k.K}), opt...)
					if bad(what, err) {
						return
					}
					if ok && (err != nil || len(r) != 1 || r[0] != want) || !ok && !errors.Is(err, ErrNotFound) {
						l.fails("C09", "%s: %v %v, stored %v %v", what, r, err, ok, want)
					}
				})
			default:
				var ks []zzRow
				for n := z.r.Intn(8); n > 0; n-- {
					ks = append(ks, zzRow{K: l.row().K})
				}
				var want []zzRow
				for _, k := range ks {
					want = append(want, m[k.K])
				}
				what := fmt.Sprintf("Get of the points %v", ks)
				z.guard(what, func() {
					r, err := l.t.Get(ctx, NewSelectorPoints(ks...), opt...)
					if bad(what, err) {
						return
					}
					if err != nil || fmt.Sprint(r) != fmt.Sprint(want) {
						l.fails("C09", "%s: %v %v, want %v", what, r, err, want)
					}
				})
			}
			l.leaks("reading", ext)
		}
		if b != nil {
			_ = b.Close()
		}
	}
}
