package bond

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"testing"
	"time"
)

// a context which is cancelled after some number of looks at it, and does something at one of them
type zzCtx struct {
	context.Context
	s    *zzStore
	look int
	at   int
	f    func()
}

func (c *zzCtx) looked() {
	c.look++
	if c.look == c.at && c.f != nil {
		c.f()
	}
	if c.s.ctxFail > 0 {
		c.s.ctxCalls++
	}
}

func (c *zzCtx) Done() <-chan struct{} {
	c.looked()
	ch := make(chan struct{})
	if c.s.ctxFail > 0 && c.s.ctxCalls >= c.s.ctxFail {
		close(ch)
	}
	return ch
}

func (c *zzCtx) Err() error {
	c.looked()
	if c.s.ctxFail > 0 && c.s.ctxCalls >= c.s.ctxFail {
		return context.Canceled
	}
	return nil
}

// zzWant is what an operation should do to the rows m (nil: it must fail).
func zzWant(op string, m map[string]zzRow, trs []zzRow, conflict func(a, b zzRow) zzRow) map[string]zzRow {
	m = zzCopy(m)
	seen := map[string]bool{}
	for _, r := range trs {
		_, stored := m[r.K]
		switch op {
		case "Insert":
			if stored || seen[r.K] {
				return nil
			}
			m[r.K] = r
		case "Update":
			if !stored {
				return nil
			}
			m[r.K] = r
		case "Upsert":
			if stored && conflict != nil {
				r2 := conflict(m[r.K], r)
				m[r.K] = r2
			} else {
				m[r.K] = r
			}
		case "Delete":
			delete(m, r.K)
		default:
			m[r.K] = r
		}
		seen[r.K] = true
	}
	return m
}

// write runs one write operation; trs fit the operation's requirements.
func (l *zzLab) write(op string, ctx context.Context, trs, olds []zzRow, conflict func(a, b zzRow) zzRow, opt []Batch) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panics: %v", p)
			l.fails("C06 C07 C08", "%s panics: %v", op, p)
		}
	}()
	switch op {
	case "Insert":
		return l.t.Insert(ctx, trs, opt...)
	case "Update":
		return l.t.Update(ctx, trs, opt...)
	case "Upsert":
		return l.t.Upsert(ctx, trs, conflict, opt...)
	case "Delete":
		return l.t.Delete(ctx, trs, opt...)
	case "UnsafeInsert":
		return l.t.(*_table[zzRow]).UnsafeInsert(ctx, trs, opt...)
	default:
		return l.t.(*_table[zzRow]).UnsafeUpdate(ctx, trs, olds, opt...)
	}
}

func (l *zzLab) unlocked(what string) {
	mu := &l.t.(*_table[zzRow]).mutex
	if !mu.TryLock() {
		l.fails("C15", "%s: a lock is still held", what)
		return
	}
	mu.Unlock()
}

// Write operations against the model, with and without failures.
func TestReplayC08(t *testing.T) {
	z := zzStart(t)
	defer z.done()
	raw := zzRaw(t)
	z.bigInput(raw)
	for it := 0; z.more(it, 6000); it++ {
		z.n++
		filter := z.r.Intn(3) == 0
		l := z.newLab(raw, byte(1+z.r.Intn(250)), z.r.Intn(4), filter, z.r.Intn(7))
		// the batch
		var b Batch
		view := zzCopy(l.m)
		switch z.r.Intn(3) {
		case 0:
			b, view = l.someBatch2()
			l.desc += ", with a readable batch over it showing " + zzRows(view)
		case 1:
			b = l.db.Batch(BatchTypeWriteOnly)
			l.desc += ", with a write-only batch"
		}
		ext := 0
		var opt []Batch
		if b != nil {
			ext = 1
			opt = []Batch{b}
		} else if z.r.Intn(4) == 0 {
			opt = []Batch{nil}
		}
		// the operation
		op := []string{"Insert", "Update", "Upsert", "Delete", "UnsafeInsert", "UnsafeUpdate"}[z.r.Intn(6)]
		var trs, olds []zzRow
		used := map[string]bool{}
		for n := z.r.Intn(5); n > 0; n-- {
			r := l.row()
			_, stored := view[r.K]
			switch op {
			case "Insert", "UnsafeInsert":
				if (stored || used[r.K]) && (op == "UnsafeInsert" || z.r.Intn(6) > 0) {
					continue
				}
			case "Update", "UnsafeUpdate":
				if !stored && (op == "UnsafeUpdate" || z.r.Intn(6) > 0) || op == "UnsafeUpdate" && used[r.K] {
					continue
				}
			}
			used[r.K] = true
			trs = append(trs, r)
			olds = append(olds, view[r.K])
		}
		var conflict func(a, b zzRow) zzRow
		switch z.r.Intn(3) {
		case 0:
			conflict = TableUpsertOnConflictReplace[zzRow]
		default:
			conflict = func(old, new zzRow) zzRow {
				new.X, new.O = old.O, old.X
				if len(old.V) < 3 {
					new.V = old.V + "+"
				}
				if new.K == "e" {
					return zzEmptyRow
				}
				return new
			}
		}
		want := zzWant(op, view, trs, conflict)
		// a failure
		// an index added while the operation runs is none of its business
		late := 0
		ctx := &zzCtx{Context: context.Background(), s: l.s, at: 2 + z.r.Intn(8), f: func() {
			mu := &l.t.(*_table[zzRow]).mutex
			if !mu.TryLock() {
				return
			}
			mu.Unlock()
			late = -1
			_ = l.t.AddIndex([]*Index[zzRow]{NewIndex[zzRow](IndexOptions[zzRow]{IndexID: 9, IndexName: "late",
				IndexKeyFunc:    func(b KeyBuilder, r zzRow) []byte { late = 1; return b.Bytes() },
				IndexFilterFunc: func(r zzRow) bool { late = 1; return false },
			})})
		}}
		l.s.arm(0)
		l.s.commits, l.s.synced, l.s.direct = 0, 0, 0
		l.s.ctxCalls, l.s.ctxFail = 0, 0
		l.s.serFails = z.r.Intn(2) == 0
		what := fmt.Sprintf("%s(%v)", op, trs)
		if op == "UnsafeUpdate" {
			what = fmt.Sprintf("%s(%v from %v)", op, trs, olds)
		}
		switch z.r.Intn(6) {
		case 0, 1:
			l.s.fail = 1 + z.r.Intn(12+4*len(trs))
		case 2:
			l.s.ctxFail = 1 + z.r.Intn(1+len(trs))
		}
		err := l.write(op, ctx, trs, olds, conflict, opt)
		if l.s.failed != "" {
			what += fmt.Sprintf(" with a failure at call %d of storage (%s)", l.s.fail, l.s.failed)
		}
		cancelled := l.s.ctxFail > 0 && l.s.ctxCalls >= l.s.ctxFail
		if cancelled {
			what += " cancelled"
		}
		failed := l.s.failed != "" || cancelled
		if late > 0 {
			l.fails("C15", "%s reads the table's map of indexes while AddIndex(9), called at look %d at the context, changes it", what, ctx.at)
		}
		l.s.arm(0)
		l.s.serFails, l.s.ctxFail = false, 0
		if err == nil && failed && !cancelled {
			l.fails("C08", "%s reports success", what)
		}
		if cancelled && err == nil && len(trs) > 0 {
			l.fails("C08", "%s reports success", what)
		}
		if err != nil && !failed && want != nil {
			l.fails("C07 C06", "%s fails: %v", what, err)
		}
		if err == nil && want == nil {
			l.fails("C07", "%s succeeds", what)
		}
		if l.s.direct > 0 {
			l.fails("C08", "%s writes past its batch", what)
		}
		l.unlocked(what)
		// what storage holds now
		before := zzEntries(l.tid, len(l.idxs), l.m)
		now := l.content(l.raw)
		switch {
		case b != nil:
			if l.s.commits > 0 {
				l.fails("C08", "%s commits the caller's batch", what)
			}
			if lb := b.(*zzLabBatch); lb.closed {
				l.fails("C16 C08", "%s closes the caller's batch", what)
				b = nil
				ext = 0
			}
			if d := zzDiff(now, before); d != "" {
				l.fails("C08", "%s into a batch changes what is stored: %s", what, d)
			}
		case err != nil:
			if d := zzDiff(now, before); d != "" {
				l.fails("C08", "%s fails (%v) with an effect: %s", what, err, d)
			}
		default:
			if l.s.commits != 1 || l.s.synced != 1 {
				l.fails("C08", "%s made %d commits, %d of them synced", what, l.s.commits, l.s.synced)
			}
		}
		l.leaks(what, ext)
		if b != nil {
			if err == nil && !failed {
				if e := b.Commit(Sync); e != nil {
					panic(e)
				}
				now = l.content(l.raw)
			}
			_ = b.Close()
			ext = 0
		}
		if err == nil && !failed && want != nil {
			if d := zzDiff(now, zzEntries(l.tid, len(l.idxs), want)); d != "" {
				l.fails("C06 C07", "after %s (rows should be %s): %s", what, zzRows(want), d)
			}
			l.m = want
		} else if b == nil || err != nil {
			want = l.m
		}
		l.s.iters, l.s.values, l.s.batches, l.s.double = 0, 0, 0, ""
		if z.found {
			return
		}
		l.others(now)
	}
}

// others runs reads, scans and index maintenance, with failures.
func (l *zzLab) others(stored map[string]string) {
	z := l.z
	t := l.t.(*_table[zzRow])
	l.s.arm(0)
	l.s.ctxCalls, l.s.ctxFail = 0, 0
	l.s.serFails = z.r.Intn(2) == 0
	l.desc = fmt.Sprintf("table %d, %d indexes, prefetch %d", l.tid, len(l.idxs), t.scanPrefetchSize)
	if z.r.Intn(3) > 0 {
		l.s.fail = 1 + z.r.Intn(14)
	}
	if z.r.Intn(5) == 0 {
		l.s.ctxFail = 1 + z.r.Intn(4)
	}
	ctx := &zzCtx{Context: context.Background(), s: l.s}
	r := l.row()
	idx := t.PrimaryIndex()
	if len(l.idxs) > 0 && z.r.Intn(3) > 0 {
		idx = l.idxs[z.r.Intn(len(l.idxs))]
	}
	sel := NewSelectorPoint(r)
	var b Batch
	ext := 0
	if z.r.Intn(3) == 0 {
		b, ext = l.db.Batch(BatchTypeReadWrite), 1
	}
	var what string
	var out []zzRow
	func() {
		defer func() {
			if p := recover(); p != nil {
				l.fails("C15 C16 C24", "%s panics: %v", what, p)
			}
		}()
		switch z.r.Intn(9) {
		case 0:
			what = fmt.Sprintf("Exist(%v)", r)
			l.t.Exist(r, b)
		case 1:
			what = fmt.Sprintf("GetPoint(%v)", r)
			_, _ = l.t.GetPoint(ctx, r, b)
		case 2:
			what = "Get of points"
			_, _ = l.t.Get(ctx, NewSelectorPoints(r, l.row(), l.row()), b)
		case 3:
			what = fmt.Sprintf("ScanIndex(%d, %v)", idx.IndexID, r)
			_ = l.t.ScanIndex(ctx, idx, sel, &out, z.r.Intn(2) == 0, b)
		case 4:
			n, get := z.r.Intn(5), z.r.Intn(3)
			what = fmt.Sprintf("ScanIndexForEach(%d, %v) stopping at %d", idx.IndexID, r, n)
			done := make(chan struct{})
			go func() {
				defer close(done)
				k := 0
				_ = l.t.ScanIndexForEach(ctx, idx, NewSelectorRange(zzRow{}, zzRow{K: "\xff\xff", X: "\xff\xff", V: "\xff\xff", In: true}), func(_ KeyBytes, lz Lazy[zzRow]) (bool, error) {
					for i := 0; i < get; i++ {
						if _, err := lz.Get(); err != nil {
							return false, err
						}
					}
					k++
					return k != n, nil
				}, z.r.Intn(2) == 0, b)
			}()
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				l.fails("C12 C16", "%s (%d reads per row) never ends", what, get)
				return
			}
		case 5:
			what = "a query"
			q := l.t.Query().With(idx, sel)
			if z.r.Intn(2) == 0 {
				q = q.Limit(uint64(z.r.Intn(3))).Offset(uint64(z.r.Intn(2)))
			}
			_ = q.Execute(ctx, &out, b)
		case 6:
			what = "an intersection"
			q := l.t.Query().With(idx, sel)
			for _, i := range l.idxs {
				q = q.Intersects(l.t.Query().With(i, NewSelectorPoint(r)))
			}
			_ = q.Execute(ctx, &out, b)
		case 7:
			if l.tid == 255 {
				return
			}
			what = "ReIndex"
			l.s.ctxFail = 0
			for _, i := range l.idxs { // an entry of no row, and a missing one
				_ = l.raw.Set([]byte(zzIndexKey(l.tid, byte(i.IndexID), "zz", "", "none")), nil, NoSync)
			}
			err := l.t.ReIndex(l.idxs)
			failed := l.s.failed != ""
			if err == nil && failed {
				l.fails("C24 C12", "ReIndex reports success in spite of a failure at call %d of storage (%s)", l.s.fail, l.s.failed)
			}
			if err != nil && !failed {
				l.fails("C24", "ReIndex fails: %v", err)
			}
			if err == nil {
				if d := zzDiff(l.content(l.raw), stored); d != "" {
					l.fails("C24", "after ReIndex: %s", d)
				}
			}
		case 8:
			n := len(l.idxs) + 1
			if z.r.Intn(3) == 0 {
				n = 1
			}
			what = "SecondaryIndexes and Indexes"
			_, _ = t.SecondaryIndexes(), t.Indexes()
			l.unlocked(what)
			if z.found {
				return
			}
			what = fmt.Sprintf("AddIndex(%d)", n)
			_ = l.t.AddIndex([]*Index[zzRow]{zzIdx(n)}, z.r.Intn(2) == 0)
			l.unlocked(what)
			what += " and lists of indexes"
			a, c := t.SecondaryIndexes(), t.Indexes()
			if len(a)+1 != len(c) || !sort.SliceIsSorted(c, func(i, j int) bool { return c[i].ID() < c[j].ID() }) {
				l.fails("C15", "%s: %d secondary indexes, %d indexes in all", what, len(a), len(c))
			}
		}
	}()
	if z.found {
		return
	}
	if l.s.failed != "" {
		what += fmt.Sprintf(" with a failure at call %d of storage (%s)", l.s.fail, l.s.failed)
	}
	l.s.arm(0)
	l.unlocked(what)
	if b != nil && b.(*zzLabBatch).closed {
		l.fails("C16", "%s closes the caller's batch", what)
		return
	}
	l.leaks(what, ext)
	if b != nil {
		_ = b.Close()
	}
}

// someBatch2 is a readable batch with rows and their entries changed.
func (l *zzLab) someBatch2() (Batch, map[string]zzRow) {
	z := l.z
	b := l.db.Batch(BatchTypeReadWrite)
	m := zzCopy(l.m)
	l.s.arm(0)
	for n := z.r.Intn(4); n > 0; n-- {
		r := l.row()
		if old, ok := m[r.K]; ok {
			for k := range zzEntries(l.tid, len(l.idxs), map[string]zzRow{r.K: old}) {
				_ = b.Delete([]byte(k), NoSync)
			}
			delete(m, r.K)
		}
		if z.r.Intn(3) == 0 {
			continue
		}
		for k, v := range zzEntries(l.tid, len(l.idxs), map[string]zzRow{r.K: r}) {
			_ = b.Set([]byte(k), []byte(v), NoSync)
		}
		if f := l.t.(*_table[zzRow]).filter; f != nil {
			f.Add(context.Background(), []byte(zzDataKey(l.tid, r.K)))
		}
		m[r.K] = r
	}
	return b, m
}

// inputs of more rows than are handled at a time
func (z *zzReplay) bigInput(raw DB) {
	var rows []zzRow
	for i := 0; i < persistentBatchSize+300; i++ {
		rows = append(rows, zzRow{K: fmt.Sprint(i), X: "x", V: fmt.Sprint(i % 7), In: i%2 == 0})
	}
	z.r.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	ctx := context.Background()
	more := append([]zzRow{{K: "zz", X: "first"}}, rows...)
	store := func(l *zzLab, rows []zzRow) map[string]zzRow {
		b := raw.Batch(BatchTypeWriteOnly)
		defer b.Close()
		m := map[string]zzRow{}
		for _, r := range rows {
			r.V, r.In = "old", !r.In
			m[r.K] = r
		}
		for k, v := range zzEntries(l.tid, len(l.idxs), m) {
			_ = b.Set([]byte(k), []byte(v), NoSync)
		}
		_ = b.Commit(Sync)
		return m
	}
	for _, op := range []string{"Insert", "UnsafeInsert", "Upsert", "Update", "UnsafeUpdate", "Delete"} {
		for _, fail := range []int{0, persistentBatchSize*3 + 50} {
			l := z.newLab(raw, 200, 2, false, 0)
			var before map[string]zzRow
			var olds []zzRow
			if op == "Update" || op == "UnsafeUpdate" || op == "Delete" {
				before = store(l, rows)
				for _, r := range rows {
					olds = append(olds, before[r.K])
				}
			}
			stored := l.content(raw)
			l.s.arm(fail)
			err := l.write(op, ctx, rows, olds, TableUpsertOnConflictReplace[zzRow], nil)
			what := fmt.Sprintf("%s of %d rows", op, len(rows))
			if l.s.failed != "" {
				what += fmt.Sprintf(" with a failure at call %d of storage (%s)", fail, l.s.failed)
			}
			now := l.content(raw)
			if l.s.failed != "" || err != nil {
				if err == nil {
					l.fails("C08", "%s reports success", what)
				} else if l.s.failed == "" {
					l.fails("C07", "%s fails: %v", what, err)
				}
				if d := zzDiff(now, stored); d != "" {
					l.fails("C08", "%s fails with an effect: %s", what, d)
				}
			} else {
				if l.s.commits != 1 || l.s.synced != 1 {
					l.fails("C08", "%s made %d commits, %d of them synced", what, l.s.commits, l.s.synced)
				}
				if d := zzDiff(now, zzEntries(200, 2, zzWant(op, before, rows, nil))); d != "" {
					l.fails("C06 C07", "after %s: %s", what, d)
				}
			}
			if op == "Update" && fail > 0 { // the row which is not stored comes last
				l.s.arm(0)
				if err := l.write(op, ctx, more, nil, nil, nil); err == nil {
					l.fails("C07", "Update of a row which is not stored succeeds")
				}
				if d := zzDiff(l.content(raw), stored); d != "" {
					l.fails("C08 C07", "Update of %d stored rows and one more fails with an effect: %s", len(rows), d)
				}
				more = append(rows, more[0])
				if err := l.write(op, ctx, more, nil, nil, nil); err == nil {
					l.fails("C07", "Update of a row which is not stored succeeds")
				}
				if d := zzDiff(l.content(raw), stored); d != "" {
					l.fails("C08 C07", "Update of %d stored rows and one more fails with an effect: %s", len(rows), d)
				}
			}
			l.leaks(what, 0)
			l.unlocked(what)
			if op != "Insert" || fail > 0 || err != nil {
				continue
			}
			// a key repeated far apart, and a row of the second part which is stored
			l = z.newLab(raw, 201, 1, false, 0)
			twice := append(append([]zzRow{}, rows...), rows[3])
			if err := l.write("Insert", ctx, twice, nil, nil, nil); err == nil {
				l.fails("C07", "Insert of %d rows succeeds in spite of a repeated key", len(twice))
			}
			if n := len(l.content(raw)); n > 0 {
				l.fails("C08 C07", "Insert of a repeated key fails with an effect: %d keys stored", n)
			}
			l.leaks("Insert of a repeated key", 0)
		}
	}
	// re-indexing in several commits
	l := z.newLab(raw, 202, 2, false, 0)
	for i := 0; i < ReindexBatchSize+50 && i < 50000; i++ {
		r := zzRow{K: fmt.Sprint(i), X: "x", V: fmt.Sprint(i % 7), In: i%2 == 0}
		l.m[r.K] = r
	}
	b := raw.Batch(BatchTypeWriteOnly)
	for k, v := range zzEntries(202, 0, l.m) {
		_ = b.Set([]byte(k), []byte(v), NoSync)
	}
	_ = b.Commit(Sync)
	_ = b.Close()
	if err := l.t.ReIndex(l.idxs); err != nil && !errors.Is(err, zzInjected) {
		l.fails("C24", "ReIndex fails: %v", err)
	}
	l.leaks("ReIndex", 0)
	if d := zzDiff(l.content(raw), zzEntries(202, 2, l.m)); d != "" {
		l.fails("C24", "after ReIndex: %s", d)
	}
}
