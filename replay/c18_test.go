package bond

import (
	"fmt"
	"testing"
)

// Random histories of one or two batches against a model of the callbacks. A
// read-only database makes the underlying commit fail.
func TestReplayC18(t *testing.T) {
	z := zzStart(t)
	defer z.done()
	dir := zzDir(t)
	dbi, err := Open(dir, nil)
	if err != nil {
		t.Fatal(err)
	}
	if err := dbi.Close(); err != nil {
		t.Fatal(err)
	}
	ro := DefaultOptions()
	ro.PebbleOptions = DefaultPebbleOptions()
	ro.PebbleOptions.ReadOnly = true
	rodb, err := Open(dir, ro)
	if err != nil {
		t.Fatal(err)
	}
	defer rodb.Close()
	db, err := Open(zzDir(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()

	type model struct {
		commit, committed, errs, closes []string
		fail                            map[string]bool
		n                               int
		keys                            map[int]bool
	}
	run := 0
	for it := 0; z.more(it, 1500); it++ {
		z.n++
		z.guard("batch history", func() {
			run++
			readOnly := z.r.Intn(3) == 0
			d := db
			if readOnly {
				d = rodb
			}
			var log []string
			hist := fmt.Sprintf("run %d readonly=%v:", run, readOnly)
			key := func(i int) []byte { return NewUserKey(fmt.Sprintf("k%d-%d", run, i)) }
			mk := func(name string) (Batch, *model) {
				b := d.Batch([]BatchType{BatchTypeWriteOnly, BatchTypeReadWrite}[z.r.Intn(2)])
				return b, &model{fail: map[string]bool{}, keys: map[int]bool{}}
			}
			applied := func(k []byte) bool {
				_, c, err := d.Get(k)
				if err == nil {
					_ = c.Close()
				}
				return err == nil
			}
			a, ma := mk("a")
			b, mb := mk("b")
			bs, ms := []Batch{a, b}, []*model{ma, mb}
			closed := []bool{false, false}
			var want []string
			check := func(what string) bool {
				if fmt.Sprint(log) != fmt.Sprint(want) {
					z.fail("%s: after %s callbacks ran as %v, want %v", hist, what, log, want)
					return false
				}
				return true
			}
			for step := 0; step < 14; step++ {
				i := z.r.Intn(2)
				if closed[i] {
					continue
				}
				bt, m := bs[i], ms[i]
				switch z.r.Intn(10) {
				case 0, 1, 2, 3:
					m.n++
					id := fmt.Sprintf("%d.%d", i, m.n)
					switch z.r.Intn(4) {
					case 0:
						fail := z.r.Intn(4) == 0
						hist += fmt.Sprintf(" onCommit(%s fail=%v)", id, fail)
						k := key(i)
						bt.OnCommit(func(Batch) error {
							log = append(log, "commit "+id)
							if applied(k) {
								log = append(log, "changes were applied before commit callback "+id)
							}
							if fail {
								return fmt.Errorf("refused by %s", id)
							}
							return nil
						})
						m.fail["commit "+id] = fail
						m.commit = append(m.commit, "commit "+id)
					case 1:
						hist += fmt.Sprintf(" onCommitted(%s)", id)
						bt.OnCommitted(func(Batch) { log = append(log, "committed "+id) })
						m.committed = append(m.committed, "committed "+id)
					case 2:
						hist += fmt.Sprintf(" onError(%s)", id)
						bt.OnError(func(_ Batch, err error) { log = append(log, "error "+id) })
						m.errs = append(m.errs, "error "+id)
					case 3:
						hist += fmt.Sprintf(" onClose(%s)", id)
						bt.OnClose(func(Batch) { log = append(log, "close "+id) })
						m.closes = append(m.closes, "close "+id)
					}
				case 4:
					hist += fmt.Sprintf(" set(%d)", i)
					m.keys[i] = true
					_ = bt.Set(key(i), []byte("v"), Sync)
				case 5, 6: // commit
					if bt.Empty() && z.r.Intn(3) > 0 {
						hist += fmt.Sprintf(" set(%d)", i)
						m.keys[i] = true
					_ = bt.Set(key(i), []byte("v"), Sync)
					}
					hist += fmt.Sprintf(" commit(%d)", i)
					empty := bt.Empty()
					var err error
					if z.r.Intn(2) == 0 {
						err = bt.Commit(NoSync)
					} else {
						err = d.Apply(bt, NoSync)
					}
					ok := true
					if !empty {
						for _, c := range m.commit {
							want = append(want, c)
							if m.fail[c] {
								ok = false
								break
							}
						}
						if ok && readOnly {
							ok = false
							want = append(want, m.errs...)
						}
						if ok {
							want = append(want, m.committed...)
						}
					}
					if (err == nil) != ok {
						z.fail("%s: commit returned %v, expected success=%v", hist, err, ok)
						return
					}
					if !check("commit") {
						return
					}
					if !empty {
						// a batch is committed once
						closed[i] = true
						want = append(want, m.closes...)
						_ = bt.Close()
						if !check("close of a committed batch") {
							return
						}
						for k := range m.keys {
							if !readOnly && applied(key(k)) != ok {
								z.fail("%s: commit returned %v but the changes being applied is %v", hist, err, applied(key(k)))
								return
							}
							if ok {
								_ = d.Delete(key(k), NoSync)
							}
						}
					}
				case 7: // apply the other batch
					j := 1 - i
					if closed[j] {
						continue
					}
					o := ms[j]
					hist += fmt.Sprintf(" apply(%d into %d)", j, i)
					err := bt.Apply(bs[j], NoSync)
					ok := true
					for _, c := range o.commit {
						want = append(want, c)
						if o.fail[c] {
							ok = false
							break
						}
					}
					if ok {
						want = append(want, o.committed...)
						for k := range o.keys {
							m.keys[k] = true
						}
					}
					if (err == nil) != ok {
						z.fail("%s: apply returned %v, expected success=%v", hist, err, ok)
						return
					}
					if !check("apply") {
						return
					}
				case 8:
					hist += fmt.Sprintf(" reset(%d)", i)
					bt.Reset()
					*m = model{fail: map[string]bool{}, keys: map[int]bool{}, n: m.n}
					if !bt.Empty() {
						z.fail("%s: not empty after reset", hist)
						return
					}
				case 9:
					hist += fmt.Sprintf(" close(%d)", i)
					closed[i] = true
					want = append(want, m.closes...)
					if err := bt.Close(); err != nil {
						want = append(want, m.errs...)
					}
					if !check("close") {
						return
					}
				}
			}
			for i := range bs {
				if !closed[i] {
					want = append(want, ms[i].closes...)
					_ = bs[i].Close()
					hist += fmt.Sprintf(" close(%d)", i)
				}
			}
			check("the end")
		})
	}
}
