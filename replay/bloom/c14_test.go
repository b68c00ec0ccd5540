package bloom

import (
	"context"
	"encoding/binary"
	"errors"
	"io"
	"sort"
	"sync"
	"testing"

	"github.com/go-bond/bond"
)

var errZZ = errors.New("storage failure")

// a store which fails at its n-th call if n > 0
type zzStore struct {
	data map[string][]byte
	call int
	at   int
	open int
}

func (s *zzStore) fails() bool {
	s.call++
	return s.call == s.at
}

type zzCloser struct{ s *zzStore }

func (c zzCloser) Close() error { c.s.open--; return nil }

func (s *zzStore) Get(key []byte, batch ...bond.Batch) ([]byte, io.Closer, error) {
	if s.fails() {
		return nil, nil, errZZ
	}
	v, ok := s.data[string(key)]
	if !ok {
		return nil, nil, bond.ErrNotFound
	}
	s.open++
	return append([]byte{}, v...), zzCloser{s}, nil
}

func (s *zzStore) Set(key, value []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
	if s.fails() {
		return errZZ
	}
	s.data[string(key)] = append([]byte{}, value...)
	return nil
}

func (s *zzStore) DeleteRange(start, end []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
	if s.fails() {
		return errZZ
	}
	for k := range s.data {
		if k >= string(start) && k < string(end) {
			delete(s.data, k)
		}
	}
	return nil
}

// a scan over given keys which fails after some of them
type zzScanner struct {
	bond.TableScanner[any]
	keys [][]byte
	at   int
}

func (s *zzScanner) ScanForEach(ctx context.Context, f func(keyBytes bond.KeyBytes, l bond.Lazy[any]) (bool, error), reverse bool, b ...bond.Batch) error {
	var buf []byte
	for i, k := range s.keys {
		if s.at > 0 && i+1 == s.at {
			return errZZ
		}
		buf = append(buf[:0], k...) // the key is the callback's only during the call
		cont, err := f(buf, bond.Lazy[any]{})
		if err != nil || !cont {
			return err
		}
	}
	return nil
}

type zzC14Row struct {
	ID uint64
	V  string
}

// The filter never denies a key which was added, in memory, saved and loaded and rebuilt.
func TestReplayC14(t *testing.T) {
	z := zzStart(t)
	defer z.done()
	ctx := context.Background()
	counts := []int{1, 2, 3, 7, 64, 257, 1000}
	for i := 0; z.more(i, 4000); i++ {
		z.n++
		nb := counts[z.r.Intn(len(counts))]
		if nb > 7 && z.r.Intn(20) != 0 {
			nb = 1 + z.r.Intn(6)
		}
		n := uint(1 + z.r.Intn(50))
		st := &zzStore{data: map[string][]byte{}}
		bf := NewBloomFilter(n, 0.01, nb)
		keys := map[string]bool{}  // added
		saved := map[string]bool{} // in the last complete save
		whole := false             // the store holds a complete save
		check := func(f bond.Filter, ks map[string]bool, what string) {
			for k := range ks {
				kb := z.buf([]byte(k))
				if !f.MayContain(ctx, kb) {
					z.fail("%d buckets of %d: key %x was added and is denied %s", nb, n, k, what)
				}
				if string(kb) != k {
					z.fail("%d buckets: asking for key %x changed it", nb, k)
				}
			}
		}
		if z.r.Intn(3) == 0 { // a filter with more buckets was saved before
			if err := NewBloomFilter(n, 0.01, nb+1+z.r.Intn(3)).Save(ctx, st); err != nil {
				z.fail("saving an empty filter failed: %v", err)
			}
		}
		z.guard("bloom filter", func() {
			for op := z.r.Intn(12); op >= 0 && !z.found; op-- {
				st.at, st.call = 0, 0
				if z.r.Intn(4) == 0 {
					st.at = 1 + z.r.Intn(nb+2)
				}
				switch z.r.Intn(6) {
				case 0, 1:
					for a := z.r.Intn(6); a >= 0; a-- {
						k := z.bytesN(12)
						if z.r.Intn(2) == 0 {
							for x := range keys { // one which was added before
								k = []byte(x)
								break
							}
						}
						kb := z.buf(k)
						bf.Add(ctx, kb)
						keys[string(k)] = true
						for x := range kb { // the buffer is reused
							kb[x] ^= 0x55
						}
					}
				case 2, 3:
					if err := bf.Save(ctx, st); err == nil {
						whole, saved = true, map[string]bool{}
						for k := range keys {
							saved[k] = true
						}
						if st.at > 0 && st.call >= st.at {
							z.fail("%d buckets: call %d of the store failed and Save succeeded", nb, st.at)
						}
						st.at = 0
						g := NewBloomFilter(n, 0.01, nb)
						if err := g.Load(ctx, st); err != nil {
							z.fail("%d buckets: loading a saved filter failed: %v", nb, err)
						}
						check(g, saved, "after saving and loading")
						if h := NewBloomFilter(n, 0.01, nb+1+z.r.Intn(3)); h.Load(ctx, st) == nil {
							z.fail("a filter saved with %d buckets was loaded with more", nb)
						}
					} else if st.at == 0 {
						z.fail("%d buckets: Save failed: %v", nb, err)
					} else {
						whole = false
					}
				case 4:
					// a restart, rebuilding from the rows
					g := NewBloomFilter(n, 0.01, nb)
					var all []string
					for k := range keys {
						all = append(all, k)
					}
					sort.Strings(all)
					cut := z.r.Intn(len(all) + 1)
					sc := []*zzScanner{{}, {}}
					for x, k := range all {
						y := 0
						if x >= cut {
							y = 1
						}
						sc[y].keys = append(sc[y].keys, []byte(k))
					}
					if z.r.Intn(3) == 0 {
						y := z.r.Intn(2)
						sc[y].at = z.r.Intn(len(sc[y].keys) + 1)
					}
					failing := sc[0].at > 0 || sc[1].at > 0
					usable := whole && len(saved) == len(keys) // a stale save is a known finding
					if !usable {
						for k := range st.data {
							delete(st.data, k)
						}
						whole = false
					}
					f := &bond.FilterInitializable{Filter: g}
					err := f.Initialize(ctx, st, []bond.TableScanner[any]{sc[0], sc[1]})
					if err == nil && !usable && failing {
						z.fail("%d buckets: a scan failed and the filter is initialised", nb)
					}
					check(f, keys, "after initialising from the rows")
					if err != nil {
						if f.Save(ctx, st) == nil {
							z.fail("%d buckets: a filter which is not initialised was saved", nb)
						}
						return
					} else {
						bf = g
					}
					if len(st.data) == 0 {
						whole = false
					}
				case 5:
					_ = bf.Clear(ctx, st)
					whole = len(st.data) > 0 && whole
				}
				if st.open != 0 {
					z.fail("%d buckets: %d values of the store left open", nb, st.open)
				}
				check(bf, keys, "in memory")
			}
		})
	}
	// concurrent additions
	for i := 0; z.more(i, 20); i++ {
		z.n++
		bf := NewBloomFilter(100, 0.01, 1+z.r.Intn(3))
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for x := 0; x < 200; x++ {
					bf.Add(ctx, binary.BigEndian.AppendUint64(nil, uint64(g*1000+x)))
				}
			}(g)
		}
		wg.Wait()
		for g := 0; g < 8; g++ {
			for x := 0; x < 200; x++ {
				if !bf.MayContain(ctx, binary.BigEndian.AppendUint64(nil, uint64(g*1000+x))) {
					z.fail("concurrently added key %d is denied", g*1000+x)
				}
			}
		}
	}
	if z.found {
		return
	}
	// tables with a filter
	db, err := bond.Open(zzDir(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	for i := 0; z.more(i, 60); i++ {
		z.n++
		bf := NewBloomFilter(100, 0.001, 1+z.r.Intn(5))
		tab := bond.NewTable[*zzC14Row](bond.TableOptions[*zzC14Row]{
			DB: db, TableID: bond.TableID(1 + i%200), TableName: "t",
			TablePrimaryKeyFunc: func(b bond.KeyBuilder, r *zzC14Row) []byte { return b.AddUint64Field(r.ID).Bytes() },
			Filter:              bf,
		})
		want := map[uint64]string{}
		for op := 0; op < 6 && !z.found; op++ {
			n := 1 + z.r.Intn(8)
			if z.r.Intn(20) == 0 {
				n = 5000 + z.r.Intn(200) // more than one chunk
			}
			var rs []*zzC14Row
			seen := map[uint64]bool{}
			what := z.r.Intn(3)
			for len(rs) < n {
				id := uint64(z.r.Intn(20 * n))
				if _, ok := want[id]; seen[id] || what == 0 && ok {
					if len(want) > 10*n {
						break
					}
					continue
				}
				seen[id] = true
				rs = append(rs, &zzC14Row{id, string(z.bytesN(3))})
			}
			var b bond.Batch
			var opt []bond.Batch
			if z.r.Intn(2) == 0 {
				b = db.Batch(bond.BatchTypeReadWrite)
				opt = append(opt, b)
			}
			name := []string{"Insert", "Upsert", "UnsafeInsert"}[what]
			var err error
			switch what {
			case 0:
				err = tab.Insert(ctx, rs, opt...)
			case 1:
				err = tab.Upsert(ctx, rs, func(_, n *zzC14Row) *zzC14Row { return n }, opt...)
			case 2:
				err = tab.(bond.TableUnsafeInserter[*zzC14Row]).UnsafeInsert(ctx, rs, opt...)
			}
			if err == nil && b != nil {
				err = b.Commit(bond.Sync)
			}
			if b != nil {
				_ = b.Close()
			}
			if err != nil {
				z.fail("%s of %d rows: %v", name, len(rs), err)
			}
			for _, r := range rs {
				want[r.ID] = r.V
				if !tab.Exist(r) {
					z.fail("%s of %d rows: row %d does not exist", name, len(rs), r.ID)
				}
				if _, err := tab.Get(ctx, bond.NewSelectorPoint(&zzC14Row{ID: r.ID})); err != nil {
					z.fail("%s of %d rows: row %d: %v", name, len(rs), r.ID, err)
				}
			}
		}
	}
}
