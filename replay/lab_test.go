package bond

// A table under test next to a model of what it should hold, over storage
// which counts what is opened and fails on request.

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
)

var zzInjected = errors.New("injected storage failure")

// zzStore counts calls and objects; the call number fail fails.
type zzStore struct {
	calls, fail               int
	failed                    string
	iters, values             int // open
	batches                   int // open
	commits, synced, direct   int
	double                    string // something closed twice or used after its close
	serFails                  bool
	ctxCalls, ctxFail         int
	cancel                    context.CancelFunc
}

func (s *zzStore) op(what string) error {
	s.calls++
	if s.fail > 0 && s.calls == s.fail {
		s.failed = what
		return fmt.Errorf("%s: %w", what, zzInjected)
	}
	return nil
}

func (s *zzStore) arm(fail int) { s.calls, s.fail, s.failed = 0, fail, "" }

type zzLabDB struct {
	DB
	s *zzStore
}

type zzCloser struct {
	io.Closer
	s    *zzStore
	done bool
	data []byte
}

func (c *zzCloser) Close() error {
	if c.done {
		c.s.double = "a value is released twice"
		return nil
	}
	c.done = true
	c.s.values--
	for i := range c.data { // storage may reuse its memory from now on
		c.data[i] ^= 0xA5
	}
	return c.Closer.Close()
}

func (d *zzLabDB) Get(key []byte, batch ...Batch) ([]byte, io.Closer, error) {
	if len(batch) > 0 && batch[0] != nil {
		return batch[0].Get(key)
	}
	if err := d.s.op("get"); err != nil {
		return nil, nil, err
	}
	return d.s.value(d.DB.Get(key))
}

func (s *zzStore) value(v []byte, c io.Closer, err error) ([]byte, io.Closer, error) {
	if err != nil {
		return v, c, err
	}
	s.values++
	cp := append(make([]byte, 0, len(v)+1), v...)
	return cp, &zzCloser{Closer: c, s: s, data: cp}, nil
}

func (d *zzLabDB) Set(key []byte, value []byte, opt WriteOptions, batch ...Batch) error {
	if len(batch) > 0 && batch[0] != nil {
		return batch[0].Set(key, value, opt)
	}
	if err := d.s.op("set"); err != nil {
		return err
	}
	d.s.direct++
	return d.DB.Set(key, value, opt)
}

func (d *zzLabDB) Delete(key []byte, opt WriteOptions, batch ...Batch) error {
	if len(batch) > 0 && batch[0] != nil {
		return batch[0].Delete(key, opt)
	}
	if err := d.s.op("delete"); err != nil {
		return err
	}
	d.s.direct++
	return d.DB.Delete(key, opt)
}

func (d *zzLabDB) DeleteRange(a, b []byte, opt WriteOptions, batch ...Batch) error {
	if len(batch) > 0 && batch[0] != nil {
		return batch[0].DeleteRange(a, b, opt)
	}
	if err := d.s.op("delete range"); err != nil {
		return err
	}
	d.s.direct++
	return d.DB.DeleteRange(a, b, opt)
}

func (d *zzLabDB) Iter(opt *IterOptions, batch ...Batch) Iterator {
	if len(batch) > 0 && batch[0] != nil {
		return batch[0].Iter(opt)
	}
	d.s.iters++
	return &zzLabIter{Iterator: d.DB.Iter(opt), s: d.s}
}

func (d *zzLabDB) Batch(t BatchType) Batch {
	d.s.batches++
	return &zzLabBatch{Batch: d.DB.Batch(t), s: d.s}
}

func (d *zzLabDB) Apply(b Batch, opt WriteOptions) error { return b.Commit(opt) }

type zzLabBatch struct {
	Batch
	s               *zzStore
	closed, applied bool
	ext             bool
}

func (b *zzLabBatch) Get(key []byte, _ ...Batch) ([]byte, io.Closer, error) {
	if err := b.s.op("batch get"); err != nil {
		return nil, nil, err
	}
	return b.s.value(b.Batch.Get(key))
}

func (b *zzLabBatch) Set(key []byte, value []byte, opt WriteOptions, _ ...Batch) error {
	if b.closed {
		b.s.double = "a closed batch is used"
	}
	if err := b.s.op("batch set"); err != nil {
		return err
	}
	return b.Batch.Set(key, value, opt)
}

func (b *zzLabBatch) Delete(key []byte, opt WriteOptions, _ ...Batch) error {
	if err := b.s.op("batch delete"); err != nil {
		return err
	}
	return b.Batch.Delete(key, opt)
}

func (b *zzLabBatch) DeleteRange(x, y []byte, opt WriteOptions, _ ...Batch) error {
	if err := b.s.op("batch delete range"); err != nil {
		return err
	}
	return b.Batch.DeleteRange(x, y, opt)
}

func (b *zzLabBatch) Iter(opt *IterOptions, _ ...Batch) Iterator {
	b.s.iters++
	return &zzLabIter{Iterator: b.Batch.Iter(opt), s: b.s}
}

func (b *zzLabBatch) Commit(opt WriteOptions) error {
	if err := b.s.op("commit"); err != nil {
		return err
	}
	b.s.commits++
	if opt.Sync {
		b.s.synced++
	}
	b.applied = true
	return b.Batch.Commit(opt)
}

func (b *zzLabBatch) Close() error {
	if b.closed {
		b.s.double = "a batch is closed twice"
		return nil
	}
	b.closed = true
	b.s.batches--
	return b.Batch.Close()
}

type zzLabIter struct {
	Iterator
	s      *zzStore
	err    error
	closed bool
}

func (i *zzLabIter) move(what string, f func() bool) bool {
	if i.closed {
		i.s.double = "a closed iterator is used"
		return false
	}
	if i.err == nil {
		i.err = i.s.op("iterator " + what)
	}
	if i.err != nil {
		return false
	}
	return f()
}

func (i *zzLabIter) First() bool { return i.move("first", i.Iterator.First) }
func (i *zzLabIter) Last() bool  { return i.move("last", i.Iterator.Last) }
func (i *zzLabIter) Next() bool  { return i.move("next", i.Iterator.Next) }
func (i *zzLabIter) Prev() bool  { return i.move("prev", i.Iterator.Prev) }
func (i *zzLabIter) SeekGE(k []byte) bool {
	i.err = nil // as in pebble, an absolute move starts over
	return i.move("seek", func() bool { return i.Iterator.SeekGE(k) })
}
func (i *zzLabIter) SeekLT(k []byte) bool {
	i.err = nil
	return i.move("seek", func() bool { return i.Iterator.SeekLT(k) })
}
func (i *zzLabIter) SeekPrefixGE(k []byte) bool {
	i.err = nil
	return i.move("seek", func() bool { return i.Iterator.SeekPrefixGE(k) })
}
func (i *zzLabIter) Valid() bool { return i.err == nil && !i.closed && i.Iterator.Valid() }
func (i *zzLabIter) Error() error {
	if i.err != nil {
		return i.err
	}
	return i.Iterator.Error()
}
func (i *zzLabIter) Close() error {
	if i.closed {
		i.s.double = "an iterator is closed twice"
		return nil
	}
	i.closed = true
	i.s.iters--
	if err := i.Iterator.Close(); i.err == nil {
		return err
	}
	return i.err
}

type zzRow struct {
	K, V, X, O string
	In         bool
}

func (r zzRow) String() string { return fmt.Sprintf("(%q %q %q %q %v)", r.K, r.V, r.X, r.O, r.In) }

// one row has an empty encoding
var zzEmptyRow = zzRow{K: "e", V: "empty", X: "x", O: "o", In: true}

type zzSer struct{ s *zzStore }

func (z *zzSer) Serialize(t any) ([]byte, error) {
	if z.s != nil && z.s.serFails {
		if err := z.s.op("serialize"); err != nil {
			return nil, err
		}
	}
	r := *t.(*zzRow)
	if r == zzEmptyRow {
		return []byte{}, nil
	}
	var b []byte // fields which are empty are left out, as many serializers do
	f := func(n byte, v string) {
		if v != "" {
			b = append(append(b, n, byte(len(v))), v...)
		}
	}
	f('K', r.K)
	f('V', r.V)
	f('X', r.X)
	f('O', r.O)
	if r.In {
		f('I', "1")
	}
	return append(b, '.'), nil
}

func (z *zzSer) Deserialize(b []byte, t any) error {
	if z.s != nil && z.s.serFails {
		if err := z.s.op("deserialize"); err != nil {
			return err
		}
	}
	r := t.(*zzRow)
	if len(b) == 0 {
		*r = zzEmptyRow
		return nil
	}
	for len(b) > 0 && b[0] != '.' { // keeps what is not in b
		if len(b) < 2 || len(b) < 2+int(b[1]) {
			return errors.New("cut off")
		}
		v := string(b[2 : 2+int(b[1])])
		switch b[0] {
		case 'K':
			r.K = v
		case 'V':
			r.V = v
		case 'X':
			r.X = v
		case 'O':
			r.O = v
		case 'I':
			r.In = true
		default:
			return fmt.Errorf("no row: %x", b)
		}
		b = b[2+len(v):]
	}
	if string(b) != "." {
		return fmt.Errorf("no row: %x", b)
	}
	return nil
}

// knows exactly the keys added
type zzExactFilter struct {
	mu   sync.Mutex
	keys map[string]bool
}

func (f *zzExactFilter) Add(_ context.Context, k []byte) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.keys[string(k)] = true
}
func (f *zzExactFilter) MayContain(_ context.Context, k []byte) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.keys[string(k)]
}
func (f *zzExactFilter) Load(context.Context, FilterStorer) error  { return nil }
func (f *zzExactFilter) Save(context.Context, FilterStorer) error  { return nil }
func (f *zzExactFilter) Clear(context.Context, FilterStorer) error { return nil }

type zzLab struct {
	z    *zzReplay
	db   DB
	raw  DB
	s    *zzStore
	t    Table[zzRow]
	idxs []*Index[zzRow]
	m    map[string]zzRow // what is stored
	tid  byte
	desc string
}

func zzRaw(t *testing.T) DB {
	opt := DefaultOptions()
	raw, err := Open(zzDir(t), opt)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { _ = raw.Close() })
	return raw
}

func zzIdx(n int) *Index[zzRow] {
	switch n {
	case 1:
		return NewIndex[zzRow](IndexOptions[zzRow]{IndexID: 1, IndexName: "x",
			IndexKeyFunc:    func(b KeyBuilder, r zzRow) []byte { return append(b.Bytes(), r.X...) },
			IndexOrderFunc:  func(o IndexOrder, r zzRow) IndexOrder { return o.OrderBytes([]byte(r.O), IndexOrderTypeASC) },
			IndexFilterFunc: func(r zzRow) bool { return r.In },
		})
	case 2:
		return NewIndex[zzRow](IndexOptions[zzRow]{IndexID: 2, IndexName: "v",
			IndexKeyFunc: func(b KeyBuilder, r zzRow) []byte { return append(b.Bytes(), r.V...) }})
	default:
		return NewIndex[zzRow](IndexOptions[zzRow]{IndexID: IndexID(n), IndexName: "xv",
			IndexKeyFunc:    func(b KeyBuilder, r zzRow) []byte { return append(append(b.Bytes(), r.X...), r.V...) },
			IndexFilterFunc: func(r zzRow) bool { return r.V != "" },
		})
	}
}

// newLab makes a table of its own in the database raw, with some rows in it.
func (z *zzReplay) newLab(raw DB, tid byte, indexes int, filter bool, rows int) *zzLab {
	l := &zzLab{z: z, raw: raw, s: &zzStore{}, m: map[string]zzRow{}, tid: tid}
	_ = raw.DeleteRange([]byte{tid}, []byte{tid + 1}, Sync)
	l.db = &zzLabDB{DB: raw, s: l.s}
	opt := TableOptions[zzRow]{DB: l.db, TableID: TableID(tid), TableName: "t", Serializer: &zzSer{l.s}, ScanPrefetchSize: 1 + z.r.Intn(4),
		TablePrimaryKeyFunc: func(b KeyBuilder, r zzRow) []byte { return append(b.Bytes(), r.K...) }}
	if z.r.Intn(3) == 0 {
		opt.ScanPrefetchSize = 0
	}
	if filter {
		opt.Filter = &zzExactFilter{keys: map[string]bool{}}
	}
	l.t = NewTable[zzRow](opt)
	for i := 1; i <= indexes; i++ {
		l.idxs = append(l.idxs, zzIdx(i))
	}
	if indexes > 0 {
		if err := l.t.AddIndex(l.idxs); err != nil {
			panic(err)
		}
	}
	for i := 0; i < rows; i++ {
		r := l.row()
		if _, ok := l.m[r.K]; ok {
			continue
		}
		l.put(r)
		if filter {
			opt.Filter.Add(context.Background(), []byte(zzDataKey(tid, r.K)))
		}
	}
	l.desc = fmt.Sprintf("table %d, %d indexes, filter %v, stored %s", tid, indexes, filter, zzRows(l.m))
	return l
}

// put stores a row (and its index entries) directly.
func (l *zzLab) put(r zzRow) {
	l.m[r.K] = r
	for k, v := range zzEntries(l.tid, len(l.idxs), map[string]zzRow{r.K: r}) {
		if err := l.raw.Set([]byte(k), []byte(v), NoSync); err != nil {
			panic(err)
		}
	}
}

func zzDataKey(tid byte, k string) string {
	return string([]byte{tid, 0, 0, 0, 0, 0, 0, 0, 0, 0}) + k
}

func zzIndexKey(tid, iid byte, x, o, k string) string {
	n := func(s string) string {
		return string([]byte{byte(len(s) >> 24), byte(len(s) >> 16), byte(len(s) >> 8), byte(len(s))})
	}
	return string([]byte{tid, iid}) + n(x) + x + n(o) + o + k
}

// zzEntry is the key of the row in an index of the lab ("" if it has none).
func zzEntry(tid byte, idx int, r zzRow) string {
	switch {
	case idx == 1 && r.In:
		o := IndexOrder{KeyBuilder: NewKeyBuilder(nil)}.OrderBytes([]byte(r.O), IndexOrderTypeASC).Bytes()
		return zzIndexKey(tid, 1, r.X, string(o), r.K)
	case idx == 2:
		return zzIndexKey(tid, 2, r.V, "", r.K)
	case idx >= 3 && r.V != "":
		return zzIndexKey(tid, byte(idx), r.X+r.V, "", r.K)
	}
	return ""
}

// zzEntries are all keys and values the rows stand for.
func zzEntries(tid byte, indexes int, m map[string]zzRow) map[string]string {
	out := map[string]string{}
	for k, r := range m {
		v, _ := (&zzSer{}).Serialize(&r)
		out[zzDataKey(tid, k)] = string(v)
		for i := 1; i <= indexes; i++ {
			if e := zzEntry(tid, i, r); e != "" {
				out[e] = ""
			}
		}
	}
	return out
}

// content is what storage holds for the table, seen through src.
func (l *zzLab) content(src Iterationer) map[string]string {
	it := src.Iter(&IterOptions{IterOptions: zzBounds(l.tid)})
	defer it.Close()
	out := map[string]string{}
	for it.First(); it.Valid(); it.Next() {
		out[string(it.Key())] = string(it.Value())
	}
	return out
}

func (l *zzLab) row() zzRow {
	z := l.z
	p := func(n int) string {
		return []string{"", "a", "b", "\xff", "a\xff", "\x00", "c", "ab"}[z.r.Intn(n)]
	}
	if z.r.Intn(12) == 0 {
		return zzEmptyRow
	}
	return zzRow{K: p(8), V: p(3), X: p(4), O: p(3), In: z.r.Intn(3) > 0}
}

func zzCopy(m map[string]zzRow) map[string]zzRow {
	c := map[string]zzRow{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func zzRows(m map[string]zzRow) string {
	var s []string
	for _, r := range m {
		s = append(s, r.String())
	}
	sort.Strings(s)
	if len(s) > 12 {
		s = append(s[:12], fmt.Sprintf("... %d rows", len(m)))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func zzDiff(have, want map[string]string) string {
	var s []string
	for k, v := range want {
		if h, ok := have[k]; !ok {
			s = append(s, fmt.Sprintf("missing %x", k))
		} else if h != v {
			s = append(s, fmt.Sprintf("%x holds %q, not %q", k, h, v))
		}
	}
	for k := range have {
		if _, ok := want[k]; !ok {
			s = append(s, fmt.Sprintf("unexpected %x", k))
		}
	}
	sort.Strings(s)
	if len(s) > 6 {
		s = append(s[:6], fmt.Sprintf("... %d differences", len(s)))
	}
	return strings.Join(s, "; ")
}

// fails reports a failure of one of the properties (a space-separated list) if
// it is the one being replayed.
func (l *zzLab) fails(props, f string, a ...any) {
	if p := os.Getenv("VERIF_PROP"); p != "" && !strings.Contains(props, p) {
		return
	}
	l.z.fail("%s: %s", l.desc, fmt.Sprintf(f, a...))
}

// leaks checks that everything opened was closed, except ext batches of the caller.
func (l *zzLab) leaks(what string, ext int) {
	s := l.s
	if s.double != "" {
		l.fails("C16", "%s: %s", what, s.double)
	}
	if s.iters != 0 {
		l.fails("C16 C12", "%s: %d iterators left open", what, s.iters)
	}
	if s.values != 0 {
		l.fails("C16", "%s: %d values not released", what, s.values)
	}
	if s.batches != ext {
		l.fails("C16 C08", "%s: %d batches open, want %d", what, s.batches, ext)
	}
	s.iters, s.values, s.batches, s.double = 0, 0, ext, ""
}
