package bond

import (
	"errors"
	"fmt"
	"sort"
	"testing"

	"github.com/cockroachdb/pebble"
)

// Random lists of ranges over a random set of keys, walked at random by the real
// multi-range iterator over stand-in iterators that can fail at any step, against
// the concatenation of the ranges.

type zzSrc struct {
	keys   []string
	opened int
	open   int
	bad    string
	ops    int
	failAt int
	err    error
}

type zzIt struct {
	s      *zzSrc
	keys   []string
	pos    int
	err    error
	closed bool
}

func (s *zzSrc) Iter(opt *IterOptions, batch ...Batch) Iterator {
	s.opened++
	s.open++
	it := &zzIt{s: s, pos: -1}
	lo, up := string(opt.LowerBound), string(opt.UpperBound)
	for _, k := range s.keys {
		if k >= lo && k < up {
			it.keys = append(it.keys, k)
		}
	}
	if opt.releaseBufferOnClose != nil {
		s.bad = "a child iterator was given the release function"
	}
	return it
}

func (i *zzIt) use() {
	if i.closed {
		i.s.bad = "an iterator was used after it was closed"
	}
}

func (i *zzIt) move(p int) bool {
	i.use()
	i.s.ops++
	if i.s.ops == i.s.failAt {
		i.err = i.s.err
	}
	if i.err != nil {
		return false
	}
	if p < -1 {
		p = -1
	}
	if p > len(i.keys) {
		p = len(i.keys)
	}
	i.pos = p
	return p >= 0 && p < len(i.keys)
}
func (i *zzIt) First() bool              { return i.move(0) }
func (i *zzIt) Last() bool               { return i.move(len(i.keys) - 1) }
func (i *zzIt) Next() bool               { return i.move(i.pos + 1) }
func (i *zzIt) Prev() bool               { return i.move(i.pos - 1) }
func (i *zzIt) Error() error             { return i.err }
func (i *zzIt) SeekGE([]byte) bool       { return false }
func (i *zzIt) SeekPrefixGE([]byte) bool { return false }
func (i *zzIt) SeekLT([]byte) bool       { return false }
func (i *zzIt) Value() []byte            { i.use(); return []byte("v" + i.keys[i.pos]) }
func (i *zzIt) Key() []byte              { i.use(); return []byte(i.keys[i.pos]) }
func (i *zzIt) Valid() bool {
	i.use()
	return i.err == nil && i.pos >= 0 && i.pos < len(i.keys)
}
func (i *zzIt) Close() error {
	if i.closed {
		i.s.bad = "an iterator was closed twice"
	}
	i.closed = true
	i.s.open--
	return nil
}

func TestReplayC10(t *testing.T) {
	z := zzStart(t)
	defer z.done()
	for it := 0; z.more(it, 60000); it++ {
		z.n++
		z.guard("multi-range walk", func() {
			s := &zzSrc{err: errors.New("storage failure")}
			if z.r.Intn(3) == 0 {
				s.failAt = 1 + z.r.Intn(12)
			}
			for k := 0; k < 20; k++ {
				if z.r.Intn(3) == 0 {
					s.keys = append(s.keys, string([]byte{'a' + byte(k)}))
				}
			}
			sort.Strings(s.keys)
			var opts []*IterOptions
			var want []string
			released := make([]int, 6)
			desc := ""
			for k := z.r.Intn(6); k > 0; k-- {
				lo, up := byte('a'+z.r.Intn(20)), byte('a'+z.r.Intn(20))
				if lo > up {
					lo, up = up, lo
				}
				n := len(opts)
				opts = append(opts, &IterOptions{IterOptions: pebble.IterOptions{LowerBound: []byte{lo}, UpperBound: []byte{up}}, releaseBufferOnClose: func() { released[n]++ }})
				for _, x := range s.keys {
					if x >= string(lo) && x < string(up) {
						want = append(want, x)
					}
				}
				desc += fmt.Sprintf("[%c,%c)", lo, up)
			}
			hist := fmt.Sprintf("keys %v ranges %s failure at step %d:", s.keys, desc, s.failAt)
			m := newIteratorMulti(s, opts)
			pos, failed, placed := -1, false, false
			for step := 0; step < 18 && !failed; step++ {
				op := z.r.Intn(5)
				if !placed {
					op = z.r.Intn(2)
				}
				var got bool
				switch op {
				case 0:
					hist += " First"
					got, pos, placed = m.First(), 0, true
				case 1:
					hist += " Last"
					got, pos, placed = m.Last(), len(want)-1, true
				case 2, 4:
					hist += " Next"
					got, pos = m.Next(), pos+1
				case 3:
					hist += " Prev"
					got, pos = m.Prev(), pos-1
				}
				if pos < -1 {
					pos = -1
				}
				if pos > len(want) {
					pos = len(want)
				}
				if s.bad != "" {
					z.fail("%s: %s", hist, s.bad)
					return
				}
				if s.failAt > 0 && s.ops >= s.failAt {
					failed = true
					if got {
						z.fail("%s: reported a key although the storage failed", hist)
					} else if m.Error() != s.err {
						z.fail("%s: storage failed but Error() = %v", hist, m.Error())
					} else if m.Valid() {
						z.fail("%s: valid after a failure", hist)
					}
					break
				}
				if m.Error() != nil {
					z.fail("%s: Error() = %v without a failure", hist, m.Error())
					return
				}
				in := pos >= 0 && pos < len(want)
				if got != in || m.Valid() != in {
					z.fail("%s: returned %v, Valid() %v, want %v", hist, got, m.Valid(), in)
					return
				}
				if in && (string(m.Key()) != want[pos] || string(m.Value()) != "v"+want[pos]) {
					z.fail("%s: at key %q value %q, want key %q", hist, m.Key(), m.Value(), want[pos])
					return
				}
				if s.open > 1 {
					z.fail("%s: %d iterators open at once", hist, s.open)
					return
				}
			}
			_ = m.Close()
			hist += " Close"
			if s.bad != "" {
				z.fail("%s: %s", hist, s.bad)
			}
			if s.open != 0 {
				z.fail("%s: %d of %d iterators never closed", hist, s.open, s.opened)
			}
			for k := range opts {
				if released[k] != 1 {
					z.fail("%s: the buffer of range %d was released %d times", hist, k, released[k])
				}
			}
			// a single range
			if len(opts) > 0 {
				n := 0
				o := &IterOptions{IterOptions: opts[0].IterOptions, releaseBufferOnClose: func() { n++ }}
				one := newIterator(zzCons{s}, o)
				_ = one.First()
				_ = one.Close()
				if n != 1 || s.open != 0 {
					z.fail("%s: single range: buffer released %d times, %d iterators open", hist, n, s.open)
				}
			}
		})
	}
}

type zzCons struct{ s *zzSrc }

func (c zzCons) NewIter(o *pebble.IterOptions) Iterator {
	return c.s.Iter(&IterOptions{IterOptions: *o})
}
