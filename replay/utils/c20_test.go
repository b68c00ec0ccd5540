package utils

import (
	"sync"
	"sync/atomic"
	"testing"
)

type zzObj struct {
	id   int64
	held int32
}

func TestReplayC20(t *testing.T) {
	z := zzStart(t)
	defer z.done()
	// one goroutine, a model of who holds what
	for it := 0; z.more(it, 3000); it++ {
		z.n++
		size := z.r.Intn(6)
		var ids int64
		z.guard("pool", func() {
			p := NewPreAllocatedPool[*zzObj](func() any { return &zzObj{id: atomic.AddInt64(&ids, 1)} }, size)
			if len(p.preAllocItems) != size || ids < int64(size) {
				z.fail("pool of %d created with %d objects", size, len(p.preAllocItems))
				return
			}
			held := map[*zzObj]bool{}
			var order []*zzObj
			for k := 0; k < 40; k++ {
				if len(order) == 0 || z.r.Intn(2) == 0 {
					free := len(p.preAllocItems)
					o := p.Get()
					if o == nil {
						z.fail("Get with %d free of %d returned nil", free, size)
						return
					}
					if held[o] {
						z.fail("pool size %d: Get handed out object %d while it is held (step %d)", size, o.id, k)
						return
					}
					if free > 0 && len(p.preAllocItems) != free-1 {
						z.fail("pool size %d: Get with %d free objects leaves %d", size, free, len(p.preAllocItems))
						return
					}
					held[o] = true
					order = append(order, o)
				} else {
					i := z.r.Intn(len(order))
					o := order[i]
					order = append(order[:i], order[i+1:]...)
					delete(held, o)
					free := len(p.preAllocItems)
					p.Put(o)
					if len(p.preAllocItems) > free+1 || (free < size && len(p.preAllocItems) != free+1) || (free >= size && len(p.preAllocItems) != free) {
						z.fail("pool size %d: Put with %d free objects leaves %d", size, free, len(p.preAllocItems))
						return
					}
				}
				seen := map[*zzObj]bool{}
				for _, o := range p.preAllocItems {
					if o == nil || seen[o] || held[o] {
						z.fail("pool size %d: free list holds a nil, repeated or held object after step %d", size, k)
						return
					}
					seen[o] = true
				}
			}
		})
	}
	// several goroutines
	for it := 0; z.more(it, 30); it++ {
		z.n++
		size := z.r.Intn(4)
		p := NewPreAllocatedPool[*zzObj](func() any { return &zzObj{} }, size)
		var bad int32
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if recover() != nil {
						atomic.StoreInt32(&bad, 2)
					}
				}()
				for k := 0; k < 3000; k++ {
					o := p.Get()
					if o == nil {
						atomic.StoreInt32(&bad, 3)
						return
					}
					if !atomic.CompareAndSwapInt32(&o.held, 0, 1) {
						atomic.StoreInt32(&bad, 1)
						return
					}
					atomic.StoreInt32(&o.held, 0)
					p.Put(o)
				}
			}()
		}
		wg.Wait()
		if bad != 0 {
			z.fail("8 goroutines on a pool of %d: %s", size, []string{"", "one object held by two goroutines", "panic", "nil object"}[bad])
		}
	}
}
