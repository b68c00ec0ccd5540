package bond

import (
	"sync"
	"testing"
	"time"
)

// Identifiers drawn from one generator, with the clock behind, at and ahead of
// the last identifier, sequentially and concurrently.
func TestReplayC19(t *testing.T) {
	z := zzStart(t)
	defer z.done()
	for it := 0; z.more(it, 3000); it++ {
		z.n++
		now := uint64(time.Now().Unix())
		var n NumberSequence
		sec := now
		switch z.r.Intn(6) {
		case 0:
			sec = now + uint64(z.r.Intn(1000)) // the clock was set back
		case 1:
			sec = now - uint64(z.r.Intn(1000))
		case 2:
			sec = uint64(z.r.Int63()) >> 24
		case 3:
			sec = 0
		}
		cnt := uint64(z.r.Intn(5))
		switch z.r.Intn(4) {
		case 0:
			cnt = 0xFFFFFF - uint64(z.r.Intn(4))
		case 1:
			cnt = uint64(z.r.Intn(1 << 24))
		}
		n.lastId = sec<<24 | cnt
		if sec == 0 {
			n.lastId = 0
		}
		last := n.lastId
		start := last
		for k := 0; k < 6; k++ {
			id, err := n.Next()
			if err != nil {
				if last&0xFFFFFF != 0xFFFFFF {
					z.fail("generator at %#x refuses to draw: %v", last, err)
				}
				continue
			}
			if id <= last {
				z.fail("generator starting at %#x (seconds %d, clock %d): identifier %#x drawn after %#x", start, sec, now, id, last)
				break
			}
			if n.SequenceNumber(id) != id%(1<<24) || n.Timestamp(id) != id>>24 {
				z.fail("identifier %#x splits into seconds %d and counter %d", id, n.Timestamp(id), n.SequenceNumber(id))
			}
			last = id
		}
	}
	var n NumberSequence
	var wg sync.WaitGroup
	const G, K = 8, 30000
	res := make([][]uint64, G)
	for g := 0; g < G; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < K; k++ {
				id, err := n.Next()
				if err == nil {
					res[g] = append(res[g], id)
				}
			}
		}()
	}
	wg.Wait()
	seen := map[uint64]bool{}
	for _, r := range res {
		for i, id := range r {
			if seen[id] {
				z.fail("identifier %#x drawn twice by %d concurrent callers", id, G)
			}
			if i > 0 && id <= r[i-1] {
				z.fail("identifier %#x drawn after %#x by one caller", id, r[i-1])
			}
			seen[id] = true
		}
	}
	z.n += G * K
}
