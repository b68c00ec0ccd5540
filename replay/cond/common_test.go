package cond

// Shared by the concrete replays: seeded generation, reporting.

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)

type zzReplay struct {
	t     *testing.T
	r     *rand.Rand
	n     int
	end   time.Time
	found bool
}

func zzStart(t *testing.T) *zzReplay {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	d := 20 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 120 * time.Second
	}
	return &zzReplay{t: t, r: rand.New(rand.NewSource(seed*7919 + 17)), end: time.Now().Add(d)}
}

// more reports whether another random round fits the time budget (at most max rounds).
func (z *zzReplay) more(i, max int) bool {
	return i < max && !z.found && time.Now().Before(z.end)
}

func (z *zzReplay) fail(f string, a ...any) {
	if z.found {
		return
	}
	z.found = true
	fmt.Println("FAILING-INPUT: " + strings.Trim(strconv.QuoteToASCII(fmt.Sprintf(f, a...)), "\""))
}

func (z *zzReplay) done() {
	fmt.Printf("REPLAY-CASES: %d\n", z.n)
	if z.found {
		z.t.Fail()
	}
}

func (z *zzReplay) bytesN(max int) []byte {
	b := make([]byte, z.r.Intn(max+1))
	for i := range b {
		switch z.r.Intn(3) {
		case 0:
			b[i] = 0xFF
		case 1:
			b[i] = byte(z.r.Intn(3))
		default:
			b[i] = byte(z.r.Intn(256))
		}
	}
	return b
}

// buf makes a buffer with the content s and some spare capacity holding junk.
func (z *zzReplay) buf(s []byte) []byte {
	b := make([]byte, len(s)+z.r.Intn(3)*z.r.Intn(40))
	for i := range b {
		b[i] = byte(z.r.Intn(256))
	}
	copy(b, s)
	return b[:len(s)]
}

// guard runs f and turns a panic into a failing input.
func (z *zzReplay) guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			z.fail("%s: panic: %v", what, r)
		}
	}()
	f()
}

// zzDir makes a scratch directory for a database.
func zzDir(t *testing.T) string {
	base := os.Getenv("VERIF_SCRATCH")
	d, err := os.MkdirTemp(base, "db")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { _ = os.RemoveAll(d) })
	return d
}
