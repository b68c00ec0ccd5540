package bond

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"testing"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
)

var zzVersionKey = append(make([]byte, 10), "__bond_db_data_version__"...)

// every way a database can be found, opened
func TestReplayC22(t *testing.T) {
	z := zzStart(t)
	defer z.done()
	scratch := t.TempDir()
	none := "(none)"
	versions := []string{none, "1", "2", "0", "-1", "", "abc", "1abc", "99999999999999999999", "4294967297", "10", "11", " 1", "\x00\x00\x00\x01", "1\n"}
	formats := []string{none, "same", "1", "99", "", "x", "-1", "13", strconv.Itoa(int(pebble.FormatNewest) + 256), strconv.Itoa(int(pebble.FormatNewest) + 512)}
	opt := func(fs vfs.FS) *Options {
		o := &pebble.Options{FS: fs, Comparer: DefaultKeyComparer(), FormatMajorVersion: pebble.FormatNewest}
		o.EnsureDefaults()
		return &Options{PebbleOptions: o}
	}
	dump := func(fs vfs.FS, dir string) (s string) {
		p, err := pebble.Open(dir, opt(fs).PebbleOptions)
		if err != nil {
			return "cannot be opened: " + err.Error()
		}
		defer p.Close()
		it, _ := p.NewIter(nil)
		defer it.Close()
		for it.First(); it.Valid(); it.Next() {
			s += fmt.Sprintf("%q=%q ", it.Key(), it.Value())
		}
		return
	}
	for _, v := range versions {
		for _, f := range formats {
			for _, data := range []bool{false, true} {
				z.n++
				fs := vfs.NewMem()
				dir := filepath.Join(scratch, fmt.Sprintf("db%d", z.n))
				format := filepath.Join(dir, "bond", PebbleFormatFile)
				if err := os.MkdirAll(filepath.Dir(format), 0o755); err != nil {
					t.Fatal(err)
				}
				_ = fs.MkdirAll(dir, 0o755)
				want := f
				if f == "same" {
					want = fmt.Sprint(int(pebble.FormatNewest))
				}
				if f != none {
					_ = os.WriteFile(format, []byte(want), 0o644)
				}
				if v != none || data {
					p, err := pebble.Open(dir, opt(fs).PebbleOptions)
					if err != nil {
						t.Fatal(err)
					}
					if v != none {
						_ = p.Set(zzVersionKey, []byte(v), pebble.Sync)
					}
					if data {
						_ = p.Set([]byte("\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00k"), []byte("v"), pebble.Sync)
					}
					_ = p.Close()
				}
				what := fmt.Sprintf("stored version %q, format file %q, with data %v", v, f, data)
				before := dump(fs, dir)
				good := (v == none || v == "1") && (f == none || f == "same")
				db, err := Open(dir, opt(fs))
				switch {
				case err == nil && !good:
					z.fail("%s: opened", what)
				case err != nil && good:
					z.fail("%s: refused: %v", what, err)
				case err == nil:
					if got, c, err := db.Backend().Get(zzVersionKey); err != nil || string(got) != "1" {
						z.fail("%s: opened and not stamped with version 1 but %q (%v)", what, got, err)
					} else {
						_ = c.Close()
					}
					if got, _ := os.ReadFile(format); string(got) != fmt.Sprint(int(pebble.FormatNewest)) {
						z.fail("%s: opened, and the format file holds %q", what, got)
					}
					if err := db.Close(); err != nil {
						z.fail("%s: cannot be closed: %v", what, err)
					}
					db, err = Open(dir, opt(fs))
					if err != nil {
						z.fail("%s: opened but not a second time: %v", what, err)
					} else {
						_ = db.Close()
					}
				default:
					if after := dump(fs, dir); after != before {
						z.fail("%s: refused (%v); stored before %s, after %s", what, err, before, after)
					}
					got, err := os.ReadFile(format)
					if err == nil && (f == none || string(got) != want) {
						z.fail("%s: refused, and the format file is changed to %q", what, got)
					}
				}
				if z.found {
					return
				}
			}
		}
	}
	// storage which cannot be opened
	z.n++
	dir := filepath.Join(scratch, "other")
	fs := vfs.NewMem()
	_ = fs.MkdirAll(dir, 0o755)
	o := opt(fs)
	p, err := pebble.Open(dir, o.PebbleOptions)
	if err != nil {
		t.Fatal(err)
	}
	if db, err := Open(dir, opt(fs)); err == nil {
		_ = db.Close()
		z.fail("storage held by someone else: opened")
	} else if _, err := os.Stat(filepath.Join(dir, "bond", PebbleFormatFile)); err == nil {
		z.fail("storage cannot be opened, yet its format is recorded")
	}
	_ = p.Close()
}
