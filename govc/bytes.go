package main

import "math/big"

// normal forms of byte-string terms

// provLe: a <= b by syntactic ranges.
func provLe(a, b *Term) bool {
	if a == b {
		return true
	}
	lo, _, ok := rangeOf(mkSub(b, a))
	return ok && lo.Sign() >= 0
}

func isUF(t *Term, n string) bool { return t.op == "uf" && t.name == n }

var bEmpty = mkStr("")

// b1 is the one-byte string of an integer in 0..255.
func mkB1(v *Term) *Term {
	if isInt(v) && v.ival.Sign() >= 0 && v.ival.Cmp(big.NewInt(255)) <= 0 {
		return mkStr(string([]byte{byte(v.ival.Int64())}))
	}
	return mkUFraw("b1", SBytes, v)
}

// catAll concatenates segments, recognising big-endian encodings.
func catAll(segs []*Term) *Term {
	// fold encodings
	var out []*Term
	for i := 0; i < len(segs); i++ {
		s := segs[i]
		folded := false
		if isUF(s, "b1") {
			for _, w := range []struct {
				uf string
				n  int
			}{{"be64", 8}, {"be32", 4}} {
				x := s.args[0]
				if !(isUF(x, w.uf) && isInt(x.args[1]) && x.args[1].ival.Sign() == 0) || i+w.n > len(segs) {
					continue
				}
				v := x.args[0]
				ok := true
				for j := 0; j < w.n; j++ {
					if !(isUF(segs[i+j], "b1") && segs[i+j].args[0] == mkUFraw(w.uf, SInt, v, mkInt(int64(j)))) {
						ok = false
						break
					}
				}
				if ok {
					out = append(out, beString(w.n, v))
					i += w.n - 1
					folded = true
					break
				}
			}
			if !folded && i+1 < len(segs) && isUF(segs[i+1], "b1") {
				// div/mod pair of a 16-bit value
				x, y := s.args[0], segs[i+1].args[0]
				if x.op == "div" && y.op == "mod" && x.args[0] == y.args[0] && isInt(x.args[1]) && isInt(y.args[1]) && x.args[1].ival.Int64() == 256 && y.args[1].ival.Int64() == 256 {
					if lo, hi, ok := rangeOf(x.args[0]); ok && lo.Sign() >= 0 && hi.BitLen() <= 16 {
						out = append(out, beString(2, x.args[0]))
						i++
						folded = true
					}
				}
			}
		}
		if !folded {
			out = append(out, s)
		}
	}
	r := bEmpty
	for i := len(out) - 1; i >= 0; i-- {
		r = bcat(out[i], r)
	}
	return r
}

func segsOf(t *Term) []*Term {
	var out []*Term
	for isUF(t, "bcat") {
		out = append(out, t.args[0])
		t = t.args[1]
	}
	if t.op == "str" && t.name == "" {
		return out
	}
	return append(out, t)
}

// findIdx resolves select(row, k) through stores; found=false when it reaches
// an unknown array.
func resolveSel(row, k *Term) (*Term, bool) {
	x := mkSelect(row, k)
	switch x.op {
	case "select":
		return x, false
	case "ite":
		return x, false
	}
	return x, true
}

func simpBytes(row, off, n *Term) *Term {
	if isInt(n) && n.ival.Sign() == 0 {
		return bEmpty
	}
	if row.op == "ite" {
		a, b := simpBytes(row.args[1], off, n), simpBytes(row.args[2], off, n)
		if a == b {
			return a
		}
	}
	// drop writes that lie outside the window
	for changed := true; changed; {
		changed = false
		if row.op == "store" && (provLe(mkAdd(off, n), row.args[1]) || provLe(mkAdd(row.args[1], mkInt(1)), off)) {
			row = row.args[0]
			changed = true
		}
		if isUF(row, "copyB") {
			d, x := row.args[1], row.args[2]
			ln := mkUF("blen", SInt, x)
			if provLe(mkAdd(off, n), d) || provLe(mkAdd(d, ln), off) {
				row = row.args[0]
				changed = true
				continue
			}
			// window inside the copied string
			if provLe(d, off) && provLe(mkAdd(off, n), mkAdd(d, ln)) {
				return mkUF("bsub", SBytes, x, mkSub(off, d), mkSub(mkAdd(off, n), d))
			}
			// copied string is a suffix of the window
			if provLe(off, d) && mkAdd(off, n) == mkAdd(d, ln) {
				return bcat(simpBytes(row.args[0], off, mkSub(d, off)), x)
			}
			// copied string strictly inside the window
			if provLe(off, d) && provLe(mkAdd(d, ln), mkAdd(off, n)) {
				e := mkAdd(d, ln)
				return bcat(simpBytes(row.args[0], off, mkSub(d, off)), bcat(x, simpBytes(row, e, mkSub(mkAdd(off, n), e))))
			}
			// prefix of the window overlaps the end of the copy
			if provLe(d, off) && provLe(off, mkAdd(d, ln)) && provLe(mkAdd(d, ln), mkAdd(off, n)) {
				e := mkAdd(d, ln)
				return bcat(mkUF("bsub", SBytes, x, mkSub(off, d), ln), simpBytes(row, e, mkSub(mkAdd(off, n), e)))
			}
		}
	}
	if row.op == "constarr" && isInt(n) && isInt(row.args[0]) && n.ival.IsInt64() && n.ival.Int64() <= 64 {
		b := make([]byte, n.ival.Int64())
		for i := range b {
			b[i] = byte(row.args[0].ival.Int64())
		}
		return mkStr(string(b))
	}
	// peel bytes from the end, then from the front
	if row.op == "store" {
		var tail []*Term
		rest := n
		for len(tail) < 80 && !(isInt(rest) && rest.ival.Sign() <= 0) {
			k := mkAdd(off, rest, mkInt(-1))
			if !provLe(off, k) {
				break
			}
			v, ok := resolveSel(row, k)
			if !ok {
				break
			}
			tail = append(tail, mkB1(v))
			rest = mkSub(rest, mkInt(1))
		}
		for i, j := 0, len(tail)-1; i < j; i, j = i+1, j-1 {
			tail[i], tail[j] = tail[j], tail[i]
		}
		var head []*Term
		o := off
		for len(head) < 80 && !(isInt(rest) && rest.ival.Sign() <= 0) && provLe(mkInt(1), rest) {
			v, ok := resolveSel(row, o)
			if !ok {
				break
			}
			head = append(head, mkB1(v))
			o = mkAdd(o, mkInt(1))
			rest = mkSub(rest, mkInt(1))
		}
		if len(tail)+len(head) > 0 {
			mid := simpBytes(row, o, rest)
			return catAll(append(append(head, segsOf(mid)...), tail...))
		}
	}
	// a small constant window of known bytes in the middle: split at a store
	if row.op == "store" {
		i := row.args[1]
		if provLe(off, i) && provLe(mkAdd(i, mkInt(1)), mkAdd(off, n)) {
			l := simpBytes(row, off, mkSub(i, off))
			r := simpBytes(row, mkAdd(i, mkInt(1)), mkSub(mkAdd(off, n), mkAdd(i, mkInt(1))))
			return catAll(append(append(segsOf(l), mkB1(row.args[2])), segsOf(r)...))
		}
	}
	return mkUFraw("bytes", SBytes, row, off, n)
}

func simpSub(a, i, j *Term) *Term {
	if i == j {
		return bEmpty
	}
	if isInt(i) && i.ival.Sign() == 0 && mkUF("blen", SInt, a) == j {
		return a
	}
	if a.op == "str" && isInt(i) && isInt(j) && i.ival.IsInt64() && j.ival.IsInt64() {
		x, y := i.ival.Int64(), j.ival.Int64()
		if 0 <= x && x <= y && y <= int64(len(a.name)) {
			return mkStr(a.name[x:y])
		}
	}
	if isUF(a, "bcat") {
		p, q := a.args[0], a.args[1]
		lp := mkUF("blen", SInt, p)
		if provLe(lp, i) {
			return simpSub(q, mkSub(i, lp), mkSub(j, lp))
		}
		if provLe(j, lp) {
			return simpSub(p, i, j)
		}
		if provLe(i, lp) && provLe(lp, j) && provLe(mkInt(0), i) && provLe(j, mkUF("blen", SInt, a)) {
			return bcat(simpSub(p, i, lp), simpSub(q, mkInt(0), mkSub(j, lp)))
		}
	}
	if isUF(a, "bsub") && provLe(mkInt(0), i) && provLe(i, j) && provLe(mkAdd(a.args[1], j), a.args[2]) {
		return simpSub(a.args[0], mkAdd(a.args[1], i), mkAdd(a.args[1], j))
	}
	if isUF(a, "bytes") && provLe(mkInt(0), i) && provLe(i, j) && provLe(j, a.args[2]) {
		return simpBytes(a.args[0], mkAdd(a.args[1], i), mkSub(j, i))
	}
	return mkUFraw("bsub", SBytes, a, i, j)
}

// beConst matches a big-endian encoding against a constant of its length.
func beConst(t, c *Term) (*Term, *Term, bool) {
	for _, w := range []struct {
		n string
		l int
	}{{"b1", 1}, {"be16s", 2}, {"be32s", 4}, {"be64s", 8}} {
		if isUF(t, w.n) && c.op == "str" && len(c.name) == w.l {
			if l1, _, ok := rangeOf(t.args[0]); ok && l1.Sign() >= 0 {
				return t.args[0], mkBig(new(big.Int).SetBytes([]byte(c.name))), true
			}
		}
	}
	return nil, nil, false
}

// simpBEq decides or splits equalities of concatenations.
func simpBEq(a, b *Term) (*Term, bool) {
	if !isUF(a, "bcat") && !isUF(b, "bcat") {
		if isUF(a, "b1") && isUF(b, "b1") {
			return mkEq(a.args[0], b.args[0]), true
		}
		for _, n := range []string{"be16s", "be32s", "be64s"} {
			if isUF(a, n) && isUF(b, n) {
				if l1, _, ok := rangeOf(a.args[0]); ok && l1.Sign() >= 0 {
					if l2, _, ok := rangeOf(b.args[0]); ok && l2.Sign() >= 0 {
						return mkEq(a.args[0], b.args[0]), true
					}
				}
			}
		}
		if x, y, ok := beConst(a, b); ok {
			return mkEq(x, y), true
		}
		if x, y, ok := beConst(b, a); ok {
			return mkEq(x, y), true
		}
		if la, lb := mkUF("blen", SInt, a), mkUF("blen", SInt, b); mkEq(la, lb) == tFalse {
			return tFalse, true
		}
		return nil, false
	}
	sa, sb := segsOf(a), segsOf(b)
	// common prefix
	i := 0
	for i < len(sa) && i < len(sb) && sa[i] == sb[i] {
		i++
	}
	j, k := len(sa), len(sb)
	for j > i && k > i && sa[j-1] == sb[k-1] {
		j--
		k--
	}
	if i > 0 || j < len(sa) {
		return mkEq(catAll(sa[i:j]), catAll(sb[i:k])), true
	}
	if mkEq(mkUF("blen", SInt, a), mkUF("blen", SInt, b)) == tFalse {
		return tFalse, true
	}
	if len(sa) == 0 || len(sb) == 0 {
		return nil, false
	}
	// split off equal-length heads / tails
	split := func(p, q *Term, ra, rb []*Term) (*Term, bool) {
		lp, lq := mkUF("blen", SInt, p), mkUF("blen", SInt, q)
		if lp == lq {
			return mkAnd(mkEq(p, q), mkEq(catAll(ra), catAll(rb))), true
		}
		return nil, false
	}
	if r, ok := split(sa[0], sb[0], sa[1:], sb[1:]); ok {
		return r, true
	}
	if r, ok := split(sa[len(sa)-1], sb[len(sb)-1], sa[:len(sa)-1], sb[:len(sb)-1]); ok {
		return r, true
	}
	// constant prefixes of different length
	if sa[0].op == "str" && sb[0].op == "str" {
		x, y := sa[0].name, sb[0].name
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		if x[:n] != y[:n] {
			return tFalse, true
		}
		return mkEq(catAll(append([]*Term{mkStr(x[n:])}, sa[1:]...)), catAll(append([]*Term{mkStr(y[n:])}, sb[1:]...))), true
	}
	// one-byte symbol against a longer constant
	peel := func(p, q []*Term) (*Term, bool) {
		if p[0].op == "str" && len(p[0].name) > 1 {
			lq := mkUF("blen", SInt, q[0])
			if isInt(lq) && lq.ival.IsInt64() && lq.ival.Int64() < int64(len(p[0].name)) {
				n := lq.ival.Int64()
				return mkAnd(mkEq(mkStr(p[0].name[:n]), q[0]), mkEq(catAll(append([]*Term{mkStr(p[0].name[n:])}, p[1:]...)), catAll(q[1:]))), true
			}
		}
		return nil, false
	}
	if r, ok := peel(sa, sb); ok {
		return r, true
	}
	if r, ok := peel(sb, sa); ok {
		return r, true
	}
	return nil, false
}

func simpBlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.op == "str" && b.op == "str" {
		return mkBool(a.name < b.name)
	}
	if b.op == "str" && b.name == "" {
		return tFalse
	}
	if isUF(a, "bcmpl") && isUF(b, "bcmpl") && mkUF("blen", SInt, a) == mkUF("blen", SInt, b) {
		return mkUF("blt", SBool, b.args[0], a.args[0])
	}
	if isUF(a, "b1") && isUF(b, "b1") {
		return mkLt(a.args[0], b.args[0])
	}
	for _, n := range []string{"be16s", "be32s", "be64s"} {
		if isUF(a, n) && isUF(b, n) {
			if l1, _, ok := rangeOf(a.args[0]); ok && l1.Sign() >= 0 {
				if l2, _, ok := rangeOf(b.args[0]); ok && l2.Sign() >= 0 {
					return mkLt(a.args[0], b.args[0])
				}
			}
		}
	}
	if a.op == "ite" && iteLeaves(a, 0) <= 12 {
		return mkIte(a.args[0], mkUF("blt", SBool, a.args[1], b), mkUF("blt", SBool, a.args[2], b))
	}
	if b.op == "ite" && iteLeaves(b, 0) <= 12 {
		return mkIte(b.args[0], mkUF("blt", SBool, a, b.args[1]), mkUF("blt", SBool, a, b.args[2]))
	}
	if x, y, ok := beConst(a, b); ok {
		return mkLt(x, y)
	}
	if x, y, ok := beConst(b, a); ok {
		return mkLt(y, x)
	}
	sa, sb := segsOf(a), segsOf(b)
	i := 0
	for i < len(sa) && i < len(sb) && sa[i] == sb[i] {
		i++
	}
	if i > 0 {
		return mkUF("blt", SBool, catAll(sa[i:]), catAll(sb[i:]))
	}
	if len(sa) > 0 && len(sb) > 0 && (len(sa) > 1 || len(sb) > 1) {
		if sa[0].op == "str" && sb[0].op == "str" {
			x, y := sa[0].name, sb[0].name
			n := len(x)
			if len(y) < n {
				n = len(y)
			}
			if n > 0 {
				if x[:n] != y[:n] {
					return mkBool(x[:n] < y[:n])
				}
				return mkUF("blt", SBool, catAll(append([]*Term{mkStr(x[n:])}, sa[1:]...)), catAll(append([]*Term{mkStr(y[n:])}, sb[1:]...)))
			}
		}
		if mkUF("blen", SInt, sa[0]) == mkUF("blen", SInt, sb[0]) {
			h := mkUF("blt", SBool, sa[0], sb[0])
			return mkOr(h, mkAnd(mkEq(sa[0], sb[0]), mkUF("blt", SBool, catAll(sa[1:]), catAll(sb[1:]))))
		}
	}
	return mkUFraw("blt", SBool, a, b)
}
