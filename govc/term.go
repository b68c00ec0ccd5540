package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT-LIB sort.
type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SBytes Sort = "Bytes"
	SFlt   Sort = "Flt"
)

func arrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string
	args  []*Term
	sort  Sort
	ival  *big.Int // op == "int"
	name  string   // op == "var", "uf" , "str"
	bound []*Term  // op == "forall"/"exists"
	hasBV bool     // contains a free bound variable
	isBV  bool
	fresh bool // allocation constant
	seq   int  // creation order of variables
	pats  [][]*Term
}

var (
	termTab  = map[string]*Term{}
	termSeq  int
	varSeq   int
	ufSorts  = map[string][]Sort{} // arg sorts + result
	strConst = map[string]*Term{}
)

func keyOf(op, name string, sort Sort, args []*Term, extra string) string {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(string(sort))
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	if extra != "" {
		sb.WriteByte('|')
		sb.WriteString(extra)
	}
	return sb.String()
}

func mk(op, name string, sort Sort, args ...*Term) *Term {
	k := keyOf(op, name, sort, args, "")
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: op, name: name, sort: sort, args: args}
	for _, a := range args {
		if a.hasBV {
			t.hasBV = true
		}
	}
	termTab[k] = t
	return t
}

var (
	tTrue  = mk("true", "", SBool)
	tFalse = mk("false", "", SBool)
)

func mkBig(v *big.Int) *Term {
	k := "int|" + v.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: "int", sort: SInt, ival: new(big.Int).Set(v)}
	termTab[k] = t
	return t
}
func mkInt(v int64) *Term { return mkBig(big.NewInt(v)) }

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// freshVar makes a new symbolic constant.
func freshVar(hint string, sort Sort) *Term {
	varSeq++
	t := mk("var", fmt.Sprintf("%s!%d", sanitize(hint), varSeq), sort)
	t.seq = varSeq
	return t
}

func namedVar(name string, sort Sort) *Term { return mk("var", sanitize(name), sort) }

func freshAlloc(hint string) *Term {
	t := freshVar("new_"+hint, SInt)
	t.fresh = true
	return t
}

func boundVar(hint string, sort Sort) *Term {
	t := freshVar("q_"+hint, sort)
	t.isBV = true
	t.hasBV = true
	return t
}

func mkStr(s string) *Term {
	if t, ok := strConst[s]; ok {
		return t
	}
	t := mk("str", s, SBytes)
	strConst[s] = t
	return t
}

func isInt(t *Term) bool { return t.op == "int" }

// ---- linear arithmetic normal form ----

type lin struct {
	c     *big.Int
	terms map[*Term]*big.Int
}

func linOf(t *Term) lin {
	l := lin{c: new(big.Int), terms: map[*Term]*big.Int{}}
	linAdd(&l, t, big.NewInt(1))
	return l
}

func linAdd(l *lin, t *Term, k *big.Int) {
	switch t.op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(t.ival, k))
	case "+":
		for _, a := range t.args {
			linAdd(l, a, k)
		}
	case "*":
		if len(t.args) == 2 && isInt(t.args[0]) {
			linAdd(l, t.args[1], new(big.Int).Mul(k, t.args[0].ival))
			return
		}
		fallthrough
	default:
		if c, ok := l.terms[t]; ok {
			c2 := new(big.Int).Add(c, k)
			if c2.Sign() == 0 {
				delete(l.terms, t)
			} else {
				l.terms[t] = c2
			}
		} else if k.Sign() != 0 {
			l.terms[t] = new(big.Int).Set(k)
		}
	}
}

func (l lin) term() *Term {
	ts := make([]*Term, 0, len(l.terms))
	for t := range l.terms {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var args []*Term
	for _, t := range ts {
		c := l.terms[t]
		if c.IsInt64() && c.Int64() == 1 {
			args = append(args, t)
		} else {
			args = append(args, mk("*", "", SInt, mkBig(c), t))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, mkBig(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", "", SInt, args...)
}

func mkAdd(ts ...*Term) *Term {
	l := lin{c: new(big.Int), terms: map[*Term]*big.Int{}}
	one := big.NewInt(1)
	for _, t := range ts {
		linAdd(&l, t, one)
	}
	return l.term()
}

func mkSub(a, b *Term) *Term {
	l := linOf(a)
	linAdd(&l, b, big.NewInt(-1))
	return l.term()
}

func mkNeg(a *Term) *Term { return mkSub(mkInt(0), a) }

func mkMul(a, b *Term) *Term {
	if isInt(b) {
		a, b = b, a
	}
	if isInt(a) {
		l := lin{c: new(big.Int), terms: map[*Term]*big.Int{}}
		linAdd(&l, b, a.ival)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", SInt, a, b)
}

// floor division / euclidean modulus by positive constants (SMT semantics)
func mkDiv(a, b *Term) *Term {
	if isInt(b) && b.ival.Sign() > 0 {
		if isInt(a) {
			m := new(big.Int)
			q, _ := new(big.Int).DivMod(a.ival, b.ival, m)
			return mkBig(q)
		}
		if b.ival.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.op == "div" && isInt(a.args[1]) && a.args[1].ival.Sign() > 0 {
			return mkDiv(a.args[0], mkBig(new(big.Int).Mul(a.args[1].ival, b.ival)))
		}
	}
	return mk("div", "", SInt, a, b)
}

func mkMod(a, b *Term) *Term {
	if isInt(b) && b.ival.Sign() > 0 {
		if isInt(a) {
			m := new(big.Int)
			new(big.Int).DivMod(a.ival, b.ival, m)
			return mkBig(m)
		}
		if lo, hi, ok := rangeOf(a); ok && lo.Sign() >= 0 && hi.Cmp(b.ival) < 0 {
			return a
		}
	}
	return mk("mod", "", SInt, a, b)
}

// varRange records syntactic ranges of variables introduced with a bounded type.
var varRange = map[*Term][2]*big.Int{}

// rangeOf computes a sound syntactic interval of an integer term.
func rangeOf(t *Term) (lo, hi *big.Int, ok bool) { return rangeOfD(t, 0, nil) }

var maxLen = new(big.Int).Lsh(big.NewInt(1), 62)

func rangeOfD(t *Term, d int, ov *rangeOv) (lo, hi *big.Int, ok bool) {
	if d > 6 {
		return nil, nil, false
	}
	for o := ov; o != nil; o = o.next {
		if o.t == t {
			return o.lo, o.hi, true
		}
	}
	switch t.op {
	case "int":
		return t.ival, t.ival, true
	case "mod":
		if isInt(t.args[1]) && t.args[1].ival.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(t.args[1].ival, big.NewInt(1)), true
		}
	case "div":
		if isInt(t.args[1]) && t.args[1].ival.Sign() > 0 {
			l, h, ok := rangeOfD(t.args[0], d+1, ov)
			if ok {
				m := new(big.Int)
				ql, _ := new(big.Int).DivMod(l, t.args[1].ival, m)
				qh, _ := new(big.Int).DivMod(h, t.args[1].ival, m)
				return ql, qh, true
			}
		}
	case "ite":
		ov1, ov2 := refineBy(t.args[0], ov, d)
		l1, h1, ok1 := rangeOfD(t.args[1], d+1, ov1)
		l2, h2, ok2 := rangeOfD(t.args[2], d+1, ov2)
		if ok1 && ok2 {
			if l2.Cmp(l1) < 0 {
				l1 = l2
			}
			if h2.Cmp(h1) > 0 {
				h1 = h2
			}
			return l1, h1, true
		}
	case "+":
		l, h := new(big.Int), new(big.Int)
		for _, a := range t.args {
			al, ah, ok := rangeOfD(a, d+1, ov)
			if !ok {
				return nil, nil, false
			}
			l.Add(l, al)
			h.Add(h, ah)
		}
		return l, h, true
	case "*":
		if isInt(t.args[0]) {
			al, ah, ok := rangeOfD(t.args[1], d+1, ov)
			if !ok {
				return nil, nil, false
			}
			x := new(big.Int).Mul(t.args[0].ival, al)
			y := new(big.Int).Mul(t.args[0].ival, ah)
			if x.Cmp(y) > 0 {
				x, y = y, x
			}
			return x, y, true
		}
	case "uf":
		if t.name == "blen" {
			return big.NewInt(0), maxLen, true
		}
		if t.name == "bat" || t.name == "be32" || t.name == "be64" || t.name == "be16" {
			return big.NewInt(0), big.NewInt(255), true
		}
	}
	if r, ok := varRange[t]; ok {
		return r[0], r[1], true
	}
	return nil, nil, false
}

type rangeOv struct {
	t      *Term
	lo, hi *big.Int
	next   *rangeOv
}

// refineBy narrows the range of x in the branches of a condition x < c or c <= x.
func refineBy(c *Term, ov *rangeOv, d int) (*rangeOv, *rangeOv) {
	if (c.op != "<" && c.op != "<=") || len(c.args) != 2 {
		return ov, ov
	}
	x, k, flip := c.args[0], c.args[1], false
	if isInt(x) {
		x, k, flip = k, x, true
	}
	if !isInt(k) || isInt(x) {
		return ov, ov
	}
	lo, hi, ok := rangeOfD(x, d+1, ov)
	if !ok {
		return ov, ov
	}
	one := big.NewInt(1)
	// a condition on k*X + c narrows X itself
	if l := linOf(x); len(l.terms) == 1 && (x.op == "+" || x.op == "*") {
		for v, co := range l.terms {
			if co.CmpAbs(one) == 0 {
				vlo, vhi, ok := rangeOfD(v, d+1, ov)
				if !ok {
					return ov, ov
				}
				b := new(big.Int).Set(k.ival)
				strict := (c.op == "<") != flip // low part is x <= b-1, else x <= b
				if strict {
					b.Sub(b, one)
				}
				// low: co*v + c0 <= b
				b.Sub(b, l.c)
				var low, high *rangeOv
				mkr := func(lo, hi *big.Int) *rangeOv {
					if lo.Cmp(vlo) < 0 {
						lo = vlo
					}
					if hi.Cmp(vhi) > 0 {
						hi = vhi
					}
					if lo.Cmp(hi) > 0 {
						return ov
					}
					return &rangeOv{v, lo, hi, ov}
				}
				if co.Sign() > 0 { // v <= b | v >= b+1
					low, high = mkr(vlo, b), mkr(new(big.Int).Add(b, one), vhi)
				} else { // v >= -b | v <= -b-1
					nb := new(big.Int).Neg(b)
					low, high = mkr(nb, vhi), mkr(vlo, new(big.Int).Sub(nb, one))
				}
				if flip {
					return high, low
				}
				return low, high
			}
		}
	}
	// split at b: low part <= b, high part >= b+1
	b := k.ival
	if (c.op == "<") != flip {
		b = new(big.Int).Sub(b, one)
	}
	low, high := ov, ov
	if b.Cmp(hi) < 0 {
		low = &rangeOv{x, lo, b, ov}
	}
	if b1 := new(big.Int).Add(b, one); b1.Cmp(lo) > 0 {
		high = &rangeOv{x, b1, hi, ov}
	}
	if flip {
		return high, low
	}
	return low, high
}

// ---- boolean ----

func mkNot(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	case "<=":
		return mkLt(a.args[1], a.args[0])
	case "<":
		return mkLe(a.args[1], a.args[0])
	}
	return mk("not", "", SBool, a)
}

func mkAnd(ts ...*Term) *Term {
	var args []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[mkNot(t)] {
			return false
		}
		seen[t] = true
		args = append(args, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tFalse
		}
	}
	switch len(args) {
	case 0:
		return tTrue
	case 1:
		return args[0]
	}
	return mk("and", "", SBool, args...)
}

func mkOr(ts ...*Term) *Term {
	var args []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool // returns false when the disjunction is true
	add = func(t *Term) bool {
		switch t.op {
		case "false":
			return true
		case "true":
			return false
		case "or":
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[mkNot(t)] {
			return false
		}
		seen[t] = true
		args = append(args, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tTrue
		}
	}
	switch len(args) {
	case 0:
		return tFalse
	case 1:
		return args[0]
	}
	return mk("or", "", SBool, args...)
}

func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a == b {
		return tTrue
	}
	return mk("=>", "", SBool, a, b)
}

func mkIff(a, b *Term) *Term { return mkEq(a, b) }

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(unsupported("eq of different sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	switch a.sort {
	case SBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
		if a == mkNot(b) {
			return tFalse
		}
	case SInt:
		l := linOf(a)
		linAdd(&l, b, big.NewInt(-1))
		if len(l.terms) == 0 {
			return mkBool(l.c.Sign() == 0)
		}
		if distinctRefs(a, b) || distinctRefs(b, a) {
			return tFalse
		}
		if la, ha, ok := rangeOf(a); ok {
			if lb, hb, ok := rangeOf(b); ok && (ha.Cmp(lb) < 0 || hb.Cmp(la) < 0) {
				return tFalse
			}
		}
		// push through ite with constants
		if a.op == "ite" && (isInt(b)) && isInt(a.args[1]) && isInt(a.args[2]) {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
		if b.op == "ite" && (isInt(a)) && isInt(b.args[1]) && isInt(b.args[2]) {
			return mkIte(b.args[0], mkEq(b.args[1], a), mkEq(b.args[2], a))
		}
	case SBytes:
		if a.op == "str" && b.op == "str" {
			return mkBool(a.name == b.name)
		}
		if a.op == "ite" && iteLeaves(a, 0) <= 12 {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
		if b.op == "ite" && iteLeaves(b, 0) <= 12 {
			return mkIte(b.args[0], mkEq(b.args[1], a), mkEq(b.args[2], a))
		}
		if r, ok := simpBEq(a, b); ok {
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}

// distinctRefs: a is an allocation constant and b was built before it (so it
// cannot denote it), or b is another allocation constant or 0.
func distinctRefs(a, b *Term) bool {
	if !a.fresh {
		return false
	}
	if b.fresh {
		return a != b
	}
	if isInt(b) {
		return b.ival.Sign() <= 0
	}
	return !b.hasBV && b.id < a.id && !timeless[b]
}

// timeless terms: ghost constants that may denote objects allocated later.
var timeless = map[*Term]bool{}

func mkLe(a, b *Term) *Term {
	l := linOf(b)
	linAdd(&l, a, big.NewInt(-1))
	if len(l.terms) == 0 {
		return mkBool(l.c.Sign() >= 0)
	}
	if _, ha, ok := rangeOf(a); ok {
		if lb, _, ok := rangeOf(b); ok && ha.Cmp(lb) <= 0 {
			return tTrue
		}
	}
	if la, _, ok := rangeOf(a); ok {
		if _, hb, ok := rangeOf(b); ok && la.Cmp(hb) > 0 {
			return tFalse
		}
	}
	return mk("<=", "", SBool, a, b)
}
func mkLt(a, b *Term) *Term {
	l := linOf(b)
	linAdd(&l, a, big.NewInt(-1))
	if len(l.terms) == 0 {
		return mkBool(l.c.Sign() > 0)
	}
	if _, ha, ok := rangeOf(a); ok {
		if lb, _, ok := rangeOf(b); ok && ha.Cmp(lb) < 0 {
			return tTrue
		}
	}
	if la, _, ok := rangeOf(a); ok {
		if _, hb, ok := rangeOf(b); ok && la.Cmp(hb) >= 0 {
			return tFalse
		}
	}
	return mk("<", "", SBool, a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.op == "=" && (c.args[0] == a && c.args[1] == b || c.args[0] == b && c.args[1] == a) {
		return b // if x = y then x else y
	}
	if a.sort != b.sort {
		panic(unsupported("ite of different sorts %s %s", a.sort, b.sort))
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return mkNot(c)
		}
		if a == tTrue {
			return mkOr(c, b)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
	}
	if c.op == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	return mk("ite", "", a.sort, c, a, b)
}

func elemSort(s Sort) Sort {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic(unsupported("not an array sort %s", s))
	}
	rest := str[len("(Array ") : len(str)-1]
	// skip first sort
	depth := 0
	for i, c := range rest {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(rest[i+1:])
			}
		}
	}
	panic("bad sort " + str)
}
func keySort(s Sort) Sort {
	str := string(s)
	rest := str[len("(Array ") : len(str)-1]
	depth := 0
	for i, c := range rest {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(rest[:i])
			}
		}
	}
	panic("bad sort " + str)
}

func mkSelect(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			e := mkEq(a.args[1], i)
			if e == tTrue {
				return a.args[2]
			}
			if e == tFalse {
				a = a.args[0]
				continue
			}
		case "constarr":
			return a.args[0]
		case "uf":
			if a.name == "copyB" {
				d, x := a.args[1], a.args[2]
				ln := mkUF("blen", SInt, x)
				if provLe(mkAdd(i, mkInt(1)), d) || provLe(mkAdd(d, ln), i) {
					a = a.args[0]
					continue
				}
				if provLe(d, i) && provLe(mkAdd(i, mkInt(1)), mkAdd(d, ln)) {
					return mkUF("bat", SInt, x, mkSub(i, d))
				}
			}
		case "ite":
			x, y := mkSelect(a.args[1], i), mkSelect(a.args[2], i)
			if x == y {
				return x
			}
			if x.op != "select" || y.op != "select" {
				return mkIte(a.args[0], x, y)
			}
		}
		if h, ok := havocBase[a]; ok && isOld(i, h.mark) {
			a = h.base
			continue
		}
		return mk("select", "", elemSort(a.sort), a, i)
	}
}

// havocBase: arrays that differ from base only at objects allocated after mark.
type havocSel struct {
	base *Term
	mark int
}

var havocBase = map[*Term]*havocSel{}

func mkStore(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if elemSort(a.sort) != v.sort {
		panic(unsupported("store sort mismatch %s <- %s", a.sort, v.sort))
	}
	return mk("store", "", a.sort, a, i, v)
}

func mkConstArr(s Sort, v *Term) *Term { return mk("constarr", string(s), s, v) }

func mkUFraw(name string, res Sort, args ...*Term) *Term {
	regUF(name, res, args)
	return mk("uf", name, res, args...)
}

func regUF(name string, res Sort, args []*Term) {
	var ss []Sort
	for _, a := range args {
		ss = append(ss, a.sort)
	}
	ss = append(ss, res)
	if old, ok := ufSorts[name]; ok {
		if fmt.Sprint(old) != fmt.Sprint(ss) {
			panic(unsupported("uf %s used with sorts %v and %v", name, old, ss))
		}
	} else {
		ufSorts[name] = ss
	}
}

func mkUF(name string, res Sort, args ...*Term) *Term {
	regUF(name, res, args)
	switch name {
	case "bcmpl":
		a := args[0]
		if isUF(a, "bcat") {
			return bcat(mkUF("bcmpl", SBytes, a.args[0]), mkUF("bcmpl", SBytes, a.args[1]))
		}
		if isUF(a, "b1") {
			if l, h, ok := rangeOf(a.args[0]); ok && l.Sign() >= 0 && h.Cmp(big.NewInt(255)) <= 0 {
				return mkUF("b1", SBytes, mkSub(mkInt(255), a.args[0]))
			}
		}
		if a.op == "str" {
			b := []byte(a.name)
			for i := range b {
				b[i] = ^b[i]
			}
			return mkStr(string(b))
		}
	case "pow256":
		if isInt(args[0]) && args[0].ival.Sign() >= 0 && args[0].ival.IsInt64() && args[0].ival.Int64() <= 64 {
			return mkBig(new(big.Int).Lsh(big.NewInt(1), uint(8*args[0].ival.Int64())))
		}
	case "bytes":
		return simpBytes(args[0], args[1], args[2])
	case "bcat":
		return bcat(args[0], args[1])
	case "bsub":
		return simpSub(args[0], args[1], args[2])
	case "blt":
		return simpBlt(args[0], args[1])
	case "blen":
		if args[0].op == "ite" {
			return mkIte(args[0].args[0], mkUF("blen", SInt, args[0].args[1]), mkUF("blen", SInt, args[0].args[2]))
		}
		if isUF(args[0], "b1") {
			return mkInt(1)
		}
		if isUF(args[0], "bytes") && provLe(mkInt(0), args[0].args[2]) {
			return args[0].args[2]
		}
		if isUF(args[0], "bsub") {
			x := args[0]
			if provLe(mkInt(0), x.args[1]) && provLe(x.args[1], x.args[2]) && provLe(x.args[2], mkUF("blen", SInt, x.args[0])) {
				return mkSub(x.args[2], x.args[1])
			}
		}
		if isUF(args[0], "bebig") && provLe(mkInt(0), args[0].args[1]) {
			return args[0].args[1]
		}
		if args[0].op == "str" {
			return mkInt(int64(len(args[0].name)))
		}
		if args[0].op == "uf" {
			switch args[0].name {
			case "be16s":
				return mkInt(2)
			case "be32s":
				return mkInt(4)
			case "be64s":
				return mkInt(8)
			}
		}
		if args[0].op == "uf" && args[0].name == "bcat" {
			return mkAdd(mkUF("blen", SInt, args[0].args[0]), mkUF("blen", SInt, args[0].args[1]))
		}
	case "bat":
		if args[0].op == "str" && isInt(args[1]) && args[1].ival.IsInt64() {
			k := args[1].ival.Int64()
			if k >= 0 && k < int64(len(args[0].name)) {
				return mkInt(int64(args[0].name[k]))
			}
		}
		x, k := args[0], args[1]
		switch {
		case isUF(x, "b1") && isInt(k) && k.ival.Sign() == 0:
			return x.args[0]
		case isUF(x, "bcat"):
			l := mkUF("blen", SInt, x.args[0])
			if provLe(mkAdd(k, mkInt(1)), l) {
				return mkUF("bat", SInt, x.args[0], k)
			}
			if provLe(l, k) {
				return mkUF("bat", SInt, x.args[1], mkSub(k, l))
			}
		case isUF(x, "bytes") && provLe(mkInt(0), k) && provLe(mkAdd(k, mkInt(1)), x.args[2]):
			return mkSelect(x.args[0], mkAdd(x.args[1], k))
		case isUF(x, "bsub") && provLe(mkInt(0), k) && provLe(mkAdd(k, mkInt(1)), mkSub(x.args[2], x.args[1])) && provLe(mkInt(0), x.args[1]):
			return mkUF("bat", SInt, x.args[0], mkAdd(x.args[1], k))
		case isUF(x, "be32s") && isInt(k) && k.ival.Sign() >= 0 && k.ival.Int64() < 4:
			return mkUF("be32", SInt, x.args[0], k)
		case isUF(x, "be64s") && isInt(k) && k.ival.Sign() >= 0 && k.ival.Int64() < 8:
			return mkUF("be64", SInt, x.args[0], k)
		}
	}
	return mk("uf", name, res, args...)
}

func mkForall(bs []*Term, body *Term, pats ...[]*Term) *Term {
	if body == tTrue {
		return tTrue
	}
	if body == tFalse {
		return tFalse
	}
	var sb strings.Builder
	for _, b := range bs {
		fmt.Fprintf(&sb, "%d,", b.id)
	}
	sb.WriteByte(';')
	for _, p := range pats {
		for _, q := range p {
			fmt.Fprintf(&sb, "%d,", q.id)
		}
		sb.WriteByte('/')
	}
	k := keyOf("forall", "", SBool, []*Term{body}, sb.String())
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: "forall", sort: SBool, args: []*Term{body}, bound: bs, pats: pats}
	fv := map[*Term]bool{}
	collectBV(body, fv, map[*Term]bool{})
	for _, b := range bs {
		delete(fv, b)
	}
	t.hasBV = len(fv) > 0
	termTab[k] = t
	return t
}

func collectBV(t *Term, out, seen map[*Term]bool) {
	if !t.hasBV || seen[t] {
		return
	}
	seen[t] = true
	if t.isBV {
		out[t] = true
	}
	if t.op == "forall" {
		sub := map[*Term]bool{}
		for _, a := range t.args {
			collectBV(a, sub, map[*Term]bool{})
		}
		for _, b := range t.bound {
			delete(sub, b)
		}
		for b := range sub {
			out[b] = true
		}
		return
	}
	for _, a := range t.args {
		collectBV(a, out, seen)
	}
}

// subst replaces terms (typically variables) in t.
func substTerm(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "+":
		return mkAdd(args...)
	case "*":
		return mkMul(args[0], args[1])
	case "div":
		return mkDiv(args[0], args[1])
	case "mod":
		return mkMod(args[0], args[1])
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "=>":
		return mkImp(args[0], args[1])
	case "=":
		return mkEq(args[0], args[1])
	case "<":
		return mkLt(args[0], args[1])
	case "<=":
		return mkLe(args[0], args[1])
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "select":
		return mkSelect(args[0], args[1])
	case "store":
		return mkStore(args[0], args[1], args[2])
	case "uf":
		return mkUF(t.name, t.sort, args...)
	case "forall":
		return mkForall(t.bound, args[0], t.pats...)
	}
	return mk(t.op, t.name, t.sort, args...)
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return u.msg }
func unsupported(f string, a ...any) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}

// ---- printing ----

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case "int":
		return smtInt(t.ival)
	case "var":
		return t.name
	case "str":
		return fmt.Sprintf("%q", t.name)
	case "true", "false":
		return t.op
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	sb.WriteByte('(')
	if t.op == "uf" {
		sb.WriteString(t.name)
	} else {
		sb.WriteString(t.op)
	}
	if t.op == "forall" {
		sb.WriteString(" (")
		for _, b := range t.bound {
			sb.WriteString(b.name + " ")
		}
		sb.WriteString(")")
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.str(d - 1))
	}
	sb.WriteByte(')')
	return sb.String()
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

// iteLeaves counts the leaves of a tree of conditionals (bounded).
func iteLeaves(t *Term, d int) int {
	if t.op != "ite" || d > 8 {
		return 1
	}
	return iteLeaves(t.args[1], d+1) + iteLeaves(t.args[2], d+1)
}
