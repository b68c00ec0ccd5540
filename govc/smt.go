package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// axiom groups, keyed by the uninterpreted function that triggers them.
type axiomGroup struct {
	name  string
	needs []string // other groups whose functions it mentions
	text  []string
}

var axiomGroups = map[string]*axiomGroup{
	"blen": {text: []string{
		"(forall ((b Bytes)) (! (>= (blen b) 0) :pattern ((blen b))))",
	}},
	"bat": {needs: []string{"blen"}, text: []string{
		"(forall ((b Bytes) (k Int)) (! (and (<= 0 (bat b k)) (<= (bat b k) 255)) :pattern ((bat b k))))",
	}},
	"bytes": {needs: []string{"blen", "bat", "wrap8"}, text: []string{
		"(forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (>= n 0) (= (blen (bytes a o n)) n)) :pattern ((bytes a o n))))",
		"(forall ((a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n)) (= (bat (bytes a o n) k) (wrap8 (select a (+ o k))))) :pattern ((bat (bytes a o n) k))))",
	}},
	// a stored number read as a byte (identity on 0..255)
	"wrap8": {text: []string{
		"(forall ((x Int)) (! (and (<= 0 (wrap8 x)) (<= (wrap8 x) 255) (=> (and (<= 0 x) (<= x 255)) (= (wrap8 x) x))) :pattern ((wrap8 x))))",
	}},
	"beq": {needs: []string{"blen", "bat", "bdiff"}, text: []string{
		"(forall ((a Bytes) (b Bytes)) (! (= (beq a b) (= a b)) :pattern ((beq a b))))",
		"(forall ((a Bytes) (b Bytes)) (! (or (= a b) (not (= (blen a) (blen b))) (and (<= 0 (bdiff a b)) (< (bdiff a b) (blen a)) (not (= (bat a (bdiff a b)) (bat b (bdiff a b)))))) :pattern ((beq a b))))",
	}},
	"bdiff": {},
	"bcat": {needs: []string{"blen", "bat"}, text: []string{
		"(forall ((a Bytes) (b Bytes)) (! (= (blen (bcat a b)) (+ (blen a) (blen b))) :pattern ((bcat a b))))",
		"(forall ((a Bytes) (b Bytes) (k Int)) (! (= (bat (bcat a b) k) (ite (< k (blen a)) (bat a k) (bat b (- k (blen a))))) :pattern ((bat (bcat a b) k))))",
	}},
	"bsub": {needs: []string{"blen", "bat"}, text: []string{
		"(forall ((a Bytes) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (blen a))) (= (blen (bsub a i j)) (- j i))) :pattern ((bsub a i j))))",
		"(forall ((a Bytes) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= 0 k) (< k (- j i))) (= (bat (bsub a i j) k) (bat a (+ i k)))) :pattern ((bat (bsub a i j) k))))",
	}},
	// copyB a d X: array a with the bytes of X written from index d on
	"copyB": {needs: []string{"blen", "bat"}, text: []string{
		"(forall ((a (Array Int Int)) (d Int) (x Bytes) (k Int)) (! (= (select (copyB a d x) k) (ite (and (<= d k) (< k (+ d (blen x)))) (bat x (- k d)) (select a k))) :pattern ((select (copyB a d x) k))))",
	}},
	// lexicographic order through the first difference
	"blt": {needs: []string{"blen", "bat", "bfd", "beq"}, text: []string{
		"(forall ((a Bytes) (b Bytes)) (! (= (blt a b) (ite (and (< (bfd a b) (blen a)) (< (bfd a b) (blen b))) (< (bat a (bfd a b)) (bat b (bfd a b))) (and (= (bfd a b) (blen a)) (< (bfd a b) (blen b))))) :pattern ((blt a b))))",
		"(forall ((a Bytes) (b Bytes)) (! (or (= a b) (blt a b) (blt b a)) :pattern ((blt a b))))",
		"(forall ((a Bytes) (b Bytes)) (! (not (and (blt a b) (blt b a))) :pattern ((blt a b) (blt b a))))",
		"(forall ((a Bytes)) (! (not (blt a a)) :pattern ((blt a a))))",
		"(forall ((a Bytes) (b Bytes) (c Bytes)) (! (=> (and (blt a b) (blt b c)) (blt a c)) :pattern ((blt a b) (blt b c))))",
		"(forall ((a Bytes) (b Bytes) (c Bytes)) (! (=> (and (blt a b) (not (blt c b))) (blt a c)) :pattern ((blt a b) (blt c b))))",
		"(forall ((a Bytes) (b Bytes) (c Bytes)) (! (=> (and (not (blt b a)) (blt b c)) (blt a c)) :pattern ((blt b a) (blt b c))))",
	}},
	"bcatlt": {text: []string{
		"(forall ((a Bytes) (b Bytes) (x Bytes) (y Bytes)) (! (=> (= (blen a) (blen b)) (= (blt (bcat a x) (bcat b y)) (or (blt a b) (and (= a b) (blt x y))))) :pattern ((blt (bcat a x) (bcat b y)))))",
	}},
	"bfd": {needs: []string{"blen", "bat"}, text: []string{
		"(forall ((a Bytes) (b Bytes)) (! (and (<= 0 (bfd a b)) (<= (bfd a b) (blen a)) (<= (bfd a b) (blen b)) (or (= (bfd a b) (blen a)) (= (bfd a b) (blen b)) (not (= (bat a (bfd a b)) (bat b (bfd a b)))))) :pattern ((bfd a b))))",
		"(forall ((a Bytes) (b Bytes) (k Int)) (! (=> (and (<= 0 k) (< k (bfd a b))) (= (bat a k) (bat b k))) :pattern ((bfd a b) (bat a k))))",
		"(forall ((a Bytes) (b Bytes) (k Int)) (! (=> (and (<= 0 k) (< k (bfd a b))) (= (bat a k) (bat b k))) :pattern ((bfd a b) (bat b k))))",
	}},
	// transitivity-only order (no bytes reasoning)
	// big-endian encoders: byte j of v, and the inverse
	"be32": {needs: []string{"dec32"}, text: []string{
		"(forall ((v Int)) (! (=> (and (<= 0 v) (< v 16777216)) (= (be32 v 0) 0)) :pattern ((be32 v 0))))",
		"(forall ((v Int) (j Int)) (! (and (<= 0 (be32 v j)) (<= (be32 v j) 255)) :pattern ((be32 v j))))",
		"(forall ((v Int)) (! (=> (and (<= 0 v) (< v 4294967296)) (= (dec32 (be32 v 0) (be32 v 1) (be32 v 2) (be32 v 3)) v)) :pattern ((be32 v 0)) :pattern ((be32 v 3))))",
		"(forall ((a Int) (b Int) (c Int) (d Int)) (! (=> (and (<= 0 a) (<= a 255) (<= 0 b) (<= b 255) (<= 0 c) (<= c 255) (<= 0 d) (<= d 255)) (and (= (be32 (dec32 a b c d) 0) a) (= (be32 (dec32 a b c d) 1) b) (= (be32 (dec32 a b c d) 2) c) (= (be32 (dec32 a b c d) 3) d) (<= 0 (dec32 a b c d)) (< (dec32 a b c d) 4294967296))) :pattern ((dec32 a b c d))))",
		"(and (= (be32 0 0) 0) (= (be32 0 1) 0) (= (be32 0 2) 0) (= (be32 0 3) 0))",
	}},
	"dec32": {needs: []string{"be32"}},
	"be64": {needs: []string{"be64fd", "dec64"}, text: []string{
		"(forall ((v Int) (j Int)) (! (and (<= 0 (be64 v j)) (<= (be64 v j) 255)) :pattern ((be64 v j))))",
		// order lemma (proved as bit-vector lemma be64-order)
		"(forall ((v Int) (w Int)) (! (=> (and (<= 0 v) (< v w) (< w 18446744073709551616)) (and (<= 0 (be64fd v w)) (< (be64fd v w) 8) (< (be64 v (be64fd v w)) (be64 w (be64fd v w))) (forall ((k Int)) (! (=> (and (<= 0 k) (< k (be64fd v w))) (= (be64 v k) (be64 w k))) :pattern ((be64 v k)) :pattern ((be64 w k)))))) :pattern ((be64fd v w))))",
	}},
	"be64fd": {needs: []string{"be64"}},
	"dec64": {needs: []string{"be64"}, text: []string{
		"(forall ((v Int)) (! (=> (and (<= 0 v) (< v 18446744073709551616)) (= (dec64 (be64 v 0) (be64 v 1) (be64 v 2) (be64 v 3) (be64 v 4) (be64 v 5) (be64 v 6) (be64 v 7)) v)) :pattern ((be64 v 0)) :pattern ((be64 v 7))))",
	}},
	"b1": {needs: []string{"blen", "bat", "beq"}, text: []string{
		"(forall ((v Int)) (! (and (= (blen (b1 v)) 1) (=> (and (<= 0 v) (<= v 255)) (= (bat (b1 v) 0) v))) :pattern ((b1 v))))",
	}},
	"be16s": {needs: []string{"blen", "bat", "beq"}, text: []string{
		"(forall ((v Int)) (! (and (= (blen (be16s v)) 2) (=> (and (<= 0 v) (< v 65536)) (and (= (bat (be16s v) 0) (div v 256)) (= (bat (be16s v) 1) (mod v 256))))) :pattern ((be16s v))))",
		"(forall ((v Int) (w Int)) (! (=> (and (<= 0 v) (<= 0 w) (< v 65536) (< w 65536)) (= (blt (be16s v) (be16s w)) (< v w))) :pattern ((blt (be16s v) (be16s w)))))",
		"(forall ((v Int) (w Int)) (! (=> (and (<= 0 v) (<= 0 w) (< v 65536) (< w 65536) (= (be16s v) (be16s w))) (= v w)) :pattern ((be16s v) (be16s w))))",
	}},
	"be32s": {needs: []string{"blen", "bat", "be32", "beq"}, text: []string{
		"(forall ((v Int)) (! (= (blen (be32s v)) 4) :pattern ((be32s v))))",
		"(forall ((v Int) (k Int)) (! (=> (and (<= 0 k) (< k 4)) (= (bat (be32s v) k) (be32 v k))) :pattern ((bat (be32s v) k))))",
		"(forall ((v Int) (w Int)) (! (=> (and (<= 0 v) (<= 0 w) (< v 4294967296) (< w 4294967296)) (= (blt (be32s v) (be32s w)) (< v w))) :pattern ((blt (be32s v) (be32s w)))))",
		"(forall ((v Int) (w Int)) (! (=> (and (<= 0 v) (<= 0 w) (< v 4294967296) (< w 4294967296) (= (be32s v) (be32s w))) (= v w)) :pattern ((be32s v) (be32s w))))",
	}},
	"be64s": {needs: []string{"blen", "bat", "be64", "beq"}, text: []string{
		"(forall ((v Int)) (! (= (blen (be64s v)) 8) :pattern ((be64s v))))",
		"(forall ((v Int) (k Int)) (! (=> (and (<= 0 k) (< k 8)) (= (bat (be64s v) k) (be64 v k))) :pattern ((bat (be64s v) k))))",
		"(forall ((v Int) (w Int)) (! (=> (and (<= 0 v) (<= 0 w) (< v 18446744073709551616) (< w 18446744073709551616)) (= (blt (be64s v) (be64s w)) (< v w))) :pattern ((blt (be64s v) (be64s w)))))",
		"(forall ((v Int) (w Int)) (! (=> (and (<= 0 v) (<= 0 w) (< v 18446744073709551616) (< w 18446744073709551616) (= (be64s v) (be64s w))) (= v w)) :pattern ((be64s v) (be64s w))))",
	}},
	// a big-endian natural number in n bytes
	"pow256": {text: []string{
		"(= (pow256 0) 1)",
		"(= (pow256 1) 256)",
		"(= (pow256 2) 65536)",
		"(= (pow256 4) 4294967296)",
		"(= (pow256 8) 18446744073709551616)",
		"(forall ((n Int)) (! (>= (pow256 n) 1) :pattern ((pow256 n))))",
	}},
	"bebig": {needs: []string{"blen", "bat", "pow256", "beq"}, text: []string{
		"(forall ((v Int) (n Int)) (! (=> (>= n 0) (= (blen (bebig v n)) n)) :pattern ((bebig v n))))",
		"(forall ((v Int) (w Int) (n Int)) (! (=> (and (<= 0 v) (< v (pow256 n)) (<= 0 w) (< w (pow256 n))) (= (blt (bebig v n) (bebig w n)) (< v w))) :pattern ((blt (bebig v n) (bebig w n)))))",
		"(forall ((v Int) (w Int) (n Int)) (! (=> (and (<= 0 v) (< v (pow256 n)) (<= 0 w) (< w (pow256 n)) (= (bebig v n) (bebig w n))) (= v w)) :pattern ((bebig v n) (bebig w n))))",
	}},
}

func init() {
	// bytewise complement
	axiomGroups["bcmpl"] = &axiomGroup{needs: []string{"blen", "bat", "beq"}, text: []string{
		"(forall ((a Bytes)) (! (= (blen (bcmpl a)) (blen a)) :pattern ((bcmpl a))))",
		"(forall ((a Bytes) (k Int)) (! (=> (and (<= 0 k) (< k (blen a))) (= (bat (bcmpl a) k) (- 255 (bat a k)))) :pattern ((bat (bcmpl a) k))))",
		"(forall ((a Bytes) (b Bytes)) (! (=> (= (blen a) (blen b)) (= (blt (bcmpl a) (bcmpl b)) (blt b a))) :pattern ((blt (bcmpl a) (bcmpl b)))))",
		"(forall ((a Bytes) (b Bytes)) (! (=> (= (bcmpl a) (bcmpl b)) (= a b)) :pattern ((bcmpl a) (bcmpl b))))",
	}}
}

// ufExtra are axioms registered at run time by contract directives
var userAxioms = map[string][]*Term{}

type query struct {
	text string
}

func smtName(t *Term) string {
	return t.name
}

// buildQuery prints the SMT problem: assumptions /\ not goal.
func buildQuery(assumps []*Term, goal *Term, wantModel bool) string {
	all := append([]*Term{}, assumps...)
	ng := mkNot(skolemGoal(ctxSimp(assumps, goal)))
	all = append(all, ng)
	all = append(all, addInstances(all)...)
	return buildProblem(all, wantModel)
}

func buildProblem(all []*Term, wantModel bool) string { return buildProblemOpt(all, wantModel, false) }

func buildProblemOpt(all []*Term, wantModel, noAxioms bool) string {
	// pull in user axioms for used ufs, to a fixpoint
	usedUF := map[string]bool{}
	seen := map[*Term]bool{}
	var vars []*Term
	var strs []*Term
	sorts := map[Sort]bool{}
	var ranged, refs []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		sorts[t.sort] = true
		switch t.op {
		case "var":
			if !t.isBV {
				vars = append(vars, t)
			}
		case "str":
			strs = append(strs, t)
			usedUF["blen"] = true
			usedUF["bat"] = true
		case "uf":
			usedUF[t.name] = true
		case "=":
			if t.args[0].sort == SBytes {
				usedUF["beq"] = true
			}
		}
		if _, ok := varRange[t]; ok && !t.hasBV {
			ranged = append(ranged, t)
		}
		if w, c := refBound(t); w != nil {
			refs = append(refs, mkAnd(mkLe(mkInt(0), t), mkImp(c, mkLt(t, w))))
			walk(w)
		}
		for _, b := range t.bound {
			sorts[b.sort] = true
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, q := range p {
				walk(q)
			}
		}
	}
	for _, t := range all {
		walk(t)
	}
	addedAx := map[string]bool{}
	var axTerms []*Term
	var axTexts []string
	for {
		progress := false
		names := make([]string, 0, len(usedUF))
		for n := range usedUF {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if usedUF["bcat"] && usedUF["blt"] && !usedUF["bcatlt"] {
				usedUF["bcatlt"] = true
				progress = true
			}
			if addedAx[n] {
				continue
			}
			addedAx[n] = true
			progress = true
			if g, ok := axiomGroups[n]; ok {
				axTexts = append(axTexts, g.text...)
				for _, d := range g.needs {
					usedUF[d] = true
				}
			}
			for _, ax := range userAxioms[n] {
				axTerms = append(axTerms, ax)
				walk(ax)
			}
		}
		if !progress {
			break
		}
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	if wantModel {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	for n := range usedUF {
		if ss, ok := ufSorts[n]; ok {
			for _, s := range ss {
				sorts[s] = true
			}
		}
	}
	decl := map[string]bool{}
	var declSort func(s Sort)
	declSort = func(s Sort) {
		str := string(s)
		if strings.HasPrefix(str, "(Array ") {
			declSort(keySort(s))
			declSort(elemSort(s))
			return
		}
		if str == "Int" || str == "Bool" || decl[str] || str == "" {
			return
		}
		decl[str] = true
	}
	for s := range sorts {
		declSort(s)
	}
	if usedUF["blen"] || usedUF["bat"] || usedUF["beq"] {
		decl["Bytes"] = true
	}
	var dn []string
	for s := range decl {
		dn = append(dn, s)
	}
	sort.Strings(dn)
	for _, s := range dn {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	builtin := map[string]string{
		"blen": "(Bytes) Int", "bat": "(Bytes Int) Int", "bytes": "((Array Int Int) Int Int) Bytes",
		"beq": "(Bytes Bytes) Bool", "bdiff": "(Bytes Bytes) Int", "bcat": "(Bytes Bytes) Bytes",
		"bsub": "(Bytes Int Int) Bytes", "copyB": "((Array Int Int) Int Bytes) (Array Int Int)",
		"blt": "(Bytes Bytes) Bool", "bfd": "(Bytes Bytes) Int",
		"be32": "(Int Int) Int", "dec32": "(Int Int Int Int) Int", "be64": "(Int Int) Int", "be64fd": "(Int Int) Int",
		"dec64": "(Int Int Int Int Int Int Int Int) Int", "be16s": "(Int) Bytes", "b1": "(Int) Bytes", "be32s": "(Int) Bytes", "be64s": "(Int) Bytes",
		"pow256": "(Int) Int", "bebig": "(Int Int) Bytes", "bcmpl": "(Bytes) Bytes", "wrap8": "(Int) Int",
	}
	un := make([]string, 0)
	for n := range usedUF {
		un = append(un, n)
	}
	sort.Strings(un)
	for _, n := range un {
		if n == "bcatlt" {
			continue
		}
		if d, ok := builtin[n]; ok {
			fmt.Fprintf(&sb, "(declare-fun %s %s)\n", n, d)
			continue
		}
		ss := ufSorts[n]
		var as []string
		for _, s := range ss[:len(ss)-1] {
			as = append(as, string(s))
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), ss[len(ss)-1])
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	for _, v := range vars {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", v.name, v.sort)
	}
	sort.Slice(strs, func(i, j int) bool { return strs[i].id < strs[j].id })
	strNm := map[*Term]string{}
	for i, s := range strs {
		nm := fmt.Sprintf("str!%d", i)
		strNm[s] = nm
		fmt.Fprintf(&sb, "(declare-const %s Bytes)\n(assert (= (blen %s) %d))\n", nm, nm, len(s.name))
		for k := 0; k < len(s.name) && k < 64; k++ {
			fmt.Fprintf(&sb, "(assert (= (bat %s %d) %d))\n", nm, k, s.name[k])
		}
		if len(s.name) == 0 && !noAxioms {
			fmt.Fprintf(&sb, "(assert (forall ((b Bytes)) (! (=> (= (blen b) 0) (= b %s)) :pattern ((blen b)))))\n", nm)
		}
	}
	for _, a := range axTexts {
		if noAxioms {
			break
		}
		if !usedUF["blt"] && strings.Contains(a, "(blt ") {
			continue
		}
		fmt.Fprintf(&sb, "(assert %s)\n", a)
	}
	// Deduplicate string constants pairwise
	for i := 0; i < len(strs); i++ {
		for j := i + 1; j < len(strs); j++ {
			fmt.Fprintf(&sb, "(assert (not (= %s %s)))\n", strNm[strs[i]], strNm[strs[j]])
		}
	}
	p := &printer{sb: &sb, strNm: strNm, named: map[*Term]string{}, refs: map[*Term]int{}}
	everything := append(append(append([]*Term{}, axTerms...), all...), refs...)
	for _, r := range ranged {
		lo, hi := varRange[r][0], varRange[r][1]
		everything = append(everything, mk("rangefact", smtInt(lo)+"|"+smtInt(hi), SBool, r))
	}
	for _, t := range everything {
		p.count(t)
	}
	for _, t := range everything {
		p.defineShared(t)
		if t.op == "rangefact" {
			lh := strings.Split(t.name, "|")
			x := p.inline(t.args[0])
			fmt.Fprintf(&sb, "(assert (and (<= %s %s) (<= %s %s)))\n", lh[0], x, x, lh[1])
			continue
		}
		fmt.Fprintf(&sb, "(assert %s)\n", p.inline(t))
	}
	sb.WriteString("(check-sat)\n")
	if wantModel {
		sb.WriteString("(get-model)\n")
	}
	return sb.String()
}

type printer struct {
	sb    *strings.Builder
	strNm map[*Term]string
	named map[*Term]string
	refs  map[*Term]int
	n     int
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	if t.op == "forall" {
		p.countIn(t.args[0])
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
}

// countIn counts BV-free subterms below a quantifier
func (p *printer) countIn(t *Term) {
	if !t.hasBV {
		p.count(t)
		return
	}
	k := p.refs[t]
	p.refs[t] = k + 1
	if k > 0 {
		return
	}
	for _, a := range t.args {
		p.countIn(a)
	}
}

func (p *printer) defineShared(t *Term) {
	// post-order over BV-free shared compound terms
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if _, ok := p.named[t]; ok {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		if !t.hasBV && len(t.args) > 0 && p.refs[t] > 1 && t.op != "rangefact" {
			p.n++
			nm := fmt.Sprintf("d!%d", p.n)
			body := p.inline(t)
			p.named[t] = nm
			fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", nm, t.sort, body)
		}
	}
	rec(t)
}

func (p *printer) inline(t *Term) string {
	return p.pr(t, nil)
}

func (p *printer) pr(t *Term, lets map[*Term]string) string {
	if nm, ok := p.named[t]; ok {
		return nm
	}
	if lets != nil {
		if nm, ok := lets[t]; ok {
			return nm
		}
	}
	switch t.op {
	case "int":
		return smtInt(t.ival)
	case "true", "false":
		return t.op
	case "var":
		return t.name
	case "str":
		return p.strNm[t]
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", t.sort, p.pr(t.args[0], lets))
	case "forall":
		var bs []string
		for _, b := range t.bound {
			bs = append(bs, fmt.Sprintf("(%s %s)", b.name, b.sort))
		}
		// hoist shared BV terms of the body
		cnt := map[*Term]int{}
		var order []*Term
		var walk func(x *Term)
		walk = func(x *Term) {
			if !x.hasBV || len(x.args) == 0 {
				return
			}
			if _, ok := lets[x]; ok {
				return
			}
			cnt[x]++
			if cnt[x] > 1 {
				return
			}
			if x.op != "forall" {
				for _, a := range x.args {
					walk(a)
				}
			}
			order = append(order, x)
		}
		walk(t.args[0])
		nl := map[*Term]string{}
		for k, v := range lets {
			nl[k] = v
		}
		var pre strings.Builder
		closers := 0
		if len(t.pats) == 0 {
			for _, x := range order {
				if cnt[x] > 1 {
					p.n++
					nm := fmt.Sprintf("l!%d", p.n)
					s := p.pr(x, nl)
					nl[x] = nm
					fmt.Fprintf(&pre, "(let ((%s %s)) ", nm, s)
					closers++
				}
			}
		}
		body := pre.String() + p.pr(t.args[0], nl) + strings.Repeat(")", closers)
		if len(t.pats) > 0 {
			var ps strings.Builder
			for _, pt := range t.pats {
				ps.WriteString(" :pattern (")
				for i, q := range pt {
					if i > 0 {
						ps.WriteByte(' ')
					}
					ps.WriteString(p.pr(q, lets))
				}
				ps.WriteString(")")
			}
			return fmt.Sprintf("(forall (%s) (! %s%s))", strings.Join(bs, " "), body, ps.String())
		}
		return fmt.Sprintf("(forall (%s) %s)", strings.Join(bs, " "), body)
	}
	op := t.op
	if op == "uf" {
		op = t.name
		if len(t.args) == 0 {
			return op
		}
	}
	if op == "=" && t.args[0].sort == SBytes {
		op = "beq"
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(p.pr(a, lets))
	}
	sb.WriteByte(')')
	return sb.String()
}

// ---- running solvers ----

type solveResult struct {
	file   string
	status string // unsat, sat, unknown
	solver string
	dur    time.Duration
	out    string
}

var (
	solverTime   int64 // ns
	solverCalls  int64
	solverByName sync.Map
	workDir      string
	qSeq         int64
	solverSem    = make(chan struct{}, 8)
	resultCache  sync.Map
	deadline     time.Time
)

func runSolver(ctx context.Context, sec int, name string, args []string, file string) (string, string) {
	// limits are CPU seconds, so that a loaded machine does not change an answer
	cmd := exec.CommandContext(ctx, "prlimit", append([]string{fmt.Sprintf("--cpu=%d", sec), name}, append(args, file)...)...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	s := out.String()
	if strings.Contains(s, "(error") {
		return "error", s
	}
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown", "timeout":
			return l, s
		}
	}
	if ctx.Err() != nil || strings.TrimSpace(s) == "" || strings.Contains(s, "interrupted") {
		return "unknown", s
	}
	return "error", s
}

type solverCfg struct {
	bin  string
	args func(sec int) []string
	nm   string
}

var solverCfgs = []solverCfg{
	{"z3-new", func(s int) []string { return []string{fmt.Sprintf("-T:%d", s)} }, "z3-5.3.2"},
	{"cvc5", func(s int) []string { return []string{fmt.Sprintf("--tlimit=%d", s*1000), "--full-saturate-quant"} }, "cvc5-1.1.2"},
	{"z3", func(s int) []string { return []string{fmt.Sprintf("-T:%d", s)} }, "z3-4.8.12"},
	{"z3-new", func(s int) []string {
		return []string{fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "smt.auto_config=false"}
	}, "z3-5.3.2-ematch"},
}

// solve decides a problem: first z3-new alone with a short limit, then the portfolio.
func solve(text string, quick int, full int) solveResult {
	if r, ok := resultCache.Load(text); ok {
		rr := r.(solveResult)
		if rr.status == "unsat" || rr.status == "sat" || full == 0 {
			return rr
		}
	}
	n := atomic.AddInt64(&qSeq, 1)
	file := filepath.Join(workDir, fmt.Sprintf("q%d.smt2", n))
	if err := os.WriteFile(file, []byte(text), 0o644); err != nil {
		return solveResult{status: "error", out: err.Error()}
	}
	keep := os.Getenv("GOVC_KEEP") != ""
	if !keep {
		defer os.Remove(file)
	}
	start := time.Now()
	run := func(c solverCfg, sec int) solveResult {
		defer acquireSlot()()
		t0 := time.Now()
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(3*sec+1)*time.Second)
		defer cancel()
		st, out := runSolver(ctx, sec, c.bin, c.args(3*sec), file)
		d := time.Since(t0)
		atomic.AddInt64(&solverTime, int64(d))
		atomic.AddInt64(&solverCalls, 1)
		return solveResult{status: st, solver: c.nm, dur: d, out: out}
	}
	if !deadline.IsZero() && time.Now().After(deadline) {
		full = 0 // out of time: what is left is reported as not proved
		quick = 1
	}
	r := run(solverCfgs[0], quick)
	if r.status != "unsat" && r.status != "sat" && full > 0 {
		r = raceSolvers(file, full)
	}
	r.dur = time.Since(start)
	r.file = file
	resultCache.Store(text, r)
	return r
}

func raceSolvers(file string, full int) solveResult {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(3*full+2)*time.Second)
	defer cancel()
	ch := make(chan solveResult, len(solverCfgs))
	for _, c := range solverCfgs {
		c := c
		go func() {
			defer acquireSlot()()
			if ctx.Err() != nil {
				ch <- solveResult{status: "unknown", solver: c.nm}
				return
			}
			t0 := time.Now()
			st, out := runSolver(ctx, full, c.bin, c.args(3*full), file)
			d := time.Since(t0)
			atomic.AddInt64(&solverTime, int64(d))
			atomic.AddInt64(&solverCalls, 1)
			ch <- solveResult{status: st, solver: c.nm, dur: d, out: out}
		}()
	}
	var last solveResult
	for range solverCfgs {
		r := <-ch
		if r.status == "unsat" || r.status == "sat" {
			cancel()
			return r
		}
		if last.status == "" || r.status == "unknown" {
			last = r
		}
	}
	return last
}
