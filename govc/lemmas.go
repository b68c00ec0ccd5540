package main

// bit-vector lemmas behind the byte-order axioms, proved by the solver on every
// run of a check that uses them.

var bvLemmas = map[string][2]string{
	"be64-order": {"big-endian 64-bit encodings compare like the numbers", `(set-logic QF_BV)
(declare-const v (_ BitVec 64))
(declare-const w (_ BitVec 64))
(assert (bvult v w))
(define-fun b ((x (_ BitVec 64)) (k (_ BitVec 64))) (_ BitVec 8) ((_ extract 7 0) (bvlshr x (bvsub (_ bv56 64) (bvmul k (_ bv8 64))))))
(define-fun lt ((k (_ BitVec 64))) Bool (bvult (b v k) (b w k)))
(define-fun eq ((k (_ BitVec 64))) Bool (= (b v k) (b w k)))
(assert (not (or (lt (_ bv0 64))
 (and (eq (_ bv0 64)) (lt (_ bv1 64)))
 (and (eq (_ bv0 64)) (eq (_ bv1 64)) (lt (_ bv2 64)))
 (and (eq (_ bv0 64)) (eq (_ bv1 64)) (eq (_ bv2 64)) (lt (_ bv3 64)))
 (and (eq (_ bv0 64)) (eq (_ bv1 64)) (eq (_ bv2 64)) (eq (_ bv3 64)) (lt (_ bv4 64)))
 (and (eq (_ bv0 64)) (eq (_ bv1 64)) (eq (_ bv2 64)) (eq (_ bv3 64)) (eq (_ bv4 64)) (lt (_ bv5 64)))
 (and (eq (_ bv0 64)) (eq (_ bv1 64)) (eq (_ bv2 64)) (eq (_ bv3 64)) (eq (_ bv4 64)) (eq (_ bv5 64)) (lt (_ bv6 64)))
 (and (eq (_ bv0 64)) (eq (_ bv1 64)) (eq (_ bv2 64)) (eq (_ bv3 64)) (eq (_ bv4 64)) (eq (_ bv5 64)) (eq (_ bv6 64)) (lt (_ bv7 64))))))
(check-sat)
`},
	"bcmpl-order": {"complementing every byte reverses the order of equal-length strings and is injective", bcmplLemma},
	"bebig-order": {"fixed-width big-endian encodings of naturals compare like the numbers (induction step; the empty base case is trivial)", bebigLemma},
	"bcat-order":  {"concatenations compare lexicographically when the first parts have equal length", ""},
}

func bvLemma(n string) (string, solveResult) {
	l, ok := bvLemmas[n]
	if !ok {
		return n, solveResult{status: "unknown"}
	}
	text := l[1]
	if n == "bcat-order" {
		text = bcatOrderLemma
	}
	return l[0], solve(text, 20, 60)
}

// proved from the definition of the lexicographic order (first difference)
const bcatOrderLemma = `(set-logic ALL)
(declare-sort Bytes 0)
(declare-fun blen (Bytes) Int)
(declare-fun bat (Bytes Int) Int)
(declare-const a Bytes)
(declare-const b Bytes)
(declare-const x Bytes)
(declare-const y Bytes)
(declare-const ax Bytes)
(declare-const by Bytes)
(assert (forall ((b Bytes)) (! (>= (blen b) 0) :pattern ((blen b)))))
(assert (= (blen ax) (+ (blen a) (blen x))))
(assert (= (blen by) (+ (blen b) (blen y))))
(assert (forall ((k Int)) (! (= (bat ax k) (ite (< k (blen a)) (bat a k) (bat x (- k (blen a))))) :pattern ((bat ax k)))))
(assert (forall ((k Int)) (! (= (bat by k) (ite (< k (blen b)) (bat b k) (bat y (- k (blen b))))) :pattern ((bat by k)))))
(assert (= (blen a) (blen b)))
; lt p q at witness d: first difference d
(define-fun isfd ((p Bytes) (q Bytes) (d Int)) Bool (and (<= 0 d) (<= d (blen p)) (<= d (blen q)) (forall ((k Int)) (=> (and (<= 0 k) (< k d)) (= (bat p k) (bat q k)))) (or (= d (blen p)) (= d (blen q)) (not (= (bat p d) (bat q d))))))
(define-fun ltd ((p Bytes) (q Bytes) (d Int)) Bool (ite (and (< d (blen p)) (< d (blen q))) (< (bat p d) (bat q d)) (and (= d (blen p)) (< d (blen q)))))
(declare-const d1 Int)
(declare-const d2 Int)
(declare-const d3 Int)
(assert (isfd a b d1))
(assert (isfd x y d2))
(assert (isfd ax by d3))
(assert (not (= (ltd ax by d3) (or (ltd a b d1) (and (= d1 (blen a)) (ltd x y d2))))))
; instances of the definition of the concatenations at the first differences
(assert (= (bat ax d1) (ite (< d1 (blen a)) (bat a d1) (bat x (- d1 (blen a))))))
(assert (= (bat by d1) (ite (< d1 (blen b)) (bat b d1) (bat y (- d1 (blen b))))))
(assert (= (bat ax (+ (blen a) d2)) (bat x d2)))
(assert (= (bat by (+ (blen b) d2)) (bat y d2)))
(assert (= (bat ax d3) (ite (< d3 (blen a)) (bat a d3) (bat x (- d3 (blen a))))))
(assert (= (bat by d3) (ite (< d3 (blen b)) (bat b d3) (bat y (- d3 (blen b))))))
(check-sat)
`

const fdDefs = `(set-logic ALL)
(declare-sort Bytes 0)
(declare-fun blen (Bytes) Int)
(declare-fun bat (Bytes Int) Int)
(assert (forall ((b Bytes)) (! (>= (blen b) 0) :pattern ((blen b)))))
(define-fun isfd ((p Bytes) (q Bytes) (d Int)) Bool (and (<= 0 d) (<= d (blen p)) (<= d (blen q)) (forall ((k Int)) (=> (and (<= 0 k) (< k d)) (= (bat p k) (bat q k)))) (or (= d (blen p)) (= d (blen q)) (not (= (bat p d) (bat q d))))))
(define-fun ltd ((p Bytes) (q Bytes) (d Int)) Bool (ite (and (< d (blen p)) (< d (blen q))) (< (bat p d) (bat q d)) (and (= d (blen p)) (< d (blen q)))))
`

const bcmplLemma = fdDefs + `
(declare-const a Bytes)
(declare-const b Bytes)
(declare-const ca Bytes)
(declare-const cb Bytes)
(assert (= (blen a) (blen b)))
(assert (= (blen ca) (blen a)))
(assert (= (blen cb) (blen b)))
(assert (forall ((k Int)) (=> (and (<= 0 k) (< k (blen a))) (and (= (bat ca k) (- 255 (bat a k))) (= (bat cb k) (- 255 (bat b k)))))))
(declare-const d1 Int)
(declare-const d2 Int)
(assert (isfd b a d1))
(assert (isfd ca cb d2))
(declare-const k0 Int)
(assert (or (not (= (ltd ca cb d2) (ltd b a d1)))
  (and (= (blen ca) (blen cb)) (forall ((k Int)) (=> (and (<= 0 k) (< k (blen ca))) (= (bat ca k) (bat cb k)))) (<= 0 k0) (< k0 (blen a)) (not (= (bat a k0) (bat b k0))))))
(check-sat)
`

// v = 256*qv + rv: enc(v, n+1) = enc(qv, n) ++ rv; with the claim for n as
// hypothesis and the order of concatenations (bcat-order) on the pieces.
const bebigLemma = `(set-logic ALL)
(declare-const v Int)
(declare-const w Int)
(declare-const qv Int)
(declare-const qw Int)
(declare-const rv Int)
(declare-const rw Int)
(assert (and (<= 0 v) (<= 0 w) (<= 0 rv) (< rv 256) (<= 0 rw) (< rw 256) (= v (+ (* 256 qv) rv)) (= w (+ (* 256 qw) rw))))
(declare-const ltq Bool)
(declare-const eqq Bool)
(assert (= ltq (< qv qw)))
(assert (= eqq (= qv qw)))
(assert (not (and (= (or ltq (and eqq (< rv rw))) (< v w)) (= (and eqq (= rv rw)) (= v w)))))
(check-sat)
`
