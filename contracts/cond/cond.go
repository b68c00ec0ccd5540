package cond

import "golang.org/x/exp/constraints"

// Meaning of conditions. sVal: what a value getter returns for a row; sAccepts:
// what a nested condition answers for a row (conditions are functions of the row).

//govc:uf
func sVal[R any, V any](f RecordValueGetter[R, V], r R) V { var v V; return v }

//govc:uf
func sFunc[R any](f CondFunc[R], r R) bool { return false }

//govc:uf
func sAccepts[R any](c any, r R) bool { return false }

//govc:uf
func sSame(a, b any) bool { return false }

//govc:model func:bond/cond.RecordValueGetter
func mGetter[R any, V any](f RecordValueGetter[R, V], r R) V { return sVal[R, V](f, r) }

//govc:model func:bond/cond.CondFunc
func mCondFunc[R any](f CondFunc[R], r R) bool { return sFunc[R](f, r) }

//govc:model (bond/cond.Cond).Eval
func mEval[R any](c Cond[R], r R) bool { return sAccepts[R](c, r) }

//govc:model github.com/stretchr/testify/assert.ObjectsAreEqual
func mObjectsAreEqual(a, b any) bool { return sSame(a, b) }

//govc:contract (bond/cond.CondFunc).Eval
//govc:props C21
func cFuncEval[R any](e CondFunc[R], r R) bool {
	vRequires("a function", e != nil)
	vNoPanic()
	res := vBody1[bool]()
	vEnsures("accepts what the function accepts", res == sFunc[R](e, r))
	return res
}

//govc:contract (*bond/cond._eq).Eval
//govc:props C21
func cEqEval[R any, V any](e *_eq[R, V], r R) bool {
	vRequires("built by Eq", e != nil && e.RecordValue != nil)
	vNoPanic()
	res := vBody1[bool]()
	vEnsures("accepts exactly equal values", res == sSame(sVal[R, V](e.RecordValue, r), e.Equal))
	return res
}

//govc:contract (*bond/cond._gt).Eval
//govc:props C21
func cGtEval[R any, V constraints.Ordered](g *_gt[R, V], r R) bool {
	vRequires("built by Gt", g != nil && g.RecordValue != nil)
	vNoPanic()
	res := vBody1[bool]()
	vEnsures("accepts exactly greater values", res == (sVal[R, V](g.RecordValue, r) > g.OtherValue))
	return res
}

//govc:contract (*bond/cond._gte).Eval
//govc:props C21
func cGteEval[R any, V constraints.Ordered](g *_gte[R, V], r R) bool {
	vRequires("built by Gte", g != nil && g.RecordValue != nil)
	vNoPanic()
	res := vBody1[bool]()
	vEnsures("accepts exactly greater or equal values", res == (sVal[R, V](g.RecordValue, r) >= g.OtherValue))
	return res
}

//govc:contract (*bond/cond._lt).Eval
//govc:props C21
func cLtEval[R any, V constraints.Ordered](l *_lt[R, V], r R) bool {
	vRequires("built by Lt", l != nil && l.RecordValue != nil)
	vNoPanic()
	res := vBody1[bool]()
	vEnsures("accepts exactly smaller values", res == (sVal[R, V](l.RecordValue, r) < l.OtherValue))
	return res
}

//govc:contract (*bond/cond._lte).Eval
//govc:props C21
func cLteEval[R any, V constraints.Ordered](l *_lte[R, V], r R) bool {
	vRequires("built by Lte", l != nil && l.RecordValue != nil)
	vNoPanic()
	res := vBody1[bool]()
	vEnsures("accepts exactly smaller or equal values", res == (sVal[R, V](l.RecordValue, r) <= l.OtherValue))
	return res
}

//govc:contract (*bond/cond._not).Eval
//govc:props C21
func cNotEval[R any](n *_not[R], r R) bool {
	vRequires("built by Not", n != nil && n.Evaluable != nil)
	vNoPanic()
	res := vBody1[bool]()
	vEnsures("accepts exactly what the part rejects", res == !sAccepts[R](n.Evaluable, r))
	return res
}

//govc:contract (*bond/cond._and).Eval
//govc:props C21
func cAndEval[R any](a *_and[R], r R) bool {
	vRequires("built by And", a != nil)
	n := len(*a)
	vInv("conjunction so far", func(i int, acc bool) bool {
		return acc == vForall(func(k int) bool { return vImp(k >= 0 && k < i, sAccepts[R]((*a)[k], r)) })
	})
	res := vBody1[bool]()
	vEnsures("accepts exactly when every part accepts", res == vForall(func(k int) bool { return vImp(k >= 0 && k < n, sAccepts[R]((*a)[k], r)) }))
	return res
}

//govc:contract (*bond/cond._or).Eval
//govc:props C21
func cOrEval[R any](o *_or[R], r R) bool {
	vRequires("built by Or", o != nil)
	n := len(*o)
	vInv("disjunction so far", func(i int, acc bool) bool {
		return acc == !vForall(func(k int) bool { return vImp(k >= 0 && k < i, !sAccepts[R]((*o)[k], r)) })
	})
	res := vBody1[bool]()
	vEnsures("accepts exactly when some part accepts", res == !vForall(func(k int) bool { return vImp(k >= 0 && k < n, !sAccepts[R]((*o)[k], r)) }))
	return res
}

//govc:contract bond/cond.And
//govc:props C21
func cAnd[R any](evalList ...Cond[R]) Cond[R] {
	n := len(evalList)
	vInv("parts copied", func(i int, e *_and[R]) bool {
		return len(*e) == i && vForall(func(k int) bool { return vImp(k >= 0 && k < i, vEq((*e)[k], evalList[k])) })
	})
	vNoPanic()
	res := vBody1[Cond[R]]()
	e, ok := res.(*_and[R])
	vEnsures("a conjunction", ok)
	vEnsures("of exactly the given parts", len(*e) == n && vForall(func(k int) bool { return vImp(k >= 0 && k < n, vEq((*e)[k], evalList[k])) }))
	return res
}

//govc:contract bond/cond.Or
//govc:props C21
func cOr[R any](evalList ...Cond[R]) Cond[R] {
	n := len(evalList)
	vInv("parts copied", func(i int, e *_or[R]) bool {
		return len(*e) == i && vForall(func(k int) bool { return vImp(k >= 0 && k < i, vEq((*e)[k], evalList[k])) })
	})
	vNoPanic()
	res := vBody1[Cond[R]]()
	e, ok := res.(*_or[R])
	vEnsures("a disjunction", ok)
	vEnsures("of exactly the given parts", len(*e) == n && vForall(func(k int) bool { return vImp(k >= 0 && k < n, vEq((*e)[k], evalList[k])) }))
	return res
}

//govc:contract bond/cond.Not
//govc:props C21
func cNot[R any](eval Cond[R]) Cond[R] {
	vNoPanic()
	res := vBody1[Cond[R]]()
	e, ok := res.(*_not[R])
	vEnsures("a negation of the given part", ok && vEq(e.Evaluable, eval))
	return res
}

//govc:contract bond/cond.Func
//govc:props C21
func cFunc[R any](f func(r R) bool) Cond[R] {
	vRequires("a function", f != nil)
	vNoPanic()
	res := vBody1[Cond[R]]()
	e, ok := res.(CondFunc[R])
	vEnsures("the given function", ok && vEq(e, CondFunc[R](f)))
	return res
}

//govc:contract bond/cond.Eq
//govc:props C21
func cEq[R any, V any](valueGetter RecordValueGetter[R, V], otherValue V) Cond[R] {
	vNoPanic()
	res := vBody1[Cond[R]]()
	e, ok := res.(*_eq[R, V])
	vEnsures("compares the given value", ok && vEq(e.RecordValue, valueGetter) && vEq(e.Equal, otherValue))
	return res
}

//govc:contract bond/cond.Gt
//govc:props C21
func cGt[R any, V constraints.Ordered](valueGetter RecordValueGetter[R, V], otherValue V) Cond[R] {
	vNoPanic()
	res := vBody1[Cond[R]]()
	e, ok := res.(*_gt[R, V])
	vEnsures("compares the given value", ok && vEq(e.RecordValue, valueGetter) && vEq(e.OtherValue, otherValue))
	return res
}

//govc:contract bond/cond.Gte
//govc:props C21
func cGte[R any, V constraints.Ordered](valueGetter RecordValueGetter[R, V], otherValue V) Cond[R] {
	vNoPanic()
	res := vBody1[Cond[R]]()
	e, ok := res.(*_gte[R, V])
	vEnsures("compares the given value", ok && vEq(e.RecordValue, valueGetter) && vEq(e.OtherValue, otherValue))
	return res
}

//govc:contract bond/cond.Lt
//govc:props C21
func cLt[R any, V constraints.Ordered](valueGetter RecordValueGetter[R, V], otherValue V) Cond[R] {
	vNoPanic()
	res := vBody1[Cond[R]]()
	e, ok := res.(*_lt[R, V])
	vEnsures("compares the given value", ok && vEq(e.RecordValue, valueGetter) && vEq(e.OtherValue, otherValue))
	return res
}

//govc:contract bond/cond.Lte
//govc:props C21
func cLte[R any, V constraints.Ordered](valueGetter RecordValueGetter[R, V], otherValue V) Cond[R] {
	vNoPanic()
	res := vBody1[Cond[R]]()
	e, ok := res.(*_lte[R, V])
	vEnsures("compares the given value", ok && vEq(e.RecordValue, valueGetter) && vEq(e.OtherValue, otherValue))
	return res
}
