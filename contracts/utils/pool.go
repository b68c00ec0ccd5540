package utils

import "sync"

// The pool as a set of free objects. Between critical sections other callers may
// have taken and returned objects: acquiring the lock makes the free list
// arbitrary, subject to the invariant that it holds no object twice.

//govc:uf
func sDrawn(p any, n int) any { return nil }

//govc:model (*sync.Pool).Get
func mPoolGet(p *sync.Pool) any {
	n := vObjGet[int]("pool.gets", p)
	vObjSet("pool.gets", p, n+1)
	r := sDrawn(p, n)
	vObjSet("pool.lastget", p, r)
	return r
}

//govc:model (*sync.Pool).Put
func mPoolPut(p *sync.Pool, x any) {
	vObjSet("pool.puts", p, vObjGet[int]("pool.puts", p)+1)
	vObjSet("pool.lastput", p, x)
}

func sDistinct[T any](s []T) bool {
	return vForall2(func(i, j int) bool {
		return vImp(i >= 0 && i < j && j < len(s), !vEq(s[i], s[j]))
	})
}

func sAbsent[T any](s []T, t T) bool {
	return vForall(func(i int) bool { return vImp(i >= 0 && i < len(s), !vEq(s[i], t)) })
}

//govc:contract (*bond/utils.PreAllocatedPool).Get
//govc:props C20
func cPoolGet[T any](s *PreAllocatedPool[T]) T {
	vRequires("a pool", s != nil && s.SyncPoolWrapper != nil)
	vRequires("lock free on entry", vLockState(&s.mu) == 0)
	vLockDiscipline()
	vModObj(s)
	vModGhost("pool.gets")
	vModGhost("pool.lastget")
	vModGhost("pool.sections")
	vModGhost("pool.at")
	vModGhost("pool.now")
	vSet("pool.sections", 0)
	k := vAny[int]()
	vOnLock(&s.mu, func() {
		it := vAny[[]T]()
		vAssume(sDistinct(it))
		vAssume(vImp(k >= 0 && k < len(it)-1, !vEq(it[k], it[len(it)-1]))) // an instance of the line above
		s.preAllocItems = it
		vSet("pool.at", it)
		vSet("pool.sections", vGet[int]("pool.sections")+1)
	})
	vOnUnlock(&s.mu, func() { vSet("pool.now", s.preAllocItems) })
	g0, p0 := vObjGet[int]("pool.gets", &s.Pool), vObjGet[int]("pool.puts", &s.Pool)
	res := vBody1[T]()
	at, now := vGet[[]T]("pool.at"), vGet[[]T]("pool.now")
	g1 := vObjGet[int]("pool.gets", &s.Pool)
	vEnsures("one critical section", vGet[int]("pool.sections") == 1)
	vEnsures("takes a free object when there is one", vImp(len(at) > 0, g1 == g0 && len(now) == len(at)-1))
	vEnsures("the object handed out was free", vImp(len(at) > 0, !sAbsent(at, res)))
	vEnsures("the object handed out is free no more", vImp(len(at) > 0 && k >= 0 && k < len(now), !vEq(now[k], res)))
	vEnsures("otherwise takes exactly one from the backing pool", vImp(len(at) == 0, g1 == g0+1 && len(now) == 0))
	vEnsures("hands out what the backing pool gave", vImp(len(at) == 0, vEq(any(res), vObjGet[any]("pool.lastget", &s.Pool)) || vIsNil(vObjGet[any]("pool.lastget", &s.Pool))))
	vEnsures("free objects stay distinct", sDistinct(now))
	vEnsures("every object still free was free", vForall(func(i int) bool { return vImp(i >= 0 && i < len(now), vEq(now[i], at[i])) }))
	vEnsures("nothing returned to the backing pool", vObjGet[int]("pool.puts", &s.Pool) == p0)
	vEnsures("lock released", vLockState(&s.mu) == 0)
	return res
}

//govc:contract (*bond/utils.PreAllocatedPool).Put
//govc:props C20
func cPoolPut[T any](s *PreAllocatedPool[T], t T) {
	vRequires("a pool", s != nil && s.SyncPoolWrapper != nil)
	vRequires("lock free on entry", vLockState(&s.mu) == 0)
	vLockDiscipline()
	vModObj(s)
	vModMem("M:")
	vModGhost("pool.puts")
	vModGhost("pool.lastput")
	vModGhost("pool.sections")
	vModGhost("pool.at")
	vModGhost("pool.now")
	vSet("pool.sections", 0)
	at := vAny[[]T]()
	k := vAny[int]()
	vOnLock(&s.mu, func() {
		vAssume(sDistinct(at) && sAbsent(at, t)) // the holder returns an object it holds
		vAssume(vImp(k >= 0 && k < len(at), !vEq(at[k], t))) // an instance of the line above
		s.preAllocItems = at
		vSet("pool.sections", vGet[int]("pool.sections")+1)
	})
	vOnUnlock(&s.mu, func() { vSet("pool.now", s.preAllocItems) })
	g0, p0 := vObjGet[int]("pool.gets", &s.Pool), vObjGet[int]("pool.puts", &s.Pool)
	n0 := len(at)
	x := at[k]
	vBody()
	now := vGet[[]T]("pool.now")
	p1 := vObjGet[int]("pool.puts", &s.Pool)
	vEnsures("one critical section", vGet[int]("pool.sections") == 1)
	vEnsures("the object becomes free or goes to the backing pool, once", (len(now) == n0+1 && p1 == p0) || (len(now) == n0 && p1 == p0+1))
	vEnsures("the free object is the one returned", vImp(p1 == p0, vEq(now[n0], t)))
	vEnsures("the backing pool gets the object returned", vImp(p1 == p0+1, vEq(vObjGet[any]("pool.lastput", &s.Pool), any(t))))
	vEnsures("other free objects stay free", vImp(k >= 0 && k < n0, vEq(now[k], x)))
	vEnsures("the object returned was not already free", vImp(p1 == p0 && k >= 0 && k < n0, !vEq(now[k], now[n0])))
	vEnsures("takes nothing", vObjGet[int]("pool.gets", &s.Pool) == g0)
	vEnsures("lock released", vLockState(&s.mu) == 0)
}

//govc:contract bond/utils.NewPreAllocatedPool
//govc:props C20
func cNewPool[T any](newFunc func() any, size int) *PreAllocatedPool[T] {
	vRequires("a size", size >= 0)
	vInv("filled so far", func(i int, preAllocItems []T) bool { return len(preAllocItems) == i && i <= size })
	vModGhost("pool.gets")
	vModGhost("pool.lastget")
	res := vBody1[*PreAllocatedPool[T]]()
	vEnsures("holds the requested number of objects", len(res.preAllocItems) == size && res.preAllocItemsSize == size)
	vEnsures("backed by a pool", res.SyncPoolWrapper != nil)
	return res
}
