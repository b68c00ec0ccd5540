package bond

import "time"

// Identifier generator: strictly increasing for every clock and every number of
// concurrent callers. Between two critical sections other callers may have
// advanced the generator: acquiring the lock makes the state arbitrary.

//govc:contract (*bond.NumberSequence).Next
//govc:props C19
func cSeqNext(n *NumberSequence) (uint64, error) {
	vRequires("a generator", n != nil)
	vRequires("lock free on entry", vLockState(&n.mutex) == 0)
	vLockDiscipline()
	vModObj(n)
	vOnLock(&n.mutex, func() {
		n.lastId = vAny[uint64]()
		vSet("seq.base", n.lastId)
		vSet("seq.sections", vGet[int]("seq.sections")+1)
	})
	vOnUnlock(&n.mutex, func() {
		vSet("seq.final", n.lastId)
	})
	vSet("seq.sections", 0)
	vModGhost("seq.base")
	vModGhost("seq.final")
	vModGhost("seq.sections")
	vNoPanic()
	r, err := vBody2[uint64, error]()
	vEnsures("one critical section", vGet[int]("seq.sections") == 1)
	vEnsures("an identifier is larger than every earlier one", vImp(err == nil, r > vGet[uint64]("seq.base")))
	vEnsures("later identifiers will be larger than this one", vImp(err == nil, vGet[uint64]("seq.final") == r))
	vEnsures("nothing changes when no identifier is left", vImp(err != nil, vGet[uint64]("seq.final") == vGet[uint64]("seq.base")))
	vEnsures("lock released", vLockState(&n.mutex) == 0)
	vEnsures("no change outside the critical section", n.lastId == vGet[uint64]("seq.final"))
	vEnsures("identifiers run out only after 2^24 draws in one second", vImp(err != nil, vGet[uint64]("seq.base")%16777216 == 16777215))
	if err != nil {
		vCanary("exhausted")
	} else {
		vCanary("identifier drawn")
	}
	return r, err
}

//govc:contract (*bond.NumberSequence).Timestamp
//govc:props C19
func cSeqTimestamp(n *NumberSequence, ns uint64) uint64 {
	vNoPanic()
	r := vBody1[uint64]()
	vEnsures("seconds part", r == ns/16777216)
	return r
}

//govc:contract (*bond.NumberSequence).SequenceNumber
//govc:props C19
func cSeqNumber(n *NumberSequence, ns uint64) uint64 {
	vNoPanic()
	r := vBody1[uint64]()
	vEnsures("counter part", r == ns%16777216)
	return r
}

// A history of draws is a chain of critical sections in which each section's
// result exceeds the state it found, and the next one finds at least that
// result; hence the results strictly increase.

//govc:lemma draws in one history are strictly increasing
//govc:props C19
func lSeqHistory(base1, r1, base2, r2 uint64) {
	vRequires("first draw", r1 > base1)
	vRequires("the state between two draws never falls below the first result", base2 >= r1)
	vRequires("second draw", r2 > base2)
	vAssert("strictly increasing", r2 > r1)
}

//govc:model time.Now
func mTimeNow() time.Time { return vAny[time.Time]() }

//govc:model (time.Time).Unix
func mTimeUnix(t time.Time) int64 { return vAny[int64]() }
