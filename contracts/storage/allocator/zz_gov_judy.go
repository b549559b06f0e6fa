//go:build go1.21

package allocator

import (
	"github.com/thesues/cannyls-go/address"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/portion"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C03: the free-space map.
//
// Abstract view: the set of free blocks {x | some free portion covers x}.
// A free portion is a key start<<24|len of the start-ordered tree.

func gStart(k uint64) uint64 { return k >> 24 }
func gLen(k uint64) uint64   { return k & 0xFFFFFF }
func gEnd(k uint64) uint64   { return gStart(k) + gLen(k) }

func gRot(k uint64) uint64 { return k<<40 | k>>24 } // start<<24|len -> len<<40|start

// every free portion is non-empty and addressable
func govValid(a *JudyPortionAlloc) bool {
	return gov.Forall(func(k uint64) bool {
		return gov.Imp(gov.Has(&a.startBasedTree, k), gov.And(gLen(k) > 0, gEnd(k) <= address.MAX_ADDRESS))
	})
}

// the two orderings hold the same portions
func govAgree(a *JudyPortionAlloc) bool {
	return gov.And(gov.Forall(func(k uint64) bool {
		return gov.Imp(gov.Has(&a.startBasedTree, k), gov.Has(&a.sizeBasedTree, gRot(k)))
	}), gov.Forall(func(k uint64) bool {
		return gov.Imp(gov.Has(&a.sizeBasedTree, k), gov.Has(&a.startBasedTree, k<<24|k>>40))
	}))
}

// free portions are pairwise disjoint
func govDisjoint(a *JudyPortionAlloc) bool {
	return gov.Forall2(func(x, y uint64) bool {
		return gov.Imp(gov.And(gov.And(gov.Has(&a.startBasedTree, x), gov.Has(&a.startBasedTree, y)), x < y), gEnd(x) <= gStart(y))
	})
}

func govCount(a *JudyPortionAlloc) bool {
	return a.freeCount == gov.Sum(&a.startBasedTree)
}

// the recorded maximum bounds every portion and is attained (or nothing is free)
func govMax(a *JudyPortionAlloc) bool {
	m := a.maxSegmentSize
	return gov.And(gov.Forall(func(k uint64) bool {
		return gov.Imp(gov.Has(&a.startBasedTree, k), gLen(k) <= m)
	}), gov.Or(m == 0, gov.Exists(func(k uint64) bool {
		return gov.And(gov.Has(&a.startBasedTree, k), gLen(k) == m)
	})))
}

func govWF(a *JudyPortionAlloc) bool {
	return gov.And(gov.And(govValid(a), govAgree(a)), gov.And(govDisjoint(a), govCount(a)))
}

func govAnyAlloc() *JudyPortionAlloc {
	a := &JudyPortionAlloc{}
	gov.Havoc(a)
	gov.Assume(govWF(a))
	gov.Assume(govMax(a))
	return a
}

func govAssertWF(a *JudyPortionAlloc) {
	gov.Assert("every free portion is non-empty and addressable", govValid(a))
	gov.Assert("size order and start order hold the same portions", govAgree(a))
	gov.Assert("free portions stay disjoint", govDisjoint(a))
	gov.Assert("free count is the sum of the free portions", govCount(a))
	gov.Assert("maximum segment size is exact", govMax(a))
}

func govFree(a *JudyPortionAlloc, x uint64) bool {
	return gov.Exists(func(k uint64) bool {
		return gov.And(gov.Has(&a.startBasedTree, k), gov.And(gStart(k) <= x, x < gEnd(k)))
	})
}

//gov:proves (*allocator.JudyPortionAlloc).Allocate; (*allocator.JudyPortionAlloc).FreeCount; (*allocator.JudyPortionAlloc).MaxSegmentSize
func GovProve_C03_judyAllocate() {
	a := govAnyAlloc()
	old := *a
	size := gov.U16("size")
	gov.Assume(size > 0)
	gov.Assert("FreeCount reports the free blocks", a.FreeCount() == gov.Sum(&a.startBasedTree))
	gov.Assert("MaxSegmentSize reports the maximum", a.MaxSegmentSize() == a.maxSegmentSize)
	p, err := a.Allocate(size)
	if err != nil {
		gov.Assert("failure is reported as storage full", gov.ErrIs(err, internalerror.StorageFull))
		gov.Assert("allocation fails only when no free portion is large enough", gov.Forall(func(k uint64) bool {
			return gov.Imp(gov.Has(&old.startBasedTree, k), gLen(k) < uint64(size))
		}))
		gov.Assert("a failed allocation changes nothing", gov.Forall(func(k uint64) bool {
			return gov.Has(&old.startBasedTree, k) == gov.Has(&a.startBasedTree, k)
		}))
		gov.Assert("a failed allocation keeps the count", a.freeCount == old.freeCount)
		govAssertWF(a)
		return
	}
	gov.Assert("allocated length is the requested one", p.Len == size)
	s, e := p.Start.AsU64(), p.End()
	gov.Assert("every allocated block was free", gov.Forall(func(x uint64) bool {
		return gov.Imp(gov.And(s <= x, x < e), govFree(&old, x))
	}))
	gov.Assert("exactly the allocated blocks stop being free (1)", gov.Forall2(func(x, k uint64) bool {
		return gov.Imp(gov.And(gov.Has(&a.startBasedTree, k), gov.And(gStart(k) <= x, x < gEnd(k))),
			gov.And(govFree(&old, x), gov.Or(x < s, x >= e)))
	}))
	gov.Assert("exactly the allocated blocks stop being free (2)", gov.Forall2(func(x, k uint64) bool {
		return gov.Imp(gov.And(gov.Has(&old.startBasedTree, k), gov.And(gov.And(gStart(k) <= x, x < gEnd(k)), gov.Or(x < s, x >= e))),
			govFree(a, x))
	}))
	gov.Assert("free count drops by the allocated size", a.freeCount == old.freeCount-uint64(size))
	govAssertWF(a)
}

func govAnyPortion() portion.DataPortion {
	st := gov.U64("start")
	ln := gov.U16("len")
	gov.Assume(ln > 0)
	gov.Assume(st < 1<<40 && st+uint64(ln) <= address.MAX_ADDRESS)
	return portion.NewDataPortion(st, ln)
}

//gov:proves (*allocator.JudyPortionAlloc).Release
func GovProve_C03_judyRelease() {
	a := govAnyAlloc()
	old := *a
	p := govAnyPortion()
	s, e := p.Start.AsU64(), p.End()
	overlap := gov.Exists(func(k uint64) bool {
		return gov.And(gov.Has(&old.startBasedTree, k), gov.And(gStart(k) < e, s < gEnd(k)))
	})
	panicked := gov.Catch(func() { a.Release(p) })
	gov.Assert("releasing free blocks is refused, releasing used blocks is not", panicked == overlap)
	if panicked {
		gov.Assert("a refused release changes nothing", gov.Forall(func(k uint64) bool {
			return gov.Has(&old.startBasedTree, k) == gov.Has(&a.startBasedTree, k)
		}))
		govAssertWF(a)
		return
	}
	gov.Assert("released blocks become free", gov.Forall(func(x uint64) bool {
		return gov.Imp(gov.And(s <= x, x < e), govFree(a, x))
	}))
	gov.Assert("blocks free before stay free", gov.Forall2(func(x, k uint64) bool {
		return gov.Imp(gov.And(gov.Has(&old.startBasedTree, k), gov.And(gStart(k) <= x, x < gEnd(k))), govFree(a, x))
	}))
	gov.Assert("no other block becomes free", gov.Forall2(func(x, k uint64) bool {
		return gov.Imp(gov.And(gov.Has(&a.startBasedTree, k), gov.And(gStart(k) <= x, x < gEnd(k))),
			gov.Or(govFree(&old, x), gov.And(s <= x, x < e)))
	}))
	gov.Assert("free count grows by the released size", a.freeCount == old.freeCount+uint64(p.Len))
	govAssertWF(a)
}

// ---------------------------------------------------------------- C04

// p is inside the region of cap blocks
func govInside(p portion.DataPortion, cap uint64) bool {
	return gov.And(p.Start.AsU64() <= cap, p.Start.AsU64()+uint64(p.Len) <= cap)
}

func govApart(p, q portion.DataPortion) bool {
	return gov.Or(p.Start.AsU64()+uint64(p.Len) <= q.Start.AsU64(), q.Start.AsU64()+uint64(q.Len) <= p.Start.AsU64())
}

func govCovers(p portion.DataPortion, x uint64) bool {
	return gov.And(p.Start.AsU64() <= x, x < p.Start.AsU64()+uint64(p.Len))
}

// the occupied runs handed to the rebuild: the empty run at 0, which bounds
// the region, and pairwise disjoint non-empty runs inside it
func govAnyRuns(cap uint64) []portion.DataPortion {
	n := gov.U64("n")
	gov.Assume(n > 0 && n < 1<<40)
	vec := gov.Slice[portion.DataPortion]("runs", n)
	z := gov.U64("zero")
	gov.Assume(z < n && gov.At(vec, z).Start == 0 && gov.At(vec, z).Len == 0)
	gov.Assume(gov.Forall(func(i uint64) bool {
		return gov.Imp(i < n, gov.And(govInside(gov.At(vec, i), cap), gov.Or(i == z, gov.At(vec, i).Len > 0)))
	}))
	gov.Assume(gov.Forall2(func(i, j uint64) bool {
		return gov.Imp(gov.And(i < n, gov.And(j < n, i != j)), govApart(gov.At(vec, i), gov.At(vec, j)))
	}))
	return vec
}

//gov:proves (*allocator.JudyPortionAlloc).RestoreFromIndex; allocator.NewJudyAlloc
func GovProve_C04_judyRestore() {
	a := NewJudyAlloc()
	bs, err := block.NewBlockSize(gov.U16("bs"))
	gov.Assume(err == nil && bs.AsU16() > 0)
	bytes := gov.U64("capacity")
	cap := bytes / uint64(bs.AsU16())
	gov.Opt("forget", 1)
	gov.Assume(cap < 1<<40)
	vec := govAnyRuns(cap)
	n := uint64(len(vec))

	// any block x of the address space, either inside some run or in none
	x := gov.U64("block")
	covered := gov.Choice("covered", 2) == 1
	if covered {
		j := gov.U64("run")
		gov.Assume(j < n && govCovers(gov.At(vec, j), x))
	} else {
		gov.Assume(gov.Forall(func(i uint64) bool { return gov.Imp(i < n, !govCovers(gov.At(vec, i), x)) }))
	}

	// the part from tail to the end is rebuilt
	rebuilt := func(tail uint64) bool {
		r := gov.And(gov.And(gov.And(govValid(a), govAgree(a)), gov.And(govDisjoint(a), govCount(a))),
			gov.Forall(func(k uint64) bool {
				return gov.Imp(gov.Has(&a.startBasedTree, k), gov.And(gStart(k) >= tail, gEnd(k) <= cap))
			}))
		if covered {
			return gov.And(r, gov.Forall(func(k uint64) bool {
				return gov.Imp(gov.Has(&a.startBasedTree, k), gov.Or(x < gStart(k), x >= gEnd(k)))
			}))
		}
		return gov.And(r, gov.Imp(gov.And(tail <= x, x < cap), govFree(a, x)))
	}
	// x against the runs in their present order
	runs := func() bool {
		if covered {
			return gov.Exists(func(j uint64) bool { return gov.And(j < n, govCovers(gov.At(vec, j), x)) })
		}
		return gov.Forall(func(i uint64) bool { return gov.Imp(i < n, !govCovers(gov.At(vec, i), x)) })
	}
	// the runs are in descending order
	sorted := func() bool {
		return gov.And(gov.Forall2(func(i, j uint64) bool {
			return gov.Imp(gov.And(i < j, j < n), gov.At(vec, j).End() <= gov.At(vec, i).Start.AsU64())
		}), gov.Forall(func(i uint64) bool {
			return gov.Imp(i < n, gov.And(govInside(gov.At(vec, i), cap), gov.Or(i+1 < n, gov.At(vec, i).Start == 0)))
		}))
	}
	gov.Invariant("(*allocator.JudyPortionAlloc).RestoreFromIndex", 0, func(v gov.Vars) bool {
		i, tail := uint64(v.Int("rangeindex"))+1, v.U64("tail")
		return gov.And(gov.And(gov.And(sorted(), runs()), gov.And(i <= n, tail == gov.Ite(i == 0, cap, gov.At(vec, i-1).Start.AsU64()))), rebuilt(tail))
	})
	gov.Invariant("(*allocator.JudyPortionAlloc).RestoreFromIndex", 1, func(v gov.Vars) bool {
		i, tail := uint64(v.Int("rangeindex"))+1, v.U64("tail")
		p := v.Any("p").(portion.DataPortion)
		return gov.And(gov.And(gov.And(gov.And(sorted(), runs()), gov.And(i < n, p == gov.At(vec, i))), gov.And(tail <= gov.Ite(i == 0, cap, gov.At(vec, i-1).Start.AsU64()), p.End() <= tail)), rebuilt(tail))
	})
	a.RestoreFromIndex(bs, bytes, vec)
	if covered {
		gov.Assert("no block of a stored lump is free", !govFree(a, x))
	} else {
		gov.Assert("every other block of the region is free", gov.Imp(x < cap, govFree(a, x)))
		gov.Assert("only blocks of the region are free", gov.Imp(govFree(a, x), x < cap))
	}
	govAssertWF(a)
}

// ---------------------------------------------------------------- C21

// The figures of the free-space map are exact after every operation.
//
//gov:proves (*allocator.JudyPortionAlloc).FreeCount; (*allocator.JudyPortionAlloc).MaxSegmentSize; (*allocator.JudyPortionAlloc).Allocate; (*allocator.JudyPortionAlloc).Release
func GovProve_C21_counts() {
	a := govAnyAlloc()
	if gov.Choice("op", 2) == 0 {
		size := gov.U16("size")
		gov.Assume(size > 0)
		a.Allocate(size)
	} else {
		p := govAnyPortion()
		gov.Catch(func() { a.Release(p) })
	}
	m := a.MaxSegmentSize()
	gov.Assert("the number of free blocks is exact", a.FreeCount() == gov.Sum(&a.startBasedTree))
	gov.Assert("no free run is longer than reported", gov.Forall(func(k uint64) bool { return gov.Imp(gov.Has(&a.startBasedTree, k), gLen(k) <= m) }))
	gov.Assert("there is a free run as long as reported", gov.Or(m == 0, gov.Exists(func(k uint64) bool { return gov.And(gov.Has(&a.startBasedTree, k), gLen(k) == m) })))
}

// the same rebuild from an ordered set of runs
//
//gov:proves (*allocator.JudyPortionAlloc).RestoreFromIndexWithJudy
func GovProve_C04_judyRestoreSet() {
	a := NewJudyAlloc()
	bs, err := block.NewBlockSize(gov.U16("bs"))
	gov.Assume(err == nil && bs.AsU16() > 0)
	bytes := gov.U64("capacity")
	cap := bytes / uint64(bs.AsU16())
	gov.Opt("forget", 1)
	gov.Assume(cap < 1<<40)
	set := gov.NewJudy1("runs")
	in := *set
	// the empty run at 0 and pairwise disjoint non-empty runs of the region
	runs := func() bool {
		return gov.And(gov.And(gov.Has(&in, 0), gov.Forall(func(k uint64) bool {
			return gov.Imp(gov.Has(&in, k), gov.And(gov.Or(k == 0, gLen(k) > 0), gEnd(k) <= cap))
		})), gov.Forall2(func(j, k uint64) bool {
			return gov.Imp(gov.And(gov.Has(&in, j), gov.And(gov.Has(&in, k), j < k)), gEnd(j) <= gStart(k))
		}))
	}
	gov.Assume(runs())
	x := gov.U64("block")
	covers := func(k uint64) bool { return gov.And(gStart(k) <= x, x < gEnd(k)) }
	taken := gov.Choice("covered", 2) == 1
	by := gov.U64("run")
	if taken {
		gov.Assume(gov.And(gov.Has(&in, by), covers(by)))
	} else {
		gov.Assume(gov.Forall(func(k uint64) bool { return gov.Imp(gov.Has(&in, k), !covers(k)) }))
	}
	// x against the runs
	where := func() bool {
		if taken {
			return gov.And(gov.Has(&in, by), covers(by))
		}
		return gov.Forall(func(k uint64) bool { return gov.Imp(gov.Has(&in, k), !covers(k)) })
	}
	rebuilt := func(tail uint64) bool {
		r := gov.And(govWF(a), gov.Forall(func(k uint64) bool {
			return gov.Imp(gov.Has(&a.startBasedTree, k), gov.And(gStart(k) >= tail, gEnd(k) <= cap))
		}))
		if taken {
			return gov.And(r, gov.Forall(func(k uint64) bool { return gov.Imp(gov.Has(&a.startBasedTree, k), !covers(k)) }))
		}
		return gov.And(r, gov.Imp(gov.And(tail <= x, x < cap), govFree(a, x)))
	}
	same := func() bool { return gov.Forall(func(k uint64) bool { return gov.Has(&in, k) == gov.Has(set, k) }) }
	gov.Invariant("(*allocator.JudyPortionAlloc).RestoreFromIndexWithJudy", 0, func(v gov.Vars) bool {
		cur, ok, tail := v.U64("index"), v.Bool("ok"), v.U64("tail")
		return gov.And(gov.And(gov.And(same(), gov.And(runs(), where())), gov.And(gov.Imp(ok, gov.And(gov.Has(&in, cur), gEnd(cur) <= tail)), gov.Imp(!ok, tail == 0))),
			gov.And(gov.And(tail <= cap, gov.Forall(func(k uint64) bool {
				return gov.Imp(gov.And(gov.Has(&in, k), gov.Or(!ok, k > cur)), gStart(k) >= tail)
			})), rebuilt(tail)))
	})
	gov.Invariant("(*allocator.JudyPortionAlloc).RestoreFromIndexWithJudy", 1, func(v gov.Vars) bool {
		cur, tail := v.U64("index"), v.U64("tail")
		return gov.And(gov.And(gov.And(same(), gov.And(runs(), where())), gov.And(gov.Has(&in, cur), gEnd(cur) <= tail)),
			gov.And(gov.And(tail <= cap, gov.Forall(func(k uint64) bool {
				return gov.Imp(gov.And(gov.Has(&in, k), k > cur), gStart(k) >= tail)
			})), rebuilt(tail)))
	})
	a.RestoreFromIndexWithJudy(bs, bytes, set)
	if taken {
		gov.Assert("no block of a stored lump is free", !govFree(a, x))
	} else {
		gov.Assert("every other block of the region is free", gov.Imp(x < cap, govFree(a, x)))
		gov.Assert("only blocks of the region are free", gov.Imp(govFree(a, x), x < cap))
	}
	govAssertWF(a)
}

//gov:proves allocator.BuildJudyAlloc
func GovProve_C04_judyBuild() {
	n := gov.U32("blocks")
	gov.Assume(gov.And(n > 0, n < 1<<24))
	a := BuildJudyAlloc(n)
	x := gov.U64("block")
	gov.Assert("exactly the blocks of the region are free", govFree(a, x) == (x < uint64(n)))
	govAssertWF(a)
}
