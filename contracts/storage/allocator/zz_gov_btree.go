//go:build go1.21

package allocator

import (
	"github.com/google/btree"
	"github.com/thesues/cannyls-go/address"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/portion"
	gov "github.com/thesues/cannyls-go/zzgov"
	"github.com/thesues/go-judy"
)

// C03, C04, C21: the free-space map that is kept in two b-trees.
//
// github.com/google/btree is assumed to be an ordered set of items under
// their Less.  The abstract view of a tree is the set of its items, each as
// start<<24|len (as in zz_gov_judy.go):
//   size: the items of sizeToFree; Less orders them by length, then start
//   end:  the items of endToFree; Less orders (and identifies) them by End, so
//         there is at most one of each End (asserted)
// GovProve_C03_btreeOrder shows that Less of the code is that order.

type govTrees struct {
	a     *BtreeDataPortionAlloc
	size  judy.Judy1
	end   judy.Judy1
	dirty bool // a tree was changed during the present step of a walk
}

func gItemEnd(n uint64) uint64 { return n&address.MAX_ADDRESS + n>>40 }

func gBack(n uint64) uint64 { return n<<24 | n>>40 } // len<<40|start -> start<<24|len

func (g *govTrees) sized(t *btree.BTree) bool {
	gov.Assert("a tree of the free-space map is used", gov.Or(t == g.a.sizeToFree, t == g.a.endToFree))
	return t == g.a.sizeToFree
}

// the first item that is not before (strict: that is after) key
func (g *govTrees) from(size bool, key uint64, strict bool) (uint64, bool) {
	k := gov.U64("item")
	some := gov.Choice("found", 2) == 1
	if size {
		in := func(x uint64) bool {
			return gov.And(gov.Has(&g.size, x), gov.Or(gRot(x) > key, gov.And(!strict, gRot(x) == key)))
		}
		if !some {
			gov.Assume(gov.Forall(func(x uint64) bool { return !in(x) }))
			return 0, false
		}
		gov.Assume(gov.And(in(k), gov.Forall(func(x uint64) bool { return gov.Imp(in(x), gRot(k) <= gRot(x)) })))
		return k, true
	}
	in := func(x uint64) bool {
		return gov.And(gov.Has(&g.end, x), gov.Or(gEnd(x) > key, gov.And(!strict, gEnd(x) == key)))
	}
	if !some {
		gov.Assume(gov.Forall(func(x uint64) bool { return !in(x) }))
		return 0, false
	}
	gov.Assume(gov.And(in(k), gov.Forall(func(x uint64) bool { return gov.Imp(in(x), gEnd(k) <= gEnd(x)) })))
	return k, true
}

func (g *govTrees) item(size bool, k uint64) btree.Item {
	if size {
		return portion.SizeBasedPortion(gRot(k))
	}
	return portion.EndBasedPortion(gRot(k))
}

func (g *govTrees) use() {
	gov.Use("(*btree.BTree).ReplaceOrInsert", func(t *btree.BTree, it btree.Item) btree.Item {
		g.dirty = true
		if g.sized(t) {
			g.size.Set(gBack(uint64(it.(portion.SizeBasedPortion))))
			return nil
		}
		k := gBack(uint64(it.(portion.EndBasedPortion)))
		gov.Assert("no two free portions end at the same block", gov.Forall(func(x uint64) bool {
			return gov.Imp(gov.Has(&g.end, x), gEnd(x) != gEnd(k))
		}))
		g.end.Set(k)
		return nil
	})
	gov.Use("(*btree.BTree).Delete", func(t *btree.BTree, it btree.Item) btree.Item {
		g.dirty = true
		if g.sized(t) {
			g.size.Unset(gBack(uint64(it.(portion.SizeBasedPortion))))
			return nil
		}
		k := gBack(uint64(it.(portion.EndBasedPortion)))
		gov.Assert("a portion that is taken out of the map is in it", gov.Has(&g.end, k))
		g.end.Unset(k)
		return nil
	})
	gov.Use("(*btree.BTree).Max", func(t *btree.BTree) btree.Item {
		size := g.sized(t)
		k := gov.U64("item")
		if gov.Choice("found", 2) == 0 {
			gov.Assume(gov.Forall(func(x uint64) bool { return gov.And(!gov.And(size, gov.Has(&g.size, x)), !gov.And(!size, gov.Has(&g.end, x))) }))
			return nil
		}
		if size {
			gov.Assume(gov.And(gov.Has(&g.size, k), gov.Forall(func(x uint64) bool { return gov.Imp(gov.Has(&g.size, x), gRot(x) <= gRot(k)) })))
		} else {
			gov.Assume(gov.And(gov.Has(&g.end, k), gov.Forall(func(x uint64) bool { return gov.Imp(gov.Has(&g.end, x), gEnd(x) <= gEnd(k)) })))
		}
		return g.item(size, k)
	})
	gov.Use("(*btree.BTree).Get", func(t *btree.BTree, it btree.Item) btree.Item {
		if g.sized(t) {
			n := it.(portion.SizeBasedPortion)
			if !gov.Has(&g.size, gBack(uint64(n))) {
				return nil
			}
			return n
		}
		e := gItemEnd(uint64(it.(portion.EndBasedPortion)))
		if gov.Choice("found", 2) == 0 {
			gov.Assume(gov.Forall(func(x uint64) bool { return gov.Imp(gov.Has(&g.end, x), gEnd(x) != e) }))
			return nil
		}
		k := gov.U64("item")
		gov.Assume(gov.And(gov.Has(&g.end, k), gEnd(k) == e))
		return g.item(false, k)
	})
	gov.Use("(*btree.BTree).AscendGreaterOrEqual", func(t *btree.BTree, it btree.Item, f btree.ItemIterator) {
		size := g.sized(t)
		var key uint64
		if size {
			key = uint64(it.(portion.SizeBasedPortion))
		} else {
			key = gItemEnd(uint64(it.(portion.EndBasedPortion)))
		}
		for i := 0; i < 3; i++ {
			k, ok := g.from(size, key, i > 0)
			if !ok {
				return
			}
			g.dirty = false
			if !f(g.item(size, k)) {
				return
			}
			gov.Assert("a tree that is being walked is changed only to end the walk", !g.dirty)
			if size {
				key = gRot(k)
			} else {
				key = gEnd(k)
			}
		}
		gov.Fail("the walk ends at the third portion at the latest")
	})
	gov.Use("btree.NewWithFreeList", func(degree int, l *btree.FreeList) *btree.BTree {
		gov.Assert("a tree has nodes of two children or more", degree > 1)
		return &btree.BTree{}
	})
	gov.Use("btree.NewFreeList", func(n int) *btree.FreeList { return &btree.FreeList{} })
	gov.Use("btree.New", func(degree int) *btree.BTree {
		gov.Assert("a tree has nodes of two children or more", degree > 1)
		return &btree.BTree{}
	})
}

func (g *govTrees) valid() bool {
	return gov.Forall(func(k uint64) bool {
		return gov.Imp(gov.Has(&g.end, k), gov.And(gLen(k) > 0, gEnd(k) <= address.MAX_ADDRESS))
	})
}

func (g *govTrees) agree() bool {
	return gov.Forall(func(k uint64) bool { return gov.Has(&g.end, k) == gov.Has(&g.size, k) })
}

func (g *govTrees) disjoint() bool {
	return gov.Forall2(func(x, y uint64) bool {
		return gov.Imp(gov.And(gov.And(gov.Has(&g.end, x), gov.Has(&g.end, y)), x < y), gEnd(x) <= gStart(y))
	})
}

func (g *govTrees) max() bool {
	m := g.a.maxSegmentSize
	return gov.And(gov.Forall(func(k uint64) bool {
		return gov.Imp(gov.Has(&g.end, k), gLen(k) <= m)
	}), gov.Or(m == 0, gov.Exists(func(k uint64) bool {
		return gov.And(gov.Has(&g.end, k), gLen(k) == m)
	})))
}

func (g *govTrees) wf() bool {
	return gov.And(gov.And(g.valid(), g.agree()), gov.And(g.disjoint(), g.a.freeCount == gov.Sum(&g.end)))
}

func (g *govTrees) assertWF() {
	gov.Assert("every free portion is non-empty and addressable", g.valid())
	gov.Assert("size order and end order hold the same portions", g.agree())
	gov.Assert("free portions stay disjoint", g.disjoint())
	gov.Assert("free count is the sum of the free portions", g.a.freeCount == gov.Sum(&g.end))
	gov.Assert("maximum segment size is exact", g.max())
}

func (g *govTrees) free(x uint64) bool {
	return gov.Exists(func(k uint64) bool {
		return gov.And(gov.Has(&g.end, k), gov.And(gStart(k) <= x, x < gEnd(k)))
	})
}

func govAnyTrees() *govTrees {
	g := &govTrees{a: &BtreeDataPortionAlloc{}}
	gov.Havoc(&g.size)
	gov.Havoc(&g.end)
	g.use()
	g.a.sizeToFree, g.a.endToFree = &btree.BTree{}, &btree.BTree{}
	g.a.freeCount, g.a.maxSegmentSize = gov.U64("free count"), gov.U64("maximum")
	gov.Assume(g.wf())
	gov.Assume(g.max())
	return g
}

// Less is the order of the view.
//
//gov:proves (portion.SizeBasedPortion).Less; (portion.EndBasedPortion).Less
func GovProve_C03_btreeOrder() {
	x, y := gov.U64("x"), gov.U64("y")
	gov.Assert("size order is the order of the numbers", portion.SizeBasedPortion(x).Less(portion.SizeBasedPortion(y)) == (x < y))
	gov.Assume(gov.And(gItemEnd(x) <= address.MAX_ADDRESS, gItemEnd(y) <= address.MAX_ADDRESS))
	gov.Assert("end order is the order of the ends", portion.EndBasedPortion(x).Less(portion.EndBasedPortion(y)) == (gItemEnd(x) < gItemEnd(y)))
}

//gov:proves (*allocator.BtreeDataPortionAlloc).Allocate; (*allocator.BtreeDataPortionAlloc).FreeCount; (*allocator.BtreeDataPortionAlloc).MaxSegmentSize
func GovProve_C03_btreeAllocate() {
	g := govAnyTrees()
	a := g.a
	old, count := *g, a.freeCount
	size := gov.U16("size")
	gov.Assume(size > 0)
	gov.Assert("FreeCount reports the free blocks", a.FreeCount() == gov.Sum(&g.end))
	gov.Assert("MaxSegmentSize reports the maximum", a.MaxSegmentSize() == a.maxSegmentSize)
	p, err := a.Allocate(size)
	if err != nil {
		gov.Assert("failure is reported as storage full", gov.ErrIs(err, internalerror.StorageFull))
		gov.Assert("allocation fails only when no free portion is large enough", gov.Forall(func(k uint64) bool {
			return gov.Imp(gov.Has(&old.end, k), gLen(k) < uint64(size))
		}))
		gov.Assert("a failed allocation changes nothing", gov.Forall(func(k uint64) bool {
			return gov.Has(&old.end, k) == gov.Has(&g.end, k)
		}))
		gov.Assert("a failed allocation keeps the count", a.freeCount == count)
		g.assertWF()
		return
	}
	gov.Assert("allocated length is the requested one", p.Len == size)
	s, e := p.Start.AsU64(), p.End()
	gov.Assert("every allocated block was free", gov.Forall(func(x uint64) bool {
		return gov.Imp(gov.And(s <= x, x < e), old.free(x))
	}))
	gov.Assert("exactly the allocated blocks stop being free (1)", gov.Forall2(func(x, k uint64) bool {
		return gov.Imp(gov.And(gov.Has(&g.end, k), gov.And(gStart(k) <= x, x < gEnd(k))),
			gov.And(old.free(x), gov.Or(x < s, x >= e)))
	}))
	gov.Assert("exactly the allocated blocks stop being free (2)", gov.Forall2(func(x, k uint64) bool {
		return gov.Imp(gov.And(gov.Has(&old.end, k), gov.And(gov.And(gStart(k) <= x, x < gEnd(k)), gov.Or(x < s, x >= e))),
			g.free(x))
	}))
	gov.Assert("free count drops by the allocated size", a.freeCount == count-uint64(size))
	g.assertWF()
}

//gov:proves (*allocator.BtreeDataPortionAlloc).Release
func GovProve_C03_btreeRelease() {
	g := govAnyTrees()
	a := g.a
	old, count := *g, a.freeCount
	p := govAnyPortion()
	s, e := p.Start.AsU64(), p.End()
	overlap := gov.Exists(func(k uint64) bool {
		return gov.And(gov.Has(&old.end, k), gov.And(gStart(k) < e, s < gEnd(k)))
	})
	panicked := gov.Catch(func() { a.Release(p) })
	gov.Assert("releasing free blocks is refused, releasing used blocks is not", panicked == overlap)
	if panicked {
		gov.Assert("a refused release changes nothing", gov.Forall(func(k uint64) bool {
			return gov.Has(&old.end, k) == gov.Has(&g.end, k)
		}))
		g.assertWF()
		return
	}
	gov.Assert("released blocks become free", gov.Forall(func(x uint64) bool {
		return gov.Imp(gov.And(s <= x, x < e), g.free(x))
	}))
	gov.Assert("blocks free before stay free", gov.Forall2(func(x, k uint64) bool {
		return gov.Imp(gov.And(gov.Has(&old.end, k), gov.And(gStart(k) <= x, x < gEnd(k))), g.free(x))
	}))
	gov.Assert("no other block becomes free", gov.Forall2(func(x, k uint64) bool {
		return gov.Imp(gov.And(gov.Has(&g.end, k), gov.And(gStart(k) <= x, x < gEnd(k))),
			gov.Or(old.free(x), gov.And(s <= x, x < e)))
	}))
	gov.Assert("free count grows by the released size", a.freeCount == count+uint64(p.Len))
	g.assertWF()
}

//gov:proves (*allocator.BtreeDataPortionAlloc).RestoreFromIndex; allocator.NewBtreeAlloc
func GovProve_C04_btreeRestore() {
	g := &govTrees{}
	g.use()
	a := NewBtreeAlloc()
	g.a = a
	gov.Assert("the orders are kept apart", a.sizeToFree != a.endToFree)
	bs, err := block.NewBlockSize(gov.U16("bs"))
	gov.Assume(err == nil && bs.AsU16() > 0)
	bytes := gov.U64("capacity")
	cap := bytes / uint64(bs.AsU16())
	gov.Opt("forget", 1)
	gov.Assume(cap < 1<<40)
	vec := govAnyRuns(cap)
	n := uint64(len(vec))

	// any block x of the address space, either inside some run or in none
	x := gov.U64("block")
	covered := gov.Choice("covered", 2) == 1
	if covered {
		j := gov.U64("run")
		gov.Assume(j < n && govCovers(gov.At(vec, j), x))
	} else {
		gov.Assume(gov.Forall(func(i uint64) bool { return gov.Imp(i < n, !govCovers(gov.At(vec, i), x)) }))
	}

	// the part from tail to the end is rebuilt
	rebuilt := func(tail uint64) bool {
		r := gov.And(g.wf(), gov.Forall(func(k uint64) bool {
			return gov.Imp(gov.Has(&g.end, k), gov.And(gStart(k) >= tail, gEnd(k) <= cap))
		}))
		if covered {
			return gov.And(r, gov.Forall(func(k uint64) bool {
				return gov.Imp(gov.Has(&g.end, k), gov.Or(x < gStart(k), x >= gEnd(k)))
			}))
		}
		return gov.And(r, gov.Imp(gov.And(tail <= x, x < cap), g.free(x)))
	}
	// x against the runs in their present order
	runs := func() bool {
		if covered {
			return gov.Exists(func(j uint64) bool { return gov.And(j < n, govCovers(gov.At(vec, j), x)) })
		}
		return gov.Forall(func(i uint64) bool { return gov.Imp(i < n, !govCovers(gov.At(vec, i), x)) })
	}
	// the runs are in descending order
	sorted := func() bool {
		return gov.And(gov.Forall2(func(i, j uint64) bool {
			return gov.Imp(gov.And(i < j, j < n), gov.At(vec, j).End() <= gov.At(vec, i).Start.AsU64())
		}), gov.Forall(func(i uint64) bool {
			return gov.Imp(i < n, gov.And(govInside(gov.At(vec, i), cap), gov.Or(i+1 < n, gov.At(vec, i).Start == 0)))
		}))
	}
	gov.Invariant("(*allocator.BtreeDataPortionAlloc).RestoreFromIndex", 0, func(v gov.Vars) bool {
		i, tail := uint64(v.Int("rangeindex"))+1, v.U64("tail")
		return gov.And(gov.And(gov.And(sorted(), runs()), gov.And(i <= n, tail == gov.Ite(i == 0, cap, gov.At(vec, i-1).Start.AsU64()))), rebuilt(tail))
	})
	gov.Invariant("(*allocator.BtreeDataPortionAlloc).RestoreFromIndex", 1, func(v gov.Vars) bool {
		i, tail := uint64(v.Int("rangeindex"))+1, v.U64("tail")
		p := v.Any("p").(portion.DataPortion)
		return gov.And(gov.And(gov.And(gov.And(sorted(), runs()), gov.And(i < n, p == gov.At(vec, i))), gov.And(tail <= gov.Ite(i == 0, cap, gov.At(vec, i-1).Start.AsU64()), p.End() <= tail)), rebuilt(tail))
	})
	a.RestoreFromIndex(bs, bytes, vec)
	if covered {
		gov.Assert("no block of a stored lump is free", !g.free(x))
	} else {
		gov.Assert("every other block of the region is free", gov.Imp(x < cap, g.free(x)))
		gov.Assert("only blocks of the region are free", gov.Imp(g.free(x), x < cap))
	}
	g.assertWF()
}

//gov:proves allocator.BuildBtreeDataPortionAlloc
func GovProve_C04_btreeBuild() {
	g := &govTrees{a: &BtreeDataPortionAlloc{}}
	g.use()
	var first, second *btree.BTree
	gov.Use("btree.NewWithFreeList", func(degree int, l *btree.FreeList) *btree.BTree {
		t := &btree.BTree{}
		if first == nil {
			first = t
			g.a.sizeToFree = t
		} else {
			second = t
			g.a.endToFree = t
		}
		return t
	})
	n := gov.U32("blocks")
	gov.Assume(gov.And(n > 0, n < 1<<24))
	a := BuildBtreeDataPortionAlloc(n)
	gov.Assert("the orders are kept apart", gov.And(a.sizeToFree == first, gov.And(a.endToFree == second, second != nil)))
	g.a = a
	x := gov.U64("block")
	gov.Assert("exactly the blocks of the region are free", g.free(x) == (x < uint64(n)))
	g.assertWF()
}

//gov:proves (*allocator.BtreeDataPortionAlloc).FreeCount; (*allocator.BtreeDataPortionAlloc).MaxSegmentSize; (*allocator.BtreeDataPortionAlloc).Allocate; (*allocator.BtreeDataPortionAlloc).Release
func GovProve_C21_btreeCounts() {
	g := govAnyTrees()
	a := g.a
	if gov.Choice("op", 2) == 0 {
		size := gov.U16("size")
		gov.Assume(size > 0)
		a.Allocate(size)
	} else {
		p := govAnyPortion()
		gov.Catch(func() { a.Release(p) })
	}
	m := a.MaxSegmentSize()
	gov.Assert("the number of free blocks is exact", a.FreeCount() == gov.Sum(&g.end))
	gov.Assert("no free run is longer than reported", gov.Forall(func(k uint64) bool { return gov.Imp(gov.Has(&g.end, k), gLen(k) <= m) }))
	gov.Assert("there is a free run as long as reported", gov.Or(m == 0, gov.Exists(func(k uint64) bool { return gov.And(gov.Has(&g.end, k), gLen(k) == m) })))
}
