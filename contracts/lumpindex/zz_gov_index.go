//go:build go1.21

package lumpindex

import (
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/portion"
	gov "github.com/thesues/cannyls-go/zzgov"
	"github.com/thesues/go-judy"
)

// C05, C06: the index is an exact ordered map.
//
// Abstract view: the map id -> packed location held by the Judy array.

func govAnyIndex() *LumpIndex {
	ix := &LumpIndex{}
	gov.Havoc(ix)
	gov.Assume(ix.counts == gov.Card(&ix.tree))
	return ix
}

func govCountExact(ix *LumpIndex) {
	gov.Assert("the count is the number of stored ids", ix.counts == gov.Card(&ix.tree))
	gov.Assert("Count reports it", ix.Count() == gov.Card(&ix.tree))
}

// nothing but id differs
func govOnlyChanged(old, ix *LumpIndex, id uint64) {
	gov.Assert("no other id appears or disappears", gov.Forall(func(k uint64) bool {
		return gov.Imp(k != id, gov.Has(&ix.tree, k) == gov.Has(&old.tree, k))
	}))
	gov.Assert("no other id moves", gov.Forall(func(k uint64) bool {
		return gov.Imp(gov.And(k != id, gov.Has(&old.tree, k)), gov.Val(&ix.tree, k) == gov.Val(&old.tree, k))
	}))
}

func govUnchanged(old, ix *LumpIndex) {
	gov.Assert("the set of ids is unchanged", gov.Forall(func(k uint64) bool {
		return gov.Has(&ix.tree, k) == gov.Has(&old.tree, k)
	}))
	gov.Assert("no id moves", gov.Forall(func(k uint64) bool {
		return gov.Imp(gov.Has(&old.tree, k), gov.Val(&ix.tree, k) == gov.Val(&old.tree, k))
	}))
	gov.Assert("the count is unchanged", ix.counts == old.counts)
}

//gov:proves (*lumpindex.LumpIndex).InsertDataPortion; (*lumpindex.LumpIndex).InsertJournalPortion; (*lumpindex.LumpIndex).Get
func GovProve_C05_insertGet() {
	ix := govAnyIndex()
	old := *ix
	id := gov.U64("id")
	start, n := gov.U64("start"), gov.U16("len")
	gov.Assume(start < 1<<40)
	if gov.Choice("kind", 2) == 0 {
		p := portion.NewDataPortion(start, n)
		ix.InsertDataPortion(lump.FromU64(0, id), p)
		got, err := ix.Get(lump.FromU64(0, id))
		gov.Assert("a stored id is found", err == nil)
		d, ok := got.(portion.DataPortion)
		gov.Assert("a data location comes back as a data location", ok)
		gov.Assert("with its start and length", d == p)
	} else {
		p := portion.NewJournalPortion(start, n)
		ix.InsertJournalPortion(lump.FromU64(0, id), p)
		got, err := ix.Get(lump.FromU64(0, id))
		gov.Assert("a stored id is found", err == nil)
		d, ok := got.(portion.JournalPortion)
		gov.Assert("a journal location comes back as a journal location", ok)
		gov.Assert("with its start and length", d == p)
	}
	gov.Assert("the id is stored", gov.Has(&ix.tree, id))
	govOnlyChanged(&old, ix, id)
	govCountExact(ix)
}

//gov:proves (*lumpindex.LumpIndex).Get
func GovProve_C05_getAbsent() {
	ix := govAnyIndex()
	old := *ix
	id := gov.U64("id")
	p, err := ix.Get(lump.FromU64(0, id))
	gov.Assert("an id is found exactly if it is stored", (err == nil) == gov.Has(&old.tree, id))
	gov.Assert("an absent id has no location", err == nil || p == nil)
	gov.Assert("the error says so", err == nil || gov.ErrIs(err, internalerror.InvalidInput))
	govUnchanged(&old, ix)
}

//gov:proves (*lumpindex.LumpIndex).Delete
func GovProve_C05_delete() {
	ix := govAnyIndex()
	old := *ix
	id := gov.U64("id")
	ok := ix.Delete(lump.FromU64(0, id))
	gov.Assert("Delete reports whether the id was stored", ok == gov.Has(&old.tree, id))
	gov.Assert("the id is gone", !gov.Has(&ix.tree, id))
	govOnlyChanged(&old, ix, id)
	govCountExact(ix)
}

//gov:proves (*lumpindex.LumpIndex).Min; (*lumpindex.LumpIndex).Max; (*lumpindex.LumpIndex).First; (*lumpindex.LumpIndex).FirstEmpty
func GovProve_C05_extremes() {
	ix := govAnyIndex()
	old := *ix
	x := gov.U64("x")
	switch gov.Choice("query", 4) {
	case 0:
		id, ok := ix.Min()
		gov.Assert("Min is found unless the index is empty", ok == !gov.Forall(func(k uint64) bool { return !gov.Has(&old.tree, k) }))
		gov.Assert("Min is stored", !ok || gov.Has(&old.tree, id.U64()))
		gov.Assert("Min is the smallest", !ok || gov.Forall(func(k uint64) bool { return gov.Imp(gov.Has(&old.tree, k), id.U64() <= k) }))
	case 1:
		id, ok := ix.Max()
		gov.Assert("Max is found unless the index is empty", ok == !gov.Forall(func(k uint64) bool { return !gov.Has(&old.tree, k) }))
		gov.Assert("Max is stored", !ok || gov.Has(&old.tree, id.U64()))
		gov.Assert("Max is the largest", !ok || gov.Forall(func(k uint64) bool { return gov.Imp(gov.Has(&old.tree, k), id.U64() >= k) }))
	case 2:
		id, err := ix.First(lump.FromU64(0, x))
		gov.Assert("First finds an id exactly if one is stored at or after the start", (err != nil) == gov.Forall(func(k uint64) bool { return gov.Imp(gov.Has(&old.tree, k), k < x) }))
		if err == nil {
			gov.Assert("First is stored", gov.Has(&old.tree, id.U64()))
			gov.Assert("First is the smallest not before the start", gov.And(id.U64() >= x, gov.Forall(func(k uint64) bool {
				return gov.Imp(gov.And(gov.Has(&old.tree, k), k >= x), id.U64() <= k)
			})))
		}
	case 3:
		id, ok := ix.FirstEmpty()
		if ok {
			gov.Assert("FirstEmpty is not stored", !gov.Has(&old.tree, id.U64()))
			gov.Assert("every smaller id is", gov.Forall(func(k uint64) bool { return gov.Imp(k < id.U64(), gov.Has(&old.tree, k)) }))
		} else {
			gov.Assert("no id is unused", gov.Forall(func(k uint64) bool { return gov.Has(&old.tree, k) }))
		}
	}
	govUnchanged(&old, ix)
}

// an ascending listing of the stored ids in [lo, hi)
// ids[0..n) is strictly ascending, inside [lo,cur), stored, and no stored id of
// [lo,cur) is missing between its elements.
func govListed(t *LumpIndex, ids []lump.LumpId, lo, cur uint64, all bool) bool {
	n := uint64(len(ids))
	below := func(k uint64) bool { return gov.Or(all, k < cur) }
	return gov.And(gov.And(
		gov.Forall(func(i uint64) bool {
			return gov.Imp(i < n, gov.And(gov.Has(&t.tree, gov.At(ids, i).U64()), gov.And(lo <= gov.At(ids, i).U64(), below(gov.At(ids, i).U64()))))
		}),
		gov.Forall2(func(i, k uint64) bool {
			return gov.Imp(gov.And(i+1 < n, i < n), gov.And(gov.At(ids, i).U64() < gov.At(ids, i+1).U64(),
				gov.Imp(gov.Has(&t.tree, k), gov.Or(k <= gov.At(ids, i).U64(), k >= gov.At(ids, i+1).U64()))))
		})), gov.And(
		gov.Forall(func(k uint64) bool {
			return gov.Imp(gov.And(gov.Has(&t.tree, k), gov.And(lo <= k, below(k))), gov.And(n > 0, gov.At(ids, 0).U64() <= k))
		}),
		gov.Forall(func(k uint64) bool {
			return gov.Imp(gov.And(gov.Has(&t.tree, k), gov.And(lo <= k, below(k))), k <= gov.At(ids, n-1).U64())
		})))
}

//gov:proves (*lumpindex.LumpIndex).List
func GovProve_C05_list() {
	ix := govAnyIndex()
	old := *ix
	gov.Invariant("(*lumpindex.LumpIndex).List", 0, func(v gov.Vars) bool {
		ids := v.Any("vec").([]lump.LumpId)
		cur, ok := v.U64("indexNum"), v.Bool("ok")
		return gov.And(gov.Imp(ok, gov.Has(&old.tree, cur)), govListed(&old, ids, 0, cur, !ok))
	})
	ids := ix.List()
	gov.Assert("List returns every stored id once, in ascending order", govListed(&old, ids, 0, 0, true))
	govUnchanged(&old, ix)
}

//gov:proves (*lumpindex.LumpIndex).ListRange
func GovProve_C06_listRange() {
	ix := govAnyIndex()
	old := *ix
	start, end, max := gov.U64("start"), gov.U64("end"), gov.U64("max")
	// what is listed so far: everything before cur (or before end)
	upto := func(ok bool, cur uint64) uint64 {
		return gov.Ite(gov.And(ok, cur < end), cur, gov.Ite(start < end, end, start))
	}
	gov.Invariant("(*lumpindex.LumpIndex).ListRange", 0, func(v gov.Vars) bool {
		ids := v.Any("vec").([]lump.LumpId)
		cur, ok, n := v.U64("indexNum"), v.Bool("ok"), v.U64("n")
		return gov.And(gov.And(gov.Imp(ok, gov.And(gov.Has(&old.tree, cur), cur >= start)), gov.And(n == uint64(len(ids)), n <= max)),
			govListed(&old, ids, start, upto(ok, cur), false))
	})
	ids := ix.ListRange(lump.FromU64(0, start), lump.FromU64(0, end), max)
	n := uint64(len(ids))
	gov.Assert("at most as many ids as asked for", n <= max)
	gov.Assert("only ids of the half-open range", gov.Forall(func(i uint64) bool {
		return gov.Imp(i < n, gov.And(start <= gov.At(ids, i).U64(), gov.At(ids, i).U64() < end))
	}))
	if n < max || start >= end {
		gov.Assert("every id of the range is listed, in ascending order", govListed(&old, ids, start, gov.Ite(start < end, end, start), false))
	} else if n > 0 {
		gov.Assert("the smallest ids of the range are listed, in ascending order", govListed(&old, ids, start, gov.At(ids, n-1).U64()+1, false))
	}
	govUnchanged(&old, ix)
}

//gov:proves (*lumpindex.LumpIndex).DeleteRange
func GovProve_C06_deleteRange() {
	ix := govAnyIndex()
	old := *ix
	start, end := gov.U64("start"), gov.U64("end")
	gov.Invariant("(*lumpindex.LumpIndex).DeleteRange", 0, func(v gov.Vars) bool {
		cur, ok, n := v.U64("indexNum"), v.Bool("ok"), uint64(v.Int("n"))
		return gov.And(gov.And(gov.And(gov.Imp(ok, gov.And(gov.Has(&ix.tree, cur), cur >= start)), gov.Card(&ix.tree)+n == gov.Card(&old.tree)),
			gov.And(ix.counts == old.counts, gov.Forall(func(k uint64) bool {
				return gov.Imp(gov.And(start <= k, gov.Or(!ok, k < cur)), !gov.Has(&ix.tree, k))
			}))), gov.And(
			gov.Forall(func(k uint64) bool {
				return gov.Imp(gov.Or(gov.Or(k < start, k >= end), gov.And(ok, k >= cur)), gov.Has(&ix.tree, k) == gov.Has(&old.tree, k))
			}),
			gov.Forall(func(k uint64) bool {
				return gov.Imp(gov.Has(&ix.tree, k), gov.And(gov.Has(&old.tree, k), gov.Val(&ix.tree, k) == gov.Val(&old.tree, k)))
			})))
	})
	ix.DeleteRange(lump.FromU64(0, start), lump.FromU64(0, end))
	gov.Assert("no id of the range is left", gov.Forall(func(k uint64) bool {
		return gov.Imp(gov.And(start <= k, k < end), !gov.Has(&ix.tree, k))
	}))
	gov.Assert("every id outside of the range is left", gov.Forall(func(k uint64) bool {
		return gov.Imp(gov.Or(k < start, k >= end), gov.Has(&ix.tree, k) == gov.Has(&old.tree, k))
	}))
	gov.Assert("with its location", gov.Forall(func(k uint64) bool {
		return gov.Imp(gov.Has(&ix.tree, k), gov.Val(&ix.tree, k) == gov.Val(&old.tree, k))
	}))
	govCountExact(ix)
}

// a packed location of a data lump
func govIsData(v uint64) bool     { return v>>63 == 1 }
func govDataStart(v uint64) uint64 { return v & (1<<40 - 1) }
func govDataLen(v uint64) uint64   { return v >> 40 & 0xFFFF }

//gov:proves (*lumpindex.LumpIndex).DataPortions
func GovProve_C04_dataPortions() {
	ix := govAnyIndex()
	old := *ix
	have := func(ps []portion.DataPortion, v uint64) bool {
		return gov.Exists(func(i uint64) bool {
			return gov.And(gov.And(i > 0, i < uint64(len(ps))), gov.And(gov.At(ps, i).Start.AsU64() == govDataStart(v), uint64(gov.At(ps, i).Len) == govDataLen(v)))
		})
	}
	of := func(ps []portion.DataPortion) bool {
		return gov.And(gov.And(len(ps) > 0, gov.And(gov.At(ps, 0).Start == 0, gov.At(ps, 0).Len == 0)), gov.Forall(func(i uint64) bool {
			return gov.Imp(gov.And(i > 0, i < uint64(len(ps))), gov.Exists(func(k uint64) bool {
				return gov.And(gov.And(gov.Has(&old.tree, k), govIsData(gov.Val(&old.tree, k))),
					gov.And(gov.At(ps, i).Start.AsU64() == govDataStart(gov.Val(&old.tree, k)), uint64(gov.At(ps, i).Len) == govDataLen(gov.Val(&old.tree, k))))
			}))
		}))
	}
	gov.Invariant("(*lumpindex.LumpIndex).DataPortions", 0, func(v gov.Vars) bool {
		ps := v.Any("vec").([]portion.DataPortion)
		cur, ok, val := v.U64("indexNum"), v.Bool("ok"), v.U64("value")
		return gov.And(gov.And(gov.Imp(ok, gov.And(gov.Has(&old.tree, cur), val == gov.Val(&old.tree, cur))), of(ps)), gov.Forall(func(k uint64) bool {
			return gov.Imp(gov.And(gov.Has(&old.tree, k), gov.And(govIsData(gov.Val(&old.tree, k)), gov.Or(!ok, k < cur))), have(ps, gov.Val(&old.tree, k)))
		}))
	})
	ps := ix.DataPortions()
	gov.Assert("every listed run is the empty one at 0 or that of a stored data lump", of(ps))
	gov.Assert("the run of every stored data lump is listed", gov.Forall(func(k uint64) bool {
		return gov.Imp(gov.And(gov.Has(&old.tree, k), govIsData(gov.Val(&old.tree, k))), have(ps, gov.Val(&old.tree, k)))
	}))
	govUnchanged(&old, ix)
}

// the same runs as an ordered set, start<<24|len each
//
//gov:proves (*lumpindex.LumpIndex).JudyDataPortions
func GovProve_C04_judyDataPortions() {
	ix := govAnyIndex()
	old := *ix
	key := func(v uint64) uint64 { return govDataStart(v)<<24 | govDataLen(v) }
	data := func(k uint64) bool { return gov.And(gov.Has(&old.tree, k), govIsData(gov.Val(&old.tree, k))) }
	of := func(set *judy.Judy1) bool {
		return gov.Forall(func(r uint64) bool {
			return gov.Imp(gov.Has(set, r), gov.Or(r == 0, gov.Exists(func(k uint64) bool {
				return gov.And(data(k), key(gov.Val(&old.tree, k)) == r)
			})))
		})
	}
	gov.Invariant("(*lumpindex.LumpIndex).JudyDataPortions", 0, func(v gov.Vars) bool {
		have := v.Any("judyPortionArray").(judy.Judy1)
		set := &have
		cur, ok, val := v.U64("indexNum"), v.Bool("ok"), v.U64("value")
		return gov.And(gov.And(gov.Imp(ok, gov.And(gov.Has(&old.tree, cur), val == gov.Val(&old.tree, cur))), gov.And(gov.Has(set, 0), of(set))), gov.Forall(func(k uint64) bool {
			return gov.Imp(gov.And(data(k), gov.Or(!ok, k < cur)), gov.Has(set, key(gov.Val(&old.tree, k))))
		}))
	})
	set := ix.JudyDataPortions()
	gov.Assert("every listed run is the empty one at 0 or that of a stored data lump", gov.And(gov.Has(set, 0), of(set)))
	gov.Assert("the run of every stored data lump is listed", gov.Forall(func(k uint64) bool {
		return gov.Imp(data(k), gov.Has(set, key(gov.Val(&old.tree, k))))
	}))
	govUnchanged(&old, ix)
}

// ---- for the callers in other packages ----

// GovAnyIndex is any index.
func GovAnyIndex() *LumpIndex { return govAnyIndex() }

// GovSame: two indexes agree on an id.
func GovSame(a, b *LumpIndex, id uint64) bool {
	return gov.And(gov.Has(&a.tree, id) == gov.Has(&b.tree, id), gov.Imp(gov.Has(&a.tree, id), gov.Val(&a.tree, id) == gov.Val(&b.tree, id)))
}

// GovUseDeleteRange installs the contract of DeleteRange (proved by
// GovProve_C06_deleteRange).
func GovUseDeleteRange() {
	gov.Use("(*lumpindex.LumpIndex).DeleteRange", func(ix *LumpIndex, start, end lump.LumpId) {
		old := *ix
		gov.Havoc(ix)
		s, e := start.U64(), end.U64()
		gov.Assume(gov.Forall(func(k uint64) bool {
			return gov.Imp(gov.And(s <= k, k < e), !gov.Has(&ix.tree, k))
		}))
		gov.Assume(gov.Forall(func(k uint64) bool {
			return gov.Imp(gov.Or(k < s, k >= e), gov.And(gov.Has(&ix.tree, k) == gov.Has(&old.tree, k), gov.Val(&ix.tree, k) == gov.Val(&old.tree, k)))
		}))
		gov.Assume(ix.counts == gov.Card(&ix.tree))
	})
}

// GovHas, GovVal: what the index has for an id.
func GovHas(ix *LumpIndex, id uint64) bool   { return gov.Has(&ix.tree, id) }
func GovVal(ix *LumpIndex, id uint64) uint64 { return gov.Val(&ix.tree, id) }

// GovCovers: the data lump id occupies block b.
func GovCovers(ix *LumpIndex, id, b uint64) bool {
	v := gov.Val(&ix.tree, id)
	return gov.And(gov.Has(&ix.tree, id), gov.And(govIsData(v), gov.And(govDataStart(v) <= b, b < govDataStart(v)+govDataLen(v))))
}

// GovKept: id is where it was; an embedded lump may have moved.
func GovKept(old, ix *LumpIndex, id uint64) bool {
	v, w := gov.Val(&old.tree, id), gov.Val(&ix.tree, id)
	return gov.And(gov.Has(&old.tree, id) == gov.Has(&ix.tree, id), gov.Imp(gov.Has(&old.tree, id),
		gov.And(govIsData(v) == govIsData(w), gov.And(govDataLen(v) == govDataLen(w), gov.Imp(govIsData(v), govDataStart(v) == govDataStart(w))))))
}

// GovData: id is the data lump at p.
func GovData(ix *LumpIndex, id uint64, p portion.DataPortion) bool {
	v := gov.Val(&ix.tree, id)
	return gov.And(gov.Has(&ix.tree, id), gov.And(govIsData(v), gov.And(govDataStart(v) == p.Start.AsU64(), govDataLen(v) == uint64(p.Len))))
}

// GovEmbedded: id is an embedded lump of n bytes.
func GovEmbedded(ix *LumpIndex, id, n uint64) bool {
	v := gov.Val(&ix.tree, id)
	return gov.And(gov.Has(&ix.tree, id), gov.And(!govIsData(v), govDataLen(v) == n))
}
