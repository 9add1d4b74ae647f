package dawg

import "bytes"

// C16.  Params: lexicon (4), query length.  Every query method runs while
// everything reachable from the structures is frozen.
func HReadOnly() {
	l := vMake(0, false)
	d, dict := l.build()
	g, rg := BuildGuide(d, dict), BuildRankedGuide(d, dict)
	x, rx := BuildIndex(dict, g), BuildIndex(dict, rg)
	ix, rix := NewIndexer(dict, g, x), NewIndexer(dict, rg, rx)
	qb := vQuery(vParam(4))
	q := string(qb)
	i := vU32("i", 0, 0xffffffff)
	vReach("frozen")
	vReadOnly("a query writes to a shared structure", func() {
		vQueries(dict, g, rg, x, ix, rix, q, i)
	}, dict, g, rg, x, rx, ix, rix)
	vReach("queried")
}

// C16 for structures loaded from a stream.  Params: lexicon (4), query length.
func HReadOnlyLoaded() {
	l := vMake(0, false)
	d, dict := l.build()
	g, rg := BuildGuide(d, dict), BuildRankedGuide(d, dict)
	x, rx := BuildIndex(dict, g), BuildIndex(dict, rg)
	var buf bytes.Buffer
	vAssert(dict.Write(&buf) && g.Write(&buf) && rg.Write(&buf) && x.Write(&buf) && rx.Write(&buf), "everything is written")
	dict, g, rg = ReadDictionary(&buf), ReadGuide(&buf), ReadRankedGuide(&buf)
	x, rx = ReadIndex(&buf), ReadIndex(&buf)
	ix, rix := NewIndexer(dict, g, x), NewIndexer(dict, rg, rx)
	qb := vQuery(vParam(4))
	q := string(qb)
	i := vU32("i", 0, 0xffffffff)
	vReach("frozen")
	vReadOnly("a query writes to a shared structure", func() {
		vQueries(dict, g, rg, x, ix, rix, q, i)
	}, dict, g, rg, x, rx, ix, rix)
	vReach("queried")
}

func vQueries(dict *Dictionary, g *Guide, rg *RankedGuide, x *Index, ix, rix *Indexer, q string, i uint32) {
	n := len(q)
	dict.ContainsString(q)
	dict.ContainsStringLen(q, n)
	dict.FindString(q)
	dict.FindStringLen(q, n)
	var v int32
	dict.FindStringValue(q, &v)
	dict.FindStringLenValue(q, n, &v)
	index := dict.Root()
	cnt := 0
	dict.FollowString(q, &index)
	index = dict.Root()
	dict.FollowStringCount(q, &index, &cnt)
	index = dict.Root()
	dict.FollowStringLen(q, n, &index)
	index = dict.Root()
	dict.FollowStringLenCount(q, n, &index, &cnt)
	index = dict.Root()
	if n > 0 {
		dict.Follow(q[0], &index)
	}
	dict.HasValue(dict.Root())
	if dict.HasValue(dict.Root()) {
		dict.Value(dict.Root())
	}
	// along a path of the dictionary
	index = dict.Root()
	for k := 0; k < 4 && g.Size() > 0; k++ {
		label := g.Child(index)
		g.Sibling(index)
		rg.Child(index)
		rg.Sibling(index)
		x.ChildCount(index)
		if label == 0 || !dict.Follow(label, &index) {
			break
		}
		if dict.HasValue(index) {
			dict.Value(index)
		}
	}
	g.Size()
	g.TotalSize()
	g.FileSize()
	rg.Size()
	rg.TotalSize()
	rg.FileSize()
	x.Size()
	x.TotalSize()
	x.FileSize()
	dict.Size()
	dict.TotalSize()
	dict.FileSize()
	if g.Size() > 0 {
		g.Child(g.Root())
		g.Sibling(g.Root())
		rg.Child(rg.Root())
		rg.Sibling(rg.Root())
	}
	x.ChildCount(x.Root())
	x.TotalCount()
	ix.TotalCount()
	ix.StringToIndex(q)
	ix.IndexToString(i)
	rix.StringToIndex(q)
	rix.IndexToString(i)
	c := NewCompleter(dict, g)
	c.Start(dict.Root())
	for c.Next() {
		c.Key()
		c.Value()
		c.Length()
	}
	c.StartString(dict.Root(), "ab")
	c.Next()
	rc := NewRankedCompleter(dict, rg)
	rc.Start(dict.Root())
	for rc.Next() {
		rc.Key()
		rc.Value()
		rc.Length()
	}
	rc.StartString(dict.Root(), "ab")
	rc.Next()
	var out bytes.Buffer
	dict.Write(&out)
	g.Write(&out)
	rg.Write(&out)
	x.Write(&out)
}
