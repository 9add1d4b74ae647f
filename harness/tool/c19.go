package main

import (
	"bytes"
	"sort"

	"github.com/deNULL/dawg"
)

// The distinct keys of a lexicon in byte order, each with its last value.
func vKeyList(lines []vLine) []vLine {
	var r []vLine
	for i, l := range lines {
		if len(l.text) == 0 {
			continue
		}
		last := true
		for j := i + 1; j < len(lines); j++ {
			if len(lines[j].text) > 0 && vSame(lines[j].key, l.key) {
				last = false
				break
			}
		}
		if last {
			r = append(r, l)
		}
	}
	sort.Slice(r, func(i, j int) bool { return string(r[i].key) < string(r[j].key) })
	return r
}

// vStored writes the structures of a lexicon the way the tool stores them.
func vStored(keys []vLine, opt int) []byte {
	b := dawg.NewDawgBuilder()
	for _, l := range keys {
		vAssert(b.InsertKeyValue(l.key, len(l.key), l.val), "the key is accepted")
	}
	d := dawg.NewDawg()
	b.Finish(d)
	dict := d.Build()
	var buf bytes.Buffer
	ok := dict.Write(&buf)
	var g dawg.SomeGuide
	if opt&vRanked != 0 {
		g = dawg.BuildRankedGuide(d, dict)
	} else if opt&vGuide != 0 {
		g = dawg.BuildGuide(d, dict)
	}
	if g != nil {
		ok = g.Write(&buf) && ok
		if opt&vIndex != 0 {
			ok = dawg.BuildIndex(dict, g).Write(&buf) && ok
		}
	}
	vAssert(ok, "the structures are stored")
	return buf.Bytes()
}

func vStarts(key, prefix []byte) bool {
	return len(key) >= len(prefix) && vSame(key[:len(prefix)], prefix)
}

func vItem(out, key []byte, val int32) []byte {
	out = append(append(out, ' '), key...)
	out = append(append(out, ' ', '=', ' '), vfInt(int64(val))...)
	return append(out, ';')
}

// vAnswer gives what the tool prints for one query.
func vAnswer(out []byte, keys []vLine, q []byte, opt int, stored []byte) []byte {
	out = append(append(out, q...), ':')
	if opt&(vGuide|vRanked) == 0 {
		// the keys that are prefixes of the query
		for n := 1; n <= len(q); n++ {
			for _, l := range keys {
				if vSame(l.key, q[:n]) {
					out = vItem(out, l.key, l.val)
				}
			}
		}
		return append(out, '\n')
	}
	r := bytes.NewReader(stored)
	dict := dawg.ReadDictionary(r)
	if opt&vRanked == 0 {
		if opt&vIndex != 0 {
			rank := -1
			for i, l := range keys {
				if vSame(l.key, q) {
					rank = i
				}
			}
			out = vNumber(out, rank)
		}
		for _, l := range keys {
			if vStarts(l.key, q) {
				out = vItem(out, l.key, l.val)
			}
		}
		return append(out, '\n')
	}
	rg := dawg.ReadRankedGuide(r)
	if opt&vIndex != 0 {
		n := dawg.NewIndexer(dict, rg, dawg.ReadIndex(r)).StringToIndex(string(q))
		num := -1
		if n != dawg.NotFound {
			num = int(n)
		}
		known := false
		for _, l := range keys {
			known = known || vSame(l.key, q)
		}
		vAssert(known == (num >= 0), "exactly the keys have a number")
		out = vNumber(out, num)
	}
	// equal values may come in any order: the one the library gives
	var below []vLine
	for _, l := range keys {
		if vStarts(l.key, q) {
			below = append(below, vLine{key: l.key[len(q):], val: l.val})
		}
	}
	index := dict.Root()
	if !dict.FollowString(string(q), &index) {
		vAssert(len(below) == 0, "a stored prefix is followed")
		return append(out, '\n')
	}
	c := dawg.NewRankedCompleter(dict, rg)
	c.Start(index)
	vListed(c, below, false)
	c.Start(index)
	for range below {
		vAssert(c.Next(), "completion lists all keys")
		out = vItem(out, append(append([]byte{}, q...), c.Key()...), c.Value())
	}
	return append(out, '\n')
}

func vNumber(out []byte, n int) []byte {
	if n < 0 {
		return append(out, " (not found)"...)
	}
	out = append(out, " (#"...)
	return append(append(out, vfInt(int64(n))...), ')')
}

// C19.  Params: options, key lengths, letters, value kind, query lengths
// (digits, length+1), letters of the queries (0: every byte), concrete lines
// added, last query without newline (0/1), tie the first query to a key (0/1).
func HToolQuery() {
	opt := vParam(0)
	lines := append(vLines(opt, vParam(1), vParam(2), vParam(3), true), vExtraLines(vParam(6), opt)...)
	keys := vKeyList(lines)
	stored := vStored(keys, opt)
	var queries [][]byte
	var text []byte
	for c := vParam(4); c > 0; c /= 10 {
		var q []byte
		for j := 0; j < c%10-1; j++ {
			name := "q" + vNum(len(queries)) + "_" + vNum(j)
			if vParam(5) > 0 {
				q = append(q, vLetters[vSplit(vInt(name, 0, vParam(5)-1))])
				continue
			}
			b := vByte(name, 0, 255)
			vAssume(vAnd(b != '\n', b != '\r'))
			q = append(q, b)
		}
		if vParam(8) != 0 && len(queries) == 0 && len(keys) > 0 {
			k := keys[len(keys)/2].key
			q = append(append([]byte{}, k[:len(k)/2]...), q...)
		}
		queries = append(queries, q)
		text = append(text, q...)
		if c >= 10 || vParam(7) == 0 {
			text = append(text, '\n')
		}
	}
	if vParam(7) != 0 && len(queries[len(queries)-1]) == 0 {
		queries = queries[:len(queries)-1] // no line at all
	}
	in, df := vTempName("queries"), vTempName("dictionary")
	vPutFile(in, text)
	vPutFile(df, stored)
	var args []string
	for i, f := range []string{"-t", "-g", "-r", "-i", "-s", "-u"} {
		if opt>>i&1 != 0 {
			args = append(args, f)
		}
	}
	vReach("started")
	out, failed := vTool(append(args, in, df), true, -1)
	vAssert(!failed, "the tool answers the queries")
	vReach("answered")
	var want []byte
	for _, q := range queries {
		want = vAnswer(want, keys, q, opt, stored)
	}
	if opt&vIndex != 0 && opt&(vGuide|vRanked) != 0 {
		want = append(append(want, "Total words: "...), vfInt(int64(len(keys)))...)
		want = append(want, '\n')
		var ix *dawg.Indexer
		if opt&vRanked != 0 {
			r := bytes.NewReader(stored)
			dict, rg := dawg.ReadDictionary(r), dawg.ReadRankedGuide(r)
			ix = dawg.NewIndexer(dict, rg, dawg.ReadIndex(r))
		}
		for i, l := range keys {
			want = append(append(want, vfInt(int64(i))...), ": "...)
			if ix != nil {
				want = append(want, ix.IndexToString(uint32(i))...)
			} else {
				want = append(want, l.key...)
			}
			want = append(want, '\n')
		}
	}
	vAssert(len(out) == len(want), "the answers have the right length")
	vAssert(vSame(out, want), "the answers are those of the lexicon")
	vReach("checked")
}
