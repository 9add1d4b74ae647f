package main

import (
	"bytes"

	"github.com/deNULL/dawg"
)

func vNum(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return vNum(i/10) + vNum(i%10)
}

// The lines of a lexicon: key text, the key bytes the dictionary should hold,
// the text after the tab and the value it stands for.
type vLine struct {
	text []byte
	key  []byte
	tail []byte
	val  int32
}

const (
	vTab = 1 << iota
	vGuide
	vRanked
	vIndex
	vSortFlag
	vUtfc
)

// Concrete value texts and what they mean.
func vValueText(i int) (string, int32) {
	switch i % 10 {
	case 0:
		return "0", 0
	case 1:
		return "2147483648", 2147483647
	case 2:
		return "-1", 0
	case 3:
		return "2147483647", 2147483647
	case 4:
		return "9223372036854775807", 2147483647
	case 5:
		return "-9223372036854775808", 0
	case 6:
		return "2147483646", 2147483646
	case 7:
		return "4294967297", 2147483647
	case 8:
		return "-2147483649", 0
	}
	return "17", 17
}

// vValue gives the value text of line i.  kind >= 0: the concrete text number
// kind+i; -1: two symbolic digits; -2: a symbolic sign and digit; -3: a value
// around the upper limit with symbolic last digits.
func vValue(i, kind int) ([]byte, int32) {
	switch kind {
	case -1:
		a, b := vByte("d"+vNum(i), '0', '9'), vByte("e"+vNum(i), '0', '9')
		return []byte{a, b}, int32(a-'0')*10 + int32(b-'0')
	case -2:
		a := vByte("d"+vNum(i), '0', '9')
		neg := vBool("neg" + vNum(i))
		sign := vIte32(neg, '-', '+')
		return []byte{byte(sign), a}, int32(vIte32(neg, 0, uint32(a-'0')))
	case -3:
		a, b := vByte("d"+vNum(i), '0', '9'), vByte("e"+vNum(i), '0', '9')
		v := int64(2147483600) + int64(a-'0')*10 + int64(b-'0')
		w := vIte32(v > 2147483647, 2147483647, uint32(v))
		return append([]byte("21474836"), a, b), int32(w)
	}
	s, v := vValueText(kind + i)
	return []byte(s), v
}

// vRuneKey gives k code points for key i of the UTF-C lexicons.
func vRuneKey(i, k int) []rune {
	var r []rune
	for j := 0; j < k; j++ {
		name := "r" + vNum(i) + "_" + vNum(j)
		switch (i*2 + j) % 6 {
		case 0:
			r = append(r, vRune(name, 0x420, 0x421))
		case 1:
			r = append(r, vRune(name, 0x61, 0x62))
		case 2:
			r = append(r, vRune(name, 0x4e00, 0x4e01))
		case 3:
			r = append(r, vRune(name, 0x3b1, 0x3b2))
		case 4:
			r = append(r, vRune(name, 0x1f300, 0x1f301))
		default:
			r = append(r, vRune(name, 0x3040, 0x3041))
		}
	}
	return r
}

var vLetters = []byte{'a', ' ', 0xe9, 0x01}

// C18.  Params: options, key lengths (decimal digits, length+1 each, in line
// order; 1 = an empty line), letters per position (0 = every byte that may
// stand in a line), value kind, query length (-1 none), concrete lines added
// (0 none), number of the first line with a final newline missing (0/1), 1 to
// treat the key bytes case by case.
func HTool() {
	opt := vParam(0)
	lines := vLines(opt, vParam(1), vParam(2), vParam(3), vParam(7) != 0)
	lines = append(lines, vExtraLines(vParam(5), opt)...)
	vRunTool(lines, opt, vParam(4), vParam(6) != 0)
}

// vLines makes the lines of a lexicon with symbolic keys.
func vLines(opt, code, dom, kind int, cases bool) []vLine {
	var lens []int
	for c := code; c > 0; c /= 10 {
		lens = append([]int{c%10 - 1}, lens...)
	}
	var lines []vLine
	for i, n := range lens {
		var l vLine
		switch {
		case n == 0:
			lines = append(lines, l)
			continue
		case opt&vUtfc != 0:
			rs := vRuneKey(i, n)
			if cases {
				for j := range rs {
					rs[j] = rune(vSplit(int(rs[j])))
				}
			}
			l.text = []byte(string(rs))
			l.key = dawg.UtfcEncode(string(l.text))
		default:
			for j := 0; j < n; j++ {
				name := "k" + vNum(i) + "_" + vNum(j)
				var b byte
				if dom > 0 {
					if cases {
						b = vLetters[vSplit(vInt(name, 0, dom-1))]
					} else {
						b = vByte(name, 'a', 'a'+dom-1)
					}
				} else {
					b = vByte(name, 1, 255)
					vAssume(vAnd(b != '\n', vAnd(b != '\r', b != '\t')))
				}
				l.text = append(l.text, b)
			}
			l.key = l.text
		}
		if opt&vTab != 0 {
			l.tail, l.val = vValue(i, kind)
		}
		lines = append(lines, l)
	}
	return lines
}

func vExtraLines(n, opt int) []vLine {
	var r []vLine
	x := uint32(n)*2654435761 + 99
	for i := 0; i < n; i++ {
		var t []byte
		x = x*1664525 + 1013904223
		for k := 1 + int(x>>20)%5; k > 0; k-- {
			x = x*1664525 + 1013904223
			if opt&vUtfc != 0 && x>>24&1 != 0 {
				t = append(t, []byte(string(rune(0x410+x>>16%40)))...)
			} else {
				t = append(t, byte('p'+(x>>16)%9))
			}
		}
		if n > 100 {
			t = append(t, byte('a'+i%26), byte('a'+i/26%26), byte('a'+i/676%26))
		}
		l := vLine{text: t, key: t}
		if opt&vUtfc != 0 {
			l.key = dawg.UtfcEncode(string(t))
		}
		if opt&vTab != 0 {
			s, v := vValueText(i)
			l.tail, l.val = []byte(s), v
		}
		r = append(r, l)
	}
	return r
}

// C18: one line longer than any buffer.  Params: options, length.
func HToolLong() {
	opt, n := vParam(0), vParam(1)
	t := make([]byte, n)
	for i := range t {
		t[i] = byte('a' + i*7%23)
	}
	lines := []vLine{{text: []byte{'m', 'q'}}, {text: t}, {text: []byte{'b'}}}
	if opt&vTab != 0 {
		// the long part is the value: leading zeros
		for i := range t {
			t[i] = '0'
		}
		d := vByte("d", '0', '9')
		t[n-1] = d
		lines[0].tail, lines[0].val = []byte{'5'}, 5
		lines[1].text, lines[1].tail, lines[1].val = []byte{'k'}, t, int32(d-'0')
		lines[2].tail, lines[2].val = []byte{'6'}, 6
	}
	for i := range lines {
		lines[i].key = lines[i].text
	}
	vRunTool(lines, opt, 2, false)
}

func vRunTool(lines []vLine, opt, qlen int, cut bool) {
	var text []byte
	for i, l := range lines {
		text = append(text, l.text...)
		if opt&vTab != 0 && len(l.text) > 0 {
			text = append(append(text, '\t'), l.tail...)
		}
		if i < len(lines)-1 || !cut {
			text = append(text, '\n')
		}
	}
	in, out := vTempName("lexicon"), vTempName("dictionary")
	vPutFile(in, text)
	args := []string{"-b"}
	for i, f := range []string{"-t", "-g", "-r", "-i", "-s", "-u"} {
		if opt>>i&1 != 0 {
			args = append(args, f)
		}
	}
	vReach("started")
	_, failed := vTool(append(args, in, out), false, -1)
	vAssert(!failed, "the tool succeeds")
	vReach("finished")
	r := bytes.NewReader(vFileBytes(out))
	dict := dawg.ReadDictionary(r)
	vAssert(dict != nil, "the tool writes a dictionary")
	for i, l := range lines {
		if len(l.text) == 0 {
			continue
		}
		// the last line with the same key gives the value
		want := uint32(l.val)
		for j := i + 1; j < len(lines); j++ {
			if len(lines[j].text) > 0 {
				want = vIte32(vSame(lines[j].key, l.key), uint32(lines[j].val), want)
			}
		}
		v := int32(-5)
		vAssert(dict.FindStringValue(string(l.key), &v), "every non-empty key is in the dictionary")
		vAssert(v == int32(want), "each key has its value, clamped to the range")
	}
	var keys []vLine // the distinct keys
	for i, l := range lines {
		if len(l.text) == 0 {
			continue
		}
		last := true
		for j := i + 1; j < len(lines); j++ {
			if len(lines[j].text) > 0 && vSame(lines[j].key, l.key) {
				last = false
				break
			}
		}
		if last {
			keys = append(keys, l)
		}
	}
	count := len(keys)
	if qlen >= 0 {
		q := make([]byte, qlen)
		for i := range q {
			q[i] = vByte("q"+vNum(i), 0, 255)
		}
		known := false
		for _, l := range lines {
			if len(l.text) > 0 {
				known = vOr(known, vSame(l.key, q))
			}
		}
		vAssert(vIff(dict.ContainsString(string(q)), known), "the dictionary holds nothing but the keys")
	}
	var g dawg.SomeGuide
	if opt&vRanked != 0 {
		rg := dawg.ReadRankedGuide(r)
		vAssert(rg != nil, "the tool writes a ranked guide")
		if rg != nil {
			g = rg
			c := dawg.NewRankedCompleter(dict, rg)
			c.Start(dict.Root())
			vListed(c, keys, false)
		}
	} else if opt&vGuide != 0 {
		gg := dawg.ReadGuide(r)
		vAssert(gg != nil, "the tool writes a guide")
		if gg != nil {
			g = gg
			c := dawg.NewCompleter(dict, gg)
			c.Start(dict.Root())
			vListed(c, keys, true)
		}
	}
	if opt&vIndex != 0 && g != nil {
		x := dawg.ReadIndex(r)
		vAssert(x != nil, "the tool writes an index")
		vAssert(int(dawg.NewIndexer(dict, g, x).TotalCount()) == count, "the index counts the keys")
	}
	vAssert(r.Len() == 0, "nothing else is written")
	vReach("checked")
}

// vListed checks a completion of everything: in byte order, or best values first.
func vListed(c dawg.SomeCompleter, keys []vLine, ordered bool) {
	seen := make([]bool, len(keys))
	var last []byte
	best := int32(0x7fffffff)
	for n := range keys {
		vAssert(c.Next(), "completion lists all keys")
		key, val := []byte(c.Key()), c.Value()
		hit := false
		for k, l := range keys {
			is := vSame(l.key, key)
			vAssert(vNot(vAnd(is, seen[k])), "completion lists no key twice")
			vAssert(vImplies(is, val == l.val), "completion lists each key with its value")
			seen[k] = vOr(seen[k], is)
			hit = vOr(hit, is)
		}
		vAssert(hit, "completion lists only keys")
		if ordered {
			vAssert(n == 0 || string(last) < string(key), "completion with a guide goes in byte order")
		} else {
			vAssert(val <= best, "completion with a ranked guide goes by value")
		}
		last, best = key, val
	}
	vAssert(!c.Next(), "completion lists nothing else")
}

func vSame(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vAnd(ok, a[i] == b[i])
	}
	return ok
}
