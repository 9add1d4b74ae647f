package main

import (
	"bytes"

	"github.com/deNULL/dawg"
)

func vOptArgs(opt int, first ...string) []string {
	args := append([]string{}, first...)
	for i, f := range []string{"-t", "-g", "-r", "-i", "-s", "-u"} {
		if opt>>i&1 != 0 {
			args = append(args, f)
		}
	}
	return args
}

func vLexText(lines []vLine, opt int) []byte {
	var text []byte
	for _, l := range lines {
		text = append(text, l.text...)
		if opt&vTab != 0 && len(l.text) > 0 {
			text = append(append(text, '\t'), l.tail...)
		}
		text = append(text, '\n')
	}
	return text
}

// C20: lexicons that cannot be built.  Params: options, key lengths, letters.
// The keys may contain zero bytes and come in any order.
func HToolOrder() {
	opt := vParam(0)
	letters := []byte{'a', 0xe9, 0, ' '}
	var lines []vLine
	for c := vParam(1); c > 0; c /= 10 {
		var l vLine
		for j := 0; j < c%10-1; j++ {
			l.text = append(l.text, letters[vSplit(vInt("k"+vNum(len(lines))+"_"+vNum(j), 0, vParam(2)-1))])
		}
		l.key = l.text
		if opt&vTab != 0 && len(l.text) > 0 {
			l.tail, l.val = vValue(len(lines), 6)
		}
		lines = append(lines, l)
	}
	good := true
	var last []byte
	for _, l := range lines {
		if len(l.text) == 0 {
			continue
		}
		if bytes.IndexByte(l.key, 0) >= 0 || opt&vSortFlag == 0 && string(l.key) < string(last) {
			good = false
		}
		last = l.key
	}
	in, df := vTempName("lexicon"), vTempName("dictionary")
	vPutFile(in, vLexText(lines, opt))
	vReach("started")
	_, failed := vTool(append(vOptArgs(opt, "-b"), in, df), false, -1)
	vAssert(failed == !good, "building succeeds exactly for representable keys in order")
	vReach("ended")
	if failed {
		return
	}
	dict := dawg.ReadDictionary(bytes.NewReader(vFileBytes(df)))
	vAssert(dict != nil, "the tool writes a dictionary")
	for _, l := range vKeyList(lines) {
		vAssert(dict.FindString(string(l.key)) == l.val, "each key has its value")
	}
}

// C20: value texts.  Params: options, length of the text.
func HToolValue() {
	opt, n := vParam(0)|vTab, vParam(1)
	digits, ok := 0, true
	var t []byte
	for j := 0; j < n; j++ {
		b := vByte("v"+vNum(j), 1, 255)
		vAssume(vAnd(vAnd(b != '\n', b != '\r'), b != '\t'))
		t = append(t, b)
		if vSplitBool(vAnd(b >= '0', b <= '9')) {
			digits++
		} else if !(j == 0 && vSplitBool(vOr(b == '+', b == '-'))) {
			ok = false
		}
	}
	lines := []vLine{{text: []byte("k"), key: []byte("k"), tail: t}, {text: []byte("m"), key: []byte("m"), tail: []byte("3"), val: 3}}
	in, df := vTempName("lexicon"), vTempName("dictionary")
	vPutFile(in, vLexText(lines, opt))
	vReach("started")
	_, failed := vTool(append(vOptArgs(opt, "-b"), in, df), false, -1)
	vAssert(failed == !(ok && digits > 0), "building succeeds exactly when the value is an integer")
	vReach("ended")
}

func vFixed(opt int) []vLine {
	var lines []vLine
	for i, s := range []string{"ab", "ac", "b", "bcd"} {
		l := vLine{text: []byte(s), key: []byte(s)}
		if opt&vTab != 0 {
			l.tail, l.val = vValue(i, 6)
		}
		lines = append(lines, l)
	}
	return lines
}

// C20: the dictionary file cannot grow beyond a symbolic size.  Params: options.
func HToolFull() {
	opt := vParam(0)
	lines := vFixed(opt)
	in, df := vTempName("lexicon"), vTempName("dictionary")
	vPutFile(in, vLexText(lines, opt))
	_, failed := vTool(append(vOptArgs(opt, "-b"), in, df), false, -1)
	vAssert(!failed, "the tool succeeds")
	size := len(vFileBytes(df))
	n := vInt("limit", 0, 1<<20)
	vReach("started")
	_, failed = vTool(append(vOptArgs(opt, "-b"), in, df), false, n)
	vAssert(vIff(failed, n < size), "building succeeds exactly when everything could be written")
	vReach("ended")
}

// C20: files that cannot be read.  Params: options, what is wrong, place of
// the cut (eight sizes from there; negative: from the end).
func HToolMissing() {
	opt := vParam(0)
	lines := vFixed(opt)
	in, df := vTempName("lexicon"), vTempName("dictionary")
	vPutFile(in, vLexText(lines, opt))
	first := "-b"
	switch vParam(1) {
	case 0:
		in = vTempName("absent")
	case 1:
		in = vTempName("folder")
		vPutDir(in)
	case 2:
		df = vTempName("missing/dictionary")
	case 3:
		first = ""
		df = vTempName("absent")
	case 4:
		first = ""
		df = vTempName("folder")
		vPutDir(df)
	case 5: // a dictionary cut short
		first = ""
		stored := vStored(vKeyList(lines), opt)
		at := vParam(2)
		if at < 0 {
			at += len(stored)
		}
		vPutFile(df, stored[:at+vSplit(vInt("cut", 0, 7))])
	case 6: // complete
		first = ""
		vPutFile(df, vStored(vKeyList(lines), opt))
	}
	args := vOptArgs(opt, first)
	if first == "" {
		args = args[1:]
	}
	vReach("started")
	_, failed := vTool(append(args, in, df), false, -1)
	vAssert(failed == (vParam(1) != 6), "a file that cannot be read makes the tool fail")
	vReach("ended")
}
