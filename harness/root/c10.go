package dawg

import (
	"bytes"
	"errors"
	"io"
)

// A reader that hands out its data in pieces: the first piece has a chosen
// size, later ones another.  It fails with err at position limit.
type vReader struct {
	data  []byte
	pos   int
	first int
	rest  int
	limit int
	err   error
	early bool // the error comes together with the last bytes
	asked int  // bytes asked for beyond the end
	once  bool // after the error the data go on
}

func (r *vReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := r.rest
	if r.pos == 0 {
		n = r.first
	}
	if n > len(p) {
		n = len(p)
	}
	if r.pos+n > r.limit {
		n = r.limit - r.pos
	}
	if n <= 0 {
		r.asked++
		if r.once {
			r.limit = len(r.data)
		}
		return 0, r.err
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.early && r.pos == r.limit {
		return n, r.err
	}
	return n, nil
}

// A writer that fails after limit bytes.
type vWriter struct {
	data  []byte
	limit int
	kind  int // how it fails: 0 error at the byte, 1 error before any byte of the call, 2 as 0 but later calls succeed
}

var vErrWrite = errors.New("write fails")
var vErrRead = errors.New("read fails")

func (w *vWriter) Write(p []byte) (int, error) {
	n := len(p)
	if len(w.data)+n > w.limit {
		n = w.limit - len(w.data)
		if w.kind == 1 {
			n = 0
			w.limit = len(w.data)
		}
		w.data = append(w.data, p[:n]...)
		if w.kind == 2 {
			w.limit = 1 << 40
		}
		return n, vErrWrite
	}
	w.data = append(w.data, p...)
	return n, nil
}

// the four kinds of stored objects
type vStored struct {
	kind int
	d    *Dictionary
	g    *Guide
	r    *RankedGuide
	x    *Index
}

func vFresh(kind int) *vStored {
	switch kind {
	case 0:
		return &vStored{kind: 0, d: NewDictionary()}
	case 1:
		return &vStored{kind: 1, g: NewGuide()}
	case 2:
		return &vStored{kind: 2, r: NewRankedGuide()}
	}
	return &vStored{kind: 3, x: NewIndex()}
}

// vLoad reads with the package-level function.
func vReadNew(kind int, in io.Reader) *vStored {
	switch kind {
	case 0:
		if d := ReadDictionary(in); d != nil {
			return &vStored{kind: 0, d: d}
		}
	case 1:
		if g := ReadGuide(in); g != nil {
			return &vStored{kind: 1, g: g}
		}
	case 2:
		if r := ReadRankedGuide(in); r != nil {
			return &vStored{kind: 2, r: r}
		}
	case 3:
		if x := ReadIndex(in); x != nil {
			return &vStored{kind: 3, x: x}
		}
	}
	return nil
}

func (s *vStored) read(in io.Reader) bool {
	switch s.kind {
	case 0:
		return s.d.Read(in)
	case 1:
		return s.g.Read(in)
	case 2:
		return s.r.Read(in)
	}
	return s.x.Read(in)
}

func (s *vStored) write(out io.Writer) bool {
	switch s.kind {
	case 0:
		return s.d.Write(out)
	case 1:
		return s.g.Write(out)
	case 2:
		return s.r.Write(out)
	}
	return s.x.Write(out)
}

func (s *vStored) sizes() (size, total, file int) {
	switch s.kind {
	case 0:
		return s.d.Size(), s.d.TotalSize(), s.d.FileSize()
	case 1:
		return s.g.Size(), s.g.TotalSize(), s.g.FileSize()
	case 2:
		return s.r.Size(), s.r.TotalSize(), s.r.FileSize()
	}
	return s.x.Size(), s.x.TotalSize(), s.x.FileSize()
}

func vUnitWidth(kind int) int {
	if kind == 0 || kind == 3 {
		return 4
	}
	return 2
}

// vObserve checks through the accessors that object s holds the n units in b.
func (s *vStored) observe(b []byte, n int, msg string) {
	size, _, _ := s.sizes()
	vAssert(size == n, msg+" (size)")
	if size != n {
		return
	}
	for i := 0; i < n; i++ {
		u := uint32(i)
		switch s.kind {
		case 1:
			vAssert(vAnd(s.g.Child(u) == b[2*i], s.g.Sibling(u) == b[2*i+1]), msg)
		case 2:
			vAssert(vAnd(s.r.Child(u) == b[2*i], s.r.Sibling(u) == b[2*i+1]), msg)
		case 3:
			want := uint32(b[4*i]) | uint32(b[4*i+1])<<8 | uint32(b[4*i+2])<<16 | uint32(b[4*i+3])<<24
			vAssert(s.x.ChildCount(u) == want, msg)
		}
	}
	// the dictionary shows its units by writing them
	var out bytes.Buffer
	vAssert(s.write(&out), "writing to memory succeeds")
	got := out.Bytes()
	w := vUnitWidth(s.kind)
	vAssert(len(got) == 4+n*w, msg+" (stored length)")
	if len(got) == 4+n*w {
		vAssert(vEqual(got[:4], []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}), msg+" (stored count)")
		vAssert(vEqual(got[4:], b[:n*w]), msg)
	}
}

// vImage makes the stored form of an object of n units of symbolic content.
func vImage(kind, n int, name string) []byte {
	img := []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
	for i := 0; i < n*vUnitWidth(kind); i++ {
		img = append(img, vByte(vName(name, i), 0, 255))
	}
	return img
}

// C10.  Params: kind, units, mode.
// mode 0: whole; 1: the reader splits its data anywhere; 2: into a used object.
func HRoundTrip() {
	kind, n, mode := vParam(0), vParam(1), vParam(2)
	img := vImage(kind, n, "b")
	tail := []byte{vByte("t0", 0, 255), vByte("t1", 0, 255), vByte("t2", 0, 255)}
	r := &vReader{data: vCat(img, tail), first: 1 << 30, rest: 1 << 30, limit: len(img) + 3, err: io.EOF}
	if mode == 1 {
		r.first = vSplit(vInt("first", 1, len(img)))
		r.rest = vSplit(vInt("rest", 1, 5))
	}
	var s *vStored
	if mode == 2 {
		old := vImage(kind, 2, "o")
		s = vReadNew(kind, bytes.NewReader(old))
		vAssert(s != nil, "a complete object is read")
		vAssert(s.read(r), "a complete object is read into a used one")
	} else {
		s = vReadNew(kind, r)
		vAssert(s != nil, "a complete object is read")
	}
	vReach("read")
	vAssert(r.pos == len(img), "reading consumes exactly the stored bytes")
	size, total, file := s.sizes()
	vAssert(vAnd(size == n, vAnd(total == n*vUnitWidth(kind), file == 4+n*vUnitWidth(kind))), "the reported sizes are those of the content")
	s.observe(img[4:], n, "the object read holds the stored units")
	// back to back
	var out bytes.Buffer
	out.Write([]byte{9})
	vAssert(s.write(&out), "writing succeeds")
	vAssert(s.write(&out), "writing succeeds")
	vAssert(out.Len() == 1+2*file, "an object occupies exactly its reported file size")
	vAssert(vEqual(out.Bytes(), vCat([]byte{9}, img, img)), "the stored form is the count followed by the units, little-endian")
	in := bytes.NewReader(out.Bytes()[1:])
	a, b := vReadNew(kind, in), vReadNew(kind, in)
	vAssert(a != nil && b != nil, "objects stored back to back are read one after the other")
	b.observe(img[4:], n, "the second object read holds the stored units")
	vAssert(in.Len() == 0, "nothing is left over")
}

// C10, end to end: a built dictionary with guide, ranked guide and indexes
// answers alike after a round trip through one stream.  Params: lexicon (4), query length.
func HReload() {
	l := vMake(0, false)
	d, dict := l.build()
	g, rg := BuildGuide(d, dict), BuildRankedGuide(d, dict)
	x, rx := BuildIndex(dict, g), BuildIndex(dict, rg)
	var buf bytes.Buffer
	vAssert(dict.Write(&buf) && g.Write(&buf) && rg.Write(&buf) && x.Write(&buf) && rx.Write(&buf), "everything is written")
	vAssert(buf.Len() == dict.FileSize()+g.FileSize()+rg.FileSize()+x.FileSize()+rx.FileSize(), "every object occupies its file size")
	in := &vReader{data: buf.Bytes(), first: 3, rest: 700, limit: buf.Len(), err: io.EOF}
	dict2 := ReadDictionary(in)
	g2 := ReadGuide(in)
	rg2 := ReadRankedGuide(in)
	x2 := ReadIndex(in)
	rx2 := ReadIndex(in)
	vAssert(dict2 != nil && g2 != nil && rg2 != nil && x2 != nil && rx2 != nil, "everything is read back")
	vAssert(in.pos == buf.Len(), "everything is consumed")
	vAssert(vAnd(dict2.Size() == dict.Size(), vAnd(g2.Size() == g.Size(), vAnd(rg2.Size() == rg.Size(), x2.Size() == x.Size()))), "sizes survive")
	vReach("reloaded")
	q := vQuery(vParam(4))
	vAssert(dict2.FindString(string(q)) == l.wanted(q), "a reloaded dictionary answers alike")
	c := NewCompleter(dict2, g2)
	c.Start(dict2.Root())
	vFully(l, dict2, c, 0, 0, nil)
	rc := NewRankedCompleter(dict2, rg2)
	rc.Start(dict2.Root())
	vRankedFully(l, rc, 0, 0, nil)
	vIndexCheck(l, NewIndexer(dict2, g2, x2), true, -1)
	vIndexCheck(l, NewIndexer(dict2, rg2, rx2), false, -1)
}

// C11: faulty input.  Params: kind, units, mode (0 end of file, 1 error, 2
// error together with the last bytes, 3 as 0 with the data in pieces, 4 error
// after which the data go on).
func HTruncated() {
	kind, n, mode := vParam(0), vParam(1), vParam(2)
	img := vImage(kind, n, "b")
	cut := vSplit(vInt("cut", 0, len(img)-1))
	r := &vReader{data: img, first: 1 << 30, rest: 1 << 30, limit: cut, err: io.EOF}
	if mode == 1 || mode == 2 || mode == 4 {
		r.once = mode == 4
		r.err = vErrRead
		r.early = mode == 2
	}
	if mode == 3 {
		r.first = vSplit(vInt("first", 1, len(img)))
		r.rest = vSplit(vInt("rest", 1, 5))
	}
	again := *r
	vReach("truncated")
	vAssert(vReadNew(kind, r) == nil, "an incomplete object is reported by the package-level reader")
	old := vImage(kind, 2, "o")
	s := vReadNew(kind, bytes.NewReader(old))
	vAssert(s != nil, "a complete object is read")
	vAssert(!s.read(&again), "an incomplete object is reported")
	s.observe(old[4:], 2, "a failed read leaves the receiver as it was")
}

// C11: faulty output.  Params: kind, units, failure kind.
func HFailWrite() {
	kind, n := vParam(0), vParam(1)
	img := vImage(kind, n, "b")
	s := vReadNew(kind, bytes.NewReader(img))
	vAssert(s != nil, "a complete object is read")
	cut := vSplit(vInt("cut", 0, len(img)-1))
	w := &vWriter{limit: cut, kind: vParam(2)}
	vReach("failing")
	vAssert(!s.write(w), "a failing write is reported")
	s.observe(img[4:], n, "a failed write leaves the object as it was")
	w = &vWriter{limit: len(img)}
	vAssert(s.write(w), "a write that just fits succeeds")
	vAssert(vEqual(w.data, img), "everything was written")
}
