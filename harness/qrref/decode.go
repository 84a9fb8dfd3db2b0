package qrref

import (
	"fmt"
	"math/bits"
)

// Grid is a module matrix, grid[row][col], true = dark.
type Grid [][]bool

func (g Grid) Clone() Grid {
	o := make(Grid, len(g))
	for i := range g {
		o[i] = append([]bool(nil), g[i]...)
	}
	return o
}

func (g Grid) Equal(h Grid) bool {
	if len(g) != len(h) {
		return false
	}
	for i := range g {
		if len(g[i]) != len(h[i]) {
			return false
		}
		for j := range g[i] {
			if g[i][j] != h[i][j] {
				return false
			}
		}
	}
	return true
}

// Region of a module.
type Region uint8

const (
	RData Region = iota
	RFinder
	RSeparator
	RTiming
	RAlign
	RDark
	RFormat
	RVersion
)

var RegionName = [...]string{"data", "finder", "separator", "timing", "alignment", "dark", "format", "version"}

// Layout is the region and, for fixed modules, the required colour of every module.
type Layout struct {
	Ver  int
	Dim  int
	Reg  [][]Region
	Dark [][]bool
	// Order lists the data modules in codeword placement order, as row*dim+col.
	Order []int
}

var layouts [41]*Layout

// LayoutOf builds (once, at init) the layout of a version.
func LayoutOf(ver int) *Layout { return layouts[ver] }

func init() {
	for v := 1; v <= 40; v++ {
		layouts[v] = buildLayout(v)
	}
}

func iabs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}
func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func buildLayout(ver int) *Layout {
	d := Dim(ver)
	l := &Layout{Ver: ver, Dim: d, Reg: make([][]Region, d), Dark: make([][]bool, d)}
	for i := range l.Reg {
		l.Reg[i] = make([]Region, d)
		l.Dark[i] = make([]bool, d)
	}
	put := func(r, c int, reg Region, dark bool) {
		if r < 0 || c < 0 || r >= d || c >= d {
			return
		}
		l.Reg[r][c], l.Dark[r][c] = reg, dark
	}
	for i := 0; i < d; i++ {
		put(6, i, RTiming, i%2 == 0)
		put(i, 6, RTiming, i%2 == 0)
	}
	for _, f := range [][2]int{{3, 3}, {3, d - 4}, {d - 4, 3}} {
		for dr := -4; dr <= 4; dr++ {
			for dc := -4; dc <= 4; dc++ {
				k := imax(iabs(dr), iabs(dc))
				reg := RFinder
				if k == 4 {
					reg = RSeparator
				}
				put(f[0]+dr, f[1]+dc, reg, k != 2 && k != 4)
			}
		}
	}
	al := AlignPositions(ver)
	for i, r := range al {
		for j, c := range al {
			n := len(al) - 1
			if i == 0 && j == 0 || i == 0 && j == n || i == n && j == 0 {
				continue
			}
			for dr := -2; dr <= 2; dr++ {
				for dc := -2; dc <= 2; dc++ {
					put(r+dr, c+dc, RAlign, imax(iabs(dr), iabs(dc)) != 1)
				}
			}
		}
	}
	for i := 0; i < 9; i++ {
		if l.Reg[8][i] == RData {
			put(8, i, RFormat, false)
		}
		if l.Reg[i][8] == RData {
			put(i, 8, RFormat, false)
		}
	}
	for i := 0; i < 8; i++ {
		put(8, d-1-i, RFormat, false)
		put(d-1-i, 8, RFormat, false)
	}
	put(d-8, 8, RDark, true)
	if ver >= 7 {
		w := VersionWord(ver)
		for i := 0; i < 18; i++ {
			b := w>>i&1 == 1
			a, e := d-11+i%3, i/3
			put(e, a, RVersion, b)
			put(a, e, RVersion, b)
		}
	}
	for right := d - 1; right >= 1; right -= 2 {
		if right == 6 {
			right = 5
		}
		for v := 0; v < d; v++ {
			for j := 0; j < 2; j++ {
				c := right - j
				r := v
				if (right+1)&2 == 0 {
					r = d - 1 - v
				}
				if l.Reg[r][c] == RData {
					l.Order = append(l.Order, r*d+c)
				}
			}
		}
	}
	if len(l.Order) != rawModules(ver) {
		panic(fmt.Sprintf("layout v%d: %d data modules, want %d", ver, len(l.Order), rawModules(ver)))
	}
	return l
}

// formatCoords gives, for bit i (0 = least significant), the two (row,col) copies.
func formatCoords(d, i int) (a, b [2]int) {
	switch {
	case i <= 5:
		a = [2]int{i, 8}
	case i == 6:
		a = [2]int{7, 8}
	case i == 7:
		a = [2]int{8, 8}
	case i == 8:
		a = [2]int{8, 7}
	default:
		a = [2]int{8, 14 - i}
	}
	if i < 8 {
		b = [2]int{8, d - 1 - i}
	} else {
		b = [2]int{d - 15 + i, 8}
	}
	return
}

// FormatCopies reads both 15-bit format words.
func FormatCopies(g Grid) (w1, w2 int) {
	d := len(g)
	for i := 0; i < 15; i++ {
		a, b := formatCoords(d, i)
		if g[a[0]][a[1]] {
			w1 |= 1 << i
		}
		if g[b[0]][b[1]] {
			w2 |= 1 << i
		}
	}
	return
}

// PutFormat writes both format copies into g.
func PutFormat(g Grid, lv, mask int) {
	d := len(g)
	w := FormatWord(lv, mask)
	for i := 0; i < 15; i++ {
		a, b := formatCoords(d, i)
		v := w>>i&1 == 1
		g[a[0]][a[1]] = v
		g[b[0]][b[1]] = v
	}
}

// nearestFormat returns the level/mask whose word is closest to w.
func nearestFormat(w int) (lv, mask, dist int) {
	dist = 99
	for l := 0; l < 4; l++ {
		for m := 0; m < 8; m++ {
			if k := bits.OnesCount(uint(w ^ FormatWord(l, m))); k < dist {
				lv, mask, dist = l, m, k
			}
		}
	}
	return
}

// Analysis is everything the reference reads off a symbol.
type Analysis struct {
	Ver, Level, Mask int
	Square           bool

	FunctionIssues []string // finder, separator, timing, alignment, dark module
	FormatIssues   []string // format information
	VersionIssues  []string // version information
	ECIssues       []string // blocks that are not codewords
	StreamIssues   []string // mode, count, terminator, padding
	RemIssues      []string // remainder bits

	Codewords   []byte   // as placed, interleaved
	Blocks      [][]byte // deinterleaved, data then ec, as read
	Fixed       [][]byte // after error correction
	Corrected   int      // codewords corrected
	Unreadable  bool
	Why         string
	Mode, Count int
	Payload     []byte // decoded text, kanji as UTF-8
	DataBits    int    // bits used by mode+count+payload
	Remainder   []bool
}

// All collects every strict issue.
func (a *Analysis) All() []string {
	var o []string
	for _, x := range [][]string{a.FunctionIssues, a.FormatIssues, a.VersionIssues, a.ECIssues, a.StreamIssues, a.RemIssues} {
		o = append(o, x...)
	}
	if a.Unreadable {
		o = append(o, "unreadable: "+a.Why)
	}
	return o
}

func capped(s []string, f string, v ...interface{}) []string {
	if len(s) < 12 {
		return append(s, fmt.Sprintf(f, v...))
	}
	return s
}

// Analyze reads a symbol the way a standards-conforming reader does (nearest
// format word, error correction per block) and records every deviation.
func Analyze(g Grid) *Analysis {
	a := &Analysis{}
	d := len(g)
	for _, row := range g {
		if len(row) != d {
			a.Unreadable, a.Why = true, "matrix is not square"
			return a
		}
	}
	if d < 21 || d > 177 || (d-17)%4 != 0 {
		a.Unreadable, a.Why = true, fmt.Sprintf("dimension %d is no QR version", d)
		return a
	}
	a.Square = true
	a.Ver = (d - 17) / 4
	l := LayoutOf(a.Ver)
	for r := 0; r < d; r++ {
		for c := 0; c < d; c++ {
			switch reg := l.Reg[r][c]; reg {
			case RFinder, RSeparator, RTiming, RAlign, RDark:
				if g[r][c] != l.Dark[r][c] {
					a.FunctionIssues = capped(a.FunctionIssues, "%s module (row %d, col %d) is dark=%v", RegionName[reg], r, c, g[r][c])
				}
			case RVersion:
				if g[r][c] != l.Dark[r][c] {
					a.VersionIssues = capped(a.VersionIssues, "version information module (row %d, col %d) is dark=%v", r, c, g[r][c])
				}
			}
		}
	}
	w1, w2 := FormatCopies(g)
	l1, m1, d1 := nearestFormat(w1)
	l2, m2, d2 := nearestFormat(w2)
	if d1 != 0 {
		a.FormatIssues = append(a.FormatIssues, fmt.Sprintf("first format copy %015b is no format word", w1))
	}
	if d2 != 0 {
		a.FormatIssues = append(a.FormatIssues, fmt.Sprintf("second format copy %015b is no format word", w2))
	}
	if w1 != w2 {
		a.FormatIssues = append(a.FormatIssues, fmt.Sprintf("format copies differ: %015b %015b", w1, w2))
	}
	if d1 <= d2 {
		a.Level, a.Mask = l1, m1
	} else {
		a.Level, a.Mask = l2, m2
	}
	if d1 > 3 && d2 > 3 {
		a.Unreadable, a.Why = true, "format information beyond repair"
		return a
	}
	a.readCodewords(g, l)
	a.decodeBlocks()
	return a
}

func (a *Analysis) readCodewords(g Grid, l *Layout) {
	n := TotalCodewords(a.Ver)
	a.Codewords = make([]byte, n)
	d := l.Dim
	for i, p := range l.Order {
		r, c := p/d, p%d
		b := g[r][c] != MaskBit(a.Mask, r, c)
		if i >= n*8 {
			a.Remainder = append(a.Remainder, b)
			if b {
				a.RemIssues = capped(a.RemIssues, "remainder bit %d is 1", i-n*8)
			}
			continue
		}
		if b {
			a.Codewords[i/8] |= 0x80 >> (i % 8)
		}
	}
}

// Deinterleave splits placed codewords into blocks (data then ec).
func Deinterleave(cw []byte, ver, lv int) [][]byte {
	lens := BlockDataLens(ver, lv)
	ec := ECPerBlock(ver, lv)
	out := make([][]byte, len(lens))
	k := 0
	for i := 0; i < lens[len(lens)-1]; i++ {
		for b := range lens {
			if i < lens[b] {
				out[b] = append(out[b], cw[k])
				k++
			}
		}
	}
	for i := 0; i < ec; i++ {
		for b := range lens {
			out[b] = append(out[b], cw[k])
			k++
		}
	}
	return out
}

func (a *Analysis) decodeBlocks() {
	a.Blocks = Deinterleave(a.Codewords, a.Ver, a.Level)
	ec := ECPerBlock(a.Ver, a.Level)
	var data []byte
	for i, b := range a.Blocks {
		f := append([]byte(nil), b...)
		n, ok := RSCorrect(f, ec)
		if !ok {
			a.ECIssues = capped(a.ECIssues, "block %d: beyond correction", i)
			a.Unreadable, a.Why = true, fmt.Sprintf("block %d cannot be corrected", i)
		} else if n != 0 {
			a.ECIssues = capped(a.ECIssues, "block %d: %d wrong codewords", i, n)
			a.Corrected += n
		}
		a.Fixed = append(a.Fixed, f)
		data = append(data, f[:len(f)-ec]...)
	}
	if a.Unreadable {
		return
	}
	a.parse(data)
}

type bitReader struct {
	b   []byte
	pos int
}

func (r *bitReader) left() int { return len(r.b)*8 - r.pos }
func (r *bitReader) take(n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v <<= 1
		if r.b[r.pos/8]&(0x80>>(r.pos%8)) != 0 {
			v |= 1
		}
		r.pos++
	}
	return v
}

func (a *Analysis) fail(f string, v ...interface{}) {
	a.Unreadable, a.Why = true, fmt.Sprintf(f, v...)
}

func (a *Analysis) parse(data []byte) {
	r := &bitReader{b: data}
	a.Mode = r.take(4)
	switch a.Mode {
	case ModeNumeric, ModeAlnum, ModeByte, ModeKanji:
	default:
		a.fail("mode indicator %04b", a.Mode)
		return
	}
	cb := CountBits(a.Mode, a.Ver)
	a.Count = r.take(cb)
	if r.left() < PayloadBits(a.Mode, a.Count) {
		a.fail("count %d exceeds the data (%s)", a.Count, ModeName(a.Mode))
		return
	}
	n := a.Count
	a.Payload = []byte{}
	switch a.Mode {
	case ModeNumeric:
		for n > 0 {
			k := 3
			if n < 3 {
				k = n
			}
			v := r.take([4]int{0, 4, 7, 10}[k])
			s := fmt.Sprintf("%0*d", k, v)
			if len(s) != k {
				a.fail("numeric group value %d for %d digits", v, k)
				return
			}
			a.Payload = append(a.Payload, s...)
			n -= k
		}
	case ModeAlnum:
		for n > 0 {
			if n >= 2 {
				v := r.take(11)
				if v >= 45*45 {
					a.fail("alphanumeric pair value %d", v)
					return
				}
				a.Payload = append(a.Payload, alnum[v/45], alnum[v%45])
				n -= 2
			} else {
				v := r.take(6)
				if v >= 45 {
					a.fail("alphanumeric value %d", v)
					return
				}
				a.Payload = append(a.Payload, alnum[v])
				n--
			}
		}
	case ModeByte:
		for ; n > 0; n-- {
			a.Payload = append(a.Payload, byte(r.take(8)))
		}
	case ModeKanji:
		for ; n > 0; n-- {
			v := r.take(13)
			c, ok := kanjiFrom13(v)
			if !ok {
				a.fail("kanji value %d is no character", v)
				return
			}
			a.Payload = append(a.Payload, string(c)...)
		}
	}
	a.DataBits = r.pos
	// terminator, bit padding, pad codewords
	t := r.left()
	if t > 4 {
		t = 4
	}
	if v := r.take(t); v != 0 {
		a.StreamIssues = capped(a.StreamIssues, "terminator is %0*b", t, v)
		if t == 4 {
			// Another segment (or garbage) follows: a reader would go on with it.
			a.fail("data continues after the text (mode indicator %04b)", v)
		}
	}
	if k := r.pos % 8; k != 0 {
		if v := r.take(8 - k); v != 0 {
			a.StreamIssues = capped(a.StreamIssues, "padding bits before the codeword boundary are %b", v)
		}
	}
	for i := 0; r.left() >= 8; i++ {
		want := [2]int{0xEC, 0x11}[i%2]
		if v := r.take(8); v != want {
			a.StreamIssues = capped(a.StreamIssues, "pad codeword %d is %#02x", i, v)
		}
	}
}
