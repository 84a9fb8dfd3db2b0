package main

import (
	"bytes"
	"cmp"
	"fmt"
	"image"
	"image/color"
	stdpalette "image/color/palette"
	"image/draw"
	"math"
	"math/rand"
	"slices"
	"strings"

	"verifharness/qrref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

func init() {
	register(&Prop{ID: "C17", Run: runC17, Assume: []string{"the layout model is an independent statement of the documented geometry"},
		Rule: "symbols of all versions drawn with random block widths, border arguments and opaque colours; every pixel and the attribute query are compared with a layout model. Distinct by (version, block width class, border kind)."})
	register(&Prop{ID: "C18", Run: runC18, Assume: []string{"partly transparent colours are given as color.RGBA and drawn with the default shape, to a tolerance of 1"},
		Rule: "every three-digit hex colour, every value of every channel in six digits, colours of every colour type of the image/color package, option orders and transparency; every pixel compared. Distinct by (option kinds, colour kind, role)."})
	register(&Prop{ID: "C19", Run: runC19, Assume: []string{"two units per channel are allowed for rounding"},
		Rule: "random angles and stop lists on random symbols, styles and shapes; every dark pixel compared with an independent interpolation, every other with the drawing without gradient. Distinct by (angle octant, stop count, style)."})
	register(&Prop{ID: "C20", Run: runC20,
		Rule: "logos of every image type and of sizes around the limit, with offset bounds and alpha, over random symbols and styles, with and without safe zone; every pixel compared with the drawing without logo plus the logo. Distinct by (logo type, fits, safe zone, parity of the margins, style)."})
	register(&Prop{ID: "C21", Run: runC21, Assume: []string{"the halftone image is exactly three pixels per module or an integer multiple of it, where scaling has one answer"},
		Rule: "random bilevel and grey halftone images on random symbols with block widths of multiples of three (and module centres at any width); every ninth of every module compared. Distinct by (version, block width, image kind, transparency)."})
	register(&Prop{ID: "C22", Run: runC22, Assume: []string{"block widths from 4 pixels; sizes that cover the centre pixel"},
		Rule: "every block style with every finder style and random parameters on random symbols; the centre pixels of all modules, the border, and the measured size of isolated dots are compared. Distinct by (block, finder, block width class)."})
	register(&Prop{ID: "C23", Run: runC23,
		Rule: "a recording shape receives every draw call for random symbols, styles and safe zones; the call set is compared with the model module by module. Distinct by (version, safe zone, border kind)."})
	register(&Prop{ID: "C35", Boost: 2, Run: runC35,
		Rule: "random lists of image options in random orders with unusable values mixed in; the image is compared pixel by pixel with the one for the reduced list in another order and with the model. Distinct by the set of options present and the reduction applied."})
}

// ---- drawing model ---------------------------------------------------------

// style is what the plain image options say. Zero values mean "not given".
type style struct {
	BW          int
	Borders     []int // nil: not given
	FG, BG      *color.RGBA
	Transparent bool
}

func (s style) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "block=%d borders=%v", s.BW, s.Borders)
	if s.FG != nil {
		fmt.Fprintf(&sb, " fg=%v", *s.FG)
	}
	if s.BG != nil {
		fmt.Fprintf(&sb, " bg=%v", *s.BG)
	}
	if s.Transparent {
		sb.WriteString(" transparent")
	}
	return sb.String()
}

// opts gives the options in an order of its own for each style, some of them after
// others of their kind that they override, or among values that change nothing.
func (s style) opts() []standard.ImageOption {
	var first, o []standard.ImageOption
	n := mixer(s.String())
	add := func(opt, other, idle standard.ImageOption) {
		if n(4) == 0 && other != nil {
			first = append(first, other)
		}
		o = append(o, opt)
		if n(6) == 0 && idle != nil {
			o = append(o, idle)
		}
	}
	if s.BW != 0 {
		add(standard.WithQRWidth(uint8(s.BW)), standard.WithQRWidth(uint8(n(256))), nil)
	} else if len(s.Borders)%2 == 1 { // 0 means not given
		o = append(o, standard.WithQRWidth(0))
	}
	if s.Borders != nil {
		add(standard.WithBorderWidth(append([]int{}, s.Borders...)...), // its own slice
			standard.WithBorderWidth([]int{n(50), n(50), n(50), n(50)}[:n(5)]...), nil)
	}
	if s.FG != nil {
		add(standard.WithFgColor(*s.FG), standard.WithFgColorRGBHex(fmt.Sprintf("#%06x", n(1<<24))), standard.WithFgColor(nil))
	}
	if s.BG != nil {
		add(standard.WithBgColor(*s.BG), standard.WithBgColor(color.RGBA{uint8(n(256)), 0, uint8(n(256)), 255}), standard.WithBgColorRGBHex(""))
	}
	if s.Transparent {
		add(standard.WithBgTransparent(), nil, nil)
	}
	for i := len(o) - 1; i > 0; i-- {
		j := n(i + 1)
		o[i], o[j] = o[j], o[i]
	}
	return append(first, o...)
}

func (s style) width() int {
	if s.BW == 0 {
		return 20
	}
	return s.BW
}

// border4 returns top, right, bottom, left.
func (s style) border4() [4]int {
	b := s.Borders
	switch {
	case len(b) == 0:
		return [4]int{40, 40, 40, 40}
	case len(b) == 1:
		return [4]int{b[0], b[0], b[0], b[0]}
	case len(b) < 4:
		return [4]int{b[0], b[1], b[0], b[1]}
	}
	return [4]int{b[0], b[1], b[2], b[3]}
}

func (s style) fg() color.RGBA {
	if s.FG != nil {
		return *s.FG
	}
	return color.RGBA{0, 0, 0, 255}
}

func (s style) bg() color.RGBA {
	if s.Transparent {
		return color.RGBA{}
	}
	if s.BG != nil {
		return *s.BG
	}
	return color.RGBA{255, 255, 255, 255}
}

func (s style) size(dim int) (w, h int) {
	b := s.border4()
	return dim*s.width() + b[1] + b[3], dim*s.width() + b[0] + b[2]
}

func fillRect(img *image.RGBA, x0, y0, w, h int, c color.RGBA) {
	for y := y0; y < y0+h; y++ {
		o := y*img.Stride + x0*4
		for x := 0; x < w; x++ {
			img.Pix[o], img.Pix[o+1], img.Pix[o+2], img.Pix[o+3] = c.R, c.G, c.B, c.A
			o += 4
		}
	}
}

// model draws the grid with square modules.
func (s style) model(g qrref.Grid) *image.RGBA {
	w, h := s.size(len(g))
	img := image.NewRGBA(image.Rect(0, 0, w, h))
	fillRect(img, 0, 0, w, h, s.bg())
	b, bw, fg := s.border4(), s.width(), s.fg()
	for y := range g {
		for x := range g[y] {
			if g[y][x] {
				fillRect(img, b[3]+x*bw, b[0]+y*bw, bw, bw, fg)
			}
		}
	}
	return img
}

// asRGBA normalises an image to RGBA at the origin.
func asRGBA(img image.Image) *image.RGBA {
	if r, ok := img.(*image.RGBA); ok && r.Rect.Min == (image.Point{}) && r.Stride == 4*r.Rect.Dx() {
		return r
	}
	b := img.Bounds()
	out := image.NewRGBA(image.Rect(0, 0, b.Dx(), b.Dy()))
	draw.Draw(out, out.Rect, img, b.Min, draw.Src)
	return out
}

// diffImages compares two images with a tolerance per channel; fully
// transparent pixels are equal whatever their colour.
func diffImages(got image.Image, want *image.RGBA, tol int) string {
	g := asRGBA(got)
	if g.Rect.Dx() != want.Rect.Dx() || g.Rect.Dy() != want.Rect.Dy() {
		return fmt.Sprintf("image is %dx%d, want %dx%d", g.Rect.Dx(), g.Rect.Dy(), want.Rect.Dx(), want.Rect.Dy())
	}
	if bytes.Equal(g.Pix, want.Pix) {
		return ""
	}
	n, first := 0, ""
	for o := 0; o < len(want.Pix); o += 4 {
		p, q := g.Pix[o:o+4:o+4], want.Pix[o:o+4:o+4]
		if p[3] == 0 && q[3] == 0 {
			continue
		}
		bad := false
		for k := 0; k < 4; k++ {
			d := int(p[k]) - int(q[k])
			if d > tol || d < -tol {
				bad = true
			}
		}
		if bad {
			if n == 0 {
				first = fmt.Sprintf("(x %d, y %d) is %v, want %v", o%want.Stride/4, o/want.Stride, p, q)
			}
			n++
		}
	}
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("%d pixels differ, first %s", n, first)
}

func randRGBA(r *rand.Rand) color.RGBA {
	switch r.Intn(4) {
	case 0:
		e := []uint8{0, 255, 1, 254, 127, 128}
		return color.RGBA{e[r.Intn(6)], e[r.Intn(6)], e[r.Intn(6)], 255}
	}
	return color.RGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), 255}
}

func far(a, b color.RGBA) bool {
	d := func(x, y uint8) int {
		if x > y {
			return int(x - y)
		}
		return int(y - x)
	}
	return d(a.R, b.R)+d(a.G, b.G)+d(a.B, b.B) > 60
}

// someStyle picks a style whose drawing stays under about maxPix pixels.
func someStyle(r *rand.Rand, dim, minBW, maxPix int) style {
	var s style
	top := imini(255, imaxi(minBW, int(math.Sqrt(float64(maxPix)))/dim))
	s.BW = minBW + r.Intn(top-minBW+1)
	if r.Intn(2) == 0 {
		s.BW = minBW + r.Intn(imini(top, minBW+9)-minBW+1)
	}
	if r.Intn(12) == 0 && minBW <= 20 && top >= 20 {
		s.BW = 0
	}
	bmax := []int{1, 3, 12, 60}[r.Intn(4)]
	switch n := r.Intn(7); n {
	case 0: // not given
	case 6:
		s.Borders = []int{0}
	default:
		s.Borders = make([]int, n) // 1..5 values
		zero := r.Intn(3) == 0
		for i := range s.Borders {
			s.Borders[i] = r.Intn(bmax + 1)
			if zero && r.Intn(2) == 0 {
				s.Borders[i] = 0
			}
		}
	}
	fg, bg := s.fg(), s.bg()
	if r.Intn(2) == 0 {
		fg = randRGBA(r)
		s.FG = &fg
	}
	if r.Intn(2) == 0 {
		bg = randRGBA(r)
		s.BG = &bg
	}
	if !far(fg, bg) {
		s.FG, s.BG = nil, nil
	}
	s.Transparent = r.Intn(5) == 0
	return s
}

// bigBW gives a block width, a multiple of k, that makes a drawing of more than
// one million, four million or sixteen million pixels.
func bigBW(r *rand.Rand, dim, k int) int {
	side := []int{1100, 2080, 2080, 2600, 4150}[r.Intn(5)]
	bw := (side + dim - 1) / dim
	bw += (k - bw%k) % k
	return imini(bw, 255/k*k)
}

// smallSym makes a symbol of one of the given versions (0: any).
func smallSym(c *C, maxVer int) (Enc, *qrcode.QRCode, qrref.Grid, bool) {
	lv := c.Rng.Intn(4)
	ver := 1 + c.Rng.Intn(maxVer)
	m := allModes[c.Rng.Intn(4)]
	e := Enc{Lv: lv, Ver: ver, Raw: textOf(c.Rng, m, c.Rng.Intn(qrref.Capacity(ver, lv, m)+1))}
	c.Desc("%v", e)
	q, g, ok := encodeOK(c, e)
	return e, q, g, ok
}

// ---- C17 -------------------------------------------------------------------

func borderKind(s style) int { return imini(len(s.Borders), 5) + b2i(s.Borders != nil) }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func runC17(r *R) {
	check := func(c *C, e Enc, q *qrcode.QRCode, g qrref.Grid, s style) {
		c.Desc("%v drawn with %v", e, s)
		img, w, err := render(q, s.opts()...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		want := s.model(g)
		if d := diffImages(img, want, 0); d != "" {
			c.Failf("%s", d)
			return
		}
		for _, dim := range []int{len(g), q.Dimension(), 21, 177, 4*c.Rng.Intn(41) + 21} {
			a := w.Attribute(dim)
			ww, hh := s.size(dim)
			if a == nil || a.W != ww || a.H != hh || a.BlockWidth != s.width() || a.Borders != s.border4() {
				c.Failf("Attribute(%d) is %+v, want %dx%d, borders %v, block width %d", dim, a, ww, hh, s.border4(), s.width())
				return
			}
		}
		c.Count("pixels_compared", len(want.Pix)/4)
		c.Count("attributes_compared", 5)
		c.Key("v%d-bw%d-b%d-t%v", (len(g)-17)/4, imini(s.width(), 12), borderKind(s), s.Transparent)
	}
	r.Each("versions", 40*r.N(4, 30), func(c *C) {
		ver := c.Index%40 + 1
		lv := c.Rng.Intn(4)
		e := Enc{Lv: lv, Ver: ver, Raw: textOf(c.Rng, qrref.ModeByte, c.Rng.Intn(qrref.Capacity(ver, lv, qrref.ModeByte)+1))}
		c.Desc("%v", e)
		if q, g, ok := encodeOK(c, e); ok {
			check(c, e, q, g, someStyle(c.Rng, len(g), 1, 600000))
		}
	})
	r.Each("random", r.N(700, 12000), func(c *C) {
		if e, q, g, ok := smallSym(c, 12); ok {
			check(c, e, q, g, someStyle(c.Rng, len(g), 1, 250000))
		}
	})
	r.Each("large", r.N(16, 200), func(c *C) {
		if e, q, g, ok := smallSym(c, []int{6, 40}[c.Index%2]); ok {
			s := someStyle(c.Rng, len(g), 1, 250000)
			s.BW = bigBW(c.Rng, len(g), 1)
			check(c, e, q, g, s)
		}
	})
	// every block width once
	r.Each("widths", 255, func(c *C) {
		e := Enc{Raw: []byte("W"), Lv: 0}
		c.Desc("%v", e)
		q, g, ok := encodeOK(c, e)
		if !ok {
			return
		}
		if bw := c.Index + 1; bw > 91 && c.Index%r.N(13, 1) != 2 && bw != 127 && bw != 128 && bw != 200 && bw != 254 && bw != 255 { // the larger ones are slow to draw
			s := style{BW: c.Index + 1}
			a := standard.NewWithWriter(&sink{}, s.opts()...).Attribute(len(g))
			if w, _ := s.size(len(g)); a == nil || a.W != w || a.BlockWidth != s.BW {
				c.Failf("Attribute is %+v for block width %d", a, s.BW)
			}
			return
		}
		check(c, e, q, g, style{BW: c.Index + 1, Borders: []int{c.Rng.Intn(30), c.Rng.Intn(30), c.Rng.Intn(30), c.Rng.Intn(30)}})
	})
	// borders of every magnitude: one wide side at a time is drawn, all are asked for
	r.Each("wide-borders", r.N(90, 1500), func(c *C) {
		e, q, g, ok := smallSym(c, 2)
		if !ok {
			return
		}
		s := style{BW: 1 + c.Rng.Intn(3), Borders: make([]int, 1+c.Rng.Intn(4))}
		for i := range s.Borders {
			s.Borders[i] = c.Rng.Intn(20)
		}
		i := c.Rng.Intn(len(s.Borders))
		s.Borders[i] = []int{255, 256, 257, 258, 300, 511, 512, 513, 640, 1000, 1023, 1024, 2047, 2048, 100 + c.Rng.Intn(2000)}[c.Rng.Intn(15)]
		if len(s.Borders) == 1 {
			s.Borders[0] = imini(s.Borders[0], 700)
		}
		if len(s.Borders) > 1 && c.Index%9 == 0 { // one side only, or the image would be too large
			s = style{BW: 1, Borders: make([]int, 4)}
			s.Borders[c.Rng.Intn(4)] = []int{32767, 32768, 65535, 65536, 65537, 70000, 4096 + c.Rng.Intn(70000)}[c.Index/9%7]
		}
		check(c, e, q, g, s)
		c.Count("wide_borders", 1)
	})
	// asking for the attributes draws nothing, so all magnitudes of everything
	r.Each("attributes", r.N(4000, 60000), func(c *C) {
		s := style{BW: c.Rng.Intn(256)}
		if c.Rng.Intn(8) == 0 {
			s.BW = []int{0, 0, 1, 255}[c.Rng.Intn(4)]
		}
		if n := c.Rng.Intn(6); n > 0 {
			s.Borders = make([]int, n)
			for i := range s.Borders {
				s.Borders[i] = c.Rng.Intn(1 << uint(c.Rng.Intn(17)))
			}
		}
		dim := 17 + 4*(1+c.Rng.Intn(40))
		c.Desc("Attribute(%d) with %v", dim, s)
		w := standard.NewWithWriter(&sink{}, s.opts()...)
		ww, hh := s.size(dim)
		if a := w.Attribute(dim); a == nil || a.W != ww || a.H != hh || a.BlockWidth != s.width() || a.Borders != s.border4() {
			c.Failf("it is %+v, want %dx%d, borders %v, block width %d", a, ww, hh, s.border4(), s.width())
			return
		} else {
			// it is the caller's
			*a = standard.Attribute{W: 1, H: 2, BlockWidth: 3, Borders: [4]int{4, 5, 6, 7}}
			if b := w.Attribute(dim); b == a || b.W != ww || b.H != hh || b.BlockWidth != s.width() || b.Borders != s.border4() {
				c.Failf("after the caller changed the first answer it is %+v, want %dx%d, borders %v, block width %d", b, ww, hh, s.border4(), s.width())
				return
			}
		}
		c.Count("attributes_compared", 1)
	})
	// the documented border shorthands, and the defaults
	r.Each("borders", 60, func(c *C) {
		if e, q, g, ok := smallSym(c, 3); ok {
			s := style{BW: 1 + c.Rng.Intn(4), Borders: make([]int, c.Index%6)}
			for i := range s.Borders {
				s.Borders[i] = 1 + c.Rng.Intn(50) + 50*i // all different
			}
			if c.Index%12 == 11 {
				s = style{}
			}
			check(c, e, q, g, s)
		}
	})
}

// ---- C18 -------------------------------------------------------------------

// colour is one way of giving a colour.
type colour struct {
	kind string
	c    color.Color // nil: hex
	hex  string
	want color.RGBA
	low  color.RGBA // what a low-byte conversion would give
	odd  bool       // bytes of a 16-bit channel differ
}

func hexColour(r *rand.Rand) colour {
	if r.Intn(2) == 0 {
		n := [3]uint8{uint8(r.Intn(16)), uint8(r.Intn(16)), uint8(r.Intn(16))}
		f := "#%x%x%x"
		if r.Intn(2) == 0 {
			f = "#%X%X%X"
		}
		return colour{kind: "hex3", hex: fmt.Sprintf(f, n[0], n[1], n[2]), want: color.RGBA{n[0] * 17, n[1] * 17, n[2] * 17, 255}}
	}
	w := randRGBA(r)
	f := "#%02x%02x%02x"
	if r.Intn(2) == 0 {
		f = "#%02X%02X%02X"
	}
	return colour{kind: "hex6", hex: fmt.Sprintf(f, w.R, w.G, w.B), want: w}
}

func valueColour(r *rand.Rand) colour {
	var k colour
	b := func() uint8 { return uint8(r.Intn(256)) }
	u := func() uint16 { return uint16(r.Intn(65536)) }
	switch r.Intn(10) {
	case 0:
		k = colour{kind: "Gray", c: color.Gray{b()}}
	case 1:
		k = colour{kind: "NRGBA", c: color.NRGBA{b(), b(), b(), 255}}
	case 2:
		k = colour{kind: "Gray16", c: color.Gray16{u()}}
	case 3:
		k = colour{kind: "RGBA64", c: color.RGBA64{u(), u(), u(), 0xffff}}
	case 4:
		k = colour{kind: "NRGBA64", c: color.NRGBA64{u(), u(), u(), 0xffff}}
	case 5:
		k = colour{kind: "YCbCr", c: color.YCbCr{b(), b(), b()}}
	case 6:
		k = colour{kind: "CMYK", c: color.CMYK{b(), b(), b(), b()}}
	case 7:
		v := b()
		k = colour{kind: "Gray16", c: color.Gray16{uint16(v) * 257}}
	case 8:
		k = colour{kind: "Standard", c: []color.Color{color.Black, color.White, color.Opaque}[r.Intn(3)]}
	default:
		k = colour{kind: "RGBA", c: randRGBA(r)}
	}
	R, G, B, _ := k.c.RGBA()
	k.want = color.RGBA{uint8(R >> 8), uint8(G >> 8), uint8(B >> 8), 255}
	k.low = color.RGBA{uint8(R), uint8(G), uint8(B), 255}
	k.odd = k.want != k.low
	return k
}

func (k colour) String() string {
	if k.c == nil {
		return k.hex
	}
	return fmt.Sprintf("%T%v", k.c, k.c)
}

func (k colour) bgOpt() standard.ImageOption {
	if k.c == nil {
		return standard.WithBgColorRGBHex(k.hex)
	}
	return standard.WithBgColor(k.c)
}

func (k colour) fgOpt() standard.ImageOption {
	if k.c == nil {
		return standard.WithFgColorRGBHex(k.hex)
	}
	return standard.WithFgColor(k.c)
}

// sheerRGBA makes a colour with partial alpha, multiplied by it.
func sheerRGBA(r *rand.Rand) color.RGBA {
	a := 1 + r.Intn(254)
	v := func() uint8 { return uint8(r.Intn(a + 1)) }
	return color.RGBA{v(), v(), v(), uint8(a)}
}

// over blends a colour over another.
func over(a, b color.RGBA) color.RGBA {
	f := func(p, q uint8) uint8 {
		return uint8(math.Min(255, math.Round(float64(p)+float64(q)*float64(255-a.A)/255)))
	}
	return color.RGBA{f(a.R, b.R), f(a.G, b.G), f(a.B, b.B), f(a.A, b.A)}
}

func runC18(r *R) {
	e := Enc{Raw: []byte("COLOURS"), Lv: 1}
	tiny, g0 := (*qrcode.QRCode)(nil), qrref.Grid(nil)
	r.Serial("prepare", 1, func(c *C) { tiny, g0, _ = encodeOK(c, e) })
	if tiny == nil {
		if r.onlyGroup == "" {
			return
		}
		tiny, _ = e.run()
		g0, _ = gridOf(tiny)
	}
	check := func(c *C, q *qrcode.QRCode, g qrref.Grid, opts []standard.ImageOption, fg, bg color.RGBA, transparent bool, alts []style) bool {
		img, _, err := render(q, append([]standard.ImageOption{standard.WithQRWidth(1), standard.WithBorderWidth(1)}, opts...)...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return false
		}
		s := style{BW: 1, Borders: []int{1}, FG: &fg, BG: &bg, Transparent: transparent}
		d := diffImages(img, s.model(g), 0)
		if d == "" {
			c.Count("pixels_compared", (len(g)+2)*(len(g)+2))
			return true
		}
		for _, a := range alts {
			a.BW, a.Borders, a.Transparent = 1, []int{1}, transparent
			if diffImages(img, a.model(g), 0) == "" {
				c.Knownf("low-byte-of-16-bit-channel", "fg %v bg %v asked for, drawn with fg %v bg %v: the low byte of each 16-bit channel is used", fg, bg, a.fg(), a.bg())
				c.Count("drawings_with_the_low_byte", 1)
				return false
			}
		}
		c.Failf("%s", d)
		return false
	}
	black, white := color.RGBA{0, 0, 0, 255}, color.RGBA{255, 255, 255, 255}
	r.Each("sizes", r.N(60, 900), func(c *C) {
		e, q, g, ok := smallSym(c, 40)
		if !ok {
			return
		}
		s := someStyle(c.Rng, len(g), 1, []int{250000, 2000000}[c.Index%2])
		if c.Index%8 == 3 {
			s.BW = bigBW(c.Rng, len(g), 1)
		}
		fg, bg := randRGBA(c.Rng), randRGBA(c.Rng)
		s.FG, s.BG = &fg, &bg
		c.Desc("%v drawn with %v", e, s)
		img, _, err := render(q, s.opts()...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		if d := diffImages(img, s.model(g), 0); d != "" {
			c.Failf("%s", d)
			return
		}
		w, h := s.size(len(g))
		c.Count("pixels_compared", w*h)
		c.Key("size-%d", w*h/500000)
	})
	r.Each("hex3", 4096, func(c *C) {
		n := c.Index
		h := fmt.Sprintf("#%03x", n)
		w := color.RGBA{uint8(n >> 8 * 17), uint8(n >> 4 & 15 * 17), uint8(n & 15 * 17), 255}
		if n%2 == 1 {
			h = strings.ToUpper(h)
		}
		c.Desc("hex %s", h)
		if check(c, tiny, g0, []standard.ImageOption{standard.WithFgColorRGBHex(h)}, w, white, false, nil) &&
			check(c, tiny, g0, []standard.ImageOption{standard.WithBgColorRGBHex(h)}, black, w, false, nil) {
			c.Key("%s", h)
		}
	})
	r.Each("hex6", 3*256, func(c *C) {
		ch, v := c.Index/256, uint8(c.Index%256)
		w := randRGBA(c.Rng)
		switch ch {
		case 0:
			w.R = v
		case 1:
			w.G = v
		default:
			w.B = v
		}
		h := fmt.Sprintf("#%02x%02x%02x", w.R, w.G, w.B)
		if c.Rng.Intn(2) == 0 {
			h = strings.ToUpper(h)
		}
		c.Desc("hex %s", h)
		if check(c, tiny, g0, []standard.ImageOption{standard.WithFgColorRGBHex(h)}, w, white, false, nil) &&
			check(c, tiny, g0, []standard.ImageOption{standard.WithBgColorRGBHex(h)}, black, w, false, nil) &&
			check(c, tiny, g0, []standard.ImageOption{standard.WithBgColor(w), standard.WithFgColor(w)}, w, w, false, nil) {
			c.Key("%d-%d", ch, v)
		}
	})
	// sequences of colour options: the last one of each role counts
	r.Each("sequences", r.N(4000, 60000), func(c *C) {
		_, q, g, ok := smallSym(c, 2)
		if !ok {
			return
		}
		var opts []standard.ImageOption
		var ds []string
		fg, bg := colour{want: black}, colour{want: white}
		transparent := false
		k := 1 + c.Rng.Intn(4)
		if c.Rng.Intn(3) == 0 { // colours that let something shine through, replaced by others later
			f, b := sheerRGBA(c.Rng), sheerRGBA(c.Rng)
			fg, bg = hexColour(c.Rng), hexColour(c.Rng)
			after := []standard.ImageOption{fg.fgOpt(), bg.bgOpt()}
			opts = append(opts, standard.WithFgColor(f), standard.WithBgColor(b), after[k%2], after[1-k%2])
			ds = append(ds, fmt.Sprintf("fg %v, bg %v, fg %v, bg %v", f, b, fg, bg))
		}
		for ; k > 0; k-- {
			col := hexColour(c.Rng)
			if c.Rng.Intn(2) == 0 {
				col = valueColour(c.Rng)
			}
			switch c.Rng.Intn(7) {
			case 0, 1, 2:
				fg = col
				opts = append(opts, col.fgOpt())
				ds = append(ds, "fg "+col.String())
			case 3, 4, 5:
				bg = col
				opts = append(opts, col.bgOpt())
				ds = append(ds, "bg "+col.String())
			default:
				transparent = true
				opts = append(opts, standard.WithBgTransparent())
				ds = append(ds, "transparent")
			}
		}
		c.Desc("options %s", strings.Join(ds, ", "))
		var alts []style
		if fg.odd || bg.odd {
			fw, bw := fg.want, bg.want
			if fg.odd {
				fw = fg.low
			}
			if bg.odd {
				bw = bg.low
			}
			alts = []style{{FG: &fw, BG: &bw}}
		}
		if check(c, q, g, opts, fg.want, bg.want, transparent, alts) {
			c.Key("%s-%s-%v", fg.kind, bg.kind, transparent)
		}
	})
	// colours that let something shine through
	r.Each("translucent", r.N(1500, 20000), func(c *C) {
		_, q, g, ok := smallSym(c, 3)
		if !ok {
			return
		}
		fg, bg, transparent := black, white, c.Rng.Intn(4) == 0
		which := 1 + c.Rng.Intn(3)
		var opts []standard.ImageOption
		if which&1 != 0 {
			fg = sheerRGBA(c.Rng)
			opts = append(opts, standard.WithFgColor(fg))
		}
		if which&2 != 0 {
			bg = sheerRGBA(c.Rng)
			opts = append(opts, standard.WithBgColor(bg))
		}
		if transparent {
			opts = append(opts, standard.WithBgTransparent())
		}
		c.Rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		bw := 1 + c.Rng.Intn(4)
		c.Desc("fg %v, bg %v, transparent %v, block %d", fg, bg, transparent, bw)
		img, _, err := render(q, append(opts, standard.WithQRWidth(uint8(bw)), standard.WithBorderWidth(1))...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		under := bg
		if transparent {
			under = color.RGBA{}
		}
		dark := over(fg, under)
		s := style{BW: bw, Borders: []int{1}, FG: &dark, BG: &under}
		want := s.model(g)
		for o := 0; o < len(want.Pix); o += 4 { // nothing above the alpha
			if want.Pix[o+3] == 0 {
				copy(want.Pix[o:o+4], []byte{0, 0, 0, 0})
			}
		}
		if d := diffImages(img, want, 1); d != "" {
			if flaw := over(fg, color.RGBA{bg.R, bg.G, bg.B, 0}); transparent && fg.A != 255 {
				s.FG = &flaw
				if diffImages(img, s.model(g), 1) == "" {
					c.Knownf("sheer-on-transparent", "fg %v on a transparent background drawn as %v, which shines through the background's colour %v", fg, flaw, bg)
					c.Count("drawings_with_the_hidden_background", 1)
					return
				}
			}
			c.Failf("%s", d)
			return
		}
		c.Count("pixels_compared", len(want.Pix)/4)
		c.Key("sheer-%d-%v-%d-%d", which, transparent, fg.A/32, bg.A/32)
	})
	// transparency under every shape: light centres invisible, dark centres opaque
	r.Each("transparent-shapes", r.N(150, 3000), func(c *C) {
		_, q, g, ok := smallSym(c, 4)
		if !ok {
			return
		}
		sh := someShape(c.Rng)
		s := someStyle(c.Rng, len(g), 5, 60000)
		s.Transparent = true
		c.Desc("%s with %v", sh.name, s)
		img, _, err := render(q, append(s.opts(), sh.opt()...)...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		im := asRGBA(img)
		b, bw, fg := s.border4(), s.width(), s.fg()
		for y := range g {
			for x := range g[y] {
				p := im.RGBAAt(b[3]+x*bw+bw/2, b[0]+y*bw+bw/2)
				if g[y][x] && p != fg || !g[y][x] && p.A != 0 {
					c.Failf("centre of module (x %d, y %d), dark=%v, is %v", x, y, g[y][x], p)
					return
				}
			}
		}
		c.Count("centres_compared", len(g)*len(g))
		c.Key("%s", sh.kind)
	})
}

// ---- C19 -------------------------------------------------------------------

type gradStops []standard.ColorStop

func refGradient(stops gradStops, t float64) [3]float64 {
	f := func(c color.RGBA) [3]float64 { return [3]float64{float64(c.R), float64(c.G), float64(c.B)} }
	if t <= stops[0].T {
		return f(stops[0].Color)
	}
	for i := 1; i < len(stops); i++ {
		if t <= stops[i].T {
			u := (t - stops[i-1].T) / (stops[i].T - stops[i-1].T)
			a, b := f(stops[i-1].Color), f(stops[i].Color)
			return [3]float64{a[0] + u*(b[0]-a[0]), a[1] + u*(b[1]-a[1]), a[2] + u*(b[2]-a[2])}
		}
	}
	return f(stops[len(stops)-1].Color)
}

// someStops makes 1..6 opaque stops in ascending order, apart by at least 0.05.
func someStops(r *rand.Rand) gradStops {
	n := 1 + r.Intn(6)
	perm := r.Perm(21)[:n]
	on := make([]bool, 21)
	for _, p := range perm {
		on[p] = true
	}
	var s gradStops
	for i, b := range on {
		if b {
			s = append(s, standard.ColorStop{T: float64(i) / 20, Color: randRGBA(r)})
		}
	}
	return s
}

func someAngle(r *rand.Rand) float64 {
	switch r.Intn(3) {
	case 0:
		return float64(r.Intn(17)-8) * 45
	case 1:
		return float64(r.Intn(1441) - 720)
	}
	return r.Float64()*720 - 360
}

// withGradient is the model: recolours the foreground pixels of a drawing.
// nudge moves every position a little, for those that fall on a hard edge.
func withGradient(base *image.RGBA, fg color.RGBA, stops gradStops, angle, nudge float64) *image.RGBA {
	w, h := float64(base.Rect.Dx()), float64(base.Rect.Dy())
	sn, cs := math.Sincos(angle * math.Pi / 180)
	dx, dy := cs, -sn
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, p := range [4]float64{0, h * dy, w * dx, w*dx + h*dy} {
		lo, hi = math.Min(lo, p), math.Max(hi, p)
	}
	out := image.NewRGBA(base.Rect)
	copy(out.Pix, base.Pix)
	for y := 0; y < base.Rect.Dy(); y++ {
		for x := 0; x < base.Rect.Dx(); x++ {
			o := y*base.Stride + 4*x
			if p := base.Pix[o : o+4]; p[0] == fg.R && p[1] == fg.G && p[2] == fg.B && p[3] == 255 {
				c := refGradient(stops, (float64(x)*dx+float64(y)*dy-lo)/(hi-lo)+nudge)
				for k := 0; k < 3; k++ {
					out.Pix[o+k] = uint8(math.Round(c[k]))
				}
			}
		}
	}
	return out
}

func near4(a, b []uint8, tol int) bool {
	for k := range 4 {
		if d := int(a[k]) - int(b[k]); d > tol || d < -tol {
			return false
		}
	}
	return true
}

func runC19(r *R) {
	r.Each("together", r.N(200, 4000), func(c *C) { together(c, "gradient") })
	one := func(c *C, big bool) {
		e, q, g, ok := smallSym(c, 8)
		if !ok {
			return
		}
		s := someStyle(c.Rng, len(g), 2, 60000)
		if big {
			s.BW = bigBW(c.Rng, len(g), 1)
		}
		opts := s.opts()
		sh := shape{name: "default", kind: "default"}
		if c.Rng.Intn(3) == 0 && s.width() >= 4 {
			sh = someShape(c.Rng)
			opts = append(opts, sh.opt()...)
		}
		stops := someStops(c.Rng)
		if c.Rng.Intn(5) == 0 { // hard edges: several stops in one place
			for i := 1; i < len(stops); i++ {
				if c.Rng.Intn(2) == 0 {
					stops[i].T = stops[i-1].T
				}
			}
		}
		// a symbol that only the gradient makes visible
		hidden := sh.kind == "default" && c.Rng.Intn(6) == 0
		if hidden {
			col := randRGBA(c.Rng)
			switch c.Rng.Intn(4) {
			case 0:
				s.FG, s.BG = nil, &color.RGBA{A: 255}
			case 1:
				s.FG, s.BG = &color.RGBA{255, 255, 255, 255}, nil
			default:
				s.FG, s.BG = &col, &col
			}
			opts = s.opts()
		}
		// colours that let something shine through
		sheer := !hidden && !s.Transparent && sh.kind == "default" && c.Rng.Intn(6) == 0
		if sheer {
			a, b := sheerRGBA(c.Rng), sheerRGBA(c.Rng)
			k := c.Rng.Intn(3)
			if k != 0 {
				s.FG = &a
			}
			if k != 1 {
				s.BG = &b
			}
			opts = s.opts()
		}
		given := append(gradStops{}, stops...)
		c.Rng.Shuffle(len(given), func(i, j int) { given[i], given[j] = given[j], given[i] })
		angle := someAngle(c.Rng)
		c.Desc("%v drawn with %v, shape %s, gradient %v %v", e, s, sh.name, angle, given)
		base, _, err := render(q, opts...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		byT := func(a, b standard.ColorStop) int { return cmp.Compare(a.T, b.T) }
		whole := func(a, b standard.ColorStop) int {
			return cmp.Or(byT(a, b), cmp.Compare(fmt.Sprint(a.Color), fmt.Sprint(b.Color)))
		}
		kept := append(gradStops{}, given...)
		gr := standard.NewGradient(angle, given...)
		stops = append(gradStops{}, gr.Stops...) // those in one place may come in any order
		sorted := append(gradStops{}, stops...)
		slices.SortFunc(sorted, whole)
		slices.SortFunc(kept, whole)
		if !slices.Equal(sorted, kept) || !slices.IsSortedFunc(stops, byT) {
			c.Failf("NewGradient(%v) has stops %v", kept, stops)
			return
		}
		opts = append([]standard.ImageOption{standard.WithFgGradient(gr)}, opts...)
		if c.Rng.Intn(2) == 0 {
			opts = append(opts[1:], opts[0])
		}
		img, _, err := render(q, opts...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		if sh.kind == "default" && !sheer {
			if d := diffImages(base, s.model(g), 0); d != "" {
				c.Failf("without gradient: %s", d)
				return
			}
		}
		rb := asRGBA(base)
		fg := s.fg()
		if hidden || sheer {
			seen := s
			fg.G ^= 0x80
			fg.A = 255
			seen.FG = &fg
			rb = seen.model(g)
		}
		want := withGradient(rb, fg, stops, angle, -1e-9)
		alt := withGradient(rb, fg, stops, angle, 1e-9)
		if s.Transparent && sh.kind != "default" {
			// smoothed edges over nothing have no documented result
			gi := asRGBA(img)
			for o := 0; o < len(rb.Pix) && len(gi.Pix) == len(rb.Pix); o += 4 {
				if a := rb.Pix[o+3]; a != 0 && a != 255 {
					copy(want.Pix[o:o+4], gi.Pix[o:o+4])
				}
			}
		}
		// on a hard edge both sides are right
		if gi := asRGBA(img); len(gi.Pix) == len(want.Pix) {
			for o := 0; o < len(want.Pix); o += 4 {
				if near4(gi.Pix[o:o+4], alt.Pix[o:o+4], 2) {
					copy(want.Pix[o:o+4], gi.Pix[o:o+4])
				}
			}
		}
		if d := diffImages(img, want, 2); d != "" {
			c.Failf("%s", d)
			return
		}
		n := 0
		gi := asRGBA(img)
		for o := 0; o < len(rb.Pix); o += 4 {
			if a := gi.Pix[o+3]; a != 255 && rb.Pix[o+3] == 255 {
				c.Failf("pixel (x %d, y %d) has alpha %d", o/4%rb.Rect.Dx(), o/4/rb.Rect.Dx(), a)
				return
			}
			if !bytes.Equal(rb.Pix[o:o+4], want.Pix[o:o+4]) {
				n++
			}
		}
		c.Count("pixels_recoloured", n)
		c.Count("pixels_compared", len(rb.Pix)/4)
		c.Key("a%d-n%d-%s-%v-%v", int(math.Mod(angle+3600, 360))/15, len(stops), sh.kind, s.Transparent, hidden || sheer)
	}
	r.Each("gradients", r.N(700, 12000), func(c *C) { one(c, false) })
	r.Each("large", r.N(10, 150), func(c *C) { one(c, true) })
}

// ---- C20 -------------------------------------------------------------------

// someLogo makes a logo of the given size; opaque tells whether every pixel is.
func someLogo(r *rand.Rand, w, h int) (img image.Image, kind string, opaque bool) {
	min := image.Point{}
	if r.Intn(2) == 0 {
		min = image.Pt(r.Intn(60)-30, r.Intn(60)-30)
	}
	rect := image.Rectangle{min, min.Add(image.Pt(w, h))}
	col := func() color.RGBA { return randRGBA(r) }
	opaque = true
	switch r.Intn(10) {
	case 9: // sub-images of other types
		around := image.Rect(min.X-r.Intn(4), min.Y-r.Intn(4), min.X+w+r.Intn(4), min.Y+h+r.Intn(4))
		switch r.Intn(4) {
		case 0:
			m := image.NewGray(around)
			r.Read(m.Pix)
			return m.SubImage(rect), "SubImage-Gray", true
		case 1:
			m := image.NewPaletted(around, color.Palette{col(), col(), col(), color.RGBA{}})
			for i := range m.Pix {
				m.Pix[i] = uint8(r.Intn(4))
			}
			return m.SubImage(rect), "SubImage-Paletted", false
		case 2:
			m := image.NewNRGBA(around)
			r.Read(m.Pix)
			return m.SubImage(rect), "SubImage-NRGBA", false
		}
		m := image.NewYCbCr(around, image.YCbCrSubsampleRatio444)
		r.Read(m.Y)
		r.Read(m.Cb)
		r.Read(m.Cr)
		return m.SubImage(rect), "SubImage-YCbCr", true
	case 0:
		m := image.NewRGBA(rect)
		for i := 0; i < w*h; i++ {
			m.Set(min.X+i%w, min.Y+i/w, col())
		}
		return m, "RGBA", true
	case 1:
		m := image.NewNRGBA(rect)
		for i := 0; i < w*h; i++ {
			c := col()
			m.Set(min.X+i%w, min.Y+i/w, color.NRGBA{c.R, c.G, c.B, []uint8{0, 1, 128, 254, 255, 255}[r.Intn(6)]})
		}
		return m, "NRGBA-alpha", false
	case 2:
		m := image.NewGray(rect)
		r.Read(m.Pix)
		return m, "Gray", true
	case 3:
		pal := color.Palette{col(), col(), color.RGBA{}, col()}
		m := image.NewPaletted(rect, pal)
		for i := range m.Pix {
			m.Pix[i] = uint8(r.Intn(4))
		}
		return m, "Paletted-clear", false
	case 4: // sub-image of a larger one
		big := image.NewRGBA(image.Rect(min.X-3, min.Y-5, min.X+w+4, min.Y+h+2))
		r.Read(big.Pix)
		for i := 3; i < len(big.Pix); i += 4 {
			big.Pix[i] = 255
		}
		return big.SubImage(rect), "SubImage", true
	case 5:
		m := image.NewYCbCr(rect, image.YCbCrSubsampleRatio444)
		r.Read(m.Y)
		r.Read(m.Cb)
		r.Read(m.Cr)
		return m, "YCbCr", true
	case 6: // an image type of our own
		return plainImage{rect, r.Uint32()}, "custom", true
	case 7:
		return sheerImage{plainImage{rect, r.Uint32()}}, "custom-clear", false
	}
	m := image.NewRGBA(rect) // entirely transparent
	return m, "empty", false
}

// sheerImage is one that does not say that it is not opaque.
type sheerImage struct{ plainImage }

func (p sheerImage) ColorModel() color.Model { return color.NRGBAModel }
func (p sheerImage) At(x, y int) color.Color {
	c := color.NRGBAModel.Convert(p.plainImage.At(x, y)).(color.NRGBA)
	c.A = []uint8{0, 1, 128, 254, 255}[(c.R^c.G)%5]
	return c
}

// plainImage has only the methods of image.Image.
type plainImage struct {
	r    image.Rectangle
	salt uint32
}

func (p plainImage) ColorModel() color.Model { return color.RGBAModel }
func (p plainImage) Bounds() image.Rectangle { return p.r }
func (p plainImage) At(x, y int) color.Color {
	if !image.Pt(x, y).In(p.r) {
		return color.RGBA{1, 2, 3, 255}
	}
	v := p.salt + uint32(x)*2654435761 + uint32(y)*40503
	v ^= v >> 13
	return color.RGBA{uint8(v), uint8(v >> 8), uint8(v >> 16), 255}
}

func runC20(r *R) {
	r.Each("edited", r.N(60, 900), func(c *C) {
		edited(c, func(i image.Image) standard.ImageOption { return standard.WithLogoImage(i) })
	})
	r.Each("together", r.N(200, 4000), func(c *C) { together(c, "logo") })
	one := func(c *C, big bool) {
		e, q, g, ok := smallSym(c, 7)
		if !ok {
			return
		}
		s := someStyle(c.Rng, len(g), 2, 60000)
		if big {
			s.BW = bigBW(c.Rng, len(g), 1)
		}
		w, h := s.size(len(g))
		mult := 5
		var opts []standard.ImageOption
		if c.Rng.Intn(2) == 0 {
			mult = 1 + c.Rng.Intn(8)
			opts = append(opts, standard.WithLogoSizeMultiplier(mult))
		}
		pickLen := func(limit int) int {
			m := limit / mult
			switch c.Rng.Intn(5) {
			case 0:
				return imaxi(1, m)
			case 1:
				return imaxi(1, m+1)
			case 2:
				return imaxi(1, m-1)
			}
			return 1 + c.Rng.Intn(imaxi(1, m))
		}
		lw, lh := pickLen(w), pickLen(h)
		logo, kind, opaque := someLogo(c.Rng, lw, lh)
		fits := lw*mult <= w && lh*mult <= h
		safe := c.Rng.Intn(2) == 0
		if safe {
			opts = append(opts, standard.WithLogoSafeZone())
		}
		former := ""
		if c.Rng.Intn(4) == 0 { // a logo that is replaced at once
			fl, fk, _ := someLogo(c.Rng, 1+c.Rng.Intn(imaxi(1, w/2)), 1+c.Rng.Intn(imaxi(1, h/2)))
			opts = append(opts, standard.WithLogoImage(fl))
			former = fmt.Sprintf(" instead of %s %v", fk, fl.Bounds())
		}
		opts = append(opts, standard.WithLogoImage(logo))
		plain := s.opts()
		sh := shape{kind: "default", name: "default"}
		if !safe && c.Rng.Intn(3) == 0 && s.width() >= 4 {
			sh = someShape(c.Rng)
			plain = append(plain, sh.opt()...)
		}
		grad := false
		if c.Rng.Intn(5) == 0 {
			grad = true
		}
		stops, angle := someStops(c.Rng), someAngle(c.Rng)
		if grad {
			plain = append(plain, standard.WithFgGradient(standard.NewGradient(angle, append(gradStops{}, stops...)...)))
		}
		c.Desc("%v drawn with %v, shape %s, gradient %v, logo %s %v%s, multiplier %d, safe zone %v", e, s, sh.name, grad, kind, logo.Bounds(), former, mult, safe)
		img, _, err := render(q, append(append([]standard.ImageOption{}, plain...), opts...)...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		base, _, err := render(q, plain...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		want := image.NewRGBA(image.Rect(0, 0, w, h))
		rb := asRGBA(base)
		if rb.Rect != want.Rect {
			c.Failf("without logo the image is %v, want %dx%d", rb.Rect, w, h)
			return
		}
		copy(want.Pix, rb.Pix)
		ox, oy := (w-lw)/2, (h-lh)/2
		cleared := 0
		if fits && safe {
			b, bw := s.border4(), s.width()
			for y := range g {
				for x := range g[y] {
					px, py := b[3]+x*bw, b[0]+y*bw
					if g[y][x] && px+bw > ox && px < ox+lw && py+bw > oy && py < oy+lh {
						fillRect(want, px, py, bw, bw, s.bg())
						cleared++
					}
				}
			}
		}
		if fits {
			if s.Transparent { // the colour under fully transparent pixels has no meaning
				for o := 0; o < len(want.Pix); o += 4 {
					if want.Pix[o+3] == 0 {
						want.Pix[o], want.Pix[o+1], want.Pix[o+2] = 0, 0, 0
					}
				}
			}
			draw.Draw(want, image.Rect(ox, oy, ox+lw, oy+lh), logo, logo.Bounds().Min, draw.Over)
		}
		tol := 0
		if !opaque {
			tol = 1
		}
		if s.Transparent && !opaque {
			// partly transparent logo over a fully transparent background: only alpha counts there
			im := asRGBA(img)
			if im.Rect == want.Rect {
				for o := 0; o < len(want.Pix); o += 4 {
					if im.Pix[o+3] == want.Pix[o+3] && want.Pix[o+3] < 255 {
						copy(want.Pix[o:o+3], im.Pix[o:o+3])
					}
				}
			}
		}
		if d := diffImages(img, want, tol); d != "" {
			c.Failf("logo at (%d,%d), fits=%v, cleared modules %d: %s", ox, oy, fits, cleared, d)
			return
		}
		c.Count("pixels_compared", len(want.Pix)/4)
		c.Count("modules_cleared", cleared)
		if fits {
			c.Count("logos_drawn", 1)
		} else {
			c.Count("logos_refused", 1)
		}
		c.Key("%s-%v-%v-%d%d-%s-%v", kind, fits, safe, (w-lw)&1, (h-lh)&1, sh.kind, s.Transparent)
	}
	r.Each("logos", r.N(1500, 25000), func(c *C) { one(c, false) })
	r.Each("large", r.N(16, 200), func(c *C) { one(c, true) })
}

// ---- C21 -------------------------------------------------------------------

// edited draws with an image, paints another picture on the same image, and
// draws with it again.
func edited(c *C, with func(image.Image) standard.ImageOption, extra ...standard.ImageOption) {
	e, q, g, ok := smallSym(c, 4)
	if !ok {
		return
	}
	s := style{BW: 3 * (1 + c.Rng.Intn(4)), Borders: []int{c.Rng.Intn(9)}}
	w, _ := s.size(len(g))
	n := 1 + c.Rng.Intn(w/8+1)
	type canvas interface {
		image.Image
		Set(x, y int, c color.Color)
	}
	make1 := []func() canvas{
		func() canvas { return image.NewRGBA(image.Rect(0, 0, n, n)) }, func() canvas { return image.NewNRGBA(image.Rect(0, 0, n, n)) },
		func() canvas { return image.NewGray(image.Rect(0, 0, n, n)) }, func() canvas { return image.NewPaletted(image.Rect(0, 0, n, n), stdpalette.WebSafe) },
	}[c.Rng.Intn(4)]
	img := make1()
	var copies []canvas
	var drawn []image.Image
	for i := 0; i < 3; i++ {
		fresh := make1()
		copies = append(copies, fresh)
		one := randRGBA(c.Rng)
		one.A = 255
		kind := c.Rng.Intn(3)
		for y := 0; y < n; y++ {
			for x := 0; x < n; x++ {
				p := one
				if kind > 0 && c.Rng.Intn(2) == 0 {
					p = randRGBA(c.Rng)
				}
				img.Set(x, y, p)
				fresh.Set(x, y, img.At(x, y))
			}
		}
		c.Desc("%v drawn with %v and a %T of side %d, painted %d times", e, s, img, n, i+1)
		a, _, err := render(q, append(append(s.opts(), extra...), with(img))...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		drawn = append(drawn, a)
	}
	for i, a := range drawn {
		b, _, err := render(q, append(append(s.opts(), extra...), with(copies[i]))...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		if d := diffImages(a, asRGBA(b), 0); d != "" {
			c.Failf("the image drawn is not the one painted last: %s", d)
			return
		}
		c.Count("drawings_of_repainted_images", 1)
	}
	c.Key("edited-%T-%d", img, n%8)
}

func runC21(r *R) {
	r.Each("edited", r.N(60, 900), func(c *C) {
		edited(c, func(i image.Image) standard.ImageOption { return standard.WithHalftoneImage(i) })
	})
	r.Each("together", r.N(150, 3000), func(c *C) { together(c, "halftone") })
	one := func(c *C, big bool) {
		maxVer := 6
		if c.Index%4 == 3 { // version information, many alignment patterns
			maxVer = 40
		}
		e, q, g, ok := smallSym(c, maxVer)
		if !ok {
			return
		}
		dim := len(g)
		s := someStyle(c.Rng, dim, 3, 60000)
		exact := c.Rng.Intn(4) > 0
		if exact {
			s.BW = 3 * (1 + c.Rng.Intn(5))
			if dim > 45 {
				s.BW = 3 * (1 + c.Rng.Intn(2))
			}
		}
		if big {
			s.BW = bigBW(c.Rng, dim, 3)
			if exact = c.Rng.Intn(4) > 0; !exact {
				s.BW = bigBW(c.Rng, dim, 1)
			}
		}
		bw := s.width()
		third := bw / 3
		m, err := matrixOf(q)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		types := typesOf(m)
		// the halftone image, k pixels per ninth in each direction
		kx := 1 + c.Rng.Intn(3)
		ky := kx
		switch c.Rng.Intn(6) { // of another aspect
		case 0:
			ky = 1 + c.Rng.Intn(3)
		case 1:
			kx, ky = 4+c.Rng.Intn(13), 1
		case 2:
			kx, ky = 1, 4+c.Rng.Intn(13)
		}
		n := 3 * dim
		min := image.Point{}
		if c.Rng.Intn(2) == 0 {
			min = image.Pt(c.Rng.Intn(40)-20, c.Rng.Intn(40)-20)
		}
		rect := image.Rectangle{min, min.Add(image.Pt(n*kx, n*ky))}
		light := make([]bool, n*n)
		level := make([]uint8, n*n)
		kind := []string{"bilevel", "grey", "split", "mono"}[c.Rng.Intn(4)]
		base := uint8(c.Rng.Intn(256))
		for i := range light {
			v := uint8(c.Rng.Intn(2) * 255)
			switch kind {
			case "grey":
				v = uint8(c.Rng.Intn(256))
				if v > 50 && v < 70 && kx*ky > 1 {
					v = 61
				}
			case "split":
				v = uint8(b2i(i%n > i/n) * 255)
			case "mono":
				v = base
			}
			level[i], light[i] = v, v > 60
		}
		var src image.Image
		gray := image.NewGray(rect)
		for y := 0; y < n*ky; y++ {
			for x := 0; x < n*kx; x++ {
				gray.SetGray(min.X+x, min.Y+y, color.Gray{level[y/ky*n+x/kx]})
			}
		}
		src = gray
		if c.Rng.Intn(2) == 0 {
			rg := image.NewNRGBA(rect)
			draw.Draw(rg, rect, gray, min, draw.Src)
			src = rg
			if kx*ky == 1 && c.Rng.Intn(2) == 0 { // translucent parts count as lying on black
				kind += "-alpha"
				for i := range level {
					v, al := int(level[i]), c.Rng.Intn(256)
					if c.Rng.Intn(3) == 0 {
						al = c.Rng.Intn(2) * 255
					}
					if p := v * al / 255; p >= 55 && p <= 66 {
						al = 0
					}
					rg.SetNRGBA(min.X+i%n, min.Y+i/n, color.NRGBA{uint8(v), uint8(v), uint8(v), uint8(al)})
					light[i] = v*al/255 > 60
				}
			}
		}
		if src == image.Image(gray) { // the same picture held otherwise
			switch c.Rng.Intn(7) {
			case 0:
				m := image.NewGray16(rect)
				draw.Draw(m, rect, gray, min, draw.Src)
				for i := 1; i < len(m.Pix); i += 2 {
					m.Pix[i] = uint8(c.Rng.Intn(256)) // the low bytes
				}
				src = m
			case 1:
				m := image.NewRGBA64(rect)
				draw.Draw(m, rect, gray, min, draw.Src)
				src = m
			case 2:
				pal := make(color.Palette, 256)
				for i := range pal {
					pal[i] = color.Gray{uint8(255 - i)}
				}
				m := image.NewPaletted(rect, pal)
				for i, p := range gray.Pix {
					m.Pix[i] = 255 - p
				}
				src = m
			case 3:
				m := image.NewYCbCr(rect, image.YCbCrSubsampleRatio444)
				for y := rect.Min.Y; y < rect.Max.Y; y++ {
					for x := rect.Min.X; x < rect.Max.X; x++ {
						m.Y[m.YOffset(x, y)] = gray.GrayAt(x, y).Y
						m.Cb[m.COffset(x, y)], m.Cr[m.COffset(x, y)] = 128, 128
					}
				}
				src = m
			}
		}
		opts := append(s.opts(), standard.WithHalftoneImage(src))
		c.Desc("%v drawn with %v, halftone %s %T %v (%dx%d pixels per ninth)", e, s, kind, src, rect, kx, ky)
		img, _, err := render(q, opts...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		im := asRGBA(img)
		w, h := s.size(dim)
		if im.Rect.Dx() != w || im.Rect.Dy() != h {
			c.Failf("image is %v, want %dx%d", im.Rect, w, h)
			return
		}
		b := s.border4()
		black, white := color.RGBA{0, 0, 0, 255}, color.RGBA{255, 255, 255, 255}
		if s.Transparent {
			white = color.RGBA{}
		}
		if !exact {
			// centres of the modules keep the colour
			for y := 0; y < dim; y++ {
				for x := 0; x < dim; x++ {
					// the middle of the middle ninth, which starts at a fractional pixel
					px, py := b[3]+x*bw+int(float64(bw)/3+float64(third)/2), b[0]+y*bw+int(float64(bw)/3+float64(third)/2)
					p, want := im.RGBAAt(px, py), s.bg()
					if g[y][x] {
						want = s.fg()
					}
					if types[y][x] == qrcode.QRType_DATA && third < 3 {
						continue // too small to have a pixel of its own
					}
					if p != want && !(p.A == 0 && want.A == 0) {
						c.Failf("middle of module (x %d, y %d) is %v, want %v", x, y, p, want)
						return
					}
				}
			}
			c.Count("module_middles_compared", dim*dim)
			c.Key("mid-%d", bw)
			return
		}
		want := s.model(g)
		for y := 0; y < dim; y++ {
			for x := 0; x < dim; x++ {
				if types[y][x] != qrcode.QRType_DATA {
					continue
				}
				for i := 0; i < 9; i++ {
					if i == 4 {
						continue
					}
					col := black
					if light[(3*y+i/3)*n+3*x+i%3] {
						col = white
					}
					px, py := b[3]+x*bw+i%3*third, b[0]+y*bw+i/3*third
					fillRect(want, px, py, third, third, col)
				}
			}
		}
		// under transparency a module's dark colour would show through; the background is bare
		if d := diffImages(im, want, 0); d != "" {
			c.Failf("%s", d)
			return
		}
		c.Count("ninths_compared", 9*dim*dim)
		c.Key("v%d-bw%d-%s-k%d-%v", (dim-17)/4, bw, kind, kx*ky, s.Transparent)
	}
	r.Each("halftone", r.N(500, 9000), func(c *C) { one(c, false) })
	r.Each("large", r.N(10, 120), func(c *C) { one(c, true) })
	// any other image: at least the middles and the function modules hold
	r.Each("any-image", r.N(150, 3000), func(c *C) {
		e, q, g, ok := smallSym(c, []int{6, 6, 20}[c.Index%3])
		if !ok {
			return
		}
		dim := len(g)
		s := someStyle(c.Rng, dim, 3, 60000)
		s.BW = 3 * (1 + c.Rng.Intn(5))
		lw, lh := 1+c.Rng.Intn(150), 1+c.Rng.Intn(150)
		switch c.Rng.Intn(6) {
		case 0:
			lw, lh = 200+c.Rng.Intn(2000), 1+c.Rng.Intn(20)
		case 1:
			lw, lh = 1+c.Rng.Intn(20), 200+c.Rng.Intn(2000)
		}
		logo, kind, _ := someLogo(c.Rng, lw, lh)
		c.Desc("%v drawn with %v, halftone %s %v", e, s, kind, logo.Bounds())
		img, _, err := render(q, append(s.opts(), standard.WithHalftoneImage(logo))...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		m, err := matrixOf(q)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		types := typesOf(m)
		im, want := asRGBA(img), s.model(g)
		if im.Rect != want.Rect {
			c.Failf("image is %v, want %v", im.Rect, want.Rect)
			return
		}
		b, bw := s.border4(), s.width()
		for y := 0; y < im.Rect.Dy(); y++ {
			for x := 0; x < im.Rect.Dx(); x++ {
				mx, my := (x-b[3])/bw, (y-b[0])/bw
				in := x >= b[3] && y >= b[0] && mx < dim && my < dim
				p, v := im.RGBAAt(x, y), want.RGBAAt(x, y)
				if in && types[my][mx] == qrcode.QRType_DATA && ((x-b[3])%bw/(bw/3) != 1 || (y-b[0])%bw/(bw/3) != 1) {
					if p != (color.RGBA{0, 0, 0, 255}) && p != (color.RGBA{255, 255, 255, 255}) && !(s.Transparent && p.A == 0) {
						c.Failf("halftone pixel (x %d, y %d) is %v", x, y, p)
						return
					}
					continue
				}
				if p != v && !(p.A == 0 && v.A == 0) {
					c.Failf("pixel (x %d, y %d) of module (x %d, y %d) is %v, want %v", x, y, mx, my, p, v)
					return
				}
			}
		}
		c.Count("pixels_compared", len(im.Pix)/4)
		c.Key("any-%s-%d", kind, bw)
	})
}
