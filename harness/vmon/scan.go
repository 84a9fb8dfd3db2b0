package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	_ "image/jpeg"
	_ "image/png"
	"math/rand"
	"os"
	"strings"

	"verifharness/qrref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
)

func init() {
	register(&Prop{ID: "C36", Run: runC36, Assume: []string{assumeRef, "foregrounds of luma up to 90 on backgrounds of luma from 180, plain blocks of at least 1 pixel (3 as JPEG), shaped blocks of 8 and halftone blocks of 9 (12 and 15 as JPEG), logos that hide no more codewords than each block can correct"},
		Rule: "symbols of all versions are drawn by the image, compressed and text writers with random options; a scanner that is told nothing locates the symbol in the picture, finds its version by the function patterns, samples the middle of each module, corrects errors and has to read the text. Distinct by (writer, format, shape, gradient, halftone, logo, transparent, version class)."})
}

// lumaOver is the luma of a pixel shown on white.
func lumaOver(img image.Image) (l [][]uint8) {
	b := img.Bounds()
	im := asRGBA(img)
	l = make([][]uint8, b.Dy())
	for y := range l {
		l[y] = make([]uint8, b.Dx())
		for x := range l[y] {
			o := y*im.Stride + 4*x
			k := 255 - int(im.Pix[o+3])
			v := 299*imini(255, int(im.Pix[o])+k) + 587*imini(255, int(im.Pix[o+1])+k) + 114*imini(255, int(im.Pix[o+2])+k)
			l[y][x] = uint8(v / 1000)
		}
	}
	return
}

// scan reads a symbol off a picture that holds one upright symbol.
func scan(img image.Image) (a *qrref.Analysis, why string) {
	const dark = 135
	l := lumaOver(img)
	x0, y0, x1, y1 := 1<<30, 1<<30, -1, -1
	for y := range l {
		for x, v := range l[y] {
			if v < dark {
				x0, y0, x1, y1 = imini(x0, x), imini(y0, y), imaxi(x1, x), imaxi(y1, y)
			}
		}
	}
	if x1 < 0 {
		return nil, "nothing dark in the picture"
	}
	w, h := float64(x1-x0+1), float64(y1-y0+1)
	sample := func(dim int) qrref.Grid {
		cw, ch := w/float64(dim), h/float64(dim)
		r := imaxi(0, int(cw/6-1.5)) // well inside the middle third
		g := make(qrref.Grid, dim)
		for i := range g {
			g[i] = make([]bool, dim)
			cy := float64(y0) + (float64(i)+0.5)*ch
			for j := range g[i] {
				cx := float64(x0) + (float64(j)+0.5)*cw
				n, sum := 0, 0
				for y := int(cy-0.25) - r; y <= int(cy+0.25)+r; y++ {
					for x := int(cx-0.25) - r; x <= int(cx+0.25)+r; x++ {
						if y >= y0 && y <= y1 && x >= x0 && x <= x1 {
							sum += int(l[y][x])
							n++
						}
					}
				}
				g[i][j] = n > 0 && sum < dark*n
			}
		}
		return g
	}
	var best qrref.Grid
	least := 2.0
	for ver := 1; ver <= 40; ver++ {
		lay := qrref.LayoutOf(ver)
		if lay.Dim > int(w) {
			break
		}
		g := sample(lay.Dim)
		bad, n := 0, 0
		for y := range g {
			for x := range g[y] {
				switch lay.Reg[y][x] {
				case qrref.RFinder, qrref.RSeparator, qrref.RTiming:
					n++
					if g[y][x] != lay.Dark[y][x] {
						bad++
					}
				}
			}
		}
		if s := float64(bad) / float64(n); s < least {
			least, best = s, g
		}
	}
	if best == nil {
		return nil, fmt.Sprintf("the dark part is only %v by %v pixels", w, h)
	}
	if least > 0.1 {
		return nil, fmt.Sprintf("no version's finder and timing patterns are seen (the best differs in %.0f%%)", 100*least)
	}
	a = qrref.Analyze(best)
	if a.Unreadable {
		return a, a.Why
	}
	return a, ""
}

// hides tells whether a reader can do without the modules in a rectangle.
func hides(e Enc, ver, lv int, in func(x, y int) bool) bool {
	l := qrref.LayoutOf(ver)
	bad := make([]bool, qrref.TotalCodewords(ver))
	for i, p := range l.Order {
		if i/8 < len(bad) && in(p%l.Dim, p/l.Dim) {
			bad[i/8] = true
		}
	}
	for _, idx := range interleaveIndex(ver, lv) {
		n := 0
		for _, k := range idx {
			n += b2i(bad[k])
		}
		if n > qrref.ECPerBlock(ver, lv)/2 {
			return true
		}
	}
	for y := range l.Reg {
		for x := range l.Reg[y] {
			switch l.Reg[y][x] {
			case qrref.RFinder, qrref.RSeparator, qrref.RFormat, qrref.RTiming:
				if in(x, y) {
					return true
				}
			}
		}
	}
	return false
}

func lumaOf(c color.RGBA) int { return (299*int(c.R) + 587*int(c.G) + 114*int(c.B)) / 1000 }

func darkRGBA(r *rand.Rand) color.RGBA {
	for {
		if c := randRGBA(r); lumaOf(c) <= 90 {
			return c
		}
	}
}

func lightRGBA(r *rand.Rand) color.RGBA {
	for {
		if c := randRGBA(r); lumaOf(c) >= 180 {
			return c
		}
	}
}

func runC36(r *R) {
	read := func(c *C, e Enc, what string, a *qrref.Analysis, why string) bool {
		if why != "" {
			c.Failf("%s: %s", what, why)
			return false
		}
		if !bytes.Equal(a.Payload, e.Raw) {
			c.Failf("%s: reads %s (version %d)", what, quoteClip(a.Payload, 200), a.Ver)
			return false
		}
		c.Count("pictures_scanned", 1)
		c.Count("codewords_corrected", a.Corrected)
		return true
	}
	std := func(c *C, e Enc, q *qrcode.QRCode, g qrref.Grid, lv int) {
		dim := len(g)
		ver := (dim - 17) / 4
		var opts []standard.ImageOption
		var ds []string
		add := func(d string, o ...standard.ImageOption) {
			opts = append(opts, o...)
			ds = append(ds, d)
		}
		asJPEG := c.Rng.Intn(2) == 0
		format := standard.WithBuiltinImageEncoder(standard.PNG_FORMAT)
		kind := "png"
		if asJPEG {
			format, kind = standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT), "jpeg"
		}
		add(kind, format)
		shaped, halftone := c.Rng.Intn(2) == 0, c.Rng.Intn(4) == 0
		least := 1
		switch {
		case halftone:
			shaped = false
			least = 9
			if asJPEG {
				least = 15
			}
		case shaped:
			least = 8
			if asJPEG {
				least = 12
			}
		case asJPEG:
			least = 3
		}
		bw := least + c.Rng.Intn(imaxi(1, imini(24, 600/dim-least)))
		add(fmt.Sprintf("block %d", bw), standard.WithQRWidth(uint8(bw)))
		var b [4]int
		for i := range b {
			b[i] = c.Rng.Intn(4*bw + 1)
		}
		add(fmt.Sprintf("borders %v", b), standard.WithBorderWidth(b[0], b[1], b[2], b[3]))
		shapeKind := "default"
		if shaped {
			sh := someShape(c.Rng)
			shapeKind = sh.kind
			add(sh.name, sh.opt()...)
		}
		if c.Rng.Intn(2) == 0 {
			col := darkRGBA(c.Rng)
			add(fmt.Sprintf("fg %v", col), standard.WithFgColor(col))
		}
		if c.Rng.Intn(2) == 0 {
			col := lightRGBA(c.Rng)
			add(fmt.Sprintf("bg %v", col), standard.WithBgColor(col))
		}
		transparent := c.Rng.Intn(4) == 0
		if transparent {
			add("transparent", standard.WithBgTransparent())
		}
		gradient := c.Rng.Intn(3) == 0
		if gradient {
			st := someStops(c.Rng)
			for i := range st {
				st[i].Color = darkRGBA(c.Rng)
			}
			ang := someAngle(c.Rng)
			add(fmt.Sprintf("gradient %v %v", ang, st), standard.WithFgGradient(standard.NewGradient(ang, st...)))
		}
		if halftone {
			img, _, _ := someLogo(c.Rng, 1+c.Rng.Intn(120), 1+c.Rng.Intn(120))
			add("halftone", standard.WithHalftoneImage(img))
		}
		w, h := dim*bw+b[1]+b[3], dim*bw+b[0]+b[2]
		logo := c.Rng.Intn(2) == 0
		if logo {
			f := 2 + 8*c.Rng.Float64()
			lw, lh := int(float64(w)/f), int(float64(h)/f)
			if c.Rng.Intn(3) == 0 {
				lw = 1 + c.Rng.Intn(w/2)
			}
			for {
				x0, y0 := (w-lw)/2-1, (h-lh)/2-1
				in := func(x, y int) bool {
					px, py := b[3]+x*bw, b[0]+y*bw
					return px < x0+lw+2 && px+bw > x0 && py < y0+lh+2 && py+bw > y0
				}
				if lw < 1 || lh < 1 {
					logo = false
					break
				}
				if x0 > b[3] && y0 > b[0] && x0+lw+2 < b[3]+dim*bw && y0+lh+2 < b[0]+dim*bw && !hides(e, ver, lv, in) {
					break
				}
				lw, lh = lw*9/10, lh*9/10
			}
			if logo {
				img, k, _ := someLogo(c.Rng, lw, lh)
				m := imini(w/lw, h/lh)
				add(fmt.Sprintf("logo %s %dx%d, 1/%d", k, lw, lh, m), standard.WithLogoImage(img), standard.WithLogoSizeMultiplier(m))
				if c.Rng.Intn(2) == 0 {
					add("safe zone", standard.WithLogoSafeZone())
				}
				c.Count("logos_drawn", 1)
			}
		}
		c.Rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		c.Desc("%v, version %d, drawn with %s", e, ver, strings.Join(ds, ", "))
		var out sink
		if err := q.Save(standard.NewWithWriter(&out, opts...)); err != nil {
			c.Failf("saving failed: %v", err)
			return
		}
		img, f, err := image.Decode(bytes.NewReader(out.Bytes()))
		if err != nil || f != kind {
			c.Failf("the %s is no picture: %q %v", kind, f, err)
			return
		}
		a, why := scan(img)
		if read(c, e, "the image writer's "+kind, a, why) {
			c.Key("%s-%s-%v-%v-%v-%v-%d", kind, shapeKind, gradient, halftone, logo, transparent, imini(ver, 8))
		}
	}
	compress := func(c *C, e Enc, q *qrcode.QRCode, g qrref.Grid) {
		o := &compressed.Option{Padding: 1 + c.Rng.Intn(20), BlockSize: 1 + c.Rng.Intn(8)}
		c.Desc("%v, compressed with %+v", e, *o)
		var out sink
		if err := q.Save(compressed.NewWithWriter(&out, o)); err != nil {
			c.Failf("saving failed: %v", err)
			return
		}
		img, _, err := image.Decode(bytes.NewReader(out.Bytes()))
		if err != nil {
			c.Failf("no picture: %v", err)
			return
		}
		a, why := scan(img)
		if read(c, e, "the compressed writer's PNG", a, why) {
			c.Key("compressed-%d-%d", o.BlockSize, imini(len(g), 60)/8)
		}
	}
	text := func(c *C, e Enc, q *qrcode.QRCode, g qrref.Grid) {
		c.Desc("%v, as text", e)
		f, err := os.CreateTemp(r.Scratch, "scan")
		die(err)
		defer os.Remove(f.Name())
		defer f.Close()
		if err := q.Save(file.New(f)); err != nil {
			c.Failf("saving failed: %v", err)
			return
		}
		b, err := os.ReadFile(f.Name())
		die(err)
		tg, why := parseText(b)
		if why != "" {
			c.Failf("text: %s", why)
			return
		}
		a := qrref.Analyze(tg)
		if read(c, e, "the text", a, a.Why) {
			c.Key("text-%d", imini(len(g), 60)/8)
		}
	}
	// one symbol saved several times, by several writers in any order
	r.Each("scans", r.N(300, 15000), func(c *C) {
		max := []int{3, 3, 8, 8, 14, 40}[c.Rng.Intn(6)]
		e, q, g, ok := smallSym(c, max)
		if !ok {
			return
		}
		for k := 1 + c.Rng.Intn(3); k > 0; k-- {
			switch c.Rng.Intn(6) {
			case 0:
				compress(c, e, q, g)
			case 1:
				text(c, e, q, g)
			default:
				std(c, e, q, g, e.Lv)
			}
		}
	})
	// large pictures
	r.Each("large", r.N(3, 80), func(c *C) {
		lv := c.Rng.Intn(4)
		ver := 18 + c.Rng.Intn(23)
		m := allModes[c.Rng.Intn(4)]
		e := Enc{Lv: lv, Ver: ver, Raw: textOf(c.Rng, m, c.Rng.Intn(qrref.Capacity(ver, lv, m)+1))}
		bw := 12 + c.Rng.Intn(14)
		c.Desc("%v drawn with block %d", e, bw)
		q, _, ok := encodeOK(c, e)
		if !ok {
			return
		}
		opts := []standard.ImageOption{standard.WithQRWidth(uint8(bw))}
		if c.Rng.Intn(3) == 0 {
			opts = append(opts, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
		}
		if c.Rng.Intn(2) == 0 {
			opts = append(opts, someShape(c.Rng).opt()...)
		}
		var out sink
		if err := q.Save(standard.NewWithWriter(&out, opts...)); err != nil {
			c.Failf("saving failed: %v", err)
			return
		}
		img, _, err := image.Decode(bytes.NewReader(out.Bytes()))
		if err != nil {
			c.Failf("no picture: %v", err)
			return
		}
		a, why := scan(img)
		if read(c, e, "the image writer", a, why) {
			c.Count("large_pictures_scanned", 1)
			c.Key("large-%d", ver)
		}
	})
	// the defaults, with texts that leave everything to the library
	r.Each("defaults", r.N(80, 5000), func(c *C) {
		e := Enc{Raw: mixedText(c.Rng), Lv: -1, Type: c.Rng.Intn(4)}
		c.Desc("%v", e)
		q, g, ok := encodeOK(c, e)
		if !ok {
			return
		}
		var out sink
		if err := q.Save(standard.NewWithWriter(&out)); err != nil {
			c.Failf("saving failed: %v", err)
			return
		}
		img, _, err := image.Decode(bytes.NewReader(out.Bytes()))
		if err != nil {
			c.Failf("no picture: %v", err)
			return
		}
		a, why := scan(img)
		if read(c, e, "the image writer's default", a, why) {
			c.Key("default-%d", len(g))
		}
	})
}
