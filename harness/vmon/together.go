package main

import (
	"image"
	"image/color"
	"image/draw"
	"math/rand"

	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

// squares is a shape of our own that looks like the one that is there by default.
type squares struct{}

func (squares) Draw(ctx *standard.DrawContext) {
	x, y := ctx.UpperLeft()
	w, h := ctx.Edge()
	ctx.SetColor(ctx.Color())
	ctx.DrawRectangle(x, y, float64(w), float64(h))
	ctx.Fill()
}
func (s squares) DrawFinder(ctx *standard.DrawContext) { s.Draw(ctx) }

// together draws with several of a halftone image, a gradient, a logo and its safe
// zone at once, always with the one named, and compares with the model: modules or
// ninths first, then the gradient over what has the foreground colour, then the logo.
func together(c *C, always string) {
	r := c.Rng
	e, q, g, ok := smallSym(c, 7)
	if !ok {
		return
	}
	m, err := matrixOf(q)
	if err != nil {
		c.Failf("%v", err)
		return
	}
	types, dim := typesOf(m), len(g)
	s := someStyle(r, dim, 3, 60000)
	if s.BW = 3 * (1 + r.Intn(4)); r.Intn(60) == 0 {
		s.BW = bigBW(r, dim, 3)
	}
	n := 0
	pick := func(kind string) bool {
		p := always == kind || r.Intn(3) > 0
		n += b2i(p)
		return p
	}
	var opts []standard.ImageOption
	add := func(o ...standard.ImageOption) { opts = append(opts, o...) }
	b, bw, fg, bg := s.border4(), s.width(), s.fg(), s.bg()
	third := bw / 3
	what := ""

	// the halftone picture, a pixel or four for each ninth
	var ninth func(x, y int) bool
	if pick("halftone") {
		k := 1 + r.Intn(2)
		w := 3 * dim
		light := make([]bool, w*w)
		kind := r.Intn(4)
		for i := range light {
			light[i] = kind == 0 || kind > 1 && r.Intn(2) == 0
		}
		pic := image.NewGray(image.Rect(0, 0, w*k, w*k))
		for y := 0; y < w*k; y++ {
			for x := 0; x < w*k; x++ {
				if light[y/k*w+x/k] {
					pic.Pix[y*pic.Stride+x] = 255
				}
			}
		}
		ninth = func(x, y int) bool { return light[y*w+x] }
		add(standard.WithHalftoneImage(pic))
		what += " halftone"
	}
	var stops gradStops
	var angle float64
	if pick("gradient") {
		stops, angle = someStops(r), someAngle(r)
		add(standard.WithFgGradient(standard.NewGradient(angle, append(gradStops{}, stops...)...)))
		what += " gradient"
	}
	w, h := s.size(dim)
	var logo image.Image
	opaque, safe, fits := true, false, false
	mult, lw, lh := 5, 0, 0
	if pick("logo") {
		if r.Intn(2) == 0 {
			mult = 1 + r.Intn(5)
			add(standard.WithLogoSizeMultiplier(mult))
		}
		lw, lh = 1+r.Intn(w/mult), 1+r.Intn(h/mult)
		if r.Intn(8) == 0 {
			lw = w/mult + 1
		}
		logo, _, opaque = someLogo(r, lw, lh)
		if opaque && r.Intn(3) == 0 { // in the colours that the others use
			flat := image.NewRGBA(logo.Bounds())
			draw.Draw(flat, flat.Rect, image.NewUniform([]color.Color{fg, color.Black, color.White}[r.Intn(3)]), image.Point{}, draw.Src)
			logo = flat
		}
		fits = lw*mult <= w && lh*mult <= h
		add(standard.WithLogoImage(logo))
		if safe = r.Intn(2) == 0; safe {
			add(standard.WithLogoSafeZone())
		}
		what += " logo"
		if safe {
			what += " in a safe zone"
		}
	}
	if r.Intn(6) == 0 {
		add(standard.WithCustomShape(squares{}))
		what += " own shape"
	}
	opts = append(opts, s.opts()...)
	shuffle(r, opts, len(opts)-len(s.opts()))
	c.Desc("%v drawn with %v,%s; logo %dx%d, multiplier %d", e, s, what, lw, lh, mult)
	img, _, err := render(q, opts...)
	if err != nil {
		c.Failf("drawing failed: %v", err)
		return
	}
	ox, oy := (w-lw)/2, (h-lh)/2
	zone := func(x, y int) bool {
		px, py := b[3]+x*bw, b[0]+y*bw
		return fits && safe && px+bw > ox && px < ox+lw && py+bw > oy && py < oy+lh
	}
	want := image.NewRGBA(image.Rect(0, 0, w, h))
	fillRect(want, 0, 0, w, h, bg)
	black, white := color.RGBA{0, 0, 0, 255}, color.RGBA{255, 255, 255, 255}
	for y := range g {
		for x := range g[y] {
			if g[y][x] && zone(x, y) {
				continue
			}
			px, py := b[3]+x*bw, b[0]+y*bw
			col := bg
			if g[y][x] {
				col = fg
			}
			if ninth == nil || types[y][x] != qrcode.QRType_DATA {
				fillRect(want, px, py, bw, bw, col)
				continue
			}
			for i := 0; i < 9; i++ {
				k := col
				if i != 4 {
					if k = black; ninth(3*x+i%3, 3*y+i/3) {
						if k = white; s.Transparent {
							k = bg
						}
					}
				}
				fillRect(want, px+i%3*third, py+i/3*third, third, third, k)
			}
		}
	}
	if stops != nil {
		want = withGradient(want, fg, stops, angle, 0)
	}
	if s.Transparent { // the colour under fully transparent pixels has no meaning
		for o := 0; o < len(want.Pix); o += 4 {
			if want.Pix[o+3] == 0 {
				want.Pix[o], want.Pix[o+1], want.Pix[o+2] = 0, 0, 0
			}
		}
	}
	if fits {
		draw.Draw(want, image.Rect(ox, oy, ox+lw, oy+lh), logo, logo.Bounds().Min, draw.Over)
	}
	if s.Transparent && !opaque { // only alpha counts where the logo lies on nothing
		if im := asRGBA(img); im.Rect == want.Rect {
			for o := 0; o < len(want.Pix); o += 4 {
				if im.Pix[o+3] == want.Pix[o+3] && want.Pix[o+3] < 255 {
					copy(want.Pix[o:o+3], im.Pix[o:o+3])
				}
			}
		}
	}
	tol := 0
	if stops != nil {
		tol = 2
	}
	if !opaque {
		tol++
	}
	if d := diffImages(img, want, tol); d != "" {
		c.Failf("%s", d)
		return
	}
	c.Count("pixels_compared", len(want.Pix)/4)
	c.Count("drawings_with_several_at_once", b2i(n > 1))
	c.Key("together-%s-%v-%v-%d", what, fits, s.Transparent, imini(bw, 13))
}

// shuffle mixes the first n with each other, in places among all that keep the
// order of the rest.
func shuffle(r *rand.Rand, o []standard.ImageOption, n int) {
	own, rest := append([]standard.ImageOption{}, o[:n]...), append([]standard.ImageOption{}, o[n:]...)
	r.Shuffle(len(own), func(i, j int) { own[i], own[j] = own[j], own[i] })
	for i := range o {
		if len(rest) == 0 || len(own) > 0 && r.Intn(len(own)+len(rest)) < len(own) {
			o[i], own = own[0], own[1:]
		} else {
			o[i], rest = rest[0], rest[1:]
		}
	}
}
