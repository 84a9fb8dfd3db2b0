package main

import (
	"fmt"
	"image"
	"image/color"
	"math"
	"math/rand"
	"sync"

	"verifharness/qrref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/shapes"
)

// shape is one of the built-in shapes with its parameters.
type shape struct {
	name, kind string
	s          standard.IShape // nil: the circle option, or the default
	circle     bool
	block      string
	param      float64 // effective parameter
}

func (s shape) opt() []standard.ImageOption {
	switch {
	case s.circle:
		return []standard.ImageOption{standard.WithCircleShape()}
	case s.s != nil:
		return []standard.ImageOption{standard.WithCustomShape(s.s)}
	}
	return nil
}

type drawFn = func(ctx *standard.DrawContext)

var blockNames = []string{"liquid", "hstripe", "vstripe", "chain", "vchain", "hchain", "square", "circle"}
var finderNames = []string{"rounded", "square"}

func blockFn(name string, p float64) drawFn {
	switch name {
	case "liquid":
		return shapes.LiquidBlock()
	case "hstripe":
		return shapes.HStripeBlock(p)
	case "vstripe":
		return shapes.VStripeBlock(p)
	case "chain":
		return shapes.ChainBlock()
	case "vchain":
		return shapes.VChainBlock()
	case "hchain":
		return shapes.HChainBlock()
	case "square":
		return shapes.SquareBlocks(p)
	default:
		return shapes.CircleBlocks(p)
	}
}

func finderFn(name string) drawFn {
	if name == "rounded" {
		return shapes.RoundedFinder()
	}
	return shapes.SquareFinder()
}

// effective is the documented meaning of a size or ratio parameter.
func effective(block string, p float64) float64 {
	switch block {
	case "hstripe", "vstripe":
		if p < 0.6 || p > 1 {
			return 0.85
		}
	case "square", "circle":
		if p < 0.1 || p > 1 {
			return 1
		}
	}
	return p
}

func mkShape(block, finder string, p float64) shape {
	return shape{name: fmt.Sprintf("%s(%.3f)+%s", block, p, finder), kind: block + "+" + finder,
		s: shapes.Assemble(finderFn(finder), blockFn(block, p)), block: block, param: effective(block, p)}
}

func someParam(r *rand.Rand, block string) float64 {
	if block == "hstripe" || block == "vstripe" {
		return []float64{0.6, 0.7, 0.85, 0.95, 1, 0.59, 1.01, 0, -1, 0.6 + 0.4*r.Float64()}[r.Intn(10)]
	}
	return []float64{1, 0.9, 0.75, 0.5, 1.2, 0, -3, 0.5 + 0.5*r.Float64()}[r.Intn(8)]
}

func someShape(r *rand.Rand) shape {
	if r.Intn(9) == 0 {
		return shape{name: "circle option", kind: "circle-option", circle: true, block: "circle-option", param: 1}
	}
	b := blockNames[r.Intn(len(blockNames))]
	return mkShape(b, finderNames[r.Intn(2)], someParam(r, b))
}

// ---- C22 -------------------------------------------------------------------

func runC22(r *R) {
	combos := len(blockNames)*len(finderNames) + 1
	r.Each("centres", combos*r.N(26, 400), func(c *C) {
		_, q, g, ok := smallSym(c, 8)
		if !ok {
			return
		}
		k := c.Index % combos
		var sh shape
		if k == combos-1 {
			sh = shape{name: "circle option", kind: "circle-option", circle: true, block: "circle-option", param: 1}
		} else {
			b := blockNames[k/2]
			sh = mkShape(b, finderNames[k%2], someParam(c.Rng, b))
		}
		s := someStyle(c.Rng, len(g), 4, 120000)
		if len(g) == 21 && c.Rng.Intn(8) == 0 { // wide blocks
			s.BW = 60 + c.Rng.Intn(196)
		}
		for (sh.block == "square" || sh.block == "circle") && sh.param*float64(s.width()) < 4 {
			s.BW = s.width() + 4
		}
		if (sh.block == "hstripe" || sh.block == "vstripe") && sh.param*float64(s.width()) < 3 {
			s.BW = s.width() + 2 // the round ends of a single module would cut into the centre pixels
		}
		c.Desc("%s with %v, version %d", sh.name, s, (len(g)-17)/4)
		img, _, err := render(q, append(s.opts(), sh.opt()...)...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		im := asRGBA(img)
		w, h := s.size(len(g))
		if im.Rect.Dx() != w || im.Rect.Dy() != h {
			c.Failf("image is %v, want %dx%d", im.Rect, w, h)
			return
		}
		b, bw, fg, bg := s.border4(), s.width(), s.fg(), s.bg()
		clean := func(p color.RGBA) bool { return p == bg || p.A == 0 && bg.A == 0 }
		for y := range g {
			for x := range g[y] {
				for _, o := range centre(bw) {
					p := im.RGBAAt(b[3]+x*bw+o[0], b[0]+y*bw+o[1])
					if g[y][x] && p != fg || !g[y][x] && !clean(p) {
						c.Failf("centre of module (x %d, y %d), dark=%v, is %v", x, y, g[y][x], p)
						return
					}
				}
			}
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				if x < b[3] || y < b[0] || x >= w-b[1] || y >= h-b[2] {
					if p := im.RGBAAt(x, y); !clean(p) {
						c.Failf("border pixel (x %d, y %d) is %v", x, y, p)
						return
					}
				}
			}
		}
		c.Count("centres_compared", len(g)*len(g))
		c.Key("%s-bw%d-v%d", sh.kind, imini(bw, 16), (len(g)-17)/4)
	})
	// connections: between two dark modules a connecting style leaves no gap on its axis
	r.Each("connections", r.N(200, 4000), func(c *C) {
		_, q, g, ok := smallSym(c, 5)
		if !ok {
			return
		}
		m, err := matrixOf(q)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		types := typesOf(m)
		block := []string{"liquid", "hstripe", "vstripe", "chain", "vchain", "hchain"}[c.Index%6]
		sh := mkShape(block, finderNames[c.Index/6%2], someParam(c.Rng, block))
		s := style{BW: 20 + 2*c.Rng.Intn(4), Borders: []int{c.Rng.Intn(9)}}
		if len(g) == 21 && c.Index/12%2 == 0 {
			s.BW = 30 + 2*c.Rng.Intn(113)
		}
		c.Desc("%s with %v, version %d", sh.name, s, (len(g)-17)/4)
		img, _, err := render(q, append(s.opts(), sh.opt()...)...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		im := asRGBA(img)
		b, bw := s.border4()[0], s.width()
		horiz := block == "liquid" || block == "hstripe" || block == "chain" || block == "hchain"
		vert := block == "liquid" || block == "vstripe" || block == "chain" || block == "vchain"
		d := len(g)
		dark := func(x, y int) bool { return g[y][x] && types[y][x] != qrcode.QRType_FINDER }
		n := 0
		for y := 0; y < d; y++ {
			for x := 0; x < d; x++ {
				if horiz && x+1 < d && dark(x, y) && dark(x+1, y) {
					for k := 0; k <= bw; k++ {
						px, py := b+x*bw+bw/2+k, b+y*bw+bw/2
						if im.RGBAAt(px, py) != s.fg() {
							c.Failf("gap at (x %d, y %d) between modules (%d,%d) and (%d,%d)", px, py, x, y, x+1, y)
							return
						}
					}
					n++
				}
				if vert && y+1 < d && dark(x, y) && dark(x, y+1) {
					for k := 0; k <= bw; k++ {
						px, py := b+x*bw+bw/2, b+y*bw+bw/2+k
						if im.RGBAAt(px, py) != s.fg() {
							c.Failf("gap at (x %d, y %d) between modules (%d,%d) and (%d,%d)", px, py, x, y, x, y+1)
							return
						}
					}
					n++
				}
			}
		}
		c.Count("connections_followed", n)
		c.Key("conn-%s", sh.kind)
	})
	// finder styles: the square one fills its modules, the rounded one leaves the
	// corners of the frame and of the core and nothing else
	r.Each("finders", r.N(120, 2000), func(c *C) {
		_, q, g, ok := smallSym(c, 6)
		if !ok {
			return
		}
		fin := finderNames[c.Index%2]
		sh := mkShape(blockNames[c.Rng.Intn(len(blockNames))], fin, 1)
		s := style{BW: 8 + c.Rng.Intn(22), Borders: []int{c.Rng.Intn(9)}}
		if len(g) == 21 && c.Index/2%2 == 0 {
			s.BW = 30 + c.Rng.Intn(226)
		}
		c.Desc("%s with %v, version %d", sh.name, s, (len(g)-17)/4)
		img, _, err := render(q, append(s.opts(), sh.opt()...)...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		im := asRGBA(img)
		bw, b, d := s.width(), s.border4()[0], len(g)
		for _, o := range [][2]int{{0, 0}, {d - 7, 0}, {0, d - 7}} {
			for y := 0; y < 7; y++ {
				for x := 0; x < 7; x++ {
					px, py := b+(o[0]+x)*bw, b+(o[1]+y)*bw
					dark := g[o[1]+y][o[0]+x]
					full := 0
					for j := 0; j < bw; j++ {
						for i := 0; i < bw; i++ {
							full += 255 - int(im.RGBAAt(px+i, py+j).R)
						}
					}
					share := float64(full) / 255 / float64(bw*bw)
					corner := (x == 0 || x == 6 || x == 2 || x == 4) && (x == y || x+y == 6)
					switch {
					case fin == "square" || !corner && dark && x != 2 && x != 3 && x != 4:
						if dark != (share > 0.999) || !dark && share > 0 {
							c.Failf("module (x %d, y %d) of the finder at (x %d, y %d), dark=%v, is covered to %.3f", x, y, o[0], o[1], dark, share)
							return
						}
					case corner:
						cx, cy := px, py
						if x > 3 {
							cx += bw - 1
						}
						if y > 3 {
							cy += bw - 1
						}
						if im.RGBAAt(cx, cy).R < 200 || share < 0.5 {
							c.Failf("the corner module (x %d, y %d) of the finder at (x %d, y %d) is not rounded: covered to %.3f, its corner is %v", x, y, o[0], o[1], share, im.RGBAAt(cx, cy))
							return
						}
					}
					c.Count("finder_modules_measured", 1)
				}
			}
		}
		c.Key("finder-%s-%d", sh.kind, bw)
	})
	// size parameters: measured extent of the dark run through a module
	r.Each("sizes", r.N(400, 8000), func(c *C) {
		_, q, g, ok := smallSym(c, 4)
		if !ok {
			return
		}
		m, err := matrixOf(q)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		types := typesOf(m)
		block := []string{"square", "circle", "hstripe", "vstripe", "circle-option"}[c.Index%5]
		p := 0.1 + 0.9*c.Rng.Float64()
		if block == "hstripe" || block == "vstripe" {
			p = 0.6 + 0.4*c.Rng.Float64()
		}
		if c.Rng.Intn(4) == 0 {
			p = []float64{0, -1, 1.5, 0.05, math.Inf(1), 1, 0.6, 0.1}[c.Rng.Intn(8)]
		}
		var sh shape
		s := style{BW: 24 + c.Rng.Intn(24), Borders: []int{0}}
		if len(g) == 21 && c.Rng.Intn(3) == 0 {
			s.BW = 60 + c.Rng.Intn(196)
		}
		if block == "circle-option" {
			sh = shape{name: "circle option", kind: "circle-option", circle: true, block: "circle-option", param: float64(s.BW/2*2) / float64(s.BW)}
			block = "circle"
		} else {
			sh = mkShape(block, "square", p)
		}
		c.Desc("%s with %v, version %d", sh.name, s, (len(g)-17)/4)
		img, _, err := render(q, append(s.opts(), sh.opt()...)...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		im := asRGBA(img)
		bw, d := s.width(), len(g)
		want := sh.param * float64(bw)
		n := 0
		for y := 0; y < d; y++ {
			for x := 0; x < d; x++ {
				if !g[y][x] || types[y][x] == qrcode.QRType_FINDER {
					continue
				}
				// extent across: vertically for horizontal stripes, else horizontally
				acc := 0.0
				for k := 0; k < bw; k++ {
					px, py := x*bw+k, y*bw+bw/2
					if block == "hstripe" {
						px, py = x*bw+bw/2, y*bw+k
					}
					acc += float64(255-im.RGBAAt(px, py).R) / 255
				}
				if math.Abs(acc-want) > 1.01 {
					c.Failf("module (x %d, y %d) is %.2f pixels across, want %.2f", x, y, acc, want)
					return
				}
				n++
				// and along the other axis for the isolated dots
				if block == "square" || block == "circle" {
					acc = 0
					for k := 0; k < bw; k++ {
						acc += float64(255-im.RGBAAt(x*bw+bw/2, y*bw+k).R) / 255
					}
					if math.Abs(acc-want) > 1.01 {
						c.Failf("module (x %d, y %d) is %.2f pixels high, want %.2f", x, y, acc, want)
						return
					}
				}
				// the area tells squares from circles
				if n%7 == 0 && (block == "square" || block == "circle") && want > 8 {
					area := 0.0
					for j := 0; j < bw; j++ {
						for k := 0; k < bw; k++ {
							area += float64(255-im.RGBAAt(x*bw+k, y*bw+j).R) / 255
						}
					}
					wa := want * want
					if block == "circle" {
						wa *= math.Pi / 4
					}
					if math.Abs(area-wa) > wa*0.08+2 {
						c.Failf("module (x %d, y %d) covers %.1f pixels, want %.1f", x, y, area, wa)
						return
					}
				}
			}
		}
		c.Count("modules_measured", n)
		c.Key("size-%s-%d", sh.block, int(sh.param*10))
	})
}

// centre lists the pixel offsets at the middle of a cell.
func centre(bw int) [][2]int {
	if bw%2 == 1 {
		return [][2]int{{bw / 2, bw / 2}}
	}
	a, b := bw/2-1, bw/2
	return [][2]int{{a, a}, {a, b}, {b, a}, {b, b}}
}

// ---- C23 -------------------------------------------------------------------

type shapeCall struct {
	finder bool
	x, y   float64
	w, h   int
	col    color.Color
	nb     uint16
}

// recShape records its calls and draws plain squares.
type recShape struct {
	mu    sync.Mutex
	calls []shapeCall
}

func (s *recShape) rec(ctx *standard.DrawContext, finder bool) {
	x, y := ctx.UpperLeft()
	w, h := ctx.Edge()
	s.mu.Lock()
	s.calls = append(s.calls, shapeCall{finder, x, y, w, h, ctx.Color(), ctx.Neighbours()})
	s.mu.Unlock()
	ctx.DrawRectangle(x, y, float64(w), float64(h))
	ctx.SetColor(ctx.Color())
	ctx.Fill()
}
func (s *recShape) Draw(ctx *standard.DrawContext)       { s.rec(ctx, false) }
func (s *recShape) DrawFinder(ctx *standard.DrawContext) { s.rec(ctx, true) }

func runC23(r *R) {
	check := func(c *C, e Enc, q *qrcode.QRCode, g qrref.Grid, s style, pair bool) {
		dim := len(g)
		w, h := s.size(dim)
		opts := s.opts()
		skip := func(x, y int) bool { return false }
		mode := "plain"
		b, bw := s.border4(), s.width()
		if c.Rng.Intn(2) == 0 {
			mult := 1 + c.Rng.Intn(5)
			lw, lh := 1+c.Rng.Intn(imaxi(1, w/mult)), 1+c.Rng.Intn(imaxi(1, h/mult))
			opts = append(opts, standard.WithLogoImage(image.NewUniform(color.Black)), standard.WithLogoImage(plainImage{image.Rect(0, 0, lw, lh), 7}),
				standard.WithLogoSizeMultiplier(mult))
			mode = "logo"
			if c.Rng.Intn(4) > 0 {
				mode = "safe"
				opts = append(opts, standard.WithLogoSafeZone())
				if lw*mult <= w && lh*mult <= h {
					ox, oy := (w-lw)/2, (h-lh)/2
					skip = func(x, y int) bool {
						px, py := b[3]+x*bw, b[0]+y*bw
						return px+bw > ox && px < ox+lw && py+bw > oy && py < oy+lh
					}
				}
			}
		}
		half := c.Rng.Intn(4) == 0
		if half {
			img, _, _ := someLogo(c.Rng, 1+c.Rng.Intn(60), 1+c.Rng.Intn(60))
			opts = append(opts, standard.WithHalftoneImage(img))
			mode += "-halftone"
		}
		if c.Rng.Intn(6) == 0 && s.fg() != s.bg() { // the shape is told the foreground, which the gradient replaces afterwards
			opts = append(opts, standard.WithFgGradient(standard.NewGradient(someAngle(c.Rng), someStops(c.Rng)...)))
			mode += "-gradient"
		}
		m, err := matrixOf(q)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		// the calls a module of this place gets: one, or nine under a halftone image
		ninths := make([][]bool, dim)
		for y := range ninths {
			ninths[y] = make([]bool, dim)
			for x, v := range m.Row(y) {
				ninths[y][x] = half && v.Type() == qrcode.QRType_DATA
			}
		}
		rec := &recShape{}
		if pair { // through the composing constructor
			opts = append(opts, standard.WithCustomShape(shapes.Assemble(rec.DrawFinder, rec.Draw)))
		} else {
			opts = append(opts, standard.WithCustomShape(rec))
		}
		c.Desc("%v drawn with %v, %s, composed %v", e, s, mode, pair)
		if _, _, err := render(q, opts...); err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		l := qrref.LayoutOf((dim - 17) / 4)
		set := func(x, y int) bool {
			return x >= 0 && y >= 0 && x < dim && y < dim && g[y][x] && !skip(x, y)
		}
		calls := map[[2]int]int{}
		parts := map[[4]int]int{}
		for _, k := range rec.calls {
			x, y := (int(k.x+1e-6)-b[3])/bw, (int(k.y+1e-6)-b[0])/bw
			if x >= 0 && y >= 0 && x < dim && y < dim && ninths[y][x] {
				at := fmt.Sprintf("module (x %d, y %d), dark=%v, under the halftone image", x, y, g[y][x])
				n := calls[[2]int{x, y}]
				calls[[2]int{x, y}]++
				seen := [2]int{int(math.Round((k.x - float64(b[3]+x*bw)) * 3 / float64(bw))), int(math.Round((k.y - float64(b[0]+y*bw)) * 3 / float64(bw)))}
				if n > 8 || math.Abs(float64(b[3]+x*bw)+float64(seen[0]*bw)/3-k.x) > 1e-6 || math.Abs(float64(b[0]+y*bw)+float64(seen[1]*bw)/3-k.y) > 1e-6 || k.w != bw/3 || k.h != bw/3 || k.finder {
					c.Failf("%s: draw call %d at (%v,%v) of %dx%d, finder %v", at, n+1, k.x, k.y, k.w, k.h, k.finder)
					return
				}
				parts[[4]int{x, y, seen[0], seen[1]}]++
				if parts[[4]int{x, y, seen[0], seen[1]}] > 1 {
					c.Failf("%s: ninth %v is drawn twice", at, seen)
					return
				}
				want := s.bg()
				if g[y][x] {
					want = s.fg()
				}
				if got := color.RGBAModel.Convert(k.col).(color.RGBA); seen == [2]int{1, 1} && got != want && !(got.A == 0 && want.A == 0) {
					c.Failf("%s: its centre is given colour %v, want %v", at, got, want)
					return
				}
				continue
			}
			if float64(b[3]+x*bw) != k.x || float64(b[0]+y*bw) != k.y || x < 0 || y < 0 || x >= dim || y >= dim {
				c.Failf("draw call at (%v,%v), which is no module's corner", k.x, k.y)
				return
			}
			at := fmt.Sprintf("module (x %d, y %d), dark=%v", x, y, g[y][x])
			if calls[[2]int{x, y}]++; calls[[2]int{x, y}] > 1 {
				c.Failf("%s is drawn twice", at)
				return
			}
			if k.w != bw || k.h != bw {
				c.Failf("%s has edges %d,%d, want %d", at, k.w, k.h, bw)
				return
			}
			if fin := l.Reg[y][x] == qrref.RFinder; fin != k.finder {
				c.Failf("%s: finder=%v, drawn through the finder method: %v", at, fin, k.finder)
				return
			}
			want := s.bg()
			if g[y][x] {
				want = s.fg()
			}
			got := color.RGBAModel.Convert(k.col).(color.RGBA)
			if got != want && !(got.A == 0 && want.A == 0) {
				c.Failf("%s is given colour %v, want %v", at, got, want)
				return
			}
			var nb uint16
			bits := []uint16{standard.NTopLeft, standard.NTop, standard.NTopRight, standard.NLeft, standard.NSelf, standard.NRight, standard.NBotLeft, standard.NBot, standard.NBotRight}
			for i, bit := range bits {
				if set(x+i%3-1, y+i/3-1) {
					nb |= bit
				}
			}
			if k.nb != nb {
				c.Failf("%s is given neighbours %09b, want %09b", at, k.nb, nb)
				return
			}
		}
		cleared := 0
		for y := 0; y < dim; y++ {
			for x := 0; x < dim; x++ {
				gone := g[y][x] && skip(x, y)
				if gone {
					cleared++
				}
				want := 1
				if ninths[y][x] {
					want = 9
				}
				if gone {
					want = 0
				}
				if calls[[2]int{x, y}] != want {
					c.Failf("module (x %d, y %d), dark=%v, in the safe zone %v, is drawn %d times", x, y, g[y][x], skip(x, y), calls[[2]int{x, y}])
					return
				}
			}
		}
		c.Count("draw_calls_checked", len(rec.calls))
		c.Count("modules_in_safe_zones", cleared)
		c.Key("v%d-%s-b%d-%v", (dim-17)/4, mode, borderKind(s), cleared > 0)
	}
	r.Each("calls", r.N(500, 8000), func(c *C) {
		if e, q, g, ok := smallSym(c, 9); ok {
			s := someStyle(c.Rng, len(g), 1, 90000)
			if c.Index%60 == 30 {
				s.BW = bigBW(c.Rng, len(g), 1)
			}
			check(c, e, q, g, s, c.Rng.Intn(3) == 0)
		}
	})
	r.Each("versions", 40*r.N(1, 10), func(c *C) {
		e := Enc{Lv: c.Rng.Intn(4), Ver: c.Index%40 + 1, Raw: []byte("custom shape")}
		if c.Index%40 == 0 {
			e.Raw = e.Raw[:5]
		}
		c.Desc("%v", e)
		if q, g, ok := encodeOK(c, e); ok {
			check(c, e, q, g, someStyle(c.Rng, len(g), 1, 200000), false)
		}
	})
	_ = math.Pi
}
