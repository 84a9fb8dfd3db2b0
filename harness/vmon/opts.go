package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/yeqown/go-qrcode/writer/standard"
)

// ---- C35 -------------------------------------------------------------------

type optItem struct {
	kind string
	desc string
	dead bool // has no effect, wherever it stands
	def  bool // asks for the default
	opt  standard.ImageOption
}

func runC35(r *R) {
	files := filepath.Join(r.Scratch, "c35")
	os.MkdirAll(files, 0755)
	os.WriteFile(filepath.Join(files, "bad.png"), []byte("not an image"), 0644)
	r.Each("orders", r.N(1500, 25000), func(c *C) {
		e, q, g, ok := smallSym(c, 5)
		if !ok {
			return
		}
		dim := len(g)
		st := style{} // what the plain options amount to
		var items []optItem
		add := func(kind, desc string, o standard.ImageOption) {
			items = append(items, optItem{kind: kind, desc: desc, opt: o})
		}
		dead := func(kind, desc string, o standard.ImageOption) {
			items = append(items, optItem{kind: kind, desc: desc, opt: o, dead: true})
		}
		def := func(kind, desc string, o standard.ImageOption) {
			items = append(items, optItem{kind: kind, desc: desc, opt: o, def: true})
		}
		complexKinds := 0
		kinds := c.Rng.Perm(11)[:c.Rng.Intn(9)+1]
		for _, k := range kinds {
			reps := 1 + c.Rng.Intn(2)
			switch k {
			case 0:
				if c.Rng.Intn(3) == 0 {
					def("width", "width 0", standard.WithQRWidth(0))
				}
				for i := 0; i < reps; i++ {
					st.BW = 2 + c.Rng.Intn(8)
					add("width", fmt.Sprintf("width %d", st.BW), standard.WithQRWidth(uint8(st.BW)))
				}
				if c.Rng.Intn(5) == 0 {
					def("width", "width 0", standard.WithQRWidth(0))
					st.BW = 0
				}
			case 1:
				for i := 0; i < reps; i++ {
					b := make([]int, c.Rng.Intn(6))
					for j := range b {
						b[j] = c.Rng.Intn(30)
					}
					st.Borders = b
					add("border", fmt.Sprintf("border %v", b), standard.WithBorderWidth(b...))
				}
			case 2:
				if c.Rng.Intn(3) == 0 {
					dead("fg", "fg nil", standard.WithFgColor(nil))
				}
				for i := 0; i < reps; i++ {
					col := hexColour(c.Rng)
					if c.Rng.Intn(2) == 0 {
						v := color.RGBA{uint8(c.Rng.Intn(90)), uint8(c.Rng.Intn(90)), uint8(c.Rng.Intn(90)), 255}
						col = colour{kind: "RGBA", c: v, want: v}
					}
					w := col.want
					st.FG = &w
					add("fg", "fg "+col.String(), col.fgOpt())
				}
			case 3:
				if c.Rng.Intn(2) == 0 {
					dead("bg", "bg nil", standard.WithBgColor(nil))
					dead("bg", "bg empty", standard.WithBgColorRGBHex(""))
				}
				for i := 0; i < reps; i++ {
					col := hexColour(c.Rng)
					if c.Rng.Intn(2) == 0 {
						v := color.RGBA{uint8(160 + c.Rng.Intn(96)), uint8(160 + c.Rng.Intn(96)), uint8(160 + c.Rng.Intn(96)), 255}
						col = colour{kind: "RGBA", c: v, want: v}
					}
					w := col.want
					st.BG = &w
					add("bg", "bg "+col.String(), col.bgOpt())
				}
			case 4:
				st.Transparent = true
				for i := 0; i < reps; i++ {
					add("transparent", "transparent", standard.WithBgTransparent())
				}
			case 5:
				dead("gradient", "gradient nil", standard.WithFgGradient(nil))
				dead("gradient", "gradient without stops", standard.WithFgGradient(standard.NewGradient(30)))
				if c.Rng.Intn(3) > 0 {
					complexKinds++
					for i := 0; i < reps; i++ {
						s, a := someStops(c.Rng), someAngle(c.Rng)
						add("gradient", fmt.Sprintf("gradient %v %v", a, s), standard.WithFgGradient(standard.NewGradient(a, s...)))
					}
				}
			case 6:
				dead("logo", "logo nil", standard.WithLogoImage(nil))
				dead("logo", "logo file missing", standard.WithLogoImageFilePNG(filepath.Join(files, "none.png")))
				dead("logo", "logo file bad", standard.WithLogoImageFilePNG(filepath.Join(files, "bad.png")))
				dead("logo", "logo file bad", standard.WithLogoImageFileJPEG(filepath.Join(files, "bad.png")))
				if c.Rng.Intn(3) > 0 {
					complexKinds++
					for i := 0; i < reps; i++ {
						l, k, _ := someLogo(c.Rng, 1+c.Rng.Intn(20), 1+c.Rng.Intn(20))
						add("logo", fmt.Sprintf("logo %s %v", k, l.Bounds()), standard.WithLogoImage(l))
					}
				}
			case 7:
				for i := 0; i < reps; i++ {
					m := 1 + c.Rng.Intn(6)
					add("multiplier", fmt.Sprintf("multiplier %d", m), standard.WithLogoSizeMultiplier(m))
				}
			case 8:
				add("safezone", "safe zone", standard.WithLogoSafeZone())
			case 9:
				def("shape", "shape nil", standard.WithCustomShape(nil))
				if c.Rng.Intn(3) > 0 {
					complexKinds++
					for i := 0; i < reps; i++ {
						sh := someShape(c.Rng)
						for _, o := range sh.opt() {
							add("shape", "shape "+sh.name, o)
						}
					}
					if c.Rng.Intn(4) == 0 {
						def("shape", "shape nil", standard.WithCustomShape(nil))
					}
				}
			case 10:
				dead("halftone", "halftone missing", standard.WithHalftone(filepath.Join(files, "none.png")))
				def("halftone", "halftone nil", standard.WithHalftoneImage(nil))
				dead("halftone", "halftone bad", standard.WithHalftone(filepath.Join(files, "bad.png")))
				if c.Rng.Intn(3) > 0 {
					complexKinds++
					for i := 0; i < reps; i++ {
						l, k, _ := someLogo(c.Rng, 1+c.Rng.Intn(70), 1+c.Rng.Intn(70))
						add("halftone", fmt.Sprintf("halftone %s %v", k, l.Bounds()), standard.WithHalftoneImage(l))
					}
					if c.Rng.Intn(4) == 0 {
						def("halftone", "halftone nil", standard.WithHalftoneImage(nil))
					}
				}
			}
		}
		for (st.width()*dim)*(st.width()*dim) > 700000 { // keep the drawing small
			st.BW = 4
			add("width", "width 4", standard.WithQRWidth(4))
		}
		if fg, bg := st.fg(), st.bg(); !st.Transparent && fg == bg {
			return
		}
		// the full list: the order within a kind stays, kinds are mixed
		mixed := interleaveKinds(c, items)
		last := map[string]optItem{}
		for _, it := range items {
			if !it.dead {
				last[it.kind] = it
			}
		}
		var names []string
		for k, it := range last {
			if it.def {
				c.Count("defaults_asked_for", 1)
				continue
			}
			names = append(names, k)
		}
		sort.Strings(names)
		c.Rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		var full, reduced []standard.ImageOption
		var ds, rs []string
		for _, it := range mixed {
			full = append(full, it.opt)
			ds = append(ds, it.desc)
		}
		for _, n := range names {
			reduced = append(reduced, last[n].opt)
			rs = append(rs, last[n].desc)
		}
		c.Desc("%v drawn with [%s] and with [%s]", e, strings.Join(ds, ", "), strings.Join(rs, ", "))
		a, wa, err := render(q, full...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		b, wb, err := render(q, reduced...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		if d := diffImages(a, asRGBA(b), 0); d != "" {
			c.Failf("the two lists draw differently: %s", d)
			return
		}
		if *wa.Attribute(dim) != *wb.Attribute(dim) {
			c.Failf("the two lists have attributes %+v and %+v", *wa.Attribute(dim), *wb.Attribute(dim))
			return
		}
		w, h := st.size(dim)
		if at := *wa.Attribute(dim); at.W != w || at.H != h || at.BlockWidth != st.width() || at.Borders != st.border4() {
			c.Failf("attributes are %+v, want %dx%d, borders %v, block %d", at, w, h, st.border4(), st.width())
			return
		}
		if complexKinds == 0 {
			if d := diffImages(a, st.model(g), 0); d != "" {
				c.Failf("%s", d)
				return
			}
			c.Count("drawings_compared_with_the_model", 1)
		}
		c.Count("option_lists_compared", 1)
		sort.Strings(names)
		c.Key("%s", strings.Join(names, "+"))
	})
	runEncoderOrders(r)
	// an option that names a file means the image in the file
	r.Each("file-options", r.N(150, 2500), func(c *C) {
		e, q, g, ok := smallSym(c, 4)
		if !ok {
			return
		}
		s := someStyle(c.Rng, len(g), 3, 40000)
		w, h := s.size(len(g))
		l, kind, _ := someLogo(c.Rng, imaxi(1, w/6), imaxi(1, h/6))
		p := filepath.Join(files, fmt.Sprintf("f%d", c.Index))
		defer os.Remove(p)
		var buf bytes.Buffer
		ext := "png"
		if c.Index%2 == 0 {
			png.Encode(&buf, l)
		} else {
			ext = "jpeg"
			jpeg.Encode(&buf, l, nil)
		}
		os.WriteFile(p, buf.Bytes(), 0644)
		img, _, err := image.Decode(bytes.NewReader(buf.Bytes()))
		if err != nil {
			panic(err)
		}
		role := []string{"logo", "halftone"}[c.Rng.Intn(2)]
		var byFile, byImage standard.ImageOption
		switch {
		case role == "halftone":
			byFile, byImage = standard.WithHalftone(p), standard.WithHalftoneImage(img)
		case ext == "png":
			byFile, byImage = standard.WithLogoImageFilePNG(p), standard.WithLogoImage(img)
		default:
			byFile, byImage = standard.WithLogoImageFileJPEG(p), standard.WithLogoImage(img)
		}
		c.Desc("%v drawn with %v, %s from a %s file (%s)", e, s, role, ext, kind)
		a, _, err := render(q, append(s.opts(), byFile)...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		b, _, err := render(q, append(s.opts(), byImage)...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		if d := diffImages(a, asRGBA(b), 0); d != "" {
			c.Failf("the file draws differently from the image in it: %s", d)
			return
		}
		plain, _, err := render(q, s.opts()...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		if diffImages(a, asRGBA(plain), 0) == "" && kind != "empty" && kind != "NRGBA-alpha" && kind != "Paletted-clear" && role == "logo" && w >= 6 && h >= 6 {
			c.Count("invisible_logos", 1)
		}
		c.Count("file_options_compared", 1)
		c.Key("%s-%s-%s", role, ext, kind)
	})
}

// encoderItem is an image encoder option and the format it leads to.
type encoderItem struct {
	desc string
	opt  standard.ImageOption
	fmt  string // "": no effect
}

func runEncoderOrders(r *R) {
	// which encoder writes the image: the last usable one, JPEG without any,
	// whatever stands between them
	r.Each("encoders", r.N(700, 12000), func(c *C) {
		e, q, _, ok := smallSym(c, 3)
		if !ok {
			return
		}
		bw, bord := 1+c.Rng.Intn(4), c.Rng.Intn(6)
		others := []struct {
			d string
			o standard.ImageOption
		}{
			{"width", standard.WithQRWidth(uint8(bw))},
			{"border", standard.WithBorderWidth(bord)},
			{"fg", standard.WithFgColor(color.RGBA{10, 20, 90, 255})},
			{"bg", standard.WithBgColor(color.RGBA{250, 240, 200, 255})},
			{"bg hex", standard.WithBgColorRGBHex("#fea")},
			{"transparent", standard.WithBgTransparent()},
			{"circle", standard.WithCircleShape()},
			{"shape nil", standard.WithCustomShape(nil)},
			{"logo nil", standard.WithLogoImage(nil)},
			{"safe zone", standard.WithLogoSafeZone()},
			{"multiplier", standard.WithLogoSizeMultiplier(3)},
			{"halftone missing", standard.WithHalftone(filepath.Join(r.Scratch, "none.png"))},
			{"halftone nil", standard.WithHalftoneImage(nil)},
			{"gradient nil", standard.WithFgGradient(nil)},
		}
		var opts []standard.ImageOption
		var ds []string
		want := "jpeg"
		for k := 1 + c.Rng.Intn(7); k > 0; k-- {
			if c.Rng.Intn(2) == 0 {
				o := others[c.Rng.Intn(len(others))]
				opts, ds = append(opts, o.o), append(ds, o.d)
				continue
			}
			items := []encoderItem{
				{"PNG", standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), "png"},
				{"JPEG", standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT), "jpeg"},
				{"nil encoder", standard.WithCustomImageEncoder(nil), ""},
				{"custom", standard.WithCustomImageEncoder(&imgTap{}), "x"},
			}
			it := items[c.Rng.Intn(len(items))]
			opts, ds = append(opts, it.opt), append(ds, it.desc)
			if it.fmt != "" {
				want = it.fmt
			}
		}
		c.Desc("%v drawn with [%s]", e, strings.Join(ds, ", "))
		var s sink
		if err := q.Save(standard.NewWithWriter(&s, opts...)); err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		got := "x"
		if s.String() != "x" {
			var err error
			if _, got, err = image.DecodeConfig(bytes.NewReader(s.Bytes())); err != nil {
				c.Failf("the output is no image: %v", err)
				return
			}
		}
		if got != want {
			c.Failf("the output is %s, want %s", got, want)
			return
		}
		c.Count("encoder_choices_compared", 1)
		c.Key("enc-%s-%d", want, len(opts))
	})
}

// interleaveKinds mixes the items but keeps the order within each kind.
func interleaveKinds(c *C, items []optItem) []optItem {
	pos := c.Rng.Perm(len(items))
	slots := make([]string, len(items))
	for i, it := range items {
		slots[pos[i]] = it.kind
	}
	queues := map[string][]optItem{}
	for _, it := range items {
		q := append(queues[it.kind], it)
		if it.dead { // those may stand anywhere
			for i := len(q) - 1; i > 0 && c.Rng.Intn(3) > 0; i-- {
				q[i], q[i-1] = q[i-1], q[i]
			}
		} else {
			for i := len(q) - 1; i > 0 && q[i-1].dead && c.Rng.Intn(2) == 0; i-- {
				q[i], q[i-1] = q[i-1], q[i]
			}
		}
		queues[it.kind] = q
	}
	var out []optItem
	for _, k := range slots {
		out = append(out, queues[k][0])
		queues[k] = queues[k][1:]
	}
	return out
}
