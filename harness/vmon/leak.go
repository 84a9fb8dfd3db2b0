package main

import (
	"fmt"
	"image"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync"
	"time"

	"verifharness/qrref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/imgkit"
)

func init() {
	register(&Prop{ID: "C37", Boost: 1, Run: runC37, Assume: []string{"what is reachable is measured as the live heap after two collections; growth under about 8 bytes a call (30 where a call takes long) is not told from noise"},
		Rule: "kinds of calls, each repeated with new inputs in windows of equal length; after each window the live heap, the goroutines and the open descriptors are measured, and from the second window on they must not grow with the calls. Distinct by (kind of call)."})
}

type nullWriter struct{ fail int } // 1: error, 2: panic

func (n nullWriter) Write(m qrcode.Matrix) error {
	switch n.fail {
	case 1:
		return fmt.Errorf("refused")
	case 2:
		panic("writer")
	}
	return nil
}
func (nullWriter) Close() error { return nil }

type failSink struct{ left int }

func (s *failSink) Write(b []byte) (int, error) {
	if len(b) > s.left {
		return s.left, io.ErrShortWrite
	}
	s.left -= len(b)
	return len(b), nil
}
func (s *failSink) Close() error { return nil }

type discardCloser struct{}

func (discardCloser) Write(b []byte) (int, error) { return len(b), nil }
func (discardCloser) Close() error                { return nil }

// leakKind is one kind of call: per calls make a window.
type leakKind struct {
	name string
	per  int
	make func(r *rand.Rand, dir string) func()
}

func leakKinds() []leakKind {
	encode := func(r *rand.Rand, maxVer int) (*qrcode.QRCode, error) {
		lv, m := r.Intn(4), allModes[r.Intn(4)]
		ver := 1 + r.Intn(maxVer)
		return qrcode.NewWith(string(textOf(r, m, 1+r.Intn(qrref.Capacity(ver, lv, m)))), levelOption(lv))
	}
	must := func(q *qrcode.QRCode, err error) *qrcode.QRCode {
		if err != nil {
			panic(err)
		}
		return q
	}
	symbols := func(r *rand.Rand, n, maxVer int) (qs []*qrcode.QRCode) {
		for i := 0; i < n; i++ {
			qs = append(qs, must(encode(r, maxVer)))
		}
		return
	}
	options := func(r *rand.Rand) []standard.ImageOption {
		st := standard.NewGradient(someAngle(r), someStops(r)...)
		logo, _, _ := someLogo(r, 1+r.Intn(8), 1+r.Intn(8))
		half, _, _ := someLogo(r, 1+r.Intn(30), 1+r.Intn(30))
		all := []standard.ImageOption{standard.WithFgGradient(st), standard.WithLogoImage(logo), standard.WithHalftoneImage(half), standard.WithLogoSafeZone(),
			standard.WithBgTransparent(), standard.WithFgColor(randRGBA(r)), standard.WithBgColor(randRGBA(r)), standard.WithBorderWidth(r.Intn(9), r.Intn(9)),
			standard.WithFgColorRGBHex(hexColour(r).hex), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT)}
		out := []standard.ImageOption{standard.WithQRWidth(uint8(3 + r.Intn(4)))}
		for _, o := range all {
			if r.Intn(3) == 0 {
				out = append(out, o)
			}
		}
		b := blockNames[r.Intn(len(blockNames))]
		if r.Intn(2) == 0 {
			out = append(out, mkShape(b, finderNames[r.Intn(2)], 0.6+0.4*r.Float64()).opt()...)
		}
		return out
	}
	draw := func(q *qrcode.QRCode, opts ...standard.ImageOption) {
		if err := q.Save(standard.NewWithWriter(discardCloser{}, opts...)); err != nil {
			panic(err)
		}
	}
	return []leakKind{
		{"encode", 250, func(r *rand.Rand, _ string) func() { return func() { must(encode(r, 6)) } }},
		{"encode the same", 2000, func(r *rand.Rand, _ string) func() {
			return func() { must(qrcode.New("always the same")) }
		}},
		{"encode with options", 500, func(r *rand.Rand, _ string) func() {
			return func() {
				e := Enc{Raw: textOf(r, allModes[r.Intn(4)], 1+r.Intn(30)), Lv: r.Intn(4), Mode: qrref.ModeByte, Type: r.Intn(4)}
				if r.Intn(2) == 0 {
					e.MinVer = 1 + r.Intn(7)
				} else {
					e.Ver = 6 + r.Intn(6)
				}
				e.run()
			}
		}},
		{"encode large", 12, func(r *rand.Rand, _ string) func() { return func() { must(encode(r, 40)) } }},
		{"refused texts", 1000, func(r *rand.Rand, _ string) func() {
			long := make([]byte, 8000)
			return func() {
				r.Read(long[:40])
				var err error
				switch r.Intn(3) {
				case 0:
					_, err = qrcode.NewWith(long)
				case 1:
					_, err = qrcode.NewWith(fmt.Sprint("a", r.Int63()), qrcode.WithEncodingMode(qrcode.EncModeNumeric))
				default:
					_, err = qrcode.NewWith(fmt.Sprint(r.Int63(), r.Int63(), r.Int63(), r.Int63(), r.Int63()), qrcode.WithVersion(1))
				}
				if err == nil {
					panic("not refused")
				}
			}
		}},
		{"save one symbol", 2000, func(r *rand.Rand, _ string) func() {
			q := symbols(r, 1, 6)[0]
			return func() { q.Save(nullWriter{}) }
		}},
		{"save to failing writers", 2000, func(r *rand.Rand, _ string) func() {
			q := symbols(r, 1, 6)[0]
			return func() {
				defer func() { recover() }()
				q.Save(nullWriter{r.Intn(3)})
			}
		}},
		{"views", 300, func(r *rand.Rand, _ string) func() {
			var ms []qrcode.Matrix
			for _, q := range symbols(r, 3, 6) {
				m, err := matrixOf(q)
				die(err)
				ms = append(ms, m)
			}
			return func() {
				m := ms[r.Intn(len(ms))]
				m.Bitmap()
				m.Copy().Row(3)
				m.Col(2)
				m.Iterate(qrcode.IterDirection_COLUMN, func(int, int, qrcode.QRValue) {})
				func() {
					defer func() { recover() }()
					d, n := qrcode.IterDirection_ROW, r.Intn(60)
					if n%2 == 0 {
						d = qrcode.IterDirection_COLUMN
					}
					m.Iterate(d, func(int, int, qrcode.QRValue) {
						if n--; n < 0 {
							panic("enough")
						}
					})
				}()
			}
		}},
		{"draw with new writers and options", 120, func(r *rand.Rand, _ string) func() {
			qs := symbols(r, 4, 3)
			return func() { draw(qs[r.Intn(4)], options(r)...) }
		}},
		{"draw new symbols with shared options", 100, func(r *rand.Rand, _ string) func() {
			opts := options(r)
			return func() { draw(must(encode(r, 3)), opts...) }
		}},
		{"one writer draws many", 120, func(r *rand.Rand, _ string) func() {
			w := standard.NewWithWriter(discardCloser{}, options(r)...)
			qs := symbols(r, 4, 3)
			return func() {
				w.Attribute(21 + 4*r.Intn(40))
				if err := qs[r.Intn(4)].Save(w); err != nil {
					panic(err)
				}
			}
		}},
		{"writers made and asked", 3000, func(r *rand.Rand, _ string) func() {
			return func() {
				var o []standard.ImageOption
				if r.Intn(2) == 0 {
					o = append(o, standard.WithQRWidth(uint8(1+r.Intn(255))), standard.WithBorderWidth(r.Intn(1000)), standard.WithFgColor(randRGBA(r)), standard.WithBgColorRGBHex(hexColour(r).hex))
				}
				standard.NewWithWriter(discardCloser{}, o...).Attribute(21 + 4*r.Intn(40))
				compressed.NewWithWriter(discardCloser{}, &compressed.Option{Padding: 1, BlockSize: 1 + r.Intn(9)})
				file.New(os.Stdout)
			}
		}},
		{"draw large pictures", 3, func(r *rand.Rand, _ string) func() {
			q := must(qrcode.New("1"))
			n := 0
			return func() {
				n++ // every picture of a size of its own
				draw(q, standard.WithQRWidth(uint8(75+r.Intn(30))), standard.WithBorderWidth(n), standard.WithCustomImageEncoder(encFunc(func(io.Writer, image.Image) error { return nil })))
			}
		}},
		{"shapes and gradients", 800, func(r *rand.Rand, _ string) func() {
			q := must(qrcode.New("1"))
			return func() {
				b := blockNames[r.Intn(len(blockNames))]
				o := mkShape(b, finderNames[r.Intn(2)], 0.6+0.4*r.Float64()).opt()
				draw(q, append(o, standard.WithQRWidth(uint8(2+r.Intn(5))), standard.WithBorderWidth(0),
					standard.WithFgGradient(standard.NewGradient(r.Float64()*360, someStops(r)...)), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))...)
			}
		}},
		{"image files as options", 100, func(r *rand.Rand, dir string) func() {
			q := must(qrcode.New("1"))
			img, _, _ := someLogo(r, 4, 4)
			p := filepath.Join(dir, "logo.png")
			writeImage(p, img, false)
			j := filepath.Join(dir, "logo.jpeg")
			writeImage(j, img, true)
			n := 0
			return func() {
				n++
				as := filepath.Join(dir, fmt.Sprintf("%d-%d.png", n, r.Int63()))
				die(os.Rename(p, as)) // always another name
				draw(q, standard.WithQRWidth(3), standard.WithLogoImageFilePNG(as), standard.WithHalftone(as))
				draw(q, standard.WithQRWidth(3), standard.WithLogoImageFileJPEG(j))
				p = as
			}
		}},
		{"image files that cannot be used", 300, func(r *rand.Rand, dir string) func() {
			q := must(qrcode.New("1"))
			var names []string
			img, _, _ := someLogo(r, 40, 40)
			for i, b := range [][]byte{nil, []byte("no image"), []byte("\x89PNG\r\n\x1a\nno more"), []byte("\xff\xd8\xff\xe0no more")} {
				n := filepath.Join(dir, fmt.Sprint("bad", i))
				die(os.WriteFile(n, b, 0644))
				names = append(names, n)
			}
			cut := filepath.Join(dir, "cut.png")
			writeImage(cut, img, false)
			b, err := os.ReadFile(cut)
			die(err)
			die(os.WriteFile(cut, b[:len(b)/2], 0644))
			names = append(names, cut, dir, filepath.Join(dir, "none"))
			return func() {
				n := names[r.Intn(len(names))]
				draw(q, standard.WithQRWidth(1), standard.WithLogoImageFilePNG(n), standard.WithLogoImageFileJPEG(n), standard.WithHalftone(n))
				if _, err := imgkit.Read(n); err == nil {
					panic("read")
				}
				if imgkit.Save(img, filepath.Join(dir, "out.gif")) == nil || imgkit.Save(img, filepath.Join(dir, "none", "a.png")) == nil {
					panic("saved")
				}
			}
		}},
		{"failing outputs", 200, func(r *rand.Rand, _ string) func() {
			q := symbols(r, 1, 3)[0]
			return func() {
				s := &failSink{left: r.Intn(50)}
				var err error
				if r.Intn(2) == 0 {
					err = q.Save(standard.NewWithWriter(s, standard.WithQRWidth(2)))
				} else {
					err = q.Save(compressed.NewWithWriter(s, &compressed.Option{Padding: 1, BlockSize: 1}))
				}
				if err == nil {
					panic("no error")
				}
			}
		}},
		{"compressed", 300, func(r *rand.Rand, _ string) func() {
			qs := symbols(r, 4, 5)
			return func() {
				o := &compressed.Option{Padding: 1 + r.Intn(30), BlockSize: 1 + r.Intn(6)}
				if err := qs[r.Intn(4)].Save(compressed.NewWithWriter(discardCloser{}, o)); err != nil {
					panic(err)
				}
			}
		}},
		{"files", 120, func(r *rand.Rand, dir string) func() {
			qs := symbols(r, 4, 3)
			n := 0
			return func() {
				n++
				p := filepath.Join(dir, fmt.Sprintf("f%d-%d", n, r.Int63()))
				defer os.Remove(p)
				q := qs[r.Intn(4)]
				switch r.Intn(3) {
				case 0:
					w, err := standard.New(p, standard.WithQRWidth(2))
					die(err)
					die(q.Save(w))
				case 1:
					w, err := compressed.New(p, &compressed.Option{Padding: 1, BlockSize: 2})
					die(err)
					die(q.Save(w))
				default:
					f, err := os.Create(p)
					die(err)
					die(q.Save(file.New(f)))
					f.Close()
				}
			}
		}},
		{"files that cannot be written", 200, func(r *rand.Rand, dir string) func() {
			qs := symbols(r, 4, 3)
			return func() {
				q := qs[r.Intn(4)]
				var err error
				switch r.Intn(3) {
				case 0:
					w, e := standard.New("/dev/full", standard.WithQRWidth(2))
					die(e)
					err = q.Save(w)
				case 1:
					w, e := compressed.New("/dev/full", &compressed.Option{Padding: 1, BlockSize: 2})
					die(e)
					err = q.Save(w)
				default:
					f, e := os.OpenFile("/dev/full", os.O_WRONLY, 0)
					die(e)
					err = q.Save(file.New(f))
					f.Close()
				}
				if err == nil {
					panic("no error")
				}
			}
		}},
		{"constructors that fail", 1000, func(r *rand.Rand, dir string) func() {
			return func() {
				p := filepath.Join(dir, "no", fmt.Sprint(r.Int63()))
				_, a := standard.New(p)
				_, b := compressed.New(p, nil)
				if a == nil || b == nil {
					panic("no error")
				}
			}
		}},
		{"images", 200, func(r *rand.Rand, dir string) func() {
			p := filepath.Join(dir, "img.png")
			n := 0
			return func() {
				n++
				img, _, _ := someLogo(r, 1+r.Intn(40), 1+r.Intn(40))
				imgkit.Gray(img)
				imgkit.Binaryzation(img, uint8(r.Intn(256)))
				imgkit.Scale(img, image.Rect(0, 0, 1+r.Intn(50), 1+r.Intn(50)), nil)
				if n%8 == 0 {
					die(imgkit.Save(img, p))
					if _, err := imgkit.Read(p); err != nil {
						panic(err)
					}
				}
			}
		}},
	}
}

type usage struct {
	bytes, objects   int64
	goroutines, open int
	files            int
}

func (u usage) String() string {
	return fmt.Sprintf("%d bytes in %d objects, %d goroutines, %d descriptors, %d files", u.bytes, u.objects, u.goroutines, u.open, u.files)
}

// measure takes what is live once everything has settled.
func measure(goroutines int) (u usage) {
	for i := 0; i < 200; i++ { // goroutines that are about to end
		if u.goroutines = runtime.NumGoroutine(); u.goroutines <= goroutines {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	u.bytes, u.objects = int64(m.HeapAlloc), int64(m.HeapObjects)
	ents, _ := os.ReadDir("/proc/self/fd")
	u.open = len(ents)
	for _, d := range []string{os.TempDir(), "."} { // what a call may leave behind unasked
		ents, _ := os.ReadDir(d)
		u.files += len(ents)
	}
	return
}

func runC37(r *R) {
	const windows = 5
	kinds := leakKinds()
	defer debug.SetGCPercent(debug.SetGCPercent(100))
	warm := rand.New(rand.NewSource(1))
	for i := 0; i < 100; i++ {
		kinds[0].make(warm, "")()
	}
	for i := 0; i < 160; i++ { // what is made once for each version and level
		qrcode.NewWith("1", levelOption(i/40), qrcode.WithVersion(1+i%40))
	}
	// the runtime keeps the descriptors of as many goroutines as ever waited at once
	var ready, gone sync.WaitGroup
	block := make(chan struct{})
	for i := 0; i < 4000; i++ {
		ready.Add(1)
		gone.Add(1)
		go func() { defer gone.Done(); ready.Done(); <-block }()
	}
	ready.Wait()
	close(block)
	gone.Wait()
	r.Serial("windows", len(kinds)*r.N(1, 4), func(c *C) {
		k := kinds[c.Index%len(kinds)]
		per := k.per * r.N(1, 6)
		c.Desc("%s, %d windows of %d calls", k.name, windows, per)
		dir, err := os.MkdirTemp(r.Scratch, "c37")
		die(err)
		defer os.RemoveAll(dir)
		call := k.make(c.Rng, dir)
		home, err := os.Getwd() // temporary files and those of no stated directory go where nothing else is
		die(err)
		for _, d := range []string{"tmp", "here"} {
			die(os.Mkdir(filepath.Join(dir, d), 0755))
		}
		tmp := os.Getenv("TMPDIR")
		die(os.Setenv("TMPDIR", filepath.Join(dir, "tmp")))
		defer os.Setenv("TMPDIR", tmp)
		die(os.Chdir(filepath.Join(dir, "here")))
		defer os.Chdir(home)
		try := func(n int) (bad string, log []usage) {
			base := runtime.NumGoroutine()
			for w := 0; w < n; w++ {
				for i := 0; i < per; i++ {
					call()
				}
				log = append(log, measure(base))
			}
			// the first window may fill what is made once
			a, z := log[0], log[n-1]
			calls := int64(per * (n - 1))
			limit := 4*calls + 16384
			up, most := 0, int64(0)
			for i := 1; i < n; i++ {
				d := log[i].bytes - log[i-1].bytes
				if d > 0 {
					up++
				}
				if d > most {
					most = d
				}
			}
			gained := z.bytes - a.bytes
			if n > windows { // one step alone, such as of the runtime's own tables, is no growth
				gained -= most
				limit = 2*calls + 16384
			}
			switch {
			case gained > limit && up >= (n+1)/2:
				bad = fmt.Sprintf("%d calls left %d bytes (%d objects) reachable", calls, z.bytes-a.bytes, z.objects-a.objects)
			case z.goroutines > a.goroutines && z.goroutines > base+2:
				bad = fmt.Sprintf("%d calls left %d goroutines running", calls, z.goroutines-a.goroutines)
			case z.open > a.open+2:
				bad = fmt.Sprintf("%d calls left %d descriptors open", calls, z.open-a.open)
			case z.files > a.files+2:
				bad = fmt.Sprintf("%d calls left %d files in %s or the working directory", calls, z.files-a.files, os.TempDir())
			}
			return
		}
		bad, log := try(windows)
		if bad != "" { // again and longer: what is bounded stops growing
			c.Count("runs_repeated", 1)
			bad, log = try(2 * windows)
		}
		if bad != "" {
			c.Failf("%s: %s; after each window: %v", k.name, bad, log)
			return
		}
		c.Count("calls_made", per*windows)
		c.Count("measurements", len(log))
		c.Count("live_bytes_gained", int(log[len(log)-1].bytes-log[0].bytes))
		c.Key("%s", k.name)
	})
}
