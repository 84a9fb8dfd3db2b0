package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/qrref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/imgkit"
	"golang.org/x/image/draw"
)

func init() {
	register(&Prop{ID: "C12", Boost: 1, Race: true, Run: runC12,
		Rule:   "sets of operations that share options, texts, symbols, matrices, images, gradients, shapes and encoders run on many goroutines under the race detector, with the masking goroutines delayed at random; every result is compared with the same operation run alone afterwards. Fresh processes do so with nothing initialised yet. Distinct by (operation kinds seen running at the same time), with the number of goroutines.",
		Assume: []string{"the race detector reports races of executed accesses only"}})
	childRoles["race-cold"] = childRaceCold
}

// raceOp is one operation; its result has to be the same whoever else runs.
// The result is written down later, in a function: fmt keeps buffers in a pool,
// and to the race detector every hand-over through a pool, and every atomic
// access, orders the goroutines, so nothing here may use either while the
// operations run.
type raceOp struct {
	kind string
	run  func() func() string
}

func said(s string) func() string { return func() string { return s } }

// later writes the values down when asked to; nobody else may change them.
func later(parts ...interface{}) func() string { return func() string { return hashOf(parts...) } }

func failed(err error) func() string { return func() string { return fmt.Sprint("error: ", err) } }

// asAlone runs one operation by itself.
func asAlone(o raceOp) string { return safely(o.run)() }

func hashOf(parts ...interface{}) string {
	h := fnv.New64a()
	for _, p := range parts {
		if b, ok := p.([]byte); ok {
			h.Write(b)
		} else {
			fmt.Fprint(h, p)
		}
		h.Write([]byte{0xff})
	}
	return fmt.Sprintf("%016x", h.Sum64())
}

// makeOps builds a set of operations on shared objects. With cold nothing of
// the library runs before the operations do, except making options.
func makeOps(r *rand.Rand, scratch string, cold bool) (ops []raceOp, files []string) {
	add := func(kind string, f func() func() string) { ops = append(ops, raceOp{kind, f}) }

	// encoding: shared texts and option lists
	type enc struct {
		raw  []byte
		opts []qrcode.EncodeOption
		ver  int
	}
	var encs []enc
	var shared []qrcode.EncodeOption
	for i := 0; i < 4; i++ {
		shared = append(shared, levelOption(i))
	}
	for i := 0; i < 6; i++ {
		lv, ver := r.Intn(4), 1+r.Intn(6)
		if r.Intn(5) == 0 {
			ver = 7 + r.Intn(12)
		}
		m := allModes[r.Intn(4)]
		e := enc{raw: textOf(r, m, r.Intn(qrref.Capacity(ver, lv, m)+1)), ver: ver}
		e.opts = append(make([]qrcode.EncodeOption, 0, 8), shared[lv]) // spare capacity: appending would be seen
		switch r.Intn(3) {
		case 0:
			e.opts = append(e.opts, qrcode.WithVersion(ver))
		case 1:
			e.opts = append(e.opts, qrcode.WithMinimumVersion(ver))
		}
		if r.Intn(10) == 0 { // too long
			e.raw = bytes.Repeat([]byte("9"), 7090)
		}
		encs = append(encs, e)
	}
	encode := func(e enc, typ int) (*qrcode.QRCode, error) {
		switch typ {
		case 0:
			return qrcode.NewWith(e.raw, e.opts...)
		case 1:
			return qrcode.NewWith(string(e.raw), e.opts...)
		}
		return qrcode.NewWith(namedBytes(e.raw), e.opts...)
	}
	for _, e := range encs {
		for typ := 0; typ < 2; typ++ {
			e, typ := e, typ+r.Intn(2)
			add("encode", func() func() string {
				q, err := encode(e, typ)
				if err != nil {
					return failed(err)
				}
				m, err := matrixOf(q)
				if err != nil {
					return failed(err)
				}
				return later(typedDigest(m), q.Dimension())
			})
		}
	}
	// symbols
	var small []enc
	for i := 0; i < 3; i++ {
		small = append(small, enc{raw: textOf(r, allModes[r.Intn(4)], 1+r.Intn(8)), opts: []qrcode.EncodeOption{shared[r.Intn(4)]}})
	}
	var syms []func() *qrcode.QRCode
	for i := range small {
		e := small[i]
		if cold {
			syms = append(syms, func() *qrcode.QRCode {
				q, err := encode(e, 0)
				if err != nil {
					panic(err)
				}
				return q
			})
			continue
		}
		q, err := encode(e, 0)
		if err != nil {
			panic(err)
		}
		syms = append(syms, func() *qrcode.QRCode { return q })
	}
	for _, s := range syms {
		s := s
		add("save", func() func() string {
			q := s()
			t := &tap{}
			if err := q.Save(t); err != nil || len(t.mats) != 1 {
				return failed(err)
			}
			d := typedDigest(t.mats[0])
			// scribble on what we were given
			b := t.mats[0].Bitmap()
			for y := range b {
				for x := range b[y] {
					b[y][x] = !b[y][x]
				}
			}
			for _, v := range [][]qrcode.QRValue{t.mats[0].Row(0), t.mats[0].Col(1)} {
				for i := range v {
					v[i] = qrcode.QRValue_DATA_V0
				}
			}
			return later(d, q.Dimension())
		})
	}
	if !cold {
		for _, s := range syms {
			m, err := matrixOf(s())
			if err != nil {
				panic(err)
			}
			add("views", func() func() string {
				n := 0
				m.Iterate(qrcode.IterDirection_COLUMN, func(x, y int, v qrcode.QRValue) {
					if v.IsSet() {
						n += x*31 + y
					}
				})
				return later(n, m.Bitmap(), m.Row(4), m.Col(5), m.Copy().Bitmap(), typedDigest(m))
			})
		}
	}
	// drawing: shared images, gradients, shapes and options
	var logo, half image.Image
	logo, _, _ = someLogo(r, 6+r.Intn(6), 6+r.Intn(6))
	half, _, _ = someLogo(r, 20+r.Intn(60), 20+r.Intn(60))
	grad := standard.NewGradient(someAngle(r), someStops(r)...)
	sh := someShape(r)
	sh2 := someShape(r)
	common := []standard.ImageOption{
		standard.WithLogoImage(logo), standard.WithLogoSafeZone(), standard.WithHalftoneImage(half), standard.WithFgGradient(grad),
		standard.WithBgTransparent(), standard.WithFgColorRGBHex("#123"), standard.WithBgColor(randRGBA(r)), standard.WithBorderWidth(3, 9),
	}
	common = append(common, sh.opt()...)
	common = append(common, sh2.opt()...)
	for i, o := range []func(string) standard.ImageOption{standard.WithLogoImageFilePNG, standard.WithLogoImageFileJPEG, standard.WithHalftone} {
		p := filepath.Join(scratch, fmt.Sprintf("shared%d-%d", os.Getpid(), raceFiles.Add(1)))
		img := logo
		if i == 2 {
			img = half
		}
		writeImage(p, img, i == 1)
		common = append(common, o(p)) // read when the option is applied
		files = append(files, p)
	}
	var lists [][]standard.ImageOption
	for i := 0; i < 3; i++ {
		l := append(make([]standard.ImageOption, 0, 24), standard.WithQRWidth(uint8(4+r.Intn(3))))
		for _, o := range common {
			if r.Intn(5) < 2 {
				l = append(l, o)
			}
		}
		lists = append(lists, l)
	}
	if !cold {
		dims := []int{21, 25, 29, 33, 177}
		one := standard.NewWithWriter(&sink{}, lists[r.Intn(len(lists))]...)
		add("attribute", func() func() string {
			var got []standard.Attribute
			for i := 0; i < 40; i++ {
				got = append(got, *one.Attribute(dims[i%len(dims)]))
			}
			return later(got)
		})
	}
	for i, l := range lists {
		l, s := l, syms[i%len(syms)]
		add("draw", func() func() string {
			t := &imgTap{}
			own := append(l[:len(l):len(l)], standard.WithCustomImageEncoder(t))
			w := standard.NewWithWriter(&sink{}, own...)
			a := *w.Attribute(33)
			if err := s().Save(w); err != nil || len(t.imgs) != 1 {
				return failed(err)
			}
			return later(a, asRGBA(t.imgs[0]).Pix)
		})
		format := standard.WithBuiltinImageEncoder(standard.PNG_FORMAT)
		if i%2 == 0 {
			format = standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT)
		}
		whole := append(append([]standard.ImageOption{}, l...), format)
		add("draw-bytes", func() func() string {
			var out sink
			if err := s().Save(standard.NewWithWriter(&out, whole...)); err != nil {
				return failed(err)
			}
			return later(out.Bytes())
		})
	}
	copt := &compressed.Option{Padding: 1 + r.Intn(5), BlockSize: 1 + r.Intn(4)}
	for i := range syms {
		s := syms[i]
		add("compressed", func() func() string {
			var out sink
			if err := s().Save(compressed.NewWithWriter(&out, copt)); err != nil {
				return failed(err)
			}
			return later(out.Bytes())
		})
		add("text", func() func() string {
			f, err := os.CreateTemp(scratch, "race")
			if err != nil {
				return said("harness")
			}
			defer os.Remove(f.Name())
			defer f.Close()
			if err := s().Save(file.New(f)); err != nil {
				return failed(err)
			}
			b, _ := os.ReadFile(f.Name())
			return later(b)
		})
		if i > 0 {
			continue
		}
		add("file", func() func() string {
			d, err := os.MkdirTemp(scratch, "race")
			if err != nil {
				return said("harness")
			}
			defer os.RemoveAll(d)
			p := filepath.Join(d, "f.png")
			w, err := standard.New(p, lists[0]...)
			if err != nil {
				return failed(err)
			}
			if err := s().Save(w); err != nil {
				return failed(err)
			}
			b, _ := os.ReadFile(p)
			return later(b)
		})
	}
	add("imgkit", func() func() string {
		g := imgkit.Gray(half)
		b := imgkit.Binaryzation(half, 60)
		s := imgkit.Scale(half, image.Rect(0, 0, 30, 17), draw.NearestNeighbor)
		return later(g.Pix, imageDigest(b), imageDigest(s), imageDigest(half), imageDigest(logo))
	})
	stops := append(gradStops{}, grad.Stops...)
	slices.Reverse(stops) // shared by the goroutines, not in order
	add("gradient", func() func() string {
		g := standard.NewGradient(grad.Angle, stops...)
		g.Stops = append(gradStops{}, g.Stops...)
		mine, before := append(gradStops{}, grad.Stops...), append(gradStops{}, stops...)
		return later(g.Angle, g.Stops, mine, before)
	})
	return ops, files
}

// writeImage writes an image file in either format.
func writeImage(path string, img image.Image, asJPEG bool) {
	var b bytes.Buffer
	if asJPEG {
		die(jpeg.Encode(&b, img, nil))
	} else {
		die(png.Encode(&b, img))
	}
	die(os.WriteFile(path, b.Bytes(), 0o644))
}

func removeAll(files []string) {
	for _, f := range files {
		os.Remove(f)
	}
}

var raceFiles atomic.Int64

// runOps runs the operations on n goroutines and returns the results seen per
// operation and the pairs of kinds that ran at the same time.
func runOps(ops []raceOp, r *rand.Rand, n, each int) (res [][]string, pairs map[string]int) {
	if each == 0 { // every operation on goroutines that do nothing else
		n = 3 * len(ops)
	}
	res = make([][]string, len(ops))
	pairs = map[string]int{}
	// when an operation ran is noted with the clock, which orders nothing
	type rec struct {
		op       int
		out      func() string
		from, to time.Duration
	}
	epoch := time.Now()
	logs := make([][]rec, n)
	plans := make([][]int, n)
	for i := range plans {
		for k := 0; k < each; k++ {
			plans[i] = append(plans[i], r.Intn(len(ops)))
		}
	}
	if r.Intn(3) == 0 { // everybody does the same
		for i := range plans {
			plans[i] = plans[0]
		}
	}
	if each == 0 {
		all := r.Perm(n)
		for i := range plans {
			plans[i] = []int{all[i] % len(ops)}
		}
	}
	var start, done, end sync.WaitGroup
	start.Add(1)
	end.Add(1)
	for i := 0; i < n; i++ {
		done.Add(1)
		go func(i int) {
			start.Wait()
			for _, k := range plans[i] {
				from := time.Since(epoch)
				out := safely(ops[k].run)
				logs[i] = append(logs[i], rec{k, out, from, time.Since(epoch)})
			}
			done.Done()
			end.Wait() // the detector forgets what goroutines did that are gone
		}(i)
	}
	start.Done()
	done.Wait()
	end.Done()
	for i, l := range logs {
		for _, x := range l {
			res[x.op] = append(res[x.op], x.out())
			for _, other := range logs[:i] {
				for _, y := range other {
					if x.from < y.to && y.from < x.to {
						p := []string{ops[y.op].kind, ops[x.op].kind}
						sort.Strings(p)
						pairs[strings.Join(p, "+")]++
					}
				}
			}
		}
	}
	return
}

func safely(f func() func() string) (s func() string) {
	defer func() {
		if e := recover(); e != nil {
			s = func() string { return fmt.Sprintf("panic: %v", e) }
		}
	}()
	return f()
}

type coldJob struct {
	Seed    int64
	N, Each int
	Dir     string
}

func childRaceCold([]string) {
	var j coldJob
	die(json.NewDecoder(os.Stdin).Decode(&j))
	r := rand.New(rand.NewSource(j.Seed))
	ops, files := makeOps(r, j.Dir, true)
	defer removeAll(files)
	res, _ := runOps(ops, r, j.N, j.Each)
	die(json.NewEncoder(os.Stdout).Encode(res))
}

// hooked is the caller's code that the library calls: an output, an encoder, a
// shape, an image, a writer, an iteration function.
type hooked struct {
	f func()
	discardCloser
	close bool
}

func (h hooked) Write(b []byte) (int, error) {
	if !h.close {
		h.f()
	}
	return len(b), nil
}
func (h hooked) Close() error {
	if h.close {
		h.f()
	}
	return nil
}
func (h hooked) Draw(ctx *standard.DrawContext)       { h.f() }
func (h hooked) DrawFinder(ctx *standard.DrawContext) { h.f() }
func (h hooked) ColorModel() color.Model              { return color.RGBAModel }
func (h hooked) Bounds() image.Rectangle              { return image.Rect(0, 0, 3, 3) }
func (h hooked) At(x, y int) color.Color              { h.f(); return color.Black }

type hookedWriter struct{ hooked }

func (h hookedWriter) Write(qrcode.Matrix) error { h.f(); return nil }

// outerCalls are calls in the middle of which the caller's code runs.
var outerCalls = []struct {
	name string
	call func(q *qrcode.QRCode, f func()) error
}{
	{"an output being written", func(q *qrcode.QRCode, f func()) error {
		return q.Save(standard.NewWithWriter(hooked{f: f}, standard.WithQRWidth(1)))
	}},
	{"an output being closed", func(q *qrcode.QRCode, f func()) error {
		return q.Save(standard.NewWithWriter(hooked{f: f, close: true}, standard.WithQRWidth(1)))
	}},
	{"an output of the compressed writer being written", func(q *qrcode.QRCode, f func()) error {
		return q.Save(compressed.NewWithWriter(hooked{f: f}, &compressed.Option{Padding: 1, BlockSize: 1}))
	}},
	{"an encoder", func(q *qrcode.QRCode, f func()) error {
		return q.Save(standard.NewWithWriter(discardCloser{}, standard.WithCustomImageEncoder(encFunc(func(io.Writer, image.Image) error { f(); return nil }))))
	}},
	{"a shape", func(q *qrcode.QRCode, f func()) error {
		return q.Save(standard.NewWithWriter(discardCloser{}, standard.WithCustomShape(hooked{f: f})))
	}},
	{"a logo", func(q *qrcode.QRCode, f func()) error {
		return q.Save(standard.NewWithWriter(discardCloser{}, standard.WithLogoImage(hooked{f: f}), standard.WithLogoSafeZone()))
	}},
	{"a halftone image", func(q *qrcode.QRCode, f func()) error {
		return q.Save(standard.NewWithWriter(discardCloser{}, standard.WithHalftoneImage(hooked{f: f})))
	}},
	{"a writer", func(q *qrcode.QRCode, f func()) error { return q.Save(hookedWriter{hooked{f: f}}) }},
	{"a function given to Iterate", func(q *qrcode.QRCode, f func()) error {
		m, err := matrixOf(q)
		if err == nil {
			m.Iterate(qrcode.IterDirection_ROW, func(int, int, qrcode.QRValue) { f() })
		}
		return err
	}},
}

// innerCalls are what that code, or another goroutine meanwhile, calls.
var innerCalls = []struct {
	name string
	call func(q *qrcode.QRCode, seed int64) error
}{
	{"encoding", func(_ *qrcode.QRCode, seed int64) error {
		_, err := qrcode.NewWith(fmt.Sprint(seed), qrcode.WithVersion(5))
		return err
	}},
	{"drawing with everything", func(_ *qrcode.QRCode, seed int64) error {
		r := rand.New(rand.NewSource(seed))
		q, err := qrcode.New(fmt.Sprint(seed))
		if err != nil {
			return err
		}
		logo, _, _ := someLogo(r, 4, 4)
		return q.Save(standard.NewWithWriter(discardCloser{}, standard.WithQRWidth(6), standard.WithLogoImage(logo), standard.WithHalftoneImage(logo), standard.WithLogoSafeZone(),
			standard.WithFgGradient(standard.NewGradient(30, someStops(r)...)), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT)))
	}},
	{"drawing shapes", func(_ *qrcode.QRCode, seed int64) error {
		q, err := qrcode.New("1")
		if err != nil {
			return err
		}
		r := rand.New(rand.NewSource(seed))
		return q.Save(standard.NewWithWriter(discardCloser{}, append(mkShape(blockNames[r.Intn(len(blockNames))], finderNames[r.Intn(2)], 0.8).opt(), standard.WithQRWidth(4))...))
	}},
	{"saving the same symbol", func(q *qrcode.QRCode, _ int64) error {
		if err := q.Save(compressed.NewWithWriter(discardCloser{}, &compressed.Option{Padding: 1, BlockSize: 1})); err != nil {
			return err
		}
		return q.Save(standard.NewWithWriter(discardCloser{}, standard.WithQRWidth(2)))
	}},
	{"reading the same symbol", func(q *qrcode.QRCode, _ int64) error {
		m, err := matrixOf(q)
		if err == nil {
			m.Iterate(qrcode.IterDirection_COLUMN, func(int, int, qrcode.QRValue) {})
			m.Bitmap()
			m.Copy()
		}
		return err
	}},
}

// waitingC12 makes a call in the middle of another: nobody holds anything
// while the caller's code runs.
func waitingC12(c *C) {
	o := outerCalls[c.Index%len(outerCalls)]
	in := innerCalls[c.Index/len(outerCalls)%len(innerCalls)]
	same := c.Rng.Intn(2) == 0
	at := c.Rng.Intn(3)
	seed := c.Rng.Int63()
	c.Desc("%s in the middle of a call, in %s, on the same goroutine: %v", in.name, o.name, same)
	q, err := qrcode.New(fmt.Sprint("outer", c.Index))
	if err != nil {
		c.Failf("%v", err)
		return
	}
	done := make(chan error, 1)
	calls := 0
	go func() {
		var inner error
		err := o.call(q, func() {
			if calls++; calls > 1 && calls != at+1 {
				return
			}
			if same {
				inner = in.call(q, seed)
				return
			}
			end := make(chan error)
			go func() { end <- in.call(q, seed) }()
			inner = <-end
		})
		if err == nil {
			err = inner
		}
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil || calls == 0 {
			c.Failf("%v, the caller's code was called %d times", err, calls)
			return
		}
	case <-time.After(100 * time.Second):
		c.Failf("the calls wait for each other")
		return
	}
	c.Count("calls_in_the_middle_of_others", 1)
	c.Key("%s-%s-%v", o.name, in.name, same)
}

func runC12(r *R) {
	qrcode.VerifMaskScored = func(i int) {
		// drawn from the clock: an atomic counter would order the goroutines
		switch d := (time.Now().Nanosecond()/7 + i*31) % 23; {
		case d < 3:
			time.Sleep(time.Duration(d) * 50 * time.Microsecond)
		case d < 10:
			runtime.Gosched()
		}
	}
	defer func() { qrcode.VerifMaskScored = nil }()
	compare := func(c *C, ops []raceOp, res [][]string) int {
		n := 0
		for k, o := range ops {
			if len(res[k]) == 0 {
				continue
			}
			want := asAlone(o)
			if strings.HasPrefix(want, "panic") {
				c.Failf("%s alone: %s", o.kind, want)
				return n
			}
			for _, got := range res[k] {
				n++
				if got != want {
					c.Failf("operation %d (%s) gave %q among others and %q alone", k, o.kind, clip(got, 300), clip(want, 300))
					return n
				}
			}
		}
		return n
	}
	self, err := os.Executable()
	die(err)
	r.each("cold", r.N(12, 200), 2, func(c *C) {
		j := coldJob{Seed: c.Rng.Int63(), N: 4 + c.Rng.Intn(13), Each: 3 * c.Rng.Intn(2), Dir: r.Scratch}
		c.Desc("fresh process, %d goroutines of %d operations, seed %d", j.N, j.Each, j.Seed)
		b, _ := json.Marshal(j)
		cmd := exec.Command(self, "-verif", verifDir, "-child", "race-cold")
		cmd.Dir = r.Scratch
		cmd.Stdin = bytes.NewReader(b)
		var out bytes.Buffer
		var errb limited
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err := cmd.Run(); err != nil {
			c.Failf("the process ended with %v: %s", err, clip(errb.String(), 2000))
			return
		}
		var res [][]string
		if err := json.Unmarshal(out.Bytes(), &res); err != nil {
			c.Failf("no results: %v, %s", err, clip(errb.String(), 2000))
			return
		}
		ops, files := makeOps(rand.New(rand.NewSource(j.Seed)), j.Dir, true)
		defer removeAll(files)
		if len(res) != len(ops) {
			die(fmt.Errorf("race-cold: %d results for %d operations", len(res), len(ops)))
		}
		c.Count("results_of_fresh_processes_compared", compare(c, ops, res))
		c.Key("cold-%d", j.N)
	})
	r.Each("waiting", len(outerCalls)*len(innerCalls)*r.N(1, 4), waitingC12)
	// pictures of more than a million pixels
	r.Serial("large", r.N(3, 20), func(c *C) {
		s := someStyle(c.Rng, 30, 2, 20000)
		q, err := qrcode.New("large")
		die(err)
		s.BW = 60
		if c.Index%2 == 1 {
			s.BW = 51 + 3*c.Rng.Intn(17)
		}
		n := 2 + c.Rng.Intn(3)
		o := s.opts()
		switch c.Index % 3 {
		case 1:
			o = append(o, standard.WithFgGradient(standard.NewGradient(someAngle(c.Rng), someStops(c.Rng)...)))
		case 2:
			half, _, _ := someLogo(c.Rng, 21, 21)
			o = append(o, standard.WithHalftoneImage(half))
		}
		c.Desc("%d large pictures at once, of %v", n, s)
		sums := make([]uint64, n+1)
		draw := func(i int) {
			q2 := q
			if i%2 == 1 {
				q2, _ = qrcode.New("large")
			}
			e := q2.Save(standard.NewWithWriter(discardCloser{}, append(o[:len(o):len(o)], standard.WithCustomImageEncoder(encFunc(func(_ io.Writer, img image.Image) error {
				sums[i] = imageDigest(img)
				return nil
			})))...))
			if e != nil {
				sums[i] = 1
			}
		}
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) { defer wg.Done(); draw(i) }(i)
		}
		wg.Wait()
		draw(n)
		for i := range sums[:n] {
			if sums[i] != sums[n] {
				c.Failf("picture %d of %d differs from the same picture drawn alone", i, n)
			}
		}
		c.Count("large_pictures_compared", n)
		c.Key("large-%d", n)
	})
	r.Serial("shared", r.N(30, 700), func(c *C) {
		ops, files := makeOps(c.Rng, r.Scratch, false)
		defer removeAll(files)
		n := []int{2, 3, 8, 16, 24}[c.Rng.Intn(5)]
		each := 2 + 50/n
		if c.Rng.Intn(3) > 0 {
			each = 0
		}
		procs := []int{runtime.NumCPU(), runtime.NumCPU(), runtime.NumCPU(), 3, 1 + c.Rng.Intn(2)}[c.Rng.Intn(5)]
		c.Desc("%d operations on goroutines, %d on each of %d (0: one on each of many), GOMAXPROCS %d", len(ops), each, n, procs)
		old := runtime.GOMAXPROCS(procs)
		res, pairs := runOps(ops, c.Rng, n, each)
		runtime.GOMAXPROCS(old)
		c.Count("results_compared", compare(c, ops, res))
		for p, k := range pairs {
			c.Count("operations_seen_overlapping", k)
			c.Key("%s", p)
		}
		if each == 0 {
			n = 3 * len(ops)
		}
		c.Count("goroutines_run", n)
	})
}
