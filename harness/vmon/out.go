package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"image"
	"image/color"
	"image/draw"
	"image/jpeg"
	"image/png"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"verifharness/qrref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/imgkit"

	xdraw "golang.org/x/image/draw"
)

func init() {
	register(&Prop{ID: "C24", Boost: 1, Level: "fault_enumeration", Run: runC24,
		Rule: "for each writer and symbol every write call of the output fails in turn, persistently or once, and every (sampled) byte offset; real files fail by size limit, full device, closed descriptor, vanished reader and refused datagrams; Save has to report each. Distinct by (writer, fault kind, position class)."})
	register(&Prop{ID: "C25", Run: runC25,
		Rule: "random symbols, paddings and block sizes; the decoded PNG compared pixel by pixel, the header and an overwritten file checked. Distinct by (version, padding class, block size class)."})
	register(&Prop{ID: "C26", Run: runC26,
		Rule: "symbols of all versions written to files and pipes and parsed back; one and several saves per file. Distinct by (version, level)."})
	register(&Prop{ID: "C30", Run: runC30,
		Rule: "each drawing is captured by a custom encoder and encoded again by the built-in ones; the decoded output is compared with the capture. Distinct by (encoder, style, shape)."})
	register(&Prop{ID: "C31", Run: runC31,
		Rule: "images of every type, size (0..) and bounds; every pixel of grey, binarised, scaled and re-read images compared with independent formulas, and the source with itself before. Distinct by (operation, image type, size class)."})
	register(&Prop{ID: "C32", Boost: 2, Run: runC32,
		Rule: "random sequences of draws through shared writers, options, images, gradients and shapes; each image compared with a fresh writer's, each input's digest with the one before. Distinct by (writer kind, options present, sequence length)."})
	register(&Prop{ID: "C34", Run: runC34,
		Rule: "sequences of saves to new, existing, longer, unusable paths with failing and panicking encoders in between; file contents, returned errors and the process's open descriptors under the scratch directory are checked after each. Distinct by (writer, path kind, outcome)."})
	childRoles["filesize"] = childFileSize
}

// gridFromImage samples module centres; dark is a luma under half.
func gridFromImage(img image.Image, dim, left, top, bw int) qrref.Grid {
	b := img.Bounds()
	g := make(qrref.Grid, dim)
	for y := range g {
		g[y] = make([]bool, dim)
		for x := range g[y] {
			v := color.GrayModel.Convert(img.At(b.Min.X+left+x*bw+bw/2, b.Min.Y+top+y*bw+bw/2)).(color.Gray)
			g[y][x] = v.Y < 128
		}
	}
	return g
}

// parseText reads the half-block text form back.
func parseText(b []byte) (qrref.Grid, string) {
	s := string(b)
	if !strings.HasSuffix(s, "\n") {
		return nil, "text does not end with a line feed"
	}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	w := utf8.RuneCountInString(lines[0])
	if len(lines) != (w+1)/2 {
		return nil, fmt.Sprintf("%d lines of width %d", len(lines), w)
	}
	g := make(qrref.Grid, 2*len(lines))
	for i, l := range lines {
		if n := utf8.RuneCountInString(l); n != w {
			return nil, fmt.Sprintf("line %d has %d characters, line 0 has %d", i, n, w)
		}
		for _, r := range l {
			var up, down bool
			switch r {
			case '▀':
				up = true
			case '▄':
				down = true
			case '█':
				up, down = true, true
			case ' ':
			default:
				return nil, fmt.Sprintf("line %d has the character %q", i, r)
			}
			g[2*i] = append(g[2*i], up)
			g[2*i+1] = append(g[2*i+1], down)
		}
	}
	if w%2 == 1 {
		for _, b := range g[w] {
			if b {
				return nil, "the half line below the symbol is not blank"
			}
		}
		g = g[:w]
	}
	return g, ""
}

// renderAll draws a symbol with every file-like writer and reads it back.
func renderAll(c *C, q *qrcode.QRCode) map[string]qrref.Grid {
	out := map[string]qrref.Grid{}
	dim := q.Dimension()
	for _, f := range []string{"standard PNG", "standard JPEG"} {
		s := &sink{}
		opt := standard.WithBuiltinImageEncoder(standard.PNG_FORMAT)
		if f == "standard JPEG" {
			opt = standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT)
		}
		if err := q.Save(standard.NewWithWriter(s, opt, standard.WithQRWidth(8), standard.WithBorderWidth(16))); err != nil {
			c.Failf("%s: %v", f, err)
			continue
		}
		img, _, err := image.Decode(&s.Buffer)
		if err != nil {
			c.Failf("%s does not decode: %v", f, err)
			continue
		}
		out[f] = gridFromImage(img, dim, 16, 16, 8)
	}
	s := &sink{}
	if err := q.Save(compressed.NewWithWriter(s, &compressed.Option{Padding: 3, BlockSize: 2})); err != nil {
		c.Failf("compressed: %v", err)
	} else if img, err := png.Decode(&s.Buffer); err != nil {
		c.Failf("compressed PNG does not decode: %v", err)
	} else {
		out["compressed"] = gridFromImage(img, dim, 3, 3, 2)
	}
	if b, err := textFile(c, q, 1); err != nil {
		c.Failf("text file: %v", err)
	} else if g, bad := parseText(b); bad != "" {
		c.Failf("text file: %s", bad)
	} else {
		out["text file"] = g
	}
	return out
}

func textFile(c *C, q *qrcode.QRCode, times int) ([]byte, error) {
	f, err := os.CreateTemp(c.R.Scratch, "text")
	if err != nil {
		return nil, fmt.Errorf("harness: %v", err)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	for i := 0; i < times; i++ {
		if err := q.Save(file.New(f)); err != nil {
			return nil, err
		}
	}
	return os.ReadFile(f.Name())
}

// ---- C24 -------------------------------------------------------------------

// faulty is an output that fails at a call or at a byte.
type faulty struct {
	failCall int // number of the failing call, -1 none
	failByte int // number of bytes taken before failing, -1 none
	once     bool
	calls    int
	taken    int
	sizes    []int
	failed   int
	lost     int
	err      error
	closed   int
	into     io.Writer // gets what was taken, if any
}

func (f *faulty) Write(p []byte) (int, error) {
	i := f.calls
	f.calls++
	f.sizes = append(f.sizes, len(p))
	if f.once && f.failed > 0 {
		f.taken += len(p)
		return len(p), nil
	}
	if f.failCall >= 0 && i >= f.failCall {
		f.failed++
		f.lost += len(p)
		return 0, f.err
	}
	if f.failByte >= 0 && f.taken+len(p) > f.failByte {
		n := f.failByte - f.taken
		if n < 0 {
			n = 0
		}
		f.taken += n
		f.failed++
		f.lost += len(p) - n
		return n, f.err
	}
	f.taken += len(p)
	if f.into != nil {
		f.into.Write(p)
	}
	return len(p), nil
}

func (f *faulty) Close() error { f.closed++; return nil }

var sinkErrors = []error{errors.New("disk full"), io.ErrClosedPipe, io.ErrShortWrite, io.EOF, syscall.ENOSPC, syscall.EINTR, os.ErrClosed, io.ErrUnexpectedEOF,
	syscall.EPIPE, syscall.EAGAIN, syscall.ECONNRESET, syscall.EIO, syscall.EDQUOT, syscall.EFBIG, syscall.EBADF, os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded,
	&os.PathError{Op: "write", Path: "pipe", Err: syscall.EPIPE}, os.NewSyscallError("write", syscall.EIO), fmt.Errorf("wrapped: %w", io.EOF), timeoutError{}, anyError{}, errors.New("")}

// timeoutError is what a net.Conn with a deadline gives.
type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

// anyError claims to be every error it is asked about.
type anyError struct{}

func (anyError) Error() string        { return "some error" }
func (anyError) Is(target error) bool { return true }

type namedWriter struct {
	name string
	mk   func(io.WriteCloser) qrcode.Writer
}

// chunkEncoder writes the image's pixels in pieces and reports errors itself.
type chunkEncoder struct{ n int }

func (e chunkEncoder) Encode(w io.Writer, img image.Image) error {
	p := asRGBA(img).Pix
	for len(p) > 0 {
		n := imini(e.n, len(p))
		if _, err := w.Write(p[:n]); err != nil {
			return err
		}
		p = p[n:]
	}
	return nil
}

var outWriters = []namedWriter{
	{"standard-default", func(w io.WriteCloser) qrcode.Writer {
		return standard.NewWithWriter(w, standard.WithQRWidth(3))
	}},
	{"standard-png", func(w io.WriteCloser) qrcode.Writer {
		return standard.NewWithWriter(w, standard.WithQRWidth(3), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), standard.WithBgTransparent())
	}},
	{"standard-jpeg", func(w io.WriteCloser) qrcode.Writer {
		return standard.NewWithWriter(w, standard.WithQRWidth(2), standard.WithCircleShape(), standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
	}},
	{"standard-custom", func(w io.WriteCloser) qrcode.Writer {
		return standard.NewWithWriter(w, standard.WithQRWidth(1), standard.WithBorderWidth(0), standard.WithCustomImageEncoder(chunkEncoder{301}))
	}},
	{"compressed", func(w io.WriteCloser) qrcode.Writer {
		return compressed.NewWithWriter(w, &compressed.Option{Padding: 2, BlockSize: 3})
	}},
}

func runC24(r *R) {
	// every call and sampled bytes of in-memory outputs
	r.Each("sinks", r.N(60, 900), func(c *C) {
		nw := outWriters[c.Index%len(outWriters)]
		maxv := 5
		if c.Index%10 >= 5 {
			maxv = 40 // outputs over several buffers
		}
		e, q, _, ok := smallSym(c, maxv)
		if !ok {
			return
		}
		good := &faulty{failCall: -1, failByte: -1}
		if err := q.Save(nw.mk(good)); err != nil {
			c.Failf("saving to a working output failed: %v", err)
			return
		}
		if good.taken == 0 {
			c.Failf("success without any output")
			return
		}
		try := func(f *faulty, kind string, pos int) bool {
			c.Desc("%v to %s, output %s at %d of %d calls, %d bytes, error %v", e, nw.name, kind, pos, good.calls, good.taken, f.err)
			w := nw.mk(f)
			err := q.Save(w)
			if f.failed == 0 {
				if err != nil {
					c.Failf("nothing failed but Save returned %v", err)
					return false
				}
				return true
			}
			if err == nil {
				c.Failf("%d bytes were refused, %d of %d taken, but Save reported success", f.lost, f.taken, good.taken)
				return false
			}
			c.Count("faults_reported", 1)
			if !f.once { // the output goes on failing
				lost := f.lost
				if err := q.Save(w); err == nil && f.lost > lost {
					c.Failf("a second save to the same writer: %d bytes were refused, but Save reported success", f.lost-lost)
					return false
				}
				c.Count("second_faults_reported", 1)
			}
			c.Key("%s-%s-%d-%v", nw.name, kind, imini(pos*8/imaxi(1, good.taken), 8), maxv > 5)
			return true
		}
		for i := 0; i < good.calls; i++ {
			if good.calls > 60 && i > 8 && i < good.calls-8 && c.Rng.Intn(good.calls/30) != 0 {
				continue
			}
			for _, once := range []bool{false, true} {
				f := &faulty{failCall: i, failByte: -1, once: once, err: sinkErrors[c.Rng.Intn(len(sinkErrors))]}
				kind := "fails from call on"
				if once {
					kind = "fails once at call"
				}
				if !try(f, kind, i) {
					return
				}
			}
		}
		pos := []int{0, 1, 7, 8, good.taken - 1, good.taken - 2, good.taken - 12, good.taken - 13, good.taken / 2}
		for k := 0; k < r.N(12, 60); k++ {
			pos = append(pos, c.Rng.Intn(good.taken))
		}
		for _, p := range pos {
			if p < 0 || p >= good.taken {
				continue
			}
			for _, once := range []bool{false, true} {
				f := &faulty{failCall: -1, failByte: p, once: once, err: sinkErrors[c.Rng.Intn(len(sinkErrors))]}
				kind := "full from byte"
				if once {
					kind = "loses bytes once at"
				}
				if !try(f, kind, p) {
					return
				}
			}
		}
	})
	// drawings of more than four and sixteen million pixels
	r.Each("large", r.N(10, 100), func(c *C) {
		_, q, g, ok := smallSym(c, 10)
		if !ok {
			return
		}
		bw := bigBW(c.Rng, len(g), 1)
		kind := c.Index % 5
		mk := func(w io.WriteCloser) qrcode.Writer {
			if kind == 4 {
				return compressed.NewWithWriter(w, &compressed.Option{Padding: 2, BlockSize: bw})
			}
			o := []standard.ImageOption{standard.WithQRWidth(uint8(bw)), standard.WithBorderWidth(c.Rng.Intn(9))}
			switch kind {
			case 1:
				o = append(o, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
			case 2:
				o = append(o, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), standard.WithBgTransparent())
			case 3:
				o = append(o, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
			}
			return standard.NewWithWriter(w, o...)
		}
		good := &faulty{failCall: -1, failByte: -1}
		if err := q.Save(mk(good)); err != nil || good.taken == 0 {
			c.Failf("saving to a working output took %d bytes: %v", good.taken, err)
			return
		}
		for i, p := range []int{0, c.Rng.Intn(good.taken), good.taken / 2} {
			f := &faulty{failCall: -1, failByte: p, once: i == 1, err: sinkErrors[c.Rng.Intn(len(sinkErrors))]}
			c.Desc("kind %d of large picture, blocks of %d, output full from byte %d of %d, once %v, error %v", kind, bw, p, good.taken, f.once, f.err)
			err := q.Save(mk(f))
			if f.failed > 0 && err == nil {
				c.Failf("%d bytes were refused, but Save reported success", f.lost)
				return
			}
			if f.failed > 0 {
				c.Count("faults_reported", 1)
			}
		}
		c.Key("large-%d-%d", kind, len(g)*bw/1000)
	})
	// encoders that fail by themselves
	r.Each("encoders", r.N(60, 600), func(c *C) {
		_, q, _, ok := smallSym(c, 4)
		if !ok {
			return
		}
		want := sinkErrors[c.Rng.Intn(len(sinkErrors))]
		before := c.Rng.Intn(20)
		c.Desc("custom encoder that writes %d bytes and then returns %v", before, want)
		s := &sink{}
		err := q.Save(standard.NewWithWriter(s, standard.WithQRWidth(1), standard.WithCustomImageEncoder(encFunc(func(w io.Writer, _ image.Image) error {
			w.Write(make([]byte, before))
			return want
		}))))
		if err == nil {
			c.Failf("the encoder failed but Save reported success")
			return
		}
		c.Count("faults_reported", 1)
		c.Key("encoder-%v", want)
	})
	// real files
	r.Each("files", r.N(48, 500), func(c *C) {
		e, q, _, ok := smallSym(c, 12)
		if !ok {
			return
		}
		dir, err := os.MkdirTemp(r.Scratch, "c24")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		for _, name := range []string{"text", "standard", "compressed"} {
			mk := func(f *os.File) qrcode.Writer {
				switch name {
				case "text":
					return file.New(f)
				case "standard":
					return standard.NewWithWriter(f, standard.WithQRWidth(4), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
				}
				return compressed.NewWithWriter(f, &compressed.Option{Padding: 1, BlockSize: 1})
			}
			for _, kind := range []string{"full device", "closed file", "read-only descriptor", "pipe without reader", "nil file", "refused datagrams", "refused first datagram"} {
				c.Desc("%v to %s over %s", e, name, kind)
				var f *os.File
				var cleanup func()
				switch kind {
				case "full device":
					if f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0); err != nil {
						continue
					}
				case "closed file":
					f, _ = os.Create(filepath.Join(dir, "x"))
					f.Close()
				case "read-only descriptor":
					os.WriteFile(filepath.Join(dir, "ro"), nil, 0644)
					f, _ = os.Open(filepath.Join(dir, "ro"))
				case "pipe without reader":
					var rd *os.File
					if rd, f, err = os.Pipe(); err != nil {
						continue
					}
					rd.Close()
				case "nil file":
					if name != "text" {
						continue
					}
				case "refused datagrams", "refused first datagram":
					if name != "text" { // the others write more than a datagram at once
						continue
					}
					var ok bool
					parity := c.Rng.Intn(2)
					if parity == 0 && kind == "refused datagrams" && datagrams(func(f *os.File) { q.Save(mk(f)) }) < 2 {
						parity = 1 // a first datagram is always taken, so one that holds all must be the second
					}
					f, cleanup, ok = refusing(kind == "refused first datagram", parity)
					if !ok {
						c.Count("no_loopback", 1)
						continue
					}
				}
				err := q.Save(mk(f))
				if f != nil {
					f.Close()
				}
				if cleanup != nil {
					cleanup()
				}
				if err == nil {
					c.Failf("nothing could be written, but Save reported success")
					return
				}
				c.Count("faults_reported", 1)
				c.Key("%s-%s", name, kind)
			}
		}
	})
	// a file that may not grow past n bytes, for every n: in a child process
	r.Each("limits", r.N(12, 80), func(c *C) {
		dir, err := os.MkdirTemp(r.Scratch, "c24l")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		maxv := []int{1, 3, 8}[c.Index%3]
		e, _, _, ok := smallSym(c, maxv)
		if !ok {
			return
		}
		c.Desc("%v to a file limited to every size", e)
		raw := string(e.Raw)
		self, _ := os.Executable()
		in, _ := json.Marshal(limitJob{Dir: dir, Text: []byte(raw), Level: e.Lv, Version: e.Ver, Step: []int{1, 1, 7}[c.Index%3]})
		cmd := exec.Command(self, "-child", "filesize", "-verif", verifDir)
		cmd.Stdin = bytes.NewReader(in)
		out, err := cmd.Output()
		var res limitResult
		if err != nil || json.Unmarshal(out, &res) != nil {
			panic(fmt.Sprintf("harness: child failed: %v %s", err, clip(string(out), 300)))
		}
		if res.Bad != "" {
			c.Failf("%s", res.Bad)
			return
		}
		if res.Tried == 0 {
			panic("harness: nothing tried")
		}
		c.Count("faults_reported", res.Tried)
		c.Key("limit-v%d-%d", e.Ver, res.Tried/256)
	})
}

type encFunc func(io.Writer, image.Image) error

func (f encFunc) Encode(w io.Writer, img image.Image) error { return f(w, img) }

// datagrams counts the writes that fn makes to a file that takes all of them.
func datagrams(fn func(f *os.File)) (n int) {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return 0
	}
	out, in := os.NewFile(uintptr(fds[0]), "out"), os.NewFile(uintptr(fds[1]), "in")
	done := make(chan int)
	go func() {
		n, b := 0, make([]byte, 1<<20)
		for {
			k, err := in.Read(b)
			if err != nil || string(b[:k]) == "the end" {
				done <- n
				return
			}
			n++
		}
	}()
	fn(out)
	out.Write([]byte("the end"))
	n = <-done
	out.Close()
	in.Close()
	return n
}

// refusing makes a file on a connected datagram socket whose peer port is
// closed: the kernel refuses every second write. With firstOnly the peer comes
// to life again, so that only the first write is refused.
func refusing(firstOnly bool, parity int) (f *os.File, cleanup func(), ok bool) {
	l, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		return nil, nil, false
	}
	addr := l.LocalAddr().(*net.UDPAddr)
	conn, err := net.DialUDP("udp4", nil, addr)
	l.Close()
	if err != nil {
		return nil, nil, false
	}
	f, err = conn.File()
	conn.Close()
	if err != nil {
		return nil, nil, false
	}
	if firstOnly {
		f.Write([]byte("x"))
		l2, err := net.ListenUDP("udp4", addr)
		if err != nil {
			f.Close()
			return nil, nil, false
		}
		return f, func() { l2.Close() }, true
	}
	for i := 0; i < parity; i++ {
		f.Write([]byte("x"))
	}
	return f, func() {}, true
}

type limitJob struct {
	Dir            string
	Text           []byte
	Level, Version int
	Step           int
}

type limitResult struct {
	Bad   string
	Tried int
}

// childFileSize saves to files under a file size limit.
func childFileSize(args []string) {
	signal.Ignore(syscall.SIGXFSZ)
	var job limitJob
	b, _ := io.ReadAll(os.Stdin)
	die(json.Unmarshal(b, &job))
	q, err := qrcode.NewWith(job.Text, levelOption(job.Level), qrcode.WithVersion(job.Version))
	die(err)
	var res limitResult
	defer func() {
		out, _ := json.Marshal(res)
		os.Stdout.Write(out)
	}()
	limit := func(n uint64) {
		var l syscall.Rlimit
		die(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l))
		l.Cur = n
		if n > l.Max {
			l.Cur = l.Max
		}
		die(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l))
	}
	path := filepath.Join(job.Dir, "out")
	save := func(name string) error {
		if name == "text" {
			f, err := os.Create(path)
			die(err)
			defer f.Close()
			return q.Save(file.New(f))
		}
		if name == "compressed" {
			w, err := compressed.New(path, &compressed.Option{Padding: 2, BlockSize: 2})
			die(err)
			return q.Save(w)
		}
		w, err := standard.New(path, standard.WithQRWidth(2), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
		die(err)
		return q.Save(w)
	}
	for _, name := range []string{"text", "compressed", "standard"} {
		limit(1 << 30)
		if err := save(name); err != nil {
			res.Bad = fmt.Sprintf("%s: saving without faults failed: %v", name, err)
			return
		}
		full, _ := os.ReadFile(path)
		for n := 0; n < len(full); n += job.Step {
			limit(uint64(n))
			err := save(name)
			limit(1 << 30)
			got, _ := os.ReadFile(path)
			if len(got) >= len(full) {
				continue // the limit did not bite
			}
			if err == nil {
				res.Bad = fmt.Sprintf("%s: the file was cut to %d of %d bytes but Save reported success", name, len(got), len(full))
				return
			}
			res.Tried++
		}
		limit(uint64(len(full)))
		if err := save(name); err != nil {
			res.Bad = fmt.Sprintf("%s: a file of exactly the allowed size failed: %v", name, err)
			return
		}
		limit(1 << 30)
	}
}

// ---- C25 -------------------------------------------------------------------

func runC25(r *R) {
	r.Each("png", r.N(500, 8000), func(c *C) {
		maxv := 6
		if c.Index%5 == 0 {
			maxv = 40
		}
		e, q, g, ok := smallSym(c, maxv)
		if !ok {
			return
		}
		o := compressed.Option{Padding: c.Rng.Intn(c.Rng.Intn(3)*20 + 1), BlockSize: 1 + c.Rng.Intn(imaxi(1, imini(12, 700/len(g))))}
		switch c.Index % 8 {
		case 3: // large blocks
			o.BlockSize = 1 + c.Rng.Intn(2000/len(g))
		case 6:
			o.Padding = c.Rng.Intn(700)
		}
		if c.Index%100 == 50 { // four to twenty-five million pixels
			o.BlockSize = []int{2100, 4200, 5000}[c.Rng.Intn(3)]/len(g) + 1
		}
		given := o
		c.Desc("%v drawn with %+v", e, o)
		var out []byte
		how := "memory"
		if c.Index%3 == 0 {
			how = "file"
			p := filepath.Join(r.Scratch, fmt.Sprintf("c25-%d.png", c.Index))
			defer os.Remove(p)
			if c.Index%2 == 0 {
				how = "overwritten file"
				os.WriteFile(p, bytes.Repeat([]byte("old content "), 40000), 0600)
			}
			w, err := compressed.New(p, &o)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			if err := q.Save(w); err != nil {
				c.Failf("%v", err)
				return
			}
			out, _ = os.ReadFile(p)
		} else {
			s := &sink{}
			w := compressed.NewWithWriter(s, &o)
			if c.Index%4 == 1 { // a writer that has drawn another symbol
				how = "reused writer"
				other, err := qrcode.New(strings.Repeat("7", c.Rng.Intn(400)))
				if err != nil || other.Save(w) != nil {
					c.Failf("another symbol could not be drawn")
					return
				}
				s.Reset()
				s.closes = 0
			}
			if err := q.Save(w); err != nil {
				c.Failf("%s: %v", how, err)
				return
			}
			if s.closes != 1 {
				c.Failf("the output was closed %d times", s.closes)
				return
			}
			out = s.Bytes()
		}
		if o != given {
			c.Failf("the option was changed to %+v", o)
			return
		}
		rd := bytes.NewReader(out)
		img, err := png.Decode(rd)
		if err != nil {
			c.Failf("%s: not a PNG: %v", how, err)
			return
		}
		if rd.Len() != 0 {
			c.Failf("%s: %d bytes follow the PNG", how, rd.Len())
			return
		}
		if out[24] != 1 || out[25] != 3 {
			c.Failf("PNG of bit depth %d and colour type %d, want a one-bit palette", out[24], out[25])
			return
		}
		s := style{BW: o.BlockSize, Borders: []int{o.Padding}}
		if d := diffImages(img, s.model(g), 0); d != "" {
			c.Failf("%s: %s", how, d)
			return
		}
		w, _ := s.size(len(g))
		c.Count("pixels_compared", w*w)
		c.Key("v%d-p%d-b%d-%s", (len(g)-17)/4, imini(o.Padding, 5), o.BlockSize, how)
	})
}

// ---- C26 -------------------------------------------------------------------

func runC26(r *R) {
	// what the process is told about its surroundings is not the symbol's business
	r.Serial("surroundings", r.N(40, 400), func(c *C) {
		e := someEnc(c.Rng)
		q, g, ok := encodeOK(c, e)
		if !ok {
			return
		}
		restore := setEnv(oddEnv(c.Rng))
		defer restore()
		c.Desc("%v with the environment %v", e, envNow())
		b, err := textFile(c, q, 1)
		if err != nil {
			c.Failf("saving failed: %v", err)
			return
		}
		got, bad := parseText(b)
		if bad == "" {
			bad = diffGrids(got, g)
		}
		if bad != "" {
			c.Failf("%s", bad)
			return
		}
		// onto a terminal, which shows a line break as two characters
		p, err := openPty()
		die(err)
		die(p.resize(1+c.Rng.Intn(60), 1+c.Rng.Intn(200)))
		ch := make(chan []byte)
		go func() {
			var all []byte
			buf := make([]byte, 65536)
			for {
				n, err := p.master.Read(buf)
				all = append(all, buf[:n]...)
				if err != nil || len(all) > 0 && all[len(all)-1] == 0x04 {
					ch <- bytes.ReplaceAll(bytes.TrimSuffix(all, []byte{4}), []byte("\r\n"), []byte("\n"))
					return
				}
			}
		}()
		err = q.Save(file.New(p.slave))
		p.slave.Write([]byte{4})
		shown := <-ch
		p.close()
		if err != nil || !bytes.Equal(shown, b) {
			c.Failf("a terminal is given %d bytes, a file %d; error %v; first %.60q", len(shown), len(b), err, shown)
			return
		}
		c.Count("terminals_compared", 1)
		c.Key("env-%s", envNow())
	})
	overSymbols(r, r.N(2, 30), r.N(150, 4000), func(c *C, e Enc, q *qrcode.QRCode, g qrref.Grid) {
		times := 1 + c.Index%2
		b, err := textFile(c, q, times)
		if err != nil {
			c.Failf("saving failed: %v", err)
			return
		}
		if len(b)%times != 0 || !bytes.Equal(b[:len(b)/times], b[len(b)-len(b)/times:]) {
			c.Failf("%d saves wrote %d bytes that do not repeat", times, len(b))
			return
		}
		got, bad := parseText(b[:len(b)/times])
		if bad != "" {
			c.Failf("%s", bad)
			return
		}
		if d := diffGrids(got, g); d != "" {
			c.Failf("the text shows another symbol: %s", d)
			return
		}
		if c.Index%3 == 0 { // by a writer that has written other symbols
			f, err := os.CreateTemp(c.R.Scratch, "text")
			if err != nil {
				return
			}
			defer os.Remove(f.Name())
			defer f.Close()
			w, at := file.New(f), int64(0)
			for i := 0; i < 2; i++ {
				other, err := qrcode.New(strings.Repeat("7", c.Rng.Intn(1200)))
				if err != nil || other.Save(w) != nil {
					c.Failf("another symbol could not be written")
					return
				}
			}
			if at, err = f.Seek(0, io.SeekCurrent); err != nil {
				return
			}
			err = q.Save(w)
			all, _ := os.ReadFile(f.Name())
			if err != nil || int(at) > len(all) || !bytes.Equal(all[at:], b[:len(b)/times]) {
				c.Failf("after two other symbols the writer gives another text (error %v, %d bytes)", err, len(all)-int(at))
				return
			}
			c.Count("reused_writers", 1)
		}
		if c.Index%5 == 0 { // through a pipe
			rd, wr, err := os.Pipe()
			if err != nil {
				return
			}
			ch := make(chan []byte)
			go func() { b, _ := io.ReadAll(rd); ch <- b }()
			err = q.Save(file.New(wr))
			wr.Close()
			pb := <-ch
			rd.Close()
			if err != nil || !bytes.Equal(pb, b[:len(b)/times]) {
				c.Failf("through a pipe: error %v, %d bytes, want %d", err, len(pb), len(b)/times)
				return
			}
			c.Count("pipes_compared", 1)
		}
		c.Count("modules_read_back", len(g)*len(g)*times)
		c.Key("v%d-%d", (len(g)-17)/4, times)
	})
}

// ---- C30 -------------------------------------------------------------------

func runC30(r *R) {
	one := func(c *C, big bool) {
		e, q, g, ok := smallSym(c, 8)
		if !ok {
			return
		}
		s := someStyle(c.Rng, len(g), 4, 90000)
		if big {
			s.BW = bigBW(c.Rng, len(g), 1)
		}
		opts := s.opts()
		extra := "plain"
		switch c.Rng.Intn(5) {
		case 0:
			sh := someShape(c.Rng)
			opts, extra = append(opts, sh.opt()...), sh.kind
		case 1:
			opts, extra = append(opts, standard.WithFgGradient(standard.NewGradient(someAngle(c.Rng), someStops(c.Rng)...))), "gradient"
		case 2:
			w, h := s.size(len(g))
			logo, _, _ := someLogo(c.Rng, imaxi(1, w/6), imaxi(1, h/6))
			opts, extra = append(opts, standard.WithLogoImage(logo)), "logo"
		}
		kind := []string{"png", "jpeg", "default"}[c.Index%3]
		if kind != "png" && s.Transparent {
			kind = "png"
		}
		enc := opts
		switch kind {
		case "png":
			enc = append(append([]standard.ImageOption{}, opts...), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
		case "jpeg":
			enc = append(append([]standard.ImageOption{}, opts...), standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
		}
		if kind != "default" && c.Rng.Intn(3) == 0 { // the last encoder option counts
			enc = append([]standard.ImageOption{standard.WithCustomImageEncoder(&imgTap{}), standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT)}, enc...)
		}
		c.Desc("%v drawn with %v %s, encoder %s", e, s, extra, kind)
		img, _, err := render(q, opts...)
		if err != nil {
			c.Failf("drawing failed: %v", err)
			return
		}
		out := &sink{}
		if err := q.Save(standard.NewWithWriter(out, enc...)); err != nil {
			c.Failf("saving failed: %v", err)
			return
		}
		if out.closes != 1 {
			c.Failf("the output was closed %d times", out.closes)
			return
		}
		rd := bytes.NewReader(out.Bytes())
		b := img.Bounds()
		if kind == "png" {
			got, err := png.Decode(rd)
			if err != nil || rd.Len() != 0 {
				c.Failf("not a PNG: %v, %d bytes left", err, rd.Len())
				return
			}
			gb := got.Bounds()
			if gb.Dx() != b.Dx() || gb.Dy() != b.Dy() {
				c.Failf("the PNG is %v, the drawing %v", gb, b)
				return
			}
			for y := 0; y < b.Dy(); y++ {
				for x := 0; x < b.Dx(); x++ {
					p := color.NRGBAModel.Convert(got.At(gb.Min.X+x, gb.Min.Y+y)).(color.NRGBA)
					v := color.NRGBAModel.Convert(img.At(b.Min.X+x, b.Min.Y+y)).(color.NRGBA)
					if p != v && !(p.A == 0 && v.A == 0) {
						c.Failf("PNG pixel (x %d, y %d) is %v, drawn %v", x, y, p, v)
						return
					}
				}
			}
		} else {
			got, err := jpeg.Decode(rd)
			if err != nil || rd.Len() != 0 {
				c.Failf("not a JPEG: %v, %d bytes left", err, rd.Len())
				return
			}
			gb := got.Bounds()
			if gb.Dx() != b.Dx() || gb.Dy() != b.Dy() {
				c.Failf("the JPEG is %v, the drawing %v", gb, b)
				return
			}
			sum := 0
			for y := 0; y < b.Dy(); y++ {
				for x := 0; x < b.Dx(); x++ {
					p := color.GrayModel.Convert(got.At(gb.Min.X+x, gb.Min.Y+y)).(color.Gray).Y
					v := color.GrayModel.Convert(img.At(b.Min.X+x, b.Min.Y+y)).(color.Gray).Y
					d := int(p) - int(v)
					if d < 0 {
						d = -d
					}
					sum += d
				}
			}
			// colours survive: averages of 16x16 areas, where the format is exact but for rounding
			for y0 := 0; y0+16 <= b.Dy(); y0 += 16 {
				for x0 := 0; x0+16 <= b.Dx(); x0 += 16 {
					var p, v [3]int
					for y := y0; y < y0+16; y++ {
						for x := x0; x < x0+16; x++ {
							pr, pg, pb, _ := got.At(gb.Min.X+x, gb.Min.Y+y).RGBA()
							vr, vg, vb, _ := img.At(b.Min.X+x, b.Min.Y+y).RGBA()
							p[0], p[1], p[2] = p[0]+int(pr>>8), p[1]+int(pg>>8), p[2]+int(pb>>8)
							v[0], v[1], v[2] = v[0]+int(vr>>8), v[1]+int(vg>>8), v[2]+int(vb>>8)
						}
					}
					for k := range p {
						d := (p[k] - v[k]) / 256
						if d < 0 {
							d = -d
						}
						r.Max("largest_jpeg_area_colour_error", d)
						if d > 72 {
							c.Failf("the area at (x %d, y %d) has average colour (%d, %d, %d), drawn (%d, %d, %d)", x0, y0, p[0]/256, p[1]/256, p[2]/256, v[0]/256, v[1]/256, v[2]/256)
							return
						}
					}
					c.Count("jpeg_areas_compared", 1)
				}
			}
			mean := float64(sum) / float64(b.Dx()*b.Dy())
			r.Max("largest_mean_jpeg_luma_error_x100", int(mean*100))
			if mean > 24 {
				c.Failf("the JPEG is off by %.1f of 255 on average", mean)
				return
			}
		}
		c.Count("pixels_compared", b.Dx()*b.Dy())
		c.Key("%s-%s-%v", kind, extra, s.Transparent)
	}
	r.Each("encoders", r.N(600, 9000), func(c *C) { one(c, false) })
	r.Each("large", r.N(12, 150), func(c *C) { one(c, true) })
	r.Each("custom", r.N(100, 1000), func(c *C) {
		_, q, g, ok := smallSym(c, 4)
		if !ok {
			return
		}
		token := make([]byte, c.Rng.Intn(9000))
		c.Rng.Read(token)
		calls, dims := 0, image.Rectangle{}
		out := &sink{}
		c.Desc("custom encoder writing %d bytes", len(token))
		err := q.Save(standard.NewWithWriter(out, standard.WithQRWidth(2), standard.WithBorderWidth(1),
			standard.WithCustomImageEncoder(encFunc(func(w io.Writer, img image.Image) error {
				calls++
				dims = img.Bounds()
				_, err := w.Write(token)
				return err
			})), standard.WithCustomImageEncoder(nil)))
		if err != nil || calls != 1 || !bytes.Equal(out.Bytes(), token) || dims.Dx() != 2*len(g)+2 || dims.Dy() != 2*len(g)+2 || out.closes != 1 {
			c.Failf("error %v, %d calls, %d bytes of %d, image %v, closed %d times", err, calls, out.Len(), len(token), dims, out.closes)
			return
		}
		c.Count("custom_encoders_called", 1)
		c.Key("custom-%d", len(token)/1000)
	})
}

// ---- C31 -------------------------------------------------------------------

// anyImage makes an image of any type, size (possibly empty) and bounds.
func anyImage(r *rand.Rand, maxSide int) (image.Image, string) {
	w, h := 1+r.Intn(maxSide), 1+r.Intn(maxSide)
	switch r.Intn(9) {
	case 0:
		min := image.Pt(r.Intn(20)-10, r.Intn(20)-10)
		m := image.NewGray16(image.Rectangle{min, min.Add(image.Pt(w, h))})
		r.Read(m.Pix)
		return m, "Gray16"
	case 1:
		min := image.Pt(r.Intn(20)-10, r.Intn(20)-10)
		m := image.NewCMYK(image.Rectangle{min, min.Add(image.Pt(w, h))})
		r.Read(m.Pix)
		return m, "CMYK"
	case 2:
		min := image.Pt(r.Intn(20)-10, r.Intn(20)-10)
		m := image.NewNRGBA64(image.Rectangle{min, min.Add(image.Pt(w, h))})
		r.Read(m.Pix)
		return m, "NRGBA64"
	}
	m, k, _ := someLogo(r, w, h)
	return m, k
}

func imageDigest(img image.Image) uint64 {
	h := fnv.New64a()
	b := img.Bounds()
	var buf [8]byte
	for _, v := range []int{b.Min.X, b.Min.Y, b.Max.X, b.Max.Y} {
		binary.LittleEndian.PutUint64(buf[:], uint64(v))
		h.Write(buf[:])
	}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			R, G, B, A := img.At(x, y).RGBA()
			binary.LittleEndian.PutUint64(buf[:], uint64(R)|uint64(G)<<16|uint64(B)<<32|uint64(A)<<48)
			h.Write(buf[:])
		}
	}
	return h.Sum64()
}

// luma is the ITU-R 601 weighting of the 16-bit channels.
func luma(c color.Color) uint8 {
	r, g, b, _ := c.RGBA()
	return uint8((19595*r + 38470*g + 7471*b + 1<<15) >> 24)
}

func runC31(r *R) {
	r.Each("convert", r.N(2500, 40000), func(c *C) {
		img, kind := anyImage(c.Rng, 40)
		if c.Index%40 == 7 { // larger
			img, kind = anyImage(c.Rng, 700)
			if c.Rng.Intn(2) == 0 {
				img, kind, _ = someLogo(c.Rng, 1+c.Rng.Intn(8), 1000+c.Rng.Intn(2000))
			}
		}
		b := img.Bounds()
		before := imageDigest(img)
		th := uint8(c.Rng.Intn(256))
		if c.Rng.Intn(4) == 0 {
			th = []uint8{0, 255, 254, 1, 60}[c.Rng.Intn(5)]
		}
		c.Desc("%s %v, threshold %d", kind, b, th)
		gray := imgkit.Gray(img)
		bin := imgkit.Binaryzation(img, th)
		if gray.Bounds() != b || bin.Bounds() != b {
			c.Failf("bounds %v became %v and %v", b, gray.Bounds(), bin.Bounds())
			return
		}
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				l := luma(img.At(x, y))
				if g := gray.GrayAt(x, y).Y; g != l {
					c.Failf("grey of (x %d, y %d) %v is %d, want %d", x, y, img.At(x, y), g, l)
					return
				}
				want := uint8(0)
				if l > th {
					want = 255
				}
				v := color.GrayModel.Convert(bin.At(x, y)).(color.Gray).Y
				if v != want {
					c.Failf("binarised (x %d, y %d) with luma %d is %d, want %d", x, y, l, v, want)
					return
				}
			}
		}
		if imageDigest(img) != before {
			c.Failf("the source was changed")
			return
		}
		c.Count("pixels_compared", 2*b.Dx()*b.Dy())
		c.Key("convert-%s-%v-%d", kind, b.Min == image.Point{}, th/32)
	})
	r.Each("scale", r.N(1200, 20000), func(c *C) {
		img, kind := anyImage(c.Rng, 30)
		b := img.Bounds()
		before := imageDigest(img)
		min := image.Point{}
		if c.Rng.Intn(2) == 0 {
			min = image.Pt(c.Rng.Intn(20)-10, c.Rng.Intn(20)-10)
		}
		var sc xdraw.Scaler
		how := "default"
		switch c.Rng.Intn(4) {
		case 0:
			sc, how = xdraw.NearestNeighbor, "nearest"
		case 1:
			sc, how = xdraw.CatmullRom, "catmull-rom"
		}
		w, h := 1+c.Rng.Intn(60), 1+c.Rng.Intn(60)
		k := 0
		if c.Rng.Intn(2) == 0 { // integer factor
			k = 1 + c.Rng.Intn(3)
			w, h = b.Dx()*k, b.Dy()*k
		}
		rect := image.Rectangle{min, min.Add(image.Pt(w, h))}
		c.Desc("%s %v scaled to %v, %s", kind, b, rect, how)
		out := imgkit.Scale(img, rect, sc)
		if out.Bounds() != rect {
			c.Failf("result has bounds %v", out.Bounds())
			return
		}
		if imageDigest(img) != before {
			c.Failf("the source was changed")
			return
		}
		ref := sc
		if ref == nil {
			ref = xdraw.ApproxBiLinear
		}
		want := image.NewRGBA(rect)
		ref.Scale(want, rect, img, b, xdraw.Over, nil)
		for y := rect.Min.Y; y < rect.Max.Y; y++ {
			for x := rect.Min.X; x < rect.Max.X; x++ {
				p, v := color.RGBAModel.Convert(out.At(x, y)).(color.RGBA), want.RGBAAt(x, y)
				if k == 1 || how == "nearest" && k > 0 { // the pixel itself
					src := color.RGBAModel.Convert(img.At(b.Min.X+(x-min.X)/k, b.Min.Y+(y-min.Y)/k)).(color.RGBA)
					if kind != "YCbCr" && !near(p, src, 1) {
						c.Failf("(x %d, y %d) is %v, the source pixel is %v", x, y, p, src)
						return
					}
				}
				if how != "default" && !near(p, v, 1) {
					c.Failf("(x %d, y %d) is %v, the %s scaler makes %v", x, y, p, how, v)
					return
				}
				if how == "default" && !near(p, v, 40) && c.Index%2 == 0 && k == 1 {
					c.Failf("(x %d, y %d) is %v, want about %v", x, y, p, v)
					return
				}
			}
		}
		c.Count("pixels_compared", w*h)
		c.Key("scale-%s-%s-%d", kind, how, k)
	})
	r.Each("files", r.N(400, 5000), func(c *C) {
		img, kind := anyImage(c.Rng, 40)
		before := imageDigest(img)
		ext := []string{".png", ".jpg", ".jpeg", ".gif", "", ".txt"}[c.Rng.Intn(6)]
		p := filepath.Join(r.Scratch, fmt.Sprintf("c31-%d%s", c.Index, ext))
		defer os.Remove(p)
		if c.Rng.Intn(2) == 0 {
			os.WriteFile(p, bytes.Repeat([]byte("old"), 30000), 0644)
		}
		c.Desc("%s %v saved as %s", kind, img.Bounds(), ext)
		err := imgkit.Save(img, p)
		good := ext == ".png" || ext == ".jpg" || ext == ".jpeg"
		if (err == nil) != good {
			c.Failf("Save returned %v", err)
			return
		}
		if imageDigest(img) != before {
			c.Failf("the source was changed")
			return
		}
		if !good {
			c.Key("bad-ext%s", ext)
			return
		}
		got, err := imgkit.Read(p)
		if err != nil {
			c.Failf("Read failed: %v", err)
			return
		}
		gb, b := got.Bounds(), img.Bounds()
		if gb.Dx() != b.Dx() || gb.Dy() != b.Dy() {
			c.Failf("%v was read back as %v", b, gb)
			return
		}
		raw, _ := os.ReadFile(p)
		if magic := string(raw[:4]); (magic == "\x89PNG") != (ext == ".png") {
			c.Failf("a file named %s starts with %q", ext, magic)
			return
		}
		if ext == ".png" {
			for y := 0; y < b.Dy(); y++ {
				for x := 0; x < b.Dx(); x++ {
					v := color.NRGBAModel.Convert(img.At(b.Min.X+x, b.Min.Y+y)).(color.NRGBA)
					q := color.NRGBAModel.Convert(got.At(gb.Min.X+x, gb.Min.Y+y)).(color.NRGBA)
					if q != v && !(q.A == 0 && v.A == 0) {
						c.Failf("(x %d, y %d) is %v, saved %v", x, y, q, v)
						return
					}
				}
			}
		}
		if other := []string{"", ".png", ".jpg", ".gif", ".PNG", ".bak"}[c.Rng.Intn(6)]; other != ext {
			// what is in the file decides, not its name
			p2 := filepath.Join(r.Scratch, fmt.Sprintf("c31-%d-renamed%s", c.Index, other))
			defer os.Remove(p2)
			if err := os.Rename(p, p2); err != nil {
				panic(err)
			}
			again, err := imgkit.Read(p2)
			if err != nil {
				c.Failf("the file renamed to *%s is not read: %v", other, err)
				return
			}
			if imageDigest(again) != imageDigest(got) {
				c.Failf("the file renamed to *%s is read as another image", other)
				return
			}
			c.Count("renamed_files_read", 1)
		}
		c.Count("files_read_back", 1)
		c.Key("file-%s-%s", kind, ext)
	})
	r.Each("unreadable", 40, func(c *C) {
		p := filepath.Join(r.Scratch, fmt.Sprintf("c31u-%d", c.Index))
		switch c.Index % 4 {
		case 0:
			os.WriteFile(p, nil, 0644)
		case 1:
			os.WriteFile(p, []byte("not an image"), 0644)
		case 2:
			os.Mkdir(p, 0755)
		}
		defer os.RemoveAll(p)
		c.Desc("unreadable file of kind %d", c.Index%4)
		if img, err := imgkit.Read(p); err == nil || img != nil {
			c.Failf("Read returned image %v, error %v", img != nil, err)
			return
		}
		if err := imgkit.Save(image.NewGray(image.Rect(0, 0, 2, 2)), filepath.Join(p+"-none", "x.png")); err == nil {
			c.Failf("Save into a missing directory succeeded")
			return
		}
		c.Count("errors_reported", 2)
		c.Key("unreadable-%d", c.Index%4)
	})
}

func near(a, b color.RGBA, tol int) bool {
	d := func(x, y uint8) bool { v := int(x) - int(y); return v <= tol && v >= -tol }
	return d(a.R, b.R) && d(a.G, b.G) && d(a.B, b.B) && d(a.A, b.A)
}

// ---- C32 -------------------------------------------------------------------

func runC32(r *R) {
	// slices handed over as arguments, with more behind them
	r.Each("slices", r.N(150, 2000), func(c *C) {
		lv := c.Rng.Intn(4)
		text := textOf(c.Rng, allModes[c.Rng.Intn(4)], 1+c.Rng.Intn(20))
		room := append(append([]byte{}, text...), []byte("what is behind the text")...)
		enc := make([]qrcode.EncodeOption, 8)
		enc[0], enc[1], enc[2] = levelOption(lv), qrcode.WithMinimumVersion(3), qrcode.WithMinimumVersion(2)
		ne := c.Rng.Intn(3)
		borders := make([]int, 9)
		for i := range borders {
			borders[i] = 1 + c.Rng.Intn(30)
		}
		nb := c.Rng.Intn(7)
		stops := make(gradStops, 8)
		for i := range stops {
			stops[i] = standard.ColorStop{T: c.Rng.Float64(), Color: color.RGBA{uint8(c.Rng.Intn(200)), uint8(i), 0, 255}}
		}
		ns := 1 + c.Rng.Intn(6)
		keptB, keptS := append([]int{}, borders...), append(gradStops{}, stops...)
		img := make([]standard.ImageOption, 8)
		img[0], img[1], img[2] = standard.WithBorderWidth(borders[:nb]...), standard.WithFgGradient(standard.NewGradient(someAngle(c.Rng), stops[:ns]...)), standard.WithQRWidth(3)
		keptI := append([]standard.ImageOption{}, img...)
		ni := 1 + c.Rng.Intn(3)
		c.Desc("text %s in a slice of %d bytes, the first %d encode options, %d of %v as border widths, %d of %v as stops, the first %d image options",
			quoteClip(text, 60), len(room), ne, nb, borders, ns, stops, ni)
		q, err := qrcode.NewWith(room[:len(text)], enc[:ne]...)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		if err := q.Save(standard.NewWithWriter(&sink{}, img[:ni]...)); err != nil {
			c.Failf("%v", err)
			return
		}
		if !bytes.Equal(room[:len(text)], text) || string(room[len(text):]) != "what is behind the text" {
			c.Failf("the text and what is behind it became %q", room)
		}
		for i := 3; i < len(enc); i++ {
			if enc[i] != nil {
				c.Failf("something was put behind the encode options")
			}
		}
		if !slices.Equal(borders, keptB) {
			c.Failf("the border widths became %v", borders)
		}
		if !slices.Equal(stops, keptS) {
			c.Failf("the stops became %v", stops)
		}
		for i := range img {
			if img[i] != keptI[i] {
				c.Failf("image option %d was replaced", i)
			}
		}
		c.Count("slices_compared", 4)
		c.Key("slices-%d-%d-%d-%d", ne, nb, ns, ni)
	})
	r.Each("reuse", r.N(350, 6000), func(c *C) {
		var qs []*qrcode.QRCode
		var digests []string
		var raws [][]byte
		var keep [][]byte
		var dims []int
		dim := 0
		for i := 0; i < 1+c.Rng.Intn(3); i++ {
			lv, ver := c.Rng.Intn(4), 2+c.Rng.Intn(4)
			raw := textOf(c.Rng, allModes[c.Rng.Intn(4)], 1+c.Rng.Intn(6))
			keep = append(keep, append([]byte{}, raw...))
			q, err := qrcode.NewWith(raw, levelOption(lv), qrcode.WithVersion(ver))
			if err != nil {
				c.Failf("encoding %q failed: %v", raw, err)
				return
			}
			raws = append(raws, raw)
			m, err := matrixOf(q)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			qs, digests = append(qs, q), append(digests, typedDigest(m))
			dim = imaxi(dim, q.Dimension())
			dims = append(dims, q.Dimension())
		}
		s := someStyle(c.Rng, dim, 4, 40000)
		// everything the options refer to is made from a seed, so that it can be
		// made again from scratch
		seed := c.Rng.Int63()
		type owned struct {
			opts       []standard.ImageOption
			present    string
			logo, half image.Image
			grad       *standard.LinearGradient
		}
		mk := func(plain bool) (o owned) {
			rng := rand.New(rand.NewSource(seed))
			if plain {
				o.opts = s.opts()
			}
			if rng.Intn(2) == 0 {
				w, h := s.size(21)
				if rng.Intn(2) == 0 { // one that fits some of the symbols
					w, h = s.size(dims[rng.Intn(len(dims))])
					w, h = w+w/4, h+h/4
				}
				o.logo, _, _ = someLogo(rng, imaxi(1, w/6), imaxi(1, h/6))
				o.opts = append(o.opts, standard.WithLogoImage(o.logo))
				o.present += "L"
				if rng.Intn(2) == 0 {
					o.opts = append(o.opts, standard.WithLogoSafeZone())
					o.present += "Z"
				}
			}
			if rng.Intn(3) == 0 {
				o.half, _, _ = someLogo(rng, 1+rng.Intn(80), 1+rng.Intn(80))
				o.opts = append(o.opts, standard.WithHalftoneImage(o.half))
				o.present += "H"
			}
			if rng.Intn(3) == 0 {
				o.grad = standard.NewGradient(someAngle(rng), someStops(rng)...)
				o.opts = append(o.opts, standard.WithFgGradient(o.grad))
				o.present += "G"
			}
			if rng.Intn(3) == 0 {
				o.opts = append(o.opts, someShape(rng).opt()...)
				o.present += "S"
			}
			return o
		}
		mine := mk(true)
		opts, present, logo, half, grad := mine.opts, mine.present, mine.logo, mine.half, mine.grad
		var stops gradStops
		if grad != nil {
			stops = append(stops, grad.Stops...)
		}
		special := opts[len(s.opts()):]
		var ld, hd uint64
		if logo != nil {
			ld = imageDigest(logo)
		}
		if half != nil {
			hd = imageDigest(half)
		}
		angle := 0.0
		if grad != nil {
			angle = grad.Angle
			given := append(gradStops{}, stops...)
			c.Rng.Shuffle(len(given), func(i, j int) { given[i], given[j] = given[j], given[i] })
			kept := append(gradStops{}, given...)
			standard.NewGradient(angle, given...)
			if !slices.Equal(given, kept) {
				c.Failf("NewGradient changed the stops it was given from %v to %v", kept, given)
				return
			}
		}
		tapEnc := &imgTap{}
		all := append(append([]standard.ImageOption{}, opts...), standard.WithCustomImageEncoder(tapEnc))
		shared := standard.NewWithWriter(&sink{}, all...)
		attr := *shared.Attribute(dim)
		n := 3 + c.Rng.Intn(5)
		for i := 0; i < n; i++ {
			k := c.Rng.Intn(len(qs))
			c.Desc("draw %d of %d: symbol %d of %d with %v, options %s", i+1, n, k, len(qs), s, present)
			tapEnc.imgs = nil
			if err := qs[k].Save(shared); err != nil || len(tapEnc.imgs) != 1 {
				c.Failf("drawing failed: %v, %d images", err, len(tapEnc.imgs))
				return
			}
			got := tapEnc.imgs[0]
			// a writer made just now, from options made just now
			fresh, _, err := render(qs[k], mk(true).opts...)
			if err != nil {
				c.Failf("drawing failed: %v", err)
				return
			}
			if d := diffImages(got, asRGBA(fresh), 0); d != "" {
				c.Failf("the reused writer draws differently from a fresh one: %s", d)
				return
			}
			if c.Rng.Intn(2) == 0 && len(special) > 0 {
				// the same option values given to a writer of another size
				o := style{BW: 1 + c.Rng.Intn(12), Borders: []int{c.Rng.Intn(40), c.Rng.Intn(40)}}
				j := c.Rng.Intn(len(qs))
				c.Desc("draw %d of %d with %v, options %s; then symbol %d with %v and the same option values", i+1, n, s, present, j, o)
				a, _, err := render(qs[j], append(o.opts(), special...)...)
				if err != nil {
					c.Failf("drawing failed: %v", err)
					return
				}
				b, _, err := render(qs[j], append(o.opts(), mk(false).opts...)...)
				if err != nil {
					c.Failf("drawing failed: %v", err)
					return
				}
				if d := diffImages(a, asRGBA(b), 0); d != "" {
					c.Failf("options used before draw differently from new ones: %s", d)
					return
				}
				c.Count("reused_options_compared", 1)
			}
			if *shared.Attribute(dim) != attr {
				c.Failf("the attributes changed from %+v to %+v", attr, *shared.Attribute(dim))
				return
			}
			m, err := matrixOf(qs[k])
			if err != nil || typedDigest(m) != digests[k] {
				c.Failf("drawing changed the symbol (err %v)", err)
				return
			}
			c.Count("reused_draws_compared", 1)
		}
		for i := range raws {
			if !bytes.Equal(raws[i], keep[i]) {
				c.Failf("the text was changed from %q to %q", keep[i], raws[i])
				return
			}
			// and the symbol does not depend on the text any more
			for j := range raws[i] {
				raws[i][j] ^= 0x55
			}
			if m, err := matrixOf(qs[i]); err != nil || typedDigest(m) != digests[i] {
				c.Failf("changing the text after encoding changed the symbol (err %v)", err)
				return
			}
		}
		if logo != nil && imageDigest(logo) != ld {
			c.Failf("drawing changed the logo")
			return
		}
		if half != nil && imageDigest(half) != hd {
			c.Failf("drawing changed the halftone image")
			return
		}
		if grad != nil {
			if grad.Angle != angle || len(grad.Stops) != len(stops) {
				c.Failf("drawing changed the gradient")
				return
			}
			for i := range stops {
				if grad.Stops[i] != stops[i] {
					c.Failf("drawing changed the gradient's stops")
					return
				}
			}
		}
		// the options themselves still mean what they meant
		if present == "" {
			_, g, _ := qsGrid(qs[0])
			img, _, err := render(qs[0], opts...)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			if d := diffImages(img, s.model(g), 0); d != "" {
				c.Failf("after %d draws with these options: %s", n, d)
				return
			}
		}
		c.Key("std-%s-%v-%d-%d", present, s.Transparent, len(qs), n)
	})
	// an image given to an encoder is the encoder's, whatever is drawn later
	r.Each("kept-images", r.N(60, 900), func(c *C) {
		var imgs []image.Image
		var sums []uint64
		s := someStyle(c.Rng, 30, 2, 20000)
		big := c.Index%15 == 7
		if big { // pictures of one size, of more than a million pixels
			s.BW = bigBW(c.Rng, 21, 1)
		}
		o := append(s.opts(), standard.WithCustomImageEncoder(encFunc(func(_ io.Writer, img image.Image) error {
			imgs, sums = append(imgs, img), append(sums, imageDigest(img))
			if len(imgs)%3 == 0 { // it may draw on it
				if d, ok := img.(draw.Image); ok {
					draw.Draw(d, d.Bounds(), image.NewUniform(randRGBA(c.Rng)), image.Point{}, draw.Src)
					sums[len(sums)-1] = imageDigest(img)
				}
			}
			return nil
		})))
		w := standard.NewWithWriter(discardCloser{}, o...)
		n := 3 + c.Rng.Intn(5)
		if big {
			n = 3
		}
		c.Desc("%d images of %v kept by an encoder", n, s)
		for i := 0; i < n; i++ {
			_, q, g, ok := smallSym(c, 1+c.Rng.Intn(2)*b2i(!big))
			if !ok {
				return
			}
			if c.Rng.Intn(3) == 0 {
				w = standard.NewWithWriter(discardCloser{}, o...)
			}
			k := len(imgs)
			if err := q.Save(w); err != nil || len(imgs) != k+1 {
				c.Failf("%v", err)
				return
			}
			if len(imgs)%3 != 0 {
				if d := diffImages(imgs[k], s.model(g), 0); d != "" {
					c.Failf("image %d: %s", k, d)
					return
				}
			}
			for j := range imgs {
				if imageDigest(imgs[j]) != sums[j] {
					c.Failf("image %d changed when image %d was drawn", j, k)
					return
				}
			}
		}
		c.Count("kept_images", n)
		c.Key("kept-%d-%v", n, s.Transparent)
	})
	// saves that failed or panicked leave nothing behind
	r.Each("after-failures", r.N(250, 4000), func(c *C) {
		_, q, _, ok := smallSym(c, 6)
		if !ok {
			return
		}
		_, q2, _, ok := smallSym(c, 6)
		if !ok {
			return
		}
		s := someStyle(c.Rng, 30, 1, 20000)
		sh := shape{kind: "default", name: "default"}
		o := s.opts()
		switch c.Rng.Intn(3) {
		case 0:
			o = append(o, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
		case 1:
			o = append(o, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
		}
		if c.Rng.Intn(3) == 0 && s.width() >= 4 {
			sh = someShape(c.Rng)
			o = append(o, sh.opt()...)
		}
		boom := &boomShape{}
		if sh.kind == "default" && c.Rng.Intn(2) == 0 {
			o = append(o, standard.WithCustomShape(boom))
			sh.name = "panicking"
		}
		f := &faulty{failCall: -1, failByte: -1, err: io.ErrShortBuffer}
		var w qrcode.Writer = standard.NewWithWriter(f, o...)
		fresh := func(out io.WriteCloser) qrcode.Writer { return standard.NewWithWriter(out, o...) }
		if c.Rng.Intn(4) == 0 {
			co := &compressed.Option{Padding: c.Rng.Intn(5), BlockSize: 1 + c.Rng.Intn(4)}
			w = compressed.NewWithWriter(f, co)
			fresh = func(out io.WriteCloser) qrcode.Writer { return compressed.NewWithWriter(out, co) }
			sh.name = "none, compressed"
		}
		for i := 0; i < 3; i++ {
			f.failCall, f.failByte, boom.at = f.calls, -1, -1
			kind := c.Rng.Intn(3)
			switch kind {
			case 0:
				f.failCall, f.failByte = -1, f.taken+c.Rng.Intn(60)
			case 1:
				boom.at = c.Rng.Intn(200)
			}
			boom.exit = c.Rng.Intn(2) == 0
			gone := make(chan struct{})
			go func() {
				defer close(gone)
				defer func() { recover() }()
				q2.Save(w)
			}()
			<-gone
			f.failCall, f.failByte, boom.at = -1, -1, -1
			c.Desc("%v with %v, shape %s after %d failed saves, the last of kind %d", q.Dimension(), s, sh.name, i+1, kind)
			a, b := &sink{}, &sink{}
			f.into = a
			done := make(chan error, 1)
			go func() { done <- q.Save(w) }()
			select {
			case err := <-done:
				if err != nil {
					c.Failf("the output works again, but saving fails: %v", err)
					return
				}
			case <-time.After(100 * time.Second):
				c.Failf("the output works again, but saving does not end")
				return
			}
			f.into = nil
			if err := q.Save(fresh(b)); err != nil {
				c.Failf("%v", err)
				return
			}
			if !bytes.Equal(a.Bytes(), b.Bytes()) {
				c.Failf("the writer gives %d bytes that differ from the %d of a fresh one", a.Len(), b.Len())
				return
			}
			c.Count("draws_after_failures_compared", 1)
			c.Key("fail-%s-%d", sh.kind, kind)
		}
	})
	// the same drawings in fresh processes, in other orders
	self, _ := os.Executable()
	r.Each("processes", r.N(10, 100), func(c *C) {
		seeds := make([]string, 40)
		for i := range seeds {
			seeds[i] = strconv.FormatInt(c.Rng.Int63(), 10)
		}
		c.Desc("%d drawings in two fresh processes in different orders", len(seeds))
		first := map[string]string{}
		for n := 0; n < 2; n++ {
			c.Rng.Shuffle(len(seeds), func(i, j int) { seeds[i], seeds[j] = seeds[j], seeds[i] })
			var eb limited
			cmd := exec.Command(self, append([]string{"-child", "pictures"}, seeds...)...)
			cmd.Env = os.Environ()
			for n, v := range oddEnv(c.Rng) {
				cmd.Env = append(cmd.Env, n+"="+v)
			}
			cmd.Stderr = &eb
			out, err := cmd.Output()
			if err != nil {
				c.Failf("the process failed: %v\n%s", err, clip(eb.String(), 1500))
				return
			}
			ls := strings.Split(strings.TrimSpace(string(out)), "\n")
			if len(ls) != len(seeds) {
				c.Failf("%d results for %d drawings", len(ls), len(seeds))
				return
			}
			for i, l := range ls {
				if n > 0 && first[seeds[i]] != l {
					c.Failf("a drawing depends on those before it: %q in one process, %q in the other", first[seeds[i]], l)
					return
				}
				first[seeds[i]] = l
			}
		}
		c.Count("pictures_equal_across_processes", len(seeds))
		c.Key("processes-%d", c.Index)
	})
	r.Each("other-writers", r.N(100, 1500), func(c *C) {
		_, q1, g1, ok := smallSym(c, 5)
		if !ok {
			return
		}
		_, q2, g2, ok := smallSym(c, 5)
		if !ok {
			return
		}
		c.Desc("text and compressed writers reused for two symbols")
		f, err := os.CreateTemp(r.Scratch, "c32")
		if err != nil {
			panic(err)
		}
		defer os.Remove(f.Name())
		defer f.Close()
		w := file.New(f)
		s := &sink{}
		cw := compressed.NewWithWriter(s, &compressed.Option{Padding: 1, BlockSize: 2})
		for i := 0; i < 4; i++ {
			q, g := q1, g1
			if c.Rng.Intn(2) == 0 {
				q, g = q2, g2
			}
			f.Truncate(0)
			f.Seek(0, 0)
			s.Reset()
			if err := q.Save(w); err != nil {
				c.Failf("text save %d failed: %v", i, err)
				return
			}
			b, _ := os.ReadFile(f.Name())
			got, bad := parseText(b)
			if bad != "" || diffGrids(got, g) != "" {
				c.Failf("text save %d: %s %s", i, bad, diffGrids(got, g))
				return
			}
			if err := q.Save(cw); err != nil {
				c.Failf("compressed save %d failed: %v", i, err)
				return
			}
			img, err := png.Decode(&s.Buffer)
			if err != nil {
				c.Failf("compressed save %d: %v", i, err)
				return
			}
			st := style{BW: 2, Borders: []int{1}}
			if d := diffImages(img, st.model(g), 0); d != "" {
				c.Failf("compressed save %d: %s", i, d)
				return
			}
			c.Count("reused_draws_compared", 2)
		}
		c.Key("other-%d-%d", len(g1), len(g2))
	})
}

// boomShape draws squares and panics at one of the calls.
type boomShape struct {
	at   int
	exit bool // ends the goroutine instead
}

func (b *boomShape) Draw(ctx *standard.DrawContext) {
	if b.at == 0 {
		b.at = -1
		if b.exit {
			runtime.Goexit()
		}
		panic("shape panics")
	}
	b.at--
	w, h := ctx.Edge()
	x, y := ctx.UpperLeft()
	ctx.DrawRectangle(x, y, float64(w), float64(h))
	ctx.SetColor(ctx.Color())
	ctx.Fill()
}
func (b *boomShape) DrawFinder(ctx *standard.DrawContext) { b.Draw(ctx) }

func init() {
	// pictures: draws what each seed says and prints a digest per line.
	childRoles["pictures"] = func(args []string) {
		for _, a := range args {
			seed, _ := strconv.ParseInt(a, 10, 64)
			fmt.Println(pictureOf(rand.New(rand.NewSource(seed))))
		}
	}
}

func pictureOf(r *rand.Rand) string {
	ver := 1 + r.Intn(3)
	q, err := qrcode.NewWith(textOf(r, qrref.ModeByte, r.Intn(8)), qrcode.WithVersion(ver))
	if err != nil {
		return err.Error()
	}
	if r.Intn(5) == 0 {
		s := &sink{}
		o := compressed.Option{Padding: r.Intn(4), BlockSize: 1 + r.Intn(3)}
		if err := q.Save(compressed.NewWithWriter(s, &o)); err != nil {
			return err.Error()
		}
		return fmt.Sprintf("version %d compressed %v: %x", ver, o, sha256.Sum256(s.Bytes()))
	}
	s := style{BW: 1 + r.Intn(8), Borders: []int{r.Intn(3)}}
	d := fmt.Sprintf("version %d block %d border %v", ver, s.BW, s.Borders)
	o := s.opts()
	switch r.Intn(4) {
	case 0:
	case 1:
		sh := someShape(r)
		o, d = append(o, sh.opt()...), d+" "+sh.name
	default:
		o, d = append(o, standard.WithCircleShape()), d+" circle"
	}
	if r.Intn(3) == 0 {
		l, k, _ := someLogo(r, 1+r.Intn(6), 1+r.Intn(6))
		o, d = append(o, standard.WithLogoImage(l)), d+" logo "+k
	}
	if r.Intn(3) == 0 {
		l, k, _ := someLogo(r, 1+r.Intn(80), 1+r.Intn(80))
		o, d = append(o, standard.WithHalftoneImage(l)), d+" halftone "+k
	}
	if r.Intn(3) == 0 {
		o, d = append(o, standard.WithFgGradient(standard.NewGradient(someAngle(r), someStops(r)...))), d+" gradient"
	}
	format := []standard.ImageOption{standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT)}[r.Intn(2)]
	out := &sink{}
	if err := q.Save(standard.NewWithWriter(out, append(o, format)...)); err != nil {
		return err.Error()
	}
	return fmt.Sprintf("%s: %x", d, sha256.Sum256(out.Bytes()))
}

func qsGrid(q *qrcode.QRCode) (qrcode.Matrix, qrref.Grid, error) {
	m, err := matrixOf(q)
	if err != nil {
		return m, nil, err
	}
	return m, qrref.Grid(m.Bitmap()), nil
}

// ---- C34 -------------------------------------------------------------------

// fdsUnder lists this process's descriptors on files under dir.
func fdsUnder(dir string) []string {
	var out []string
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		if l, err := os.Readlink(filepath.Join("/proc/self/fd", e.Name())); err == nil && (l == dir || strings.HasPrefix(l, dir+"/")) {
			out = append(out, l)
		}
	}
	return out
}

// panicky is an image whose pixels cannot be had.
type panicky struct{ image.Image }

func (panicky) At(x, y int) color.Color { panic("no pixel") }

func runC34(r *R) {
	r.Each("saves", r.N(400, 6000), func(c *C) {
		dir, err := os.MkdirTemp(r.Scratch, "c34")
		if err != nil {
			panic(err)
		}
		dir, _ = filepath.EvalSymlinks(dir)
		defer os.RemoveAll(dir)
		n := 4 + c.Rng.Intn(8)
		for i := 0; i < n; i++ {
			_, q, _, ok := smallSym(c, 3)
			if !ok {
				return
			}
			kind := []string{"standard", "compressed"}[c.Rng.Intn(2)]
			place := []string{"new", "existing", "longer", "same", "directory", "missing directory", "empty name", "long name", "link", "file as directory", "second name", "pipe"}[c.Rng.Intn(12)]
			fail := []string{"", "", "error", "panic"}[c.Rng.Intn(4)]
			if kind == "compressed" {
				fail = ""
			}
			p := filepath.Join(dir, fmt.Sprintf("f%d.png", i))
			bad := false
			var pipe *os.File
			var piped chan []byte
			var mode os.FileMode
			switch place {
			case "existing":
				os.WriteFile(p, []byte("x"), 0644)
			case "longer":
				os.WriteFile(p, bytes.Repeat([]byte{0xff, 0xd9}, []int{200000, 200000, 1 << 20, 3 << 20}[c.Rng.Intn(4)]), 0644)
			case "same":
				p = filepath.Join(dir, "same.png")
			case "directory":
				os.Mkdir(p, 0755)
				bad = true
			case "missing directory":
				p, bad = filepath.Join(dir, "none", "x.png"), true
			case "empty name":
				p, bad = "", true
			case "long name":
				p, bad = filepath.Join(dir, strings.Repeat("n", 300)), true
			case "link":
				os.WriteFile(filepath.Join(dir, "target"+strconv.Itoa(i)), bytes.Repeat([]byte("t"), 50000), 0644)
				os.Symlink(filepath.Join(dir, "target"+strconv.Itoa(i)), p)
			case "pipe":
				die(syscall.Mkfifo(p, 0600))
				// opened first, so that opening the other end does not wait
				pipe, err = os.OpenFile(p, os.O_RDONLY|syscall.O_NONBLOCK, 0)
				die(err)
			case "second name": // of a file with permissions of its own
				os.WriteFile(p, bytes.Repeat([]byte("s"), 1<<uint(c.Rng.Intn(19))), 0644)
				mode = []os.FileMode{0600, 0640, 0666, 0755}[c.Rng.Intn(4)]
				os.Chmod(p, mode)
				os.Link(p, filepath.Join(dir, "target"+strconv.Itoa(i)))
			case "file as directory":
				os.WriteFile(p, []byte("x"), 0644)
				p, bad = filepath.Join(p, "y.png"), true
			}
			c.Desc("save %d: %s to a %s path, encoder %q", i, kind, place, fail)
			var w qrcode.Writer
			want := &sink{}
			var ww qrcode.Writer
			if kind == "standard" {
				o := []standard.ImageOption{standard.WithQRWidth(uint8(1 + c.Rng.Intn(4))), standard.WithBorderWidth(c.Rng.Intn(5))}
				switch {
				case fail == "error":
					o = append(o, standard.WithCustomImageEncoder(encFunc(func(w io.Writer, _ image.Image) error { return io.ErrShortBuffer })))
				case fail == "panic":
					o = append(o, standard.WithCustomImageEncoder(encFunc(func(w io.Writer, _ image.Image) error { panic("encoder panics") })))
				case c.Rng.Intn(2) == 0:
					o = append(o, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
				}
				sw, e := standard.New(p, o...)
				err = e
				if sw != nil {
					w = sw
				}
				ww = standard.NewWithWriter(want, o...)
			} else {
				o := &compressed.Option{Padding: c.Rng.Intn(4), BlockSize: 1 + c.Rng.Intn(3)}
				w, err = compressed.New(p, o)
				ww = compressed.NewWithWriter(want, o)
			}
			if bad {
				if err == nil {
					c.Failf("a path that cannot be opened was accepted")
					return
				}
				if f := fdsUnder(dir); len(f) > 0 {
					c.Failf("after the error, descriptors are open: %v", f)
					return
				}
				if place == "missing directory" {
					if _, err := os.Stat(filepath.Join(dir, "none")); err == nil {
						c.Failf("the missing directory was created")
						return
					}
				}
				c.Count("unusable_paths_refused", 1)
				c.Key("%s-%s", kind, place)
				continue
			}
			if err != nil {
				c.Failf("opening failed: %v", err)
				return
			}
			if pipe != nil {
				piped = make(chan []byte, 1)
				pipe.SetReadDeadline(time.Now().Add(60 * time.Second))
				go func() {
					b, err := io.ReadAll(pipe)
					if err != nil {
						b = []byte("no end of the pipe: " + err.Error())
					}
					pipe.Close()
					piped <- b
				}()
			}
			var serr error
			func() {
				defer func() {
					if e := recover(); e != nil {
						serr = fmt.Errorf("panic: %v", e)
					}
				}()
				serr = q.Save(w)
			}()
			var through []byte
			if pipe != nil {
				through = <-piped
			}
			if f := fdsUnder(dir); len(f) > 0 {
				c.Failf("after Save returned (%v), descriptors are open: %v", serr, f)
				return
			}
			if (fail == "") != (serr == nil) {
				c.Failf("Save returned %v", serr)
				return
			}
			if fail == "" {
				if err := q.Save(ww); err != nil {
					c.Failf("%v", err)
					return
				}
				got := through
				if pipe == nil {
					if got, err = os.ReadFile(p); err != nil {
						c.Failf("the file cannot be read: %v", err)
						return
					}
				}
				if !bytes.Equal(got, want.Bytes()) {
					c.Failf("the file has %d bytes that differ from the %d bytes written to memory", len(got), want.Len())
					return
				}
				if place == "second name" {
					a, err := os.Stat(p)
					b, err2 := os.Stat(filepath.Join(dir, "target"+strconv.Itoa(i)))
					if err != nil || err2 != nil || !os.SameFile(a, b) {
						c.Failf("the file was replaced by another, its second name has the old content (%v, %v)", err, err2)
						return
					}
					if a.Mode().Perm() != mode {
						c.Failf("the permissions of the file became %v, they were %v", a.Mode().Perm(), mode)
						return
					}
				}
				if place == "link" {
					if fi, err := os.Lstat(p); err != nil || fi.Mode()&os.ModeSymlink == 0 {
						c.Failf("the link was replaced")
						return
					}
				}
				c.Count("files_compared", 1)
			} else {
				c.Count("failed_saves_closed", 1)
			}
			c.Key("%s-%s-%s", kind, place, fail)
		}
		// only the files asked for exist
		ents, _ := os.ReadDir(dir)
		for _, e := range ents {
			var k int
			nm := e.Name()
			if fmt.Sscanf(nm, "f%d.png", &k); nm == fmt.Sprintf("f%d.png", k) && k < n || nm == "same.png" {
				continue
			}
			if fmt.Sscanf(nm, "target%d", &k); nm == fmt.Sprintf("target%d", k) && k < n {
				continue
			}
			c.Failf("a file %q appeared", nm)
			return
		}
	})
	// the file is the one of the name at the time it was opened
	r.Serial("moved", r.N(40, 400), func(c *C) {
		dir, err := os.MkdirTemp(r.Scratch, "c34m")
		die(err)
		defer os.RemoveAll(dir)
		home, err := os.Getwd()
		die(err)
		defer os.Chdir(home)
		_, q, _, ok := smallSym(c, 3)
		if !ok {
			return
		}
		name := pick(c.Rng, "q.png", "./q.jpeg", "sub/q.png", "../a/q", "q")
		for _, d := range []string{"a/sub", "b/sub"} {
			die(os.MkdirAll(filepath.Join(dir, d), 0755))
		}
		die(os.Mkdir(filepath.Join(dir, "b", "a"), 0755))
		old := bytes.Repeat([]byte("old"), c.Rng.Intn(3000))
		mode := []os.FileMode{0600, 0644, 0400}[c.Rng.Intn(3)]
		other := c.Rng.Intn(3) > 0
		there := filepath.Join(dir, "b", name)
		if strings.HasPrefix(name, "..") {
			there = filepath.Join(dir, "b", "q")
			other = false
		}
		if other {
			die(os.WriteFile(there, old, 0600))
			die(os.Chmod(there, mode))
		}
		die(os.Chdir(filepath.Join(dir, "a")))
		c.Desc("%q opened, then another working directory, with a file of that name: %v", name, other)
		want := &sink{}
		var w, ww qrcode.Writer
		if c.Rng.Intn(2) == 0 {
			o := []standard.ImageOption{standard.WithQRWidth(uint8(1 + c.Rng.Intn(4)))}
			if w, err = standard.New(name, o...); err == nil {
				ww = standard.NewWithWriter(want, o...)
			}
		} else {
			o := &compressed.Option{Padding: 1, BlockSize: 2}
			if w, err = compressed.New(name, o); err == nil {
				ww = compressed.NewWithWriter(want, o)
			}
		}
		if err != nil {
			c.Failf("%v", err)
			return
		}
		die(os.Chdir(filepath.Join(dir, "b")))
		err = q.Save(w)
		die(os.Chdir(filepath.Join(dir, "a")))
		if err != nil || q.Save(ww) != nil {
			c.Failf("Save failed: %v", err)
			return
		}
		if b, err := os.ReadFile(name); err != nil || !bytes.Equal(b, want.Bytes()) {
			c.Failf("the file has %d bytes (%v) that differ from the %d written to memory", len(b), err, want.Len())
			return
		}
		fi, err := os.Lstat(there)
		switch {
		case !other && err == nil && !strings.HasPrefix(name, ".."):
			c.Failf("a file appeared in the later working directory")
		case other:
			b, _ := os.ReadFile(there)
			if err != nil || !bytes.Equal(b, old) || fi.Mode().Perm() != mode {
				c.Failf("the file of that name in the later working directory was changed: %v, %d bytes of %d", fi, len(b), len(old))
			}
		}
		c.Count("working_directories_changed", 1)
		c.Key("moved-%s-%v", name, other)
	})
	// devices
	r.Each("devices", r.N(24, 120), func(c *C) {
		_, q, _, ok := smallSym(c, 3)
		if !ok {
			return
		}
		dev := []string{"/dev/null", "/dev/zero", "/dev/full"}[c.Index%3]
		c.Desc("%s", dev)
		w, err := qrcode.Writer(nil), error(nil)
		if c.Index/3%2 == 0 {
			w, err = standard.New(dev, standard.WithQRWidth(2))
		} else {
			w, err = compressed.New(dev, &compressed.Option{Padding: 1, BlockSize: 1})
		}
		if err != nil {
			c.Failf("opening failed: %v", err)
			return
		}
		if err = q.Save(w); (err != nil) != (dev == "/dev/full") {
			c.Failf("Save returned %v", err)
			return
		}
		c.Count("devices_written", 1)
		c.Key("%s-%d", dev, c.Index/3%2)
	})
	// the function that saves an image
	r.Each("image-files", r.N(200, 3000), func(c *C) {
		dir, err := os.MkdirTemp(r.Scratch, "c34i")
		if err != nil {
			panic(err)
		}
		dir, _ = filepath.EvalSymlinks(dir)
		defer os.RemoveAll(dir)
		ext := []string{".png", ".jpg", ".jpeg", ".gif"}[c.Rng.Intn(4)]
		img, kind := anyImage(c.Rng, 40)
		fresh, p, other := filepath.Join(dir, "fresh"+ext), filepath.Join(dir, "f"+ext), filepath.Join(dir, "target")
		place := []string{"new", "longer", "twice", "link", "second name", "directory", "missing directory", "empty name", "panicking image"}[c.Rng.Intn(9)]
		c.Desc("%s %v saved as *%s to a %s path", kind, img.Bounds(), ext, place)
		ferr := imgkit.Save(img, fresh)
		mode := os.FileMode(0)
		bad := false
		switch place {
		case "longer":
			os.WriteFile(p, bytes.Repeat([]byte{0xff, 0xd9}, []int{100000, 100000, 1 << 20, 3 << 20}[c.Rng.Intn(4)]), 0644)
		case "twice":
			big := image.NewGray(image.Rect(0, 0, 200, 200))
			c.Rng.Read(big.Pix)
			imgkit.Save(big, p)
		case "link":
			os.WriteFile(other, bytes.Repeat([]byte("t"), 100000), 0644)
			os.Symlink(other, p)
		case "second name":
			os.WriteFile(p, bytes.Repeat([]byte("s"), 1<<uint(c.Rng.Intn(19))), 0644)
			mode = []os.FileMode{0600, 0640, 0666, 0755}[c.Rng.Intn(4)]
			os.Chmod(p, mode)
			os.Link(p, other)
		case "directory":
			os.Mkdir(p, 0755)
			bad = true
		case "missing directory":
			p, bad = filepath.Join(dir, "none", "x"+ext), true
		case "empty name":
			p, bad = "", true
		case "panicking image":
			func() {
				defer func() { recover() }()
				imgkit.Save(panicky{img}, p)
			}()
			if f := fdsUnder(dir); len(f) > 0 {
				c.Failf("after a panic of the image, descriptors are open: %v", f)
				return
			}
		}
		err = imgkit.Save(img, p)
		if f := fdsUnder(dir); len(f) > 0 {
			c.Failf("after Save returned (%v), descriptors are open: %v", err, f)
			return
		}
		if (err != nil) != (bad || ferr != nil) {
			c.Failf("Save returned %v, to a new file %v", err, ferr)
			return
		}
		if err == nil {
			a, err := os.ReadFile(p)
			b, err2 := os.ReadFile(fresh)
			if err != nil || err2 != nil || !bytes.Equal(a, b) {
				c.Failf("the file has %d bytes that differ from the %d bytes of a new one (%v, %v)", len(a), len(b), err, err2)
				return
			}
			switch place {
			case "link":
				if fi, err := os.Lstat(p); err != nil || fi.Mode()&os.ModeSymlink == 0 {
					c.Failf("the link was replaced")
					return
				}
			case "second name":
				a, err := os.Stat(p)
				b, err2 := os.Stat(other)
				if err != nil || err2 != nil || !os.SameFile(a, b) || a.Mode().Perm() != mode {
					c.Failf("the file was replaced by another or its permissions changed (%v, %v)", err, err2)
					return
				}
			}
			c.Count("image_files_compared", 1)
		} else {
			c.Count("unusable_paths_refused", 1)
		}
		ents, _ := os.ReadDir(dir)
		for _, e := range ents {
			if n := e.Name(); n != "fresh"+ext && n != "f"+ext && n != "target" {
				c.Failf("a file %q appeared", n)
				return
			}
		}
		c.Key("image-%s-%s", place, ext)
	})
	// option files
	r.Each("options", r.N(100, 1000), func(c *C) {
		dir, err := os.MkdirTemp(r.Scratch, "c34o")
		if err != nil {
			panic(err)
		}
		dir, _ = filepath.EvalSymlinks(dir)
		defer os.RemoveAll(dir)
		img, kind, _ := someLogo(c.Rng, 1+c.Rng.Intn(10), 1+c.Rng.Intn(10))
		var pb, jb bytes.Buffer
		png.Encode(&pb, img)
		jpeg.Encode(&jb, img, nil)
		files := map[string][]byte{"p.png": pb.Bytes(), "j.jpg": jb.Bytes(), "cut.png": pb.Bytes()[:pb.Len()/2], "cut.jpg": jb.Bytes()[:jb.Len()/2], "bad.png": []byte("junk"), "empty.jpg": nil}
		for n, b := range files {
			os.WriteFile(filepath.Join(dir, n), b, 0644)
		}
		_, q, _, ok := smallSym(c, 3)
		if !ok {
			return
		}
		for n := range files {
			p := filepath.Join(dir, n)
			for k, o := range []standard.ImageOption{standard.WithLogoImageFilePNG(p), standard.WithLogoImageFileJPEG(p), standard.WithHalftone(p), standard.WithHalftone(p + "-none"), standard.WithLogoImageFilePNG(p + "-none"), standard.WithLogoImageFileJPEG(p + "-none")} {
				c.Desc("option %d with file %s (%s)", k, n, kind)
				if _, _, err := render(q, o, standard.WithQRWidth(3)); err != nil {
					c.Failf("drawing failed: %v", err)
					return
				}
				if f := fdsUnder(dir); len(f) > 0 {
					c.Failf("descriptors are open: %v", f)
					return
				}
				if b, err := os.ReadFile(p); err != nil || !bytes.Equal(b, files[n]) {
					c.Failf("the file was changed")
					return
				}
				c.Count("option_files_closed", 1)
				c.Key("opt-%d-%s", k, n)
			}
			imgkit.Read(p)
			imgkit.Save(img, filepath.Join(dir, "s-"+n))
			imgkit.Save(img, filepath.Join(dir, "s-"+n+".bmp"))
			if f := fdsUnder(dir); len(f) > 0 {
				c.Failf("descriptors are open after reading and saving images: %v", f)
				return
			}
		}
	})
}
