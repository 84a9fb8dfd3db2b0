package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"

	"verifharness/qrref"

	"github.com/yeqown/go-qrcode/writer/terminal"
)

func init() {
	register(&Prop{ID: "C27", Run: runC27, Assume: []string{"an xterm-like terminal (xterm, screen, tmux, rxvt)", "a screen that does not become right within a minute of silence is taken to be final"},
		Rule: "symbols of all versions drawn on a pseudo terminal by a process of its own, one to four in a row; its output is replayed on an emulated screen and every cell of the symbol and its padding compared, with mouse and resize events in between; afterwards the terminal settings, screen and cursor are compared with those before. Distinct by (version, position in the sequence, events)."})
	childRoles["terminal"] = childTerminal
}

// ---- pseudo terminal -------------------------------------------------------

type pty struct {
	master, slave *os.File
}

func ioctl(fd, req uintptr, arg unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg)); e != 0 {
		return e
	}
	return nil
}

func openPty() (*pty, error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	var n, unlock int32
	if err := ioctl(uintptr(fd), syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)); err != nil {
		syscall.Close(fd)
		return nil, err
	}
	if err := ioctl(uintptr(fd), syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		syscall.Close(fd)
		return nil, err
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		syscall.Close(fd)
		return nil, err
	}
	return &pty{os.NewFile(uintptr(fd), "ptmx"), s}, nil
}

func (p *pty) resize(rows, cols int) error {
	ws := [4]uint16{uint16(rows), uint16(cols)}
	return ioctl(p.slave.Fd(), syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
}

func (p *pty) termios() (t syscall.Termios, err error) {
	err = ioctl(p.slave.Fd(), syscall.TCGETS, unsafe.Pointer(&t))
	return
}

func (p *pty) close() { p.master.Close(); p.slave.Close() }

// ---- screen ----------------------------------------------------------------

const defaultColour = -1

type cell struct {
	ch     rune
	fg, bg int
	rev    bool
}

// shows returns the colours of the upper/left and the lower/right part.
func (c cell) shows() (int, bool) {
	fg, bg := c.fg, c.bg
	if c.rev {
		fg, bg = bg, fg
	}
	switch c.ch {
	case '█':
		return fg, true
	case ' ', 0:
		return bg, true
	}
	return 0, false
}

// screen is the part of an xterm that full-screen programs use.
type screen struct {
	rows, cols       int
	cells            [2][]cell // main and alternate
	alt              int
	x, y             int
	pen              cell
	hidden, keypad   bool
	pending          []byte
	unknown          []string
	mouse, appCursor bool
	oscs             int
}

func newScreen(rows, cols int) *screen {
	s := &screen{rows: rows, cols: cols}
	for i := range s.cells {
		s.cells[i] = make([]cell, rows*cols)
	}
	s.sgr("")
	for i := range s.cells {
		s.erase(i)
	}
	return s
}

func (s *screen) erase(i int) {
	for k := range s.cells[i] {
		s.cells[i][k] = cell{' ', defaultColour, s.pen.bg, false}
	}
}

func (s *screen) at(x, y int) cell {
	if x < 0 || y < 0 || x >= s.cols || y >= s.rows {
		return cell{}
	}
	return s.cells[s.alt][y*s.cols+x]
}

func (s *screen) sgr(p string) {
	f := strings.Split(p, ";")
	n := func(i int) int {
		if i >= len(f) || f[i] == "" {
			return 0
		}
		v, _ := strconv.Atoi(f[i])
		return v
	}
	for i := 0; i < len(f); i++ {
		v := n(i)
		switch {
		case v == 0:
			s.pen = cell{0, defaultColour, defaultColour, false}
		case v == 7:
			s.pen.rev = true
		case v == 27:
			s.pen.rev = false
		case v >= 30 && v <= 37:
			s.pen.fg = v - 30
		case v >= 90 && v <= 97:
			s.pen.fg = v - 90 + 8
		case v >= 40 && v <= 47:
			s.pen.bg = v - 40
		case v >= 100 && v <= 107:
			s.pen.bg = v - 100 + 8
		case v == 39:
			s.pen.fg = defaultColour
		case v == 49:
			s.pen.bg = defaultColour
		case v == 38 || v == 48:
			c := 0
			if n(i+1) == 5 {
				c = n(i + 2)
				i += 2
			} else {
				c = 0x1000000 | n(i+2)<<16 | n(i+3)<<8 | n(i+4)
				i += 4
			}
			if v == 38 {
				s.pen.fg = c
			} else {
				s.pen.bg = c
			}
		}
	}
}

func (s *screen) mode(p string, on bool) {
	for _, m := range strings.Split(strings.TrimPrefix(p, "?"), ";") {
		switch m {
		case "1049", "47", "1047":
			s.alt = b2i(on)
			if on {
				s.erase(1)
			}
		case "25":
			s.hidden = !on
		case "1":
			s.appCursor = on
		case "1000", "1002", "1003", "1006", "1015":
			s.mouse = on
		}
	}
}

func (s *screen) csi(p string, final byte) {
	f := strings.Split(strings.TrimLeft(p, "?>"), ";")
	n := func(i, def int) int {
		if i < len(f) {
			if v, err := strconv.Atoi(f[i]); err == nil && v > 0 {
				return v
			}
		}
		return def
	}
	switch final {
	case 'm':
		s.sgr(p)
	case 'H', 'f':
		s.y, s.x = n(0, 1)-1, n(1, 1)-1
	case 'A':
		s.y -= n(0, 1)
	case 'B':
		s.y += n(0, 1)
	case 'C':
		s.x += n(0, 1)
	case 'D':
		s.x -= n(0, 1)
	case 'G':
		s.x = n(0, 1) - 1
	case 'd':
		s.y = n(0, 1) - 1
	case 'J':
		if p == "2" || p == "3" {
			s.erase(s.alt)
		} else if p == "" || p == "0" {
			for k := s.y*s.cols + s.x; k < len(s.cells[s.alt]); k++ {
				s.cells[s.alt][k] = cell{' ', defaultColour, s.pen.bg, false}
			}
		}
	case 'K':
		for x := s.x; x < s.cols && (p == "" || p == "0"); x++ {
			s.cells[s.alt][s.y*s.cols+x] = cell{' ', defaultColour, s.pen.bg, false}
		}
	case 'h', 'l':
		s.mode(p, final == 'h')
	case 'r', 't', 'n', 'c':
	default:
		s.unknown = append(s.unknown, fmt.Sprintf("CSI %q %q", p, final))
	}
	s.x, s.y = imaxi(0, imini(s.x, s.cols-1)), imaxi(0, imini(s.y, s.rows-1))
}

// feed consumes terminal output.
func (s *screen) feed(b []byte) {
	s.pending = append(s.pending, b...)
	for {
		n := s.step(s.pending)
		if n == 0 {
			return
		}
		s.pending = s.pending[n:]
	}
}

func (s *screen) step(b []byte) int {
	if len(b) == 0 {
		return 0
	}
	switch c := b[0]; {
	case c == 0x1b:
		if len(b) < 2 {
			return 0
		}
		switch b[1] {
		case '[':
			for i := 2; i < len(b); i++ {
				if b[i] >= 0x40 && b[i] <= 0x7e {
					s.csi(string(b[2:i]), b[i])
					return i + 1
				}
			}
			return 0
		case '(', ')', '*', '+', '#', '%':
			if len(b) < 3 {
				return 0
			}
			return 3
		case ']':
			if i := bytes.IndexByte(b, 7); i >= 0 {
				if bytes.Contains(b[:i], []byte("end of output")) {
					s.oscs++
				}
				return i + 1
			}
			return 0
		case '=':
			s.keypad = true
		case '>':
			s.keypad = false
		}
		return 2
	case c == '\r':
		s.x = 0
		return 1
	case c == '\n':
		s.y = imini(s.y+1, s.rows-1)
		return 1
	case c == 8:
		s.x = imaxi(0, s.x-1)
		return 1
	case c < 0x20:
		return 1
	}
	if !utf8.FullRune(b) {
		return 0
	}
	r, n := utf8.DecodeRune(b)
	if s.x < s.cols {
		s.cells[s.alt][s.y*s.cols+s.x] = cell{r, s.pen.fg, s.pen.bg, s.pen.rev}
		s.x++
	}
	return n
}

// luma of a palette colour, -1 for the terminal's default.
func palette(c int) int {
	if c&0x1000000 != 0 {
		return ((c >> 16 & 255) + (c >> 8 & 255) + c&255) / 3
	}
	base := []int{0, 70, 140, 160, 60, 90, 160, 229, 127, 120, 200, 220, 110, 150, 220, 255}
	switch {
	case c < 0:
		return -1
	case c < 16:
		return base[c]
	case c < 232:
		c -= 16
		return (c/36 + c/6%6 + c%6) * 255 / 15
	}
	return 8 + (c-232)*10
}

// symbolOn compares the screen with the symbol at two columns by one row per
// module with one module of padding. Empty result: it is there.
func (s *screen) symbolOn(g qrref.Grid) string {
	d := len(g)
	if s.alt == 0 {
		return "not on the alternate screen"
	}
	dark, light := -2, -2
	for y := -1; y <= d; y++ {
		for x := -1; x <= d; x++ {
			set := x >= 0 && y >= 0 && x < d && y < d && g[y][x]
			for k := 0; k < 2; k++ {
				if 2*(x+1)+k >= s.cols || y+1 >= s.rows {
					continue // no room for it
				}
				cl := s.at(2*(x+1)+k, y+1)
				col, solid := cl.shows()
				want := &light
				if set {
					want = &dark
				}
				if *want == -2 {
					*want = col
				}
				if !solid || col != *want {
					return fmt.Sprintf("the cell at column %d, row %d (module x %d, y %d, dark=%v) is %q in colours %d on %d", 2*(x+1)+k, y+1, x, y, set, cl.ch, cl.fg, cl.bg)
				}
			}
		}
	}
	pd, pl := palette(dark), palette(light)
	if dark == -2 || pd < 0 || pl < 0 || pl-pd < 80 {
		return fmt.Sprintf("dark is colour %d, light is colour %d", dark, light)
	}
	return ""
}

// termKinds are names under which the screen emulated here goes.
var termKinds = []string{"xterm", "xterm", "xterm-256color", "screen", "screen-256color", "tmux", "tmux-256color", "rxvt", "rxvt-unicode", "xterm-color"}

// ---- child -----------------------------------------------------------------

// childTerminal draws the texts given as hex on its controlling terminal and
// reports on descriptor 3 what happens.
func childTerminal(args []string) {
	out := os.NewFile(3, "reports")
	say := func(f string, a ...interface{}) { fmt.Fprintf(out, f+"\n", a...) }
	for i, a := range args {
		var e Enc
		f := strings.Split(a, ",")
		e.Lv, _ = strconv.Atoi(f[0])
		e.Ver, _ = strconv.Atoi(f[1])
		e.Raw, _ = hex.DecodeString(f[2])
		q, err := e.run()
		if err != nil {
			say("error %d encoding: %v", i, err)
			return
		}
		w := terminal.New()
		say("open %d", i)
		err = q.Save(w)
		if err != nil {
			say("error %d saving: %v", i, err)
		} else {
			say("saved %d", i)
		}
	}
	say("end")
}

// ptyRun is a process on a pseudo terminal of its own. It may write lines to
// descriptor 3, collected in reports.
type ptyRun struct {
	p       *pty
	cmd     *exec.Cmd
	scr     *screen
	before  syscall.Termios
	reports string
	eof     bool // descriptor 3 is closed: the process has ended
	errb    limited
	pr      *os.File
	ch      chan ptyChunk
	done    chan struct{}
	wait    sync.Once
	werr    error
}

type ptyChunk struct {
	tty  bool
	data []byte
}

// ptyWait is how long a silent process may take to get to the next step.
const ptyWait = 60 * time.Second

func startOnPty(rows, cols int, env []string, name string, args ...string) *ptyRun {
	p, err := openPty()
	die(err)
	die(p.resize(rows, cols))
	t := &ptyRun{p: p, scr: newScreen(rows, cols), ch: make(chan ptyChunk, 64), done: make(chan struct{})}
	t.before, err = p.termios()
	die(err)
	pr, pw, err := os.Pipe()
	die(err)
	t.pr = pr
	t.cmd = exec.Command(name, args...)
	t.cmd.Stdin, t.cmd.Stdout, t.cmd.Stderr = p.slave, p.slave, &t.errb
	t.cmd.ExtraFiles = []*os.File{pw}
	t.cmd.Env = append(os.Environ(), "TERM=xterm")
	t.cmd.Env = append(t.cmd.Env, env...)
	t.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	err = t.cmd.Start()
	pw.Close()
	die(err)
	send := func(k ptyChunk) bool {
		select {
		case t.ch <- k:
			return true
		case <-t.done:
			return false
		}
	}
	go func() {
		b := make([]byte, 65536)
		for {
			n, err := p.master.Read(b)
			if n > 0 && !send(ptyChunk{true, append([]byte{}, b[:n]...)}) || err != nil {
				return
			}
		}
	}()
	go func() {
		b := make([]byte, 4096)
		for {
			n, err := pr.Read(b)
			if n > 0 && !send(ptyChunk{false, append([]byte{}, b[:n]...)}) {
				return
			}
			if err != nil {
				send(ptyChunk{false, nil})
				return
			}
		}
	}()
	return t
}

// pump reads until ok says so (true), or nothing came for the given time.
func (t *ptyRun) pump(quiet time.Duration, ok func() bool) bool {
	for {
		if ok != nil && ok() {
			return true
		}
		select {
		case k := <-t.ch:
			if k.tty {
				t.scr.feed(k.data)
			} else if k.data == nil {
				t.eof = true
			} else {
				t.reports += string(k.data)
			}
		case <-time.After(quiet):
			return ok == nil
		}
	}
}

func (t *ptyRun) kill() {
	t.wait.Do(func() { t.cmd.Process.Kill(); t.werr = t.cmd.Wait() })
}

func (t *ptyRun) stop() {
	t.kill()
	close(t.done)
	t.p.close()
	t.pr.Close()
}

// finish waits for the process and compares the terminal with what it was.
func (t *ptyRun) finish() string {
	t.wait.Do(func() { t.werr = t.cmd.Wait() })
	// what we write now arrives after everything the process wrote
	t.p.slave.Write([]byte("\x1b]end of output\a"))
	if !t.pump(ptyWait, func() bool { return t.scr.oscs > 0 }) {
		die(fmt.Errorf("the pseudo terminal lost output"))
	}
	if t.werr != nil {
		return fmt.Sprintf("the drawing process ended with %v; reports %q, stderr %q", t.werr, t.reports, clip(t.errb.String(), 800))
	}
	after, err := t.p.termios()
	if err != nil || after != t.before {
		return fmt.Sprintf("the terminal settings are %+v afterwards, %+v before (err %v)", after, t.before, err)
	}
	if s := t.scr; s.alt != 0 || s.hidden || s.keypad || s.mouse {
		return fmt.Sprintf("the terminal is left on screen %d, cursor hidden %v, keypad mode %v, mouse mode %v", s.alt, s.hidden, s.keypad, s.mouse)
	}
	for k, cl := range t.scr.cells[0] {
		if cl.ch != ' ' || cl.bg != defaultColour {
			return fmt.Sprintf("the main screen was written at column %d, row %d: %q", k%t.scr.cols, k/t.scr.cols, cl.ch)
		}
	}
	return ""
}

func runC27(r *R) {
	if p, err := openPty(); err != nil {
		r.Serial("terminal", 1, func(c *C) {
			fmt.Fprintln(os.Stderr, "vmon: no pseudo terminal here:", err)
			os.Exit(2)
		})
		return
	} else {
		p.close()
	}
	self, err := os.Executable()
	die(err)
	r.Each("screens", r.N(120, 1500), func(c *C) {
		n := 1 + c.Rng.Intn(3)*c.Rng.Intn(2)
		var args []string
		var grids []qrref.Grid
		var vers []int
		dim := 0
		for i := 0; i < n; i++ {
			ver := 1 + c.Rng.Intn(12)
			if i == 0 && c.Index < 80 {
				ver = c.Index%40 + 1
			}
			lv := c.Rng.Intn(4)
			m := allModes[c.Rng.Intn(4)]
			e := Enc{Lv: lv, Ver: ver, Raw: textOf(c.Rng, m, c.Rng.Intn(qrref.Capacity(ver, lv, m)+1))}
			c.Desc("%v", e)
			_, g, ok := encodeOK(c, e)
			if !ok {
				return
			}
			args = append(args, fmt.Sprintf("%d,%d,%s", lv, ver, hex.EncodeToString(e.Raw)))
			grids, vers = append(grids, g), append(vers, ver)
			dim = imaxi(dim, len(g))
		}
		c.Desc("terminal child %s", strings.Join(args, " "))
		events := ""
		rows, cols := dim+5+c.Rng.Intn(20), imaxi(30, 2*dim+4+c.Rng.Intn(30))
		if c.Rng.Intn(4) == 0 { // too small, what fits is shown
			if c.Rng.Intn(3) > 0 {
				rows = 5 + c.Rng.Intn(dim)
			}
			if c.Rng.Intn(3) > 0 {
				cols = 8 + c.Rng.Intn(2*dim)
			}
			events += "s"
		}
		// kinds of terminals that have a second screen, and what must not matter
		env := []string{"TERM=" + termKinds[c.Rng.Intn(len(termKinds))]}
		for _, v := range []string{"COLUMNS=20", "LINES=5", "NO_COLOR=1", "COLORTERM=truecolor", "LANG=C", "LC_ALL=en_US.UTF-8", "TMUX=x,1,0", "WINDOWID=1", "CI=true", "TERM_PROGRAM=vscode", "CLICOLOR=0", "HOME=/", "ESCDELAY=0"} {
			if c.Rng.Intn(4) == 0 {
				env = append(env, v)
			}
		}
		c.Desc("%v", env)
		t := startOnPty(rows, cols, env, self, append([]string{"-verif", verifDir, "-child", "terminal", "--"}, args...)...)
		defer t.stop()
		scr := t.scr
		for i, g := range grids {
			// drawn
			t.pump(ptyWait, func() bool {
				return t.eof || scr.symbolOn(g) == "" || strings.Contains(t.reports, "error ") || strings.Contains(t.reports, fmt.Sprintf("saved %d\n", i))
			})
			t.pump(20*time.Millisecond, nil)
			if d := scr.symbolOn(g); d != "" {
				t.kill()
				c.Failf("symbol %d of %d on a %dx%d terminal: %s; reports %q, stderr %q", i+1, len(grids), cols, rows, d, t.reports, clip(t.errb.String(), 800))
				return
			}
			// events that are no key do not end it
			if c.Rng.Intn(2) == 0 {
				events += "r"
				t.p.resize(rows, cols) // same size again
				t.cmd.Process.Signal(syscall.SIGWINCH)
				t.pump(30*time.Millisecond, nil)
				if d := scr.symbolOn(g); d != "" || strings.Contains(t.reports, fmt.Sprintf("saved %d\n", i)) {
					t.kill()
					c.Failf("after a size event: %s; reports %q", d, t.reports)
					return
				}
			}
			if strings.Contains(t.reports, fmt.Sprintf("saved %d\n", i)) {
				t.kill()
				c.Failf("the symbol was taken off before any key was pressed; reports %q", t.reports)
				return
			}
			// a key
			key := []string{" ", "q", "\r", "\x1bOA", "é", "\x03", "\t", "\x1b", "\x7f"}[c.Rng.Intn(9)]
			if key == "\x1bOA" && strings.HasPrefix(env[0], "TERM=rxvt") { // its arrow key is another, this would be three keys
				key = "\x1b[A"
			}
			t.p.master.Write([]byte(key))
			if !t.pump(ptyWait, func() bool { return t.eof || strings.Contains(t.reports, fmt.Sprintf("saved %d\n", i)) }) || !strings.Contains(t.reports, fmt.Sprintf("saved %d\n", i)) {
				t.kill()
				c.Failf("key %q did not end the display; reports %q, stderr %q", key, t.reports, clip(t.errb.String(), 800))
				return
			}
			c.Count("screens_compared", 1)
			c.Count("cells_compared", imini(cols, 2*(len(g)+2))*imini(rows, len(g)+2))
			c.Key("v%d-%d-%s", vers[i], i, events)
		}
		if !t.pump(ptyWait, func() bool { return t.eof }) {
			t.kill()
			c.Failf("the process does not end; reports %q", t.reports)
			return
		}
		if d := t.finish(); d != "" {
			c.Failf("%s", d)
			return
		}
		if !strings.Contains(t.reports, "end\n") || strings.Contains(t.reports, "error ") {
			c.Failf("the drawing process reports %q", t.reports)
			return
		}
		c.Count("terminals_restored", 1)
		for _, u := range scr.unknown {
			c.R.Note("unknown sequence %s", u)
		}
	})
}
