package main

import (
	"bytes"
	"fmt"
	"image"
	"image/jpeg"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifharness/qrref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

func init() {
	register(&Prop{ID: "C28", Boost: 2, Run: runC28, Assume: []string{"texts without zero bytes and not larger than an argument may be"},
		Rule: "the built command is run on random texts and flag lists in every spelling of the flags, onto new and existing files, and with texts, borders, blocks, flags and paths that cannot work; the file is compared byte by byte with the library's and pixel by pixel with the layout model. Distinct by (flags present, format, failure kind)."})
}

func cliRun(dir string, args ...string) (code int, out, errs string, err error) {
	cmd := exec.Command(os.Getenv("VMON_CLI"), args...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Pdeathsig: syscall.SIGKILL} // no terminal
	// the environment says other things than the arguments
	cmd.Env = append(os.Environ(), "TERM=xterm", "HOME="+filepath.Join(dir, "home"), "PWD="+dir)
	for _, p := range []string{"", "QRCODE_", "QR_", "GO_QRCODE_"} {
		cmd.Env = append(cmd.Env, p+"OUTPUT=environment.png", p+"BLOCK=9", p+"BLOCK_SIZE=9", p+"BORDERS=7,7,7,7", p+"CIRCLE=true", p+"TRANSPARENT=true",
			p+"HALFTONE=../half.png", p+"TEXT=environment", p+"SIZE=9", p+"FORMAT=png")
	}
	var ob, eb limited
	cmd.Stdout, cmd.Stderr = &ob, &eb
	// and so does what is to be read, if anything
	switch len(strings.Join(args, " ")) % 4 {
	case 0:
		cmd.Stdin = strings.NewReader("a text on the input\n")
	case 1:
		if f, err := os.Open(os.Args[0]); err == nil {
			defer f.Close()
			cmd.Stdin = f
		}
	case 2:
		cmd.Stdin = strings.NewReader("")
	}
	err = cmd.Run()
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), ob.String(), eb.String(), nil
	}
	return 0, ob.String(), eb.String(), err
}

// cliText makes a text that can be an argument.
func cliText(c *C, maxVer int) []byte {
	lv := 2 // the default level
	m := allModes[c.Rng.Intn(4)]
	ver := 1 + c.Rng.Intn(maxVer)
	t := textOf(c.Rng, m, c.Rng.Intn(qrref.Capacity(ver, lv, m)+1))
	t = bytes.ReplaceAll(t, []byte{0}, []byte{1})
	if len(t) > 0 && t[0] == '-' && c.Rng.Intn(2) == 0 {
		t[0] = '_'
	}
	if c.Rng.Intn(6) == 0 { // what a command might take for something else
		odd := []string{"-", "@../half.png", "../half.png", "sub dir/half.png", ".", "/dev/null", "sub dir", "qrcode.jpg", "%41%20", "$HOME", "`id`", "a\\nb\\t", "\\u0041", "true", "=", "'quoted'", "\"x\"",
			"*", "~", "http://example.com/?a=1&b=2#c", "file:///etc/hostname", "{{.}}", "&amp;", "a,b", "0x10", "version", "helper", "--", "-x", "%s%d%!", "a=b", "\xef\xbb\xbfx", "x\r\n"}
		t = []byte(odd[c.Rng.Intn(len(odd))])
	}
	if s := string(t); s == "h" || s == "help" { // the help command
		t = append(t, '!')
	}
	return t
}

func runC28(r *R) {
	if os.Getenv("VMON_CLI") == "" {
		fmt.Fprintln(os.Stderr, "vmon: VMON_CLI is not set")
		os.Exit(2)
	}
	halfPath := filepath.Join(r.Scratch, "half.png")
	hm := image.NewGray(image.Rect(0, 0, 90, 90))
	for i := range hm.Pix {
		hm.Pix[i] = uint8((i%90)*3/2 + (i/90)%7*10)
	}
	var hb bytes.Buffer
	die(png.Encode(&hb, hm))
	die(os.WriteFile(halfPath, hb.Bytes(), 0644))

	r.Each("files", r.N(420, 4000), func(c *C) {
		dir := filepath.Join(r.Scratch, fmt.Sprintf("cli%d", c.Index))
		die(os.MkdirAll(filepath.Join(dir, "sub dir"), 0755))
		defer os.RemoveAll(dir)
		die(os.Mkdir(filepath.Join(dir, "dir.png"), 0755))
		die(os.Mkdir(filepath.Join(dir, "~"), 0755))
		text := cliText(c, 8)
		if c.Rng.Intn(12) == 0 {
			text = []byte(halfPath)
		}
		die(os.WriteFile(filepath.Join(dir, "sub dir", "half.png"), hb.Bytes(), 0644))
		var args []string
		s := style{BW: 5, Borders: []int{0, 0, 0, 0}}
		present := ""
		opts := []standard.ImageOption{}
		twice := false
		flag := func(names []string, val string) {
			n := names[c.Rng.Intn(len(names))]
			if twice && val != "" {
				other := map[string]string{"output": "other.jpg", "o": "other.png", "block": "7", "s": "9", "borders": "1,2,3,4", "b": "9,8,7,6", "halftone": "none"}[n]
				args = append(args, "--"+n+"="+other)
			}
			dash := "-"
			if len(n) > 1 {
				dash = []string{"-", "--"}[c.Rng.Intn(2)]
			}
			if val == "" {
				args = append(args, dash+n)
			} else if c.Rng.Intn(2) == 0 {
				args = append(args, dash+n+"="+val)
			} else {
				args = append(args, dash+n, val)
			}
		}
		type setter func()
		var set []setter
		outName := "qrcode.jpg"
		if c.Rng.Intn(6) > 0 {
			set = append(set, func() {
				outName = []string{"a.png", "b.jpg", "c.jpeg", "d.png", "e.gif", "noext", "x.y.png", ".png", "sub dir/q.png", "ü.png", "a.png.jpg", "b.jpg.png", "dir.png/c.jpg", "png", "dir.png/noext",
					"~/t.png", "$HOME.png", "a%20b.png", "a b.jpg", "{x,y}.png", "*.jpg", "c:\\d.png", "e.png ", "qr code.PNG"}[c.Rng.Intn(24)]
				given := outName
				if c.Rng.Intn(3) == 0 {
					given = filepath.Join(dir, outName)
				}
				flag([]string{"output", "o"}, given)
				present += "o"
			})
		}
		if c.Rng.Intn(2) == 0 {
			set = append(set, func() {
				s.BW = 1 + c.Rng.Intn(24)
				if c.Rng.Intn(12) == 0 {
					s.BW = []int{255, 128, 100}[c.Rng.Intn(3)]
					text = text[:imini(len(text), 10)]
				}
				flag([]string{"block", "s"}, strconv.Itoa(s.BW))
				present += "s"
			})
		}
		if c.Rng.Intn(2) == 0 {
			set = append(set, func() {
				v := make([]string, 4)
				for i := range v {
					s.Borders[i] = []int{c.Rng.Intn(256), c.Rng.Intn(20), 0, 255}[c.Rng.Intn(4)]
					v[i] = strconv.Itoa(s.Borders[i])
					if c.Rng.Intn(8) == 0 {
						v[i] = fmt.Sprintf("%0*d", 2+c.Rng.Intn(4), s.Borders[i])
					}
				}
				flag([]string{"borders", "b"}, strings.Join(v, ","))
				present += "b"
			})
		}
		circle, half := false, false
		if c.Rng.Intn(3) == 0 {
			set = append(set, func() {
				circle = true
				flag([]string{"circle"}, "")
				present += "c"
			})
		}
		if c.Rng.Intn(3) == 0 {
			set = append(set, func() {
				s.Transparent = true
				flag([]string{"transparent"}, "")
				present += "t"
			})
		}
		if c.Rng.Intn(4) == 0 {
			set = append(set, func() {
				half = true
				flag([]string{"halftone"}, halfPath)
				present += "h"
			})
		}
		c.Rng.Shuffle(len(set), func(i, j int) { set[i], set[j] = set[j], set[i] })
		if c.Rng.Intn(8) == 0 { // the last of several values counts
			twice = true
		}
		for _, f := range set {
			f()
		}
		if c.Rng.Intn(10) == 0 {
			args = append(args, "--terminal=false", "--circle="+strconv.FormatBool(circle), "--transparent="+strconv.FormatBool(s.Transparent))
		}
		if len(text) > 0 && text[0] == '-' || c.Rng.Intn(6) == 0 {
			args = append(args, "--")
		}
		args = append(args, string(text))
		if c.Rng.Intn(10) == 0 {
			args = append(args, "a second argument")
		}
		if len(text) == 0 && c.Rng.Intn(2) == 0 && args[len(args)-1] == "" {
			args = args[:len(args)-1]
			if len(args) > 0 && args[len(args)-1] == "--" {
				args = args[:len(args)-1]
			}
		}
		c.Desc("qrcode %q", args)
		path := filepath.Join(dir, outName)
		if c.Rng.Intn(3) == 0 {
			die(os.WriteFile(path, bytes.Repeat([]byte("old content "), 300000), 0644))
		}
		code, out, errs, err := cliRun(dir, args...)
		if err != nil {
			fmt.Fprintln(os.Stderr, "vmon: cannot run the command:", err)
			os.Exit(2)
		}
		if code != 0 {
			c.Failf("exit status %d, output %q, errors %q", code, clip(out, 300), clip(errs, 500))
			return
		}
		got, err := os.ReadFile(path)
		if err != nil {
			c.Failf("exit status 0, but %v", err)
			return
		}
		// the library
		q, err := qrcode.New(string(text))
		if err != nil {
			c.Failf("exit status 0, but the library says %v", err)
			return
		}
		isPNG := strings.HasSuffix(outName, ".png")
		opts = append(s.opts(), standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
		if isPNG {
			opts = append(opts, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
		}
		if circle {
			opts = append(opts, standard.WithCircleShape())
		}
		if half {
			opts = append(opts, standard.WithHalftone(halfPath))
		}
		var want sink
		if err := q.Save(standard.NewWithWriter(&want, opts...)); err != nil {
			c.Failf("the library fails with %v", err)
			return
		}
		if !bytes.Equal(got, want.Bytes()) {
			c.Failf("the file has %d bytes and differs from the library's %d", len(got), want.Len())
			return
		}
		g, err := gridOf(q)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		if a := qrref.Analyze(g); a.Unreadable || !bytes.Equal(a.Payload, text) {
			c.Failf("the symbol does not decode to the text")
			return
		}
		switch {
		case isPNG && !circle && !half:
			img, err := png.Decode(bytes.NewReader(got))
			if err != nil {
				c.Failf("not a PNG: %v", err)
				return
			}
			if d := diffImages(img, s.model(g), 0); d != "" {
				c.Failf("%s", d)
				return
			}
			c.Count("files_compared_with_the_model", 1)
		case !isPNG:
			cfg, err := jpeg.DecodeConfig(bytes.NewReader(got))
			w, h := s.size(len(g))
			if err != nil || cfg.Width != w || cfg.Height != h {
				c.Failf("not a %dx%d JPEG: %dx%d, %v", w, h, cfg.Width, cfg.Height, err)
				return
			}
		}
		// nothing else was made
		if ents, _ := os.ReadDir(dir); len(ents) > 4 {
			c.Failf("%d entries in the directory", len(ents))
			return
		}
		c.Count("files_compared_with_the_library", 1)
		c.Key("%s-%s", present, filepath.Ext(outName))
	})

	// what the command writes to its standard output, or to another pipe, is the file alone
	r.Each("streams", r.N(40, 400), func(c *C) {
		dir := filepath.Join(r.Scratch, fmt.Sprintf("clis%d", c.Index))
		die(os.MkdirAll(dir, 0755))
		defer os.RemoveAll(dir)
		text := cliText(c, 6)
		if len(text) == 0 || text[0] == '-' {
			text = []byte("text")
		}
		s := style{BW: 1 + c.Rng.Intn(9), Borders: []int{c.Rng.Intn(9), c.Rng.Intn(9), c.Rng.Intn(9), c.Rng.Intn(9)}}
		dest := []string{"/dev/stdout", "/dev/fd/1", "/proc/self/fd/1", "/dev/null", "/dev/stderr"}[c.Index%5]
		args := []string{"-o", dest, "-s", strconv.Itoa(s.BW), "-b", strings.Trim(strings.ReplaceAll(fmt.Sprint(s.Borders), " ", ","), "[]"), string(text)}
		c.Desc("qrcode %q", args)
		cmd := exec.Command(os.Getenv("VMON_CLI"), args...)
		cmd.Dir = dir
		cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Pdeathsig: syscall.SIGKILL}
		var ob, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &ob, &eb
		if err := cmd.Run(); err != nil {
			c.Failf("%v, %q", err, clip(eb.String(), 300))
			return
		}
		q, err := qrcode.New(string(text))
		if err != nil {
			c.Failf("exit status 0, but the library says %v", err)
			return
		}
		var want sink
		die(q.Save(standard.NewWithWriter(&want, append(s.opts(), standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))...)))
		got := ob.Bytes()
		switch dest {
		case "/dev/null":
			got = want.Bytes()
		case "/dev/stderr":
			got = eb.Bytes()
		}
		if !bytes.Equal(got, want.Bytes()) {
			c.Failf("%d bytes that differ from the library's %d", len(got), want.Len())
			return
		}
		if ents, _ := os.ReadDir(dir); len(ents) > 0 {
			c.Failf("a file %q appeared", ents[0].Name())
			return
		}
		c.Count("streams_compared_with_the_library", 1)
		c.Key("stream-%s-%d", dest, s.BW)
	})

	r.Each("failures", r.N(160, 1500), func(c *C) {
		dir := filepath.Join(r.Scratch, fmt.Sprintf("clif%d", c.Index))
		die(os.MkdirAll(filepath.Join(dir, "d.png"), 0755))
		defer os.RemoveAll(dir)
		kinds := []string{"long", "longer", "missing directory", "directory", "full", "borders", "block", "flag", "file as directory", "halftone without value", "terminal"}
		kind := kinds[c.Index%len(kinds)]
		text := "some text"
		args := []string{"-o", "x.png"}
		switch kind {
		case "long":
			m := allModes[c.Rng.Intn(4)]
			text = string(bytes.ReplaceAll(textOf(c.Rng, m, qrref.Capacity(40, 2, m)+1+c.Rng.Intn(3)), []byte{0}, []byte{1}))
			if m == qrref.ModeNumeric || m == qrref.ModeAlnum || m == qrref.ModeKanji {
				if _, err := qrcode.New(text); err == nil {
					return
				}
			}
			args = append(args, "--")
		case "longer":
			text = strings.Repeat("x", 2000+c.Rng.Intn(90000))
		case "missing directory":
			args = []string{"-o", "no/such/x.png"}
		case "directory":
			args = []string{"--output", "d.png"}
		case "full":
			args = []string{"-o", "/dev/full"}
		case "borders":
			args = append(args, "-b", []string{"1", "1,2,3", "1,2,3,4,5", "a,b,c,d", "1,2,3,256", "1,2,3,-4", "", "1,2,3,", " 1,2,3,4", "1.5,2,3,4", "0x5,0,0,0", "0,0b1,0,0", "0,0,0o7,0", "1_0,0,0,0", "+1,2,3,4", "1e1,0,0,0", "1, 2, 3, 4", "1;2;3;4", "1,2,3,4,", ",,,", "1,2,3,99999999999999999999", "256,0,0,0", "0,512,0,0"}[c.Rng.Intn(23)])
		case "block":
			args = append(args, []string{"--block=x", "--block=-3", "-s=1.5", "--block=", "--block=256", "-s=261", "--block=300", "-s=65541", "--block=4294967301", "-s=511", "--block=99999999999999999999"}[c.Rng.Intn(11)])
		case "flag":
			args = append(args, []string{"--level=H", "--nosuch", "-z"}[c.Rng.Intn(3)])
		case "file as directory":
			die(os.WriteFile(filepath.Join(dir, "f"), nil, 0644))
			args = []string{"-o", "f/x.png"}
		case "terminal": // there is none
			args = append(args, "--terminal")
		case "halftone without value":
			args = append(args, "--halftone")
		}
		if kind != "halftone without value" {
			args = append(args, text)
		}
		c.Desc("%s: qrcode %.200q", kind, args)
		code, out, errs, err := cliRun(dir, args...)
		if err != nil {
			fmt.Fprintln(os.Stderr, "vmon: cannot run the command:", err)
			os.Exit(2)
		}
		if code == 0 || out+errs == "" {
			c.Failf("exit status %d, output %q, errors %q", code, clip(out, 300), clip(errs, 300))
			return
		}
		if _, err := os.Stat(filepath.Join(dir, "x.png")); err == nil && (kind == "long" || kind == "longer") {
			c.Failf("a file was made for a text that cannot be encoded")
			return
		}
		c.Count("failures_reported", 1)
		c.Key("fail-%s-%s", kind, strings.Join(args[:imini(len(args)-1, 4)], " "))
	})

	r.Each("terminal", r.N(24, 300), func(c *C) {
		text := cliText(c, 6)
		c.Desc("qrcode --terminal %q", text)
		q, err := qrcode.New(string(text))
		if err != nil {
			c.Failf("the library says %v", err)
			return
		}
		g, err := gridOf(q)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		args := []string{"--terminal", "--", string(text)}
		if c.Rng.Intn(2) == 0 {
			args = append([]string{"-o", filepath.Join(r.Scratch, "unused.png"), "-s", "3"}, args...)
		}
		t := startOnPty(len(g)+6, 2*len(g)+12, nil, os.Getenv("VMON_CLI"), args...)
		defer t.stop()
		t.pump(ptyWait, func() bool { return t.scr.symbolOn(g) == "" || t.eof })
		t.pump(20*time.Millisecond, nil)
		if d := t.scr.symbolOn(g); d != "" {
			t.kill()
			c.Failf("%s; errors %q", d, clip(t.errb.String(), 500))
			return
		}
		t.p.master.Write([]byte("x"))
		if !t.pump(ptyWait, func() bool { return t.eof }) {
			t.kill()
			c.Failf("a key does not end the command")
			return
		}
		if d := t.finish(); d != "" {
			c.Failf("%s", d)
			return
		}
		c.Count("terminal_runs_compared", 1)
		c.Key("terminal-v%d", (len(g)-17)/4)
	})
}
