package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"image"
	"image/color"
	stdpalette "image/color/palette"
	"image/draw"
	"io"
	"log"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/imgkit"
)

// C38: what a program has set up around its use of the library stays as it is.

func init() {
	register(&Prop{ID: "C38", Boost: 1, Run: runC38, Assume: []string{"failing calls may report on the standard output and the standard error, and successful ones through the standard logger"},
		Rule: "kinds of calls, each made many times in a process of its own with its own settings; a snapshot of the process's state before the calls must equal the one after them. Distinct by (kind of call, settings)."})
	childRoles["touch"] = childTouch
}

// touchKinds are the kinds of calls.
func touchKinds() []leakKind {
	save := func(q *qrcode.QRCode, err error, o ...standard.ImageOption) {
		die(err)
		die(q.Save(standard.NewWithWriter(discardCloser{}, o...)))
	}
	return append(leakKinds(),
		leakKind{"images given as files", 100, func(r *rand.Rand, dir string) func() {
			q, err := qrcode.New("1")
			return func() {
				save(q, err, standard.WithLogoImageFilePNG(filepath.Join(dir, "..", "in", "a.png")), standard.WithHalftone(filepath.Join(dir, "..", "in", "b.jpeg")), standard.WithQRWidth(3))
				save(q, err, standard.WithLogoImageFileJPEG(filepath.Join(dir, "..", "in", "b.jpeg")), standard.WithHalftone(filepath.Join(dir, "..", "in", "a.png")), standard.WithQRWidth(6))
			}
		}},
		leakKind{"image files that are missing", 60, func(r *rand.Rand, dir string) func() {
			q, err := qrcode.New("1")
			return func() {
				p := filepath.Join(dir, "..", "in", pick(r, "none.png", "none.jpeg", "none", "sub/none.png", ".none"))
				save(q, err, standard.WithLogoImageFilePNG(p), standard.WithLogoImageFileJPEG(p), standard.WithHalftone(p), standard.WithQRWidth(3))
				if _, err := imgkit.Read(p); err == nil {
					panic("read")
				}
			}
		}},
		leakKind{"logos that are too large", 50, func(r *rand.Rand, _ string) func() {
			img, _, _ := someLogo(r, 300, 300)
			q, err := qrcode.New("1")
			return func() {
				save(q, err, standard.WithLogoImage(img), standard.WithQRWidth(uint8(1+r.Intn(5))))
				save(q, err, standard.WithLogoImage(img), standard.WithLogoSizeMultiplier(1+r.Intn(4)), standard.WithLogoSafeZone(), standard.WithQRWidth(5))
			}
		}},
		leakKind{"large symbols", 3, func(r *rand.Rand, _ string) func() {
			return func() {
				q, err := qrcode.NewWith(string(textOf(r, 4, 1)), qrcode.WithVersion(30+r.Intn(11)))
				save(q, err, standard.WithQRWidth(2))
			}
		}},
		leakKind{"large pictures", 1, func(r *rand.Rand, _ string) func() {
			q, err := qrcode.New("1")
			return func() {
				save(q, err, standard.WithQRWidth(uint8(75+r.Intn(30))), standard.WithBorderWidth(r.Intn(50)), []standard.ImageOption{standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT)}[r.Intn(2)])
			}
		}},
		leakKind{"long texts", 3, func(r *rand.Rand, _ string) func() {
			long := string(make([]byte, 1<<20))
			return func() {
				if _, err := qrcode.New(long); err == nil {
					panic("not refused")
				}
			}
		}},
	)
}

func printOf(v interface{}) string {
	h := fnv.New64a()
	fmt.Fprintf(h, "%v", v)
	return fmt.Sprintf("%x", h.Sum64())
}

// treeOf lists what is under a directory, with mode, size, time and content.
func treeOf(dir string) string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			out = append(out, fmt.Sprint(p, " ", err))
			return nil
		}
		s := fmt.Sprintf("%s %v", p, fi.Mode())
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %d %v %s", fi.Size(), fi.ModTime().UnixNano(), printOf(b))
		}
		out = append(out, s)
		return nil
	})
	return strings.Join(out, "; ")
}

// stateOf is the state of this process that is not the library's to change.
func stateOf(dir string) map[string]string {
	m := map[string]string{}
	m["working directory"], _ = os.Getwd()
	env := os.Environ()
	sort.Strings(env)
	m["environment"] = strings.Join(env, "; ")
	m["arguments"] = fmt.Sprint(os.Args)
	m["standard logger"] = fmt.Sprintf("flags %d, prefix %q, output %p", log.Flags(), log.Prefix(), log.Writer())
	m["standard streams"] = fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr)
	m["GOMAXPROCS"] = fmt.Sprint(runtime.GOMAXPROCS(0))
	gc := debug.SetGCPercent(100)
	debug.SetGCPercent(gc)
	m["collection percentage"] = fmt.Sprint(gc)
	m["memory limit"] = fmt.Sprint(debug.SetMemoryLimit(-1))
	st := debug.SetMaxStack(1 << 29)
	debug.SetMaxStack(st)
	m["stack limit"] = fmt.Sprint(st)
	th := debug.SetMaxThreads(9999)
	debug.SetMaxThreads(th)
	m["thread limit"] = fmt.Sprint(th)
	m["memory profile rate"] = fmt.Sprint(runtime.MemProfileRate)
	mu := runtime.SetMutexProfileFraction(-1)
	m["mutex profile fraction"] = fmt.Sprint(mu)
	um := syscall.Umask(0)
	syscall.Umask(um)
	m["umask"] = fmt.Sprintf("%03o", um)
	for i, n := range []string{"cpu", "fsize", "data", "stack", "core", "rss", "nproc", "nofile", "memlock", "as"} {
		var l syscall.Rlimit
		if syscall.Getrlimit(i, &l) == nil {
			m["limit of "+n] = fmt.Sprint(l)
		}
	}
	b, _ := os.ReadFile("/proc/self/status")
	for _, l := range strings.Split(string(b), "\n") {
		for _, p := range []string{"Umask", "Uid", "Gid", "Groups", "SigBlk", "SigIgn", "SigCgt", "NoNewPrivs", "Seccomp:", "Cpus_allowed:", "Name", "CoreDumping", "THP_enabled"} {
			if strings.HasPrefix(l, p) {
				m["status "+p] = l
			}
		}
	}
	pr, _ := syscall.Getpriority(syscall.PRIO_PROCESS, 0)
	m["priority"] = fmt.Sprint(pr)
	kids, _ := filepath.Glob("/proc/self/task/*/children")
	n := 0
	for _, k := range kids {
		b, _ := os.ReadFile(k)
		n += len(strings.Fields(string(b)))
	}
	m["child processes"] = fmt.Sprint(n)
	m["time zone"] = fmt.Sprintf("%p %v", time.Local, time.Local)
	off, err := syscall.Seek(0, 0, 1)
	m["position in the standard input"] = fmt.Sprint(off, err)
	var fds []string
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (strings.HasPrefix(l, "socket:") || strings.HasPrefix(l, "/dev/tty") || strings.HasPrefix(l, "/dev/pts")) {
			fds = append(fds, l)
		}
	}
	m["sockets and terminals"] = fmt.Sprint(fds)
	nf := 0
	flag.VisitAll(func(*flag.Flag) { nf++ })
	m["command line flags"] = fmt.Sprint(nf, flag.Args())
	m["predefined images and colours"] = fmt.Sprint(*image.Black, *image.White, *image.Transparent, *image.Opaque, color.Black, color.White, color.Transparent, color.Opaque, printOf(stdpalette.Plan9), printOf(stdpalette.WebSafe), fmt.Sprintf("%T", draw.FloydSteinberg))
	m["predefined errors"] = fmt.Sprint(io.EOF, io.ErrShortWrite, os.ErrClosed, os.ErrNotExist)
	m["default HTTP client"] = fmt.Sprintf("%p %v", http.DefaultClient, *http.DefaultClient)
	for _, d := range []string{"here", "tmp", "home"} {
		m["files in "+d] = treeOf(filepath.Join(dir, d))
	}
	m["files that were given"] = treeOf(filepath.Join(dir, "in"))
	return m
}

// childTouch makes the calls: kind, seed, number of calls, directory.
func childTouch(args []string) {
	var kind, calls int
	var seed int64
	fmt.Sscan(args[0], &kind)
	fmt.Sscan(args[1], &seed)
	fmt.Sscan(args[2], &calls)
	dir := args[3]
	r := rand.New(rand.NewSource(seed))
	// what a program may have set
	log.SetFlags(r.Intn(64))
	log.SetPrefix(pick(r, "", "mine: ", "[app] "))
	f, err := os.Create(filepath.Join(dir, "log"))
	die(err)
	log.SetOutput(f)
	runtime.GOMAXPROCS(1 + r.Intn(7))
	debug.SetGCPercent(20 + r.Intn(300))
	debug.SetMemoryLimit(int64(2+r.Intn(6)) << 30)
	debug.SetMaxStack(1<<28 + r.Intn(1<<20))
	debug.SetMaxThreads(5000 + r.Intn(1000))
	runtime.SetMutexProfileFraction(r.Intn(5))
	syscall.Umask([]int{0, 022, 027, 077}[r.Intn(4)])
	if r.Intn(2) == 0 {
		time.Local = time.FixedZone("x", r.Intn(3600))
	}
	k := touchKinds()[kind]
	call := k.make(r, filepath.Join(dir, "work"))
	before := stateOf(dir)
	for i := 0; i < calls; i++ {
		call()
	}
	time.Sleep(20 * time.Millisecond) // what runs on
	after := stateOf(dir)
	b, _ := json.Marshal(map[string]interface{}{"Before": before, "After": after, "Random": rand.Int63()})
	die(os.WriteFile(filepath.Join(dir, "report"), b, 0644))
	// a signal that was not ignored before still ends the process
	ign := before["status SigIgn"]
	var mask uint64
	fmt.Sscanf(strings.TrimSpace(strings.TrimPrefix(ign, "SigIgn:")), "%x", &mask)
	for _, s := range []syscall.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP} {
		if mask&(1<<(uint(s)-1)) == 0 && (s == syscall.SIGHUP || r.Intn(2) == 0) {
			syscall.Kill(os.Getpid(), s)
			time.Sleep(20 * time.Second)
			os.Exit(71)
		}
	}
	os.Exit(0)
}

func runC38(r *R) {
	kinds := touchKinds()
	self, err := os.Executable()
	die(err)
	r.Each("processes", len(kinds)*r.N(3, 40), func(c *C) {
		kind := c.Index % len(kinds)
		k := kinds[kind]
		calls := 2 + c.Rng.Intn(imini(k.per, 60))
		seed := c.Rng.Int63()
		env := oddEnv(c.Rng)
		c.Desc("%d calls of the kind %q, seed %d, environment %v", calls, k.name, seed, env)
		dir, err := os.MkdirTemp(r.Scratch, "c38")
		die(err)
		defer os.RemoveAll(dir)
		run := func() (state struct {
			Before, After map[string]string
			Random        int64
		}, out, errs string, ok bool) {
			for _, d := range []string{"here", "tmp", "home", "work", "in"} {
				os.RemoveAll(filepath.Join(dir, d))
				die(os.Mkdir(filepath.Join(dir, d), 0755))
			}
			img, _, _ := someLogo(rand.New(rand.NewSource(seed)), 6, 6)
			for i, n := range []string{"a.png", "b.jpeg"} {
				p := filepath.Join(dir, "in", n)
				writeImage(p, img, i == 1)
				die(os.Chtimes(p, time.Unix(1e9, 5), time.Unix(1e9, 5)))
				die(os.Chmod(p, 0444))
			}
			die(os.WriteFile(filepath.Join(dir, "stdin"), []byte("something to read\n"), 0644))
			cmd := exec.Command(self, "-child", "touch", fmt.Sprint(kind), fmt.Sprint(seed), fmt.Sprint(calls), dir)
			cmd.Dir = filepath.Join(dir, "here")
			cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + filepath.Join(dir, "home"), "TMPDIR=" + filepath.Join(dir, "tmp")}
			for n, v := range env {
				cmd.Env = append(cmd.Env, n+"="+v)
			}
			in, err := os.Open(filepath.Join(dir, "stdin"))
			die(err)
			defer in.Close()
			var o, e strings.Builder
			cmd.Stdin, cmd.Stdout, cmd.Stderr = in, &o, &e
			err = cmd.Run()
			out, errs = o.String(), e.String()
			ws, _ := cmd.ProcessState.Sys().(syscall.WaitStatus)
			b, re := os.ReadFile(filepath.Join(dir, "report"))
			switch {
			case re != nil || json.Unmarshal(b, &state) != nil:
				c.Failf("the process ended early: %v, %s", err, trimStack([]byte(errs)))
			case ws.Exited() && ws.ExitStatus() == 71:
				c.Failf("a signal no longer ends the process")
			default:
				ok = true
			}
			return
		}
		a, out, errs, ok := run()
		if !ok {
			return
		}
		var names []string
		for n := range a.Before {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if a.Before[n] != a.After[n] {
				c.Failf("%s: it was %s, it is %s", n, a.Before[n], a.After[n])
				return
			}
		}
		if out != "" && !strings.HasPrefix(k.name, "image files that") { // failures are reported there
			c.Failf("on the standard output: %.300q", out)
			return
		}
		if strings.Contains(errs, "panic") {
			c.Failf("on the standard error: %.300q", errs)
			return
		}
		if c.Rng.Intn(2) == 0 { // the default random source was not seeded
			b, _, _, ok := run()
			if !ok {
				return
			}
			if a.Random == b.Random {
				c.Failf("the default random source gives %d in every run", a.Random)
				return
			}
		}
		c.Count("processes", 1)
		c.Count("calls_made", calls)
		c.Count("settings_compared", len(names))
		c.Key("%s-%s-%s", k.name, a.Before["GOMAXPROCS"], a.Before["umask"])
	})
}
