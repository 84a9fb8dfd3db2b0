package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/qrref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

func init() {
	register(&Prop{ID: "C10", Run: runC10, Assume: []string{assumeRef, "penalty rule 4 at exactly 40% or 60% dark modules has two readings in the documentation; both are accepted"},
		Rule: "symbols of all versions, levels and modes; the eight fully masked candidates are rebuilt from the symbol's codewords and scored by an independent implementation of the four rules. Distinct by (version, level, mask, runner-up gap)."})
	register(&Prop{ID: "C11", Run: runC11, Assume: []string{"the hook only delays goroutines; the order in which they report is recorded, not assumed"},
		Rule: "the same call repeated under permuted completion orders of the masking goroutines (hook, recorded), GOMAXPROCS settings, call histories, debug mode and fresh processes, with inputs searched for tied mask scores; the symbols have to be equal. Distinct by (input, completion order)."})
	register(&Prop{ID: "C13", Run: runC13, Assume: []string{"a case that takes more than 150 s is a hang (cases take milliseconds)"},
		Rule: "arbitrary byte strings up to 1 MiB with arbitrary option values and combinations; every call has to return a usable symbol or an error, and leave no goroutine behind. Distinct by (option kinds, length class, outcome)."})
	register(&Prop{ID: "C14", Run: runC14, Assume: []string{assumeRef},
		Rule: "the complete codeword sequence of each symbol (mode, count, data, terminator, padding, error correction, interleaving, remainder bits) compared with the one the reference encoder computes from the text alone. Distinct by (version, level, mode, terminator/padding class)."})
	register(&Prop{ID: "C15", Run: runC15,
		Rule: "symbols of all versions; every view of the matrix is cross-checked and then written to, and the other views and later saves have to stay as they were. Distinct by (version, view)."})
	register(&Prop{ID: "C16", Run: runC16,
		Rule: "recording writers that succeed, fail or panic in Write and in Close, in every combination and repeatedly; the call sequence and the returned error are compared with the protocol. Distinct by (write outcome, close outcome, repetition)."})
	register(&Prop{ID: "C33", Run: runC33, Assume: []string{"kanji table generated from CPython's shift_jis codec"},
		Rule: "every ideograph of the Shift JIS kanji-mode ranges alone and in runs, and every other code point of the BMP against explicit kanji mode. Distinct by character."})
}

// ---- C10 -------------------------------------------------------------------

// rule4Alt returns the other reading of rule 4 when the dark share is exactly a
// multiple of five percent, else the same value.
func rule4Alt(g qrref.Grid, p4 int) int {
	d, dark := len(g), 0
	for _, row := range g {
		for _, b := range row {
			if b {
				dark++
			}
		}
	}
	if dark*100%(d*d) == 0 && dark*100/(d*d)%5 == 0 && p4 >= 10 {
		return p4 - 10
	}
	return p4
}

func runC10(r *R) {
	overSymbols(r, r.N(7, 100), r.N(1200, 40000), func(c *C, e Enc, q *qrcode.QRCode, g qrref.Grid) {
		a := qrref.Analyze(g)
		if a.Unreadable || len(a.FormatIssues) > 0 || len(a.VersionIssues) > 0 || len(a.FunctionIssues) > 0 {
			c.Failf("symbol is damaged: %s %v %v", a.Why, a.FormatIssues, a.FunctionIssues)
			return
		}
		cands := qrref.Candidates(g, a)
		if d := diffGrids(cands[a.Mask], g); d != "" {
			c.Failf("the symbol is not its codewords under the announced mask %d: %s", a.Mask, d)
			return
		}
		lo, hi := [8]int{}, [8]int{} // range over the readings of rule 4
		best := 1 << 30
		for m, h := range cands {
			t, parts := qrref.Penalty(h)
			hi[m], lo[m] = t, t-parts[3]+rule4Alt(h, parts[3])
			if hi[m] < best {
				best = hi[m]
			}
		}
		if lo[a.Mask] > best {
			c.Failf("mask %d with penalty %d was chosen; penalties of masks 0..7 are %v", a.Mask, hi[a.Mask], hi)
			return
		}
		gap := 1 << 30
		for m := range hi {
			if m != a.Mask && hi[m]-hi[a.Mask] < gap {
				gap = hi[m] - hi[a.Mask]
			}
		}
		if gap < 15 {
			c.Count("narrow_decisions", 1)
		}
		if gap == 0 {
			c.Count("ties", 1)
		}
		c.Count("candidates_scored", 8)
		c.Key("v%d-%s-m%d-gap%d", a.Ver, levelName[a.Level], a.Mask, imini(gap/8, 4))
	})
	// many small symbols, where decisions are narrow
	r.Each("small", r.N(5000, 100000), func(c *C) {
		m := allModes[c.Rng.Intn(4)]
		lv := c.Rng.Intn(4)
		ver := 1 + c.Rng.Intn(4)
		e := Enc{Lv: lv, Ver: ver}
		e.Raw = textOf(c.Rng, m, c.Rng.Intn(qrref.Capacity(ver, lv, m)+1))
		c.Desc("%v", e)
		_, g, ok := encodeOK(c, e)
		if !ok {
			return
		}
		a := qrref.Analyze(g)
		if a.Unreadable {
			c.Failf("unreadable: %s", a.Why)
			return
		}
		cands := qrref.Candidates(g, a)
		best, lowest, hi := 1<<30, 0, [8]int{}
		for i, h := range cands {
			t, parts := qrref.Penalty(h)
			hi[i] = t
			if t < best {
				best = t
			}
			if i == a.Mask {
				lowest = t - parts[3] + rule4Alt(h, parts[3])
			}
		}
		if lowest > best {
			c.Failf("mask %d was chosen; penalties of masks 0..7 are %v", a.Mask, hi)
			return
		}
		gap := 1 << 30
		for m := range hi {
			if m != a.Mask && hi[m]-hi[a.Mask] < gap {
				gap = hi[m] - hi[a.Mask]
			}
		}
		if gap < 15 {
			c.Count("narrow_decisions", 1)
		}
		if gap == 0 {
			c.Count("ties", 1)
		}
		c.Count("candidates_scored", 8)
		c.Key("small-v%d-%s-m%d-gap%d", a.Ver, levelName[a.Level], a.Mask, imini(gap/8, 4))
	})
}

// ---- C11 -------------------------------------------------------------------

func gridDigest(g qrref.Grid) string {
	h := sha256.New()
	for _, row := range g {
		b := make([]byte, len(row)+1)
		for i, v := range row {
			if v {
				b[i] = 1
			}
		}
		b[len(row)] = 7
		h.Write(b)
	}
	return hex.EncodeToString(h.Sum(nil))[:24]
}

// typedDigest covers the module types too.
func typedDigest(m qrcode.Matrix) string {
	h := sha256.New()
	m.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) { h.Write([]byte{byte(x), byte(y), byte(v)}) })
	return hex.EncodeToString(h.Sum(nil))[:24]
}

func digestOf(e Enc) (string, error) {
	q, err := e.run()
	if err != nil {
		return "error: " + err.Error(), nil
	}
	m, err := matrixOf(q)
	if err != nil {
		return "", err
	}
	return typedDigest(m), nil
}

func init() {
	// digest: reads one Enc per line, prints one digest per line.
	childRoles["digest"] = func([]string) {
		sc := bufio.NewScanner(os.Stdin)
		sc.Buffer(make([]byte, 1<<20), 1<<24)
		for sc.Scan() {
			var e Enc
			if err := json.Unmarshal(sc.Bytes(), &e); err != nil {
				fmt.Println("bad input:", err)
				os.Exit(2)
			}
			d, err := digestOf(e)
			if err != nil {
				d = "fault: " + err.Error()
			}
			fmt.Println(d)
		}
	}
}

// schedule permutes the completion order of the masking goroutines of the one
// encode call that runs, and records the order that happened.
type schedule struct {
	mu    sync.Mutex
	pos   [8]int
	order []int
}

func (s *schedule) hook(idx int) {
	time.Sleep(time.Duration(s.pos[idx]) * 400 * time.Microsecond)
	s.mu.Lock()
	s.order = append(s.order, idx)
	s.mu.Unlock()
}

func runC11(r *R) {
	type item struct {
		e    Enc
		d    string
		ties []int
	}
	// small symbols with equal best scores, found by scoring
	var mu sync.Mutex
	var tied []item
	r.Each("search", r.N(6000, 60000), func(c *C) {
		m := allModes[c.Rng.Intn(4)]
		lv := c.Rng.Intn(4)
		ver := 1 + c.Rng.Intn(3)
		e := Enc{Lv: lv, Ver: ver, Raw: textOf(c.Rng, m, c.Rng.Intn(qrref.Capacity(ver, lv, m)+1))}
		c.Desc("%v", e)
		q, g, ok := encodeOK(c, e)
		if !ok {
			return
		}
		a := qrref.Analyze(g)
		if a.Unreadable {
			return
		}
		best, at := 1<<30, []int(nil)
		for i, h := range qrref.Candidates(g, a) {
			t, _ := qrref.Penalty(h)
			if t < best {
				best, at = t, nil
			}
			if t == best {
				at = append(at, i)
			}
		}
		if len(at) < 2 {
			return
		}
		mt, _ := matrixOf(q)
		mu.Lock()
		tied = append(tied, item{e, typedDigest(mt), at})
		mu.Unlock()
		c.Count("inputs_with_tied_scores", 1)
	})
	orders := map[string]bool{}
	var om sync.Mutex
	// one encode call at a time, so that the hook's schedule is that call's
	permute := func(c *C, it item, pos [8]int) bool {
		s := &schedule{pos: pos}
		qrcode.VerifMaskScored = s.hook
		d, err := digestOf(it.e)
		qrcode.VerifMaskScored = nil
		if err != nil {
			c.Failf("%v", err)
			return false
		}
		o := fmt.Sprint(s.order)
		om.Lock()
		orders[o] = true
		om.Unlock()
		if d != it.d {
			c.Failf("with the masks finishing in order %v the symbol differs from the first one (%s, %s)", s.order, d, it.d)
			return false
		}
		c.Count("schedules_run", 1)
		c.Key("%s-%s", it.d[:8], o)
		return true
	}
	r.Serial("tied-schedules", r.N(40, 400), func(c *C) {
		mu.Lock()
		n := len(tied)
		mu.Unlock()
		if n == 0 {
			return
		}
		it := tied[c.Index%n]
		c.Desc("%v, masks %v have equal scores", it.e, it.ties)
		for _, t := range it.ties { // each tied mask first, then last
			for _, first := range []bool{true, false} {
				var pos [8]int
				p := c.Rng.Perm(7)
				k := 0
				for i := range pos {
					if i != t {
						pos[i] = p[k] + 1
						k++
					}
				}
				if !first {
					for i := range pos {
						pos[i] = pos[i] - 1
					}
					pos[t] = 7
				}
				if !permute(c, it, pos) {
					return
				}
			}
		}
	})
	r.Serial("schedules", r.N(60, 1500), func(c *C) {
		e := someEnc(c.Rng)
		for len(e.Raw) > 400 {
			e = someEnc(c.Rng)
		}
		c.Desc("%v", e)
		d, err := digestOf(e)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		it := item{e: e, d: d}
		for i := 0; i < 3; i++ {
			var pos [8]int
			for k, p := range c.Rng.Perm(8) {
				pos[k] = p
			}
			if !permute(c, it, pos) {
				return
			}
		}
	})
	r.Count("completion_orders_observed", len(orders))
	// repetition on all lanes under changing GOMAXPROCS
	r.Each("repeat", r.N(300, 6000), func(c *C) {
		e := someEnc(c.Rng)
		c.Desc("%v", e)
		d0, err := digestOf(e)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		for i := 0; i < 3; i++ {
			if c.Index%16 == 0 {
				runtime.GOMAXPROCS(1 + c.Rng.Intn(8))
			}
			e2 := e
			e2.Type = i
			d, err := digestOf(e2)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			if d != d0 {
				c.Failf("repetition %d gives another symbol (%s, %s)", i, d0, d)
				return
			}
		}
		// with one slice of options for every call
		for o, i := e.opts(), 0; i < 3 && len(o) > 0; i++ {
			q, err := encodeAs(c.Rng.Intn(4), e.Raw, o)
			var m qrcode.Matrix
			if err == nil {
				m, err = matrixOf(q)
			}
			if err != nil {
				c.Failf("call %d with the same slice of options: %v", i, err)
				return
			}
			if d := typedDigest(m); d != d0 {
				c.Failf("call %d with the same slice of options gives another symbol (%s, %s)", i, d0, d)
				return
			}
			c.Count("calls_with_one_slice_of_options", 1)
		}
		c.Count("repetitions", 4)
		c.Key("rep-%s", d0)
	})
	runtime.GOMAXPROCS(runtime.NumCPU())
	// whatever was asked for in between, refused or not
	r.Each("histories", r.N(250, 5000), func(c *C) {
		e := someEnc(c.Rng)
		for len(e.Raw) > 60 || e.Ver > 3 || e.MinVer > 3 {
			e = someEnc(c.Rng)
		}
		if c.Index%2 == 0 {
			e = Enc{Raw: e.Raw, Lv: -1} // all by default
		}
		d0, err := digestOf(e)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		did := []string{}
		for n := 1 + c.Rng.Intn(8); n > 0; n-- {
			k, times := c.Rng.Intn(7), 1+c.Rng.Intn(6)
			did = append(did, fmt.Sprintf("%d of kind %d", times, k))
			for i := 0; i < times; i++ {
				disturb(c.Rng, k, e)
			}
			c.Desc("%v, with this in between: %s", e, strings.Join(did, ", "))
			d, err := digestOf(e)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			if d != d0 {
				c.Failf("it gives another symbol (%s, %s)", d0, d)
				return
			}
			c.Count("disturbances", times)
			c.Key("hist-%d-%d", k, times)
		}
	})
	// fresh processes, in another order, with and without debug mode
	self, _ := os.Executable()
	r.Each("processes", r.N(8, 40), func(c *C) {
		var in bytes.Buffer
		var es []Enc
		for i := 0; i < 25; i++ {
			e := someEnc(c.Rng)
			if c.Index%8 >= 4 {
				for len(e.Raw) > 150 || e.MinVer > 5 {
					e = someEnc(c.Rng)
				}
			}
			es = append(es, e)
		}
		if len(tied) > 0 {
			for i := 0; i < 5; i++ {
				es = append(es, tied[c.Rng.Intn(len(tied))].e)
			}
		}
		perm := c.Rng.Perm(len(es))
		for _, k := range perm {
			b, _ := json.Marshal(es[k])
			in.Write(append(b, '\n'))
		}
		dir, err := os.MkdirTemp(r.Scratch, "proc")
		if err != nil {
			c.Failf("scratch: %v", err)
			return
		}
		defer os.RemoveAll(dir)
		env := append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", []int{1, 2, 8}[c.Index%3]))
		for n, v := range oddEnv(c.Rng) {
			env = append(env, n+"="+v)
		}
		mode := c.Index % 8
		if mode >= 4 {
			env = append(env, "QRCODE_DEBUG="+[]string{"1", "true", "enabled", "TRUE"}[mode-4])
			if mode != 5 { // without the directory the drawings just fail
				os.Mkdir(filepath.Join(dir, "draft"), 0755)
			}
		}
		c.Desc("fresh process %d (debug mode: %v) encoding %d texts in another order", c.Index, mode >= 4, len(es))
		cmd := exec.Command(self, "-child", "digest")
		cmd.Dir, cmd.Env, cmd.Stdin = dir, env, &in
		var eb limited
		cmd.Stderr = &eb
		out, err := cmd.Output()
		if err != nil {
			c.Failf("the process failed: %v\n%s", err, clip(eb.String(), 1500))
			return
		}
		lines := strings.Fields(strings.ReplaceAll(string(out), "error: ", "error:"))
		_ = lines
		ls := strings.Split(strings.TrimSpace(string(out)), "\n")
		if len(ls) != len(es) {
			c.Failf("%d results for %d texts", len(ls), len(es))
			return
		}
		for i, k := range perm {
			d, err := digestOf(es[k])
			if err != nil {
				c.Failf("%v", err)
				return
			}
			if d != ls[i] {
				c.Failf("%v: symbol %s here, %s in the fresh process (debug mode: %v)", es[k], d, ls[i], mode >= 4)
				return
			}
			c.Count("symbols_equal_across_processes", 1)
			c.Key("proc%d-%s", mode, d)
		}
	})
}

func oneOf[T any](r *rand.Rand, v ...T) T { return v[r.Intn(len(v))] }

// disturb makes a call that ought to leave nothing behind.
func disturb(r *rand.Rand, kind int, e Enc) {
	defer func() { recover() }()
	switch kind {
	case 0: // refused for its mode
		qrcode.NewWith(string(textOf(r, qrref.ModeByte, 1+r.Intn(20)))+"\x01", qrcode.WithEncodingMode(oneOf(r, qrcode.EncModeNumeric, qrcode.EncModeAlphanumeric, qrcode.EncModeKanji)))
	case 1: // too long for its version
		qrcode.NewWith(strings.Repeat("x", 100+r.Intn(100)), qrcode.WithVersion(1+r.Intn(3)))
	case 2: // too long for all
		qrcode.New(strings.Repeat("z", 3000+r.Intn(100)))
	case 3: // no mode at all
		qrcode.NewWith(e.Raw, qrcode.WithEncodingMode(oneOf(r, qrcode.EncModeNone-1, qrcode.EncModeNone, qrcode.EncModeNumeric-1, qrcode.EncModeByte<<1, qrcode.EncModeByte<<15)))
	case 4: // a save that panics or fails
		if q, err := e.run(); err == nil {
			if r.Intn(2) == 0 {
				q.Save(&panicWriter{})
			}
			q.Save(&tap{werr: someError(r)})
		}
	case 5: // another text with the same options, or the same text with others
		o := e
		if r.Intn(2) == 0 {
			o.Raw = append([]byte("0"), e.Raw...)
		} else {
			o.Lv, o.Ver, o.MinVer = r.Intn(4), 0, 1+r.Intn(12)
		}
		o.run()
	default: // nothing to encode
		qrcode.NewWith("", qrcode.WithEncodingMode(oneOf(r, qrcode.EncModeNumeric, qrcode.EncModeByte, qrcode.EncModeKanji)))
	}
}

// ---- C13 -------------------------------------------------------------------

func runC13(r *R) {
	base := runtime.NumGoroutine()
	r.Each("hostile", r.N(6000, 120000), func(c *C) {
		var raw []byte
		lc := 0
		switch c.Rng.Intn(15) {
		case 0:
			raw = nil
		case 12:
			raw, lc = touchyText(c.Rng), 6
		case 13:
			raw, lc = intruded(c.Rng, allModes[c.Rng.Intn(3)], 1+c.Rng.Intn(3000)), 7
		case 14:
			st := strangers()
			raw, lc = []byte(string(st[c.Rng.Intn(len(st))])+string(st[c.Rng.Intn(len(st))])), 8
		case 1, 2, 3:
			raw, lc = mixedText(c.Rng), 1
		case 4, 5:
			raw, lc = byteText(c.Rng, c.Rng.Intn(200)), 2
		case 6:
			raw, lc = byteText(c.Rng, c.Rng.Intn(3500)), 3
		case 7:
			m := allModes[c.Rng.Intn(4)]
			raw, lc = textOf(c.Rng, m, qrref.Capacity(40, c.Rng.Intn(4), m)-2+c.Rng.Intn(5)), 4
		default:
			m := allModes[c.Rng.Intn(4)]
			raw, lc = textOf(c.Rng, m, c.Rng.Intn(300)), 5
		}
		var o []qrcode.EncodeOption
		kinds := 0
		var ds []string
		for k := c.Rng.Intn(5); k > 0; k-- {
			v := []int64{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 26, 27, 32, 40, 41, 64, 255, 256, -1, -40, 1 << 31, -1 << 63, 1<<63 - 1}[c.Rng.Intn(24)]
			kind := c.Rng.Intn(4)
			kinds |= 1 << kind
			switch kind {
			case 0:
				o = append(o, qrcode.WithVersion(int(v)))
			case 1:
				o = append(o, qrcode.WithMinimumVersion(int(v)))
			case 2:
				o = append(o, anyLevel(v))
			case 3:
				o = append(o, anyMode(v))
			}
			ds = append(ds, fmt.Sprintf("%s(%d)", [4]string{"version", "minimum", "level", "mode"}[kind], v))
		}
		typ := c.Rng.Intn(4)
		c.Desc("text %s (%d bytes) as type %d, options %v", quoteClip(raw, 300), len(raw), typ, ds)
		q, err := encodeAs(typ, raw, o)
		if (q == nil) == (err == nil) {
			c.Failf("returned symbol %v and error %v", q != nil, err)
			return
		}
		if err != nil {
			if err.Error() == "" {
				c.Failf("an empty error message")
			}
			c.Count("errors", 1)
			c.Key("err-%d-%d", kinds, lc)
			return
		}
		g, err := gridOf(q)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		a := qrref.Analyze(g)
		if a.Unreadable || !bytes.Equal(a.Payload, raw) {
			c.Failf("no error, but the symbol reads %s %s", quoteClip(a.Payload, 100), a.Why)
			return
		}
		c.Count("symbols", 1)
		c.Key("ok-%d-%d-v%d", kinds, lc, a.Ver)
	})
	r.Each("huge", r.N(10, 60), func(c *C) {
		n := []int{7090, 10000, 65535, 65536, 1 << 20}[c.Index%5]
		m := allModes[c.Index/5%4]
		if m == qrref.ModeKanji {
			n /= 3
		}
		raw := textOf(c.Rng, m, n)
		var o []qrcode.EncodeOption
		if c.Index%2 == 1 {
			o = append(o, qrcode.WithVersion(40))
		}
		c.Desc("%d characters of %s", n, qrref.ModeName(m))
		q, err := encodeAs(c.Index%4, raw, o)
		if err == nil || q != nil {
			c.Failf("more than any symbol holds, but no error")
		}
		c.Count("errors", 1)
		c.Key("huge-%d-%d", c.Index%5, m)
	})
	// as large as memory allows, within reason
	r.Serial("giant", r.N(6, 12), func(c *C) {
		unit := []string{"7", "AB 1$", "x", "\u6f22", "\xff", "0123456789"}[c.Index%6]
		n := []int{48 << 20, 20 << 20}[c.Index/6%2]
		var o []qrcode.EncodeOption
		switch c.Rng.Intn(3) {
		case 0:
			o = append(o, qrcode.WithVersion(40))
		case 1:
			o = append(o, anyMode(int64([]uint{4, 8, 32, 16, 32, 4}[c.Index%6])))
		}
		c.Desc("%d bytes of %q repeated, %d options", n, unit, len(o))
		q, err := encodeAs(c.Index%4, bytes.Repeat([]byte(unit), n/len(unit)), o)
		if err == nil || q != nil {
			c.Failf("more than any symbol holds, but no error")
		}
		c.Count("errors", 1)
		c.Key("giant-%q", unit)
	})
	// very many in one process, so that what counts them wraps around
	r.Each("many", 8, func(c *C) {
		n := r.N(9000, 40000)
		text := string(textOf(c.Rng, allModes[c.Index%3], 1+c.Rng.Intn(3)))
		c.Desc("%d symbols of %q", n, text)
		o := []qrcode.EncodeOption{qrcode.WithVersion(1)}
		if c.Index%2 == 0 {
			o = nil
		}
		for i := 0; i < n; i++ {
			if q, err := qrcode.NewWith(text, o...); err != nil || q == nil {
				c.Failf("number %d fails: %v", i, err)
				return
			}
			if i%1000 == 0 {
				c.Desc("%d symbols of %q", n, text) // going on
			}
		}
		c.Count("symbols_of_the_same_text", n)
		c.Key("many-%d", c.Index)
	})
	// nothing is left running after all calls returned
	r.Serial("leak", 1, func(c *C) {
		c.Desc("goroutines after all calls returned")
		for i := 0; i < 400; i++ {
			if runtime.NumGoroutine() <= base+1 { // this lane
				c.Count("goroutines_left", 0)
				c.Key("noleak")
				return
			}
			time.Sleep(50 * time.Millisecond)
		}
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		if bytes.Contains(buf, []byte("go-qrcode")) {
			c.Failf("%d goroutines before, %d after:\n%s", base, runtime.NumGoroutine(), clip(string(buf), 2500))
		}
	})
}

// ---- C14 -------------------------------------------------------------------

func runC14(r *R) {
	check := func(c *C, e Enc) {
		c.Desc("%v", e)
		_, g, ok := encodeOK(c, e)
		if !ok {
			return
		}
		w := e.want()
		a := qrref.Analyze(g)
		if !a.Square || a.Ver != w.Ver {
			c.Failf("not a version %d symbol", w.Ver)
			return
		}
		data, ok := qrref.Segment(e.Raw, w.Mode, w.Ver, w.Lv)
		if !ok {
			c.Failf("harness: reference cannot encode")
			return
		}
		lens := qrref.BlockDataLens(w.Ver, w.Lv)
		ec := qrref.ECPerBlock(w.Ver, w.Lv)
		idx := interleaveIndex(w.Ver, w.Lv)
		p := 0
		for b, n := range lens {
			blk := data[p : p+n]
			p += n
			full := append(append([]byte{}, blk...), qrref.RSEncode(blk, ec)...)
			for i, v := range full {
				if got := a.Codewords[idx[b][i]]; got != v {
					part := "data"
					if i >= n {
						part = "error correction"
					}
					c.Failf("block %d of %d, %s codeword %d is %#02x, want %#02x (version %d-%s %s, %d data codewords)", b, len(lens), part, i, got, v, w.Ver, levelName[w.Lv], qrref.ModeName(w.Mode), len(data))
					return
				}
			}
		}
		for i, b := range a.Remainder {
			if b {
				c.Failf("remainder bit %d is 1", i)
				return
			}
		}
		c.Count("codewords_compared", len(a.Codewords))
		c.Count("remainder_bits_compared", len(a.Remainder))
		used := qrref.CountBits(w.Mode, w.Ver) + 4 + qrref.PayloadBits(w.Mode, charCount(w.Mode, e.Raw))
		left := len(data)*8 - used
		c.Key("v%d-%s-%s-t%d-b%d-p%v", w.Ver, levelName[w.Lv], qrref.ModeName(w.Mode), imini(left, 4), used%8, left > 12)
	}
	// around the capacity the terminator and padding are cut short
	r.Each("edge", 640*3, func(c *C) {
		k := c.Index
		mode, lv, ver := allModes[k%4], k/4%4, k/16%40+1
		n := qrref.Capacity(ver, lv, mode) - k/640
		if k/640 == 2 {
			n = qrref.Capacity(ver, lv, mode) - 2 - c.Rng.Intn(4)
		}
		check(c, Enc{Raw: textOf(c.Rng, mode, imaxi(n, 0)), Lv: lv, Ver: ver, Mode: mode})
	})
	r.Each("random", r.N(1500, 40000), func(c *C) { check(c, someEnc(c.Rng)) })
	r.Each("short", 4*60, func(c *C) {
		m := allModes[c.Index%4]
		check(c, Enc{Raw: textOf(c.Rng, m, c.Index/4), Lv: c.Rng.Intn(4), Mode: m, MinVer: 1 + c.Rng.Intn(40)})
	})
}

// ---- C15 -------------------------------------------------------------------

// collectedC15 keeps matrices of symbols that are collected meanwhile.
func collectedC15(c *C) {
	type kept struct {
		m      qrcode.Matrix
		bitmap [][]bool
		digest string
		text   string
	}
	var ks []kept
	func() {
		for i := 0; i < 30; i++ {
			e := someEnc(c.Rng)
			if i%2 == 0 {
				e = Enc{Raw: []byte(fmt.Sprint(i)), Lv: c.Rng.Intn(4)}
			}
			c.Desc("%v, its matrix kept", e)
			q, _, ok := encodeOK(c, e)
			if !ok {
				return
			}
			m, err := matrixOf(q)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			if i%3 == 0 {
				q.Save(nullWriter{})
				m2 := m.Copy()
				m = *m2
			}
			ks = append(ks, kept{m, m.Bitmap(), typedDigest(m), fmt.Sprint(e)})
		}
	}()
	c.Desc("30 matrices kept while their symbols are collected and others made")
	n := 0
	for i := 0; i < 6; i++ {
		runtime.GC()
		time.Sleep(5 * time.Millisecond) // finalizers
		for k := 0; k < 40; k++ {
			var o []qrcode.EncodeOption
			if k%8 == 0 {
				o = append(o, qrcode.WithVersion(1+c.Rng.Intn(40)))
			}
			if q, err := qrcode.NewWith(fmt.Sprint(c.Rng.Intn(1000)), o...); err == nil {
				q.Save(nullWriter{})
				n++
			}
		}
	}
	for _, k := range ks {
		if typedDigest(k.m) != k.digest {
			c.Failf("the matrix of %s changed after its symbol was gone", k.text)
			return
		}
		b := k.m.Bitmap()
		for y := range b {
			for x := range b[y] {
				if b[y][x] != k.bitmap[y][x] {
					c.Failf("the bitmap of %s taken earlier changed at (x %d, y %d)", k.text, x, y)
					return
				}
			}
		}
	}
	c.Count("matrices_that_outlived_their_symbols", len(ks))
	c.Count("symbols_made_meanwhile", n)
	c.Key("collected-%d", c.Index%16)
}

func runC15(r *R) {
	r.Serial("collected", r.N(6, 60), collectedC15)
	type val struct {
		t qrcode.QRType
		b bool
	}
	read := func(m qrcode.Matrix) ([][]val, string) {
		d := m.Width()
		out := make([][]val, d)
		seen := make([]int, d*d)
		for i := range out {
			out[i] = make([]val, d)
		}
		k, bad := 0, ""
		m.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) {
			if x < 0 || y < 0 || x >= d || y >= d {
				bad = fmt.Sprintf("row-wise iteration visits (%d,%d)", x, y)
				return
			}
			if y*d+x != k {
				bad = fmt.Sprintf("row-wise iteration visits (x %d, y %d) as number %d", x, y, k)
			}
			k++
			seen[y*d+x]++
			out[y][x] = val{v.Type(), v.IsSet()}
		})
		if bad == "" && k != d*d {
			bad = fmt.Sprintf("row-wise iteration makes %d visits", k)
		}
		return out, bad
	}
	same := func(m qrcode.Matrix, ref [][]val) string {
		d := len(ref)
		if m.Width() != d || m.Height() != d {
			return fmt.Sprintf("width %d height %d, want %d", m.Width(), m.Height(), d)
		}
		got, bad := read(m)
		if bad != "" {
			return bad
		}
		for y := range ref {
			for x := range ref[y] {
				if got[y][x] != ref[y][x] {
					return fmt.Sprintf("row-wise iteration has %v at (x %d, y %d), want %v", got[y][x], x, y, ref[y][x])
				}
			}
		}
		k, msg := 0, ""
		m.Iterate(qrcode.IterDirection_COLUMN, func(x, y int, v qrcode.QRValue) {
			if msg == "" && (x*d+y != k || (val{v.Type(), v.IsSet()}) != ref[y][x]) {
				msg = fmt.Sprintf("column-wise visit %d is (x %d, y %d) with %v", k, x, y, v)
			}
			k++
		})
		if msg == "" && k != d*d {
			msg = fmt.Sprintf("column-wise iteration makes %d visits", k)
		}
		if msg != "" {
			return msg
		}
		bm := m.Bitmap()
		if len(bm) != d {
			return fmt.Sprintf("bitmap has %d rows", len(bm))
		}
		for i := 0; i < d; i++ {
			row, col := m.Row(i), m.Col(i)
			if len(row) != d || len(col) != d || len(bm[i]) != d {
				return fmt.Sprintf("row/column/bitmap row %d has %d/%d/%d entries", i, len(row), len(col), len(bm[i]))
			}
			for j := 0; j < d; j++ {
				if (val{row[j].Type(), row[j].IsSet()}) != ref[i][j] {
					return fmt.Sprintf("Row(%d)[%d] is %v", i, j, row[j])
				}
				if (val{col[j].Type(), col[j].IsSet()}) != ref[j][i] {
					return fmt.Sprintf("Col(%d)[%d] is %v", i, j, col[j])
				}
				if bm[i][j] != ref[i][j].b {
					return fmt.Sprintf("bitmap[%d][%d] is %v", i, j, bm[i][j])
				}
			}
		}
		for _, k := range []int{-1, d, d + 1, -d, 1 << 30} {
			if m.Row(k) != nil || m.Col(k) != nil {
				return fmt.Sprintf("Row(%d)/Col(%d) outside the matrix is not nil", k, k)
			}
		}
		return ""
	}
	overSymbols(r, r.N(3, 30), r.N(150, 5000), func(c *C, e Enc, q *qrcode.QRCode, g qrref.Grid) {
		m, err := matrixOf(q)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		ref, bad := read(m)
		if bad != "" {
			c.Failf("%s", bad)
			return
		}
		d := m.Width()
		if q.Dimension() != d || m.Height() != d {
			c.Failf("Dimension %d, width %d, height %d", q.Dimension(), m.Width(), m.Height())
			return
		}
		if s := same(m, ref); s != "" {
			c.Failf("views disagree: %s", s)
			return
		}
		// module types
		ver := (d - 17) / 4
		l := qrref.LayoutOf(ver)
		wantT := map[qrref.Region]qrcode.QRType{qrref.RData: qrcode.QRType_DATA, qrref.RFinder: qrcode.QRType_FINDER,
			qrref.RSeparator: qrcode.QRType_SPLITTER, qrref.RTiming: qrcode.QRType_TIMING, qrref.RAlign: qrcode.QRType_DATA,
			qrref.RDark: qrcode.QRType_DARK, qrref.RFormat: qrcode.QRType_FORMAT, qrref.RVersion: qrcode.QRType_VERSION}
		for y := 0; y < d; y++ {
			for x := 0; x < d; x++ {
				t := ref[y][x].t
				if t != wantT[l.Reg[y][x]] && !(l.Reg[y][x] == qrref.RAlign && (x == 6 || y == 6) && t == qrcode.QRType_TIMING) {
					c.Failf("%s module at (x %d, y %d) has type %v", qrref.RegionName[l.Reg[y][x]], x, y, t)
					return
				}
				if ref[y][x].b != g[y][x] {
					c.Failf("two saves differ at (x %d, y %d)", x, y)
					return
				}
			}
		}
		// views taken while another is being read
		for _, dir := range []int{1, 2} {
			direction, k, at, msg := qrcode.IterDirection_ROW, 0, c.Rng.Intn(d*d), ""
			if dir == 2 {
				direction = qrcode.IterDirection_COLUMN
			}
			visit := func(x, y int, v qrcode.QRValue) {
				wx, wy := k%d, k/d
				if dir == 2 {
					wx, wy = wy, wx
				}
				if msg == "" && (k >= d*d || x != wx || y != wy || (val{v.Type(), v.IsSet()}) != ref[y][x]) {
					msg = fmt.Sprintf("visit %d is (x %d, y %d) with %v", k, x, y, v)
				}
				k++
			}
			m.Iterate(direction, func(x, y int, v qrcode.QRValue) {
				if k == at {
					m.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) {})
					m.Iterate(qrcode.IterDirection_COLUMN, func(x, y int, v qrcode.QRValue) {})
					m.Bitmap()
					m.Row(c.Rng.Intn(d))
					m.Col(c.Rng.Intn(d))
					m.Copy()
				}
				visit(x, y, v)
			})
			if msg == "" && k != d*d {
				msg = fmt.Sprintf("%d visits", k)
			}
			if msg != "" {
				c.Failf("an iteration in direction %d, during whose visit %d the other views were taken: %s", direction, at, msg)
				return
			}
			c.Count("nested_views", 1)
		}
		c.Count("modules_cross_checked", d*d)
		// views that are held while others are taken
		{
			type held struct {
				name string
				v    interface{}
				was  string
			}
			var hs []held
			keep := func(name string, v interface{}) { hs = append(hs, held{name, v, fmt.Sprint(v)}) }
			for i := 0; i < 3; i++ {
				n := c.Rng.Intn(d)
				keep(fmt.Sprintf("Row(%d)", n), m.Row(n))
				n = c.Rng.Intn(d)
				keep(fmt.Sprintf("Col(%d)", n), m.Col(n))
				m2 := m
				keep(fmt.Sprintf("Col(%d) of a value", n), m2.Col(n))
			}
			keep("Bitmap", m.Bitmap())
			m.Bitmap()
			for i := 0; i < d; i++ {
				m.Row(i)
				m.Col(i)
			}
			for _, h := range hs {
				if fmt.Sprint(h.v) != h.was {
					c.Failf("%s, held while other views were taken, has changed", h.name)
					return
				}
			}
			c.Count("held_views", len(hs))
		}
		// scribble over everything handed out; the symbol has to survive
		cp := m.Copy()
		if s := same(*cp, ref); s != "" {
			c.Failf("the copy differs: %s", s)
			return
		}
		appended := ""
		scribbles := []struct {
			name string
			f    func(m *qrcode.Matrix)
		}{
			{"Bitmap", func(m *qrcode.Matrix) {
				for _, row := range m.Bitmap() {
					for i := range row {
						row[i] = !row[i]
					}
				}
			}},
			{"Row", func(m *qrcode.Matrix) {
				for i := 0; i < d; i++ {
					for j, v := range m.Row(i) {
						m.Row(i)[j] = v ^ 1
					}
				}
				row := m.Row(3)
				for j := range row {
					row[j] ^= 1
				}
			}},
			{"Col", func(m *qrcode.Matrix) {
				for i := 0; i < d; i++ {
					col := m.Col(i)
					for j := range col {
						col[j] ^= 1
					}
				}
			}},
			{"appended rows", func(m *qrcode.Matrix) {
				// appending to one view must not reach another
				b, row, col := m.Bitmap(), m.Row(1), m.Col(1)
				next, row2, col2 := fmt.Sprint(b[1:]), fmt.Sprint(m.Row(2)), fmt.Sprint(m.Col(2))
				for _, v := range []bool{true, false} {
					b[0] = append(b[0][:d], v, !v, v, v, !v)
					if got := fmt.Sprint(b[1:]); got != next {
						appended = "appending to a row of a bitmap changes other rows of it"
					}
				}
				for k := 0; k < 2; k++ {
					row, col = append(row[:d], row[k]^1, row[k]), append(col[:d], col[k]^1, col[k])
					if fmt.Sprint(m.Row(2)) != row2 || fmt.Sprint(m.Col(2)) != col2 {
						appended = "appending to a row or column changes the next one"
					}
				}
			}},
			{"Copy", func(m *qrcode.Matrix) {
				c2 := m.Copy()
				for i := 0; i < d; i++ {
					col := c2.Col(i)
					for j := range col {
						col[j] ^= 1
					}
				}
			}},
		}
		for _, s := range scribbles {
			s.f(&m)
			s.f(cp)
			if appended != "" {
				c.Failf("%s", appended)
				return
			}
			for _, x := range []struct {
				n string
				m qrcode.Matrix
			}{{"the matrix", m}, {"its copy", *cp}} {
				if msg := same(x.m, ref); msg != "" {
					c.Failf("writing to what %s returned changed %s: %s", s.name, x.n, msg)
					return
				}
			}
			m2, err := matrixOf(q)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			if msg := same(m2, ref); msg != "" {
				c.Failf("writing to what %s returned changed what a later Save hands out: %s", s.name, msg)
				return
			}
			c.Count("scribbles_survived", 1)
			c.Key("v%d-%s", ver, s.name)
		}
	})
}

// ---- C16 -------------------------------------------------------------------

type panicWriter struct{ tap }

func (p *panicWriter) Write(m qrcode.Matrix) error {
	p.tap.Write(m)
	panic("writer panics")
}

// nestWriter saves the symbol to another writer while it is written to.
type nestWriter struct {
	tap
	q     *qrcode.QRCode
	wait  bool
	inner *tap
}

func (w *nestWriter) Write(m qrcode.Matrix) error {
	save := func() error { return w.q.Save(w.inner) }
	if w.wait {
		done := make(chan error)
		go func() { done <- w.q.Save(w.inner) }()
		save = func() error { return <-done }
	}
	if err := save(); err != nil {
		return err
	}
	return w.tap.Write(m)
}

// tapValue is a writer that is no pointer.
type tapValue struct{ t *tap }

func (v tapValue) Write(m qrcode.Matrix) error { return v.t.Write(m) }
func (v tapValue) Close() error                { return v.t.Close() }

// kindError is an error with the methods people look for.
type kindError struct{ temporary, timeout bool }

func (e *kindError) Error() string   { return "kind of error" }
func (e *kindError) Temporary() bool { return e.temporary }
func (e *kindError) Timeout() bool   { return e.timeout }

type valueError int

func (valueError) Error() string { return "" }

// someError picks one of the errors a writer may meet.
func someError(r *rand.Rand) error {
	switch r.Intn(6) {
	case 0:
		return errors.New("write fails")
	case 1:
		return &kindError{r.Intn(2) == 0, r.Intn(2) == 0}
	case 2:
		return valueError(r.Intn(3))
	case 3:
		return &os.PathError{Op: "write", Path: "p", Err: syscall.Errno([]syscall.Errno{syscall.EINTR, syscall.EAGAIN, syscall.ENOSPC, syscall.EPIPE, syscall.EIO, syscall.EBADF, syscall.EFBIG, syscall.EDQUOT}[r.Intn(8)])}
	case 4:
		return []error{syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.Errno(0)}[r.Intn(4)]
	}
	return []error{io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrClosed, os.ErrDeadlineExceeded, os.ErrExist, os.ErrNotExist, context.Canceled, context.DeadlineExceeded, io.ErrNoProgress, http.ErrAbortHandler, errors.ErrUnsupported}[r.Intn(13)]
}

func runC16(r *R) {
	// symbols kept while many others are made, saved and drawn
	r.Each("kept", r.N(16, 100), func(c *C) {
		var qs []*qrcode.QRCode
		var first []string
		var encs []Enc
		for i := 0; i < 12; i++ {
			e := someEnc(c.Rng)
			c.Desc("%v", e)
			q, g, ok := encodeOK(c, e)
			if !ok {
				return
			}
			m, err := matrixOf(q)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			if d := diffGrids(g, m.Bitmap()); d != "" {
				c.Failf("the second save hands out another symbol: %s", d)
				return
			}
			qs, first, encs = append(qs, q), append(first, typedDigest(m)), append(encs, e)
		}
		n := 500 + c.Rng.Intn(1000)
		c.Desc("12 symbols kept while %d others are made", n)
		for i := 0; i < n; i++ {
			var o []qrcode.EncodeOption
			if c.Rng.Intn(100) == 0 {
				o = append(o, qrcode.WithVersion(1+c.Rng.Intn(40)))
			}
			q, err := qrcode.NewWith(fmt.Sprint(c.Rng.Intn(100000)), o...)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			if i%16 == 0 {
				render(q, standard.WithQRWidth(1))
			}
		}
		for i, q := range qs {
			m, err := matrixOf(q)
			if err != nil || typedDigest(m) != first[i] {
				c.Failf("after %d others, saving %v hands out another symbol (%v)", n, encs[i], err)
				return
			}
		}
		c.Count("symbols_made_meanwhile", n)
		c.Count("saves", 24)
		c.Key("kept-%d", n/100)
	})
	r.Each("protocol", r.N(900, 20000), func(c *C) {
		e := someEnc(c.Rng)
		for len(e.Raw) > 300 && c.Index%8 > 0 {
			e = someEnc(c.Rng)
		}
		if c.Index%16 == 8 { // a large one
			lv, m := c.Rng.Intn(4), allModes[c.Rng.Intn(4)]
			e = Enc{Lv: lv, Ver: 20 + c.Rng.Intn(21)}
			e.Raw = textOf(c.Rng, m, c.Rng.Intn(qrref.Capacity(e.Ver, lv, m)+1))
		}
		q, g, ok := encodeOK(c, e)
		if !ok {
			return
		}
		var first string
		for i := 0; i < 2+c.Rng.Intn(3); i++ {
			t := &tap{}
			wk, ck := c.Rng.Intn(3), c.Rng.Intn(2)
			if wk == 1 {
				t.werr = someError(c.Rng)
			}
			if wk == 2 {
				t.werr = fmt.Errorf("wrapped: %w", someError(c.Rng))
			}
			if ck == 1 {
				t.cerr = someError(c.Rng)
			}
			c.Desc("%v; save number %d, Write returns %v, Close returns %v", e, i, t.werr, t.cerr)
			err := q.Save(t)
			if got := strings.Join(t.log, " "); got != "write close" {
				c.Failf("the writer saw %q, want one write and then one close", got)
				return
			}
			if t.werr != nil && !errors.Is(err, t.werr) {
				c.Failf("Write returned %v, Save returned %v", t.werr, err)
				return
			}
			if t.werr == nil && t.cerr == nil && err != nil {
				c.Failf("Save failed: %v", err)
				return
			}
			d := typedDigest(t.mats[0])
			if first == "" {
				first = d
				if d := diffGrids(g, t.mats[0].Bitmap()); d != "" {
					c.Failf("the second save hands out another symbol: %s", d)
					return
				}
			} else if d != first {
				c.Failf("save number %d hands out another symbol", i)
				return
			}
			c.Count("saves", 1)
			c.Key("w%d-c%d-i%d", wk, ck, imini(i, 3))
		}
		c.Desc("%v; nil writer", e)
		if err := q.Save(nil); err != nil {
			c.Failf("saving to no writer failed: %v", err)
			return
		}
		// the same writer is as good the next time
		again, other := &tap{}, &tap{}
		want := []string{}
		for i := 0; i < 2+c.Rng.Intn(3); i++ {
			c.Desc("%v; save number %d to one writer", e, i)
			var w qrcode.Writer = again
			if c.Index%2 == 0 {
				w = tapValue{again}
			}
			if i > 0 && c.Rng.Intn(3) == 0 {
				if err := q.Save(other); err != nil {
					c.Failf("Save failed: %v", err)
					return
				}
			}
			want = append(want, "write", "close")
			if err := q.Save(w); err != nil || strings.Join(again.log, " ") != strings.Join(want, " ") {
				c.Failf("the writer saw %q (Save returned %v)", strings.Join(again.log, " "), err)
				return
			}
			if d := typedDigest(again.mats[i]); d != first {
				c.Failf("it is handed another symbol")
				return
			}
			c.Count("saves_to_a_known_writer", 1)
		}
		// a writer that saves the same symbol elsewhere while it is written to, by itself
		// or by waiting for somebody else to do it
		for _, wait := range []bool{false, true} {
			c.Desc("%v; a save from within a save, by another goroutine %v", e, wait)
			in, out := &tap{}, &nestWriter{q: q, wait: wait}
			out.inner = in
			if err := q.Save(out); err != nil {
				c.Failf("Save failed: %v", err)
				return
			}
			if strings.Join(out.log, " ") != "write close" || strings.Join(in.log, " ") != "write close" {
				c.Failf("the writers saw %q and %q", strings.Join(out.log, " "), strings.Join(in.log, " "))
				return
			}
			if typedDigest(out.mats[0]) != first || typedDigest(in.mats[0]) != first {
				c.Failf("one of them is handed another symbol")
				return
			}
			c.Count("nested_saves", 1)
		}
		// a writer that ends the goroutine in Write is still closed
		x := &exitWriter{}
		c.Desc("%v; a writer that ends its goroutine", e)
		gone := make(chan struct{})
		go func() {
			defer close(gone)
			q.Save(x)
		}()
		<-gone
		if x.writes != 1 || x.closes != 1 {
			c.Failf("a writer that ends its goroutine saw %q, want one write and one close", strings.Join(x.log, " "))
			return
		}
		// a panicking writer is still closed
		p := &panicWriter{}
		c.Desc("%v; panicking writer", e)
		func() {
			defer func() { recover() }()
			q.Save(p)
		}()
		if p.writes != 1 || p.closes != 1 {
			c.Failf("a writer that panics saw %q, want one write and one close", strings.Join(p.log, " "))
			return
		}
		m, err := matrixOf(q)
		if err != nil || typedDigest(m) != first {
			c.Failf("after the failures Save hands out another symbol (err %v)", err)
			return
		}
		c.Count("saves", 3)
		c.Key("panic")
	})
}

// ---- C33 -------------------------------------------------------------------

func runC33(r *R) {
	id := ideographs
	checkText := func(c *C, s string, explicit bool, lv int) {
		e := Enc{Raw: []byte(s), Lv: lv}
		if explicit {
			e.Mode = qrref.ModeKanji
		}
		c.Desc("%v", e)
		_, g, ok := encodeOK(c, e)
		if !ok {
			return
		}
		a := qrref.Analyze(g)
		if a.Unreadable || a.Mode != qrref.ModeKanji || string(a.Payload) != s {
			c.Failf("reads %q in %s mode %s", a.Payload, qrref.ModeName(a.Mode), a.Why)
			return
		}
		c.Count("kanji_read_back", a.Count)
	}
	r.Each("alone", len(id), func(c *C) {
		checkText(c, string(id[c.Index]), c.Index%2 == 0, c.Rng.Intn(4))
		c.Key("%c", id[c.Index])
	})
	// runs: every ideograph once more, in every phase of 13 bits modulo 8
	const run = 29
	r.Each("runs", (len(id)+run-1)/run, func(c *C) {
		s := id[c.Index*run:]
		if len(s) > run {
			s = s[:run]
		}
		checkText(c, string(s), false, c.Rng.Intn(4))
		checkText(c, string(s)+string(id[0]), true, c.Rng.Intn(4))
	})
	r.Each("long", r.N(30, 400), func(c *C) {
		lv := c.Rng.Intn(4)
		n := someLen(c.Rng, 10+c.Rng.Intn(31), lv, qrref.ModeKanji)
		checkText(c, string(textOf(c.Rng, qrref.ModeKanji, n)), false, lv)
	})
	// code points without a kanji-mode code are refused by explicit kanji mode
	// and carried as bytes automatically
	r.Each("others", 0x10000/64, func(c *C) {
		for k := 0; k < 64; k++ {
			u := rune(c.Index*64 + k)
			if u >= 0xD800 && u < 0xE000 {
				continue
			}
			if qrref.IsIdeograph(u) {
				continue
			}
			_, code := qrref.KanjiCode(u)
			s := string(u)
			c.Desc("%q (U+%04X)", s, u)
			_, err := qrcode.NewWith(s, qrcode.WithEncodingMode(qrcode.EncModeKanji))
			if err == nil && !code {
				c.Failf("U+%04X has no kanji-mode code but explicit kanji mode accepts it", u)
				return
			}
			if !code {
				c.Count("refused", 1)
			}
			if c.Rng.Intn(r.N(24, 1)) == 0 || u >= 0x3400 && u < 0x3410 || u >= 0xF900 && u < 0xFB00 {
				e := Enc{Raw: []byte(s), Lv: -1}
				_, g, ok := encodeOK(c, e)
				if !ok {
					return
				}
				a := qrref.Analyze(g)
				if a.Unreadable || string(a.Payload) != s {
					c.Failf("U+%04X reads %q in %s mode %s", u, a.Payload, qrref.ModeName(a.Mode), a.Why)
					return
				}
				c.Count("other_characters_read_back", 1)
			}
		}
		c.Key("page-%d", c.Index)
	})
	r.rep.Exhaustive = true
}

// exitWriter ends the goroutine that writes to it.
type exitWriter struct{ tap }

func (p *exitWriter) Write(m qrcode.Matrix) error {
	p.tap.Write(m)
	runtime.Goexit()
	return nil
}
