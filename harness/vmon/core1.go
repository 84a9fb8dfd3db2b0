package main

import (
	"bytes"
	"fmt"
	"strings"

	"verifharness/qrref"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

const assumeRef = "the independent reference reader in harness/qrref follows ISO/IEC 18004; it shares no code or table with the library"

func init() {
	register(&Prop{ID: "C01", Run: runC01, Assume: []string{assumeRef},
		Rule: "encode calls over every version/level/mode at boundary and random lengths, hostile byte strings and mode mixtures, as string, []byte and named types; each symbol is read back by an independent reader, some also off rendered images. Non-trivial = symbol produced and read; distinct by (version, level, mode, mask, fill)."})
	register(&Prop{ID: "C02", Run: runC02, Assume: []string{assumeRef},
		Rule: "all 160 version/level pairs with varied texts, each module of the fixed patterns compared with an independently computed layout. Distinct by (version, level, mask)."})
	register(&Prop{ID: "C03", Run: runC03, Assume: []string{assumeRef},
		Rule: "all 160 version/level pairs with varied texts until every mask is seen; both format words and both version words compared bit by bit with BCH words computed here. Distinct by (version, level, mask)."})
	register(&Prop{ID: "C04", Level: "fault_enumeration", Run: runC04, Assume: []string{assumeRef},
		Rule: "symbols of every version and level; the syndromes of every block are computed, then codewords of each block are damaged up to the guaranteed number, plus up to 3 format bits, and the reader has to recover the text. Distinct by (version, level, damage pattern class)."})
	register(&Prop{ID: "C05", Run: runC05, Assume: []string{assumeRef},
		Rule: "all version/level/mode capacity boundaries (cap and cap+1) and random lengths without a version option; the chosen version is compared with the smallest one computed from the standard's tables. Distinct by (version, level, mode, boundary)."})
	register(&Prop{ID: "C06", Run: runC06, Assume: []string{assumeRef},
		Rule: "version and minimum-version options, in and out of range, alone, together, repeated, with texts below, at and above the capacity. Distinct by (kind, version, level, mode, verdict)."})
	register(&Prop{ID: "C07", Run: runC07, Assume: []string{assumeRef},
		Rule: "texts on the borders between the four character sets, without a mode option; the mode indicator in the symbol is compared with the most compact admissible mode. Distinct by (mode, length class, text shape)."})
	register(&Prop{ID: "C08", Run: runC08, Assume: []string{assumeRef},
		Rule: "each explicit mode with texts inside and just outside its character set, and values that are no mode. Distinct by (mode, verdict, offending position class)."})
	register(&Prop{ID: "C09", Run: runC09, Assume: []string{assumeRef},
		Rule: "sequences of level options (valid, out of range, repeated) and reused option lists across interleaved calls; the level is read off the symbol. Distinct by option sequence."})
}

func analyzeOK(c *C, g qrref.Grid) (*qrref.Analysis, bool) {
	a := qrref.Analyze(g)
	if a.Unreadable {
		c.Failf("the symbol cannot be read: %s", a.Why)
		return a, false
	}
	return a, true
}

// ---- C01 -------------------------------------------------------------------

func runC01(r *R) {
	check := func(c *C, e Enc) {
		c.Desc("%v", e)
		_, g, ok := encodeOK(c, e)
		if !ok {
			return
		}
		a, ok := analyzeOK(c, g)
		if !ok {
			return
		}
		if !bytes.Equal(a.Payload, e.Raw) {
			c.Failf("the symbol reads %s (%d bytes, %s mode, version %d)", quoteClip(a.Payload, 200), len(a.Payload), qrref.ModeName(a.Mode), a.Ver)
			return
		}
		if !a.Square || len(a.FormatIssues) > 0 && a.Corrected > 0 {
			return
		}
		c.Key("%s", sigOf(e, a))
		c.Count("symbols_read_back", 1)
		c.Count("payload_bytes_read_back", len(a.Payload))
	}
	// every version x level x mode at its exact capacity and just above the previous
	r.Each("boundary", 160*4*2, func(c *C) {
		k := c.Index
		mode := allModes[k%4]
		lv := k / 4 % 4
		ver := k/16%40 + 1
		n := qrref.Capacity(ver, lv, mode)
		if k/640 == 1 {
			n = 1
			if ver > 1 {
				n = qrref.Capacity(ver-1, lv, mode) + 1
			}
		}
		check(c, Enc{Raw: textOf(c.Rng, mode, n), Lv: lv, Type: c.Rng.Intn(4)})
	})
	r.Each("random", r.N(2200, 60000), func(c *C) { check(c, someEnc(c.Rng)) })
	// every single byte and every pair with a digit, a capital and a lower-case letter
	r.Each("bytes", 256*4, func(c *C) {
		b := byte(c.Index)
		t := [][]byte{{b}, {b, '7'}, {'A', b}, {'z', b, 'z'}}[c.Index/256]
		check(c, Enc{Raw: t, Lv: -1, Type: c.Index % 4})
	})
	// all short lengths in every mode: every group remainder
	r.Each("lengths", 4*120, func(c *C) {
		m := allModes[c.Index%4]
		check(c, Enc{Raw: textOf(c.Rng, m, c.Index/4), Lv: c.Rng.Intn(4), Mode: m})
	})
	r.Each("mixtures", r.N(1500, 30000), func(c *C) {
		check(c, Enc{Raw: mixedText(c.Rng), Lv: c.Rng.Intn(5) - 1, Type: c.Rng.Intn(4)})
	})
	r.Each("touchy", r.N(700, 20000), func(c *C) {
		check(c, Enc{Raw: touchyText(c.Rng), Lv: c.Rng.Intn(5) - 1, Type: c.Rng.Intn(4)})
	})
	r.Each("scripts", r.N(len(scriptRanges)*20, len(scriptRanges)*400), func(c *C) {
		n := 1 + c.Rng.Intn(40)
		if c.Rng.Intn(2) == 0 {
			n = 1 + c.Rng.Intn(1500)
		}
		check(c, Enc{Raw: scriptText(c.Rng, n), Lv: c.Rng.Intn(3), Type: c.Rng.Intn(4)})
	})
	r.Each("strangers", r.N(700, 8000), func(c *C) {
		st := strangers()
		x := string(st[c.Rng.Intn(len(st))]) + string(textOf(c.Rng, allModes[c.Rng.Intn(4)], c.Rng.Intn(4)))
		check(c, Enc{Raw: []byte(x), Lv: c.Rng.Intn(5) - 1, Type: c.Rng.Intn(4)})
	})
	r.Each("long-intruder", r.N(60, 2000), func(c *C) {
		m := allModes[c.Rng.Intn(3)]
		check(c, Enc{Raw: intruded(c.Rng, m, 1+c.Rng.Intn([]int{2900, 2900, 960}[indexOf(allModes[:], m)])), Lv: 0, Type: c.Rng.Intn(4)})
	})
	// the same text has to come out of what the writers produce
	r.Each("rendered", r.N(120, 2000), func(c *C) {
		e := someEnc(c.Rng)
		e.MinVer = 0
		if len(e.Raw) > 300 {
			e.Raw, e.Ver, e.Mode = e.Raw[:300], 0, 0
		}
		c.Desc("%v, through every image and text writer", e)
		q, _, ok := encodeOK(c, e)
		if !ok {
			return
		}
		for name, g := range renderAll(c, q) {
			a := qrref.Analyze(g)
			if a.Unreadable || !bytes.Equal(a.Payload, e.Raw) {
				c.Failf("%s output reads %s %s", name, quoteClip(a.Payload, 200), a.Why)
				return
			}
			c.Count("rendered_outputs_read_back", 1)
		}
		c.Key("rendered-%d-%d", q.Dimension(), len(e.Raw))
	})
}

// ---- C02 / C03 --------------------------------------------------------------

// overSymbols visits symbols of all 160 version/level pairs, rep times, plus
// random calls.
func overSymbols(r *R, rep, extra int, f func(c *C, e Enc, q *qrcode.QRCode, g qrref.Grid)) {
	r.Each("grid", 160*rep, func(c *C) {
		ver, lv := c.Index%40+1, c.Index/40%4
		m := allModes[c.Rng.Intn(4)]
		e := Enc{Lv: lv, Ver: ver, Mode: 0, Type: c.Rng.Intn(4)}
		e.Raw = textOf(c.Rng, m, c.Rng.Intn(qrref.Capacity(ver, lv, m)+1))
		c.Desc("%v", e)
		if q, g, ok := encodeOK(c, e); ok {
			f(c, e, q, g)
		}
	})
	r.Each("random", extra, func(c *C) {
		e := someEnc(c.Rng)
		c.Desc("%v", e)
		if q, g, ok := encodeOK(c, e); ok {
			f(c, e, q, g)
		}
	})
}

func runC02(r *R) {
	overSymbols(r, r.N(8, 80), r.N(600, 20000), func(c *C, e Enc, q *qrcode.QRCode, g qrref.Grid) {
		w := e.want()
		d := qrref.Dim(w.Ver)
		if q.Dimension() != d || len(g) != d {
			c.Failf("a version %d symbol has dimension %d (Dimension() says %d), want %d", w.Ver, len(g), q.Dimension(), d)
			return
		}
		l := qrref.LayoutOf(w.Ver)
		n := 0
		for y := 0; y < d; y++ {
			if len(g[y]) != d {
				c.Failf("row %d has %d modules", y, len(g[y]))
				return
			}
			for x := 0; x < d; x++ {
				switch reg := l.Reg[y][x]; reg {
				case qrref.RFinder, qrref.RSeparator, qrref.RTiming, qrref.RAlign, qrref.RDark:
					n++
					if g[y][x] != l.Dark[y][x] {
						c.Failf("%s module at row %d col %d is dark=%v", qrref.RegionName[reg], y, x, g[y][x])
						return
					}
				}
			}
		}
		c.Count("fixed_modules_compared", n)
		a := qrref.Analyze(g)
		c.Key("v%d-%s-m%d", w.Ver, levelName[w.Lv], a.Mask)
	})
}

func runC03(r *R) {
	overSymbols(r, r.N(12, 120), r.N(600, 20000), func(c *C, e Enc, q *qrcode.QRCode, g qrref.Grid) {
		w := e.want()
		if len(g) != qrref.Dim(w.Ver) {
			c.Failf("dimension %d for version %d", len(g), w.Ver)
			return
		}
		w1, w2 := qrref.FormatCopies(g)
		if w1 != w2 {
			c.Failf("the two format words differ: %015b %015b", w1, w2)
			return
		}
		mask := -1
		for m := 0; m < 8; m++ {
			if qrref.FormatWord(w.Lv, m) == w1 {
				mask = m
			}
		}
		if mask < 0 {
			c.Failf("format word %015b is none of the eight words of level %s", w1, levelName[w.Lv])
			return
		}
		// the announced mask is the one that is applied
		a := qrref.Analyze(g)
		if a.Unreadable || len(a.ECIssues) > 0 {
			c.Failf("with the announced level %s and mask %d the codewords are not valid: %v %s", levelName[w.Lv], mask, a.ECIssues, a.Why)
			return
		}
		if len(a.VersionIssues) > 0 {
			c.Failf("version %d: %s", w.Ver, a.VersionIssues[0])
			return
		}
		c.Count("format_words_checked", 2)
		if w.Ver >= 7 {
			c.Count("version_words_checked", 2)
		}
		c.Key("v%d-%s-m%d", w.Ver, levelName[w.Lv], mask)
	})
}

// ---- C04 -------------------------------------------------------------------

func runC04(r *R) {
	overSymbols(r, r.N(4, 40), r.N(200, 6000), func(c *C, e Enc, q *qrcode.QRCode, g qrref.Grid) {
		w := e.want()
		a := qrref.Analyze(g)
		if !a.Square || a.Ver != w.Ver {
			c.Failf("not a version %d symbol", w.Ver)
			return
		}
		// read with the level that was asked for: a wrong level would pass as "damage"
		lens := qrref.BlockDataLens(w.Ver, w.Lv)
		ec := qrref.ECPerBlock(w.Ver, w.Lv)
		blocks := qrref.Deinterleave(a.Codewords, w.Ver, w.Lv)
		for i, b := range blocks {
			for _, s := range qrref.Syndromes(b, ec) {
				if s != 0 {
					c.Failf("block %d of %d (%d data, %d error correction codewords) is not a codeword of the Reed-Solomon code", i, len(blocks), lens[i], ec)
					return
				}
			}
			c.Count("blocks_with_zero_syndromes", 1)
		}
		for round := 0; round < 3; round++ {
			h := g.Clone()
			l := qrref.LayoutOf(w.Ver)
			damaged := 0
			kind := round
			// index of every block's codewords in placement order
			idx := interleaveIndex(w.Ver, w.Lv)
			for b := range lens {
				t := ec / 2
				p := c.Rng.Perm(len(idx[b]))
				if kind == 1 { // a burst from a random position
					s := c.Rng.Intn(len(idx[b]))
					for i := range p {
						p[i] = (s + i) % len(idx[b])
					}
				}
				if kind == 2 { // hit the error correction part
					for i := range p {
						p[i] = len(idx[b]) - 1 - i
					}
				}
				for _, k := range p[:t] {
					x := byte(1 + c.Rng.Intn(255))
					for bit := 0; bit < 8; bit++ {
						if x&(0x80>>bit) != 0 {
							o := l.Order[idx[b][k]*8+bit]
							h[o/l.Dim][o%l.Dim] = !h[o/l.Dim][o%l.Dim]
						}
					}
					damaged++
				}
			}
			flipFormat(c, h)
			a2 := qrref.Analyze(h)
			if a2.Unreadable || !bytes.Equal(a2.Payload, e.Raw) {
				c.Failf("after damaging %d codewords (within the guaranteed number) and 3 format bits the symbol reads %s %s", damaged, quoteClip(a2.Payload, 100), a2.Why)
				return
			}
			c.Count("codewords_damaged_and_recovered", damaged)
			c.Key("v%d-%s-%d", w.Ver, levelName[w.Lv], kind)
		}
	})
}

// flipFormat damages three bits of the format words: all in one copy or spread.
func flipFormat(c *C, g qrref.Grid) {
	d := len(g)
	l := qrref.LayoutOf((d - 17) / 4)
	var cells [][2]int
	for y := 0; y < d; y++ {
		for x := 0; x < d; x++ {
			if l.Reg[y][x] == qrref.RFormat {
				cells = append(cells, [2]int{y, x})
			}
		}
	}
	for _, k := range c.Rng.Perm(len(cells))[:3] {
		g[cells[k][0]][cells[k][1]] = !g[cells[k][0]][cells[k][1]]
	}
}

// interleaveIndex maps block and position to the placed codeword.
func interleaveIndex(ver, lv int) [][]int {
	lens := qrref.BlockDataLens(ver, lv)
	ec := qrref.ECPerBlock(ver, lv)
	out := make([][]int, len(lens))
	k := 0
	for i := 0; i < lens[len(lens)-1]; i++ {
		for b := range lens {
			if i < lens[b] {
				out[b] = append(out[b], k)
				k++
			}
		}
	}
	for i := 0; i < ec; i++ {
		for b := range lens {
			out[b] = append(out[b], k)
			k++
		}
	}
	return out
}

// ---- C05 -------------------------------------------------------------------

func runC05(r *R) {
	check := func(c *C, e Enc, kind string) {
		c.Desc("%v", e)
		w := e.want()
		q, err := e.run()
		if !w.OK {
			if err == nil || q != nil {
				d := 0
				if q != nil {
					d = q.Dimension()
				}
				c.Failf("%s, but the call returned a symbol of dimension %d and error %v", w.Why, d, err)
				return
			}
			c.Count("too_long_refused", 1)
			c.Key("refused-%s-%s", levelName[w.Lv], qrref.ModeName(w.Mode))
			return
		}
		if err != nil {
			c.Failf("the text fits version %d-%s but the call failed: %v", w.Ver, levelName[w.Lv], err)
			return
		}
		if q.Dimension() != qrref.Dim(w.Ver) {
			c.Failf("dimension %d (version %d), but the smallest version that fits is %d", q.Dimension(), (q.Dimension()-17)/4, w.Ver)
			return
		}
		c.Count("smallest_version_confirmed", 1)
		c.Key("v%d-%s-%s-%s", w.Ver, levelName[w.Lv], qrref.ModeName(w.Mode), kind)
	}
	r.Each("boundary", 640*2, func(c *C) {
		k := c.Index
		mode, lv, ver := allModes[k%4], k/4%4, k/16%40+1
		n := qrref.Capacity(ver, lv, mode)
		if k >= 640 {
			n++
		}
		e := Enc{Raw: textOf(c.Rng, mode, n), Lv: lv, Type: c.Rng.Intn(4)}
		if lv == 2 && c.Rng.Intn(2) == 0 {
			e.Lv = -1
		}
		if c.Rng.Intn(3) == 0 {
			e.Mode = mode
		}
		check(c, e, fmt.Sprint("edge", k/640))
	})
	// a forced wider mode changes the smallest version
	r.Each("forced", r.N(500, 10000), func(c *C) {
		m := allModes[c.Rng.Intn(3)]
		lv := c.Rng.Intn(4)
		e := Enc{Raw: textOf(c.Rng, m, someLen(c.Rng, someVersion(c.Rng), lv, m)), Lv: lv, Mode: qrref.ModeByte}
		if m == qrref.ModeNumeric && c.Rng.Intn(2) == 0 {
			e.Mode = qrref.ModeAlnum
		}
		check(c, e, "forced")
	})
	r.Each("random", r.N(1200, 30000), func(c *C) {
		m := allModes[c.Rng.Intn(4)]
		lv := c.Rng.Intn(4)
		check(c, Enc{Raw: textOf(c.Rng, m, someLen(c.Rng, someVersion(c.Rng), lv, m)), Lv: lv, Type: c.Rng.Intn(4)}, "any")
	})
	r.Each("short", 4*4*70, func(c *C) {
		m, lv := allModes[c.Index%4], c.Index/4%4
		check(c, Enc{Raw: textOf(c.Rng, m, c.Index/16), Lv: lv, Mode: m}, "short")
	})
	r.Each("toolong", r.N(64, 400), func(c *C) {
		m, lv := allModes[c.Index%4], c.Index/4%4
		n := qrref.Capacity(40, lv, m) + 1 + []int{0, 1, 7, 1000, 20000, 60000}[c.Rng.Intn(6)]
		check(c, Enc{Raw: textOf(c.Rng, m, n), Lv: lv, Mode: []int{0, m}[c.Rng.Intn(2)]}, "long")
	})
}

// ---- C06 -------------------------------------------------------------------

func runC06(r *R) {
	check := func(c *C, e Enc, kind string) {
		c.Desc("%s: %v", kind, e)
		w := e.want()
		q, err := e.run()
		if !w.OK {
			if err == nil || q != nil {
				c.Failf("%s, but no error was returned", w.Why)
				return
			}
			c.Count("refused", 1)
			c.Key("%s-refused-v%d-%s-%s", kind, w.Ver, levelName[w.Lv], qrref.ModeName(w.Mode))
			return
		}
		if err != nil {
			c.Failf("want version %d, got error: %v", w.Ver, err)
			return
		}
		if q.Dimension() != qrref.Dim(w.Ver) {
			c.Failf("want version %d (dimension %d), got dimension %d", w.Ver, qrref.Dim(w.Ver), q.Dimension())
			return
		}
		g, err := gridOf(q)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		a, ok := analyzeOK(c, g)
		if !ok {
			return
		}
		if a.Ver != w.Ver || !bytes.Equal(a.Payload, e.Raw) {
			c.Failf("the symbol reads as version %d with text %s", a.Ver, quoteClip(a.Payload, 100))
			return
		}
		c.Count("symbols", 1)
		c.Key("%s-v%d-%s-%s", kind, w.Ver, levelName[w.Lv], qrref.ModeName(w.Mode))
	}
	// exact: every version, level and mode at its capacity and one above
	r.Each("exact", 640*2, func(c *C) {
		k := c.Index
		mode, lv, ver := allModes[k%4], k/4%4, k/16%40+1
		n := qrref.Capacity(ver, lv, mode) + k/640
		check(c, Enc{Raw: textOf(c.Rng, mode, n), Lv: lv, Ver: ver, Mode: []int{0, mode}[c.Rng.Intn(2)]}, fmt.Sprint("exact+", k/640))
	})
	r.Each("exact-roomy", r.N(500, 10000), func(c *C) {
		m := allModes[c.Rng.Intn(4)]
		lv, ver := c.Rng.Intn(4), 1+c.Rng.Intn(40)
		e := Enc{Lv: lv, Ver: ver}
		e.Raw = textOf(c.Rng, m, c.Rng.Intn(qrref.Capacity(ver, lv, m)+1))
		if c.Rng.Intn(3) == 0 {
			e.MinVer = 1 + c.Rng.Intn(40) // an explicit version beats the minimum
		}
		check(c, e, "roomy")
	})
	r.Each("minimum", r.N(900, 20000), func(c *C) {
		m := allModes[c.Rng.Intn(4)]
		lv := c.Rng.Intn(4)
		e := Enc{Lv: lv, MinVer: 1 + c.Rng.Intn(40)}
		e.Raw = textOf(c.Rng, m, someLen(c.Rng, someVersion(c.Rng), lv, m))
		check(c, e, "minimum")
	})
	r.Each("minimum-edge", 40*4, func(c *C) {
		ver, lv := c.Index%40+1, c.Index/40
		// the text needs exactly ver; the minimum is one below, equal, one above
		m := allModes[c.Rng.Intn(4)]
		for d := -1; d <= 1; d++ {
			mv := ver + d
			if mv < 1 || mv > 40 {
				continue
			}
			check(c, Enc{Lv: lv, MinVer: mv, Raw: textOf(c.Rng, m, qrref.Capacity(ver, lv, m))}, fmt.Sprint("min", d))
		}
	})
	// values that are no version leave the automatic choice alone, before or after
	r.Each("out-of-range", r.N(300, 3000), func(c *C) {
		m := allModes[c.Rng.Intn(4)]
		lv := c.Rng.Intn(4)
		raw := textOf(c.Rng, m, someLen(c.Rng, 1+c.Rng.Intn(15), lv, m))
		bad := []int{0, -1, 41, 42, 100, 160, 1 << 20, -1 << 20, -1 << 63, 1<<63 - 1, 256 + 5, 1<<32 + 5}[c.Rng.Intn(12)]
		e := Enc{Raw: raw, Lv: lv}
		o := []qrcode.EncodeOption{levelOption(lv)}
		kind := c.Rng.Intn(6)
		good := e.want().Ver
		switch kind {
		case 0:
			o = append(o, qrcode.WithVersion(bad))
		case 1:
			o = append(o, qrcode.WithMinimumVersion(bad))
		case 2: // a bad value does not undo a good one
			good = imini(40, good+1+c.Rng.Intn(5))
			o = append(o, qrcode.WithVersion(good), qrcode.WithVersion(bad))
		case 3:
			good = imini(40, good+1+c.Rng.Intn(5))
			o = append(o, qrcode.WithMinimumVersion(good), qrcode.WithMinimumVersion(bad))
		case 4: // the last good one counts
			g1 := imini(40, good+3)
			good = imini(40, good+1+c.Rng.Intn(5))
			o = append(o, qrcode.WithVersion(g1), qrcode.WithVersion(good))
		case 5:
			g1 := imini(40, good+3)
			good = imini(40, good+1+c.Rng.Intn(5))
			o = append(o, qrcode.WithMinimumVersion(g1), qrcode.WithMinimumVersion(good))
		}
		c.Desc("%v, options kind %d with %d, want version %d", e, kind, bad, good)
		q, err := encodeAs(c.Rng.Intn(4), raw, o)
		if err != nil {
			c.Failf("failed: %v", err)
			return
		}
		if q.Dimension() != qrref.Dim(good) {
			c.Failf("dimension %d, want version %d", q.Dimension(), good)
			return
		}
		c.Key("bad-%d-%d", kind, bad)
		c.Count("symbols", 1)
	})
}

// ---- C07 -------------------------------------------------------------------

func runC07(r *R) {
	check := func(c *C, raw []byte, kind string) {
		e := Enc{Raw: raw, Lv: c.Rng.Intn(5) - 1, Type: c.Rng.Intn(4)}
		if strings.HasPrefix(kind, "long") && c.Rng.Intn(4) > 0 {
			e.Lv = 0 // which holds the most
		}
		c.Desc("%v", e)
		w := e.want()
		if !w.OK {
			return
		}
		_, g, ok := encodeOK(c, e)
		if !ok {
			return
		}
		a, ok := analyzeOK(c, g)
		if !ok {
			return
		}
		if a.Mode != w.Mode {
			c.Failf("%s mode was used, %s mode is the most compact one that admits the text", qrref.ModeName(a.Mode), qrref.ModeName(w.Mode))
			return
		}
		if !bytes.Equal(a.Payload, raw) {
			c.Failf("the symbol reads %s", quoteClip(a.Payload, 200))
			return
		}
		c.Count("mode_"+qrref.ModeName(a.Mode), 1)
		c.Key("%s-%s-%d-%d", kind, qrref.ModeName(a.Mode), imini(len(raw), 40), a.Ver)
	}
	// every byte alone, after a digit, after a capital, after an ideograph, and before them
	r.Each("bytes", 256*7, func(c *C) {
		b := byte(c.Index)
		t := [][]byte{{b}, {'1', b}, {'A', b}, append([]byte("漢"), b), {b, '1'}, {b, 'A'}, append([]byte{b}, "漢"...)}[c.Index/256]
		check(c, t, fmt.Sprint("byte", c.Index/256))
	})
	r.Each("mixtures", r.N(3000, 60000), func(c *C) { check(c, mixedText(c.Rng), "mix") })
	// one foreign character at any place of a long homogeneous text
	r.Each("intruder", r.N(1200, 20000), func(c *C) {
		m := allModes[c.Rng.Intn(3)]
		rs := []rune(string(textOf(c.Rng, m, 1+c.Rng.Intn(60))))
		p := c.Rng.Intn(len(rs))
		if c.Rng.Intn(3) == 0 {
			p = len(rs) - 1
		}
		rs[p] = []rune("0Z:a_é漢かｱ々。\x00\u00a0\U0001f600\u3400\ufa0e")[c.Rng.Intn(16)]
		check(c, []byte(string(rs)), fmt.Sprint("intruder", m))
	})
	r.Each("pure", r.N(800, 8000), func(c *C) {
		m := allModes[c.Index%4]
		check(c, textOf(c.Rng, m, c.Index/4%100), "pure")
	})
	// every code point that resembles a digit, capital or ideograph
	st := strangers()
	r.Each("strangers", len(st)*r.N(1, 4), func(c *C) {
		x := string(st[c.Index%len(st)])
		m := textOf(c.Rng, allModes[c.Rng.Intn(3)], 1+c.Rng.Intn(3))
		switch c.Rng.Intn(4) {
		case 0:
			x = x + string(m)
		case 1:
			x = string(m) + x
		}
		check(c, []byte(x), "stranger")
		c.Count("look_alikes_classified", 1)
	})
	r.Each("touchy", r.N(700, 20000), func(c *C) { check(c, touchyText(c.Rng), "touchy") })
	// long texts, up to what byte mode holds, with one character of another mode
	r.Each("long-intruder", r.N(240, 4000), func(c *C) {
		m := allModes[c.Index%3]
		lim := 2900
		if m == qrref.ModeKanji {
			lim = 960
		}
		if m == qrref.ModeNumeric && c.Rng.Intn(2) == 0 { // one letter among digits
			t := textOf(c.Rng, m, 1+c.Rng.Intn(qrref.Capacity(40, 0, qrref.ModeAlnum)))
			if c.Rng.Intn(2) == 0 {
				t = textOf(c.Rng, m, qrref.Capacity(40, 0, qrref.ModeAlnum)-c.Rng.Intn(1300))
			}
			p := len(t) - 1
			if c.Rng.Intn(2) == 0 {
				p = c.Rng.Intn(len(t))
			}
			t[p] = "A$:Z %"[c.Rng.Intn(6)]
			check(c, t, "long-intruder")
			c.Count("long_intruders", 1)
			return
		}
		n := 1 + c.Rng.Intn(lim)
		if c.Rng.Intn(3) == 0 {
			n = lim - c.Rng.Intn(40)
		}
		check(c, intruded(c.Rng, m, n), "long-intruder")
		c.Count("long_intruders", 1)
	})
	r.Each("long-pure", r.N(60, 1000), func(c *C) {
		m := allModes[c.Index%3]
		check(c, textOf(c.Rng, m, 1+c.Rng.Intn(qrref.Capacity(40, 0, m))), "long-pure")
	})
	if !r.Quick() { // every code point there is
		r.Each("all-code-points", 0x110000/256, func(c *C) {
			for k := 0; k < 256; k++ {
				u := rune(c.Index*256 + k)
				if u >= 0xD800 && u < 0xE000 {
					continue
				}
				check(c, []byte([]string{"", "1", "A", "漢"}[k%4]+string(u)), "all")
			}
			c.Count("code_points_classified", 256)
		})
	}
}

// ---- C08 -------------------------------------------------------------------

// kanjiMaybe: the text has characters with a kanji-mode code that are no
// ideographs (kana, punctuation); refusing or encoding them are both right.
func kanjiMaybe(raw []byte) bool {
	for _, r := range string(raw) {
		if _, ok := qrref.KanjiCode(r); !ok {
			return false
		}
	}
	return true
}

func runC08(r *R) {
	check := func(c *C, e Enc, kind string) {
		c.Desc("%v", e)
		ok := admits(e.Mode, e.Raw)
		maybe := !ok && e.Mode == qrref.ModeKanji && kanjiMaybe(e.Raw)
		if ok && !e.want().OK {
			return // capacity is another property
		}
		q, err := e.run()
		if err != nil {
			if ok {
				c.Failf("every character is in %s mode's set, but the call failed: %v", qrref.ModeName(e.Mode), err)
				return
			}
			if q != nil {
				c.Failf("an error and a symbol were returned")
			}
			c.Count("refused", 1)
			c.Key("%s-refused-%s-%d", kind, qrref.ModeName(e.Mode), len(e.Raw))
			return
		}
		g, err := gridOf(q)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		if !ok && !maybe {
			a := qrref.Analyze(g)
			c.Failf("the text has characters outside %s mode, but a symbol was returned that reads %s", qrref.ModeName(e.Mode), quoteClip(a.Payload, 100))
			return
		}
		a, rd := analyzeOK(c, g)
		if !rd {
			return
		}
		if a.Mode != e.Mode {
			c.Failf("%s mode was asked for, %s mode was used", qrref.ModeName(e.Mode), qrref.ModeName(a.Mode))
			return
		}
		if !bytes.Equal(a.Payload, e.Raw) {
			c.Failf("the symbol reads %s", quoteClip(a.Payload, 200))
			return
		}
		c.Count("honoured", 1)
		c.Key("%s-ok-%s-%d", kind, qrref.ModeName(e.Mode), len(e.Raw))
	}
	r.Each("bytes", 256*4*3, func(c *C) {
		b := byte(c.Index)
		m := allModes[c.Index/256%4]
		base := textOf(c.Rng, m, 3)
		var t []byte
		switch c.Index / 1024 {
		case 0:
			t = []byte{b}
		case 1:
			t = append(base, b)
		default:
			t = append([]byte{b}, base...)
		}
		check(c, Enc{Raw: t, Lv: c.Rng.Intn(5) - 1, Mode: m, Type: c.Rng.Intn(4)}, fmt.Sprint("byte", c.Index/1024))
	})
	r.Each("mixtures", r.N(2500, 40000), func(c *C) {
		e := Enc{Raw: mixedText(c.Rng), Lv: c.Rng.Intn(5) - 1, Mode: allModes[c.Rng.Intn(4)], Type: c.Rng.Intn(4)}
		if c.Rng.Intn(3) == 0 {
			e.Ver = 10 + c.Rng.Intn(30)
		}
		check(c, e, "mix")
	})
	r.Each("inside", r.N(800, 10000), func(c *C) {
		mi := c.Rng.Intn(4)
		e := Enc{Raw: textOf(c.Rng, allModes[mi], c.Rng.Intn(80)), Lv: c.Rng.Intn(4), Mode: allModes[mi]}
		if mi == 0 && c.Rng.Intn(2) == 0 {
			e.Mode = qrref.ModeAlnum
		} else if c.Rng.Intn(3) == 0 {
			e.Mode = qrref.ModeByte
		}
		check(c, e, "inside")
	})
	r.Each("outside", r.N(1200, 20000), func(c *C) {
		m := allModes[c.Rng.Intn(3)]
		t := textOf(c.Rng, m, 1+c.Rng.Intn(50))
		p := c.Rng.Intn(len(t) + 1)
		x := []string{"a", "é", "\x00", "\xff", "漢", "か", "A", "0", "[", "@", "`", ";", "/", ",", "\n", "\u3400", "￿", "\xe6\xbc"}[c.Rng.Intn(18)]
		t = append(append(append([]byte{}, t[:p]...), x...), t[p:]...)
		check(c, Enc{Raw: t, Lv: c.Rng.Intn(4), Mode: m}, "outside")
	})
	st := strangers()
	r.Each("strangers", len(st)*r.N(1, 6), func(c *C) {
		m := allModes[(c.Index+c.Index/len(st))%3]
		x := string(st[c.Index%len(st)])
		t := textOf(c.Rng, m, c.Rng.Intn(4))
		if c.Rng.Intn(2) == 0 {
			x += string(t)
		} else {
			x = string(t) + x
		}
		check(c, Enc{Raw: []byte(x), Lv: c.Rng.Intn(5) - 1, Mode: m, Type: c.Rng.Intn(4)}, "stranger")
	})
	r.Each("touchy", r.N(700, 20000), func(c *C) {
		check(c, Enc{Raw: touchyText(c.Rng), Lv: c.Rng.Intn(5) - 1, Mode: allModes[c.Rng.Intn(4)], Type: c.Rng.Intn(4)}, "touchy")
	})
	r.Each("long-outside", r.N(200, 4000), func(c *C) {
		m := allModes[c.Rng.Intn(3)]
		lv := c.Rng.Intn(4)
		e := Enc{Raw: intruded(c.Rng, m, 1+c.Rng.Intn(qrref.Capacity(40, lv, m)-1)), Lv: lv, Mode: m, Type: c.Rng.Intn(4)}
		check(c, e, "long-outside")
		c.Count("long_intruders", 1)
	})
	r.Each("long-inside", r.N(60, 1000), func(c *C) {
		m := allModes[c.Rng.Intn(4)]
		lv := c.Rng.Intn(4)
		check(c, Enc{Raw: textOf(c.Rng, m, 1+c.Rng.Intn(qrref.Capacity(40, lv, m))), Lv: lv, Mode: m}, "long-inside")
	})
	// values that are no mode are refused; the automatic value is automatic
	r.Each("nomode", 64, func(c *C) {
		m := []int64{1, 2, 3, 5, 6, 7, 12, 20, 33, 36, 64, 128, 1 << 40, -1, -4, 255}[c.Index%16]
		raw := [][]byte{[]byte("123"), []byte("ABC"), []byte("abc"), []byte("漢字")}[c.Index/16]
		c.Desc("mode value %d, text %q", m, raw)
		o := []qrcode.EncodeOption{anyMode(m)}
		if c.Index%3 == 0 {
			o = append(o, qrcode.WithVersion(5))
		}
		q, err := encodeAs(c.Index%2, raw, o)
		if err == nil || q != nil {
			c.Failf("mode value %d is no mode, but the call returned %v", m, err)
			return
		}
		c.Count("refused", 1)
		c.Key("nomode-%d", m)
	})
	r.Each("auto", 40, func(c *C) {
		raw := mixedText(c.Rng)
		c.Desc("explicit automatic mode, text %q", raw)
		q, err := qrcode.NewWith(raw, qrcode.WithEncodingMode(qrcode.EncModeNumeric), qrcode.WithEncodingMode(qrcode.EncModeAuto))
		if err != nil {
			c.Failf("failed: %v", err)
			return
		}
		g, _ := gridOf(q)
		a := qrref.Analyze(g)
		if a.Unreadable || a.Mode != compactMode(raw) || !bytes.Equal(a.Payload, raw) {
			c.Failf("mode %s text %s %s", qrref.ModeName(a.Mode), quoteClip(a.Payload, 100), a.Why)
			return
		}
		c.Key("auto-%d", c.Index)
	})
}

// ---- C09 -------------------------------------------------------------------

func runC09(r *R) {
	levelOf := func(c *C, q *qrcode.QRCode) int {
		g, err := gridOf(q)
		if err != nil {
			c.Failf("%v", err)
			return -1
		}
		a := qrref.Analyze(g)
		if a.Unreadable || len(a.FormatIssues) > 0 || len(a.ECIssues) > 0 {
			c.Failf("symbol is damaged: %s %v %v", a.Why, a.FormatIssues, a.ECIssues)
			return -1
		}
		return a.Level
	}
	// every sequence of up to three level options out of four levels and three bad values
	r.Each("sequences", 1+7+49+343, func(c *C) {
		k := c.Index
		var seq []int
		switch {
		case k == 0:
		case k < 8:
			seq = []int{k - 1}
		case k < 57:
			seq = []int{(k - 8) / 7, (k - 8) % 7}
		default:
			seq = []int{(k - 57) / 49, (k - 57) / 7 % 7, (k - 57) % 7}
		}
		want := 2
		var o []qrcode.EncodeOption
		for _, s := range seq {
			if s < 4 {
				o = append(o, levelOption(s))
				want = s
			} else {
				o = append(o, anyLevel([]int64{0, 5, -3}[s-4]))
			}
		}
		m := allModes[c.Rng.Intn(4)]
		raw := textOf(c.Rng, m, c.Rng.Intn(40))
		// options of other kinds before, between and behind
		for n := c.Rng.Intn(4); n > 0; n-- {
			at := c.Rng.Intn(len(o) + 1)
			other := []qrcode.EncodeOption{
				qrcode.WithMinimumVersion(1 + c.Rng.Intn(8)), qrcode.WithVersion(10 + c.Rng.Intn(31)),
				modeOption(qrref.ModeByte), modeOption(m), qrcode.WithVersion(0), qrcode.WithMinimumVersion(99),
			}[c.Rng.Intn(6)]
			o = append(o[:at:at], append([]qrcode.EncodeOption{other}, o[at:]...)...)
		}
		c.Desc("level options %v (4..6 = out of range), text %q", seq, raw)
		q, err := encodeAs(c.Rng.Intn(4), raw, o)
		if err != nil {
			c.Failf("failed: %v", err)
			return
		}
		if got := levelOf(c, q); got >= 0 && got != want {
			c.Failf("level %s, want %s", levelName[got], levelName[want])
		}
		c.Count("levels_read", 1)
		c.Key("seq%v", seq)
	})
	// a level does not change with version, mode or minimum options
	r.Each("combined", r.N(700, 15000), func(c *C) {
		e := someEnc(c.Rng)
		c.Desc("%v", e)
		q, err := e.run()
		if err != nil {
			c.Failf("failed: %v", err)
			return
		}
		if got := levelOf(c, q); got >= 0 && got != e.want().Lv {
			c.Failf("level %s, want %s", levelName[got], levelName[e.want().Lv])
		}
		c.Count("levels_read", 1)
		c.Key("comb-%v-v%d", e.want().Lv, (q.Dimension()-17)/4)
	})
	// a text too long for the level is never put in a symbol of another level,
	// whether it would fit one or not
	r.Each("too-long", r.N(70, 700), func(c *C) {
		m, lv := allModes[c.Index%4], c.Index/4%4
		want := lv
		ver := 40
		var o []qrcode.EncodeOption
		if lv == 2 && c.Rng.Intn(2) == 0 {
			c.Count("by_default", 1)
		} else {
			o = append(o, levelOption(lv))
		}
		if c.Rng.Intn(2) == 0 {
			ver = 1 + c.Rng.Intn(40)
			o = append(o, qrcode.WithVersion(ver))
		}
		if c.Rng.Intn(2) == 0 {
			o = append(o, modeOption(m))
		}
		lo, hi := qrref.Capacity(ver, lv, m), qrref.Capacity(ver, 0, m)
		n := lo + 1 + c.Rng.Intn(imaxi(1, hi-lo))
		switch c.Rng.Intn(4) {
		case 0:
			n = lo + 1
		case 1:
			n = lo - c.Rng.Intn(2)
		}
		raw := textOf(c.Rng, m, n)
		c.Desc("%d characters in %v, of %d that fit version %d, level %s", n, m, lo, ver, levelName[lv])
		q, err := encodeAs(c.Rng.Intn(4), raw, o)
		if err != nil {
			c.Count("refused", 1)
			c.Key("too-long-%v-%d", m, lv)
			return
		}
		if got := levelOf(c, q); got >= 0 && got != want {
			c.Failf("level %s, want %s", levelName[got], levelName[want])
		}
		c.Count("levels_read", 1)
	})
	// the same option values serve many calls; no call leaves anything behind
	r.Each("history", r.N(60, 600), func(c *C) {
		var lists [][]qrcode.EncodeOption
		var wants []Enc
		for i := 0; i < 4; i++ {
			e := someEnc(c.Rng)
			for len(e.Raw) > 200 {
				e = someEnc(c.Rng)
			}
			wants = append(wants, e)
			lists = append(lists, e.opts())
		}
		for step := 0; step < 12; step++ {
			i := c.Rng.Intn(4)
			e := wants[i]
			c.Desc("step %d of calls sharing option values: %v", step, e)
			w := e.want()
			q, err := encodeAs(e.Type, e.Raw, lists[i])
			if err != nil {
				c.Failf("failed: %v", err)
				return
			}
			if got := levelOf(c, q); got >= 0 && got != w.Lv {
				c.Failf("level %s, want %s", levelName[got], levelName[w.Lv])
				return
			}
			if q.Dimension() != qrref.Dim(w.Ver) {
				c.Failf("dimension %d, want version %d", q.Dimension(), w.Ver)
				return
			}
			if step%4 == 3 { // plain calls in between use the defaults
				q, err := qrcode.New("history")
				if err != nil || levelOf(c, q) != 2 || q.Dimension() != 21 {
					c.Failf("a plain call in between is not a version 1-Q symbol (err %v)", err)
					return
				}
			}
			c.Count("levels_read", 1)
		}
		c.Key("hist-%d", c.Index)
	})
}
