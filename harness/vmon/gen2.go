package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"unicode"

	"verifharness/qrref"
)

// strangers are the code points a careless classification takes for digits,
// capitals, alphanumeric symbols or ideographs: every digit and number of any
// script, every other upper-case letter, every space, dash, dot, percent,
// colon, plus and currency sign, the edges of the ideograph blocks, and forms
// that case mapping or normalisation turns into ASCII.
var strangers = sync.OnceValue(func() []rune {
	seen := map[rune]bool{}
	var out []rune
	add := func(r rune) {
		if !seen[r] && r >= 0x80 && r <= unicode.MaxRune && (r < 0xD800 || r > 0xDFFF) {
			seen[r] = true
			out = append(out, r)
		}
	}
	for _, t := range []*unicode.RangeTable{unicode.Nd, unicode.No, unicode.Nl, unicode.Zs, unicode.Pd, unicode.Sc, unicode.White_Space} {
		for _, x := range t.R16 {
			for r := rune(x.Lo); r <= rune(x.Hi); r += rune(x.Stride) {
				add(r)
			}
		}
		for _, x := range t.R32 {
			for r := rune(x.Lo); r <= rune(x.Hi); r += rune(x.Stride) {
				add(r)
			}
		}
	}
	for r := rune(0x80); r < 0x700; r++ {
		add(r)
	}
	for r := rune(0xFE00); r <= 0xFFFF; r++ { // full and half width, small forms, BOM, specials
		add(r)
	}
	for r := rune(0x2E80); r < 0x3400; r++ { // radicals, CJK symbols, kana, enclosed
		add(r)
	}
	for _, r := range []rune{0x33FF, 0x3400, 0x3401, 0x4DB5, 0x4DBF, 0x4DC0, 0x4DFF, 0x9FA6, 0x9FB0, 0x9FFF, 0xA000, 0xF8FF, 0x10000, 0x1F600, 0x20000, 0x2A6DF, 0x2F800, 0xE0001, 0xE0030, 0x10FFFF} {
		add(r)
	}
	for r := rune(0xF900); r < 0xFB10; r++ {
		add(r)
	}
	for r := rune(0x2000); r < 0x2100; r++ {
		add(r)
	}
	for r := rune(0x2100); r < 0x2200; r += 3 { // K, Å, roman numerals
		add(r)
	}
	add(0x212A)
	return out
})

// scriptRanges are the letters of one script each; none is a kanji-mode ideograph.
var scriptRanges = [][2]rune{{0x80, 0xff}, {0xa0, 0xff}, {0xc0, 0xff}, {0x100, 0x17f}, {0x370, 0x3ff}, {0x400, 0x4ff}, {0x410, 0x44f},
	{0x5d0, 0x5ea}, {0x620, 0x64a}, {0x660, 0x669}, {0x905, 0x939}, {0x966, 0x96f}, {0xe01, 0xe2e}, {0x1100, 0x1112}, {0x300, 0x36f}, {0x2000, 0x206f},
	{0x2190, 0x21ff}, {0x2500, 0x257f}, {0x3041, 0x3096}, {0x30a1, 0x30fa}, {0x3000, 0x303f}, {0x3131, 0x318e}, {0xac00, 0xd7a3}, {0xe000, 0xe0ff},
	{0xff10, 0xff19}, {0xff21, 0xff5a}, {0xff61, 0xff9f}, {0xfe00, 0xfe0f}, {0x1d400, 0x1d4ff}, {0x1f600, 0x1f64f}, {0x20000, 0x20fff}, {0xe0020, 0xe007e},
	{0x61, 0x7a}, {0x21, 0x7e}, {0x41, 0x7a}, {0x0, 0x1f}}

// scriptText is about n bytes of one script alone, in UTF-8 or as another
// encoding has it.
func scriptText(r *rand.Rand, n int) []byte {
	x := scriptRanges[r.Intn(len(scriptRanges))]
	letter := func() rune { return x[0] + rune(r.Intn(int(x[1]-x[0])+1)) }
	kind := r.Intn(10)
	gap := r.Intn(2) * (1 + r.Intn(9))
	var out []byte
	for i := 1; len(out) < n; i++ {
		u := letter()
		if gap > 0 && i%gap == 0 {
			u = ' '
		}
		switch kind {
		case 0: // UTF-16, either order, with its mark
			if i == 1 {
				out = append(out, 0xfe, 0xff)
			}
			out = append(out, byte(u>>8), byte(u))
		case 1:
			if i == 1 {
				out = append(out, 0xff, 0xfe)
			}
			out = append(out, byte(u), byte(u>>8))
		case 2: // one byte each, the high half of some code page
			out = append(out, 0x80|byte(u))
		case 3: // Shift JIS or EUC pairs
			out = append(out, 0x88+byte(u%24), 0x9f+byte(u%90))
		default:
			out = append(out, string(u)...)
		}
	}
	return out
}

// touchyText makes UTF-8 texts that change under the treatments people give
// text: trimming, normalising, case folding, line-end and escape conversion.
func touchyText(r *rand.Rand) []byte {
	if r.Intn(4) == 0 {
		return scriptText(r, 1+r.Intn(90))
	}
	bits := []string{"\ufeff", " ", "  ", "\t", "\r\n", "\n", "\r", "\x00", "\u00a0", "\u2028", "\u200b", "e\u0301", "\u00e9", "\u212b", "\u212a", "ﬁ", "ß", "İ", "ı", "%20", "%00", "+", "&amp;", "\\n", "\\u0041", "\"", "'", "`", "$HOME", "${x}", "%s", "%d", "%!", "{}", "\x1b[0m", "\x7f", "\ufffd", "\xff\xfe", "１", "Ａ", "K\u0327", "a", "Z", "0", "-0", "007", "1e5", "0x1F", "-", "--", "https://", "HTTPS://", "mailto:", "WIFI:", "\u202e", "👨\u200d👩\u200d👧", "🇩🇪", "漢", "字", "ｱﾞ", "が", "か\u3099", "~", "‾", "¥", "\\", "〜", "～", "−", "－"}
	var sb strings.Builder
	n := 1 + r.Intn(6)
	for i := 0; i < n; i++ {
		sb.WriteString(bits[r.Intn(len(bits))])
		if r.Intn(3) == 0 {
			sb.Write(textOf(r, allModes[r.Intn(3)], 1+r.Intn(5)))
		}
	}
	if r.Intn(3) == 0 {
		return []byte(bits[r.Intn(12)] + sb.String() + bits[r.Intn(12)])
	}
	return []byte(sb.String())
}

// intruded is a long text of one mode with one character that does not belong
// to it, at any place but often late.
func intruded(r *rand.Rand, mode, n int) []byte {
	var x string
	switch r.Intn(3) {
	case 0:
		s := strangers()
		x = string(s[r.Intn(len(s))])
	default:
		x = pick(r, "a", "z", "_", "\x00", "\xff", "é", "漢", "か", "A", "[", "@", "`", ";", ",", "\n", "\u3400", "\xe6\xbc")
	}
	if n <= len(x) {
		n = len(x) + 1
	}
	unit := 1
	if mode == qrref.ModeKanji {
		unit = 3
	}
	t := textOf(r, mode, n-len(x)/unit)
	p := r.Intn(len(t)/unit+1) * unit
	switch r.Intn(4) {
	case 0:
		p = len(t)
	case 1:
		p = len(t)/unit*3/4*unit + r.Intn(len(t)/unit/4+1)*unit
	}
	out := make([]byte, 0, len(t)+4)
	out = append(out, t[:p]...)
	out = append(out, x...)
	return append(out, t[p:]...)
}

func indexOf(a []int, v int) int {
	for i, x := range a {
		if x == v {
			return i
		}
	}
	return -1
}

// oddEnv is what an environment may say.
func oddEnv(r *rand.Rand) map[string]string {
	all := map[string][]string{
		"LC_ALL": {"C", "POSIX", "en_US.UTF-8", "ja_JP.SJIS", "de_DE.ISO-8859-1", "tr_TR.UTF-8", ""},
		"LANG":   {"C", "C.UTF-8", "en_US", "ja_JP.eucJP", ""}, "LC_CTYPE": {"C", "POSIX", "UTF-8"}, "LANGUAGE": {"ja", "de:en"},
		"TERM": {"dumb", "linux", "xterm-256color", "vt100", ""}, "COLORTERM": {"truecolor"}, "NO_COLOR": {"1"}, "CLICOLOR": {"0"}, "FORCE_COLOR": {"1"}, "CLICOLOR_FORCE": {"1"},
		"CI": {"true"}, "DEBUG": {"1"}, "COLUMNS": {"20", "300"}, "LINES": {"5"}, "TZ": {"Asia/Tokyo"}, "WT_SESSION": {"x"}, "MSYSTEM": {"MINGW64"}, "TERM_PROGRAM": {"vscode"},
	}
	names := make([]string, 0, len(all))
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	out := map[string]string{}
	for _, n := range names {
		if r.Intn(3) == 0 {
			out[n] = all[n][r.Intn(len(all[n]))]
		}
	}
	return out
}

var envMu sync.Mutex
var envSet map[string]string

// setEnv sets the variables and returns what restores the earlier ones.
func setEnv(env map[string]string) func() {
	envMu.Lock()
	defer envMu.Unlock()
	old := map[string]*string{}
	for n, v := range env {
		if o, ok := os.LookupEnv(n); ok {
			old[n] = &o
		} else {
			old[n] = nil
		}
		os.Setenv(n, v)
	}
	envSet = env
	return func() {
		envMu.Lock()
		defer envMu.Unlock()
		for n, o := range old {
			if o == nil {
				os.Unsetenv(n)
			} else {
				os.Setenv(n, *o)
			}
		}
		envSet = nil
	}
}

func envNow() string {
	envMu.Lock()
	defer envMu.Unlock()
	return fmt.Sprint(envSet)
}
