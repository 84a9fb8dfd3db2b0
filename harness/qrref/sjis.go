package qrref

import (
	_ "embed"
	"strconv"
	"strings"
)

// sjis.txt: the double-byte Shift JIS codes of the two QR kanji ranges with the
// character each stands for, generated from CPython's shift_jis (JIS X 0208) codec.
//
//go:embed sjis.txt
var sjisTxt string

var sjisToRune = map[int]rune{}
var runeToSjis = map[rune]int{}

func init() {
	for _, ln := range strings.Split(strings.TrimSpace(sjisTxt), "\n") {
		code, err := strconv.ParseUint(ln[:4], 16, 32)
		if err != nil {
			panic(err)
		}
		r := []rune(ln[4:])[0]
		sjisToRune[int(code)] = r
		runeToSjis[r] = int(code)
	}
}

// KanjiCode returns the Shift JIS code of r within the QR kanji ranges.
func KanjiCode(r rune) (int, bool) { c, ok := runeToSjis[r]; return c, ok }

// IsIdeograph: a CJK ideograph that QR kanji mode can carry.
func IsIdeograph(r rune) bool {
	if !(r >= 0x4E00 && r <= 0x9FFF) {
		return false
	}
	_, ok := runeToSjis[r]
	return ok
}

// Ideographs lists every CJK unified ideograph of the kanji-mode table, by code.
func Ideographs() []rune {
	var out []rune
	for _, ln := range strings.Split(strings.TrimSpace(sjisTxt), "\n") {
		r := []rune(ln[4:])[0]
		if IsIdeograph(r) {
			out = append(out, r)
		}
	}
	return out
}

// KanjiValue13 is the 13-bit kanji-mode value of a Shift JIS code.
func KanjiValue13(code int) int {
	if code <= 0x9FFC {
		code -= 0x8140
	} else {
		code -= 0xC140
	}
	return code>>8*0xC0 + code&0xFF
}

func kanjiFrom13(v int) (rune, bool) {
	code := v/0xC0<<8 | v%0xC0
	if code+0x8140 <= 0x9FFC {
		code += 0x8140
	} else {
		code += 0xC140
	}
	r, ok := sjisToRune[code]
	return r, ok
}
