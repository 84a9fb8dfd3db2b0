package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"strings"
	"unicode/utf8"

	"verifharness/qrref"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

// Levels are numbered L=0 M=1 Q=2 H=3, modes as their 4-bit indicators.

var levelName = [4]string{"L", "M", "Q", "H"}

func levelOption(lv int) qrcode.EncodeOption {
	switch lv {
	case 0:
		return qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionLow)
	case 1:
		return qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionMedium)
	case 2:
		return qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionQuart)
	default:
		return qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionHighest)
	}
}

func modeOption(m int) qrcode.EncodeOption {
	switch m {
	case qrref.ModeNumeric:
		return qrcode.WithEncodingMode(qrcode.EncModeNumeric)
	case qrref.ModeAlnum:
		return qrcode.WithEncodingMode(qrcode.EncModeAlphanumeric)
	case qrref.ModeKanji:
		return qrcode.WithEncodingMode(qrcode.EncModeKanji)
	default:
		return qrcode.WithEncodingMode(qrcode.EncModeByte)
	}
}

// modes in the order of their density.
var allModes = [4]int{qrref.ModeNumeric, qrref.ModeAlnum, qrref.ModeKanji, qrref.ModeByte}

// admits tells whether every character of raw belongs to the mode's character set.
func admits(mode int, raw []byte) bool {
	switch mode {
	case qrref.ModeNumeric:
		for _, b := range raw {
			if b < '0' || b > '9' {
				return false
			}
		}
	case qrref.ModeAlnum:
		for _, b := range raw {
			if qrref.AlnumIndex(b) < 0 {
				return false
			}
		}
	case qrref.ModeKanji:
		if !utf8.Valid(raw) {
			return false
		}
		for _, r := range string(raw) {
			if !qrref.IsIdeograph(r) {
				return false
			}
		}
	}
	return true
}

// compactMode is the mode automatic selection has to find.
func compactMode(raw []byte) int {
	for _, m := range allModes {
		if admits(m, raw) {
			return m
		}
	}
	return qrref.ModeByte
}

func charCount(mode int, raw []byte) int {
	if mode == qrref.ModeKanji {
		return utf8.RuneCount(raw)
	}
	return len(raw)
}

// Enc is one encode call. Zero values mean "option not given", Lv -1 likewise.
type Enc struct {
	Raw    []byte
	Type   int // 0 string, 1 []byte, 2 named string, 3 named []byte
	Lv     int
	Mode   int
	Ver    int
	MinVer int
}

type (
	namedString string
	namedBytes  []byte
)

func (e Enc) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "text=%s", quoteClip(e.Raw, 160))
	fmt.Fprintf(&sb, " (%d bytes, %s)", len(e.Raw), [4]string{"string", "[]byte", "named string", "named []byte"}[e.Type])
	if e.Lv >= 0 {
		fmt.Fprintf(&sb, " level=%s", levelName[e.Lv])
	}
	if e.Mode != 0 {
		fmt.Fprintf(&sb, " mode=%s", qrref.ModeName(e.Mode))
	}
	if e.Ver != 0 {
		fmt.Fprintf(&sb, " version=%d", e.Ver)
	}
	if e.MinVer != 0 {
		fmt.Fprintf(&sb, " minimum=%d", e.MinVer)
	}
	return sb.String()
}

func quoteClip(b []byte, n int) string {
	if len(b) > n {
		return fmt.Sprintf("%q...(+%d)", b[:n], len(b)-n)
	}
	return fmt.Sprintf("%q", b)
}

// opts gives the options in an order of its own for each call, some of them after
// others of their kind that they override, or among values that change nothing.
func (e Enc) opts() []qrcode.EncodeOption {
	var first, o []qrcode.EncodeOption
	n := mixer(e.String())
	add := func(opt, other, idle qrcode.EncodeOption) {
		if n(4) == 0 {
			first = append(first, other)
		}
		o = append(o, opt)
		if n(6) == 0 && idle != nil {
			o = append(o, idle)
		}
	}
	if e.Lv >= 0 {
		add(levelOption(e.Lv), levelOption(n(4)), anyLevel(int64(5*n(2))))
	}
	if e.Mode != 0 {
		add(modeOption(e.Mode), modeOption(allModes[n(4)]), nil)
	}
	if e.Ver != 0 {
		add(qrcode.WithVersion(e.Ver), qrcode.WithVersion(1+n(40)), qrcode.WithVersion(41*n(2)))
	}
	if e.MinVer != 0 {
		add(qrcode.WithMinimumVersion(e.MinVer), qrcode.WithMinimumVersion(1+n(40)), qrcode.WithMinimumVersion(41*n(2)))
	}
	for i := len(o) - 1; i > 0; i-- {
		j := n(i + 1)
		o[i], o[j] = o[j], o[i]
	}
	for i := len(first) - 1; i > 0; i-- {
		j := n(i + 1)
		first[i], first[j] = first[j], first[i]
	}
	if n(8) == 0 { // many of them
		for i := 5 + n(40); i > 0; i-- {
			opt := qrcode.WithVersion(-n(3))
			switch k := n(4); {
			case k == 0 && e.Lv >= 0:
				opt = levelOption(n(4))
			case k == 1 && e.Mode != 0:
				opt = modeOption(allModes[n(4)])
			case k == 2 && e.Ver != 0:
				opt = qrcode.WithVersion(1 + n(40))
			case k == 3 && e.MinVer != 0:
				opt = qrcode.WithMinimumVersion(1 + n(40))
			}
			first = append(first, opt)
		}
	}
	return append(first, o...)
}

// mixer gives numbers below its argument that depend on the key only, so that a
// case is the same each time it runs.
func mixer(key string) func(int) int {
	h := fnv.New64a()
	h.Write([]byte(key))
	x := h.Sum64() | 1
	return func(n int) int {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return int((x >> 11) % uint64(n))
	}
}

// run encodes with the real code.
func (e Enc) run() (*qrcode.QRCode, error) { return encodeAs(e.Type, e.Raw, e.opts()) }

func encodeAs(typ int, raw []byte, o []qrcode.EncodeOption) (*qrcode.QRCode, error) {
	if len(o) == 0 {
		switch typ {
		case 1:
			return qrcode.New(raw)
		case 2:
			return qrcode.New(namedString(raw))
		case 3:
			return qrcode.New(namedBytes(raw))
		}
		return qrcode.New(string(raw))
	}
	switch typ {
	case 1:
		return qrcode.NewWith(raw, o...)
	case 2:
		return qrcode.NewWith(namedString(raw), o...)
	case 3:
		return qrcode.NewWith(namedBytes(raw), o...)
	}
	return qrcode.NewWith(string(raw), o...)
}

// want is the reference's verdict on an encode call.
type want struct {
	OK   bool
	Why  string
	Mode int
	Ver  int
	Lv   int
}

func (e Enc) want() want {
	w := want{Lv: 2}
	if e.Lv >= 0 {
		w.Lv = e.Lv
	}
	w.Mode = e.Mode
	if w.Mode == 0 {
		w.Mode = compactMode(e.Raw)
	} else if !admits(w.Mode, e.Raw) {
		w.Why = "the text has characters outside " + qrref.ModeName(w.Mode) + " mode"
		return w
	}
	n := charCount(w.Mode, e.Raw)
	if e.Ver >= 1 && e.Ver <= 40 {
		w.Ver = e.Ver
		if n > qrref.Capacity(e.Ver, w.Lv, w.Mode) {
			w.Why = fmt.Sprintf("%d characters exceed version %d-%s %s capacity %d", n, e.Ver, levelName[w.Lv], qrref.ModeName(w.Mode), qrref.Capacity(e.Ver, w.Lv, w.Mode))
			return w
		}
		w.OK = true
		return w
	}
	w.Ver = qrref.MinVersion(w.Lv, w.Mode, n)
	if w.Ver == 0 {
		w.Why = fmt.Sprintf("%d characters exceed every version's %s-%s capacity", n, levelName[w.Lv], qrref.ModeName(w.Mode))
		return w
	}
	if e.MinVer >= 1 && e.MinVer <= 40 && e.MinVer > w.Ver {
		w.Ver = e.MinVer
	}
	w.OK = true
	return w
}

// ---- texts -----------------------------------------------------------------

var ideographs = qrref.Ideographs()

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

// textOf makes a text of n characters (bytes in byte mode) whose most compact
// mode is the given one when n > 0.
func textOf(r *rand.Rand, mode, n int) []byte {
	out := make([]byte, 0, n*3)
	switch mode {
	case qrref.ModeNumeric:
		style := r.Intn(4)
		for i := 0; i < n; i++ {
			switch style {
			case 0:
				out = append(out, '0')
			case 1:
				out = append(out, "0019"[r.Intn(4)])
			default:
				out = append(out, byte('0'+r.Intn(10)))
			}
		}
	case qrref.ModeAlnum:
		runs := r.Intn(4) == 0
		for i := 0; i < n; i++ {
			out = append(out, qrref.Alnum()[r.Intn(45)])
			for k := r.Intn(40); runs && k > 0 && i+1 < n; k-- {
				out = append(out, out[i])
				i++
			}
		}
		if n > 0 && admits(qrref.ModeNumeric, out) {
			out[r.Intn(n)] = qrref.Alnum()[10+r.Intn(35)]
		}
	case qrref.ModeKanji:
		runs := r.Intn(6) == 0
		for i := 0; i < n; i++ {
			id := string(ideographs[r.Intn(len(ideographs))])
			out = append(out, id...)
			for k := r.Intn(20); runs && k > 0 && i+1 < n; k-- {
				out = append(out, id...)
				i++
			}
		}
	default:
		out = byteText(r, n)
		if n > 0 && compactMode(out) != qrref.ModeByte {
			out[r.Intn(n)] = pick(r, "a", "~", "\x00", "\xff", "_", "\n")[0]
			if compactMode(out) != qrref.ModeByte {
				out[0] = 'q'
			}
		}
	}
	return out
}

// byteText makes exactly n bytes of one of several flavours.
func byteText(r *rand.Rand, n int) []byte {
	var out []byte
	switch r.Intn(10) {
	case 9: // one script
		out = scriptText(r, n)
	case 8: // runs of one byte
		for len(out) < n {
			b := byte(r.Intn(256))
			if r.Intn(2) == 0 {
				b = " \t\r\n\x000-=_.*#a"[r.Intn(13)]
			}
			for k := 1 + r.Intn(40); k > 0; k-- {
				out = append(out, b)
			}
		}
	case 0: // arbitrary bytes, mostly invalid UTF-8
		out = make([]byte, n)
		r.Read(out)
	case 1: // URL-ish
		out = append(out, "https://example.com/a?b="...)
		for len(out) < n {
			out = append(out, "abcdefghijklmnopqrstuvwxyz0123456789-_.~%/&="[r.Intn(44)])
		}
	case 2: // UTF-8 prose of several scripts
		words := []string{"héllo ", "мир ", "漢字 ", "かな", "😀", "naïve ", "ﬃ ", "\u200d", "العربية ", "한국어 ", "ｶﾅ", "々", "〆"}
		for len(out) < n {
			out = append(out, words[r.Intn(len(words))]...)
		}
	case 3: // control characters and NUL
		for len(out) < n {
			out = append(out, byte(r.Intn(33)))
		}
	case 4: // constant byte
		b := []byte{0, 0xff, 0xec, 0x11, 0x55, 'a'}[r.Intn(6)]
		for len(out) < n {
			out = append(out, b)
		}
	case 5: // JSON / vCard
		for len(out) < n {
			out = append(out, pick(r, `{"k":"v","n":[1,2]}`, "BEGIN:VCARD\r\nFN:x\r\n", "WIFI:T:WPA;S:n;P:p;;", "\xef\xbb\xbf")...)
		}
	case 6: // digits or capitals with a foreign character somewhere
		for len(out) < n {
			out = append(out, qrref.Alnum()[r.Intn(45)])
		}
		if n > 0 {
			out[r.Intn(n)] = "a!\x80\n"[r.Intn(4)]
		}
	default: // Latin-1 bytes
		for len(out) < n {
			out = append(out, byte(32+r.Intn(224)))
		}
	}
	return out[:n:n]
}

// mixedText makes texts on the borders between modes.
func mixedText(r *rand.Rand) []byte {
	var sb strings.Builder
	parts := 1 + r.Intn(4)
	for i := 0; i < parts; i++ {
		k := 1 + r.Intn(6)
		switch r.Intn(7) {
		case 0:
			sb.Write(textOf(r, qrref.ModeNumeric, k))
		case 1:
			sb.Write(textOf(r, qrref.ModeAlnum, k))
		case 2, 3:
			sb.Write(textOf(r, qrref.ModeKanji, k))
		case 4:
			sb.WriteString(pick(r, "a", "é", "\x00", "ｱ", "。", "Ａ", "々", "\u3400", "\uf900", "\ufa0e", "仝", "㐂", "\xff", "\xe4\xb8", "凜", "熙", "①", "纊", "￿", "゛", "、"))
		default:
			sb.Write(byteText(r, k))
		}
	}
	return []byte(sb.String())
}

// someLen picks a length for (version, level, mode): a boundary or anything below.
func someLen(r *rand.Rand, ver, lv, mode int) int {
	cap := qrref.Capacity(ver, lv, mode)
	prev := 0
	if ver > 1 {
		prev = qrref.Capacity(ver-1, lv, mode)
	}
	switch r.Intn(6) {
	case 0:
		return cap
	case 1:
		return imaxi(cap-1-r.Intn(4), 0)
	case 2:
		return prev + 1
	default:
		return prev + 1 + r.Intn(cap-prev)
	}
}

func imaxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// someVersion favours small versions but reaches all.
func someVersion(r *rand.Rand) int {
	if r.Intn(2) == 0 {
		return 1 + r.Intn(12)
	}
	return 1 + r.Intn(40)
}

// someEnc makes a call that must succeed.
func someEnc(r *rand.Rand) Enc {
	e := Enc{Lv: r.Intn(5) - 1, Type: r.Intn(4)}
	lv := e.Lv
	if lv < 0 {
		lv = 2
	}
	if r.Intn(5) == 0 {
		e.Raw = mixedText(r)
	} else {
		m := allModes[r.Intn(4)]
		e.Raw = textOf(r, m, someLen(r, someVersion(r), lv, m))
	}
	if r.Intn(40) == 0 {
		e.Raw = nil
	}
	switch r.Intn(6) {
	case 0: // byte mode forced, if it fits
		e.Mode = qrref.ModeByte
	case 1: // any mode that admits the text
		e.Mode = allModes[r.Intn(4)]
	}
	if w := e.want(); !w.OK {
		e.Mode = 0
	}
	switch r.Intn(6) {
	case 0: // a version with room
		if w := e.want(); w.OK {
			e.Ver = w.Ver + r.Intn(imini(6, 41-w.Ver))
		}
	case 1:
		e.MinVer = 1 + r.Intn(40)
	}
	if w := e.want(); !w.OK { // too long for the level in a forced mode
		return Enc{Raw: []byte("fallback"), Lv: -1}
	}
	return e
}

func imini(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// sigOf is the coverage signature of a symbol.
func sigOf(e Enc, a *qrref.Analysis) string {
	w := e.want()
	return fmt.Sprintf("v%d-%s-%s-m%d-fill%d", a.Ver, levelName[a.Level], qrref.ModeName(a.Mode), a.Mask,
		8*charCount(w.Mode, e.Raw)/imaxi(1, qrref.Capacity(a.Ver, a.Level, w.Mode)))
}
