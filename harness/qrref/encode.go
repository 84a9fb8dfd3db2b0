package qrref

// Segment renders text in a mode as the expected data codewords of (ver, lv),
// with terminator and padding. ok is false when it does not fit.
func Segment(text []byte, mode, ver, lv int) ([]byte, bool) {
	var bitsv []bool
	put := func(v, n int) {
		for i := n - 1; i >= 0; i-- {
			bitsv = append(bitsv, v>>i&1 == 1)
		}
	}
	put(mode, 4)
	switch mode {
	case ModeNumeric:
		put(len(text), CountBits(mode, ver))
		for i := 0; i < len(text); i += 3 {
			v, k := 0, 0
			for ; k < 3 && i+k < len(text); k++ {
				v = v*10 + int(text[i+k]-'0')
			}
			put(v, [4]int{0, 4, 7, 10}[k])
		}
	case ModeAlnum:
		put(len(text), CountBits(mode, ver))
		for i := 0; i < len(text); i += 2 {
			if i+1 < len(text) {
				put(AlnumIndex(text[i])*45+AlnumIndex(text[i+1]), 11)
			} else {
				put(AlnumIndex(text[i]), 6)
			}
		}
	case ModeByte:
		put(len(text), CountBits(mode, ver))
		for _, b := range text {
			put(int(b), 8)
		}
	case ModeKanji:
		rs := []rune(string(text))
		put(len(rs), CountBits(mode, ver))
		for _, r := range rs {
			c, ok := KanjiCode(r)
			if !ok {
				return nil, false
			}
			put(KanjiValue13(c), 13)
		}
	}
	max := DataCodewords(ver, lv) * 8
	if len(bitsv) > max {
		return nil, false
	}
	for i := 0; i < 4 && len(bitsv) < max; i++ {
		bitsv = append(bitsv, false)
	}
	for len(bitsv)%8 != 0 {
		bitsv = append(bitsv, false)
	}
	out := make([]byte, max/8)
	for i, b := range bitsv {
		if b {
			out[i/8] |= 0x80 >> (i % 8)
		}
	}
	for i, k := len(bitsv)/8, 0; i < len(out); i, k = i+1, k+1 {
		out[i] = [2]byte{0xEC, 0x11}[k%2]
	}
	return out, true
}
