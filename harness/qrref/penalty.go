package qrref

// Penalty is the four-rule mask score over dark/light modules, as the library
// documents it: runs of five or more, 2x2 blocks, the finder-like pattern with
// four light modules on one side (inside the symbol), and the distance of the
// dark percentage from 50 in steps of five.
//
// For rule 4 the documentation ("previous and next multiple of five of the
// percentage") is ambiguous when the percentage is exactly a multiple of five;
// the smaller score (that multiple itself) is used, which every reading shares
// as the minimum of the two distances.
func Penalty(g Grid) (total int, parts [4]int) {
	d := len(g)
	line := func(at func(i int) bool) {
		run := 1
		for i := 1; i <= d; i++ {
			if i < d && at(i) == at(i-1) {
				run++
				continue
			}
			if run >= 5 {
				parts[0] += run - 2
			}
			run = 1
		}
		// pattern 1011101 0000 / 0000 1011101
		w := 0
		for i := 0; i < d; i++ {
			w = w << 1 & 0x7FF
			if at(i) {
				w |= 1
			}
			if i >= 10 && (w == 0x5D0 || w == 0x05D) {
				parts[2] += 40
			}
		}
	}
	dark := 0
	for r := 0; r < d; r++ {
		r := r
		line(func(i int) bool { return g[r][i] })
		line(func(i int) bool { return g[i][r] })
		for c := 0; c < d; c++ {
			if g[r][c] {
				dark++
			}
			if r+1 < d && c+1 < d && g[r][c] == g[r+1][c] && g[r][c] == g[r][c+1] && g[r][c] == g[r+1][c+1] {
				parts[1] += 3
			}
		}
	}
	// |100*dark/total - 50| in whole steps of five
	dev := 100*dark - 50*d*d
	if dev < 0 {
		dev = -dev
	}
	parts[3] = dev / (5 * d * d) * 10
	return parts[0] + parts[1] + parts[2] + parts[3], parts
}

// Candidates returns the eight fully masked symbols that share g's codewords,
// level and version; index = mask pattern.
func Candidates(g Grid, a *Analysis) [8]Grid {
	l := LayoutOf(a.Ver)
	var out [8]Grid
	for m := 0; m < 8; m++ {
		h := g.Clone()
		for _, p := range l.Order {
			r, c := p/l.Dim, p%l.Dim
			if MaskBit(a.Mask, r, c) != MaskBit(m, r, c) {
				h[r][c] = !h[r][c]
			}
		}
		PutFormat(h, a.Level, m)
		out[m] = h
	}
	return out
}
