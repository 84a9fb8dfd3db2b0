// Package qrref is an independent reference for QR Code model 2 (ISO/IEC 18004):
// the tables, a strict analyser and an error-correcting decoder. It shares no
// code and no table with the library under observation.
package qrref

// Level indices used throughout: 0=L 1=M 2=Q 3=H.
const (
	L = iota
	M
	Q
	H
)

var LevelName = [4]string{"L", "M", "Q", "H"}

// ecPerBlock[level][version-1]
var ecPerBlock = [4][40]int{
	{7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28},
	{13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
}

var numBlocks = [4][40]int{
	{1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25},
	{1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49},
	{1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68},
	{1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81},
}

// Dim is the side length in modules.
func Dim(ver int) int { return 17 + 4*ver }

// rawModules is the number of modules available for codewords and remainder bits.
func rawModules(ver int) int {
	r := (16*ver+128)*ver + 64
	if ver >= 2 {
		n := ver/7 + 2
		r -= (25*n-10)*n - 55
		if ver >= 7 {
			r -= 36
		}
	}
	return r
}

// TotalCodewords is data plus error correction codewords.
func TotalCodewords(ver int) int { return rawModules(ver) / 8 }

// RemainderBits left after the last codeword.
func RemainderBits(ver int) int { return rawModules(ver) % 8 }

// DataCodewords is the number of data codewords for a version and level.
func DataCodewords(ver, lv int) int {
	return TotalCodewords(ver) - ecPerBlock[lv][ver-1]*numBlocks[lv][ver-1]
}

// ECPerBlock and NumBlocks expose the block structure.
func ECPerBlock(ver, lv int) int { return ecPerBlock[lv][ver-1] }
func NumBlocks(ver, lv int) int  { return numBlocks[lv][ver-1] }

// BlockDataLens gives the number of data codewords of every block, in order.
func BlockDataLens(ver, lv int) []int {
	nb := NumBlocks(ver, lv)
	d := DataCodewords(ver, lv)
	short := d / nb
	nlong := d % nb
	out := make([]int, nb)
	for i := range out {
		out[i] = short
		if i >= nb-nlong {
			out[i]++
		}
	}
	return out
}

// AlignPositions are the row/column coordinates of alignment pattern centres.
func AlignPositions(ver int) []int {
	if ver == 1 {
		return nil
	}
	n := ver/7 + 2
	var step int
	if ver == 32 {
		step = 26
	} else {
		step = (ver*4 + n*2 + 1) / (n*2 - 2) * 2
	}
	out := make([]int, n)
	out[0] = 6
	pos := ver*4 + 10
	for i := n - 1; i >= 1; i-- {
		out[i] = pos
		pos -= step
	}
	return out
}

// Encoding modes, numbered as the 4-bit mode indicators.
const (
	ModeNumeric = 1
	ModeAlnum   = 2
	ModeByte    = 4
	ModeKanji   = 8
)

func ModeName(m int) string {
	switch m {
	case ModeNumeric:
		return "numeric"
	case ModeAlnum:
		return "alphanumeric"
	case ModeByte:
		return "byte"
	case ModeKanji:
		return "kanji"
	}
	return "?"
}

// CountBits is the width of the character count indicator.
func CountBits(mode, ver int) int {
	g := 0
	if ver >= 27 {
		g = 2
	} else if ver >= 10 {
		g = 1
	}
	switch mode {
	case ModeNumeric:
		return [3]int{10, 12, 14}[g]
	case ModeAlnum:
		return [3]int{9, 11, 13}[g]
	case ModeByte:
		return [3]int{8, 16, 16}[g]
	case ModeKanji:
		return [3]int{8, 10, 12}[g]
	}
	panic("mode")
}

// PayloadBits is the number of bits n characters (bytes in byte mode) take.
func PayloadBits(mode, n int) int {
	switch mode {
	case ModeNumeric:
		return n/3*10 + [3]int{0, 4, 7}[n%3]
	case ModeAlnum:
		return n/2*11 + n%2*6
	case ModeByte:
		return n * 8
	case ModeKanji:
		return n * 13
	}
	panic("mode")
}

// Capacity is the largest n that fits a single segment of the mode.
func Capacity(ver, lv, mode int) int {
	avail := DataCodewords(ver, lv)*8 - 4 - CountBits(mode, ver)
	lim := 1<<CountBits(mode, ver) - 1
	lo, hi := 0, 8000
	for lo < hi {
		m := (lo + hi + 1) / 2
		if m <= lim && PayloadBits(mode, m) <= avail {
			lo = m
		} else {
			hi = m - 1
		}
	}
	return lo
}

// MinVersion is the smallest version holding n characters, or 0.
func MinVersion(lv, mode, n int) int {
	for v := 1; v <= 40; v++ {
		if Capacity(v, lv, mode) >= n {
			return v
		}
	}
	return 0
}

// FormatWord is the 15-bit masked format information.
func FormatWord(lv, mask int) int {
	data := [4]int{1, 0, 3, 2}[lv]<<3 | mask
	rem := data
	for i := 0; i < 10; i++ {
		rem = rem<<1 ^ (rem>>9)*0x537
	}
	return (data<<10 | rem) ^ 0x5412
}

// VersionWord is the 18-bit version information.
func VersionWord(ver int) int {
	rem := ver
	for i := 0; i < 12; i++ {
		rem = rem<<1 ^ (rem>>11)*0x1F25
	}
	return ver<<12 | rem
}

// MaskBit tells whether mask pattern m inverts the module at row r, column c.
func MaskBit(m, r, c int) bool {
	switch m {
	case 0:
		return (r+c)%2 == 0
	case 1:
		return r%2 == 0
	case 2:
		return c%3 == 0
	case 3:
		return (r+c)%3 == 0
	case 4:
		return (r/2+c/3)%2 == 0
	case 5:
		return r*c%2+r*c%3 == 0
	case 6:
		return (r*c%2+r*c%3)%2 == 0
	case 7:
		return ((r+c)%2+r*c%3)%2 == 0
	}
	panic("mask")
}

const alnum = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"

// AlnumIndex is the alphanumeric-mode value of b, or -1.
func AlnumIndex(b byte) int {
	for i := 0; i < len(alnum); i++ {
		if alnum[i] == b {
			return i
		}
	}
	return -1
}

// Alnum lists the 45 alphanumeric-mode characters.
func Alnum() string { return alnum }
