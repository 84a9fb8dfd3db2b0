package qrref

var gexp [512]byte
var glog [256]int

func init() {
	x := 1
	for i := 0; i < 255; i++ {
		gexp[i] = byte(x)
		glog[x] = i
		x <<= 1
		if x&0x100 != 0 {
			x ^= 0x11d
		}
	}
	for i := 255; i < 512; i++ {
		gexp[i] = gexp[i-255]
	}
}

func gmul(a, b byte) byte {
	if a == 0 || b == 0 {
		return 0
	}
	return gexp[glog[a]+glog[b]]
}

func ginv(a byte) byte { return gexp[255-glog[a]] }

// Syndromes evaluates the received word (high degree first) at a^0..a^(n-1).
func Syndromes(w []byte, n int) []byte {
	s := make([]byte, n)
	for i := range s {
		var v byte
		for _, c := range w {
			v = gmul(v, gexp[i]) ^ c
		}
		s[i] = v
	}
	return s
}

func allZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

// RSEncode returns the n error correction codewords of data.
func RSEncode(data []byte, n int) []byte {
	gen := []byte{1}
	for i := 0; i < n; i++ {
		ng := make([]byte, len(gen)+1)
		for j, g := range gen {
			ng[j] ^= g
			ng[j+1] ^= gmul(g, gexp[i])
		}
		gen = ng
	}
	rem := make([]byte, n)
	for _, d := range data {
		f := d ^ rem[0]
		copy(rem, rem[1:])
		rem[n-1] = 0
		for j := 0; j < n; j++ {
			rem[j] ^= gmul(gen[j+1], f)
		}
	}
	return rem
}

// RSCorrect corrects w in place (n error correction codewords, up to n/2
// errors). It returns the number of corrected codewords, or false.
func RSCorrect(w []byte, n int) (int, bool) {
	syn := Syndromes(w, n)
	if allZero(syn) {
		return 0, true
	}
	// Berlekamp-Massey; polynomials low degree first.
	C := []byte{1}
	B := []byte{1}
	Ln, m := 0, 1
	b := byte(1)
	for r := 0; r < n; r++ {
		d := syn[r]
		for i := 1; i <= Ln && i < len(C); i++ {
			d ^= gmul(C[i], syn[r-i])
		}
		if d == 0 {
			m++
			continue
		}
		T := append([]byte(nil), C...)
		coef := gmul(d, ginv(b))
		for len(C) < len(B)+m {
			C = append(C, 0)
		}
		for i, x := range B {
			C[i+m] ^= gmul(coef, x)
		}
		if 2*Ln <= r {
			Ln = r + 1 - Ln
			B = T
			b = d
			m = 1
		} else {
			m++
		}
	}
	if 2*Ln > n {
		return 0, false
	}
	// Chien search
	var pos []int // index from the low-degree end
	for i := 0; i < len(w); i++ {
		x := gexp[(255-i%255)%255] // a^-i
		var v byte
		for j := len(C) - 1; j >= 0; j-- {
			v = gmul(v, x) ^ C[j]
		}
		if v == 0 {
			pos = append(pos, i)
		}
	}
	if len(pos) != Ln {
		return 0, false
	}
	// Error magnitudes by solving the Vandermonde system S_k = sum e_j X_j^k.
	e := len(pos)
	A := make([][]byte, e)
	for k := 0; k < e; k++ {
		A[k] = make([]byte, e+1)
		for j, p := range pos {
			A[k][j] = gexp[p*k%255]
		}
		A[k][e] = syn[k]
	}
	for c := 0; c < e; c++ {
		p := c
		for p < e && A[p][c] == 0 {
			p++
		}
		if p == e {
			return 0, false
		}
		A[c], A[p] = A[p], A[c]
		iv := ginv(A[c][c])
		for j := c; j <= e; j++ {
			A[c][j] = gmul(A[c][j], iv)
		}
		for r := 0; r < e; r++ {
			if r != c && A[r][c] != 0 {
				f := A[r][c]
				for j := c; j <= e; j++ {
					A[r][j] ^= gmul(f, A[c][j])
				}
			}
		}
	}
	for j, p := range pos {
		w[len(w)-1-p] ^= A[j][e]
	}
	if !allZero(Syndromes(w, n)) {
		return 0, false
	}
	return e, true
}
