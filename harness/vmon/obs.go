package main

import (
	"bytes"
	"fmt"
	"image"
	"io"

	"verifharness/qrref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

// tap is a writer that keeps what Save hands to it.
type tap struct {
	mats   []qrcode.Matrix
	writes int
	closes int
	log    []string
	werr   error
	cerr   error
}

func (t *tap) Write(m qrcode.Matrix) error {
	t.writes++
	t.log = append(t.log, "write")
	t.mats = append(t.mats, m)
	return t.werr
}

func (t *tap) Close() error {
	t.closes++
	t.log = append(t.log, "close")
	return t.cerr
}

// matrixOf fetches the symbol through the public interface.
func matrixOf(q *qrcode.QRCode) (qrcode.Matrix, error) {
	t := &tap{}
	if err := q.Save(t); err != nil {
		return qrcode.Matrix{}, fmt.Errorf("Save to a plain writer failed: %v", err)
	}
	if len(t.mats) != 1 {
		return qrcode.Matrix{}, fmt.Errorf("Save wrote %d times", len(t.mats))
	}
	return t.mats[0], nil
}

func gridOf(q *qrcode.QRCode) (qrref.Grid, error) {
	m, err := matrixOf(q)
	if err != nil {
		return nil, err
	}
	return qrref.Grid(m.Bitmap()), nil
}

// typesOf returns the module types as seen by Iterate, [y][x].
func typesOf(m qrcode.Matrix) [][]qrcode.QRType {
	d := m.Width()
	t := make([][]qrcode.QRType, d)
	for i := range t {
		t[i] = make([]qrcode.QRType, d)
	}
	m.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) { t[y][x] = v.Type() })
	return t
}

// encodeOK runs an encode call that must succeed and returns its symbol.
func encodeOK(c *C, e Enc) (*qrcode.QRCode, qrref.Grid, bool) {
	q, err := e.run()
	if err != nil {
		c.Failf("encoding failed: %v", err)
		return nil, nil, false
	}
	g, err := gridOf(q)
	if err != nil {
		c.Failf("%v", err)
		return nil, nil, false
	}
	return q, g, true
}

func diffGrids(a, b qrref.Grid) string {
	if len(a) != len(b) {
		return fmt.Sprintf("dimension %d vs %d", len(a), len(b))
	}
	n, first := 0, ""
	for r := range a {
		for c := range a[r] {
			if a[r][c] != b[r][c] {
				if n == 0 {
					first = fmt.Sprintf("row %d col %d", r, c)
				}
				n++
			}
		}
	}
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("%d modules differ, first at %s", n, first)
}

// sink is an in-memory WriteCloser.
type sink struct {
	bytes.Buffer
	closes int
}

func (s *sink) Close() error { s.closes++; return nil }

// imgTap is an image encoder that keeps the image.
type imgTap struct{ imgs []image.Image }

func (t *imgTap) Encode(w io.Writer, img image.Image) error {
	t.imgs = append(t.imgs, img)
	_, err := w.Write([]byte("x"))
	return err
}

// render draws a symbol with the standard writer and returns the image handed
// to the image encoder.
func render(q *qrcode.QRCode, opts ...standard.ImageOption) (image.Image, *standard.Writer, error) {
	t := &imgTap{}
	s := &sink{}
	w := standard.NewWithWriter(s, append(append([]standard.ImageOption{}, opts...), standard.WithCustomImageEncoder(t))...)
	if err := q.Save(w); err != nil {
		return nil, w, err
	}
	if len(t.imgs) != 1 {
		return nil, w, fmt.Errorf("the image encoder was called %d times", len(t.imgs))
	}
	return t.imgs[0], w, nil
}
