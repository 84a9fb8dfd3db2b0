package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"verifharness/qrref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

func init() {
	register(&Prop{ID: "C29", Boost: 1, Run: runC29, Assume: []string{"node as the JavaScript engine", "texts are strings of whole Unicode characters", "widths from 0 to 255, margins up to 1255 and integer versions"},
		Rule: "batches of calls with random texts and option objects, hostile arguments mixed in, on one loaded module; every result is compared with the image the native library makes from the same options, and with the layout model. Distinct by (options present, mode, encoder, outcome)."})
}

// wasmCall is one call and what has to come back.
type wasmCall struct {
	args    string // JSON list
	desc    string
	hostile bool // only has to be answered
	err     bool // has to fail
	want    []byte
	either  bool   // PNG or JPEG
	png     *style // compare with the model too
	grid    qrref.Grid
	key     string
}

type wasmResult struct {
	Kind string `json:"kind"`
	Res  struct {
		Success *bool   `json:"success"`
		Error   *string `json:"error"`
		Image   *string `json:"base64EncodedImage"`
	} `json:"res"`
	Keys    []string `json:"keys"`
	Threw   string   `json:"threw"`
	Exited  bool     `json:"exited"`
	Changed bool     `json:"changed"`
}

func utf8Text(r *rand.Rand, maxVer int) []byte {
	lv, ver := 2, 1+r.Intn(maxVer)
	m := allModes[r.Intn(4)]
	t := textOf(r, m, r.Intn(qrref.Capacity(ver, lv, m)+1))
	if !utf8.Valid(t) {
		t = []byte(strings.ToValidUTF8(string(t), "é"))
		for !utf8.Valid(t) || len(t) > qrref.Capacity(10, lv, qrref.ModeByte) {
			t = t[:len(t)-1]
		}
	}
	return t
}

func jsonOf(v interface{}) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	die(e.Encode(v))
	return strings.TrimSpace(b.String())
}

// wasmMake makes a random call.
func wasmMake(r *rand.Rand, texts [][]byte) wasmCall {
	if r.Intn(8) == 0 {
		h := []string{
			`[]`, `[null]`, `[{"$":"undefined"}]`, `[5]`, `[{"$":"symbol"}]`, `[false]`, `[{"$":"bigint"}]`,
			`["x",{"$":"date"}]`, `["x",{"encodeVersion":{"$":"nan"}}]`, `["x",{"encodeVersion":{"$":"inf"}}]`,
			`["x",{"outputQrWidth":1e300}]`, `["x",{"encodeMode":{"$":"nan"}}]`, `["x",{"outputMargin":-3}]`, `["x",{"outputMargin":{"$":"nan"}}]`,
			`["x",{"encodeECLevel":{"$":"symbol"}}]`, `["x",{"outputBgColor":{"$":"bigint"}}]`, `["x",{"outputQrColor":{"$":"function"}}]`,
			`[{"$":"wide"}]`, `["x",{"$":"function"}]`, `["x",{"$":"symbol"}]`, `["x",[1,2]]`, `["x",{"outputQrWidth":{"$":"inf"}}]`, `["x",{"outputQrWidth":2.5}]`,
			`["x",{"encodeVersion":{"$":"number object"}}]`, `["x",{"encodeECLevel":{"$":"string object"}}]`, `["x",{"outputMargin":"9"}]`,
		}[r.Intn(26)]
		return wasmCall{args: h, desc: h, hostile: true, err: h == "[]", key: "hostile " + h}
	}
	if r.Intn(12) == 0 { // numbers that mean nothing must not be taken for others
		f := []string{"outputQrWidth", "encodeMode"}[r.Intn(2)]
		n := []int{256, 257, 260, 264, 272, 288, 300, -1, -7, -252, 511, 65540, 1 << 20, 1<<32 + 4, 256*(1+r.Intn(1000)) + 1 + r.Intn(40)}[r.Intn(15)]
		h := jsonOf([]interface{}{"x", map[string]int{f: n}})
		return wasmCall{args: h, desc: h, err: true, key: "out of range " + f}
	}
	text := texts[r.Intn(len(texts))]
	if r.Intn(2) == 0 {
		text = utf8Text(r, 5)
	}
	var encOpts []qrcode.EncodeOption
	s := style{}
	opt := map[string]interface{}{}
	mode, level, encoder := "", "", ""
	circle, bad, badEnc := false, false, false
	hexOf := func(c color.RGBA) string {
		f := "#%02x%02x%02x"
		if r.Intn(2) == 0 {
			f = "#%02X%02X%02X"
		}
		return fmt.Sprintf(f, c.R, c.G, c.B)
	}
	objects := 1
	switch r.Intn(8) {
	case 0:
		objects = 0
	case 1:
		objects = 2 // a third argument changes nothing
	}
	if objects > 0 {
		if r.Intn(3) == 0 {
			v := []int{1 + r.Intn(10), 1 + r.Intn(10), r.Intn(44) - 1, []int{41, 42, -1, -40, 255, 257, 256 + 1 + r.Intn(9), 1 << 16, 1<<31 - 1}[r.Intn(9)]}[r.Intn(4)]
			opt["encodeVersion"] = v
			encOpts = append(encOpts, qrcode.WithVersion(v))
		}
		if r.Intn(3) == 0 {
			k := r.Intn(5)
			opt["encodeMode"] = []int{4, 8, 16, 32, r.Intn(4)}[k]
			switch k {
			case 0:
				encOpts = append(encOpts, qrcode.WithEncodingMode(qrcode.EncModeNumeric))
			case 1:
				encOpts = append(encOpts, qrcode.WithEncodingMode(qrcode.EncModeAlphanumeric))
			case 2:
				encOpts = append(encOpts, qrcode.WithEncodingMode(qrcode.EncModeKanji))
			case 3:
				encOpts = append(encOpts, qrcode.WithEncodingMode(qrcode.EncModeByte))
			}
			mode = fmt.Sprint("m", k)
		}
		if r.Intn(2) == 0 {
			k := r.Intn(6)
			level = []string{"L", "M", "Q", "H", "", "X"}[k]
			opt["encodeECLevel"] = level
			if k < 4 {
				encOpts = append(encOpts, levelOption(k))
			}
		}
		if r.Intn(3) == 0 {
			c := randRGBA(r)
			s.BG = &c
			opt["outputBgColor"] = hexOf(c)
		}
		if r.Intn(3) == 0 {
			c := randRGBA(r)
			s.FG = &c
			opt["outputQrColor"] = hexOf(c)
		}
		if r.Intn(3) == 0 {
			s.Transparent = r.Intn(2) == 0
			opt["outputBgTransparent"] = s.Transparent
		}
		if r.Intn(6) > 0 {
			s.BW = r.Intn(9)
			opt["outputQrWidth"] = s.BW
		}
		if r.Intn(3) == 0 {
			circle = r.Intn(2) == 0
			opt["outputCircleShape"] = circle
		}
		encoder = "png"
		if r.Intn(2) == 0 {
			encoder = []string{"png", "png", "jpg", "jpeg", "", "other"}[r.Intn(6)]
			opt["outputImageEncoder"] = encoder
		}
		if r.Intn(4) > 0 {
			m := []int{0, 1, 255, r.Intn(20), 2, 3, r.Intn(9), r.Intn(60), 256 + r.Intn(1000)}[r.Intn(9)]
			opt["outputMargin"] = m
			if m != 0 {
				s.Borders = []int{m}
			}
		}
		if r.Intn(14) == 0 {
			opt[[]string{"outputBgColor", "outputQrColor"}[r.Intn(2)]] = []string{"red", "#12", "123456", "#1234567", "#", "zzzzzzz"}[r.Intn(6)]
			bad = true
		}
		// values that count as not given
		for _, k := range []string{"encodeVersion", "encodeMode", "encodeECLevel", "outputBgColor", "outputBgTransparent", "outputQrColor", "outputQrWidth", "outputCircleShape", "outputImageEncoder", "outputMargin", "unknown"} {
			if _, ok := opt[k]; !ok && r.Intn(12) == 0 {
				opt[k] = []interface{}{nil, map[string]string{"$": "undefined"}}[r.Intn(2)]
			}
		}
	}
	var k wasmCall
	args := []interface{}{string(text)}
	if objects > 0 {
		if how := r.Intn(12); how < 6 { // how the fields are held
			opt["$"] = []string{"shared", "shared", "shared", "inherit", "getters", "frozen"}[how]
		}
		args = append(args, opt)
	} else if r.Intn(2) == 0 {
		k.either = true
		args = append(args, []interface{}{nil, map[string]string{"$": "undefined"}, 7, "text", true}[r.Intn(5)])
	}
	if objects == 2 {
		args = append(args, map[string]int{"outputQrWidth": 99})
	}
	k.args = jsonOf(args)
	k.desc = k.args
	q, err := qrcode.NewWith(string(text), encOpts...)
	badEnc = err != nil
	k.err = bad || badEnc
	var names []string
	for n := range opt {
		if n == "$" {
			continue
		}
		names = append(names, n[len(n)-5:])
	}
	k.key = fmt.Sprintf("%d-%s-%s-%s-c%v-t%v-bad%v-enc%v", len(names), mode, level, encoder, circle, s.Transparent, bad, badEnc)
	if k.err {
		return k
	}
	opts := s.opts()
	if circle {
		opts = append(opts, standard.WithCircleShape())
	}
	jpg := encoder == "jpg" || encoder == "jpeg"
	if !jpg {
		opts = append(opts, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	} else {
		opts = append(opts, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
	}
	var out sink
	die(q.Save(standard.NewWithWriter(&out, opts...)))
	k.want = out.Bytes()
	if k.either {
		return k
	}
	if !jpg && !circle {
		if g, err := gridOf(q); err == nil {
			k.png, k.grid = &s, g
		}
	}
	return k
}

func runC29(r *R) {
	wasm, execJS := os.Getenv("VMON_WASM"), os.Getenv("VMON_WASM_EXEC")
	if wasm == "" || execJS == "" {
		fmt.Fprintln(os.Stderr, "vmon: VMON_WASM or VMON_WASM_EXEC is not set")
		os.Exit(2)
	}
	driver := filepath.Join(verifDir, "harness", "wasm", "driver.js")
	r.Each("batches", r.N(36, 500), func(c *C) {
		var calls []wasmCall
		var in bytes.Buffer
		texts := [][]byte{utf8Text(c.Rng, 3), utf8Text(c.Rng, 3)}
		for i := 0; i < 14; i++ {
			k := wasmMake(c.Rng, texts)
			calls = append(calls, k)
			in.WriteString(k.args + "\n")
		}
		c.Desc("batch of %d calls, first %s", len(calls), clip(calls[0].desc, 500))
		cmd := exec.Command("node", driver, wasm, execJS)
		cmd.Dir = r.Scratch
		cmd.Stdin = &in
		var ob bytes.Buffer
		var eb limited
		cmd.Stdout, cmd.Stderr = &ob, &eb
		err := cmd.Run()
		if ee, ok := err.(*exec.ExitError); err != nil && (!ok || ee.ExitCode() == 3) {
			die(fmt.Errorf("node: %v %s", err, clip(eb.String(), 1000)))
		}
		var res []wasmResult
		for _, l := range strings.Split(ob.String(), "\n") {
			if strings.HasPrefix(l, "@@") {
				var w wasmResult
				if e := json.Unmarshal([]byte(l[2:]), &w); e != nil {
					c.Failf("call %d: unreadable result %s: %v", len(res), clip(l, 300), e)
					return
				}
				res = append(res, w)
			}
		}
		for i, k := range calls {
			c.Desc("call %d of a batch: generateQRCode(...%s)", i, k.desc)
			if i >= len(res) {
				c.Failf("no result; process: %v, output %q, errors %q", err, clip(ob.String(), 300), clip(eb.String(), 600))
				return
			}
			w := res[i]
			if w.Exited || w.Threw != "" && !k.hostile {
				c.Failf("the call threw %q, module ended: %v; errors %q", w.Threw, w.Exited, clip(eb.String(), 600))
				return
			}
			if w.Threw != "" || w.Kind != "object" || w.Res.Success == nil || w.Res.Error == nil || w.Res.Image == nil {
				c.Failf("result is %+v", w)
				return
			}
			if w.Changed {
				c.Failf("the arguments were changed")
				return
			}
			img, berr := base64.StdEncoding.DecodeString(*w.Res.Image)
			if !*w.Res.Success && (*w.Res.Error == "" || *w.Res.Image != "") || *w.Res.Success && (*w.Res.Error != "" || berr != nil || len(img) == 0) {
				c.Failf("success %v, error %q, image of %d characters (%v)", *w.Res.Success, *w.Res.Error, len(*w.Res.Image), berr)
				return
			}
			if (!k.hostile || k.err) && *w.Res.Success == k.err {
				c.Failf("success %v, error %q, want success %v", *w.Res.Success, *w.Res.Error, !k.err)
				return
			}
			switch {
			case k.hostile:
				c.Count("hostile_calls_answered", 1)
			case k.err:
				c.Count("failures_reported", 1)
			default:
				if k.either {
					if cfg, _, err := image.DecodeConfig(bytes.NewReader(img)); err == nil {
						if want, _, err := image.DecodeConfig(bytes.NewReader(k.want)); err == nil && cfg.Width == want.Width && cfg.Height == want.Height {
							c.Count("default_images_decoded", 1)
							continue
						}
					}
				}
				if !bytes.Equal(img, k.want) {
					c.Failf("the image has %d bytes and differs from the library's %d", len(img), len(k.want))
					return
				}
				c.Count("images_compared_with_the_library", 1)
				if k.png != nil {
					p, err := png.Decode(bytes.NewReader(img))
					if err != nil {
						c.Failf("not a PNG: %v", err)
						return
					}
					if d := diffImages(p, k.png.model(k.grid), 0); d != "" {
						c.Failf("%s", d)
						return
					}
					c.Count("images_compared_with_the_model", 1)
				}
			}
			c.Key("%s", k.key)
		}
	})
}
