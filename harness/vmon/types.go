package main

import qrcode "github.com/yeqown/go-qrcode/v2"

// The library's mode and level types are unexported; these make any value of them.

func like[T ~uint | ~int](_ T, v int64) T { return T(v) }

func anyMode(v int64) qrcode.EncodeOption {
	return qrcode.WithEncodingMode(like(qrcode.EncModeNumeric, v))
}

func anyLevel(v int64) qrcode.EncodeOption {
	return qrcode.WithErrorCorrectionLevel(like(qrcode.ErrorCorrectionLow, v))
}
