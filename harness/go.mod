module verifharness

go 1.22

require (
	github.com/yeqown/go-qrcode/v2 v2.2.5
	github.com/yeqown/go-qrcode/writer/standard v1.3.0
	github.com/yeqown/go-qrcode/writer/terminal v1.1.1
)
