package payload

// Contracts of the UTF-8 view of a payload (C08).

import "github.com/qbeon/webwire-go/vrt"

func prove_C08_Utf8() {
	vrt.Expect("converted")
	vrt.Expect("odd")
	vrt.Expect("passed through")
	p := &Payload{Encoding: Encoding(vrt.Int("encoding", -1, 4)), Data: vrt.Bytes("data")}
	d, enc := p.Data, p.Encoding
	d0 := vrt.Snap(d)
	n := len(d)
	text := vrt.Scan(n, func(i int) vrt.ScanStep { return vrt.Utf16Step(d0, n, i) })
	r, err := p.Utf8()
	vrt.Assert("C08.payload-unchanged", p.Encoding == enc && vrt.SameSlice(p.Data, d) && vrt.BytesEq(d, d0))
	switch {
	case enc != Utf16:
		vrt.Cover("passed through")
		vrt.Assert("C08.passed-through", err == nil && vrt.BytesEq(r, d0))
	case n%2 != 0:
		vrt.Cover("odd")
		vrt.Assert("C08.odd-length-refused", err != nil)
	default:
		vrt.Cover("converted")
		vrt.Assert("C08.text", err == nil && vrt.ScanIs(text, r))
	}
}
