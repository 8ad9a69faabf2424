package vmodels

import (
	"encoding/base64"
	"math/big"

	gsf "github.com/golang/groupcache/singleflight"
	xsf "golang.org/x/sync/singleflight"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

// One call at a time: the function is run.
//
//gov:model (*golang.org/x/sync/singleflight.Group).Do
func m_XDo(g *xsf.Group, key string, fn func() (interface{}, error)) (interface{}, error, bool) {
	vspec.Requires(g != nil && fn != nil)
	v, err := fn()
	return v, err, any_bool()
}

//gov:model (*github.com/golang/groupcache/singleflight.Group).Do
func m_GDo(g *gsf.Group, key string, fn func() (interface{}, error)) (interface{}, error) {
	vspec.Requires(g != nil && fn != nil)
	return fn()
}

func any_uint32() uint32 { panic("any") }

func Uf_repeat(s string, n int) string { panic("uf") }

//gov:model strings.Repeat
func m_Repeat(s string, n int) string {
	vspec.Requires(n >= 0)
	switch n {
	case 0:
		return ""
	case 1:
		return s
	case 2:
		return s + s
	case 3:
		return s + s + s
	}
	return Uf_repeat(s, n)
}

// Uf_base64: what the text decodes to under an encoding.
func Uf_base64(enc *base64.Encoding, s string) ([]byte, bool) { panic("uf") }

//gov:model (*encoding/base64.Encoding).DecodeString
func m_DecodeString(enc *base64.Encoding, s string) ([]byte, error) {
	b, ok := Uf_base64(enc, s)
	if !ok {
		return any_bytes(), Err()
	}
	return b, nil
}

// Uf_bigBytes: the natural number with these big-endian bytes.
func Uf_bigBytes(b []byte) int { panic("uf") }

// BigVal is the value of a big integer.
var BigVal map[*big.Int]int

//gov:model (*math/big.Int).SetBytes
func m_SetBytes(x *big.Int, b []byte) *big.Int {
	vspec.Requires(x != nil)
	BigVal[x] = Uf_bigBytes(b)
	return x
}

//gov:model (encoding/binary.bigEndian).Uint32
func m_Uint32(b []byte) uint32 {
	vspec.Requires(len(b) >= 4)
	r := any_uint32()
	vspec.Assume(int(r) == int(b[0])*16777216+int(b[1])*65536+int(b[2])*256+int(b[3]))
	return r
}
