package webstrategy

import (
	"github.com/gorilla/securecookie"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func any_bool() bool     { panic("any") }
func any_string() string { panic("any") }
func any_bytes() []byte  { panic("any") }

// What was sealed, and the random strings drawn.
var (
	SealN    int
	SealBy   Encryptor
	SealName string
	SealVal  interface{}
	SealRes  string

	BsonN   int
	BsonVal OidcCookie
	BsonRes []byte

	RandN   int
	RandLen int
	RandRes string
)

func reset() {
	vmodels.ResetWeb()
	vmodels.ResetKube()
	SealN, SealBy, SealName, SealVal, SealRes = 0, nil, "", nil, ""
	BsonN, BsonRes, RandN, RandRes = 0, nil, 0, ""
}

// Uf_opens: the content of a sealed value, if it authenticates under the keys
// and the name.
func Uf_opens(e Encryptor, name, value string) ([]byte, bool) { panic("uf") }

//gov:model (adapter/strategy/web.Encryptor).Encode
func mw_Encode(e Encryptor, name string, value interface{}) (string, error) {
	if any_bool() {
		return any_string(), vmodels.Err()
	}
	SealN++
	SealBy, SealName, SealVal, SealRes = e, name, value, any_string()
	return SealRes, nil
}

//gov:model (adapter/strategy/web.Encryptor).Decode
func mw_Decode(e Encryptor, name, value string, dst interface{}) error {
	b, ok := Uf_opens(e, name, value)
	if !ok {
		vspec.Havoc(dst)
		return vmodels.Err()
	}
	if p, is := dst.(*[]byte); is {
		*p = b
		return nil
	}
	vspec.Havoc(dst)
	return nil
}

//gov:model (*github.com/gorilla/securecookie.SecureCookie).Encode
func m_ScEncode(e *securecookie.SecureCookie, name string, value interface{}) (string, error) {
	return mw_Encode(e, name, value)
}

//gov:model (*github.com/gorilla/securecookie.SecureCookie).Decode
func m_ScDecode(e *securecookie.SecureCookie, name, value string, dst interface{}) error {
	return mw_Decode(e, name, value, dst)
}

// The stored form of a cookie record.
func Uf_bson(b []byte) (value string, expires int64, ok bool) { panic("uf") }

//gov:model gopkg.in/mgo.v2/bson.Marshal
func m_Marshal(v interface{}) ([]byte, error) {
	if any_bool() {
		return nil, vmodels.Err()
	}
	BsonN++
	if p, ok := v.(**OidcCookie); ok && p != nil && *p != nil {
		BsonVal = **p
	} else if p, ok := v.(*OidcCookie); ok && p != nil {
		BsonVal = *p
	} else {
		BsonVal = OidcCookie{}
	}
	BsonRes = any_bytes()
	return BsonRes, nil
}

//gov:model gopkg.in/mgo.v2/bson.Unmarshal
func m_Unmarshal(b []byte, dst interface{}) error {
	v, x, ok := Uf_bson(b)
	p, is := dst.(*OidcCookie)
	if !ok || !is {
		vspec.Havoc(dst)
		return vmodels.Err()
	}
	*p = OidcCookie{Value: v, Expiration: vmodels.Spec_at(x)}
	return nil
}

// A random string: C31 is not decided here.
//
//gov:model adapter/strategy/web.randString
func m_randString(n int) string {
	vspec.Requires(n >= 0)
	RandN++
	RandLen, RandRes = n, any_string()
	vspec.Assume(len(RandRes) == n)
	return RandRes
}
