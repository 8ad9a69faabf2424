package vmodels

import (
	"strings"

	"github.com/dgrijalva/jwt-go/v4"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func any_headerMap() map[string]interface{} { panic("any") }
func any_claims() jwt.MapClaims             { panic("any") }
func any_token() *jwt.Token                 { panic("any") }

// What was parsed: ghost state.
var (
	ParseN      int
	ParseArg    string
	ParseHead   map[string]interface{} // the token's own header
	ParseKeyed  bool                   // the key function answered
	ParseKey    interface{}
	ParseStrict bool // validity times are checked too
	ParseOK     bool // signature and times are right under ParseKey
	ParseTok    *jwt.Token
	ParseClaims jwt.MapClaims
)

func ResetParse() {
	ParseN, ParseArg, ParseHead, ParseKeyed, ParseKey, ParseStrict, ParseOK, ParseTok, ParseClaims = 0, "", nil, false, nil, false, false, nil, nil
}

// parse: any decision about form, signature and validity times; the key is
// what the given function answers for the token, whose header is its own.
func parse(s string, f jwt.Keyfunc, strict bool) (*jwt.Token, error) {
	ParseN++
	ParseArg, ParseKeyed, ParseKey, ParseStrict, ParseOK = s, false, nil, strict, false
	if len(strings.Split(s, ".")) != 3 || any_bool() {
		ParseTok = any_token()
		return ParseTok, Err()
	}
	h := any_headerMap()
	c := any_claims()
	t := &jwt.Token{Raw: s, Header: h, Claims: c}
	ParseHead, ParseTok, ParseClaims = h, t, c
	if f == nil {
		return t, Err()
	}
	k, err := f(t)
	if err != nil {
		return t, Err()
	}
	ParseKeyed, ParseKey = true, k
	if any_bool() {
		return t, Err()
	}
	t.Valid = true
	ParseOK = true
	return t, nil
}

//gov:model github.com/dgrijalva/jwt-go/v4.Parse
func m_Parse(s string, f jwt.Keyfunc) (*jwt.Token, error) { return parse(s, f, true) }

//gov:model (*github.com/dgrijalva/jwt-go/v4.Parser).Parse
func m_ParserParse(p *jwt.Parser, s string, f jwt.Keyfunc) (*jwt.Token, error) {
	vspec.Requires(p != nil)
	return parse(s, f, !p.SkipClaimsValidation)
}
