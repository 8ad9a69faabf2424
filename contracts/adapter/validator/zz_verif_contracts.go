package validator

import (
	"crypto"
	"strconv"
	"strings"

	"github.com/dgrijalva/jwt-go/v4"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func forallString(f func(x string) bool) bool { panic("spec") }

func spec_scalarIs(v interface{}, x string) bool {
	switch t := v.(type) {
	case bool:
		return x == strconv.FormatBool(t)
	case float64:
		return x == strconv.FormatFloat(t, 'f', 0, 64)
	case string:
		return x == t
	}
	return false
}

func spec_isScalar(v interface{}) bool {
	switch v.(type) {
	case bool, float64, string:
		return true
	}
	return false
}

// spec_hasValue: x is among the values of claim value v.
func spec_hasValue(v interface{}, x string) bool {
	switch t := v.(type) {
	case string:
		parts := strings.Split(t, " ")
		return vspec.Exists(0, len(parts), func(i int) bool { return parts[i] == x })
	case []interface{}:
		return vspec.Exists(0, len(t), func(i int) bool { return spec_scalarIs(t[i], x) })
	}
	return spec_scalarIs(v, x)
}

func spec_supported(v interface{}) bool {
	if v == nil {
		return true
	}
	if t, ok := v.([]interface{}); ok {
		return vspec.ForAll(0, len(t), func(i int) bool { return spec_isScalar(t[i]) })
	}
	return spec_isScalar(v)
}

func spec_present(m map[string]struct{}, x string) bool {
	_, ok := m[x]
	return ok
}

// The claim's values, as a set.
//
//gov:contract convertClaimType
//gov:props C06
//gov:use
func vc_convertClaimType(value interface{}) {
	m, err := convertClaimType(value)
	vspec.Ensures("unsupported shapes are errors", (err == nil) == spec_supported(value))
	vspec.Ensures("a result is a map", err != nil || m != nil)
	vspec.Ensures("the set holds exactly the claim's values", err != nil ||
		forallString(func(x string) bool { return spec_present(m, x) == spec_hasValue(value, x) }))
}

func spec_ruleHolds(rule v1.Rule, v interface{}) bool {
	if !spec_supported(v) {
		return false
	}
	in := func(i int) bool { return spec_hasValue(v, rule.Values[i]) }
	n := len(rule.Values)
	switch rule.Match {
	case "ANY":
		return vspec.Exists(0, n, in)
	case "NOT":
		return vspec.ForAll(0, n, func(i int) bool { return !in(i) })
	}
	return n > 0 && vspec.ForAll(0, n, in)
}

//gov:contract checkAccessPolicy
//gov:props C06
//gov:use
func vc_checkAccessPolicy(rule v1.Rule, claims jwt.MapClaims) {
	err := checkAccessPolicy(rule, claims)
	vspec.Ensures("the rule's meaning", (err == nil) == spec_ruleHolds(rule, spec_claim(rule.Claim, claims)))
}

func rec_nested(tiers []string, i int, m map[string]interface{}) interface{} {
	if i >= len(tiers) {
		return nil
	}
	c, ok := m[tiers[i]]
	if !ok {
		return nil
	}
	if i == len(tiers)-1 {
		return c
	}
	if n, ok := c.(map[string]interface{}); ok {
		return rec_nested(tiers, i+1, n)
	}
	return nil
}

func spec_claim(path string, claims jwt.MapClaims) interface{} {
	return rec_nested(strings.Split(path, "."), 0, claims)
}

//gov:contract getNestedClaim
//gov:props C06
//gov:use
func vc_getNestedClaim(claim string, claims jwt.MapClaims) {
	r := getNestedClaim(claim, claims)
	vspec.Ensures("value at the dotted path", vspec.Same(r, spec_claim(claim, claims)))
}

// What is left of the path, looked up in the current map, is the answer.
func inv_nested(n int, tiers []string, m0, m map[string]interface{}) bool {
	return vspec.Same(rec_nested(tiers, 0, m0), rec_nested(tiers, n, m))
}

// ---- validation ----

func any_key() crypto.PublicKey { panic("any") }

// which key was asked for, and the answer
var (
	keyN   int
	keySet keyset.KeySet
	keyID  string
	keyRes crypto.PublicKey
)

//gov:model (adapter/authserver/keyset.KeySet).PublicKey
func m_PublicKey(s keyset.KeySet, kid string) crypto.PublicKey {
	keyN++
	keySet, keyID, keyRes = s, kid, any_key()
	return keyRes
}

func reset() {
	vmodels.Reset()
	vmodels.ResetParse()
	keyN, keySet, keyID, keyRes = 0, nil, "", nil
}

// spec_about: the rule is about this kind of token.
func spec_about(r v1.Rule, t Token) bool {
	return r.Source == t.String() || (r.Source == "" && t == Access)
}

func spec_rulesHold(rules []v1.Rule, t Token, claims jwt.MapClaims) bool {
	return vspec.ForAll(0, len(rules), func(i int) bool {
		return !spec_about(rules[i], t) || spec_ruleHolds(rules[i], spec_claim(rules[i].Claim, claims))
	})
}

// spec_scopes: s is what the first scope rule lists, if there is one.
func spec_scopes(rules []v1.Rule, s []string) bool {
	none := vspec.ForAll(0, len(rules), func(i int) bool { return rules[i].Claim != "scope" })
	if none {
		return len(s) == 0
	}
	return vspec.Exists(0, len(rules), func(i int) bool {
		return rules[i].Claim == "scope" && vspec.Same(rules[i].Values, s) &&
			vspec.ForAll(0, i, func(j int) bool { return rules[j].Claim != "scope" })
	})
}

// Every rule about the token is enforced, and no other.
//
//gov:contract validateClaims
//gov:props C07 C27
//gov:use
func vc_validateClaims(token *jwt.Token, tokenType Token, rules []v1.Rule) {
	vspec.Requires(tokenType == Access || tokenType == ID)
	err := validateClaims(token, tokenType, rules)
	var claims jwt.MapClaims
	ok := false
	if token != nil {
		claims, ok = token.Claims.(jwt.MapClaims)
		ok = ok && token.Valid
	}
	vspec.Ensures("C05,C07,C08: only the claims of a verified token are looked at", ok || err != nil)
	vspec.Ensures("C05,C07,C08: exactly the rules about this kind of token decide", !ok || (err == nil) == spec_rulesHold(rules, tokenType, claims))
}

// spec_verified: the token was parsed and verified under the key its own key
// id has in the given set.
func spec_verified(token string, jwks keyset.KeySet) bool {
	if vmodels.ParseN != 1 || vmodels.ParseArg != token || !vmodels.ParseStrict || !vmodels.ParseOK {
		return false
	}
	id, ok := vmodels.ParseHead["kid"].(string)
	return ok && id != "" && keyN > 0 && keyID == id && keySet == jwks && keyRes != nil &&
		vmodels.ParseKeyed && vspec.Same(vmodels.ParseKey, interface{}(keyRes))
}

//gov:contract (*JwtTokenValidator).Validate
//gov:props C05 C07 C27
func vc_JwtValidate(o *JwtTokenValidator, token string, tokenType Token, jwks keyset.KeySet, rules []v1.Rule, userinfo string) {
	vspec.Requires(o != nil && (tokenType == Access || tokenType == ID))
	reset()
	err := o.Validate(token, tokenType, jwks, rules, userinfo)
	vspec.Ensures("C05: an empty token is rejected", token != "" || err != nil)
	vspec.Ensures("C05: a missing key set is rejected", jwks != nil || err != nil)
	vspec.Ensures("C05: accepted only if verified under the policy's own key", err != nil || spec_verified(token, jwks))
	vspec.Ensures("C07: accepted only if every rule about it holds", err != nil || spec_rulesHold(rules, tokenType, vmodels.ParseClaims))
	vspec.Ensures("C07: other rules do not affect it", !(token != "" && jwks != nil && vmodels.ParseOK && spec_rulesHold(rules, tokenType, vmodels.ParseClaims)) || err == nil)
	vspec.Ensures("C07: rejections name the required scopes", err == nil || jwks == nil ||
		(err.Code == errors.InvalidToken && spec_scopes(rules, err.Scopes)))
}

// spec_vouched: the userinfo endpoint said yes to this token, now.
func spec_vouched(token, userinfo string) bool {
	return vmodels.HTTPn == 1 && vmodels.HTTPErr == nil && vmodels.HTTPReq != nil && vmodels.HTTPReq.Method == "GET" &&
		vmodels.ReqURL[vmodels.HTTPReq] == userinfo && vmodels.ReqBody[vmodels.HTTPReq] == nil &&
		vmodels.Spec_header(vmodels.HTTPReq.Header, "Authorization") == "Bearer "+token &&
		vmodels.HTTPRes.StatusCode == 200
}

//gov:contract (*OidcTokenValidator).Validate
//gov:props C05 C07 C08 C23 C27
func vc_OidcValidate(o *OidcTokenValidator, token string, tokenType Token, jwks keyset.KeySet, rules []v1.Rule, userinfo string) {
	vspec.Requires(o != nil && (tokenType == Access || tokenType == ID))
	reset()
	err := o.Validate(token, tokenType, jwks, rules, userinfo)
	verifiable := vmodels.ParseN > 0 && vmodels.ParseOK
	vspec.Ensures("C05,C08: an empty token is rejected", token != "" || err != nil)
	vspec.Ensures("C05,C08: a missing key set is rejected", jwks != nil || err != nil)
	vspec.Ensures("C05: accepted as a JWT only if verified under the policy's own key", err != nil || !verifiable || spec_verified(token, jwks))
	vspec.Ensures("C07,C08: a verifiable JWT is accepted only if every rule about it holds", err != nil || !verifiable || spec_rulesHold(rules, tokenType, vmodels.ParseClaims))
	vspec.Ensures("C07: other rules do not affect it", !(verifiable && spec_rulesHold(rules, tokenType, vmodels.ParseClaims)) || err == nil)
	vspec.Ensures("C08: a token which is not a verifiable JWT was tried as one", err != nil || verifiable || vmodels.ParseN > 0 || len(strings.Split(token, ".")) != 3)
	vspec.Ensures("C08: an ID token is never vouched for", err != nil || verifiable || tokenType == Access)
	vspec.Ensures("C08: accepted only if the userinfo endpoint vouches for it now", err != nil || verifiable || spec_vouched(token, userinfo))
	vspec.Ensures("C08: no rule is about the access token", err != nil || verifiable ||
		vspec.ForAll(0, len(rules), func(i int) bool { return rules[i].Source != "access_token" }))
	vspec.Ensures("C08: no rule without a source is about the access token", err != nil || verifiable ||
		vspec.ForAll(0, len(rules), func(i int) bool { return rules[i].Source != "" }))
	vspec.Ensures("C07: rejections of invalid tokens name the required scopes", err == nil || err.Code != errors.InvalidToken || spec_scopes(rules, err.Scopes))
	vspec.Ensures("C07: a JWT rejected for its claims is an invalid token", !verifiable || err == nil || err.Code == errors.InvalidToken)
	vspec.Ensures("C23: the received body is closed", vmodels.HTTPn == 0 || vmodels.HTTPErr != nil || vmodels.Closed[vmodels.HTTPRes.Body])
}
