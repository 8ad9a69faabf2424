package validator

import (
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

// A token validator seen by its users: a verdict about a token of a kind
// against a key set, rules and a userinfo address. What the verdict means is
// in the contracts of the validators; within one request it does not change.

func Uf_valid(v TokenValidator, token string, t Token, keys keyset.KeySet, rules []v1.Rule, userinfo string) bool {
	panic("uf")
}
func Uf_message(v TokenValidator, token string, t Token, keys keyset.KeySet, rules []v1.Rule, userinfo string) string {
	panic("uf")
}
func Uf_code(v TokenValidator, token string, t Token, keys keyset.KeySet, rules []v1.Rule, userinfo string) string {
	panic("uf")
}
func Uf_scopes(v TokenValidator, token string, t Token, keys keyset.KeySet, rules []v1.Rule, userinfo string) []string {
	panic("uf")
}

//gov:model (adapter/validator.TokenValidator).Validate
func mw_Validate(v TokenValidator, token string, t Token, keys keyset.KeySet, rules []v1.Rule, userinfo string) *errors.OAuthError {
	if Uf_valid(v, token, t, keys, rules, userinfo) {
		return nil
	}
	return &errors.OAuthError{
		Msg: Uf_message(v, token, t, keys, rules, userinfo), Code: Uf_code(v, token, t, keys, rules, userinfo),
		URI: any_text(), Scopes: Uf_scopes(v, token, t, keys, rules, userinfo),
	}
}

func any_text() string { panic("any") }

//gov:contract NewTokenValidator
//gov:props C04 C07 C09
func vc_NewTokenValidator(t policy.Type) {
	vspec.Requires(t == policy.JWT || t == policy.OIDC)
	r := NewTokenValidator(t)
	j, isJWT := r.(*JwtTokenValidator)
	o, isOIDC := r.(*OidcTokenValidator)
	vspec.Ensures("the validator of the policy type", t == policy.JWT && isJWT && j != nil || t == policy.OIDC && isOIDC && o != nil)
}
