package errors

import (
	"istio.io/api/policy/v1beta1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

//gov:contract (*OAuthError).HTTPCode
//gov:props C24 C27
func vc_HTTPCode(e *OAuthError) {
	vspec.Requires(e != nil)
	c := e.HTTPCode()
	want := v1beta1.HttpStatusCode(500)
	if e.Code == "invalid_request" {
		want = 400
	} else if e.Code == "invalid_token" {
		want = 401
	} else if e.Code == "insufficient_scope" {
		want = 403
	}
	vspec.Ensures("status of the error code", c == want)
}

//gov:contract (*OAuthError).ShortDescription
//gov:props C24 C27
func vc_ShortDescription(e *OAuthError) {
	vspec.Requires(e != nil)
	d := e.ShortDescription()
	vspec.Ensures("invalid_request is Bad Request", e.Code != "invalid_request" || d == "Bad Request")
	vspec.Ensures("invalid_token is Unauthorized", e.Code != "invalid_token" || d == "Unauthorized")
	vspec.Ensures("insufficient_scope is Forbidden", e.Code != "insufficient_scope" || d == "Forbidden")
	vspec.Ensures("any other code is its own description", e.Code == "invalid_request" || e.Code == "invalid_token" ||
		e.Code == "insufficient_scope" || d == e.Code)
}

//gov:contract (*OAuthError).ScopeStr
//gov:props C24 C27
func vc_ScopeStr(e *OAuthError) {
	vspec.Requires(e != nil)
	s := e.ScopeStr()
	vspec.Ensures("the scopes in order, separated by spaces", s == vmodels.Rec_Join(e.Scopes, " ", len(e.Scopes)))
}

//gov:contract (*OAuthError).OK
//gov:props C24 C27
func vc_OK(e *OAuthError) {
	vspec.Requires(e != nil)
	err := e.OK()
	vspec.Ensures("an error without a code is not valid", (err != nil) == (e.Code == ""))
}

//gov:contract (*OAuthError).Error
//gov:props C24 C27
func vc_Error(e *OAuthError) {
	vspec.Requires(e != nil)
	s := e.Error()
	vspec.Ensures("code and description", e.Code == "" || e.Msg == "" || s == e.Code+": "+e.Msg)
	vspec.Ensures("code only", e.Code == "" || e.Msg != "" || s == e.Code)
	vspec.Ensures("description only", e.Code != "" || e.Msg == "" || s == e.Msg)
	vspec.Ensures("never empty", s != "")
}

//gov:props C24 C27
func vc_constructors(msg string, scopes []string) {
	a := ExpiredTokenError()
	vspec.Ensures("expired tokens are invalid tokens", a != nil && a.HTTPCode() == 401 && a.Msg == "Token is expired")
	b := UnauthorizedHTTPException(msg, scopes)
	vspec.Ensures("unauthorized", b != nil && b.HTTPCode() == 401 && b.Msg == msg && vspec.Same(b.Scopes, scopes))
	c := BadRequestHTTPException(msg)
	vspec.Ensures("bad request", c != nil && c.HTTPCode() == 400 && c.Msg == msg && len(c.Scopes) == 0)
}
