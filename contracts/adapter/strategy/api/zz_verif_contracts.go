package apistrategy

import (
	"strings"

	"istio.io/istio/mixer/pkg/status"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// The authorization header: scheme, access token and what follows.
func spec_hasToken(h string) bool {
	return vspec.IndexOf(h, " ") >= 0 && spec_bearer(h)
}

func spec_scheme(h string) string { return h[:vspec.IndexOf(h, " ")] }

func spec_rest(h string) string { return h[vspec.IndexOf(h, " ")+1:] }

func spec_bearer(h string) bool { return spec_scheme(h) == "Bearer" || spec_scheme(h) == "bearer" }

func spec_access(h string) string {
	r := spec_rest(h)
	if vspec.IndexOf(r, " ") < 0 {
		return r
	}
	return r[:vspec.IndexOf(r, " ")]
}

func spec_id(h string) string {
	r := spec_rest(h)
	if vspec.IndexOf(r, " ") < 0 {
		return ""
	}
	return r[vspec.IndexOf(r, " ")+1:]
}

func spec_aboutID(a *engine.Action) bool {
	return vspec.Exists(0, len(a.Rules), func(i int) bool { return a.Rules[i].Source == "id_token" })
}

func spec_challenge(scopes, code, msg string) string {
	h := "Bearer realm=\"token\""
	if scopes != "" {
		h += ", scopes=\"" + scopes + "\""
	}
	if code != "" {
		h += ", error=\"" + code + "\""
	}
	if msg != "" {
		h += ", error_description=\"" + msg + "\""
	}
	return h
}

func spec_status(code string) int32 {
	switch code {
	case "invalid_request":
		return 400
	case "invalid_token":
		return 401
	case "insufficient_scope":
		return 403
	}
	return 500
}

//gov:contract (*APIStrategy).HandleAuthnZRequest
//gov:props C04 C27
func vc_HandleAuthnZRequest(s *APIStrategy, r *authnz.HandleAuthnZRequest, a *engine.Action) {
	vspec.Requires(s != nil && s.tokenUtil != nil && a != nil)
	vspec.Requires(r != nil && r.Instance != nil && r.Instance.Request != nil && r.Instance.Request.Headers != nil)
	vspec.Requires(status.OK.Code == 0)
	vmodels.ResetWeb()
	h := r.Instance.Request.Headers.Authorization
	v, keys, rules := s.tokenUtil, a.KeySet, a.Rules
	needsID := spec_hasToken(h) && (spec_id(h) != "" || spec_aboutID(a))
	access := spec_hasToken(h) && validator.Uf_valid(v, spec_access(h), validator.Access, keys, rules, "")
	id := spec_hasToken(h) && validator.Uf_valid(v, spec_id(h), validator.ID, keys, rules, "")
	res, err := s.HandleAuthnZRequest(r, a)
	vspec.Ensures("C04: there is an answer", err == nil && res != nil && res.Result != nil)
	if err != nil || res == nil || res.Result == nil {
		return
	}
	pass := res.Result.Status.Code == 0
	vspec.Ensures("C04: passes exactly with a valid access token and, where needed, a valid ID token", pass == (access && (!needsID || id)))
	vspec.Ensures("C04: every other request is unauthenticated", pass || res.Result.Status.Code == 16)
	d := vmodels.Spec_direct(res.Result.Status)
	vspec.Ensures("C04: with a direct response", pass || d != nil && d.Headers != nil)
	if pass || d == nil || d.Headers == nil {
		return
	}
	c := d.Headers["WWW-Authenticate"]
	vspec.Ensures("C04: a malformed header is unauthorized", spec_hasToken(h) ||
		int32(d.Code) == 401 && strings.HasPrefix(c, spec_challenge("", errors.InvalidToken, "")))
	vspec.Ensures("C04: an invalid access token is challenged for what its error says", !spec_hasToken(h) || access || spec_answers(int32(d.Code), c,
		validator.Uf_code(v, spec_access(h), validator.Access, keys, rules, ""), validator.Uf_scopes(v, spec_access(h), validator.Access, keys, rules, ""), "invalid access token"))
	vspec.Ensures("C04: an invalid ID token is challenged for what its error says", !access || spec_answers(int32(d.Code), c,
		validator.Uf_code(v, spec_id(h), validator.ID, keys, rules, ""), validator.Uf_scopes(v, spec_id(h), validator.ID, keys, rules, ""), "invalid ID token"))
}

func spec_answers(status int32, challenge, code string, scopes []string, msg string) bool {
	return status == spec_status(code) && challenge == spec_challenge(strings.Join(scopes, " "), code, msg)
}

//gov:contract New
//gov:props C01 C04 C27
func vc_New() {
	s := New()
	a, ok := s.(*APIStrategy)
	vspec.Ensures("C01,C04: a strategy for JWT policies", ok && a != nil)
	if !ok || a == nil {
		return
	}
	_, ok = a.tokenUtil.(*validator.JwtTokenValidator)
	vspec.Ensures("C04: which validates tokens of JWT policies", ok)
}
