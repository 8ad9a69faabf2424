package authserver

import (
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/networking"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func any_keyset() keyset.KeySet { panic("any") }

// which key sets were made
var (
	KsN      int
	KsURL    string
	KsClient *networking.HTTPClient
	KsRes    keyset.KeySet
)

//gov:model adapter/authserver/keyset.New
func m_KeysetNew(url string, c *networking.HTTPClient) keyset.KeySet {
	vspec.Requires(c == nil || c.Client != nil)
	k := any_keyset()
	vspec.Assume(k != nil)
	KsN++
	KsURL, KsClient, KsRes = url, c, k
	return k
}

func begin() {
	vmodels.Reset()
	KsN, KsURL, KsClient, KsRes = 0, "", nil, nil
}

// spec_state: what holds of a server at any time: it was never configured in
// part.
func spec_state(s *RemoteService) bool {
	if s.httpclient == nil || s.httpclient.Client == nil {
		return false
	}
	if s.initialized {
		return spec_complete(s.DiscoveryConfig)
	}
	return s.Issuer == "" && s.AuthURL == "" && s.TokenURL == "" && s.JwksURL == "" && s.UserInfoURL == ""
}

func spec_complete(c DiscoveryConfig) bool {
	return c.Issuer != "" && c.AuthURL != "" && c.TokenURL != "" && c.JwksURL != "" && c.UserInfoURL != ""
}

func spec_sameEndpoints(a, b DiscoveryConfig) bool {
	return a.Issuer == b.Issuer && a.AuthURL == b.AuthURL && a.TokenURL == b.TokenURL && a.JwksURL == b.JwksURL && a.UserInfoURL == b.UserInfoURL
}

// spec_answered: the last request was a discovery request whose answer is a
// complete document.
func spec_answered(url string) bool {
	if vmodels.HTTPn != 1 || vmodels.HTTPErr != nil || vmodels.DecN != 1 {
		return false
	}
	c, ok := vmodels.DecVal.(*DiscoveryConfig)
	return ok && vmodels.HTTPReq.Method == "GET" && vmodels.ReqURL[vmodels.HTTPReq] == url &&
		vmodels.HTTPRes.StatusCode == 200 && vmodels.DecErr == nil && spec_complete(*c)
}

// spec_discovered: how a use of the server may change it.
func spec_discovered(s0 RemoteService, s *RemoteService) bool {
	if s.discoveryURL != s0.discoveryURL || s.httpclient != s0.httpclient {
		return false
	}
	if s0.initialized {
		return vmodels.HTTPn+vmodels.ReqErrN == 0 && s.initialized && s.DiscoveryConfig == s0.DiscoveryConfig
	}
	if vmodels.HTTPn+vmodels.ReqErrN != 1 {
		return false
	}
	if spec_answered(s0.discoveryURL) {
		return s.initialized && spec_sameEndpoints(s.DiscoveryConfig, *vmodels.DecVal.(*DiscoveryConfig))
	}
	return !s.initialized && s.DiscoveryConfig == s0.DiscoveryConfig
}

//gov:contract (*RemoteService).initialize
//gov:props C21 C27
func vc_initialize(s *RemoteService) {
	vspec.Requires(s != nil && spec_state(s))
	begin()
	s0 := *s
	err := s.initialize()
	vspec.Ensures("C21: configured from one complete discovery response or not at all", spec_discovered(s0, s))
	vspec.Ensures("C21: success means configured", (err == nil) == s.initialized)
	vspec.Ensures("C21: the key set stays", vspec.Same(s.jwks, s0.jwks))
	vspec.Ensures("C21: never configured in part", spec_state(s))
}

//gov:contract New
//gov:props C21 C27
func vc_New(url string) {
	begin()
	r := New(url)
	s, ok := r.(*RemoteService)
	vspec.Ensures("C21: a server for that address", ok && s != nil && s.discoveryURL == url && s.jwks == nil)
	vspec.Ensures("C21: never configured in part", !ok || spec_state(s))
	vspec.Ensures("C21: configured from one complete discovery response or not at all", !ok ||
		(vmodels.HTTPn+vmodels.ReqErrN == 1 && (spec_answered(url) == s.initialized) &&
			(!s.initialized || spec_sameEndpoints(s.DiscoveryConfig, *vmodels.DecVal.(*DiscoveryConfig)))))
}

//gov:contract (*RemoteService).JwksEndpoint
//gov:props C21 C27
func vc_JwksEndpoint(s *RemoteService) {
	vspec.Requires(s != nil && spec_state(s))
	begin()
	s0 := *s
	r := s.JwksEndpoint()
	vspec.Ensures("C21: configured from one complete discovery response or not at all", spec_discovered(s0, s) && spec_state(s))
	vspec.Ensures("C21: the discovered address", r == s.JwksURL)
	vspec.Ensures("C21: the key set stays", vspec.Same(s.jwks, s0.jwks))
}

//gov:contract (*RemoteService).TokenEndpoint
//gov:props C21 C27
func vc_TokenEndpoint(s *RemoteService) {
	vspec.Requires(s != nil && spec_state(s))
	begin()
	s0 := *s
	r := s.TokenEndpoint()
	vspec.Ensures("C21: configured from one complete discovery response or not at all", spec_discovered(s0, s) && spec_state(s))
	vspec.Ensures("C21: the discovered address", r == s.TokenURL)
	vspec.Ensures("C21: the key set stays", vspec.Same(s.jwks, s0.jwks))
}

//gov:contract (*RemoteService).AuthorizationEndpoint
//gov:props C21 C27
func vc_AuthorizationEndpoint(s *RemoteService) {
	vspec.Requires(s != nil && spec_state(s))
	begin()
	s0 := *s
	r := s.AuthorizationEndpoint()
	vspec.Ensures("C21: configured from one complete discovery response or not at all", spec_discovered(s0, s) && spec_state(s))
	vspec.Ensures("C21: the discovered address", r == s.AuthURL)
	vspec.Ensures("C21: the key set stays", vspec.Same(s.jwks, s0.jwks))
}

//gov:contract (*RemoteService).UserInfoEndpoint
//gov:props C21 C27
func vc_UserInfoEndpoint(s *RemoteService) {
	vspec.Requires(s != nil && spec_state(s))
	begin()
	s0 := *s
	r := s.UserInfoEndpoint()
	vspec.Ensures("C21: configured from one complete discovery response or not at all", spec_discovered(s0, s) && spec_state(s))
	vspec.Ensures("C21: the discovered address", r == s.UserInfoURL)
	vspec.Ensures("C21: the key set stays", vspec.Same(s.jwks, s0.jwks))
}

//gov:contract (*RemoteService).KeySet
//gov:props C21 C27
func vc_KeySet(s *RemoteService) {
	vspec.Requires(s != nil && spec_state(s))
	begin()
	s0 := *s
	r := s.KeySet()
	vspec.Ensures("C21: configured from one complete discovery response or not at all", spec_discovered(s0, s) && spec_state(s))
	vspec.Ensures("C21: a supplied key set is kept", s0.jwks == nil || (vspec.Same(r, s0.jwks) && KsN == 0))
	vspec.Ensures("C21: otherwise it comes from the discovered address once known", s0.jwks != nil || !s.initialized ||
		(KsN == 1 && KsURL == s.JwksURL && vspec.Same(r, KsRes)))
	vspec.Ensures("C21: and there is none before", s0.jwks != nil || s.initialized || (r == nil && KsN == 0))
	vspec.Ensures("C21: it is kept", vspec.Same(s.jwks, r))
}

//gov:contract (*RemoteService).SetKeySet
//gov:props C21
func vc_SetKeySet(s *RemoteService, k keyset.KeySet) {
	vspec.Requires(s != nil)
	s0 := *s
	s.SetKeySet(k)
	vspec.Ensures("C21: the key set is taken", vspec.Same(s.jwks, k))
	vspec.Ensures("C21: nothing else changes", s.DiscoveryConfig == s0.DiscoveryConfig && s.initialized == s0.initialized && s.discoveryURL == s0.discoveryURL)
}

// ---- tokens ----

// spec_form: the fields of the last request's body.
func spec_body() string {
	return vmodels.Text[vmodels.ReqBody[vmodels.HTTPReq]]
}

//gov:contract (*RemoteService).GetTokens
//gov:props C22 C27
func vc_GetTokens(s *RemoteService, method, id, secret, code, redirect, refresh string) {
	vspec.Requires(s != nil && spec_state(s))
	begin()
	s0 := *s
	res, err := s.GetTokens(method, id, secret, code, redirect, refresh)
	tries := 1
	if !s0.initialized {
		tries = 2
	}
	vspec.Ensures("C22: one token request is made", vmodels.HTTPn+vmodels.ReqErrN == tries)
	sent := vmodels.HTTPn > 0 && vmodels.HTTPReq.Method == "POST"
	vspec.Ensures("C22: a request which cannot be made is an error", sent || (err != nil && vmodels.ReqErrN > 0))
	ok := sent && vmodels.HTTPErr == nil && vmodels.HTTPRes.StatusCode == 200 && vmodels.DecErr == nil
	var tr *TokenResponse
	if ok {
		tr, ok = vmodels.DecVal.(*TokenResponse)
		ok = ok && tr != nil && tr.AccessToken != ""
	}
	vspec.Ensures("C22: tokens come only from a 200 answer with an access token", err != nil || (ok && res == tr))
	vspec.Ensures("C22: such an answer gives its tokens", !ok || err == nil)
	vspec.Ensures("C22: an error comes without tokens", err == nil || res == nil)
	form := vmodels.Form[spec_body()]
	vspec.Ensures("C22: it goes to the discovered token endpoint", !sent || vmodels.ReqURL[vmodels.HTTPReq] == s.TokenURL)
	vspec.Ensures("C22: it is a form", !sent || (vmodels.Spec_header(vmodels.HTTPReq.Header, "Content-Type") == "application/x-www-form-urlencoded" && form != nil))
	vspec.Ensures("C22: refresh grant", !sent || refresh == "" || (vmodels.Spec_only(form, "grant_type", "refresh_token") &&
		vmodels.Spec_only(form, "refresh_token", refresh) && !vmodels.Spec_has(form, "code")))
	vspec.Ensures("C22: code grant", !sent || refresh != "" || (vmodels.Spec_only(form, "grant_type", "authorization_code") &&
		vmodels.Spec_only(form, "code", code) && vmodels.Spec_only(form, "redirect_uri", redirect) && !vmodels.Spec_has(form, "refresh_token")))
	vspec.Ensures("C22: credentials in the form for client_secret_post only", !sent || method != "client_secret_post" ||
		(vmodels.Spec_only(form, "client_id", id) && vmodels.Spec_only(form, "client_secret", secret) && !vmodels.BasicSet[vmodels.HTTPReq]))
	vspec.Ensures("C22: credentials in basic authentication otherwise", !sent || method == "client_secret_post" ||
		(vmodels.BasicSet[vmodels.HTTPReq] && vmodels.BasicUser[vmodels.HTTPReq] == id && vmodels.BasicPass[vmodels.HTTPReq] == secret &&
			!vmodels.Spec_has(form, "client_id") && !vmodels.Spec_has(form, "client_secret")))
}
