package webstrategy

import (
	"strings"

	"github.com/gogo/googleapis/google/rpc"
	"github.com/gorilla/securecookie"
	"k8s.io/client-go/kubernetes"
	policy "istio.io/api/policy/v1beta1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

func forallKey(f func(k interface{}) bool) bool { panic("spec") }

const hour = 3600 * 1000000000

// the request under contract
var (
	gW      *WebStrategy
	gClient client.Client
	gName   string // its cookie
	gSnap   int
	gT0     int64
)

func spec_server() authserver.AuthorizationServerService { return client.Uf_server(gClient) }

// spec_valid: both tokens hold against the client's keys and the policy's rules.
func spec_valid(a *engine.Action, access, id string) bool {
	return spec_holds(a, access, validator.Access) && spec_holds(a, id, validator.ID)
}

func spec_holds(a *engine.Action, token string, t validator.Token) bool {
	return validator.Uf_valid(gW.tokenUtil, token, t, authserver.Uf_keyset(spec_server()), a.Rules, authserver.Uf_userinfo(spec_server()))
}

func spec_message(a *engine.Action, token string, t validator.Token) string {
	return validator.Uf_message(gW.tokenUtil, token, t, authserver.Uf_keyset(spec_server()), a.Rules, authserver.Uf_userinfo(spec_server()))
}

// spec_rejected: the session is refused for another reason than expiry.
func spec_rejected(a *engine.Action, access, id string) bool {
	if !spec_holds(a, access, validator.Access) {
		return spec_message(a, access, validator.Access) != "Token is expired"
	}
	return !spec_holds(a, id, validator.ID) && spec_message(a, id, validator.ID) != "Token is expired"
}

func spec_stored(has bool, k string) bool {
	t, ok := vmodels.Spec_entry(gW.tokenCache, k).(*authserver.TokenResponse)
	return has && ok && t != nil
}

func spec_session(has bool, k string) authserver.TokenResponse {
	if spec_stored(has, k) {
		return *vmodels.Spec_entry(gW.tokenCache, k).(*authserver.TokenResponse)
	}
	return authserver.TokenResponse{}
}

// spec_kept: nothing but (at most) the session k is touched.
func spec_kept(k string) bool {
	m := gW.tokenCache
	return forallKey(func(x interface{}) bool {
		if x == interface{}(k) {
			return true
		}
		v := vmodels.Spec_entry(m, x)
		h := vmodels.Spec_holds(m, x)
		return vspec.At(gSnap, func() bool { return vspec.Same(vmodels.Spec_entry(m, x), v) && vmodels.Spec_holds(m, x) == h })
	})
}

func spec_allKept() bool {
	m := gW.tokenCache
	return forallKey(func(x interface{}) bool {
		v := vmodels.Spec_entry(m, x)
		h := vmodels.Spec_holds(m, x)
		return vspec.At(gSnap, func() bool { return vspec.Same(vmodels.Spec_entry(m, x), v) && vmodels.Spec_holds(m, x) == h })
	})
}

func spec_code(r *authnz.HandleAuthnZResponse) int32 { return r.Result.Status.Code }

func spec_direct(r *authnz.HandleAuthnZResponse) *policy.DirectHttpResponse {
	return vmodels.Spec_direct(r.Result.Status)
}

func spec_location(d *policy.DirectHttpResponse) string {
	if l, ok := d.Headers["location"]; ok {
		return l
	}
	return d.Headers["Location"]
}

// spec_setsCookie: the answer sets the client's cookie to v.
func spec_setsCookie(text, v string) bool {
	c := vmodels.CookieOf[text]
	return c.Name == gName && c.Value == v && c.Path == "/" && c.MaxAge == 0 && vmodels.Spec_time(c.Expires) > vmodels.Now
}

func spec_noCookie(r *authnz.HandleAuthnZResponse) bool {
	d := spec_direct(r)
	if d == nil {
		return r.Output == nil || r.Output.SessionCookie == ""
	}
	_, ok := d.Headers["Set-Cookie"]
	return !ok && (r.Output == nil || r.Output.SessionCookie == "")
}

func spec_bearer(r *authnz.HandleAuthnZResponse, access, id string) bool {
	return r.Output != nil && r.Output.Authorization == "Bearer "+access+" "+id
}

// spec_redirects: an unauthenticated 302.
func spec_redirects(r *authnz.HandleAuthnZResponse) bool {
	d := spec_direct(r)
	return spec_code(r) == int32(rpc.UNAUTHENTICATED) && d != nil && int32(d.Code) == 302 && d.Headers != nil
}

func spec_query(have string) string {
	if have == "" {
		return vmodels.Encoded
	}
	return have + "&" + vmodels.Encoded
}

// spec_loginURL: the client's authorization endpoint with the login
// parameters.
func spec_loginURL(l, redirect, state string) bool {
	u, ok := vmodels.Uf_urlParse(authserver.Uf_authorize(spec_server()))
	if !ok {
		return l == ""
	}
	u.RawQuery = spec_query(u.RawQuery)
	f := vmodels.Form[vmodels.Encoded]
	return l == vmodels.Uf_urlString(u) && f != nil && vmodels.Spec_only(f, "client_id", client.Uf_id(gClient)) &&
		vmodels.Spec_only(f, "response_type", "code") && vmodels.Spec_only(f, "redirect_uri", redirect) &&
		vmodels.Spec_only(f, "scope", client.Uf_scope(gClient)) && vmodels.Spec_only(f, "state", state)
}

// spec_sealed: one record was sealed for the client's cookie.
func spec_sealed() bool {
	return SealN == 1 && BsonN == 1 && SealName == gName && vspec.Same(SealBy, gW.encrpytor) && SealBy != nil && vspec.Same(SealVal, interface{}(BsonRes))
}

// spec_expiry: an hour ahead.
func spec_expiry() bool {
	x := vmodels.Spec_time(BsonVal.Expiration)
	return x >= gT0+hour && x <= vmodels.Now+hour
}

// spec_state: the state cookie was sealed by this adapter for this client's
// cookie, is not expired and holds the state given.
func spec_state(cookie, state string) bool {
	if gW.encrpytor == nil {
		return false
	}
	b, ok := Uf_opens(gW.encrpytor, gName, cookie)
	if !ok {
		return false
	}
	v, x, ok := Uf_bson(b)
	return ok && v != "" && v == state && x >= gT0
}

func spec_keysOf(s *securecookie.SecureCookie, data map[string][]byte) bool {
	return vspec.Same(vmodels.SealHash[s], data["HASH_KEY"]) && vspec.Same(vmodels.SealBlock[s], data["BLOCK_KEY"])
}

// spec_clusterKeys: the encryptor made now is built from the cluster secret.
func spec_clusterKeys() bool {
	s, ok := gW.encrpytor.(*securecookie.SecureCookie)
	if !ok || s == nil {
		return false
	}
	if vmodels.GetOK > 0 {
		return vmodels.CrN == 0 && vmodels.GetNS == "istio-system" && vmodels.GetName == "appidentityandaccessadapter-cookie-sig-enc-keys" && spec_keysOf(s, vmodels.GetRes.Data)
	}
	return vmodels.GetN > 0 && vmodels.GetNS == "istio-system" && vmodels.GetName == "appidentityandaccessadapter-cookie-sig-enc-keys" &&
		vmodels.CrOK == 1 && vmodels.CrNS == "istio-system" && spec_created() && spec_keysOf(s, vmodels.CrRes.Data)
}

func spec_created() bool {
	o := vmodels.CrObj
	h, b := o.Data["HASH_KEY"], o.Data["BLOCK_KEY"]
	return o.Name == "appidentityandaccessadapter-cookie-sig-enc-keys" && o.Namespace == "istio-system" &&
		(h == nil || len(h) == gW.ctx.HashKeySize.Value) && (b == nil || len(b) == gW.ctx.BlockKeySize.Value)
}

func spec_original(q *authnz.RequestMsg) string { return q.Scheme + "://" + q.Host + q.Path }

func spec_return(a *engine.Action, q *authnz.RequestMsg) string {
	if a.RedirectUri != "" {
		return a.RedirectUri
	}
	return strings.TrimSuffix(spec_original(q), "/oidc/callback")
}

func spec_plain(path string) bool {
	return !strings.HasSuffix(path, "/oidc/logout") && !strings.HasSuffix(path, "/oidc/callback")
}

func spec_callback(path string) bool {
	return !strings.HasSuffix(path, "/oidc/logout") && strings.HasSuffix(path, "/oidc/callback")
}

func spec_logout(path string) bool { return strings.HasSuffix(path, "/oidc/logout") }

// spec_loggedIn: the callback obtained valid tokens.
func spec_loggedIn(a *engine.Action) bool {
	return client.XcN == 1 && client.XcErr == nil && spec_valid(a, client.XcVal.AccessToken, client.XcVal.IdentityToken)
}

func spec_oldIfNone(refresh, old string) string {
	if refresh == "" {
		return old
	}
	return refresh
}

// spec_refreshed: the session's own refresh token gave valid tokens, which
// are now the session.
func spec_refreshed(a *engine.Action, s authserver.TokenResponse, k string) bool {
	n, ok := vmodels.Spec_entry(gW.tokenCache, k).(*authserver.TokenResponse)
	return client.RfN == 1 && client.RfErr == nil && client.RfClient == gClient && s.RefreshToken != "" && client.RfToken == s.RefreshToken &&
		spec_valid(a, client.RfVal.AccessToken, client.RfVal.IdentityToken) && ok && n != nil &&
		n.AccessToken == client.RfVal.AccessToken && n.IdentityToken == client.RfVal.IdentityToken &&
		n.RefreshToken == spec_oldIfNone(client.RfVal.RefreshToken, s.RefreshToken)
}

//gov:contract (*WebStrategy).HandleAuthnZRequest
//gov:props C09 C10 C11 C12 C13 C14 C15 C27
func vc_HandleAuthnZRequest(w *WebStrategy, r *authnz.HandleAuthnZRequest, a *engine.Action) {
	vspec.Requires(w != nil && w.tokenUtil != nil && w.tokenCache != nil && w.mutex != nil && w.ctx != nil && w.kubeClient != nil)
	vspec.Requires(w.ctx.HashKeySize.Value >= 0 && w.ctx.BlockKeySize.Value >= 0)
	vspec.Requires(r != nil && r.Instance != nil && r.Instance.Request != nil && r.Instance.Request.Headers != nil && r.Instance.Request.Params != nil)
	vspec.Requires(a != nil && a.Client != nil && client.Uf_server(a.Client) != nil)
	// no session is stored without tokens
	vspec.Requires(forallKey(func(x interface{}) bool {
		t, ok := vmodels.Spec_entry(w.tokenCache, x).(*authserver.TokenResponse)
		return !ok || t != nil
	}))
	reset()
	client.ResetCalls()
	q := r.Instance.Request
	path, params := q.Path, *q.Params
	gW, gClient, gName, gT0 = w, a.Client, "oidc-cookie-"+client.Uf_id(a.Client), vmodels.Now
	sid, has := vmodels.Uf_cookie(q.Headers.Cookies, gName)
	stored, s0 := spec_stored(has, sid), spec_session(has, sid)
	enc0 := w.encrpytor
	gSnap = vspec.Snapshot()

	res, err := w.HandleAuthnZRequest(r, a)

	vspec.Ensures("an answer or an error", (res == nil) == (err != nil) && (res == nil || res.Result != nil))
	vspec.Ensures("C15: an encryptor once made is kept", enc0 == nil || vspec.Same(w.encrpytor, enc0) && vmodels.GetN+vmodels.CrN == 0)
	vspec.Ensures("C15: it is made from the keys of the cluster secret", enc0 != nil || w.encrpytor == nil || spec_clusterKeys())
	vspec.Ensures("C15: without keys nothing is sealed and no state accepted", w.encrpytor != nil || SealN == 0 && client.XcN == 0)
	vspec.Ensures("C15: sealed for an hour under the adapter's own keys", SealN == 0 || spec_sealed() && spec_expiry())
	vspec.Ensures("C11: only a callback with the sealed state goes on", client.XcN == 0 || spec_callback(path) && has && spec_state(sid, params.State))
	vspec.Ensures("C10: a code is exchanged once, by the policy's client", client.XcN == 0 || spec_callback(path) && client.XcN == 1 && client.XcClient == a.Client &&
		client.XcCode == params.Code && params.Code != "" && params.Error == "" && client.XcURI == spec_original(q))
	vspec.Ensures("C10: without valid tokens a callback stores nothing", !spec_callback(path) || spec_loggedIn(a) || spec_allKept())
	vspec.Ensures("C12: tokens are refreshed only for a plain request with an expired session", client.RfN == 0 || spec_plain(path) && stored &&
		!spec_valid(a, s0.AccessToken, s0.IdentityToken) && !spec_rejected(a, s0.AccessToken, s0.IdentityToken))
	vspec.Ensures("C09: a plain request touches no session but its own", !spec_plain(path) || spec_kept(sid))
	vspec.Ensures("C09: a session refused for another reason than expiry is forgotten", !spec_plain(path) || !stored ||
		!spec_rejected(a, s0.AccessToken, s0.IdentityToken) || !vmodels.Spec_holds(w.tokenCache, sid))
	vspec.Ensures("C12: a session changes only into refreshed tokens", !spec_plain(path) || !stored || spec_rejected(a, s0.AccessToken, s0.IdentityToken) ||
		spec_allKept() || spec_refreshed(a, s0, sid))
	vspec.Ensures("C13: logout removes the session named by the cookie", !spec_logout(path) || !has || !vmodels.Spec_holds(w.tokenCache, sid))
	vspec.Ensures("C13: and no other", !spec_logout(path) || has && spec_kept(sid) || spec_allKept())
	if res == nil || err != nil || res.Result == nil {
		return
	}
	code := spec_code(res)
	d := spec_direct(res)
	vspec.Ensures("passed or unauthenticated", code == 0 || code == int32(rpc.UNAUTHENTICATED))
	vspec.Ensures("C09: only a plain request with a stored session passes", code != 0 || spec_plain(path) && stored)
	vspec.Ensures("C09: only a valid or refreshed session passes", code != 0 || spec_valid(a, s0.AccessToken, s0.IdentityToken) && spec_bearer(res, s0.AccessToken, s0.IdentityToken) && client.RfN == 0 ||
		spec_refreshed(a, s0, sid) && spec_bearer(res, client.RfVal.AccessToken, client.RfVal.IdentityToken))
	vspec.Ensures("C12: a refreshed session renews its cookie", code != 0 || client.RfN == 0 || res.Output != nil && spec_setsCookie(res.Output.SessionCookie, sid))
	vspec.Ensures("C13: logout redirects and expires the cookie", !spec_logout(path) || spec_redirects(res) && spec_expires(d.Headers["Set-Cookie"]))
	login := spec_plain(path) && code != 0 || spec_callback(path) && params.Error == "" && params.Code == ""
	vspec.Ensures("C14: without a usable session the answer is a redirect to log in", !login || spec_redirects(res) && spec_sealed() &&
		spec_loginURL(spec_location(d), strings.TrimSuffix(spec_original(q), "/oidc/callback")+"/oidc/callback", BsonVal.Value))
	vspec.Ensures("C14: it sets the cookie to the sealed record of the same state", !login || d != nil && spec_setsCookie(d.Headers["Set-Cookie"], SealRes))
	vspec.Ensures("C14: nothing else is sealed", login || SealN == 0)
	done := spec_callback(path) && spec_loggedIn(a)
	vspec.Ensures("C10: a failed callback sets no cookie", !spec_callback(path) || done || login || spec_noCookie(res))
	vspec.Ensures("C10: a login is stored under a fresh identifier", !done || RandN == 1 && spec_kept(RandRes) && spec_storedLogin(RandRes))
	vspec.Ensures("C10: which is the cookie of the redirect", !done || spec_redirects(res) && spec_setsCookie(d.Headers["Set-Cookie"], RandRes))
	vspec.Ensures("C10: to the configured or original address", !done || d != nil && spec_location(d) == spec_return(a, q))
	vspec.Ensures("C27: no session is stored without tokens", forallKey(func(x interface{}) bool {
		t, ok := vmodels.Spec_entry(w.tokenCache, x).(*authserver.TokenResponse)
		return !ok || t != nil
	}))
}

func spec_storedLogin(k string) bool {
	n, ok := vmodels.Spec_entry(gW.tokenCache, k).(*authserver.TokenResponse)
	return ok && n != nil && n.AccessToken == client.XcVal.AccessToken && n.IdentityToken == client.XcVal.IdentityToken && n.RefreshToken == client.XcVal.RefreshToken
}

func spec_expires(text string) bool {
	c := vmodels.CookieOf[text]
	return c.Name == gName && c.Path == "/" && (c.MaxAge < 0 || vmodels.Spec_time(c.Expires) < vmodels.Now)
}

//gov:contract New
//gov:props C01 C09 C15 C27
func vc_New(ctx *config.Config, kube kubernetes.Interface) {
	vspec.Requires(ctx != nil && kube != nil && ctx.HashKeySize.Value >= 0 && ctx.BlockKeySize.Value >= 0)
	reset()
	s := New(ctx, kube)
	w, ok := s.(*WebStrategy)
	vspec.Ensures("C01,C09,C15: a strategy for OIDC policies", ok && w != nil)
	if !ok || w == nil {
		return
	}
	gW = w
	_, ok = w.tokenUtil.(*validator.OidcTokenValidator)
	vspec.Ensures("C09: which validates tokens of OIDC policies", ok)
	vspec.Ensures("C09: and starts without sessions", w.tokenCache != nil && forallKey(func(x interface{}) bool { return !vmodels.Spec_holds(w.tokenCache, x) }))
	vspec.Ensures("C15: it seals under the cluster's keys or has none yet", w.encrpytor == nil || spec_clusterKeys())
	vspec.Ensures("C15,C27: it is complete", w.mutex != nil && w.ctx == ctx && vspec.Same(w.kubeClient, kube))
}
