HDR = open("/verif/replay/adapter/strategy/web/replay_test.go").read().split("// requests with and without sessions")[0] + '''
var _ = errors.New
var _ sync.Mutex
var _ runtime.Object
var _ k8stesting.Action
'''
WEB = dict(pkg="adapter/strategy/web")
W = "adapter/strategy/web/web.go"
U = "adapter/strategy/web/utils.go"
V = "adapter/validator/validator.go"
SEEDS = [
dict(id="c03-config-of-other-namespace", prop="C03", pkg="adapter/policy/engine",
 edits=[("adapter/policy/engine/engine.go", '				configName := ep.Service.Namespace + "/" + p.Config\n', '				configName := p.Config\n				if !strings.Contains(configName, "/") {\n					configName = ep.Service.Namespace + "/" + p.Config\n				}\n')],
 needs="a policy whose configuration name contains a slash and names an object of another namespace",
 breaks="the configuration of another namespace's owner is used",
 demo='''
package engine

import (
	"testing"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

func TestDemo(t *testing.T) {
	for _, name := range []string{"keys", "theirs/keys"} {
		s := storepolicy.New()
		e, _ := New(s)
		s.AddKeySet("theirs/keys", &keyset.RemoteKeySet{})
		s.SetPolicies(policy.Endpoint{Service: policy.Service{Namespace: "mine", Name: "svc"}, Path: "/a", Method: policy.ALL},
			policy.RoutePolicy{PolicyReference: "mine/p", Actions: []v1.PathPolicy{{PolicyType: "jwt", Config: name}}})
		if a, err := e.Evaluate(&authnz.TargetMsg{Namespace: "mine", Service: "svc", Path: "/a", Method: "GET"}); err == nil {
			t.Fatalf("configuration %q resolved to %v", name, a.KeySet)
		}
	}
}
'''),
dict(id="c04-header-fields", prop="C04", pkg="adapter/strategy/api",
 edits=[("adapter/strategy/api/api.go", "strings.SplitN(authHeader, \" \", 3)", "strings.Fields(authHeader)")],
 needs="a header with more than one space before the token",
 breaks="a header which is not of one of the two accepted forms passes",
 demo='''
package apistrategy

import (
	"testing"

	"github.com/gogo/googleapis/google/rpc"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

type demoV struct{}

func (demoV) Validate(s string, k validator.Token, ks keyset.KeySet, r []v1.Rule, u string) *errors.OAuthError {
	if s == "good" {
		return nil
	}
	return errors.UnauthorizedHTTPException("bad", nil)
}

func TestDemo(t *testing.T) {
	for h, pass := range map[string]bool{"Bearer good": true, "Bearer good good": true, "Bearer good x.y.z": false, "Bearer  good": false, " Bearer good": false, "Bearer\\tgood": false} {
		s := &APIStrategy{tokenUtil: demoV{}}
		res, err := s.HandleAuthnZRequest(&authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{Request: &authnz.RequestMsg{Headers: &authnz.HeadersMsg{Authorization: h}}}}, &engine.Action{})
		if err != nil || (res.Result.Status.Code == int32(rpc.OK)) != pass {
			t.Fatalf("%q: %+v %v", h, res, err)
		}
	}
}
'''),
dict(id="c05-token-not-yet-valid", prop="C05", pkg="adapter/validator",
 edits=[(V, "	return jwt.Parse(token, getKey)\n", "	parsed, err := jwt.Parse(token, getKey)\n	if ve, ok := err.(*jwt.ValidationError); ok && ve.Errors == jwt.ValidationErrorNotValidYet {\n		// the clocks of the issuer and the adapter differ\n		return (&jwt.Parser{SkipClaimsValidation: true}).Parse(token, getKey)\n	}\n	return parsed, err\n")],
 needs="a properly signed token whose nbf lies ahead",
 breaks="a token is accepted before its validity begins",
 demo='''
package validator

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"testing"
	"time"

	"github.com/dgrijalva/jwt-go/v4"
)

type demoKeys struct{ k *rsa.PrivateKey }

func (demoKeys) PublicKeyURL() string                    { return "" }
func (d demoKeys) PublicKey(kid string) crypto.PublicKey { return &d.k.PublicKey }

func TestDemo(t *testing.T) {
	k, _ := rsa.GenerateKey(rand.Reader, 2048)
	for _, d := range []time.Duration{-time.Hour, time.Minute, time.Hour} {
		tok := jwt.NewWithClaims(jwt.SigningMethodRS256, jwt.MapClaims{"nbf": float64(time.Now().Add(d).Unix())})
		tok.Header["kid"] = "k"
		s, err := tok.SignedString(k)
		if err != nil {
			t.Fatal(err)
		}
		e := (&JwtTokenValidator{}).Validate(s, Access, demoKeys{k}, nil, "")
		if (e == nil) != (d < 0) {
			t.Fatalf("token valid in %v: %v", d, e)
		}
	}
}
'''),
dict(id="c06-deep-claim-path", prop="C06", pkg="adapter/validator",
 edits=[(V, 'strings.Split(claim, ".")', 'strings.SplitN(claim, ".", 4)')],
 needs="a claim path of five levels or more",
 breaks="the claim is not found: NOT rules about it hold for every token",
 demo='''
package validator

import (
	"testing"

	"github.com/dgrijalva/jwt-go/v4"
)

func TestDemo(t *testing.T) {
	m := map[string]interface{}{"e": "v"}
	path := "e"
	for _, n := range []string{"d", "c", "b", "a"} {
		if got := getNestedClaim(path, jwt.MapClaims(m)); got != "v" {
			t.Fatalf("%s: %v", path, got)
		}
		m = map[string]interface{}{n: m}
		path = n + "." + path
	}
	if got := getNestedClaim(path, jwt.MapClaims(m)); got != "v" {
		t.Fatalf("%s: %v", path, got)
	}
}
'''),
dict(id="c07-one-rule-per-claim", prop="C07", pkg="adapter/validator",
 edits=[(V, "	for _, rule := range rules {\n		if (rule.Source == tokenType.String())", "	checked := map[string]bool{}\n	for _, rule := range rules {\n		if checked[rule.Claim] {\n			continue\n		}\n		checked[rule.Claim] = true\n		if (rule.Source == tokenType.String())")],
 needs="two rules about the same claim of which only the second is violated or about this token",
 breaks="later rules about a claim are not enforced",
 demo='''
package validator

import (
	"testing"

	"github.com/dgrijalva/jwt-go/v4"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

func TestDemo(t *testing.T) {
	tok := &jwt.Token{Valid: true, Claims: jwt.MapClaims{"role": []interface{}{"user", "suspended"}}}
	rules := []v1.Rule{{Claim: "role", Match: "ANY", Values: []string{"user"}}, {Claim: "role", Match: "NOT", Values: []string{"suspended"}}}
	if validateClaims(tok, Access, rules[:1]) != nil {
		t.Fatal("the first rule does not hold")
	}
	if validateClaims(tok, Access, rules[1:]) == nil {
		t.Fatal("the second rule holds")
	}
	if validateClaims(tok, Access, rules) == nil {
		t.Fatal("accepted although a rule is violated")
	}
}
'''),
dict(id="c08-userinfo-verdict-kept", prop="C08", pkg="adapter/validator",
 edits=[(V, "	client := &http.Client{}\n	req, err", "	if _, ok := vouched.Load(userInfoEndpoint + \" \" + tokenStr); ok {\n		return nil\n	}\n	client := &http.Client{}\n	req, err"),
        (V, "			return errors.BadRequestHTTPException(\"Unauthorized - rules configured for opaque access token\")\n		}\n	}\n\n	return nil\n}\n", "			return errors.BadRequestHTTPException(\"Unauthorized - rules configured for opaque access token\")\n		}\n	}\n\n	vouched.Store(userInfoEndpoint+\" \"+tokenStr, struct{}{})\n	return nil\n}\n"),
        (V, "// Validator implements the TokenValidator\ntype Validator struct{}\n", "// vouched holds the tokens the userinfo endpoint has accepted\nvar vouched sync.Map\n\n// Validator implements the TokenValidator\ntype Validator struct{}\n"), (V, '	"strings"\n', '	"strings"\n	"sync"\n')],
 needs="an opaque token which was accepted once and is then revoked",
 breaks="the revoked token is accepted without asking the userinfo endpoint",
 demo='''
package validator

import (
	"crypto"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	code, asked := 200, 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { asked++; w.WriteHeader(code) }))
	defer srv.Close()
	v := &OidcTokenValidator{}
	if err := v.Validate("opaque-token", Access, demoKeys{}, nil, srv.URL); err != nil || asked != 1 {
		t.Fatal(err, asked)
	}
	code = 401
	if err := v.Validate("opaque-token", Access, demoKeys{}, nil, srv.URL); err == nil {
		t.Fatal("accepted after it was revoked")
	}
}

type demoKeys struct{}

func (demoKeys) PublicKeyURL() string                  { return "" }
func (demoKeys) PublicKey(kid string) crypto.PublicKey { return nil }
'''),
dict(id="c09-session-without-id-token", prop="C09", **WEB,
 edits=[(W, "	if validationErr := w.tokenUtil.Validate(session.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint); validationErr != nil {\n", "	if validationErr := w.tokenUtil.Validate(session.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint); validationErr != nil && session.IdentityToken != \"\" {\n")],
 needs="a stored session without an ID token",
 breaks="the request passes without a validated ID token",
 demo=HDR + '''
func TestDemo(t *testing.T) {
	for _, id := range []string{"id", ""} {
		w := &rpWorld{verdict: map[string]string{"access_token acc": "ok", "id_token id": "ok"}}
		s := rpStrategy(w)
		c := rpClientOf("id1")
		s.tokenCache.Store("session", &authserver.TokenResponse{AccessToken: "acc", IdentityToken: id})
		r, err := s.HandleAuthnZRequest(rpRequest("/", "oidc-cookie-id1=session"), &engine.Action{Client: c})
		if err != nil || rpPassed(r) != (id != "") {
			t.Fatalf("ID token %q: %+v %v", id, r, err)
		}
	}
}
'''),
dict(id="c10-session-before-id-check", prop="C10", **WEB,
 edits=[(W, "	validationErr = w.tokenUtil.Validate(response.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint)\n", "	cookie := generateSessionIDCookie(action.Client, nil)\n	w.tokenCache.Store(cookie.Value, response)\n\n	validationErr = w.tokenUtil.Validate(response.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint)\n"),
        (W, "	cookie := generateSessionIDCookie(action.Client, nil)\n	w.tokenCache.Store(cookie.Value, response)\n\n	zap.L().Debug(\"OIDC callback: created", "	zap.L().Debug(\"OIDC callback: created")],
 needs="a callback whose access token validates and whose ID token does not",
 breaks="a session is stored for tokens which did not validate",
 demo=HDR + '''
func TestDemo(t *testing.T) {
	for _, verdict := range []string{"ok", "bad"} {
		w := &rpWorld{verdict: map[string]string{"access_token acc": "ok", "id_token id": verdict}}
		s := rpStrategy(w)
		c := rpClientOf("id1")
		c.res = &authserver.TokenResponse{AccessToken: "acc", IdentityToken: "id"}
		sealed := rpSeal("oidc-cookie-id1", &OidcCookie{Value: "st", Expiration: time.Now().Add(time.Minute)}, rpHash, rpBlock)
		req := rpRequest("/a/oidc/callback", "oidc-cookie-id1="+sealed)
		req.Instance.Request.Params.Code = "code"
		req.Instance.Request.Params.State = "st"
		if _, err := s.HandleAuthnZRequest(req, &engine.Action{Client: c}); err != nil {
			t.Fatal(err)
		}
		if n := len(rpSessions(s)); (n == 1) != (verdict == "ok") {
			t.Fatalf("ID token %s: %d sessions", verdict, n)
		}
	}
}
'''),
dict(id="c11-expiry-grace", prop="C11", **WEB,
 edits=[(W, "	if cookieObj.Expiration.Before(time.Now()) {\n", "	if cookieObj.Expiration.Before(time.Now().Add(-time.Minute)) {\n")],
 needs="a state cookie used within a minute after its expiry",
 breaks="an expired state cookie is accepted",
 demo=HDR + '''
func TestDemo(t *testing.T) {
	for _, left := range []time.Duration{time.Minute, -20 * time.Second, -time.Hour} {
		s := rpStrategy(&rpWorld{verdict: map[string]string{}})
		sealed := rpSeal("oidc-cookie-id1", &OidcCookie{Value: "st", Expiration: time.Now().Add(left)}, rpHash, rpBlock)
		o := s.parseAndValidateCookie(&http.Cookie{Name: "oidc-cookie-id1", Value: sealed})
		if (o != nil) != (left > 0) {
			t.Fatalf("expiry in %v: %v", left, o)
		}
	}
}
'''),
dict(id="c12-refresh-not-stored", prop="C12", **WEB,
 edits=[(W, "		w.tokenCache.Store(cookie.Value, tokens)\n		return", "		w.tokenCache.LoadOrStore(cookie.Value, tokens)\n		return")],
 needs="a request after a refresh, when the server rotates refresh tokens",
 breaks="the refreshed tokens never replace the stored session",
 demo=HDR + '''
func TestDemo(t *testing.T) {
	w := &rpWorld{verdict: map[string]string{"access_token acc": "expired", "id_token id": "ok", "access_token acc2": "ok", "id_token id2": "ok"}}
	s := rpStrategy(w)
	c := rpClientOf("id1")
	c.res = &authserver.TokenResponse{AccessToken: "acc2", IdentityToken: "id2", RefreshToken: "ref2"}
	s.tokenCache.Store("session", &authserver.TokenResponse{AccessToken: "acc", IdentityToken: "id", RefreshToken: "ref"})
	r, err := s.HandleAuthnZRequest(rpRequest("/", "oidc-cookie-id1=session"), &engine.Action{Client: c})
	if err != nil || !rpPassed(r) {
		t.Fatalf("%+v %v", r, err)
	}
	if got := rpSessions(s)["session"]; got != *c.res {
		t.Fatalf("stored session %+v", got)
	}
}
'''),
dict(id="c13-logout-cookie-prefix", prop="C13", **WEB,
 edits=[(W, "	if cookie, err := request.Cookie(cookieName); err == nil {\n", "	for _, cookie := range request.Cookies() {\n		if !strings.HasPrefix(cookie.Name, cookieName) {\n			continue\n		}\n")],
 needs="a browser with sessions of two clients whose ids begin alike",
 breaks="logging out of one client ends the session of the other",
 demo=HDR + '''
func TestDemo(t *testing.T) {
	s := rpStrategy(&rpWorld{verdict: map[string]string{}})
	for _, k := range []string{"s1", "s2", "s3"} {
		s.tokenCache.Store(k, &authserver.TokenResponse{AccessToken: k})
	}
	_, err := s.HandleAuthnZRequest(rpRequest("/oidc/logout", "oidc-cookie-app=s1; oidc-cookie-app2=s2; oidc-cookie-other=s3"), &engine.Action{Client: rpClientOf("app")})
	got := rpSessions(s)
	if _, ok := got["s1"]; err != nil || ok || len(got) != 2 {
		t.Fatalf("sessions %v, %v", got, err)
	}
}
'''),
dict(id="c14-request-url-cleaned", prop="C14", **WEB,
 edits=[(U, 'return action.Scheme + "://" + action.Host + action.Path', 'return action.Scheme + "://" + strings.TrimSuffix(action.Host, ":443") + action.Path'), (U, '	"net/url"\n', '	"net/url"\n	"strings"\n')],
 needs="a plain http request to a host on port 443",
 breaks="the redirect address is not the request's own host",
 demo=HDR + '''
func TestDemo(t *testing.T) {
	for _, scheme := range []string{"http", "https"} {
		for _, host := range []string{"shop.example", "shop.example:8443", "shop.example:443"} {
			s := rpStrategy(&rpWorld{verdict: map[string]string{}})
			c := rpClientOf("app")
			req := rpRequest("/x", "")
			req.Instance.Request.Host, req.Instance.Request.Scheme = host, scheme
			r, err := s.HandleAuthnZRequest(req, &engine.Action{Client: c})
			if msg := rpLogin(r, err, req, c); msg != "" {
				t.Fatalf("%s://%s: %s", scheme, host, msg)
			}
		}
	}
}
'''),
dict(id="c15-key-sizes-swapped", prop="C15", **WEB,
 edits=[(W, "w.generateKeySecret(w.ctx.HashKeySize.Value, w.ctx.BlockKeySize.Value)", "w.generateKeySecret(w.ctx.BlockKeySize.Value, w.ctx.HashKeySize.Value)")],
 needs="a secret which has to be created with key sizes that differ",
 breaks="the hash key is as short as the block key; the block key has the size of the hash key",
 demo=HDR + '''
func TestDemo(t *testing.T) {
	for _, sz := range [][2]int{{32, 32}, {32, 16}, {64, 16}, {64, 32}} {
		cfg := config.NewConfig()
		cfg.HashKeySize.Value, cfg.BlockKeySize.Value = sz[0], sz[1]
		kube := k8sfake.NewSimpleClientset()
		New(cfg, kube)
		sec, err := kube.CoreV1().Secrets(defaultNamespace).Get(defaultKeySecret, metav1.GetOptions{})
		if err != nil || len(sec.Data[hashKey]) != sz[0] || len(sec.Data[blockKey]) != sz[1] {
			t.Fatalf("sizes %v: %d %d %v", sz, len(sec.Data[hashKey]), len(sec.Data[blockKey]), err)
		}
	}
}
'''),
dict(id="c16-delete-by-prefix", prop="C16", pkg="adapter/policy/handler",
 edits=[("adapter/policy/handler/crdeventhandler/delete_event.go", "storedPolicy.PolicyReference == e.Key", "strings.HasPrefix(storedPolicy.PolicyReference, e.Key)"), ("adapter/policy/handler/crdeventhandler/delete_event.go", "import (\n", "import (\n	\"strings\"\n\n")],
 needs="two policies ns/a and ns/ab which declared the same endpoint, the longer name last; then ns/a is deleted",
 breaks="the endpoint held by the other policy becomes unprotected",
 demo='''
package handler

import (
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	k8sfake "k8s.io/client-go/kubernetes/fake"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
)

func TestDemo(t *testing.T) {
	pol := func(name string) *v1.Policy {
		return &v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: name}, Spec: v1.PolicySpec{Target: []v1.TargetElement{
			{ServiceName: "svc", Paths: []v1.PathConfig{{Exact: "/x", Method: "GET", Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: name}}}}}}}}
	}
	for _, other := range []string{"b", "ab"} {
		s := storepolicy.New()
		h := New(s, k8sfake.NewSimpleClientset())
		h.HandleAddUpdateEvent(pol("a"))
		h.HandleAddUpdateEvent(pol(other))
		h.HandleDeleteEvent(policy.CrdKey{Id: "ns/a", CrdType: v1.POLICY})
		got := s.GetPolicies(policy.Endpoint{Service: policy.Service{Namespace: "ns", Name: "svc"}, Path: "/x", Method: policy.GET})
		if got.PolicyReference != "ns/"+other || len(got.Actions) != 1 {
			t.Fatalf("deleted ns/a, endpoint of ns/%s: %+v", other, got)
		}
	}
}
'''),
dict(id="c17-keyset-under-spec-name", prop="C17", pkg="adapter/policy/handler",
 edits=[("adapter/policy/handler/crdeventhandler/add_event.go", "	e.Obj.Spec.ClientName = e.Obj.ObjectMeta.Namespace + \"/\" + e.Obj.ObjectMeta.Name\n	e.Store.AddKeySet(", "	if e.Obj.Spec.ClientName == \"\" {\n		e.Obj.Spec.ClientName = e.Obj.ObjectMeta.Namespace + \"/\" + e.Obj.ObjectMeta.Name\n	}\n	e.Store.AddKeySet(")],
 needs="a JwtConfig whose spec carries a client name",
 breaks="the key set is registered under the name in the spec, possibly that of another namespace",
 demo='''
package handler

import (
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	k8sfake "k8s.io/client-go/kubernetes/fake"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
)

func TestDemo(t *testing.T) {
	for _, name := range []string{"", "mine/cfg", "theirs/cfg"} {
		s := storepolicy.New()
		New(s, k8sfake.NewSimpleClientset()).HandleAddUpdateEvent(&v1.JwtConfig{
			ObjectMeta: metav1.ObjectMeta{Namespace: "mine", Name: "cfg"},
			Spec:       v1.JwtConfigSpec{ClientName: name, JwksURL: "http://127.0.0.1:1/jwks"},
		})
		if s.GetKeySet("mine/cfg") == nil || s.GetKeySet("theirs/cfg") != nil {
			t.Fatalf("name %q: %v %v", name, s.GetKeySet("mine/cfg"), s.GetKeySet("theirs/cfg"))
		}
	}
}
'''),
dict(id="c18-method-of-previous-entry", prop="C18", pkg="adapter/policy/handler/crdeventhandler",
 edits=[("adapter/policy/handler/crdeventhandler/utils.go", "				for _, path := range items.Paths {\n					method := policy.NewMethod(path.Method)\n", "				method := policy.ALL\n				for _, path := range items.Paths {\n					if path.Method != \"\" {\n						method = policy.NewMethod(path.Method)\n					}\n")],
 needs="a target with an entry for one method followed by an entry without a method",
 breaks="the second entry only protects the first entry's method",
 demo='''
package crdeventhandler

import (
	"testing"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
)

func TestDemo(t *testing.T) {
	got := ParseTarget([]v1.TargetElement{{ServiceName: "svc", Paths: []v1.PathConfig{{Exact: "/a"}, {Exact: "/b", Method: "PUT"}, {Exact: "/c"}}}}, "ns")
	want := []policy.Method{policy.ALL, policy.PUT, policy.ALL}
	if len(got) != 3 {
		t.Fatal(got)
	}
	for i, w := range want {
		if got[i].Endpoint.Method != w {
			t.Fatalf("entry %d: %v, want %v", i, got[i].Endpoint.Method, w)
		}
	}
}
'''),
dict(id="c19-old-keys-merged", prop="C19", pkg="adapter/authserver/keyset",
 edits=[("adapter/authserver/keyset/keyset.go", "	keymap := make(map[string]crypto.PublicKey)\n", "	keymap := make(map[string]crypto.PublicKey)\n	for kid, k := range s.publicKeys {\n		keymap[kid] = k\n	}\n")],
 needs="a key the server has withdrawn, after a refresh",
 breaks="withdrawn keys are kept and still accepted",
 demo='''
package keyset

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	kid := "k1"
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		fmt.Fprintf(w, `{"keys":[{"kty":"RSA","kid":%q,"n":"ALePj2tZTsUDtGlB","e":"AQAB"}]}`, kid)
	}))
	defer srv.Close()
	s := New(srv.URL, nil)
	if s.PublicKey("k1") == nil {
		t.Fatal("k1 is missing")
	}
	kid = "k2"
	if s.PublicKey("k2") == nil {
		t.Fatal("k2 is missing")
	}
	if s.PublicKey("k1") != nil {
		t.Fatal("k1 was withdrawn")
	}
}
'''),
dict(id="c25-hex-option", prop="C25", pkg="adapter/config",
 edits=[("adapter/config/intoptions.go", "	v := int(i)\n	if _, ok := o.Options[v]; !ok {\n", "	v := int(i)\n	o.Value = v\n	if _, ok := o.Options[v]; !ok {\n"), ("adapter/config/intoptions.go", "	o.Value = v\n	return nil\n", "	return nil\n")],
 needs="an integer which is not listed",
 breaks="the value is changed although the option is refused",
 demo='''
package config

import "testing"

func TestDemo(t *testing.T) {
	o := &IntOptions{Options: map[int]struct{}{16: {}, 32: {}}, Value: 16}
	if err := o.Set("24"); err == nil || o.Value != 16 {
		t.Fatalf("24: %v, value %d", err, o.Value)
	}
	if err := o.Set("32"); err != nil || o.Value != 32 {
		t.Fatalf("32: %v, value %d", err, o.Value)
	}
}
'''),
dict(id="c27-token-prefix-logged", prop="C27", pkg="adapter/validator",
 edits=[(V, '	if res.StatusCode != http.StatusOK {\n		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr),', '	if res.StatusCode != http.StatusOK {\n		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr[:4]),')],
 needs="an opaque access token of fewer than four bytes which the userinfo endpoint refuses",
 breaks="the adapter panics",
 demo='''
package validator

import (
	"crypto"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(401) }))
	defer srv.Close()
	for _, tok := range []string{"opaque-token", "abcd", "x"} {
		if err := (&OidcTokenValidator{}).Validate(tok, Access, demoKeys{}, nil, srv.URL); err == nil {
			t.Fatal("accepted ", tok)
		}
	}
}

type demoKeys struct{}

func (demoKeys) PublicKeyURL() string                  { return "" }
func (demoKeys) PublicKey(kid string) crypto.PublicKey { return nil }
'''),
]
