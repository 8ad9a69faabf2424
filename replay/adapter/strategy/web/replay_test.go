package webstrategy

import (
	"crypto"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"

	"go.uber.org/zap"
	"time"

	"github.com/gogo/googleapis/google/rpc"
	"github.com/gogo/protobuf/types"
	"github.com/gorilla/securecookie"
	"gopkg.in/mgo.v2/bson"
	policy "istio.io/api/policy/v1beta1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	k8sfake "k8s.io/client-go/kubernetes/fake"
	k8stesting "k8s.io/client-go/testing"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	oerr "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/tests/fake"
)

func rpRand() *rand.Rand {
	zap.ReplaceGlobals(zap.NewNop())
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func rpN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return 4 * quick
}

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

// ---- a world of scripted collaborators ----

type rpClient struct {
	id, name, scope string
	server          *fake.AuthServer
	exchanged       []string
	refreshed       []string
	res             *authserver.TokenResponse
	err             error
	world           *rpWorld
}

func (c *rpClient) Name() string   { return c.name }
func (c *rpClient) ID() string     { return c.id }
func (c *rpClient) Secret() string { return "secret" }
func (c *rpClient) Scope() string  { return c.scope }
func (c *rpClient) AuthorizationServer() authserver.AuthorizationServerService {
	return c.server
}
func (c *rpClient) answer() (*authserver.TokenResponse, error) {
	if c.err != nil {
		return nil, c.err
	}
	r := *c.res
	return &r, nil
}
func (c *rpClient) ExchangeGrantCode(code string, redirectURI string) (*authserver.TokenResponse, error) {
	c.exchanged = append(c.exchanged, code+" "+redirectURI)
	return c.answer()
}
func (c *rpClient) RefreshToken(refreshToken string) (*authserver.TokenResponse, error) {
	c.refreshed = append(c.refreshed, refreshToken)
	return c.answer()
}

type rpCall struct {
	token string
	kind  validator.Token
	ks    keyset.KeySet
	rules []v1.Rule
	info  string
}

type rpWorld struct {
	verdict map[string]string // "access_token x" -> ok, expired, bad
	calls   []rpCall
}

func (w *rpWorld) Validate(token string, kind validator.Token, ks keyset.KeySet, rules []v1.Rule, info string) *oerr.OAuthError {
	w.calls = append(w.calls, rpCall{token, kind, ks, rules, info})
	switch w.verdict[kind.String()+" "+token] {
	case "ok":
		return nil
	case "expired":
		return oerr.ExpiredTokenError()
	}
	return &oerr.OAuthError{Code: oerr.InvalidToken, Msg: "bad token"}
}

func (w *rpWorld) ok(kind validator.Token, token string) bool {
	return w.verdict[kind.String()+" "+token] == "ok"
}

// validated: token was found valid as this kind under what this policy is configured with.
func (w *rpWorld) validated(token string, kind validator.Token, a *engine.Action) bool {
	s := a.Client.(*rpClient).server
	for _, c := range w.calls {
		if c.token == token && c.kind == kind && c.ks == s.Keys && c.info == s.UserInfoURL && reflect.DeepEqual(c.rules, a.Rules) && w.ok(kind, token) {
			return true
		}
	}
	return false
}

var rpHash, rpBlock = []byte("0123456789abcdef0123456789abcdef"), []byte("fedcba9876543210")

func rpSecret(hash, block []byte) *corev1.Secret {
	return &corev1.Secret{
		ObjectMeta: metav1.ObjectMeta{Name: defaultKeySecret, Namespace: defaultNamespace},
		Data:       map[string][]byte{hashKey: hash, blockKey: block},
	}
}

func rpStrategy(w *rpWorld) *WebStrategy {
	s := New(config.NewConfig(), k8sfake.NewSimpleClientset(rpSecret(rpHash, rpBlock))).(*WebStrategy)
	s.tokenUtil = w
	return s
}

func rpClientOf(id string) *rpClient {
	s := fake.NewAuthServer()
	s.AuthEndpoint = "https://auth.com/" + id + "/authorization"
	s.UserInfoURL = "https://auth.com/" + id + "/userinfo"
	s.Keys = &rpKeySet{id}
	return &rpClient{id: id, name: "name of " + id, scope: "openid profile", server: s}
}

type rpKeySet struct{ url string }

func (k *rpKeySet) PublicKeyURL() string                  { return k.url }
func (k *rpKeySet) PublicKey(kid string) crypto.PublicKey { return nil }

func rpRequest(path, cookies string) *authnz.HandleAuthnZRequest {
	return &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Request: &authnz.RequestMsg{
			Scheme: "https", Host: "shop.example:8443", Path: path,
			Headers: &authnz.HeadersMsg{Cookies: cookies},
			Params:  &authnz.QueryParamsMsg{},
		},
		Target: &authnz.TargetMsg{Service: "service", Namespace: "namespace", Path: path, Method: "GET"},
	}}
}

type rpStore map[string]authserver.TokenResponse

func rpSessions(s *WebStrategy) rpStore {
	m := rpStore{}
	s.tokenCache.Range(func(k, v interface{}) bool {
		m[k.(string)] = *v.(*authserver.TokenResponse)
		return true
	})
	return m
}

func rpDirect(r *authnz.HandleAuthnZResponse) *policy.DirectHttpResponse {
	if r == nil {
		return nil
	}
	for _, d := range r.Result.Status.Details {
		p := &policy.DirectHttpResponse{}
		if types.UnmarshalAny(d, p) == nil {
			return p
		}
	}
	return nil
}

func rpPassed(r *authnz.HandleAuthnZResponse) bool {
	return r != nil && r.Result.Status.Code == int32(rpc.OK)
}

func rpCookie(r *authnz.HandleAuthnZResponse) *http.Cookie {
	if d := rpDirect(r); d != nil && d.Headers["Set-Cookie"] != "" {
		return rpParse(d.Headers["Set-Cookie"])
	}
	return nil
}

func rpParse(line string) *http.Cookie {
	if cs := (&http.Response{Header: http.Header{"Set-Cookie": {line}}}).Cookies(); len(cs) == 1 {
		return cs[0]
	}
	return nil
}

// rpState reads a state cookie with the cluster keys.
func rpState(c *http.Cookie, hash, block []byte) *OidcCookie {
	if c == nil {
		return nil
	}
	raw := []byte{}
	if securecookie.New(hash, block).Decode(c.Name, c.Value, &raw) != nil {
		return nil
	}
	o := OidcCookie{}
	if bson.Unmarshal(raw, &o) != nil {
		return nil
	}
	return &o
}

func rpSeal(name string, o *OidcCookie, hash, block []byte) string {
	raw, err := bson.Marshal(o)
	if err != nil {
		panic(err)
	}
	v, err := securecookie.New(hash, block).Encode(name, raw)
	if err != nil {
		panic(err)
	}
	return v
}

// rpLogin: what is wrong with r as a redirect to log in; "" if nothing is.
func rpLogin(r *authnz.HandleAuthnZResponse, err error, req *authnz.HandleAuthnZRequest, c *rpClient) string {
	if err != nil {
		return "error " + err.Error()
	}
	d := rpDirect(r)
	if d == nil || d.Code != policy.Found || r.Result.Status.Code != int32(rpc.UNAUTHENTICATED) {
		return fmt.Sprintf("answer %+v", r)
	}
	u, err := url.Parse(d.Headers["location"])
	if err != nil {
		return "location " + d.Headers["location"]
	}
	e, _ := url.Parse(c.server.AuthEndpoint)
	if u.Scheme != e.Scheme || u.Host != e.Host || u.Path != e.Path {
		return "location " + d.Headers["location"]
	}
	m := req.Instance.Request
	self := m.Scheme + "://" + m.Host + m.Path
	if !strings.HasSuffix(self, "/oidc/callback") {
		self += "/oidc/callback"
	}
	want := e.Query()
	for k, v := range map[string]string{"client_id": c.id, "response_type": "code", "redirect_uri": self, "scope": c.scope} {
		want[k] = append(want[k], v)
	}
	got := u.Query()
	st := got["state"]
	delete(got, "state")
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("query %v, want %v and a state", got, want)
	}
	ck := rpCookie(r)
	if ck == nil || ck.Name != "oidc-cookie-"+c.id {
		return fmt.Sprintf("cookie %v", ck)
	}
	o := rpState(ck, rpHash, rpBlock)
	if o == nil || len(st) != 1 || st[0] == "" || o.Value != st[0] {
		return fmt.Sprintf("state %v, in the cookie %+v", st, o)
	}
	if left := time.Until(o.Expiration); left < 58*time.Minute || left > 61*time.Minute {
		return fmt.Sprintf("state expires in %v", left)
	}
	return ""
}

func rpTokens(r *rand.Rand, w *rpWorld, label string) *authserver.TokenResponse {
	verdict := func() string { return []string{"ok", "ok", "ok", "expired", "bad"}[r.Intn(5)] }
	t := &authserver.TokenResponse{AccessToken: "acc" + label, IdentityToken: "id" + label, RefreshToken: "ref" + label, ExpiresIn: r.Intn(100)}
	if r.Intn(4) == 0 {
		t.RefreshToken = ""
	}
	w.verdict["access_token "+t.AccessToken] = verdict()
	w.verdict["id_token "+t.IdentityToken] = verdict()
	switch r.Intn(16) { // a missing token is never valid
	case 0:
		t.IdentityToken = ""
	case 1:
		t.AccessToken = ""
	}
	if r.Intn(2) == 0 && t.IdentityToken != "" && t.AccessToken != "" { // the other way round it says nothing
		w.verdict["access_token "+t.IdentityToken] = verdict()
		w.verdict["id_token "+t.AccessToken] = verdict()
	}
	return t
}

func rpRules(r *rand.Rand) []v1.Rule {
	var rules []v1.Rule
	for n := r.Intn(3); n > 0; n-- {
		rules = append(rules, v1.Rule{Claim: "c" + strconv.Itoa(r.Intn(4)), Match: "ANY", Values: []string{"v"}, Source: []string{"", "id_token"}[r.Intn(2)]})
	}
	return rules
}

// rpVary: other schemes and hosts
func rpVary(r *rand.Rand, req *authnz.HandleAuthnZRequest) {
	m := req.Instance.Request
	m.Scheme = []string{"https", "https", "http"}[r.Intn(3)]
	m.Host = []string{"shop.example:8443", "shop.example", "shop.example:443", "shop.example:80", "SHOP.example", "10.0.0.1:8080", "[::1]:8443", "www.shop.example."}[r.Intn(8)]
}

func rpBase(r *rand.Rand) string {
	return []string{"/", "", "/api", "/a/b", "/oidc", "/oidc/callback/x", "/oidc/logout/x", "/a/oidc/callbac", "/api/", "/a//b", "/a/../b", "/A/b.html", "/a%20b", "/a?x=1&y=/z"}[r.Intn(14)]
}

// requests with and without sessions: C09, C12 and C14
func rpPlain(t *testing.T, prop string) {
	r := rpRand()
	n := rpN(3000, 100000)
	for i := 0; i < n; i++ {
		w := &rpWorld{verdict: map[string]string{}}
		s := rpStrategy(w)
		c, other := rpClientOf("id1"), rpClientOf("id2")
		if r.Intn(3) == 0 {
			c.server.AuthEndpoint += "?tenant=t%201&x=1"
		}
		a := &engine.Action{PathPolicy: v1.PathPolicy{Rules: rpRules(r)}, Client: c}
		sess := rpTokens(r, w, "S")
		oth := rpTokens(r, w, "O")
		s.tokenCache.Store("sid", sess)
		s.tokenCache.Store("oid", oth)
		fresh := rpTokens(r, w, "N")
		c.res, other.res = fresh, rpTokens(r, w, "X")
		if r.Intn(4) == 0 {
			c.err = errors.New("no tokens")
		}
		var cookies []string
		have := false
		if r.Intn(2) == 0 {
			cookies = append(cookies, "x=sid")
		}
		switch r.Intn(6) {
		case 0:
			cookies = append(cookies, "oidc-cookie-"+other.id+"=sid")
		case 1:
			cookies = append(cookies, "oidc-cookie-"+c.id+"=unknown")
		case 2:
			cookies = append(cookies, "oidc-cookie=sid")
		default:
			cookies = append(cookies, "oidc-cookie-"+c.id+"=sid")
			have = true
		}
		cookies = append(cookies, "oidc-cookie-"+other.id+"=oid")
		req := rpRequest(rpBase(r), strings.Join(cookies, "; "))
		for strings.HasSuffix(req.Instance.Request.Path, "/oidc/callback") || strings.HasSuffix(req.Instance.Request.Path, "/oidc/logout") {
			req.Instance.Request.Path = "/p"
		}
		rpVary(r, req)
		if r.Intn(4) == 0 {
			req.Instance.Request.Params = &authnz.QueryParamsMsg{Code: "code", State: "state", Error: "err"}
		}
		before := rpSessions(s)
		old := *sess
		res, err := s.HandleAuthnZRequest(req, a)
		after := rpSessions(s)
		what := fmt.Sprintf("case %d: cookies %q path %q verdicts %v session %+v new %+v (%v)", i, strings.Join(cookies, "; "), req.Instance.Request.Path, w.verdict, old, *fresh, c.err)
		va, vi := w.verdict["access_token "+old.AccessToken], w.verdict["id_token "+old.IdentityToken]
		direct := have && va == "ok" && vi == "ok"
		expired := have && !direct && (va == "expired" || vi == "expired")
		mixed := expired && (va != "expired" && va != "ok" || vi != "expired" && vi != "ok")
		renewed := c.err == nil && w.ok(validator.Access, fresh.AccessToken) && w.ok(validator.ID, fresh.IdentityToken)
		canPass := direct || expired && old.RefreshToken != "" && renewed
		if passed := rpPassed(res); passed && !canPass || !passed && canPass && !mixed {
			t.Fatalf("passed %v, should %v: %s: %+v %v", passed, canPass, what, res, err)
		}
		if len(c.exchanged) > 0 || len(other.refreshed)+len(other.exchanged) > 0 || len(c.refreshed) > 1 {
			t.Fatalf("token requests %v %v %v %v: %s", c.exchanged, c.refreshed, other.exchanged, other.refreshed, what)
		}
		if before["oid"] != after["oid"] {
			t.Fatalf("session of another client touched: %s", what)
		}
		if !rpPassed(res) {
			if msg := rpLogin(res, err, req, c); msg != "" {
				t.Fatalf("login redirect: %s: %s", msg, what)
			}
			if prop == "C09" && have && !expired {
				if _, ok := after["sid"]; ok {
					t.Fatalf("invalid session kept: %s", what)
				}
			}
			for k := range after {
				if _, ok := before[k]; !ok {
					t.Fatalf("new session %q on a request which did not pass: %s", k, what)
				}
			}
			if got, ok := after["sid"]; ok && (got.AccessToken != old.AccessToken || got.IdentityToken != old.IdentityToken) {
				t.Fatalf("session replaced by tokens which did not validate: %s", what)
			}
			continue
		}
		wantA, wantI := old.AccessToken, old.IdentityToken
		if !direct {
			wantA, wantI = "accN", "idN"
			if len(c.refreshed) != 1 || c.refreshed[0] != old.RefreshToken {
				t.Fatalf("refreshed with %v: %s", c.refreshed, what)
			}
			got := after["sid"]
			wantR := fresh.RefreshToken
			if wantR == "" {
				wantR = old.RefreshToken
			}
			if got.AccessToken != "accN" || got.IdentityToken != "idN" || got.RefreshToken != wantR {
				t.Fatalf("session after refresh %+v, refresh token should be %q: %s", got, wantR, what)
			}
			ck := rpParse(res.Output.SessionCookie)
			if ck == nil || ck.Name != "oidc-cookie-"+c.id || ck.Value != "sid" || time.Until(ck.Expires) < time.Hour {
				t.Fatalf("cookie after refresh %q: %s", res.Output.SessionCookie, what)
			}
		} else if len(c.refreshed) > 0 || after["sid"] != before["sid"] {
			t.Fatalf("valid session refreshed: %s", what)
		}
		if res.Output == nil || res.Output.Authorization != "Bearer "+wantA+" "+wantI {
			t.Fatalf("passed with %+v, want tokens %s %s: %s", res.Output, wantA, wantI, what)
		}
		if !w.validated(wantA, validator.Access, a) || !w.validated(wantI, validator.ID, a) {
			t.Fatalf("passed without validation: %+v: %s", w.calls, what)
		}
		for k := range after {
			if _, ok := before[k]; !ok {
				t.Fatalf("session %q appeared: %s", k, what)
			}
		}
	}
	rpStat(n)
}

func TestReplay_C09(t *testing.T) {
	rpPlain(t, "C09")
	s := rpStrategy(&rpWorld{verdict: map[string]string{}})
	res, err := s.HandleAuthnZRequest(rpRequest("/x", "oidc-cookie-id1=sid"), &engine.Action{})
	if rpPassed(res) || err == nil && res == nil {
		t.Fatalf("passed without client: %+v %v", res, err)
	}
}

func TestReplay_C12(t *testing.T) { rpPlain(t, "C12") }

func TestReplay_C14(t *testing.T) {
	rpPlain(t, "C14")
	// no usable state cookie: an error
	kube := k8sfake.NewSimpleClientset()
	rpFail(kube, "get", nil)
	rpFail(kube, "create", nil)
	s := New(config.NewConfig(), kube).(*WebStrategy)
	s.tokenUtil = &rpWorld{}
	for _, p := range []string{"/x", "/x/oidc/callback"} {
		res, err := s.HandleAuthnZRequest(rpRequest(p, ""), &engine.Action{Client: rpClientOf("id1")})
		if err == nil || rpPassed(res) {
			t.Fatalf("%s without keys: %+v %v", p, res, err)
		}
	}
}

func TestReplay_C10(t *testing.T) {
	r := rpRand()
	n := rpN(3000, 100000)
	ids := map[string]bool{}
	for i := 0; i < n; i++ {
		w := &rpWorld{verdict: map[string]string{}}
		s := rpStrategy(w)
		c := rpClientOf("id1")
		a := &engine.Action{PathPolicy: v1.PathPolicy{Rules: rpRules(r)}, Client: c}
		if r.Intn(3) == 0 {
			a.RedirectUri = "https://else.where/x?y=1"
		}
		s.tokenCache.Store("sid", rpTokens(r, w, "S"))
		fresh := rpTokens(r, w, "N")
		c.res = fresh
		if r.Intn(5) == 0 {
			c.err = errors.New("no tokens")
		}
		base := []string{"/api", "/", "", "/oidc/callback", "/a/oidc/logout", "/a//b"}[r.Intn(6)]
		req := rpRequest(base+"/oidc/callback", "")
		rpVary(r, req)
		o := &OidcCookie{Value: "the-state", Expiration: time.Now().Add(time.Hour)}
		req.Instance.Request.Params = &authnz.QueryParamsMsg{Code: "the code", State: "the-state"}
		stateOK := true
		switch r.Intn(8) {
		case 0:
			req.Instance.Request.Params.State = "other"
			stateOK = false
		case 1:
			req.Instance.Request.Params.State = ""
			stateOK = false
		case 2:
			o.Expiration = time.Now().Add(-time.Minute)
			stateOK = false
		}
		req.Instance.Request.Headers.Cookies = "oidc-cookie-id1=" + rpSeal("oidc-cookie-id1", o, rpHash, rpBlock)
		if r.Intn(10) == 0 {
			req.Instance.Request.Headers.Cookies = "oidc-cookie-id1=sid"
			stateOK = false
		}
		errParam, noCode := false, false
		switch r.Intn(8) {
		case 0:
			req.Instance.Request.Params.Error = "access_denied"
			errParam = true
		case 1:
			req.Instance.Request.Params.Code = ""
			noCode = true
		case 2:
			req.Instance.Request.Params.Error, req.Instance.Request.Params.Code = "access_denied", ""
			errParam = true
		}
		before := rpSessions(s)
		res, err := s.HandleAuthnZRequest(req, a)
		after := rpSessions(s)
		what := fmt.Sprintf("case %d: path %q params %+v state ok %v verdicts %v (%v)", i, req.Instance.Request.Path, req.Instance.Request.Params, stateOK, w.verdict, c.err)
		if rpPassed(res) {
			t.Fatalf("callback passed to the service: %s", what)
		}
		good := !errParam && !noCode && stateOK && c.err == nil && w.ok(validator.Access, fresh.AccessToken) && w.ok(validator.ID, fresh.IdentityToken)
		if !good {
			if !reflect.DeepEqual(before, after) {
				t.Fatalf("store changed from %v to %v: %s", before, after, what)
			}
			if noCode && !errParam {
				if msg := rpLogin(res, err, req, c); msg != "" {
					t.Fatalf("missing code: %s: %s", msg, what)
				}
			} else if ck := rpCookie(res); ck != nil {
				t.Fatalf("cookie %v: %s", ck, what)
			}
			if err == nil && (res == nil || res.Result.Status.Code != int32(rpc.UNAUTHENTICATED)) {
				t.Fatalf("answer %+v: %s", res, what)
			}
			if (errParam || noCode || !stateOK) && len(c.exchanged) > 0 {
				t.Fatalf("code exchanged: %s", what)
			}
			continue
		}
		if err != nil {
			t.Fatalf("error %v: %s", err, what)
		}
		self := req.Instance.Request.Scheme + "://" + req.Instance.Request.Host + req.Instance.Request.Path
		if len(c.exchanged) != 1 || c.exchanged[0] != "the code "+self {
			t.Fatalf("exchanged %q: %s", c.exchanged, what)
		}
		if !w.validated("accN", validator.Access, a) || !w.validated("idN", validator.ID, a) {
			t.Fatalf("session without validation %+v: %s", w.calls, what)
		}
		ck := rpCookie(res)
		if ck == nil || ck.Name != "oidc-cookie-id1" || ck.Value == "" || ids[ck.Value] || ck.Value == "sid" || time.Until(ck.Expires) < time.Hour {
			t.Fatalf("session cookie %v: %s", ck, what)
		}
		ids[ck.Value] = true
		want := rpStore{"sid": before["sid"], ck.Value: *fresh}
		if !reflect.DeepEqual(after, want) {
			t.Fatalf("store %v, want %v: %s", after, want, what)
		}
		loc := strings.TrimSuffix(self, "/oidc/callback")
		if a.RedirectUri != "" {
			loc = a.RedirectUri
		}
		if d := rpDirect(res); d.Code != policy.Found || d.Headers["location"] != loc {
			t.Fatalf("redirect %+v, want %s: %s", d, loc, what)
		}
	}
	rpStat(n)
}

func TestReplay_C11(t *testing.T) {
	w := &rpWorld{verdict: map[string]string{"access_token accN": "ok", "id_token idN": "ok"}}
	s := rpStrategy(w)
	name := "oidc-cookie-id1"
	now := time.Now()
	seal := func(n, v string, at time.Time) string {
		return rpSeal(n, &OidcCookie{Value: v, Expiration: at}, rpHash, rpBlock)
	}
	good := seal(name, "st", now.Add(time.Minute))
	type tc struct {
		what, cookies, state string
		want                 bool
	}
	raw, _ := bson.Marshal(&OidcCookie{Value: "st", Expiration: now.Add(time.Hour)})
	hashOnly, _ := securecookie.New(rpHash, nil).Encode(name, raw)
	cases := []tc{
		{"good", name + "=" + good, "st", true},
		{"good among others", "a=b; " + name + "=" + good + "; c=d", "st", true},
		{"other state", name + "=" + good, "sT", false},
		{"prefix of the state", name + "=" + good, "s", false},
		{"longer state", name + "=" + good, "st ", false},
		{"no state", name + "=" + good, "", false},
		{"no cookie", "", "st", false},
		{"empty cookie", name + "=", "st", false},
		{"plain cookie", name + "=st", "st", false},
		{"cookie of another client", "oidc-cookie-id2=" + seal("oidc-cookie-id2", "st", now.Add(time.Hour)), "st", false},
		{"sealed for another client", name + "=" + seal("oidc-cookie-id2", "st", now.Add(time.Hour)), "st", false},
		{"sealed for this client in another cookie", "oidc-cookie-id2=" + good, "st", false},
		{"expired", name + "=" + seal(name, "st", now.Add(-time.Minute)), "st", false},
		{"expired seconds ago", name + "=" + seal(name, "st", now.Add(-2*time.Second)), "st", false},
		{"expired this minute", name + "=" + seal(name, "st", now.Add(-20*time.Second)), "st", false},
		{"expired some minutes ago", name + "=" + seal(name, "st", now.Add(-4*time.Minute)), "st", false},
		{"expired this hour", name + "=" + seal(name, "st", now.Add(-50*time.Minute)), "st", false},
		{"state in other case", name + "=" + seal(name, "St", now.Add(time.Minute)), "sT", false},
		{"expired long ago", name + "=" + seal(name, "st", now.Add(-100*time.Hour)), "st", false},
		{"without expiry", name + "=" + seal(name, "st", time.Time{}), "st", false},
		{"empty value", name + "=" + seal(name, "", now.Add(time.Hour)), "", false},
		{"empty value, some state", name + "=" + seal(name, "", now.Add(time.Hour)), "st", false},
		{"foreign keys", name + "=" + rpSeal(name, &OidcCookie{Value: "st", Expiration: now.Add(time.Hour)}, []byte("x123456789abcdef0123456789abcdef"), rpBlock), "st", false},
		{"foreign block key", name + "=" + rpSeal(name, &OidcCookie{Value: "st", Expiration: now.Add(time.Hour)}, rpHash, []byte("xedcba9876543210")), "st", false},
		{"not encrypted", name + "=" + hashOnly, "st", false},
	}
	r := rpRand()
	for i := 0; i < rpN(300, 5000); i++ {
		b := []byte(good)
		k := r.Intn(len(b) - 4)
		c := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"[r.Intn(64)]
		if b[k] == c {
			continue
		}
		b[k] = c
		cases = append(cases, tc{fmt.Sprintf("byte %d changed to %c", k, c), name + "=" + string(b), "st", false})
	}
	for _, tc := range cases {
		c := rpClientOf("id1")
		c.res = &authserver.TokenResponse{AccessToken: "accN", IdentityToken: "idN"}
		req := rpRequest("/x/oidc/callback", tc.cookies)
		req.Instance.Request.Params = &authnz.QueryParamsMsg{Code: "code", State: tc.state}
		before := len(rpSessions(s))
		res, err := s.HandleAuthnZRequest(req, &engine.Action{Client: c})
		accepted := len(c.exchanged) > 0
		if accepted != tc.want || (len(rpSessions(s)) > before) != tc.want || (rpCookie(res) != nil) != tc.want {
			t.Errorf("%s: cookies %q state %q: accepted %v, want %v (%+v %v)", tc.what, tc.cookies, tc.state, accepted, tc.want, res, err)
		}
	}
	rpStat(len(cases))
}

func TestReplay_C13(t *testing.T) {
	r := rpRand()
	n := rpN(2000, 50000)
	for i := 0; i < n; i++ {
		w := &rpWorld{verdict: map[string]string{}}
		s := rpStrategy(w)
		c := rpClientOf("id1")
		a := &engine.Action{PathPolicy: v1.PathPolicy{Rules: rpRules(r), RedirectUri: []string{"", "https://else.where"}[r.Intn(2)]}, Client: c}
		for _, k := range []string{"sid", "s2", "s3", "deleted", "oidc-cookie-id1"} {
			s.tokenCache.Store(k, rpTokens(r, w, k))
		}
		c.res = rpTokens(r, w, "N")
		var cookies []string
		gone := ""
		if r.Intn(2) == 0 {
			cookies = append(cookies, "oidc-cookie-id2=s2")
		}
		switch r.Intn(4) {
		case 0:
			cookies = append(cookies, "oidc-cookie-id1=unknown")
		case 1:
		default:
			gone = []string{"sid", "s3"}[r.Intn(2)]
			cookies = append(cookies, "oidc-cookie-id1="+gone)
		}
		if r.Intn(2) == 0 { // other clients with similar ids
			for _, n := range []string{"oidc-cookie-id11", "oidc-cookie-id", "oidc-cookie-ID1", "xoidc-cookie-id1", "oidc-cookie-id1-2"} {
				cookies = append(cookies, n+"=s2")
			}
			r.Shuffle(len(cookies), func(a, b int) { cookies[a], cookies[b] = cookies[b], cookies[a] })
		}
		cookies = append(cookies, "z=s2")
		req := rpRequest(rpBase(r)+"/oidc/logout", strings.Join(cookies, "; "))
		if r.Intn(3) == 0 {
			req.Instance.Request.Params = &authnz.QueryParamsMsg{Code: "c", State: "s", Error: []string{"", "e"}[r.Intn(2)]}
		}
		before := rpSessions(s)
		res, err := s.HandleAuthnZRequest(req, a)
		after := rpSessions(s)
		delete(before, gone)
		what := fmt.Sprintf("case %d: path %q cookies %q", i, req.Instance.Request.Path, strings.Join(cookies, "; "))
		if !reflect.DeepEqual(before, after) {
			t.Fatalf("sessions %v, want %v: %s", after, before, what)
		}
		d, ck := rpDirect(res), rpCookie(res)
		if err != nil || rpPassed(res) || d == nil || d.Code != policy.Found {
			t.Fatalf("answer %+v %v: %s", res, err, what)
		}
		if _, ok := d.Headers["location"]; !ok {
			t.Fatalf("no location: %s", what)
		}
		if ck == nil || ck.Name != "oidc-cookie-id1" || !(ck.MaxAge < 0 || !ck.Expires.IsZero() && ck.Expires.Before(time.Now())) {
			t.Fatalf("cookie %v: %s", ck, what)
		}
		if ck.Path != "/" {
			t.Fatalf("cookie for %q only: %s", ck.Path, what)
		}
		if len(c.exchanged)+len(c.refreshed) > 0 {
			t.Fatalf("tokens requested: %s", what)
		}
	}
	rpStat(n)
}

func rpFail(kube *k8sfake.Clientset, verb string, until *int) {
	kube.PrependReactor(verb, "secrets", func(k8stesting.Action) (bool, runtime.Object, error) {
		if until == nil {
			return true, nil, errors.New("cluster unavailable")
		}
		if *until > 0 {
			*until--
			return true, nil, errors.New("cluster unavailable")
		}
		return false, nil, nil
	})
}

func TestReplay_C15(t *testing.T) {
	login := func(s *WebStrategy) (*http.Cookie, error) {
		s.tokenUtil = &rpWorld{}
		res, err := s.HandleAuthnZRequest(rpRequest("/x", ""), &engine.Action{Client: rpClientOf("id1")})
		return rpCookie(res), err
	}
	accepts := func(s *WebStrategy, hash, block []byte) bool {
		c := rpClientOf("id1")
		c.err = errors.New("none")
		v := rpSeal("oidc-cookie-id1", &OidcCookie{Value: "st", Expiration: time.Now().Add(time.Hour)}, hash, block)
		req := rpRequest("/x/oidc/callback", "oidc-cookie-id1="+v)
		req.Instance.Request.Params = &authnz.QueryParamsMsg{Code: "code", State: "st"}
		_, _ = s.HandleAuthnZRequest(req, &engine.Action{Client: c})
		return len(c.exchanged) > 0
	}
	sealed := func(ck *http.Cookie, err error, hash, block []byte) string {
		o := rpState(ck, hash, block)
		if err != nil || o == nil {
			return fmt.Sprintf("cookie %v (%v) is not sealed with the cluster keys", ck, err)
		}
		if left := time.Until(o.Expiration); left < 58*time.Minute || left > 61*time.Minute {
			return fmt.Sprintf("expires in %v", left)
		}
		return ""
	}
	n := 0
	long := []byte("0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef")
	for _, hash := range [][]byte{rpHash, long} {
		for _, block := range [][]byte{rpBlock, long[:24], long[:32]} {
			for fails := 0; fails < 3; fails++ {
				f := 0
				kube := k8sfake.NewSimpleClientset(rpSecret(hash, block))
				rpFail(kube, "get", &f)
				f = fails
				s := New(config.NewConfig(), kube).(*WebStrategy)
				for k := 0; k < 2; k++ {
					ck, err := login(s)
					if msg := sealed(ck, err, hash, block); msg != "" {
						t.Errorf("keys of %d and %d bytes, %d failures: %s", len(hash), len(block), fails, msg)
					}
					n++
					if !accepts(s, hash, block) || accepts(s, append([]byte("x"), hash[1:]...), block) {
						t.Errorf("keys of %d and %d bytes, %d failures: wrong cookies accepted", len(hash), len(block), fails)
					}
					// what the cluster has now does not matter any more
					_ = kube.CoreV1().Secrets(defaultNamespace).Delete(defaultKeySecret, nil)
				}
			}
		}
	}
	// no secret: one is created with the configured sizes, and used
	for _, size := range [][2]int{{32, 16}, {64, 24}, {64, 32}, {32, 24}} {
		for fails := 0; fails < 3; fails++ {
			cfg := config.NewConfig()
			cfg.HashKeySize.Value, cfg.BlockKeySize.Value = size[0], size[1]
			f := 0
			kube := k8sfake.NewSimpleClientset()
			rpFail(kube, "create", &f)
			f = fails
			s := New(cfg, kube).(*WebStrategy)
			sec, err := kube.CoreV1().Secrets(defaultNamespace).Get(defaultKeySecret, metav1.GetOptions{})
			if err != nil {
				t.Errorf("sizes %v, %d failures: secret not created: %v", size, fails, err)
				continue
			}
			hash, block := sec.Data[hashKey], sec.Data[blockKey]
			if len(hash) != size[0] || len(block) != size[1] {
				t.Errorf("sizes %v: created keys of %d and %d bytes", size, len(hash), len(block))
				continue
			}
			ck, err := login(s)
			if msg := sealed(ck, err, hash, block); msg != "" || !accepts(s, hash, block) {
				t.Errorf("sizes %v: %s", size, msg)
			}
			// another adapter finds the same keys
			s2 := New(cfg, kube).(*WebStrategy)
			ck, err = login(s2)
			if msg := sealed(ck, err, hash, block); msg != "" || !accepts(s2, hash, block) {
				t.Errorf("sizes %v: second adapter: %s", size, msg)
			}
			n++
		}
	}
	// neither read nor created: nothing is produced or accepted, and later it recovers
	f, g := 0, 0
	kube := k8sfake.NewSimpleClientset(rpSecret(rpHash, rpBlock))
	rpFail(kube, "get", &f)
	rpFail(kube, "create", &g)
	f, g = 1000, 1000
	s := New(config.NewConfig(), kube).(*WebStrategy)
	for k := 0; k < 3; k++ {
		if ck, err := login(s); ck != nil || err == nil {
			t.Errorf("without keys: cookie %v (%v)", ck, err)
		}
		if accepts(s, rpHash, rpBlock) || accepts(s, long, rpBlock) {
			t.Errorf("without keys: cookie accepted")
		}
		n++
	}
	f, g = 0, 0
	ck, err := login(s)
	if msg := sealed(ck, err, rpHash, rpBlock); msg != "" || !accepts(s, rpHash, rpBlock) {
		t.Errorf("after the cluster is back: %s", msg)
	}
	// two first uses at the same time: the second waits and finds what the first has read
	kube = k8sfake.NewSimpleClientset()
	off := 100
	rpFail(kube, "create", &off)
	s = New(config.NewConfig(), kube).(*WebStrategy)
	s.tokenUtil = &rpWorld{}
	reads, inside := 0, make(chan bool, 10)
	keys := [][]byte{rpHash, long[:32]}
	kube.PrependReactor("get", "secrets", func(k8stesting.Action) (bool, runtime.Object, error) {
		k := keys[reads%2]
		reads++
		inside <- true
		time.Sleep(200 * time.Millisecond)
		return true, rpSecret(k, rpBlock), nil
	})
	var wg sync.WaitGroup
	out := make([]*http.Cookie, 2)
	for k := range out {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			res, _ := s.HandleAuthnZRequest(rpRequest("/x", ""), &engine.Action{Client: rpClientOf("id1")})
			out[k] = rpCookie(res)
		}(k)
		if k == 0 {
			<-inside
		}
	}
	wg.Wait()
	for k, ck := range out {
		if msg := sealed(ck, nil, rpHash, rpBlock); msg != "" {
			t.Errorf("cookie %d of two first uses: %s", k, msg)
		}
		n++
	}
	rpStat(n)
}

// any content of a request and of the answers: no panic
func TestReplay_C27(t *testing.T) {
	r := rpRand()
	pick := func(xs ...string) string { return xs[r.Intn(len(xs))] }
	n := rpN(5000, 200000)
	for i := 0; i < n; i++ {
		w := &rpWorld{verdict: map[string]string{}}
		s := rpStrategy(w)
		c := rpClientOf(pick("id1", "", "a b", "x;y", "é"))
		c.server.AuthEndpoint = pick("", "://", "https://a", "https://a/?x=%zz", "%zz", "http://[::1", c.server.AuthEndpoint)
		s.tokenCache.Store("sid", rpTokens(r, w, "S"))
		c.res = rpTokens(r, w, "N")
		if r.Intn(4) == 0 {
			c.err = errors.New("")
		}
		st := rpSeal("oidc-cookie-"+c.id, &OidcCookie{Value: "st", Expiration: time.Now().Add(time.Hour)}, rpHash, rpBlock)
		req := rpRequest(pick("", "/", "/oidc/callback", "/oidc/logout", "oidc/logout", "/x", "\x00", "/oidc/logout/oidc/logout", "/oidc/callback/oidc/callback"),
			pick("", ";", "=", "oidc-cookie-"+c.id, "oidc-cookie-"+c.id+"=", "oidc-cookie-"+c.id+"=sid", "oidc-cookie-"+c.id+"="+st, "oidc-cookie-"+c.id+"=\"sid\"", "\x00=\x01; a=b;;"))
		m := req.Instance.Request
		m.Scheme, m.Host = pick("", "https", ":"), pick("", "h", "[", "%zz")
		m.Params = &authnz.QueryParamsMsg{Code: pick("", "c"), Error: pick("", "", "e"), State: pick("", "st", "x")}
		what := fmt.Sprintf("case %d: %+v", i, req)
		func() {
			defer func() {
				if p := recover(); p != nil {
					t.Fatalf("panic %v: %s", p, what)
				}
			}()
			res, err := s.HandleAuthnZRequest(req, &engine.Action{PathPolicy: v1.PathPolicy{Rules: rpRules(r)}, Client: c})
			if res == nil && err == nil {
				t.Fatalf("neither answer nor error: %s", what)
			}
		}()
	}
	rpStat(n)
}
