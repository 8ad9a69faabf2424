SEEDS = [
dict(id="c06-false-in-array", prop="C06", pkg="adapter/validator",
 edits=[("adapter/validator/validator.go", "			case bool:\n				m[strconv.FormatBool(s2)] = struct{}{}\n", "			case bool:\n				if s2 {\n					m[strconv.FormatBool(s2)] = struct{}{}\n				}\n")],
 needs="an array claim with the element false and a rule about the value 'false'",
 breaks="a NOT rule for 'false' accepts a token whose array claim contains false",
 demo='''
package validator

import (
	"testing"

	"github.com/dgrijalva/jwt-go/v4"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
)

func TestDemo(t *testing.T) {
	claims := jwt.MapClaims{"flags": []interface{}{true, false}}
	for _, v := range []string{"true", "false"} {
		if err := checkAccessPolicy(v1.Rule{Claim: "flags", Match: "NOT", Values: []string{v}}, claims); err == nil {
			t.Fatalf("NOT %s holds for [true, false]", v)
		}
	}
}
'''),
dict(id="c20-short-exponent", prop="C20", pkg="adapter/authserver/keyset",
 edits=[("adapter/authserver/keyset/key.go", "copy(ndata[4-len(data):], data)", "copy(ndata[1:], data)")],
 needs="a JWK whose public exponent is shorter than three bytes, such as 3 ('Aw')",
 breaks="the decoded key has the exponent 3<<16 instead of 3",
 demo='''
package keyset

import (
	"crypto/rsa"
	"testing"
)

func TestDemo(t *testing.T) {
	for e, want := range map[string]int{"AQAB": 65537, "Aw": 3, "EQ": 17, "AQE": 257} {
		k := &key{Kty: "RSA", N: "ALePj2tZTsUDtGlB", E: e}
		p, err := k.decodePublicKey()
		if err != nil {
			t.Fatal(err)
		}
		if got := p.(*rsa.PublicKey).E; got != want {
			t.Fatalf("exponent %s: %d, want %d", e, got, want)
		}
	}
}
'''),
dict(id="c22-basic-without-secret", prop="C22", pkg="adapter/authserver",
 edits=[("adapter/authserver/authserver.go", "	if authnMethod != clientPostSecret {\n", "	if authnMethod != clientPostSecret && clientSecret != \"\" {\n")],
 needs="a client with an empty secret and basic authentication",
 breaks="the token request of a public client carries no client identification at all",
 demo='''
package authserver

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/networking"
)

func TestDemo(t *testing.T) {
	for _, secret := range []string{"secret", ""} {
		var user, pass string
		var ok bool
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			user, pass, ok = r.BasicAuth()
			_, _ = w.Write([]byte(`{"access_token":"a"}`))
		}))
		s := &RemoteService{httpclient: networking.New(), initialized: true, DiscoveryConfig: DiscoveryConfig{TokenURL: srv.URL}}
		_, err := s.GetTokens("client_secret_basic", "me", secret, "code", "uri", "")
		srv.Close()
		if err != nil || !ok || user != "me" || pass != secret {
			t.Fatalf("secret %q: basic authentication %v %q %q, %v", secret, ok, user, pass, err)
		}
	}
}
'''),
dict(id="c21-discovery-any-2xx", prop="C21", pkg="adapter/authserver",
 edits=[("adapter/authserver/authserver.go", "	if res, err := s.httpclient.Do(req, config, oa2Err); err != nil {\n		zap.L().Debug(\"Could not sync discovery endpoint\", zap.String(\"url\", s.discoveryURL), zap.Error(err))\n		return nil, err\n	} else if res.StatusCode != http.StatusOK {", "	if res, err := s.httpclient.Do(req, config, oa2Err); err != nil {\n		zap.L().Debug(\"Could not sync discovery endpoint\", zap.String(\"url\", s.discoveryURL), zap.Error(err))\n		return nil, err\n	} else if res.StatusCode >= http.StatusMultipleChoices {")],
 needs="a discovery answer with a success status other than 200, such as 203 from a transforming proxy",
 breaks="endpoints are taken from a response whose status is not 200",
 demo='''
package authserver

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/networking"
)

func TestDemo(t *testing.T) {
	for _, code := range []int{200, 203} {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(code)
			_, _ = w.Write([]byte(`{"issuer":"i","jwks_uri":"j","authorization_endpoint":"a","token_endpoint":"t","userinfo_endpoint":"u"}`))
		}))
		s := &RemoteService{httpclient: networking.New(), discoveryURL: srv.URL}
		err := s.initialize()
		srv.Close()
		if (err == nil) != (code == 200) || s.initialized != (code == 200) {
			t.Fatalf("status %d: %v, initialized %v", code, err, s.initialized)
		}
	}
}
'''),
dict(id="c23-retry-drops-result", prop="C23", pkg="adapter/networking",
 edits=[("adapter/networking/networking.go", "		if attempts > 0 {\n", "		if attempts >= 0 {\n")],
 needs="a call which keeps failing until the attempts are used up",
 breaks="the call is made once more often than the given number of attempts",
 demo='''
package networking

import (
	"errors"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 1; n < 5; n++ {
		calls := 0
		_, err := Retry(n, 0, func() (interface{}, error) { calls++; return nil, errors.New("no") })
		if err == nil || calls != n {
			t.Fatalf("%d attempts: %d calls, %v", n, calls, err)
		}
	}
}
'''),
dict(id="c23-decode-299", prop="C23", pkg="adapter/networking",
 edits=[("adapter/networking/networking.go", "200 <= code && code <= 299", "200 <= code && code < 299")],
 needs="an answer with the last success status, 299",
 breaks="a 299 answer is decoded into the failure value, the success value stays empty",
 demo='''
package networking

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

type demoV struct{ V string }

func (*demoV) OK() error { return nil }

func TestDemo(t *testing.T) {
	for _, code := range []int{200, 250, 299, 300, 400} {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(code)
			_, _ = w.Write([]byte(`{"V":"x"}`))
		}))
		req, _ := http.NewRequest("GET", srv.URL, nil)
		a, b := new(demoV), new(demoV)
		_, err := New().Do(req, a, b)
		srv.Close()
		if err != nil || (a.V == "x") != (code < 300) || (b.V == "x") != (code >= 300) {
			t.Fatalf("status %d: %v %v %v", code, *a, *b, err)
		}
	}
}
'''),
]
