package apistrategy

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"go.uber.org/zap"

	"crypto"

	"github.com/gogo/googleapis/google/rpc"
	"github.com/gogo/protobuf/types"
	policy "istio.io/api/policy/v1beta1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	oerr "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

func rpRand() *rand.Rand {
	zap.ReplaceGlobals(zap.NewNop())
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func rpN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return 4 * quick
}

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

type rpKeySet struct{ url string }

func (k *rpKeySet) PublicKeyURL() string                  { return k.url }
func (k *rpKeySet) PublicKey(kid string) crypto.PublicKey { return nil }

type rpCall struct {
	token string
	kind  validator.Token
	ks    keyset.KeySet
	rules []v1.Rule
}

type rpValidator struct {
	verdict map[string]*oerr.OAuthError
	calls   []rpCall
}

func (v *rpValidator) Validate(token string, kind validator.Token, ks keyset.KeySet, rules []v1.Rule, info string) *oerr.OAuthError {
	v.calls = append(v.calls, rpCall{token, kind, ks, rules})
	e, known := v.verdict[kind.String()+" "+token]
	if !known {
		return &oerr.OAuthError{Code: oerr.InvalidToken, Msg: "unknown token", Scopes: []string{"unknown", "scope"}}
	}
	if e == nil {
		return nil
	}
	c := *e
	return &c
}

func (v *rpValidator) validated(token string, kind validator.Token, a *engine.Action) bool {
	for _, c := range v.calls {
		if c.token == token && c.kind == kind && c.ks == a.KeySet && reflect.DeepEqual(c.rules, a.Rules) {
			return true
		}
	}
	return false
}

func rpVerdict(r *rand.Rand) *oerr.OAuthError {
	switch r.Intn(9) {
	case 0:
		return &oerr.OAuthError{Code: oerr.InvalidToken, Msg: "m1", Scopes: []string{"s1", "s2"}}
	case 1:
		return &oerr.OAuthError{Code: oerr.InvalidRequest, Msg: "m2"}
	case 2:
		return &oerr.OAuthError{Code: oerr.InsufficientScope, Msg: "m3", Scopes: []string{"s3"}}
	case 3:
		return &oerr.OAuthError{Code: "other_code", Msg: "m4"}
	case 4:
		return &oerr.OAuthError{Msg: oerr.InternalServerError}
	}
	return nil
}

func rpStatus(code string) policy.HttpStatusCode {
	switch code {
	case "invalid_request":
		return 400
	case "invalid_token":
		return 401
	case "insufficient_scope":
		return 403
	}
	return 500
}

func rpRequest(auth string) *authnz.HandleAuthnZRequest {
	return &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Request: &authnz.RequestMsg{Scheme: "https", Host: "h", Path: "/p", Headers: &authnz.HeadersMsg{Authorization: auth}, Params: &authnz.QueryParamsMsg{}},
		Target:  &authnz.TargetMsg{Service: "s", Namespace: "n", Path: "/p", Method: "GET"},
	}}
}

func TestReplay_C04(t *testing.T) {
	r := rpRand()
	n := rpN(40000, 600000)
	for i := 0; i < n; i++ {
		v := &rpValidator{verdict: map[string]*oerr.OAuthError{}}
		s := New().(*APIStrategy)
		s.tokenUtil = v
		ks := &rpKeySet{"u"}
		a := &engine.Action{KeySet: ks}
		about := false
		for k := r.Intn(3); k > 0; k-- {
			src := []string{"", "access_token", "id_token", "id", "ID_TOKEN"}[r.Intn(5)]
			about = about || src == "id_token"
			a.Rules = append(a.Rules, v1.Rule{Claim: "c" + strconv.Itoa(k), Source: src, Values: []string{"v"}})
		}
		tokens := []string{"t1", "t2", "a.b.c", "Bearer"}
		for _, tk := range append(tokens, "") {
			for _, kind := range []string{"access_token", "id_token"} {
				if tk != "" && r.Intn(6) > 0 {
					v.verdict[kind+" "+tk] = rpVerdict(r)
				}
			}
		}
		pick := func() string { return tokens[r.Intn(len(tokens))] }
		word := []string{"Bearer", "bearer", "Bearer", "bearer", "BEARER", "Basic", "", " Bearer", "Bear", "Bearer:", "bearers"}[r.Intn(11)]
		okWord := word == "Bearer" || word == "bearer"
		access, id, parts := pick(), "", 2
		var header string
		switch r.Intn(8) {
		case 0:
			header, parts = word, 1
		case 1:
			header, parts = "", 0
		case 2:
			header, parts = word+access, 1
			okWord = false
		case 3:
			header, id, parts = word+" "+access+" "+"x "+pick(), "never", 4
		case 4, 5:
			id, parts = pick(), 3
			header = word + " " + access + " " + id
		default:
			header = word + " " + access
		}
		req := rpRequest(header)
		if r.Intn(4) == 0 {
			req.Instance.Request.Headers.Cookies = "oidc-cookie-x=y"
			req.Instance.Request.Params = &authnz.QueryParamsMsg{Code: "c"}
		}
		ok := func(kind, tk string) bool { e, known := v.verdict[kind+" "+tk]; return known && e == nil }
		want := okWord && (parts == 2 || parts == 3) && ok("access_token", access) && (parts == 2 && !about || parts == 3 && ok("id_token", id))
		res, err := s.HandleAuthnZRequest(req, a)
		what := fmt.Sprintf("case %d: header %q rules %v verdicts %v", i, header, a.Rules, v.verdict)
		if err != nil || res == nil {
			t.Fatalf("error %v: %s", err, what)
		}
		if passed := res.Result.Status.Code == int32(rpc.OK); passed != want {
			t.Fatalf("passed %v, want %v: %s", passed, want, what)
		}
		if want {
			if !v.validated(access, validator.Access, a) || parts == 3 && !v.validated(id, validator.ID, a) {
				t.Fatalf("passed after %+v: %s", v.calls, what)
			}
			continue
		}
		if res.Result.Status.Code != int32(rpc.UNAUTHENTICATED) {
			t.Fatalf("code %d: %s", res.Result.Status.Code, what)
		}
		var d *policy.DirectHttpResponse
		for _, x := range res.Result.Status.Details {
			p := &policy.DirectHttpResponse{}
			if types.UnmarshalAny(x, p) == nil {
				d = p
			}
		}
		if d == nil {
			t.Fatalf("no direct response: %s", what)
		}
		h := d.Headers["WWW-Authenticate"]
		if !strings.HasPrefix(h, "Bearer ") || !strings.Contains(h, "error_description=\"") {
			t.Fatalf("challenge %q: %s", h, what)
		}
		var e *oerr.OAuthError
		switch {
		case !okWord || parts < 2:
			e = &oerr.OAuthError{Code: "invalid_token"}
		case !ok("access_token", access):
			e = v.verdict["access_token "+access]
		case parts != 4:
			e = v.verdict["id_token "+id]
		}
		if e == nil {
			e = &oerr.OAuthError{Code: "invalid_token", Scopes: []string{"unknown", "scope"}}
		}
		if d.Code != rpStatus(e.Code) || e.Code != "" && !strings.Contains(h, "error=\""+e.Code+"\"") ||
			strings.Contains(h, "error=\"") != (e.Code != "") ||
			len(e.Scopes) > 0 && !strings.Contains(h, "scopes=\""+strings.Join(e.Scopes, " ")+"\"") ||
			strings.Contains(h, "scopes=\"") != (len(e.Scopes) > 0) {
			t.Fatalf("status %d challenge %q for error %+v: %s", d.Code, h, e, what)
		}
	}
	rpStat(n)
}

func TestReplay_C27(t *testing.T) {
	r := rpRand()
	n := rpN(20000, 400000)
	for i := 0; i < n; i++ {
		s := New()
		b := make([]byte, r.Intn(12))
		for k := range b {
			b[k] = "Bbearer .-_\x00e\xff="[r.Intn(15)]
		}
		header := string(b)
		if r.Intn(2) == 0 {
			header = "Bearer " + header
		}
		a := &engine.Action{}
		if r.Intn(2) == 0 {
			a.KeySet = &rpKeySet{"u"}
		}
		for k := r.Intn(3); k > 0; k-- {
			a.Rules = append(a.Rules, v1.Rule{Claim: []string{"", ".", "a..b", "scope"}[r.Intn(4)], Source: []string{"", "id_token"}[r.Intn(2)]})
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					t.Fatalf("panic %v: header %q %+v", p, header, a)
				}
			}()
			if res, err := s.HandleAuthnZRequest(rpRequest(header), a); res == nil && err == nil {
				t.Fatalf("neither answer nor error: header %q", header)
			}
		}()
	}
	rpStat(n)
}
