package authserver

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"go.uber.org/zap"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
)

func rpRand() *rand.Rand {
	zap.ReplaceGlobals(zap.NewNop())
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func rpN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return 4 * quick
}

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

type rpServer struct {
	*httptest.Server
	code  int
	body  string // discovery answer
	hits  int
	tcode int
	tbody string // token answer
	reqs  []string
}

func rpServe() *rpServer {
	s := &rpServer{}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		if strings.HasPrefix(q.URL.Path, "/keys") {
			fmt.Fprint(w, `{"keys":[]}`)
			return
		}
		if strings.HasPrefix(q.URL.Path, "/token") {
			b, _ := ioutil.ReadAll(q.Body)
			s.reqs = append(s.reqs, q.Method+" "+q.URL.Path+"\n"+q.Header.Get("Content-Type")+"\n"+q.Header.Get("Authorization")+"\n"+string(b))
			if s.tcode == -1 {
				c, _, _ := w.(http.Hijacker).Hijack()
				c.Close()
				return
			}
			w.WriteHeader(s.tcode)
			fmt.Fprint(w, s.tbody)
			return
		}
		s.hits++
		if s.code == -1 {
			c, _, _ := w.(http.Hijacker).Hijack()
			c.Close()
			return
		}
		w.WriteHeader(s.code)
		fmt.Fprint(w, s.body)
	}))
	return s
}

var rpFields = []string{"issuer", "authorization_endpoint", "token_endpoint", "jwks_uri", "userinfo_endpoint"}

// rpDoc sets the discovery answer; whether it is a complete one
func (s *rpServer) rpDoc(r *rand.Rand, tag string) bool {
	m := map[string]string{"issuer": "i" + tag, "authorization_endpoint": s.URL + "/auth" + tag, "token_endpoint": s.URL + "/token" + tag, "jwks_uri": s.URL + "/keys" + tag, "userinfo_endpoint": s.URL + "/info" + tag}
	ok := true
	s.code = 200
	if r.Intn(2) == 0 {
		f := rpFields[r.Intn(5)]
		switch r.Intn(4) {
		case 0:
			delete(m, f)
			ok = false
		case 1:
			m[f] = ""
			ok = false
		case 2:
			s.code = []int{201, 204, 299, 400, 401, 404, 500, 503, -1}[r.Intn(9)]
			ok = false
		}
	}
	b, _ := json.Marshal(m)
	s.body = string(b)
	if s.code == 204 {
		s.body = ""
	}
	if r.Intn(10) == 0 {
		s.body, ok = s.body[:r.Intn(len(s.body)+1)/2], false
	}
	return ok
}

func TestReplay_C21(t *testing.T) {
	r := rpRand()
	s := rpServe()
	defer s.Close()
	n := 0
	for i := 0; i < rpN(1200, 20000); i++ {
		var log []string
		tag := ""
		try := func(k int) {
			if tag == "" && s.rpDoc(r, fmt.Sprintf("-%d-%d", i, k)) {
				tag = fmt.Sprintf("-%d-%d", i, k)
			} else if tag != "" {
				s.rpDoc(r, "-later")
			}
			log = append(log, fmt.Sprintf("%d %s", s.code, s.body))
		}
		try(0)
		s.hits = 0
		svc := New(s.URL + "/disc")
		if s.hits == 0 {
			t.Fatalf("the constructor does not discover")
		}
		known := tag != ""
		var own keyset.KeySet
		if r.Intn(4) == 0 {
			own = keyset.New(s.URL+"/keys-own", nil)
			svc.SetKeySet(own)
		}
		for k := 1; k < 8; k++ {
			if r.Intn(2) == 0 || s.code == -1 {
				if !known {
					tag = ""
				}
				try(k)
			} else if !known {
				// the same answer again
			}
			s.hits = 0
			use := r.Intn(6)
			var got, want string
			switch use {
			case 0:
				got, want = svc.TokenEndpoint(), "/token"
			case 1:
				got, want = svc.AuthorizationEndpoint(), "/auth"
			case 2:
				got, want = svc.UserInfoEndpoint(), "/info"
			case 3:
				got, want = svc.JwksEndpoint(), "/keys"
			case 4:
				s.tcode, s.tbody, s.reqs = 200, `{"access_token":"a"}`, nil
				_, _ = svc.GetTokens("", "i", "s", "c", "u", "")
				if len(s.reqs) > 0 {
					got = s.URL + strings.SplitN(strings.Fields(s.reqs[0])[1], "\n", 2)[0]
				}
				want = "/token"
			case 5:
				ks := svc.KeySet()
				want = "/keys"
				if ks != nil {
					got = ks.PublicKeyURL()
				}
				if own != nil {
					if ks != own {
						t.Fatalf("%v: supplied key set replaced by %v", log, ks)
					}
					got = ""
					if tag != "" {
						got = s.URL + want + tag
					}
				}
			}
			if tag == "" {
				want = ""
			} else {
				want = s.URL + want + tag
			}
			n++
			if got != want {
				t.Fatalf("answers %s: use %d gives %q, want %q", strings.Join(log, "\n"), use, got, want)
			}
			if known && s.hits > 0 || !known && s.hits == 0 {
				t.Fatalf("answers %s: use %d makes %d discovery requests, known %v", strings.Join(log, "\n"), use, s.hits, known)
			}
			known = tag != ""
		}
	}
	rpStat(n)
}

func TestReplay_C22(t *testing.T) {
	r := rpRand()
	s := rpServe()
	defer s.Close()
	n := rpN(3000, 40000)
	s.code = 200
	b, _ := json.Marshal(map[string]string{"issuer": "i", "authorization_endpoint": s.URL + "/auth", "token_endpoint": s.URL + "/token/x", "jwks_uri": s.URL + "/keys", "userinfo_endpoint": s.URL + "/info"})
	s.body = string(b)
	svc := New(s.URL + "/disc")
	pick := func(xs ...string) string { return xs[r.Intn(len(xs))] }
	for i := 0; i < n; i++ {
		method := pick("client_secret_post", "client_secret_basic", "", "other", "CLIENT_SECRET_POST")
		id, secret := pick("id", "i d&=", ""), pick("secret", "s+/=&%", "")
		code, uri, refresh := pick("code", "c&o d", ""), pick("https://a/oidc/callback", "https://a/?x=1&y=2"), pick("", "", "refresh", "r &=")
		body := map[string]interface{}{}
		for _, k := range []string{"access_token", "id_token", "refresh_token"} {
			if r.Intn(4) > 0 {
				body[k] = pick("A", "B.C.D", "", k)
			}
		}
		if r.Intn(2) == 0 {
			body["expires_in"] = 3600
		}
		js, _ := json.Marshal(body)
		s.tcode, s.tbody, s.reqs = []int{200, 200, 200, 200, 201, 299, 400, 401, 500, 302, -1}[r.Intn(11)], string(js), nil
		switch r.Intn(12) {
		case 0:
			s.tbody = ""
		case 1:
			s.tbody = "{"
		case 2:
			s.tbody = `{"error":"invalid_grant","error_description":"d"}`
		}
		var decoded TokenResponse
		want := s.tcode == 200 && json.Unmarshal([]byte(s.tbody), &decoded) == nil && decoded.AccessToken != ""
		res, err := svc.GetTokens(method, id, secret, code, uri, refresh)
		what := fmt.Sprintf("case %d: GetTokens(%q, %q, %q, %q, %q, %q), answer %d %s", i, method, id, secret, code, uri, refresh, s.tcode, s.tbody)
		if (err == nil) != want || (res != nil) != want || want && *res != decoded {
			t.Fatalf("tokens %+v error %v, want %v %+v: %s", res, err, want, decoded, what)
		}
		if len(s.reqs) == 0 || s.tcode != -1 && len(s.reqs) != 1 {
			t.Fatalf("%d requests: %s", len(s.reqs), what)
		}
		p := strings.SplitN(s.reqs[0], "\n", 4)
		form, perr := url.ParseQuery(p[3])
		wantForm := url.Values{}
		if refresh != "" {
			wantForm.Set("grant_type", "refresh_token")
			wantForm.Set("refresh_token", refresh)
		} else {
			wantForm.Set("grant_type", "authorization_code")
			wantForm.Set("code", code)
			wantForm.Set("redirect_uri", uri)
		}
		wantAuth := ""
		if method == "client_secret_post" {
			wantForm.Set("client_id", id)
			wantForm.Set("client_secret", secret)
		} else {
			q, _ := http.NewRequest("GET", "http://x", nil)
			q.SetBasicAuth(id, secret)
			wantAuth = q.Header.Get("Authorization")
		}
		if perr != nil || p[0] != "POST /token/x" || !strings.HasPrefix(p[1], "application/x-www-form-urlencoded") || !reflect.DeepEqual(form, wantForm) || p[2] != wantAuth {
			t.Fatalf("request %q, want form %v and authorization %q: %s", s.reqs[0], wantForm, wantAuth, what)
		}
	}
	rpStat(n)
}
