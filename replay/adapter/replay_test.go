package adapter

import (
	"context"
	"crypto"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/gogo/googleapis/google/rpc"
	"go.uber.org/zap"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	storePolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/tests/fake"
)

func rpRand() *rand.Rand {
	zap.ReplaceGlobals(zap.NewNop())
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func rpN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return 4 * quick
}

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

type rpKeySet struct{ url string }

func (k *rpKeySet) PublicKeyURL() string                  { return k.url }
func (k *rpKeySet) PublicKey(kid string) crypto.PublicKey { return nil }

type rpStrategy struct {
	res    *authnz.HandleAuthnZResponse
	err    error
	got    *authnz.HandleAuthnZRequest
	action *engine.Action
	n      int
}

func (s *rpStrategy) HandleAuthnZRequest(r *authnz.HandleAuthnZRequest, a *engine.Action) (*authnz.HandleAuthnZResponse, error) {
	s.got, s.action = r, a
	s.n++
	return s.res, s.err
}

func rpRequest(ns, svc, path, method string) *authnz.HandleAuthnZRequest {
	return &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Request: &authnz.RequestMsg{Scheme: "https", Host: "h", Path: path, Headers: &authnz.HeadersMsg{}, Params: &authnz.QueryParamsMsg{}},
		Target:  &authnz.TargetMsg{Service: svc, Namespace: ns, Path: path, Method: method},
	}}
}

// one entry for every way a request can end
func rpWorld() (storePolicy.PolicyStore, *AppidAdapter, *rpStrategy, *rpStrategy) {
	st := storePolicy.New()
	eng, err := engine.New(st)
	if err != nil {
		panic(err)
	}
	api, web := &rpStrategy{res: &authnz.HandleAuthnZResponse{}}, &rpStrategy{res: &authnz.HandleAuthnZResponse{}}
	return st, &AppidAdapter{apistrategy: api, webstrategy: web, engine: eng}, api, web
}

func TestReplay_C01(t *testing.T) {
	r := rpRand()
	n := 0
	type entry struct {
		path, typ, config string
		method            policy.Method
	}
	all := []entry{
		{"/jwt", "jwt", "ks", policy.ALL}, {"/oidc-app", "oidc", "cl", policy.ALL}, {"/jwt/get", "jwt", "ks", policy.GET},
		{"/nokeys", "jwt", "missing", policy.ALL}, {"/noclient", "oidc", "missing", policy.ALL}, {"/odd", "saml", "ks", policy.ALL},
		{"/tree/*", "jwt", "ks", policy.ALL}, {"/tree/web/*", "oidc", "cl", policy.ALL}, {"/tree/none/*", "jwt", "missing", policy.ALL},
	}
	want := func(path, method string) string {
		for p := path; ; {
			for _, e := range all {
				if (e.path == p || strings.TrimSuffix(e.path, "/*") == p && strings.HasSuffix(e.path, "/*")) && (e.method == policy.ALL || e.method == policy.NewMethod(method)) && (p == path || strings.HasSuffix(e.path, "/*")) {
					switch {
					case e.config == "missing" || e.typ == "saml":
						return "error"
					default:
						return e.typ
					}
				}
			}
			k := strings.LastIndex(p, "/")
			if k <= 0 {
				return "pass"
			}
			p = p[:k]
		}
	}
	paths := []string{"/", "/jwt", "/jwt/get", "/jwt/x", "/oidc-app", "/nokeys", "/noclient", "/odd", "/tree", "/tree/x", "/tree/x/y", "/tree/web", "/tree/web/z", "/tree/none", "/tree/none/a/b", "/jwtx", "/treex"}
	for i := 0; i < rpN(3000, 50000); i++ {
		st, s, api, web := rpWorld()
		st.AddKeySet("ns/ks", &rpKeySet{"u"})
		st.AddClient("ns/cl", fake.NewClient(nil))
		for _, e := range all {
			st.SetPolicies(policy.Endpoint{Service: policy.Service{Namespace: "ns", Name: "svc"}, Path: e.path, Method: e.method},
				policy.RoutePolicy{PolicyReference: "ns/p", Actions: []v1.PathPolicy{{PolicyType: e.typ, Config: e.config}}})
		}
		path, method := paths[r.Intn(len(paths))], []string{"GET", "POST", "", "HEAD"}[r.Intn(4)]
		suffix := []string{"", "", "/", "///", "/oidc/callback", "/oidc/logout"}[r.Intn(6)]
		if path == "/" {
			suffix = ""
		}
		ns, svc := "ns", "svc"
		w := want(path, method)
		if r.Intn(6) == 0 {
			ns, svc = []string{"ns", "other", ""}[r.Intn(3)], []string{"svc2", ""}[r.Intn(2)]
			w = "pass"
		}
		code := []int32{0, 16, 7}[r.Intn(3)]
		for _, x := range []*rpStrategy{api, web} {
			x.res.Result = nil
			if r.Intn(4) == 0 {
				x.res, x.err = nil, errors.New("strategy failed")
			}
		}
		_ = code
		req := rpRequest(ns, svc, path+suffix, method)
		res, err := s.HandleAuthnZ(context.Background(), req)
		n++
		what := fmt.Sprintf("%s %s/%s %s: %+v %v", method, ns, svc, path+suffix, res, err)
		switch w {
		case "pass":
			if err != nil || res == nil || res.Result == nil || res.Result.Status.Code != int32(rpc.OK) || api.n+web.n > 0 {
				t.Fatalf("not let through: %s", what)
			}
		case "error":
			if err == nil || api.n+web.n > 0 {
				t.Fatalf("no error: %s", what)
			}
		default:
			x, y := api, web
			if w == "oidc" {
				x, y = web, api
			}
			if x.n != 1 || y.n != 0 || res != x.res || err != x.err || x.got != req || x.action == nil || x.action.PolicyType != w {
				t.Fatalf("not the answer of the %s strategy (asked %d, other %d): %s", w, x.n, y.n, what)
			}
		}
	}
	// incomplete requests, also under no policy at all
	st, s, api, web := rpWorld()
	for k := 0; k < 2; k++ {
		for i := 0; i < 8; i++ {
			req := rpRequest("ns", "svc", "/x", "GET")
			switch i {
			case 0:
				req = nil
			case 1:
				req.Instance = nil
			case 2:
				req.Instance.Target = nil
			case 3:
				req.Instance.Request = nil
			case 4:
				req.Instance.Request.Params = nil
			case 5:
				req.Instance.Request.Headers = nil
			case 6:
				req.Instance.Request.Headers, req.Instance.Request.Params = nil, nil
			case 7:
				req = &authnz.HandleAuthnZRequest{}
			}
			func() {
				defer func() {
					if p := recover(); p != nil {
						t.Errorf("incomplete request %d: panic %v", i, p)
					}
				}()
				if res, err := s.HandleAuthnZ(context.Background(), req); err == nil || res != nil || api.n+web.n > 0 {
					t.Errorf("incomplete request %d: %+v %v", i, res, err)
				}
			}()
			n++
		}
		st.AddKeySet("ns/ks", &rpKeySet{"u"})
		st.SetPolicies(policy.Endpoint{Service: policy.Service{Namespace: "ns", Name: "svc"}, Path: "/*"},
			policy.RoutePolicy{PolicyReference: "ns/p", Actions: []v1.PathPolicy{{PolicyType: "jwt", Config: "ks"}}})
	}
	rpStat(n)
}

// a trailing slash does not change which entry is applied
func TestReplay_C02(t *testing.T) {
	r := rpRand()
	n := rpN(3000, 50000)
	for i := 0; i < n; i++ {
		st, s, api, web := rpWorld()
		st.AddKeySet("ns/ks", &rpKeySet{"u"})
		entries := []string{"/a", "/a/b", "/a/*", "/a/b/*", "/*", "/b"}
		for k := r.Intn(5); k >= 0; k-- {
			p := entries[r.Intn(len(entries))]
			st.SetPolicies(policy.Endpoint{Service: policy.Service{Namespace: "ns", Name: "svc"}, Path: p, Method: policy.Method(r.Intn(3))},
				policy.RoutePolicy{PolicyReference: "ns/p", Actions: []v1.PathPolicy{{PolicyType: "jwt", Config: "ks", RedirectUri: p + strconv.Itoa(k)}}})
		}
		path := []string{"/a", "/a/b", "/a/b/c", "/b", "/c", "/a/x"}[r.Intn(6)]
		method := []string{"GET", "PUT", "POST"}[r.Intn(3)]
		var first string
		for k, suffix := range []string{"", "/", "//", "/oidc/callback", "/oidc/logout", "/oidc/callback/", "/oidc/logout/"} {
			api.n, api.action = 0, nil
			res, err := s.HandleAuthnZ(context.Background(), rpRequest("ns", "svc", path+suffix, method))
			got := "none"
			if api.action != nil {
				got = api.action.RedirectUri
			}
			if err != nil || res == nil || web.n > 0 {
				t.Fatalf("%s: %v %v", path+suffix, res, err)
			}
			if k == 0 {
				first = got
			} else if got != first {
				t.Fatalf("%s %s applies %s, %s applies %s", method, path, first, path+suffix, got)
			}
		}
	}
	rpStat(n)
}
