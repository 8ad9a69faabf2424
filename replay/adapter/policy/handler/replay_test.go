package handler

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"

	"go.uber.org/zap"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	k8sfake "k8s.io/client-go/kubernetes/fake"
	k8stesting "k8s.io/client-go/testing"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	policystore "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
)

func rpRand() *rand.Rand {
	zap.ReplaceGlobals(zap.NewNop())
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func rpN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return 4 * quick
}

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

// ---- policies ----

type rpModel struct {
	held   map[policy.Endpoint]policy.RoutePolicy
	record map[string][]policy.Endpoint
}

func (m *rpModel) find(ep policy.Endpoint) (policy.RoutePolicy, bool) {
	at := func(p string) (policy.RoutePolicy, bool) {
		for _, k := range []policy.Method{ep.Method, policy.ALL} {
			if e, ok := m.held[policy.Endpoint{Service: ep.Service, Path: p, Method: k}]; ok {
				return e, true
			}
		}
		return policy.RoutePolicy{}, false
	}
	if e, ok := at(ep.Path); ok {
		return e, true
	}
	for p := strings.TrimSuffix(ep.Path, "/*"); ; p = p[:strings.LastIndex(p, "/")] {
		if p == "/" {
			p = ""
		}
		if e, ok := at(p + "/*"); ok {
			return e, true
		}
		if p == "" {
			return policy.RoutePolicy{}, false
		}
	}
}

func TestReplay_C16(t *testing.T) {
	r := rpRand()
	n := 0
	exact, prefix := []string{"/a", "/a/b", "/", "/c"}, []string{"/a", "/", "/a/b", "/c"}
	methods := []string{"", "GET", "POST", "ALL"}
	for i := 0; i < rpN(600, 30000); i++ {
		store := policystore.New()
		h := New(store, nil)
		m := &rpModel{held: map[policy.Endpoint]policy.RoutePolicy{}, record: map[string][]policy.Endpoint{}}
		var log []string
		objects := map[string]*v1.Policy{}
		for k := 0; k < 14; k++ {
			ns, name := []string{"n", "n", "m", "n1"}[r.Intn(4)], []string{"p", "q", "pp", "p-q", "p"}[r.Intn(5)]
			id := ns + "/" + name
			if r.Intn(3) == 0 {
				log = append(log, "delete "+id)
				h.HandleDeleteEvent(policy.CrdKey{Id: id, CrdType: v1.POLICY})
				for ep, e := range m.held {
					if e.PolicyReference == id {
						delete(m.held, ep)
					}
				}
				delete(m.record, id)
				delete(objects, id)
			} else {
				p := &v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}}
				var eps []policy.Endpoint
				for a := r.Intn(3); a >= 0; a-- {
					te := v1.TargetElement{ServiceName: []string{"s1", "s2"}[r.Intn(2)]}
					for b := r.Intn(4); b > 0; b-- {
						pc := v1.PathConfig{Method: methods[r.Intn(4)], Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: "c", RedirectUri: fmt.Sprintf("%d.%d.%d.%d", i, k, a, b)}}}
						ep := policy.Endpoint{Service: policy.Service{Namespace: ns, Name: te.ServiceName}, Method: policy.NewMethod(pc.Method)}
						switch r.Intn(3) {
						case 0:
							pc.Exact = exact[r.Intn(4)]
							ep.Path = pc.Exact
						case 1:
							pc.Prefix = prefix[r.Intn(4)]
							ep.Path = strings.TrimSuffix(pc.Prefix, "/") + "/*"
						default:
							ep.Path = "/*"
						}
						te.Paths = append(te.Paths, pc)
						eps = append(eps, ep)
						m.held[ep] = policy.RoutePolicy{PolicyReference: id, Actions: pc.Policies}
					}
					p.Spec.Target = append(p.Spec.Target, te)
				}
				if o := objects[id]; o != nil && r.Intn(6) == 0 { // a resync: the same object again
					log = append(log, "(resync) ")
				}
				js, _ := json.Marshal(p.Spec)
				log = append(log, fmt.Sprintf("add %s %s", id, js))
				h.HandleAddUpdateEvent(p)
				for ep, e := range m.held {
					if e.PolicyReference == id {
						declared := false
						for _, x := range eps {
							declared = declared || x == ep
						}
						if !declared {
							delete(m.held, ep)
						}
					}
				}
				m.record[id] = eps
				objects[id] = p
			}
			for _, ns := range []string{"n", "m", "n1"} {
				for _, svc := range []string{"s1", "s2"} {
					for _, path := range []string{"/", "/a", "/a/b", "/c", "/*", "/a/*", "/a/b/*", "/c/*", "/a/b/x", "/z"} {
						for _, mt := range []policy.Method{policy.ALL, policy.GET, policy.POST, policy.PUT} {
							ep := policy.Endpoint{Service: policy.Service{Namespace: ns, Name: svc}, Path: path, Method: mt}
							want, ok := m.find(ep)
							got := store.GetPolicies(ep)
							n++
							if !ok && (len(got.Actions) > 0 || got.PolicyReference != "") || ok && (got.PolicyReference != want.PolicyReference || !reflect.DeepEqual(got.Actions, want.Actions)) {
								t.Fatalf("after\n%s\n%+v holds %+v, want %+v (%v)", strings.Join(log, "\n"), ep, got, want, ok)
							}
						}
					}
				}
			}
			for _, id := range []string{"n/p", "n/q", "m/p", "m/q", "n/pp", "n1/p", "n/p-q", "n1/pp"} {
				got := store.GetPolicyMapping(id)
				if len(got) != len(m.record[id]) {
					t.Fatalf("after\n%s\nrecord of %s %+v, want endpoints %+v", strings.Join(log, "\n"), id, got, m.record[id])
				}
				for k, ep := range m.record[id] {
					if got[k].Endpoint != ep {
						t.Fatalf("after\n%s\nrecord of %s %+v, want endpoints %+v", strings.Join(log, "\n"), id, got, m.record[id])
					}
				}
			}
		}
	}
	rpStat(n)
}

// ---- configurations ----

type rpServer struct {
	*httptest.Server
	mu   sync.Mutex
	down bool
}

// a discovery document and key set per path prefix
func rpDiscovery() *rpServer {
	s := &rpServer{}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		s.mu.Lock()
		defer s.mu.Unlock()
		if s.down {
			w.WriteHeader(503)
			return
		}
		base := "http://" + q.Host + strings.TrimSuffix(strings.TrimSuffix(q.URL.Path, "/keys"), "/disc")
		if strings.HasSuffix(q.URL.Path, "/keys") {
			fmt.Fprint(w, `{"keys":[{"kty":"RSA","kid":"k","n":"AQAB","e":"AQAB"}]}`)
			return
		}
		fmt.Fprintf(w, `{"issuer":"i","authorization_endpoint":"%s/auth","token_endpoint":"%s/token","jwks_uri":"%s/keys","userinfo_endpoint":"%s/info"}`, base, base, base, base)
	}))
	return s
}

func rpClientset(r *rand.Rand, secrets ...*corev1.Secret) *k8sfake.Clientset {
	var objs []runtime.Object
	for _, s := range secrets {
		objs = append(objs, s)
	}
	return k8sfake.NewSimpleClientset(objs...)
}

func TestReplay_C17(t *testing.T) {
	srv := rpDiscovery()
	defer srv.Close()
	r := rpRand()
	n := 0
	for i := 0; i < rpN(60, 1500); i++ {
		store := policystore.New()
		h := New(store, rpClientset(r))
		sets, clients := map[string]string{}, map[string]string{}
		for k := 0; k < 12; k++ {
			ns, name := []string{"n", "m"}[r.Intn(2)], []string{"a", "b"}[r.Intn(2)]
			id := ns + "/" + name
			meta := metav1.ObjectMeta{Namespace: ns, Name: name}
			url := fmt.Sprintf("%s/%d-%d", srv.URL, i, k)
			what := ""
			switch r.Intn(7) {
			case 0, 1:
				what = "add JwtConfig " + id
				h.HandleAddUpdateEvent(&v1.JwtConfig{ObjectMeta: meta, Spec: v1.JwtConfigSpec{JwksURL: url + "/keys", ClientName: []string{"", "n/b"}[r.Intn(2)]}})
				sets[id] = url + "/keys"
			case 2, 3:
				what = "add OidcConfig " + id
				h.HandleAddUpdateEvent(&v1.OidcConfig{ObjectMeta: meta, Spec: v1.OidcConfigSpec{ClientID: url, DiscoveryURL: url + "/disc", ClientSecret: "s", ClientName: []string{"", "n/b"}[r.Intn(2)]}})
				clients[id] = url
			case 4:
				what = "delete JwtConfig " + id
				h.HandleDeleteEvent(policy.CrdKey{Id: id, CrdType: v1.JWTCONFIG})
				delete(sets, id)
			case 5:
				what = "delete OidcConfig " + id
				h.HandleDeleteEvent(policy.CrdKey{Id: id, CrdType: v1.OIDCCONFIG})
				delete(clients, id)
			default:
				what = "something else"
				switch r.Intn(6) {
				case 0:
					h.HandleAddUpdateEvent(nil)
				case 1:
					h.HandleAddUpdateEvent(&corev1.Secret{ObjectMeta: meta})
				case 2:
					h.HandleAddUpdateEvent(v1.JwtConfig{ObjectMeta: meta})
				case 3:
					h.HandleDeleteEvent(id)
				case 4:
					h.HandleDeleteEvent(policy.CrdKey{Id: id, CrdType: v1.NONE})
				case 5:
					h.HandleDeleteEvent(policy.CrdKey{Id: id, CrdType: v1.POLICY})
				}
			}
			n++
			for _, id := range []string{"n/a", "n/b", "m/a", "m/b"} {
				ks := store.GetKeySet(id)
				if want, ok := sets[id]; ok != (ks != nil) || ok && ks.PublicKeyURL() != want {
					t.Fatalf("%s: key set of %s is %v, want %v", what, id, ks, want)
				}
				cl := store.GetClient(id)
				if want, ok := clients[id]; ok != (cl != nil) || ok && (cl.ID() != want || cl.Name() != id || cl.AuthorizationServer().TokenEndpoint() != want+"/token" || cl.AuthorizationServer().KeySet().PublicKeyURL() != want+"/keys") {
					t.Fatalf("%s: client of %s is %+v, want %v", what, id, cl, want)
				}
			}
			for _, id := range []string{"", "a", "b", "n/", "/a"} {
				if store.GetKeySet(id) != nil || store.GetClient(id) != nil {
					t.Fatalf("%s: something under %q", what, id)
				}
			}
		}
	}
	rpStat(n)
}

func TestReplay_C26(t *testing.T) {
	srv := rpDiscovery()
	defer srv.Close()
	r := rpRand()
	n := 0
	for i := 0; i < rpN(600, 10000); i++ {
		store := policystore.New()
		sec := func(ns, name string, data map[string][]byte) *corev1.Secret {
			return &corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Data: data}
		}
		all := map[string]map[string]string{
			"n/x": {"k": "value k", "empty": "", "k2": "value k2"}, "n/y": {"k": "y value"}, "m/x": {"k": "other namespace"}, "m/z": {"k": "m z"},
		}
		var objs []*corev1.Secret
		for id, d := range all {
			p := strings.Split(id, "/")
			b := map[string][]byte{}
			for k, v := range d {
				b[k] = []byte(v)
			}
			objs = append(objs, sec(p[0], p[1], b))
		}
		kube := rpClientset(r, objs...)
		broken := r.Intn(6) == 0
		if broken {
			kube.PrependReactor("get", "secrets", func(k8stesting.Action) (bool, runtime.Object, error) {
				return true, nil, errors.New("unavailable")
			})
		}
		ns, name := []string{"n", "m", "o"}[r.Intn(3)], "cfg"
		spec := v1.OidcConfigSpec{
			ClientID: "id" + strconv.Itoa(i), DiscoveryURL: srv.URL + "/disc",
			AuthMethod:      []string{"", "client_secret_post", "client_secret_basic", "other"}[r.Intn(4)],
			ClientSecret:    []string{"", "plain"}[r.Intn(2)],
			ClientSecretRef: v1.ClientSecretRef{Name: []string{"", "x", "y", "z", "none"}[r.Intn(5)], Key: []string{"", "k", "k2", "empty", "none"}[r.Intn(5)]},
		}
		for k := r.Intn(3); k > 0; k-- {
			spec.Scopes = append(spec.Scopes, "s"+strconv.Itoa(r.Intn(3)))
		}
		want := spec.ClientSecret
		if ref := spec.ClientSecretRef; !broken && ref.Name != "" && ref.Key != "" && all[ns+"/"+ref.Name][ref.Key] != "" {
			want = all[ns+"/"+ref.Name][ref.Key]
		}
		scope := strings.Join(spec.Scopes, " ")
		if scope == "" {
			scope = "openid profile email"
		}
		cfg := &v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Spec: spec}
		New(store, kube).HandleAddUpdateEvent(cfg)
		c := store.GetClient(ns + "/" + name)
		if c == nil || c.Secret() != want || c.Scope() != scope || c.ID() != spec.ClientID || c.Name() != ns+"/"+name || c.AuthorizationServer() == nil || c.AuthorizationServer().AuthorizationEndpoint() != srv.URL+"/auth" {
			t.Fatalf("config %+v in %s (cluster broken %v): client %+v, want secret %q scope %q", spec, ns, broken, c, want, scope)
		}
		n++
	}
	// the authentication method, as the token endpoint sees it
	for _, m := range []string{"", "client_secret_basic", "client_secret_post"} {
		var basic bool
		var form string
		tok := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			base := "http://" + q.Host
			if q.URL.Path == "/disc" {
				fmt.Fprintf(w, `{"issuer":"i","authorization_endpoint":"%s/auth","token_endpoint":"%s/token","jwks_uri":"%s/keys","userinfo_endpoint":"%s/info"}`, base, base, base, base)
				return
			}
			if q.URL.Path == "/token" {
				var u, p string
				u, p, basic = q.BasicAuth()
				basic = basic && u == "the-id" && p == "plain"
				_ = q.ParseForm()
				form = q.PostForm.Get("client_secret")
				fmt.Fprint(w, `{"access_token":"a","id_token":"i"}`)
				return
			}
			fmt.Fprint(w, `{"keys":[]}`)
		}))
		store := policystore.New()
		New(store, rpClientset(r)).HandleAddUpdateEvent(&v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "n", Name: "c"},
			Spec: v1.OidcConfigSpec{ClientID: "the-id", ClientSecret: "plain", AuthMethod: m, DiscoveryURL: tok.URL + "/disc"}})
		res, err := store.GetClient("n/c").ExchangeGrantCode("code", "uri")
		if err != nil || res.AccessToken != "a" || basic != (m != "client_secret_post") || (form == "plain") != (m == "client_secret_post") {
			t.Errorf("method %q: basic %v form %q (%+v %v)", m, basic, form, res, err)
		}
		tok.Close()
	}
	rpStat(n)
}

// configurations loaded while discovery is unavailable
func TestReplay_C21(t *testing.T) {
	srv := rpDiscovery()
	defer srv.Close()
	store := policystore.New()
	srv.mu.Lock()
	srv.down = true
	srv.mu.Unlock()
	New(store, rpClientset(nil)).HandleAddUpdateEvent(&v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "n", Name: "c"},
		Spec: v1.OidcConfigSpec{ClientID: "the-id", ClientSecret: "plain", DiscoveryURL: srv.URL + "/disc"}})
	c := store.GetClient("n/c")
	if c == nil || c.AuthorizationServer().AuthorizationEndpoint() != "" {
		t.Fatalf("client %+v while discovery is down", c)
	}
	srv.mu.Lock()
	srv.down = false
	srv.mu.Unlock()
	s := c.AuthorizationServer()
	if s.AuthorizationEndpoint() != srv.URL+"/auth" || s.KeySet() == nil || s.KeySet().PublicKeyURL() != srv.URL+"/keys" || s.KeySet().PublicKey("k") == nil {
		t.Fatalf("client did not recover: %q %v", s.AuthorizationEndpoint(), s.KeySet())
	}
	rpStat(1)
}
