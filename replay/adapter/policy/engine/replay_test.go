package engine

import (
	"crypto"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"go.uber.org/zap"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	policy2 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

func rpRand() *rand.Rand {
	zap.ReplaceGlobals(zap.NewNop())
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func rpN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return 4 * quick
}

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

type rpKeySet struct{ url string }

func (k *rpKeySet) PublicKeyURL() string                  { return k.url }
func (k *rpKeySet) PublicKey(kid string) crypto.PublicKey { return nil }

type rpClient struct{ id string }

func (c *rpClient) Name() string                                               { return "n" + c.id }
func (c *rpClient) ID() string                                                 { return c.id }
func (c *rpClient) Secret() string                                             { return "" }
func (c *rpClient) Scope() string                                              { return "" }
func (c *rpClient) AuthorizationServer() authserver.AuthorizationServerService { return nil }
func (c *rpClient) ExchangeGrantCode(string, string) (*authserver.TokenResponse, error) {
	return nil, nil
}
func (c *rpClient) RefreshToken(string) (*authserver.TokenResponse, error) { return nil, nil }

var (
	rpExact   = []string{"/", "/a", "/a/b", "/a/b/c", "/ab", "/a/bc", "/b", "/a/b/c/d", "/oidc", "/a/oidc/callback/x"}
	rpEntries = []string{"/", "/a", "/a/b", "/a/b/c", "/ab", "/b", "/*", "/a/*", "/a/b/*", "/ab/*", "/a/b/c/*", "/oidc/*"}
	rpMethods = []policy.Method{policy.ALL, policy.GET, policy.POST, policy.PUT, policy.DELETE, policy.PATCH}
	rpNS      = []string{"n1", "n2", "n1/s1", ""}
	rpConfigs = []string{"c0", "c1", "c2", "c0", "c1", "c2", "n1/c0", "n2/c1", "/c0", "C0", ""}
	rpSvc     = []string{"s1", "s2", ""}
)

// rpSelect: the entry the statement selects, and whether there is one
func rpSelect(m map[policy.Endpoint]policy.RoutePolicy, s policy.Service, path string, method policy.Method) (policy.RoutePolicy, bool) {
	at := func(p string) (policy.RoutePolicy, bool) {
		for _, k := range []policy.Method{method, policy.ALL} {
			if e, ok := m[policy.Endpoint{Service: s, Path: p, Method: k}]; ok {
				return e, true
			}
		}
		return policy.RoutePolicy{}, false
	}
	if e, ok := at(path); ok {
		return e, true
	}
	for p := path; ; p = p[:strings.LastIndex(p, "/")] {
		if p == "/" {
			p = ""
		}
		if e, ok := at(p + "/*"); ok {
			return e, true
		}
		if p == "" {
			return policy.RoutePolicy{}, false
		}
	}
}

type rpWorld struct {
	store   policy2.PolicyStore
	eng     PolicyEngine
	entries map[policy.Endpoint]policy.RoutePolicy
	sets    map[string]*rpKeySet
	clients map[string]*rpClient
	n       int
}

func rpNew() *rpWorld {
	w := &rpWorld{store: policy2.New(), entries: map[policy.Endpoint]policy.RoutePolicy{}, sets: map[string]*rpKeySet{}, clients: map[string]*rpClient{}}
	w.eng, _ = New(w.store)
	return w
}

func (w *rpWorld) endpoint(r *rand.Rand) policy.Endpoint {
	return policy.Endpoint{
		Service: policy.Service{Namespace: rpNS[r.Intn(len(rpNS))], Name: rpSvc[r.Intn(len(rpSvc))]},
		Path:    rpEntries[r.Intn(len(rpEntries))], Method: rpMethods[r.Intn(len(rpMethods))],
	}
}

func (w *rpWorld) step(r *rand.Rand) {
	ep := w.endpoint(r)
	switch k := r.Intn(12); {
	case k < 6:
		w.n++
		p := v1.PathPolicy{PolicyType: []string{"jwt", "oidc", "jwt", "oidc", "jwt", "oidc", "other", ""}[r.Intn(8)], Config: rpConfigs[r.Intn(len(rpConfigs))], RedirectUri: "e" + strconv.Itoa(w.n)}
		if r.Intn(2) == 0 {
			p.Rules = []v1.Rule{{Claim: "r" + strconv.Itoa(w.n)}}
		}
		if r.Intn(6) == 0 {
			p.Rules = []v1.Rule{}
		}
		e := policy.RoutePolicy{PolicyReference: "p" + strconv.Itoa(r.Intn(3)), Actions: []v1.PathPolicy{p}}
		if r.Intn(5) == 0 { // more than one action
			e.Actions = append(e.Actions, p)
		}
		w.store.SetPolicies(ep, e)
		w.entries[ep] = e
	case k < 8:
		w.store.SetPolicies(ep, policy.NewRoutePolicy())
		delete(w.entries, ep)
	case k < 10:
		name := rpNS[r.Intn(len(rpNS))] + "/" + rpConfigs[r.Intn(len(rpConfigs))]
		w.n++
		if r.Intn(3) == 0 {
			w.store.DeleteKeySet(name)
			delete(w.sets, name)
		} else {
			w.sets[name] = &rpKeySet{strconv.Itoa(w.n)}
			w.store.AddKeySet(name, w.sets[name])
		}
	default:
		name := rpNS[r.Intn(len(rpNS))] + "/" + rpConfigs[r.Intn(len(rpConfigs))]
		w.n++
		if r.Intn(3) == 0 {
			w.store.DeleteClient(name)
			delete(w.clients, name)
		} else {
			w.clients[name] = &rpClient{"id" + strconv.Itoa(w.n)}
			w.store.AddClient(name, w.clients[name])
		}
	}
}

// ask compares one request with the oracle; "" if they agree.
func (w *rpWorld) ask(s policy.Service, path, suffix, method string) string {
	e, found := rpSelect(w.entries, s, path, policy.NewMethod(method))
	act, err := w.eng.Evaluate(&authnz.TargetMsg{Namespace: s.Namespace, Service: s.Name, Path: path + suffix, Method: method})
	what := func() string {
		return fmt.Sprintf("%s of %q %q path %q%s with entries %+v", method, s.Namespace, s.Name, path, suffix, w.entries)
	}
	if !found {
		if err != nil || act == nil || act.Type != policy.NONE {
			return fmt.Sprintf("nothing configured: %+v %v: %s", act, err, what())
		}
		return ""
	}
	p := e.Actions[0]
	name := s.Namespace + "/" + p.Config
	ks, cl := w.sets[name], w.clients[name]
	fails := p.PolicyType != "jwt" && p.PolicyType != "oidc" || p.PolicyType == "jwt" && ks == nil || p.PolicyType == "oidc" && cl == nil
	if fails {
		if err == nil {
			return fmt.Sprintf("%+v without configuration (key sets %v, clients %v): %+v: %s", p, w.sets, w.clients, act, what())
		}
		return ""
	}
	if err != nil || act == nil {
		return fmt.Sprintf("error %v for %+v: %s", err, p, what())
	}
	if act.RedirectUri != p.RedirectUri || act.PolicyType != p.PolicyType || act.Config != p.Config {
		return fmt.Sprintf("applied %+v, want %+v: %s", act, p, what())
	}
	rules := p.Rules
	if rules == nil && p.PolicyType == "oidc" {
		rules = []v1.Rule{{Claim: "aud", Match: "ANY", Values: []string{cl.ID()}}}
	}
	if len(act.Rules) != len(rules) || len(rules) > 0 && !reflect.DeepEqual(act.Rules, rules) {
		return fmt.Sprintf("rules %+v, want %+v: %s", act.Rules, rules, what())
	}
	switch p.PolicyType {
	case "jwt":
		if act.Type != policy.JWT || act.KeySet != ks {
			return fmt.Sprintf("type %v key set %v, want %v: %s", act.Type, act.KeySet, ks, what())
		}
	default:
		if act.Type != policy.OIDC || act.Client != cl {
			return fmt.Sprintf("type %v client %v, want %v: %s", act.Type, act.Client, cl, what())
		}
	}
	return ""
}

func rpRun(t *testing.T, histories int) {
	r := rpRand()
	n := 0
	suffixes := []string{"", "", "/oidc/callback", "/oidc/logout"}
	methods := []string{"GET", "POST", "PUT", "DELETE", "PATCH", "ALL", "HEAD", "", "get"}
	for i := 0; i < histories; i++ {
		w := rpNew()
		for k := r.Intn(60); k >= 0; k-- {
			w.step(r)
			if r.Intn(4) > 0 {
				continue
			}
			for q := 0; q < 6; q++ {
				s := policy.Service{Namespace: rpNS[r.Intn(len(rpNS))], Name: rpSvc[r.Intn(len(rpSvc))]}
				n++
				if msg := w.ask(s, rpExact[r.Intn(len(rpExact))], suffixes[r.Intn(4)], methods[r.Intn(len(methods))]); msg != "" {
					t.Fatalf("history %d: %s", i, msg)
				}
			}
		}
		for name, ks := range w.sets {
			if got := w.store.GetKeySet(name); got != ks {
				t.Fatalf("key set of %s is %v, want %v", name, got, ks)
			}
		}
		for name, cl := range w.clients {
			if got := w.store.GetClient(name); got != cl {
				t.Fatalf("client of %s is %v, want %v", name, got, cl)
			}
		}
	}
	rpStat(n)
}

func TestReplay_C02(t *testing.T) { rpRun(t, rpN(3000, 60000)) }
func TestReplay_C03(t *testing.T) { rpRun(t, rpN(3000, 60000)) }

// the order in which entries are set does not matter
func TestReplay_C02_order(t *testing.T) {
	r := rpRand()
	n := rpN(600, 10000)
	for i := 0; i < n; i++ {
		w, w2 := rpNew(), rpNew()
		for k := r.Intn(12); k >= 0; k-- {
			ep := w.endpoint(r)
			ep.Service = policy.Service{Namespace: "n", Name: "s"}
			w.entries[ep] = policy.RoutePolicy{PolicyReference: "p", Actions: []v1.PathPolicy{{PolicyType: "jwt", Config: "c", RedirectUri: fmt.Sprint(ep)}}}
		}
		var eps []policy.Endpoint
		for ep := range w.entries {
			eps = append(eps, ep)
		}
		for _, x := range []*rpWorld{w, w2} {
			x.store.AddKeySet("n/c", &rpKeySet{"u"})
			r.Shuffle(len(eps), func(a, b int) { eps[a], eps[b] = eps[b], eps[a] })
			for _, ep := range eps {
				x.store.SetPolicies(ep, w.entries[ep])
			}
		}
		for _, p := range rpExact {
			for _, m := range []string{"GET", "POST", "HEAD"} {
				a, errA := w.eng.Evaluate(&authnz.TargetMsg{Namespace: "n", Service: "s", Path: p, Method: m})
				b, errB := w2.eng.Evaluate(&authnz.TargetMsg{Namespace: "n", Service: "s", Path: p, Method: m})
				if errA != nil || errB != nil || a.Type != b.Type || a.RedirectUri != b.RedirectUri {
					t.Fatalf("%s %s: %+v (%v) and %+v (%v) from %+v", m, p, a, errA, b, errB, w.entries)
				}
			}
		}
	}
	rpStat(n)
}

// policy records
func TestReplay_C03_records(t *testing.T) {
	r := rpRand()
	n := rpN(500, 10000)
	for i := 0; i < n; i++ {
		s := policy2.New()
		want := map[string][]policy.PolicyMapping{}
		names := []string{"a/b", "a/c", "b/b", "a", ""}
		for k := 0; k < 20; k++ {
			name := names[r.Intn(len(names))]
			if r.Intn(3) == 0 {
				s.DeletePolicyMapping(name)
				delete(want, name)
			} else {
				want[name] = []policy.PolicyMapping{{Endpoint: policy.Endpoint{Path: strconv.Itoa(k)}}}
				s.AddPolicyMapping(name, want[name])
			}
			for _, x := range names {
				if got := s.GetPolicyMapping(x); len(got) != len(want[x]) || len(got) > 0 && !reflect.DeepEqual(got, want[x]) {
					t.Fatalf("record of %q is %v, want %v", x, got, want[x])
				}
			}
		}
	}
	rpStat(n)
}

func TestReplay_C01(t *testing.T) {
	if e, err := New(nil); err == nil {
		t.Fatalf("engine without store: %v", e)
	}
	rpRun(t, rpN(1500, 30000))
}

func TestReplay_C27(t *testing.T) {
	r := rpRand()
	n := rpN(1500, 30000)
	for i := 0; i < n; i++ {
		w := rpNew()
		for k := r.Intn(20); k >= 0; k-- {
			w.step(r)
		}
		for q := 0; q < 20; q++ {
			b := make([]byte, r.Intn(8))
			for k := range b {
				b[k] = "/a*b \x00\xff/"[r.Intn(8)]
			}
			tm := &authnz.TargetMsg{Namespace: rpNS[r.Intn(len(rpNS))], Service: rpSvc[r.Intn(len(rpSvc))], Path: string(b) + []string{"", "/oidc/callback", "/oidc/logout"}[r.Intn(3)], Method: []string{"", "GET", "X"}[r.Intn(3)]}
			func() {
				defer func() {
					if p := recover(); p != nil {
						t.Fatalf("panic %v: %+v with %+v", p, tm, w.entries)
					}
				}()
				if a, err := w.eng.Evaluate(tm); a == nil && err == nil {
					t.Fatalf("neither action nor error: %+v", tm)
				}
			}()
		}
	}
	rpStat(n)
}

func TestReplay_C07(t *testing.T) { // rules of an OIDC policy configured without any
	rpRun(t, rpN(1500, 30000))
}
