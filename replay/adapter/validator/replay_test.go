package validator

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"

	"go.uber.org/zap"
	"time"

	"github.com/dgrijalva/jwt-go/v4"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
)

func rpRand() *rand.Rand {
	zap.ReplaceGlobals(zap.NewNop())
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func rpN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return 4 * quick
}

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

var (
	rpOnce sync.Once
	rpK    [3]*rsa.PrivateKey
	rpEC   *ecdsa.PrivateKey
)

func rpKeys() {
	rpOnce.Do(func() {
		for i := range rpK {
			rpK[i], _ = rsa.GenerateKey(crand.Reader, 1024)
		}
		rpEC, _ = ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	})
}

// a key set
type rpSet map[string]crypto.PublicKey

func (s rpSet) PublicKeyURL() string { return "http://keys" }
func (s rpSet) PublicKey(kid string) crypto.PublicKey {
	if k, ok := s[kid]; ok {
		return k
	}
	return nil
}

func rpToken(key *rsa.PrivateKey, header map[string]interface{}, claims jwt.MapClaims) string {
	t := jwt.NewWithClaims(jwt.SigningMethodRS256, claims)
	for k, v := range header {
		if v == nil {
			delete(t.Header, k)
		} else {
			t.Header[k] = v
		}
	}
	s, err := t.SignedString(key)
	if err != nil {
		panic(err)
	}
	return s
}

func rpValidators() map[string]TokenValidator {
	return map[string]TokenValidator{"jwt": NewTokenValidator(policy.JWT), "oidc": NewTokenValidator(policy.OIDC)}
}

// A userinfo endpoint which records what it is asked.
type rpInfo struct {
	*httptest.Server
	mu     sync.Mutex
	status int
	asked  []string
}

func rpUserinfo() *rpInfo {
	i := &rpInfo{status: 401}
	i.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		i.mu.Lock()
		defer i.mu.Unlock()
		i.asked = append(i.asked, r.Method+" "+r.Header.Get("Authorization"))
		w.WriteHeader(i.status)
	}))
	return i
}

func (i *rpInfo) set(status int) {
	i.mu.Lock()
	defer i.mu.Unlock()
	i.status, i.asked = status, nil
}

func (i *rpInfo) log() []string {
	i.mu.Lock()
	defer i.mu.Unlock()
	return append([]string(nil), i.asked...)
}

func TestReplay_C05(t *testing.T) {
	rpKeys()
	info := rpUserinfo()
	defer info.Close()
	now := time.Now().Unix()
	set := rpSet{"a": &rpK[0].PublicKey, "b": &rpK[1].PublicKey, "": &rpK[0].PublicKey, "12": &rpK[0].PublicKey, "<nil>": &rpK[0].PublicKey}
	ok := jwt.MapClaims{"exp": now + 3600}
	good := rpToken(rpK[0], map[string]interface{}{"kid": "a"}, ok)
	p := strings.Split(good, ".")
	other := strings.Split(rpToken(rpK[0], map[string]interface{}{"kid": "a"}, jwt.MapClaims{"exp": now + 3600, "x": "y"}), ".")
	none := jwt.NewWithClaims(jwt.SigningMethodNone, ok)
	none.Header["kid"] = "a"
	noneS, _ := none.SignedString(jwt.UnsafeAllowNoneSignatureType)
	hs := jwt.NewWithClaims(jwt.SigningMethodHS256, ok)
	hs.Header["kid"] = "a"
	hsS, _ := hs.SignedString([]byte("secret"))
	es := jwt.NewWithClaims(jwt.SigningMethodES256, ok)
	es.Header["kid"] = "a"
	esS, _ := es.SignedString(rpEC)
	type tc struct {
		name, token string
		keys        rpSet
		want        bool
	}
	var cases []tc
	add := func(name, token string, want bool) { cases = append(cases, tc{name, token, set, want}) }
	add("good", good, true)
	add("key b", rpToken(rpK[1], map[string]interface{}{"kid": "b"}, ok), true)
	add("without expiry", rpToken(rpK[0], map[string]interface{}{"kid": "a"}, jwt.MapClaims{"x": "y"}), true)
	add("signed by another of the keys", rpToken(rpK[1], map[string]interface{}{"kid": "a"}, ok), false)
	add("signed by a foreign key", rpToken(rpK[2], map[string]interface{}{"kid": "a"}, ok), false)
	add("unknown key id", rpToken(rpK[0], map[string]interface{}{"kid": "c"}, ok), false)
	add("no key id", rpToken(rpK[0], map[string]interface{}{"kid": nil}, ok), false)
	add("empty key id", rpToken(rpK[0], map[string]interface{}{"kid": ""}, ok), false)
	add("numeric key id", rpToken(rpK[0], map[string]interface{}{"kid": 12}, ok), false)
	add("list key id", rpToken(rpK[0], map[string]interface{}{"kid": []string{"a"}}, ok), false)
	add("expired", rpToken(rpK[0], map[string]interface{}{"kid": "a"}, jwt.MapClaims{"exp": now - 3600}), false)
	add("expired a minute ago", rpToken(rpK[0], map[string]interface{}{"kid": "a"}, jwt.MapClaims{"exp": now - 60}), false)
	add("not yet valid", rpToken(rpK[0], map[string]interface{}{"kid": "a"}, jwt.MapClaims{"exp": now + 7200, "nbf": now + 3600}), false)
	add("valid since", rpToken(rpK[0], map[string]interface{}{"kid": "a"}, jwt.MapClaims{"exp": now + 7200, "nbf": now - 3600}), true)
	add("other claims under this signature", other[0]+"."+other[1]+"."+p[2], false)
	add("no signature", p[0]+"."+p[1]+".", false)
	add("unsigned", noneS, false)
	add("hmac", hsS, false)
	add("elliptic", esS, false)
	add("empty", "", false)
	add("dots", "..", false)
	add("two parts", p[0]+"."+p[1], false)
	add("four parts", good+".x", false)
	add("space", " "+good, false)
	r := rpRand()
	for i := 0; i < rpN(60, 2000); i++ {
		b := []byte(good)
		k := r.Intn(len(b) - 1)
		c := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"[r.Intn(64)]
		if b[k] == c || b[k] == '.' || (k+1 < len(b) && b[k+1] == '.') || k >= len(b)-2 {
			continue
		}
		b[k] = c
		add(fmt.Sprintf("byte %d is %c", k, c), string(b), false)
	}
	n := 0
	for name, v := range rpValidators() {
		for _, c := range cases {
			for _, kind := range []Token{Access, ID} {
				info.set(401)
				err := v.Validate(c.token, kind, c.keys, nil, info.URL)
				n++
				if (err == nil) != c.want {
					t.Errorf("%s %s: token %q (%s) accepted: %v, want %v (%v)", name, kind, c.name, c.token, err == nil, c.want, err)
				}
			}
		}
		for _, kind := range []Token{Access, ID} {
			info.set(200)
			if v.Validate(good, kind, nil, nil, info.URL) == nil {
				t.Errorf("%s %s: accepted without key set", name, kind)
			}
			if v.Validate("", kind, set, nil, info.URL) == nil {
				t.Errorf("%s %s: empty token accepted", name, kind)
			}
			n += 2
		}
	}
	rpStat(n)
}

// ---- claim rules: an independent reading ----

func rpScalar(v interface{}) (string, bool) {
	switch x := v.(type) {
	case bool:
		if x {
			return "true", true
		}
		return "false", true
	case float64:
		return fmt.Sprintf("%.0f", x), true
	case string:
		return x, true
	}
	return "", false
}

func rpValues(path string, claims map[string]interface{}) ([]string, bool) {
	var cur interface{} = claims
	for _, p := range strings.Split(path, ".") {
		m, ok := cur.(map[string]interface{})
		if !ok {
			return nil, true
		}
		cur, ok = m[p]
		if !ok {
			return nil, true
		}
	}
	switch x := cur.(type) {
	case nil:
		return nil, true
	case string:
		return strings.Split(x, " "), true
	case []interface{}:
		var out []string
		for _, e := range x {
			s, ok := rpScalar(e)
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		return out, true
	}
	s, ok := rpScalar(cur)
	return []string{s}, ok
}

func rpHolds(r v1.Rule, claims map[string]interface{}) bool {
	have, ok := rpValues(r.Claim, claims)
	if !ok {
		return false
	}
	n := 0
	for _, w := range r.Values {
		for _, h := range have {
			if h == w {
				n++
				break
			}
		}
	}
	switch r.Match {
	case "ANY":
		return n > 0
	case "NOT":
		return n == 0
	}
	return len(r.Values) > 0 && n == len(r.Values)
}

func rpClaim(r *rand.Rand, depth int) interface{} {
	words := []string{"a", "b", "a b", "b  c", "", "true", "1", "2", "c", " a", "a.b"}
	switch k := r.Intn(10); {
	case k < 3:
		return words[r.Intn(len(words))]
	case k == 3:
		return r.Intn(2) == 0
	case k == 4:
		return []interface{}{float64(1), float64(2), 1.4, 1.6, float64(-3), 1e6, 12345678901.0}[r.Intn(7)]
	case k == 5:
		return nil
	case k < 8:
		var l []interface{}
		n := r.Intn(4)
		if r.Intn(10) == 0 {
			n = 20
		}
		for ; n > 0; n-- {
			switch r.Intn(8) {
			case 0:
				l = append(l, r.Intn(2) == 0)
			case 1:
				l = append(l, float64(r.Intn(3)))
			case 2:
				if r.Intn(3) == 0 {
					l = append(l, rpClaim(r, 0))
				}
			default:
				l = append(l, words[r.Intn(len(words))])
			}
		}
		return l
	}
	if depth == 0 {
		return "b"
	}
	m := map[string]interface{}{}
	for n := r.Intn(3); n >= 0; n-- {
		m[[]string{"x", "y", "z"}[r.Intn(3)]] = rpClaim(r, depth-1)
	}
	return m
}

func rpRule(r *rand.Rand) v1.Rule {
	words := []string{"a", "b", "c", "true", "false", "1", "2", "a b", "", "-3", "1000000", "12345678901", "a.b"}
	if r.Intn(3) == 0 { // deep
		u := v1.Rule{Claim: "d", Match: []string{"ANY", "NOT", "ALL"}[r.Intn(3)], Values: []string{[]string{"b", "a"}[r.Intn(2)]}}
		for n := r.Intn(9); n > 0; n-- {
			u.Claim += ".d"
		}
		return u
	}
	u := v1.Rule{
		Claim: []string{"x", "y", "x.y", "x.z.y", "z", "w", "y.x", "scope"}[r.Intn(8)],
		Match: []string{"ANY", "NOT", "ALL", "", "any"}[r.Intn(5)],
	}
	n := r.Intn(3)
	if r.Intn(10) == 0 {
		n = 8
	}
	for ; n > 0; n-- {
		u.Values = append(u.Values, words[r.Intn(len(words))])
	}
	return u
}

// rpDecoded: claims as a parsed token has them.
func rpDecoded(claims map[string]interface{}) map[string]interface{} {
	b, _ := json.Marshal(claims)
	m := map[string]interface{}{}
	_ = json.Unmarshal(b, &m)
	return m
}

func TestReplay_C06(t *testing.T) {
	rpKeys()
	r := rpRand()
	set := rpSet{"a": &rpK[0].PublicKey}
	v := NewTokenValidator(policy.JWT)
	n := 0
	for i := 0; i < rpN(600, 20000); i++ {
		claims := map[string]interface{}{"x": rpClaim(r, 3), "y": rpClaim(r, 2), "z": rpClaim(r, 1)}
		claims["d"] = rpClaim(r, 0)
		for n := r.Intn(8); n > 0; n-- {
			claims["d"] = map[string]interface{}{"d": claims["d"]}
		}
		token := rpToken(rpK[0], map[string]interface{}{"kid": "a"}, claims)
		d := rpDecoded(claims)
		for k := 0; k < 12; k++ {
			u := rpRule(r)
			n++
			err := v.Validate(token, Access, set, []v1.Rule{u}, "")
			if want := rpHolds(u, d); (err == nil) != want {
				b, _ := json.Marshal(d)
				t.Fatalf("rule %+v on claims %s: holds %v, want %v (%v)", u, b, err == nil, want, err)
			}
		}
	}
	rpStat(n)
}

func TestReplay_C07(t *testing.T) {
	rpKeys()
	r := rpRand()
	set := rpSet{"a": &rpK[0].PublicKey}
	n := 0
	vs := rpValidators()
	for i := 0; i < rpN(500, 15000); i++ {
		claims := map[string]interface{}{"x": rpClaim(r, 2), "y": rpClaim(r, 1), "z": rpClaim(r, 1), "scope": "a b"}
		token := rpToken(rpK[0], map[string]interface{}{"kid": "a"}, claims)
		d := rpDecoded(claims)
		for k := 0; k < 4; k++ {
			var rules []v1.Rule
			var scopes []string
			for m := r.Intn(5); m > 0; m-- {
				u := rpRule(r)
				u.Source = []string{"", "access_token", "id_token", "other"}[r.Intn(4)]
				if m > 1 && r.Intn(2) == 0 { // one which holds
					u.Claim, u.Match, u.Values = "scope", "ANY", []string{"b", "q"}
				}
				if u.Claim == "scope" && scopes == nil {
					scopes = u.Values
				}
				rules = append(rules, u)
			}
			// the first scope rule, even one without values
			scopes = nil
			for _, u := range rules {
				if u.Claim == "scope" {
					scopes = u.Values
					break
				}
			}
			for _, kind := range []Token{Access, ID} {
				want := true
				for _, u := range rules {
					if u.Source == kind.String() || u.Source == "" && kind == Access {
						want = want && rpHolds(u, d)
					}
				}
				for name, v := range vs {
					n++
					err := v.Validate(token, kind, set, rules, "")
					if (err == nil) != want {
						b, _ := json.Marshal(d)
						t.Fatalf("%s: rules %+v on %s with claims %s: accepted %v, want %v (%v)", name, rules, kind, b, err == nil, want, err)
					}
					if err != nil && strings.Join(err.Scopes, "\x00") != strings.Join(scopes, "\x00") {
						t.Fatalf("%s: rules %+v: rejected with scopes %q, want %q", name, rules, err.Scopes, scopes)
					}
				}
			}
		}
	}
	rpStat(n)
}

func TestReplay_C08(t *testing.T) {
	rpKeys()
	info := rpUserinfo()
	defer info.Close()
	now := time.Now().Unix()
	set := rpSet{"a": &rpK[0].PublicKey}
	v := NewTokenValidator(policy.OIDC)
	hd := map[string]interface{}{"kid": "a"}
	jwtGood := rpToken(rpK[0], hd, jwt.MapClaims{"exp": now + 3600, "x": "a"})
	unverifiable := map[string]string{
		"opaque": "opaque-token", "dotted": "a.b", "three parts": "a.b.c", "five": "a.b.c.d.e", "word": "x y",
		"expired":    rpToken(rpK[0], hd, jwt.MapClaims{"exp": now - 3600, "x": "a"}),
		"foreign":    rpToken(rpK[1], hd, jwt.MapClaims{"exp": now + 3600, "x": "a"}),
		"unknown id": rpToken(rpK[0], map[string]interface{}{"kid": "q"}, jwt.MapClaims{"exp": now + 3600, "x": "a"}),
	}
	accessRule := []v1.Rule{{Claim: "x", Match: "ANY", Values: []string{"a"}, Source: "access_token"}}
	idRule := []v1.Rule{{Claim: "x", Match: "ANY", Values: []string{"a"}, Source: "id_token"}}
	second := append(append([]v1.Rule{}, idRule...), accessRule...)
	n := 0
	for round := 0; round < rpN(2, 20); round++ {
		for name, token := range unverifiable {
			for _, status := range []int{200, 401, 201, 204, 404, 500, 200, 299} {
				for rn, rules := range map[string][]v1.Rule{"none": nil, "id": idRule, "access": accessRule, "id and access": second} {
					n++
					info.set(status)
					err := v.Validate(token, Access, set, rules, info.URL)
					asked := info.log()
					want := status == 200 && (rn == "none" || rn == "id")
					if (err == nil) != want {
						t.Errorf("access token %s, userinfo %d, rules %s: accepted %v, want %v (%v)", name, status, rn, err == nil, want, err)
					}
					if err == nil && (len(asked) == 0 || asked[len(asked)-1] != "GET Bearer "+token) {
						t.Errorf("access token %s accepted, userinfo was asked %q", name, asked)
					}
					info.set(status)
					if err := v.Validate(token, ID, set, nil, info.URL); err == nil {
						t.Errorf("ID token %s accepted (userinfo %d)", name, status)
					}
				}
			}
		}
		for _, kind := range []Token{Access, ID} {
			info.set(200)
			if v.Validate(jwtGood, kind, set, nil, info.URL) != nil {
				t.Errorf("a verifiable %s is rejected", kind)
			}
			bad := []v1.Rule{{Claim: "x", Match: "ANY", Values: []string{"b"}, Source: kind.String()}}
			info.set(200)
			if v.Validate(jwtGood, kind, set, bad, info.URL) == nil {
				t.Errorf("a verifiable %s is accepted against its rules", kind)
			}
			n += 2
		}
		if v.Validate("opaque", Access, set, nil, "http://127.0.0.1:1/none") == nil || v.Validate("opaque", Access, set, nil, "::bad") == nil || v.Validate("opaque", Access, set, nil, "") == nil {
			t.Errorf("accepted although userinfo could not be asked")
		}
	}
	rpStat(n)
}

// any token, key set, rule list and answer: no panic
func TestReplay_C27(t *testing.T) {
	rpKeys()
	info := rpUserinfo()
	defer info.Close()
	r := rpRand()
	set := rpSet{"a": &rpK[0].PublicKey, "nil": nil}
	n := rpN(1500, 40000)
	vs := rpValidators()
	for i := 0; i < n; i++ {
		var token string
		switch r.Intn(3) {
		case 0:
			b := make([]byte, r.Intn(12))
			for k := range b {
				b[k] = "a. =e\x00\xff"[r.Intn(7)]
			}
			token = string(b)
		case 1:
			token = strings.Repeat(".", r.Intn(4)) + []string{"", "x", "e30", "bnVsbA", "W10"}[r.Intn(5)] + strings.Repeat(".", r.Intn(4))
		default:
			claims := map[string]interface{}{"x": rpClaim(r, 2), "scope": rpClaim(r, 1)}
			if r.Intn(4) == 0 {
				claims["exp"] = rpClaim(r, 1)
			}
			token = rpToken(rpK[0], map[string]interface{}{"kid": []interface{}{"a", "nil", "q", 1, nil, true}[r.Intn(6)]}, claims)
		}
		var rules []v1.Rule
		for m := r.Intn(3); m > 0; m-- {
			u := rpRule(r)
			u.Source = []string{"", "access_token", "id_token"}[r.Intn(3)]
			rules = append(rules, u)
		}
		var ks keyset.KeySet
		if r.Intn(5) > 0 {
			ks = set
		}
		url := []string{info.URL, info.URL, "", "http://127.0.0.1:1/", "://"}[r.Intn(5)]
		info.set([]int{200, 401, 302, 500}[r.Intn(4)])
		for name, v := range vs {
			for _, kind := range []Token{Access, ID} {
				func() {
					defer func() {
						if p := recover(); p != nil {
							t.Fatalf("panic %v: %s %s token %q rules %+v userinfo %q", p, name, kind, token, rules, url)
						}
					}()
					_ = v.Validate(token, kind, ks, rules, url)
				}()
			}
		}
	}
	rpStat(n)
}
