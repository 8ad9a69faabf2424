package keyset

import (
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"testing"

	"go.uber.org/zap"
)

func rpRand() *rand.Rand {
	zap.ReplaceGlobals(zap.NewNop())
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func rpN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return 4 * quick
}

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

func rpEncode(r *rand.Rand, b []byte) string {
	return []*base64.Encoding{base64.RawURLEncoding, base64.URLEncoding, base64.RawStdEncoding, base64.StdEncoding}[r.Intn(4)].EncodeToString(b)
}

func rpBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
		if r.Intn(3) == 0 {
			b[i] = []byte{0, 0xfb, 0xff, 0xfe, 0x3f}[r.Intn(5)]
		}
	}
	return b
}

type rpServer struct {
	*httptest.Server
	code int
	body string
	hits int
}

func rpServe() *rpServer {
	s := &rpServer{code: 200, body: `{"keys":[]}`}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		s.hits++
		if s.code == -1 {
			c, _, _ := w.(http.Hijacker).Hijack()
			c.Close()
			return
		}
		w.WriteHeader(s.code)
		fmt.Fprint(w, s.body)
	}))
	return s
}

func rpKeys(keys ...map[string]interface{}) string {
	b, _ := json.Marshal(map[string]interface{}{"keys": keys})
	return string(b)
}

// rpPub: the key a set made of this one JWK holds
func rpPub(s *rpServer, jwk map[string]interface{}) interface{} {
	jwk["kid"] = "k"
	s.code, s.body = 200, rpKeys(jwk)
	return New(s.URL, nil).PublicKey("k")
}

func TestReplay_C20(t *testing.T) {
	r := rpRand()
	s := rpServe()
	defer s.Close()
	n := 0
	for i := 0; i < rpN(1500, 20000); i++ {
		nb := rpBytes(r, 1+r.Intn(40))
		eb := rpBytes(r, 1+r.Intn(4))
		jwk := map[string]interface{}{"kty": "RSA", "n": rpEncode(r, nb), "e": rpEncode(r, eb)}
		got, ok := rpPub(s, jwk).(*rsa.PublicKey)
		wantN, wantE := new(big.Int).SetBytes(nb), new(big.Int).SetBytes(eb)
		n++
		if !ok || got == nil || got.N.Cmp(wantN) != 0 || big.NewInt(int64(got.E)).Cmp(wantE) != 0 {
			t.Fatalf("%v decodes to %+v, want modulus %v exponent %v", jwk, got, wantN, wantE)
		}
	}
	good := func() map[string]interface{} {
		return map[string]interface{}{"kty": "RSA", "n": "AQAB", "e": "AQAB"}
	}
	with := func(k string, v interface{}) map[string]interface{} {
		m := good()
		m[k] = v
		return m
	}
	bad := []map[string]interface{}{
		with("kty", "EC"), with("kty", ""), with("kty", "rsa"), with("kty", "oct"), with("n", ""), with("e", ""), with("n", "!"), with("e", "!"),
		with("n", "AQ AB"), with("e", "A"), with("n", "A"), with("e", "AQABA"), with("n", "====="), with("e", base64.RawURLEncoding.EncodeToString([]byte{1, 0, 0, 0, 1})),
		with("e", base64.StdEncoding.EncodeToString([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9})), with("n", "AQ+_"), with("n", "AQAB=AQAB"),
		{"kty": "RSA", "n": "AQAB"}, {"kty": "RSA", "e": "AQAB"}, {"n": "AQAB", "e": "AQAB"},
	}
	for _, jwk := range bad {
		n++
		if got := rpPub(s, jwk); got != nil {
			t.Errorf("%v decodes to %+v", jwk, got)
		}
	}
	rpStat(n)
}

func TestReplay_C19(t *testing.T) {
	r := rpRand()
	s := rpServe()
	defer s.Close()
	n := 0
	for i := 0; i < rpN(300, 6000); i++ {
		held := map[string]int64{}
		kids := []string{"a", "b", "c", "d", ""}
		var log []string
		fails := false
		// the next answer of the server; returns the keys it has
		next := func() map[string]int64 {
			fails = false
			var keys []map[string]interface{}
			m := map[string]int64{}
			for k := r.Intn(5); k > 0; k-- {
				kid := kids[r.Intn(5)]
				v := int64(1 + r.Intn(1000000))
				jwk := map[string]interface{}{"kty": "RSA", "kid": kid, "n": base64.RawURLEncoding.EncodeToString(big.NewInt(v).Bytes()), "e": "AQAB"}
				usable := kid != ""
				switch r.Intn(6) {
				case 0:
					jwk["kty"] = "EC"
					usable = false
				case 1:
					jwk["n"] = "!"
					usable = false
				}
				if _, dup := m[kid]; dup {
					continue
				}
				keys = append(keys, jwk)
				if usable {
					m[kid] = v
				}
			}
			s.code = 200
			b, _ := json.Marshal(map[string]interface{}{"keys": append([]map[string]interface{}{}, keys...)})
			s.body = string(b)
			switch r.Intn(10) {
			case 0:
				s.code, fails = 500, true
			case 1:
				s.code, fails = 201, true
			case 2:
				s.code, s.body, fails = 400, `{"error":"invalid"}`, true
			case 3:
				s.body, fails = `{"keyss":[]}`, true
			case 4:
				s.body, fails = `{"keys":`, true
			case 5:
				s.code, fails = -1, true
			}
			log = append(log, fmt.Sprintf("%d %s", s.code, s.body))
			return m
		}
		m := next()
		if !fails {
			held = m
		}
		s.hits = 0
		ks := New(s.URL, nil)
		for k := 0; k < 10; k++ {
			if r.Intn(2) == 0 {
				m = next()
			}
			s.hits = 0
			kid := kids[r.Intn(5)]
			_, have := held[kid]
			got := ks.PublicKey(kid)
			if have && s.hits != 0 {
				t.Fatalf("%v: lookup of the known key %q asks the server", log, kid)
			}
			if !have {
				if s.hits == 0 {
					t.Fatalf("%v: lookup of the unknown key %q does not ask the server", log, kid)
				}
				if s.code != -1 && s.hits != 1 {
					t.Fatalf("%v: lookup of the unknown key %q asks the server %d times", log, kid, s.hits)
				}
				if !fails {
					held = m
				}
			}
			n++
			v, ok := held[kid]
			pk, isKey := got.(*rsa.PublicKey)
			if ok != (got != nil) || ok && (!isKey || pk.N.Int64() != v || pk.E != 65537) {
				t.Fatalf("%v: key %q is %+v, want %v %v", log, kid, got, ok, v)
			}
			for x, v := range held { // and nothing good is lost
				s.hits = 0
				pk, _ := ks.PublicKey(x).(*rsa.PublicKey)
				if pk == nil || pk.N.Int64() != v || s.hits > 0 {
					t.Fatalf("%v: key %q became %+v, want %d", log, x, pk, v)
				}
			}
		}
	}
	rpStat(n)
}
