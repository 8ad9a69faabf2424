package networking

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"go.uber.org/zap"
)

func rpRand() *rand.Rand {
	zap.ReplaceGlobals(zap.NewNop())
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func rpN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return 4 * quick
}

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

type rpBody struct {
	io.Reader
	closed int
	fail   bool
}

func (b *rpBody) Read(p []byte) (int, error) {
	if b.fail {
		return 0, errors.New("connection lost")
	}
	return b.Reader.Read(p)
}
func (b *rpBody) Close() error { b.closed++; return nil }

type rpTransport struct {
	code int
	body *rpBody
	err  error
}

func (t *rpTransport) RoundTrip(q *http.Request) (*http.Response, error) {
	if t.err != nil {
		return nil, t.err
	}
	return &http.Response{StatusCode: t.code, Status: strconv.Itoa(t.code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: t.body, Request: q}, nil
}

type rpValue struct {
	A      string `json:"a"`
	valid  int
	reject bool
}

func (v *rpValue) OK() error {
	v.valid++
	if v.reject || v.A == "reject" {
		return errors.New("not valid")
	}
	return nil
}

func TestReplay_C23(t *testing.T) {
	r := rpRand()
	n := rpN(20000, 300000)
	for i := 0; i < n; i++ {
		tr := &rpTransport{code: []int{200, 201, 204, 299, 300, 199, 400, 401, 404, 500, 503, 250, 226, 304}[r.Intn(14)]}
		text := []string{`{"a":"x"}`, `{"a":"reject"}`, `{`, ``, `[]`, `{"a":1}`, `{}`, ` {"a":"y"} trailing`}[r.Intn(8)]
		tr.body = &rpBody{Reader: strings.NewReader(text), fail: r.Intn(10) == 0}
		if r.Intn(10) == 0 {
			tr.err = errors.New("no connection")
		}
		c := &HTTPClient{Client: &http.Client{Transport: tr}}
		q, _ := http.NewRequest([]string{"GET", "POST"}[r.Intn(2)], "http://host/path", nil)
		var okV, failV *rpValue
		var a, b OK
		if r.Intn(4) > 0 {
			okV = &rpValue{}
			a = okV
		}
		if r.Intn(4) > 0 {
			failV = &rpValue{}
			b = failV
		}
		res, err := c.Do(q, a, b)
		what := fmt.Sprintf("status %d body %q (unreadable %v, transport %v), success value %v failure value %v", tr.code, text, tr.body.fail, tr.err, okV, failV)
		if tr.err != nil {
			if err == nil || okV != nil && okV.valid > 0 || failV != nil && failV.valid > 0 {
				t.Fatalf("transport error: %v %v: %s", res, err, what)
			}
			continue
		}
		if tr.body.closed == 0 {
			t.Fatalf("body not closed: %s", what)
		}
		used, other := okV, failV
		if tr.code < 200 || tr.code > 299 {
			used, other = failV, okV
		}
		if other != nil && (other.valid > 0 || other.A != "") {
			t.Fatalf("the other value was set to %+v: %s", other, what)
		}
		wantErr := false
		if used != nil {
			good := map[string]string{`{"a":"x"}`: "x", `{}`: "", ` {"a":"y"} trailing`: "y"}
			wantA, ok := good[text]
			wantErr = !ok || tr.body.fail
			if !wantErr && (used.A != wantA || used.valid == 0) {
				t.Fatalf("decoded %+v, want %q: %s", used, wantA, what)
			}
		}
		if (err != nil) != wantErr {
			t.Fatalf("error %v, want one: %v: %s", err, wantErr, what)
		}
		if err == nil && (res == nil || res.StatusCode != tr.code) {
			t.Fatalf("response %v: %s", res, what)
		}
		if q.Header.Get("x-filter-type") != "IstioAdapter" {
			t.Fatalf("header %v", q.Header)
		}
	}
	// retries
	for attempts := 1; attempts < 7; attempts++ {
		for first := 1; first < 9; first++ { // the first success
			calls := 0
			res, err := Retry(attempts, time.Nanosecond, func() (interface{}, error) {
				calls++
				if calls >= first {
					return fmt.Sprint("result ", calls), nil
				}
				return "failed", fmt.Errorf("error %d", calls)
			})
			n++
			if first <= attempts {
				if calls != first || err != nil || res != fmt.Sprint("result ", first) {
					t.Errorf("Retry(%d), success at call %d: %d calls, %v %v", attempts, first, calls, res, err)
				}
			} else if calls != attempts || err == nil || err.Error() != fmt.Sprint("error ", attempts) {
				t.Errorf("Retry(%d), success at call %d: %d calls, %v %v", attempts, first, calls, res, err)
			}
		}
	}
	rpStat(n)
}
