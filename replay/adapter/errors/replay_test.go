package errors

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"go.uber.org/zap"
)

func rpRand() *rand.Rand {
	zap.ReplaceGlobals(zap.NewNop())
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func rpN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return 4 * quick
}

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

func TestReplay_C24(t *testing.T) {
	r := rpRand()
	codes := []string{"invalid_request", "invalid_token", "insufficient_scope", "", "x", "Invalid_Token", "invalid_client", "invalid_request ", "server_error"}
	http := map[string]int{"invalid_request": 400, "invalid_token": 401, "insufficient_scope": 403}
	text := map[string]string{"invalid_request": "Bad Request", "invalid_token": "Unauthorized", "insufficient_scope": "Forbidden"}
	n := rpN(20000, 300000)
	for i := 0; i < n; i++ {
		e := &OAuthError{Code: codes[r.Intn(len(codes))], Msg: []string{"", "m"}[r.Intn(2)]}
		for k := r.Intn(4); k > 0; k-- {
			e.Scopes = append(e.Scopes, []string{"a", "b", "", "c d"}[r.Intn(4)])
		}
		c := *e
		want, ok := http[e.Code]
		if !ok {
			want = 500
		}
		if got := int(e.HTTPCode()); got != want {
			t.Fatalf("%+v maps to %d, want %d", e, got, want)
		}
		if got := e.ShortDescription(); ok && got != text[e.Code] {
			t.Fatalf("%+v is described as %q", e, got)
		}
		if got := e.ScopeStr(); got != strings.Join(e.Scopes, " ") {
			t.Fatalf("%+v has scopes %q", e, got)
		}
		if (e.OK() == nil) != (e.Code != "") {
			t.Fatalf("%+v: OK() is %v", e, e.OK())
		}
		if e.Error() == "" {
			t.Fatalf("%+v has no text", e)
		}
		if fmt.Sprint(c) != fmt.Sprint(*e) {
			t.Fatalf("%+v became %+v", c, e)
		}
	}
	if e := UnauthorizedHTTPException("m", []string{"s"}); e.HTTPCode() != 401 || e.ScopeStr() != "s" || e.Msg != "m" {
		t.Errorf("%+v", e)
	}
	if e := BadRequestHTTPException("m"); e.HTTPCode() != 400 || e.ScopeStr() != "" || e.Msg != "m" {
		t.Errorf("%+v", e)
	}
	if e := ExpiredTokenError(); e.HTTPCode() != 401 {
		t.Errorf("%+v", e)
	}
	rpStat(n)
}
