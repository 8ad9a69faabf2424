package crdeventhandler

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"go.uber.org/zap"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
)

func rpRand() *rand.Rand {
	zap.ReplaceGlobals(zap.NewNop())
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func rpN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return 4 * quick
}

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

func TestReplay_C18(t *testing.T) {
	r := rpRand()
	n := rpN(40000, 600000)
	exact := []string{"", "", "/", "//", "/a", "/a/", "/a/b", "/a/b///", "a", "/a/*", "/a//b", "///"}
	prefix := []string{"", "", "/", "/a", "/a/", "/a/*", "/*", "/a/b/", "/a.b/*"}
	wantPrefix := map[string]string{"/": "/*", "/a": "/a/*", "/a/": "/a/*", "/a/*": "/a/*", "/*": "/*", "/a/b/": "/a/b/*", "/a.b/*": "/a.b/*"}
	methods := map[string]policy.Method{"": policy.ALL, "ALL": policy.ALL, "GET": policy.GET, "PUT": policy.PUT, "POST": policy.POST, "DELETE": policy.DELETE, "PATCH": policy.PATCH, "HEAD": policy.ALL, "get": policy.ALL}
	names := []string{"", "ALL", "GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "get"}
	for i := 0; i < n; i++ {
		ns := []string{"ns", "", "other"}[r.Intn(3)]
		var target []v1.TargetElement
		var want []policy.PolicyMapping
		for k := r.Intn(4); k > 0; k-- {
			te := v1.TargetElement{ServiceName: []string{"s", "t", ""}[r.Intn(3)]}
			if r.Intn(8) == 0 {
				te.Paths = []v1.PathConfig{}
			}
			for j := r.Intn(4); j > 0; j-- {
				pc := v1.PathConfig{Exact: exact[r.Intn(len(exact))], Prefix: prefix[r.Intn(len(prefix))], Method: names[r.Intn(len(names))]}
				for a := r.Intn(3); a > 0; a-- {
					pc.Policies = append(pc.Policies, v1.PathPolicy{Config: fmt.Sprint(i, k, j, a)})
				}
				te.Paths = append(te.Paths, pc)
				add := func(path string) {
					want = append(want, policy.PolicyMapping{Actions: pc.Policies, Endpoint: policy.Endpoint{Service: policy.Service{Namespace: ns, Name: te.ServiceName}, Path: path, Method: methods[pc.Method]}})
				}
				if pc.Exact != "" {
					p := strings.TrimRight(pc.Exact, "/")
					if p == "" {
						p = "/"
					}
					add(p)
				}
				if pc.Prefix != "" {
					add(wantPrefix[pc.Prefix])
				}
				if pc.Exact == "" && pc.Prefix == "" {
					add("/*")
				}
			}
			target = append(target, te)
		}
		before, _ := json.Marshal(target)
		got := ParseTarget(target, ns)
		after, _ := json.Marshal(target)
		if string(before) != string(after) {
			t.Fatalf("target %s became %s", before, after)
		}
		if len(got) != len(want) {
			t.Fatalf("target %s in %q: %+v, want %+v", before, ns, got, want)
		}
		for k := range want {
			if got[k].Endpoint != want[k].Endpoint || len(got[k].Actions) != len(want[k].Actions) || len(want[k].Actions) > 0 && !reflect.DeepEqual(got[k].Actions, want[k].Actions) {
				t.Fatalf("target %s in %q: endpoint %d is %+v, want %+v", before, ns, k, got[k], want[k])
			}
		}
	}
	rpStat(n)
}
