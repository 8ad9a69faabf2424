package controller

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"go.uber.org/zap"
	utilruntime "k8s.io/apimachinery/pkg/util/runtime"
	"k8s.io/client-go/tools/cache"
	"k8s.io/client-go/util/workqueue"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
)

func rpRand() *rand.Rand {
	zap.ReplaceGlobals(zap.NewNop())
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func rpN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return 4 * quick
}

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

type rpInformer struct {
	cache.SharedIndexInformer
	cache.Indexer
	objs map[string]interface{}
	err  error
}

func (i *rpInformer) GetIndexer() cache.Indexer { return i }
func (i *rpInformer) GetByKey(k string) (interface{}, bool, error) {
	if i.err != nil {
		return nil, false, i.err
	}
	o, ok := i.objs[k]
	return o, ok, nil
}
func (i *rpInformer) AddIndexers(x cache.Indexers) error { return nil }
func (i *rpInformer) GetStore() cache.Store              { return i }

// A queue which says what is done to it.
type rpQueue struct {
	workqueue.RateLimitingInterface
	items []interface{}
	times map[interface{}]int
	log   []string
}

func (q *rpQueue) Get() (interface{}, bool) {
	if len(q.items) == 0 {
		return nil, true
	}
	k := q.items[0]
	q.items = q.items[1:]
	return k, false
}
func (q *rpQueue) Done(k interface{}) { q.log = append(q.log, fmt.Sprint("done ", k)) }
func (q *rpQueue) Forget(k interface{}) {
	q.log = append(q.log, fmt.Sprint("forget ", k))
	q.times[k] = 0
}
func (q *rpQueue) NumRequeues(k interface{}) int { return q.times[k] }
func (q *rpQueue) AddRateLimited(k interface{}) {
	q.log = append(q.log, fmt.Sprint("again ", k))
	q.times[k]++
	q.items = append(q.items, k)
}

type rpHandler struct{ log []interface{} }

func (h *rpHandler) HandleAddUpdateEvent(o interface{}) { h.log = append(h.log, o) }
func (h *rpHandler) HandleDeleteEvent(o interface{})    { h.log = append(h.log, o) }

func TestReplay_C17(t *testing.T) {
	utilruntime.ErrorHandlers = nil
	r := rpRand()
	n := rpN(3000, 50000)
	for i := 0; i < n; i++ {
		kind := []v1.CrdType{v1.JWTCONFIG, v1.OIDCCONFIG, v1.POLICY}[r.Intn(3)]
		inf := &rpInformer{objs: map[string]interface{}{"n/a": &v1.JwtConfig{}, "n/b": &v1.Policy{}}}
		q := &rpQueue{times: map[interface{}]int{}}
		h := &rpHandler{}
		c := &Controller{CrdType: kind, Queue: q, Informer: inf, Handler: h}
		key := []string{"n/a", "n/b", "n/gone", "gone"}[r.Intn(4)]
		q.items = []interface{}{key}
		fails := r.Intn(9)
		if r.Intn(2) == 0 {
			fails = 0
		}
		tries := 0
		for len(q.items) > 0 {
			if tries > 20 {
				t.Fatalf("key %s is retried for ever", key)
			}
			inf.err = nil
			if tries < fails {
				inf.err = errors.New("unavailable")
			}
			tries++
			if !c.processNextItem() {
				t.Fatalf("the worker ends after key %s (lookups failing %d)", key, fails)
			}
			if inf.err != nil && len(h.log) > 0 {
				t.Fatalf("handled %v though the lookup of %s failed", h.log, key)
			}
		}
		if fails > 5 {
			fails = 6
		}
		if fails == 6 {
			if tries != 6 || len(h.log) > 0 {
				t.Fatalf("key %s: %d tries, handled %v", key, tries, h.log)
			}
			continue
		}
		var want interface{} = policy.CrdKey{Id: key, CrdType: kind}
		if o, ok := inf.objs[key]; ok {
			want = o
		}
		if len(h.log) != 1 || h.log[0] != want || tries != fails+1 {
			t.Fatalf("key %s of type %d after %d failures: handled %v, want %v once", key, kind, fails, h.log, want)
		}
		if !strings.Contains(strings.Join(q.log, ";"), "done "+key) || q.times[key] != 0 {
			t.Fatalf("key %s: queue %v", key, q.log)
		}
	}
	q := &rpQueue{times: map[interface{}]int{}}
	if (&Controller{Queue: q, Informer: &rpInformer{}, Handler: &rpHandler{}}).processNextItem() {
		t.Fatalf("the worker goes on after shutdown")
	}
	rpStat(n)
}
