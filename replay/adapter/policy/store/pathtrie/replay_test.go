package pathtrie

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
)

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

// rpUniverse: all paths of up to depth segments (with and without a slash in
// front of the first), and the empty one.
func rpUniverse(depth int, segs []string) []string {
	out := []string{""}
	level := []string{""}
	for i := 0; i < depth; i++ {
		var next []string
		for _, p := range level {
			for _, s := range segs {
				next = append(next, p+"/"+s)
			}
		}
		out = append(out, next...)
		level = next
	}
	return append(out, "a", "a/b", "a/*", "*", "abc", "/abc", "/ab/*", "/a/b/*/c/d", "/a//", "/a//*", "///*")
}

// rpFind is the oracle: the value of the path itself or of the deepest wildcard
// entry over it, among those accepted.
func rpFind(m map[string]interface{}, key string, accept func(interface{}) bool) interface{} {
	if v := m[key]; v != nil && accept(v) {
		return v
	}
	if key != "" { // the empty path has a segment of its own, under which nothing can be
		if v := m[key+"/*"]; v != nil && accept(v) {
			return v
		}
	}
	for i := len(key) - 1; i >= 1; i-- {
		if key[i] == '/' {
			if v := m[key[:i]+"/*"]; v != nil && accept(v) {
				return v
			}
		}
	}
	if v := m["/*"]; v != nil && accept(v) {
		return v
	}
	return nil
}

type rpTrie struct {
	trie *PathTrie
	m    map[string]interface{}
	log  []string
	seq  int
}

func rpNew() *rpTrie { return &rpTrie{trie: NewPathTrie(), m: map[string]interface{}{}} }

func (x *rpTrie) String() string { return strings.Join(x.log, "; ") }

func (x *rpTrie) put(t *testing.T, k string, v interface{}) {
	x.log = append(x.log, fmt.Sprintf("Put(%q, %v)", k, v))
	if isNew := x.trie.Put(k, v); isNew != (x.m[k] == nil) {
		t.Fatalf("%v returned %v, there was %v", x, isNew, x.m[k])
	}
	if x.m[k] = v; v == nil {
		delete(x.m, k)
	}
}

func (x *rpTrie) del(t *testing.T, k string) {
	x.log = append(x.log, fmt.Sprintf("Delete(%q)", k))
	if was := x.trie.Delete(k); !was && x.m[k] != nil {
		t.Fatalf("%v returned false, there was %v", x, x.m[k])
	}
	delete(x.m, k)
}

func (x *rpTrie) check(t *testing.T, keys []string, r *rand.Rand) int {
	odd := r.Intn(2)
	accepts := []func(interface{}) bool{
		func(v interface{}) bool { return v != nil },
		func(v interface{}) bool { return v != nil && v.(int)%2 == odd },
		func(v interface{}) bool { return false },
	}
	for _, k := range keys {
		if v := x.trie.Get(k); v != x.m[k] {
			t.Fatalf("after %v: Get(%q) is %v, not %v", x, k, v, x.m[k])
		}
		if v, w := x.trie.GetActions(k), rpFind(x.m, k, accepts[0]); v != w {
			t.Fatalf("after %v: GetActions(%q) is %v, not %v", x, k, v, w)
		}
		for i, a := range accepts {
			if v, w := x.trie.Find(k, a), rpFind(x.m, k, a); v != w {
				t.Fatalf("after %v: Find(%q) among those accepted by %d (%d) is %v, not %v", x, k, i, odd, v, w)
			}
		}
	}
	return len(keys)
}

func TestReplay_C28(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed + 1))
	rounds := 3000
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds *= 20
	}
	cases := 0
	// every pair of paths of up to two segments, stored and deleted
	small := rpUniverse(2, []string{"", "a", "b", "*"})
	for _, a := range small {
		for _, b := range small {
			x := rpNew()
			x.put(t, a, 1)
			x.put(t, b, 2)
			cases += x.check(t, small, r)
			x.del(t, a)
			cases += x.check(t, small, r)
		}
	}
	// histories of up to 30 operations on paths of up to four segments
	large := rpUniverse(4, []string{"", "a", "b", "*"})
	for n := 0; n < rounds; n++ {
		x := rpNew()
		keys := make([]string, 0, 24)
		for i := 0; i < 8; i++ {
			k := large[r.Intn(len(large))]
			keys = append(keys, k)
			if i := strings.LastIndex(k, "/"); i >= 0 {
				keys = append(keys, k[:i]+"/*", k[:i], k+"/*")
			}
		}
		for i := r.Intn(30); i >= 0; i-- {
			k := keys[r.Intn(len(keys))]
			switch x.seq++; r.Intn(6) {
			case 0, 1, 2, 3:
				x.put(t, k, x.seq)
			case 4:
				x.del(t, k)
			default:
				x.put(t, k, nil)
			}
			cases += x.check(t, keys, r)
		}
		cases += x.check(t, []string{large[r.Intn(len(large))], large[r.Intn(len(large))] + "/a"}, r)
	}
	rpStat(cases)
}
