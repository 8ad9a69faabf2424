package pathtrie

import (
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

// Entries is the abstract view of all tries: what each holds at each path.
// The users of a trie are checked against this view; C28 is about the trie.
type TrieKey struct {
	T   Trie
	Key string
}

var Entries map[TrieKey]interface{}

func any_bool() bool         { panic("any") }
func any_int() int           { panic("any") }
func any_value() interface{} { panic("any") }

func forallKey(f func(k string) bool) bool { panic("spec") }

func Spec_entry(t Trie, key string) interface{} { return Entries[TrieKey{t, key}] }

// Spec_encloses: the wildcard at key[:n] encloses key.
func Spec_encloses(key string, n int) bool {
	return 0 <= n && n <= len(key) && (n == 0 || n == len(key) || key[n] == '/')
}

//gov:model adapter/policy/store/pathtrie.NewPathTrie
func m_NewPathTrie() *PathTrie {
	t := new(PathTrie)
	vspec.Assume(forallKey(func(k string) bool { return Entries[TrieKey{t, k}] == nil }))
	return t
}

//gov:model (adapter/policy/store/pathtrie.Trie).Get
func m_Get(t Trie, key string) interface{} { return Entries[TrieKey{t, key}] }

//gov:model (adapter/policy/store/pathtrie.Trie).Put
func m_Put(t Trie, key string, value interface{}) bool {
	isNew := Entries[TrieKey{t, key}] == nil
	Entries[TrieKey{t, key}] = value
	return isNew
}

//gov:model (adapter/policy/store/pathtrie.Trie).Find
func m_Find(t Trie, key string, accept func(value interface{}) bool) interface{} {
	exact := Entries[TrieKey{t, key}]
	if accept(exact) {
		return exact
	}
	n := any_int()
	vspec.Assume(-1 <= n && n <= len(key))
	vspec.Assume(vspec.ForAll(n+1, len(key)+1, func(m int) bool {
		return !Spec_encloses(key, m) || !accept(Entries[TrieKey{t, key[:m] + "/*"}])
	}))
	if n == -1 {
		return nil
	}
	v := Entries[TrieKey{t, key[:n] + "/*"}]
	vspec.Assume(Spec_encloses(key, n) && accept(v))
	return v
}
