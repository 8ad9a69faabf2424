package pathtrie

// C28: the trie is the map which its users are checked against (see
// zz_verif_contracts.go). Under contract are taking paths apart (with the lemmas
// about it) and looking a path up; storing and the wildcard lookup are checked to
// a bound only (replay/adapter/policy/store/pathtrie).
//
// A path is taken apart into its segments. Lists of segments are abstract:
// numbers, of which 0 is the empty list and uf_join(p, s) the list p with s
// added (a bijection between the numbers other than 0 and the pairs). What is
// said of uf_join, uf_parent, uf_last, uf_content, uf_under and uf_proper here
// defines them; what follows from it is proved by the lemmas below.

import (
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func uf_join(p int, s string) int   { panic("uf") }
func uf_parent(l int) int           { panic("uf") }
func uf_last(l int) string          { panic("uf") }
func uf_len(l int) int              { panic("uf") }
func uf_content(l int) string       { panic("uf") }
func uf_under(a, l int) bool        { panic("uf") } // a is l or what l begins with
func uf_proper(l int) bool          { panic("uf") } // the segments of a path
func uf_list(key string) int        { panic("uf") }
func uf_seg(p string, i int) string { panic("uf") }
func uf_next(p string, i int) int   { panic("uf") }

func forallList(f func(l int) bool) bool                    { panic("spec") }
func forallLists(f func(a, l int) bool) bool                { panic("spec") }
func forallJoin(f func(p int, s string) bool) bool          { panic("spec") }
func forallUnder(f func(a, p int, s string) bool) bool      { panic("spec") }
func forallStep(f func(l int, key string, i int) bool) bool { panic("spec") }

// spec_inner: there is no slash after the first character.
func spec_inner(s string) bool { return len(s) == 0 || !vspec.Contains(s[1:], "/") }

// spec_segment: the segment of path at i, and where the next one is.
func spec_segment(path string, i int, seg string, next int) bool {
	if i < 0 || i >= len(path) {
		return seg == "" && next == -1
	}
	if next == -1 {
		return seg == path[i:] && spec_inner(seg)
	}
	return i < next && next < len(path) && path[next] == '/' && seg == path[i:next] && spec_inner(seg)
}

// Taking paths apart.
//
//gov:contract PathSegmenter
//gov:props C28
func vc_PathSegmenter(path string, start int) {
	seg, next := PathSegmenter(path, start)
	vspec.Ensures("C28: a segment reaches up to the next slash", spec_segment(path, start, seg, next))
}

func spec_defJoin(p int, s string) bool {
	l := uf_join(p, s)
	return l != 0 && uf_parent(l) == p && uf_last(l) == s && uf_content(l) == uf_content(p)+s &&
		uf_proper(l) == (uf_proper(p) && spec_inner(s) && (p == 0 || uf_content(p) != "" && len(s) > 0 && s[0] == '/'))
}

func spec_pairs(p int, s string) bool {
	l := uf_join(p, s)
	return l != 0 && uf_parent(l) == p && uf_last(l) == s && uf_len(l) == uf_len(p)+1
}

func spec_defEmpty() bool { return uf_content(0) == "" && uf_proper(0) }

func spec_defAbove(a, p int, s string) bool {
	return uf_under(a, uf_join(p, s)) == (a == uf_join(p, s) || uf_under(a, p))
}

func spec_defUnder() bool {
	return forallUnder(spec_defAbove) && forallList(func(a int) bool { return uf_under(a, 0) == (a == 0) })
}

func spec_defList(l int) bool { return l == 0 || l == uf_join(uf_parent(l), uf_last(l)) }

// spec_at: l holds the segments of key up to i, where another one begins.
func spec_at(l int, key string, i int) bool {
	return uf_proper(l) && uf_content(l) == key[:i] && (i == 0 && l == 0 || 0 < i && i < len(key) && key[i] == '/' && l != 0)
}

// lemma_list adds the segments of key from i on (a is any list).
func lemma_list(l int, key string, i, a int) int {
	seg, next := splitAt(key, i)
	vspec.Assume(spec_defJoin(l, seg) && spec_defAbove(a, l, seg))
	r := uf_join(l, seg)
	if next == -1 {
		return r
	}
	vspec.Assert("a step ahead", i < next)
	return lemma_list(r, key, next, a)
}

// splitAt is what PathSegmenter returns.
func splitAt(key string, i int) (string, int) {
	seg, next := uf_seg(key, i), uf_next(key, i)
	vspec.Assume(spec_segment(key, i, seg, next))
	return seg, next
}

// Every path has a list of segments.
//
//gov:contract lemma_list
//gov:props C28
//gov:use
//gov:opt recursive=1
func vc_lemma_list(l int, key string, i, a int) {
	vspec.Requires(i >= 0 && i <= len(key) && spec_at(l, key, i))
	vspec.Assume(spec_defEmpty())
	r := lemma_list(l, key, i, a)
	vspec.Ensures("C28: the list consists of segments", r != 0 && uf_proper(r))
	vspec.Ensures("C28: its content is the path", uf_content(r) == key)
	vspec.Ensures("C28: it begins with what it was begun with", !uf_under(a, l) || uf_under(a, r))
}

// lemma_unique: and only one.
func lemma_unique(a, b int) {
	vspec.Assume(spec_defList(a) && spec_defList(b) && spec_defEmpty())
	p, s, q, t := uf_parent(a), uf_last(a), uf_parent(b), uf_last(b)
	vspec.Assume((a == 0 || spec_defJoin(p, s)) && (b == 0 || spec_defJoin(q, t)))
	if a == 0 || b == 0 || uf_content(a) == "" {
		return
	}
	vspec.Assert("the last segments are as long", len(s) == len(t))
	vspec.Assert("the last segments are the same", s == t)
	vspec.Assert("what comes before is the same", uf_content(p) == uf_content(q))
	if p == 0 || q == 0 {
		return
	}
	lemma_unique(p, q)
}

//gov:contract lemma_unique
//gov:props C28
//gov:use
//gov:opt recursive=1
func vc_lemma_unique(a, b int) {
	vspec.Requires(uf_proper(a) && uf_proper(b) && uf_content(a) == uf_content(b) && (a != 0) == (b != 0))
	lemma_unique(a, b)
	vspec.Ensures("C28: a path has one list of segments", a == b)
}

// lemma_listOf: uf_list(key) is the list of key.
func lemma_listOf(key string) {
	vspec.Assume(spec_defEmpty())
	r := lemma_list(0, key, 0, 0)
	vspec.Assume(uf_list(key) == r) // its definition
}

//gov:contract lemma_listOf
//gov:props C28
//gov:use
func vc_lemma_listOf(key string) {
	lemma_listOf(key)
	l := uf_list(key)
	vspec.Ensures("C28: uf_list", spec_listOf(key, l))
}

func spec_listOf(key string, l int) bool { return l != 0 && uf_proper(l) && uf_content(l) == key }

// lemma_theList: there is no other.
func lemma_theList(l int) {
	key := uf_content(l)
	lemma_listOf(key)
	if l != 0 && uf_proper(l) {
		lemma_unique(l, uf_list(key))
	}
}

//gov:contract lemma_theList
//gov:props C28
//gov:use
func vc_lemma_theList(l int) {
	lemma_theList(l)
	vspec.Ensures("C28: no other list", spec_theList(l))
}

func spec_theList(l int) bool { return l == 0 || !uf_proper(l) || uf_list(uf_content(l)) == l }

// lemma_begins: the list begins with the segments found so far.
func lemma_begins(l int, key string, i int) {
	if i < 0 || i >= len(key) || !spec_at(l, key, i) {
		return
	}
	vspec.Assume(spec_defList(l) && spec_defAbove(l, uf_parent(l), uf_last(l)) && uf_under(0, 0))
	lemma_listOf(key)
	lemma_unique(lemma_list(l, key, i, l), uf_list(key))
}

//gov:contract lemma_begins
//gov:props C28
//gov:use
func vc_lemma_begins(l int, key string, i int) {
	lemma_begins(l, key, i)
	vspec.Ensures("C28: the list begins with the segments found so far", spec_begins(l, key, i))
}

func spec_begins(l int, key string, i int) bool {
	return i < 0 || i >= len(key) || !spec_at(l, key, i) || uf_under(l, uf_list(key))
}

// lemma_distinct: two paths have two lists.
func lemma_distinct(a, b string) {
	lemma_listOf(a)
	lemma_listOf(b)
}

//gov:contract lemma_distinct
//gov:props C28
func vc_lemma_distinct(a, b string) {
	lemma_distinct(a, b)
	vspec.Ensures("C28: two paths are two entries", a == b || uf_list(a) != uf_list(b))
}

//gov:model adapter/policy/store/pathtrie.StringSegmenter
func m_StringSegmenter(f StringSegmenter, path string, start int) (string, int) {
	vspec.Assert("C28: the trie takes paths apart with PathSegmenter", vspec.FuncIs(f, PathSegmenter))
	return PathSegmenter(path, start)
}

func spec_before(start int) int {
	if start == 0 {
		return 0
	}
	return CurId
}

//gov:model adapter/policy/store/pathtrie.PathSegmenter
func m_PathSegmenter(path string, start int) (string, int) {
	seg, next := splitAt(path, start)
	l := spec_before(start)
	vspec.Assume(spec_defEmpty())
	vspec.Assume(spec_defJoin(l, seg))
	CurId = uf_join(l, seg)
	lemma_theList(CurId)
	lemma_begins(CurId, path, next)
	return seg, next
}

// Nodes are the nodes of all tries, by trie and segments.
type NodeKey struct {
	Root *PathTrie
	Id   int
}

var (
	Nodes   map[NodeKey]*PathTrie
	RootOf  map[*PathTrie]*PathTrie
	OwnerOf map[*vspec.Object]*PathTrie // whose children they are, by the map's identity
	CurRoot *PathTrie                   // the trie at work, nil while a new one is made
	CurId   int                         // the segments of the path taken apart so far
)

func uf_id(n *PathTrie) int                                      { panic("uf") }
func forallNode(f func(r *PathTrie, l int) bool) bool            { panic("spec") }
func forallChild(f func(r *PathTrie, l int, s string) bool) bool { panic("spec") }
func forallAbove(f func(r *PathTrie, a, l int) bool) bool        { panic("spec") }

func spec_node(r *PathTrie, l int) bool {
	n := Nodes[NodeKey{r, l}]
	return n == nil || uf_id(n) == l && RootOf[n] == r && n.children != nil && OwnerOf[vspec.Ref(n.children)] == n &&
		vspec.FuncIs(n.segmenter, PathSegmenter) && uf_proper(l) && (l != 0 || n == r)
}

func spec_child(r *PathTrie, l int, s string) bool {
	n := Nodes[NodeKey{r, l}]
	return n == nil || n.children[s] == Nodes[NodeKey{r, uf_join(l, s)}]
}

func spec_above(r *PathTrie, a, l int) bool {
	return Nodes[NodeKey{r, l}] == nil || !uf_under(a, l) || Nodes[NodeKey{r, a}] != nil
}

// spec_trees: every node is where its segments lead to, and only there.
func spec_trees() bool {
	return forallNode(spec_node) && forallChild(spec_child) && forallAbove(spec_above)
}

func spec_value(r *PathTrie, l int) interface{} {
	n := Nodes[NodeKey{r, l}]
	if n == nil {
		return nil
	}
	return n.value
}

var gTrieSnap int

// spec_kept: no value changed since.
func spec_keptBut(but *PathTrie, id int) bool {
	return forallNode(func(r *PathTrie, l int) bool {
		if r == but && l == id {
			return true
		}
		v := spec_value(r, l)
		return vspec.At(gTrieSnap, func() bool { return vspec.Same(spec_value(r, l), v) })
	})
}

// Going down: node is where the segments before part lead to,
func inv_node(lv_node *PathTrie) bool {
	return lv_node != nil && RootOf[lv_node] == CurRoot && Nodes[NodeKey{CurRoot, uf_id(lv_node)}] == lv_node
}

// part is the next one,
func inv_part(lv_node *PathTrie, lv_part string) bool {
	return CurId == uf_join(uf_id(lv_node), lv_part)
}

// and the path goes on at i.
func inv_rest(lv_i int, fx_key string) bool {
	return uf_proper(CurId) && (lv_i == -1 && CurId == uf_list(fx_key) ||
		uf_under(CurId, uf_list(fx_key)) && 0 < lv_i && lv_i < len(fx_key) && fx_key[lv_i] == '/' && uf_content(CurId) == fx_key[:lv_i])
}

func inv_heap_node() bool  { return forallNode(spec_node) }
func inv_heap_child() bool { return forallChild(spec_child) }
func inv_heap_above() bool { return forallAbove(spec_above) }
func inv_heap_kept() bool  { return spec_keptBut(nil, 0) }

//gov:contract (*PathTrie).Get
//gov:props C28
//gov:opt facts=inv
func vc_Get(trie *PathTrie, key string) {
	vspec.Requires(spec_trees())
	vspec.Assume(spec_defUnder())
	vspec.Assume(forallJoin(spec_pairs))
	lemma_listOf(key)
	vspec.Requires(trie != nil && Nodes[NodeKey{trie, 0}] == trie)
	CurRoot = trie
	gTrieSnap = vspec.Snapshot()
	v := trie.Get(key)
	vspec.Ensures("C28: the value stored at the path is returned", vspec.Same(v, spec_value(trie, uf_list(key))))
	vspec.Ensures("C28: looking changes nothing", spec_trees() && spec_keptBut(nil, 0))
}
