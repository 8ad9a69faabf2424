D = "adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go"
SEEDS = [
dict(id="c29-paths-shared", prop="C29", pkg="adapter/pkg/apis/policies/v1",
 edits=[(D, '''		*out = make([]PathConfig, len(*in))
		for i := range *in {
			(*in)[i].DeepCopyInto(&(*out)[i])
		}
''', '''		*out = make([]PathConfig, len(*in))
		copy(*out, *in)
''')],
 needs="a copy of a policy whose path entries have actions, and a later change of an action in the copy",
 breaks="the copy shares the lists of actions with the original",
 demo='''
package v1

import "testing"

func TestDemo(t *testing.T) {
	p := &Policy{Spec: PolicySpec{Target: []TargetElement{{ServiceName: "s", Paths: []PathConfig{{Exact: "/a", Policies: []PathPolicy{{PolicyType: "jwt", Config: "c"}}}}}}}}
	p.DeepCopy().Spec.Target[0].Paths[0].Policies[0].Config = "other"
	if c := p.Spec.Target[0].Paths[0].Policies[0].Config; c != "c" {
		t.Fatalf("the change of the copy shows in the original: %q", c)
	}
}
'''),
dict(id="c29-empty-list-shared", prop="C29", pkg="adapter/pkg/apis/policies/v1",
 edits=[(D, "	if in.Target != nil {\n", "	if len(in.Target) > 0 {\n")],
 needs="a policy whose list of targets is empty but has room, and entries appended to it and to its copy",
 breaks="the copy of an empty list shares its array with the original",
 demo='''
package v1

import "testing"

func TestDemo(t *testing.T) {
	p := &PolicySpec{Target: make([]TargetElement, 0, 4)}
	c := p.DeepCopy()
	p.Target = append(p.Target, TargetElement{ServiceName: "mine"})
	c.Target = append(c.Target, TargetElement{ServiceName: "theirs"})
	if n := p.Target[0].ServiceName; n != "mine" {
		t.Fatalf("what is appended to the copy shows in the original: %q", n)
	}
}
'''),
]
T = "adapter/policy/store/pathtrie/pathtrie.go"
SEEDS += [
dict(id="c28-delete-takes-parent", prop="C28", pkg="adapter/policy/store/pathtrie",
 edits=[(T, "			if parent.value != nil || !parent.isLeaf() {\n", "			if !parent.isLeaf() || parent.value != nil && i > 1 {\n")],
 needs="a path and one directly below it stored, and the lower one deleted",
 breaks="deleting a path can take the value of the path above it along",
 demo='''
package pathtrie

import "testing"

func TestDemo(t *testing.T) {
	trie := NewPathTrie()
	trie.Put("/a", 1)
	trie.Put("/a/b", 2)
	trie.Delete("/a/b")
	if v := trie.Get("/a"); v != 1 {
		t.Fatalf("deleting /a/b took /a along: %v", v)
	}
}
'''),
dict(id="c28-segment-at-second-character", prop="C28", pkg="adapter/policy/store/pathtrie",
 edits=[("adapter/policy/store/pathtrie/utils.go", "	end := strings.IndexRune(path[start+1:], '/') // next '/' after 0th rune\n", "	if path[start] == '/' && start+1 < len(path)-1 && path[start+1] == '/' {\n		start++ // an empty segment\n	}\n	end := strings.IndexRune(path[start+1:], '/') // next '/' after 0th rune\n")],
 needs="two paths which differ in an empty segment",
 breaks="paths which differ in an empty segment share an entry",
 demo='''
package pathtrie

import "testing"

func TestDemo(t *testing.T) {
	trie := NewPathTrie()
	trie.Put("/a//b", 1)
	if v := trie.Get("/a/b"); v != nil {
		t.Fatalf("/a/b holds what was stored at /a//b: %v", v)
	}
}
'''),
]
