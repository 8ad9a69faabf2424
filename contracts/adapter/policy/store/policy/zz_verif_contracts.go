package policy

import (
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/pathtrie"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func forallString(f func(x string) bool) bool { panic("spec") }

// spec_otherKeysets: the key sets of all other names are as they were.
func spec_otherKeysets(s *LocalStore, snap int, k string) bool {
	return forallString(func(x string) bool {
		v := s.GetKeySet(x)
		return x == k || vspec.At(snap, func() bool { return vspec.Same(s.GetKeySet(x), v) })
	})
}

func spec_sameKeysets(s *LocalStore, snap int) bool {
	return forallString(func(x string) bool {
		v := s.GetKeySet(x)
		return vspec.At(snap, func() bool { return vspec.Same(s.GetKeySet(x), v) })
	})
}

func spec_otherClients(s *LocalStore, snap int, k string) bool {
	return forallString(func(x string) bool {
		v := s.GetClient(x)
		return x == k || vspec.At(snap, func() bool { return vspec.Same(s.GetClient(x), v) })
	})
}

func spec_sameClients(s *LocalStore, snap int) bool {
	return forallString(func(x string) bool {
		v := s.GetClient(x)
		return vspec.At(snap, func() bool { return vspec.Same(s.GetClient(x), v) })
	})
}

func spec_sameMappings(s *LocalStore, snap int) bool {
	return forallString(func(x string) bool {
		v := s.GetPolicyMapping(x)
		return vspec.At(snap, func() bool { return vspec.Same(s.GetPolicyMapping(x), v) })
	})
}

func spec_otherMappings(s *LocalStore, snap int, k string) bool {
	return forallString(func(x string) bool {
		v := s.GetPolicyMapping(x)
		return x == k || vspec.At(snap, func() bool { return vspec.Same(s.GetPolicyMapping(x), v) })
	})
}

//gov:contract (*LocalStore).AddKeySet
//gov:props C03 C27
func vc_AddKeySet(s *LocalStore, name string, k keyset.KeySet) {
	vspec.Requires(s != nil)
	snap := vspec.Snapshot()
	s.AddKeySet(name, k)
	vspec.Ensures("C03: the key set is found under its name", vspec.Same(s.GetKeySet(name), k))
	vspec.Ensures("C03: other key sets stay", spec_otherKeysets(s, snap, name))
	vspec.Ensures("C03: clients stay", spec_sameClients(s, snap))
	vspec.Ensures("C03: policy records stay", spec_sameMappings(s, snap))
	vspec.Ensures("C03: policy entries stay", spec_sameEntries(s, snap))
}

//gov:contract (*LocalStore).DeleteKeySet
//gov:props C03 C27
func vc_DeleteKeySet(s *LocalStore, name string) {
	vspec.Requires(s != nil)
	snap := vspec.Snapshot()
	s.DeleteKeySet(name)
	vspec.Ensures("C03: no key set is found under its name", s.GetKeySet(name) == nil)
	vspec.Ensures("C03: other key sets stay", spec_otherKeysets(s, snap, name))
	vspec.Ensures("C03: clients stay", spec_sameClients(s, snap))
	vspec.Ensures("C03: policy records stay", spec_sameMappings(s, snap))
	vspec.Ensures("C03: policy entries stay", spec_sameEntries(s, snap))
}

//gov:contract (*LocalStore).AddClient
//gov:props C03 C27
func vc_AddClient(s *LocalStore, name string, c client.Client) {
	vspec.Requires(s != nil)
	snap := vspec.Snapshot()
	s.AddClient(name, c)
	vspec.Ensures("C03: the client is found under its name", vspec.Same(s.GetClient(name), c))
	vspec.Ensures("C03: other clients stay", spec_otherClients(s, snap, name))
	vspec.Ensures("C03: key sets stay", spec_sameKeysets(s, snap))
	vspec.Ensures("C03: policy records stay", spec_sameMappings(s, snap))
	vspec.Ensures("C03: policy entries stay", spec_sameEntries(s, snap))
}

//gov:contract (*LocalStore).DeleteClient
//gov:props C03 C27
func vc_DeleteClient(s *LocalStore, name string) {
	vspec.Requires(s != nil)
	snap := vspec.Snapshot()
	s.DeleteClient(name)
	vspec.Ensures("C03: no client is found under its name", s.GetClient(name) == nil)
	vspec.Ensures("C03: other clients stay", spec_otherClients(s, snap, name))
	vspec.Ensures("C03: key sets stay", spec_sameKeysets(s, snap))
	vspec.Ensures("C03: policy records stay", spec_sameMappings(s, snap))
	vspec.Ensures("C03: policy entries stay", spec_sameEntries(s, snap))
}

//gov:contract (*LocalStore).AddPolicyMapping
//gov:props C03 C27
func vc_AddPolicyMapping(s *LocalStore, name string, m []policy.PolicyMapping) {
	vspec.Requires(s != nil)
	snap := vspec.Snapshot()
	s.AddPolicyMapping(name, m)
	vspec.Ensures("C03: the record is found under its name", vspec.Same(s.GetPolicyMapping(name), m))
	vspec.Ensures("C03: other records stay", spec_otherMappings(s, snap, name))
	vspec.Ensures("C03: key sets stay", spec_sameKeysets(s, snap))
	vspec.Ensures("C03: clients stay", spec_sameClients(s, snap))
	vspec.Ensures("C03: policy entries stay", spec_sameEntries(s, snap))
}

//gov:contract (*LocalStore).DeletePolicyMapping
//gov:props C03 C27
func vc_DeletePolicyMapping(s *LocalStore, name string) {
	vspec.Requires(s != nil)
	snap := vspec.Snapshot()
	s.DeletePolicyMapping(name)
	vspec.Ensures("C03: no record is found under its name", s.GetPolicyMapping(name) == nil)
	vspec.Ensures("C03: other records stay", spec_otherMappings(s, snap, name))
	vspec.Ensures("C03: key sets stay", spec_sameKeysets(s, snap))
	vspec.Ensures("C03: clients stay", spec_sameClients(s, snap))
	vspec.Ensures("C03: policy entries stay", spec_sameEntries(s, snap))
}

// ---- policy entries ----

func forallEndpoint(f func(e policy.Endpoint) bool) bool           { panic("spec") }
func forallServices(f func(a, b policy.Service) bool) bool         { panic("spec") }
func forallKeys(f func(t, u pathtrie.Trie, a, b string) bool) bool { panic("spec") }

// spec_entry: the entry configured for a service, path and method.
func spec_entry(s *LocalStore, e policy.Endpoint) policy.RoutePolicy {
	if s.policies == nil {
		return policy.RoutePolicy{}
	}
	t := s.policies[e.Service]
	if t == nil {
		return policy.RoutePolicy{}
	}
	if a, ok := pathtrie.Spec_entry(t, e.Path).(policy.Actions); ok {
		return a[e.Method]
	}
	return policy.RoutePolicy{}
}

func spec_sameEntries(s *LocalStore, snap int) bool {
	return forallEndpoint(func(e policy.Endpoint) bool {
		v := spec_entry(s, e)
		return vspec.At(snap, func() bool { return vspec.Same(spec_entry(s, e), v) })
	})
}

// spec_inv: services do not share tries and paths do not share action maps.
func spec_inv(s *LocalStore) bool { return spec_apart(s) && spec_maps() && spec_mapsApart() }

func spec_apart(s *LocalStore) bool {
	return s.policies == nil || forallServices(func(a, b policy.Service) bool {
		return a == b || s.policies[a] == nil || s.policies[a] != s.policies[b]
	})
}

func spec_maps() bool {
	return forallKeys(func(t, u pathtrie.Trie, a, b string) bool {
		x, ok := pathtrie.Spec_entry(t, a).(policy.Actions)
		return !ok || x != nil
	})
}

func spec_mapsApart() bool {
	return forallKeys(func(t, u pathtrie.Trie, a, b string) bool {
		x, ok := pathtrie.Spec_entry(t, a).(policy.Actions)
		y, ok2 := pathtrie.Spec_entry(u, b).(policy.Actions)
		return (t == u && a == b) || !ok || !ok2 || !vspec.Same(x, y)
	})
}

//gov:contract (*LocalStore).SetPolicies
//gov:props C03 C27
func vc_SetPolicies(s *LocalStore, e policy.Endpoint, r policy.RoutePolicy) {
	vspec.Requires(s != nil)
	vspec.Requires(spec_inv(s))
	snap := vspec.Snapshot()
	s.SetPolicies(e, r)
	vspec.Ensures("C03: the entry is found under its key", vspec.Same(spec_entry(s, e), r))
	vspec.Ensures("C03: other entries stay", forallEndpoint(func(o policy.Endpoint) bool {
		v := spec_entry(s, o)
		return o == e || vspec.At(snap, func() bool { return vspec.Same(spec_entry(s, o), v) })
	}))
	vspec.Ensures("C03: tries stay apart", spec_apart(s))
	vspec.Ensures("C03: action maps exist", spec_maps())
	vspec.Ensures("C03: action maps stay apart", spec_mapsApart())
	vspec.Ensures("C03: key sets stay", spec_sameKeysets(s, snap))
	vspec.Ensures("C03: clients stay", spec_sameClients(s, snap))
	vspec.Ensures("C03: policy records stay", spec_sameMappings(s, snap))
}

func Spec_set(r policy.RoutePolicy) bool { return r.PolicyReference != "" || len(r.Actions) > 0 }

// spec_at: the entry for the method, else the one for all methods.
func spec_at(s *LocalStore, e policy.Endpoint, path string) policy.RoutePolicy {
	m := spec_entry(s, policy.Endpoint{Service: e.Service, Path: path, Method: e.Method})
	if Spec_set(m) {
		return m
	}
	a := spec_entry(s, policy.Endpoint{Service: e.Service, Path: path, Method: policy.ALL})
	if Spec_set(a) {
		return a
	}
	return policy.RoutePolicy{}
}

//gov:contract (*LocalStore).GetPolicies
//gov:props C02 C27
func vc_GetPolicies(s *LocalStore, e policy.Endpoint) {
	vspec.Requires(s != nil)
	snap := vspec.Snapshot()
	r := s.GetPolicies(e)
	exact := spec_at(s, e, e.Path)
	vspec.Ensures("C02: the entry at the exact path wins", !Spec_set(exact) || vspec.Same(r, exact))
	vspec.Ensures("C02: else the closest enclosing prefix", Spec_set(exact) || !Spec_set(r) ||
		vspec.Exists(0, len(e.Path)+1, func(n int) bool {
			return pathtrie.Spec_encloses(e.Path, n) && vspec.Same(r, spec_at(s, e, e.Path[:n]+"/*")) &&
				vspec.ForAll(n+1, len(e.Path)+1, func(m int) bool {
					return !pathtrie.Spec_encloses(e.Path, m) || !Spec_set(spec_at(s, e, e.Path[:m]+"/*"))
				})
		}))
	vspec.Ensures("C02: nothing only when no entry covers the request", Spec_set(exact) || Spec_set(r) ||
		vspec.ForAll(0, len(e.Path)+1, func(m int) bool {
			return !pathtrie.Spec_encloses(e.Path, m) || !Spec_set(spec_at(s, e, e.Path[:m]+"/*"))
		}))
	vspec.Ensures("C02: nothing is configured by looking", spec_sameEntries(s, snap))
}

// ---- the store as its users see it ----
//
// The users of a store (engine, event handlers) are checked against this view.
// That LocalStore behaves so is what the contracts above say.

type NameKey struct {
	S    PolicyStore
	Name string
}

type EntryKey struct {
	S PolicyStore
	E policy.Endpoint
}

var (
	KeySets map[NameKey]keyset.KeySet
	Clients map[NameKey]client.Client
	Records map[NameKey][]policy.PolicyMapping
	Entries map[EntryKey]policy.RoutePolicy
)

func any_int() int { panic("any") }

//gov:model (adapter/policy/store/policy.PolicyStore).GetKeySet
func m_GetKeySet(s PolicyStore, name string) keyset.KeySet { return KeySets[NameKey{s, name}] }

//gov:model (adapter/policy/store/policy.PolicyStore).AddKeySet
func m_AddKeySet(s PolicyStore, name string, k keyset.KeySet) { KeySets[NameKey{s, name}] = k }

//gov:model (adapter/policy/store/policy.PolicyStore).DeleteKeySet
func m_DeleteKeySet(s PolicyStore, name string) { KeySets[NameKey{s, name}] = nil }

//gov:model (adapter/policy/store/policy.PolicyStore).GetClient
func m_GetClient(s PolicyStore, name string) client.Client { return Clients[NameKey{s, name}] }

//gov:model (adapter/policy/store/policy.PolicyStore).AddClient
func m_AddClient(s PolicyStore, name string, c client.Client) { Clients[NameKey{s, name}] = c }

//gov:model (adapter/policy/store/policy.PolicyStore).DeleteClient
func m_DeleteClient(s PolicyStore, name string) { Clients[NameKey{s, name}] = nil }

//gov:model (adapter/policy/store/policy.PolicyStore).GetPolicyMapping
func m_GetPolicyMapping(s PolicyStore, name string) []policy.PolicyMapping {
	return Records[NameKey{s, name}]
}

//gov:model (adapter/policy/store/policy.PolicyStore).AddPolicyMapping
func m_AddPolicyMapping(s PolicyStore, name string, m []policy.PolicyMapping) {
	Records[NameKey{s, name}] = m
}

//gov:model (adapter/policy/store/policy.PolicyStore).DeletePolicyMapping
func m_DeletePolicyMapping(s PolicyStore, name string) { Records[NameKey{s, name}] = nil }

//gov:model (adapter/policy/store/policy.PolicyStore).SetPolicies
func m_SetPolicies(s PolicyStore, e policy.Endpoint, r policy.RoutePolicy) { Entries[EntryKey{s, e}] = r }

// Spec_at: the entry for the method at a path, else the one for all methods.
func Spec_at(s PolicyStore, e policy.Endpoint, path string) policy.RoutePolicy {
	m := Entries[EntryKey{s, policy.Endpoint{Service: e.Service, Path: path, Method: e.Method}}]
	if Spec_set(m) {
		return m
	}
	a := Entries[EntryKey{s, policy.Endpoint{Service: e.Service, Path: path, Method: policy.ALL}}]
	if Spec_set(a) {
		return a
	}
	return policy.RoutePolicy{}
}

//gov:model (adapter/policy/store/policy.PolicyStore).GetPolicies
func m_GetPolicies(s PolicyStore, e policy.Endpoint) policy.RoutePolicy {
	exact := Spec_at(s, e, e.Path)
	if Spec_set(exact) {
		return exact
	}
	n := any_int()
	vspec.Assume(-1 <= n && n <= len(e.Path))
	vspec.Assume(vspec.ForAll(n+1, len(e.Path)+1, func(m int) bool {
		return !pathtrie.Spec_encloses(e.Path, m) || !Spec_set(Spec_at(s, e, e.Path[:m]+"/*"))
	}))
	if n == -1 {
		return policy.RoutePolicy{}
	}
	r := Spec_at(s, e, e.Path[:n]+"/*")
	vspec.Assume(pathtrie.Spec_encloses(e.Path, n) && Spec_set(r))
	return r
}
