package crdeventhandler

import (
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

// ---- policy events keep the store equal to the policies (C16) ----

func forallEndpoint(f func(x policy.Endpoint) bool) bool { panic("spec") }
func forallString(f func(x string) bool) bool            { panic("spec") }

// The event being handled: the store, the policy's key and the entries before
// it.
var (
	gStore storepolicy.PolicyStore
	gId    string
)

func uf_before(x policy.Endpoint) policy.RoutePolicy { panic("uf") }

func spec_now(x policy.Endpoint) policy.RoutePolicy {
	return storepolicy.Entries[storepolicy.EntryKey{S: gStore, E: x}]
}

func spec_untouched(x policy.Endpoint) bool {
	return vspec.Same(spec_now(x), uf_before(x)) || !storepolicy.Spec_set(spec_now(x)) && !storepolicy.Spec_set(uf_before(x))
}

func spec_declared(ms []policy.PolicyMapping, n int, x policy.Endpoint) bool {
	return vspec.Exists(0, n, func(k int) bool { return ms[k].Endpoint == x })
}

// spec_last: among the first n no later mapping has the endpoint of k.
func spec_last(ms []policy.PolicyMapping, k, n int) bool {
	return vspec.ForAll(k+1, n, func(j int) bool { return ms[j].Endpoint != ms[k].Endpoint })
}

// spec_holds: the endpoints of the first n mappings hold their actions.
func spec_holds(ms []policy.PolicyMapping, n int) bool {
	return vspec.ForAll(0, n, func(k int) bool {
		return !spec_last(ms, k, n) || spec_now(ms[k].Endpoint).PolicyReference == gId && vspec.Same(spec_now(ms[k].Endpoint).Actions, ms[k].Actions)
	})
}

func inv_heap_set(n int, parsed []policy.PolicyMapping) bool {
	return n <= len(parsed) && spec_holds(parsed, n) && forallEndpoint(func(x policy.Endpoint) bool {
		return spec_declared(parsed, n, x) || spec_untouched(x)
	})
}

func spec_resetting(n int, previous []policy.PolicyMapping, x policy.Endpoint) bool {
	return spec_untouched(x) && (spec_now(x).PolicyReference != gId || !spec_declared(previous, n, x)) ||
		uf_before(x).PolicyReference == gId && !storepolicy.Spec_set(spec_now(x))
}

func inv_heap_reset(n int, previous, parsed []policy.PolicyMapping) bool {
	return n <= len(previous) && spec_holds(parsed, len(parsed)) && forallEndpoint(func(x policy.Endpoint) bool {
		return spec_declared(parsed, len(parsed), x) || spec_resetting(n, previous, x)
	})
}

func inv_heap_del(n int, previous []policy.PolicyMapping) bool {
	return n <= len(previous) && forallEndpoint(func(x policy.Endpoint) bool { return spec_resetting(n, previous, x) })
}

//gov:contract declaresEndpoint
//gov:use
//gov:props C16
func vc_declaresEndpoint(ms []policy.PolicyMapping, x policy.Endpoint) {
	r := declaresEndpoint(ms, x)
	vspec.Ensures("C16: an endpoint is declared if a mapping has it", r == spec_declared(ms, len(ms), x))
}

func spec_sameRest(store storepolicy.PolicyStore, snap int, id string) bool {
	return forallString(func(n string) bool {
		k := storepolicy.NameKey{S: store, Name: n}
		r, ks, c := storepolicy.Records[k], storepolicy.KeySets[k], storepolicy.Clients[k]
		return vspec.At(snap, func() bool {
			return (n == id || vspec.Same(storepolicy.Records[k], r)) && vspec.Same(storepolicy.KeySets[k], ks) && vspec.Same(storepolicy.Clients[k], c)
		})
	})
}

//gov:contract (*PolicyAddEventHandler).HandleAddUpdateEvent
//gov:props C16 C27
//gov:opt facts=inv noinv=C27 invs=inv_heap_set,inv_heap_reset
func vc_PolicyAdd(e *PolicyAddEventHandler) {
	vspec.Requires(e != nil && e.Obj != nil && e.Store != nil)
	store, target, ns := e.Store, e.Obj.Spec.Target, e.Obj.ObjectMeta.Namespace
	gStore, gId = store, ns+"/"+e.Obj.ObjectMeta.Name
	id := gId
	rec := storepolicy.NameKey{S: store, Name: id}
	previous := storepolicy.Records[rec]
	vspec.Requires(forallEndpoint(func(x policy.Endpoint) bool { return vspec.Same(spec_now(x), uf_before(x)) }))
	vspec.Requires(forallEndpoint(func(x policy.Endpoint) bool {
		return uf_before(x).PolicyReference != id || spec_declared(previous, len(previous), x)
	}))
	snap := vspec.Snapshot()
	e.HandleAddUpdateEvent()
	now := storepolicy.Records[rec]
	vspec.Ensures("C16: the record is what the policy declares", spec_parsed(now, target, ns))
	vspec.Ensures("C16: every declared endpoint holds its actions", spec_holds(now, len(now)))
	vspec.Ensures("C16: no endpoint it does not declare holds it", forallEndpoint(func(x policy.Endpoint) bool {
		return spec_declared(now, len(now), x) || spec_now(x).PolicyReference != id
	}))
	vspec.Ensures("C16: endpoints it neither declares nor held are untouched", forallEndpoint(func(x policy.Endpoint) bool {
		return spec_declared(now, len(now), x) || uf_before(x).PolicyReference == id || spec_untouched(x)
	}))
	vspec.Ensures("C16: nothing else in the store changes", spec_sameRest(store, snap, id))
}

//gov:contract (*PolicyDeleteEventHandler).HandleDeleteEvent
//gov:props C16 C27
//gov:opt facts=inv noinv=C27 invs=inv_heap_del
func vc_PolicyDelete(e *PolicyDeleteEventHandler) {
	vspec.Requires(e != nil && e.Store != nil)
	store := e.Store
	gStore, gId = store, e.Key
	id := gId
	rec := storepolicy.NameKey{S: store, Name: id}
	previous := storepolicy.Records[rec]
	vspec.Requires(id != "")
	vspec.Requires(forallEndpoint(func(x policy.Endpoint) bool { return vspec.Same(spec_now(x), uf_before(x)) }))
	vspec.Requires(forallEndpoint(func(x policy.Endpoint) bool {
		return uf_before(x).PolicyReference != id || spec_declared(previous, len(previous), x)
	}))
	snap := vspec.Snapshot()
	e.HandleDeleteEvent()
	vspec.Ensures("C16: no endpoint holds it", forallEndpoint(func(x policy.Endpoint) bool { return spec_now(x).PolicyReference != id }))
	vspec.Ensures("C16: endpoints it did not hold are untouched", forallEndpoint(func(x policy.Endpoint) bool {
		return uf_before(x).PolicyReference == id || spec_untouched(x)
	}))
	vspec.Ensures("C16: its record is gone", len(storepolicy.Records[rec]) == 0)
	vspec.Ensures("C16: nothing else in the store changes", spec_sameRest(store, snap, id))
}
