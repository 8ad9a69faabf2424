package engine

import (
	"strings"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/pathtrie"
	policystore "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

func forallEntry(f func(k policystore.EntryKey) bool) bool { panic("spec") }

// spec_path: the path policies are looked up for: without the suffix of the
// login callback or logout address.
func spec_path(p string) string {
	if strings.HasSuffix(p, "/oidc/callback") {
		return strings.TrimSuffix(p, "/oidc/callback")
	}
	return strings.TrimSuffix(p, "/oidc/logout")
}

func spec_config(s policystore.PolicyStore, ns string, p v1.PathPolicy) policystore.NameKey {
	return policystore.NameKey{S: s, Name: ns + "/" + p.Config}
}

// spec_resolvable: the policy is of a known type and its configuration exists
// in the namespace of the service.
func spec_resolvable(s policystore.PolicyStore, ns string, p v1.PathPolicy) bool {
	t := policy.Spec_type(p.PolicyType)
	return t == policy.JWT && policystore.KeySets[spec_config(s, ns, p)] != nil ||
		t == policy.OIDC && policystore.Clients[spec_config(s, ns, p)] != nil
}

func spec_allResolvable(s policystore.PolicyStore, ns string, r policy.RoutePolicy) bool {
	return vspec.ForAll(0, len(r.Actions), func(i int) bool { return spec_resolvable(s, ns, r.Actions[i]) })
}

// spec_rules: the rules in force: the policy's own, else by default those of
// its type.
func spec_rules(a *Action, own []v1.Rule) bool {
	if own != nil {
		return vspec.Same(a.Rules, own)
	}
	if a.Type == policy.OIDC {
		return len(a.Rules) == 1 && spec_audRule(a.Rules[0], a.Client)
	}
	return len(a.Rules) == 0
}

func spec_audRule(r v1.Rule, c client.Client) bool {
	return r.Claim == "aud" && r.Match == "ANY" && r.Source == "" && len(r.Values) == 1 && r.Values[0] == client.Uf_id(c)
}

func spec_found(s policystore.PolicyStore, ns string, p v1.PathPolicy, a *Action) bool {
	if a.Type == policy.JWT {
		return a.KeySet != nil && vspec.Same(a.KeySet, policystore.KeySets[spec_config(s, ns, p)])
	}
	return a.Type == policy.OIDC && a.Client != nil && vspec.Same(a.Client, policystore.Clients[spec_config(s, ns, p)])
}

// spec_applies: a is the first policy of entry r.
func spec_applies(s policystore.PolicyStore, ns string, r policy.RoutePolicy, a *Action) bool {
	p := r.Actions[0]
	return a != nil && a.Type == policy.Spec_type(p.PolicyType) && a.PolicyType == p.PolicyType && a.Config == p.Config && a.RedirectUri == p.RedirectUri
}

// spec_closest: the entry at path[:n]+"/*" is the closest enclosing one.
func spec_closest(s policystore.PolicyStore, e policy.Endpoint, n int) bool {
	return pathtrie.Spec_encloses(e.Path, n) && policystore.Spec_set(policystore.Spec_at(s, e, e.Path[:n]+"/*")) &&
		vspec.ForAll(n+1, len(e.Path)+1, func(m int) bool {
			return !pathtrie.Spec_encloses(e.Path, m) || !policystore.Spec_set(policystore.Spec_at(s, e, e.Path[:m]+"/*"))
		})
}

func spec_nothing(s policystore.PolicyStore, e policy.Endpoint) bool {
	return !policystore.Spec_set(policystore.Spec_at(s, e, e.Path)) && vspec.ForAll(0, len(e.Path)+1, func(m int) bool {
		return !pathtrie.Spec_encloses(e.Path, m) || !policystore.Spec_set(policystore.Spec_at(s, e, e.Path[:m]+"/*"))
	})
}

//gov:contract (*engine).Evaluate
//gov:props C01 C02 C03 C07 C27
func vc_Evaluate(m *engine, t *authnz.TargetMsg) {
	vspec.Requires(m != nil && m.store != nil && t != nil)
	s := m.store
	// an entry which is set has a policy to apply
	vspec.Requires(forallEntry(func(k policystore.EntryKey) bool {
		return !policystore.Spec_set(policystore.Entries[k]) || len(policystore.Entries[k].Actions) > 0
	}))
	ns := t.Namespace
	e := policy.Endpoint{Service: policy.Service{Namespace: ns, Name: t.Service}, Path: spec_path(t.Path), Method: policy.Spec_method(t.Method)}
	snap := vspec.Snapshot()
	a, err := m.Evaluate(t)
	exact := policystore.Spec_at(s, e, e.Path)
	vspec.Ensures("a decision or an error", (a == nil) == (err != nil))
	vspec.Ensures("C02: the entry at the exact path is applied", !policystore.Spec_set(exact) || err != nil || spec_applies(s, ns, exact, a))
	vspec.Ensures("C02: else the closest enclosing prefix", policystore.Spec_set(exact) || err != nil ||
		vspec.ForAll(0, len(e.Path)+1, func(n int) bool {
			return !spec_closest(s, e, n) || spec_applies(s, ns, policystore.Spec_at(s, e, e.Path[:n]+"/*"), a)
		}))
	vspec.Ensures("C01,C02: no policy exactly when no entry covers the request", (err == nil && a.Type == policy.NONE) == spec_nothing(s, e))
	vspec.Ensures("C03: an error only when a configuration is missing", err == nil ||
		!policystore.Spec_set(exact) || !spec_allResolvable(s, ns, exact))
	vspec.Ensures("C03: an error only when a configuration of the prefix is missing", err == nil || policystore.Spec_set(exact) ||
		vspec.ForAll(0, len(e.Path)+1, func(n int) bool {
			return !spec_closest(s, e, n) || !spec_allResolvable(s, ns, policystore.Spec_at(s, e, e.Path[:n]+"/*"))
		}))
	vspec.Ensures("C01,C03: the configuration of the service's own namespace", err != nil || a.Type == policy.NONE ||
		!policystore.Spec_set(exact) || spec_found(s, ns, exact.Actions[0], a))
	vspec.Ensures("C01,C03: the configuration of the service's own namespace (prefix)", err != nil || policystore.Spec_set(exact) ||
		vspec.ForAll(0, len(e.Path)+1, func(n int) bool {
			return !spec_closest(s, e, n) || spec_found(s, ns, policystore.Spec_at(s, e, e.Path[:n]+"/*").Actions[0], a)
		}))
	vspec.Ensures("C07: its own rules, else the default ones", err != nil || !policystore.Spec_set(exact) || spec_rules(a, exact.Actions[0].Rules))
	vspec.Ensures("C07: its own rules, else the default ones (prefix)", err != nil || policystore.Spec_set(exact) ||
		vspec.ForAll(0, len(e.Path)+1, func(n int) bool {
			return !spec_closest(s, e, n) || spec_rules(a, policystore.Spec_at(s, e, e.Path[:n]+"/*").Actions[0].Rules)
		}))
	vspec.Ensures("C02: nothing is configured by looking", forallEntry(func(k policystore.EntryKey) bool {
		v := policystore.Entries[k]
		return vspec.At(snap, func() bool { return vspec.Same(policystore.Entries[k], v) })
	}))
}
