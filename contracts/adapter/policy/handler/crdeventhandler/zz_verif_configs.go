package crdeventhandler

import (
	"k8s.io/client-go/kubernetes"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

// ---- configurations become key sets and clients (C17, C26) ----

// spec_only: since snap, of the names in the store only ks (a key set) and c
// (a client) have changed, and no endpoint.
func spec_only(snap int, store storepolicy.PolicyStore, ks, c string) bool {
	return forallString(func(n string) bool {
		k := storepolicy.NameKey{S: store, Name: n}
		r, s, o := storepolicy.Records[k], storepolicy.KeySets[k], storepolicy.Clients[k]
		return vspec.At(snap, func() bool {
			return vspec.Same(storepolicy.Records[k], r) && (n == ks || vspec.Same(storepolicy.KeySets[k], s)) && (n == c || vspec.Same(storepolicy.Clients[k], o))
		})
	}) && forallEndpoint(func(x policy.Endpoint) bool {
		k := storepolicy.EntryKey{S: store, E: x}
		e := storepolicy.Entries[k]
		return vspec.At(snap, func() bool { return vspec.Same(storepolicy.Entries[k], e) })
	})
}

// No name of an object is like this one.
const none = ""

//gov:contract (*JwtConfigAddEventHandler).HandleAddUpdateEvent
//gov:props C17 C27
func vc_JwtAdd(e *JwtConfigAddEventHandler) {
	vspec.Requires(e != nil && e.Obj != nil && e.Store != nil)
	authserver.ResetServers()
	store, url := e.Store, e.Obj.Spec.JwksURL
	id := e.Obj.ObjectMeta.Namespace + "/" + e.Obj.ObjectMeta.Name
	snap := vspec.Snapshot()
	e.HandleAddUpdateEvent()
	vspec.Ensures("C17: a key set is made for the address of the configuration", authserver.KsN == 1 && authserver.KsURL == url)
	vspec.Ensures("C17: it is registered under the configuration's namespace and name",
		vspec.Same(storepolicy.KeySets[storepolicy.NameKey{S: store, Name: id}], authserver.KsRes) && authserver.KsRes != nil)
	vspec.Ensures("C17: nothing else in the store changes", spec_only(snap, store, id, none))
}

//gov:contract (*JwtConfigDeleteEventHandler).HandleDeleteEvent
//gov:props C17 C27
func vc_JwtDelete(e *JwtConfigDeleteEventHandler) {
	vspec.Requires(e != nil && e.Store != nil)
	store, id := e.Store, e.Key
	snap := vspec.Snapshot()
	e.HandleDeleteEvent()
	vspec.Ensures("C17: its key set is removed", storepolicy.KeySets[storepolicy.NameKey{S: store, Name: id}] == nil)
	vspec.Ensures("C17: nothing else in the store changes", spec_only(snap, store, id, none))
}

//gov:contract (*OidcConfigDeleteEventHandler).HandleDeleteEvent
//gov:props C17 C27
func vc_OidcDelete(e *OidcConfigDeleteEventHandler) {
	vspec.Requires(e != nil && e.Store != nil)
	store, id := e.Store, e.Key
	snap := vspec.Snapshot()
	e.HandleDeleteEvent()
	vspec.Ensures("C17: its client is removed", storepolicy.Clients[storepolicy.NameKey{S: store, Name: id}] == nil)
	vspec.Ensures("C17: nothing else in the store changes", spec_only(snap, store, none, id))
}

func spec_method(m string) string {
	if m == "" {
		return "client_secret_basic"
	}
	return m
}

// spec_secret: the client secret of a configuration in namespace ns, given
// which secret was read.
func spec_secret(s v1.OidcConfigSpec, ns, got string) bool {
	if s.ClientSecretRef.Name == "" || s.ClientSecretRef.Key == "" {
		return got == s.ClientSecret
	}
	if vmodels.GetOK == 0 {
		return got == s.ClientSecret
	}
	v := string(vmodels.GetRes.Data[s.ClientSecretRef.Key])
	if v == "" {
		return got == s.ClientSecret
	}
	return got == v
}

// spec_asked: if the configuration refers to a secret, that one was read.
func spec_asked(s v1.OidcConfigSpec, ns string) bool {
	if s.ClientSecretRef.Name == "" || s.ClientSecretRef.Key == "" {
		return vmodels.GetN == 0
	}
	return vmodels.GetN == 1 && vmodels.GetNS == ns && vmodels.GetName == s.ClientSecretRef.Name
}

//gov:contract GetClientSecret
//gov:props C26 C27
func vc_GetClientSecret(crd *v1.OidcConfig, kube kubernetes.Interface) {
	vspec.Requires(crd != nil && kube != nil)
	vmodels.ResetKube()
	s, ns := crd.Spec, crd.ObjectMeta.Namespace
	r := GetClientSecret(crd, kube)
	vspec.Ensures("C26: the referenced secret of the configuration's namespace is read", spec_asked(s, ns))
	vspec.Ensures("C26: the secret is the referenced value or else the plain one", spec_secret(s, ns, r))
}

// spec_keys: a key set given to the server was made for the server's own
// address.
func spec_keys() bool {
	if authserver.SkN == 0 {
		return true
	}
	return authserver.SkN == 1 && vspec.Same(authserver.SkServer, authserver.AsRes) && authserver.KsN == 1 && vspec.Same(authserver.SkVal, authserver.KsRes) &&
		vspec.Same(authserver.JwServer, authserver.AsRes) && authserver.KsURL == authserver.JwVal && authserver.JwVal != ""
}

func spec_join(s []string) string { return client.Spec_scopes(s) }

//gov:contract (*OidcConfigAddEventHandler).HandleAddUpdateEvent
//gov:props C17 C26 C27
func vc_OidcAdd(e *OidcConfigAddEventHandler) {
	vspec.Requires(e != nil && e.Obj != nil && e.Store != nil && e.KubeClient != nil)
	authserver.ResetServers()
	vmodels.ResetKube()
	store, s, ns := e.Store, e.Obj.Spec, e.Obj.ObjectMeta.Namespace
	id := ns + "/" + e.Obj.ObjectMeta.Name
	snap := vspec.Snapshot()
	e.HandleAddUpdateEvent()
	c := storepolicy.Clients[storepolicy.NameKey{S: store, Name: id}]
	vspec.Ensures("C17: nothing else in the store changes", spec_only(snap, store, none, id))
	vspec.Ensures("C17: a client is registered under the configuration's namespace and name", c != nil)
	if c == nil {
		return
	}
	vspec.Ensures("C17,C26: with that name", c.Name() == id)
	vspec.Ensures("C17,C26: and the configuration's client id", c.ID() == s.ClientID)
	vspec.Ensures("C26: the referenced secret of the configuration's namespace is read", spec_asked(s, ns))
	vspec.Ensures("C26: the secret is the referenced value or else the plain one", spec_secret(s, ns, c.Secret()))
	vspec.Ensures("C26: the scopes", c.Scope() == spec_join(s.Scopes))
	vspec.Ensures("C17,C26: one authorization server is made for the discovery address", authserver.AsN == 1 && authserver.AsURL == s.DiscoveryURL && vspec.Same(c.AuthorizationServer(), authserver.AsRes))
	vspec.Ensures("C26: a key set given to it is made for its own address", spec_keys())
	client.Reset()
	secret := c.Secret()
	c.ExchangeGrantCode("", "")
	vspec.Ensures("C26: the authentication method, by default basic", client.GtN == 1 && client.GtMethod == spec_method(s.AuthMethod) && client.GtID == s.ClientID && client.GtSecret == secret)
}

//gov:contract GetAddEventHandler
//gov:props C17 C27
func vc_GetAddEventHandler(obj interface{}, store storepolicy.PolicyStore, kube kubernetes.Interface) {
	h := GetAddEventHandler(obj, store, kube)
	if o, ok := obj.(*v1.JwtConfig); ok {
		r, is := h.(*JwtConfigAddEventHandler)
		vspec.Ensures("C17: a JwtConfig event", is && r != nil && r.Obj == o && vspec.Same(r.Store, store))
	} else if o, ok := obj.(*v1.OidcConfig); ok {
		r, is := h.(*OidcConfigAddEventHandler)
		vspec.Ensures("C17: an OidcConfig event", is && r != nil && r.Obj == o && vspec.Same(r.Store, store) && vspec.Same(r.KubeClient, kube))
	} else if o, ok := obj.(*v1.Policy); ok {
		r, is := h.(*PolicyAddEventHandler)
		vspec.Ensures("C17: a Policy event", is && r != nil && r.Obj == o && vspec.Same(r.Store, store))
	} else {
		vspec.Ensures("C17: objects of other kinds are not handled", h == nil)
	}
}

//gov:contract GetDeleteEventHandler
//gov:props C17 C27
func vc_GetDeleteEventHandler(k policy.CrdKey, store storepolicy.PolicyStore) {
	h := GetDeleteEventHandler(k, store)
	switch k.CrdType {
	case v1.JWTCONFIG:
		r, is := h.(*JwtConfigDeleteEventHandler)
		vspec.Ensures("C17: a JwtConfig is deleted", is && r != nil && r.Key == k.Id && vspec.Same(r.Store, store))
	case v1.OIDCCONFIG:
		r, is := h.(*OidcConfigDeleteEventHandler)
		vspec.Ensures("C17: an OidcConfig is deleted", is && r != nil && r.Key == k.Id && vspec.Same(r.Store, store))
	case v1.POLICY:
		r, is := h.(*PolicyDeleteEventHandler)
		vspec.Ensures("C17: a Policy is deleted", is && r != nil && r.Key == k.Id && vspec.Same(r.Store, store))
	default:
		vspec.Ensures("C17: keys of other kinds are not handled", h == nil)
	}
}
