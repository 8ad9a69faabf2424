package initializer

import (
	"time"

	"k8s.io/client-go/rest"
	"k8s.io/client-go/tools/cache"
	"k8s.io/client-go/util/workqueue"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/clientset/versioned"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/informers/externalversions"
	policies "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/informers/externalversions/policies"
	informers "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/informers/externalversions/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/controller"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func any_factory() externalversions.SharedInformerFactory { panic("any") }
func any_policies() policies.Interface                    { panic("any") }
func any_version() informers.Interface                    { panic("any") }
func any_jwt() informers.JwtConfigInformer                { panic("any") }
func any_oidc() informers.OidcConfigInformer              { panic("any") }
func any_pol() informers.PolicyInformer                   { panic("any") }
func any_informer() cache.SharedIndexInformer             { panic("any") }
func any_queue() workqueue.RateLimitingInterface          { panic("any") }
func any_object() interface{}                             { panic("any") }

// The informers, what is called on their events, the controllers run, and what
// is queued.
var (
	KindOf  map[cache.SharedIndexInformer]int
	FuncsOf map[cache.SharedInformer]cache.ResourceEventHandler

	RunN      int
	RunOf     map[v1.CrdType]cache.SharedIndexInformer
	QueueOf   map[v1.CrdType]workqueue.RateLimitingInterface
	HandlerOf map[v1.CrdType]handler.PolicyHandler

	QueuedN int
	Queued  interface{}
	QueuedQ workqueue.Interface
)

//gov:model adapter/pkg/client/informers/externalversions.NewSharedInformerFactory
func m_NewSharedInformerFactory(c versioned.Interface, d time.Duration) externalversions.SharedInformerFactory {
	x := any_factory()
	vspec.Assume(x != nil)
	return x
}

//gov:model (adapter/pkg/client/informers/externalversions.SharedInformerFactory).Appid
func m_Appid(f externalversions.SharedInformerFactory) policies.Interface {
	x := any_policies()
	vspec.Assume(x != nil)
	return x
}

//gov:model (adapter/pkg/client/informers/externalversions/policies.Interface).V1
func m_V1(f policies.Interface) informers.Interface {
	x := any_version()
	vspec.Assume(x != nil)
	return x
}

//gov:model (adapter/pkg/client/informers/externalversions/policies/v1.Interface).JwtConfigs
func m_JwtConfigs(f informers.Interface) informers.JwtConfigInformer {
	x := any_jwt()
	vspec.Assume(x != nil)
	return x
}

//gov:model (adapter/pkg/client/informers/externalversions/policies/v1.Interface).OidcConfigs
func m_OidcConfigs(f informers.Interface) informers.OidcConfigInformer {
	x := any_oidc()
	vspec.Assume(x != nil)
	return x
}

//gov:model (adapter/pkg/client/informers/externalversions/policies/v1.Interface).Policies
func m_Policies(f informers.Interface) informers.PolicyInformer {
	x := any_pol()
	vspec.Assume(x != nil)
	return x
}

const (
	kindJwt = 1 + iota
	kindOidc
	kindPolicy
)

func newInformer(kind int) cache.SharedIndexInformer {
	x := any_informer()
	vspec.Assume(x != nil && KindOf[x] == 0)
	KindOf[x] = kind
	return x
}

//gov:model (adapter/pkg/client/informers/externalversions/policies/v1.JwtConfigInformer).Informer
func m_JwtInformer(f informers.JwtConfigInformer) cache.SharedIndexInformer { return newInformer(kindJwt) }

//gov:model (adapter/pkg/client/informers/externalversions/policies/v1.OidcConfigInformer).Informer
func m_OidcInformer(f informers.OidcConfigInformer) cache.SharedIndexInformer {
	return newInformer(kindOidc)
}

//gov:model (adapter/pkg/client/informers/externalversions/policies/v1.PolicyInformer).Informer
func m_PolInformer(f informers.PolicyInformer) cache.SharedIndexInformer { return newInformer(kindPolicy) }

//gov:model (k8s.io/client-go/tools/cache.SharedIndexInformer).AddEventHandler (k8s.io/client-go/tools/cache.SharedInformer).AddEventHandler
func m_AddEventHandler(i cache.SharedInformer, h cache.ResourceEventHandler) {
	FuncsOf[i] = h
}

//gov:model k8s.io/client-go/util/workqueue.NewRateLimitingQueue
func m_NewQueue(l workqueue.RateLimiter) workqueue.RateLimitingInterface {
	x := any_queue()
	vspec.Assume(x != nil)
	return x
}

//gov:model (k8s.io/client-go/util/workqueue.RateLimitingInterface).Add (k8s.io/client-go/util/workqueue.Interface).Add (k8s.io/client-go/util/workqueue.DelayingInterface).Add
func m_Add(q workqueue.Interface, item interface{}) {
	QueuedN++
	QueuedQ, Queued = q, item
}

// The key of an object: namespace/name.
func Uf_key(obj interface{}) (string, bool) { panic("uf") }

//gov:model k8s.io/client-go/tools/cache.MetaNamespaceKeyFunc
func m_KeyFunc(obj interface{}) (string, error) {
	if k, ok := Uf_key(obj); ok {
		return k, nil
	}
	return "", vmodels.Err()
}

// As above, also for the last known state of an object whose deletion was
// missed.
func Uf_deletedKey(obj interface{}) (string, bool) { panic("uf") }

//gov:model k8s.io/client-go/tools/cache.DeletionHandlingMetaNamespaceKeyFunc
func m_DeletedKeyFunc(obj interface{}) (string, error) {
	if k, ok := Uf_deletedKey(obj); ok {
		return k, nil
	}
	return "", vmodels.Err()
}

//gov:model (*adapter/policy/controller.Controller).Run
func m_Run(c *controller.Controller, stop <-chan struct{}) {
	RunN++
	RunOf[c.CrdType], QueueOf[c.CrdType], HandlerOf[c.CrdType] = c.Informer, c.Queue, c.Handler
}

func spec_queued(n int, q workqueue.RateLimitingInterface, key string, ok bool) bool {
	if !ok {
		return QueuedN == n
	}
	k, is := Queued.(string)
	return QueuedN == n+1 && is && k == key && vspec.Same(QueuedQ, workqueue.Interface(q))
}

func any_clientset() *versioned.Clientset { panic("any") }
func any_bool() bool                      { panic("any") }

//gov:model adapter/pkg/client/clientset/versioned.NewForConfig
func m_NewForConfig(c *rest.Config) (*versioned.Clientset, error) {
	if any_bool() {
		return nil, vmodels.Err()
	}
	x := any_clientset()
	vspec.Assume(x != nil)
	return x, nil
}

func begin() {
	KindOf = map[cache.SharedIndexInformer]int{}
	FuncsOf = map[cache.SharedInformer]cache.ResourceEventHandler{}
	RunN, QueuedN = 0, 0
	RunOf = map[v1.CrdType]cache.SharedIndexInformer{}
	QueueOf = map[v1.CrdType]workqueue.RateLimitingInterface{}
	HandlerOf = map[v1.CrdType]handler.PolicyHandler{}
}

func spec_runs(kind int, t v1.CrdType, h handler.PolicyHandler) bool {
	i := RunOf[t]
	return i != nil && KindOf[i] == kind && QueueOf[t] != nil && vspec.Same(HandlerOf[t], h)
}

func spec_funcs(t v1.CrdType) (cache.ResourceEventHandlerFuncs, bool) {
	f, ok := FuncsOf[RunOf[t]].(cache.ResourceEventHandlerFuncs)
	return f, ok && f.AddFunc != nil && f.UpdateFunc != nil && f.DeleteFunc != nil
}

//gov:contract New
//gov:props C17
//gov:opt go=inline
func vc_New(store policy.PolicyStore) {
	begin()
	pi, err := New(store)
	if err != nil {
		return
	}
	vspec.Ensures("C17: an initializer", pi != nil)
	h := pi.GetHandler()
	vspec.Ensures("C17: each kind of object has a controller of its own", RunN == 3 && spec_runs(kindJwt, v1.JWTCONFIG, h) &&
		spec_runs(kindOidc, v1.OIDCCONFIG, h) && spec_runs(kindPolicy, v1.POLICY, h))
	_, a := spec_funcs(v1.JWTCONFIG)
	_, b := spec_funcs(v1.OIDCCONFIG)
	_, c := spec_funcs(v1.POLICY)
	vspec.Ensures("C17: the events of every kind are queued", a && b && c)
}

//gov:contract New
//gov:props C17
//gov:opt go=inline
func vc_JwtEvents(store policy.PolicyStore) {
	begin()
	_, err := New(store)
	f, ok := spec_funcs(v1.JWTCONFIG)
	if err != nil || !ok {
		return
	}
	q := QueueOf[v1.JWTCONFIG]
	o, o2 := any_object(), any_object()
	n := QueuedN
	f.AddFunc(o)
	k, is := Uf_key(o)
	vspec.Ensures("C17: the key of an added object is queued", spec_queued(n, q, k, is))
	n = QueuedN
	f.UpdateFunc(o, o2)
	k, is = Uf_key(o2)
	vspec.Ensures("C17: the key of an updated object is queued", spec_queued(n, q, k, is))
	n = QueuedN
	f.DeleteFunc(o)
	k, is = Uf_deletedKey(o)
	vspec.Ensures("C17: the key of a deleted object is queued", spec_queued(n, q, k, is))
}

//gov:contract New
//gov:props C17
//gov:opt go=inline
func vc_OidcEvents(store policy.PolicyStore) {
	begin()
	_, err := New(store)
	f, ok := spec_funcs(v1.OIDCCONFIG)
	if err != nil || !ok {
		return
	}
	q := QueueOf[v1.OIDCCONFIG]
	o, o2 := any_object(), any_object()
	n := QueuedN
	f.AddFunc(o)
	k, is := Uf_key(o)
	vspec.Ensures("C17: the key of an added object is queued", spec_queued(n, q, k, is))
	n = QueuedN
	f.UpdateFunc(o, o2)
	k, is = Uf_key(o2)
	vspec.Ensures("C17: the key of an updated object is queued", spec_queued(n, q, k, is))
	n = QueuedN
	f.DeleteFunc(o)
	k, is = Uf_deletedKey(o)
	vspec.Ensures("C17: the key of a deleted object is queued", spec_queued(n, q, k, is))
}

//gov:contract New
//gov:props C17
//gov:opt go=inline
func vc_PolicyEvents(store policy.PolicyStore) {
	begin()
	_, err := New(store)
	f, ok := spec_funcs(v1.POLICY)
	if err != nil || !ok {
		return
	}
	q := QueueOf[v1.POLICY]
	o, o2 := any_object(), any_object()
	n := QueuedN
	f.AddFunc(o)
	k, is := Uf_key(o)
	vspec.Ensures("C17: the key of an added object is queued", spec_queued(n, q, k, is))
	n = QueuedN
	f.UpdateFunc(o, o2)
	k, is = Uf_key(o2)
	vspec.Ensures("C17: the key of an updated object is queued", spec_queued(n, q, k, is))
	n = QueuedN
	f.DeleteFunc(o)
	k, is = Uf_deletedKey(o)
	vspec.Ensures("C17: the key of a deleted object is queued", spec_queued(n, q, k, is))
}
