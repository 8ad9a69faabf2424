package controller

import (
	"k8s.io/client-go/tools/cache"
	"k8s.io/client-go/util/workqueue"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func any_bool() bool             { panic("any") }
func any_int() int               { panic("any") }
func any_string() string         { panic("any") }
func any_item() interface{}      { panic("any") }
func any_indexer() cache.Indexer { panic("any") }

// What happened to the queue, the index and the handler.
var (
	Quit   bool
	Key    string
	Tried  int
	LookN  int
	LookOf string
	Found  bool
	Failed bool
	Item   interface{}

	DoneN, ForgetN, RetryN, OtherN int

	AddN, DelN     int
	AddObj, DelObj interface{}
)

//gov:model (k8s.io/client-go/util/workqueue.Interface).Get (k8s.io/client-go/util/workqueue.RateLimitingInterface).Get (k8s.io/client-go/util/workqueue.DelayingInterface).Get
func m_Get(q workqueue.Interface) (interface{}, bool) {
	Quit = any_bool()
	if Quit {
		return nil, true
	}
	return Key, false
}

func spec_key(item interface{}) bool {
	k, ok := item.(string)
	return ok && k == Key
}

//gov:model (k8s.io/client-go/util/workqueue.Interface).Done (k8s.io/client-go/util/workqueue.RateLimitingInterface).Done (k8s.io/client-go/util/workqueue.DelayingInterface).Done
func m_Done(q workqueue.Interface, item interface{}) {
	if spec_key(item) {
		DoneN++
	} else {
		OtherN++
	}
}

//gov:model (k8s.io/client-go/util/workqueue.RateLimitingInterface).NumRequeues
func m_NumRequeues(q workqueue.RateLimitingInterface, item interface{}) int {
	if spec_key(item) {
		return Tried
	}
	return any_int()
}

//gov:model (k8s.io/client-go/util/workqueue.RateLimitingInterface).AddRateLimited
func m_AddRateLimited(q workqueue.RateLimitingInterface, item interface{}) {
	if spec_key(item) {
		RetryN++
	} else {
		OtherN++
	}
}

//gov:model (k8s.io/client-go/util/workqueue.RateLimitingInterface).Forget
func m_Forget(q workqueue.RateLimitingInterface, item interface{}) {
	if spec_key(item) {
		ForgetN++
	} else {
		OtherN++
	}
}

//gov:model (k8s.io/client-go/tools/cache.SharedIndexInformer).GetIndexer
func m_GetIndexer(i cache.SharedIndexInformer) cache.Indexer {
	x := any_indexer()
	vspec.Assume(x != nil)
	return x
}

//gov:model (k8s.io/client-go/tools/cache.Indexer).GetByKey (k8s.io/client-go/tools/cache.Store).GetByKey
func m_GetByKey(i cache.Indexer, key string) (interface{}, bool, error) {
	LookN++
	LookOf = key
	Found, Failed, Item = any_bool(), any_bool(), any_item()
	if Failed {
		return Item, Found, vmodels.Err()
	}
	return Item, Found, nil
}

//gov:model (adapter/policy/handler.PolicyHandler).HandleAddUpdateEvent
func mw_HandleAddUpdateEvent(h handler.PolicyHandler, obj interface{}) {
	AddN++
	AddObj = obj
}

//gov:model (adapter/policy/handler.PolicyHandler).HandleDeleteEvent
func mw_HandleDeleteEvent(h handler.PolicyHandler, obj interface{}) {
	DelN++
	DelObj = obj
}

func begin() {
	Quit, Key, Tried, LookN, LookOf, Found, Failed, Item = false, any_string(), any_int(), 0, "", false, false, nil
	DoneN, ForgetN, RetryN, OtherN, AddN, DelN, AddObj, DelObj = 0, 0, 0, 0, 0, 0, nil, nil
	vspec.Assume(Tried >= 0)
}

// spec_looked: the object of the key was looked up, once.
func spec_looked() bool { return LookN == 1 && LookOf == Key }

//gov:contract (*Controller).processNextItem
//gov:props C17 C27
func vc_processNextItem(c *Controller) {
	vspec.Requires(c != nil && c.Queue != nil && c.Informer != nil && c.Handler != nil)
	begin()
	kind := c.CrdType
	r := c.processNextItem()
	if Quit {
		vspec.Ensures("C17: the worker ends when the queue does", !r)
		vspec.Ensures("C17: and handles nothing", AddN+DelN+RetryN == 0)
		return
	}
	vspec.Ensures("C17: the worker goes on", r)
	vspec.Ensures("C17: the object of the key is looked up", spec_looked())
	vspec.Ensures("C17: the key is done", DoneN == 1 && OtherN == 0)
	if Failed {
		vspec.Ensures("C17: nothing is added or removed when the lookup failed", AddN+DelN == 0)
		vspec.Ensures("C17: the key is retried up to its limit", spec_once(RetryN, Tried < 5) && spec_once(ForgetN, Tried >= 5))
		return
	}
	vspec.Ensures("C17: a key which was handled is not retried", RetryN == 0 && ForgetN == 1)
	if Found {
		vspec.Ensures("C17: an object which exists is added or updated", AddN == 1 && DelN == 0 && vspec.Same(AddObj, Item))
		return
	}
	k, ok := DelObj.(policy.CrdKey)
	vspec.Ensures("C17: an object which is gone is deleted", AddN == 0 && DelN == 1 && ok && k.Id == Key && k.CrdType == kind)
}

func spec_once(n int, when bool) bool {
	if when {
		return n == 1
	}
	return n == 0
}
