package vmodels

import (
	"github.com/gorilla/securecookie"
	"k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"
	corev1 "k8s.io/client-go/kubernetes/typed/core/v1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func any_core() corev1.CoreV1Interface    { panic("any") }
func any_secrets() corev1.SecretInterface { panic("any") }
func any_secret() v1.Secret               { panic("any") }

// Which secrets were read and created.
var (
	SecretNS map[corev1.SecretInterface]string

	GetN, GetOK    int
	GetNS, GetName string
	GetRes         *v1.Secret
	CrN, CrOK      int
	CrNS           string
	CrObj          v1.Secret
	CrRes          *v1.Secret

	SealHash, SealBlock map[*securecookie.SecureCookie][]byte
)

func ResetKube() {
	SecretNS = map[corev1.SecretInterface]string{}
	GetN, GetOK, GetNS, GetName, GetRes = 0, 0, "", "", nil
	CrN, CrOK, CrNS, CrRes = 0, 0, "", nil
	SealHash = map[*securecookie.SecureCookie][]byte{}
	SealBlock = map[*securecookie.SecureCookie][]byte{}
}

//gov:model (k8s.io/client-go/kubernetes.Interface).CoreV1
func m_CoreV1(k kubernetes.Interface) corev1.CoreV1Interface {
	c := any_core()
	vspec.Assume(c != nil)
	return c
}

//gov:model (k8s.io/client-go/kubernetes/typed/core/v1.CoreV1Interface).Secrets (k8s.io/client-go/kubernetes/typed/core/v1.SecretsGetter).Secrets
func m_Secrets(c corev1.CoreV1Interface, ns string) corev1.SecretInterface {
	s := any_secrets()
	vspec.Assume(s != nil)
	SecretNS[s] = ns
	return s
}

//gov:model (k8s.io/client-go/kubernetes/typed/core/v1.SecretInterface).Get
func m_SecretGet(s corev1.SecretInterface, name string, o metav1.GetOptions) (*v1.Secret, error) {
	GetN++
	GetNS, GetName = SecretNS[s], name
	if any_bool() {
		return nil, Err()
	}
	GetOK++
	GetRes = new(v1.Secret)
	*GetRes = any_secret()
	return GetRes, nil
}

//gov:model (k8s.io/client-go/kubernetes/typed/core/v1.SecretInterface).Create
func m_SecretCreate(s corev1.SecretInterface, o *v1.Secret) (*v1.Secret, error) {
	vspec.Requires(o != nil)
	CrN++
	CrNS, CrObj = SecretNS[s], *o
	if any_bool() {
		return nil, Err()
	}
	CrOK++
	CrRes = new(v1.Secret)
	*CrRes = *o
	return CrRes, nil
}

//gov:model github.com/gorilla/securecookie.New
func m_SecureCookieNew(hash, block []byte) *securecookie.SecureCookie {
	s := new(securecookie.SecureCookie)
	SealHash[s], SealBlock[s] = hash, block
	return s
}

// GenerateRandomKey: nil when the system's randomness fails.
//
//gov:model github.com/gorilla/securecookie.GenerateRandomKey
func m_GenerateRandomKey(n int) []byte {
	vspec.Requires(n >= 0)
	b := any_bytes()
	vspec.Assume(b == nil || len(b) == n)
	return b
}
