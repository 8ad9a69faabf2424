package adapter

import (
	"net"

	"google.golang.org/grpc"
	"k8s.io/client-go/kubernetes"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/initializer"
	storePolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	apistrategy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/api"
	webstrategy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/web"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

func any_bool() bool                    { panic("any") }
func any_init() initializer.Initializer { panic("any") }
func any_kube() kubernetes.Interface    { panic("any") }
func any_grpc() *grpc.Server            { panic("any") }

// How the adapter was put together.
var (
	InitN     int
	InitStore storePolicy.PolicyStore
	RegN      int
	RegOn     *grpc.Server
	Reg       authnz.HandleAuthnZServiceServer
)

//gov:model adapter/policy/initializer.New
func m_InitializerNew(store storePolicy.PolicyStore) (initializer.Initializer, error) {
	InitN++
	InitStore = store
	if any_bool() {
		return nil, vmodels.Err()
	}
	x := any_init()
	vspec.Assume(x != nil)
	return x, nil
}

//gov:model (adapter/policy/initializer.Initializer).GetKubeClient
func mw_GetKubeClient(i initializer.Initializer) kubernetes.Interface {
	x := any_kube()
	vspec.Assume(x != nil)
	return x
}

func any_listener() net.Listener { panic("any") }

//gov:model net.Listen
func m_Listen(network, address string) (net.Listener, error) {
	if any_bool() {
		return nil, vmodels.Err()
	}
	x := any_listener()
	vspec.Assume(x != nil)
	return x, nil
}

//gov:model google.golang.org/grpc.NewServer
func m_NewServer(o ...grpc.ServerOption) *grpc.Server {
	x := any_grpc()
	vspec.Assume(x != nil)
	return x
}

//gov:model config/template.RegisterHandleAuthnZServiceServer
func m_Register(s *grpc.Server, srv authnz.HandleAuthnZServiceServer) {
	RegN++
	RegOn, Reg = s, srv
}

// The adapter serves requests by the entries its initializer fills in, with
// the JWT and the OIDC strategy.
//
//gov:contract NewAppIDAdapter
//gov:props C01
func vc_NewAppIDAdapter(cfg *config.Config) {
	vspec.Requires(cfg != nil && cfg.HashKeySize.Value >= 0 && cfg.BlockKeySize.Value >= 0)
	vmodels.ResetWeb()
	vmodels.ResetKube()
	InitN, InitStore, RegN, RegOn, Reg = 0, nil, 0, nil, nil
	srv, err := NewAppIDAdapter(cfg)
	if err != nil {
		return
	}
	s, ok := srv.(*AppidAdapter)
	vspec.Ensures("C01: an adapter", ok && s != nil)
	if !ok || s == nil {
		return
	}
	vspec.Ensures("C01: its engine uses the store which cluster events fill", InitN == 1 && InitStore != nil && engine.Spec_on(s.engine, InitStore))
	a, isA := s.apistrategy.(*apistrategy.APIStrategy)
	w, isW := s.webstrategy.(*webstrategy.WebStrategy)
	vspec.Ensures("C01: JWT policies have the JWT strategy, OIDC policies the OIDC strategy", isA && a != nil && isW && w != nil)
	r, isR := Reg.(*AppidAdapter)
	vspec.Ensures("C01: it is what the server serves", RegN == 1 && RegOn == s.server && isR && r == s)
}

func any_addr() net.Addr { panic("any") }

//gov:model (net.Listener).Addr
func m_Addr(l net.Listener) net.Addr {
	x := any_addr()
	vspec.Assume(x != nil)
	return x
}
