package v1

import (
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

// spec_ownStrings: the copy has the same strings, in an array of its own.
func spec_ownStrings(in, out []string) bool {
	return (in == nil) == (out == nil) && len(in) == len(out) &&
		vspec.ForAll(0, len(in), func(i int) bool { return out[i] == in[i] }) &&
		(out == nil || vspec.Fresh(out))
}

func rec_ownRule(in, out Rule) bool {
	return out.Claim == in.Claim && out.Match == in.Match && out.Source == in.Source && spec_ownStrings(in.Values, out.Values)
}

func spec_ownRules(in, out []Rule) bool {
	return (in == nil) == (out == nil) && len(in) == len(out) &&
		vspec.ForAll(0, len(in), func(i int) bool { return rec_ownRule(in[i], out[i]) }) &&
		(out == nil || vspec.Fresh(out))
}

//gov:contract (*Rule).DeepCopyInto
//gov:use
//gov:props C29
func vc_RuleDeepCopyInto(in, out *Rule) {
	vspec.Requires(in != nil && out != nil && in != out)
	vspec.Modifies(out)
	snap := vspec.Snapshot()
	in.DeepCopyInto(out)
	vspec.Ensures("the copy of a rule is equal and shares nothing", rec_ownRule(*in, *out))
	vspec.Ensures("the rule which is copied stays as it is", vspec.Unchanged(snap, in, in.Values))
}

//gov:contract (*PathPolicy).DeepCopyInto
//gov:use
//gov:props C29
func vc_PathPolicyDeepCopyInto(in, out *PathPolicy) {
	vspec.Requires(in != nil && out != nil && in != out)
	vspec.Modifies(out)
	snap := vspec.Snapshot()
	in.DeepCopyInto(out)
	vspec.Ensures("the copy of an action is equal and shares nothing", rec_ownPolicy(*in, *out))
	vspec.Ensures("the action which is copied stays as it is", vspec.Unchanged(snap, in, in.Rules))
}

func rec_ownPolicy(in, out PathPolicy) bool {
	return out.PolicyType == in.PolicyType && out.Config == in.Config && out.RedirectUri == in.RedirectUri && spec_ownRules(in.Rules, out.Rules)
}

func rec_ownPath(in, out PathConfig) bool {
	return out.Exact == in.Exact && out.Prefix == in.Prefix && out.Method == in.Method &&
		(in.Policies == nil) == (out.Policies == nil) && len(in.Policies) == len(out.Policies) &&
		vspec.ForAll(0, len(in.Policies), func(i int) bool { return rec_ownPolicy(in.Policies[i], out.Policies[i]) }) &&
		(out.Policies == nil || vspec.Fresh(out.Policies))
}

func rec_ownTarget(in, out TargetElement) bool {
	return out.ServiceName == in.ServiceName &&
		(in.Paths == nil) == (out.Paths == nil) && len(in.Paths) == len(out.Paths) &&
		vspec.ForAll(0, len(in.Paths), func(i int) bool { return rec_ownPath(in.Paths[i], out.Paths[i]) }) &&
		(out.Paths == nil || vspec.Fresh(out.Paths))
}

func spec_ownSpec(in, out PolicySpec) bool {
	return (in.Target == nil) == (out.Target == nil) && len(in.Target) == len(out.Target) &&
		vspec.ForAll(0, len(in.Target), func(i int) bool { return rec_ownTarget(in.Target[i], out.Target[i]) }) &&
		(out.Target == nil || vspec.Fresh(out.Target))
}

//gov:contract (*PathConfig).DeepCopyInto
//gov:use
//gov:props C29
func vc_PathConfigDeepCopyInto(in, out *PathConfig) {
	vspec.Requires(in != nil && out != nil && in != out)
	vspec.Modifies(out)
	snap := vspec.Snapshot()
	in.DeepCopyInto(out)
	vspec.Ensures("the copy of a path entry is equal and shares nothing", rec_ownPath(*in, *out))
	vspec.Ensures("the path entry which is copied stays as it is", vspec.Unchanged(snap, in, in.Policies))
}

//gov:contract (*TargetElement).DeepCopyInto
//gov:use
//gov:props C29
func vc_TargetElementDeepCopyInto(in, out *TargetElement) {
	vspec.Requires(in != nil && out != nil && in != out)
	vspec.Modifies(out)
	snap := vspec.Snapshot()
	in.DeepCopyInto(out)
	vspec.Ensures("the copy of a target is equal and shares nothing", rec_ownTarget(*in, *out))
	vspec.Ensures("the target which is copied stays as it is", vspec.Unchanged(snap, in, in.Paths))
}

//gov:contract (*PolicySpec).DeepCopyInto
//gov:use
//gov:props C29
func vc_PolicySpecDeepCopyInto(in, out *PolicySpec) {
	vspec.Requires(in != nil && out != nil && in != out)
	vspec.Modifies(out)
	snap := vspec.Snapshot()
	in.DeepCopyInto(out)
	vspec.Ensures("the copy of the targets of a policy is equal and shares nothing", spec_ownSpec(*in, *out))
	vspec.Ensures("the policy which is copied stays as it is", vspec.Unchanged(snap, in, in.Target))
}

func spec_ownOidc(in, out OidcConfigSpec) bool {
	return out.ClientName == in.ClientName && out.AuthMethod == in.AuthMethod && out.ClientID == in.ClientID &&
		out.DiscoveryURL == in.DiscoveryURL && out.ClientSecret == in.ClientSecret && out.ClientSecretRef == in.ClientSecretRef &&
		spec_ownStrings(in.Scopes, out.Scopes)
}

//gov:contract (*OidcConfigSpec).DeepCopyInto
//gov:use
//gov:props C29
func vc_OidcConfigSpecDeepCopyInto(in, out *OidcConfigSpec) {
	vspec.Requires(in != nil && out != nil && in != out)
	vspec.Modifies(out)
	snap := vspec.Snapshot()
	in.DeepCopyInto(out)
	vspec.Ensures("the copy of an OIDC configuration is equal and shares nothing", spec_ownOidc(*in, *out))
	vspec.Ensures("the OIDC configuration which is copied stays as it is", vspec.Unchanged(snap, in, in.Scopes))
}

//gov:contract (*JwtConfigSpec).DeepCopyInto
//gov:use
//gov:props C29
func vc_JwtConfigSpecDeepCopyInto(in, out *JwtConfigSpec) {
	vspec.Requires(in != nil && out != nil && in != out)
	vspec.Modifies(out)
	snap := vspec.Snapshot()
	in.DeepCopyInto(out)
	vspec.Ensures("the copy of a JWT configuration is equal", *out == *in)
	vspec.Ensures("the JWT configuration which is copied stays as it is", vspec.Unchanged(snap, in))
}

//gov:contract (*ClientSecretRef).DeepCopyInto
//gov:use
//gov:props C29
func vc_ClientSecretRefDeepCopyInto(in, out *ClientSecretRef) {
	vspec.Requires(in != nil && out != nil && in != out)
	vspec.Modifies(out)
	snap := vspec.Snapshot()
	in.DeepCopyInto(out)
	vspec.Ensures("the copy of a secret reference is equal", *out == *in)
	vspec.Ensures("the secret reference which is copied stays as it is", vspec.Unchanged(snap, in))
}

// uf_ownMeta: the metadata is equal and shares no map, slice or object. It is
// established by nothing but the copy functions of the Kubernetes library.
func uf_ownMeta(in, out metav1.ObjectMeta) bool { panic("spec") }

func uf_ownListMeta(in, out metav1.ListMeta) bool { panic("spec") }

//gov:model (*k8s.io/apimachinery/pkg/apis/meta/v1.ObjectMeta).DeepCopyInto
func m_metaDeepCopyInto(in, out *metav1.ObjectMeta) {
	vspec.Havoc(out)
	vspec.Assume(out.Name == in.Name && out.Namespace == in.Namespace && out.UID == in.UID)
	vspec.Assume(uf_ownMeta(*in, *out))
}

//gov:model (*k8s.io/apimachinery/pkg/apis/meta/v1.ListMeta).DeepCopyInto
func m_listMetaDeepCopyInto(in, out *metav1.ListMeta) {
	vspec.Havoc(out)
	vspec.Assume(uf_ownListMeta(*in, *out))
}

func rec_ownJwtConfig(in, out JwtConfig) bool {
	return out.TypeMeta == in.TypeMeta && uf_ownMeta(in.ObjectMeta, out.ObjectMeta) && out.Spec == in.Spec
}

func rec_ownOidcConfig(in, out OidcConfig) bool {
	return out.TypeMeta == in.TypeMeta && uf_ownMeta(in.ObjectMeta, out.ObjectMeta) && spec_ownOidc(in.Spec, out.Spec)
}

func rec_ownPolicyObj(in, out Policy) bool {
	return out.TypeMeta == in.TypeMeta && uf_ownMeta(in.ObjectMeta, out.ObjectMeta) && spec_ownSpec(in.Spec, out.Spec)
}

func spec_ownJwtConfigList(in, out JwtConfigList) bool {
	return out.TypeMeta == in.TypeMeta && uf_ownListMeta(in.ListMeta, out.ListMeta) &&
		(in.Items == nil) == (out.Items == nil) && len(in.Items) == len(out.Items) &&
		vspec.ForAll(0, len(in.Items), func(i int) bool { return rec_ownJwtConfig(in.Items[i], out.Items[i]) }) &&
		(out.Items == nil || vspec.Fresh(out.Items))
}

//gov:contract (*JwtConfig).DeepCopyInto
//gov:use
//gov:props C29
func vc_JwtConfigDeepCopyInto(in, out *JwtConfig) {
	vspec.Requires(in != nil && out != nil && in != out)
	vspec.Modifies(out)
	snap := vspec.Snapshot()
	in.DeepCopyInto(out)
	vspec.Ensures("the copy of a JwtConfig is equal and shares nothing", rec_ownJwtConfig(*in, *out))
	vspec.Ensures("the JwtConfig which is copied stays as it is", vspec.Unchanged(snap, in))
}

//gov:contract (*JwtConfigList).DeepCopyInto
//gov:use
//gov:props C29
func vc_JwtConfigListDeepCopyInto(in, out *JwtConfigList) {
	vspec.Requires(in != nil && out != nil && in != out)
	vspec.Modifies(out)
	snap := vspec.Snapshot()
	in.DeepCopyInto(out)
	vspec.Ensures("the copy of a JwtConfigList is equal and shares nothing", spec_ownJwtConfigList(*in, *out))
	vspec.Ensures("the JwtConfigList which is copied stays as it is", vspec.Unchanged(snap, in, in.Items))
}

func spec_ownOidcConfigList(in, out OidcConfigList) bool {
	return out.TypeMeta == in.TypeMeta && uf_ownListMeta(in.ListMeta, out.ListMeta) &&
		(in.Items == nil) == (out.Items == nil) && len(in.Items) == len(out.Items) &&
		vspec.ForAll(0, len(in.Items), func(i int) bool { return rec_ownOidcConfig(in.Items[i], out.Items[i]) }) &&
		(out.Items == nil || vspec.Fresh(out.Items))
}

//gov:contract (*OidcConfig).DeepCopyInto
//gov:use
//gov:props C29
func vc_OidcConfigDeepCopyInto(in, out *OidcConfig) {
	vspec.Requires(in != nil && out != nil && in != out)
	vspec.Modifies(out)
	snap := vspec.Snapshot()
	in.DeepCopyInto(out)
	vspec.Ensures("the copy of a OidcConfig is equal and shares nothing", rec_ownOidcConfig(*in, *out))
	vspec.Ensures("the OidcConfig which is copied stays as it is", vspec.Unchanged(snap, in))
}

//gov:contract (*OidcConfigList).DeepCopyInto
//gov:use
//gov:props C29
func vc_OidcConfigListDeepCopyInto(in, out *OidcConfigList) {
	vspec.Requires(in != nil && out != nil && in != out)
	vspec.Modifies(out)
	snap := vspec.Snapshot()
	in.DeepCopyInto(out)
	vspec.Ensures("the copy of a OidcConfigList is equal and shares nothing", spec_ownOidcConfigList(*in, *out))
	vspec.Ensures("the OidcConfigList which is copied stays as it is", vspec.Unchanged(snap, in, in.Items))
}

func spec_ownPolicyList(in, out PolicyList) bool {
	return out.TypeMeta == in.TypeMeta && uf_ownListMeta(in.ListMeta, out.ListMeta) &&
		(in.Items == nil) == (out.Items == nil) && len(in.Items) == len(out.Items) &&
		vspec.ForAll(0, len(in.Items), func(i int) bool { return rec_ownPolicyObj(in.Items[i], out.Items[i]) }) &&
		(out.Items == nil || vspec.Fresh(out.Items))
}

//gov:contract (*Policy).DeepCopyInto
//gov:use
//gov:props C29
func vc_PolicyDeepCopyInto(in, out *Policy) {
	vspec.Requires(in != nil && out != nil && in != out)
	vspec.Modifies(out)
	snap := vspec.Snapshot()
	in.DeepCopyInto(out)
	vspec.Ensures("the copy of a Policy is equal and shares nothing", rec_ownPolicyObj(*in, *out))
	vspec.Ensures("the Policy which is copied stays as it is", vspec.Unchanged(snap, in))
}

//gov:contract (*PolicyList).DeepCopyInto
//gov:use
//gov:props C29
func vc_PolicyListDeepCopyInto(in, out *PolicyList) {
	vspec.Requires(in != nil && out != nil && in != out)
	vspec.Modifies(out)
	snap := vspec.Snapshot()
	in.DeepCopyInto(out)
	vspec.Ensures("the copy of a PolicyList is equal and shares nothing", spec_ownPolicyList(*in, *out))
	vspec.Ensures("the PolicyList which is copied stays as it is", vspec.Unchanged(snap, in, in.Items))
}

//gov:contract (*Rule).DeepCopy
//gov:props C29
func vc_RuleDeepCopy(in *Rule) {
	snap := vspec.Snapshot()
	r := in.DeepCopy()
	vspec.Ensures("nothing is copied to nothing", (in == nil) == (r == nil))
	vspec.Ensures("DeepCopy yields an equal Rule which shares nothing", in == nil || vspec.Fresh(r) && rec_ownRule(*in, *r))
	vspec.Ensures("DeepCopy leaves the Rule as it is", in == nil || vspec.Unchanged(snap, in))
}

//gov:contract (*PathPolicy).DeepCopy
//gov:props C29
func vc_PathPolicyDeepCopy(in *PathPolicy) {
	snap := vspec.Snapshot()
	r := in.DeepCopy()
	vspec.Ensures("nothing is copied to nothing", (in == nil) == (r == nil))
	vspec.Ensures("DeepCopy yields an equal PathPolicy which shares nothing", in == nil || vspec.Fresh(r) && rec_ownPolicy(*in, *r))
	vspec.Ensures("DeepCopy leaves the PathPolicy as it is", in == nil || vspec.Unchanged(snap, in))
}

//gov:contract (*PathConfig).DeepCopy
//gov:props C29
func vc_PathConfigDeepCopy(in *PathConfig) {
	snap := vspec.Snapshot()
	r := in.DeepCopy()
	vspec.Ensures("nothing is copied to nothing", (in == nil) == (r == nil))
	vspec.Ensures("DeepCopy yields an equal PathConfig which shares nothing", in == nil || vspec.Fresh(r) && rec_ownPath(*in, *r))
	vspec.Ensures("DeepCopy leaves the PathConfig as it is", in == nil || vspec.Unchanged(snap, in))
}

//gov:contract (*TargetElement).DeepCopy
//gov:props C29
func vc_TargetElementDeepCopy(in *TargetElement) {
	snap := vspec.Snapshot()
	r := in.DeepCopy()
	vspec.Ensures("nothing is copied to nothing", (in == nil) == (r == nil))
	vspec.Ensures("DeepCopy yields an equal TargetElement which shares nothing", in == nil || vspec.Fresh(r) && rec_ownTarget(*in, *r))
	vspec.Ensures("DeepCopy leaves the TargetElement as it is", in == nil || vspec.Unchanged(snap, in))
}

//gov:contract (*PolicySpec).DeepCopy
//gov:props C29
func vc_PolicySpecDeepCopy(in *PolicySpec) {
	snap := vspec.Snapshot()
	r := in.DeepCopy()
	vspec.Ensures("nothing is copied to nothing", (in == nil) == (r == nil))
	vspec.Ensures("DeepCopy yields an equal PolicySpec which shares nothing", in == nil || vspec.Fresh(r) && spec_ownSpec(*in, *r))
	vspec.Ensures("DeepCopy leaves the PolicySpec as it is", in == nil || vspec.Unchanged(snap, in))
}

//gov:contract (*OidcConfigSpec).DeepCopy
//gov:props C29
func vc_OidcConfigSpecDeepCopy(in *OidcConfigSpec) {
	snap := vspec.Snapshot()
	r := in.DeepCopy()
	vspec.Ensures("nothing is copied to nothing", (in == nil) == (r == nil))
	vspec.Ensures("DeepCopy yields an equal OidcConfigSpec which shares nothing", in == nil || vspec.Fresh(r) && spec_ownOidc(*in, *r))
	vspec.Ensures("DeepCopy leaves the OidcConfigSpec as it is", in == nil || vspec.Unchanged(snap, in))
}

//gov:contract (*JwtConfigSpec).DeepCopy
//gov:props C29
func vc_JwtConfigSpecDeepCopy(in *JwtConfigSpec) {
	snap := vspec.Snapshot()
	r := in.DeepCopy()
	vspec.Ensures("nothing is copied to nothing", (in == nil) == (r == nil))
	vspec.Ensures("DeepCopy yields an equal JwtConfigSpec which shares nothing", in == nil || vspec.Fresh(r) && *r == *in)
	vspec.Ensures("DeepCopy leaves the JwtConfigSpec as it is", in == nil || vspec.Unchanged(snap, in))
}

//gov:contract (*ClientSecretRef).DeepCopy
//gov:props C29
func vc_ClientSecretRefDeepCopy(in *ClientSecretRef) {
	snap := vspec.Snapshot()
	r := in.DeepCopy()
	vspec.Ensures("nothing is copied to nothing", (in == nil) == (r == nil))
	vspec.Ensures("DeepCopy yields an equal ClientSecretRef which shares nothing", in == nil || vspec.Fresh(r) && *r == *in)
	vspec.Ensures("DeepCopy leaves the ClientSecretRef as it is", in == nil || vspec.Unchanged(snap, in))
}

//gov:contract (*JwtConfig).DeepCopy
//gov:use
//gov:props C29
func vc_JwtConfigDeepCopy(in *JwtConfig) {
	snap := vspec.Snapshot()
	r := in.DeepCopy()
	vspec.Ensures("nothing is copied to nothing", (in == nil) == (r == nil))
	vspec.Ensures("DeepCopy yields an equal JwtConfig which shares nothing", in == nil || vspec.Fresh(r) && rec_ownJwtConfig(*in, *r))
	vspec.Ensures("DeepCopy leaves the JwtConfig as it is", in == nil || vspec.Unchanged(snap, in))
}

//gov:contract (*OidcConfig).DeepCopy
//gov:use
//gov:props C29
func vc_OidcConfigDeepCopy(in *OidcConfig) {
	snap := vspec.Snapshot()
	r := in.DeepCopy()
	vspec.Ensures("nothing is copied to nothing", (in == nil) == (r == nil))
	vspec.Ensures("DeepCopy yields an equal OidcConfig which shares nothing", in == nil || vspec.Fresh(r) && rec_ownOidcConfig(*in, *r))
	vspec.Ensures("DeepCopy leaves the OidcConfig as it is", in == nil || vspec.Unchanged(snap, in))
}

//gov:contract (*Policy).DeepCopy
//gov:use
//gov:props C29
func vc_PolicyDeepCopy(in *Policy) {
	snap := vspec.Snapshot()
	r := in.DeepCopy()
	vspec.Ensures("nothing is copied to nothing", (in == nil) == (r == nil))
	vspec.Ensures("DeepCopy yields an equal Policy which shares nothing", in == nil || vspec.Fresh(r) && rec_ownPolicyObj(*in, *r))
	vspec.Ensures("DeepCopy leaves the Policy as it is", in == nil || vspec.Unchanged(snap, in))
}

//gov:contract (*JwtConfigList).DeepCopy
//gov:use
//gov:props C29
func vc_JwtConfigListDeepCopy(in *JwtConfigList) {
	snap := vspec.Snapshot()
	r := in.DeepCopy()
	vspec.Ensures("nothing is copied to nothing", (in == nil) == (r == nil))
	vspec.Ensures("DeepCopy yields an equal JwtConfigList which shares nothing", in == nil || vspec.Fresh(r) && spec_ownJwtConfigList(*in, *r))
	vspec.Ensures("DeepCopy leaves the JwtConfigList as it is", in == nil || vspec.Unchanged(snap, in))
}

//gov:contract (*OidcConfigList).DeepCopy
//gov:use
//gov:props C29
func vc_OidcConfigListDeepCopy(in *OidcConfigList) {
	snap := vspec.Snapshot()
	r := in.DeepCopy()
	vspec.Ensures("nothing is copied to nothing", (in == nil) == (r == nil))
	vspec.Ensures("DeepCopy yields an equal OidcConfigList which shares nothing", in == nil || vspec.Fresh(r) && spec_ownOidcConfigList(*in, *r))
	vspec.Ensures("DeepCopy leaves the OidcConfigList as it is", in == nil || vspec.Unchanged(snap, in))
}

//gov:contract (*PolicyList).DeepCopy
//gov:use
//gov:props C29
func vc_PolicyListDeepCopy(in *PolicyList) {
	snap := vspec.Snapshot()
	r := in.DeepCopy()
	vspec.Ensures("nothing is copied to nothing", (in == nil) == (r == nil))
	vspec.Ensures("DeepCopy yields an equal PolicyList which shares nothing", in == nil || vspec.Fresh(r) && spec_ownPolicyList(*in, *r))
	vspec.Ensures("DeepCopy leaves the PolicyList as it is", in == nil || vspec.Unchanged(snap, in))
}

//gov:contract (*JwtConfig).DeepCopyObject
//gov:props C29
func vc_JwtConfigDeepCopyObject(in *JwtConfig) {
	var o runtime.Object = in.DeepCopyObject()
	r, ok := o.(*JwtConfig)
	vspec.Ensures("no JwtConfig is copied to no object", in != nil || o == nil)
	vspec.Ensures("DeepCopyObject yields an equal JwtConfig which shares nothing", in == nil || ok && vspec.Fresh(r) && rec_ownJwtConfig(*in, *r))
}

//gov:contract (*OidcConfig).DeepCopyObject
//gov:props C29
func vc_OidcConfigDeepCopyObject(in *OidcConfig) {
	var o runtime.Object = in.DeepCopyObject()
	r, ok := o.(*OidcConfig)
	vspec.Ensures("no OidcConfig is copied to no object", in != nil || o == nil)
	vspec.Ensures("DeepCopyObject yields an equal OidcConfig which shares nothing", in == nil || ok && vspec.Fresh(r) && rec_ownOidcConfig(*in, *r))
}

//gov:contract (*Policy).DeepCopyObject
//gov:props C29
func vc_PolicyDeepCopyObject(in *Policy) {
	var o runtime.Object = in.DeepCopyObject()
	r, ok := o.(*Policy)
	vspec.Ensures("no Policy is copied to no object", in != nil || o == nil)
	vspec.Ensures("DeepCopyObject yields an equal Policy which shares nothing", in == nil || ok && vspec.Fresh(r) && rec_ownPolicyObj(*in, *r))
}

//gov:contract (*JwtConfigList).DeepCopyObject
//gov:props C29
func vc_JwtConfigListDeepCopyObject(in *JwtConfigList) {
	var o runtime.Object = in.DeepCopyObject()
	r, ok := o.(*JwtConfigList)
	vspec.Ensures("no JwtConfigList is copied to no object", in != nil || o == nil)
	vspec.Ensures("DeepCopyObject yields an equal JwtConfigList which shares nothing", in == nil || ok && vspec.Fresh(r) && spec_ownJwtConfigList(*in, *r))
}

//gov:contract (*OidcConfigList).DeepCopyObject
//gov:props C29
func vc_OidcConfigListDeepCopyObject(in *OidcConfigList) {
	var o runtime.Object = in.DeepCopyObject()
	r, ok := o.(*OidcConfigList)
	vspec.Ensures("no OidcConfigList is copied to no object", in != nil || o == nil)
	vspec.Ensures("DeepCopyObject yields an equal OidcConfigList which shares nothing", in == nil || ok && vspec.Fresh(r) && spec_ownOidcConfigList(*in, *r))
}

//gov:contract (*PolicyList).DeepCopyObject
//gov:props C29
func vc_PolicyListDeepCopyObject(in *PolicyList) {
	var o runtime.Object = in.DeepCopyObject()
	r, ok := o.(*PolicyList)
	vspec.Ensures("no PolicyList is copied to no object", in != nil || o == nil)
	vspec.Ensures("DeepCopyObject yields an equal PolicyList which shares nothing", in == nil || ok && vspec.Fresh(r) && spec_ownPolicyList(*in, *r))
}
