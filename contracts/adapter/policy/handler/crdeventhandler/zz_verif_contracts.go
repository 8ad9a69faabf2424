package crdeventhandler

import (
	"strings"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

// ---- targets become endpoints (C18) ----


func spec_exact(p string) string {
	if r := vmodels.Uf_trimRight(p, "/"); r != "" {
		return r
	}
	return "/"
}

func spec_prefix(p string) string {
	if strings.HasSuffix(p, "/*") {
		return p
	}
	if strings.HasSuffix(p, "/") {
		return p + "*"
	}
	return p + "/*"
}

func spec_is(m policy.PolicyMapping, s policy.Service, p v1.PathConfig, path string) bool {
	return m.Endpoint.Service == s && m.Endpoint.Path == path && m.Endpoint.Method == policy.Spec_method(p.Method) &&
		vspec.Same(m.Actions, p.Policies)
}

// spec_count: how many endpoints an entry declares.
func spec_count(p v1.PathConfig) int {
	if p.Exact != "" && p.Prefix != "" {
		return 2
	}
	return 1
}

// spec_path1: the path of the first endpoint entry p declares.
func spec_path1(p v1.PathConfig) string {
	if p.Exact != "" {
		return spec_exact(p.Exact)
	}
	if p.Prefix != "" {
		return spec_prefix(p.Prefix)
	}
	return "/*"
}

// spec_second: out[o] is the second endpoint entry p declares, if there is
// one.
func spec_second(out []policy.PolicyMapping, o int, s policy.Service, p v1.PathConfig) bool {
	if spec_count(p) == 1 {
		return true
	}
	return o < len(out) && spec_is(out[o], s, p, spec_prefix(p.Prefix))
}

// spec_from: the endpoints of entry p are in out from o on.
func spec_from(out []policy.PolicyMapping, o int, s policy.Service, p v1.PathConfig) bool {
	return 0 <= o && o+spec_count(p) <= len(out) && spec_is(out[o], s, p, spec_path1(p)) && spec_second(out, o+1, s, p)
}

// rec_cnt: how many endpoints the first n entries declare.
func rec_cnt(paths []v1.PathConfig, n int) int {
	if n <= 0 {
		return 0
	}
	return rec_cnt(paths, n-1) + spec_count(paths[n-1])
}

func rec_off(target []v1.TargetElement, n int) int {
	if n <= 0 {
		return 0
	}
	return rec_off(target, n-1) + rec_cnt(target[n-1].Paths, len(target[n-1].Paths))
}

func inv_paths(n int, paths []v1.PathConfig, s policy.Service, out0, out []policy.PolicyMapping) bool {
	return n <= len(paths) && len(out) == len(out0)+rec_cnt(paths, n) && rec_cnt(paths, n) >= 0 &&
		vspec.ForAll(0, len(out0), func(k int) bool { return k < len(out) && vspec.Same(out[k], out0[k]) }) &&
		vspec.ForAll(0, n, func(j int) bool { return spec_from(out, len(out0)+rec_cnt(paths, j), s, paths[j]) })
}

func inv_target(n int, target []v1.TargetElement, ns string, out []policy.PolicyMapping) bool {
	return n <= len(target) && len(out) == rec_off(target, n) &&
		vspec.ForAll(0, n, func(i int) bool {
			return rec_off(target, i) >= 0 && vspec.ForAll(0, len(target[i].Paths), func(j int) bool {
				return spec_from(out, rec_off(target, i)+rec_cnt(target[i].Paths, j), policy.Service{Name: target[i].ServiceName, Namespace: ns}, target[i].Paths[j])
			})
		})
}

// spec_parsed: out is what a policy's target declares in namespace ns.
func spec_parsed(out []policy.PolicyMapping, target []v1.TargetElement, ns string) bool {
	return len(out) == rec_off(target, len(target)) && spec_entries(out, target, ns)
}

func spec_entries(out []policy.PolicyMapping, target []v1.TargetElement, ns string) bool {
	return vspec.ForAll(0, len(target), func(i int) bool {
		return vspec.ForAll(0, len(target[i].Paths), func(j int) bool {
			return spec_from(out, rec_off(target, i)+rec_cnt(target[i].Paths, j), policy.Service{Name: target[i].ServiceName, Namespace: ns}, target[i].Paths[j])
		})
	})
}

//gov:contract ParseTarget
//gov:use
//gov:props C18 C27
//gov:opt facts=inv noinv=C27 invs=inv_paths,inv_target
func vc_ParseTarget(target []v1.TargetElement, ns string) {
	snap := vspec.Snapshot()
	out := ParseTarget(target, ns)
	vspec.Ensures("C18: as many endpoints as declared", len(out) == rec_off(target, len(target)))
	vspec.Ensures("C18: each entry gives its endpoints, in order", spec_entries(out, target, ns))
	vspec.Ensures("C18: the target is not modified", vspec.Unchanged(snap, target) && vspec.ForAll(0, len(target), func(i int) bool {
		return vspec.ForAll(0, len(target[i].Paths), func(j int) bool {
			v := target[i].Paths[j]
			return vspec.At(snap, func() bool { return vspec.Same(target[i].Paths[j], v) })
		})
	}))
}
