package config

import (
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func spec_listed(m map[int]struct{}, v int) bool {
	_, ok := m[v]
	return ok
}

//gov:contract (*IntOptions).Set
//gov:props C25
func vc_Set(o *IntOptions, inp string) {
	vspec.Requires(o != nil)
	old := o.Value
	opts := o.Options
	v, number := vmodels.Uf_parseInt(inp, 10)
	accepted := number && spec_listed(opts, int(v))
	err := o.Set(inp)
	vspec.Ensures("accepted iff a listed decimal integer", (err == nil) == accepted)
	vspec.Ensures("the accepted value is stored", !accepted || o.Value == int(v))
	vspec.Ensures("a refused text leaves the value", accepted || o.Value == old)
	vspec.Ensures("the options stay", vspec.Same(opts, o.Options) && (spec_listed(o.Options, old) == spec_listed(opts, old)))
}

//gov:contract NewConfig
//gov:props C25
func vc_NewConfig() {
	c := NewConfig()
	vspec.Ensures("defaults", c != nil)
	vspec.Ensures("the default hash key size is listed", spec_listed(c.HashKeySize.Options, c.HashKeySize.Value))
	vspec.Ensures("the default block key size is listed", spec_listed(c.BlockKeySize.Options, c.BlockKeySize.Value))
	vspec.Ensures("listed hash key sizes are recommended ones", forallInt(func(i int) bool {
		return spec_listed(c.HashKeySize.Options, i) == (i == 32 || i == 64)
	}))
	vspec.Ensures("listed block key sizes are those of AES", forallInt(func(i int) bool {
		return spec_listed(c.BlockKeySize.Options, i) == (i == 16 || i == 24 || i == 32)
	}))
}

func forallInt(f func(i int) bool) bool { panic("spec") }
