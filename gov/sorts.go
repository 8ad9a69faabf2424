package main

// From Go types to SMT sorts, zero values and well-formedness facts.

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/ibm-cloud-security/app-identity-and-access-adapter"

var (
	typeMap    typeutil.Map // types.Type -> *Sort
	structCtor = map[*Sort]*Ctor{}
	ifaceDT    *DataType
	SIface     *Sort
	CNil       *Ctor // nil interface
	COther     *Ctor // a value of a type the program never names: (tag, id)
	boxMap     typeutil.Map
	sliceDT    *DataType
	SSlice     *Sort
	CSlice     *Ctor
	optCtors   = map[string][2]*Ctor{}
	optSorts   = map[string]*Sort{}
	// types modelled by another sort than their definition
	opaqueTypes = map[string]*Sort{
		"time.Time":    SInt,
		"math/big.Int": SInt,
	}
	smtNames = map[string]string{}
	usedSMT  = map[string]bool{}
)

func init() {
	ifaceDT = &DataType{name: "Iface", open: true}
	SIface = &Sort{name: "Iface", kind: "Data", dt: ifaceDT}
	CNil = &Ctor{name: "nilI", dt: ifaceDT}
	COther = &Ctor{name: "otherI", fields: []*Sort{SInt, SInt}, fnames: []string{"other_tag", "other_id"}, dt: ifaceDT}
	ifaceDT.ctors = []*Ctor{CNil, COther}
	sliceDT = &DataType{name: "Slice"}
	SSlice = &Sort{name: "Slice", kind: "Data", dt: sliceDT}
	CSlice = &Ctor{name: "mkSlice", fields: []*Sort{SRef, SInt, SInt}, fnames: []string{"sbase", "slen", "scap"}, dt: sliceDT}
	sliceDT.ctors = []*Ctor{CSlice}
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

var nonIdent = regexp.MustCompile(`[^A-Za-z0-9_]+`)

// smtName turns a type string into a unique SMT symbol.
func smtName(s string) string {
	if n, ok := smtNames[s]; ok {
		return n
	}
	short := s
	short = strings.ReplaceAll(short, modPath+"/adapter/", "")
	short = strings.ReplaceAll(short, modPath+"/", "")
	n := "t_" + nonIdent.ReplaceAllString(short, "_")
	if len(n) > 60 {
		n = n[:60]
	}
	for usedSMT[n] {
		n += "x"
	}
	usedSMT[n] = true
	smtNames[s] = n
	return n
}

func namedKey(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if s := typeMap.At(t); s != nil {
		return s.(*Sort)
	}
	s := sortOf1(t)
	typeMap.Set(t, s)
	return s
}

func sortOf1(t types.Type) *Sort {
	if k := namedKey(t); k != "" {
		if s, ok := opaqueTypes[k]; ok {
			return s
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return SRef
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SString
		case u.Kind() == types.UnsafePointer:
			return SRef
		default:
			return SF64
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SRef
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Array:
		return arraySort(SInt, sortOf(u.Elem()))
	case *types.Struct:
		name := smtName(typeStr(t))
		dt := &DataType{name: name}
		s := &Sort{name: name, kind: "Data", dt: dt}
		typeMap.Set(t, s)
		c := &Ctor{name: "mk_" + name, dt: dt}
		for i := 0; i < u.NumFields(); i++ {
			c.fields = append(c.fields, sortOf(u.Field(i).Type()))
			c.fnames = append(c.fnames, fmt.Sprintf("%s_%s_%d", name, strings.Trim(nonIdent.ReplaceAllString(u.Field(i).Name(), "_"), "_"), i))
		}
		dt.ctors = []*Ctor{c}
		structCtor[s] = c
		return s
	case *types.Tuple:
		panic("tuple sort")
	}
	panic("no sort for " + t.String())
}

// boxCtor returns the interface constructor for dynamic type t.
func boxCtor(t types.Type) *Ctor {
	t = types.Unalias(t)
	if c := boxMap.At(t); c != nil {
		return c.(*Ctor)
	}
	n := smtName("box " + typeStr(t))
	c := &Ctor{name: "box" + n, fields: []*Sort{sortOf(t)}, fnames: []string{"un" + n}, dt: ifaceDT, boxed: t}
	boxMap.Set(t, c)
	ifaceDT.ctors = append(ifaceDT.ctors, c)
	return c
}

func box(t types.Type, v *Term) *Term { return MkCtor(boxCtor(t), SIface, v) }

func nilIface() *Term { return MkCtor(CNil, SIface) }

func optOf(v *Sort) (*Sort, *Ctor, *Ctor) {
	k := sortKey(v)
	if s, ok := optSorts[k]; ok {
		c := optCtors[k]
		return s, c[0], c[1]
	}
	n := "Opt_" + nonIdent.ReplaceAllString(k, "_")
	dt := &DataType{name: n}
	s := &Sort{name: n, kind: "Data", dt: dt}
	none := &Ctor{name: "None_" + n, dt: dt}
	some := &Ctor{name: "Some_" + n, dt: dt, fields: []*Sort{v}, fnames: []string{"val_" + n}}
	dt.ctors = []*Ctor{none, some}
	optSorts[k] = s
	optCtors[k] = [2]*Ctor{none, some}
	return s, none, some
}

func mkSlice(base, n, c *Term) *Term { return MkCtor(CSlice, SSlice, base, n, c) }
func sBase(t *Term) *Term            { return Sel(CSlice, 0, t) }
func sLen(t *Term) *Term             { return Sel(CSlice, 1, t) }
func sCap(t *Term) *Term             { return Sel(CSlice, 2, t) }

var F64Zero = TVar("f64_zero", SF64, loInf)

func zeroOf(t types.Type) *Term {
	return zeroSort(sortOf(t), t)
}

func zeroSort(s *Sort, t types.Type) *Term {
	switch s.kind {
	case "Bool":
		return TFalse
	case "Int":
		return TInt(0)
	case "String":
		return TStr("")
	case "Ref":
		return TRef(0)
	case "U":
		if s == SF64 {
			return F64Zero
		}
		return TVar("zero_"+s.name, s, loInf)
	case "Array":
		return ConstArr(s, zeroOf(t.Underlying().(*types.Array).Elem()))
	case "Data":
		if s == SIface {
			return nilIface()
		}
		if s == SSlice {
			return mkSlice(TRef(0), TInt(0), TInt(0))
		}
		c := structCtor[s]
		st := t.Underlying().(*types.Struct)
		args := make([]*Term, len(c.fields))
		for i := range args {
			args[i] = zeroOf(st.Field(i).Type())
		}
		return MkCtor(c, s, args...)
	}
	panic("zero " + s.name)
}

// fieldOf selects struct field i of term v with Go type t.
func fieldOf(t types.Type, v *Term, i int) *Term {
	return Sel(structCtor[sortOf(t)], i, v)
}

func withField(t types.Type, v *Term, i int, x *Term) *Term {
	s := sortOf(t)
	c := structCtor[s]
	args := make([]*Term, len(c.fields))
	for j := range args {
		if j == i {
			args[j] = x
		} else {
			args[j] = Sel(c, j, v)
		}
	}
	return MkCtor(c, s, args...)
}

// intRange gives the machine range of integer types narrower than the
// mathematical integers we compute with.
func intRange(t types.Type) (lo, hi string, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return "-128", "127", true
	case types.Uint8:
		return "0", "255", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Uint16:
		return "0", "65535", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint64, types.Uint, types.Uintptr:
		return "0", "18446744073709551615", true
	case types.Int64, types.Int:
		return "-9223372036854775808", "9223372036854775807", true
	}
	return
}

// wfFacts lists the facts every value of type t satisfies. Only facts about
// the value itself, not about what it points to.
func wfFacts(t types.Type, v *Term, out []*Term) []*Term {
	if v.op == "ctor" && sortOf(t) != SSlice {
		if st, ok := t.Underlying().(*types.Struct); ok && structCtor[v.sort] != nil {
			for i := 0; i < st.NumFields(); i++ {
				out = wfFacts(st.Field(i).Type(), v.args[i], out)
			}
		}
		return out
	}
	switch sortOf(t) {
	case SSlice:
		if v.op == "ctor" {
			return out
		}
		out = append(out, Le(TInt(0), sLen(v)), Le(sLen(v), sCap(v)),
			Or(Not(Eq(sBase(v), TRef(0))), And(Eq(sLen(v), TInt(0)), Eq(sCap(v), TInt(0)))))
		return out
	case SInt:
		if k := namedKey(t); opaqueTypes[k] != nil {
			return out
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if v.op == "select" || v.op == "var" || v.op == "sel" || v.op == "uf" {
				out = append(out, Le(TInt(0), v), Le(v, TInt(255)))
			}
		}
	}
	return out
}
