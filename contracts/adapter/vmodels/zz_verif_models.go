// Package vmodels gives models of library functions: the trusted base.
package vmodels

import (
	"strings"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func uf_split(s, sep string) []string { panic("uf") }

// strings.Split: a function of its arguments; at least one part.
//
//gov:model strings.Split
func m_Split(s, sep string) []string {
	r := uf_split(s, sep)
	vspec.Assume(len(r) >= 1)
	return r
}

func uf_formatBool(b bool) string { panic("uf") }

//gov:model strconv.FormatBool
func m_FormatBool(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

func uf_formatFloat(f float64, fmt byte, prec, bits int) string { panic("uf") }

//gov:model strconv.FormatFloat
func m_FormatFloat(f float64, fmt byte, prec, bits int) string {
	return uf_formatFloat(f, fmt, prec, bits)
}

type modelErr struct{ msg string }

func (e *modelErr) Error() string { return e.msg }

func any_string() string { panic("any") }

//gov:model fmt.Errorf
func m_Errorf(f string, a ...interface{}) error {
	return &modelErr{any_string()}
}

// Rec_Join: the first n parts separated by sep.
func Rec_Join(a []string, sep string, n int) string {
	if n <= 0 {
		return ""
	}
	if n == 1 {
		return a[0]
	}
	return Rec_Join(a, sep, n-1) + sep + a[n-1]
}

//gov:model strings.Join
func m_Join(a []string, sep string) string {
	if vspec.Known(len(a)) {
		switch len(a) {
		case 2:
			return a[0] + sep + a[1]
		case 3:
			return a[0] + sep + a[1] + sep + a[2]
		}
	}
	return Rec_Join(a, sep, len(a))
}

//gov:model errors.New
func m_New(msg string) error { return &modelErr{msg} }

func Uf_parseInt(s string, base int) (int64, bool) { panic("uf") }

// strconv.ParseInt: the number the text denotes, if it denotes one and it
// fits.
//
//gov:model strconv.ParseInt
func m_ParseInt(s string, base int, bits int) (int64, error) {
	v, ok := Uf_parseInt(s, base)
	if !ok {
		return 0, &modelErr{any_string()}
	}
	hi := int64(0)
	switch bits {
	case 8:
		hi = 128
	case 16:
		hi = 32768
	case 32:
		hi = 2147483648
	}
	if hi != 0 && (v >= hi || v < -hi) {
		return any_int64(), &modelErr{any_string()}
	}
	return v, nil
}

func any_int64() int64 { panic("any") }

//gov:model strconv.Atoi
func m_Atoi(s string) (int, error) {
	v, ok := Uf_parseInt(s, 10)
	if !ok {
		return 0, &modelErr{any_string()}
	}
	return int(v), nil
}

func Uf_itoa(i int64, base int) string { panic("uf") }

//gov:model strconv.Itoa
func m_Itoa(i int) string { return Uf_itoa(int64(i), 10) }

//gov:model strconv.FormatInt
func m_FormatInt(i int64, base int) string { return Uf_itoa(i, base) }

func uf_trim(s, cut string) string { panic("uf") }

//gov:model strings.Trim
func m_Trim(s, cut string) string { return uf_trim(s, cut) }

// strings.Count of a separator is one less than the number of parts.
//
//gov:model strings.Count
func m_Count(s, sep string) int {
	vspec.Assume(len(uf_split(s, sep)) >= 1)
	return len(uf_split(s, sep)) - 1
}

func Uf_trimRight(s, cut string) string { panic("uf") }

// strings.TrimRight of one character: a prefix of s not ending in it, and
// nothing else is cut off.
//
//gov:model strings.TrimRight
func m_TrimRight(s, cut string) string {
	r := Uf_trimRight(s, cut)
	vspec.Assume(strings.HasPrefix(s, r))
	vspec.Assume(len(cut) != 1 || !strings.HasSuffix(r, cut))
	vspec.Assume(len(cut) != 1 || vspec.ForAll(len(r), len(s), func(i int) bool { return s[i] == cut[0] }))
	return r
}

func spec_hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func spec_hasSuffix(s, p string) bool { return len(s) >= len(p) && s[len(s)-len(p):] == p }

//gov:model strings.HasPrefix
func m_HasPrefix(s, p string) bool { return spec_hasPrefix(s, p) }

//gov:model strings.HasSuffix
func m_HasSuffix(s, p string) bool { return spec_hasSuffix(s, p) }

//gov:model strings.TrimPrefix
func m_TrimPrefix(s, p string) string {
	if spec_hasPrefix(s, p) {
		return s[len(p):]
	}
	return s
}

//gov:model strings.TrimSuffix
func m_TrimSuffix(s, p string) string {
	if spec_hasSuffix(s, p) {
		return s[:len(s)-len(p)]
	}
	return s
}
