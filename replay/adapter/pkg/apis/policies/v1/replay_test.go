package v1

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

func rpRand() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func rpN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return 4 * quick
}

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

// rpFill gives every field a random value: lists nil, empty or of some elements.
func rpFill(r *rand.Rand, v reflect.Value) {
	if v.Type() == reflect.TypeOf(metav1.Time{}) {
		v.Set(reflect.ValueOf(metav1.Time{Time: time.Unix(r.Int63n(1<<31), 0)}))
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString([]string{"", "a", "/x", "jwt", "b c"}[r.Intn(5)] + strconv.Itoa(r.Intn(3)))
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(int64(r.Intn(5)))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				rpFill(r, v.Field(i))
			}
		}
	case reflect.Slice:
		if n := r.Intn(5); n > 0 {
			if n == 4 {
				n += r.Intn(4)
			}
			v.Set(reflect.MakeSlice(v.Type(), n-1, n-1+r.Intn(2)))
			for i := 0; i < n-1; i++ {
				rpFill(r, v.Index(i))
			}
		}
	case reflect.Map:
		if r.Intn(2) == 0 {
			v.Set(reflect.MakeMap(v.Type()))
			for i := r.Intn(3); i > 0; i-- {
				k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
				rpFill(r, k)
				rpFill(r, e)
				v.SetMapIndex(k, e)
			}
		}
	case reflect.Ptr:
		if r.Intn(2) == 0 {
			v.Set(reflect.New(v.Type().Elem()))
			rpFill(r, v.Elem())
		}
	}
}

// rpClone is an independent copy made by reflection.
func rpClone(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if c.Field(i).CanSet() {
				c.Field(i).Set(rpClone(v.Field(i)))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			c.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				c.Index(i).Set(rpClone(v.Index(i)))
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			c.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				c.SetMapIndex(k, rpClone(v.MapIndex(k)))
			}
		}
	case reflect.Ptr:
		if !v.IsNil() && v.Type() != reflect.TypeOf(&time.Location{}) {
			c.Set(reflect.New(v.Type().Elem()))
			c.Elem().Set(rpClone(v.Elem()))
		}
	}
	return c
}

// rpSpoil changes everything reachable, in place.
func rpSpoil(v reflect.Value) {
	if v.Type() == reflect.TypeOf(metav1.Time{}) {
		v.Set(reflect.ValueOf(metav1.Time{Time: time.Unix(77, 0)}))
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(v.String() + "!")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(v.Int() + 1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				rpSpoil(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			rpSpoil(v.Index(i))
		}
		if v.Cap() > v.Len() { // the unused part of the array belongs to the copy too
			rpSpoil(v.Slice(0, v.Len()+1).Index(v.Len()))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Ptr:
		if !v.IsNil() {
			rpSpoil(v.Elem())
		}
	}
}

// rpShared tells whether the two share an array (be it one with room but no elements), a map or an object.
func rpShared(a, b reflect.Value) bool {
	if a.Type() == reflect.TypeOf(metav1.Time{}) {
		return false
	}
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if rpShared(a.Field(i), b.Field(i)) {
				return true
			}
		}
	case reflect.Slice:
		if a.Cap() > 0 && b.Cap() > 0 && a.Pointer() == b.Pointer() {
			return true
		}
		for i := 0; i < a.Len() && i < b.Len(); i++ {
			if rpShared(a.Index(i), b.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		return !a.IsNil() && a.Pointer() == b.Pointer()
	case reflect.Ptr:
		return !a.IsNil() && !b.IsNil() && (a.Pointer() == b.Pointer() || rpShared(a.Elem(), b.Elem()))
	}
	return false
}

func TestReplay_C29(t *testing.T) {
	r := rpRand()
	n := rpN(400, 20000)
	cases := 0
	for i := 0; i < n; i++ {
		for _, o := range []interface{}{&PathPolicy{}, &PathConfig{}, &TargetElement{}, &PolicySpec{}, &OidcConfigSpec{}, &JwtConfigSpec{}, &ClientSecretRef{},
			&JwtConfig{}, &OidcConfig{}, &Policy{}, &JwtConfigList{}, &OidcConfigList{}, &PolicyList{}} {
			v := reflect.ValueOf(o)
			rpFill(r, v.Elem())
			want := rpClone(v.Elem()).Interface()
			for _, m := range []string{"DeepCopy", "DeepCopyInto", "DeepCopyObject"} {
				f := v.MethodByName(m)
				if !f.IsValid() {
					continue
				}
				cases++
				var c reflect.Value
				if m == "DeepCopyInto" {
					c = reflect.New(v.Type().Elem())
					rpFill(r, c.Elem()) // what is there is replaced
					f.Call([]reflect.Value{c})
				} else {
					c = f.Call(nil)[0]
					if c.Kind() == reflect.Interface {
						c = c.Elem()
					}
				}
				if c.Kind() != reflect.Ptr || c.Pointer() == v.Pointer() && v.Type().Elem().Size() > 0 {
					t.Fatalf("%s of a %T is the object itself", m, o)
				}
				if !reflect.DeepEqual(c.Elem().Interface(), want) {
					t.Fatalf("%s of %+v\nyields   %+v", m, want, c.Elem().Interface())
				}
				if !reflect.DeepEqual(v.Elem().Interface(), want) {
					t.Fatalf("%s changed %+v\ninto %+v", m, want, v.Elem().Interface())
				}
				if rpShared(c.Elem(), v.Elem()) {
					t.Fatalf("%s of %+v shares memory with it", m, want)
				}
				rpSpoil(c.Elem())
				if !reflect.DeepEqual(v.Elem().Interface(), want) {
					t.Fatalf("%T %+v\nbecame %+v when its copy (%s) was changed", o, want, v.Elem().Interface(), m)
				}
			}
			if f := v.MethodByName("DeepCopy"); f.IsValid() {
				if c := reflect.Zero(v.Type()).MethodByName("DeepCopy").Call(nil)[0]; !c.IsNil() {
					t.Fatalf("the copy of no %T is %v", o, c)
				}
			}
			if f := v.MethodByName("DeepCopyObject"); f.IsValid() {
				if c := reflect.Zero(v.Type()).MethodByName("DeepCopyObject").Call(nil)[0]; !c.IsNil() {
					t.Fatalf("the object copy of no %T is %v", o, c)
				}
			}
		}
	}
	rpStat(cases)
}
