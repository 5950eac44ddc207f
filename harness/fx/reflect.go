// Package fx builds protocol fixtures and manipulates library objects
// generically (deep copies, semantic fingerprints, leaf mutation) without
// depending on the names of unexported fields.
package fx

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/PlatONnetwork/tecdsa/curve"
)

var (
	tScalar = reflect.TypeOf((*curve.Secp256k1Scalar)(nil))
	tPoint  = reflect.TypeOf((*curve.Secp256k1Point)(nil))
	tField  = reflect.TypeOf((*curve.Secp256k1Field)(nil))
	iScalar = reflect.TypeOf((*curve.EccScalar)(nil)).Elem()
	iPoint  = reflect.TypeOf((*curve.EccPoint)(nil)).Elem()
	tBig    = reflect.TypeOf((*big.Int)(nil))
)

func access(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func shared(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr:
		return strings.HasSuffix(t.Elem().Name(), "Params") && strings.Contains(t.Elem().PkgPath(), "curves/native")
	case reflect.Interface:
		return strings.HasSuffix(t.Name(), "Arithmetic") && strings.Contains(t.PkgPath(), "curves/native")
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return true
	}
	return false
}

type copier map[unsafe.Pointer]reflect.Value

// DeepCopy copies everything reachable, preserving aliasing inside the value.
func DeepCopy[T any](v T) T {
	c := copier{}
	src := reflect.New(reflect.TypeOf(&v).Elem()).Elem()
	src.Set(reflect.ValueOf(&v).Elem())
	dst := reflect.New(src.Type()).Elem()
	c.copy(dst, src)
	return dst.Interface().(T)
}

func (c copier) copy(dst, src reflect.Value) {
	src = access(src)
	dst = access(dst)
	orig := src
	t := src.Type()
	if shared(t) {
		dst.Set(src)
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		p := src.UnsafePointer()
		if d, ok := c[p]; ok && d.Type() == t {
			dst.Set(d)
			return
		}
		n := reflect.New(t.Elem())
		c[p] = n
		c.copy(n.Elem(), src.Elem())
		dst.Set(n)
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		e := src.Elem()
		s := reflect.New(e.Type()).Elem()
		s.Set(e)
		d := reflect.New(e.Type()).Elem()
		c.copy(d, s)
		dst.Set(d)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			c.copy(dst.Field(i), src.Field(i))
		}
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		n := reflect.MakeSlice(t, src.Cap(), src.Cap()) // spare capacity included
		src = src.Slice(0, src.Cap())
		for i := 0; i < src.Len(); i++ {
			c.copy(n.Index(i), src.Index(i))
		}
		dst.Set(n.Slice(0, orig.Len()))
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			c.copy(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		n := reflect.MakeMap(t)
		for _, k := range src.MapKeys() {
			s := reflect.New(t.Elem()).Elem()
			s.Set(src.MapIndex(k))
			d := reflect.New(t.Elem()).Elem()
			c.copy(d, s)
			n.SetMapIndex(k, d)
		}
		dst.Set(n)
	default:
		dst.Set(src)
	}
}

// Fingerprint describes the value semantically: points and scalars by their
// encodings, everything else structurally.
func Fingerprint(v any) string {
	var b strings.Builder
	s := reflect.New(reflect.TypeOf(&v).Elem()).Elem()
	s.Set(reflect.ValueOf(&v).Elem())
	fp(&b, s, 0)
	return b.String()
}

func fp(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 40 {
		b.WriteString("...")
		return
	}
	v = access(v)
	t := v.Type()
	switch t {
	case tScalar, tPoint, tField:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(leafHex(v))
		return
	case tBig:
		fmt.Fprint(b, v.Interface())
		return
	}
	if shared(t) {
		return
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if t.Kind() == reflect.Interface {
			e := reflect.New(v.Elem().Type()).Elem()
			e.Set(v.Elem())
			if k := e.Kind(); k != reflect.Ptr {
				b.WriteString(e.Type().Name())
			}
			fp(b, e, depth+1)
			return
		}
		b.WriteString("&" + t.Elem().Name())
		fp(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < t.NumField(); i++ {
			fp(b, v.Field(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			b.WriteString(hex.EncodeToString(v.Bytes()))
			return
		}
		fallthrough
	case reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			fp(b, v.Index(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			e := reflect.New(t.Elem()).Elem()
			e.Set(v.MapIndex(k))
			var eb strings.Builder
			fp(&eb, e, depth+1)
			ks = append(ks, fmt.Sprint(k)+":"+eb.String())
		}
		sort.Strings(ks)
		b.WriteString("map" + strings.Join(ks, ","))
	default:
		fmt.Fprint(b, v.Interface())
	}
}

func leafHex(v reflect.Value) string {
	switch x := v.Interface().(type) {
	case *curve.Secp256k1Scalar:
		return "s" + hex.EncodeToString(x.Serialize())
	case *curve.Secp256k1Point:
		return "p" + hex.EncodeToString(x.Serialize())
	case *curve.Secp256k1Field:
		return "f" + hex.EncodeToString(x.AsBytes())
	}
	return "?"
}

// Leaf is a place inside an object which holds a scalar or a point.
type Leaf struct {
	Path  string
	Point bool
	loc   reflect.Value
	after func()
}

func (l Leaf) Scalar() curve.EccScalar { return l.loc.Interface().(curve.EccScalar) }
func (l Leaf) Pt() curve.EccPoint      { return l.loc.Interface().(curve.EccPoint) }

// SetScalar and SetPoint replace the leaf (the old object is left alone).
func (l Leaf) SetScalar(s curve.EccScalar) { l.set(reflect.ValueOf(s)) }
func (l Leaf) SetPoint(p curve.EccPoint)   { l.set(reflect.ValueOf(p)) }
func (l Leaf) set(v reflect.Value) {
	l.loc.Set(v)
	if l.after != nil {
		l.after()
	}
}

// Leaves lists every scalar and point inside the object v points to.
func Leaves(v any) []Leaf {
	var out []Leaf
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Ptr {
		panic("harness: Leaves needs a pointer")
	}
	leaves(&out, rv.Elem(), "", map[unsafe.Pointer]bool{}, nil)
	return out
}

func leaves(out *[]Leaf, v reflect.Value, path string, seen map[unsafe.Pointer]bool, after func()) {
	v = access(v)
	t := v.Type()
	switch t {
	case tScalar, iScalar:
		if !v.IsNil() {
			*out = append(*out, Leaf{path, false, v, after})
		}
		return
	case tPoint, iPoint:
		if !v.IsNil() {
			*out = append(*out, Leaf{path, true, v, after})
		}
		return
	}
	if shared(t) {
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && !seen[v.UnsafePointer()] {
			seen[v.UnsafePointer()] = true
			leaves(out, v.Elem(), path, seen, nil)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if e.Kind() == reflect.Ptr {
			leaves(out, e, path, seen, nil)
			return
		}
		// a value inside an interface has no address: work on a copy and
		// put the copy back after every write
		n := reflect.New(e.Type()).Elem()
		n.Set(e)
		leaves(out, n, path, seen, func() {
			v.Set(n)
			if after != nil {
				after()
			}
		})
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			leaves(out, v.Field(i), path+"."+t.Field(i).Name, seen, after)
		}
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			return
		}
		a := after
		if t.Kind() == reflect.Slice {
			a = nil
		}
		for i := 0; i < v.Len(); i++ {
			leaves(out, v.Index(i), fmt.Sprintf("%s[%d]", path, i), seen, a)
		}
	}
}

// FieldsOf lists the fields of the struct v points to which have the given
// type, writable whether exported or not.
func FieldsOf(v any, t reflect.Type) []reflect.Value {
	s := reflect.ValueOf(v).Elem()
	var out []reflect.Value
	for i := 0; i < s.NumField(); i++ {
		if s.Field(i).Type() == t {
			out = append(out, access(s.Field(i)))
		}
	}
	return out
}
