package fx

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"
)

// Snapshot remembers all memory reachable from some roots: the bytes of every
// object, the spare capacity of slices, and the contents of maps.
type Snapshot struct {
	at   []memory
	maps []mapping
	seen map[memoryKey]bool
}

type memoryKey struct {
	p unsafe.Pointer
	t reflect.Type
	n int
}

type memory struct {
	p      unsafe.Pointer
	t      reflect.Type
	was    []byte
	what   string
	hidden bool          // reached through an unexported field
	typed  reflect.Value // a copy of what was there
}

type mapping struct {
	m      reflect.Value
	was    string // the entries as they are in memory
	deep   string // and what they stand for
	hidden bool
	copy   reflect.Value
}

// Snap takes a snapshot. The roots must be pointers.
func Snap(roots ...any) *Snapshot {
	s := &Snapshot{seen: map[memoryKey]bool{}}
	for _, r := range roots {
		s.walk(reflect.ValueOf(r), "", false)
	}
	return s
}

// Size is the number of bytes watched.
func (s *Snapshot) Size() int {
	n := 0
	for _, m := range s.at {
		n += len(m.was)
	}
	return n
}

// Same tells whether nothing was written since.
func (s *Snapshot) Same() bool {
	for _, m := range s.at {
		if !bytes.Equal(unsafe.Slice((*byte)(m.p), len(m.was)), m.was) {
			return false
		}
	}
	for _, m := range s.maps {
		if mapHash(m.m) != m.was {
			return false
		}
	}
	return true
}

// Changed names a place which was written.
func (s *Snapshot) Changed() string {
	for _, m := range s.at {
		if !bytes.Equal(unsafe.Slice((*byte)(m.p), len(m.was)), m.was) {
			return m.what
		}
	}
	for _, m := range s.maps {
		if mapHash(m.m) != m.was {
			return "a map"
		}
	}
	return ""
}

// VisibleChange names a place which was written and which a caller can see
// directly (nothing behind an unexported field), or returns "". What happens
// behind unexported fields is judged by what the operations compute.
func (s *Snapshot) VisibleChange() string {
	for _, m := range s.at {
		if m.hidden {
			continue
		}
		now := unsafe.Slice((*byte)(m.p), len(m.was))
		if bytes.Equal(now, m.was) {
			continue
		}
		for i := range now {
			if now[i] != m.was[i] && visible(m.t, uintptr(i)%m.t.Size()) {
				return m.what
			}
		}
	}
	for _, m := range s.maps {
		if !m.hidden && mapHash(m.m) != m.was && deepHash(m.m) != m.deep {
			return "a map"
		}
	}
	return ""
}

// Restore puts everything back as it was.
func (s *Snapshot) Restore() {
	for _, m := range s.maps {
		if !m.m.IsNil() && mapHash(m.m) != m.was {
			for _, k := range m.m.MapKeys() {
				m.m.SetMapIndex(k, reflect.Value{})
			}
			for _, k := range m.copy.MapKeys() {
				m.m.SetMapIndex(k, m.copy.MapIndex(k))
			}
		}
	}
	for _, m := range s.at {
		if !bytes.Equal(unsafe.Slice((*byte)(m.p), len(m.was)), m.was) {
			reflect.NewAt(m.typed.Type(), m.p).Elem().Set(m.typed)
		}
	}
}

func visible(t reflect.Type, off uintptr) bool {
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if off >= f.Offset && off < f.Offset+f.Type.Size() {
				return f.IsExported() && visible(f.Type, off-f.Offset)
			}
		}
		return false
	case reflect.Array:
		return visible(t.Elem(), off%t.Elem().Size())
	}
	return true
}

// Hash identifies the current contents of the watched memory.
func (s *Snapshot) Hash() uint64 {
	h := fnv.New64a()
	for _, m := range s.at {
		h.Write(unsafe.Slice((*byte)(m.p), len(m.was)))
	}
	for _, m := range s.maps {
		h.Write([]byte(mapHash(m.m)))
	}
	return h.Sum64()
}

// mapHash shows the entries of a map without running code of the library (it
// is used in the middle of its operations); what they refer to is watched
// apart from the map.
func mapHash(m reflect.Value) string {
	if m.IsNil() {
		return "nil"
	}
	l := make([]string, 0, m.Len())
	var b []byte
	for it := m.MapRange(); it.Next(); {
		b = shallow(append(shallow(b[:0], it.Key()), '='), it.Value())
		l = append(l, string(b))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func shallow(b []byte, v reflect.Value) []byte {
	switch t := v.Type(); t.Kind() {
	case reflect.Bool:
		return strconv.AppendBool(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.AppendInt(b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.AppendUint(b, v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return strconv.AppendUint(b, math.Float64bits(v.Float()), 10)
	case reflect.Complex64, reflect.Complex128:
		return fmt.Append(b, v.Complex())
	case reflect.String:
		return strconv.AppendQuote(b, v.String())
	case reflect.Ptr, reflect.Chan, reflect.Func, reflect.UnsafePointer, reflect.Map:
		return strconv.AppendUint(b, uint64(v.Pointer()), 16)
	case reflect.Slice:
		b = strconv.AppendUint(b, uint64(v.Pointer()), 16)
		return strconv.AppendInt(append(b, ':'), int64(v.Len()), 10)
	case reflect.Interface:
		if v.IsNil() {
			return append(b, "nil"...)
		}
		return shallow(append(append(b, v.Elem().Type().String()...), ' '), v.Elem())
	case reflect.Struct:
		b = append(b, '{')
		for i := range t.NumField() {
			b = append(shallow(b, v.Field(i)), ',')
		}
		return append(b, '}')
	case reflect.Array:
		b = append(b, '[')
		for i := range t.Len() {
			b = append(shallow(b, v.Index(i)), ',')
		}
		return append(b, ']')
	}
	return b
}

func deepHash(m reflect.Value) string {
	if m.IsNil() {
		return "nil"
	}
	return Fingerprint(m.Interface())
}

func (s *Snapshot) add(p unsafe.Pointer, t reflect.Type, n int, what string, hidden bool) bool {
	k := memoryKey{p, t, n}
	if s.seen[k] {
		return false
	}
	s.seen[k] = true
	if size := int(t.Size()) * n; size > 0 {
		c := reflect.New(reflect.ArrayOf(n, t))
		c.Elem().Set(reflect.NewAt(c.Elem().Type(), p).Elem())
		s.at = append(s.at, memory{p, t, append([]byte{}, unsafe.Slice((*byte)(p), size)...), what, hidden, c.Elem()})
	}
	return true
}

// walk follows everything v refers to; the memory of v itself is watched by
// whoever holds it.
func (s *Snapshot) walk(v reflect.Value, what string, hidden bool) {
	v = access(v)
	t := v.Type()
	if shared(t) {
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() || t.Elem().Size() == 0 {
			return
		}
		w := what + "*" + t.Elem().Name()
		if strings.Contains(t.Elem().PkgPath(), "/tecdsa/") {
			hidden = false // an object of the library which others may hold too
		}
		if s.add(v.UnsafePointer(), t.Elem(), 1, w, hidden) {
			s.walk(v.Elem(), w, hidden)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if shared(e.Type()) {
			return
		}
		n := reflect.New(e.Type()).Elem()
		n.Set(e)
		s.walk(n, what, hidden)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			s.walk(v.Field(i), what+"."+t.Field(i).Name, hidden || !t.Field(i).IsExported())
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		v = v.Slice(0, v.Cap())
		if s.add(v.UnsafePointer(), t.Elem(), v.Len(), what+"[]", hidden) {
			if k := t.Elem().Kind(); k >= reflect.Bool && k <= reflect.Complex128 {
				return
			}
			for i := 0; i < v.Len(); i++ {
				s.walk(v.Index(i), fmt.Sprintf("%s[%d]", what, i), hidden)
			}
		}
	case reflect.Array:
		if k := t.Elem().Kind(); k >= reflect.Bool && k <= reflect.Complex128 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i), fmt.Sprintf("%s[%d]", what, i), hidden)
		}
	case reflect.Map:
		c := v
		if !v.IsNil() {
			c = reflect.MakeMap(t)
			for _, k := range v.MapKeys() {
				c.SetMapIndex(k, v.MapIndex(k))
			}
		}
		m := mapping{v, mapHash(v), "", hidden, c}
		if !hidden {
			m.deep = deepHash(v)
		}
		s.maps = append(s.maps, m)
		for _, k := range v.MapKeys() {
			n := reflect.New(t.Key()).Elem()
			n.Set(k)
			s.walk(n, what+"{}", hidden)
			e := reflect.New(t.Elem()).Elem()
			e.Set(v.MapIndex(k))
			s.walk(e, what+"{}", hidden)
		}
	}
}
