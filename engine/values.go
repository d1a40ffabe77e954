package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value = any

type (
	I      int64 // concrete integer of any kind, as two's complement bits
	Struct []Value
	Array  []Value
	Slice  []Value
	Tuple  []Value
	SymStr []Value // string with symbolic bytes; immutable
	Ptr    = *Value

	Iface struct {
		T types.Type
		V Value
	}
	Closure struct {
		Fn  *ssa.Function
		Env []Value
	}
	Poison struct{ why string }
	// SymPtr is the address of an element at a symbolic index (already bounds checked).
	SymPtr struct {
		base []Value
		idx  *Term
		elem types.Type
	}
	// UPtr is the result of unsafe.SliceData / StringData.
	UPtr struct{ s []Value }

	Chan struct {
		cap    int
		buf    []Value
		closed bool
		recvq  []chanWait
		sendq  []chanWait
	}
	NativeFn struct {
		name string
		f    func(it *Interp, args []Value) Value
	}
)

type Map struct {
	keys  []Value
	vals  []Value
	live  []bool
	index map[string]int
	n     int
}

// Engine control flow.
type unsupported struct{ msg string }
type pathEnd struct{ kind string } // "assume", "limit", ...
type targetPanic struct {
	v   Value // Iface
	msg string
}

func unsup(format string, a ...any) { panic(unsupported{fmt.Sprintf(format, a...)}) }

type kcls uint8

const (
	kOther kcls = iota
	kInt
	kFloat
	kBool
	kString
	kComplex
)

type kind struct {
	cls    kcls
	bits   int
	signed bool
}

func kindOf(t types.Type) kind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kind{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return kind{cls: kBool}
	case types.Int, types.Int64, types.UntypedInt:
		return kind{kInt, 64, true}
	case types.Int8:
		return kind{kInt, 8, true}
	case types.Int16:
		return kind{kInt, 16, true}
	case types.Int32, types.UntypedRune:
		return kind{kInt, 32, true}
	case types.Uint, types.Uint64, types.Uintptr:
		return kind{kInt, 64, false}
	case types.Uint8:
		return kind{kInt, 8, false}
	case types.Uint16:
		return kind{kInt, 16, false}
	case types.Uint32:
		return kind{kInt, 32, false}
	case types.Float32:
		return kind{cls: kFloat, bits: 32}
	case types.Float64, types.UntypedFloat:
		return kind{cls: kFloat, bits: 64}
	case types.String, types.UntypedString:
		return kind{cls: kString}
	case types.Complex64, types.Complex128, types.UntypedComplex:
		return kind{cls: kComplex}
	}
	return kind{}
}

// norm wraps a concrete integer to its kind.
func norm(v int64, k kind) I {
	switch k.bits {
	case 8:
		if k.signed {
			return I(int8(v))
		}
		return I(uint8(v))
	case 16:
		if k.signed {
			return I(int16(v))
		}
		return I(uint16(v))
	case 32:
		if k.signed {
			return I(int32(v))
		}
		return I(uint32(v))
	}
	return I(v)
}

func iBig(v I, k kind) *big.Int {
	if k.signed || k.bits < 64 {
		return big.NewInt(int64(v))
	}
	return new(big.Int).SetUint64(uint64(v))
}

func bigToI(b *big.Int) I {
	if b.IsInt64() {
		return I(b.Int64())
	}
	return I(int64(b.Uint64()))
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch kindOf(u).cls {
		case kInt:
			return I(0)
		case kFloat:
			return float64(0)
		case kBool:
			return false
		case kString:
			return ""
		case kComplex:
			return complex128(0)
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr(nil)
		}
		if u.Kind() == types.UntypedNil {
			return Ptr(nil)
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				z := zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	panic(unsupported{"zero value of " + t.String()})
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		copy(r, v)
		if len(v) > 0 {
			switch v[0].(type) {
			case Struct, Array:
				for i, x := range v {
					r[i] = copyVal(x)
				}
			}
		}
		return r
	}
	return v
}

// storeInto assigns v to the cell, keeping the identity of nested field and element cells.
func storeInto(p Ptr, v Value) {
	switch v := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(v) {
			for i := range v {
				storeInto(&old[i], v[i])
			}
			return
		}
		*p = copyVal(v)
		return
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(v) {
			for i := range v {
				storeInto(&old[i], v[i])
			}
			return
		}
		*p = copyVal(v)
		return
	}
	*p = v
}

// canonKey renders a concrete comparable value as a map key; ok is false when it has symbolic parts.
func canonKey(v Value) (string, bool) {
	switch v := v.(type) {
	case I:
		return fmt.Sprintf("i%d", int64(v)), true
	case bool:
		return fmt.Sprint("b", v), true
	case string:
		return "s" + v, true
	case float64:
		return fmt.Sprint("f", v), true
	case Ptr:
		return fmt.Sprintf("p%p", v), true
	case Iface:
		if v.T == nil {
			return "nil", true
		}
		k, ok := canonKey(v.V)
		return "I" + types.TypeString(v.T, nil) + ":" + k, ok
	case Struct:
		var sb strings.Builder
		sb.WriteByte('{')
		for _, x := range v {
			k, ok := canonKey(x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	case Array:
		var sb strings.Builder
		sb.WriteByte('[')
		for _, x := range v {
			k, ok := canonKey(x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	case *Chan:
		return fmt.Sprintf("c%p", v), true
	}
	return "", false
}

func (it *Interp) mapFind(m *Map, key Value, kt types.Type) int {
	if m == nil {
		return -1
	}
	if k, ok := canonKey(key); ok {
		if i, ok := m.index[k]; ok {
			return i
		}
		// symbolic keys present?
		if len(m.index) == m.n {
			return -1
		}
	}
	for i := range m.keys {
		if m.live[i] && it.truth(it.equal(m.keys[i], key, kt)) {
			return i
		}
	}
	return -1
}

func (it *Interp) mapSet(m *Map, key, val Value, kt types.Type) {
	if i := it.mapFind(m, key, kt); i >= 0 {
		m.vals[i] = copyVal(val)
		return
	}
	m.keys = append(m.keys, copyVal(key))
	m.vals = append(m.vals, copyVal(val))
	m.live = append(m.live, true)
	m.n++
	if k, ok := canonKey(key); ok {
		m.index[k] = len(m.keys) - 1
	}
}

func (it *Interp) mapDelete(m *Map, key Value, kt types.Type) {
	if m == nil {
		return
	}
	i := it.mapFind(m, key, kt)
	if i < 0 {
		return
	}
	m.live[i] = false
	m.n--
	if k, ok := canonKey(m.keys[i]); ok {
		delete(m.index, k)
	}
}

func newMap() *Map { return &Map{index: map[string]int{}} }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// strBytes gives the bytes of a string value.
func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		r := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = I(v[i])
		}
		return r
	case SymStr:
		return v
	}
	panic(unsupported{fmt.Sprintf("string bytes of %T", v)})
}

// bytesToStr makes a string value out of byte values.
func bytesToStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(I); !ok {
			return append(SymStr{}, b...)
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.(I))
	}
	return string(r)
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case SymStr:
		return len(v)
	}
	panic(unsupported{fmt.Sprintf("len of string %T", v)})
}
