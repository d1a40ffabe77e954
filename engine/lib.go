package main

import (
	"encoding/hex"
	"go/types"
	"math/big"
	"math/bits"
	"reflect"
	"strconv"
	"strings"
)

// Standard library functions that would be slow or impossible to execute from source with symbolic
// arguments. With concrete arguments they compute the real result.
func init() {
	in := func(name string, f intrinsic) { intrinsics[name] = f }

	// ---- math/bits
	in("math/bits.Add64", func(it *Interp, a []Value) Value {
		t := it.ts.Add(it.ts.Add(it.term(a[0], u64Kind), it.term(a[1], u64Kind)), it.term(a[2], u64Kind))
		carry := it.ts.Ite(it.ts.Lt(t, it.ts.Const(pow2[64])), it.ts.ConstI(0), it.ts.ConstI(1))
		return Tuple{it.val(it.wrap(t, u64Kind)), it.val(carry)}
	})
	in("math/bits.Sub64", func(it *Interp, a []Value) Value {
		t := it.ts.Sub(it.ts.Sub(it.term(a[0], u64Kind), it.term(a[1], u64Kind)), it.term(a[2], u64Kind))
		borrow := it.ts.Ite(it.ts.Lt(t, it.ts.ConstI(0)), it.ts.ConstI(1), it.ts.ConstI(0))
		return Tuple{it.val(it.wrap(t, u64Kind)), it.val(borrow)}
	})
	in("math/bits.Mul64", func(it *Interp, a []Value) Value {
		t := it.ts.Mul(it.term(a[0], u64Kind), it.term(a[1], u64Kind))
		return Tuple{it.val(it.bounded(it.ts.DivK(t, pow2[64]), u64Kind)), it.val(it.wrap(t, u64Kind))}
	})
	for _, p := range []string{"Add", "Sub", "Mul"} {
		intrinsics["math/bits."+p] = intrinsics["math/bits."+p+"64"]
	}
	ln := func(width int) intrinsic {
		return func(it *Interp, a []Value) Value {
			if x, ok := a[0].(I); ok {
				return I(bits.Len64(uint64(x) & (1<<uint(width-1)<<1 - 1)))
			}
			t := it.term(a[0], u64Kind)
			for n := 0; n < width; n++ {
				if it.decide(it.ts.Lt(t, it.ts.Const(pow2[n]))) {
					return I(n)
				}
			}
			return I(width)
		}
	}
	in("math/bits.Len", ln(64))
	in("math/bits.Len64", ln(64))
	in("math/bits.Len32", ln(32))
	in("math/bits.Len16", ln(16))
	in("math/bits.Len8", ln(8))
	in("math/bits.LeadingZeros64", func(it *Interp, a []Value) Value { return 64 - ln(64)(it, a).(I) })

	// ---- slices: aliasing is decided on the backing arrays
	in("slices.overlaps", func(it *Interp, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if len(x) == 0 || len(y) == 0 || !sameArray(x, y) {
			return false
		}
		// distance from the end of the array
		return cap(x)-len(x) < cap(y) && cap(y)-len(y) < cap(x)
	})
	in("slices.startIdx", func(it *Interp, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		return I(cap(x) - cap(y))
	})

	in("strings.Clone", func(it *Interp, a []Value) Value { return a[0] })

	// ---- numbers as text
	dec := func(k kind) intrinsic {
		return func(it *Interp, a []Value) Value {
			base := int64(10)
			if len(a) > 1 {
				base = int64(a[1].(I))
			}
			switch x := a[0].(type) {
			case I:
				return iBig(x, k).Text(int(base))
			case *Term:
				if base == 10 {
					return it.token(x)
				}
			}
			unsup("text of %T in base %d", a[0], base)
			return nil
		}
	}
	in("strconv.Itoa", dec(intKind))
	in("strconv.FormatInt", dec(intKind))
	in("strconv.FormatUint", dec(u64Kind))
	in("strconv.AppendInt", func(it *Interp, a []Value) Value {
		return it.appendSlice(a[0].(Slice), strBytes(dec(intKind)(it, a[1:]).(string)), types.Typ[types.Uint8])
	})
	in("strconv.AppendUint", func(it *Interp, a []Value) Value {
		return it.appendSlice(a[0].(Slice), strBytes(dec(u64Kind)(it, a[1:]).(string)), types.Typ[types.Uint8])
	})
}

// ---- input and output of the command

func init() {
	in := func(name string, f intrinsic) { intrinsics[name] = f }

	in(symPkg+".Capture", func(it *Interp, a []Value) Value {
		it.capture = &strings.Builder{}
		defer func() { it.capture = nil }()
		it.callValue(it.fr, a[0], nil)
		return it.capture.String()
	})
	in("(*os.File).Write", func(it *Interp, a []Value) Value {
		if it.capture == nil {
			unsup("write to a file")
		}
		it.capture.WriteString(str(bytesToStr(a[1].(Slice))))
		return Tuple{I(len(a[1].(Slice))), nilErr()}
	})
	in("(*os.File).WriteString", func(it *Interp, a []Value) Value {
		if it.capture == nil {
			unsup("write to a file")
		}
		it.capture.WriteString(str(a[1]))
		return Tuple{I(strLen(a[1])), nilErr()}
	})

	// requests are answered by the harness
	in("verifharness/web.Serve", func(it *Interp, a []Value) Value {
		it.serve = a[0]
		return nil
	})
	in("(*net/http.Client).do", func(it *Interp, a []Value) Value {
		if it.serve == nil {
			unsup("http request")
		}
		return it.callValue(it.fr, it.serve, []Value{a[1]})
	})

	// ---- text of symbolic values read back
	in("encoding/hex.DecodeString", func(it *Interp, a []Value) Value {
		r, err := it.hexBytes(str(a[0]))
		return Tuple{r, err}
	})
	in("encoding/hex.Decode", func(it *Interp, a []Value) Value {
		r, err := it.hexBytes(str(bytesToStr(a[1].(Slice))))
		dst := a[0].(Slice)
		if len(dst) < len(r) {
			it.rtPanic("index out of range")
		}
		copy(dst, r)
		return Tuple{I(len(r)), err}
	})
	in("encoding/hex.Encode", func(it *Interp, a []Value) Value {
		dst, src := a[0].(Slice), a[1].(Slice)
		var text string
		if b, ok := tryBytes(src); ok {
			text = hex.EncodeToString(b)
		} else if text = it.hexToken(append(Slice{}, src...)); len(text) != 2*len(src) {
			unsup("hex text of %d bytes", len(src))
		}
		if len(dst) < len(text) {
			it.rtPanic("index out of range")
		}
		copy(dst, strBytes(text))
		return I(len(text))
	})
	in("encoding/hex.NewDecoder", func(it *Interp, a []Value) Value {
		read := it.eng.prog.ImportedPackage("io").Func("ReadAll")
		all := it.callFn(it.fr, read, []Value{a[0]}, nil).(Tuple)
		b, err := it.hexBytes(str(bytesToStr(all[0].(Slice))))
		if all[1].(Iface).T != nil || err.(Iface).T != nil {
			unsup("hex reader of other text")
		}
		r := it.callFn(it.fr, it.eng.prog.ImportedPackage("bytes").Func("NewReader"), []Value{b}, nil)
		return Iface{it.eng.ptrTo("bytes", "Reader"), r}
	})
	in("(*encoding/hex.encoder).Write", func(it *Interp, a []Value) Value {
		w := (*a[0].(Ptr)).(Struct)[0].(Iface)
		b := a[1].(Slice)
		text := intrinsics["encoding/hex.EncodeToString"](it, []Value{append(Slice{}, b...)})
		r := it.callFn(it.fr, it.method(w.T, "Write"), []Value{w.V, Slice(strBytes(str(text)))}, nil).(Tuple)
		return Tuple{I(len(b)), r[1]}
	})
	parse := func(k kind, plain func(s string, a []Value) (int64, error)) intrinsic {
		return func(it *Interp, a []Value) Value {
			s := str(a[0])
			if v, ok := it.tokenVal(s); ok {
				t, ok := v.(*Term)
				if !ok {
					unsup("number text of %T", v)
				}
				size := uint(64)
				if len(a) > 1 {
					if base := int64(a[1].(I)); base != 0 && base != 10 {
						unsup("number text in base %d", base)
					}
					if n := uint(a[2].(I)); n != 0 {
						size = n
					}
				}
				lo, hi := new(big.Int), new(big.Int).Lsh(b1, size)
				if k.signed {
					hi.Rsh(hi, 1)
					lo.Neg(hi)
				}
				hi.Sub(hi, b1)
				ts := it.ts
				if it.decide(ts.Le0(ts.AddK(t, new(big.Int).Neg(hi)))) {
					if it.decide(ts.Le0(ts.AddK(ts.Scale(t, big.NewInt(-1)), lo))) {
						return Tuple{t, nilErr()}
					}
					if !k.signed {
						return Tuple{I(0), it.errorOf(strconv.ErrSyntax)}
					}
					return Tuple{bigToI(lo), it.errorOf(strconv.ErrRange)}
				}
				return Tuple{bigToI(hi), it.errorOf(strconv.ErrRange)}
			}
			n, err := plain(s, a)
			if err != nil {
				return Tuple{I(n), it.errorOf(err)}
			}
			return Tuple{I(n), nilErr()}
		}
	}
	in("strconv.Atoi", parse(intKind, func(s string, a []Value) (int64, error) {
		n, err := strconv.Atoi(s)
		return int64(n), err
	}))
	in("strconv.ParseInt", parse(intKind, func(s string, a []Value) (int64, error) {
		return strconv.ParseInt(s, int(a[1].(I)), int(a[2].(I)))
	}))
	in("strconv.ParseUint", parse(u64Kind, func(s string, a []Value) (int64, error) {
		n, err := strconv.ParseUint(s, int(a[1].(I)), int(a[2].(I)))
		return int64(n), err
	}))

	// ---- JSON text is a reference to the value
	marshal := func(it *Interp, a []Value) Value {
		f := a[0].(Iface)
		return Tuple{Slice(strBytes(it.token(Iface{f.T, deepVal(f.V)}))), nilErr()}
	}
	in("encoding/json.Marshal", marshal)
	in("encoding/json.MarshalIndent", marshal)
	stream := func(it *Interp, a []Value) Value {
		p := new(Value)
		*p = a[0]
		return p
	}
	in("encoding/json.NewDecoder", stream)
	in("encoding/json.NewEncoder", stream)
	nop := func(it *Interp, a []Value) Value { return nil }
	in("(*encoding/json.Decoder).DisallowUnknownFields", nop)
	in("(*encoding/json.Decoder).UseNumber", nop)
	in("(*encoding/json.Encoder).SetIndent", nop)
	in("(*encoding/json.Decoder).Decode", func(it *Interp, a []Value) Value {
		read := it.eng.prog.ImportedPackage("io").Func("ReadAll")
		all := it.callFn(it.fr, read, []Value{*a[0].(Ptr)}, nil).(Tuple)
		if all[1].(Iface).T != nil {
			return all[1]
		}
		return intrinsics["encoding/json.Unmarshal"](it, []Value{all[0], a[1]})
	})
	in("(*encoding/json.Encoder).Encode", func(it *Interp, a []Value) Value {
		w := (*a[0].(Ptr)).(Iface)
		text := marshal(it, a[1:]).(Tuple)[0].(Slice)
		r := it.callFn(it.fr, it.method(w.T, "Write"), []Value{w.V, append(text, I(10))}, nil)
		return r.(Tuple)[1]
	})
	in("encoding/json.Unmarshal", func(it *Interp, a []Value) Value {
		v, ok := it.tokenVal(strings.TrimSpace(str(bytesToStr(a[0].(Slice)))))
		src, isVal := v.(Iface)
		dst := a[1].(Iface)
		pt, isPtr := dst.T.Underlying().(*types.Pointer)
		if !ok || !isVal || !isPtr {
			unsup("JSON of %T", dst.V)
		}
		it.store(dst.V, jsonCopy(src.V, src.T, pt.Elem()))
		return nilErr()
	})
}

// hexBytes decodes hex text, which may hold tokens.
func (it *Interp) hexBytes(s string) (Slice, Value) {
	r := Slice{}
	for s != "" {
		if t := anyToken.FindString(s); t != "" {
			v, _ := it.tokenVal(t)
			switch v := v.(type) {
			case Slice:
				r = append(r, v...)
			default:
				unsup("hex text of %T", v)
			}
			s = s[len(t):]
			continue
		}
		n := strings.IndexByte(s, 1)
		if n == 0 || strings.IndexByte(s, 2) >= 0 && n < 0 {
			unsup("part of the text of a value")
		}
		if n < 0 {
			n = len(s)
		}
		b, err := hex.DecodeString(s[:n])
		for _, x := range b {
			r = append(r, I(x))
		}
		if err != nil {
			return r, it.errorOf(err)
		}
		s = s[n:]
	}
	return r, nilErr()
}

// jsonCopy gives the value as another type with the same JSON form.
func jsonCopy(v Value, from, to types.Type) Value {
	if types.Identical(from, to) {
		return deepVal(v)
	}
	switch f := from.Underlying().(type) {
	case *types.Slice:
		t, ok := to.Underlying().(*types.Slice)
		if !ok {
			break
		}
		r := make(Slice, 0, len(v.(Slice)))
		for _, e := range v.(Slice) {
			r = append(r, jsonCopy(e, f.Elem(), t.Elem()))
		}
		return r
	case *types.Struct:
		t, ok := to.Underlying().(*types.Struct)
		if !ok {
			break
		}
		r := zero(to).(Struct)
		for i := 0; i < t.NumFields(); i++ {
			for j := 0; j < f.NumFields(); j++ {
				if jsonName(t, i) == jsonName(f, j) {
					r[i] = jsonCopy(v.(Struct)[j], f.Field(j).Type(), t.Field(i).Type())
				}
			}
		}
		return r
	case *types.Basic:
		a, b := kindOf(from), kindOf(to)
		if a.cls == kInt && b.cls == kInt && a.bits <= b.bits && a.signed == b.signed {
			return v
		}
	}
	unsup("JSON of %s as %s", from, to)
	return nil
}

func jsonName(s *types.Struct, i int) string {
	n, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
	if n == "" {
		n = s.Field(i).Name()
	}
	return strings.ToLower(n)
}

// deepVal copies a value including what slices hold.
func deepVal(v Value) Value {
	switch v := v.(type) {
	case Slice:
		if v == nil {
			return v
		}
		r := make(Slice, len(v))
		for i := range v {
			r[i] = deepVal(v[i])
		}
		return r
	case Struct:
		r := make(Struct, len(v))
		for i := range v {
			r[i] = deepVal(v[i])
		}
		return r
	}
	return copyVal(v)
}

// tokenVal gives the value that a token stands for.
func (it *Interp) tokenVal(s string) (Value, bool) {
	id, ok := tokenID(s)
	if !ok || id >= len(it.fmtVals) {
		return nil, false
	}
	return it.fmtVals[id], true
}

// errorOf is an error value of the standard errors package.
func (it *Interp) errorOf(err error) Value {
	t := it.eng.ptrTo("errors", "errorString")
	p := new(Value)
	*p = Struct{err.Error()}
	return Iface{t, p}
}

func sameArray(x, y Slice) bool {
	if cap(x) == 0 || cap(y) == 0 {
		return false
	}
	return &x[:cap(x)][cap(x)-1] == &y[:cap(y)][cap(y)-1]
}
