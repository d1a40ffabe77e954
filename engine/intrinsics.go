package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/crypto/ripemd160"
	"golang.org/x/tools/go/ssa"
)

type intrinsic func(it *Interp, args []Value) Value

var intrinsics map[string]intrinsic

var (
	intKind = kind{kInt, 64, true}
	u64Kind = kind{kInt, 64, false}
	u32Kind = kind{kInt, 32, false}
)

func nop(it *Interp, args []Value) Value { return nil }

func str(v Value) string {
	s, ok := v.(string)
	if !ok {
		unsup("symbolic string argument")
	}
	return s
}

func nilErr() Value { return Iface{} }

func u64max() *big.Int { return new(big.Int).Sub(pow2[64], b1) }

const symPkg = "verifharness/sym"

func init() {
	intrinsics = map[string]intrinsic{}
	in := func(name string, f intrinsic) { intrinsics[name] = f }
	sym := func(name string, f intrinsic) { intrinsics[symPkg+"."+name] = f }

	// ---- harness interface
	sym("U64", func(it *Interp, a []Value) Value { return it.fresh("var", str(a[0]), bz, u64max()) })
	sym("U64R", func(it *Interp, a []Value) Value {
		lo, hi := iBig(a[1].(I), u64Kind), iBig(a[2].(I), u64Kind)
		if lo.Cmp(hi) == 0 {
			it.stream = append(it.stream, StreamItem{Kind: "var", Name: str(a[0]), Term: it.ts.Const(lo)})
			return a[1]
		}
		return it.fresh("var", str(a[0]), lo, hi)
	})
	sym("I64R", func(it *Interp, a []Value) Value {
		return it.fresh("var", str(a[0]), iBig(a[1].(I), intKind), iBig(a[2].(I), intKind))
	})
	sym("IntR", func(it *Interp, a []Value) Value {
		return it.fresh("var", str(a[0]), iBig(a[1].(I), intKind), iBig(a[2].(I), intKind))
	})
	sym("U32", func(it *Interp, a []Value) Value {
		return it.fresh("var", str(a[0]), bz, new(big.Int).Sub(pow2[32], b1))
	})
	sym("I32", func(it *Interp, a []Value) Value {
		return it.fresh("var", str(a[0]), new(big.Int).Neg(pow2[31]), new(big.Int).Sub(pow2[31], b1))
	})
	sym("Byte", func(it *Interp, a []Value) Value { return it.fresh("var", str(a[0]), bz, big.NewInt(255)) })
	sym("Bytes", func(it *Interp, a []Value) Value {
		n := it.concInt(a[1], intKind, "sym.Bytes")
		r := make(Slice, n)
		for i := range r {
			r[i] = it.fresh("var", fmt.Sprintf("%s.%d", str(a[0]), i), bz, big.NewInt(255))
		}
		return r
	})
	sym("Bool", func(it *Interp, a []Value) Value {
		t := it.fresh("var", str(a[0]), bz, b1)
		return it.val(it.ts.Eq(t, it.ts.ConstI(1)))
	})
	sym("Choose", func(it *Interp, a []Value) Value {
		v := it.choose(it.concInt(a[1], intKind, "sym.Choose"))
		it.chosen("var", str(a[0]), v)
		return I(v)
	})
	sym("F32", func(it *Interp, a []Value) Value { // name, lo, hi, exp: m * 2^exp, lo <= m <= hi
		lo, hi := iBig(a[1].(I), intKind), iBig(a[2].(I), intKind)
		m := it.fresh("var", str(a[0]), lo, hi)
		e := int(a[3].(I))
		if e <= 0 {
			return it.fval(&SymF{num: m, k: -e})
		}
		return it.fval(&SymF{num: it.ts.Scale(m, pow2[e])})
	})
	sym("Assume", func(it *Interp, a []Value) Value { it.symAssume(it.bterm(a[0])); return nil })
	sym("Assert", func(it *Interp, a []Value) Value { it.symAssert(it.bterm(a[0]), str(a[1])); return nil })
	sym("Reach", func(it *Interp, a []Value) Value { it.reached[str(a[0])] = true; return nil })
	sym("And", func(it *Interp, a []Value) Value {
		ts := []*Term{}
		for _, x := range a[0].(Slice) {
			ts = append(ts, it.bterm(x))
		}
		return it.val(it.ts.And(ts...))
	})
	sym("Or", func(it *Interp, a []Value) Value {
		ts := []*Term{}
		for _, x := range a[0].(Slice) {
			ts = append(ts, it.bterm(x))
		}
		return it.val(it.ts.Or(ts...))
	})
	sym("IteU64", func(it *Interp, a []Value) Value {
		return it.val(it.ts.Ite(it.bterm(a[0]), it.term(a[1], u64Kind), it.term(a[2], u64Kind)))
	})
	sym("Conc", func(it *Interp, a []Value) Value { // split into concrete values
		return it.concretize(it.term(a[0], u64Kind), "sym.Conc")
	})
	sym("Thorough", func(it *Interp, a []Value) Value { return it.eng.tier == "thorough" })
	sym("Symbolic", func(it *Interp, a []Value) Value { return true })
	sym("ShuffleMode", func(it *Interp, a []Value) Value { it.shufMode = int(a[0].(I)); return nil })
	sym("SigLens", func(it *Interp, a []Value) Value {
		it.sigLens = nil
		for _, x := range a[0].(Slice) {
			it.sigLens = append(it.sigLens, int(x.(I)))
		}
		return nil
	})
	sym("Observe", func(it *Interp, a []Value) Value {
		o := Obs{Label: str(a[0])}
		for _, x := range a[1].(Slice) {
			v := x.(Iface)
			o.Vals = append(o.Vals, v.V)
			o.Kinds = append(o.Kinds, kindOf(v.T))
		}
		it.obs = append(it.obs, o)
		return nil
	})
	sym("ParseFixed", func(it *Interp, a []Value) Value {
		v, ok := it.parseFixed(str(a[0]), int(a[1].(I)))
		return Tuple{v, ok}
	})
	sym("ParseNum", func(it *Interp, a []Value) Value { // a decimal number embedded in formatted text
		s := str(a[0])
		if id, ok := tokenID(s); ok && id < len(it.fmtVals) {
			return Tuple{it.fmtVals[id], true}
		}
		n, ok := new(big.Int).SetString(s, 10)
		if !ok {
			return Tuple{I(0), false}
		}
		return Tuple{bigToI(n), true}
	})

	// ---- randomness: every result within the documented range is possible
	for _, p := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2.", "(*math/rand/v2.Rand)."} {
		recv := 0
		if p[0] == '(' {
			recv = 1
		}
		intn := func(bits int, signed bool) intrinsic {
			return func(it *Interp, a []Value) Value { return it.randn(a[recv], kind{kInt, bits, signed}) }
		}
		in(p+"Intn", intn(64, true))
		in(p+"IntN", intn(64, true))
		in(p+"Int63n", intn(64, true))
		in(p+"Int64N", intn(64, true))
		in(p+"Int31n", intn(32, true))
		in(p+"Int32N", intn(32, true))
		in(p+"Uint64N", intn(64, false))
		in(p+"UintN", intn(64, false))
		in(p+"Uint32N", intn(32, false))
		full := func(bits int) intrinsic {
			return func(it *Interp, a []Value) Value {
				return it.fresh("rand", "full", bz, new(big.Int).Sub(pow2[bits], b1))
			}
		}
		in(p+"Int", full(63))
		in(p+"Int63", full(63))
		in(p+"Int64", full(63))
		in(p+"Int31", full(31))
		in(p+"Int32", full(31))
		in(p+"Uint32", full(32))
		in(p+"Uint64", full(64))
		in(p+"Uint", full(64))
		in(p+"Float64", func(it *Interp, a []Value) Value {
			return it.fval(&SymF{num: it.fresh("rand", "f64", bz, new(big.Int).Sub(pow2[53], b1)), k: 53})
		})
		in(p+"Float32", func(it *Interp, a []Value) Value {
			return it.fval(&SymF{num: it.fresh("rand", "f32", bz, new(big.Int).Sub(pow2[24], b1)), k: 24})
		})
		in(p+"Seed", nop)
		in(p+"Shuffle", func(it *Interp, a []Value) Value {
			n := it.concInt(a[recv], intKind, "Shuffle")
			if n < 0 {
				it.rtPanic("invalid argument to Shuffle")
			}
			fr := it.fr
			for i := n - 1; i > 0; i-- {
				j := it.shufflePick(i)
				it.chosen("rand", "n", j)
				it.callValue(fr, a[recv+1], []Value{I(i), I(j)})
			}
			return nil
		})
		in(p+"Perm", func(it *Interp, a []Value) Value {
			n := it.concInt(a[recv], intKind, "Perm")
			r := make(Slice, n)
			for i := 0; i < n; i++ {
				j := it.choose(i + 1)
				it.chosen("rand", "n", j)
				r[i] = r[j]
				r[j] = I(i)
			}
			return r
		})
	}
	opaque := func(it *Interp, a []Value) Value {
		p := new(Value)
		*p = Poison{"random source"}
		return p
	}
	in("math/rand.New", opaque)
	in("math/rand/v2.New", opaque)
	in("math/rand/v2.NewPCG", opaque)
	in("math/rand.NewSource", func(it *Interp, a []Value) Value { return Iface{T: types.Typ[types.Int], V: I(0)} })
	in("crypto/rand.Read", func(it *Interp, a []Value) Value {
		s := a[0].(Slice)
		for i := range s {
			s[i] = it.fresh("rand", "byte", bz, big.NewInt(255))
		}
		return Tuple{I(len(s)), nilErr()}
	})

	// ---- time
	zeroTime := func(it *Interp, a []Value) Value { return Struct{I(0), I(0), Ptr(nil)} }
	in("time.Now", zeroTime)
	in("time.Since", func(it *Interp, a []Value) Value { return I(0) })
	in("time.Sleep", nop)
	in("runtime.Callers", func(it *Interp, a []Value) Value { return I(0) })
	in("runtime.Caller", func(it *Interp, a []Value) Value { return Tuple{I(0), "", I(0), false} })
	in("runtime.GC", nop)
	in("runtime.KeepAlive", nop)
	in("runtime.SetFinalizer", nop)
	in("runtime.Gosched", nop)

	// ---- hashing
	type hs struct {
		pre  string
		fn   string
		size int
	}
	for _, h := range []hs{
		{"(*crypto/internal/fips140/sha256.Digest).", "sha256", 32},
		{"(*golang.org/x/crypto/ripemd160.digest).", "ripemd160", 20},
	} {
		h := h
		in(h.pre+"Reset", func(it *Interp, a []Value) Value { delete(it.digests, a[0].(Ptr)); return nil })
		in(h.pre+"Write", func(it *Interp, a []Value) Value {
			p := a[0].(Ptr)
			b := a[1].(Slice)
			it.digests[p] = append(it.digests[p], append([]Value{}, b...)...)
			return Tuple{I(len(b)), nilErr()}
		})
		in(h.pre+"Sum", func(it *Interp, a []Value) Value {
			out := it.hash(h.fn, it.digests[a[0].(Ptr)], h.size)
			return it.appendSlice(a[1].(Slice), out, types.Typ[types.Uint8])
		})
	}
	in("crypto/sha256.Sum256", func(it *Interp, a []Value) Value {
		return Array(append([]Value{}, it.hash("sha256", a[0].(Slice), 32)...))
	})
	in("crypto/internal/fips140.RecordApproved", nop)
	in("crypto/internal/fips140.RecordNonApproved", nop)

	// ---- elliptic curve primitives
	btc := "github.com/btcsuite/btcd/btcec."
	in(btc+"loadS256BytePoints", func(it *Interp, a []Value) Value { return nilErr() })
	in("(*github.com/btcsuite/btcd/btcec.KoblitzCurve).ScalarBaseMult", func(it *Interp, a []Value) Value {
		k := new(big.Int).SetBytes(it.concBytes(a[1].(Slice)))
		x, y := secpMul(k)
		return Tuple{mkBig(x), mkBig(y)}
	})
	in("(github.com/tokenized/pkg/bitcoin.Key).Sign", func(it *Interp, a []Value) Value {
		key := getBig(a[0].(Struct)[0])
		hash := []Value(a[1].(Array))
		id := it.sign(key.Text(16), hash)
		return Tuple{Struct{bigStruct(big.NewInt(int64(id + 1))), bigStruct(big.NewInt(int64(it.sigs[id].n)))}, nilErr()}
	})
	in("(github.com/tokenized/pkg/bitcoin.Signature).Bytes", func(it *Interp, a []Value) Value {
		id := getBig(a[0].(Struct)[0]).Int64() - 1
		if id < 0 || int(id) >= len(it.sigs) {
			unsup("bytes of an unknown signature")
		}
		return Slice(append([]Value{}, it.sigs[id].out...))
	})
	in("(github.com/tokenized/pkg/bitcoin.Signature).Verify", func(it *Interp, a []Value) Value {
		id := getBig(a[0].(Struct)[0]).Int64() - 1
		if id < 0 || int(id) >= len(it.sigs) {
			return false
		}
		s := it.sigs[id]
		k, _ := new(big.Int).SetString(s.key, 16)
		x, _ := secpMul(k)
		if getBig(a[2].(Struct)[0]).Cmp(x) != 0 {
			return false
		}
		return it.eqBytes(s.hash, []Value(a[1].(Array)))
	})

	// ---- errors and formatting
	in("github.com/pkg/errors.callers", func(it *Interp, a []Value) Value {
		p := new(Value)
		*p = Slice(nil)
		return p
	})
	in("fmt.Sprintf", func(it *Interp, a []Value) Value { return it.sprintf(str(a[0]), a[1].(Slice)) })
	in("fmt.Sprint", func(it *Interp, a []Value) Value { return fmt.Sprint(it.fmtArgs(a[0].(Slice))...) })
	in("fmt.Sprintln", func(it *Interp, a []Value) Value { return fmt.Sprintln(it.fmtArgs(a[0].(Slice))...) })
	printed := func(text func(it *Interp, a []Value) Value) intrinsic {
		return func(it *Interp, a []Value) Value {
			if it.capture != nil {
				it.capture.WriteString(str(text(it, a)))
			}
			return Tuple{I(0), nilErr()}
		}
	}
	in("fmt.Printf", printed(intrinsics["fmt.Sprintf"]))
	in("fmt.Println", printed(intrinsics["fmt.Sprintln"]))
	in("fmt.Print", printed(intrinsics["fmt.Sprint"]))
	fprint := func(text func(it *Interp, a []Value) string) intrinsic {
		return func(it *Interp, a []Value) Value {
			w := a[0].(Iface)
			if w.T == nil {
				it.rtPanic("invalid memory address or nil pointer dereference")
			}
			b := Slice(strBytes(text(it, a)))
			m := it.method(w.T, "Write")
			if m == nil {
				unsup("Fprintf to %s", w.T)
			}
			return it.callFn(it.fr, m, []Value{w.V, b}, nil)
		}
	}
	in("fmt.Fprintf", fprint(func(it *Interp, a []Value) string { return it.sprintf(str(a[1]), a[2].(Slice)) }))
	in("fmt.Fprint", fprint(func(it *Interp, a []Value) string { return fmt.Sprint(it.fmtArgs(a[1].(Slice))...) }))
	in("fmt.Fprintln", fprint(func(it *Interp, a []Value) string { return fmt.Sprintln(it.fmtArgs(a[1].(Slice))...) }))
	in("fmt.Errorf", func(it *Interp, a []Value) Value {
		format := str(a[0])
		args := a[1].(Slice)
		msg := it.sprintf(strings.ReplaceAll(format, "%w", "%v"), args)
		if strings.Contains(format, "%w") {
			// find the wrapped operand: count verbs before it
			n := 0
			for i := 0; i < len(format)-1; i++ {
				if format[i] != '%' {
					continue
				}
				if format[i+1] == '%' {
					i++
					continue
				}
				j := i + 1
				for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
					j++
				}
				if j < len(format) && format[j] == 'w' && n < len(args) {
					if e := args[n].(Iface); e.T != nil {
						p := new(Value)
						*p = Struct{msg, e}
						return Iface{T: it.eng.ptrTo("fmt", "wrapError"), V: p}
					}
				}
				n++
				i = j
			}
		}
		p := new(Value)
		*p = Struct{msg}
		return Iface{T: it.eng.ptrTo("errors", "errorString"), V: p}
	})
	in("errors.Is", func(it *Interp, a []Value) Value {
		err, target := a[0].(Iface), a[1].(Iface)
		fr := it.fr
		var is func(e Iface) bool
		is = func(e Iface) bool {
			for e.T != nil {
				if it.truth(it.ifaceEq(e, target)) {
					return true
				}
				if m := it.method(e.T, "Is"); m != nil && m.Signature.Params().Len() == 1 {
					if it.truth(it.callFn(fr, m, []Value{e.V, target}, nil)) {
						return true
					}
				}
				m := it.method(e.T, "Unwrap")
				if m == nil {
					return false
				}
				r := it.callFn(fr, m, []Value{e.V}, nil)
				if s, ok := r.(Slice); ok {
					for _, x := range s {
						if is(x.(Iface)) {
							return true
						}
					}
					return false
				}
				e = r.(Iface)
			}
			return target.T == nil
		}
		if err.T == nil || target.T == nil {
			return err.T == target.T
		}
		return is(err)
	})

	// ---- sync
	in("(*sync.Pool).Put", nop)
	coIntrinsics(in)
	in("(*sync.Pool).Get", func(it *Interp, a []Value) Value {
		s := (*a[0].(Ptr)).(Struct)
		f := s[len(s)-1]
		if isNilFn(f) {
			return Iface{}
		}
		return it.callValue(it.fr, f, nil)
	})
	in("(*sync.Once).Do", func(it *Interp, a []Value) Value {
		p := a[0].(Ptr)
		if it.stdOnce[p] || it.onces[p] {
			return nil
		}
		if it.initDepth > 0 {
			it.stdOnce[p] = true
		} else {
			it.onces[p] = true
		}
		return it.callValue(it.fr, a[1], nil)
	})
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		k := kind{kInt, 64, ty[0] == 'I'}
		if strings.HasSuffix(ty, "32") {
			k.bits = 32
		}
		for _, pre := range []string{"sync/atomic."} {
			in(pre+"Load"+ty, func(it *Interp, a []Value) Value { return it.load(a[0]) })
			in(pre+"Store"+ty, func(it *Interp, a []Value) Value { it.store(a[0], a[1]); return nil })
			in(pre+"Swap"+ty, func(it *Interp, a []Value) Value { o := it.load(a[0]); it.store(a[0], a[1]); return o })
			in(pre+"Add"+ty, func(it *Interp, a []Value) Value {
				n := it.val(it.wrap(it.ts.Add(it.term(it.load(a[0]), k), it.term(a[1], k)), k))
				it.store(a[0], n)
				return n
			})
			in(pre+"CompareAndSwap"+ty, func(it *Interp, a []Value) Value {
				o := it.load(a[0])
				var eq Value
				if _, isP := o.(Ptr); isP {
					eq = ptrEq(o, a[1])
				} else {
					eq = it.val(it.ts.Eq(it.term(o, k), it.term(a[1], k)))
				}
				if it.truth(eq) {
					it.store(a[0], a[2])
					return true
				}
				return false
			})
		}
	}

	// ---- strings and bytes
	in("(*strings.Builder).copyCheck", nop)
	in("internal/bytealg.MakeNoZero", func(it *Interp, a []Value) Value {
		s := make(Slice, it.concInt(a[0], intKind, "MakeNoZero"))
		for i := range s {
			s[i] = I(0)
		}
		return s
	})
	seq := func(v Value) []Value {
		if s, ok := v.(Slice); ok {
			return s
		}
		return strBytes(v)
	}
	indexByte := func(it *Interp, a []Value) Value {
		c := it.term(a[1], byteKind)
		for i, x := range seq(a[0]) {
			if it.decide(it.ts.Eq(it.term(x, byteKind), c)) {
				return I(i)
			}
		}
		return I(-1)
	}
	in("internal/bytealg.IndexByte", indexByte)
	in("internal/bytealg.IndexByteString", indexByte)
	lastIndexByte := func(it *Interp, a []Value) Value {
		c := it.term(a[1], byteKind)
		s := seq(a[0])
		for i := len(s) - 1; i >= 0; i-- {
			if it.decide(it.ts.Eq(it.term(s[i], byteKind), c)) {
				return I(i)
			}
		}
		return I(-1)
	}
	in("internal/bytealg.LastIndexByte", lastIndexByte)
	in("internal/bytealg.LastIndexByteString", lastIndexByte)
	count := func(it *Interp, a []Value) Value {
		c := it.term(a[1], byteKind)
		n := 0
		for _, x := range seq(a[0]) {
			if it.decide(it.ts.Eq(it.term(x, byteKind), c)) {
				n++
			}
		}
		return I(n)
	}
	in("internal/bytealg.Count", count)
	in("internal/bytealg.CountString", count)
	idx := func(it *Interp, a []Value) Value {
		s, sub := seq(a[0]), seq(a[1])
		for i := 0; i+len(sub) <= len(s); i++ {
			if it.truth(it.eqBytes(s[i:i+len(sub)], sub)) {
				return I(i)
			}
		}
		return I(-1)
	}
	in("internal/bytealg.Index", idx)
	in("internal/bytealg.IndexString", idx)
	in("strings.Index", idx)
	in("bytes.Index", idx)
	in("internal/bytealg.Compare", func(it *Interp, a []Value) Value { return I(it.cmpBytes(seq(a[0]), seq(a[1]))) })
	in("bytes.Compare", func(it *Interp, a []Value) Value { return I(it.cmpBytes(seq(a[0]), seq(a[1]))) })
	in("strings.Compare", func(it *Interp, a []Value) Value { return I(it.cmpBytes(seq(a[0]), seq(a[1]))) })
	in("internal/bytealg.CompareString", func(it *Interp, a []Value) Value { return I(it.cmpBytes(seq(a[0]), seq(a[1]))) })
	in("bytes.Equal", func(it *Interp, a []Value) Value {
		x, y := seq(a[0]), seq(a[1])
		if len(x) != len(y) {
			return false
		}
		return it.eqBytes(x, y)
	})
	in("internal/bytealg.Equal", intrinsics["bytes.Equal"])
	in("encoding/hex.EncodeToString", func(it *Interp, a []Value) Value {
		s := a[0].(Slice)
		if b, ok := tryBytes(s); ok {
			return hex.EncodeToString(b)
		}
		return it.hexToken(s)
	})

	// ---- math
	fl := func(name string, f func(float64) float64, mode string) {
		in("math."+name, func(it *Interp, a []Value) Value {
			switch x := a[0].(type) {
			case float64:
				return f(x)
			case *SymF:
				if mode != "" {
					return it.ffloor(x, mode)
				}
			case Poison:
				unsup("poison: %s", x.why)
			}
			unsup("math.%s of a symbolic float", name)
			return nil
		})
	}
	fl("Floor", math.Floor, "floor")
	fl("Ceil", math.Ceil, "ceil")
	fl("Trunc", math.Trunc, "trunc")
	fl("Round", math.Round, "round")
	fl("Sqrt", math.Sqrt, "")
	fl("Log", math.Log, "")
	fl("Log2", math.Log2, "")
	fl("Log10", math.Log10, "")
	fl("Exp", math.Exp, "")
	fl("RoundToEven", math.RoundToEven, "")
	in("math.Abs", func(it *Interp, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return math.Abs(x)
		case *SymF:
			if x.den == nil {
				if it.decide(it.ts.Lt(x.num, it.ts.ConstI(0))) {
					return it.fval(&SymF{num: it.ts.Neg(x.num), k: x.k})
				}
				return x
			}
		}
		unsup("math.Abs of %T", a[0])
		return nil
	})
	in("math.Pow", func(it *Interp, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if !ok1 || !ok2 {
			unsup("math.Pow of a symbolic float")
		}
		return math.Pow(x, y)
	})
	isx := func(name string, f func(float64) bool) {
		in("math."+name, func(it *Interp, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			return false // symbolic floats are finite
		})
	}
	isx("IsNaN", math.IsNaN)
	in("math.IsInf", func(it *Interp, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.IsInf(x, int(a[1].(I)))
		}
		return false
	})
	conc := func(v Value) float64 {
		x, ok := v.(float64)
		if !ok {
			unsup("bits of a symbolic float")
		}
		return x
	}
	in("math.Float64bits", func(it *Interp, a []Value) Value { return I(math.Float64bits(conc(a[0]))) })
	in("math.Float32bits", func(it *Interp, a []Value) Value { return I(math.Float32bits(float32(conc(a[0])))) })
	in("math.Float64frombits", func(it *Interp, a []Value) Value {
		x, ok := a[0].(I)
		if !ok {
			unsup("float from symbolic bits")
		}
		return math.Float64frombits(uint64(x))
	})
	in("math.Float32frombits", func(it *Interp, a []Value) Value {
		x, ok := a[0].(I)
		if !ok {
			unsup("float from symbolic bits")
		}
		return float64(math.Float32frombits(uint32(x)))
	})
	mm := func(name string, less bool) {
		in("math."+name, func(it *Interp, a []Value) Value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				if less {
					return math.Min(x, y)
				}
				return math.Max(x, y)
			}
			p, q, _ := it.align(it.symf(a[0]), it.symf(a[1]))
			if it.decide(it.ts.Lt(p, q)) == less {
				return a[0]
			}
			return a[1]
		})
	}
	mm("Min", true)
	mm("Max", false)

	// ---- sort.Slice (insertion sort, as the library does for short slices)
	ss := func(it *Interp, a []Value) Value {
		i := a[0].(Iface)
		s, ok := i.V.(Slice)
		if !ok {
			unsup("sort.Slice of %T", i.V)
		}
		if len(s) > 12 {
			unsup("sort.Slice of more than 12 elements")
		}
		fr := it.fr
		for p := 1; p < len(s); p++ {
			for q := p; q > 0; q-- {
				if !it.truth(it.callValue(fr, a[1], []Value{I(q), I(q - 1)})) {
					break
				}
				x, y := copyVal(s[q]), copyVal(s[q-1])
				storeInto(&s[q], y)
				storeInto(&s[q-1], x)
			}
		}
		return nil
	}
	in("sort.Slice", ss)
	in("sort.SliceStable", ss)

	in("os.Getenv", func(it *Interp, a []Value) Value { return "" })
	in("internal/godebug.New", func(it *Interp, a []Value) Value {
		p := new(Value)
		*p = Poison{"godebug"}
		return p
	})
	in("(*internal/godebug.Setting).Value", func(it *Interp, a []Value) Value { return "" })
	in("(*internal/godebug.Setting).IncNonDefault", nop)
}

// patternIntrinsic recognises families of functions that have no effect on the properties.
func patternIntrinsic(fn *ssa.Function, name string) intrinsic {
	switch fnPkgPath(fn) {
	case "github.com/tokenized/logger", "github.com/tokenized/pkg/logger":
		if fn.Blocks != nil && fn.Synthetic == "" {
			return func(it *Interp, a []Value) Value { return zeroRes(fn) }
		}
	}
	return nil
}

func zeroRes(fn *ssa.Function) Value {
	if fn.Signature.Results().Len() == 0 {
		return nil
	}
	return zero(fn.Signature.Results())
}

// ptrTo gives the type *pkg.name.
func (e *Engine) ptrTo(pkg, name string) types.Type {
	e.implMu.Lock()
	defer e.implMu.Unlock()
	k := pkg + "." + name
	if t, ok := e.ptrTypes[k]; ok {
		return t
	}
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported{"package " + pkg + " not loaded"})
	}
	t := types.NewPointer(p.Pkg.Scope().Lookup(name).Type())
	e.ptrTypes[k] = t
	return t
}

// method finds a method by name in the method set of a concrete type.
func (it *Interp) method(t types.Type, name string) *ssa.Function {
	k := methodKey{t, "!" + name}
	if f, ok := it.eng.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	var f *ssa.Function
	if sel := types.NewMethodSet(t).Lookup(nil, name); sel != nil {
		f = it.eng.prog.MethodValue(sel)
	}
	it.eng.methods.Store(k, f)
	return f
}

func tryBytes(s []Value) ([]byte, bool) {
	b := make([]byte, len(s))
	for i, x := range s {
		v, ok := x.(I)
		if !ok {
			return nil, false
		}
		b[i] = byte(v)
	}
	return b, true
}

func (it *Interp) concBytes(s []Value) []byte {
	b, ok := tryBytes(s)
	if !ok {
		unsup("symbolic bytes where concrete ones are needed")
	}
	return b
}

func toVals(b []byte) []Value {
	r := make([]Value, len(b))
	for i, x := range b {
		r[i] = I(x)
	}
	return r
}

// ---- randomness

func (it *Interp) randn(nv Value, k kind) Value {
	n := it.term(nv, k)
	if !it.decide(it.ts.Le(it.ts.ConstI(1), n)) {
		panic(targetPanic{v: Iface{T: types.Typ[types.String], V: "invalid argument to rand"}, msg: "invalid argument to rand"})
	}
	if n.isConst() && n.k.IsInt64() && n.k.Int64() <= 16 {
		v := it.choose(int(n.k.Int64()))
		it.chosen("rand", "n", v)
		return I(v)
	}
	v := it.fresh("rand", "n", bz, new(big.Int).Sub(n.hi, b1))
	if !n.isConst() {
		it.symAssume(it.ts.Lt(v, n))
	}
	return v
}

// shufflePick chooses the swap partner. Mode 0 explores every permutation, mode 1 only the identity
// and the rotation (first partner always 0), mode 2 only the identity.
func (it *Interp) shufflePick(i int) int {
	switch it.shufMode {
	case 1:
		if it.shufSel < 0 {
			it.shufSel = it.choose(2)
		}
		if it.shufSel == 1 {
			return 0
		}
		return i
	case 2:
		return i
	}
	return it.choose(i + 1)
}

// ---- hashing: concrete inputs use the real function; for symbolic inputs the function is treated
// as collision free: equal inputs give equal digests and different inputs different digests.

func (it *Interp) hash(fn string, in []Value, size int) []Value {
	b, conc := tryBytes(in)
	for _, h := range it.hashes {
		if h.fn != fn || len(h.in) != len(in) {
			continue
		}
		if conc {
			if _, c := tryBytes(h.in); c {
				continue
			}
		}
		if it.truth(it.eqBytes(h.in, in)) {
			return append([]Value{}, h.out...)
		}
	}
	var out []byte
	if conc {
		out = realHash(fn, b)
	} else {
		out = realHash(fn, []byte(fmt.Sprintf("symbolic input %d of %s", len(it.hashes), fn)))
	}
	it.hashes = append(it.hashes, hashApp{fn: fn, in: append([]Value{}, in...), out: toVals(out)})
	return toVals(out)
}

func realHash(fn string, b []byte) []byte {
	switch fn {
	case "sha256":
		s := sha256.Sum256(b)
		return s[:]
	case "ripemd160":
		h := ripemd160.New()
		h.Write(b)
		return h.Sum(nil)
	}
	panic("hash " + fn)
}

// sign models a signature as an injective function of key and digest with an arbitrary length
// within the configured range.
func (it *Interp) sign(key string, hash []Value) int {
	for i, s := range it.sigs {
		if s.key == key && it.truth(it.eqBytes(s.hash, hash)) {
			return i
		}
	}
	lens := it.sigLens
	if lens == nil {
		lens = []int{71}
	}
	n := lens[it.choose(len(lens))]
	it.chosen("sig", "len", n)
	seed := sha256.Sum256([]byte(fmt.Sprintf("signature %d %s", len(it.sigs), key)))
	out := make([]byte, n)
	copy(out, []byte{0x30, byte(n - 2), 0x02, 0x21})
	for i := 4; i < n; i++ {
		out[i] = seed[i%32]
	}
	it.sigs = append(it.sigs, sigApp{key: key, hash: append([]Value{}, hash...), n: n, out: toVals(out)})
	return len(it.sigs) - 1
}

// ---- big integers

func bigStruct(b *big.Int) Value {
	var w Slice
	for _, x := range b.Bits() {
		w = append(w, I(int64(x)))
	}
	return Struct{b.Sign() < 0, w}
}

func mkBig(b *big.Int) Value {
	p := new(Value)
	*p = bigStruct(b)
	return p
}

func getBig(v Value) *big.Int {
	s := v.(Struct)
	var w []big.Word
	sl, _ := s[1].(Slice)
	for _, x := range sl {
		i, ok := x.(I)
		if !ok {
			unsup("symbolic big integer")
		}
		w = append(w, big.Word(uint64(i)))
	}
	r := new(big.Int).SetBits(w)
	if neg, _ := s[0].(bool); neg {
		r.Neg(r)
	}
	return r
}

var (
	secpP, _  = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	secpGx, _ = new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
	secpGy, _ = new(big.Int).SetString("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16)
)

func secpAdd(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	if x1 == nil {
		return x2, y2
	}
	if x2 == nil {
		return x1, y1
	}
	var l *big.Int
	if x1.Cmp(x2) == 0 {
		if y1.Cmp(y2) != 0 {
			return nil, nil
		}
		l = new(big.Int).Mul(big.NewInt(3), new(big.Int).Mul(x1, x1))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(y1, 1), secpP))
	} else {
		l = new(big.Int).Sub(y2, y1)
		d := new(big.Int).Sub(x2, x1)
		d.Mod(d, secpP)
		l.Mul(l, d.ModInverse(d, secpP))
	}
	l.Mod(l, secpP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, x1)
	x.Sub(x, x2)
	x.Mod(x, secpP)
	y := new(big.Int).Sub(x1, x)
	y.Mul(y, l)
	y.Sub(y, y1)
	y.Mod(y, secpP)
	return x, y
}

func secpMul(k *big.Int) (*big.Int, *big.Int) {
	var x, y *big.Int
	bx, by := secpGx, secpGy
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			x, y = secpAdd(x, y, bx, by)
		}
		bx, by = secpAdd(bx, by, bx, by)
	}
	if x == nil {
		return new(big.Int), new(big.Int)
	}
	return x, y
}

// ---- formatting. Symbolic operands become tokens that refer to the value.

type fmtToken string

func (t fmtToken) Format(f fmt.State, c rune) {
	if p, ok := f.Precision(); ok && c == 'f' {
		fmt.Fprintf(f, "%s.%d\x02", strings.TrimSuffix(string(t), "\x02"), p)
		return
	}
	f.Write([]byte(t))
}

var fixedToken = regexp.MustCompile("^\x01#(\\d+)#\\.(\\d+)\x02$")

// parseFixed gives the digits of a number printed with the given count of decimals. A quotient by
// a constant is within its rounding error of the exact one.
func (it *Interp) parseFixed(s string, decimals int) (Value, bool) {
	m := fixedToken.FindStringSubmatch(s)
	if m == nil {
		i := strings.IndexByte(s, '.')
		if i < 0 || len(s)-i-1 != decimals {
			return I(0), false
		}
		n, ok := new(big.Int).SetString(s[:i]+s[i+1:], 10)
		if !ok {
			return I(0), false
		}
		return bigToI(n), true
	}
	id, _ := strconv.Atoi(m[1])
	if m[2] != strconv.Itoa(decimals) || id >= len(it.fmtVals) {
		return I(0), false
	}
	f, ok := it.fmtVals[id].(*SymF)
	if !ok {
		unsup("fixed point text of %T", it.fmtVals[id])
	}
	ts := it.ts
	num := ts.Scale(f.num, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(decimals)), nil))
	den := new(big.Int).Set(pow2[f.k])
	err := new(big.Int) // in units of 1/den
	if f.den != nil {
		if !f.den.num.isConst() {
			unsup("fixed point text of a quotient of symbols")
		}
		num = ts.Scale(num, pow2[f.den.k])
		den.Mul(den, f.den.num.k)
		err.Rsh(maxB(num.hi, new(big.Int).Neg(num.lo)), uint(fprec(f.rb)))
		err.Add(err, b1)
	}
	// reduce
	g := new(big.Int).Set(den)
	l := num.lin()
	for _, c := range append([]*big.Int{l.k}, l.coefs...) {
		if c.Sign() != 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
	}
	nl := lin{k: new(big.Int).Quo(l.k, g), atoms: l.atoms}
	for _, c := range l.coefs {
		nl.coefs = append(nl.coefs, new(big.Int).Quo(c, g))
	}
	n, d := ts.mkLin(nl), new(big.Int).Quo(den, g)
	if d.Cmp(b1) == 0 && new(big.Int).Lsh(err, 1).Cmp(den) < 0 {
		return it.val(n), true
	}
	// any number within the error and half a digit
	r := it.hidden("fixed", bz, new(big.Int).Sub(pow2[64], b1))
	p := pow2[53]
	rel := ts.Const(bz)
	if f.den != nil {
		if num.lo.Sign() < 0 {
			unsup("fixed point text of a negative quotient")
		}
		p = pow2[fprec(f.rb)]
		rel = ts.Scale(num, b2)
	}
	diff := ts.Scale(ts.Sub(ts.Scale(r, den), num), new(big.Int).Lsh(p, 1))
	slack := ts.Add(rel, ts.Const(new(big.Int).Mul(den, p)))
	it.symAssume(ts.And(ts.Le(diff, slack), ts.Le(ts.Scale(diff, big.NewInt(-1)), slack)))
	return r, true
}

func (it *Interp) token(v Value) string {
	it.fmtVals = append(it.fmtVals, v)
	return fmt.Sprintf("\x01#%d#\x02", len(it.fmtVals)-1)
}

// hexToken is a token as long as the hex text of the bytes, unless that is too short.
func (it *Interp) hexToken(b []Value) string {
	t := it.token(Slice(b))
	if n := 2*len(b) - len(t); n > 0 {
		t = t[:len(t)-1] + strings.Repeat("0", n) + t[len(t)-1:]
	}
	return t
}

var anyToken = regexp.MustCompile("^\x01#(\\d+)#0*\x02")

func tokenID(s string) (int, bool) {
	m := anyToken.FindStringSubmatch(s)
	if m == nil || len(m[0]) != len(s) {
		return 0, false
	}
	id, err := strconv.Atoi(m[1])
	return id, err == nil
}

func (it *Interp) sprintf(format string, args Slice) string {
	return fmt.Sprintf(format, it.fmtArgs(args)...)
}

func (it *Interp) fmtArgs(args Slice) []any {
	fr := it.fr
	out := make([]any, len(args))
	for i, a := range args {
		out[i] = it.fmtArg(fr, a)
	}
	return out
}

func (it *Interp) fmtArg(fr *frame, a Value) any {
	f, ok := a.(Iface)
	if !ok {
		return fmtToken(it.token(a))
	}
	if f.T == nil {
		return nil
	}
	// the text of symbolic bytes is not looked at
	switch v := f.V.(type) {
	case Slice:
		if sl, ok := f.T.Underlying().(*types.Slice); ok && kindOf(sl.Elem()) == byteKind {
			if _, ok := tryBytes(v); !ok {
				return fmtToken(it.hexToken(v))
			}
		}
	case Array:
		if sl, ok := f.T.Underlying().(*types.Array); ok && kindOf(sl.Elem()) == byteKind {
			if _, ok := tryBytes(v); !ok {
				return fmtToken(it.hexToken(v))
			}
		}
	}
	for _, m := range []string{"Error", "String"} {
		if fn := it.method(f.T, m); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 &&
			kindOf(fn.Signature.Results().At(0).Type()).cls == kString {
			if p, ok := f.V.(Ptr); ok && p == nil {
				return "<nil>"
			}
			r := it.fmtCall(fr, fn, copyVal(f.V))
			if s, ok := r.(string); ok {
				return fmtStr(s)
			}
			return fmtToken(it.token(r))
		}
	}
	k := kindOf(f.T)
	switch v := f.V.(type) {
	case I:
		if k.signed {
			return int64(v)
		}
		if k.bits == 8 {
			return uint8(v)
		}
		return uint64(v)
	case string:
		return v
	case bool:
		return v
	case float64:
		if k.bits == 32 {
			return float32(v)
		}
		return v
	case Slice:
		if sl, ok := f.T.Underlying().(*types.Slice); ok && kindOf(sl.Elem()) == byteKind {
			if b, ok := tryBytes(v); ok {
				return b
			}
		}
	case Array:
		if sl, ok := f.T.Underlying().(*types.Array); ok && kindOf(sl.Elem()) == byteKind {
			if b, ok := tryBytes(v); ok {
				return b
			}
		}
	}
	return fmtToken(it.token(f.V))
}

// fmtCall calls a String or Error method; like the fmt package it survives a panic in it.
func (it *Interp) fmtCall(fr *frame, fn *ssa.Function, recv Value) (r Value) {
	depth := it.depth
	defer func() {
		if x := recover(); x != nil {
			tp, ok := x.(targetPanic)
			if !ok {
				panic(x)
			}
			it.depth = depth
			it.fr = fr
			r = "%!v(PANIC=" + fn.Name() + " method: " + tp.msg + ")"
		}
	}()
	return it.callFn(fr, fn, []Value{recv}, nil)
}

// fmtStr is text produced by a String or Error method; %x and %q of it are not distinguished.
type fmtStr string
