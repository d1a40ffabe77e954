package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// term views a value of integer kind as a term.
func (it *Interp) term(v Value, k kind) *Term {
	switch v := v.(type) {
	case I:
		return it.ts.Const(iBig(v, k))
	case *Term:
		return v
	case Poison:
		unsup("poison: %s", v.why)
	}
	panic(unsupported{fmt.Sprintf("integer term of %T", v)})
}

func (it *Interp) bterm(v Value) *Term {
	switch v := v.(type) {
	case bool:
		if v {
			return it.ts.True
		}
		return it.ts.False
	case *Term:
		return v
	case Poison:
		unsup("poison: %s", v.why)
	}
	panic(unsupported{fmt.Sprintf("bool term of %T", v)})
}

// val turns a constant term back into a concrete value.
func (it *Interp) val(t *Term) Value {
	switch t.op {
	case OConst:
		return bigToI(t.k)
	case BTrue:
		return true
	case BFalse:
		return false
	}
	return t
}

// truth makes a branch decision on a boolean value.
func (it *Interp) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return it.decide(v)
	case Poison:
		unsup("poison: %s", v.why)
	}
	panic(unsupported{fmt.Sprintf("truth of %T", v)})
}

// wrap applies machine wraparound to a mathematical result.
func (it *Interp) wrap(t *Term, k kind) *Term {
	ts := it.ts
	if t.isConst() {
		m := new(big.Int).And(t.k, new(big.Int).Sub(pow2[k.bits], b1))
		if k.signed && m.Bit(k.bits-1) == 1 {
			m.Sub(m, pow2[k.bits])
		}
		return ts.Const(m)
	}
	if k.signed {
		half := pow2[k.bits-1]
		lo := new(big.Int).Neg(half)
		if t.lo.Cmp(lo) >= 0 && t.hi.Cmp(half) < 0 {
			return t
		}
		u := it.wrap(ts.AddK(t, half), kind{kInt, k.bits, false})
		return ts.AddK(u, lo)
	}
	m := pow2[k.bits]
	if t.lo.Sign() >= 0 && t.hi.Cmp(m) < 0 {
		return t
	}
	if t.lo.Cmp(new(big.Int).Neg(m)) >= 0 && t.hi.Cmp(m) < 0 {
		r := ts.Ite(ts.Le0(ts.AddK(t, b1)), ts.AddK(t, m), t)
		return it.bounded(r, k)
	}
	if t.lo.Sign() >= 0 && t.hi.Cmp(new(big.Int).Lsh(m, 1)) < 0 {
		r := ts.Ite(ts.Le(ts.Const(m), t), ts.AddK(t, new(big.Int).Neg(m)), t)
		return it.bounded(r, k)
	}
	return ts.ModK(t, m)
}

// bounded narrows an ite produced by wrap to the kind's range.
func (it *Interp) bounded(t *Term, k kind) *Term {
	if t.op == OIte {
		lo, hi := bz, new(big.Int).Sub(pow2[k.bits], b1)
		if t.lo.Cmp(lo) < 0 || t.hi.Cmp(hi) > 0 {
			nlo, nhi := maxB(t.lo, lo), minB(t.hi, hi)
			c := it.ts.intern(fmt.Sprintf("B%d|%d", t.id, k.bits), func() *Term {
				c := *t
				c.lo, c.hi = nlo, nhi
				return &c
			})
			return c
		}
	}
	return t
}

func b2v(b bool) Value { return b }

func (it *Interp) binop(op token.Token, t types.Type, yt types.Type, x, y Value) Value {
	if p, ok := x.(Poison); ok {
		unsup("poison: %s", p.why)
	}
	if p, ok := y.(Poison); ok {
		unsup("poison: %s", p.why)
	}
	switch op {
	case token.EQL:
		return it.equal(x, y, t)
	case token.NEQ:
		return it.not(it.equal(x, y, t))
	}
	k := kindOf(t)
	switch k.cls {
	case kInt:
		return it.intop(op, k, kindOf(yt), x, y)
	case kFloat:
		return it.floatop(op, k, x, y)
	case kString:
		return it.strop(op, x, y)
	case kBool:
		xb, yb := it.bterm(x), it.bterm(y)
		switch op {
		case token.AND, token.LAND:
			return it.val(it.ts.And(xb, yb))
		case token.OR, token.LOR:
			return it.val(it.ts.Or(xb, yb))
		}
	}
	unsup("binop %s on %s", op, t)
	return nil
}

func (it *Interp) not(v Value) Value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return it.val(it.ts.Not(it.bterm(v)))
}

func (it *Interp) intop(op token.Token, k, yk kind, x, y Value) Value {
	xi, xc := x.(I)
	yi, yc := y.(I)
	if xc && yc {
		a, b := int64(xi), int64(yi)
		switch op {
		case token.ADD:
			return norm(a+b, k)
		case token.SUB:
			return norm(a-b, k)
		case token.MUL:
			return norm(a*b, k)
		case token.QUO:
			if b == 0 {
				it.rtPanic("integer divide by zero")
			}
			if k.signed {
				if b == -1 {
					return norm(-a, k)
				}
				return norm(a/b, k)
			}
			return norm(int64(uint64(a)/uint64(b)), k)
		case token.REM:
			if b == 0 {
				it.rtPanic("integer divide by zero")
			}
			if k.signed {
				if b == -1 {
					return I(0)
				}
				return norm(a%b, k)
			}
			return norm(int64(uint64(a)%uint64(b)), k)
		case token.AND:
			return norm(a&b, k)
		case token.OR:
			return norm(a|b, k)
		case token.XOR:
			return norm(a^b, k)
		case token.AND_NOT:
			return norm(a&^b, k)
		case token.SHL:
			if yk.signed && b < 0 {
				it.rtPanic("negative shift amount")
			}
			if uint64(b) >= 64 {
				return I(0)
			}
			return norm(a<<uint64(b), k)
		case token.SHR:
			if yk.signed && b < 0 {
				it.rtPanic("negative shift amount")
			}
			if k.signed {
				if uint64(b) >= 64 {
					b = 63
				}
				return norm(a>>uint64(b), k)
			}
			if uint64(b) >= 64 {
				return I(0)
			}
			return norm(int64(uint64(a)>>uint64(b)), k)
		}
		if k.signed || k.bits < 64 {
			switch op {
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
		switch op {
		case token.LSS:
			return uint64(a) < uint64(b)
		case token.LEQ:
			return uint64(a) <= uint64(b)
		case token.GTR:
			return uint64(a) > uint64(b)
		case token.GEQ:
			return uint64(a) >= uint64(b)
		}
		unsup("intop %s", op)
	}
	ts := it.ts
	if op == token.SHL || op == token.SHR {
		if !yc {
			n := it.concretize(it.term(y, yk), "shift")
			return it.intop(op, k, yk, x, n)
		}
		if yk.signed && yi < 0 {
			it.rtPanic("negative shift amount")
		}
		n := uint64(yi)
		xt := it.term(x, k)
		if op == token.SHL {
			if n >= uint64(k.bits) {
				return I(0)
			}
			return it.val(it.wrap(ts.Scale(xt, pow2[n]), k))
		}
		if n > 70 {
			n = 70
		}
		return it.val(ts.DivK(xt, pow2[n]))
	}
	a, b := it.term(x, k), it.term(y, k)
	switch op {
	case token.ADD:
		return it.val(it.wrap(ts.Add(a, b), k))
	case token.SUB:
		return it.val(it.wrap(ts.Sub(a, b), k))
	case token.MUL:
		return it.val(it.wrap(ts.Mul(a, b), k))
	case token.QUO, token.REM:
		if it.decide(ts.Eq0(b)) {
			it.rtPanic("integer divide by zero")
		}
		q := it.divTrunc(a, b)
		if op == token.QUO {
			return it.val(it.wrap(q, k))
		}
		return it.val(ts.Sub(a, ts.Mul(q, b)))
	case token.LSS:
		return it.val(ts.Lt(a, b))
	case token.LEQ:
		return it.val(ts.Le(a, b))
	case token.GTR:
		return it.val(ts.Lt(b, a))
	case token.GEQ:
		return it.val(ts.Le(b, a))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if k.signed {
			// two's complement view
			uk := kind{kInt, k.bits, false}
			r := it.bitop(op, it.wrap(a, uk), it.wrap(b, uk), k.bits)
			return it.val(it.wrap(r, k))
		}
		return it.val(it.bitop(op, a, b, k.bits))
	}
	unsup("intop %s", op)
	return nil
}

// divTrunc is Go's truncated division, b != 0 established.
func (it *Interp) divTrunc(a, b *Term) *Term {
	ts := it.ts
	if a.lo.Sign() < 0 {
		if it.decide(ts.Lt(a, ts.ConstI(0))) {
			return ts.Neg(it.divTrunc(it.nonneg(ts.Neg(a)), b))
		}
		a = it.nonneg(a)
	}
	if b.lo.Sign() <= 0 {
		if it.decide(ts.Lt(b, ts.ConstI(0))) {
			return ts.Neg(it.divTrunc(a, it.pos(ts.Neg(b))))
		}
		b = it.pos(b)
	}
	return ts.DivT(a, b)
}

// nonneg/pos narrow the interval of a term that the path condition shows nonnegative/positive.
func (it *Interp) nonneg(t *Term) *Term { return it.narrow(t, bz) }
func (it *Interp) pos(t *Term) *Term    { return it.narrow(t, b1) }
func (it *Interp) narrow(t *Term, lo *big.Int) *Term {
	if t.isConst() || t.op == OVar || t.lo.Cmp(lo) >= 0 {
		return t
	}
	return it.ts.intern(fmt.Sprintf("P%d|%s", t.id, lo), func() *Term {
		c := *t
		c.lo = lo
		if c.hi.Cmp(lo) < 0 {
			c.hi = lo
		}
		return &c
	})
}

// bitop on nonnegative terms below 2^bits.
func (it *Interp) bitop(op token.Token, a, b *Term, bits int) *Term {
	ts := it.ts
	switch op {
	case token.OR:
		if disjoint(a, b) || disjoint(b, a) {
			return ts.Add(a, b)
		}
		return ts.Sub(ts.Add(a, b), it.band(a, b, bits))
	case token.XOR:
		if disjoint(a, b) || disjoint(b, a) {
			return ts.Add(a, b)
		}
		return ts.Sub(ts.Add(a, b), ts.Scale(it.band(a, b, bits), b2))
	case token.AND_NOT:
		return ts.Sub(a, it.band(a, b, bits))
	}
	return it.band(a, b, bits)
}

// disjoint: a is a multiple of 2^s and 0 <= b < 2^s.
func disjoint(a, b *Term) bool {
	if b.lo.Sign() < 0 {
		return false
	}
	l := a.lin()
	s := uint(600)
	tz := func(v *big.Int) {
		if v.Sign() != 0 {
			if z := v.TrailingZeroBits(); z < s {
				s = z
			}
		}
	}
	tz(l.k)
	for _, c := range l.coefs {
		tz(c)
	}
	if s >= 600 {
		return true
	}
	return b.hi.Cmp(pow2[s]) < 0
}

func (it *Interp) band(a, b *Term, bits int) *Term {
	ts := it.ts
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		// sum over runs of ones in the mask
		res := ts.ConstI(0)
		m := b.k
		i := 0
		for i < m.BitLen() {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < m.BitLen() && m.Bit(j) == 1 {
				j++
			}
			// bits [i,j)
			part := ts.Scale(ts.ModK(ts.DivK(a, pow2[i]), pow2[j-i]), pow2[i])
			res = ts.Add(res, part)
			i = j
		}
		hi := minB(a.hi, m)
		return ts.tighten(res, bz, hi)
	}
	n := bits
	if l := maxB(a.hi, bz).BitLen(); l < n {
		n = l
	}
	if l := maxB(b.hi, bz).BitLen(); l < n {
		n = l
	}
	res := ts.ConstI(0)
	for i := 0; i < n; i++ {
		x := ts.ModK(ts.DivK(a, pow2[i]), b2)
		y := ts.ModK(ts.DivK(b, pow2[i]), b2)
		both := ts.And(ts.Le(ts.ConstI(1), x), ts.Le(ts.ConstI(1), y))
		res = ts.Add(res, ts.Scale(ts.Ite(both, ts.ConstI(1), ts.ConstI(0)), pow2[i]))
	}
	return ts.tighten(res, bz, minB(a.hi, b.hi))
}

func (it *Interp) strop(op token.Token, x, y Value) Value {
	xs, xc := x.(string)
	ys, yc := y.(string)
	if xc && yc {
		switch op {
		case token.ADD:
			return xs + ys
		case token.LSS:
			return xs < ys
		case token.LEQ:
			return xs <= ys
		case token.GTR:
			return xs > ys
		case token.GEQ:
			return xs >= ys
		}
	}
	if op == token.ADD {
		return bytesToStr(append(append([]Value{}, strBytes(x)...), strBytes(y)...))
	}
	c := it.cmpBytes(strBytes(x), strBytes(y))
	switch op {
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	case token.GEQ:
		return c >= 0
	}
	unsup("strop %s", op)
	return nil
}

var byteKind = kind{kInt, 8, false}

// cmpBytes compares byte sequences, branching where needed.
func (it *Interp) cmpBytes(a, b []Value) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		x, y := it.term(a[i], byteKind), it.term(b[i], byteKind)
		if x == y {
			continue
		}
		if it.decide(it.ts.Eq(x, y)) {
			continue
		}
		if it.decide(it.ts.Lt(x, y)) {
			return -1
		}
		return 1
	}
	return len(a) - len(b)
}

func (it *Interp) eqBytes(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	var cs []*Term
	for i := range a {
		x, xc := a[i].(I)
		y, yc := b[i].(I)
		if xc && yc {
			if x != y {
				return false
			}
			continue
		}
		c := it.ts.Eq(it.term(a[i], byteKind), it.term(b[i], byteKind))
		if c == it.ts.False {
			return false
		}
		if c != it.ts.True {
			cs = append(cs, c)
		}
	}
	if len(cs) == 0 {
		return true
	}
	return it.val(it.ts.And(cs...))
}

// equal compares two values of static type t, returning bool or a boolean term.
func (it *Interp) equal(x, y Value, t types.Type) Value {
	if p, ok := x.(Poison); ok {
		unsup("poison: %s", p.why)
	}
	if p, ok := y.(Poison); ok {
		unsup("poison: %s", p.why)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := kindOf(u)
		switch k.cls {
		case kInt:
			xi, xc := x.(I)
			yi, yc := y.(I)
			if xc && yc {
				return xi == yi
			}
			return it.val(it.ts.Eq(it.term(x, k), it.term(y, k)))
		case kBool:
			xb, xc := x.(bool)
			yb, yc := y.(bool)
			if xc && yc {
				return xb == yb
			}
			a, b := it.bterm(x), it.bterm(y)
			return it.val(it.ts.Or(it.ts.And(a, b), it.ts.And(it.ts.Not(a), it.ts.Not(b))))
		case kString:
			xs, xc := x.(string)
			ys, yc := y.(string)
			if xc && yc {
				return xs == ys
			}
			return it.eqBytes(strBytes(x), strBytes(y))
		case kFloat:
			return it.floatop(token.EQL, k, x, y)
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return ptrEq(x, y)
		}
	case *types.Pointer:
		return ptrEq(x, y)
	case *types.Chan:
		return x.(*Chan) == y.(*Chan)
	case *types.Map:
		return x.(*Map) == y.(*Map)
	case *types.Slice:
		// only against nil
		return x.(Slice) == nil && y.(Slice) == nil
	case *types.Signature:
		return isNilFn(x) && isNilFn(y)
	case *types.Interface:
		return it.ifaceEq(x, y)
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		var cs []*Term
		for i := range a {
			if u.Field(i).Name() == "_" {
				continue
			}
			r := it.equal(a[i], b[i], u.Field(i).Type())
			if r == false {
				return false
			}
			cs = append(cs, it.bterm(r))
		}
		return it.val(it.ts.And(cs...))
	case *types.Array:
		a, b := x.(Array), y.(Array)
		if kk := kindOf(u.Elem()); kk.cls == kInt && kk.bits == 8 {
			return it.eqBytes(a, b)
		}
		var cs []*Term
		for i := range a {
			r := it.equal(a[i], b[i], u.Elem())
			if r == false {
				return false
			}
			cs = append(cs, it.bterm(r))
		}
		return it.val(it.ts.And(cs...))
	}
	unsup("equal on %s", t)
	return nil
}

func (it *Interp) ifaceEq(x, y Value) Value {
	a, ok1 := x.(Iface)
	b, ok2 := y.(Iface)
	if !ok1 || !ok2 {
		unsup("interface comparison of %T and %T", x, y)
	}
	if a.T == nil || b.T == nil {
		return a.T == nil && b.T == nil
	}
	if !types.Identical(a.T, b.T) {
		return false
	}
	return it.equal(a.V, b.V, a.T)
}

func isNilFn(v Value) bool {
	switch v := v.(type) {
	case *ssa.Function:
		return v == nil
	case *Closure:
		return v == nil
	case *NativeFn:
		return v == nil
	}
	return v == nil
}

func ptrEq(x, y Value) Value {
	a, ok1 := x.(Ptr)
	b, ok2 := y.(Ptr)
	if ok1 && ok2 {
		return a == b
	}
	unsup("pointer comparison of %T and %T", x, y)
	return nil
}

// ---- conversions

func (it *Interp) convert(v Value, from, to types.Type) Value {
	if p, ok := v.(Poison); ok {
		unsup("poison: %s", p.why)
	}
	fk, tk := kindOf(from), kindOf(to)
	switch {
	case fk.cls == kInt && tk.cls == kInt:
		if i, ok := v.(I); ok {
			return norm(int64(i), tk)
		}
		return it.val(it.wrap(it.term(v, fk), tk))
	case fk.cls == kInt && tk.cls == kFloat:
		if i, ok := v.(I); ok {
			var f float64
			if tk.bits == 32 {
				if fk.signed {
					f = float64(float32(int64(i)))
				} else {
					f = float64(float32(uint64(i)))
				}
			} else if fk.signed {
				f = float64(int64(i))
			} else {
				f = float64(uint64(i))
			}
			return f
		}
		return it.fround(&SymF{num: it.term(v, fk)}, tk.bits)
	case fk.cls == kFloat && tk.cls == kFloat:
		if f, ok := v.(float64); ok {
			if tk.bits == 32 {
				return float64(float32(f))
			}
			return f
		}
		return it.fround(v.(*SymF), tk.bits)
	case fk.cls == kFloat && tk.cls == kInt:
		if f, ok := v.(float64); ok {
			if tk.signed {
				return norm(int64(f), tk)
			}
			if tk.bits == 64 {
				return I(int64(uint64(f)))
			}
			return norm(int64(f), tk)
		}
		return it.ftoi(v.(*SymF), tk)
	case fk.cls == kString && tk.cls == kString:
		return v
	case fk.cls == kInt && tk.cls == kString:
		if i, ok := v.(I); ok {
			return string(rune(i))
		}
	case fk.cls == kBool && tk.cls == kBool:
		return v
	case fk.cls == kString:
		if s, ok := to.Underlying().(*types.Slice); ok {
			ek := kindOf(s.Elem())
			if ek.bits == 8 {
				b := strBytes(v)
				r := make(Slice, len(b))
				copy(r, b)
				return r
			}
			if ek.bits == 32 {
				if str, ok := v.(string); ok {
					r := Slice{}
					for _, c := range str {
						r = append(r, I(c))
					}
					return r
				}
			}
		}
	case tk.cls == kString:
		if s, ok := from.Underlying().(*types.Slice); ok {
			ek := kindOf(s.Elem())
			if ek.bits == 8 {
				return bytesToStr(v.(Slice))
			}
			if ek.bits == 32 {
				var rs []rune
				for _, x := range v.(Slice) {
					i, ok := x.(I)
					if !ok {
						unsup("symbolic rune to string")
					}
					rs = append(rs, rune(i))
				}
				return string(rs)
			}
		}
	}
	// pointer / unsafe.Pointer conversions
	switch to.Underlying().(type) {
	case *types.Pointer:
		return v
	case *types.Basic:
		if to.Underlying().(*types.Basic).Kind() == types.UnsafePointer {
			return v
		}
	case *types.Slice:
		return v
	}
	unsup("convert %s to %s", from, to)
	return nil
}

// ---- symbolic floating point
//
// A SymF is the exact dyadic rational num / 2^k (num an integer term). When den is set the value
// is the IEEE rounding (to bits precision) of the quotient of two exact dyadics; it can only be
// compared with constants.

type SymF struct {
	num *Term
	k   int
	den *SymF
	rb  int // precision the quotient is rounded to
}

func fprec(bits int) int {
	if bits == 32 {
		return 24
	}
	return 53
}

// fexact converts a finite float into dyadic form.
func (it *Interp) fexact(f float64) *SymF {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		unsup("non-finite float with symbolic operand")
	}
	if f == 0 {
		return &SymF{num: it.ts.ConstI(0)}
	}
	m, e := math.Frexp(f) // f = m * 2^e
	n := int64(math.Ldexp(m, 53))
	k := 53 - e
	for n%2 == 0 && k > 0 {
		n /= 2
		k--
	}
	b := big.NewInt(n)
	if k < 0 {
		b.Lsh(b, uint(-k))
		k = 0
	}
	return &SymF{num: it.ts.Const(b), k: k}
}

func (it *Interp) symf(v Value) *SymF {
	switch v := v.(type) {
	case float64:
		return it.fexact(v)
	case *SymF:
		return v
	}
	panic(unsupported{fmt.Sprintf("float of %T", v)})
}

func (it *Interp) fval(s *SymF) Value {
	if s.den == nil && s.num.isConst() {
		f := new(big.Float).SetInt(s.num.k)
		f.SetMantExp(f, -s.k)
		r, _ := f.Float64()
		return r
	}
	return s
}

func (it *Interp) align(a, b *SymF) (*Term, *Term, int) {
	k := a.k
	if b.k > k {
		k = b.k
	}
	return it.ts.Scale(a.num, pow2[k-a.k]), it.ts.Scale(b.num, pow2[k-b.k]), k
}

// fround rounds an exact dyadic to the given precision (round to nearest even).
func (it *Interp) fround(s *SymF, bits int) Value {
	if s.den != nil {
		if s.rb == bits {
			return s
		}
		unsup("re-rounding of a symbolic quotient")
	}
	ts := it.ts
	p := fprec(bits)
	// strip common powers of two
	l := s.num.lin()
	tz := uint(600)
	for _, c := range append([]*big.Int{l.k}, l.coefs...) {
		if c.Sign() != 0 {
			if z := c.TrailingZeroBits(); z < tz {
				tz = z
			}
		}
	}
	if s.num.isConst() {
		return it.fval(it.roundConst(s, p))
	}
	num, k := s.num, s.k
	if tz > 0 && tz < 600 {
		sh := pow2[tz]
		nl := lin{k: new(big.Int).Quo(l.k, sh), atoms: l.atoms}
		for _, c := range l.coefs {
			nl.coefs = append(nl.coefs, new(big.Int).Quo(c, sh))
		}
		t := ts.mkLin(nl)
		t = ts.tighten(t, floorDiv(s.num.lo, sh), floorDiv(s.num.hi, sh))
		num, k = t, k-int(tz)
	}
	fix := func(n *Term, k int) Value {
		if k < 0 {
			n = ts.Scale(n, pow2[-k])
			k = 0
		}
		return it.fval(&SymF{num: n, k: k})
	}
	hb := num.hi.BitLen()
	if lb := num.lo.BitLen(); num.lo.Sign() < 0 && lb > hb {
		hb = lb
	}
	if hb <= p {
		return fix(num, k)
	}
	if num.lo.Sign() < 0 {
		if it.decide(ts.Lt(num, ts.ConstI(0))) {
			r := it.symf(it.fround(&SymF{num: it.nonneg(ts.Neg(num)), k: k}, bits))
			return fix(ts.Neg(r.num), r.k)
		}
		num = it.nonneg(num)
	}
	// nonnegative, may need rounding; one case per bit length
	res := num // bit length <= p: exact
	nlo := maxB(num.lo, bz)
	lowL := nlo.BitLen()
	if lowL < p+1 {
		lowL = p + 1
	}
	first := true
	for L := lowL; L <= hb; L++ {
		sft := uint(L - p)
		q := ts.DivK(num, pow2[sft])
		rem := ts.ModK(num, pow2[sft])
		half := ts.Const(pow2[sft-1])
		odd := ts.Eq(ts.ModK(q, b2), ts.ConstI(1))
		up := ts.Or(ts.Lt(half, rem), ts.And(ts.Eq(half, rem), odd))
		r := ts.Scale(ts.Add(q, ts.Ite(up, ts.ConstI(1), ts.ConstI(0))), pow2[sft])
		if first && nlo.BitLen() > p {
			res = r
		} else {
			res = ts.Ite(ts.Le(ts.Const(pow2[L-1]), num), r, res)
		}
		first = false
	}
	return fix(res, k)
}

func (it *Interp) roundConst(s *SymF, p int) *SymF {
	f := new(big.Float).SetPrec(uint(p)).SetMode(big.ToNearestEven)
	f.SetInt(s.num.k) // rounds to p bits
	i, _ := f.Int(nil)
	return &SymF{num: it.ts.Const(i), k: s.k}
}

func (it *Interp) floatop(op token.Token, k kind, x, y Value) Value {
	xf, xc := x.(float64)
	yf, yc := y.(float64)
	if xc && yc {
		var r float64
		switch op {
		case token.ADD:
			r = xf + yf
		case token.SUB:
			r = xf - yf
		case token.MUL:
			r = xf * yf
		case token.QUO:
			r = xf / yf
		case token.EQL:
			return xf == yf
		case token.LSS:
			return xf < yf
		case token.LEQ:
			return xf <= yf
		case token.GTR:
			return xf > yf
		case token.GEQ:
			return xf >= yf
		default:
			unsup("floatop %s", op)
		}
		if k.bits == 32 {
			r = float64(float32(r))
		}
		return r
	}
	ts := it.ts
	// comparison against infinities
	for i, v := range []Value{x, y} {
		if f, ok := v.(float64); ok && math.IsInf(f, 0) {
			lt := (f > 0) == (i == 1)
			switch op {
			case token.EQL:
				return false
			case token.LSS, token.LEQ:
				return lt
			case token.GTR, token.GEQ:
				return !lt
			}
		}
	}
	a, b := it.symf(x), it.symf(y)
	if a.den != nil || b.den != nil {
		return it.quotCompare(op, a, b)
	}
	switch op {
	case token.ADD, token.SUB:
		p, q, kk := it.align(a, b)
		if op == token.ADD {
			return it.fround(&SymF{num: ts.Add(p, q), k: kk}, k.bits)
		}
		return it.fround(&SymF{num: ts.Sub(p, q), k: kk}, k.bits)
	case token.MUL:
		return it.fround(&SymF{num: ts.Mul(a.num, b.num), k: a.k + b.k}, k.bits)
	case token.QUO:
		if b.num.isConst() && b.num.k.Sign() > 0 {
			// power of two divisor is exact
			if n := b.num.k; n.TrailingZeroBits() == uint(n.BitLen()-1) {
				e := n.BitLen() - 1
				nk := a.k + e - b.k
				num := a.num
				if nk < 0 {
					num = ts.Scale(num, pow2[-nk])
					nk = 0
				}
				return it.fround(&SymF{num: num, k: nk}, k.bits)
			}
		}
		if it.decide(ts.Eq0(b.num)) {
			// x/0: NaN when x is zero too, otherwise an infinity
			if it.decide(ts.Eq0(a.num)) {
				return math.NaN()
			}
			if it.decide(ts.Lt(a.num, ts.ConstI(0))) {
				return math.Inf(-1)
			}
			return math.Inf(1)
		}
		if b.num.lo.Sign() <= 0 {
			if it.decide(ts.Lt(b.num, ts.ConstI(0))) {
				a = &SymF{num: ts.Neg(a.num), k: a.k}
				b = &SymF{num: it.pos(ts.Neg(b.num)), k: b.k}
			} else {
				b = &SymF{num: it.pos(b.num), k: b.k}
			}
		}
		return &SymF{num: a.num, k: a.k, den: b, rb: k.bits}
	}
	p, q, _ := it.align(a, b)
	switch op {
	case token.EQL:
		return it.val(ts.Eq(p, q))
	case token.LSS:
		return it.val(ts.Lt(p, q))
	case token.LEQ:
		return it.val(ts.Le(p, q))
	case token.GTR:
		return it.val(ts.Lt(q, p))
	case token.GEQ:
		return it.val(ts.Le(q, p))
	}
	unsup("floatop %s", op)
	return nil
}

// quotCompare compares the rounded quotient a with the constant b (or the other way round).
// round(q) < c  <=>  q lies strictly below the rounding boundary under c.
func (it *Interp) quotCompare(op token.Token, a, b *SymF) Value {
	if a.den == nil {
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL}
		return it.quotCompare(flip[op], b, a)
	}
	if b.den != nil || !b.num.isConst() {
		unsup("comparison of a symbolic quotient with a symbolic value")
	}
	c := it.fval(b).(float64)
	switch op {
	case token.LSS:
		return it.quotBelow(a, c)
	case token.GEQ:
		return it.not(it.quotBelow(a, c))
	case token.LEQ: // round(q) <= c  <=>  round(q) < next(c)
		return it.quotBelow(a, nextUp(c, a.rb))
	case token.GTR:
		return it.not(it.quotBelow(a, nextUp(c, a.rb)))
	case token.EQL:
		return it.val(it.ts.And(it.bterm(it.not(it.quotBelow(a, c))), it.bterm(it.quotBelow(a, nextUp(c, a.rb)))))
	}
	unsup("quotient %s", op)
	return nil
}

func nextUp(c float64, bits int) float64 {
	if bits == 32 {
		return float64(math.Nextafter32(float32(c), float32(math.Inf(1))))
	}
	return math.Nextafter(c, math.Inf(1))
}

// quotBelow: round_rb(num/den) < c, den > 0.
func (it *Interp) quotBelow(a *SymF, c float64) Value {
	ts := it.ts
	var pred float64
	if a.rb == 32 {
		c = float64(float32(c))
		pred = float64(math.Nextafter32(float32(c), float32(math.Inf(-1))))
	} else {
		pred = math.Nextafter(c, math.Inf(-1))
	}
	// boundary between pred and c; ties go to the even mantissa
	mid := new(big.Float).SetPrec(200).Add(big.NewFloat(pred), big.NewFloat(c))
	mid.Quo(mid, big.NewFloat(2))
	// is pred even?
	even := false
	if a.rb == 32 {
		even = math.Float32bits(float32(pred))&1 == 0
	} else {
		even = math.Float64bits(pred)&1 == 0
	}
	// mid as dyadic m/2^e
	e := 0
	m := new(big.Float).SetPrec(200).Set(mid)
	for !m.IsInt() {
		m.Mul(m, big.NewFloat(2))
		e++
	}
	mi, _ := m.Int(nil)
	// num/2^k / (den/2^kd) < mi/2^e  <=>  num*2^(kd+e) < mi*den*2^k
	l := ts.Scale(a.num, pow2[a.den.k+e])
	r := ts.Scale(ts.Scale(a.den.num, mi), pow2[a.k])
	if even {
		return it.val(ts.Le(l, r))
	}
	return it.val(ts.Lt(l, r))
}

// ftoi truncates to an integer kind. Out of range results are implementation specific in Go.
func (it *Interp) ftoi(s *SymF, k kind) Value {
	if s.den != nil {
		unsup("conversion of a symbolic quotient")
	}
	ts := it.ts
	var t *Term
	if s.num.lo.Sign() < 0 {
		if it.decide(ts.Lt(s.num, ts.ConstI(0))) {
			t = ts.Neg(ts.DivK(ts.Neg(s.num), pow2[s.k]))
		} else {
			t = ts.DivK(it.nonneg(s.num), pow2[s.k])
		}
	} else {
		t = ts.DivK(s.num, pow2[s.k])
	}
	lo, hi := bz, new(big.Int).Sub(pow2[k.bits], b1)
	if k.signed {
		lo = new(big.Int).Neg(pow2[k.bits-1])
		hi = new(big.Int).Sub(pow2[k.bits-1], b1)
	}
	in := ts.And(ts.Le(ts.Const(lo), t), ts.Le(t, ts.Const(hi)))
	if !it.decide(in) {
		unsup("float to integer conversion out of range")
	}
	return it.val(it.wrap(t, k))
}

func (it *Interp) ffloor(s *SymF, mode string) Value {
	if s.den != nil {
		unsup("rounding of a symbolic quotient")
	}
	ts := it.ts
	switch mode {
	case "floor":
		return it.fval(&SymF{num: ts.DivK(s.num, pow2[s.k])})
	case "ceil":
		return it.fval(&SymF{num: ts.Neg(ts.DivK(ts.Neg(s.num), pow2[s.k]))})
	case "trunc":
		if s.num.lo.Sign() < 0 && it.decide(ts.Lt(s.num, ts.ConstI(0))) {
			return it.ffloor(s, "ceil")
		}
		return it.ffloor(s, "floor")
	case "round": // half away from zero
		if s.num.lo.Sign() < 0 && it.decide(ts.Lt(s.num, ts.ConstI(0))) {
			unsup("round of negative symbolic float")
		}
		if s.k == 0 {
			return s
		}
		return it.fval(&SymF{num: ts.DivK(ts.AddK(s.num, pow2[s.k-1]), pow2[s.k])})
	}
	unsup("float rounding %s", mode)
	return nil
}
