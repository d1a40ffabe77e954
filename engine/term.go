package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed per worker. Integers are mathematical integers with a static interval;
// machine wraparound is made explicit by the operations that create them.

type Op uint8

const (
	OConst Op = iota
	OVar
	OLin  // k + sum coefs[i]*args[i]
	OIte  // args: cond, then, else
	ODiv  // floor(args[0] / k), k > 0
	OMul  // args[0]*args[1]
	ODivT // floor(args[0]/args[1]), args[0] >= 0, args[1] >= 1
	BTrue
	BFalse
	BNot // only over BEq
	BAnd
	BOr
	BLe // args[0] <= 0
	BEq // args[0] == 0
)

type Term struct {
	id    int
	op    Op
	args  []*Term
	coefs []*big.Int
	k     *big.Int
	name  string
	lo    *big.Int
	hi    *big.Int
	vars  []*Term // cached set of variables
	vdone bool
	tight bool // the interval is narrower than the arguments show
	size  int
}

func (t *Term) isBool() bool { return t.op >= BTrue }

var (
	bz   = big.NewInt(0)
	b1   = big.NewInt(1)
	bm1  = big.NewInt(-1)
	b2   = big.NewInt(2)
	pow2 [600]*big.Int
)

func init() {
	for i := range pow2 {
		pow2[i] = new(big.Int).Lsh(b1, uint(i))
	}
}

type Terms struct {
	tab   map[string]*Term
	next  int
	nots  map[*Term]*Term // negations of conjunctions and disjunctions
	True  *Term
	False *Term
}

func newTerms() *Terms {
	ts := &Terms{tab: map[string]*Term{}, nots: map[*Term]*Term{}}
	ts.True = ts.intern("T", func() *Term { return &Term{op: BTrue} })
	ts.False = ts.intern("F", func() *Term { return &Term{op: BFalse} })
	return ts
}

func (ts *Terms) intern(key string, mk func() *Term) *Term {
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := mk()
	t.id = ts.next
	ts.next++
	ts.tab[key] = t
	return t
}

func (ts *Terms) Const(v *big.Int) *Term {
	return ts.intern("c"+v.Text(36), func() *Term {
		c := new(big.Int).Set(v)
		return &Term{op: OConst, k: c, lo: c, hi: c}
	})
}

func (ts *Terms) ConstI(v int64) *Term { return ts.Const(big.NewInt(v)) }

func (ts *Terms) Var(name string, lo, hi *big.Int) *Term {
	t := ts.intern("v"+name+"|"+lo.Text(36)+"|"+hi.Text(36), func() *Term {
		return &Term{op: OVar, name: name, lo: new(big.Int).Set(lo), hi: new(big.Int).Set(hi)}
	})
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

// linear view of an integer term
type lin struct {
	k     *big.Int
	atoms []*Term
	coefs []*big.Int
}

func (t *Term) lin() lin {
	switch t.op {
	case OConst:
		return lin{k: t.k}
	case OLin:
		return lin{k: t.k, atoms: t.args, coefs: t.coefs}
	}
	return lin{k: bz, atoms: []*Term{t}, coefs: []*big.Int{b1}}
}

func addLin(a, b lin, mb *big.Int) lin {
	r := lin{k: new(big.Int).Mul(b.k, mb)}
	r.k.Add(r.k, a.k)
	i, j := 0, 0
	for i < len(a.atoms) || j < len(b.atoms) {
		if j >= len(b.atoms) || (i < len(a.atoms) && a.atoms[i].id < b.atoms[j].id) {
			r.atoms = append(r.atoms, a.atoms[i])
			r.coefs = append(r.coefs, a.coefs[i])
			i++
		} else if i >= len(a.atoms) || b.atoms[j].id < a.atoms[i].id {
			r.atoms = append(r.atoms, b.atoms[j])
			r.coefs = append(r.coefs, new(big.Int).Mul(b.coefs[j], mb))
			j++
		} else {
			c := new(big.Int).Mul(b.coefs[j], mb)
			c.Add(c, a.coefs[i])
			if c.Sign() != 0 {
				r.atoms = append(r.atoms, a.atoms[i])
				r.coefs = append(r.coefs, c)
			}
			i++
			j++
		}
	}
	return r
}

func scaleLin(a lin, m *big.Int) lin {
	if m.Sign() == 0 {
		return lin{k: bz}
	}
	r := lin{k: new(big.Int).Mul(a.k, m), atoms: a.atoms}
	for _, c := range a.coefs {
		r.coefs = append(r.coefs, new(big.Int).Mul(c, m))
	}
	return r
}

func (ts *Terms) mkLin(l lin) *Term {
	if len(l.atoms) == 0 {
		return ts.Const(l.k)
	}
	if len(l.atoms) == 1 && l.k.Sign() == 0 && l.coefs[0].Cmp(b1) == 0 {
		return l.atoms[0]
	}
	var sb strings.Builder
	sb.WriteByte('L')
	sb.WriteString(l.k.Text(36))
	for i, a := range l.atoms {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte('*')
		sb.WriteString(l.coefs[i].Text(36))
	}
	return ts.intern(sb.String(), func() *Term {
		lo := new(big.Int).Set(l.k)
		hi := new(big.Int).Set(l.k)
		size := 1
		for i, a := range l.atoms {
			p := new(big.Int).Mul(l.coefs[i], a.lo)
			q := new(big.Int).Mul(l.coefs[i], a.hi)
			if l.coefs[i].Sign() < 0 {
				p, q = q, p
			}
			lo.Add(lo, p)
			hi.Add(hi, q)
			size++
		}
		return &Term{op: OLin, k: l.k, args: l.atoms, coefs: l.coefs, lo: lo, hi: hi, size: size}
	})
}

func (ts *Terms) Add(a, b *Term) *Term {
	r := ts.mkLin(addLin(a.lin(), b.lin(), b1))
	if a.tight || b.tight {
		r = ts.tighten(r, new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi))
	}
	return r
}
func (ts *Terms) Sub(a, b *Term) *Term {
	r := ts.mkLin(addLin(a.lin(), b.lin(), bm1))
	if a.tight || b.tight {
		r = ts.tighten(r, new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo))
	}
	return r
}
func (ts *Terms) Scale(a *Term, m *big.Int) *Term {
	r := ts.mkLin(scaleLin(a.lin(), m))
	if a.tight {
		lo, hi := new(big.Int).Mul(a.lo, m), new(big.Int).Mul(a.hi, m)
		if m.Sign() < 0 {
			lo, hi = hi, lo
		}
		r = ts.tighten(r, lo, hi)
	}
	return r
}
func (ts *Terms) AddK(a *Term, k *big.Int) *Term {
	l := a.lin()
	r := ts.mkLin(lin{k: new(big.Int).Add(l.k, k), atoms: l.atoms, coefs: l.coefs})
	if a.tight {
		r = ts.tighten(r, new(big.Int).Add(a.lo, k), new(big.Int).Add(a.hi, k))
	}
	return r
}
func (ts *Terms) Neg(a *Term) *Term { return ts.Scale(a, bm1) }

// tighten returns a variant of t with a narrower interval that a construction proves. It is a
// separate node so that intervals depend only on how a term was built, not on what else was built.
func (ts *Terms) tighten(t *Term, lo, hi *big.Int) *Term {
	if t.op != OLin {
		return t
	}
	nlo, nhi := maxB(t.lo, lo), minB(t.hi, hi)
	if nlo.Cmp(t.lo) == 0 && nhi.Cmp(t.hi) == 0 {
		return t
	}
	return ts.intern("N"+strconv.Itoa(t.id)+"|"+nlo.Text(36)+"|"+nhi.Text(36), func() *Term {
		c := *t
		c.lo, c.hi, c.tight = nlo, nhi, true
		return &c
	})
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean; b > 0 so floor
	return q
}

// DivK is floor division by a positive constant.
func (ts *Terms) DivK(a *Term, k *big.Int) *Term {
	if k.Cmp(b1) == 0 {
		return a
	}
	if a.isConst() {
		return ts.Const(floorDiv(a.k, k))
	}
	l := a.lin()
	// split out the part with coefficients divisible by k
	var q, r lin
	q.k = floorDiv(l.k, k)
	r.k = new(big.Int).Sub(l.k, new(big.Int).Mul(q.k, k))
	m := new(big.Int)
	for i, c := range l.coefs {
		qq := new(big.Int)
		qq.DivMod(c, k, m)
		if m.Sign() == 0 {
			q.atoms = append(q.atoms, l.atoms[i])
			q.coefs = append(q.coefs, qq)
		} else {
			r.atoms = append(r.atoms, l.atoms[i])
			r.coefs = append(r.coefs, c)
		}
	}
	if len(q.atoms) == 0 {
		// keep the constant inside, it is the same
		q.k = bz
		r.k = l.k
	}
	rt := ts.mkLin(r)
	if len(q.atoms) == 0 {
		rt = a // preserves tightened interval
	}
	var d *Term
	dlo, dhi := floorDiv(rt.lo, k), floorDiv(rt.hi, k)
	if dlo.Cmp(dhi) == 0 {
		d = ts.Const(dlo)
	} else if rt.op == ODiv {
		return ts.addT(ts.mkLin(q), ts.DivK(rt.args[0], new(big.Int).Mul(rt.k, k)))
	} else {
		// reduce by common gcd of coefficients and k
		g := new(big.Int).Set(k)
		rl := rt.lin()
		for _, c := range rl.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(b1) > 0 {
			nl := lin{k: floorDiv(rl.k, g), atoms: rl.atoms}
			for _, c := range rl.coefs {
				nl.coefs = append(nl.coefs, new(big.Int).Quo(c, g))
			}
			return ts.addT(ts.mkLin(q), ts.DivK(ts.mkLin(nl), new(big.Int).Quo(k, g)))
		}
		key := "D" + strconv.Itoa(rt.id) + "/" + k.Text(36)
		kk := new(big.Int).Set(k)
		d = ts.intern(key, func() *Term {
			return &Term{op: ODiv, args: []*Term{rt}, k: kk, lo: dlo, hi: dhi}
		})
	}
	return ts.addT(ts.mkLin(q), d)
}

func (ts *Terms) addT(a, b *Term) *Term {
	if a.isConst() && a.k.Sign() == 0 {
		return b
	}
	return ts.Add(a, b)
}

// ModK is the nonnegative remainder by a positive constant.
func (ts *Terms) ModK(a *Term, k *big.Int) *Term {
	if a.lo.Sign() >= 0 && a.hi.Cmp(k) < 0 {
		return a
	}
	d := ts.DivK(a, k)
	r := ts.mkLin(addLin(a.lin(), scaleLin(d.lin(), k), bm1))
	return ts.tighten(r, bz, new(big.Int).Sub(k, b1))
}

func (ts *Terms) Mul(a, b *Term) *Term {
	if a.isConst() {
		return ts.Scale(b, a.k)
	}
	if b.isConst() {
		return ts.Scale(a, b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	// pull out ite with constant branches: c ? k1*b : k2*b
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[0].op == OIte && p[0].args[1].isConst() && p[0].args[2].isConst() {
			return ts.Ite(p[0].args[0], ts.Scale(p[1], p[0].args[1].k), ts.Scale(p[1], p[0].args[2].k))
		}
	}
	return ts.intern("M"+strconv.Itoa(a.id)+"*"+strconv.Itoa(b.id), func() *Term {
		var lo, hi *big.Int
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
		return &Term{op: OMul, args: []*Term{a, b}, lo: lo, hi: hi}
	})
}

// DivT is floor division with a >= 0 and b >= 1 (established by the caller).
func (ts *Terms) DivT(a, b *Term) *Term {
	if b.isConst() {
		return ts.DivK(a, b.k)
	}
	return ts.intern("Q"+strconv.Itoa(a.id)+"/"+strconv.Itoa(b.id), func() *Term {
		hi := a.hi
		lo := bz
		if b.lo.Sign() > 0 {
			hi = floorDiv(a.hi, b.lo)
		}
		if a.lo.Sign() > 0 {
			lo = floorDiv(a.lo, b.hi)
		}
		return &Term{op: ODivT, args: []*Term{a, b}, lo: lo, hi: hi}
	})
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c == ts.True || a == b {
		return a
	}
	if c == ts.False {
		return b
	}
	if a.isBool() {
		return ts.Or(ts.And(c, a), ts.And(ts.Not(c), b))
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	return ts.intern("I"+strconv.Itoa(c.id)+","+strconv.Itoa(a.id)+","+strconv.Itoa(b.id), func() *Term {
		return &Term{op: OIte, args: []*Term{c, a, b}, lo: minB(a.lo, b.lo), hi: maxB(a.hi, b.hi)}
	})
}

func ceilDiv(a, b *big.Int) *big.Int { // b > 0
	return new(big.Int).Neg(floorDiv(new(big.Int).Neg(a), b))
}

// Le0 is t <= 0.
func (ts *Terms) Le0(t *Term) *Term {
	if t.hi.Sign() <= 0 {
		return ts.True
	}
	if t.lo.Sign() > 0 {
		return ts.False
	}
	l := t.lin()
	if len(l.atoms) == 1 {
		a, c := l.atoms[0], l.coefs[0]
		switch a.op {
		case OIte:
			x := ts.Le0(ts.AddK(ts.Scale(a.args[1], c), l.k))
			y := ts.Le0(ts.AddK(ts.Scale(a.args[2], c), l.k))
			if x.op == BTrue || x.op == BFalse || y.op == BTrue || y.op == BFalse {
				return ts.Ite(a.args[0], x, y)
			}
		case ODivT:
			if c.Sign() > 0 {
				m := floorDiv(new(big.Int).Neg(l.k), c) // q <= m
				if m.Sign() < 0 {
					return ts.False
				}
				// a < (m+1)*b
				return ts.Lt(a.args[0], ts.Scale(a.args[1], new(big.Int).Add(m, b1)))
			}
			cc := new(big.Int).Neg(c)
			m := ceilDiv(l.k, cc) // q >= m
			if m.Sign() <= 0 {
				return ts.True
			}
			return ts.Le(ts.Scale(a.args[1], m), a.args[0])
		case ODiv:
			if c.Sign() > 0 {
				m := floorDiv(new(big.Int).Neg(l.k), c) // q <= m  <=>  x < (m+1)*k
				return ts.Le0(ts.AddK(a.args[0], new(big.Int).Sub(b1, new(big.Int).Mul(new(big.Int).Add(m, b1), a.k))))
			}
			cc := new(big.Int).Neg(c)
			m := ceilDiv(l.k, cc) // q >= m <=> x >= m*k
			return ts.Le0(ts.AddK(ts.Neg(a.args[0]), new(big.Int).Mul(m, a.k)))
		}
	}
	g := new(big.Int)
	for _, c := range l.coefs {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Cmp(b1) > 0 {
		nl := lin{k: ceilDiv(l.k, g), atoms: l.atoms}
		for _, c := range l.coefs {
			nl.coefs = append(nl.coefs, new(big.Int).Quo(c, g))
		}
		t = ts.mkLin(nl)
		if t.hi.Sign() <= 0 {
			return ts.True
		}
		if t.lo.Sign() > 0 {
			return ts.False
		}
	}
	return ts.intern("<"+strconv.Itoa(t.id), func() *Term { return &Term{op: BLe, args: []*Term{t}} })
}

func (ts *Terms) Le(a, b *Term) *Term { return ts.Le0(ts.Sub(a, b)) }
func (ts *Terms) Lt(a, b *Term) *Term { return ts.Le0(ts.AddK(ts.Sub(a, b), b1)) }

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	// disjoint intervals (keeps tightened bounds that subtraction would lose)
	if a.hi.Cmp(b.lo) < 0 || b.hi.Cmp(a.lo) < 0 {
		return ts.False
	}
	return ts.Eq0(ts.Sub(a, b))
}

func (ts *Terms) Eq0(t *Term) *Term {
	if t.isConst() {
		if t.k.Sign() == 0 {
			return ts.True
		}
		return ts.False
	}
	if t.lo.Sign() > 0 || t.hi.Sign() < 0 {
		return ts.False
	}
	l := t.lin()
	if len(l.atoms) == 1 {
		a, c := l.atoms[0], l.coefs[0]
		if a.op == OIte {
			x := ts.Eq0(ts.AddK(ts.Scale(a.args[1], c), l.k))
			y := ts.Eq0(ts.AddK(ts.Scale(a.args[2], c), l.k))
			if x.op == BTrue || x.op == BFalse || y.op == BTrue || y.op == BFalse {
				return ts.Ite(a.args[0], x, y)
			}
		}
		if a.op == ODivT {
			return ts.And(ts.Le0(t), ts.Le0(ts.Neg(t)))
		}
	}
	g := new(big.Int)
	for _, c := range l.coefs {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	neg := l.coefs[0].Sign() < 0
	if g.Cmp(b1) > 0 || neg {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(l.k, g, m)
		if m.Sign() != 0 {
			return ts.False
		}
		if neg {
			g.Neg(g)
		}
		nl := lin{k: new(big.Int).Quo(l.k, g), atoms: l.atoms}
		for _, c := range l.coefs {
			nl.coefs = append(nl.coefs, new(big.Int).Quo(c, g))
		}
		t = ts.mkLin(nl)
		if t.lo.Sign() > 0 || t.hi.Sign() < 0 {
			return ts.False
		}
	}
	return ts.intern("="+strconv.Itoa(t.id), func() *Term { return &Term{op: BEq, args: []*Term{t}} })
}

func (ts *Terms) Not(a *Term) *Term {
	switch a.op {
	case BTrue:
		return ts.False
	case BFalse:
		return ts.True
	case BNot:
		return a.args[0]
	case BLe: // !(l <= 0)  <=>  1 - l <= 0
		return ts.Le0(ts.AddK(ts.Neg(a.args[0]), b1))
	case BAnd, BOr:
		if r, ok := ts.nots[a]; ok {
			return r
		}
		n := make([]*Term, len(a.args))
		for i, x := range a.args {
			n[i] = ts.Not(x)
		}
		var r *Term
		if a.op == BAnd {
			r = ts.Or(n...)
		} else {
			r = ts.And(n...)
		}
		ts.nots[a] = r
		return r
	}
	return ts.intern("!"+strconv.Itoa(a.id), func() *Term { return &Term{op: BNot, args: []*Term{a}} })
}

func (ts *Terms) nary(op Op, xs []*Term) *Term {
	unit, zero := ts.True, ts.False
	if op == BOr {
		unit, zero = zero, unit
	}
	set := map[*Term]bool{}
	var list []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if set[x] {
			return true
		}
		if x.op == BNot && set[x.args[0]] {
			return false
		}
		if x.op == BEq {
			if n, ok := ts.tab["!"+strconv.Itoa(x.id)]; ok && set[n] {
				return false
			}
		}
		set[x] = true
		list = append(list, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(list) == 0 {
		return unit
	}
	if len(list) == 1 {
		return list[0]
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	var sb strings.Builder
	if op == BAnd {
		sb.WriteByte('&')
	} else {
		sb.WriteByte('o')
	}
	for _, x := range list {
		sb.WriteString(strconv.Itoa(x.id))
		sb.WriteByte(',')
	}
	return ts.intern(sb.String(), func() *Term { return &Term{op: op, args: list} })
}

func (ts *Terms) And(xs ...*Term) *Term { return ts.nary(BAnd, xs) }
func (ts *Terms) Or(xs ...*Term) *Term  { return ts.nary(BOr, xs) }

// collectVars returns the variables of t (cached).
func collectVars(t *Term) []*Term {
	if t.vdone {
		return t.vars
	}
	if t.op == OVar {
		t.vars = []*Term{t}
		t.vdone = true
		return t.vars
	}
	if len(t.args) == 1 {
		t.vars = collectVars(t.args[0])
		t.vdone = true
		return t.vars
	}
	seen := map[*Term]bool{}
	var out []*Term
	for _, a := range t.args {
		for _, v := range collectVars(a) {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	t.vars = out
	t.vdone = true
	return out
}

// Model maps variable names to values.
type Model map[string]*big.Int

type evaluator struct {
	m    Model
	memo map[*Term]*big.Int // booleans as 0/1
}

func newEval(m Model) *evaluator { return &evaluator{m: m, memo: map[*Term]*big.Int{}} }

func b2i(b bool) *big.Int {
	if b {
		return b1
	}
	return bz
}

func (e *evaluator) eval(t *Term) *big.Int {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		if v, ok := e.m[t.name]; ok {
			return v
		}
		return t.lo
	case BTrue:
		return b1
	case BFalse:
		return bz
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r *big.Int
	switch t.op {
	case OLin:
		r = new(big.Int).Set(t.k)
		for i, a := range t.args {
			r.Add(r, new(big.Int).Mul(t.coefs[i], e.eval(a)))
		}
	case OIte:
		if e.eval(t.args[0]).Sign() != 0 {
			r = e.eval(t.args[1])
		} else {
			r = e.eval(t.args[2])
		}
	case ODiv:
		r = floorDiv(e.eval(t.args[0]), t.k)
	case OMul:
		r = new(big.Int).Mul(e.eval(t.args[0]), e.eval(t.args[1]))
	case ODivT:
		d := e.eval(t.args[1])
		if d.Sign() == 0 {
			r = bz
		} else {
			r = floorDiv(e.eval(t.args[0]), d)
		}
	case BNot:
		r = b2i(e.eval(t.args[0]).Sign() == 0)
	case BAnd:
		r = b1
		for _, a := range t.args {
			if e.eval(a).Sign() == 0 {
				r = bz
				break
			}
		}
	case BOr:
		r = bz
		for _, a := range t.args {
			if e.eval(a).Sign() != 0 {
				r = b1
				break
			}
		}
	case BLe:
		r = b2i(e.eval(t.args[0]).Sign() <= 0)
	case BEq:
		r = b2i(e.eval(t.args[0]).Sign() == 0)
	default:
		panic(fmt.Sprint("eval op ", t.op))
	}
	e.memo[t] = r
	return r
}

// ---- SMT-LIB rendering

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

// smtRef gives the reference to use for a term, defining it in the solver session first when it
// is compound.
type emitter struct {
	defined map[*Term]string
	out     func(string)
}

func (em *emitter) ref(t *Term) string {
	switch t.op {
	case OConst:
		return smtInt(t.k)
	case BTrue:
		return "true"
	case BFalse:
		return "false"
	}
	if s, ok := em.defined[t]; ok {
		return s
	}
	if t.op == OVar {
		s := "v" + strconv.Itoa(t.id)
		em.out("(declare-const " + s + " Int)\n")
		em.defined[t] = s
		return s
	}
	var sb strings.Builder
	sort := "Int"
	switch t.op {
	case OLin:
		parts := []string{}
		if t.k.Sign() != 0 {
			parts = append(parts, smtInt(t.k))
		}
		for i, a := range t.args {
			r := em.ref(a)
			if t.coefs[i].Cmp(b1) == 0 {
				parts = append(parts, r)
			} else {
				parts = append(parts, "(* "+smtInt(t.coefs[i])+" "+r+")")
			}
		}
		if len(parts) == 1 {
			sb.WriteString(parts[0])
		} else {
			sb.WriteString("(+ " + strings.Join(parts, " ") + ")")
		}
	case OIte:
		sb.WriteString("(ite " + em.ref(t.args[0]) + " " + em.ref(t.args[1]) + " " + em.ref(t.args[2]) + ")")
	case ODiv:
		sb.WriteString("(div " + em.ref(t.args[0]) + " " + t.k.String() + ")")
	case OMul:
		sb.WriteString("(* " + em.ref(t.args[0]) + " " + em.ref(t.args[1]) + ")")
	case ODivT:
		sb.WriteString("(div " + em.ref(t.args[0]) + " " + em.ref(t.args[1]) + ")")
	default:
		sort = "Bool"
		switch t.op {
		case BNot:
			sb.WriteString("(not " + em.ref(t.args[0]) + ")")
		case BAnd, BOr:
			if t.op == BAnd {
				sb.WriteString("(and")
			} else {
				sb.WriteString("(or")
			}
			for _, a := range t.args {
				sb.WriteString(" " + em.ref(a))
			}
			sb.WriteString(")")
		case BLe:
			sb.WriteString("(<= " + em.ref(t.args[0]) + " 0)")
		case BEq:
			sb.WriteString("(= " + em.ref(t.args[0]) + " 0)")
		}
	}
	s := "t" + strconv.Itoa(t.id)
	em.out("(define-fun " + s + " () " + sort + " " + sb.String() + ")\n")
	em.defined[t] = s
	return s
}
