package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled functions (shared by all workers)

type opnd struct {
	kind uint8 // 0 slot, 1 value, 2 global
	slot int
	v    Value
	g    *ssa.Global
}

func (o *opnd) get(fr *frame) Value {
	switch o.kind {
	case 0:
		return fr.env[o.slot]
	case 1:
		return o.v
	}
	return fr.it.globalPtr(o.g)
}

type execFn func(fr *frame)

type cphi struct {
	dst int
	in  []opnd
}

type cblock struct {
	phis  []cphi
	code  []execFn
	term  func(fr *frame) int // next block, or -1
	preds []int
}

type cfn struct {
	fn       *ssa.Function
	nslots   int
	blocks   []*cblock
	hasDefer bool
	isInit   bool
	recoverB int
	intr     intrinsic
	name     string
	phiTmp   int
	external bool
	tracked  bool // a function of the repository under test
}

type frame struct {
	it        *Interp
	caller    *frame
	f         *cfn
	env       []Value
	block     int
	prev      int
	result    Value
	defers    []func()
	panicking bool
	pval      any
	done      bool
}

type Engine struct {
	prog     *ssa.Program
	sizes    types.Sizes
	fns      sync.Map // *ssa.Function -> *cfn
	mu       sync.Mutex
	methods  sync.Map // methodKey -> *ssa.Function
	repoPfx  string
	covMu    sync.Mutex
	covered  map[string]bool
	std      map[*ssa.Package]bool
	implMu   sync.Mutex
	implMemo map[[2]types.Type]bool
	ptrTypes map[string]types.Type
	tier     string
}

type methodKey struct {
	t types.Type
	m string
}

func (e *Engine) get(fn *ssa.Function) *cfn {
	if c, ok := e.fns.Load(fn); ok {
		return c.(*cfn)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if c, ok := e.fns.Load(fn); ok {
		return c.(*cfn)
	}
	c := e.compile(fn)
	e.fns.Store(fn, c)
	return c
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (e *Engine) compile(fn *ssa.Function) *cfn {
	c := &cfn{fn: fn, name: fn.String(), recoverB: -1}
	if in, ok := intrinsics[c.name]; ok {
		c.intr = in
		return c
	}
	if o := fn.Origin(); o != nil {
		if in, ok := intrinsics[o.String()]; ok {
			c.intr = in
			return c
		}
	}
	if in := patternIntrinsic(fn, c.name); in != nil {
		c.intr = in
		return c
	}
	if fn.Blocks == nil {
		c.external = true
		return c
	}
	c.tracked = strings.HasPrefix(fnPkgPath(fn), e.repoPfx) || fnPkgPath(fn) == "verifharness/cmdtool"
	c.isInit = fn.Synthetic == "package initializer"
	slots := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		s, ok := slots[v]
		if !ok {
			s = len(slots)
			slots[v] = s
		}
		return s
	}
	for _, p := range fn.Params {
		alloc(p)
	}
	for _, p := range fn.FreeVars {
		alloc(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	op := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case *ssa.Const:
			return opnd{kind: 1, v: constVal(v)}
		case *ssa.Global:
			return opnd{kind: 2, g: v}
		case *ssa.Function:
			return opnd{kind: 1, v: v}
		case *ssa.Builtin:
			return opnd{kind: 1, v: v}
		}
		s, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %s in %s", v, fn))
		}
		return opnd{kind: 0, slot: s}
	}
	for _, b := range fn.Blocks {
		cb := &cblock{}
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				cp := cphi{dst: slots[phi]}
				for _, e := range phi.Edges {
					cp.in = append(cp.in, op(e))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			switch in := in.(type) {
			case *ssa.If:
				cond := op(in.Cond)
				t, f := b.Succs[0].Index, b.Succs[1].Index
				pos := in
				cb.term = func(fr *frame) int {
					fr.it.cur = pos
					if fr.it.truth(cond.get(fr)) {
						return t
					}
					return f
				}
			case *ssa.Jump:
				t := b.Succs[0].Index
				cb.term = func(fr *frame) int { return t }
			case *ssa.Return:
				var rs []opnd
				for _, r := range in.Results {
					rs = append(rs, op(r))
				}
				cb.term = func(fr *frame) int {
					switch len(rs) {
					case 0:
						fr.result = nil
					case 1:
						fr.result = rs[0].get(fr)
					default:
						tu := make(Tuple, len(rs))
						for i := range rs {
							tu[i] = rs[i].get(fr)
						}
						fr.result = tu
					}
					return -1
				}
			case *ssa.Panic:
				x := op(in.X)
				cb.term = func(fr *frame) int {
					v := x.get(fr)
					panic(targetPanic{v: v, msg: panicMsg(v)})
				}
			case *ssa.DebugRef:
			default:
				if _, ok := in.(*ssa.Defer); ok {
					c.hasDefer = true
				}
				if ex := e.compileInstr(c, in, slots, op); ex != nil {
					cb.code = append(cb.code, ex)
				}
			}
		}
		c.blocks = append(c.blocks, cb)
	}
	if fn.Recover != nil {
		c.recoverB = fn.Recover.Index
	}
	c.nslots = len(slots)
	return c
}

func panicMsg(v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.V.(string); ok {
			return s
		}
		if i.T != nil {
			return "panic value of type " + i.T.String()
		}
	}
	return fmt.Sprintf("panic %T", v)
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	k := kindOf(t)
	switch k.cls {
	case kInt:
		if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return norm(v, k)
		}
		v, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return I(int64(v))
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		if k.bits == 32 {
			f32, _ := constant.Float32Val(c.Value)
			f = float64(f32)
		}
		return f
	case kBool:
		return constant.BoolVal(c.Value)
	case kString:
		return constant.StringVal(c.Value)
	case kComplex:
		r, _ := constant.Float64Val(constant.Real(c.Value))
		i, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(r, i)
	}
	// constant of type parameter or interface type
	if i, ok := t.Underlying().(*types.Interface); ok {
		_ = i
		return Iface{}
	}
	return Poison{"constant of type " + t.String()}
}

func (it *Interp) rtPanic(msg string) {
	panic(targetPanic{v: Iface{T: types.Typ[types.String], V: "runtime error: " + msg}, msg: "runtime error: " + msg})
}

func (it *Interp) load(v Value) Value {
	switch p := v.(type) {
	case Ptr:
		if p == nil {
			it.rtPanic("invalid memory address or nil pointer dereference")
		}
		return copyVal(*p)
	case SymPtr:
		return it.symLoad(p)
	case Poison:
		unsup("poison: %s", p.why)
	}
	unsup("load through %T", v)
	return nil
}

func (it *Interp) symLoad(p SymPtr) Value {
	k := kindOf(p.elem)
	if k.cls == kInt && len(p.base) <= 300 {
		lo, hi := it.idxRange(p)
		res := it.term(p.base[hi], k)
		for i := hi - 1; i >= lo; i-- {
			res = it.ts.Ite(it.ts.Eq(p.idx, it.ts.ConstI(int64(i))), it.term(p.base[i], k), res)
		}
		return it.val(res)
	}
	i := it.concretize(p.idx, "index")
	return copyVal(p.base[i])
}

func (it *Interp) idxRange(p SymPtr) (int, int) {
	lo, hi := 0, len(p.base)-1
	if p.idx.lo.Sign() > 0 && p.idx.lo.IsInt64() && int(p.idx.lo.Int64()) < len(p.base) {
		lo = int(p.idx.lo.Int64())
	}
	if p.idx.hi.IsInt64() && p.idx.hi.Int64() < int64(hi) && p.idx.hi.Sign() >= 0 {
		hi = int(p.idx.hi.Int64())
	}
	return lo, hi
}

func (it *Interp) store(addr, v Value) {
	switch p := addr.(type) {
	case Ptr:
		if p == nil {
			it.rtPanic("invalid memory address or nil pointer dereference")
		}
		storeInto(p, v)
		return
	case SymPtr:
		k := kindOf(p.elem)
		if k.cls == kInt {
			t := it.term(v, k)
			for i := range p.base {
				p.base[i] = it.val(it.ts.Ite(it.ts.Eq(p.idx, it.ts.ConstI(int64(i))), t, it.term(p.base[i], k)))
			}
			return
		}
		i := it.concretize(p.idx, "index")
		storeInto(&p.base[i], v)
		return
	case Poison:
		unsup("poison: %s", p.why)
	}
	unsup("store through %T", addr)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// index checks bounds and returns a concrete index, or a term when symbolic and in range.
func (it *Interp) index(v Value, k kind, n int) (int, *Term) {
	switch x := v.(type) {
	case I:
		i := int64(x)
		if (!k.signed && k.bits == 64 && i < 0) || i < 0 || i >= int64(n) {
			it.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	case *Term:
		ts := it.ts
		in := ts.And(ts.Le(ts.ConstI(0), x), ts.Lt(x, ts.ConstI(int64(n))))
		if !it.decide(in) {
			it.rtPanic("index out of range (symbolic)")
		}
		return 0, x
	case Poison:
		unsup("poison: %s", x.why)
	}
	unsup("index %T", v)
	return 0, nil
}

func (e *Engine) compileInstr(c *cfn, instr ssa.Instruction, slots map[ssa.Value]int, op func(ssa.Value) opnd) execFn {
	dst := -1
	if v, ok := instr.(ssa.Value); ok {
		dst = slots[v]
	}
	switch in := instr.(type) {
	case *ssa.UnOp:
		x := op(in.X)
		switch in.Op {
		case token.MUL:
			return func(fr *frame) { fr.env[dst] = fr.it.load(x.get(fr)) }
		case token.NOT:
			return func(fr *frame) { fr.env[dst] = fr.it.not(x.get(fr)) }
		case token.SUB:
			k := kindOf(in.X.Type())
			return func(fr *frame) {
				switch v := x.get(fr).(type) {
				case I:
					fr.env[dst] = norm(-int64(v), k)
				case float64:
					fr.env[dst] = -v
				case *Term:
					fr.env[dst] = fr.it.val(fr.it.wrap(fr.it.ts.Neg(v), k))
				case *SymF:
					if v.den != nil {
						unsup("negated quotient")
					}
					fr.env[dst] = &SymF{num: fr.it.ts.Neg(v.num), k: v.k}
				default:
					unsup("negation of %T", v)
				}
			}
		case token.XOR:
			k := kindOf(in.X.Type())
			return func(fr *frame) {
				switch v := x.get(fr).(type) {
				case I:
					fr.env[dst] = norm(^int64(v), k)
				case *Term:
					fr.env[dst] = fr.it.val(fr.it.wrap(fr.it.ts.AddK(fr.it.ts.Neg(v), bm1), k))
				default:
					unsup("complement of %T", v)
				}
			}
		case token.ARROW:
			commaOk := in.CommaOk
			et := in.X.Type().Underlying().(*types.Chan).Elem()
			return func(fr *frame) {
				ch, _ := x.get(fr).(*Chan)
				v, ok := fr.it.recv(ch, et)
				if commaOk {
					fr.env[dst] = Tuple{v, ok}
				} else {
					fr.env[dst] = v
				}
			}
		}
	case *ssa.BinOp:
		x, y := op(in.X), op(in.Y)
		t, yt := in.X.Type(), in.Y.Type()
		// comparisons with nil constants take the type of the other side
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
			t = yt
		}
		o := in.Op
		k, yk := kindOf(t), kindOf(yt)
		if k.cls == kInt {
			return func(fr *frame) {
				fr.it.cur = in
				a, b := x.get(fr), y.get(fr)
				switch o {
				case token.EQL, token.NEQ:
					ai, ok1 := a.(I)
					bi, ok2 := b.(I)
					if ok1 && ok2 {
						fr.env[dst] = (ai == bi) == (o == token.EQL)
						return
					}
					fr.env[dst] = fr.it.binop(o, t, yt, a, b)
				default:
					fr.env[dst] = fr.it.intop(o, k, yk, a, b)
				}
			}
		}
		return func(fr *frame) {
			fr.it.cur = in
			fr.env[dst] = fr.it.binop(o, t, yt, x.get(fr), y.get(fr))
		}
	case *ssa.Alloc:
		t := deref(in.Type())
		return func(fr *frame) {
			p := new(Value)
			*p = zero(t)
			fr.env[dst] = p
		}
	case *ssa.Store:
		a, v := op(in.Addr), op(in.Val)
		return func(fr *frame) { fr.it.store(a.get(fr), v.get(fr)) }
	case *ssa.FieldAddr:
		x := op(in.X)
		f := in.Field
		return func(fr *frame) {
			switch p := x.get(fr).(type) {
			case Ptr:
				if p == nil {
					fr.it.rtPanic("invalid memory address or nil pointer dereference")
				}
				s, ok := (*p).(Struct)
				if !ok {
					if po, ok := (*p).(Poison); ok {
						unsup("poison: %s", po.why)
					}
					unsup("field address in %T", *p)
				}
				fr.env[dst] = &s[f]
			case SymPtr:
				i := fr.it.concretize(p.idx, "index")
				fr.env[dst] = &p.base[i].(Struct)[f]
			default:
				unsup("field address of %T", p)
			}
		}
	case *ssa.Field:
		x := op(in.X)
		f := in.Field
		return func(fr *frame) {
			s, ok := x.get(fr).(Struct)
			if !ok {
				unsup("field of %T", x.get(fr))
			}
			fr.env[dst] = s[f]
		}
	case *ssa.IndexAddr:
		x, i := op(in.X), op(in.Index)
		k := kindOf(in.Index.Type())
		elem := deref(in.Type())
		return func(fr *frame) {
			it := fr.it
			it.cur = in
			var base []Value
			switch b := x.get(fr).(type) {
			case Slice:
				base = b
			case Ptr:
				if b == nil {
					it.rtPanic("invalid memory address or nil pointer dereference")
				}
				a, ok := (*b).(Array)
				if !ok {
					unsup("index of %T", *b)
				}
				base = a
			default:
				unsup("index address of %T", b)
			}
			n, t := it.index(i.get(fr), k, len(base))
			if t != nil {
				fr.env[dst] = SymPtr{base: base, idx: t, elem: elem}
				return
			}
			fr.env[dst] = &base[n]
		}
	case *ssa.Index:
		x, i := op(in.X), op(in.Index)
		k := kindOf(in.Index.Type())
		elem := in.Type()
		return func(fr *frame) {
			it := fr.it
			it.cur = in
			var base []Value
			switch b := x.get(fr).(type) {
			case Array:
				base = b
			case Slice:
				base = b
			case string:
				n, t := it.index(i.get(fr), k, len(b))
				if t == nil {
					fr.env[dst] = I(b[n])
					return
				}
				fr.env[dst] = it.symLoad(SymPtr{strBytes(b), t, elem})
				return
			case SymStr:
				base = b
			default:
				unsup("index of %T", b)
			}
			n, t := it.index(i.get(fr), k, len(base))
			if t == nil {
				fr.env[dst] = base[n]
				return
			}
			fr.env[dst] = it.symLoad(SymPtr{base, t, elem})
		}
	case *ssa.Lookup:
		x, i := op(in.X), op(in.Index)
		if kindOf(in.X.Type()).cls == kString {
			k := kindOf(in.Index.Type())
			return func(fr *frame) {
				b := strBytes(x.get(fr))
				n, t := fr.it.index(i.get(fr), k, len(b))
				if t == nil {
					fr.env[dst] = b[n]
					return
				}
				fr.env[dst] = fr.it.symLoad(SymPtr{b, t, types.Typ[types.Uint8]})
			}
		}
		mt := in.X.Type().Underlying().(*types.Map)
		commaOk := in.CommaOk
		return func(fr *frame) {
			m, ok := x.get(fr).(*Map)
			if !ok {
				unsup("lookup in %T", x.get(fr))
			}
			n := fr.it.mapFind(m, i.get(fr), mt.Key())
			var v Value
			if n >= 0 {
				v = copyVal(m.vals[n])
			} else {
				v = zero(mt.Elem())
			}
			if commaOk {
				fr.env[dst] = Tuple{v, n >= 0}
			} else {
				fr.env[dst] = v
			}
		}
	case *ssa.MapUpdate:
		m, k, v := op(in.Map), op(in.Key), op(in.Value)
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			mm, _ := m.get(fr).(*Map)
			if mm == nil {
				fr.it.rtPanic("assignment to entry in nil map")
			}
			fr.it.mapSet(mm, k.get(fr), v.get(fr), kt)
		}
	case *ssa.MakeMap:
		return func(fr *frame) { fr.env[dst] = newMap() }
	case *ssa.MakeChan:
		sz := op(in.Size)
		return func(fr *frame) {
			n, _ := sz.get(fr).(I)
			fr.env[dst] = &Chan{cap: int(n)}
		}
	case *ssa.MakeSlice:
		ln, cp := op(in.Len), op(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		lk, ck := kindOf(in.Len.Type()), kindOf(in.Cap.Type())
		return func(fr *frame) {
			it := fr.it
			it.cur = in
			n := it.concInt(ln.get(fr), lk, "make len")
			m := it.concInt(cp.get(fr), ck, "make cap")
			if n < 0 || n > 1<<32 {
				it.rtPanic("makeslice: len out of range")
			}
			if m < n || m > 1<<32 {
				it.rtPanic("makeslice: cap out of range")
			}
			if m > 1<<22 {
				unsup("large allocation %d", m)
			}
			s := make(Slice, m)
			z := zero(et)
			for i := range s {
				s[i] = copyVal(z)
			}
			fr.env[dst] = s[:n]
		}
	case *ssa.Slice:
		x := op(in.X)
		var lo, hi, mx *opnd
		for i, v := range []ssa.Value{in.Low, in.High, in.Max} {
			if v != nil {
				o := op(v)
				switch i {
				case 0:
					lo = &o
				case 1:
					hi = &o
				case 2:
					mx = &o
				}
			}
		}
		kOf := func(v ssa.Value) kind {
			if v == nil {
				return kind{}
			}
			return kindOf(v.Type())
		}
		lk, hk, mk := kOf(in.Low), kOf(in.High), kOf(in.Max)
		return func(fr *frame) {
			it := fr.it
			it.cur = in
			b := x.get(fr)
			get := func(o *opnd, k kind, d int) int {
				if o == nil {
					return d
				}
				return it.concInt(o.get(fr), k, "slice bound")
			}
			switch b := b.(type) {
			case string:
				l := get(lo, lk, 0)
				h := get(hi, hk, len(b))
				if l < 0 || h < l || h > len(b) {
					it.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, len(b)))
				}
				fr.env[dst] = b[l:h]
				return
			case SymStr:
				l := get(lo, lk, 0)
				h := get(hi, hk, len(b))
				if l < 0 || h < l || h > len(b) {
					it.rtPanic("slice bounds out of range")
				}
				fr.env[dst] = bytesToStr(b[l:h])
				return
			case Slice:
				l := get(lo, lk, 0)
				h := get(hi, hk, len(b))
				m := get(mx, mk, cap(b))
				if l < 0 || h < l || m < h || m > cap(b) {
					it.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cap(b)))
				}
				fr.env[dst] = b[l:h:m]
				return
			case Ptr:
				if b == nil {
					it.rtPanic("invalid memory address or nil pointer dereference")
				}
				a, ok := (*b).(Array)
				if !ok {
					unsup("slice of %T", *b)
				}
				l := get(lo, lk, 0)
				h := get(hi, hk, len(a))
				m := get(mx, mk, len(a))
				if l < 0 || h < l || m < h || m > len(a) {
					it.rtPanic("slice bounds out of range")
				}
				fr.env[dst] = Slice(a[l:h:m])
				return
			}
			unsup("slice of %T", b)
		}
	case *ssa.Extract:
		x := op(in.Tuple)
		i := in.Index
		return func(fr *frame) {
			switch t := x.get(fr).(type) {
			case Tuple:
				fr.env[dst] = t[i]
			case Poison:
				fr.env[dst] = t
			default:
				unsup("extract from %T", t)
			}
		}
	case *ssa.ChangeType:
		x := op(in.X)
		return func(fr *frame) { fr.env[dst] = x.get(fr) }
	case *ssa.Convert:
		x := op(in.X)
		from, to := in.X.Type(), in.Type()
		return func(fr *frame) {
			fr.it.cur = in
			fr.env[dst] = fr.it.convert(x.get(fr), from, to)
		}
	case *ssa.MultiConvert:
		x := op(in.X)
		from, to := in.X.Type(), in.Type()
		return func(fr *frame) { fr.env[dst] = fr.it.convert(x.get(fr), from, to) }
	case *ssa.ChangeInterface:
		x := op(in.X)
		return func(fr *frame) { fr.env[dst] = x.get(fr) }
	case *ssa.SliceToArrayPointer:
		x := op(in.X)
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := x.get(fr).(Slice)
			if len(s) < n {
				fr.it.rtPanic("cannot convert slice to array pointer: length mismatch")
			}
			if s == nil {
				fr.env[dst] = Ptr(nil)
				return
			}
			p := new(Value)
			*p = Array(s[:n:n])
			fr.env[dst] = p
		}
	case *ssa.MakeInterface:
		x := op(in.X)
		t := in.X.Type()
		return func(fr *frame) { fr.env[dst] = Iface{T: t, V: copyVal(x.get(fr))} }
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range in.Bindings {
			bs = append(bs, op(b))
		}
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.env[dst] = &Closure{fn, env}
		}
	case *ssa.TypeAssert:
		x := op(in.X)
		at := in.AssertedType
		commaOk := in.CommaOk
		_, toIface := at.Underlying().(*types.Interface)
		return func(fr *frame) {
			v, ok := x.get(fr).(Iface)
			if !ok {
				if p, ok := x.get(fr).(Poison); ok {
					unsup("poison: %s", p.why)
				}
				unsup("type assert on %T", x.get(fr))
			}
			good := false
			var r Value
			if v.T != nil {
				if toIface {
					good = fr.it.eng.implements(v.T, at)
					r = v
				} else {
					good = types.Identical(v.T, at)
					r = v.V
				}
			}
			if commaOk {
				if !good {
					r = zero(at)
				}
				fr.env[dst] = Tuple{r, good}
				return
			}
			if !good {
				fr.it.rtPanic("interface conversion: wrong type for " + at.String())
			}
			fr.env[dst] = r
		}
	case *ssa.Call:
		call := e.compileCall(c, in.Common(), op)
		if c.isInit {
			rt := in.Type()
			return func(fr *frame) {
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(unsupported); ok {
							var p Value = Poison{"init: " + u.msg}
							if tu, ok := rt.(*types.Tuple); ok && tu.Len() != 1 {
								t := make(Tuple, tu.Len())
								for i := range t {
									t[i] = p
								}
								p = t
							}
							fr.env[dst] = p
							return
						}
						panic(r)
					}
				}()
				fr.env[dst] = call(fr)()
			}
		}
		return func(fr *frame) {
			fr.env[dst] = call(fr)()
		}
	case *ssa.Defer:
		call := e.compileCall(c, in.Common(), op)
		return func(fr *frame) {
			f := call(fr)
			fr.defers = append(fr.defers, func() { f() })
		}
	case *ssa.Go:
		call := e.compileCall(c, in.Common(), op)
		return func(fr *frame) {
			f := call(fr)
			fr.it.spawn(func() { f() })
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Send:
		ch, x := op(in.Chan), op(in.X)
		return func(fr *frame) {
			c, _ := ch.get(fr).(*Chan)
			fr.it.send(c, copyVal(x.get(fr)))
		}
	case *ssa.Select:
		return e.compileSelect(in, dst, op)
	case *ssa.Range:
		x := op(in.X)
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case *Map:
				fr.env[dst] = &mapIter{m: v}
			case string:
				fr.env[dst] = &strIter{s: v}
			case SymStr:
				fr.env[dst] = &symStrIter{s: v}
			default:
				unsup("range over %T", v)
			}
		}
	case *ssa.Next:
		x := op(in.Iter)
		tup := in.Type().(*types.Tuple)
		kt, vt := tup.At(1).Type(), tup.At(2).Type()
		return func(fr *frame) {
			switch iter := x.get(fr).(type) {
			case *mapIter:
				fr.env[dst] = iter.next(kt, vt)
			case *strIter:
				fr.env[dst] = iter.next()
			case *symStrIter:
				fr.env[dst] = iter.next(fr.it)
			default:
				unsup("next on %T", iter)
			}
		}
	}
	s := fmt.Sprintf("%T", instr)
	return func(fr *frame) { unsup("instruction %s", s) }
}

type mapIter struct {
	m *Map
	i int
}

func safeZero(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func (m *mapIter) next(kt, vt types.Type) Value {
	if m.m != nil {
		for m.i < len(m.m.keys) {
			i := m.i
			m.i++
			if m.m.live[i] {
				return Tuple{true, copyVal(m.m.keys[i]), copyVal(m.m.vals[i])}
			}
		}
	}
	return Tuple{false, safeZero(kt), safeZero(vt)}
}

type strIter struct {
	s string
	i int
}

func (m *strIter) next() Value {
	if m.i >= len(m.s) {
		return Tuple{false, I(0), I(0)}
	}
	for j, r := range m.s[m.i:] {
		_ = j
		i := m.i
		n := len(string(r))
		if r == 0xFFFD {
			n = 1
			if strings.HasPrefix(m.s[m.i:], "�") {
				n = 3
			}
		}
		m.i += n
		return Tuple{true, I(i), I(r)}
	}
	return Tuple{false, I(0), I(0)}
}

type symStrIter struct {
	s SymStr
	i int
}

func (m *symStrIter) next(it *Interp) Value {
	if m.i >= len(m.s) {
		return Tuple{false, I(0), I(0)}
	}
	b := it.term(m.s[m.i], byteKind)
	if !it.decide(it.ts.Lt(b, it.ts.ConstI(128))) {
		unsup("range over symbolic non-ASCII string")
	}
	i := m.i
	m.i++
	return Tuple{true, I(i), it.val(b)}
}

func (e *Engine) implements(t types.Type, iface types.Type) bool {
	e.implMu.Lock()
	defer e.implMu.Unlock()
	k := [2]types.Type{t, iface}
	if r, ok := e.implMemo[k]; ok {
		return r
	}
	r := types.Implements(t, iface.Underlying().(*types.Interface))
	e.implMemo[k] = r
	return r
}

// compileCall returns a function that evaluates callee and arguments and yields the thunk to run.
func (e *Engine) compileCall(c *cfn, cc *ssa.CallCommon, op func(ssa.Value) opnd) func(fr *frame) func() Value {
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, op(a))
	}
	pos := cc.Pos()
	_ = pos
	if cc.IsInvoke() {
		recv := op(cc.Value)
		m := cc.Method
		return func(fr *frame) func() Value {
			v, ok := recv.get(fr).(Iface)
			if !ok {
				if p, ok := recv.get(fr).(Poison); ok {
					unsup("poison: %s", p.why)
				}
				unsup("invoke on %T", recv.get(fr))
			}
			if v.T == nil {
				fr.it.rtPanic("invalid memory address or nil pointer dereference")
			}
			as := make([]Value, 0, len(args)+1)
			as = append(as, v.V)
			for i := range args {
				as = append(as, args[i].get(fr))
			}
			fn := e.lookup(v.T, m)
			return func() Value { return fr.it.callFn(fr, fn, as, nil) }
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var ats []types.Type
		for _, a := range cc.Args {
			ats = append(ats, a.Type())
		}
		rt := cc.Signature().Results()
		name := b.Name()
		return func(fr *frame) func() Value {
			as := make([]Value, len(args))
			for i := range args {
				as[i] = args[i].get(fr)
			}
			return func() Value { return fr.it.builtin(fr, name, as, ats, rt) }
		}
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		return func(fr *frame) func() Value {
			as := make([]Value, len(args))
			for i := range args {
				as[i] = args[i].get(fr)
			}
			return func() Value { return fr.it.callFn(fr, fn, as, nil) }
		}
	}
	f := op(cc.Value)
	return func(fr *frame) func() Value {
		fv := f.get(fr)
		as := make([]Value, len(args))
		for i := range args {
			as[i] = args[i].get(fr)
		}
		return func() Value { return fr.it.callValue(fr, fv, as) }
	}
}

func (e *Engine) lookup(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m.Id()}
	if f, ok := e.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		unsup("no method %s on %s", m.Name(), t)
	}
	e.methods.Store(k, f)
	return f
}

func (it *Interp) callValue(fr *frame, fv Value, as []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			it.rtPanic("invalid memory address or nil pointer dereference")
		}
		return it.callFn(fr, f, as, nil)
	case *Closure:
		return it.callFn(fr, f.Fn, as, f.Env)
	case *NativeFn:
		return f.f(it, as)
	case Poison:
		unsup("poison: %s", f.why)
	}
	unsup("call of %T", fv)
	return nil
}

func (it *Interp) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	c := it.eng.get(fn)
	if c.intr != nil {
		it.fr = caller
		return c.intr(it, args)
	}
	if c.external {
		unsup("external function %s", c.name)
	}
	if c.isInit && caller != nil && caller.f != nil && caller.f.isInit {
		return nil // imported packages are initialised on demand
	}
	if c.tracked && !it.cover[c] {
		it.cover[c] = true
		it.eng.covMu.Lock()
		it.eng.covered[c.name] = true
		it.eng.covMu.Unlock()
	}
	it.depth++
	if it.depth > 400 {
		it.depth = 0
		unsup("call depth in %s", c.name)
	}
	fr := &frame{it: it, caller: caller, f: c, env: make([]Value, c.nslots)}
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], env)
	if c.hasDefer {
		for !fr.done {
			fr.runDeferred()
		}
	} else {
		fr.run()
	}
	it.depth--
	return fr.result
}

func (fr *frame) run() {
	it := fr.it
	f := fr.f
	for {
		b := f.blocks[fr.block]
		if len(b.phis) > 0 {
			pi := 0
			for i, p := range b.preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.env[b.phis[0].dst] = b.phis[0].in[pi].get(fr)
			} else {
				tmp := make([]Value, len(b.phis))
				for i := range b.phis {
					tmp[i] = b.phis[i].in[pi].get(fr)
				}
				for i := range b.phis {
					fr.env[b.phis[i].dst] = tmp[i]
				}
			}
		}
		for _, ex := range b.code {
			ex(fr)
		}
		it.steps += len(b.code) + 1
		if it.steps > it.maxSteps {
			panic(pathEnd{"steps"})
		}
		n := b.term(fr)
		if n < 0 {
			fr.done = true
			return
		}
		fr.prev = fr.block
		fr.block = n
	}
}

func (fr *frame) runDeferred() {
	depth := fr.it.depth
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		fr.it.depth = depth
		fr.panicking = true
		fr.pval = tp
		fr.runDefers() // may re-panic with a new panic
		if fr.panicking {
			panic(fr.pval)
		}
		// recovered
		if fr.f.recoverB >= 0 {
			fr.prev = fr.block
			fr.block = fr.f.recoverB
		} else {
			fr.result = zero(fr.f.fn.Signature.Results())
			fr.done = true
		}
	}()
	fr.run()
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runOneDefer(d)
	}
}

func (fr *frame) runOneDefer(d func()) {
	depth := fr.it.depth
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		tp, is := r.(targetPanic)
		if !is {
			panic(r)
		}
		fr.it.depth = depth
		fr.panicking = true
		fr.pval = tp
	}()
	d()
	ok = true
}

func (it *Interp) doRecover(caller *frame) Value {
	// caller is the deferred function's frame; its caller is the panicking frame
	if caller != nil && caller.caller != nil && caller.caller.panicking {
		fr := caller.caller
		fr.panicking = false
		tp := fr.pval.(targetPanic)
		fr.pval = nil
		if i, ok := tp.v.(Iface); ok {
			return i
		}
		return Iface{T: types.Typ[types.String], V: tp.msg}
	}
	return Iface{}
}

// concInt turns an integer value into a concrete int, branching if symbolic.
func (it *Interp) concInt(v Value, k kind, what string) int {
	switch x := v.(type) {
	case I:
		if !k.signed && k.bits == 64 && x < 0 {
			return -1
		}
		return int(x)
	case *Term:
		return int(it.concretize(x, what))
	case Poison:
		unsup("poison: %s", x.why)
	}
	unsup("integer %T for %s", v, what)
	return 0
}

func (it *Interp) builtin(fr *frame, name string, args []Value, ats []types.Type, rt *types.Tuple) Value {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case string:
			return I(len(v))
		case SymStr:
			return I(len(v))
		case Slice:
			return I(len(v))
		case Array:
			return I(len(v))
		case Ptr:
			return I(deref(ats[0]).Underlying().(*types.Array).Len())
		case *Map:
			if v == nil {
				return I(0)
			}
			return I(v.n)
		case *Chan:
			if v == nil {
				return I(0)
			}
			return I(len(v.buf))
		case Poison:
			unsup("poison: %s", v.why)
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return I(cap(v))
		case Array:
			return I(len(v))
		case Ptr:
			return I(deref(ats[0]).Underlying().(*types.Array).Len())
		case *Chan:
			return I(v.cap)
		}
	case "append":
		s, ok := args[0].(Slice)
		if !ok {
			unsup("append to %T", args[0])
		}
		var add []Value
		if len(args) > 1 {
			switch v := args[1].(type) {
			case Slice:
				add = v
			case string, SymStr:
				add = strBytes(v)
			default:
				unsup("append of %T", v)
			}
		}
		et := ats[0].Underlying().(*types.Slice).Elem()
		return it.appendSlice(s, add, et)
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch v := args[1].(type) {
		case Slice:
			src = v
		case string, SymStr:
			src = strBytes(v)
		}
		n := len(src)
		if len(dst) < n {
			n = len(dst)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeInto(&dst[i], tmp[i])
		}
		return I(n)
	case "delete":
		m, _ := args[0].(*Map)
		it.mapDelete(m, args[1], ats[0].Underlying().(*types.Map).Key())
		return nil
	case "close":
		c, _ := args[0].(*Chan)
		it.closeChan(c)
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{v: args[0], msg: panicMsg(args[0])})
	case "recover":
		return it.doRecover(fr)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			o := token.LSS
			if name == "max" {
				o = token.GTR
			}
			if it.truth(it.binop(o, ats[0], ats[0], a, r)) {
				r = a
			}
		}
		return r
	case "clear":
		switch v := args[0].(type) {
		case *Map:
			*v = *newMap()
		case Slice:
			et := ats[0].Underlying().(*types.Slice).Elem()
			for i := range v {
				v[i] = zero(et)
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			it.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		return UPtr{args[0].(Slice)}
	case "StringData":
		return UPtr{strBytes(args[0])}
	case "String":
		u, ok := args[0].(UPtr)
		if !ok {
			if p, ok := args[0].(Ptr); ok && p == nil {
				return ""
			}
			unsup("unsafe.String of %T", args[0])
		}
		return bytesToStr(u.s[:it.concInt(args[1], kind{kInt, 64, true}, "unsafe.String")])
	case "Slice":
		u, ok := args[0].(UPtr)
		if !ok {
			unsup("unsafe.Slice of %T", args[0])
		}
		return Slice(u.s[:it.concInt(args[1], kind{kInt, 64, true}, "unsafe.Slice")])
	}
	unsup("builtin %s on %T", name, args[0])
	return nil
}

// size classes of the Go allocator, for faithful append growth
var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundUpSize(n int64) int64 {
	for _, s := range sizeClasses {
		if s >= n {
			return s
		}
	}
	return (n + 8191) / 8192 * 8192
}

func (it *Interp) appendSlice(s Slice, add []Value, et types.Type) Value {
	need := len(s) + len(add)
	if need == 0 && s == nil {
		return s
	}
	if need > cap(s) {
		oldCap := cap(s)
		nc := oldCap
		if need > 2*oldCap {
			nc = need
		} else if oldCap < 256 {
			nc = 2 * oldCap
		} else {
			for nc < need {
				nc += (nc + 3*256) / 4
			}
		}
		esz := it.eng.sizes.Sizeof(et)
		if esz > 0 {
			nc = int(roundUpSize(int64(nc)*esz) / esz)
		}
		ns := make(Slice, len(s), nc)
		for i := range s {
			ns[i] = copyVal(s[i])
		}
		// cells beyond the length must hold zero values
		full := ns[:nc]
		z := zero(et)
		for i := len(s); i < nc; i++ {
			full[i] = copyVal(z)
		}
		s = ns
	}
	n := len(s)
	s = s[:need]
	tmp := make([]Value, len(add))
	for i, v := range add {
		tmp[i] = copyVal(v)
	}
	for i, v := range tmp {
		storeInto(&s[n+i], v)
	}
	return s
}
