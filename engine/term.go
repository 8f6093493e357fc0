package main

// Terms: hash-consed SMT expressions over Bool and bit-vectors of width 1..64.
// Floating-point values are carried as their IEEE bit patterns; FP operations
// are separate operators that convert at the SMT boundary.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat
	OExtract
	OZExt
	OSExt
	OULt
	OULe
	OSLt
	OSLe
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OFToF  // float width change, w = result width
	OFToSI // float -> signed int of width w (truncating)
	OFToUI
	OSIToF // signed int -> float of width w
	OUIToF
)

// Term is immutable and unique within its table. w==0 means Bool.
type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	v       uint64 // constant value, or extract: hi<<8|lo
	name    string
	id      int32
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	v       uint64
	name    string
}

// TB is a term table.
type TB struct {
	m     map[tkey]*Term
	n     int32
	small [65][]*Term
	True  *Term
	False *Term
}

func NewTB() *TB {
	tb := &TB{m: make(map[tkey]*Term, 1024)}
	tb.True = tb.mk(OConst, 0, nil, nil, nil, 1, "")
	tb.False = tb.mk(OConst, 0, nil, nil, nil, 0, "")
	return tb
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tb *TB) mk(op Op, w uint8, a, b, c *Term, v uint64, name string) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(c), v, name}
	if t, ok := tb.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, v: v, name: name, id: tb.n}
	tb.n++
	tb.m[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.v == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.v == 0 }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (tb *TB) Const(v uint64, w uint8) *Term {
	v &= mask(w)
	if v < 256 {
		s := tb.small[w]
		if s == nil {
			s = make([]*Term, 256)
			tb.small[w] = s
		}
		if s[v] == nil {
			s[v] = tb.mk(OConst, w, nil, nil, nil, v, "")
		}
		return s[v]
	}
	return tb.mk(OConst, w, nil, nil, nil, v, "")
}

func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

func (tb *TB) Var(name string, w uint8) *Term { return tb.mk(OVar, w, nil, nil, nil, 0, name) }

func (tb *TB) Not(a *Term) *Term {
	switch {
	case a.isConst():
		return tb.Bool(a.v == 0)
	case a.op == ONot:
		return a.a
	}
	return tb.mk(ONot, 0, a, nil, nil, 0, "")
}

func (tb *TB) And(a, b *Term) *Term {
	switch {
	case a.isFalse() || b.isFalse():
		return tb.False
	case a.isTrue():
		return b
	case b.isTrue():
		return a
	case a == b:
		return a
	case a.op == ONot && a.a == b, b.op == ONot && b.a == a:
		return tb.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OAnd, 0, a, b, nil, 0, "")
}

func (tb *TB) Or(a, b *Term) *Term {
	switch {
	case a.isTrue() || b.isTrue():
		return tb.True
	case a.isFalse():
		return b
	case b.isFalse():
		return a
	case a == b:
		return a
	case a.op == ONot && a.a == b, b.op == ONot && b.a == a:
		return tb.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OOr, 0, a, b, nil, 0, "")
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a == b {
		return tb.True
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.v == b.v)
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		// a constant, b not
		if a.w == 0 {
			if a.v == 1 {
				return b
			}
			return tb.Not(b)
		}
		switch b.op {
		case OIte:
			if b.b.isConst() && b.c.isConst() {
				bt, bf := b.b.v == a.v, b.c.v == a.v
				switch {
				case bt && bf:
					return tb.True
				case bt:
					return b.a
				case bf:
					return tb.Not(b.a)
				default:
					return tb.False
				}
			}
		case OZExt:
			if a.v > mask(b.a.w) {
				return tb.False
			}
			return tb.Eq(tb.Const(a.v, b.a.w), b.a)
		case OSExt:
			lo := a.v & mask(b.a.w)
			if uint64(sext(lo, b.a.w))&mask(b.w) != a.v {
				return tb.False
			}
			return tb.Eq(tb.Const(lo, b.a.w), b.a)
		case OConcat:
			return tb.And(tb.Eq(tb.Const(a.v>>b.b.w, b.a.w), b.a), tb.Eq(tb.Const(a.v, b.b.w), b.b))
		case OBXor:
			if b.a.isConst() {
				return tb.Eq(tb.Const(a.v^b.a.v, a.w), b.b)
			}
		case OAdd:
			if b.a.isConst() {
				return tb.Eq(tb.Const(a.v-b.a.v, a.w), b.b)
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OEq, 0, a, b, nil, 0, "")
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return tb.Not(c)
		}
		if a.isTrue() {
			return tb.Or(c, b)
		}
		if a.isFalse() {
			return tb.And(tb.Not(c), b)
		}
		if b.isTrue() {
			return tb.Or(tb.Not(c), a)
		}
		if b.isFalse() {
			return tb.And(c, a)
		}
	}
	if c.op == ONot {
		return tb.Ite(c.a, b, a)
	}
	return tb.mk(OIte, a.w, c, a, b, 0, "")
}

func foldBin(op Op, x, y uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m, true
			}
			return 1, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m, true
	case OULt:
		return b2u(x < y), true
	case OULe:
		return b2u(x <= y), true
	case OSLt:
		return b2u(sext(x, w) < sext(y, w)), true
	case OSLe:
		return b2u(sext(x, w) <= sext(y, w)), true
	}
	return 0, false
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func isCmp(op Op) bool { return op == OULt || op == OULe || op == OSLt || op == OSLe }

func (tb *TB) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %d width mismatch %d %d", op, a.w, b.w))
	}
	w := a.w
	rw := w
	if isCmp(op) {
		rw = 0
	}
	if a.isConst() && b.isConst() {
		v, ok := foldBin(op, a.v, b.v, w)
		if ok {
			if rw == 0 {
				return tb.Bool(v == 1)
			}
			return tb.Const(v, w)
		}
	}
	switch op {
	case OAdd:
		if a.isConst() && a.v == 0 {
			return b
		}
		if b.isConst() && b.v == 0 {
			return a
		}
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() && b.op == OAdd && b.a.isConst() {
			return tb.Bin(OAdd, tb.Const(a.v+b.a.v, w), b.b)
		}
	case OSub:
		if b.isConst() {
			return tb.Bin(OAdd, tb.Const(-b.v, w), a)
		}
		if a == b {
			return tb.Const(0, w)
		}
	case OMul:
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			if a.v == 0 {
				return a
			}
			if a.v == 1 {
				return b
			}
			if bits.OnesCount64(a.v) == 1 {
				return tb.Bin(OShl, b, tb.Const(uint64(bits.TrailingZeros64(a.v)), w))
			}
		}
	case OUDiv:
		if b.isConst() && bits.OnesCount64(b.v) == 1 {
			return tb.Bin(OLShr, a, tb.Const(uint64(bits.TrailingZeros64(b.v)), w))
		}
	case OURem:
		if b.isConst() && bits.OnesCount64(b.v) == 1 {
			return tb.Bin(OBAnd, a, tb.Const(b.v-1, w))
		}
	case OBAnd:
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			if a.v == 0 {
				return a
			}
			if a.v == mask(w) {
				return b
			}
			// low mask -> zext(extract)
			if a.v&(a.v+1) == 0 {
				k := uint8(bits.Len64(a.v))
				return tb.ZExt(tb.Extract(b, k-1, 0), w)
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			if a.v == 0 {
				return b
			}
			if a.v == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
		if t := tb.orConcat(a, b); t != nil {
			return t
		}
		if t := tb.orConcat(b, a); t != nil {
			return t
		}
	case OBXor:
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() && a.v == 0 {
			return b
		}
		if a == b {
			return tb.Const(0, w)
		}
	case OShl:
		if a.isConst() && a.v == 0 {
			return a
		}
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			if b.v >= uint64(w) {
				return tb.Const(0, w)
			}
			n := uint8(b.v)
			return tb.Concat(tb.Extract(a, w-1-n, 0), tb.Const(0, n))
		}
	case OLShr:
		if a.isConst() && a.v == 0 {
			return a
		}
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			if b.v >= uint64(w) {
				return tb.Const(0, w)
			}
			return tb.ZExt(tb.Extract(a, w-1, uint8(b.v)), w)
		}
	case OAShr:
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			n := b.v
			if n >= uint64(w) {
				n = uint64(w) - 1
			}
			return tb.SExt(tb.Extract(a, w-1, uint8(n)), w)
		}
	case OULt:
		if a == b {
			return tb.False
		}
		if b.isConst() && b.v == 0 {
			return tb.False
		}
		if a.isConst() && a.v == mask(w) {
			return tb.False
		}
		if a.op == OZExt && b.isConst() {
			if b.v > mask(a.a.w) {
				return tb.True
			}
			return tb.Bin(OULt, a.a, tb.Const(b.v, a.a.w))
		}
		if b.op == OZExt && a.isConst() {
			if a.v >= mask(b.a.w) {
				return tb.False
			}
			return tb.Bin(OULt, tb.Const(a.v, b.a.w), b.a)
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return tb.Bin(OULt, a.a, b.a)
		}
	case OULe:
		return tb.Not(tb.Bin(OULt, b, a))
	case OSLe:
		return tb.Not(tb.Bin(OSLt, b, a))
	case OSLt:
		if a == b {
			return tb.False
		}
		// zero-extended values are non-negative
		if a.op == OZExt && a.a.w < w && b.isConst() {
			sb := sext(b.v, w)
			if sb <= 0 {
				return tb.False
			}
			return tb.Bin(OULt, a, b)
		}
		if b.op == OZExt && b.a.w < w && a.isConst() {
			sa := sext(a.v, w)
			if sa < 0 {
				return tb.True
			}
			return tb.Bin(OULt, a, b)
		}
		if a.op == OZExt && b.op == OZExt && a.a.w < w && b.a.w < w {
			return tb.Bin(OULt, a, b)
		}
		if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
			return tb.Bin(OSLt, a.a, b.a)
		}
		if a.op == OSExt && b.isConst() {
			lo := b.v & mask(a.a.w)
			if uint64(sext(lo, a.a.w))&mask(w) == b.v {
				return tb.Bin(OSLt, a.a, tb.Const(lo, a.a.w))
			}
		}
	}
	return tb.mk(op, rw, a, b, nil, 0, "")
}

// orConcat recognises  concat(x, 0_n) | zext(y)  with y at most n bits wide.
func (tb *TB) orConcat(a, b *Term) *Term {
	// low zero bits of a
	lz := lowZeros(a)
	if lz == 0 {
		return nil
	}
	hb := highBits(b)
	if hb > lz || hb == 0 {
		return nil
	}
	w := a.w
	return tb.Concat(tb.Extract(a, w-1, lz), tb.Extract(b, lz-1, 0))
}

func lowZeros(t *Term) uint8 {
	switch t.op {
	case OConst:
		if t.v == 0 {
			return t.w
		}
		return uint8(bits.TrailingZeros64(t.v))
	case OConcat:
		l := lowZeros(t.b)
		if l == t.b.w {
			return l + lowZeros(t.a)
		}
		return l
	case OZExt:
		l := lowZeros(t.a)
		if l == t.a.w {
			return t.w
		}
		return l
	}
	return 0
}

// highBits: number of low bits that may be nonzero.
func highBits(t *Term) uint8 {
	switch t.op {
	case OConst:
		return uint8(bits.Len64(t.v))
	case OZExt:
		return highBits(t.a)
	case OConcat:
		h := highBits(t.a)
		if h == 0 {
			return highBits(t.b)
		}
		return t.b.w + h
	}
	return t.w
}

func (tb *TB) BNot(a *Term) *Term {
	if a.isConst() {
		return tb.Const(^a.v, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	return tb.mk(OBNot, a.w, a, nil, nil, 0, "")
}

func (tb *TB) Neg(a *Term) *Term {
	if a.isConst() {
		return tb.Const(-a.v, a.w)
	}
	return tb.mk(ONeg, a.w, a, nil, nil, 0, "")
}

func (tb *TB) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if w > 64 {
		panic("concat > 64")
	}
	if a.isConst() && b.isConst() {
		return tb.Const(a.v<<b.w|b.v, w)
	}
	if a.isConst() && a.v == 0 {
		return tb.ZExt(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a {
		ahi, alo := uint8(a.v>>8), uint8(a.v)
		bhi, blo := uint8(b.v>>8), uint8(b.v)
		if alo == bhi+1 {
			return tb.Extract(a.a, ahi, blo)
		}
	}
	if a.op == OZExt { // concat(zext x, b) = zext(concat(x,b))
		return tb.ZExt(tb.Concat(a.a, b), w)
	}
	if b.op == OConcat { // left associate
		return tb.Concat(tb.Concat(a, b.a), b.b)
	}
	if a.op == OConcat && a.b.op == OExtract && b.op == OExtract && a.b.a == b.a {
		alo := uint8(a.b.v)
		bhi := uint8(b.v >> 8)
		if alo == bhi+1 {
			return tb.Concat(a.a, tb.Extract(b.a, uint8(a.b.v>>8), uint8(b.v)))
		}
	}
	// sign pattern not simplified
	return tb.mk(OConcat, w, a, b, nil, 0, "")
}

func (tb *TB) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return tb.Const(a.v>>lo, w)
	case OExtract:
		l := uint8(a.v)
		return tb.Extract(a.a, hi+l, lo+l)
	case OZExt:
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
		if lo >= a.a.w {
			return tb.Const(0, w)
		}
		return tb.ZExt(tb.Extract(a.a, a.a.w-1, lo), w)
	case OSExt:
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
		if lo < a.a.w {
			return tb.SExt(tb.Extract(a.a, a.a.w-1, lo), w)
		}
		// pure sign bits
		return tb.SExt(tb.Extract(a.a, a.a.w-1, a.a.w-1), w)
	case OConcat:
		if hi < a.b.w {
			return tb.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return tb.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
		return tb.Concat(tb.Extract(a.a, hi-a.b.w, 0), tb.Extract(a.b, a.b.w-1, lo))
	case OBAnd, OBOr, OBXor:
		return tb.Bin(a.op, tb.Extract(a.a, hi, lo), tb.Extract(a.b, hi, lo))
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return tb.Ite(a.a, tb.Extract(a.b, hi, lo), tb.Extract(a.c, hi, lo))
		}
	case OAdd:
		if lo == 0 {
			return tb.Bin(OAdd, tb.Extract(a.a, hi, 0), tb.Extract(a.b, hi, 0))
		}
	}
	return tb.mk(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo), "")
}

func (tb *TB) ZExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		panic("zext narrower")
	}
	switch a.op {
	case OConst:
		return tb.Const(a.v, w)
	case OZExt:
		return tb.ZExt(a.a, w)
	}
	return tb.mk(OZExt, w, a, nil, nil, 0, "")
}

func (tb *TB) SExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return tb.Const(uint64(sext(a.v, a.w)), w)
	case OSExt:
		return tb.SExt(a.a, w)
	case OZExt:
		return tb.ZExt(a.a, w)
	}
	return tb.mk(OSExt, w, a, nil, nil, 0, "")
}

// ---- floats (bit patterns)

func f2b(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func b2f(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func foldF(op Op, x, y uint64, w uint8) uint64 {
	if w == 32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		switch op {
		case OFAdd:
			return uint64(math.Float32bits(a + b))
		case OFSub:
			return uint64(math.Float32bits(a - b))
		case OFMul:
			return uint64(math.Float32bits(a * b))
		case OFDiv:
			return uint64(math.Float32bits(a / b))
		}
	}
	a, b := b2f(x, w), b2f(y, w)
	switch op {
	case OFAdd:
		return math.Float64bits(a + b)
	case OFSub:
		return math.Float64bits(a - b)
	case OFMul:
		return math.Float64bits(a * b)
	case OFDiv:
		return math.Float64bits(a / b)
	case OFEq:
		return b2u(a == b)
	case OFLt:
		return b2u(a < b)
	case OFLe:
		return b2u(a <= b)
	}
	panic("foldF")
}

func (tb *TB) FBin(op Op, a, b *Term) *Term {
	rw := a.w
	if op == OFEq || op == OFLt || op == OFLe {
		rw = 0
	}
	if a.isConst() && b.isConst() {
		v := foldF(op, a.v, b.v, a.w)
		if rw == 0 {
			return tb.Bool(v == 1)
		}
		return tb.Const(v, rw)
	}
	return tb.mk(op, rw, a, b, nil, 0, "")
}

func (tb *TB) FNeg(a *Term) *Term {
	return tb.Bin(OBXor, a, tb.Const(1<<(a.w-1), a.w))
}

func foldConv(op Op, x uint64, from, to uint8) uint64 {
	switch op {
	case OFToF:
		if from == to {
			return x
		}
		if from == 32 {
			return math.Float64bits(float64(math.Float32frombits(uint32(x))))
		}
		return uint64(math.Float32bits(float32(math.Float64frombits(x))))
	case OFToSI:
		return uint64(int64(b2f(x, from))) & mask(to)
	case OFToUI:
		return uint64(b2f(x, from)) & mask(to)
	case OSIToF:
		i := sext(x, from)
		if to == 32 {
			return uint64(math.Float32bits(float32(i)))
		}
		return math.Float64bits(float64(i))
	case OUIToF:
		if to == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	}
	panic("foldConv")
}

func (tb *TB) FConv(op Op, a *Term, to uint8) *Term {
	if op == OFToF && a.w == to {
		return a
	}
	if a.isConst() {
		return tb.Const(foldConv(op, a.v, a.w, to), to)
	}
	// narrowing a widened float is the identity (except NaN payloads; see DESIGN)
	if op == OFToF && a.op == OFToF && a.a.w == to && to == 32 {
		return a.a
	}
	return tb.mk(op, to, a, nil, nil, 0, "")
}

// ---- evaluation under a model

type Model map[string]uint64

func (t *Term) Eval(m Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.v
	case OVar:
		return m[t.name] & maskB(t.w)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - t.a.Eval(m, memo)
	case OAnd:
		r = t.a.Eval(m, memo)
		if r == 1 {
			r = t.b.Eval(m, memo)
		}
	case OOr:
		r = t.a.Eval(m, memo)
		if r == 0 {
			r = t.b.Eval(m, memo)
		}
	case OEq:
		r = b2u(t.a.Eval(m, memo) == t.b.Eval(m, memo))
	case OIte:
		if t.a.Eval(m, memo) == 1 {
			r = t.b.Eval(m, memo)
		} else {
			r = t.c.Eval(m, memo)
		}
	case OBNot:
		r = ^t.a.Eval(m, memo) & mask(t.w)
	case ONeg:
		r = -t.a.Eval(m, memo) & mask(t.w)
	case OConcat:
		r = t.a.Eval(m, memo)<<t.b.w | t.b.Eval(m, memo)
	case OExtract:
		r = (t.a.Eval(m, memo) >> uint8(t.v)) & mask(t.w)
	case OZExt:
		r = t.a.Eval(m, memo)
	case OSExt:
		r = uint64(sext(t.a.Eval(m, memo), t.a.w)) & mask(t.w)
	case OFAdd, OFSub, OFMul, OFDiv, OFEq, OFLt, OFLe:
		r = foldF(t.op, t.a.Eval(m, memo), t.b.Eval(m, memo), t.a.w)
	case OFToF, OFToSI, OFToUI, OSIToF, OUIToF:
		r = foldConv(t.op, t.a.Eval(m, memo), t.a.w, t.w)
	default:
		v, ok := foldBin(t.op, t.a.Eval(m, memo), t.b.Eval(m, memo), t.a.w)
		if !ok {
			panic("eval op")
		}
		r = v
	}
	memo[t] = r
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// ---- SMT-LIB printing

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
	OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle",
	OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div", OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq",
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func toFP(w uint8, ref string) string { return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(w), ref) }

// ref returns the SMT reference of a term (constant literal or defined symbol).
func (t *Term) ref() string {
	if t.op == OConst {
		if t.w == 0 {
			if t.v == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.v, t.w)
	}
	if t.op == OVar {
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

// body prints the defining expression in terms of operand refs.
func (t *Term) body() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.v>>8, t.v&255, t.a.ref())
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OFAdd, OFSub, OFMul, OFDiv:
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", opNames[t.op], toFP(t.w, t.a.ref()), toFP(t.w, t.b.ref()))
	case OFEq, OFLt, OFLe:
		return fmt.Sprintf("(%s %s %s)", opNames[t.op], toFP(t.a.w, t.a.ref()), toFP(t.a.w, t.b.ref()))
	case OFToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), toFP(t.a.w, t.a.ref()))
	case OFToSI:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, toFP(t.a.w, t.a.ref()))
	case OFToUI:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, toFP(t.a.w, t.a.ref()))
	case OSIToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), t.a.ref())
	case OUIToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), t.a.ref())
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
