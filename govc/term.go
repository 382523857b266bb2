package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// Sort is the SMT sort of a term.
type Sort uint8

const (
	SBool Sort = iota
	SInt
	SReal
)

func (s Sort) String() string { return [...]string{"Bool", "Int", "Real"}[s] }

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota // numeric constant (rat)
	OTrue
	OFalse
	OVar    // free constant symbol
	OApp    // uninterpreted or axiomatised function application
	OAdd    // n-ary sum
	OMul    // n-ary product
	ODiv    // real division
	OIDiv   // integer (Euclidean) division by a positive constant or term
	OIMod   // integer (Euclidean) modulus
	OLe     // a <= 0 (one argument, normalised)
	OLt     // a < 0 (one argument, normalised; reals only)
	OEq0    // a = 0
	OIff    // boolean equality
	OAnd    //
	OOr     //
	ONot    //
	OIte    //
	OToReal //
	OFloor  // real -> int floor
)

// Term is a hash-consed SMT term.
type Term struct {
	id   int
	op   Op
	sort Sort
	args []*Term
	name string
	rat  *big.Rat
	// cached linear form key for additive monomials
	size int
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termSeq int
)

func mkTerm(op Op, s Sort, name string, rat *big.Rat, args ...*Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d.%d.%s", op, s, name)
	if rat != nil {
		sb.WriteString("#" + rat.RatString())
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	sz := 1
	for _, a := range args {
		sz += a.size
		if sz > 1<<30 {
			sz = 1 << 30
		}
	}
	t := &Term{id: termSeq, op: op, sort: s, args: append([]*Term(nil), args...), name: name, rat: rat, size: sz}
	termTab[k] = t
	return t
}

var (
	tTrue  = mkTerm(OTrue, SBool, "", nil)
	tFalse = mkTerm(OFalse, SBool, "", nil)
	ratOne = big.NewRat(1, 1)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkInt(i int64) *Term            { return mkTerm(OConst, SInt, "", big.NewRat(i, 1)) }
func mkRat(s Sort, r *big.Rat) *Term { return mkTerm(OConst, s, "", r) }
func mkReal(r *big.Rat) *Term        { return mkRat(SReal, r) }
func mkRealI(i int64) *Term          { return mkRat(SReal, big.NewRat(i, 1)) }

var symPI = mkTerm(OVar, SReal, "PI", nil)

// mkFloat converts a float64 constant; simple multiples of pi are kept symbolic.
func mkFloat(f float64) *Term {
	r := new(big.Rat)
	if math.IsInf(f, 0) || math.IsNaN(f) {
		if math.IsInf(f, 1) {
			return mkTerm(OVar, SReal, "INF", nil)
		}
		if math.IsInf(f, -1) {
			return tNeg(mkTerm(OVar, SReal, "INF", nil))
		}
		return mkTerm(OVar, SReal, "NAN", nil)
	}
	r.SetFloat64(f)
	if f != 0 && math.Abs(f) < 1e4 && math.Abs(f) > 1e-3 && !r.IsInt() {
		q := f / math.Pi
		for _, d := range []float64{1, 2, 3, 4, 6, 8, 12, 180, 360} {
			n := math.Round(q * d)
			if n != 0 && math.Abs(n) < 5000 && math.Abs(q*d-n) < 1e-13*math.Abs(n)+1e-14 {
				return tMul(mkReal(big.NewRat(int64(n), int64(d))), symPI)
			}
		}
		q = f * math.Pi // e.g. 180/pi
		for _, d := range []float64{1, 2, 3, 4} {
			n := math.Round(q * d)
			if n != 0 && math.Abs(n) < 5000 && math.Abs(q*d-n) < 1e-13*math.Abs(n)+1e-14 {
				return tDiv(mkReal(big.NewRat(int64(n), int64(d))), symPI)
			}
		}
	}
	return mkReal(r)
}

func mkVar(s Sort, name string) *Term { return mkTerm(OVar, s, name, nil) }

var freshMu sync.Mutex
var freshSeq = map[string]int{}

func freshName(prefix string) string {
	freshMu.Lock()
	defer freshMu.Unlock()
	freshSeq[prefix]++
	return fmt.Sprintf("%s!%d", prefix, freshSeq[prefix])
}
func freshVar(s Sort, prefix string) *Term { return mkVar(s, freshName(prefix)) }

func mkApp(s Sort, name string, args ...*Term) *Term { return mkTerm(OApp, s, name, nil, args...) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isZero() bool  { return t.op == OConst && t.rat.Sign() == 0 }
func (t *Term) isOne() bool   { return t.op == OConst && t.rat.Cmp(ratOne) == 0 }
func (t *Term) intVal() (int64, bool) {
	if t.op == OConst && t.rat.IsInt() && t.rat.Num().IsInt64() {
		return t.rat.Num().Int64(), true
	}
	return 0, false
}

// linear decomposition: t = c + sum coef_i * m_i
type linForm struct {
	c    *big.Rat
	coef map[*Term]*big.Rat
}

func newLin() *linForm { return &linForm{c: new(big.Rat), coef: map[*Term]*big.Rat{}} }

func (l *linForm) addTerm(k *big.Rat, t *Term) {
	if k.Sign() == 0 {
		return
	}
	switch t.op {
	case OConst:
		l.c.Add(l.c, new(big.Rat).Mul(k, t.rat))
		return
	case OAdd:
		for _, a := range t.args {
			l.addTerm(k, a)
		}
		return
	case OMul:
		if t.args[0].op == OConst {
			k2 := new(big.Rat).Mul(k, t.args[0].rat)
			var rest *Term
			if len(t.args) == 2 {
				rest = t.args[1]
			} else {
				rest = mkTerm(OMul, t.sort, "", nil, t.args[1:]...)
			}
			l.addTerm(k2, rest)
			return
		}
	}
	if e, ok := l.coef[t]; ok {
		e = new(big.Rat).Add(e, k)
		if e.Sign() == 0 {
			delete(l.coef, t)
		} else {
			l.coef[t] = e
		}
		return
	}
	l.coef[t] = new(big.Rat).Set(k)
}

func (l *linForm) keys() []*Term {
	ks := make([]*Term, 0, len(l.coef))
	for k := range l.coef {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

func mulCoef(s Sort, k *big.Rat, t *Term) *Term {
	if k.Cmp(ratOne) == 0 {
		return t
	}
	kc := mkRat(s, new(big.Rat).Set(k))
	if t.op == OMul {
		return mkTerm(OMul, s, "", nil, append([]*Term{kc}, t.args...)...)
	}
	return mkTerm(OMul, s, "", nil, kc, t)
}

func (l *linForm) build(s Sort) *Term {
	ks := l.keys()
	var parts []*Term
	for _, k := range ks {
		parts = append(parts, mulCoef(s, l.coef[k], k))
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, mkRat(s, l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mkTerm(OAdd, s, "", nil, parts...)
}

func tAdd(args ...*Term) *Term {
	l := newLin()
	s := args[0].sort
	for _, a := range args {
		if a.sort != s {
			panic(fmt.Sprintf("tAdd sort mismatch %v %v", args[0], a))
		}
		l.addTerm(ratOne, a)
	}
	return l.build(s)
}
func tNeg(a *Term) *Term {
	l := newLin()
	l.addTerm(big.NewRat(-1, 1), a)
	return l.build(a.sort)
}
func tSub(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("tSub sort mismatch %v %v", a, b))
	}
	l := newLin()
	l.addTerm(ratOne, a)
	l.addTerm(big.NewRat(-1, 1), b)
	return l.build(a.sort)
}

func tMul(args ...*Term) *Term {
	s := args[0].sort
	k := big.NewRat(1, 1)
	var fs []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.sort != s {
			panic("tMul sort mismatch")
		}
		switch t.op {
		case OConst:
			k.Mul(k, t.rat)
		case OMul:
			for _, a := range t.args {
				add(a)
			}
		default:
			fs = append(fs, t)
		}
	}
	for _, a := range args {
		add(a)
	}
	if k.Sign() == 0 {
		return mkRat(s, new(big.Rat))
	}
	if len(fs) == 0 {
		return mkRat(s, k)
	}
	if len(fs) == 1 {
		l := newLin()
		l.addTerm(k, fs[0]) // distribute over sums
		return l.build(s)
	}
	// sqrt(a)*sqrt(a) -> a when a is syntactically non-negative
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	for i := 0; i+1 < len(fs); i++ {
		if fs[i] == fs[i+1] && fs[i].op == OApp && fs[i].name == "sqrt" && synNonNeg(fs[i].args[0]) {
			rest := append([]*Term{mkRat(s, k), fs[i].args[0]}, fs[:i]...)
			rest = append(rest, fs[i+2:]...)
			return tMul(rest...)
		}
	}
	prod := mkTerm(OMul, s, "", nil, fs...)
	return mulCoef(s, k, prod)
}

// synNonNeg: syntactically non-negative (sums of squares etc).
func synNonNeg(t *Term) bool {
	switch t.op {
	case OConst:
		return t.rat.Sign() >= 0
	case OAdd:
		for _, a := range t.args {
			if !synNonNeg(a) {
				return false
			}
		}
		return true
	case OMul:
		i := 0
		if t.args[0].op == OConst {
			if t.args[0].rat.Sign() < 0 {
				return false
			}
			i = 1
		}
		for i < len(t.args) {
			if i+1 < len(t.args) && t.args[i] == t.args[i+1] {
				i += 2
				continue
			}
			if !synNonNeg(t.args[i]) {
				return false
			}
			i++
		}
		return true
	case OApp:
		return t.name == "sqrt" || t.name == "exp"
	case OIte:
		if synNonNeg(t.args[1]) && synNonNeg(t.args[2]) {
			return true
		}
		return isAbsTerm(t)
	case OToReal:
		return synNonNeg(t.args[0])
	case OIMod:
		return true
	case ODiv:
		return synNonNeg(t.args[0]) && synNonNeg(t.args[1])
	}
	return false
}

// isAbsTerm recognises ite(x<0,-x,x) and variants.
func isAbsTerm(t *Term) bool {
	if t.op != OIte {
		return false
	}
	c, a, b := t.args[0], t.args[1], t.args[2]
	if tNeg(a) != b {
		return false
	}
	return c == tLt(b, zeroOf(b.sort)) || c == tLe(b, zeroOf(b.sort)) || c == tLe(zeroOf(a.sort), a) || c == tLt(zeroOf(a.sort), a)
}

func zeroOf(s Sort) *Term { return mkRat(s, new(big.Rat)) }

func tDiv(a, b *Term) *Term {
	if b.op == OConst && b.rat.Sign() != 0 {
		return tMul(a, mkReal(new(big.Rat).Inv(b.rat)))
	}
	if a.isZero() && b.op != OConst {
		// 0/b is 0 whenever b != 0 (b == 0 has its own side obligation)
		return a
	}
	if a == b && a.op != OConst {
		return mkRealI(1)
	}
	// normalise constant factors
	ka, ra := splitCoef(a)
	kb, rb := splitCoef(b)
	if kb.Sign() == 0 {
		return mkTerm(ODiv, SReal, "", nil, a, b)
	}
	k := new(big.Rat).Quo(ka, kb)
	if ra == rb {
		return mkReal(k)
	}
	return tMul(mkReal(k), mkTerm(ODiv, SReal, "", nil, ra, rb))
}

// splitCoef writes t = k * r with k a nonzero constant for products.
func splitCoef(t *Term) (*big.Rat, *Term) {
	if t.op == OConst {
		if t.rat.Sign() == 0 {
			return new(big.Rat), mkRat(t.sort, big.NewRat(1, 1))
		}
		return t.rat, mkRat(t.sort, big.NewRat(1, 1))
	}
	if t.op == OMul && t.args[0].op == OConst {
		if len(t.args) == 2 {
			return t.args[0].rat, t.args[1]
		}
		return t.args[0].rat, mkTerm(OMul, t.sort, "", nil, t.args[1:]...)
	}
	if t.op == OAdd {
		// normalise leading coefficient
		k, _ := splitCoef(t.args[0])
		if k.Sign() != 0 && k.Cmp(ratOne) != 0 {
			l := newLin()
			l.addTerm(new(big.Rat).Inv(k), t)
			return k, l.build(t.sort)
		}
	}
	return big.NewRat(1, 1), t
}

func tIDiv(a, b *Term) *Term { // Euclidean/floor for positive b
	if av, ok := a.intVal(); ok {
		if bv, ok := b.intVal(); ok && bv > 0 {
			return mkInt(floorDiv(av, bv))
		}
	}
	if b.isOne() {
		return a
	}
	if bv, ok := b.intVal(); ok && bv > 1 {
		// (bv*x + r)/bv with all coefs divisible except const
		l := newLin()
		l.addTerm(ratOne, a)
		q, r := newLin(), newLin()
		for _, k := range l.keys() {
			c := l.coef[k]
			if c.IsInt() && new(big.Int).Mod(c.Num(), big.NewInt(bv)).Sign() == 0 {
				q.addTerm(new(big.Rat).Quo(c, big.NewRat(bv, 1)), k)
			} else {
				r.addTerm(c, k)
			}
		}
		if len(q.coef) > 0 {
			r.c = l.c
			return tAdd(q.build(SInt), tIDiv(r.build(SInt), b))
		}
	}
	return mkTerm(OIDiv, SInt, "", nil, a, b)
}
func tIMod(a, b *Term) *Term {
	if av, ok := a.intVal(); ok {
		if bv, ok := b.intVal(); ok && bv > 0 {
			return mkInt(av - bv*floorDiv(av, bv))
		}
	}
	if b.isOne() {
		return mkInt(0)
	}
	if bv, ok := b.intVal(); ok && bv > 1 {
		if lo, hi, ok := intRange(a); ok && lo >= 0 && hi < bv {
			return a
		}
		l := newLin()
		l.addTerm(ratOne, a)
		r := newLin()
		changed := false
		for _, k := range l.keys() {
			c := l.coef[k]
			if c.IsInt() {
				m := new(big.Int).Mod(c.Num(), big.NewInt(bv))
				if m.Cmp(c.Num()) != 0 {
					changed = true
				}
				if m.Sign() != 0 {
					r.addTerm(new(big.Rat).SetInt(m), k)
				}
			} else {
				r.addTerm(c, k)
			}
		}
		r.c = l.c
		if r.c.IsInt() {
			m := new(big.Int).Mod(r.c.Num(), big.NewInt(bv))
			if m.Cmp(r.c.Num()) != 0 {
				changed = true
			}
			r.c = new(big.Rat).SetInt(m)
		}
		if changed {
			return tIMod(r.build(SInt), b)
		}
		// mod(mod(x, c), b) with b | c
		if a.op == OIMod {
			if cv, ok := a.args[1].intVal(); ok && cv%bv == 0 {
				return tIMod(a.args[0], b)
			}
		}
	}
	return mkTerm(OIMod, SInt, "", nil, a, b)
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// intRange gives syntactic bounds for an integer term.
func intRange(t *Term) (lo, hi int64, ok bool) {
	switch t.op {
	case OConst:
		v, ok := t.intVal()
		return v, v, ok
	case OIMod:
		if bv, ok := t.args[1].intVal(); ok && bv > 0 {
			return 0, bv - 1, true
		}
	case OApp:
		if strings.HasPrefix(t.name, "u8:") {
			return 0, 255, true
		}
	case OIte:
		l1, h1, ok1 := intRange(t.args[1])
		l2, h2, ok2 := intRange(t.args[2])
		if ok1 && ok2 {
			if l2 < l1 {
				l1 = l2
			}
			if h2 > h1 {
				h1 = h2
			}
			return l1, h1, true
		}
	case OIDiv:
		l, h, ok := intRange(t.args[0])
		if b, ok2 := t.args[1].intVal(); ok && ok2 && b > 0 {
			return floorDiv(l, b), floorDiv(h, b), true
		}
	case OAdd:
		for _, a := range t.args {
			l, h, ok := intRange(a)
			if !ok || l < -1<<40 || h > 1<<40 {
				return 0, 0, false
			}
			lo += l
			hi += h
		}
		return lo, hi, true
	case OMul:
		if len(t.args) == 2 {
			if k, ok := t.args[0].intVal(); ok {
				l, h, ok := intRange(t.args[1])
				if !ok || l < -1<<30 || h > 1<<30 || k > 1<<30 || k < -1<<30 {
					return 0, 0, false
				}
				if k < 0 {
					l, h = h, l
				}
				return l * k, h * k, true
			}
		}
	}
	return 0, 0, false
}

func tToReal(a *Term) *Term {
	if a.sort == SReal {
		return a
	}
	if a.op == OConst {
		return mkReal(a.rat)
	}
	if a.op == OAdd || (a.op == OMul && a.args[0].op == OConst) {
		l := newLin()
		l.addTerm(ratOne, a)
		r := newLin()
		r.c = l.c
		for _, k := range l.keys() {
			r.addTerm(l.coef[k], mkTerm(OToReal, SReal, "", nil, k))
		}
		return r.build(SReal)
	}
	if a.op == OIte {
		return tIte(a.args[0], tToReal(a.args[1]), tToReal(a.args[2]))
	}
	return mkTerm(OToReal, SReal, "", nil, a)
}
func tFloor(a *Term) *Term {
	if a.op == OConst {
		n := new(big.Int)
		m := new(big.Int)
		n.DivMod(a.rat.Num(), a.rat.Denom(), m)
		return mkRat(SInt, new(big.Rat).SetInt(n))
	}
	// floor(x + real(i)) = floor(x)+i
	l := newLin()
	l.addTerm(ratOne, a)
	ints, rest := newLin(), newLin()
	for _, k := range l.keys() {
		c := l.coef[k]
		if k.op == OToReal && c.IsInt() {
			ints.addTerm(c, k.args[0])
		} else {
			rest.addTerm(c, k)
		}
	}
	if l.c.IsInt() {
		ints.c = l.c
	} else {
		rest.c = l.c
	}
	if len(ints.coef) > 0 || ints.c.Sign() != 0 {
		return tAdd(ints.build(SInt), tFloor(rest.build(SReal)))
	}
	return mkTerm(OFloor, SInt, "", nil, a)
}

// normalised comparison: returns linear form scaled so |leading coef| = 1 (positive scaling)
func scaleLin(l *linForm, allowNeg bool) (*linForm, bool) {
	ks := l.keys()
	if len(ks) == 0 {
		return l, false
	}
	k := new(big.Rat).Set(l.coef[ks[0]])
	neg := k.Sign() < 0
	k.Abs(k)
	if allowNeg && neg {
		k.Neg(k)
	}
	inv := new(big.Rat).Inv(k)
	r := newLin()
	r.c = new(big.Rat).Mul(l.c, inv)
	for t, c := range l.coef {
		r.coef[t] = new(big.Rat).Mul(c, inv)
	}
	return r, true
}

func diffLin(a, b *Term) *linForm {
	if a.sort != b.sort {
		panic(fmt.Sprintf("cmp sort mismatch: %v vs %v", a, b))
	}
	l := newLin()
	l.addTerm(ratOne, a)
	l.addTerm(big.NewRat(-1, 1), b)
	return l
}

// intScale scales integer linear forms to integer, gcd-normalised coefficients.
func intScale(l *linForm) *linForm {
	// coefficients are integers already; divide by gcd of coefs
	g := new(big.Int)
	for _, c := range l.coef {
		if !c.IsInt() {
			return l
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(c.Num()))
	}
	if g.Sign() == 0 || g.Cmp(big.NewInt(1)) == 0 {
		return l
	}
	r := newLin()
	for t, c := range l.coef {
		r.coef[t] = new(big.Rat).SetInt(new(big.Int).Quo(c.Num(), g))
	}
	// sum + c <= 0  <=> sum/g <= floor(-c/g)
	q := new(big.Rat).Quo(new(big.Rat).Neg(l.c), new(big.Rat).SetInt(g))
	n, m := new(big.Int), new(big.Int)
	n.DivMod(q.Num(), q.Denom(), m)
	r.c = new(big.Rat).SetInt(new(big.Int).Neg(n))
	return r
}

func tLe(a, b *Term) *Term {
	if r := cmpIteConst(a, b, tLe); r != nil {
		return r
	}
	l := diffLin(a, b)
	if len(l.coef) == 0 {
		return mkBool(l.c.Sign() <= 0)
	}
	if a.sort == SInt {
		l = intScale(l)
		return mkTerm(OLe, SBool, "", nil, l.build(SInt))
	}
	l, _ = scaleLin(l, false)
	d := l.build(a.sort)
	if synNonNeg(tNeg(d)) {
		return tTrue
	}
	return mkTerm(OLe, SBool, "", nil, d)
}
func tLt(a, b *Term) *Term {
	if a.sort == SInt {
		return tLe(tAdd(a, mkInt(1)), b)
	}
	if r := cmpIteConst(a, b, tLt); r != nil {
		return r
	}
	l := diffLin(a, b)
	if len(l.coef) == 0 {
		return mkBool(l.c.Sign() < 0)
	}
	l, _ = scaleLin(l, false)
	d := l.build(a.sort)
	if synNonNeg(d) {
		return tFalse
	}
	return mkTerm(OLt, SBool, "", nil, d)
}
func tGe(a, b *Term) *Term { return tLe(b, a) }
func tGt(a, b *Term) *Term { return tLt(b, a) }

// cmpIteConst pushes a comparison with constants into an ite whose leaves are constants.
func cmpIteConst(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.op == OIte && b.op == OConst && (a.args[1].op == OConst || a.args[2].op == OConst) && iteDepth(a) < 24 {
		return tIte(a.args[0], f(a.args[1], b), f(a.args[2], b))
	}
	if b.op == OIte && a.op == OConst && (b.args[1].op == OConst || b.args[2].op == OConst) && iteDepth(b) < 24 {
		return tIte(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
	}
	return nil
}
func iteDepth(t *Term) int {
	d := 0
	for t.op == OIte {
		d++
		if t.args[1].op == OIte {
			t = t.args[1]
		} else {
			t = t.args[2]
		}
	}
	return d
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return tNot(b)
		}
		if b == tFalse {
			return tNot(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mkTerm(OIff, SBool, "", nil, a, b)
	}
	if r := cmpIteConst(a, b, tEq); r != nil {
		return r
	}
	l := diffLin(a, b)
	if len(l.coef) == 0 {
		return mkBool(l.c.Sign() == 0)
	}
	if a.sort == SInt {
		g := intScale(l)
		// if the constant is not divisible, equation is unsatisfiable; keep simple
		chk := newLin()
		for t, c := range l.coef {
			chk.coef[t] = c
		}
		if g != l {
			var ratio *big.Rat
			for t := range l.coef {
				ratio = new(big.Rat).Quo(l.coef[t], g.coef[t])
				break
			}
			if new(big.Rat).Mul(g.c, ratio).Cmp(l.c) != 0 {
				return tFalse
			}
			l = g
		}
		ks := l.keys()
		if l.coef[ks[0]].Sign() < 0 {
			n := newLin()
			n.c = new(big.Rat).Neg(l.c)
			for t, c := range l.coef {
				n.coef[t] = new(big.Rat).Neg(c)
			}
			l = n
		}
		if len(ks) == 1 {
			if lo, hi, ok := intRange(ks[0]); ok {
				// k*x + c = 0
				x := new(big.Rat).Quo(new(big.Rat).Neg(l.c), l.coef[ks[0]])
				if !x.IsInt() || x.Cmp(big.NewRat(lo, 1)) < 0 || x.Cmp(big.NewRat(hi, 1)) > 0 {
					return tFalse
				}
			}
		}
		return mkTerm(OEq0, SBool, "", nil, l.build(SInt))
	}
	l, _ = scaleLin(l, true)
	return mkTerm(OEq0, SBool, "", nil, l.build(a.sort))
}

func tNot(a *Term) *Term {
	switch a.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return a.args[0]
	case OLe:
		return tLt(zeroOf(a.args[0].sort), a.args[0])
	case OLt:
		return tLe(zeroOf(a.args[0].sort), a.args[0])
	}
	return mkTerm(ONot, SBool, "", nil, a)
}

func tAnd(args ...*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case OTrue:
			return true
		case OFalse:
			return false
		case OAnd:
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[tNot(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range args {
		if !add(a) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mkTerm(OAnd, SBool, "", nil, out...)
}
func tOr(args ...*Term) *Term {
	n := make([]*Term, len(args))
	for i, a := range args {
		n[i] = tNot(a)
	}
	// build via De Morgan but keep as Or
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case OFalse:
			return true
		case OTrue:
			return false
		case OOr:
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[tNot(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range args {
		if !add(a) {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mkTerm(OOr, SBool, "", nil, out...)
}
func tImp(a, b *Term) *Term { return tOr(tNot(a), b) }

func tIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.op == ONot {
		return tIte(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return tNot(c)
		}
		if a == tTrue {
			return tOr(c, b)
		}
		if a == tFalse {
			return tAnd(tNot(c), b)
		}
		if b == tTrue {
			return tOr(tNot(c), a)
		}
		if b == tFalse {
			return tAnd(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	nc := tNot(c)
	if nc.op != ONot {
		if a.op == OIte && a.args[0] == nc {
			a = a.args[2]
		}
		if b.op == OIte && b.args[0] == nc {
			b = b.args[1]
		}
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %v %v", a, b))
	}
	return mkTerm(OIte, a.sort, "", nil, c, a, b)
}

func tMin(a, b *Term) *Term { return tIte(tLe(a, b), a, b) }
func tMax(a, b *Term) *Term { return tIte(tLe(a, b), b, a) }
func tAbs(a *Term) *Term {
	if synNonNeg(a) {
		return a
	}
	return tIte(tLt(a, zeroOf(a.sort)), tNeg(a), a)
}

func tSqrt(a *Term) *Term {
	if a.op == OConst && a.rat.Sign() >= 0 {
		n := new(big.Int).Sqrt(a.rat.Num())
		d := new(big.Int).Sqrt(a.rat.Denom())
		if new(big.Int).Mul(n, n).Cmp(a.rat.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(a.rat.Denom()) == 0 {
			return mkReal(new(big.Rat).SetFrac(n, d))
		}
	}
	// sqrt(x*x) = |x|
	if a.op == OMul && len(a.args) == 2 && a.args[0] == a.args[1] {
		return tAbs(a.args[0])
	}
	if a.op == OMul && len(a.args) == 3 && a.args[0].op == OConst && a.args[1] == a.args[2] {
		k := tSqrt(a.args[0])
		if k.op == OConst {
			return tMul(k, tAbs(a.args[1]))
		}
	}
	return mkApp(SReal, "sqrt", a)
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 12 {
		return fmt.Sprintf("…%d", t.id)
	}
	switch t.op {
	case OConst:
		f, _ := t.rat.Float64()
		if t.rat.IsInt() {
			return t.rat.RatString()
		}
		return fmt.Sprintf("%g", f)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		return t.name
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d+1))
	}
	j := func(s string) string { return "(" + strings.Join(as, s) + ")" }
	switch t.op {
	case OApp:
		return t.name + "(" + strings.Join(as, ",") + ")"
	case OAdd:
		return j(" + ")
	case OMul:
		return j("*")
	case ODiv:
		return j("/")
	case OIDiv:
		return j(" div ")
	case OIMod:
		return j(" mod ")
	case OLe:
		return "(" + as[0] + " <= 0)"
	case OLt:
		return "(" + as[0] + " < 0)"
	case OEq0:
		return "(" + as[0] + " = 0)"
	case OIff:
		return j(" <=> ")
	case OAnd:
		return j(" && ")
	case OOr:
		return j(" || ")
	case ONot:
		return "!" + as[0]
	case OIte:
		return "ite(" + strings.Join(as, ", ") + ")"
	case OToReal:
		return "real(" + as[0] + ")"
	case OFloor:
		return "floor(" + as[0] + ")"
	}
	return "?"
}
