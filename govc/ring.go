package main

// Rational-function normaliser: decides real equalities that are polynomial
// (rational) identities over uninterpreted atoms, modulo sqrt(t)^2 = t,
// sin^2 = 1 - cos^2 and simple equational hypotheses.

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type monoPart struct {
	atom *Term
	exp  int
}
type mono []monoPart

func (m mono) key() string {
	var sb strings.Builder
	for _, p := range m {
		sb.WriteString(strconv.Itoa(p.atom.id))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(p.exp))
		sb.WriteByte('.')
	}
	return sb.String()
}

type pterm struct {
	m mono
	c *big.Rat
}
type poly map[string]pterm

type ringErr struct{}

const ringMax = 60000

func pconst(c *big.Rat) poly {
	p := poly{}
	if c.Sign() != 0 {
		p[""] = pterm{nil, c}
	}
	return p
}
func patom(t *Term) poly {
	m := mono{{t, 1}}
	return poly{m.key(): {m, ratOne}}
}
func (p poly) addScaled(q poly, k *big.Rat) poly {
	r := make(poly, len(p)+len(q))
	for key, t := range p {
		r[key] = t
	}
	for key, t := range q {
		c := new(big.Rat).Mul(t.c, k)
		if o, ok := r[key]; ok {
			c.Add(c, o.c)
			if c.Sign() == 0 {
				delete(r, key)
				continue
			}
		}
		if c.Sign() != 0 {
			r[key] = pterm{t.m, c}
		}
	}
	return r
}

func mulMono(a, b mono) mono {
	r := make(mono, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i].atom == b[j].atom:
			r = append(r, monoPart{a[i].atom, a[i].exp + b[j].exp})
			i++
			j++
		case a[i].atom.id < b[j].atom.id:
			r = append(r, a[i])
			i++
		default:
			r = append(r, b[j])
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	return r
}

type ringCtx struct {
	subst  map[*Term]poly // atom -> poly
	sq     map[*Term]poly // atom^2 -> poly
	memo   map[*Term]*ratfun
	budget int
	pend   map[*Term]bool
	facOf  map[string]poly
	intEq  map[*Term]*Term // integer variable -> equal term
	reps   map[string][]ringRep
}

// ringRep is an application with normalised arguments; applications with
// equal arguments are one atom (congruence).
type ringRep struct {
	t    *Term
	args []*ratfun // nil for non-real arguments
}

func (rc *ringCtx) eqRat(f, g *ratfun, sign int64) bool {
	k := &ratfun{num: pconst(big.NewRat(-sign, 1))}
	return len(rc.add(f, rc.mulr(k, g)).num) == 0
}

// congruent returns the representative of application t and its sign.
func (rc *ringCtx) congruent(t *Term) (*Term, int64) {
	app := t
	if t.op == OToReal {
		app = t.args[0]
	}
	if app.op != OApp && app.op != OFloor || len(app.args) == 0 || app.size > 4000 {
		return t, 1
	}
	name := app.name
	if app.op == OFloor {
		name = "floor"
	}
	if t != app {
		name = "toreal " + name
	}
	hasReal := false
	for _, a := range app.args {
		hasReal = hasReal || a.sort == SReal
	}
	if !hasReal {
		return t, 1
	}
	args := make([]*ratfun, len(app.args))
	for i, a := range app.args {
		if a.sort == SReal {
			args[i] = rc.norm(a)
		}
	}
	for _, r := range rc.reps[name] {
		rapp := r.t
		if rapp.op == OToReal {
			rapp = rapp.args[0]
		}
		if rapp == app {
			return r.t, 1
		}
		if len(rapp.args) != len(app.args) {
			continue
		}
		same := true
		for i := range args {
			if args[i] == nil {
				same = same && (rapp.args[i] == app.args[i] || app.args[i].sort == SInt && rapp.args[i].sort == SInt && rc.canonInt(rapp.args[i]) == rc.canonInt(app.args[i]))
			} else {
				same = same && r.args[i] != nil && rc.eqRat(args[i], r.args[i], 1)
			}
			if !same {
				break
			}
		}
		if same {
			return r.t, 1
		}
		if len(args) == 1 && (name == "cos" || name == "sin") && rc.eqRat(args[0], r.args[0], -1) {
			if name == "sin" {
				return r.t, -1
			}
			return r.t, 1
		}
	}
	if rc.reps == nil {
		rc.reps = map[string][]ringRep{}
	}
	rc.reps[name] = append(rc.reps[name], ringRep{t, args})
	return t, 1
}

// intEqs finds integer variables that the hypotheses fix to another term.
func intEqs(hyps []*Term) map[*Term]*Term {
	le := map[*Term]bool{}
	for _, h := range hyps {
		if h.op == OLe && h.args[0].sort == SInt {
			le[h.args[0]] = true
		}
	}
	m := map[*Term]*Term{}
	for _, h := range hyps {
		var z *Term
		if h.op == OEq0 && h.args[0].sort == SInt {
			z = h.args[0]
		} else if h.op == OLe && h.args[0].sort == SInt && le[tMul(mkInt(-1), h.args[0])] {
			z = h.args[0]
		}
		if z == nil || z.size > 60 {
			continue
		}
		z = (&ringCtx{intEq: m}).canonInt(z)
		l := newLin()
		l.addTerm(ratOne, z)
		var best *Term
		for t, c := range l.coef {
			if t.op == OVar && (c.Cmp(ratOne) == 0 || c.Cmp(big.NewRat(-1, 1)) == 0) && m[t] == nil && (best == nil || t.id > best.id) {
				best = t
			}
		}
		if best == nil {
			continue
		}
		r := newLin()
		k := new(big.Rat).Neg(l.coef[best])
		r.c.Mul(l.c, k)
		for t, c := range l.coef {
			if t != best {
				r.coef[t] = new(big.Rat).Mul(c, k)
			}
		}
		v := r.build(SInt)
		if !occurs(best, v) {
			m[best] = v
		}
	}
	return m
}

func (rc *ringCtx) canonAtom(t *Term) *Term {
	if t.op == OApp && len(rc.intEq) > 0 {
		ch := false
		args := append([]*Term(nil), t.args...)
		for i, a := range args {
			if a.sort == SInt {
				if b := rc.canonInt(a); b != a {
					args[i], ch = b, true
				}
			}
		}
		if ch {
			return mkApp(t.sort, t.name, args...)
		}
	}
	return t
}

func (rc *ringCtx) canonInt(a *Term) *Term {
	for i := 0; i < 4; i++ {
		l := newLin()
		l.addTerm(ratOne, a)
		ch := false
		r := newLin()
		r.c.Set(l.c)
		for _, t := range l.keys() {
			if v, ok := rc.intEq[t]; ok {
				r.addTerm(l.coef[t], v)
				ch = true
			} else {
				r.addTerm(l.coef[t], t)
			}
		}
		if !ch {
			return a
		}
		a = r.build(SInt)
	}
	return a
}

func (rc *ringCtx) mul(p, q poly) poly {
	r := poly{}
	rc.budget -= len(p) * len(q)
	if rc.budget < 0 {
		panic(ringErr{})
	}
	for _, a := range p {
		for _, b := range q {
			m := mulMono(a.m, b.m)
			k := m.key()
			c := new(big.Rat).Mul(a.c, b.c)
			if o, ok := r[k]; ok {
				c.Add(c, o.c)
				if c.Sign() == 0 {
					delete(r, k)
					continue
				}
			}
			r[k] = pterm{m, c}
		}
	}
	return rc.reduce(r)
}

// reduce applies square rules until fixpoint.
func (rc *ringCtx) reduce(p poly) poly {
	for iter := 0; ; iter++ {
		var hit *pterm
		var hk string
		var hi int
		for k, t := range p {
			for i, part := range t.m {
				if part.exp >= 2 {
					if rc.sqRule(part.atom) != nil {
						tt := t
						hit, hk, hi = &tt, k, i
						break
					}
				}
			}
			if hit != nil {
				break
			}
		}
		if hit == nil {
			return p
		}
		rc.budget -= 5
		if rc.budget < 0 || iter > 20000 {
			panic(ringErr{})
		}
		delete(p, hk)
		rest := make(mono, 0, len(hit.m))
		for i, part := range hit.m {
			if i == hi {
				if part.exp > 2 {
					rest = append(rest, monoPart{part.atom, part.exp - 2})
				}
				continue
			}
			rest = append(rest, part)
		}
		rp := poly{rest.key(): {rest, hit.c}}
		rule := rc.sqRule(hit.m[hi].atom)
		// multiply without recursion into reduce
		for _, a := range rp {
			for _, b := range rule {
				m := mulMono(a.m, b.m)
				k := m.key()
				c := new(big.Rat).Mul(a.c, b.c)
				if o, ok := p[k]; ok {
					c.Add(c, o.c)
					if c.Sign() == 0 {
						delete(p, k)
						continue
					}
				}
				p[k] = pterm{m, c}
			}
		}
	}
}

func (rc *ringCtx) sqRule(a *Term) poly {
	if r, ok := rc.sq[a]; ok {
		return r
	}
	var r poly
	if a.op == OApp && a.name == "sin" {
		c := mkApp(SReal, "cos", a.args[0])
		m := mono{{c, 2}}
		r = poly{"": {nil, ratOne}, m.key(): {m, big.NewRat(-1, 1)}}
	}
	if a.op == OApp && a.name == "sqrt" {
		rc.sq[a] = nil
		f := rc.norm(a.args[0])
		if len(f.den) == 0 {
			r = f.num
		}
	}
	rc.sq[a] = r
	return r
}

type ratfun struct {
	num poly
	den map[string]int // factor key -> exponent
}

func polyKey(p poly) string {
	ks := make([]string, 0, len(p))
	for k, t := range p {
		ks = append(ks, k+"*"+t.c.RatString())
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

func (rc *ringCtx) facPow(den map[string]int) poly {
	p := pconst(ratOne)
	for k, e := range den {
		for i := 0; i < e; i++ {
			p = rc.mul(p, rc.facOf[k])
		}
	}
	return p
}

func (rc *ringCtx) add(a, b *ratfun) *ratfun {
	// common denominator
	if len(a.den) == 0 && len(b.den) == 0 {
		return &ratfun{num: a.num.addScaled(b.num, ratOne)}
	}
	den := map[string]int{}
	for k, e := range a.den {
		den[k] = e
	}
	for k, e := range b.den {
		if e > den[k] {
			den[k] = e
		}
	}
	da, db := map[string]int{}, map[string]int{}
	for k, e := range den {
		if d := e - a.den[k]; d > 0 {
			da[k] = d
		}
		if d := e - b.den[k]; d > 0 {
			db[k] = d
		}
	}
	n := rc.mul(a.num, rc.facPow(da)).addScaled(rc.mul(b.num, rc.facPow(db)), ratOne)
	if len(n) == 0 {
		return &ratfun{num: n}
	}
	return &ratfun{num: n, den: den}
}

func (rc *ringCtx) mulr(a, b *ratfun) *ratfun {
	den := map[string]int{}
	for k, e := range a.den {
		den[k] += e
	}
	for k, e := range b.den {
		den[k] += e
	}
	return rc.cancel(&ratfun{num: rc.mul(a.num, b.num), den: den})
}

// cancel single-monomial denominators' atoms that divide every numerator term
func (rc *ringCtx) cancel(f *ratfun) *ratfun {
	for k := range f.den {
		for f.den[k] > 0 {
			fp := rc.facOf[k]
			if polyKey(f.num) == k {
				f.num = pconst(ratOne)
				f.den[k]--
				continue
			}
			if len(fp) != 1 {
				break
			}
			var ft pterm
			for _, t := range fp {
				ft = t
			}
			ok := len(f.num) > 0
			for _, t := range f.num {
				if !divides(ft.m, t.m) {
					ok = false
					break
				}
			}
			if !ok {
				break
			}
			np := poly{}
			for _, t := range f.num {
				m := quoMono(t.m, ft.m)
				np[m.key()] = pterm{m, new(big.Rat).Quo(t.c, ft.c)}
			}
			f.num = np
			f.den[k]--
		}
		if f.den[k] == 0 {
			delete(f.den, k)
		}
	}
	return f
}
func hasAtom(p poly, a *Term) bool {
	for _, t := range p {
		for _, q := range t.m {
			if q.atom == a {
				return true
			}
		}
	}
	return false
}
func divides(a, b mono) bool {
	for _, p := range a {
		ok := false
		for _, q := range b {
			if q.atom == p.atom && q.exp >= p.exp {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
func quoMono(b, a mono) mono {
	var r mono
	for _, q := range b {
		e := q.exp
		for _, p := range a {
			if p.atom == q.atom {
				e -= p.exp
			}
		}
		if e > 0 {
			r = append(r, monoPart{q.atom, e})
		}
	}
	return r
}

func (rc *ringCtx) norm(t *Term) *ratfun {
	if f, ok := rc.memo[t]; ok {
		if f == nil {
			panic(ringErr{})
		}
		return f
	}
	rc.memo[t] = nil
	f := rc.norm1(t)
	rc.memo[t] = f
	return f
}

func (rc *ringCtx) norm1(t *Term) *ratfun {
	switch t.op {
	case OConst:
		return &ratfun{num: pconst(t.rat)}
	case OAdd:
		r := rc.norm(t.args[0])
		for _, a := range t.args[1:] {
			r = rc.add(r, rc.norm(a))
		}
		return r
	case OMul:
		r := rc.norm(t.args[0])
		for _, a := range t.args[1:] {
			r = rc.mulr(r, rc.norm(a))
		}
		return r
	case OToReal:
		if t.args[0].op == OMul {
			var r *ratfun
			for _, a := range t.args[0].args {
				f := rc.norm(tToReal(a))
				if r == nil {
					r = f
				} else {
					r = rc.mulr(r, f)
				}
			}
			return r
		}
	case ODiv:
		a, b := rc.norm(t.args[0]), rc.norm(t.args[1])
		if len(b.num) == 0 {
			break
		}
		// rationalise: 1/sqrt(s) = sqrt(s)/s
		if len(b.num) == 1 && len(b.den) == 0 {
			for _, pt := range b.num {
				if len(pt.m) == 1 && pt.m[0].exp == 1 && pt.m[0].atom.op == OApp && pt.m[0].atom.name == "sqrt" {
					if rule := rc.sqRule(pt.m[0].atom); rule != nil && len(rule) > 0 {
						k := polyKey(rule)
						rc.facOf[k] = rule
						n := patom(pt.m[0].atom)
						inv := new(big.Rat).Inv(pt.c)
						f := &ratfun{num: poly{}.addScaled(n, inv), den: map[string]int{k: 1}}
						return rc.mulr(a, f)
					}
				}
			}
		}
		k := polyKey(b.num)
		rc.facOf[k] = b.num
		f := &ratfun{num: rc.facPow(b.den), den: map[string]int{k: 1}}
		return rc.mulr(a, f)
	}
	t = rc.canonAtom(t)
	// atom
	if p, ok := rc.subst[t]; ok {
		return &ratfun{num: p}
	}
	t, sg := rc.congruent(t)
	p, ok := rc.subst[t]
	if !ok {
		p = patom(t)
	}
	if sg < 0 {
		p = poly{}.addScaled(p, big.NewRat(-1, 1))
	}
	return &ratfun{num: p}
}

// ringProve tries to show goal from hyps by normalisation.
func ringProve(hyps []*Term, goal *Term) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(ringErr); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	switch goal.op {
	case OTrue:
		return true
	case OAnd:
		for _, g := range goal.args {
			if !ringProve(hyps, g) {
				return false
			}
		}
		return true
	case OEq0:
		if goal.args[0].sort != SReal {
			return false
		}
	case OLe:
		// t <= 0 where t is identically 0
		if goal.args[0].sort != SReal {
			return false
		}
	default:
		return false
	}
	if hasIteTop(goal.args[0], 0) && goal.op == OLe {
		return false
	}
	rc := &ringCtx{subst: map[*Term]poly{}, sq: map[*Term]poly{}, memo: map[*Term]*ratfun{}, budget: 3000000, facOf: map[string]poly{}, intEq: intEqs(hyps)}
	// equational hypotheses: v = rest (linear) or v^2 = rest
	for _, h := range hyps {
		if h.op != OEq0 || h.args[0].sort != SReal || h.size > 200 {
			continue
		}
		l := newLin()
		l.addTerm(ratOne, h.args[0])
		done := false
		for _, k := range l.keys() {
			if (k.op == OVar || k.op == OApp && k.name != "sqrt") && rc.subst[k] == nil {
				rest := newLin()
				rest.c.Neg(l.c)
				for t, c := range l.coef {
					if t != k {
						rest.coef[t] = new(big.Rat).Neg(c)
					}
				}
				inv := new(big.Rat).Inv(l.coef[k])
				rt := tMul(mkReal(inv), rest.build(SReal))
				if occurs(k, rt) {
					continue
				}
				f := rc.norm(rt)
				if len(f.den) != 0 {
					continue
				}
				rc.memo, rc.reps = map[*Term]*ratfun{}, nil
				if kc := rc.canonAtom(k); kc != k {
					if rc.subst[kc] == nil && !hasAtom(f.num, kc) {
						rc.subst[kc] = f.num
					}
				} else {
					rc.subst[k] = f.num
				}
				done = true
				break
			}
		}
		if done {
			continue
		}
		for _, k := range l.keys() {
			if k.op == OMul && len(k.args) == 2 && k.args[0] == k.args[1] && (k.args[0].op == OVar || k.args[0].op == OApp && k.args[0].name != "sqrt") {
				v := k.args[0]
				if rc.subst[v] != nil || rc.sq[v] != nil {
					continue
				}
				rest := newLin()
				rest.c.Neg(l.c)
				for t, c := range l.coef {
					if t != k {
						rest.coef[t] = new(big.Rat).Neg(c)
					}
				}
				rt := tMul(mkReal(new(big.Rat).Inv(l.coef[k])), rest.build(SReal))
				if occurs(v, rt) {
					continue
				}
				f := rc.norm(rt)
				if len(f.den) != 0 {
					continue
				}
				rc.memo, rc.reps = map[*Term]*ratfun{}, nil
				rc.sq[v] = f.num
				break
			}
		}
	}
	rc.memo, rc.reps = map[*Term]*ratfun{}, nil
	f := rc.norm(goal.args[0])
	if len(f.num) == 0 {
		return true
	}
	return rc.reduceByHyps(f.num, hyps)
}

// monoLess is the graded lexicographic order (older atoms are smaller).
func monoLess(a, b mono) bool {
	da, db := 0, 0
	for _, p := range a {
		da += p.exp
	}
	for _, p := range b {
		db += p.exp
	}
	if da != db {
		return da < db
	}
	i, j := len(a)-1, len(b)-1
	for i >= 0 && j >= 0 {
		if a[i].atom != b[j].atom {
			return a[i].atom.id < b[j].atom.id
		}
		if a[i].exp != b[j].exp {
			return a[i].exp < b[j].exp
		}
		i--
		j--
	}
	return i < 0 && j >= 0
}

// reduceByHyps rewrites p with the polynomial hypotheses (leading monomial
// to the rest) until it vanishes or no rule applies: a membership certificate.
func (rc *ringCtx) reduceByHyps(p poly, hyps []*Term) bool {
	type rule struct {
		lead mono
		rest poly // lead = rest
	}
	var rules []rule
	for _, h := range hyps {
		if h.op != OEq0 || h.args[0].sort != SReal || h.size > 4000 {
			continue
		}
		f := rc.norm(h.args[0])
		if len(f.den) != 0 || len(f.num) == 0 {
			continue
		}
		var lead pterm
		first := true
		for _, t := range f.num {
			if first || monoLess(lead.m, t.m) {
				lead, first = t, false
			}
		}
		if len(lead.m) == 0 {
			continue
		}
		rest := poly{}
		k := new(big.Rat).Neg(new(big.Rat).Inv(lead.c))
		lk := lead.m.key()
		for key, t := range f.num {
			if key != lk {
				rest[key] = pterm{t.m, new(big.Rat).Mul(t.c, k)}
			}
		}
		rules = append(rules, rule{lead.m, rest})
	}
	if len(rules) == 0 {
		return false
	}
	q := poly{}
	for k, t := range p {
		q[k] = t
	}
	for iter := 0; iter < 50000; iter++ {
		if len(q) == 0 {
			return true
		}
		// largest reducible monomial
		var best pterm
		found := -1
		for _, t := range q {
			if found >= 0 && monoLess(t.m, best.m) {
				continue
			}
			for ri, r := range rules {
				if divides(r.lead, t.m) {
					best, found = t, ri
					break
				}
			}
		}
		if found < 0 {
			return false
		}
		m := quoMono(best.m, rules[found].lead)
		mk := m.key()
		delete(q, best.m.key())
		q = q.addScaled(rc.mul(poly{mk: {m, ratOne}}, rules[found].rest), best.c)
		rc.budget -= len(q) / 8
		if rc.budget < 0 {
			panic(ringErr{})
		}
	}
	return false
}

func hasIteTop(t *Term, d int) bool { return false }

func occurs(x, t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
