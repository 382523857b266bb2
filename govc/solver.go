package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------- axioms for interpreted function symbols ----------

func axiomsFor(t *Term) []*Term {
	if t.op == OVar {
		switch t.name {
		case "PI":
			return []*Term{tLt(mkReal(ratStr("3.141592653589793")), t), tLt(t, mkReal(ratStr("3.141592653589794")))}
		case "INF":
			return []*Term{tLt(mkFloatRaw(1.7976931348623157e308), t)}
		}
		return nil
	}
	if t.op == OIDiv {
		return nil
	}
	if t.op != OApp {
		return nil
	}
	z := zeroOf(SReal)
	one := mkRealI(1)
	switch t.name {
	case "sqrt":
		a := t.args[0]
		return []*Term{tImp(tLe(z, a), tAnd(tLe(z, t), tEq(mkTerm(OMul, SReal, "", nil, t, t), a))),
			tImp(tLt(z, a), tLt(z, t))}
	case "sin":
		c := tCos(t.args[0])
		a := t.args[0]
		return []*Term{
			tEq(tAdd(tMul(t, t), tMul(c, c)), one),
			tLe(t, one), tLe(tNeg(one), t),
			tImp(tAnd(tLe(z, a), tLe(a, symPI)), tLe(z, t)),
			tImp(tAnd(tLt(z, a), tLt(a, symPI)), tLt(z, t)),
			tImp(tAnd(tLe(symPI, a), tLe(a, tMul(mkRealI(2), symPI))), tLe(t, z)),
			tImp(tAnd(tLt(symPI, a), tLt(a, tMul(mkRealI(2), symPI))), tLt(t, z)),
			tImp(tAnd(tLe(tNeg(symPI), a), tLe(a, z)), tLe(t, z)),
			tImp(tAnd(tLt(tNeg(symPI), a), tLt(a, z)), tLt(t, z)),
			tImp(tEq(a, z), tEq(t, z)),
		}
	case "cos":
		s := tSin(t.args[0])
		a := t.args[0]
		h := tMul(mkReal(big.NewRat(1, 2)), symPI)
		h3 := tMul(mkReal(big.NewRat(3, 2)), symPI)
		h5 := tMul(mkReal(big.NewRat(5, 2)), symPI)
		return []*Term{
			tEq(tAdd(tMul(t, t), tMul(s, s)), one),
			tLe(t, one), tLe(tNeg(one), t),
			tImp(tAnd(tLe(tNeg(h), a), tLe(a, h)), tLe(z, t)),
			tImp(tAnd(tLt(tNeg(h), a), tLt(a, h)), tLt(z, t)),
			tImp(tAnd(tLe(h, a), tLe(a, h3)), tLe(t, z)),
			tImp(tAnd(tLt(h, a), tLt(a, h3)), tLt(t, z)),
			tImp(tAnd(tLe(h3, a), tLe(a, h5)), tLe(z, t)),
			tImp(tEq(a, z), tEq(t, one)),
		}
	case "atan2":
		y, x := t.args[0], t.args[1]
		r := tSqrt(tAdd(tMul(x, x), tMul(y, y)))
		return []*Term{
			tEq(tMul(r, tCos(t)), x), tEq(tMul(r, tSin(t)), y),
			tLt(tNeg(symPI), t), tLe(t, symPI),
		}
	case "atan":
		h := tMul(mkReal(big.NewRat(1, 2)), symPI)
		return []*Term{tLt(tNeg(h), t), tLt(t, h), tEq(tSin(t), tMul(t.args[0], tCos(t))), tLt(z, tCos(t))}
	case "acos":
		a := t.args[0]
		return []*Term{tImp(tAnd(tLe(tNeg(one), a), tLe(a, one)), tAnd(tLe(z, t), tLe(t, symPI), tEq(tCos(t), a)))}
	case "asin":
		a := t.args[0]
		h := tMul(mkReal(big.NewRat(1, 2)), symPI)
		return []*Term{tImp(tAnd(tLe(tNeg(one), a), tLe(a, one)), tAnd(tLe(tNeg(h), t), tLe(t, h), tEq(tSin(t), a), tLe(z, tCos(t))))}
	case "exp":
		return []*Term{tLt(z, t)}
	case "log":
		return []*Term{tImp(tLt(z, t.args[0]), tEq(mkApp(SReal, "exp", t), t.args[0]))}
	case "pow": // real base, exponent b
		a, b := t.args[0], t.args[1]
		return []*Term{
			tImp(tLe(z, a), tLe(z, t)),
			tImp(tLt(z, a), tLt(z, t)),
			tImp(tAnd(tEq(a, z), tLt(z, b)), tEq(t, z)),
			tImp(tAnd(tLe(z, a), tLe(a, one), tLe(z, b)), tLe(t, one)),
			tImp(tAnd(tLe(one, a), tLe(z, b)), tLe(one, t)),
			tImp(tEq(a, one), tEq(t, one)),
			tImp(tEq(b, z), tEq(t, one)),
			tImp(tEq(b, one), tEq(t, a)),
			tImp(tEq(b, mkRealI(2)), tEq(t, tMul(a, a))),
			tImp(tEq(b, mkRealI(3)), tEq(t, tMul(a, tMul(a, a)))),
		}
	case "log2":
		var ax []*Term
		for _, k := range []int64{0, 1, 2, 4, 8, 16, 24, 32, 48} {
			c, e := mkRealI(1<<uint(k)), mkRealI(k)
			ax = append(ax, tImp(tLt(z, t.args[0]), tAnd(tEq(tLe(c, t.args[0]), tLe(e, t)), tEq(tLe(t.args[0], c), tLe(t, e)))))
		}
		return ax
	case "f32bits":
		return []*Term{tLe(mkInt(0), t), tLe(t, mkInt(1<<32-1))}
	case "pow2":
		return []*Term{tImp(tLe(mkInt(0), t.args[0]), tLe(mkInt(1), t)), tImp(tEq(mkInt(0), t.args[0]), tEq(mkInt(1), t)), tImp(tEq(mkInt(1), t.args[0]), tEq(mkInt(2), t))}
	}
	if strings.HasPrefix(t.name, "u8:") {
		return []*Term{tLe(mkInt(0), t), tLe(t, mkInt(255))}
	}
	if strings.HasPrefix(t.name, "u32:") {
		return []*Term{tLe(mkInt(0), t), tLe(t, mkInt(1<<32-1))}
	}
	return nil
}

func ratStr(s string) *big.Rat { r, _ := new(big.Rat).SetString(s); return r }
func mkFloatRaw(f float64) *Term {
	return mkReal(new(big.Rat).SetFloat64(f))
}

func shiftPI(a *Term) (rest *Term, quarter int) {
	l := newLin()
	l.addTerm(ratOne, a)
	if c, ok := l.coef[symPI]; ok {
		// c = q/2 + r with r in [0,1/2)
		x := new(big.Rat).Mul(c, big.NewRat(2, 1))
		n, m := new(big.Int), new(big.Int)
		n.DivMod(x.Num(), x.Denom(), m)
		q := new(big.Int).Mod(n, big.NewInt(4)).Int64()
		if n.Sign() != 0 {
			r := new(big.Rat).Sub(c, new(big.Rat).Quo(new(big.Rat).SetInt(n), big.NewRat(2, 1)))
			if r.Sign() == 0 {
				delete(l.coef, symPI)
			} else {
				l.coef[symPI] = r
			}
			return l.build(SReal), int(q)
		}
	}
	return a, 0
}
func leadingNeg(a *Term) bool {
	l := newLin()
	l.addTerm(ratOne, a)
	ks := l.keys()
	if len(ks) == 0 {
		return l.c.Sign() < 0
	}
	return l.coef[ks[0]].Sign() < 0
}
func piFrac(a *Term) *big.Rat { // a = c*PI
	if a.isZero() {
		return new(big.Rat)
	}
	l := newLin()
	l.addTerm(ratOne, a)
	if len(l.coef) == 1 && l.c.Sign() == 0 {
		if c, ok := l.coef[symPI]; ok {
			return c
		}
	}
	return nil
}
func sinTable(c *big.Rat) *Term { // c in [0,1/2)
	half := func(t *Term) *Term { return tMul(mkReal(big.NewRat(1, 2)), t) }
	switch c.RatString() {
	case "0":
		return mkRealI(0)
	case "1/6":
		return mkReal(big.NewRat(1, 2))
	case "1/4":
		return half(tSqrt(mkRealI(2)))
	case "1/3":
		return half(tSqrt(mkRealI(3)))
	}
	return nil
}
func cosTable(c *big.Rat) *Term {
	half := func(t *Term) *Term { return tMul(mkReal(big.NewRat(1, 2)), t) }
	switch c.RatString() {
	case "0":
		return mkRealI(1)
	case "1/6":
		return half(tSqrt(mkRealI(3)))
	case "1/4":
		return half(tSqrt(mkRealI(2)))
	case "1/3":
		return mkReal(big.NewRat(1, 2))
	}
	return nil
}
func tSin(a *Term) *Term { return tTrig(a, 0) }
func tCos(a *Term) *Term { return tTrig(a, 1) }
func tTrig(a *Term, k int) *Term {
	r, q := shiftPI(a)
	switch (q + k) % 4 { // sin(x + q*pi/2): q=0 sin,1 cos,2 -sin,3 -cos ; cos = sin shifted by 1
	case 0:
		return sinBase(r)
	case 1:
		return cosBase(r)
	case 2:
		return tNeg(sinBase(r))
	}
	return tNeg(cosBase(r))
}
func sinBase(a *Term) *Term {
	if c := piFrac(a); c != nil {
		if t := sinTable(c); t != nil {
			return t
		}
	}
	if leadingNeg(a) {
		n := tNeg(a)
		if n2, q := shiftPI(n); q == 0 && n2 == n {
			return tNeg(mkApp(SReal, "sin", n))
		}
		return tNeg(tTrig(n, 0))
	}
	return mkApp(SReal, "sin", a)
}
func cosBase(a *Term) *Term {
	if c := piFrac(a); c != nil {
		if t := cosTable(c); t != nil {
			return t
		}
	}
	if leadingNeg(a) {
		n := tNeg(a)
		if n2, q := shiftPI(n); q == 0 && n2 == n {
			return mkApp(SReal, "cos", n)
		}
		return tTrig(n, 1)
	}
	return mkApp(SReal, "cos", a)
}

// ---------- SMT-LIB printing ----------

type smtPrinter struct {
	decls   []string
	declSet map[string]bool
	defs    []string
	names   map[*Term]string
	ref     map[*Term]int
	purify  bool
	apps    map[string][]*Term
	nonlin  bool
}

func smtName(n string) string { return "|" + n + "|" }

func collect(roots []*Term) (all []*Term, ref map[*Term]int) {
	ref = map[*Term]int{}
	var rec func(t *Term)
	rec = func(t *Term) {
		ref[t]++
		if ref[t] > 1 {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		all = append(all, t)
	}
	for _, r := range roots {
		rec(r)
	}
	return
}

// closeAxioms returns the axiom instances needed for terms in roots.
func closeAxioms(roots []*Term) []*Term {
	seen := map[*Term]bool{}
	var out, exps, pows []*Term
	queue := append([]*Term(nil), roots...)
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		if seen[t] {
			continue
		}
		seen[t] = true
		queue = append(queue, t.args...)
		for _, a := range axiomsFor(t) {
			if a == tTrue {
				continue
			}
			out = append(out, a)
			queue = append(queue, a)
		}
		// exp is strictly increasing
		if t.op == OApp && t.name == "exp" && len(exps) < 8 {
			for _, u := range exps {
				a := tAnd(tImp(tLt(t.args[0], u.args[0]), tLt(t, u)), tImp(tLt(u.args[0], t.args[0]), tLt(u, t)))
				out = append(out, a)
				queue = append(queue, a)
			}
			exps = append(exps, t)
		}
		if t.op == OApp && (t.name == "pow2" || t.name == "log2") && len(pows) < 8 {
			for _, u := range pows {
				var a *Term
				switch {
				case t.name == "pow2" && u.name == "pow2":
					p, q := t.args[0], u.args[0]
					a = tImp(tAnd(tLe(mkInt(0), p), tLe(mkInt(0), q)), tAnd(
						tImp(tLt(p, q), tLe(tMul(mkInt(2), t), u)), tImp(tLt(q, p), tLe(tMul(mkInt(2), u), t)),
						tImp(tEq(q, tAdd(p, mkInt(1))), tEq(tMul(mkInt(2), t), u)), tImp(tEq(p, tAdd(q, mkInt(1))), tEq(tMul(mkInt(2), u), t))))
				case t.name == "log2" && u.name == "log2":
					continue
				default:
					p, l := t, u
					if p.name == "log2" {
						p, l = u, t
					}
					z := l.args[0]
					a = tImp(tAnd(tLt(zeroOf(SReal), z), tLe(mkInt(0), p.args[0])), tEq(tLe(z, tToReal(p)), tLe(l, tToReal(p.args[0]))))
				}
				out = append(out, a)
				queue = append(queue, a)
			}
			pows = append(pows, t)
		}
	}
	return out
}

func (p *smtPrinter) decl(name string, args []Sort, ret Sort) {
	if p.declSet[name] {
		return
	}
	p.declSet[name] = true
	var as []string
	for _, a := range args {
		as = append(as, a.String())
	}
	p.decls = append(p.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", smtName(name), strings.Join(as, " "), ret))
}

func ratSMT(r *big.Rat, s Sort) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var o string
	if s == SInt {
		o = a.Num().String()
	} else if a.IsInt() {
		o = a.Num().String() + ".0"
	} else {
		o = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		o = "(- " + o + ")"
	}
	return o
}

func (p *smtPrinter) term(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.raw(t)
	if p.ref[t] > 1 && len(t.args) > 0 {
		n := fmt.Sprintf("t%d", t.id)
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, t.sort, s))
		p.names[t] = n
		return n
	}
	return s
}

func (p *smtPrinter) raw(t *Term) string {
	switch t.op {
	case OConst:
		return ratSMT(t.rat, t.sort)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		p.decl(t.name, nil, t.sort)
		return smtName(t.name)
	}
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = p.term(a)
	}
	args := strings.Join(as, " ")
	switch t.op {
	case OApp:
		if p.purify {
			n := fmt.Sprintf("app%d", t.id)
			p.decl(n, nil, t.sort)
			key := t.name + fmt.Sprint(len(t.args))
			p.apps[key] = append(p.apps[key], t)
			p.names[t] = smtName(n)
			return smtName(n)
		}
		var ss []Sort
		nm := t.name + "~"
		for _, a := range t.args {
			ss = append(ss, a.sort)
			nm += a.sort.String()[:1]
		}
		p.decl(nm, ss, t.sort)
		return "(" + smtName(nm) + " " + args + ")"
	case OAdd:
		return "(+ " + args + ")"
	case OMul:
		return "(* " + args + ")"
	case ODiv:
		return "(/ " + args + ")"
	case OIDiv:
		return "(div " + args + ")"
	case OIMod:
		return "(mod " + args + ")"
	case OLe:
		return "(<= " + args + " " + ratSMT(new(big.Rat), t.args[0].sort) + ")"
	case OLt:
		return "(< " + args + " " + ratSMT(new(big.Rat), t.args[0].sort) + ")"
	case OEq0:
		return "(= " + args + " " + ratSMT(new(big.Rat), t.args[0].sort) + ")"
	case OIff:
		return "(= " + args + ")"
	case OAnd:
		return "(and " + args + ")"
	case OOr:
		return "(or " + args + ")"
	case ONot:
		return "(not " + args + ")"
	case OIte:
		return "(ite " + args + ")"
	case OToReal:
		return "(to_real " + args + ")"
	case OFloor:
		return "(to_int " + args + ")"
	}
	panic("raw")
}

func smtScript(asserts []*Term, purify bool, getVals []*Term, logic string) string {
	ax := closeAxioms(asserts)
	all := append(append([]*Term(nil), asserts...), ax...)
	roots := append(append([]*Term(nil), all...), getVals...)
	_, ref := collect(roots)
	p := &smtPrinter{declSet: map[string]bool{}, names: map[*Term]string{}, ref: ref, purify: purify, apps: map[string][]*Term{}}
	var asr []string
	for _, a := range all {
		asr = append(asr, "(assert "+p.term(a)+")")
	}
	if purify {
		var keys []string
		for k := range p.apps {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			l := p.apps[k]
			uniq := l[:0:0]
			seen := map[*Term]bool{}
			for _, t := range l {
				if !seen[t] {
					seen[t] = true
					uniq = append(uniq, t)
				}
			}
			if len(uniq) > 14 {
				continue
			}
			for i := range uniq {
				for j := i + 1; j < len(uniq); j++ {
					a, b := uniq[i], uniq[j]
					var eqs []string
					for x := range a.args {
						if a.args[x] != b.args[x] {
							eqs = append(eqs, "(= "+p.term(a.args[x])+" "+p.term(b.args[x])+")")
						}
					}
					asr = append(asr, "(assert (=> (and true "+strings.Join(eqs, " ")+") (= "+p.names[a]+" "+p.names[b]+")))")
				}
			}
		}
	}
	var gv []string
	for _, g := range getVals {
		gv = append(gv, p.term(g))
	}
	var sb strings.Builder
	if logic != "" {
		sb.WriteString("(set-logic " + logic + ")\n")
	}
	for _, d := range p.decls {
		sb.WriteString(d + "\n")
	}
	for _, d := range p.defs {
		sb.WriteString(d + "\n")
	}
	for _, a := range asr {
		sb.WriteString(a + "\n")
	}
	return sb.String() + "\x00" + strings.Join(gv, " ")
}

// ---------- solver processes ----------

type satResult int

const (
	resUnknown satResult = iota
	resSat
	resUnsat
)

var solverSem = make(chan struct{}, 9)
var statSolverCalls, statSolverMS int64
var statBy sync.Map

func runProc(ctx context.Context, timeout time.Duration, stdin string, name string, args ...string) string {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return ""
	}
	defer func() { <-solverSem }()
	c, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	cmd := exec.CommandContext(c, name, args...)
	cmd.Stdin = strings.NewReader(stdin)
	var out bytes.Buffer
	cmd.Stdout = &out
	t0 := time.Now()
	cmd.Run()
	atomic.AddInt64(&statSolverCalls, 1)
	atomic.AddInt64(&statSolverMS, time.Since(t0).Milliseconds())
	return out.String()
}

type solverCfg struct {
	name   string
	purify bool
	linear bool // drop nonlinear hypotheses
	cmd    func(script string, vals string, tmo int) (stdin string, name string, args []string)
}

func z3in(check string) func(string, string, int) (string, string, []string) {
	return func(script, vals string, tmo int) (string, string, []string) {
		s := script + check + "\n"
		if vals != "" {
			s += "(get-value (" + vals + "))\n"
		}
		return s, "z3-new", []string{"-in", fmt.Sprintf("-t:%d", tmo*1000), "-memory:3000"}
	}
}

var solverCfgs = []solverCfg{
	{"z3-new", false, false, z3in("(check-sat)")},
	{"z3-new/nlsat", true, false, z3in("(check-sat-using (then simplify purify-arith propagate-values elim-term-ite solve-eqs simplify tseitin-cnf qfnra-nlsat))")},
	{"cvc5", false, false, func(script, vals string, tmo int) (string, string, []string) {
		return "(set-option :produce-models true)\n(set-logic ALL)\n" + script + "(check-sat)\n", "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", tmo*1000), "--nl-cov"}
	}},
	{"z3-4.8", false, false, func(script, vals string, tmo int) (string, string, []string) {
		return script + "(check-sat)\n", "z3", []string{"-in", fmt.Sprintf("-t:%d", tmo*1000), "-memory:3000"}
	}},
	{"z3-new/lin", false, true, z3in("(check-sat)")},
	{"z3-new/arith2", true, false, z3in("(set-option :smt.arith.solver 2)(check-sat)")},
}

func isNonlinear(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OMul {
			n := 0
			for _, a := range t.args {
				if a.op != OConst {
					n++
				}
			}
			if n > 1 {
				return true
			}
		}
		if t.op == ODiv {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

type proofResult struct {
	res    satResult
	by     string
	model  map[string]string
	script string
	ms     int64
}

// ringGoal: a conjunction of real equations.
func ringGoal(g *Term) bool {
	switch g.op {
	case OAnd:
		for _, a := range g.args {
			if !ringGoal(a) {
				return false
			}
		}
		return true
	case OEq0:
		return g.args[0].sort == SReal
	}
	return false
}

func intOnly(t *Term) bool {
	switch t.op {
	case ONot:
		return intOnly(t.args[0])
	case OAnd, OOr:
		for _, a := range t.args {
			if !intOnly(a) {
				return false
			}
		}
		return true
	case OLe, OLt, OEq0:
		return t.args[0].sort == SInt && t.size < 60
	}
	return false
}

var unguardMemo sync.Map

// unguard turns hypotheses (int guard -> fact) whose guard follows from the
// other integer hypotheses into facts, and splits conjunctions.
func unguard(hyps []*Term) ([]*Term, bool) {
	var out, ints, cand []*Term
	var add func(h *Term)
	add = func(h *Term) {
		switch {
		case h.op == OAnd:
			for _, a := range h.args {
				add(a)
			}
		case intOnly(h):
			ints = append(ints, h)
			out = append(out, h)
		case h.op == OOr:
			cand = append(cand, h)
		default:
			out = append(out, h)
		}
	}
	for _, h := range hyps {
		add(h)
	}
	hit := false
	base := ""
	for _, h := range ints {
		base += fmt.Sprint(h.id, ",")
	}
	for _, h := range cand {
		var guard []*Term
		var rest *Term
		n := 0
		for _, a := range h.args {
			if intOnly(a) {
				guard = append(guard, a)
			} else {
				rest = a
				n++
			}
		}
		if n != 1 || len(guard) == 0 {
			out = append(out, h)
			continue
		}
		// the fact holds when every integer disjunct is false
		key := base + "|" + fmt.Sprint(h.id)
		v, ok := unguardMemo.Load(key)
		if !ok {
			g := tOr(guard...)
			sc := smtScript(append(append([]*Term(nil), ints...), g), false, nil, "")
			sc = sc[:strings.IndexByte(sc, 0)]
			o := runProc(ctxBG, 3*time.Second, sc+"(check-sat)\n", "z3-new", "-in", "-t:1000", "-memory:2000")
			v = strings.HasPrefix(o, "unsat")
			unguardMemo.Store(key, v)
		}
		if v.(bool) {
			hit = true
			if rest.op == OAnd {
				out = append(out, rest.args...)
			} else {
				out = append(out, rest)
			}
		} else {
			out = append(out, h)
		}
	}
	return out, hit
}

// prove tries to show hyps |= goal.
func prove(hyps []*Term, goal *Term, vals []*Term, quick, full int) proofResult {
	return proveSplit(hyps, goal, vals, quick, full, true)
}

var dbgSplit = os.Getenv("GOVC_DEBUG") == "split"

func proveSplit(hyps []*Term, goal *Term, vals []*Term, quick, full int, split bool) proofResult {
	t0 := time.Now()
	done := func(r proofResult) proofResult {
		r.ms = time.Since(t0).Milliseconds()
		return r
	}
	if goal == tTrue {
		return done(proofResult{res: resUnsat, by: "syntactic"})
	}
	for _, h := range hyps {
		if h == goal || h == tFalse {
			return done(proofResult{res: resUnsat, by: "syntactic"})
		}
	}
	// int guard -> goal: the guard becomes a hypothesis
	if goal.op == OOr {
		var rest *Term
		n := 0
		var g []*Term
		for _, a := range goal.args {
			if intOnly(a) {
				g = append(g, tNot(a))
			} else {
				rest = a
				n++
			}
		}
		if n == 1 && len(g) > 0 {
			hyps = append(append([]*Term(nil), hyps...), g...)
			goal = rest
		}
	}
	if ringProve(hyps, goal) {
		return done(proofResult{res: resUnsat, by: "ring"})
	}
	if ringGoal(goal) {
		if uh, ok := unguard(hyps); ok && ringProve(uh, goal) {
			return done(proofResult{res: resUnsat, by: "ring"})
		}
	}
	if os.Getenv("GOVC_DEBUG") == "ring" && ringGoal(goal) {
		fmt.Fprintf(os.Stderr, "RING fails %v\n", goal)
		uh, _ := unguard(hyps)
		for _, h := range uh {
			fmt.Fprintf(os.Stderr, "    %v\n", h)
		}
		fmt.Fprintf(os.Stderr, "  eqs %v\n", intEqs(uh))
	}
	neg := tNot(goal)
	// stage 1: default solver with the relevant hypotheses
	as := append(append([]*Term(nil), hyps...), neg)
	rel := relevant(hyps, goal)
	run := func(ctx context.Context, cfg solverCfg, asserts []*Term, tmo int) (satResult, string, string) {
		sc := smtScript(asserts, cfg.purify, vals, "")
		i := strings.IndexByte(sc, 0)
		script, gv := sc[:i], sc[i+1:]
		in, name, args := cfg.cmd(script, gv, tmo)
		out := runProc(ctx, time.Duration(tmo+2)*time.Second, in, name, args...)
		first := out
		if j := strings.IndexByte(out, '\n'); j >= 0 {
			first = out[:j]
		}
		switch strings.TrimSpace(first) {
		case "sat":
			return resSat, out, in
		case "unsat":
			return resUnsat, out, in
		}
		if os.Getenv("GOVC_DEBUG") == "smt" && strings.Contains(out, "error") {
			fmt.Fprintln(os.Stderr, cfg.name, out)
		}
		return resUnknown, out, in
	}
	bg := context.Background()
	r, out, script := run(bg, solverCfgs[0], append(append([]*Term(nil), rel...), neg), quick)
	if r == resUnsat {
		return done(proofResult{res: resUnsat, by: solverCfgs[0].name})
	}
	if r == resSat && len(rel) == len(hyps) {
		return done(proofResult{res: resSat, by: solverCfgs[0].name, model: parseModel(out, vals), script: script})
	}
	if full <= 0 {
		if r == resSat {
			r2, out2, s2 := run(bg, solverCfgs[0], as, quick)
			if r2 == resUnsat {
				return done(proofResult{res: resUnsat, by: solverCfgs[0].name})
			}
			if r2 == resSat {
				return done(proofResult{res: resSat, by: solverCfgs[0].name, model: parseModel(out2, vals), script: s2})
			}
		}
		return done(proofResult{res: resUnknown, script: script})
	}
	if split && isNonlinear(goal) && splitProve(hyps, goal, quick) {
		return done(proofResult{res: resUnsat, by: solverCfgs[0].name + "/split"})
	}
	// stage 2: portfolio
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	type ans struct {
		r      satResult
		out    string
		script string
		cfg    solverCfg
		full   bool
	}
	ch := make(chan ans, 16)
	n := 0
	launch := func(cfg solverCfg, asserts []*Term, isFull bool) {
		n++
		go func() {
			r, o, s := run(ctx, cfg, asserts, full)
			ch <- ans{r, o, s, cfg, isFull}
		}()
	}
	for _, cfg := range solverCfgs {
		a := as
		isFull := true
		if cfg.linear {
			a = nil
			for _, h := range hyps {
				if !isNonlinear(h) {
					a = append(a, h)
				}
			}
			if len(a) == len(hyps) {
				continue
			}
			isFull = false
			a = append(a, neg)
		}
		launch(cfg, a, isFull)
	}
	if len(rel) < len(hyps) {
		launch(solverCfgs[1], append(append([]*Term(nil), rel...), neg), false)
	}
	if ra, ok := relaxExtremes(as); ok {
		launch(solverCfgs[0], ra, false)
		launch(solverCfgs[1], ra, false)
	}
	var model map[string]string
	sat := false
	for i := 0; i < n; i++ {
		a := <-ch
		if a.r == resUnsat {
			return done(proofResult{res: resUnsat, by: a.cfg.name})
		}
		if a.r == resSat && a.full {
			sat = true
			if m := parseModel(a.out, vals); len(m) > 0 {
				model = m
			}
			script = a.script
			return done(proofResult{res: resSat, by: a.cfg.name, model: model, script: script})
		}
	}
	_ = sat
	return done(proofResult{res: resUnknown, script: script})
}

// relevant keeps hypotheses connected (two hops) to the goal by shared symbols.
func relevant(hyps []*Term, goal *Term) []*Term {
	if len(hyps) < 12 {
		return hyps
	}
	syms := func(t *Term, m map[*Term]bool) {
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == OVar || t.op == OApp {
				if t != symPI {
					m[t] = true
				}
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
	}
	cur := map[*Term]bool{}
	syms(goal, cur)
	hs := make([]map[*Term]bool, len(hyps))
	for i, h := range hyps {
		hs[i] = map[*Term]bool{}
		syms(h, hs[i])
	}
	keep := make([]bool, len(hyps))
	for hop := 0; hop < 3; hop++ {
		add := map[*Term]bool{}
		for i := range hyps {
			if keep[i] {
				continue
			}
			hit := len(hs[i]) == 0
			for s := range hs[i] {
				if cur[s] {
					hit = true
					break
				}
			}
			if hit {
				keep[i] = true
				for s := range hs[i] {
					add[s] = true
				}
			}
		}
		for s := range add {
			cur[s] = true
		}
	}
	var out []*Term
	for i, h := range hyps {
		if keep[i] {
			out = append(out, h)
		}
	}
	return out
}

// parseModel reads "((expr value) ...)" pairs for OVar get-values.
func parseModel(out string, vals []*Term) map[string]string {
	i := strings.IndexByte(out, '\n')
	if i < 0 {
		return nil
	}
	rest := strings.TrimSpace(out[i+1:])
	if !strings.HasPrefix(rest, "((") {
		return nil
	}
	sx, _ := parseSexp(rest)
	m := map[string]string{}
	for _, p := range sx.list {
		if len(p.list) == 2 {
			n := strings.Trim(p.list[0].atom, "|")
			if v, ok := sexpNum(p.list[1]); ok {
				m[n] = v
			}
		}
	}
	return m
}

type sexp struct {
	atom string
	list []*sexp
	isL  bool
}

func parseSexp(s string) (*sexp, string) {
	s = strings.TrimLeft(s, " \n\t\r")
	if s == "" {
		return &sexp{}, ""
	}
	if s[0] == '(' {
		r := &sexp{isL: true}
		s = s[1:]
		for {
			s = strings.TrimLeft(s, " \n\t\r")
			if s == "" {
				return r, ""
			}
			if s[0] == ')' {
				return r, s[1:]
			}
			var c *sexp
			c, s = parseSexp(s)
			r.list = append(r.list, c)
		}
	}
	if s[0] == '|' {
		j := strings.IndexByte(s[1:], '|')
		if j < 0 {
			return &sexp{atom: s}, ""
		}
		return &sexp{atom: s[:j+2]}, s[j+2:]
	}
	j := strings.IndexAny(s, " \n\t\r()")
	if j < 0 {
		j = len(s)
	}
	return &sexp{atom: s[:j]}, s[j:]
}

func sexpNum(s *sexp) (string, bool) {
	r, ok := sexpRat(s)
	if ok {
		f, _ := r.Float64()
		if r.IsInt() && r.Num().IsInt64() {
			return r.Num().String(), true
		}
		return fmt.Sprintf("%.17g", f), true
	}
	if s.atom == "true" || s.atom == "false" {
		return s.atom, true
	}
	return "", false
}
func sexpRat(s *sexp) (*big.Rat, bool) {
	if !s.isL {
		a := strings.TrimSuffix(s.atom, "?")
		return new(big.Rat).SetString(a)
	}
	if len(s.list) == 0 {
		return nil, false
	}
	switch s.list[0].atom {
	case "-":
		if len(s.list) == 2 {
			r, ok := sexpRat(s.list[1])
			if !ok {
				return nil, false
			}
			return new(big.Rat).Neg(r), true
		}
	case "/":
		a, ok1 := sexpRat(s.list[1])
		b, ok2 := sexpRat(s.list[2])
		if ok1 && ok2 && b.Sign() != 0 {
			return new(big.Rat).Quo(a, b), true
		}
	case "root-obj":
		// algebraic number: (root-obj poly k): approximate by skipping
		return nil, false
	}
	return nil, false
}

// relaxExtremes replaces maxima and minima by variables known only to be at
// least (at most) both arguments: a weaker set of facts without case splits.
func relaxExtremes(as []*Term) ([]*Term, bool) {
	all, _ := collect(as)
	m := map[*Term]*Term{}
	var facts []*Term
	for _, t := range all { // arguments come first
		if t.op != OIte || t.sort != SReal || t.args[0].op != OLe {
			continue
		}
		d, a, b := t.args[0].args[0], t.args[1], t.args[2]
		max := d == tSub(b, a)
		if !max && d != tSub(a, b) {
			continue
		}
		v := mkApp(SReal, fmt.Sprintf("extreme!%d", t.id))
		m[t] = v
		a, b = rewriteTerm(a, m), rewriteTerm(b, m)
		if max {
			facts = append(facts, tLe(a, v), tLe(b, v))
		} else {
			facts = append(facts, tLe(v, a), tLe(v, b))
		}
	}
	if len(m) < 2 {
		return nil, false
	}
	out := make([]*Term, 0, len(as)+len(facts))
	for _, a := range as {
		out = append(out, rewriteTerm(a, m))
	}
	return append(out, facts...), true
}
