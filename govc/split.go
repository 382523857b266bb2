package main

import (
	"fmt"
	"strings"
	"time"
)

// Case splits on whether two indices coincide: facts about an arbitrary element
// k of an array meet the loop's current element i there.

type rewriter struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

func rewriteTerm(t *Term, m map[*Term]*Term) *Term {
	return (&rewriter{m, map[*Term]*Term{}}).do(t)
}

func (r *rewriter) do(t *Term) *Term {
	if v, ok := r.m[t]; ok {
		return v
	}
	if len(t.args) == 0 {
		return t
	}
	if v, ok := r.memo[t]; ok {
		return v
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = r.do(a)
		ch = ch || as[i] != a
	}
	v := t
	if ch {
		switch t.op {
		case OApp:
			v = mkApp(t.sort, t.name, as...)
		case OAdd:
			v = tAdd(as...)
		case OMul:
			v = tMul(as...)
		case ODiv:
			v = tDiv(as[0], as[1])
		case OIDiv:
			v = tIDiv(as[0], as[1])
		case OIMod:
			v = tIMod(as[0], as[1])
		case OLe:
			v = tLe(as[0], zeroOf(as[0].sort))
		case OLt:
			v = tLt(as[0], zeroOf(as[0].sort))
		case OEq0:
			v = tEq(as[0], zeroOf(as[0].sort))
		case OIff:
			v = tEq(as[0], as[1])
		case OAnd:
			v = tAnd(as...)
		case OOr:
			v = tOr(as...)
		case ONot:
			v = tNot(as[0])
		case OIte:
			v = tIte(as[0], as[1], as[2])
		case OToReal:
			v = tToReal(as[0])
		case OFloor:
			v = tFloor(as[0])
		default:
			return t
		}
	}
	r.memo[t] = v
	return v
}

// solveReals eliminates real variables that an equation among the hypotheses
// determines, youngest first.
func solveReals(hyps []*Term, goal *Term) ([]*Term, *Term) {
	for n := 0; n < 12; n++ {
		var best, val *Term
		bi := -1
		for hi, h := range hyps {
			if h.op != OEq0 || h.args[0].sort != SReal || h.args[0].size > 200 {
				continue
			}
			l := newLin()
			l.addTerm(ratOne, h.args[0])
			for t, c := range l.coef {
				if t.op != OVar || t == symPI || best != nil && t.id < best.id {
					continue
				}
				r := newLin()
				k := newLin().c.Inv(c)
				k.Neg(k)
				r.addTerm(k, h.args[0])
				delete(r.coef, t)
				v := r.build(SReal)
				if !occurs(t, v) {
					best, val, bi = t, v, hi
				}
			}
		}
		if best == nil {
			break
		}
		rw := &rewriter{map[*Term]*Term{best: val}, map[*Term]*Term{}}
		var out []*Term
		for i, h := range hyps {
			if i != bi {
				out = append(out, rw.do(h))
			}
		}
		hyps, goal = out, rw.do(goal)
	}
	return hyps, goal
}

// indexPairs are the pairs of integer variables that select elements of the same array.
func indexPairs(hyps []*Term, goal *Term) [][2]*Term {
	use := map[string]map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && len(t.args) == 1 && t.args[0].op == OVar && t.args[0].sort == SInt {
			if use[t.name] == nil {
				use[t.name] = map[*Term]bool{}
			}
			use[t.name][t.args[0]] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(goal)
	for _, h := range hyps {
		rec(h)
	}
	// only pairs the hypotheses compare
	var out [][2]*Term
	done := map[[2]*Term]bool{}
	for _, h := range hyps {
		if h.op != OLe || h.args[0].sort != SInt || h.args[0].size > 20 {
			continue
		}
		l := newLin()
		l.addTerm(ratOne, h.args[0])
		ks := l.keys()
		if len(ks) != 2 || ks[0].op != OVar || ks[1].op != OVar {
			continue
		}
		a, b := ks[0], ks[1]
		if a.id < b.id {
			a, b = b, a
		}
		if done[[2]*Term{a, b}] {
			continue
		}
		done[[2]*Term{a, b}] = true
		for _, u := range use {
			if u[a] && u[b] {
				out = append(out, [2]*Term{a, b})
				break
			}
		}
	}
	return out
}

// splitProve proves the goal in the cases i = k, i < k and i > k.
func splitProve(hyps []*Term, goal *Term, quick int) bool {
	ps := indexPairs(hyps, goal)
	if len(ps) > 3 {
		ps = ps[:3]
	}
	for _, p := range ps {
		i, k := p[0], p[1]
		rw := &rewriter{map[*Term]*Term{i: k}, map[*Term]*Term{}}
		var eq []*Term
		for _, h := range hyps {
			if g := rw.do(h); g != tTrue {
				eq = append(eq, g)
			}
		}
		ok := true
		for _, h := range eq {
			ok = ok && h != tFalse
		}
		if !ok {
			continue // known to differ
		}
		for _, c := range []struct {
			h []*Term
			g *Term
		}{
			{eq, rw.do(goal)},
			{append(append([]*Term(nil), hyps...), tLt(i, k)), goal},
			{append(append([]*Term(nil), hyps...), tLt(k, i)), goal},
		} {
			h, g := unguardAll(c.h), c.g
			h, g = solveReals(h, g)
			if linearProve(h, g, quick) {
				continue
			}
			if r := proveSplit(h, g, nil, quick, 0, false); r.res != resUnsat {
				if dbgSplit {
					println("split fails", i.String(), k.String(), g.String())
					for _, h := range h {
						println("     ", h.String())
					}
				}
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func unguardAll(h []*Term) []*Term {
	h, _ = unguard(h)
	return h
}

// linearProve treats every product of unknowns as an unknown of its own.
func linearProve(hyps []*Term, goal *Term, quick int) bool {
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OMul {
			var k []*Term
			n := 0
			for _, a := range t.args {
				if a.op != OConst {
					n++
				} else {
					k = append(k, a)
				}
			}
			if n > 1 {
				var f []*Term
				for _, a := range t.args {
					if a.op != OConst {
						f = append(f, a)
					}
				}
				p := tMul(f...)
				m[t] = tMul(append(k, mkVar(t.sort, fmt.Sprintf("product.%d", p.id)))...)
				return
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(goal)
	for _, h := range hyps {
		rec(h)
	}
	if len(m) == 0 {
		return false
	}
	rw := &rewriter{m, map[*Term]*Term{}}
	var as []*Term
	for _, h := range hyps {
		as = append(as, rw.do(h))
	}
	as = append(as, tNot(rw.do(goal)))
	sc := smtScript(as, false, nil, "")
	sc = sc[:strings.IndexByte(sc, 0)]
	o := runProc(ctxBG, time.Duration(quick+2)*time.Second, sc+"(check-sat)\n", "z3-new", "-in", fmt.Sprintf("-t:%d", quick*1000), "-memory:4000")
	return strings.HasPrefix(o, "unsat")
}
