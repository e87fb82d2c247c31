package main

import (
	"math"
	"strconv"
	"strings"
)

// X is an expression of a filter
type X struct {
	op   string // operator, "" for leaves
	pre  bool   // prefix operator
	kids []*X
	text string
	unit bool // never needs parentheses
}

func leafX(s string) *X          { return &X{text: s, unit: true} }
func binX(op string, l, r *X) *X { return &X{op: op, kids: []*X{l, r}} }
func unX(op string, e *X) *X     { return &X{op: op, pre: true, kids: []*X{e}} }

func level(op string) int {
	switch op {
	case "**":
		return 12
	case "*", "/", "%":
		return 11
	case "+", "-":
		return 10
	case "<", "<=", ">", ">=":
		return 9
	case "in":
		return 8
	case "==", "!=", "===", "!==":
		return 7
	case "&&":
		return 3
	case "||":
		return 2
	}
	return 0
}

// parens: 0 as few as possible, 1 random extra ones, 2 everywhere
func (g *G) render(x *X, parens int) string {
	if x.op == "" {
		if parens == 2 || (parens == 1 && g.p(.15)) {
			return "(" + x.text + ")"
		}
		return x.text
	}
	s := ""
	if x.pre {
		k := x.kids[0]
		e := g.render(k, parens)
		if k.op != "" && !k.pre && parens != 2 {
			e = "(" + e + ")"
		}
		s = x.op + g.opSp(.1) + e
	} else {
		n := level(x.op)
		side := func(k *X, right bool) string {
			e := g.render(k, parens)
			if k.op == "" || k.pre || parens == 2 {
				return e
			}
			m := level(k.op)
			need := m < n
			if m == n {
				need = right != (x.op == "**")
			}
			if need {
				return "(" + e + ")"
			}
			return e
		}
		l, r := side(x.kids[0], false), side(x.kids[1], true)
		a, b := g.opSp(.8), g.opSp(.8)
		if x.op == "in" || x.op == "-" || x.op == "*" {
			if a == "" {
				a = " "
			}
			if b == "" && x.op != "-" {
				b = " "
			}
		}
		s = l + a + x.op + b + r
	}
	if parens == 2 || (parens == 1 && g.p(.2)) {
		return "(" + s + ")"
	}
	return s
}

func (g *G) opSp(p float64) string {
	if g.p(p) {
		if g.p(.9) {
			return " "
		}
		return pick(g, "  ", "\t", "\n")
	}
	return ""
}

// intText spells a natural number
func (g *G) natText(v uint64) string {
	switch g.n(12) {
	case 0:
		return "0x" + strconv.FormatUint(v, 16)
	case 1:
		return "0X" + strings.ToUpper(strconv.FormatUint(v, 16))
	case 2:
		return pick(g, "0o", "0O") + strconv.FormatUint(v, 8)
	case 3:
		return pick(g, "0b", "0B") + strconv.FormatUint(v, 2)
	case 4:
		return strings.Repeat("0", g.in(1, 2)) + strconv.FormatUint(v, 10)
	case 5:
		s := strconv.FormatUint(v, 10)
		i := g.in(1, len(s))
		return s[:i] + "_" + s[i:]
	}
	return strconv.FormatUint(v, 10)
}

// numText spells a number: integral values in any notation
func (g *G) numText(v float64) string {
	neg := ""
	if v < 0 {
		neg = "-"
		v = -v
	}
	if v == math.Trunc(v) && v < 1e15 && g.p(.6) {
		return neg + g.natText(uint64(v))
	}
	switch g.n(4) {
	case 0:
		s := strconv.FormatFloat(v, 'e', -1, 64)
		if g.p(.5) {
			s = strings.Replace(s, "e+", pick(g, "e", "E", "E+"), 1)
		}
		return neg + s
	case 1:
		if v < 1e15 && v > 1e-6 || v == 0 {
			s := strconv.FormatFloat(v, 'f', -1, 64)
			if !strings.Contains(s, ".") {
				s += ".0"
			}
			return neg + s + strings.Repeat("0", g.n(3))
		}
	}
	s := strconv.FormatFloat(v, 'g', -1, 64)
	if v == math.Trunc(v) && !strings.ContainsAny(s, ".e") {
		s += ".0"
	}
	return neg + s
}

// scalarText spells the scalar as a literal of an expression
func (g *G) scalarText(n *N) string {
	switch n.K {
	case "null":
		return "null"
	case "bool":
		return strconv.FormatBool(*n.B)
	case "num":
		if i, ok := n.num.(int); ok {
			if i == math.MinInt64 {
				return "-9223372036854775807"
			}
			if i < 0 {
				return "-" + g.natText(uint64(-i))
			}
			if g.p(.2) && i < 1<<50 {
				return g.numText(float64(i))
			}
			return g.natText(uint64(i))
		}
		return g.numText(n.num.(float64))
	case "str":
		return g.quote(n.str)
	}
	return "null"
}

// anyScalar mixes values that are often equal with values of all sorts
func (g *G) anyScalar() *N {
	if g.p(.6) {
		return g.smallScalar()
	}
	return g.scalar()
}

// operand nodes: scalars, mostly
func (g *G) operand() *N {
	switch x := g.r.Float64(); {
	case x < .05:
		return nArr()
	case x < .1:
		return nArr(g.anyScalar())
	case x < .13:
		return nArr(g.anyScalar(), g.anyScalar())
	case x < .16:
		return nObj()
	case x < .2:
		return nObj(member{"a", g.anyScalar()})
	}
	return g.anyScalar()
}

// copyOf is an equal node, maybe with another number representation
func (g *G) copyOf(n *N) *N {
	switch n.K {
	case "null":
		return nNull()
	case "bool":
		return nBool(*n.B)
	case "str":
		return nStr(n.str)
	case "num":
		switch v := n.num.(type) {
		case int:
			if v > -1<<53 && v < 1<<53 && g.p(.5) {
				return nFlt(float64(v))
			}
			return nInt(v)
		case float64:
			if v == math.Trunc(v) && math.Abs(v) < 1<<53 && g.p(.5) {
				return nInt(int(v))
			}
			return nFlt(v)
		}
	case "arr":
		vs := []*N{}
		for _, k := range n.kids() {
			vs = append(vs, g.copyOf(k))
		}
		return nArr(vs...)
	case "obj":
		ms := []member{}
		for i, k := range n.kids() {
			ms = append(ms, member{n.keys[i], g.copyOf(k)})
		}
		return nObj(ms...)
	}
	return nNull()
}

// pairsDoc is {"v": [{"a":..,"b":..}, ...], "s": .., "w": [...]}: the items
// of v are what filters are applied to
func (g *G) pairsDoc(items int, value func() *N) *N {
	vs := []*N{}
	for i := 0; i < items; i++ {
		ms := []member{}
		a := value()
		if !g.p(.06) {
			ms = append(ms, member{"a", a})
		}
		b := value()
		if g.p(.25) {
			b = g.copyOf(a)
		}
		if !g.p(.06) {
			ms = append(ms, member{"b", b})
		}
		if g.p(.2) {
			ms = append(ms, member{"c", value()})
		}
		if len(ms) > 0 && g.p(.3) {
			ms[len(ms)-1], ms[0] = ms[0], ms[len(ms)-1]
		}
		vs = append(vs, nObj(ms...))
		if len(ms) == 0 {
			vs[len(vs)-1] = nObj(member{"a", a})
		}
	}
	items2 := nArr(vs...)
	if g.p(.25) {
		ms := []member{}
		for i, v := range vs {
			ms = append(ms, member{"k" + strconv.Itoa(i), v})
		}
		items2 = nObj(ms...)
	}
	return nObj(member{"v", items2}, member{"s", value()},
		member{"w", nArr(value(), value())}, member{"e", nArr()})
}

// operandText is an operand of a filter on the items of pairsDoc
func (g *G) operandText(value func() *N) string {
	switch x := g.r.Float64(); {
	case x < .35:
		return pick(g, "@.a", "@['a']", `@["a"]`, "@.'a'")
	case x < .6:
		return pick(g, "@.b", "@['b']")
	case x < .8:
		return g.scalarText(value())
	case x < .86:
		return "$.s"
	case x < .9:
		return pick(g, "@.missing", "@.a.b.c", "$.none")
	case x < .94:
		return pick(g, "@.*", "$.w.*", "$.w[0,1]")
	case x < .96:
		return pick(g, "$.w[0]", "$.w[-1]", "@..a", "$.v[0].a")
	case x < .98:
		return pick(g, "@", "$.e", "$.w", "$.e.*")
	default:
		return "@.c"
	}
}
