package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
)

// B builds a session
type B struct {
	*G
	s *Session
}

func (b *B) doc(n *N) int {
	number(n)
	b.s.Docs = append(b.s.Docs, Doc{n})
	return len(b.s.Docs)
}

func (b *B) text(s string) int {
	t := cps(s)
	b.s.Texts = append(b.s.Texts, t)
	return len(b.s.Texts)
}

func (b *B) call(t, d int) {
	for _, c := range b.s.Calls {
		if c.T == t && c.D == d {
			return
		}
	}
	b.s.Calls = append(b.s.Calls, &Call{T: t, D: d})
}

// cross applies all texts to all documents
func (b *B) cross() {
	for t := range b.s.Texts {
		for d := range b.s.Docs {
			b.call(t+1, d+1)
		}
	}
}

func (n *N) size() int {
	k := 1
	for _, c := range n.kids() {
		k += c.size()
	}
	return k
}

// paths makes documents, and paths with the given kinds of steps
func (b *B) paths(docs, texts int, kinds string, min, max int) {
	sizes := []int{}
	for i := 0; i < docs; i++ {
		d := b.sampleDoc()
		b.doc(d)
		sizes = append(sizes, d.size())
	}
	biggest := 0
	for _, s := range sizes {
		if s > biggest {
			biggest = s
		}
	}
	for i := 0; i < texts; i++ {
		d := b.s.Docs[b.n(docs)].Root
		var s string
		for try := 0; try < 50; try++ {
			s = b.path(d, kinds, min, max)
			k := strings.Count(s, "..")
			if k <= 1 || (k == 2 && biggest < 60) || (k == 3 && biggest < 20) {
				break
			}
			s = "$"
		}
		b.text(s)
	}
	b.cross()
}

// spellings of the document's own positions, for arrays at any depth
func (b *B) arraysDoc() *N {
	leaf := b.smallScalar
	k := b.in(1, 3)
	ms := []member{}
	for i := 0; i < k; i++ {
		n := b.in(0, 6)
		if b.p(.1) {
			n = b.in(7, 30)
		}
		a := []*N{}
		for j := 0; j < n; j++ {
			if b.p(.3) {
				a = append(a, b.doc2(2, 4, leaf))
			} else {
				a = append(a, leaf())
			}
		}
		ms = append(ms, member{b.name(), nArr(a...)})
	}
	if b.p(.3) {
		return ms[0].v
	}
	if b.p(.2) {
		vs := []*N{}
		for _, m := range ms {
			vs = append(vs, m.v)
		}
		return nArr(vs...)
	}
	return nObj(ms...)
}

func (b *B) doc2(d, w int, leaf func() *N) *N { return b.G.doc(d, w, leaf) }

type genFn func(b *B)

var gens = map[string]genFn{
	"C01": func(b *B) {
		b.pool(.25, .2, 5)
		b.ws = .05
		b.paths(3, 6, "ccccccw", 0, 6)
		if b.p(.1) {
			b.text(pick(b.G, "$", "@", "/", "$ ", "@.*", "$.*", "$.*.*"))
			b.cross()
		}
	},
	"C02": func(b *B) {
		b.pool(.1, .15, 4)
		b.ws = .05
		b.paths(2, 6, pick(b.G, "r", "rc", "rW", "cr", "rcS", "ccrrWSUFtw", "rUV", "WF", "ccSf", "rt", "rfu", "F"), 1, 4)
		if b.p(.2) {
			b.doc(longDoc())
			for i := 0; i < 3; i++ {
				t := b.path(b.s.Docs[0].Root, "ccccr", 3, 7)
				if b.p(.6) {
					t = "$"
					for j, k := 0, b.in(3, 8); j < k; j++ {
						t += pick(b.G, ".", "..") + pick(b.G, "a", "*", "[0]", "[*]", "['a']", "[-2]", "[:1]")
						t = strings.ReplaceAll(strings.ReplaceAll(t, "..[", "\x00"), ".[", "[")
						t = strings.ReplaceAll(t, "\x00", "..[")
					}
				}
				if strings.Count(t, "..") > 3 {
					continue
				}
				b.text(t + pick(b.G, "", "", ".."))
			}
			b.cross()
		}
		if b.p(.15) {
			b.text(pick(b.G, "$..", "$..*", "@..", "$..[*]", "$.. *", "$..[0]", "$..['a']", "$..length", "$..[0:1]", "$..*..*", "$..a..a", "$....a", "$..[?(@)]"))
			b.cross()
		}
	},
	"C03": func(b *B) {
		b.pool(0, .1, 4)
		b.ws = .05
		for i := 0; i < 2; i++ {
			b.doc(b.arraysDoc())
		}
		for i := 0; i < 6; i++ {
			d := b.s.Docs[b.n(2)].Root
			switch b.n(5) {
			case 0, 1:
				b.text(b.path(d, "CC", 1, 4))
			case 2:
				b.text(b.path(d, "cwwc", 0, 2) + "[" + b.negs(1, 4) + "]")
			case 3:
				b.text("$.." + pick(b.G, "[", "[ ") + b.negs(1, 3) + "]")
			default:
				k := strconv.Itoa(-b.in(1, 6))
				b.text(pick(b.G, "$[?(@["+k+"])]", "$.*[?(@["+k+"] == 1)]", "$..[?(@["+k+"])]",
					"$[?(@."+k+")]", "$.*."+k, "$[?($["+k+"])]", "$[?($.*["+k+"] == @)]", "$..[?(@.."+"["+k+"])]",
					"$.*["+k+","+strconv.Itoa(b.in(0, 5))+"]", "$."+k, "$.*['"+k+"']", "$[?(@[ "+k+" ] != 1)]"))
			}
		}
		b.cross()
	},
	"C04": func(b *B) {
		b.pool(0, .1, 4)
		b.ws = .05
		for i := 0; i < 2; i++ {
			b.doc(b.arraysDoc())
		}
		for i := 0; i < 8; i++ {
			d := b.s.Docs[b.n(2)].Root
			n := b.in(0, 6)
			switch b.n(6) {
			case 0, 1, 2:
				b.text(b.path(d, "s", 1, 2))
			case 3:
				b.text(b.path(d, "cws", 1, 3))
			case 4:
				b.text("$.." + "[" + b.slice(n) + "]")
			default:
				b.text(b.path(d, "cw", 0, 1) + "[" + b.slice(n) + "," + pick(b.G, b.slice(n), strconv.Itoa(b.in(-6, 5))) + "]")
			}
		}
		b.cross()
	},
	"C05": func(b *B) {
		b.pool(.15, .1, 5)
		b.ws = .05
		b.paths(2, 6, pick(b.G, "u", "v", "uc", "cu", "cv", "vV", "cwu", "rv", "U", "uu"), 1, 3)
	},
	"C06": func(b *B) {
		b.pool(.05, .05, 4)
		b.ws = .05
		b.paths(2, 6, pick(b.G, "f", "cf", "fc", "wf", "ff", "F", "cff"), 1, 3)
	},
	"C07": func(b *B) {
		b.pool(0, 0, 3)
		b.ws = .02
		for i := 0; i < 2; i++ {
			b.doc(b.container(4, 3, b.smallScalar))
		}
		for i := 0; i < 6; i++ {
			b.text(b.scopePath())
		}
		b.cross()
	},
	"C08": func(b *B) {
		b.doc(b.pairsDoc(b.in(6, 14), b.operand))
		for i := 0; i < 5; i++ {
			op := pick(b.G, "==", "===")
			l, r := b.operandText(b.anyScalar), b.operandText(b.anyScalar)
			b.condBoth(l, op, r)
			b.condBoth(l, pick(b.G, "!=", "!=="), r)
		}
		b.cross()
	},
	"C09": func(b *B) {
		b.doc(b.pairsDoc(b.in(6, 14), b.operand))
		for i := 0; i < 5; i++ {
			l, r := b.operandText(b.anyScalar), b.operandText(b.anyScalar)
			op := pick(b.G, "<", "<=", ">", ">=")
			b.condBoth(l, op, r)
		}
		b.cross()
	},
	"C10": func(b *B) {
		b.doc(b.pairsDoc(b.in(6, 12), b.operand))
		for i := 0; i < 8; i++ {
			b.text("$.v[?(" + b.render(b.logicX(b.in(1, 3)), pick(b.G, 1, 2)) + ")]")
		}
		b.cross()
	},
	"C11": func(b *B) { b.arith(2, 2) },
	"C12": func(b *B) {
		b.doc(b.inDoc())
		for i := 0; i < 8; i++ {
			b.text("$.v[?(" + b.inCond() + ")]")
		}
		b.cross()
	},
	"C13": func(b *B) {
		b.doc(b.lenDoc())
		for i := 0; i < 8; i++ {
			b.text(b.lenText())
		}
		b.cross()
	},
	"C14": func(b *B) {
		b.s.Plan = "segs"
		b.pool(.15, .15, 5)
		b.ws = .02
		b.paths(1, 4, pick(b.G, "ccw", "cCwrW", "rRWSs", "uUvV", "fF", "ccCwwrRWsSuUvVfFt"), 0, 4)
	},
	"C15": func(b *B) {
		b.s.Plan = "paths"
		b.pool(.1, .1, 4)
		k := b.in(1, 2)
		for i := 0; i < k; i++ {
			switch x := b.n(10); {
			case x == 0:
				b.doc(b.chain(b.in(100, 140), b.smallScalar))
			case x < 3:
				b.doc(b.chain(b.in(4, 20), b.smallScalar))
			default:
				b.doc(b.container(b.in(2, 4), 3, b.smallScalar))
			}
		}
		for i := 0; i < 3; i++ {
			d := b.s.Docs[b.n(k)].Root
			if b.p(.5) {
				b.text(pick(b.G, "$..*", "$.*", "$.*.*", "$", "$..*", "$..[0]", "$..[*]", "$.*..*"))
			} else {
				b.text(b.path(d, "ccwrRWsuf", 1, 3))
			}
		}
		if b.s.Docs[0].Root.size() > 60 {
			for i := range b.s.Texts {
				b.s.Texts[i] = cps(pick(b.G, "$..*", "$..[0]", "$..*", "$..['a']", "$"))
			}
		}
	},
	"C23": func(b *B) {
		b.s.Plan = "build"
		b.names = []string{"a", "b", "c", "0", "-1", "length", "é", "", "a b", "*", "$"}
		for i := 0; i < 2; i++ {
			if b.p(.5) {
				b.doc(b.tower(b.in(3, 6)))
				continue
			}
			for {
				d := b.container(3, 3, b.smallScalar)
				if d.size() <= 25 {
					b.doc(d)
					break
				}
			}
		}
		for i := 0; i < 4; i++ {
			d := b.s.Docs[b.n(2)].Root
			for {
				s := b.path(d, pick(b.G, "c", "cw", "ccr", "cwsu", "cf", "cR"), 0, 3)
				if strings.Count(s, "..") <= 1 {
					b.text(s)
					break
				}
			}
		}
	},
	"C24weave": func(b *B) { b.use("weave") },
	"C24paths": func(b *B) { b.use("paths") },
	"C24race":  func(b *B) { b.use("race") },
	"C16": func(b *B) {
		b.pool(.15, .15, 5)
		b.ws = .02
		if b.p(.4) {
			b.doc(b.pairsDoc(b.in(4, 8), b.operand))
			for i := 0; i < 5; i++ {
				b.text("$.v[?(" + b.render(b.anyX(b.in(0, 2)), 1) + ")]")
			}
			b.cross()
			return
		}
		b.paths(2, 6, pick(b.G, "ccw", "cCwrW", "rRWSs", "uUvV", "fF", "ccCwwrRWsSuUvVfFt"), 0, 4)
	},
	"C19": func(b *B) {
		for i := 0; i < 3; i++ {
			k := b.in(0, 4)
			if b.p(.5) {
				k = 1
			}
			names := []string{}
			if b.p(.05) {
				// many names, one of them odd
				k = b.in(5, 70)
				nm := pickS(b.G, append(append([]string{"", "a", "_"}, oddNames...), plainNames...))
				at := b.n(k)
				if b.p(.3) {
					at = -1
				}
				for j := 0; j < k; j++ {
					if j == at {
						names = append(names, b.anyName())
					} else {
						names = append(names, nm)
					}
				}
				b.named(names)
				continue
			}
			for j := 0; j < k; j++ {
				names = append(names, b.anyName())
			}
			b.named(names)
		}
	},
	"C20": func(b *B) { b.stringLiterals() },
	"C21": func(b *B) { b.numericLiterals() },
	"C22": func(b *B) { b.notations() },
	"C25": func(b *B) { b.grouping() },
}

// negs is a list of negative positions
func (b *B) negs(min, max int) string {
	s := []string{}
	k := b.in(min, max)
	for i := 0; i < k; i++ {
		s = append(s, strconv.Itoa(-b.in(1, 8)))
	}
	return strings.Join(s, pick(b.G, ",", ", ", " ,"))
}

// condBoth has a comparison with both operand orders
func (b *B) condBoth(l, op, r string) {
	b.text("$.v[?(" + l + " " + op + " " + r + ")]")
	b.text("$.v[?(" + r + " " + op + " " + l + ")]")
}

// scopePath has nested filters that use @ and $
func (b *B) scopePath() string {
	var cond func(depth int) string
	rel := func(depth int) string {
		p := pick(b.G, "@", "@", "@", "$")
		k := b.in(0, 2)
		for i := 0; i < k; i++ {
			switch b.n(9) {
			case 0:
				p += ".*"
			case 1:
				p += "[" + strconv.Itoa(b.in(-2, 2)) + "]"
			case 2:
				p += ".." + pick(b.G, b.name(), "*", "[0]", "[*]")
			case 3:
				if depth > 0 {
					p += "[?(" + cond(depth-1) + ")]"
				}
			case 4:
				if depth > 0 {
					p += "..[?(" + cond(depth-1) + ")]"
				}
			case 5:
				p += "[" + pick(b.G, ":1", "-1:", "::2", "@.length()-1:", "(@.length()-1):") + "]"
			case 6:
				p += "[" + b.name() + "," + pick(b.G, "0", "1", "*", b.name()) + "]"
			default:
				p += "." + b.name()
			}
		}
		return p
	}
	cond = func(depth int) string {
		switch b.n(9) {
		case 6:
			return pick(b.G, b.scalarText(b.smallScalar()), rel(depth)) + " in " + pick(b.G, rel(depth), "["+rel(depth)+"]", "["+rel(depth)+","+rel(0)+"]")
		case 7:
			return b.scalarText(b.smallScalar()) + " " + pick(b.G, "==", "<", ">=", "!==") + " " + rel(depth)
		case 8:
			return pick(b.G, "!"+rel(depth), "length("+rel(depth)+") == "+strconv.Itoa(b.in(0, 3)), "length("+rel(depth)+") == "+rel(0)+".length()", "!("+rel(depth)+" == "+rel(0)+")", "("+rel(depth)+" + "+rel(0)+") == 2")
		case 0, 1:
			return rel(depth)
		case 2:
			return rel(depth) + " " + pick(b.G, "==", "!=", "<", ">=") + " " + rel(depth)
		case 3:
			return rel(depth) + " " + pick(b.G, "==", "!=", ">") + " " + b.scalarText(b.smallScalar())
		case 4:
			return rel(depth) + " " + pick(b.G, "&&", "||") + " " + rel(depth)
		default:
			return rel(depth) + ".length()" + " " + pick(b.G, "==", ">") + " " + strconv.Itoa(b.in(0, 3))
		}
	}
	s := "$"
	k := b.in(0, 2)
	for i := 0; i < k; i++ {
		s += pick(b.G, ".*", "."+b.name(), "["+strconv.Itoa(b.in(0, 2))+"]")
	}
	if b.p(.25) {
		s += ".."
	}
	if b.p(.2) {
		s += "[?(" + cond(2) + "),?(" + cond(1) + ")]"
	} else {
		s += "[?(" + cond(2) + ")]"
	}
	if b.p(.25) {
		s += pick(b.G, ".*", "."+b.name(), "[?("+cond(1)+")]")
	}
	return s
}

// logicX combines conditions
func (b *B) logicX(depth int) *X {
	if depth == 0 {
		switch x := b.r.Float64(); {
		case x < .45:
			return leafX(pick(b.G, "@.a", "@.b", "@.c", "$.s", "@.missing", "@.*", "@", "$.e", "$.w", "$.e.*", "$.w.*"))
		case x < .75:
			return leafX(pick(b.G, "true", "false", "null", "0", "1", `""`, `''`, `"x"`, "0.0", "0x0", "2", `"0"`, `"false"`, "1e0", "00"))
		case x < .8:
			return leafX(pick(b.G, "[1]", "@.length()", "length(@.a)", "length(@.b)"))
		default:
			return binX(pick(b.G, "==", "!=", "<", ">="), leafX(pick(b.G, "@.a", "@.b")), leafX(b.scalarText(b.smallScalar())))
		}
	}
	switch b.n(7) {
	case 0, 1:
		return unX("!", b.logicX(depth-1))
	case 2, 3:
		return binX("&&", b.logicX(depth-1), b.logicX(depth-1))
	case 4, 5:
		return binX("||", b.logicX(depth-1), b.logicX(depth-1))
	default:
		return binX(pick(b.G, "==", "!=", "<", "<=", ">"), b.logicX(depth-1), pick(b.G, leafX("true"), leafX("false"), b.logicX(0)))
	}
}

// anyX is an expression with all operators
func (b *B) anyX(depth int) *X {
	if depth == 0 {
		return leafX(b.operandText(b.anyScalar))
	}
	switch b.n(12) {
	case 0:
		return unX("!", b.anyX(depth-1))
	case 1:
		return unX("-", b.anyX(depth-1))
	case 2:
		return binX(pick(b.G, "&&", "||"), b.anyX(depth-1), b.anyX(depth-1))
	case 3, 4:
		return binX(pick(b.G, "==", "!=", "===", "!=="), b.anyX(depth-1), b.anyX(depth-1))
	case 5, 6:
		return binX(pick(b.G, "<", "<=", ">", ">="), b.anyX(depth-1), b.anyX(depth-1))
	case 7:
		return binX("in", b.anyX(depth-1), pick(b.G, leafX("@.a"), leafX("$.w"), leafX("$.w.*"), leafX("["+b.scalarText(b.anyScalar())+", "+b.operandText(b.anyScalar)+"]")))
	case 8:
		return leafX(pick(b.G, "length(@)", "@.length()", "length(@.a)", "@.a.length()", "$.w.length()", "length($.v)"))
	default:
		return binX(pick(b.G, "+", "-", "*", "/", "%"), b.anyX(depth-1), b.anyX(depth-1))
	}
}

// numX is an arithmetic expression; env has the numeric value of the
// leaves that are paths. Returns the likely value
func (b *B) numX(depth int, env map[string]float64, ops []string) (*X, float64) {
	if depth == 0 {
		if len(env) > 0 && b.p(.4) {
			ks := []string{}
			for k := range env {
				ks = append(ks, k)
			}
			// map order
			best := ""
			i := b.n(len(ks))
			for j := 0; j <= i; j++ {
				best = ""
				for _, k := range ks {
					if k != "" && (best == "" || k < best) {
						best = k
					}
				}
				if j < i {
					for m := range ks {
						if ks[m] == best {
							ks[m] = ""
						}
					}
				}
			}
			return leafX(best), env[best]
		}
		switch b.n(12) {
		case 0:
			return leafX("true"), 1
		case 1:
			return leafX("false"), 0
		case 2:
			v := b.in(0, 12)
			return leafX(b.quote(strconv.Itoa(v))), float64(v)
		case 3:
			v := float64(b.in(1, 20)) / 4
			return leafX(b.quote(strconv.FormatFloat(v, 'f', -1, 64))), v
		case 4, 5:
			v := float64(b.in(0, 24)) / 4
			return leafX(strconv.FormatFloat(v, 'f', 2, 64)), v
		case 6:
			v := float64(b.in(0, 7))
			return leafX(strconv.FormatFloat(v, 'f', 1, 64)), v
		case 7:
			if b.p(.3) {
				return leafX(pick(b.G, "null", `"x"`, `""`, "[1]", "@.missing", "$.w", "$.o", `"1x"`, `" 1"`)), math.NaN()
			}
		}
		v := b.in(0, 13)
		return leafX(strconv.Itoa(v)), float64(v)
	}
	if b.p(.2) {
		e, v := b.numX(depth-1, env, ops)
		if b.p(.7) {
			return unX("-", e), -v
		}
		return unX("+", e), v
	}
	ld, rd := depth-1, b.n(depth)
	if b.p(.5) {
		ld, rd = rd, ld
	}
	l, lv := b.numX(ld, env, ops)
	r, rv := b.numX(rd, env, ops)
	op := pickS(b.G, ops)
	v := math.NaN()
	switch op {
	case "+":
		v = lv + rv
	case "-":
		v = lv - rv
	case "*":
		v = lv * rv
	case "/":
		v = lv / rv
	case "%":
		v = math.Mod(lv, rv)
	case "**":
		if b.p(.8) {
			rv = float64(b.in(0, 4))
			r = leafX(pick(b.G, strconv.Itoa(int(rv)), strconv.Itoa(int(rv))+".0"))
		}
		v = math.Pow(lv, rv)
	}
	return binX(op, l, r), v
}

// arith observes the value of arithmetic expressions: xs has candidates
func (b *B) arith(depth, parens int) {
	cands := []*N{nNull(), nBool(true), nStr("1")}
	seen := map[string]bool{}
	addF := func(v float64) {
		if math.IsNaN(v) || math.IsInf(v, 0) || math.Abs(v) > 1e17 {
			return
		}
		if k := fmt.Sprint("f", v); !seen[k] {
			seen[k] = true
			cands = append(cands, nFlt(v))
		}
	}
	addI := func(v float64) {
		if math.IsNaN(v) || math.Abs(v) > 1e15 {
			return
		}
		if k := fmt.Sprint("i", int(v)); !seen[k] {
			seen[k] = true
			cands = append(cands, nInt(int(v)))
		}
	}
	env := map[string]float64{}
	ms := []member{}
	for _, k := range []string{"p", "q", "r", "t"} {
		var v float64
		var n *N
		switch b.n(6) {
		case 0, 1:
			i := b.in(-9, 15)
			n, v = nInt(i), float64(i)
		case 2:
			v = float64(b.in(-9, 15))
			n = nFlt(v)
		case 3:
			v = float64(b.in(-16, 24)) / 4
			n = nFlt(v)
		case 4:
			i := b.in(-3, 15)
			n, v = nStr(strconv.Itoa(i)), float64(i)
		default:
			if b.p(.6) {
				t := b.p(.5)
				n, v = nBool(t), float64(b2i(t))
			} else {
				n, v = b.operand(), math.NaN()
			}
		}
		ms = append(ms, member{k, n})
		env["$."+k] = v
	}
	ops := []string{"+", "-", "*", "/", "%", "**"}
	var exprs []string
	for i := 0; i < 4; i++ {
		x, v := b.numX(b.in(1, depth), env, ops)
		if b.p(.12) {
			// big operands
			big := pick(b.G, "9007199254740991", "9223372036854775807", "4611686018427387904", "4294967296", "3037000499", "-9223372036854775807", "1e300", "1e-300")
			x, v = binX(pick(b.G, "+", "-", "*", "/", "%"), leafX(big), leafX(strconv.Itoa(b.in(-3, 7)))), math.NaN()
			if b.p(.4) {
				x.kids[0], x.kids[1] = x.kids[1], x.kids[0]
			}
		}
		if b.p(.06) {
			e, ev := b.numX(1, env, ops)
			x, v = binX(pick(b.G, "/", "%"), e, leafX(pick(b.G, "0", "0.0", "false", `"0"`, "-0", "(1-1)"))), math.NaN()
			_ = ev
		}
		exprs = append(exprs, b.render(x, parens))
		for _, d := range []float64{0, 1, -1} {
			addI(math.Trunc(v) + d)
			addI(math.Floor(v) + d)
			addF(v + d)
		}
		addF(math.Trunc(v))
		addF(-v)
		addF(v / 2)
		addF(v * 2)
	}
	if len(cands) > 40 {
		cands = cands[:40]
	}
	ms = append(ms, member{"xs", nArr(cands...)}, member{"w", nArr(nInt(1))}, member{"o", nObj()})
	b.doc(nObj(ms...))
	for _, e := range exprs {
		b.text("$.xs[?(@ == (" + e + "))]")
		b.text("$.xs[?(@ < (" + e + "))]")
		if b.p(.3) {
			b.text("$.xs[?(@ >= " + e + ")]")
		}
	}
	b.cross()
}

func (b *B) inDoc() *N {
	vs := []*N{}
	k := b.in(6, 12)
	list := func() *N {
		a := []*N{}
		n := b.in(0, 4)
		for i := 0; i < n; i++ {
			a = append(a, b.operand())
		}
		return nArr(a...)
	}
	for i := 0; i < k; i++ {
		l := list()
		a := b.operand()
		if len(l.kids()) > 0 && b.p(.4) {
			a = b.copyOf(pickS(b.G, l.kids()))
		}
		ms := []member{{"a", a}}
		switch b.n(6) {
		case 0:
			ms = append(ms, member{"b", b.operand()})
		case 1:
			ms = append(ms, member{"b", b.copyOf(a)})
		case 2:
			ms = append(ms, member{"b", nObj(member{"x", b.copyOf(a)}, member{"y", b.operand()})})
		case 3:
			if b.p(.3) {
				break
			}
			fallthrough
		default:
			ms = append(ms, member{"b", l})
		}
		vs = append(vs, nObj(ms...))
	}
	return nObj(member{"v", nArr(vs...)}, member{"l", list()}, member{"w", nArr(b.anyScalar(), b.anyScalar(), b.anyScalar())}, member{"e", nArr()}, member{"s", b.anyScalar()})
}

func (b *B) inCond() string {
	elem := func() string {
		switch b.n(8) {
		case 0:
			return "@.a"
		case 1:
			return "$.s"
		case 2:
			return pick(b.G, "@.missing", "@.b.*", "$.w", "[1]", "null", "1+1", "(2 > 1)", "$.w[0]")
		}
		return b.scalarText(b.anyScalar())
	}
	l := "@.a"
	switch b.n(8) {
	case 0:
		l = elem()
	case 1:
		l = pick(b.G, "$.s", "$.l", "@.missing", "@.b.*", "@.b", "@", "$.w.*", "null", "@.b[0]")
	}
	r := ""
	switch x := b.r.Float64(); {
	case x < .4:
		es := []string{}
		n := b.in(0, 4)
		for i := 0; i < n; i++ {
			es = append(es, elem())
		}
		r = "[" + b.opSp(.2) + strings.Join(es, pick(b.G, ",", ", ", " , ")) + b.opSp(.2) + "]"
	case x < .6:
		r = "@.b"
	case x < .7:
		r = pick(b.G, "@.b.*", "@..*", "@.b[0:2]", "@.*", "@..x")
	case x < .85:
		r = pick(b.G, "$.l", "$.w", "$.w.*", "$.e", "$.e.*", "$.w[0]", "$.w[0,1]", "$.v.*.a", "$.v[0].b", "$..a")
	default:
		r = pick(b.G, "@.missing", "null", "@.a", "$.s", "1", `"a"`, "true", `"abc"`, `""`)
	}
	s := l + " in " + r
	switch b.n(10) {
	case 0:
		s = "!(" + s + ")"
	case 1:
		s = "(" + s + ") == true"
	}
	return s
}

func (b *B) lenDoc() *N {
	vs := []*N{}
	k := b.in(5, 10)
	leaf := b.smallScalar
	for i := 0; i < k; i++ {
		var a *N
		switch b.n(6) {
		case 0, 1, 2:
			a = b.wideArr(pick(b.G, 0, 1, 2, 3, 4, 5, 9, 10, 11), leaf)
		case 3:
			a = nObj(member{"x", leaf()}, member{"length", leaf()}, member{"y", b.wideArr(b.in(0, 3), leaf)})
		case 4:
			a = nStr(pick(b.G, "", "a", "abc", "12", "éé"))
		default:
			a = b.operand()
		}
		ms := []member{}
		if !b.p(.1) {
			ms = append(ms, member{"a", a})
		}
		if b.p(.4) {
			ms = append(ms, member{"length", b.anyScalar()})
		}
		if b.p(.4) {
			ms = append(ms, member{"b", b.wideArr(b.in(0, 4), func() *N { return b.wideArr(b.in(0, 3), leaf) })})
		}
		vs = append(vs, nObj(ms...))
	}
	return nObj(member{"v", nArr(vs...)}, member{"w", b.wideArr(b.in(0, 5), leaf)}, member{"length", b.anyScalar()}, member{"e", nArr()})
}

func (b *B) lenText() string {
	arg := pick(b.G, "@.a", "@.a", "@", "@.b", "@.*", "@.missing", "$.w", "$.w.*", "$.e.*", "@.b.*", "@.b[*]", "@.b[0]", "$.v", "@..*", "$",
		"@.a[*]", "@.a[0:2]", "@.length", "[1,2,3]", "[]", "null", "true", "5", `"abc"`, "1.5", "@.b.*.*", "@['a']", "$.w[0]", "$.e", "[[1,2],3]", "@.a.x", "@.a.length")
	f := func() string {
		if b.p(.5) {
			return "length(" + arg + ")"
		}
		if arg == "5" || arg == "1.5" {
			return "(" + arg + ").length()"
		}
		return arg + ".length()"
	}
	cmp := func(l string) string {
		return l + " " + pick(b.G, "==", "!=", ">", "<", ">=", "===") + " " + pick(b.G, strconv.Itoa(b.in(0, 5)), "0", "1", "2", "3", "@.length", "10")
	}
	var c string
	switch b.n(12) {
	case 0:
		c = f()
	case 1:
		c = "!" + f()
	case 2:
		c = f() + " == " + f()
	case 3:
		c = f() + " " + pick(b.G, "+", "-", "*") + " 1 > 2"
	case 4:
		c = pick(b.G, "foo(@)", "@.foo()", "Length(@.a)", "@.a.size()", "len(@.a)", "!foo(@.a)", "foo()", "@.a.count() == null", "foo(@.a) != 1",
			"lengthx(@.a) >= 0", "foo(@) && true", "true && foo(@)", "@.a.foo() in [null]", "length(foo(@))", "foo(@.a).length()", "-foo(@) == null", "[foo(@)]", "1 == foo(1)", "foo(1) < 1", "null == @.b.foo()")
	case 5:
		c = pick(b.G, "@.length", "@.a.length", "@.length == 1", "@['length']", "@.length == @.a.length()", "@.length.length()", "$.length", "@.a.length == @.length")
	case 6:
		c = f() + " in [0, 2, 3]"
	case 7:
		return pick(b.G, "$.length", "$.v.length", "$.v[*].length", "$..length", "$.v.*['length']", "/length", "/v/0/length", "$.v[*].a.length")
	case 8:
		return "$.v[*].a[" + pick(b.G, "@.length()-1:", "(@.length()-1):", ":(@.length()-1)", "(length(@)-2):", "0:length(@)", "-length(@):", ":@.length()") + "]"
	default:
		c = cmp(f())
	}
	return pick(b.G, "$.v", "$.v", "$.v", "$..v", "$") + "[?(" + c + ")]"
}

// stringLiterals: quoted text with escapes
func (b *B) stringLiterals() {
	var doc []member
	var texts []string
	vs := []*N{}
	for i := 0; i < 5; i++ {
		val, s1, s2 := b.literal()
		doc = append(doc, member{val, nInt(i)})
		vs = append(vs, nStr(val))
		for _, s := range []string{s1, s2} {
			switch b.n(5) {
			case 0:
				texts = append(texts, "$["+s+"]")
			case 1:
				texts = append(texts, "$."+s)
			case 2:
				texts = append(texts, "$.\x00v[?(@ == "+s+")]")
			case 3:
				texts = append(texts, "/"+s)
			default:
				texts = append(texts, "$.."+s)
			}
		}
	}
	// distractors
	for i := 0; i < 4; i++ {
		d := pick(b.G, "", "n", "x41", "u0041", "A", "\\", "'", `"`, "\n", "a", "\\n", "0", "\x00", "bB", "nt", "b", "u{41}", "\u0041", "\u2028")
		doc = append(doc, member{d, nNull()})
		vs = append(vs, nStr(d))
	}
	doc = append(doc, member{"__vals", nArr(vs...)})
	b.doc(nObj(doc...))
	for _, t := range texts {
		b.text(strings.ReplaceAll(t, "\x00v", "__vals"))
	}
	b.cross()
}

// literal returns a text and two spellings
func (b *B) literal() (string, string, string) {
	type piece struct {
		val string
		sp  []string
	}
	hex := func(r rune) []string {
		out := []string{fmt.Sprintf(`\u{%x}`, r), fmt.Sprintf(`\u{%X}`, r), fmt.Sprintf(`\u{00%x}`, r)}
		if r < 0x100 {
			out = append(out, fmt.Sprintf(`\x%02x`, r), fmt.Sprintf(`\x%02X`, r))
		}
		if r < 0x10000 && (r < 0xd800 || r > 0xdfff) {
			out = append(out, fmt.Sprintf(`\u%04x`, r), fmt.Sprintf(`\u%04X`, r))
		}
		return out
	}
	mk := func() piece {
		switch b.n(9) {
		case 0:
			k := b.n(6)
			return piece{string("\b\f\n\r\t\v"[k]), append(hex(rune("\b\f\n\r\t\v"[k])), `\`+string("bfnrtv"[k]), `\`+string("bfnrtv"[k]))}
		case 1:
			r := pick(b.G, 'a', 'é', 'z', '0', '"', '\'', '\\', 'ÿ', '\u0100', '日', '\U0001F600', '\u2028', '\x01', '\U0010FFFF', '\uFFFD', '\uE000', ' ')
			return piece{string(r), hex(r)}
		case 2:
			// a backslash before any other character
			r := pick(b.G, 'a', 'c', 'g', 'z', '/', '.', '"', '\'', '\\', '$', '*', 'é', '日', '\U0001F600', ' ', 'N', 'B', 'X', 'U', 'A', '{', 'q', 's', 'd', '-', '[')
			return piece{string(r), []string{`\` + string(r)}}
		case 3:
			return piece{"", []string{"\\\n", "\\\r", "\\\u2028", "\\\u2029", "\\\r\n", "\\\n\n"}}
		case 4:
			return piece{pick(b.G, "é", "日本", "😀", "\u2028", "\u00a0", "\t"), nil}
		case 5:
			if b.p(.2) {
				return piece{"\x00", []string{`\0`, `\x00`, `\u0000`, `\u{0}`}}
			}
			return piece{pick(b.G, "x41", "u0041", "n", "41", "u{41}", "0", "9", "AB"), nil}
		default:
			return piece{pick(b.G, "a", "b", "ab", " ", "A", "1", "x", "name", ".", "*", "[", "]", "$"), nil}
		}
	}
	val := ""
	var ps []piece
	k := b.in(0, 5)
	for i := 0; i < k; i++ {
		p := mk()
		ps = append(ps, p)
		val += p.val
	}
	spell := func(q string) string {
		s := q
		for _, p := range ps {
			if p.sp == nil {
				s += p.val
			} else {
				e := pickS(b.G, p.sp)
				s += e
			}
		}
		if b.p(.15) {
			// a raw quote of the other kind
			o := `"`
			if q == o {
				o = "'"
			}
			_ = o
		}
		return s + q
	}
	return val, spell(`"`), spell(`'`)
}

// numericLiterals in all notations: as operands, positions and bounds
func (b *B) numericLiterals() {
	vals := []*N{}
	seen := map[string]bool{}
	add := func(f float64) {
		if math.IsInf(f, 0) || math.IsNaN(f) {
			return
		}
		if k := fmt.Sprint(f); !seen[k] {
			seen[k] = true
			vals = append(vals, nFlt(f))
			if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
				vals = append(vals, nInt(int(f)))
			}
		}
	}
	var texts []string
	for i := 0; i < 6; i++ {
		s, f := b.number()
		add(f)
		add(f + 1)
		add(f * 10)
		add(f / 10)
		add(-f)
		neg := pick(b.G, "", "", "", "-")
		texts = append(texts, "$.v[?(@ == "+neg+s+")]", "$.v[?(@ < "+neg+s+")]")
		if b.p(.2) {
			texts = append(texts, "$.v[?("+neg+s+" >= @)]")
		}
	}
	for _, big := range []int{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1 << 53} {
		if b.p(.3) {
			vals = append(vals, nInt(big))
			texts = append(texts, "$.v[?(@ == "+pick(b.G, "9223372036854775807", "0x7fffffffffffffff", "9223372036854775806", "9007199254740992", "-9223372036854775807", "0o777777777777777777777", "9_223_372_036_854_775_807")+")]")
		}
	}
	vals = append(vals, nInt(0), nInt(1), nNull(), nStr("1"))
	n := b.in(0, 20)
	a := []*N{}
	for i := 0; i < n; i++ {
		a = append(a, nInt(i))
	}
	for i := 0; i < 6; i++ {
		lit := func() string {
			neg := pick(b.G, "", "", "-")
			if b.p(.15) {
				return neg + pick(b.G, "0xffffffffffffffff", "18446744073709551617", "0x10000000000000000", "4294967296", "0b1_0", "0x0_1", "1_0", "0_1", "000", "0x7fffffffffffffff", "99999999999999999999", "0o1_0")
			}
			return neg + b.natText(uint64(b.in(0, n+2)))
		}
		switch b.n(6) {
		case 0, 1:
			texts = append(texts, "$.a["+lit()+"]")
		case 2:
			texts = append(texts, "$.a["+lit()+":"+lit()+"]")
		case 3:
			texts = append(texts, "$.a["+lit()+":"+lit()+":"+lit()+"]")
		case 4:
			texts = append(texts, "$.a["+lit()+","+lit()+"]")
		default:
			texts = append(texts, pick(b.G, "$.a.", "/a/", "$.a..")+strings.TrimLeft(lit(), "-"))
		}
	}
	b.doc(nObj(member{"v", nArr(vals...)}, member{"a", nArr(a...)}))
	for _, t := range texts {
		b.text(t)
	}
	b.cross()
}

func (b *B) digits(k int) string {
	s := ""
	for i := 0; i < k; i++ {
		s += strconv.Itoa(b.n(10))
	}
	return s
}

// number spells a literal, and gives its value
func (b *B) number() (string, float64) {
	under := func(s string) string {
		if len(s) > 0 && b.p(.2) {
			i := b.in(1, len(s))
			return s[:i] + strings.Repeat("_", b.in(1, 2)) + s[i:]
		}
		return s
	}
	val := func(s string) float64 {
		f, _ := strconv.ParseFloat(strings.ReplaceAll(s, "_", ""), 64)
		return f
	}
	switch b.n(8) {
	case 0, 1:
		v := uint64(b.n(1000))
		if b.p(.3) {
			v = uint64(b.r.Int63())
			if b.p(.5) {
				v = v >> uint(b.n(40))
			}
		}
		s := b.natText(v)
		return s, float64(v)
	case 2:
		h := ""
		for i := b.in(1, 18); i > 0; i-- {
			h += string("0123456789abcdefABCDEF"[b.n(22)])
		}
		f, _ := strconv.ParseFloat("0x"+h+"p0", 64)
		return pick(b.G, "0x", "0X") + under(h), f
	case 3:
		s := under(b.digits(b.in(1, 25)))
		return s, val(s)
	case 4, 5:
		s := under(b.digits(b.in(1, 6))) + "." + under(b.digits(b.in(1, 6)))
		return s, val(s)
	default:
		s := under(b.digits(b.in(1, 4)))
		if b.p(.6) {
			s += "." + under(b.digits(b.in(1, 4)))
		}
		s += pick(b.G, "e", "E") + pick(b.G, "", "+", "-") + under(strconv.Itoa(b.in(0, 20)))
		if b.p(.1) {
			s = s[:len(s)-1] + strconv.Itoa(b.in(100, 305))
		}
		return s, val(s)
	}
}

// notations of the same path
func (b *B) notations() {
	b.pool(.3, .2, 5)
	for i := 0; i < 2; i++ {
		b.doc(b.sampleDoc())
	}
	type st struct {
		name string
		ix   int
		kind byte // n i *
		rec  bool
	}
	for k := 0; k < 3; k++ {
		w := &walker{g: b.G, cur: b.s.Docs[b.n(2)].Root}
		var steps []st
		n := b.in(1, 4)
		rec := false
		for i := 0; i < n; i++ {
			if b.p(.15) {
				steps = append(steps, st{kind: '*'})
				w.down()
				continue
			}
			nm, ix, isName := w.child(false)
			s := st{name: nm, ix: ix, kind: 'i'}
			if isName {
				s.kind = 'n'
			}
			if b.p(.08) && !rec {
				s.rec = true
				rec = true
			}
			steps = append(steps, s)
		}
		spell := func(kind byte, ws float64) string {
			b.ws = ws
			r := "$"
			if kind == '/' {
				r = ""
			}
			for _, s := range steps {
				q1 := `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`, "\r", `\r`).Replace(s.name) + `"`
				q2 := `'` + strings.NewReplacer(`\`, `\\`, `'`, `\'`, "\n", `\n`, "\r", `\r`).Replace(s.name) + `'`
				dot := b.sp() + "." + b.sp()
				lb, rb := b.sp()+"["+b.sp(), b.sp()+"]"
				if s.rec {
					dot = b.sp() + ".." + b.sp()
					lb = b.sp() + ".." + b.sp() + "[" + b.sp()
				}
				if kind == '/' {
					dot = b.sp() + "/" + b.sp()
					if len(r) == 0 {
						dot = "/" // nothing may precede the first slash
					}
				}
				k := kind
				if k == '?' {
					k = pick(b.G, byte('.'), '[', '\'', 'q')
				}
				switch {
				case s.kind == '*' && k != '[' && k != '\'':
					r += dot + "*"
				case s.kind == '*':
					r += lb + "*" + rb
				case s.kind == 'i' && k == '[':
					r += lb + strconv.Itoa(s.ix) + rb
				case s.kind == 'i' && k == '\'':
					r += lb + pick(b.G, strconv.Itoa(s.ix), "'"+strconv.Itoa(s.ix)+"'") + rb
				case s.kind == 'i':
					// two numbers in dot notation would make a decimal
					if d := r[max(0, len(r)-1):]; dot == "." && d >= "0" && d <= "9" {
						dot = " ."
					}
					r += dot + strconv.Itoa(s.ix)
				case k == '[' && isIdent(s.name) && b.p(.5):
					r += lb + s.name + rb
				case k == '[':
					r += lb + q1 + rb
				case k == '\'':
					r += lb + q2 + rb
				case isIdent(s.name) && k != 'q':
					r += dot + s.name
				default:
					r += dot + pick(b.G, q1, q2)
				}
			}
			if b.p(ws) {
				r += pick(b.G, " ", "\t", "\n")
			}
			return r
		}
		kinds := []byte{'.', '[', '\'', 'q', '?'}
		if !rec {
			kinds = append(kinds, '/')
		}
		for _, kd := range kinds {
			b.text(spell(kd, 0))
			if b.p(.4) {
				b.text(spell(kd, .5))
			}
		}
	}
	// white space in other places
	if b.p(.5) {
		b.ws = .5
		d := b.s.Docs[0].Root
		b.text(b.path(d, "cwsufr", 1, 3))
		x := b.condX()
		b.text("$" + b.sp() + "[" + b.sp() + "?(" + b.render(x, 1) + ")" + b.sp() + "]" + b.sp())
	}
	b.cross()
}

func (b *B) condX() *X {
	nm := b.name()
	p := "@" + b.sp() + "." + b.sp() + b.plainQuote(nm)
	return binX(pick(b.G, "==", "!=", "<", ">", "in", "&&", "||"), leafX(p), leafX("["+b.sp()+"1"+b.sp()+","+b.sp()+"2"+b.sp()+"]"))
}

// grouping: expressions with few parentheses
func (b *B) grouping() {
	if b.p(.4) {
		b.arith(3, b.in(0, 1))
		return
	}
	b.doc(b.pairsDoc(b.in(6, 12), func() *N {
		if b.p(.8) {
			return b.smallScalar()
		}
		return b.operand()
	}))
	ops := []string{"||", "&&", "==", "!=", "===", "!==", "<", "<=", ">", ">=", "in", "+", "-", "*", "/", "%", "**"}
	for i := 0; i < 8; i++ {
		var build func(k int) *X
		build = func(k int) *X {
			if k == 0 {
				if b.p(.25) {
					return unX(pick(b.G, "!", "-", "+", "!", "-"), build(0))
				}
				return leafX(pick(b.G, "@.a", "@.b", "@.c", "$.s", "0", "1", "2", "3", "true", "false", "null", `"a"`, `""`, "@.missing", "[1,2]", "[true]", "length(@.a)", "@.length()", "1.5", "@.a.length()", "$.w", `"1"`, "@['b']", "$.w[0]"))
			}
			l := b.n(k)
			op := pickS(b.G, ops)
			x := binX(op, build(l), build(k-1-l))
			if b.p(.1) {
				x = unX(pick(b.G, "!", "-"), x)
			}
			return x
		}
		x := build(b.in(1, 4))
		b.text("$.v[?(" + b.render(x, 0) + ")]")
		b.text("$.v[?(" + b.render(x, pick(b.G, 1, 2)) + ")]")
	}
	b.cross()
}

func generate(prop string, seed int64, id int) *Session {
	f := gens[prop]
	if f == nil {
		panic("no generator for " + prop)
	}
	g := &G{r: rand.New(rand.NewSource(seed*1000003 + int64(id)*7919 + int64(len(prop)) + int64(prop[2])*31 + int64(prop[1])*57))}
	b := &B{G: g, s: &Session{ID: id, Prop: prop}}
	b.pool(.1, .1, 4)
	f(b)
	return b.s
}

// use: paths and documents for several searches at the same time
// mixed makes an array and objects that have members for the same numbers
func (b *B) mixed(i int) *N {
	v := func() *N {
		if b.p(.5) {
			return nArr(nInt(b.n(9)), nInt(b.n(9)), nArr(nInt(1), nInt(2)))
		}
		return nObj(member{"1", nInt(b.n(9))}, member{"0", nArr(nInt(3), nInt(4))}, member{"a", nInt(5)})
	}
	if i%2 == 0 {
		return nArr(v(), v())
	}
	return nObj(member{"a", v()}, member{"0", v()}, member{"1", v()})
}

func (b *B) use(plan string) {
	b.s.Plan = plan
	b.pool(.05, .1, 4)
	k := b.in(1, 2)
	mixed := b.p(.15)
	for i := 0; i < k || mixed && i < 2; i++ {
		if mixed {
			b.doc(b.mixed(i))
		} else {
			b.doc(b.container(b.in(2, 4), 3, b.smallScalar))
		}
	}
	for i := 0; i < b.in(2, 4); i++ {
		if mixed && b.p(.7) {
			b.text(pick(b.G, "$.*", "$[0]", "$..", "$", "$..*", "$[0,1,a]", "$.*.*", "/*", "$[?(@.*)]") + pick(b.G, "['1']", "['0']", "[1]", ".1", "['1','0']", "[0,'1']", "..['1']", "[?(@['1'])]", ".*['0']", "[-1]", "[0:1]"))
			continue
		}
		d := b.s.Docs[b.n(k)].Root
		var s string
		for {
			switch b.n(4) {
			case 0:
				s = "$..[?(" + b.render(b.anyX(b.in(0, 2)), 1) + ")]"
			case 1:
				s = b.scopePath()
			default:
				s = b.path(d, pick(b.G, "ccw", "cCrW", "rRWSs", "uUvV", "fF"), 1, 3)
			}
			if strings.Count(s, "..") <= 2 {
				break
			}
		}
		b.text(s)
	}
	if b.p(.2) {
		b.text(pick(b.G, "$.", "$[?(@.a ==)]", "/a/", "$[1", "$..[?(@ = 1)]"))
	}
	if b.s.Plan == "race" {
		b.cross()
	}
}
