package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// G makes random documents and path texts
type G struct {
	r     *rand.Rand
	names []string
	// probability of optional blanks
	ws float64
	// tier
	deep bool
}

func (g *G) n(k int) int          { return g.r.Intn(k) }
func (g *G) p(x float64) bool     { return g.r.Float64() < x }
func (g *G) in(a, b int) int      { return a + g.r.Intn(b-a+1) }
func pick[T any](g *G, xs ...T) T { return xs[g.r.Intn(len(xs))] }
func pickS[T any](g *G, xs []T) T { return xs[g.r.Intn(len(xs))] }

var plainNames = []string{"a", "b", "c", "d", "x", "name", "k1", "_u", "id", "Store", "A", "aa", "ab", "b_", "_", "a_1_", "a1"}
var oddNames = []string{"", " ", "a b", "a.b", "é", "日本", "😀", `"`, `'`, `\`, "a\nb", "a\rb", "a\tb", "*", "$", "@", "in",
	"null", "true", "false", "length", "..", "a-b", "-", "a'b\"c", "$x", "/", "a/b", "[0]", "?(@)", ",", ":", "\u2028", "\x00", "\x7f", "ａ", "e\u0301", "\u00e9", "%", "#", "0x10", "1.5", "1e3", "\\n", "\\\\", "\"\\", "'\\\"", "inn", "In", "nul", "ünïcode", "Ω", "ж", "a_b-c", "0a", "aé", "ↈ", "𝒜", "٣", "a٣", "_", "__", "-1a", "--", "'", "''", `""`, "x y z", " a", "a ", "~", "!", "(", ")", "{", "}", "|", "&", "^", "<", ">", "=", ";", "`"}
var digitNames = []string{"0", "1", "2", "3", "-1", "-2", "10", "5", "00", "1_0", "+1"}

func (g *G) pool(odd, digits float64, k int) {
	g.names = nil
	for i := 0; i < k; i++ {
		switch x := g.r.Float64(); {
		case x < odd:
			g.names = append(g.names, pickS(g, oddNames))
		case x < odd+digits:
			g.names = append(g.names, pickS(g, digitNames))
		default:
			g.names = append(g.names, pickS(g, plainNames))
		}
	}
	if g.p(odd / 4) {
		g.names = append(g.names, strings.Repeat(pick(g, "q", "long", "é"), g.in(60, 140)))
	}
}

func (g *G) name() string { return pickS(g, g.names) }

// scalars

var intPool = []int{0, 1, 2, 3, -1, -2, 5, 7, 10, 12, 100, 255, 256, 1000, 65536, -7, 1 << 31, 1<<31 - 1, 1 << 40, 9007199254740991, 1000000007, 1<<63 - 1, -1 << 63}
var fltPool = []float64{0, 1, 2, 3, -1, 0.5, 1.5, 2.5, -0.5, 0.25, 10, 100, 0.1, 0.2, 0.3, 3.75, 1e3, 1e10, 1e21, 1.5e300, 1e-7, 12, 255, 7, -2.75, 4294967296, 123456.789}
var strPool = []string{"", "a", "b", "A", "ab", "abc", "0", "1", "2", "12", "1.0", "1.5", "-1", "1e3", "10", "9", "true", "false", "null", "é", "日本", "z", " ", "1 ", "a b", "😀", "\uffff", "abd", "100", "-0.5", "x", "zz", "007", "0.0", "length"}

func (g *G) scalar() *N {
	switch g.n(8) {
	case 0:
		return nNull()
	case 1:
		return nBool(g.p(.5))
	case 2, 3:
		return nInt(pickS(g, intPool))
	case 4:
		return nFlt(pickS(g, fltPool))
	default:
		return nStr(pickS(g, strPool))
	}
}

// small scalars, often equal to each other
func (g *G) smallScalar() *N {
	switch g.n(12) {
	case 0:
		return nNull()
	case 1:
		return nBool(false)
	case 2:
		return nBool(true)
	case 3, 4:
		return nInt(g.in(-1, 3))
	case 5:
		return nFlt(float64(g.in(-2, 4)) / 2)
	case 6:
		return nStr("")
	case 7:
		return nStr(strconv.Itoa(g.in(0, 2)))
	default:
		return nStr(pick(g, "a", "b", "x"))
	}
}

// doc makes a tree
func (g *G) doc(depth, width int, leaf func() *N) *N {
	if depth == 0 || g.p(.15) {
		return leaf()
	}
	k := g.in(0, width)
	if g.p(.5) {
		vs := []*N{}
		for i := 0; i < k; i++ {
			vs = append(vs, g.doc(depth-1, width, leaf))
		}
		return nArr(vs...)
	}
	ms := []member{}
	for i := 0; i < k; i++ {
		ms = append(ms, member{g.name(), g.doc(depth-1, width, leaf)})
	}
	return nObj(ms...)
}

// container like doc, but not a scalar
func (g *G) container(depth, width int, leaf func() *N) *N {
	for i := 0; i < 20; i++ {
		d := g.doc(depth, width, leaf)
		if d.K == "arr" || d.K == "obj" {
			return d
		}
	}
	return nArr(leaf(), leaf())
}

func (g *G) wideArr(n int, leaf func() *N) *N {
	vs := []*N{}
	for i := 0; i < n; i++ {
		vs = append(vs, leaf())
	}
	return nArr(vs...)
}

// sampleDoc is a document of any shape
func (g *G) sampleDoc() *N {
	leaf := g.smallScalar
	if g.p(.3) {
		leaf = g.scalar
	}
	switch x := g.r.Float64(); {
	case x < .03:
		return leaf()
	case x < .10:
		return nObj(member{g.name(), g.wideArr(g.in(10, 40), leaf)}, member{g.name(), g.doc(2, 3, leaf)})
	case x < .12:
		return g.wideArr(g.in(100, 300), leaf)
	case x < .15:
		// a wide object
		ms := []member{}
		k := g.in(10, 40)
		for i := 0; i < k; i++ {
			ms = append(ms, member{pick(g, "k", "a", "x") + strconv.Itoa(g.n(60)), leaf()})
		}
		for _, nm := range g.names {
			ms = append(ms, member{nm, g.doc(1, 3, leaf)})
		}
		g.r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		return nObj(ms...)
	case x < .20:
		return g.chain(g.in(5, 20), leaf)
	case x < .21:
		return g.chain(g.in(120, 160), leaf)
	case x < .6:
		return g.container(3, 3, leaf)
	case x < .9:
		return g.container(4, 3, leaf)
	default:
		return g.container(3, 6, leaf)
	}
}

// chain is a deep document
func (g *G) chain(depth int, leaf func() *N) *N {
	n := g.doc(1, 2, leaf)
	for i := 0; i < depth; i++ {
		var ks []*N
		ks = append(ks, n)
		if g.p(.4) {
			ks = append(ks, leaf())
		}
		if g.p(.1) {
			ks = append(ks, g.doc(1, 2, leaf))
		}
		g.r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		if g.p(.5) {
			n = nArr(ks...)
		} else {
			ms := []member{}
			for i, k := range ks {
				ms = append(ms, member{g.names[(g.n(len(g.names))+i)%len(g.names)], k})
			}
			n = nObj(ms...)
		}
	}
	return n
}

// rerender numbers the document
func finish(d *N) *N { number(d); return d }

///////////////////////////////////////////////////////////////////
// texts

// sp is an optional blank
func (g *G) sp() string {
	if g.p(g.ws) {
		return pick(g, " ", "  ", "\t", "\n", " \r\n ")
	}
	return ""
}

func isIdent(s string) bool {
	if s == "" || s == "in" || s == "null" || s == "true" || s == "false" {
		return false
	}
	for i, r := range s {
		if !(r == '_' || (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || (i > 0 && r >= '0' && r <= '9')) {
			return false
		}
	}
	return true
}

// quote spells s as a string literal
func (g *G) quote(s string) string {
	q := pick(g, `"`, `'`)
	b := strings.Builder{}
	b.WriteString(q)
	for _, r := range s {
		switch {
		case string(r) == q || r == '\\':
			b.WriteString(`\` + string(r))
		case r == '\n':
			b.WriteString(pick(g, `\n`, `\x0a`, `\u000A`))
		case r == '\r':
			b.WriteString(pick(g, `\r`, `\x0D`, `\u{0d}`))
		default:
			b.WriteRune(r)
		}
	}
	b.WriteString(q)
	return b.String()
}

// plainQuote uses no more escapes than needed
func (g *G) plainQuote(s string) string {
	q := `"`
	if strings.Contains(s, q) || g.p(.5) {
		q = `'`
	}
	if strings.Contains(s, q) {
		q = `"`
	}
	r := strings.NewReplacer(`\`, `\\`, q, `\`+q, "\n", `\n`, "\r", `\r`)
	return q + r.Replace(s) + q
}

// nameStep spells a step to a member, in some notation
func (g *G) nameStep(name string) string {
	if isIdent(name) && g.p(.6) {
		return g.sp() + "." + g.sp() + name
	}
	if g.p(.3) {
		return g.sp() + "." + g.sp() + g.plainQuote(name)
	}
	if isIdent(name) && g.p(.3) {
		return g.sp() + "[" + g.sp() + name + g.sp() + "]"
	}
	return g.sp() + "[" + g.sp() + g.plainQuote(name) + g.sp() + "]"
}

// numStep spells a step to a position
func (g *G) numStep(i int) string {
	s := strconv.Itoa(i)
	if i >= 0 && g.p(.25) {
		return g.sp() + "." + g.sp() + s
	}
	if g.p(.1) {
		return g.sp() + "[" + g.sp() + g.plainQuote(s) + g.sp() + "]"
	}
	return g.sp() + "[" + g.sp() + s + g.sp() + "]"
}

func (g *G) wildStep() string {
	return pick(g, g.sp()+"."+g.sp()+"*", g.sp()+"["+g.sp()+"*"+g.sp()+"]")
}

// recName, recNum, ... are steps after '..'
func (g *G) rec(inner string) string { return g.sp() + ".." + g.sp() + inner }

// index in or near an array of n elements
func (g *G) nearIndex(n int, neg bool) int {
	if g.p(.1) {
		return pick(g, 99, 1000, 1<<31, 1<<32+1, -99*b2i(neg), -(1<<32)*b2i(neg))
	}
	if neg && g.p(.5) {
		return -g.in(1, n+2)
	}
	return g.in(0, n+1)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (g *G) bound(n int) string {
	switch x := g.r.Float64(); {
	case x < .25:
		return ""
	case x < .33:
		return pick(g, "1000", "-1000", "@[0]", "@[1]", "@[-1]", "(@.length()-1)", "length(@)", "('x')", "('1')", "(null)", "$[0]", "(0-length(@))", "2147483648", "-2147483649", "4294967297", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "-99999999999999999999", "9223372036854775808")
	}
	return strconv.Itoa(g.in(-n-2, n+2))
}

func (g *G) stepBound(n int) string {
	switch x := g.r.Float64(); {
	case x < .25:
		return pick(g, "", "1")
	case x < .33:
		return pick(g, "0", "1000", "-1000", "@[0]", "@[-1]", "(null)", "('x')", "('-1')", "length(@)", "4294967296", "-4294967296", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "-99999999999999999999")
	case x < .7:
		return strconv.Itoa(g.in(-3, 3))
	}
	return strconv.Itoa(g.in(-n-2, n+2))
}

// slice is a slice part for arrays of about n elements
func (g *G) slice(n int) string {
	switch g.n(3) {
	case 0:
		return g.bound(n) + ":" + g.bound(n)
	default:
		return g.bound(n) + ":" + g.bound(n) + ":" + g.stepBound(n)
	}
}

// walk follows the document while it makes steps, so that most paths
// select something
type walker struct {
	g   *G
	cur *N
}

func (w *walker) down() {
	if w.cur != nil && len(w.cur.kids()) > 0 {
		w.cur = pickS(w.g, w.cur.kids())
	} else {
		w.cur = nil
	}
}

func (w *walker) deepDown() {
	for i := 0; i < 4; i++ {
		if w.cur == nil || len(w.cur.kids()) == 0 || (i > 0 && w.g.p(.4)) {
			return
		}
		w.down()
	}
}

func (w *walker) len() int {
	if w.cur == nil {
		return 3
	}
	return len(w.cur.kids())
}

// childKey returns the name or the position of a child, and moves there
func (w *walker) child(neg bool) (name string, ix int, isName bool) {
	g := w.g
	if w.cur == nil || len(w.cur.kids()) == 0 || g.p(.1) {
		// any step
		w.cur = nil
		if g.p(.5) {
			return g.name(), 0, true
		}
		return "", g.nearIndex(3, neg), false
	}
	i := g.n(len(w.cur.kids()))
	n := len(w.cur.kids())
	c := w.cur
	w.cur = c.kids()[i]
	if c.K == "obj" {
		return c.keys[i], 0, true
	}
	if g.p(.1) {
		w.cur = nil
		return "", g.nearIndex(n, neg), false
	}
	if neg && g.p(.5) {
		return "", i - n, false
	}
	return "", i, false
}

func (w *walker) childStep(neg bool) string {
	nm, ix, isName := w.child(neg)
	if isName {
		return w.g.nameStep(nm)
	}
	return w.g.numStep(ix)
}

// part is a union part that may apply to the children of the current node
func (w *walker) part(kinds string) string {
	g := w.g
	c := w.cur
	switch kinds[g.n(len(kinds))] {
	case 'n': // name
		if c != nil && c.K == "obj" && len(c.keys) > 0 && g.p(.8) {
			nm := pickS(g, c.keys)
			if isIdent(nm) && g.p(.5) {
				return nm
			}
			return g.plainQuote(nm)
		}
		nm := g.name()
		if isIdent(nm) && g.p(.5) {
			return nm
		}
		return g.plainQuote(nm)
	case 'i': // index
		return strconv.Itoa(g.nearIndex(w.len(), false))
	case 'm': // index, maybe negative
		return strconv.Itoa(g.nearIndex(w.len(), true))
	case 's':
		return g.slice(w.len())
	case 'f':
		return "?(" + g.cond(0) + ")"
	case '*':
		return "*"
	}
	panic(kinds)
}

func (w *walker) union(kinds string, k int) string {
	g := w.g
	parts := []string{}
	for i := 0; i < k; i++ {
		parts = append(parts, w.part(kinds))
	}
	// repeat a part
	if g.p(.2) {
		parts = append(parts, pickS(g, parts))
	}
	s := "[" + g.sp() + parts[0]
	for _, p := range parts[1:] {
		s += g.sp() + "," + g.sp() + p
	}
	return s + g.sp() + "]"
}

// cond is a simple condition on @
func (g *G) cond(depth int) string {
	switch g.n(9) {
	case 0:
		return "@"
	case 1:
		return "@" + g.nameStep(g.name())
	case 2:
		return "@" + g.numStep(g.in(0, 2))
	case 3:
		return "@.*"
	case 4:
		return "@" + g.nameStep(g.name()) + g.nameStep(g.name())
	case 5:
		return "@" + g.rec(g.recName(g.name()))
	case 6:
		return "$" + g.nameStep(g.name())
	case 7:
		if depth < 2 {
			return "@[?(" + g.cond(depth+1) + ")]"
		}
		return "@" + g.wildStep()
	default:
		return "@" + g.nameStep(g.name()) + g.numStep(g.in(0, 2))
	}
}

func (g *G) recName(name string) string {
	if isIdent(name) && g.p(.7) {
		return name
	}
	if g.p(.5) {
		return g.plainQuote(name)
	}
	return "[" + g.sp() + g.plainQuote(name) + g.sp() + "]"
}

// path makes a path text for the document. kinds has the kinds of steps:
//
//	c child (name or number), C child with negative numbers, w wildcard,
//	r recursive child, R recursive with negative, W recursive wildcard,
//	s slice, S recursive slice, u union, U recursive union, f filter,
//	F recursive filter, t trailing ..
func (g *G) path(d *N, kinds string, min, max int) string {
	w := &walker{g: g, cur: d}
	k := g.in(min, max)
	s := "$"
	for i := 0; i < k; i++ {
		switch c := kinds[g.n(len(kinds))]; c {
		case 'c':
			s += w.childStep(false)
		case 'C':
			s += w.childStep(true)
		case 'w':
			s += g.wildStep()
			w.down()
		case 'r', 'R':
			w.deepDownParent()
			nm, ix, isName := w.child(c == 'R')
			if isName {
				s += g.rec(g.recName(nm))
			} else if ix >= 0 && g.p(.3) {
				s += g.rec(strconv.Itoa(ix))
			} else {
				s += g.rec("[" + g.sp() + strconv.Itoa(ix) + g.sp() + "]")
			}
		case 'W':
			w.deepDown()
			s += g.rec(pick(g, "*", "["+g.sp()+"*"+g.sp()+"]"))
		case 's':
			n := w.len()
			s += g.sp() + "[" + g.sp() + g.slice(n) + g.sp() + "]"
			w.down()
		case 'S':
			w.deepDownParent()
			n := w.len()
			s += g.rec("[" + g.sp() + g.slice(n) + g.sp() + "]")
			w.down()
		case 'u':
			s += g.sp() + w.union("nnmms*f", g.in(2, 4))
			w.down()
		case 'U':
			w.deepDownParent()
			s += g.rec(w.union("nnmms*f", g.in(2, 4)))
			w.down()
		case 'v':
			s += g.sp() + w.union("nnmms*", g.in(2, 5))
			w.down()
		case 'V':
			w.deepDownParent()
			s += g.rec(w.union("nnmms*", g.in(2, 4)))
			w.down()
		case 'f':
			s += g.sp() + "[" + g.sp() + "?(" + g.cond(0) + ")" + g.sp() + "]"
			w.down()
		case 'F':
			w.deepDownParent()
			s += g.rec("[" + g.sp() + "?(" + g.cond(0) + ")" + g.sp() + "]")
			w.down()
		case 't':
			if i == k-1 {
				s += g.sp() + ".."
			}
		default:
			panic(fmt.Sprint("kind ", string(c)))
		}
	}
	if g.p(g.ws) {
		s += " "
	}
	return s
}

// deepDownParent moves to a descendant that has children, if possible
func (w *walker) deepDownParent() {
	for i := 0; i < 4; i++ {
		if w.cur == nil || w.g.p(.4) {
			return
		}
		var cs []*N
		for _, c := range w.cur.kids() {
			if len(c.kids()) > 0 {
				cs = append(cs, c)
			}
		}
		if len(cs) == 0 {
			return
		}
		w.cur = pickS(w.g, cs)
	}
}

// tower is a deep document with few names, where long paths find something
func (b *B) tower(k int) *N {
	if k == 0 {
		return b.smallScalar()
	}
	c := b.tower(k - 1)
	if b.p(.4) {
		switch b.n(3) {
		case 0:
			return nArr(c, b.smallScalar())
		case 1:
			return nArr(b.smallScalar(), c)
		}
		return nArr(c)
	}
	switch b.n(4) {
	case 0:
		return nObj(member{"a", c}, member{"b", b.tower(b.n(min(k, 3)))})
	case 1:
		return nObj(member{"b", c}, member{"a", b.tower(b.n(min(k, 3)))})
	case 2:
		return nObj(member{"c", b.smallScalar()}, member{"a", c})
	}
	return nObj(member{"a", c})
}
