package main

import (
	"encoding/json"
	"errors"
	"math"
	"strconv"
	"strings"
	"time"

	gojsonpath "github.com/bserdar/gojsonpath"
)

// toks collects the tokens of a text
type toks struct {
	*B
	ts []string
	// filters that may still be nested
	nest int
}

func (t *toks) add(xs ...string) { t.ts = append(t.ts, xs...) }
func (t *toks) sp() {
	if t.p(t.ws) {
		t.add(pick(t.G, " ", " ", "\t", "\n", " \r\n"))
	}
}

func (t *toks) word() string {
	return pick(t.G, "a", "b", "length", "foo", "x1", "_", "é", "inx", "nulls", "A", "ab")
}

func (t *toks) lit() string {
	return pick(t.G, "0", "1", "2", "10", "1.5", "1e3", "0x1F", "0b10", "0o7", "01", "1_0", "null", "true", "false", `"a"`, `'a'`, `""`, `'\n'`, `"\x41"`, `'\u0041'`, `'\''`, `"b c"`, "0.0", "1.5e-2", "99999999999999999999")
}

// path: a selector with steps
func (t *toks) path(depth int) {
	t.add(pick(t.G, "@", "@", "$"))
	t.steps(depth, t.in(0, 2))
}

func (t *toks) steps(depth, k int) {
	for i := 0; i < k; i++ {
		t.sp()
		switch t.n(10) {
		case 0, 1, 2:
			t.add(".")
			t.sp()
			t.add(t.word())
		case 3:
			t.add(".")
			t.sp()
			t.add(pick(t.G, "*", "0", "'a'", `"b c"`, "null", "true", "in", "1", "-1"))
		case 4:
			t.add("..")
			t.sp()
			t.add(pick(t.G, t.word(), "*", "0", "'a'"))
		case 5:
			t.add("..")
			t.sp()
			t.bracket(depth)
		case 6:
			if i == k-1 && t.p(.3) {
				t.add("..")
				return
			}
			fallthrough
		default:
			t.bracket(depth)
		}
	}
}

func (t *toks) bracket(depth int) {
	t.add("[")
	n := pick(t.G, 1, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		t.sp()
		if i > 0 {
			t.add(",")
			t.sp()
		}
		switch t.n(9) {
		case 0, 1:
			t.add(pick(t.G, "0", "1", "-1", "+1", "- 2", "-0x1", "'a'", `"b"`, "1_0", "- -1"))
		case 2:
			t.add(t.word())
		case 3:
			t.add("*")
		case 4, 5:
			t.slice(depth)
		case 6:
			// any expression, which is not a part unless it has a value or is a name
			if depth > 0 && t.p(.4) {
				t.expr(depth - 1)
			} else {
				t.add(t.lit())
			}
		default:
			if t.nest > 0 {
				t.nest--
				t.add("?(")
				t.expr(min(depth, 2))
				t.add(")")
			} else {
				t.add("1")
			}
		}
	}
	t.sp()
	t.add("]")
}

func (t *toks) slice(depth int) {
	k := pick(t.G, 2, 2, 3, 3, 3, 3, 4)
	for i := 0; i < k; i++ {
		if i > 0 {
			if i == 2 && t.p(.1) {
				t.add(" ") // the second colon is optional
			} else {
				t.add(":")
			}
		}
		switch t.n(6) {
		case 0, 1, 2:
			if t.p(.7) {
				t.add(pick(t.G, "0", "1", "-1", "2", "-3"))
			}
		case 3:
			if depth > 0 {
				t.expr(depth - 1)
			}
		case 4:
			if depth > 0 {
				t.add("(")
				t.expr(depth - 1)
				t.add(")")
			}
		case 5:
			if t.p(.3) {
				t.add(pick(t.G, "a", "'a'", "*", "null", "1.5", "@", "@.a", "~1", "1&2"))
			}
		}
	}
}

// expr is any expression of the published grammar
func (t *toks) expr(depth int) {
	if depth == 0 {
		switch t.n(8) {
		case 0, 1, 2:
			t.add(t.lit())
		case 3:
			if t.p(.15) {
				t.add(t.word())
			} else {
				t.add("@")
			}
		case 4:
			t.add(pick(t.G, "@", "$", "@.length()", "*"))
		default:
			t.path(0)
		}
		return
	}
	d := func() int { return t.n(depth) }
	switch t.n(16) {
	case 0:
		t.add(pick(t.G, "!", "-", "+", "!", "~"))
		t.sp()
		t.expr(d())
	case 1, 2:
		t.add("(")
		t.expr(d())
		t.add(")")
	case 3:
		t.path(d())
	case 4:
		t.add(pick(t.G, "length", "length", "foo"), "(")
		k := pick(t.G, 0, 1, 1, 1, 2)
		for i := 0; i < k; i++ {
			if i > 0 {
				t.add(",")
			}
			t.expr(d())
		}
		if t.p(.1) {
			t.add(",")
		}
		t.add(")")
	case 5:
		t.path(0)
		t.add(".", pick(t.G, "length", "foo"), "(")
		if t.p(.2) {
			t.expr(d())
		}
		t.add(")")
	case 6:
		t.add("[")
		k := t.in(0, 3)
		for i := 0; i < k; i++ {
			t.sp()
			if i > 0 {
				t.add(",")
				t.sp()
			}
			t.expr(d())
		}
		if t.p(.1) {
			t.add(",")
		}
		t.add("]")
	case 7:
		t.add(pick(t.G, "1", "@", "$"))
		t.sp()
		t.add(pick(t.G, "&", "|", "^", "=", "<>", "=~"))
		t.sp()
		t.expr(d())
	default:
		t.expr(d())
		op := pick(t.G, "==", "!=", "===", "!==", "<", "<=", ">", ">=", "in", "&&", "||", "+", "-", "*", "/", "%", "**")
		s := " "
		if op != "in" && t.p(.4) {
			s = ""
		}
		t.add(s, op, s)
		t.expr(d())
	}
}

// mutate changes some tokens
func (t *toks) mutate() {
	for k := pick(t.G, 1, 1, 1, 2, 3); k > 0; k-- {
		if len(t.ts) == 0 {
			return
		}
		i := t.n(len(t.ts))
		tok := func() string {
			if t.p(.15) {
				return pick(t.G, "#", ";", "{", "}", "\\", "`", "...", "&", "|", "^", "~", "=", "\x00", "\u00a0", "\ufeff", "€", "😀", "'", `"`, "//", "/*", "?", "!", "%", "\u2028", "ⅷ", "٣", "\n")
			}
			if t.p(.3) {
				return pickS(t.G, t.ts)
			}
			return pick(t.G, "$", "@", ".", "..", "[", "]", "(", ")", "?(", ",", ":", "*", "a", "0", "'a'", "==", "-", " ", "in", "&&", "!", "/", "null", "1.5", "+", "length", "<", "**", "_")
		}
		switch t.n(6) {
		case 0, 1:
			t.ts = append(t.ts[:i:i], t.ts[i+1:]...)
		case 2, 3:
			t.ts = append(t.ts[:i:i], append([]string{tok()}, t.ts[i:]...)...)
		case 4:
			t.ts[i] = tok()
		default:
			j := t.n(len(t.ts))
			t.ts[i], t.ts[j] = t.ts[j], t.ts[i]
		}
	}
}

func (t *toks) String() string { return strings.Join(t.ts, "") }

func costly(s string) bool {
	return strings.Count(s, "?(") > 4 || strings.Count(s, "(") > 12 || strings.Count(s, "..") > 4 || len(s) > 160 ||
		strings.Count(s, "[") > 14
}

// syntax is a text that is a path or nearly one
func (b *B) syntax() string {
	for {
		t := &toks{B: b, nest: 2}
		t.ws = pick(b.G, 0, 0, .1, .4)
		switch b.n(8) {
		case 0:
			t.add("/")
			for i, k := 0, b.in(1, 3); i < k; i++ {
				if i > 0 {
					t.sp()
					t.add("/")
					t.sp()
				}
				t.add(pick(b.G, t.word(), t.lit(), "*", "'a b'"))
			}
		case 1:
			t.add("$", "[", "?(")
			t.expr(3)
			t.add(")", "]")
		case 2:
			t.add("$", "[")
			t.slice(2)
			t.add("]")
		case 3:
			t.expr(1)
		default:
			t.add(pick(b.G, "$", "$", "$", "@"))
			t.steps(2, b.in(1, 4))
		}
		if b.p(.45) {
			t.mutate()
		}
		if s := t.String(); !costly(s) {
			return s
		}
	}
}

// fuzzed is any text
func (b *B) fuzzed() string {
	for {
		var s string
		switch b.n(6) {
		case 0:
			s = b.syntax()
		case 1:
			rs := []rune{}
			for i, k := 0, b.in(0, 12); i < k; i++ {
				rs = append(rs, b.anyRune())
			}
			s = string(rs)
		case 2:
			// any bytes
			bs := []byte{}
			for i, k := 0, b.in(0, 10); i < k; i++ {
				bs = append(bs, byte(b.n(256)))
			}
			s = pick(b.G, "", "$", "$.", "$['", "/", "$[?(@=='") + string(bs) + pick(b.G, "", "']", "')]")
		default:
			// characters of a path changed
			rs := []rune(b.syntax())
			for k := b.in(1, 4); k > 0 && len(rs) > 0; k-- {
				i := b.n(len(rs))
				switch b.n(4) {
				case 0:
					rs = append(rs[:i:i], rs[i+1:]...)
				case 1:
					rs = append(rs[:i:i], append([]rune{b.anyRune()}, rs[i:]...)...)
				case 2:
					rs[i] = rune(b.in(0x20, 0x7e))
				default:
					rs = rs[:i]
				}
			}
			s = string(rs)
		}
		if !costly(s) {
			return s
		}
	}
}

// raw is a text that need not be UTF-8
func (b *B) raw(s string) {
	for len(b.s.Raw) < len(b.s.Texts) {
		b.s.Raw = append(b.s.Raw, nil)
	}
	b.text(s)
	b.s.Raw = append(b.s.Raw, []byte(s))
}

func init() {
	gens["C17"] = func(b *B) {
		b.s.Plan = "parse"
		b.doc(nNull())
		for i := 0; i < 12; i++ {
			b.text(b.syntax())
		}
		b.cross()
	}
	gens["C18"] = func(b *B) {
		b.s.Plan = "total"
		b.pool(.2, .2, 4)
		big := 0
		for i := 0; i < 3; i++ {
			d := b.sampleDoc()
			if b.p(.02) {
				d = b.chain(b.in(500, 2000), b.smallScalar)
			}
			big = max(big, d.size())
			b.doc(d)
		}
		most := 2
		if big > 400 {
			most = 1
		}
		for i := 0; i < 8; i++ {
			var s string
			switch b.n(5) {
			case 0, 1:
				s = b.fuzzed()
			case 2:
				s = b.syntax()
			case 3:
				s = b.path(b.s.Docs[0].Root, "ccCwrRWSsuUvVfFt", 0, 4)
			default:
				s = "$" + pick(b.G, "", ".", ".*") + pick(b.G, "", ".") + "[?(" + b.render(b.anyX(b.in(0, 3)), 0) + ")]"
			}
			if strings.Count(s, "..") > most {
				continue
			}
			b.raw(s)
		}
		if len(b.s.Texts) == 0 {
			b.raw("$..")
		}
		b.cross()
	}
	gens["C18build"] = func(b *B) {
		gens["C23"](b)
		b.s.Plan = "buildall"
	}
}

// oddModel is the map model of a document with values that JSON does not have
func oddModel(root *N) gojsonpath.MapModel { return gojsonpath.MapModel{Doc: odd(root)} }

type oddStruct struct {
	X []int
}

func odd(n *N) any {
	switch n.K {
	case "obj":
		if len(n.keys) == 0 && n.ID%2 == 0 {
			return map[string]any(nil)
		}
		m := map[string]any{}
		for i, k := range n.keys {
			m[k] = odd(n.kids()[i])
		}
		return m
	case "arr":
		if len(n.kids()) == 0 && n.ID%2 == 0 {
			return []any(nil)
		}
		a := []any{}
		for _, c := range n.kids() {
			a = append(a, odd(c))
		}
		return a
	}
	f := func() {}
	switch n.ID % 31 {
	case 0:
		return int8(n.ID)
	case 1:
		return uint64(math.MaxUint64)
	case 2:
		return float32(n.ID) / 2
	case 3:
		return json.Number(strconv.Itoa(n.ID))
	case 4:
		return []string{"a"}
	case 5:
		return map[string]string{"a": "b"}
	case 6:
		return oddStruct{[]int{1}}
	case 7:
		return &oddStruct{}
	case 8:
		return f
	case 9:
		return make(chan int)
	case 10:
		return (*int)(nil)
	case 11:
		return errors.New("x")
	case 12:
		return []byte("ab")
	case 13:
		return time.Second
	case 14:
		return complex(1, 2)
	case 15:
		return map[any]any{1: 2}
	case 16:
		return math.NaN()
	case 17:
		return math.Inf(1)
	case 18:
		return int64(n.ID)
	case 19:
		return rune('a')
	case 20:
		return math.Inf(-1)
	case 21:
		return []int(nil)
	case 22:
		return "\xff\xfe"
	case 23:
		return -0.0
	case 24:
		return math.MaxInt
	case 25:
		return math.MinInt
	case 26:
		return math.MaxFloat64
	case 27:
		return struct{}{}
	}
	return n.value()
}

// oddValues is a model whose nodes cannot be compared, and whose values
// are anything
type oddValues struct{ *strictModel }

func (m oddValues) Value(x any) any {
	if u, ok := x.(unode); ok && u.n.kind() == gojsonpath.ValueNode {
		return odd(u.n)
	}
	return m.strictModel.Value(x)
}
