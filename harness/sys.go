package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// The systematic sessions of a property enumerate a small space of
// documents and texts completely

func parseDoc(s string) *N {
	d := &docParser{s: s}
	n := d.value()
	d.ws()
	if d.i != len(s) {
		panic("doc " + s)
	}
	return n
}

// docParser reads JSON and keeps the order of members. Numbers with a
// point or exponent become floats
type docParser struct {
	s string
	i int
}

func (d *docParser) ws() {
	for d.i < len(d.s) && d.s[d.i] == ' ' {
		d.i++
	}
}

func (d *docParser) str() string {
	j := d.i + 1
	for d.s[j] != '"' {
		if d.s[j] == '\\' {
			j++
		}
		j++
	}
	s, err := strconv.Unquote(d.s[d.i : j+1])
	if err != nil {
		panic(err)
	}
	d.i = j + 1
	return s
}

func (d *docParser) value() *N {
	d.ws()
	switch c := d.s[d.i]; {
	case c == '{':
		d.i++
		ms := []member{}
		for {
			d.ws()
			if d.s[d.i] == '}' {
				d.i++
				return nObj(ms...)
			}
			if d.s[d.i] == ',' {
				d.i++
				d.ws()
			}
			k := d.str()
			d.ws()
			d.i++ // :
			ms = append(ms, member{k, d.value()})
		}
	case c == '[':
		d.i++
		vs := []*N{}
		for {
			d.ws()
			if d.s[d.i] == ']' {
				d.i++
				return nArr(vs...)
			}
			if d.s[d.i] == ',' {
				d.i++
			}
			vs = append(vs, d.value())
		}
	case c == '"':
		return nStr(d.str())
	case strings.HasPrefix(d.s[d.i:], "null"):
		d.i += 4
		return nNull()
	case strings.HasPrefix(d.s[d.i:], "true"):
		d.i += 4
		return nBool(true)
	case strings.HasPrefix(d.s[d.i:], "false"):
		d.i += 5
		return nBool(false)
	}
	j := d.i
	for j < len(d.s) && strings.IndexByte("+-0123456789.eE", d.s[j]) != -1 {
		j++
	}
	t := d.s[d.i:j]
	d.i = j
	if i, err := strconv.Atoi(t); err == nil {
		return nInt(i)
	}
	f, err := strconv.ParseFloat(t, 64)
	if err != nil {
		panic(err)
	}
	return nFlt(f)
}

var smallDocs = []string{
	`{"a":{"a":1,"b":[2,{"a":3}]},"b":[{"a":null,"0":4},[5,6,7],"x"],"c":null}`,
	`[[1,[2,3],{"a":4}],{"a":[5],"b":{"b":6}},null,0]`,
	`{"0":"zero","1":{"1":"one","a":[]},"-1":"minus","a":[["p","q"],{"0":"r"}]}`,
	`{"b":false,"a":{"b":{"a":{"b":{"a":"deep"}}}},"x":[[[[1]]]]}`,
	`[]`, `{}`, `"a"`, `null`,
	`[1,1,"1",1.0,[1],[1]]`,
	`{"a":[{"a":1,"b":1},{"a":2,"b":1},{"b":2},{"a":"s","b":[]},{"a":[1,2],"b":{"a":1}}],"b":{"x":{"a":0},"y":{"a":1},"z":3}}`,
}

type sysB struct {
	sessions []*Session
	next     int
	plan     string
}

// add makes sessions for all texts on all documents
func (y *sysB) add(docs []*N, texts []string) {
	for len(texts) > 0 {
		k := min(24, len(texts))
		y.next++
		b := &B{s: &Session{ID: y.next, Plan: y.plan}}
		for _, d := range docs {
			b.doc(clone(d))
		}
		for _, t := range texts[:k] {
			b.text(t)
		}
		for t := range b.s.Texts {
			for d := range b.s.Docs {
				b.s.Calls = append(b.s.Calls, &Call{T: t + 1, D: d + 1})
			}
		}
		y.sessions = append(y.sessions, b.s)
		texts = texts[k:]
	}
}

// clone copies a document
func clone(n *N) *N {
	m := *n
	if n.Vs != nil {
		vs := make([]*N, 0, len(n.kids()))
		for _, c := range n.kids() {
			vs = append(vs, clone(c))
		}
		m.Vs = &vs
	}
	return &m
}

func docs(xs ...string) []*N {
	out := []*N{}
	for _, x := range xs {
		out = append(out, parseDoc(x))
	}
	return out
}

// combos are the concatenations of up to max fragments
func combos(prefix string, frags []string, max int) []string {
	level := []string{prefix}
	out := []string{prefix}
	for i := 0; i < max; i++ {
		var next []string
		for _, p := range level {
			for _, f := range frags {
				next = append(next, p+f)
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

func wrap(pre string, xs []string, post string) []string {
	out := []string{}
	for _, x := range xs {
		out = append(out, pre+x+post)
	}
	return out
}

// pairs are all x sep y
func pairs(xs []string, sep string, ys []string) []string {
	out := []string{}
	for _, x := range xs {
		for _, y := range ys {
			out = append(out, x+sep+y)
		}
	}
	return out
}

var sysValues = []string{"null", "true", "false", "0", "1", "2", "-1", "10", "0.0", "-0.0", "1.0", "1.5", "0.5", "-1.0", "1e3", "1000", `""`, `"a"`, `"b"`, `"ab"`, `"0"`, `"1"`, `"1.0"`, `"10"`, `"9"`, `"1.5"`, `"-1"`, `"true"`, `"null"`, `"B"`, `"é"`, `"\uffff"`, `"\U0001F600"`, "[]", "[1]", "[1,2]", "{}", `{"a":1}`, "9007199254740991", "9223372036854775807", "-9223372036854775808", "1e300"}

// all pairs of values: items {a, b}, in documents of some items each
func valuePairs(vals []string, size int) []*N {
	vs := []*N{}
	for _, a := range vals {
		for _, b := range vals {
			vs = append(vs, nObj(member{"a", parseDoc(a)}, member{"b", parseDoc(b)}))
		}
		vs = append(vs, nObj(member{"a", parseDoc(a)}), nObj(member{"b", parseDoc(a)}))
	}
	return itemDocs(vs, size)
}

func itemDocs(vs []*N, size int) []*N {
	out := []*N{}
	for len(vs) > 0 {
		k := min(size, len(vs))
		out = append(out, nObj(member{"v", nArr(vs[:k]...)}, member{"w", nArr(nInt(1), nInt(2))}, member{"e", nArr()}, member{"s", nInt(1)}, member{"n", nNull()}))
		vs = vs[k:]
	}
	return out
}

// each makes sessions for every document
func (y *sysB) each(docs []*N, texts []string) {
	for _, d := range docs {
		y.add([]*N{d}, texts)
	}
}

var litValues = []string{"null", "true", "false", "0", "1", "2", "-1", "1.0", "1.5", "0x1", "01", "1e0", "10e-1", "1000", "1e3", "-0.0", "0e5", `""`, `''`, `"a"`, `'a'`, `"1"`, `'1.0'`, `"b"`, `"B"`, `"10"`, `"é"`, "9223372036854775807", "-9223372036854775807", "@.missing", "$.w.*", "$.w", "$.e", "$.e.*", "$.s", "$.n", "@", "@.*", "[1]", "[]"}

func systematic(prop string, deep bool) []*Session {
	y := &sysB{}
	all := docs(smallDocs...)
	switch prop {
	case "C01":
		max := 3
		y.add(all, combos("$", []string{".a", "['b']", ".0", "[1]", ".*", `["0"]`, "[*]", ".'a'"}, max))
		y.add(all, []string{"$['1']", "$.1", "$[00]", "$.c", "$.c.c", "$.c.*", "$[2]", "$[3]", "$[4]", "$[99999999999]", "$['-1']", "$.'-1'", "$.a.length", "$[2].a", "$.a[0]", "@", "@.a", "@[0]", "/", "/a", "/a/b", "/0/1", "/*", "/*/a", "/b/0/a", "/'a'/\"b\"/1"})
		y.add([]*N{longDoc()}, longPaths(9, false))
		if deep {
			y.add(all[:4], combos("$", []string{".a", "['b']", "[0]", "[1]", ".*"}, 5))
		}
	case "C02":
		max := 2
		fr := []string{"..a", "..*", "..[0]", "..['b']", "..[0:2]", "..[a,0]", "..[?(@.a)]", "..[*]", ".a", ".*", "[0]", "..[-1]", "..[::-1]", "..'a'", "..[?(@ == 1)]", "..1"}
		y.add(all, combos("$", fr, max))
		y.add(all, wrap("", combos("$", []string{"..a", "..*", ".a", ".b", ".*", "[0]"}, 2), ".."))
		n := 6
		if deep {
			n = 9
		}
		y.add([]*N{longDoc()}, longPaths(n, true))
		if deep {
			y.add(all, combos("$", []string{"..a", "..*", "..[0]", "..[?(@.a)]", "..[a,0]", "..[0:1]", ".a", ".*"}, 3))
		}
	case "C03":
		var ds []*N
		for _, n := range []int{0, 1, 2, 3, 5} {
			vs := []*N{}
			for i := 0; i < n; i++ {
				vs = append(vs, nArr(nInt(i), nInt(-i)))
			}
			ds = append(ds, nArr(vs...), nObj(member{"a", nArr(vs...)}, member{"-1", nInt(1)}, member{"-2", nArr(nInt(2))}))
		}
		var ts []string
		for k := -7; k <= 6; k++ {
			s := strconv.Itoa(k)
			ts = append(ts, "$["+s+"]", "$."+s, "$.a["+s+"]", "$.a."+s, "$..["+s+"]", "$["+s+",0]", "$.a[0,"+s+"]", "$[?(@["+s+"])]", "$[?(@["+s+"] == 1)]", "$.*["+s+"]",
				"$['"+s+"']", "$.a["+s+"]["+s+"]", "$..["+s+"]["+s+"]", "$[?($["+s+"])]", "$.a[?($.a["+s+"][0] == @[0])]", "$["+s+","+s+"]", "$..["+s+",1]")
		}
		for _, k := range []string{"-0", "-00", "+0", "+1", "+2", "-01", "-0x1", "-0_1", "+0b1", "- 1", "+ 1", "-  0"} {
			ts = append(ts, "$["+k+"]", "$.a["+k+"]", "$..["+k+"]", "$["+k+",0]", "$[1,"+k+"]", "$[?(@["+k+"])]", "$.a[0:1,"+k+"]", "$.a["+k+":]", "$..["+k+",1]")
			if !strings.Contains(k, " ") {
				ts = append(ts, "$['"+k+"']", "$..['"+k+"']", "$['"+k+"',0]")
			}
		}
		ts = append(ts, "$[-9223372036854775808]", "$[-9223372036854775807]", "$[-99999999999999999999]", "$.a[-4294967295]", "$.a[-4294967297]", "$..[-9223372036854775808]", "$[-9223372036854775808,0]")
		y.add(ds, ts)
	case "C04":
		bounds := []string{"", "-7", "-4", "-3", "-2", "-1", "0", "1", "2", "3", "5", "9"}
		steps := []string{"none", "", "1", "2", "3", "-1", "-2", "-3", "0", "9", "-9"}
		if deep {
			bounds = []string{"", "-7", "-6", "-5", "-4", "-3", "-2", "-1", "0", "1", "2", "3", "4", "5", "6", "7"}
		}
		var ts []string
		for _, a := range bounds {
			for _, b := range bounds {
				for _, c := range steps {
					if c == "none" {
						ts = append(ts, "$["+a+":"+b+"]")
					} else {
						ts = append(ts, "$["+a+":"+b+":"+c+"]")
					}
				}
			}
		}
		y.add(docs(`[]`, `[10]`, `[10,11]`, `[10,11,12]`, `[0,1,2,3,4,5]`), ts)
		huge := []string{"", "1", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-99999999999999999999", "99999999999999999999", "4294967296", "-4294967296"}
		ts = nil
		for _, a := range huge {
			for _, b := range huge {
				for _, c := range huge {
					ts = append(ts, "$["+a+":"+b+":"+c+"]")
				}
			}
		}
		y.add(docs(`[0,1,2,3,4]`), ts)
		// computed bounds, and bounds that are no numbers
		ts = nil
		comp := []string{"", "1", "(@.length()-1)", "length(@)", "(0-length(@))", "@[0]", "@[1]", "@[-1]", "$.n", "$.a[0]", "('1')", "('x')", "(null)", "(true)", "(@[0]+@[1])", "@.*", "@.x", "(1 == 1)", "(nope(1))", "('')", "@", "$"}
		steps = []string{"none", "", "1", "(-1)", "@[0]", "$.n", "('x')", "(null)", "('2')", "(false)", "length(@)"}
		for _, a := range comp {
			for _, b := range comp {
				for k, c := range steps {
					switch {
					case !deep && k > 2 && (len(a)+2*len(b)+k)%4 != 0:
					case c == "none":
						ts = append(ts, "$.a["+a+":"+b+"]")
					default:
						ts = append(ts, "$.a["+a+":"+b+":"+c+"]")
					}
				}
			}
		}
		y.add(docs(`{"n":-1,"a":[2,1,0,3]}`, `{"n":3,"a":[-2,"-1",5,6,7]}`, `{"n":"2","a":["x",null,0]}`, `{"n":null,"a":[[1],[2,3]]}`), ts)
		ts = nil
		for _, s := range []string{"@[0]:", ":@[0]", "::@[0]", "length(@)-1:0:-1", "(length(@)-1):0:-1", "$.n:", ":$.n", "@[0]:@[1]:@[2]", "@[-1]::-1", "$.a[0]:"} {
			ts = append(ts, "$..["+s+"]", "$.a["+s+"]", "$.*["+s+"]", "$[a,"+s+"]", "$.a["+s+",0]", "$.a[?(@["+s+"])]", "$.a.*["+s+"]", "$..["+s+",0]", "$.a["+s+"]["+s+"]")
		}
		y.add(docs(`{"n":1,"a":[2,1,0,3]}`, `{"n":-2,"a":[[1,2,3],[0,1,-1],[]]}`, `[[2,1,0],[0,3,-1]]`, `{"a":[{"n":[1,2]},[1]],"n":[0,1]}`), ts)
		ts = nil
		for _, s := range []string{":", "::", "1:", ":1", ":-1", "-1:", "::-1", "::2", "1:3", "3:1:-1", "::0", ":-2:-1", "-2::-1", "5:5", "0:0", "2:1"} {
			ts = append(ts, "$..["+s+"]", "$.*["+s+"]", "$["+s+",0]", "$[0,"+s+"]", "$["+s+"]["+s+"]", "$..["+s+"].a", "$[ "+s+" ]", "$["+s+",::2]", "$..["+s+",1]", "$["+s+"].*", "$[?(@["+s+"])]")
		}
		y.add(docs(`[[1,2,3],{"a":[4,5],":":6},[],[[7],[8,9]]]`, `{"a":1,"0":2}`, `"abc"`, `[{"a":1},{"a":2},{"a":3}]`, `7`, `null`), ts)
	case "C05":
		parts := []string{"a", "'b'", "0", "1", "-1", "0:2", "::-1", "*", "?(@)", "?(@>1)", `"0"`, "c", "7", "5:", "?(@.a)", "'-1'", "'zz'"}
		ts := wrap("$[", pairs(parts, ",", parts), "]")
		ts = append(ts, wrap("$.*[", pairs(parts, ",", parts[:6]), "]")...)
		ds := docs(`{"a":1,"b":2,"c":{"a":3},"0":4,"-1":5}`, `{"c":null,"b":false,"a":0}`, `[1,2,{"a":0},3,"x"]`, `[[1,2,3],{"b":1,"a":2},[{"a":1}],9]`, `[]`, `5`, `[0]`)
		y.add(ds, ts)
		y.add(ds, wrap("$[", pairs(pairs(parts[:9], ",", parts[:9]), ",", parts[:9]), "]")[:map[bool]int{true: 729, false: 200}[deep]])
		y.add(ds, wrap("$..[", pairs(parts[:7], ",", parts[:7]), "]"))
		y.add(ds, []string{"$[a,a,a]", "$['a',a,\"a\"]", "$[0,0,-5,0:1]", "$[*,*]", "$[1,0]", "$[c,b,a]", "$[-1,-2,-3,0]", "$[4,3,2,1,0]", "$[::-1,0]", "$[a,b][a,b]", "$[0,1][0,1]", "$[2:0:-1,0]"})
	case "C06":
		vals := []string{"null", "true", "false", "0", "1", "0.0", "-1", `""`, `"a"`, `"0"`, "[]", "[0]", "[false]", "[null]", "[1,2]", "[[]]", "{}", `{"a":0}`, `{"a":1}`, `{"a":null}`, `{"a":""}`, `{"a":false,"b":0}`, `{"b":1}`, `{"a":[]}`, `{"a":{}}`, `{"a":"x","b":[0]}`, `{"a":{"a":0}}`, `-0.0`}
		vs := []*N{}
		ms := []member{}
		for i, v := range vals {
			vs = append(vs, parseDoc(v))
			ms = append(ms, member{"k" + strconv.Itoa(i), parseDoc(v)})
		}
		ts := []string{}
		for _, c := range []string{"@", "@.a", "@.b", "@.*", "@[0]", "@[1]", "@[-1]", "@..a", "@..*", "@.a.a", "@[0:1]", "@[0:2]", "@[a,b]", "@['a']", "@[*]", "@.missing", "$", "$.missing", "@[?(@)]", "@..[0]", "@[?(@.a)]", "@[?(@ == 0)]", "$.*", "$.v", "true", "false", "null", "1", "0", `""`, `"a"`, "@[5:]", "@..", "(@)", "(@.a)"} {
			ts = append(ts, "$.v[?("+c+")]", "$[?("+c+")]", "$.v[?("+c+")].a", "$.v.*[?("+c+")]", "$..[?("+c+")]")
		}
		y.add([]*N{nObj(member{"v", nArr(vs...)}), nArr(vs...), nObj(ms...), nObj(member{"v", nObj(ms...)}), nObj(member{"v", nInt(3)}), nStr("a")}, ts)
		// conditions without a value for some of the elements
		some := docs(`{"v":[{"a":0},{"a":1},{"a":0,"b":1},{"a":2,"b":2},{},{"b":3},{"a":"x"},0,1,null,[1],{"a":3}],"w":{"k":{"a":1},"l":{"a":0},"m":{"a":[1]},"n":2}}`)
		ts = nil
		for _, bad := range []string{"foo(@)", "@.foo()", "(1 - null)", "@.a.foo()", "length()", "@.b.length(1)", "@[?(foo(@))]", "@.a.length()", "(@.a / 0)", "(@.b - 1)"} {
			for _, good := range []string{"@.a", "@.a == 1", "!@.a", "@ == 1"} {
				ts = append(ts, good+" || "+bad, good+" && "+bad, bad+" || "+good, bad+" && "+good, "!("+good+" || "+bad+")", "("+good+" || "+bad+") == true", "!("+good+" && "+bad+")")
			}
			ts = append(ts, bad, "!"+bad)
		}
		y.add(some, wrap("$.v[?(", ts, ")]"))
		y.add(some, wrap("$..[?(", ts, ")]"))
		y.add(some, wrap("$.w[?(", ts, ")]"))
	case "C07":
		rels := []string{"@", "@.a", "$", "$.a", "@.*", "$.*", "@..a", "@[0]", "$..a"}
		inner := []string{"@.a", "$.a", "@ == $.x", "@.a == $.x", "$.x", "@", "@ == 1", "@.length() == $.n", "$.a[?(@ == $.x)]", "@.a[?(@ == $.x)]", "@[?(@ == $.x)]",
			"1 in @", "$.x in @", "$.x in @.a", "@ in $.a", "length(@) == $.n", "1 == @", "$.x == @.a", "!@", "!($.x == @)", "($.x + @.a) == $.n", "$.n < @", "[@.a] == $.x", "$.x in [@, @.a]", "length(@.a) == length($.a)", "1 < 2 && 1 in @"}
		ts := []string{}
		for _, r := range rels {
			for _, i := range inner {
				ts = append(ts, "$.a[?("+r+"[?("+i+")])]", "$[?("+r+"[?("+i+")])]", "$..[?("+r+"[?("+i+")])]",
					"$.a[?("+r+"[?("+i+")] && @.a)]", "$.a[?(@.a && "+r+"[?("+i+")])].a")
			}
		}
		for _, i := range inner {
			ts = append(ts, "$[?("+i+")]", "$.a[?("+i+")]", "$..[?("+i+")]", "$.*[?("+i+")]", "$.a[?("+i+"),?(@ == 1)]", "$.a[?("+i+")][?("+i+")]", "$.a[?(!("+i+") || "+i+")]")
		}
		for _, r := range rels {
			for _, s := range rels {
				ts = append(ts, "$[?("+r+" == "+s+")]", "$.a[?("+r+" == "+s+")]", "$..[?("+r+" == "+s+")]", "$.a[?("+r+" == 1 || "+s+" == 1)]")
			}
		}
		for _, s := range []string{"@.length()-1:", "(@.length()-1):", ":(@.length()-1)", "$.n:", ":$.n", "@[0]:", "(@.length()-2):(@.length()-1)", "::$.n", "0:@.length()", "($.a.length()-1):"} {
			ts = append(ts, "$.a["+s+"]", "$..["+s+"]", "$.*["+s+"]", "$[?(@["+s+"])]", "$[?(@["+s+"] == 1)]", "$[?($.a["+s+"])]", "$.a[?(@.a["+s+"])]")
		}
		y.add(docs(`{"x":1,"n":2,"a":[{"a":[1,2]},{"a":1},{"a":{"a":1}},1,[1],{"b":1,"a":[3,1]}],"b":{"a":1,"x":2}}`,
			`{"x":1,"n":1,"a":[[1,[2,1]],[0,1],{"a":[0,1],"x":0},{"a":{"x":1,"a":[1]}}]}`,
			`[{"a":1},{"a":[1]},[1,{"a":1}]]`), ts)
	case "C08", "C09":
		ops := []string{"==", "!=", "===", "!=="}
		if prop == "C09" {
			ops = []string{"<", "<=", ">", ">="}
		}
		ts := []string{}
		for _, o := range ops {
			ts = append(ts, "$.v[?(@.a "+o+" @.b)]", "$.v[?(@.b "+o+" @.a)]", "$.v[?((@.a "+o+" @.b) == true)]", "$.v[?(!(@.a "+o+" @.b))]")
		}
		vals := sysValues
		y.each(valuePairs(vals, 150), ts)
		y.each(valuePairs(closeValues, 20), ts)
		y.each(valuePairs(longValues, 4), ts)
		for _, a := range fineValues {
			for _, b := range fineValues {
				y.add(itemDocs([]*N{nObj(member{"a", parseDoc(a)}, member{"b", parseDoc(b)})}, 1), ts[:2])
			}
		}
		ts = nil
		for _, o := range ops {
			for _, l := range litValues {
				ts = append(ts, "$.v[?(@.a "+o+" "+l+")]", "$.v[?("+l+" "+o+" @.a)]")
			}
		}
		one := []*N{}
		for _, v := range vals {
			one = append(one, nObj(member{"a", parseDoc(v)}))
		}
		one = append(one, nObj(member{"b", nInt(1)}))
		d := nObj(member{"v", nArr(one...)}, member{"w", nArr(nInt(1), nInt(2))}, member{"e", nArr()}, member{"s", nInt(1)}, member{"n", nNull()})
		y.add([]*N{d}, ts)
		ts = nil
		for _, o := range ops {
			for _, l := range litValues[:25] {
				for _, r := range litValues[:25] {
					ts = append(ts, "$[?("+l+" "+o+" "+r+")]")
				}
			}
		}
		y.add(docs(`[0]`), ts)
	case "C10":
		atoms := []string{"true", "false", "null", "0", "1", `""`, `"x"`, "@.a", "@.t", "@.n", "@.z", "@.e", "@.arr", "@.missing", "@.*", "0.0", `"0"`, "@.s", "@.f"}
		ds := docs(`[{"a":1,"t":true,"n":null,"z":0,"e":"","arr":[],"s":"x","f":false}]`)
		ts := []string{}
		for _, a := range atoms {
			ts = append(ts, a, "!"+a, "!!"+a, "!(!"+a+")", "(!"+a+") == true", "(!"+a+") == false", "(!"+a+") < 1", "! "+a)
			for _, b := range atoms {
				for _, o := range []string{"&&", "||"} {
					e := a + " " + o + " " + b
					ts = append(ts, e, "("+e+") == true", "("+e+") == false", "!("+e+")")
				}
			}
		}
		y.add(ds, wrap("$[?(", ts, ")]"))
		ts = nil
		few := []string{"true", "false", "@.a", "@.missing", "@.z"}
		for _, o1 := range []string{"&&", "||"} {
			for _, o2 := range []string{"&&", "||"} {
				for _, a := range few {
					for _, b := range few {
						for _, c := range few {
							ts = append(ts, "("+a+" "+o1+" "+b+") "+o2+" "+c, a+" "+o1+" ("+b+" "+o2+" "+c+")")
						}
					}
				}
			}
		}
		for _, e := range []string{"foo(1)", "(1/0)", "@.arr.foo()", "(1 - null)", "@[?(foo(@))]"} {
			for _, a := range few {
				ts = append(ts, a+" && "+e, a+" || "+e, e+" && "+a)
			}
		}
		y.add(ds, wrap("$[?(", ts, ")]"))
	case "C11":
		sysArith(y, deep)
	case "C12":
		sysIn(y)
	case "C13":
		vals := []string{"[]", "[1]", "[1,2]", "[[1,2],[3]]", "{}", `{"a":[1,2,3]}`, `{"length":7}`, `{"length":[1,2]}`, `""`, `"abc"`, "5", "null", "true", `{"x":1,"y":2}`, "[1,2,3,4,5,6,7,8,9,10]", "[null,null]", `["length"]`, `{"a":"abc","length":3}`}
		vs := []*N{}
		for _, v := range vals {
			vs = append(vs, parseDoc(v))
		}
		d := nObj(member{"v", nArr(vs...)}, member{"w", parseDoc("[1,2,3]")}, member{"e", nArr()})
		args := []string{"@", "@.a", "@.*", "@[*]", "@[0]", "@.missing", "$.w", "$.w.*", "$.e", "$.e.*", "@..*", "@[0:2]", "@['a']", "$.v", "$.w[0]", "@.length", "@.x", "@[?(@)]", "$.w[0,1]", "@..", "$.w[1:]"}
		ts := []string{}
		for _, a := range args {
			for k := 0; k <= 4; k++ {
				ts = append(ts, fmt.Sprintf("length(%s) == %d", a, k), fmt.Sprintf("%s.length() == %d", a, k))
			}
			ts = append(ts, "length("+a+") == 10", "length("+a+")", a+".length()", "length("+a+") == "+a+".length()", "!length("+a+")", a+".length() > 1", "length("+a+") + 1 == 3", "-length("+a+") == -2", a+".length() in [1,3]",
				"foo("+a+")", a+".foo()", "foo("+a+") == null", "!foo("+a+")", a+".foo() != 1", "lengths("+a+")", "Length("+a+")", a+".len()", "length(length("+a+")) == 0", a+".length().length() == 0", "(length("+a+")) == 2")
		}
		for _, l := range []string{"null", "true", "5", `"abc"`, "[]", "[1]", "[1,2]", "[[1,2,3]]", `""`, "(1+1)", "(1 == 1)"} {
			ts = append(ts, "length("+l+") == 0", "length("+l+") == 1", "length("+l+") == 2", "length("+l+") == 3")
			if l != "5" {
				ts = append(ts, l+".length() == 0", l+".length() == 1", l+".length() == 2")
			}
		}
		y.add([]*N{d}, wrap("$.v[?(", ts, ")]"))
		y.add([]*N{d, parseDoc(`{"length":{"length":1},"a":[1]}`)}, []string{"$.length", "$.v[*].length", "$..length", "$.v[?(@.length)]", "$.v[?(@.length == 7)]", "$.length.length", "/length", "/length/length", "$.v.*.length", "$['length']", "$.v[?(@['length'])]", "$.v[?(@.length == @.length())]", "$.v[?(@.length.length() == 2)]", "$.w[@.length()-1:]", "$.w[(@.length()-1):]", "$.w[:(@.length()-1)]", "$.w[length(@)-1:]", "$.v[(length(@)-2):]", "$..[(@.length()-1):]"})
	case "C14":
		y.plan = "segs"
		y.add(all, combos("$", []string{".a", "[0]", ".*", "..a", "..*", "[::-1]", "[a,0]", "[?(@)]", "..[-1]"}, 2))
	case "C16":
		y.add(all, combos("$", []string{".a", "[1]", ".*", "..a", "..*", "[::-1]", "[-1]", "[a,0]", "[?(@.a)]", "[?(@ == 1)]", "[?(@.length() > 0)]", "..[?(@.a == @.b)]", "[?(@.*)]"}, 2))
		ops := []string{"==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "in", "&&", "||"}
		ts := []string{"!@.a", "-@.a", "+@.a", "@.a.length()", "length(@.b)", "@.a in [@.b]", "[@.a].length()"}
		for _, o := range ops {
			ts = append(ts, "@.a "+o+" @.b", "@ "+o+" @.b", "@.a "+o+" $.v", "$ "+o+" @")
		}
		y.each(valuePairs([]string{"null", "true", "0", "1.5", `"a"`, `"1"`, "[]", "[1]", "{}", `{"a":1}`, "[[1],{}]"}, 150), wrap("$.v[?(", ts, ")]"))
	case "C19":
		sysNames(y, deep)
	case "C20":
		sysStrings(y)
	case "C21":
		sysNumbers(y)
	case "C22":
		sysNotations(y)
	case "C25":
		sysGrouping(y, deep)
		sysRounding(y, deep)
	case "C17":
		sysSyntax(y, deep)
	case "C18":
		sysTotal(y)
	}
	y.shapes(prop, deep)
	return y.sessions
}

func sysArith(y *sysB, deep bool) {
	pool := []float64{0, 1, -1, 2, -2, 3, 5, -5, 7, -7, 10, 0.5, -0.5, 1.5, 2.25, 100}
	type num struct {
		n *N
		v float64
		t string // literal
	}
	var nums []num
	for _, v := range pool {
		t := strconv.FormatFloat(v, 'f', -1, 64)
		if v == math.Trunc(v) {
			nums = append(nums, num{nInt(int(v)), v, t})
			if !deep && math.Abs(v) > 5 {
				continue
			}
			nums = append(nums, num{nFlt(v), v, t + ".0"})
		} else {
			nums = append(nums, num{nFlt(v), v, t})
		}
	}
	for _, s := range []string{"3", "-2", "1.5", "0", "1e2", "25e-1", "3E0"} {
		f, _ := strconv.ParseFloat(s, 64)
		nums = append(nums, num{nStr(s), f, `"` + s + `"`})
	}
	nums = append(nums, num{nBool(true), 1, "true"}, num{nBool(false), 0, "false"})
	bad := []string{"null", `"x"`, `""`, "[]", "[1]", "{}", `"1 "`}
	for _, s := range bad {
		nums = append(nums, num{parseDoc(s), math.NaN(), ""})
	}
	f := func(op string, a, b float64) float64 {
		switch op {
		case "+":
			return a + b
		case "-":
			return a - b
		case "*":
			return a * b
		case "/":
			return a / b
		case "%":
			return math.Mod(a, b)
		}
		return math.Pow(a, b)
	}
	for _, op := range []string{"+", "-", "*", "/", "%", "**"} {
		vs := []*N{}
		for _, a := range nums {
			for _, b := range nums {
				v := f(op, a.v, b.v)
				vs = append(vs, nObj(member{"a", a.n}, member{"b", b.n}, member{"r", nNull()}))
				if math.IsNaN(v) || math.IsInf(v, 0) || math.Abs(v) > 1e12 {
					continue
				}
				vs = append(vs, nObj(member{"a", a.n}, member{"b", b.n}, member{"r", nFlt(v)}))
				if v != math.Trunc(v) {
					vs = append(vs, nObj(member{"a", a.n}, member{"b", b.n}, member{"r", nInt(int(math.Trunc(v)))}))
				}
			}
		}
		for len(vs) > 0 {
			k := min(150, len(vs))
			y.add([]*N{nObj(member{"v", nArr(vs[:k]...)})}, []string{"$.v[?(@.a " + op + " @.b == @.r)]", "$.v[?(@.r == (@.a " + op + " @.b))]", "$.v[?((@.a " + op + " @.b) < @.r)]"})
			vs = vs[k:]
		}
	}
	// what kind of number the results are
	kinds := func() {
		vs := []*N{}
		for _, a := range nums {
			for _, b := range nums {
				if b.t != "" && a.t != "" {
					vs = append(vs, nObj(member{"a", a.n}, member{"b", b.n}))
				}
			}
		}
		for len(vs) > 0 {
			k := min(150, len(vs))
			ts := []string{}
			for _, op := range []string{"+", "-", "*", "/", "%", "**"} {
				ts = append(ts, "$.v[?((@.a "+op+" @.b) / 2 == 0)]", "$.v[?((@.a "+op+" @.b) / 2 == 0.5)]", "$.v[?((@.a "+op+" @.b) / 4 > 1)]", "$.v[?((@.a "+op+" @.b) / 2 == -0.5)]", "$.v[?(1 / (@.a "+op+" @.b) == 0)]", "$.v[?((@.a "+op+" @.b) / 2 < -1)]")
			}
			y.add([]*N{nObj(member{"v", nArr(vs[:k]...)})}, ts)
			vs = vs[k:]
		}
	}
	kinds()
	// unary operators and literals
	ms := []*N{}
	for _, a := range nums {
		if math.IsNaN(a.v) {
			ms = append(ms, nObj(member{"a", a.n}, member{"r", nNull()}))
		} else {
			ms = append(ms, nObj(member{"a", a.n}, member{"r", nFlt(-a.v)}), nObj(member{"a", a.n}, member{"r", nFlt(a.v)}), nObj(member{"a", a.n}, member{"r", nNull()}))
		}
	}
	d := nObj(member{"v", nArr(ms...)}, member{"w", parseDoc("[1,2]")})
	var ts []string
	for _, u := range []string{"-", "+", "--", "+-", "-+", "- "} {
		ts = append(ts, "$.v[?("+u+"@.a == @.r)]", "$.v[?(@.r == "+u+"(@.a))]", "$.v[?(("+u+"@.a) + 0 == @.r)]")
	}
	for _, e := range []string{"@.missing", "$.w", "$.w.*", "[1]", "[]", "null", `"x"`, "$", "@"} {
		ts = append(ts, "$.w[?(("+e+" + 1) == null)]", "$.w[?((1 - "+e+") == null)]", "$.w[?((-"+e+") == null)]", "$.w[?((+"+e+") == null)]", "$.w[?(("+e+" ** 2) == null)]", "$.w[?((2 / "+e+") == null)]", "$.w[?(("+e+" % 2) == null)]", "$.w[?("+e+" * 2)]")
	}
	for _, e := range []string{"7/2 == 3", "-7/2 == -3", "7/-2 == -3", "-7/-2 == 3", "7.0/2 == 3.5", "7/2.0 == 3.5", "7%3 == 1", "-7%3 == -1", "7%-3 == 1", "-7%-3 == -1", "7.5%2 == 1.5", "-7.5%2 == -1.5", "1/0 == null", "1%0 == null", "1.0/0 == null", "1/0.0 == null", "1.5%0.0 == null", "0/0 == null", "2**3 == 8", "2**3/3 > 2.6", "2**3/3 == 2", "2**-1 == 0.5", "2**0 == 1", "0**0 == 1", "4**0.5 == 2", "true+true == 2", `"3"*"4" == 12`, `"3"/2 == 1`, `"3.0"/2 == 1.5`, "true/2 == 0", "5/true == 5", "5/false == null", "5%false == null", "1+1.0 == 2", "0.1+0.2 < 0.31", "9223372036854775807 - 1 == 9223372036854775806", "-9223372036854775807 - 1 < -9223372036854775806", "1e3 + 1 == 1001", "1e1 / 4 == 2.5", "1E0 / 2 == 0.5", "7e0 / 2 == 3.5", "7 / 2e0 == 3.5", "7e0 % 2 == 1", "10e-1 / 4 == 0.25", "5e+0 / 2 == 2.5", "1e1 / 4e0 == 2.5", "1_0e0 / 4 == 2.5", "10.0e0 / 4 == 2.5", "1.e1 / 4 == 2.5", "0x10 / 3 == 5", "0b11 / 2 == 1", "0o17 / 2 == 7", "010 / 4 == 2", "1_0 / 4 == 2", "5.5 % 3.0 == 2.5", "5.5 % 3 == 2.5", "5 % 3.5 == 1.5", "-5.5 % 3.0 == -2.5", "10 - 2 - 3 == 5", "6 / 2.0 == 3", "-3 % 2 == -1", "2 ** 10 == 1024", "0 * -1 == 0", "0.0 * -1 == 0", "-0 == 0", "-(0) == 0.0", "(1/0) + 1 == null", "-(1/0) == null", `-"3" == -3`, `+"3" == 3`, "-true == -1", "+true == 1", "+true === 1", "-null == null", "(-9223372036854775807 - 1) / -1 > 0", "(-9223372036854775807 - 1) % -1 == 0", `-"x" == null`, `"x" + "y" == null`, `"a" + 1 == null`, `"1" + "2" == 3`, `"1" + "2" == "12"`} {
		ts = append(ts, "$.w[?("+e+")]")
	}
	y.add([]*N{d}, ts)
}

func sysIn(y *sysB) {
	vals := []string{"null", "true", "false", "0", "1", "1.0", "1.5", `""`, `"a"`, `"1"`, "[]", "[1]", `["a"]`, "[[1]]", "{}", `{"a":1}`, "[null]", "[1,2,null,true]", `["a","b",1.0]`, `[{"a":1}]`, `{"x":"a"}`, `{"x":1,"y":null}`}
	vs := []*N{}
	for _, a := range vals {
		for _, b := range vals {
			vs = append(vs, nObj(member{"a", parseDoc(a)}, member{"b", parseDoc(b)}))
		}
		vs = append(vs, nObj(member{"a", parseDoc(a)}), nObj(member{"b", parseDoc(a)}))
	}
	d := nObj(member{"v", nArr(vs...)}, member{"w", parseDoc(`[1,"a",null]`)}, member{"e", nArr()}, member{"s", nInt(1)}, member{"n", nNull()})
	ts := []string{}
	rights := []string{"@.b", "@.b.*", "@.b[*]", "$.w", "$.w.*", "$.e", "$.e.*", "$.s", "$.n", "@.missing", "[]", "[1]", `["a"]`, "[null]", `[1,"a",true,null,0]`, "[@.b]", "[@.b, 1]", "[$.w]", "[$.w.*]", "[[1]]", "null", "1", `"a"`, "true", "@.b[0]", "@.b..*", "@.*", "$.w[0]", "$.w[0,1]", "$.w[0:2]", "[1.0,0x1]", "['a']", "@", "[@.missing]", "[ 1 , 2 ]", `"abc"`, `""`, "(1+0)", "(@.b)", "$.w[?(@)]"}
	lefts := []string{"@.a", "1", `"a"`, "null", "true", "@.missing", "$.w", "@.b"}
	for _, r := range rights {
		for _, l := range lefts[:map[bool]int{true: 8, false: 5}[len(r) < 8]] {
			ts = append(ts, l+" in "+r)
		}
		ts = append(ts, "!(@.a in "+r+")", "(@.a in "+r+") == true", "@.a in "+r+" && true")
	}
	// fewer items for most texts
	d2 := nObj(member{"v", nArr(vs[60:220]...)}, member{"w", parseDoc(`[1,"a",null]`)}, member{"e", nArr()}, member{"s", nInt(1)}, member{"n", nNull()})
	y.add([]*N{d2}, wrap("$.v[?(", ts, ")]"))
	y.add([]*N{d}, wrap("$.v[?(", []string{"@.a in @.b", "@.b in @.a", "@.a in @.b.*", "@.a in [@.b]", "@.a in [@.b,1]"}, ")]"))
}

func sysStrings(y *sysB) {
	names := []string{}
	add := func(text string) { names = append(names, text) }
	for c := 0; c < 128; c++ {
		if c == 'x' || c == 'u' || c == '\n' || c == '\r' || (c >= '1' && c <= '9') {
			continue
		}
		add(`\` + string(rune(c)))
		add(`a\` + string(rune(c)) + "b")
	}
	for c := 0; c < 256; c++ {
		add(fmt.Sprintf(`\x%02x`, c))
		if c%3 == 0 {
			add(fmt.Sprintf(`p\x%02Xq`, c))
		}
	}
	for _, c := range []int{0, 8, 0x41, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x2028, 0x3b1, 0x65e5} {
		add(fmt.Sprintf(`\u%04x`, c))
		add(fmt.Sprintf(`x\u%04Xy`, c))
		add(fmt.Sprintf(`\u{%x}`, c))
		add(fmt.Sprintf(`\u{%X}4`, c))
		add(fmt.Sprintf(`\u{0000%x}`, c))
	}
	for _, c := range []int{0x10000, 0x1f600, 0x10ffff, 0xfffff} {
		add(fmt.Sprintf(`\u{%x}`, c))
		add(fmt.Sprintf(`a\u{%X}b`, c))
	}
	for _, s := range []string{"", "a", `\\`, `\\\\`, `\\n`, `\\\n`, `\n\n`, `\\x41`, `\x5cn`, `\x41\x42`, `\u0041\u0042`, `\x4142`, "a\\\nb", "a\\\rb", "a\\\r\nb", "a\\\u2028b", "\\\n", "\\\n\\\n", "\u2028", "é", "日本", "😀", `\é`, `\日`, `\😀`, ` `, `  a  `, `a b`, `\t\b`, `\v\f`, "tab\there", `\/`, `*`, `$`, `@.a`, `..`, `[0]`, `\$`, `in`, `null`, `0`, `-1`, `\a\c\d\e\g`, "\x01", `\q\"\'`, `\x0a`, `\u000d\u000A`, `{}`, `\{`, `\u{41}\u{42}`, `\x22`, `\x27`, `\u0022\u0027`, `\u{22}\u{27}`, `"`[:0] + `\"`, `\'`} {
		add(s)
	}
	// long strings
	for _, n := range []int{40, 130, 300} {
		x := strings.Repeat("b", n)
		for c := ' '; c < 127; c++ {
			if c == 'x' || c == 'u' || (c >= '1' && c <= '9') || n != 130 && c%3 != 0 {
				continue
			}
			add(x + `\` + string(c))
		}
		add(x + `\x41` + x)
		add(`\u{41}` + x + `\u0042`)
		add(x + "\\\n" + x)
		add(`\'\"` + x)
	}
	for len(names) > 0 {
		k := min(8, len(names))
		ms := []member{}
		vs := []*N{}
		ts := []string{}
		for i, nm := range names[:k] {
			// the harness does not know what the text means: candidates
			for _, c := range []string{nm, strings.ReplaceAll(nm, `\`, "")} {
				ms = append(ms, member{c, nInt(i)})
				vs = append(vs, nStr(c))
			}
			if v, ok := guess(nm); ok {
				ms = append(ms, member{v, nInt(i)})
				vs = append(vs, nStr(v))
			}
			ts = append(ts, `$["`+nm+`"]`, `$['`+nm+`']`, `$.v[?(@ == "`+nm+`")]`, `$.v[?('`+nm+`' == @)]`)
		}
		ms = append(ms, member{"v", nArr(vs...)})
		y.add([]*N{nObj(ms...)}, ts)
		names = names[k:]
	}
}

// guess is the text that a spelling probably means. It is used to make
// documents only
func guess(s string) (string, bool) {
	out := []rune{}
	r := []rune(s)
	for i := 0; i < len(r); i++ {
		if r[i] != '\\' {
			out = append(out, r[i])
			continue
		}
		i++
		if i >= len(r) {
			return "", false
		}
		hex := func(a, b int) bool {
			if b > len(r) {
				return false
			}
			v, err := strconv.ParseUint(string(r[a:b]), 16, 32)
			if err != nil {
				return false
			}
			out = append(out, rune(v))
			return true
		}
		switch r[i] {
		case 'b':
			out = append(out, 8)
		case 'f':
			out = append(out, 12)
		case 'n':
			out = append(out, 10)
		case 'r':
			out = append(out, 13)
		case 't':
			out = append(out, 9)
		case 'v':
			out = append(out, 11)
		case '0':
			out = append(out, 0)
		case '\n', '\r', 0x2028, 0x2029:
			for i+1 < len(r) && (r[i+1] == '\n' || r[i+1] == '\r' || r[i+1] == 0x2028 || r[i+1] == 0x2029) {
				i++
			}
		case 'x':
			if !hex(i+1, i+3) {
				return "", false
			}
			i += 2
		case 'u':
			if i+1 < len(r) && r[i+1] == '{' {
				j := i + 2
				for j < len(r) && r[j] != '}' {
					j++
				}
				if !hex(i+2, j) {
					return "", false
				}
				i = j
			} else {
				if !hex(i+1, i+5) {
					return "", false
				}
				i += 4
			}
		default:
			out = append(out, r[i])
		}
	}
	return string(out), true
}

// sysTotal are the extremes of the numbers a path can have: no call may
// depend on them for its time
func sysTotal(y *sysB) {
	y.plan = "total"
	nums := []string{"0", "1", "2", "0.5", "1.0", "1e3", "3", "10", "63", "64", "1000000", "2147483647", "2147483648", "4294967296", "9007199254740993", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "0x7fffffffffffffff", "0xffffffffffffffffff", "1e18", "1e19", "1e300", "1e-300", "5e-324", "1e400", "1.5"}
	sg := []string{}
	for _, n := range nums {
		sg = append(sg, n, "-"+n)
	}
	d := nObj(member{"v", nArr(nInt(1), nInt(-1), nInt(0), nInt(math.MaxInt64), nInt(math.MinInt64), nFlt(1e300), nFlt(-5e-324), nFlt(math.Copysign(0, -1)))}, member{"w", nArr(nInt(1), nInt(2), nInt(3))})
	ds := []*N{d}
	for _, o := range []string{"**", "*", "/", "%", "+", "-", "<"} {
		ts := []string{}
		for _, a := range sg {
			ts = append(ts, "$.v[?(@ "+o+" "+a+" == 1)]", "$.v[?("+a+" "+o+" @ == 1)]")
			for _, b := range sg {
				if o == "**" || len(a)+len(b) > 18 {
					ts = append(ts, "$[?("+a+" "+o+" "+b+" == 1)]")
				}
			}
		}
		y.add(ds, ts)
	}
	ts := []string{}
	for _, a := range sg {
		ts = append(ts, "$.w["+a+"]", "$.w["+a+":]", "$.w[:"+a+"]", "$.w[::"+a+"]", "$.w["+a+"::-1]", "$.w[:"+a+":-1]", "$.w[("+a+"):]", "$.w[:("+a+")]", "$.w[::("+a+")]", "$.w."+a, "/w/"+a, "$.w["+a+",0]", "$..["+a+"]", "$.w[?("+a+")]", "$.w[?("+a+" in [@])]")
		for _, b := range []string{"0", "1", "-1", "9223372036854775807", "-9223372036854775807", "-9223372036854775808", "2"} {
			ts = append(ts, "$.w["+a+":"+b+"]", "$.w["+a+":"+b+":"+a+"]", "$.w["+b+"::"+a+"]", "$.w[:"+b+":"+a+"]", "$.w[("+a+" - "+b+"):("+a+" + "+b+")]", "$.w[("+a+" ** "+b+"):]", "$.w[:("+a+" * "+b+")]", "$.w[0:3:("+a+" % "+b+")]")
		}
	}
	y.add(ds, ts)
	ts = []string{}
	for _, o := range []string{"**", "-", "+", "*", "/", "%", "==", "in", "&&", "||", "<"} {
		for _, n := range []int{2, 5, 9, 17, 40} {
			ts = append(ts, "$[?("+strings.Repeat("9 "+o+" ", n)+"9)]", "$[?("+strings.Repeat("-1 "+o+" ", n)+"1)]", "$[?("+strings.Repeat("0.5 "+o+" ", n)+"0)]", "$.v[?("+strings.Repeat("@ "+o+" ", n)+"@)]")
		}
	}
	for _, u := range []string{"!", "-", "+", "! ", "- ", "(", "!-"} {
		for _, n := range []int{2, 5, 9, 16} {
			ts = append(ts, "$[?("+strings.Repeat(u, n)+"1"+strings.Repeat(")", strings.Count(u, "(")*n)+")]")
		}
	}
	y.add(ds, ts)
}

func sysNumbers(y *sysB) {
	lits := []string{"0", "1", "00", "01", "007", "1_0", "1__0", "10_", "1_", "0_1", "0x0", "0x1F", "0X1f", "0xfF", "0x1_F", "0x1F_", "0o17", "0O7", "0o1_7", "0b101", "0B11", "0b1_01", "1.0", "1.5", "01.50", "1.0_5", "1_0.5", "0.1", "0.5", "00.5", "1e3", "1E3", "1e+3", "1e-3", "1E-3", "1.5e2", "1.5E+2", "1_5e1_0", "15e1", "1e0", "0e5", "0.0e1", "123456789", "2147483648", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "0xffffffffffffffff", "0x7fffffffffffffff", "0x8000000000000000", "0x10000000000000000", "0o777777777777777777777", "0o1777777777777777777777", "0b111111111111111111111111111111111111111111111111111111111111111", "1e15", "1e18", "1e19", "1e22", "1e23", "1e100", "1e308", "1.7976931348623157e308", "1e-300", "1e-301", "1e-307", "2.2250738585072014e-308", "1e-310", "5e-324", "4.9e-324", "1e-323", "0.1e-322", "3e-325", "10000000000000000000000000.5", "1000000000000000000000000000000", "0.1000000000000000055511151231257827", "3.14159265358979323846264338327950288", "000000000000000000000000000001.5", "1.5000000000000000000000000000000", "0.0000000000000000000000000000001", "000000000000000000000000000000000000007", "0x00000000000000000000000000001f", "1_0_0_0_0_0_0_0_0_0_0_0_0_0_0_0_0", "1234567890.12345678901234567890", "0.30000000000000000000000001e1", "1e-400", "0e400", "0.0e-9999", "123.456", "0.000001", "1000000.0", "08", "09", "0010", "0x10", "0b10", "0o10", "010", "0xabcdef", "0xABCDEF", "0b0", "0o0", "10e-1", "100e-2", "0.10e1", "1.25e2", "12.5e1"}
	for _, n := range []int{20, 63, 64, 65, 130, 300} {
		z := strings.Repeat("0", n)
		lits = append(lits, z+"7", "0b"+z+"101", "0o"+z+"17", "0x"+z+"1f", "0_"+z+"_9", z+"1.5", "1."+z+"5", "1"+strings.Repeat("_0", n/20), "1e"+z+"1", "0b"+z[:n-n/2]+"1_1", "0x1"+strings.Repeat("_", n%7)+"1")
	}
	vals := []*N{}
	seen := map[string]bool{}
	for _, f := range []float64{0, 1, 7, 8, 9, 10, 15, 16, 31, 255, 0b101, 3, 2, 1.5, 1.05, 10.5, 0.1, 0.5, 1000, 0.001, 150, 15e10, 123456789, 2147483648, 4294967296, 1e15, 1e18, 1e19, 1e22, 1e23, 1e25, 1e24, 1e26, 3.141592653589793, 1e-31, 3, 7, 1e16, 1e30, 1234567890.1234567, 1e100, 1e308, math.MaxFloat64, 1e-300, 1e-301, 1e-307, 2.2250738585072014e-308, 1e-310, 5e-324, 1e-323, 123.456, 0.000001, 1e6, 0xabcdef, 125, 5, 17, 100, 1 << 62, 1 << 63, 1 << 64, -1, 31.0 * 16} {
		if k := fmt.Sprint(f); !seen[k] {
			seen[k] = true
			vals = append(vals, nFlt(f))
			if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
				vals = append(vals, nInt(int(f)))
			}
		}
	}
	vals = append(vals, nInt(math.MaxInt64), nInt(math.MinInt64), nInt(9007199254740993), nInt(math.MaxInt64-1))
	ts := []string{}
	for _, l := range lits {
		ts = append(ts, "$.v[?(@ == "+l+")]", "$.v[?(@ > "+l+")]", "$.v[?("+l+" === @)]", "$.v[?(@ <= -"+l+")]", "$.v[?(@ == "+l+" / 2)]", "$.v[?(@ == -("+l+") / -4)]")
	}
	d := nObj(member{"v", nArr(vals...)})
	y.add([]*N{d}, ts)
	as := []*N{}
	for i := 0; i < 18; i++ {
		as = append(as, nInt(i))
	}
	d = nObj(member{"a", nArr(as...)}, member{"o", nObj(member{"1", nInt(1)}, member{"01", nInt(2)}, member{"0x1", nInt(3)}, member{"1_0", nInt(4)}, member{"0b10", nInt(5)})})
	ts = nil
	for _, l := range lits {
		if strings.ContainsAny(l, ".") || (strings.ContainsAny(l, "eE") && !strings.HasPrefix(strings.ToLower(l), "0x")) {
			continue
		}
		ts = append(ts, "$.a["+l+"]", "$.a[-"+l+"]", "$.a["+l+":]", "$.a[:"+l+"]", "$.a[-"+l+":]", "$.a[::"+l+"]", "$.a[::-"+l+"]", "$.a."+l, "/a/"+l, "$.a["+l+",0]", "$.a..["+l+"]", "$.o["+l+"]", "$.o."+l, "/o/"+l, "$.a[?(@ == "+l+")]", "$.a[1:"+l+":1]")
	}
	y.add([]*N{d}, ts)
}

func sysNotations(y *sysB) {
	var cs []string
	for c := 0; c < 0x180; c++ {
		cs = append(cs, string(rune(c)))
	}
	for _, c := range []rune{0x3b1, 0x439, 0x5d0, 0x3042, 0x65e5, 0xac00, 0x2028, 0x2029, 0x200b, 0xfeff, 0xfffd, 0xe000, 0x1f600, 0x10ffff, 0x301, 0x660, 0x203f} {
		cs = append(cs, string(c))
	}
	esc := func(s, q string) string {
		return q + strings.NewReplacer(`\`, `\\`, q, `\`+q, "\n", `\n`, "\r", `\r`).Replace(s) + q
	}
	for len(cs) > 0 {
		k := min(8, len(cs))
		ms := []member{}
		ts := []string{}
		for _, c := range cs[:k] {
			for _, nm := range []string{c, "a" + c, "a" + c + "b"} {
				ms = append(ms, member{nm, nInt(len(ms))})
				ts = append(ts, "$["+esc(nm, `"`)+"]", "$["+esc(nm, `'`)+"]", "$."+esc(nm, `"`), "$."+esc(nm, `'`), "/"+esc(nm, `"`), "/"+esc(nm, `'`), "$.."+esc(nm, `'`))
				// may or may not be a name
				ts = append(ts, "$."+nm)
			}
		}
		y.add([]*N{nObj(ms...)}, ts)
		cs = cs[k:]
	}
	ds := docs(smallDocs[0], smallDocs[2], smallDocs[9], `{"in":1,"null":{"true":2},"true":3,"false":{"in":[4]},"length":5,"$":6,"a b":{"c d":[7,8]},"1.5":9,"1.50":15,"01.5":16,"1.0":17,"1e0":18,"1e1":[19],"10":20,"1_0":21,"1":{"5":10,"50":22,"0":23},"0x10":11,"16":12,"01":[13],"-1":14}`)
	ts := []string{}
	names := []string{"a", "b", "c", "0", "1", "in", "null", "true", "false", "length", "a b", "c d", "$", "1.5", "1.50", "01.5", "1.0", "1e0", "1e1", "1_0", "0x10", "01", "x", "5", "16", "*", "-1"}
	form := func(n string, f int) (string, bool) {
		num := strings.Contains("0 1 5 16 01 0x10 1.50 01.5 1.0 1e0 1e1 1_0", n) && n != "x" && n != "0 " && !strings.Contains(n, " ")
		id := isIdent(n) || n == "null" || n == "true" || n == "false"
		switch f {
		case 0:
			return "." + n, id || num || n == "*"
		case 1:
			return "['" + n + "']", n != "*"
		case 2:
			return `["` + n + `"]`, n != "*"
		case 3:
			return ".'" + n + "'", n != "*"
		case 4:
			return "[" + n + "]", id || num || n == "*" || n == "-1"
		case 5:
			return "/" + n, id || num || n == "*"
		case 6:
			return "/'" + n + "'", n != "*"
		}
		return "", false
	}
	for _, a := range names {
		for f := 0; f < 7; f++ {
			s, ok := form(a, f)
			if !ok {
				continue
			}
			pre := "$"
			if f >= 5 {
				pre = ""
			}
			ts = append(ts, pre+s)
			for _, b := range names {
				for g := 0; g < 7; g++ {
					t, ok := form(b, g)
					if !ok || (f >= 5) != (g >= 5) || (f != g && (f+g)%3 != 0) {
						continue
					}
					ts = append(ts, pre+s+t)
				}
			}
		}
	}
	y.add(ds, ts)
	ts = nil
	for _, w := range []string{" ", "\t", "\n", "\r\n", "  \t"} {
		for _, s := range []string{"$_._a", "$_._a_._b", "$_[_'a'_]", "$_[_a_,_b_]", "$_[_0_,_1_]", "$_[_1_:_2_]", "$_[_0:1_]", "$_[_0:1_,_'a'_]", "$_.._a", "$_.._[_0_]", "$_[_?(@.a)_]", "$[?(@_._a_==_1)]", "$[?(@.a_&&_@.b)]", "$[?(!_@.a)]", "$[?(-_1_==_@.a)]", "$[?(@.a_in_[_1_,_2_])]", "$_[_*_]", "$_._*", "/_a", "/a_/_b", "/a/b_", "$_", "_$", "$.a_", "$[?(_@.a_)]", "$[?_(@.a)]", "$[?(length(_@_))]", "$[?(@._length())]", "$[?(@.length_())]", "$[_-_1_]", "$[_0:_2_]", "$[_:2_]", "$[_::2_]", "$[_:_:_2_]", "$[?((_@.a_))]", "$[?(@[_0_])]", "$[?(@_[_'a'_]_>_0_)]", "$[?(@.a_**_2_>_1)]", "$[?(@.a_==_'_')]", "$[?(@.a_>=_1_||_@.b_<_2)]"} {
			ts = append(ts, strings.ReplaceAll(s, "_", w))
			ts = append(ts, strings.ReplaceAll(s, "_", ""))
		}
	}
	y.add(ds, dedup(ts))
}

func dedup(ts []string) []string {
	seen := map[string]bool{}
	out := []string{}
	for _, t := range ts {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

func sysGrouping(y *sysB, deep bool) {
	ops := []string{"||", "&&", "==", "!=", "<", "<=", ">", ">=", "in", "+", "-", "*", "/", "%", "**", "===", "!=="}
	vals := []string{"0", "1", "2", "3", "-2", "2.5", "true", "false", "null", `"a"`, `"2"`}
	items := []*N{}
	seed := 12345
	next := func(k int) int { seed = (seed*1103515245 + 12345) & 0x7fffffff; return (seed >> 8) % k }
	for i := 0; i < 40; i++ {
		items = append(items, nObj(member{"a", parseDoc(vals[next(6)])}, member{"b", parseDoc(vals[next(6)])}, member{"c", parseDoc(vals[next(6)])}))
	}
	for i := 0; i < 25; i++ {
		items = append(items, nObj(member{"a", parseDoc(vals[next(11)])}, member{"b", parseDoc(vals[next(11)])}, member{"c", parseDoc(vals[next(11)])}))
	}
	d := nObj(member{"v", nArr(items...)})
	ts := []string{}
	for _, o1 := range ops {
		for _, o2 := range ops {
			a, b, c := "@.a", "@.b", "@.c"
			ts = append(ts, a+" "+o1+" "+b+" "+o2+" "+c,
				"("+a+" "+o1+" "+b+") "+o2+" "+c, a+" "+o1+" ("+b+" "+o2+" "+c+")",
				a+" "+o1+" "+b+" "+o2+" "+c+" == 1", "4 - "+a+" "+o1+" "+b+" "+o2+" "+c+" > 2")
		}
		for _, u := range []string{"!", "-", "+"} {
			ts = append(ts, u+"@.a "+o1+" @.b", "@.a "+o1+" "+u+"@.b", u+"(@.a "+o1+" @.b)", "("+u+"@.a) "+o1+" @.b", u+"@.a "+o1+" @.b == 1", u+"@.a "+o1+" "+u+"@.b", u+u+"@.a "+o1+" @.b", "3 - "+u+"@.a "+o1+" @.b > 2")
		}
		ts = append(ts, "@.a.length() "+o1+" @.b", "length(@.a) "+o1+" @.b", "@.a "+o1+" @['b']", "(@.a) "+o1+" (@.b)", "((@.a) "+o1+" ((@.b)))", "(@).a "+o1+" @.b")
	}
	y.add([]*N{d}, wrap("$.v[?(", ts, ")]"))
	if deep {
		ts = nil
		for _, o1 := range ops[:15] {
			for _, o2 := range ops[:15] {
				for _, o3 := range ops[:15] {
					ts = append(ts, "@.a "+o1+" @.b "+o2+" @.c "+o3+" 2")
				}
			}
		}
		y.add([]*N{nObj(member{"v", nArr(items[:30]...)})}, wrap("$.v[?(", ts, ")]"))
	}
}

// calc is some result of an operator, used to make documents that tell
// groupings apart
func calc(op string, a, b any) any {
	i, ok := a.(int)
	j, ok2 := b.(int)
	if ok && ok2 {
		switch op {
		case "+":
			return i + j
		case "-":
			return i - j
		case "*":
			return i * j
		case "/":
			if j != 0 {
				return i / j
			}
			return 0
		case "%":
			if j != 0 {
				return i % j
			}
			return 0
		}
	}
	f := func(x any) float64 {
		if i, ok := x.(int); ok {
			return float64(i)
		}
		return x.(float64)
	}
	x, y := f(a), f(b)
	var r float64
	switch op {
	case "+":
		r = x + y
	case "-":
		r = x - y
	case "*":
		r = x * y
	case "/":
		r = x / y
	case "%":
		r = math.Mod(x, y)
	case "**":
		r = math.Pow(x, y)
	}
	if math.IsNaN(r) || math.IsInf(r, 0) {
		return 0
	}
	return r
}

func nNum(x any) *N {
	if i, ok := x.(int); ok {
		return nInt(i)
	}
	return nFlt(x.(float64))
}

// sysRounding has operators on numbers whose results are rounded, or do not
// fit. The results are open, but the groupings have to agree
func sysRounding(y *sysB, deep bool) {
	vals := []any{0.1, 0.2, 0.7, 1e16, 1.0, 3, 7, 9007199254740993, math.MaxInt64, math.MinInt64 + 1, 1e308, -0.3, 1e-320, 3.0, 1 << 40}
	consts := [][2]string{{"0.1", "0.2"}, {"1.0", "1.0"}, {"1", "0.7"}, {"3", "7.0"}, {"1e300", "10"}, {"9223372036854775807", "2"}, {"1e308", "1e308"}, {"4503599627370497", "0.5"}}
	ops := []string{"+", "-", "*", "/", "%", "**"}
	num := func(s string) any {
		if i, err := strconv.Atoi(s); err == nil {
			return i
		}
		f, _ := strconv.ParseFloat(s, 64)
		return f
	}
	for i, o1 := range ops {
		for j, o2 := range ops {
			mk := func(bs, cs []any) *N {
				its := []*N{}
				for k, a := range vals {
					for m := range bs {
						b, c := bs[m], cs[m]
						if (k+m+i+j)%2 > 0 && !deep && len(bs) > 1 {
							continue
						}
						its = append(its, nObj(member{"a", nNum(a)}, member{"b", nNum(b)}, member{"c", nNum(c)}, member{"r", nNum(calc(o2, calc(o1, a, b), c))}, member{"s", nNum(calc(o1, a, calc(o2, b, c)))}))
					}
				}
				return nObj(member{"v", nArr(its...)}, member{"p", nNum(bs[0])}, member{"q", nNum(cs[0])})
			}
			ts := func(b, c string) []string {
				out := []string{}
				if b != "@.b" {
					out = append(out, "@.a "+o1+" $.p "+o2+" $.q == @.r", "@.a "+o1+" $.p "+o2+" "+c+" == @.s", "@.r == @.a "+o1+" "+b+" "+o2+" $.q")
				}
				for _, r := range []string{"@.r", "@.s"} {
					out = append(out, "@.a "+o1+" "+b+" "+o2+" "+c+" == "+r, "(@.a "+o1+" "+b+") "+o2+" "+c+" == "+r, r+" == (@.a "+o1+" ("+b+" "+o2+" "+c+"))")
				}
				return out
			}
			bs, cs := []any{}, []any{}
			for k := range vals {
				bs = append(bs, vals[(k*7+i)%len(vals)])
				cs = append(cs, vals[(k*11+j)%len(vals)])
			}
			all := ts("@.b", "@.c")
			y.add([]*N{mk(bs, cs)}, wrap("$.v[?(", all, ")]"))
			for _, k := range consts {
				y.add([]*N{mk([]any{num(k[0])}, []any{num(k[1])})}, wrap("$.v[?(", ts(k[0], k[1]), ")]"))
			}
		}
	}
}

// sysSyntax has short token sequences, most of which are not paths
func sysSyntax(y *sysB, deep bool) {
	y.plan = "parse"
	d := docs(`{"a":[1,{"a":2}],"b":"x"}`)
	toks := []string{"$", "@", ".", "..", "[", "]", "a", "1", "*", "'a'", ",", ":", "?(", "(", ")", "-", "/", "==", "!", " ", "in", "true", "&&", "1.5", "+", "length", "&", "**"}
	k := 2
	ts := combos("", toks, k)
	ts = append(ts, combos("$.", toks, 2)...)
	ts = append(ts, combos("$[", toks, 2)...)
	ts = append(ts, wrap("", combos("$[", toks, 2), "]")...)
	ts = append(ts, wrap("", combos("$[?(@", toks, 2), ")]")...)
	ts = append(ts, wrap("", combos("$[?(", toks, 2), ")]")...)
	if deep {
		ts = append(ts, combos("$", toks, 3)...)
		ts = append(ts, wrap("", combos("$[", toks, 3), "]")...)
		ts = append(ts, wrap("", combos("$[?(@.a", toks, 3), ")]")...)
	}
	// every character in some places
	for c := 0; c < 0x100; c++ {
		s := string(rune(c))
		ts = append(ts, s, "$"+s, "$.a"+s, "$."+s, "$."+s+"a", "$["+s+"]", "/"+s, "$['a'"+s+"]", "$[?(@"+s+"1)]", "/a"+s, s+"$", "$[0"+s+"]", "$[?("+s+"@)]")
	}
	for _, s := range badTexts {
		ts = append(ts, s)
	}
	y.add(d, dedup(ts))
}

var badTexts = []string{"", " ", "$$", "$.", "$..", "$...", "$....a", "$.a.", "$.a..", "$[", "$]", "$[]", "$[ ]", "$[0", "$[0,]", "$[,0]", "$[0,,1]", "$['a]", "$[\"a']", "$['a", "$['a'", "$.'a", "$[?]", "$[?(]", "$[?()]", "$[?(@]", "$[?(@)", "$[?@]", "$[?(@.a)", "$[?(@.a]", "$[?(@.a))]", "$[?((@.a)]", "$[?(@.a ==)]", "$[?(== 1)]", "$[?(@.a = 1)]", "$[?(@.a == == 1)]", "$[?(@.a & 1)]", "$[?(@.a | 1)]", "$[?(@.a ^ 1)]", "$[?(~@.a)]", "$[?(a)]", "$[?(a == 1)]", "$[?(@.a > )]", "$[?(! )]", "$[?(@.a + )]", "$[?(@.a in )]", "$[?(in @.a)]", "$[?([1)]", "$[?(1])]", "$[?(length(@)]", "$[?(length @)]", "$[?(length(@,))]", "$[?(length(,@))]", "$[?(@.length( )]", "$.a b", "$.a$", "$ a", "$.a]", "$.a)", "$.a}", "$a", "a", "a.b", ".a", "..a", "[0]", "['a']", "1", "'a'", "true", "null", "/a/", "//", "//a", "/a//b", "/a b", "/[0]", "/a[0]", "/a.b", "/$", "/.", "/..", "/'a", "/-1", "$.a/b", "$/a", "#", "$#", "$.a#", "$.#", "$.a;", "$.a`", "$%", "$.a%", "${a}", "$.{a}", "$\\", "$.\\", "$.a\\", "$['\\x']", "$['\\x4']", "$['\\xzz']", "$['\\u']", "$['\\u004']", "$['\\u{}']", "$['\\u{41']", "$['\\u{zz}']", "$['\\1']", "$['\\9']", "$['a\nb']", "$['a\rb']", "$[\"a\nb\"]", "$['\\", "$['\\']", "$[1.]", "$[.5]", "$.1.", "$[1e]", "$[0x]", "$[0b2]", "$[0o8]", "$[0xg]", "$[1 2]", "$[a b]", "$['a' 'b']", "$[1:2:3:4]", "$[1:2:3:]", "$[:::]", "$[::::]", "$[1::2:]", "$[a:b]", "$['a':1]", "$[1:'b']", "$[*:1]", "$[?(@):1]", "$[1:?(@)]", "$.*a", "$.a*", "$*", "$.**", "$..**", "$.*.", "$.[0]", "$.['a']", "$.[?(@)]", "$.(a)", "$.?(@)", "$..(a)", "$..?(@)", "$.-", "$.+", "$.!a", "$.@", "$.$", "$..$", "$..@", "$.a..$", "$[$]", "$[@]", "$[$.a]", "$[@.a]", "$[(0)]", "$[(1+1)]", "$[1+1]", "$[a,$]", "$[-]", "$[+]", "$[--1]", "$[-a]", "$[-'a']", "$[!a]", "$+1", "$-1", "$ + 1", "$ == 1", "$.a == 1", "$.a && $.b", "!$", "-$", "-$.a", "($)", "($.a)", "($).a", "$()", "$.a()", "$.length()", "$.a.length()", "length($)", "$(1)", "@@", "@$", "$@", "$.a@", "$.a $.b", "$.a,$.b", "$,", "$:", "$?", "$(", "$)", "$!", "$=", "$<", "$&", "$|", "$^", "$~", "$\x00", "\x00$", "$.a\x00", "\ufeff$", "$\ufeff", "$.\u00a0", "\u00a0$", "$\u2028", "$[\u00a01]", "$.a\u3000", "$.日本", "$.é", "$.ñandú", "$.😀", "$.a😀", "$[?(@.a == 'x)]", "$[?(@.a == \"x)]", "$[?(@.a <> 1)]", "$[?(@.a =! 1)]", "$[?(@.a === )]", "$[?(@.a ==== 1)]", "$[?(@.a !=== 1)]", "$[?(@.a => 1)]", "$[?(@.a =< 1)]", "$[?(@.a and 1)]", "$[?(@.a or 1)]", "$[?(not @.a)]", "$[?(@.a &&)]", "$[?(&& @.a)]", "$[?(@.a || || 1)]", "$[?(1 +* 2)]", "$[?(1 ** ** 2)]", "$[?(@.a =~ /x/)]", "$[?(@.a 1)]", "$[?(@.a @.b)]", "$[?(1 2)]", "$[?([1,2)]", "$[?([1,,2])]", "$[?([,])]", "$[?([,1])]", "$[?([1,])]", "$[?({})]", "$[?({\"a\":1})]", "$[?(@.a in [1,2)]", "$[?(@.a in {1})]", "$[?(@.*.*.)]", "$[?(@..)]", "$[?(@.)]", "$[?(@.a.)]", "$[?(@[])]", "$[?(@[0)]", "$[?($[0)]", "$[(@.length-1)]", "$[@.length-1]", "$[?(@.a-1)]", "$[?(@.a -1)]", "$[?(@.a- 1)]", "$.a-b", "$.a-1", "$.-a", "$.1a", "$.a.1a", "$[1a]", "$.1.5", "$.1.5.2", "$.01", "$.1e5", "$.0x1", "$.in", "$.true", "$.null", "$.false", "$.in.a", "$[in]", "$[true]", "$[null]", "$['in']", "$.length", "$.$a", "$._", "$._a", "$.a_b", "$.aB9", "// a", "/* a */$", "$ // a", "$ /* a */", "$.a.length(", "$.a.length)", "$[?(foo())]", "$[?(@.foo())]", "$[?(foo(1,2,3))]", "$[?(foo(@).bar())]", "$[?(length())]", "$[?(@.length(1))]", "$[?(length(1,2))]"}
