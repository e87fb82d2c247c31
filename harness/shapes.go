package main

import (
	"strconv"
	"strings"
)

// Documents that are deep, or wide, and texts that are long: what small
// scopes leave out

// deepDoc has levels of objects and arrays below each other
func deepDoc(levels int, kinds string) *N {
	n := nObj(member{"a", nInt(1)}, member{"z", nNull()})
	for i := levels; i > 0; i-- {
		switch kinds[i%len(kinds)] {
		case 'o':
			n = nObj(member{"b", nInt(i)}, member{"a", n})
		case 'O':
			n = nObj(member{"a", n})
		case 'a':
			n = nArr(n, nInt(i))
		case 'A':
			n = nArr(n)
		}
	}
	return n
}

// wideArr2 has elements that can be told apart
func wideArr2(n int) *N {
	vs := []*N{}
	for i := 0; i < n; i++ {
		switch i % 5 {
		case 1:
			vs = append(vs, nArr(nInt(i)))
		case 3:
			vs = append(vs, nObj(member{"a", nInt(i)}))
		default:
			vs = append(vs, nInt(i))
		}
	}
	return nArr(vs...)
}

// wideObj has members k0, k1, ... in that order, and some others
func wideObj(n int) *N {
	ms := []member{}
	for i := 0; i < n; i++ {
		v := nInt(i)
		if i%4 == 1 {
			v = nArr(nInt(i))
		}
		ms = append(ms, member{"k" + strconv.Itoa(i), v})
	}
	return nObj(append(ms, member{"a", nNull()}, member{"0", nInt(0)})...)
}

// manyKids makes an array of n numbers, arrays and objects
func manyKids(n int) *N {
	vs := []*N{}
	for i := 0; i < n; i++ {
		switch i % 4 {
		case 0:
			vs = append(vs, nInt(i))
		case 1:
			vs = append(vs, nArr(nInt(i)))
		case 2:
			vs = append(vs, nObj(member{"a", nArr(nInt(i), nInt(1))}))
		case 3:
			vs = append(vs, nArr())
		}
	}
	return nArr(vs...)
}

// longNames makes names of n letters that differ in one of them
func longNames(n int) []string {
	base := strings.Repeat("abcdefgh", n/8+1)[:n]
	out := []string{base, base + "x", base[:n-1]}
	for _, i := range []int{0, 1, 7, n / 4, n/2 - 1, n / 2, n - 8, n - 2, n - 1} {
		if i >= 0 && i < n {
			out = append(out, base[:i]+"Z"+base[i+1:])
		}
	}
	return out
}

// names that are almost the same
func closeNames() *N {
	ms := []member{}
	for i, k := range []string{"a", "A", "aa", "Aa", " a", "a ", "", "á", "a\u0301", "ａ", "а", "a\x00", "a\x00\x00", "\x00", "a\ufffd", "\ufffd", "a\u200b", "\ufeffa", "a.b", "a/b", "a~1b", "a%20b", "a\n", "a\t", "0", "00", "-0", "+0", "1", "01", "1.0", "1e0", "0x1", "key", "Key", "KEY", "ſ", "s", "S", "K", "k", "ß", "ss", "İ", "i", "I", "ı"} {
		ms = append(ms, member{k, nInt(i)})
	}
	return nObj(ms...)
}

func (y *sysB) longNames(ks []string) {
	ms := []member{}
	for i, k := range ks {
		ms = append(ms, member{k, nObj(member{"a", nInt(i)}, member{k, nInt(-i)})})
	}
	// some members are missing
	ts := []string{}
	for _, k := range ks {
		ts = append(ts, "$."+k, "$['"+k+"']", "/"+k, "$.*."+k, "$.."+k, "$[0,"+k+"]", "$['"+k+"',a,"+ks[0]+"]", "$[?(@."+k+")]", "$."+k+".a", "$.'"+k+"'['"+k+"']", "$[?($."+k+".a > 1)]")
	}
	y.add([]*N{nObj(ms[:len(ms)/2]...), nObj(ms[len(ms)/2:]...), nArr(nObj(ms[1]))}, ts)
}

func ints(from, to, by int) []string {
	out := []string{}
	for i := from; i != to; i += by {
		out = append(out, strconv.Itoa(i))
	}
	return out
}

var deepLevels = []int{20, 70, 140, 300}
var widths = []int{9, 17, 33, 65, 130, 260, 520, 1030}

func (y *sysB) shapes(prop string, deep bool) {
	lv := deepLevels
	if deep {
		lv = append(lv, 600)
	}
	eachDeep := func(kinds []string, f func(n int) []string) {
		for _, n := range lv {
			for _, k := range kinds {
				y.add([]*N{deepDoc(n, k)}, f(n))
			}
		}
	}
	same := func(ts ...string) func(int) []string { return func(int) []string { return ts } }
	eachWide := func(f func(n int) []string) {
		for _, n := range widths {
			y.add([]*N{wideArr2(n)}, f(n))
		}
	}
	str := strconv.Itoa
	switch prop {
	case "C01":
		for _, n := range []int{20, 70, 140} {
			y.add([]*N{deepDoc(n, "O")}, []string{"$" + strings.Repeat(".a", n), "$" + strings.Repeat("['a']", n) + ".z", "/" + strings.Repeat("a/", n) + "a", "$" + strings.Repeat(".*", n), "$" + strings.Repeat(".a", n+2)})
			y.add([]*N{deepDoc(n, "A")}, []string{"$" + strings.Repeat("[0]", n), "$" + strings.Repeat("[0]", n) + ".a", "/" + strings.Repeat("0/", n) + "z", "$" + strings.Repeat("[*]", n)})
		}
		eachWide(func(n int) []string {
			return []string{"$.*", "$[" + str(n-1) + "]", "$[" + str(n) + "]", "$[16]", "$.16", "$[32]", "$[64]", "$[128]", "$[256]", "/128", "$.*.*", "$.*[0]", "$.*.a"}
		})
		for _, n := range widths {
			y.add([]*N{wideObj(n)}, []string{"$.*", "$.k" + str(n-1), "$.k" + str(n), "$.a", "$['k16']", "$.k33", "$.k128", "/k65", "$[0]", "$.K1", "$.*[0]"})
		}
		fallthrough
	case "C22":
		// long names, and many of them
		chain := []string{"a_", "some_name_", "_", "__x__", "aLongerNameThanMost0", "b_", "x1_1", "A_B", "in_", "nulls", "length_", "z"}
		n := nArr(nInt(1), nObj(member{"z_", nInt(2)}, member{"z", nInt(3)}))
		for i := len(chain) - 1; i >= 0; i-- {
			n = nObj(member{chain[i], n}, member{strings.Trim(chain[i], "_") + "0", nInt(i)}, member{strings.ToLower(chain[i]) + "_", nInt(-i)})
		}
		long := []string{}
		for i := 1; i <= len(chain); i++ {
			for _, x := range [][3]string{{"$.", ".", ""}, {"$['", "']['", "']"}, {"$[\"", "\"][\"", "\"]"}, {"/", "/", ""}, {"/'", "'/'", "'"}, {"$.'", "'.'", "'"}, {"$[", "][", "]"}, {"$ . ", " . ", " "}} {
				long = append(long, x[0]+strings.Join(chain[:i], x[1])+x[2])
			}
			for _, x := range []string{".z_", "[0]", "[1].z_", "[1]['z_']", ".1.z_"} {
				long = append(long, "$."+strings.Join(chain[:i], ".")+x)
			}
		}
		y.add([]*N{n}, long)
		for _, n := range []int{8, 17, 33, 66, 130, 260} {
			y.longNames(longNames(n))
		}
		if prop == "C01" || deep {
			y.longNames(longNames(520)[:4])
			y.longNames(longNames(1030)[3:6])
		}
		d := closeNames()
		ts := []string{"$.*"}
		for _, k := range d.keys {
			q := strings.NewReplacer(`\`, `\\`, "\n", `\n`).Replace(k)
			ts = append(ts, `$["`+q+`"]`, `$.'`+q+`'`, `/"`+q+`"`)
			if isIdent(k) {
				ts = append(ts, "$."+k, "$["+k+"]", "/"+k)
			}
		}
		ts = append(ts, "$.0", "$.00", "$[1]", "$.01", "$.1", "/1", "/01", "$[0x1]", "$[1e0]", "$.0x1")
		y.add([]*N{d}, ts)
	case "C02":
		eachDeep([]string{"o", "a", "oa", "OA"}, same("$..a", "$..b", "$..*", "$..[0]", "$..", "$..z", "$..[a,0]", "$..[0:1]", "$..[?(@.z)]", "$..[-1]", "$..['z']"))
		y.add([]*N{wideArr2(130), wideObj(130)}, []string{"$..*", "$..a", "$..[0]", "$..k128", "$..", "$..[128]", "$..[0:200:7]"})
		for _, n := range []int{600, 1100} {
			y.add([]*N{manyKids(n)}, []string{"$..*", "$..[0]", "$.*..*", "$..a", "$..a..[0]"})
		}
		for _, n := range []int{20, 40} {
			y.add([]*N{deepDoc(n, "oa")}, []string{"$..a..z", "$..a..b", "$..[0]..a", "$..*..z"})
		}
	case "C03":
		eachDeep([]string{"a", "oa"}, same("$..[-1]", "$..[-2]", "$..[-3]", "$..[0,-1]"))
		eachWide(func(n int) []string {
			return []string{"$[-1]", "$[-" + str(n) + "]", "$[-" + str(n+1) + "]", "$[-" + str(n-1) + "]", "$.-" + str(n), "$[-16]", "$[-17]", "$[-128]", "$[-129]", "$[-256]", "$[-257]", "$[-1,-" + str(n) + ",-" + str(n+1) + "]", "$..[-1]", "$[?(@[-1])]", "$[-" + str(n+1) + ",-2]"}
		})
	case "C04":
		eachWide(func(n int) []string {
			s := str(n)
			return []string{"$[::7]", "$[-130:]", "$[120:140]", "$[::-1]", "$[::-16]", "$[:" + s + "]", "$[" + s + "::-1]", "$[-" + s + ":" + s + "]", "$[16:17]", "$[15:18]", "$[127:130]", "$[::128]", "$[::129]", "$[::" + s + "]", "$[::-" + s + "]", "$[-" + str(n+1) + "::" + str(n-1) + "]", "$[" + str(n-1) + ":0:-5]", "$..[::3]", "$[::2,1::2]", "$[255:]", "$[:-255:-1]"}
		})
	case "C05":
		for _, n := range []int{33, 66, 130, 260} {
			y.longNames(longNames(n))
		}
		for _, n := range []int{8, 17, 33, 70} {
			up, down := strings.Join(ints(0, n, 1), ","), strings.Join(ints(n-1, -1, -1), ",")
			neg := strings.Join(ints(-1, -n-1, -1), ",")
			ks := "k" + strings.Join(ints(n-1, -1, -1), ",k")
			y.add([]*N{wideArr2(5), wideArr2(40), wideArr2(130), wideObj(40), wideObj(80)}, []string{"$[" + up + "]", "$[" + down + "]", "$[" + neg + "]", "$[" + ks + "]", "$[" + ks + ",a]", "$[" + up + "," + down + "]", "$[" + up + ",::2]", "$[*," + up + "]", "$[?(@ > 5)," + up + "]", "$..[a," + down + "]"})
		}
	case "C06", "C16":
		// conditions that select so many nodes
		ms := []*N{}
		for _, n := range []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025} {
			vs := []*N{}
			for i := 0; i < n; i++ {
				vs = append(vs, nInt(0))
			}
			ms = append(ms, nArr(vs...))
		}
		y.add([]*N{nArr(ms...)}, []string{"$[?(@.*)]", "$[?(@[*])]", "$[?(@..*)]", "$[?(!@.*)]", "$[?(@[1:])]", "$[?(@.* && @[0] == 0)]", "$[?(length(@) == 256)]", "$[?(@.length() > 255)]", "$[?(@)]"})
		eachDeep([]string{"o", "oa"}, same("$..[?(@.a)]", "$..[?(@.b)]", "$..[?(@.a.b)]", "$..[?(@[0])]", "$..[?(@.z == null)]"))
		eachWide(func(n int) []string {
			return []string{"$[?(@)]", "$[?(@ > 15)]", "$[?(@ == " + str(n-1) + ")]", "$[?(@.a)]", "$[?(@[0])]", "$[?(!@)]", "$[?($[128])]", "$[?($.*)]", "$..[?(@)]"}
		})
		y.add([]*N{wideObj(130)}, []string{"$[?(@)]", "$[?(@ > 15)]", "$[?(@[0] > 100)]", "$[?(@ == 128)]", "$..[?(@ >= 0)]"})
	case "C07":
		f := "@ == $.x"
		g := "@.a"
		d := nInt(1)
		e := nObj(member{"a", nInt(1)})
		for i := 0; i < 4; i++ {
			f, g = "@[?("+f+")]", "@[?("+g+")]"
			d, e = nArr(nInt(0), d), nArr(nInt(5), e)
			y.add([]*N{nObj(member{"x", nInt(1)}, member{"v", clone(d)}, member{"w", clone(e)}), nObj(member{"x", nInt(2)}, member{"v", clone(d)}, member{"w", nArr(clone(e), clone(e))})},
				[]string{"$.v[?(" + f + ")]", "$.*[?(" + f + ")]", "$.w[?(" + g + ")]", "$[?(" + f + ")]", "$[?(" + g + ")]", "$..[?(" + f + ")]", "$[?(" + f + " || " + g + ")]"})
		}
		eachDeep([]string{"oa"}, same("$..[?(@.b == $.b)]", "$..[?(@.b > $.b)]", "$..[?(@.a[?($.a)])]", "$..[?(@.a[?(@.b)])]"))
		eachWide(func(n int) []string {
			return []string{"$[?(@ == $[" + str(n-1) + "])]", "$[?(@ == $[-1])]", "$[?($[?(@ == 2)] == @)]", "$[(@.length()-1):]", "$[(@.length()-1)::-9]", "$[?(@[?(@ == $[6])])]"}
		})
	case "C12":
		for _, n := range widths {
			m := min(n, 65)
			ks := make([]string, m)
			for i := range ks {
				ks[i] = `"k` + str(i) + `"`
			}
			d := nObj(member{"v", nArr(nInt(0), nInt(n-1), nInt(n), nStr("k16"), nStr("k"+str(m-1)), nArr(nInt(n-4)), nInt(128), nNull())}, member{"w", wideArr2(n)}, member{"o", wideObj(n)}, member{"r", nArr(nObj(member{"a", nInt(n - 1)}), nObj(member{"a", nInt(0)}))})
			y.add([]*N{d}, []string{"$.v[?(@ in $.w)]", "$.v[?(@ in $.w.*)]", "$.v[?(@ in $.w[*])]", "$.v[?(@ in $.o.*)]", "$.v[?(@ in $..*)]", "$.v[?(@ in [" + strings.Join(ints(m, -1, -1), ",") + "])]",
				"$.v[?(@ in [" + strings.Join(ks, ",") + "])]", "$.v[?(@ in $.w[::-1])]", "$.v[?(@ in $..a)]", "$.v[?(!(@ in $.w))]", "$.v[?(" + str(n-1) + " in $.w)]", "$.v[?(" + str(n+1) + " in $.w.*)]"})
		}
	case "C13":
		for _, n := range append([]int{0, 1}, widths...) {
			d := nObj(member{"v", nArr(nInt(1))}, member{"w", wideArr2(n)}, member{"o", wideObj(n)})
			s := str(n)
			y.add([]*N{d}, []string{"$.v[?(length($.w) == " + s + ")]", "$.v[?($.w.length() == " + s + ")]", "$.v[?(length($.w.*) == $.w.length())]", "$.v[?(length($.o) == 0)]", "$.v[?(length($.o.*) == " + str(n+2) + ")]", "$.v[?($.o.*.length() == " + str(n+2) + ")]",
				"$.v[?(length($..*) > " + s + ")]", "$.v[?($.w[1:].length() == " + str(n-1) + ")]", "$.w[($.w.length()-1):]", "$.w[(@.length()-3):(@.length()-1)]", "$.v[?(length($.w) < " + s + ")]"})
		}
		long := make([]string, 70)
		for i := range long {
			long[i] = "1"
			y.add([]*N{parseDoc("[0]")}, []string{"$[?(length([" + strings.Join(long[:i+1], ",") + "]) == " + str(i+1) + ")]"})
		}
	case "C14":
		y.plan = "segs"
		// the segments of every selected node are recorded: few nodes when deep
		for _, k := range []string{"o", "a", "oa"} {
			y.add([]*N{deepDoc(20, k)}, []string{"$..z", "$..a", "$..[0]", "$..*"})
			y.add([]*N{deepDoc(70, k)}, []string{"$..z", "$..b"})
			y.add([]*N{deepDoc(140, k)}, []string{"$..z"})
		}
		y.add([]*N{wideArr2(130), wideObj(130)}, []string{"$.*", "$..*", "$[::-1]", "$[128,1]", "$..a"})
		ts := []string{}
		for _, k := range []string{"1", "2", "3", "-1", "-2", "-3", "-7"} {
			ts = append(ts, "$[::"+k+"]", "$[::"+k+"].*", "$..[::"+k+"]", "$[0,::"+k+"]", "$[-1::"+k+"]", "$[1::"+k+"][0]", "$[*][::"+k+"]", "$[::"+k+"]..*", "$[?(@)]..[::"+k+"]")
		}
		y.add(docs(`[[1,[2]],{"a":2},[3],{"b":[4,5,[6]]},5,[6,{}],{},[]]`, `[[],[[]],[[[]]],[[[[]]]]]`), ts)
	case "C08":
		ts := []string{}
		for n := 2; n < 14; n++ {
			ts = append(ts, strings.Repeat("1 == ", n)+"1", strings.Repeat("true == ", n)+"true", strings.Repeat("false == ", n)+"false", strings.Repeat("1 != ", n)+"1", strings.Repeat("true != ", n)+"true", strings.Repeat("@ == ", n)+"@", strings.Repeat("@ != ", n)+"true")
		}
		y.add(docs(`[1,true,false,null,"a",[],{}]`), wrap("$[?(", ts, ")]"))
	case "C10":
		ts := []string{}
		for _, n := range []int{3, 4, 5, 6, 7, 8, 9, 12, 17, 30} {
			for i := 0; i < n; i++ {
				for _, v := range [][4]string{{"1", "0", "&&", ""}, {"0", "1", "||", ""}, {"@.t", "@.f", "&&", ""}, {"@.f", "@.t", "||", ""}, {"!@.f", "@.n", "&&", ""}, {"@.f", "!(@.f || @.n)", "||", ""}} {
					xs := make([]string, n)
					for j := range xs {
						xs[j] = v[0]
					}
					xs[i] = v[1]
					ts = append(ts, strings.Join(xs, " "+v[2]+" "))
					if i > 0 && n < 10 {
						ts = append(ts, strings.Join(xs[:i], " "+v[2]+" ")+" && "+strings.Join(xs[i:], " || "), strings.Join(xs[:i], " || ")+" && "+strings.Join(xs[i:], " "+v[2]+" "))
					}
				}
			}
		}
		y.add(docs(`[{"t":true,"f":false,"n":null}]`), wrap("$[?(", dedup(ts), ")]"))
	case "C11", "C25":
		vs := []*N{}
		for i := -40; i <= 40; i++ {
			vs = append(vs, nInt(i))
		}
		vs = append(vs, nFlt(0.5), nFlt(-0.5), nFlt(1.5), nFlt(2.5), nStr("1"), nNull())
		d := nObj(member{"v", nArr(vs...)}, member{"one", nInt(1)}, member{"two", nInt(2)})
		ts := []string{}
		cyc := [][]string{{"+"}, {"-"}, {"+", "-"}, {"-", "+", "-"}, {"+", "*"}, {"-", "*", "+"}, {"*", "-", "-"}, {"%", "+"}, {"-", "%"}, {"/", "-"}, {"*", "/"}, {"/", "*", "-"}, {"**", "-"}, {"-", "**", "+"}}
		args := [][]string{{"1"}, {"2", "1"}, {"1", "3", "2"}, {"5", "2", "3", "1"}, {"7", "4"}, {"$.two", "1"}, {"1", "$.one", "$.two"}, {"-1", "2"}, {"0.5", "1"}, {"3", "(1 - 2)", "2"}}
		for _, n := range []int{3, 4, 5, 6, 8, 11, 16} {
			for _, c := range cyc {
				for _, a := range args {
					x := a[0]
					for j := 1; j < n; j++ {
						x += " " + c[(j-1)%len(c)] + " " + a[j%len(a)]
					}
					ts = append(ts, "@ == "+x)
				}
			}
		}
		if prop == "C25" {
			d = nObj(member{"v", nArr(nInt(1), nNull())}, member{"one", nInt(1)}, member{"two", nInt(2)})
			cyc = [][]string{{"<", "=="}, {"&&", "=="}, {"||", "&&"}, {"==", "&&", "<"}, {"+", "<", "||"}, {"<", "||", "=="}, {"in", "=="}, {"+", "in"}, {"&&", "||", "<", "+"}, {"||", "&&", "==", "<", "+", "*"}, {"*", "+", "<", "==", "&&", "||"}}
			args = [][]string{{"1", "0"}, {"0", "1", "2"}, {"@", "1"}, {"1", "2", "@", "0"}, {"!1", "2", "1"}, {"true", "false", "1"}}
			more := []string{}
			for _, n := range []int{4, 5, 6, 7, 9, 12, 16} {
				for _, c := range cyc {
					for _, a := range args {
						x := a[0]
						for j := 1; j < n; j++ {
							x += " " + c[(j-1)%len(c)] + " " + a[j%len(a)]
						}
						more = append(more, x, "!("+x+")", "("+x+") == true")
					}
				}
			}
			y.add([]*N{d}, wrap("$.v[?(", dedup(more), ")]"))
			d = nObj(member{"v", nArr(vs...)}, member{"one", nInt(1)}, member{"two", nInt(2)})
		}
		y.add([]*N{d}, wrap("$.v[?(", dedup(ts), ")]"))
	case "C17":
		y.plan = "parse"
		ts := []string{}
		for _, n := range []int{2, 5, 8, 9, 11, 13, 16, 20, 32} {
			r := strings.Repeat
			ts = append(ts, "$[?("+r("(", n)+"1"+r(")", n)+")]", "$[?("+r("(", n)+"1"+r(")", n+1)+")]", "$[?("+r("(", n+1)+"1"+r(")", n)+")]", "$[?("+r("(", n)+"@.a"+r(")", n)+")]",
				"$[?("+r("!", n)+"@)]", "$[?("+r("- ", n)+"1)]", "$[?("+r("!", n)+")]", "$[?(1"+r(" + 1", n)+")]", "$[?(1"+r(" + 1", n)+" +)]", "$[?(1"+r(" && 1", n)+")]", "$[?(@"+r(" || @", n)+")]", "$[?(@"+r(" || @", n)+" ||)]",
				"$"+r(".a", n*10), "$"+r(".a", n*10)+".", "$"+r("[0]", n*5), "$"+r("[0]", n*5)+"]", "$"+r("['a']", n*5), "$"+r("..a", n), "$"+r("..a", n)+"..", "$"+r("..a", n)+"...", "/"+r("a/", n*5)+"a", "/"+r("a/", n*5), "/"+r("a/", n*5)+"/a",
				"$[0"+r(",1", n*5)+"]", "$[0"+r(",1", n*5)+",]", "$[0"+r(",1:2", n*2)+"]", "$['"+r("a", n*100)+"']", "$['"+r("a", n*100)+"]", "$."+r("a", n*100), "$."+r("a", n*100)+"-", "$["+r("1", n*10)+"]", "$[0."+r("1", n*10)+"]", "$[?(@ == "+r("9", n*10)+")]",
				"$[?([1"+r(",1", n*3)+"])]", "$[?([1"+r(",1", n*3)+",])]", "$"+r(" ", n*20)+".a", "$.a"+r(" ", n*20), r("\t", n)+"$", "$[?(length(@"+r(",@", n)+"))]", "$[?(length(@"+r(",@", n)+",))]")
			if n < 10 {
				ts = append(ts, "$[?("+r("[", n)+"1"+r("]", n)+")]", "$[?("+r("[", n)+"1"+r("]", n-1)+")]", "$[?("+r("length(", n)+"@"+r(")", n)+")]", "$[?("+r("length(", n)+"@"+r(")", n-1)+")]", "$[?(@"+r(".length()", n)+")]")
			}
		}
		// one character before or after
		for c := rune(1); c < 0x180; c++ {
			for _, x := range []string{"$[0]", "$.*", "$..", "$['a']", "$.1", "$[?(@)]", "$.a.b", "/a/b", "/'a'", "/*", "/1", "$[0:]", "$..[0]", "@.a"} {
				ts = append(ts, x+string(c))
				if c < 0x80 {
					ts = append(ts, string(c)+x, x+string(c)+string(c))
				}
			}
		}
		for _, n := range []int{40, 130, 260, 520} {
			long := strings.Repeat("a", n)
			for _, c := range append([]rune("\t\n\v\f\r !\"#$%&'()*+,-./0:;<=>?@A[\\]^_`{|}~"), 0x7f, 0x85, 0xa0, 0xad, 0xe9, 0x2028, 0x3000, 0xfeff) {
				ts = append(ts, "$."+long+string(c), string(c)+"$."+long, "$['"+long+"']"+string(c), "/"+long+string(c))
			}
		}
		for _, c := range []rune{0x2000, 0x200b, 0x2028, 0x2029, 0x202f, 0x3000, 0xfeff, 0xfffd, 0xfffe, 0x1f600, 0xe0001} {
			for _, x := range []string{"$", "$[0]", "$.*", "$.a", "/a", "/", "$['a']"} {
				ts = append(ts, x+string(c), string(c)+x)
			}
		}
		for _, x := range []string{";", "\n", "\r\n", "\x00", " ;", "; ", "//", "/**/", "#", "$", "]]", "))", "..", "[", "[0", "(", "()", "?", "??", ",", ", $.b", " $.b", "|$.b", " | length", "[]", "[?]", ".", "~", "^", "!", "=", "==", "==1", " == 1", "\\", "\\n", "'", "\"", "`"} {
			for _, p := range []string{"$", "$[0]", "$.*", "$..", "$..*", "$['a']", "$.1", "$[?(@)]", "$.a.b", "/", "/a", "/a/b", "/'a'", "/*", "$[0:]", "$..[0]", "$..a[*]"} {
				ts = append(ts, p+x)
			}
		}
		y.add(docs(`{"a":[1,{"a":2}],"b":"x"}`), dedup(ts))
	}
}

// values that are almost equal
var closeValues = []string{"1", "1.0", "1.0000000001", "1.00000000000001", "0.9999999999", "0.999999999999999", "1000000", "1000000.5", "1000001", "1000000.0000001", "-1.0000000001", "-1",
	"0", "1e-10", "1e-290", "-1e-10", "1e14", "100000000000001", "100000000000001.0", "0.1", "0.300000000000004", "0.3", "0.299999999999999", "1e300", "1.00000000000002e300",
	`"a"`, `"A"`, `"a "`, `" a"`, `"á"`, `"a\u0301"`, `"aa"`, `"ab"`, `"a\u0000"`, `"\uff41"`, `"\u0430"`, `"1"`, `"1.0"`, `" 1"`, `"01"`, `"1.0000000001"`, `"1e0"`, `""`, `" "`, `"\u0000"`, `"ß"`, `"ss"`, `"SS"`, `"\ufffd"`, `"😀"`, `"😁"`, `"true"`, `"True"`, `"null"`}

// texts with an order of their own, and long ones: together these are not
// put into one document
var longValues = func() []string {
	out := []string{`"010"`, `"008"`, `"10"`, `"8"`, `"0x8"`, `"0b1"`, `"1_0"`, `"007"`, `"7"`, `"00"`, `"0"`, `"a9"`, `"a10"`, `"2020-01-02"`, `"2020-1-2"`, `"2020-01-02T00:00:00Z"`, `"1.10"`, `"1.9"`}
	for _, n := range []int{31, 64, 130, 260, 1100} {
		x := strings.Repeat("x", n-1)
		out = append(out, `"`+x+`a"`, `"`+x+`b"`, `"b`+x+`"`, `"`+x+`"`)
	}
	return append(out, `"`+strings.Repeat("1", 40)+`"`, `"`+strings.Repeat("1", 39)+`2"`)
}()

// and some where decimals run out of precision, which is left open for some
// of the pairs
var fineValues = []string{"9007199254740990", "9007199254740991", "9007199254740992", "9007199254740993", "9007199254740991.0", "1000000000000001", "1000000000000000", "1e15", "0.1234567890123456", "0.123456789012345", "1.7976931348623157e308", "5e-324", "0", "0.30000000000000004", "0.3", "-9007199254740993", "9223372036854775807", "9223372036854775806", "-9223372036854775808", "9007199254740992.0", "9007199254740994.0", "-9007199254740992.0", "9223372036854775808.0", "1000000000000001.0"}
