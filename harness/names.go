package main

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// anyName is any string
func (b *B) anyName() string {
	switch b.n(8) {
	case 0:
		return pickS(b.G, oddNames)
	case 1:
		return pickS(b.G, digitNames)
	case 2:
		return pickS(b.G, plainNames)
	case 3:
		// what looks like an escape
		s := ""
		for i, k := 0, b.in(1, 5); i < k; i++ {
			s += pick(b.G, "\\", "n", "u", "x", "0", "4", "1", "{", "}", "'", "\"", "\n", "b", "\r", "a", "/", "\u2028", "\u2029")
		}
		return s
	case 4:
		return pickS(b.G, oddNames) + pickS(b.G, oddNames)
	case 5:
		s := []rune(pickS(b.G, append(plainNames, oddNames...)))
		i := b.n(len(s) + 1)
		return string(s[:i]) + string(b.anyRune()) + string(s[i:])
	case 6:
		return strings.Repeat(pick(b.G, "a", "\\", "'", "\"", "é", " ", "\n", "/"), pick(b.G, 2, 3, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000))
	}
	s := []rune{}
	for i, k := 0, b.in(0, 8); i < k; i++ {
		s = append(s, b.anyRune())
	}
	return string(s)
}

func (g *G) anyRune() rune {
	switch g.n(6) {
	case 0:
		return rune(g.n(0x20))
	case 1, 2:
		return rune(g.in(0x20, 0x7f))
	case 3:
		return rune(g.in(0x80, 0x2ff))
	case 4:
		return pick[rune](g, 0x7f, 0x80, 0xa0, 0xad, 0xff, 0x100, 0x300, 0x5d0, 0x200b, 0x200d, 0x200e, 0x2028, 0x2029, 0x202e, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0xe0001, 0x10ffff)
	}
	for {
		r := rune(g.n(0x110000))
		if utf8.ValidRune(r) {
			return r
		}
	}
}

// similar names: those that wrong quoting might lead to
func similarNames(s string) []string {
	out := []string{s + "a", "a" + s, strings.ReplaceAll(s, `\`, ""), strings.ReplaceAll(s, `\`, `\\`), strings.Trim(s, `'"`), `"` + s + `"`,
		"'" + s + "'", strings.ReplaceAll(s, `"`, `\"`), strings.ReplaceAll(s, `'`, `\'`), strings.ReplaceAll(s, "\n", "n"), strings.ReplaceAll(s, "\n", `\n`),
		strings.ReplaceAll(s, "\n", ""), strings.ReplaceAll(s, "\r", "\n"), strings.ReplaceAll(s, "\r", ""), strings.ToLower(s), strings.ToUpper(s), strings.TrimSpace(s), strings.ReplaceAll(s, " ", ""),
		"", "a", "x", s + "\x00", s + " ", s + "\u200b", s + "\ufeff", s + "\ufffd", s + s, strings.TrimRight(s, "0"), strings.TrimLeft(s, "0"), strings.Title(s)}
	for i := range s {
		out = append(out, s[:i], s[i:])
		if i > 3 {
			break
		}
	}
	if q := fmt.Sprintf("%+q", s); len(q) > 2 {
		out = append(out, q[1:len(q)-1])
	}
	return out
}

// nested is a document with the names, and names like them
func nested(names []string) *N {
	if len(names) == 0 {
		return nArr(nNull())
	}
	ms := []member{}
	seen := map[string]bool{names[0]: true}
	alike := similarNames(names[0])
	for i, n := range alike {
		if i == len(alike)/2 {
			ms = append(ms, member{names[0], nested(names[1:])})
		}
		if !seen[n] && utf8.ValidString(n) {
			seen[n] = true
			ms = append(ms, member{n, nObj(member{names[len(names)-1], nNull()})})
		}
	}
	return nObj(ms...)
}

// named adds calls of the texts that the library makes of the names
func (b *B) named(names []string) {
	d := b.doc(nested(names))
	var texts []string
	pan, msg := guard(fmt.Sprintf("names %q", names), func() { texts = keyTexts(names) })
	if pan {
		texts = []string{"$ panic: " + msg}
	}
	ns := []Text{}
	for _, n := range names {
		ns = append(ns, cps(n))
	}
	for _, t := range dedup(texts) {
		b.s.Calls = append(b.s.Calls, &Call{T: b.text(strings.ToValidUTF8(t, "(not UTF-8)")), D: d, Ns: &ns})
	}
}

// sysNames has all characters in several places, and lists of odd names
func sysNames(y *sysB, deep bool) {
	var b *B
	k := 0
	put := func(names ...string) {
		if k%12 == 0 {
			y.next++
			b = &B{G: &G{}, s: &Session{ID: y.next}}
			y.sessions = append(y.sessions, b.s)
		}
		k++
		b.named(names)
	}
	top := rune(0x180)
	if deep {
		top = 0x800
	}
	for r := rune(0); r < top; r++ {
		put(string(r))
		put("a" + string(r) + "b")
		if r < 0x80 || deep {
			put(`\` + string(r))
			put(string(r) + `\`)
			put(string(r) + `"`)
			put("'" + string(r))
			put(string(r) + string(r) + "4142")
		}
	}
	all := append(append(append([]string{}, oddNames...), digitNames...), plainNames...)
	for i, n := range all {
		put(n)
		put(n, all[(i+7)%len(all)])
		put(all[(i+3)%len(all)], n, n)
		if deep {
			for _, m := range all {
				put(n, m)
			}
		}
	}
	for n := 0; n < 6; n++ {
		put(all[:n]...)
	}
	put(all[:30]...)
	// long lists
	for _, n := range []int{8, 16, 17, 31, 32, 33, 40, 64, 65, 100} {
		for _, nm := range []string{"", "a", "a b", "in", "0", "'"} {
			l := make([]string, n)
			for i := range l {
				l[i] = nm
			}
			put(l...)
		}
		l := make([]string, n)
		for i := range l {
			l[i] = all[(i*3+n)%len(all)]
		}
		put(l...)
	}
}
