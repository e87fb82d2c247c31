package main

import "strings"

// longPaths are paths of up to max steps down a document that has objects
// and arrays in turn, with recursive descents at one or two places, and one
// at the end
func longPaths(max int, twice bool) []string {
	steps := [][]string{
		{"a", "[0]", "a", "[0]", "a", "[0]", "a", "[0]", "a"},
		{"*", "*", "*", "*", "*", "*", "*", "*", "*"},
		{"['a']", "*", "a", "[-2]", "[a,b]", "[:1]", "[?(@)]", "[0,1]", "*"},
	}
	dot := func(s string) string {
		if s[0] == '[' {
			return s
		}
		return "." + s
	}
	write := func(ss []string, rec map[int]bool) string {
		b := strings.Builder{}
		b.WriteByte('$')
		for i, s := range ss {
			if rec[i] {
				b.WriteString(".." + s)
			} else {
				b.WriteString(dot(s))
			}
		}
		if rec[len(ss)] {
			b.WriteString("..")
		}
		return b.String()
	}
	out := []string{}
	for _, ss := range steps {
		for n := 3; n <= max; n++ {
			out = append(out, write(ss[:n], nil))
			for i := 0; i <= n; i++ {
				out = append(out, write(ss[:n], map[int]bool{i: true}))
				for j := i + 1; twice && j <= n; j++ {
					out = append(out, write(ss[:n], map[int]bool{i: true, j: true}))
				}
			}
		}
	}
	return out
}

// longDoc has the nodes of longPaths, and few others
func longDoc() *N {
	n := nObj(member{"a", nInt(1)}, member{"b", nNull()})
	for i := 0; i < 4; i++ {
		n = nObj(member{"a", nArr(n, nInt(i))}, member{"b", nInt(-i)})
	}
	return n
}
