package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	gojsonpath "github.com/bserdar/gojsonpath"
)

// Text is a string as the specification sees it: code points
type Text []int

func cps(s string) Text {
	out := make(Text, 0, len(s))
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

func (t Text) String() string {
	b := strings.Builder{}
	for _, c := range t {
		b.WriteRune(rune(c))
	}
	return b.String()
}

// N is a document node, in the representation of the specification
type N struct {
	ID  int     `json:"id"`
	K   string  `json:"k"` // null bool num str obj arr
	B   *bool   `json:"b,omitempty"`
	Int *bool   `json:"int,omitempty"`
	Neg *bool   `json:"neg,omitempty"`
	Ds  *[]int  `json:"ds,omitempty"`
	E   *int    `json:"e,omitempty"`
	S   *Text   `json:"s,omitempty"`
	Ks  *[]Text `json:"ks,omitempty"`
	Vs  *[]*N   `json:"-"`
	Cs  *[]int  `json:"cs,omitempty"` // identities of vs

	str  string // s
	keys []string
	num  any // int or float64
	ix   map[string]int
}

// Doc is a document. As JSON it is the list of its nodes, where node i has
// identity i, and the root is the first
type Doc struct{ Root *N }

func (d Doc) MarshalJSON() ([]byte, error) {
	var all []*N
	var walk func(*N)
	walk = func(n *N) {
		all = append(all, n)
		if n.ID != len(all) {
			panic("document is not numbered")
		}
		if n.Vs != nil {
			cs := make([]int, 0, len(n.kids()))
			for _, c := range n.kids() {
				cs = append(cs, c.ID)
			}
			n.Cs = &cs
		}
		for _, c := range n.kids() {
			walk(c)
		}
	}
	walk(d.Root)
	return json.Marshal(all)
}

func (d *Doc) UnmarshalJSON(in []byte) error {
	var all []*N
	if err := json.Unmarshal(in, &all); err != nil {
		return err
	}
	for _, n := range all {
		if n.Cs != nil {
			vs := make([]*N, 0, len(*n.Cs))
			for _, c := range *n.Cs {
				vs = append(vs, all[c-1])
			}
			n.Vs = &vs
		}
	}
	complete(all[0])
	d.Root = all[0]
	return nil
}

func ptr[T any](x T) *T { return &x }

func nNull() *N        { return &N{K: "null"} }
func nBool(b bool) *N  { return &N{K: "bool", B: &b} }
func nStr(s string) *N { t := cps(s); return &N{K: "str", S: &t, str: s} }
func nArr(vs ...*N) *N {
	if vs == nil {
		vs = []*N{}
	}
	return &N{K: "arr", Vs: &vs}
}

type member struct {
	k string
	v *N
}

func nObj(ms ...member) *N {
	ks := []Text{}
	vs := []*N{}
	keys := []string{}
	seen := map[string]bool{}
	for _, m := range ms {
		if seen[m.k] {
			continue
		}
		seen[m.k] = true
		ks = append(ks, cps(m.k))
		keys = append(keys, m.k)
		vs = append(vs, m.v)
	}
	n := &N{K: "obj", Ks: &ks, Vs: &vs, keys: keys}
	n.index()
	return n
}

func (n *N) index() {
	n.ix = map[string]int{}
	for i, k := range n.keys {
		n.ix[k] = i
	}
}

// decimal returns digits and exponent of the text of a number
func decimal(s string) (neg bool, ds []int, e int) {
	ds = []int{}
	if strings.HasPrefix(s, "-") {
		neg = true
		s = s[1:]
	}
	if i := strings.IndexAny(s, "eE"); i != -1 {
		e, _ = strconv.Atoi(s[i+1:])
		s = s[:i]
	}
	if i := strings.Index(s, "."); i != -1 {
		e -= len(s) - i - 1
		s = s[:i] + s[i+1:]
	}
	for _, c := range s {
		ds = append(ds, int(c-'0'))
	}
	for len(ds) > 0 && ds[0] == 0 {
		ds = ds[1:]
	}
	for len(ds) > 0 && ds[len(ds)-1] == 0 {
		ds = ds[:len(ds)-1]
		e++
	}
	if len(ds) == 0 {
		neg, e = false, 0
	}
	return
}

func nInt(i int) *N {
	neg, ds, e := decimal(strconv.Itoa(i))
	return &N{K: "num", Int: ptr(true), Neg: &neg, Ds: &ds, E: &e, num: i}
}

// The specification sees the shortest decimal of the float
func nFlt(f float64) *N {
	neg, ds, e := decimal(strconv.FormatFloat(f, 'e', -1, 64))
	return &N{K: "num", Int: ptr(false), Neg: &neg, Ds: &ds, E: &e, num: f}
}

func (n *N) kids() []*N {
	if n.Vs == nil {
		return nil
	}
	return *n.Vs
}

// number assigns identities in document order
func number(root *N) {
	id := 0
	var walk func(*N)
	walk = func(n *N) {
		id++
		n.ID = id
		for _, c := range n.kids() {
			walk(c)
		}
	}
	walk(root)
}

// complete rebuilds the Go side of nodes read from JSON
func complete(n *N) {
	switch n.K {
	case "str":
		n.str = n.S.String()
	case "num":
		s := ""
		if *n.Neg {
			s = "-"
		}
		for _, d := range *n.Ds {
			s += string(rune('0' + d))
		}
		if len(*n.Ds) == 0 {
			s = "0"
		}
		if *n.Int {
			b, ok := new(big.Int).SetString(s+strings.Repeat("0", *n.E), 10)
			if !ok || !b.IsInt64() {
				panic("bad int " + s)
			}
			n.num = int(b.Int64())
		} else {
			f, err := strconv.ParseFloat(s+"e"+strconv.Itoa(*n.E), 64)
			if err != nil && !math.IsInf(f, 0) {
				panic(err)
			}
			n.num = f
		}
	case "obj":
		n.keys = nil
		for _, k := range *n.Ks {
			n.keys = append(n.keys, k.String())
		}
		n.index()
	}
	for _, c := range n.kids() {
		complete(c)
	}
}

func (n *N) kind() gojsonpath.NodeType {
	switch n.K {
	case "obj":
		return gojsonpath.ObjectNode
	case "arr":
		return gojsonpath.ArrayNode
	}
	return gojsonpath.ValueNode
}

func (n *N) value() any {
	switch n.K {
	case "bool":
		return *n.B
	case "num":
		return n.num
	case "str":
		return n.str
	}
	return nil
}

// goValue is the node as decoded JSON
func (n *N) goValue() any {
	switch n.K {
	case "obj":
		m := make(map[string]any, len(n.keys))
		for i, k := range n.keys {
			m[k] = n.kids()[i].goValue()
		}
		return m
	case "arr":
		a := make([]any, 0, len(n.kids()))
		for _, c := range n.kids() {
			a = append(a, c.goValue())
		}
		return a
	}
	return n.value()
}

func (n *N) show() string {
	b, err := json.Marshal(n.goValue())
	if err != nil {
		return fmt.Sprint(n.goValue())
	}
	return string(b)
}

// dump shows all of the node, in order
func (n *N) dump() string {
	b := strings.Builder{}
	var walk func(*N)
	walk = func(n *N) {
		fmt.Fprintf(&b, "%s(", n.K)
		if n.K != "arr" && n.K != "obj" {
			fmt.Fprintf(&b, "%T %#v", n.value(), n.value())
		}
		for i, c := range n.kids() {
			if n.K == "obj" {
				fmt.Fprintf(&b, "%q %q %d: ", n.keys[i], (*n.Ks)[i].String(), n.ix[n.keys[i]])
			}
			walk(c)
			b.WriteString(", ")
		}
		b.WriteString(")")
	}
	walk(n)
	return b.String()
}

// deepEqual treats nodes as equal when they have the same type and value
func deepEqual(a, b any) bool {
	return reflect.DeepEqual(a, b)
}

///////////////////////////////////////////////////////////////////
// Models

// unode is a node that cannot be compared or used as a map key
type unode struct {
	n    *N
	junk []int
}

// strictModel presents nodes in document order, and records calls
// that are outside of the contract of DocModel
type strictModel struct {
	root  *N
	broke string
}

func (m *strictModel) bad(f string, n any, args ...any) {
	if m.broke == "" {
		k := "?"
		if u, ok := n.(unode); ok {
			k = u.n.K
		}
		m.broke = fmt.Sprint(f, " on ", k, " node ", args)
	}
}
func (m *strictModel) Root() any { return unode{n: m.root} }
func (m *strictModel) Type(x any) gojsonpath.NodeType {
	u, ok := x.(unode)
	if !ok {
		m.bad("Type", x)
		return gojsonpath.ValueNode
	}
	return u.n.kind()
}
func (m *strictModel) Len(x any) int {
	u, ok := x.(unode)
	if !ok || u.n.kind() == gojsonpath.ValueNode {
		m.bad("Len", x)
		return 0
	}
	return len(u.n.kids())
}
func (m *strictModel) Key(x any, key string) (any, bool) {
	u, ok := x.(unode)
	if !ok || u.n.kind() != gojsonpath.ObjectNode {
		m.bad("Key", x, key)
		return nil, false
	}
	if i, ok := u.n.ix[key]; ok {
		return unode{n: u.n.kids()[i]}, true
	}
	return nil, false
}
func (m *strictModel) Keys(x any) []string {
	u, ok := x.(unode)
	if !ok || u.n.kind() != gojsonpath.ObjectNode {
		m.bad("Keys", x)
		return nil
	}
	return append([]string(nil), u.n.keys...)
}
func (m *strictModel) Elem(x any, i int) any {
	u, ok := x.(unode)
	if !ok || u.n.kind() != gojsonpath.ArrayNode {
		m.bad("Elem", x, i)
		return nil
	}
	if i < 0 || i >= len(u.n.kids()) {
		m.bad("Elem", x, i)
		panic(fmt.Sprintf("Elem %d of %d", i, len(u.n.kids())))
	}
	return unode{n: u.n.kids()[i]}
}
func (m *strictModel) Value(x any) any {
	u, ok := x.(unode)
	if !ok {
		m.bad("Value", x)
		return nil
	}
	if u.n.kind() != gojsonpath.ValueNode {
		m.bad("Value", x)
		return u // not a value
	}
	return u.n.value()
}

// ptrModel presents nodes in document order, as pointers, but one of them
// as nil if none is set
type ptrModel struct{ root, none *N }

func (m ptrModel) of(x any) *N {
	if x == nil && m.none != nil {
		return m.none
	}
	return x.(*N)
}
func (m ptrModel) node(n *N) any {
	if n == m.none {
		return nil
	}
	return n
}
func (m ptrModel) Root() any                      { return m.node(m.root) }
func (m ptrModel) Type(x any) gojsonpath.NodeType { return m.of(x).kind() }
func (m ptrModel) Len(x any) int                  { return len(m.of(x).kids()) }
func (m ptrModel) Key(x any, key string) (any, bool) {
	n := m.of(x)
	if i, ok := n.ix[key]; ok {
		return m.node(n.kids()[i]), true
	}
	return nil, false
}
func (m ptrModel) Keys(x any) []string   { return m.of(x).keys }
func (m ptrModel) Elem(x any, i int) any { return m.node(m.of(x).kids()[i]) }
func (m ptrModel) Value(x any) any       { return m.of(x).value() }

// withNil is the model of a document that presents its node of number k as nil
func withNil(root *N, k int) ptrModel {
	var all []*N
	var walk func(*N)
	walk = func(n *N) {
		all = append(all, n)
		for _, c := range n.kids() {
			walk(c)
		}
	}
	walk(root)
	return ptrModel{root, all[k%len(all)]}
}

// inode is a node of a model that represents equal subtrees by equal
// (and comparable) nodes
type inode struct{ n *N }

// valModel presents nodes in document order. Nodes of equal subtrees are
// equal
type valModel struct {
	root *N
	rep  map[*N]*N
}

func newValModel(root *N) *valModel {
	m := &valModel{root: root, rep: map[*N]*N{}}
	seen := map[string]*N{}
	var walk func(n *N) string
	walk = func(n *N) string {
		b := strings.Builder{}
		switch n.K {
		case "obj", "arr":
			b.WriteString(n.K)
			for i, c := range n.kids() {
				if n.K == "obj" {
					fmt.Fprintf(&b, "%q:", n.keys[i])
				}
				b.WriteString(walk(c))
				b.WriteString(",")
			}
			b.WriteString(";")
		default:
			fmt.Fprintf(&b, "%T %#v", n.value(), n.value())
		}
		k := b.String()
		if len(k) > 200 {
			h := sha256.Sum256([]byte(k))
			k = string(h[:])
		}
		if r, ok := seen[k]; ok {
			m.rep[n] = r
		} else {
			seen[k] = n
			m.rep[n] = n
		}
		return k
	}
	walk(root)
	return m
}

func (m *valModel) node(n *N) any                  { return inode{m.rep[n]} }
func (m *valModel) Root() any                      { return m.node(m.root) }
func (m *valModel) Type(x any) gojsonpath.NodeType { return x.(inode).n.kind() }
func (m *valModel) Len(x any) int                  { return len(x.(inode).n.kids()) }
func (m *valModel) Key(x any, key string) (any, bool) {
	n := x.(inode).n
	if i, ok := n.ix[key]; ok {
		return m.node(n.kids()[i]), true
	}
	return nil, false
}
func (m *valModel) Keys(x any) []string   { return append([]string(nil), x.(inode).n.keys...) }
func (m *valModel) Elem(x any, i int) any { return m.node(x.(inode).n.kids()[i]) }
func (m *valModel) Value(x any) any       { return x.(inode).n.value() }

// follow finds the node of the document tree that a reported path
// leads to. Returns nil if the path does not exist
func follow(root *N, p gojsonpath.DocPath) *N {
	n := root
	if p.Len() == 0 {
		return nil
	}
	for i := 1; i < len(p.P); i++ {
		seg := p.P[i]
		switch n.kind() {
		case gojsonpath.ObjectNode:
			j, ok := n.ix[seg.Name]
			if !ok {
				return nil
			}
			n = n.kids()[j]
		case gojsonpath.ArrayNode:
			if seg.Index < 0 || seg.Index >= len(n.kids()) {
				return nil
			}
			n = n.kids()[seg.Index]
		default:
			return nil
		}
	}
	return n
}

// nodeID identifies a node reported by the library
func nodeID(root *N, node any, p *gojsonpath.DocPath) int {
	switch x := node.(type) {
	case unode:
		return x.n.ID
	case *N:
		return x.ID
	}
	if p == nil {
		return -1
	}
	n := follow(root, *p)
	if x, ok := node.(inode); ok {
		if n == nil || !deepEqual(n.goValue(), x.n.goValue()) {
			return -1
		}
		return n.ID
	}
	if n == nil || !deepEqual(n.goValue(), node) {
		return -1
	}
	return n.ID
}

func sorted(ids []int) []int {
	out := append([]int(nil), ids...)
	sort.Ints(out)
	return out
}

func validUTF8(s string) bool { return utf8.ValidString(s) }
