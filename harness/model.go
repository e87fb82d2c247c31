package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	gojsonpath "github.com/bserdar/gojsonpath"
)

// Conversations with MapModel

func init() {
	kinds["model"] = kind{checkModel, falsifyModel}
	gens["C26"] = func(b *B) {
		b.s.Plan = "model"
		b.s.Docs, b.s.Texts = []Doc{}, []Text{}
	}
}

// V is a decoded JSON value as it is recorded
type V struct {
	K  string  `json:"k"`
	T  string  `json:"t,omitempty"` // Go type, and text of a number
	S  *Text   `json:"s,omitempty"`
	B  *bool   `json:"b,omitempty"`
	Ks *[]Text `json:"ks,omitempty"`
	Vs *[]*V   `json:"vs,omitempty"`
}

// record converts a decoded JSON value
func record(x any) *V {
	switch v := x.(type) {
	case nil:
		return &V{K: "null"}
	case bool:
		return &V{K: "bool", B: &v}
	case string:
		t := cps(v)
		return &V{K: "str", S: &t}
	case float64:
		return &V{K: "num", T: "float64 " + strconv.FormatFloat(v, 'g', -1, 64)}
	case json.Number:
		return &V{K: "num", T: "json.Number " + string(v)}
	case []any:
		vs := make([]*V, 0, len(v))
		for _, e := range v {
			vs = append(vs, record(e))
		}
		return &V{K: "arr", Vs: &vs}
	case map[string]any:
		names := make([]string, 0, len(v))
		for k := range v {
			names = append(names, k)
		}
		sort.Strings(names)
		ks := make([]Text, 0, len(v))
		vs := make([]*V, 0, len(v))
		for _, k := range names {
			ks = append(ks, cps(k))
			vs = append(vs, record(v[k]))
		}
		return &V{K: "obj", Ks: &ks, Vs: &vs}
	}
	return &V{K: "other", T: fmt.Sprintf("%T", x)}
}

func decode(text string, useNumber bool) any {
	d := json.NewDecoder(strings.NewReader(text))
	if useNumber {
		d.UseNumber()
	}
	var x any
	if err := d.Decode(&x); err != nil {
		fatal(fmt.Errorf("%w in %.300s", err, text))
	}
	return x
}

// write writes the document as JSON, with its members in order
func (n *N) write(b *bytes.Buffer) {
	switch n.K {
	case "obj":
		b.WriteByte('{')
		for i, k := range n.keys {
			if i > 0 {
				b.WriteByte(',')
			}
			j, _ := json.Marshal(k)
			b.Write(j)
			b.WriteByte(':')
			n.kids()[i].write(b)
		}
		b.WriteByte('}')
	case "arr":
		b.WriteByte('[')
		for i, c := range n.kids() {
			if i > 0 {
				b.WriteByte(',')
			}
			c.write(b)
		}
		b.WriteByte(']')
	default:
		j, err := json.Marshal(n.value())
		if err != nil {
			j = []byte("1e99")
		}
		b.Write(j)
	}
}

func (n *N) text() string {
	b := bytes.Buffer{}
	n.write(&b)
	return b.String()
}

type rebuildError string

// rebuild makes a value from nothing but the answers of the model
func rebuild(m gojsonpath.DocModel, x any) *V {
	switch m.Type(x) {
	case gojsonpath.ObjectNode:
		names := append([]string{}, m.Keys(x)...)
		sort.Strings(names)
		ks := []Text{}
		vs := []*V{}
		for _, k := range names {
			c, ok := m.Key(x, k)
			if !ok {
				return &V{K: "other", T: "a listed member was not found"}
			}
			ks = append(ks, cps(k))
			vs = append(vs, rebuild(m, c))
		}
		return &V{K: "obj", Ks: &ks, Vs: &vs}
	case gojsonpath.ArrayNode:
		vs := []*V{}
		for i := 0; i < m.Len(x); i++ {
			vs = append(vs, rebuild(m, m.Elem(x, i)))
		}
		return &V{K: "arr", Vs: &vs}
	}
	return record(m.Value(x))
}

// jsonText is any JSON text
func (b *B) jsonText() string {
	if b.p(.15) {
		return pick(b.G, `{"a":1,"a":null}`, `{"a":{"A":1,"a":2,"\u00e9":3,"e\u0301":4}}`, `[1e400,1]`[:0]+`[1e300,-0,-0.0,1E2,1.0,100,9007199254740993,12345678901234567890,0.1]`,
			`{"":{"":{"":null}}}`, `[[],{},"",0,false,null]`, `{"\ud83d\ude00":"\ud83d","\u0000":"\u0000","\u2028":"\\"}`, `"a"`, `null`, `0`, `true`, `[]`, `{}`, `[[[[[[[[]]]]]]]]`,
			`{"length":1,"constructor":2,"__proto__":3,"0":4,"-1":5,"*":6,"$":7,"@":8," ":9}`, `{"a":[null],"b":{"c":null},"c":[[null,null]]}`)
	}
	switch b.n(9) {
	case 8:
		// names that are almost the same
		ms := []member{}
		all := closeNames().keys
		for i, k := 0, b.in(2, len(all)); i < k; i++ {
			ms = append(ms, member{pickS(b.G, all), b.doc2(1, 2, b.smallScalar)})
		}
		return nObj(ms...).text()
	case 0:
		// odd names
		ms := []member{}
		for i, k := 0, b.in(1, 8); i < k; i++ {
			nm := b.anyName()
			if len(nm) > 60 {
				nm = nm[:3]
			}
			if !validUTF8(nm) {
				continue
			}
			ms = append(ms, member{nm, b.smallScalar()})
			if b.p(.4) {
				s := pickS(b.G, similarNames(nm))
				if validUTF8(s) {
					ms = append(ms, member{s, b.doc2(1, 2, b.smallScalar)})
				}
			}
		}
		return nObj(ms...).text()
	case 1:
		// many members
		ms := []member{}
		for i, k := 0, b.in(7, 150) + b.n(2)*b.n(2)*b.n(2)*b.n(2)*b.in(100, 500); i < k; i++ {
			ms = append(ms, member{pick(b.G, "", "k", "K", "é") + strconv.Itoa(i), b.smallScalar()})
		}
		return nObj(ms...).text()
	case 2:
		return b.wideArr(b.in(7, 300), b.smallScalar).text()
	case 3:
		return b.chain(b.in(5, 140), b.smallScalar).text()
	}
	return b.sampleDoc().text()
}

// runModel performs and records a random conversation with MapModel
func (s *Session) runModel(r *rand.Rand) {
	b := &B{G: &G{r: r}, s: s}
	b.pool(.2, .2, 4)
	s.Ev, s.Calls = nil, []*Call{}
	s.MDocs = nil
	type handle struct {
		m gojsonpath.DocModel
		v any
		// as it was recorded before
		n *V
	}
	var hs []handle
	var models []gojsonpath.MapModel
	h := &hist{s: s}
	for i, k := 0, b.in(1, 2); i < k; i++ {
		text := b.jsonText()
		x := decode(text, b.p(.3))
		models = append(models, gojsonpath.MapModel{Doc: x})
		s.MDocs = append(s.MDocs, record(x))
		s.Texts = append(s.Texts, cps(text))
	}
	root := func(d int) {
		var v any
		pan, msg := h.guard("Root", func() { v = models[d].Root() })
		h.ev("root", pan, Ev{"d": d + 1, "r": record(v), "msg": msg})
		hs = append(hs, handle{models[d], v, s.MDocs[d]})
	}
	for d := range models {
		root(d)
	}
	size := 0
	rich := b.p(.5)
	// the first documents and nodes that are still what they were
	firstDoc, first := 0, 0
	change := -1
	if b.p(.35) {
		change = b.in(5, 40)
	}
	for len(s.Ev) < 70 && size < 4000 {
		if len(s.Ev) >= change && change != -1 {
			// the documents change; they are other documents then
			change = -1
			firstDoc, first = len(models), len(hs)
			for _, m := range models[:firstDoc] {
				b.alter(m.Doc)
				models = append(models, m)
				s.MDocs = append(s.MDocs, record(m.Doc))
				root(len(models) - 1)
			}
		}
		if b.p(.03) {
			root(firstDoc + b.n(len(models)-firstDoc))
			continue
		}
		i := first + b.n(len(hs)-first)
		if rich || b.p(.4) {
			i = len(hs) - 1 - b.n(min(len(hs)-first, 3))
		}
		x := hs[i]
		give := func(v any, n *V, r *V) {
			size += len(fmt.Sprint(r.Ks)) / 4
			hs = append(hs, handle{x.m, v, n})
		}
		switch q := b.n(12); {
		case q == 0:
			var t gojsonpath.NodeType
			pan, msg := h.guard("Type", func() { t = x.m.Type(x.v) })
			h.ev("type", pan, Ev{"h": i + 1, "n": int(t), "msg": msg})
		case q == 1 && x.n.Vs != nil:
			var n int
			pan, msg := h.guard("Len", func() { n = x.m.Len(x.v) })
			h.ev("len", pan, Ev{"h": i + 1, "n": n, "msg": msg})
		case q == 2 && x.n.K == "obj":
			ks := []Text{}
			pan, msg := h.guard("Keys", func() {
				for _, k := range x.m.Keys(x.v) {
					ks = append(ks, cps(k))
				}
			})
			h.ev("keys", pan, Ev{"h": i + 1, "ks": ks, "msg": msg})
		case q < 9 && x.n.K == "obj":
			// a member, or almost
			nm := pickS(b.G, append([]string{b.name()}, oddNames...))
			if n := len(*x.n.Ks); n > 0 && b.p(.85) {
				nm = (*x.n.Ks)[b.n(n)].String()
				if b.p(.25) {
					nm = pickS(b.G, similarNames(nm))
				}
			}
			if !validUTF8(nm) {
				continue
			}
			var v any
			var ok bool
			pan, msg := h.guard("Key", func() { v, ok = x.m.Key(x.v, nm) })
			r := record(v)
			h.ev("key", pan, Ev{"h": i + 1, "nm": cps(nm), "ok": ok, "r": r, "msg": msg})
			at := -1
			for j, k := range *x.n.Ks {
				if k.String() == nm {
					at = j
				}
			}
			if (at != -1) != ok || pan {
				return // the specification rejects this
			}
			if ok {
				give(v, (*x.n.Vs)[at], r)
			}
		case q < 9 && x.n.K == "arr" && len(*x.n.Vs) > 0:
			j := pick(b.G, b.n(len(*x.n.Vs)), 0, len(*x.n.Vs)-1)
			var v any
			pan, msg := h.guard("Elem", func() { v = x.m.Elem(x.v, j) })
			r := record(v)
			h.ev("elem", pan, Ev{"h": i + 1, "i": j, "r": r, "msg": msg})
			if pan {
				return
			}
			give(v, (*x.n.Vs)[j], r)
		case q < 10 && x.n.Vs == nil:
			var v any
			pan, msg := h.guard("Value", func() { v = x.m.Value(x.v) })
			h.ev("value", pan, Ev{"h": i + 1, "r": record(v), "msg": msg})
		case q == 10:
			var v *V
			pan, msg := h.guard("rebuild", func() { v = rebuild(x.m, x.v) })
			if v == nil {
				v = &V{K: "other"}
			}
			h.ev("rebuilt", pan, Ev{"h": i + 1, "r": v, "msg": msg})
		case q == 11 && b.p(.3):
			// a search uses the model, too
			p, err := gojsonpath.Parse(pick(b.G, "$..*", "$..a", "$[?(@.a == 1)]", "$[-1:]", "$..[?(@)]", "$.*.*"))
			if err != nil {
				continue
			}
			h.guard("search", func() { gojsonpath.Find(x.m, p) })
			fallthrough
		case q == 11:
			d := firstDoc + b.n(len(models)-firstDoc)
			h.ev("doc", false, Ev{"d": d + 1, "r": record(models[d].Doc)})
		}
	}
	for d := firstDoc; d < len(models); d++ {
		h.ev("doc", false, Ev{"d": d + 1, "r": record(models[d].Doc)})
	}
}

// alter changes some of the members and elements of a value
func (b *B) alter(x any) {
	switch x := x.(type) {
	case map[string]any:
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b.alter(x[k])
		}
		if len(ks) > 0 && b.p(.6) {
			k := ks[b.n(len(ks))]
			v := x[k]
			switch b.n(3) {
			case 0:
				x[k] = "new"
				return
			case 1:
				v = nil
			}
			delete(x, k)
			if k = b.name(); validUTF8(k) {
				x[k] = v
			}
		}
	case []any:
		for _, v := range x {
			b.alter(v)
		}
		if len(x) > 0 && b.p(.4) {
			x[b.n(len(x))] = pick[any](b.G, nil, "new", []any{}, map[string]any{"a": true})
		}
	}
}

// modelBehaviour is a conversation with all its answers
type modelBehaviour struct {
	D   *tree `json:"d"`
	Log []struct {
		O string          `json:"o"`
		H int             `json:"h"`
		X json.RawMessage `json:"x"`
		R json.RawMessage `json:"r"`
	} `json:"log"`
}

func checkModel(r *replayer, raw json.RawMessage) (what, key string, err error) {
	var b modelBehaviour
	if err := json.Unmarshal(raw, &b); err != nil {
		return "", "", err
	}
	root := b.D.root()
	text := root.text()
	r.sample = map[string]any{"document": text, "questions": b.Log}
	for _, useNumber := range []bool{false, true} {
		x := decode(text, useNumber)
		// the nodes of another copy of the document, by identity
		var nodes []any
		var walk func(n *N, v any)
		walk = func(n *N, v any) {
			nodes = append(nodes, v)
			for i, c := range n.kids() {
				if n.K == "obj" {
					walk(c, v.(map[string]any)[n.keys[i]])
				} else {
					walk(c, v.([]any)[i])
				}
			}
		}
		copied := decode(text, useNumber)
		walk(root, copied)
		m := gojsonpath.MapModel{Doc: x}
		same := func(v any, id int) bool { return reflect.DeepEqual(v, nodes[id-1]) }
		pan, msg := guard("questions", func() {
			hs := []any{m.Root()}
			if !same(hs[0], 1) {
				what = "Root is not the document"
				return
			}
			for i, q := range b.Log {
				bad := func(got any) {
					what = fmt.Sprintf("question %d to the map model of %s: %s %s of node %d: got %v, the specification wants %s", i+1, text, q.O, q.X, q.H, got, q.R)
				}
				n := 0
				if q.O != "keys" {
					if err = json.Unmarshal(q.R, &n); err != nil {
						return
					}
				}
				h := hs[q.H-1]
				switch q.O {
				case "type":
					if got := m.Type(h); int(got) != n {
						bad(got)
					}
				case "len":
					if got := m.Len(h); got != n {
						bad(got)
					}
				case "keys":
					var ks []Text
					if err = json.Unmarshal(q.R, &ks); err != nil {
						return
					}
					want := []string{}
					for _, k := range ks {
						want = append(want, k.String())
					}
					got := append([]string{}, m.Keys(h)...)
					sort.Strings(got)
					sort.Strings(want)
					if !reflect.DeepEqual(got, want) {
						bad(fmt.Sprintf("%q", got))
					}
				case "key":
					var nm Text
					if err = json.Unmarshal(q.X, &nm); err != nil {
						return
					}
					got, ok := m.Key(h, nm.String())
					if ok != (n != 0) || (ok && !same(got, n)) {
						bad(fmt.Sprint(got, " ", ok))
						return
					}
					if ok {
						hs = append(hs, got)
					}
				case "elem":
					var j int
					if err = json.Unmarshal(q.X, &j); err != nil {
						return
					}
					got := m.Elem(h, j)
					if !same(got, n) {
						bad(got)
					}
					hs = append(hs, got)
				case "value":
					if got := m.Value(h); !same(got, n) {
						bad(got)
					}
				}
				if what != "" {
					return
				}
			}
			if !reflect.DeepEqual(x, copied) || !reflect.DeepEqual(m.Doc, copied) {
				what = fmt.Sprintf("the document %s was changed", text)
			}
		})
		if pan {
			what = "panic: " + msg + " in questions about " + text
		}
		if what != "" || err != nil {
			break
		}
	}
	k, _ := json.Marshal([]any{text, what})
	return what, string(k), err
}

func falsifyModel(raw json.RawMessage) (json.RawMessage, bool) {
	var b modelBehaviour
	if err := json.Unmarshal(raw, &b); err != nil {
		return nil, false
	}
	last := &b.Log[len(b.Log)-1]
	switch last.O {
	case "type":
		last.R = json.RawMessage(strings.NewReplacer("0", "1", "1", "2", "2", "0").Replace(string(last.R)))
	case "len":
		last.R = json.RawMessage(string(last.R) + "1")
	case "keys":
		last.R = json.RawMessage("[[120]]")
	case "key":
		if string(last.R) != "0" {
			last.R = json.RawMessage("0")
		} else {
			return nil, false
		}
	default:
		return nil, false
	}
	out, err := json.Marshal(b)
	return out, err == nil
}
