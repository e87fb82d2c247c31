package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
	"unicode/utf8"

	gojsonpath "github.com/bserdar/gojsonpath"
)

// Replay of behaviours that TLC printed. Every kind of behaviour has a
// function that performs it on the library and tells how the library
// differs from it, and one that falsifies a behaviour: the replay must
// notice that, or it is worth nothing

type kind struct {
	check   func(r *replayer, raw json.RawMessage) (what, key string, err error)
	falsify func(raw json.RawMessage) (json.RawMessage, bool)
}

var kinds = map[string]kind{
	"calls": {checkCall, falsifyCall},
	"texts": {checkText, falsifyText},
	"keys":  {checkKeys, falsifyKeys},
}

type replayer struct {
	parsed   map[string]gojsonpath.Path
	errs     map[string]error
	seen     int
	contract bool
	// description of the last behaviour
	sample any
}

func replay(kindName, in, out string, contract bool, current func(int)) error {
	k, ok := kinds[kindName]
	if !ok {
		return fmt.Errorf("kind %s", kindName)
	}
	f, err := os.Open(in)
	if err != nil {
		return err
	}
	defer f.Close()
	l := openLines(out)
	r := &replayer{parsed: map[string]gojsonpath.Path{}, errs: map[string]error{}, contract: contract}
	rd := bufio.NewReaderSize(f, 1<<20)
	total, bad, caught := 0, 0, 0
	var samples []any
	for {
		line, rerr := rd.ReadString('\n')
		if strings.HasPrefix(line, `"{`) {
			var s string
			if err := json.Unmarshal([]byte(line), &s); err != nil {
				return fmt.Errorf("%w in %.200s", err, line)
			}
			total++
			current(total)
			raw := json.RawMessage(s)
			what, key, err := k.check(r, raw)
			if err != nil {
				return fmt.Errorf("%w in %.300s", err, s)
			}
			if what != "" {
				bad++
				if bad <= 100 {
					l.put(map[string]any{"behaviour": raw, "what": what, "key": key})
				}
			} else if caught < 5 {
				if wrong, ok := k.falsify(raw); ok {
					what, _, err := k.check(r, wrong)
					if err != nil {
						return fmt.Errorf("%w in %.300s", err, wrong)
					}
					if what == "" {
						return fmt.Errorf("the falsified behaviour was accepted: %.500s", wrong)
					}
					caught++
				}
			}
			if total == 1 || total == 500 || total == 5000 {
				samples = append(samples, r.sample)
			}
		}
		if rerr != nil {
			break
		}
	}
	if total > 0 && caught == 0 && bad == 0 {
		return fmt.Errorf("no behaviour that could be falsified")
	}
	l.put(map[string]any{"total": total, "bad": bad, "samples": samples})
	l.close()
	return nil
}

func (r *replayer) parse(text string) (gojsonpath.Path, error) {
	if p, ok := r.parsed[text]; ok {
		return p, nil
	}
	if e, ok := r.errs[text]; ok {
		return gojsonpath.Path{}, e
	}
	p, err := gojsonpath.Parse(text)
	if err != nil {
		r.errs[text] = err
	} else {
		r.parsed[text] = p
	}
	return p, err
}

// tree is a nested document of the specification
type tree struct {
	N
	Vs []*tree `json:"vs"`
}

func (t *tree) node() *N {
	n := t.N
	if n.K == "obj" || n.K == "arr" {
		vs := make([]*N, 0, len(t.Vs))
		for _, v := range t.Vs {
			vs = append(vs, v.node())
		}
		n.Vs = &vs
	}
	if n.K == "obj" && n.Ks == nil {
		n.Ks = &[]Text{}
	}
	return &n
}

func (t *tree) root() *N {
	n := t.node()
	number(n)
	complete(n)
	return n
}

// callBehaviour is a text applied to a document, and the positions of
// the selected nodes. st is ok if missing, rej if the text must be
// refused, and unspec if nothing is known about it
type callBehaviour struct {
	D  *tree   `json:"d,omitempty"`
	T  Text    `json:"t"`
	P  [][]int `json:"p"`
	St string  `json:"st,omitempty"`
}

func segsAlong(root *N, pos []int) (id int, out []any) {
	n := root
	out = append(out, map[string]any{"id": n.ID, "ty": int(n.kind()), "nm": Text{}, "ix": 0})
	for _, p := range pos {
		c := n.kids()[p-1]
		nm, ix := Text{}, 0
		if n.K == "obj" {
			nm = (*n.Ks)[p-1]
		} else {
			ix = p - 1
		}
		out = append(out, map[string]any{"id": c.ID, "ty": int(c.kind()), "nm": nm, "ix": ix})
		n = c
	}
	return n.ID, out
}

func checkCall(r *replayer, raw json.RawMessage) (string, string, error) {
	var b callBehaviour
	if err := json.Unmarshal(raw, &b); err != nil {
		return "", "", err
	}
	root := nNull()
	root.ID = 1
	if b.D != nil {
		root = b.D.root()
	}
	what, key := r.call(root, b.D != nil, b.T, b.St, b.P)
	return what, key, nil
}

// call applies a text to a document
func (r *replayer) call(root *N, hasDoc bool, text Text, st string, pos [][]int) (string, string) {
	r.seen++
	s := &Session{ID: r.seen, Docs: []Doc{{root}}, Texts: []Text{text}}
	x := Exp{St: st, Ids: []int{}}
	var want []any
	for _, p := range pos {
		id, sg := segsAlong(root, p)
		x.Ids = append(x.Ids, id)
		want = append(want, any(sg))
	}
	r.sample = map[string]any{"path": text.String(), "document": root.show(), "selected": x.Ids, "status": st}
	e := &env{parsed: r.parsed, errs: r.errs, models: map[string]gojsonpath.DocModel{}}
	hows := []string{"strict/search", "ptr/search", "map/search", "strict/find"}
	if _, ok := r.parsed[text.String()]; !ok || r.seen%16 == 0 {
		hows = append(hows, "ptr/paf")
	}
	if r.seen%4 == 0 {
		hows = append(hows, "val/search", "val/find", "map/find")
	}
	if !hasDoc {
		hows = []string{"strict/search", "strict/paf"}
	}
	for _, h := range hows {
		withSegs := h == "strict/search" || h == "ptr/search" || h == "val/search"
		o := s.one(e, 1, 1, h, withSegs)
		fail := func(why string) (string, string) {
			k, _ := json.Marshal([]any{text.String(), json.RawMessage(root.show())})
			got := fmt.Sprint("nodes ", o.Ids)
			if o.Err {
				got = "error: " + o.Msg
			}
			if o.Pan {
				got = "panic: " + o.Msg
			}
			return fmt.Sprintf("path %q on %s (%s): got %s, the specification wants %s", text.String(), root.show(), h, got, why), string(k)
		}
		if ok, why := x.same(o); !ok {
			return fail(why)
		}
		if !hasDoc || x.St == "rej" || x.St == "unspec" {
			continue
		}
		if withSegs && !reflect.DeepEqual(normal(o.Segs), normal(want)) {
			return fail(fmt.Sprint("paths ", want, " and not ", o.Segs))
		}
		if r.contract && o.Broke != "" {
			return fail("no calls outside of the contract: " + o.Broke)
		}
	}
	return "", ""
}

// keysBehaviour is a list of names, and the position of the member that
// they address
type keysBehaviour struct {
	Ns []Text  `json:"ns"`
	D  *tree   `json:"d"`
	P  [][]int `json:"p"`
}

// texts that address the member with these names
func keyTexts(names []string) []string {
	out := []string{gojsonpath.Join(names...)}
	dots, brackets, mixed := "$", "$", "$"
	for i, n := range names {
		k := gojsonpath.MakeKeyString(n)
		dots += "." + k
		brackets += "[" + k + "]"
		if i%2 == 0 {
			mixed += "[ " + k + " ]"
		} else {
			mixed += " . " + k
		}
	}
	out = append(out, dots, brackets)
	if len(names) > 1 {
		out = append(out, mixed)
	}
	return out
}

func checkKeys(r *replayer, raw json.RawMessage) (string, string, error) {
	var b keysBehaviour
	if err := json.Unmarshal(raw, &b); err != nil {
		return "", "", err
	}
	var names []string
	for _, n := range b.Ns {
		names = append(names, n.String())
	}
	var texts []string
	if pan, msg := guard(fmt.Sprintf("names %q", names), func() { texts = keyTexts(names) }); pan {
		return fmt.Sprintf("quoting %q: panic: %s", names, msg), fmt.Sprintf("names %q", names), nil
	}
	for _, t := range texts {
		// (the document is made again: some models hand out what they have)
		if what, key := r.call(b.D.root(), true, cps(t), "", b.P); what != "" {
			return fmt.Sprintf("names %q: %s", names, what), key, nil
		}
		if !utf8.ValidString(t) {
			return fmt.Sprintf("names %q: the path is not valid UTF-8", names), fmt.Sprintf("names %q", names), nil
		}
	}
	r.sample = map[string]any{"names": names, "paths": texts}
	return "", "", nil
}

func falsifyKeys(raw json.RawMessage) (json.RawMessage, bool) {
	var b keysBehaviour
	if err := json.Unmarshal(raw, &b); err != nil || len(b.Ns) == 0 {
		return nil, false
	}
	b.Ns[len(b.Ns)-1] = append(b.Ns[len(b.Ns)-1], 'y', 'z')
	out, err := json.Marshal(b)
	return out, err == nil
}

func normal(x []any) any {
	if len(x) == 0 {
		return nil
	}
	return x
}

func falsifyCall(raw json.RawMessage) (json.RawMessage, bool) {
	var b callBehaviour
	if err := json.Unmarshal(raw, &b); err != nil {
		return nil, false
	}
	switch {
	case b.St == "rej" || b.St == "bad":
		b.St = ""
	case b.St == "unspec" || b.D == nil:
		return nil, false
	case len(b.P) > 0:
		b.P = b.P[1:]
	default:
		return nil, false
	}
	out, err := json.Marshal(b)
	return out, err == nil
}

// textBehaviour is a text and what Parse has to say about it
type textBehaviour struct {
	T  Text   `json:"t"`
	St string `json:"st"` // accept rej unspec
}

func checkText(r *replayer, raw json.RawMessage) (string, string, error) {
	var b textBehaviour
	if err := json.Unmarshal(raw, &b); err != nil {
		return "", "", err
	}
	text := b.T.String()
	r.sample = map[string]any{"text": text, "verdict": b.St}
	var perr error
	pan, msg := guard(fmt.Sprintf("text %q", text), func() {
		_, perr = gojsonpath.Parse(text)
	})
	got := "accepted"
	if perr != nil {
		got = "refused: " + perr.Error()
	}
	what := ""
	switch {
	case pan:
		got, what = "panic: "+msg, "returns"
	case b.St == "rej" && perr == nil:
		what = "must be refused"
	case b.St == "accept" && perr != nil:
		what = "must be accepted"
	}
	if what == "" {
		return "", "", nil
	}
	k, _ := json.Marshal([]any{text, nil})
	return fmt.Sprintf("Parse(%q): got %s, the specification wants: %s", text, got, what), string(k), nil
}

func falsifyText(raw json.RawMessage) (json.RawMessage, bool) {
	var b textBehaviour
	if err := json.Unmarshal(raw, &b); err != nil {
		return nil, false
	}
	switch b.St {
	case "rej":
		b.St = "accept"
	case "accept":
		b.St = "rej"
	default:
		return nil, false
	}
	out, err := json.Marshal(b)
	return out, err == nil
}
