package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	gojsonpath "github.com/bserdar/gojsonpath"
)

func init() {
	kinds["docpaths"] = kind{checkDocPaths, falsifyDocPaths}
	kinds["builders"] = kind{checkBuilders, falsifyBuilders}
	kinds["weave"] = kind{checkWeave, falsifyWeave}
}

// docPathsBehaviour: operations on document paths. Handle 1 is the empty
// path, handle i+1 the result of operation i
type docPathsBehaviour struct {
	D   *tree `json:"d"`
	T   Text  `json:"t"`
	Ops []struct {
		O string `json:"o"`
		H int    `json:"h"`
		S *Seg   `json:"s,omitempty"`
	} `json:"ops"`
	R [][]Seg `json:"r"`
}

type stopReplay struct{ what string }

func checkDocPaths(r *replayer, raw json.RawMessage) (what, key string, err error) {
	var b docPathsBehaviour
	if err := json.Unmarshal(raw, &b); err != nil {
		return "", "", err
	}
	root := b.D.root()
	model := ptrModel{root: root}
	path, err := r.parse(b.T.String())
	if err != nil {
		return "the path was refused", "", nil
	}
	r.sample = map[string]any{"document": root.show(), "search": b.T.String(), "operations": b.Ops}
	handles := []gojsonpath.DocPath{{}}
	at := 0
	// all handles must be what they were made as
	compare := func() {
		for i, h := range handles {
			got := segsOf(root, h)
			if len(got) == 0 && len(b.R[i]) == 0 {
				continue
			}
			if !reflect.DeepEqual(got, b.R[i]) {
				panic(stopReplay{fmt.Sprintf("after operation %d of %s, path %d is %v, the specification wants %v", at, opsOf(raw), i, got, b.R[i])})
			}
			if n := h.Len(); n != len(b.R[i]) {
				panic(stopReplay{fmt.Sprintf("Len of path %d is %d", i, n)})
			}
			if l := h.Last(); l.Name != b.R[i][len(got)-1].Nm.String() || nodeID(root, l.Node, &h) != got[len(got)-1].ID {
				panic(stopReplay{fmt.Sprintf("Last of path %d is %v", i, l)})
			}
		}
	}
	// perform does operations up to the next report of the search
	perform := func() {
		for at < len(b.Ops) && b.Ops[at].O != "deliver" {
			o := b.Ops[at]
			at++
			h := handles[o.H-1]
			var p gojsonpath.DocPath
			switch o.O {
			case "pop":
				p = h.Pop()
			case "key":
				p = h.Key(o.S.Nm.String(), &N{ID: o.S.ID}, gojsonpath.NodeType(o.S.Ty))
			case "index":
				p = h.Index(o.S.Ix, &N{ID: o.S.ID}, gojsonpath.NodeType(o.S.Ty))
			case "push":
				p = h.Push(gojsonpath.Segment{Node: &N{ID: o.S.ID}, Type: gojsonpath.NodeType(o.S.Ty), Name: o.S.Nm.String(), Index: o.S.Ix})
			}
			handles = append(handles, p)
			compare()
		}
	}
	pan, msg := guard("operations on paths", func() {
		defer func() {
			if x := recover(); x != nil {
				if s, ok := x.(stopReplay); ok {
					what = s.what
					return
				}
				panic(x)
			}
		}()
		perform()
		if at < len(b.Ops) {
			if err := gojsonpath.Search(model, path, func(p gojsonpath.DocPath) {
				if at < len(b.Ops) {
					at++
					handles = append(handles, p)
					compare()
					perform()
				} else {
					compare()
				}
			}); err != nil {
				panic(err)
			}
			compare()
			if at < len(b.Ops) {
				panic(stopReplay{fmt.Sprintf("the search reported only some paths: %d of operations %s", at, opsOf(raw))})
			}
		}
	})
	if pan {
		what = "panic: " + msg + " in " + opsOf(raw)
	}
	return what, opsOf(raw), nil
}

func opsOf(raw json.RawMessage) string {
	var b struct {
		Ops json.RawMessage `json:"ops"`
	}
	json.Unmarshal(raw, &b)
	if len(b.Ops) > 600 {
		return string(b.Ops[:600])
	}
	return string(b.Ops)
}

func falsifyDocPaths(raw json.RawMessage) (json.RawMessage, bool) {
	var b docPathsBehaviour
	if err := json.Unmarshal(raw, &b); err != nil {
		return nil, false
	}
	for i := range b.R {
		if len(b.R[i]) > 1 {
			b.R[i][0].ID += 1000
			out, err := json.Marshal(b)
			return out, err == nil
		}
	}
	return nil, false
}

// buildersBehaviour: operations on built paths. Handle i is the result of
// operation i. R has what each of them selects in each document, or
// nothing if that is not specified
type buildersBehaviour struct {
	Ds  []*tree `json:"ds"`
	Ops []struct {
		O  string `json:"o"`
		T  Text   `json:"t"`
		Ix int    `json:"ix"`
		Hs []int  `json:"hs"`
	} `json:"ops"`
	R []struct {
		Known bool      `json:"known"`
		P     [][][]int `json:"p"`
	} `json:"r"`
}

func checkBuilders(r *replayer, raw json.RawMessage) (what, key string, err error) {
	var b buildersBehaviour
	if err := json.Unmarshal(raw, &b); err != nil {
		return "", "", err
	}
	var roots []*N
	var models []gojsonpath.DocModel
	for _, d := range b.Ds {
		n := d.root()
		roots = append(roots, n)
		models = append(models, ptrModel{root: n})
	}
	r.sample = map[string]any{"operations": b.Ops, "document": roots[0].show()}
	var handles []gojsonpath.Path
	first := map[[2]int][]int{}
	evaluate := func(i, d int) []int {
		ids := []int{}
		if err := gojsonpath.Search(models[d], handles[i], func(p gojsonpath.DocPath) {
			ids = append(ids, nodeID(roots[d], p.Last().Node, &p))
		}); err != nil {
			panic(stopReplay{fmt.Sprintf("path %d of %s: error %v", i+1, opsOf(raw), err)})
		}
		return ids
	}
	pan, msg := guard("path builders", func() {
		defer func() {
			if x := recover(); x != nil {
				if s, ok := x.(stopReplay); ok {
					what = s.what
					return
				}
				panic(x)
			}
		}()
		for k, o := range b.Ops {
			var p gojsonpath.Path
			switch o.O {
			case "root":
				p = gojsonpath.SelectRootPath
			case "cur":
				p = gojsonpath.SelectCurrentPath
			case "wild":
				p = gojsonpath.WildcardPath
			case "empty":
			case "keysel":
				p = gojsonpath.KeySelectorPath(o.T.String())
			case "indexsel":
				p = gojsonpath.IndexSelectorPath(o.Ix)
			case "parse":
				var err error
				p, err = gojsonpath.Parse(o.T.String())
				if err != nil {
					panic(stopReplay{fmt.Sprintf("Parse(%q): %v", o.T.String(), err)})
				}
			case "rec":
				p = gojsonpath.RecursiveDescent(handles[o.Hs[0]-1])
			case "append":
				var ps []gojsonpath.Path
				for _, h := range o.Hs {
					ps = append(ps, handles[h-1])
				}
				p = gojsonpath.Append(ps...)
			default:
				panic("operation " + o.O)
			}
			handles = append(handles, p)
			if k < len(b.Ops)-1 && b.Ops[k+1].O != "rec" && b.Ops[k+1].O != "append" {
				continue
			}
			for i := range handles {
				for d := range roots {
					ids := evaluate(i, d)
					if b.R[i].Known {
						want := []int{}
						for _, p := range b.R[i].P[d] {
							id, _ := segsAlong(roots[d], p)
							want = append(want, id)
						}
						if !reflect.DeepEqual(ids, want) {
							panic(stopReplay{fmt.Sprintf("after operation %d of %s, path %d selects %v in %s, the specification wants %v", k+1, opsOf(raw), i+1, ids, roots[d].show(), want)})
						}
					} else if f, ok := first[[2]int{i, d}]; !ok {
						first[[2]int{i, d}] = ids
					} else if !reflect.DeepEqual(f, ids) {
						panic(stopReplay{fmt.Sprintf("after operation %d of %s, path %d selects %v in %s, and before it selected %v", k+1, opsOf(raw), i+1, ids, roots[d].show(), f)})
					}
				}
			}
		}
	})
	if pan {
		what = "panic: " + msg + " in " + opsOf(raw)
	}
	return what, opsOf(raw), nil
}

func falsifyBuilders(raw json.RawMessage) (json.RawMessage, bool) {
	var b buildersBehaviour
	if err := json.Unmarshal(raw, &b); err != nil {
		return nil, false
	}
	for i := range b.R {
		if b.R[i].Known && len(b.R[i].P[0]) > 1 {
			b.R[i].P[0] = b.R[i].P[0][1:]
			out, err := json.Marshal(b)
			return out, err == nil
		}
	}
	return nil, false
}

// weaveBehaviour: searches that run at the same time, of the same compiled
// paths: the order in which they make a step (a report, or their end), and
// what each reports
type weaveBehaviour struct {
	Ds []*tree   `json:"ds"`
	Dx []int     `json:"dx"` // the document of each search
	Ts []Text    `json:"ts"`
	Sc []int     `json:"sc"`
	R  [][][]int `json:"r"`
}

func checkWeave(r *replayer, raw json.RawMessage) (what, key string, err error) {
	var b weaveBehaviour
	if err := json.Unmarshal(raw, &b); err != nil {
		return "", "", err
	}
	var roots []*N
	var dumps []string
	var models []gojsonpath.DocModel
	r.seen++
	for _, d := range b.Ds {
		root := d.root()
		roots = append(roots, root)
		dumps = append(dumps, root.dump())
		if r.seen%2 == 0 {
			models = append(models, ptrModel{root: root})
		} else {
			models = append(models, newValModel(root))
		}
	}
	key = string(raw)
	if len(key) > 500 {
		key = key[:500]
	}
	texts := []string{}
	var cs []*coroutine
	for i, t := range b.Ts {
		text := t.String()
		texts = append(texts, text)
		// the parsed path is shared by all searches of the text, in all behaviours
		path, err := r.parse(text)
		if err != nil {
			return fmt.Sprintf("Parse(%q): %v", text, err), key, nil
		}
		cs = append(cs, startSearch(models[b.Dx[i]-1], roots[b.Dx[i]-1], func() (gojsonpath.Path, error) { return path, nil }))
	}
	r.sample = map[string]any{"documents": b.Dx, "paths": texts, "schedule": b.Sc}
	defer func() {
		for _, c := range cs {
			c.finish()
		}
	}()
	at := make([]int, len(cs))
	name := func(q int) string {
		return fmt.Sprintf("%q (search %d of %q on %s, schedule %v)", texts[q], q+1, texts, roots[b.Dx[q]-1].show(), b.Sc)
	}
	for _, q1 := range b.Sc {
		if q1 < 0 {
			cs[-q1-1].abandon()
			continue
		}
		q := q1 - 1
		if cs[q].done {
			return fmt.Sprintf("%s ended too early", name(q)), key, nil
		}
		e := cs[q].step()
		if e.end {
			if e.pan || e.err {
				return fmt.Sprintf("%s: panic or error: %s", name(q), e.msg), key, nil
			}
			if at[q] != len(b.R[q]) {
				return fmt.Sprintf("%s: ended after %d of %d paths", name(q), at[q], len(b.R[q])), key, nil
			}
			continue
		}
		if at[q] >= len(b.R[q]) {
			return fmt.Sprintf("%s: %v, and no more are wanted", name(q), e.segs), key, nil
		}
		_, want := segsAlong(roots[b.Dx[q]-1], b.R[q][at[q]])
		if fmt.Sprint(segAnys(e.segs)) != fmt.Sprint(want) {
			return fmt.Sprintf("%s: %v, the specification wants %v", name(q), e.segs, want), key, nil
		}
		at[q]++
	}
	for i, root := range roots {
		if root.dump() != dumps[i] {
			return "the document was changed", key, nil
		}
	}
	return "", "", nil
}

func segAnys(ss []Seg) []any {
	out := []any{}
	for _, s := range ss {
		out = append(out, map[string]any{"id": s.ID, "ty": s.Ty, "nm": s.Nm, "ix": s.Ix})
	}
	return out
}

func falsifyWeave(raw json.RawMessage) (json.RawMessage, bool) {
	var b weaveBehaviour
	if err := json.Unmarshal(raw, &b); err != nil {
		return nil, false
	}
	for i := range b.R {
		if len(b.R[i]) > 0 {
			b.R[i] = b.R[i][1:]
			out, err := json.Marshal(b)
			return out, err == nil
		}
	}
	return nil, false
}
