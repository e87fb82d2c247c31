package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync/atomic"
	"time"

	gojsonpath "github.com/bserdar/gojsonpath"
)

// Out is an outcome of a call of the library
type Out struct {
	Err   bool   `json:"err"`
	Pan   bool   `json:"pan"`
	Bag   bool   `json:"bag"` // the model has no member order
	Ids   []int  `json:"ids"`
	Broke string `json:"broke"`
	Segs  []any  `json:"segs,omitempty"`
	// how this outcome was first obtained, and how often
	How string `json:"how"`
	Msg string `json:"msg,omitempty"`
	N   int    `json:"n"`
}

// Call is a path text applied to a document
type Call struct {
	T int `json:"t"` // text, from 1
	D int `json:"d"` // document, from 1
	// the names that the text must address, if it was made by the library
	Ns   *[]Text `json:"ns,omitempty"`
	Outs []*Out  `json:"outs"`
}

type Session struct {
	ID    int    `json:"id"`
	Docs  []Doc  `json:"docs"`
	Texts []Text `json:"texts"`
	// texts that need not be UTF-8
	Raw   [][]byte `json:"raw,omitempty"`
	Calls []*Call  `json:"calls"`
	// decoded documents of a conversation with MapModel
	MDocs []*V `json:"mdocs,omitempty"`
	// a history instead of calls
	Ev   []Ev   `json:"ev,omitempty"`
	Prop string `json:"prop,omitempty"`
	// how to run the session
	Plan string `json:"plan,omitempty"`
	// expected outcomes by call, for sessions made by the specification
	Exp []Exp `json:"exp,omitempty"`
}

// Exp is what the specification expects of a call
type Exp struct {
	St  string `json:"st"` // ok rej unspec
	Ids []int  `json:"ids"`
}

var (
	busySince atomic.Int64
	busyWhat  atomic.Value
)

// watchdog ends the process when one call takes too long
func watchdog(limit time.Duration) {
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			t := busySince.Load()
			if t != 0 && time.Since(time.Unix(0, t)) > limit {
				fmt.Fprintln(os.Stderr, "HANG", busyWhat.Load())
				os.Exit(42)
			}
		}
	}()
}

// quiet: one call of guard watches over many others
var quiet atomic.Bool

func guard(what string, f func()) (pan bool, msg string) {
	if quiet.Load() {
		defer func() {
			if r := recover(); r != nil {
				pan, msg = true, fmt.Sprint(r)
			}
		}()
		f()
		return
	}
	defer func() {
		busySince.Store(0)
		if r := recover(); r != nil {
			pan, msg = true, fmt.Sprint(r)
		}
	}()
	busyWhat.Store(what)
	busySince.Store(time.Now().UnixNano())
	f()
	return
}

type env struct {
	parsed map[string]gojsonpath.Path
	errs   map[string]error
	models map[string]gojsonpath.DocModel
	// a map, an array, and a node that are one document after another
	keptMap map[string]any
	keptArr []any
	kept    N
}

// again gives the document the place of the one before: the same map, array
// or node has other contents now
func (e *env) again(m string, root *N) gojsonpath.DocModel {
	if m == "ptr" {
		e.kept = *root
		return ptrModel{root: &e.kept}
	}
	switch x := root.goValue().(type) {
	case map[string]any:
		clear(e.keptMap)
		for k, v := range x {
			e.keptMap[k] = v
		}
		return gojsonpath.MapModel{Doc: e.keptMap}
	case []any:
		e.keptArr = append(e.keptArr[:0], x...)
		return gojsonpath.MapModel{Doc: e.keptArr}
	default:
		return gojsonpath.MapModel{Doc: x}
	}
}

func (s *Session) model(e *env, d int, m string) gojsonpath.DocModel {
	k := fmt.Sprint(d, m)
	if x, ok := e.models[k]; ok {
		return x
	}
	var x gojsonpath.DocModel
	root := s.Docs[d-1].Root
	switch m {
	case "map":
		x = gojsonpath.MapModel{Doc: root.goValue()}
	case "ptr":
		x = ptrModel{root: root}
	case "val":
		x = newValModel(root)
	case "nil":
		x = withNil(root, s.ID*7+d*3)
	case "odd":
		x = oddModel(root)
	case "oddvalues":
		x = oddValues{&strictModel{root: root}}
	default:
		x = &strictModel{root: root}
	}
	e.models[k] = x
	return x
}

func segs(root *N, p gojsonpath.DocPath) any {
	out := make([]any, 0, len(p.P))
	for i := range p.P {
		prefix := gojsonpath.DocPath{P: p.P[:i+1]}
		out = append(out, map[string]any{
			"id": nodeID(root, p.P[i].Node, &prefix),
			"ty": int(p.P[i].Type),
			"nm": cps(p.P[i].Name),
			"ix": p.P[i].Index,
		})
	}
	return out
}

// one performs a call. how is a model and an API: strict/find,
// map/search, ptr/paf ("parse and find"), map/again (in the place of another document), ...
func (s *Session) one(e *env, t, d int, how string, withSegs bool) *Out {
	out := &Out{Ids: []int{}, How: how, N: 1}
	m, api, _ := strings.Cut(how, "/")
	out.Bag = m == "map"
	text := s.Texts[t-1].String()
	if t <= len(s.Raw) && s.Raw[t-1] != nil {
		text = string(s.Raw[t-1])
	}
	root := s.Docs[d-1].Root
	var model gojsonpath.DocModel
	if api == "again" {
		model = e.again(m, root)
	} else {
		model = s.model(e, d, m)
	}
	id := func(node any, p *gojsonpath.DocPath) int {
		if pm, ok := model.(ptrModel); ok && node == nil && pm.none != nil {
			return pm.none.ID
		}
		return nodeID(root, node, p)
	}
	out.Pan, out.Msg = guard(fmt.Sprintf("session %d text %q", s.ID, text), func() {
		if s.Plan == "total" {
			// only whether it returns
			if api == "paf" {
				_, err := gojsonpath.ParseAndFind(model, text)
				out.Err = err != nil
				return
			}
			path, err := e.parse(text, false)
			if err != nil {
				out.Err = true
				return
			}
			if api == "find" {
				_, err = gojsonpath.Find(model, path)
			} else {
				err = gojsonpath.Search(model, path, func(gojsonpath.DocPath) {})
			}
			out.Err = err != nil
			return
		}
		if api == "paf" {
			nodes, err := gojsonpath.ParseAndFind(model, text)
			if err != nil {
				out.Err, out.Msg = true, err.Error()
				return
			}
			for _, n := range nodes {
				out.Ids = append(out.Ids, id(n, nil))
			}
			return
		}
		path, err := e.parse(text, api == "fresh")
		if err != nil {
			out.Err, out.Msg = true, err.Error()
			return
		}
		if api == "find" {
			nodes, err := gojsonpath.Find(model, path)
			if err != nil {
				out.Err, out.Msg = true, err.Error()
				return
			}
			if m == "map" || m == "val" {
				// nodes have no identity: they must be those that Search reports
				var found []any
				var ids []int
				if err := gojsonpath.Search(model, path, func(p gojsonpath.DocPath) {
					found = append(found, p.Last().Node)
					ids = append(ids, id(p.Last().Node, &p))
				}); err != nil {
					panic("Search returned an error, and Find did not: " + err.Error())
				}
				out.Ids = matchNodes(m == "map", nodes, found, ids)
				return
			}
			for _, n := range nodes {
				out.Ids = append(out.Ids, id(n, nil))
			}
			return
		}
		err = gojsonpath.Search(model, path, func(p gojsonpath.DocPath) {
			out.Ids = append(out.Ids, id(p.Last().Node, &p))
			if withSegs {
				out.Segs = append(out.Segs, segs(root, p))
			}
		})
		if err != nil {
			out.Err, out.Msg = true, err.Error()
		}
	})
	if out.Pan || out.Err {
		out.Ids = []int{}
		out.Segs = nil
	}
	if m, ok := model.(*strictModel); ok {
		out.Broke = m.broke
		m.broke = ""
	}
	return out
}

// matchNodes gives nodes the identities of the nodes found that they are
// equal to. Without order, nodes are compared as a collection
func matchNodes(bag bool, nodes, found []any, ids []int) []int {
	out := make([]int, 0, len(nodes))
	if !bag {
		for i, n := range nodes {
			if i < len(found) && n == found[i] {
				out = append(out, ids[i])
			} else {
				out = append(out, -1)
			}
		}
		return out
	}
	have := map[string][]int{}
	key := func(x any) string {
		b, err := json.Marshal(x)
		if err != nil {
			return fmt.Sprintf("%#v", x)
		}
		return string(b)
	}
	for i, f := range found {
		k := key(f)
		have[k] = append(have[k], ids[i])
	}
	for _, n := range nodes {
		k := key(n)
		if l := have[k]; len(l) > 0 {
			out = append(out, l[0])
			have[k] = l[1:]
		} else {
			out = append(out, -1)
		}
	}
	return out
}

func (e *env) parse(text string, fresh bool) (gojsonpath.Path, error) {
	if fresh {
		return gojsonpath.Parse(text)
	}
	if quiet.Load() {
		// several goroutines: what was not parsed before is parsed by each
		if path, ok := e.parsed[text]; ok {
			return path, nil
		}
		return gojsonpath.Parse(text)
	}
	if path, ok := e.parsed[text]; ok {
		return path, nil
	}
	if err, ok := e.errs[text]; ok {
		return gojsonpath.Path{}, err
	}
	path, err := gojsonpath.Parse(text)
	if err != nil {
		e.errs[text] = err
	} else {
		e.parsed[text] = path
	}
	return path, err
}

func (o *Out) same(p *Out) bool {
	if o.Err != p.Err || o.Pan != p.Pan || o.Bag != p.Bag || o.Broke != p.Broke || len(o.Ids) != len(p.Ids) {
		return false
	}
	a, b := o.Ids, p.Ids
	if o.Bag {
		a, b = sorted(a), sorted(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return reflect.DeepEqual(o.Segs, p.Segs)
}

// add records an outcome
func (c *Call) add(o *Out) {
	for _, x := range c.Outs {
		if x.same(o) {
			x.N++
			return
		}
	}
	c.Outs = append(c.Outs, o)
}

// run performs all calls of the session, each in several ways, in random
// order
func (s *Session) run(r *rand.Rand) {
	switch s.Plan {
	case "paths", "build", "buildall", "weave":
		s.runHist(r)
		return
	case "race":
		s.runRace(r)
		return
	case "model":
		s.Texts = []Text{}
		s.runModel(r)
		return
	}
	e := newEnv()
	hows := []string{"strict/search", "strict/find", "ptr/search", "map/search", "strict/paf", "ptr/find", "val/search", "val/find", "map/find", "map/again", "ptr/again", "nil/search", "nil/find"}
	segs := false
	switch s.Plan {
	case "segs":
		segs = true
		hows = []string{"strict/search", "ptr/search", "ptr/find", "strict/paf", "val/search"}
	case "total":
		hows = []string{"map/search", "strict/find", "odd/search", "oddvalues/find", "val/paf"}
	case "parse":
		hows = []string{"strict/search", "ptr/fresh"}
	}
	type job struct {
		c   *Call
		how string
	}
	var jobs []job
	for _, c := range s.Calls {
		c.Outs = []*Out{}
		for _, h := range hows {
			jobs = append(jobs, job{c, h})
		}
		jobs = append(jobs, job{c, hows[r.Intn(len(hows))]})
	}
	r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	for _, j := range jobs {
		j.c.add(s.one(e, j.c.T, j.c.D, j.how, segs && strings.HasSuffix(j.how, "search")))
	}
}

func newEnv() *env {
	return &env{parsed: map[string]gojsonpath.Path{}, errs: map[string]error{}, models: map[string]gojsonpath.DocModel{}, keptMap: map[string]any{}, keptArr: make([]any, 0, 1100)}
}

// same tells if the outcome is what the specification expects
func (x Exp) same(o *Out) (bool, string) {
	switch x.St {
	case "unspec":
		return !o.Pan, "panic"
	case "rej":
		if o.Pan {
			return false, "panic"
		}
		return o.Err, "must be refused"
	}
	if o.Pan {
		return false, "panic"
	}
	if o.Err {
		return false, "must be accepted"
	}
	a, b := o.Ids, x.Ids
	if o.Bag {
		a, b = sorted(a), sorted(b)
	}
	if len(a) != len(b) {
		return false, fmt.Sprint("expected ", x.Ids)
	}
	for i := range a {
		if a[i] != b[i] {
			return false, fmt.Sprint("expected ", x.Ids)
		}
	}
	return true, ""
}

func forSessions(file string, f func(*Session) error) error {
	in, err := os.Open(file)
	if err != nil {
		return err
	}
	defer in.Close()
	rd := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			s := &Session{}
			if err := json.Unmarshal(line, s); err != nil {
				return fmt.Errorf("%w in %.200s", err, line)
			}
			if err := f(s); err != nil {
				return err
			}
		}
		if err != nil {
			return nil
		}
	}
}
