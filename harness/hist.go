package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"

	gojsonpath "github.com/bserdar/gojsonpath"
)

// Ev is an event of a history
type Ev = map[string]any

// Seg is a segment of a document path
type Seg struct {
	ID int  `json:"id"`
	Ty int  `json:"ty"`
	Nm Text `json:"nm"`
	Ix int  `json:"ix"`
}

func segOf(root *N, p gojsonpath.DocPath, i int) Seg {
	prefix := gojsonpath.DocPath{P: p.P[:i+1]}
	s := p.P[i]
	return Seg{nodeID(root, s.Node, &prefix), int(s.Type), cps(s.Name), s.Index}
}

func segsOf(root *N, p gojsonpath.DocPath) []Seg {
	out := make([]Seg, 0, len(p.P))
	for i := range p.P {
		out = append(out, segOf(root, p, i))
	}
	return out
}

// hist performs and records a history
type hist struct {
	s    *Session
	e    *env
	r    *rand.Rand
	dps  []gojsonpath.DocPath
	root []*N // of each document path
	// lengths of the document paths
	lens  []int
	bps   []gojsonpath.Path
	blen  []int
	brec  []int
	grows bool // one of the paths grows step by step
	grown int  // its handle
	runs  int
	depth int
	fresh int
	// most events
	limit int
	// one of how many operations in a callback is a search
	nest int
}

func (h *hist) ev(o string, pan bool, fields Ev) {
	if fields == nil {
		fields = Ev{}
	}
	fields["o"], fields["pan"] = o, pan
	h.s.Ev = append(h.s.Ev, fields)
}

func (h *hist) full() bool { return len(h.s.Ev) > h.limit }

func (h *hist) guard(what string, f func()) (bool, string) {
	return guard(fmt.Sprintf("session %d event %d %s", h.s.ID, len(h.s.Ev), what), f)
}

func (h *hist) add(p gojsonpath.DocPath, root *N) {
	h.dps = append(h.dps, p)
	h.root = append(h.root, root)
	n := len(p.P)
	h.lens = append(h.lens, n)
}

// a handle, rather a recent one
func (h *hist) some(n int) int {
	if n > 3 && h.r.Intn(2) == 0 {
		return n - 3 + h.r.Intn(3)
	}
	return h.r.Intn(n)
}

func (h *hist) look(i int) {
	var got []Seg
	pan, msg := h.guard("look", func() { got = segsOf(h.root[i], h.dps[i]) })
	if pan {
		got = []Seg{}
	}
	h.ev("look", pan, Ev{"h": i + 1, "r": got, "msg": msg})
}

// pathOp performs a random operation on a document path
func (h *hist) pathOp() {
	if len(h.dps) == 0 || h.r.Intn(25) == 0 {
		h.add(gojsonpath.DocPath{}, h.s.Docs[0].Root)
		h.ev("new", false, nil)
		return
	}
	i := h.some(len(h.dps))
	p := h.dps[i]
	h.fresh++
	seg := Seg{1000 + h.fresh, h.r.Intn(3), Text{}, 0}
	node := &N{ID: seg.ID}
	var q gojsonpath.DocPath
	var pan bool
	var msg string
	ty := gojsonpath.NodeType(seg.Ty)
	switch k := h.r.Intn(14); {
	case k < 4:
		seg.Nm = cps(pickOf(h.r, "a", "b", "", "x y"))
		pan, msg = h.guard("key", func() { q = p.Key(seg.Nm.String(), node, ty) })
		h.ev("key", pan, Ev{"h": i + 1, "s": seg, "msg": msg})
	case k < 7:
		seg.Ix = h.r.Intn(20)
		pan, msg = h.guard("index", func() { q = p.Index(seg.Ix, node, ty) })
		h.ev("index", pan, Ev{"h": i + 1, "s": seg, "msg": msg})
	case k < 9:
		seg.Nm, seg.Ix = cps("p"), h.r.Intn(3)
		pan, msg = h.guard("push", func() {
			q = p.Push(gojsonpath.Segment{Node: node, Type: ty, Name: seg.Nm.String(), Index: seg.Ix})
		})
		h.ev("push", pan, Ev{"h": i + 1, "s": seg, "msg": msg})
	case k < 11:
		if h.lens[i] == 0 {
			return
		}
		pan, msg = h.guard("pop", func() { q = p.Pop() })
		h.ev("pop", pan, Ev{"h": i + 1, "msg": msg})
	case k < 12:
		h.look(i)
		return
	case k < 13:
		if h.lens[i] == 0 {
			return
		}
		var last Seg
		pan, msg = h.guard("last", func() {
			x := p.Last()
			last = Seg{nodeID(h.root[i], x.Node, &p), int(x.Type), cps(x.Name), x.Index}
		})
		h.ev("last", pan, Ev{"h": i + 1, "s": last, "msg": msg})
		return
	default:
		n := 0
		pan, msg = h.guard("len", func() { n = p.Len() })
		h.ev("len", pan, Ev{"h": i + 1, "n": n, "msg": msg})
		return
	}
	if !pan {
		h.add(q, h.root[i])
	}
}

// search starts a search, does things while it reports paths, and ends it
func (h *hist) search() {
	t, d := 1+h.r.Intn(len(h.s.Texts)), 1+h.r.Intn(len(h.s.Docs))
	root := h.s.Docs[d-1].Root
	model := h.s.model(h.e, d, pickOf(h.r, "ptr", "strict"))
	h.runs++
	q := h.runs
	h.ev("start", false, Ev{"q": q, "t": t, "h": 0, "d": d, "bag": false})
	h.depth++
	err := false
	pan, msg := h.guard("search", func() {
		path, perr := h.e.parse(h.s.Texts[t-1].String(), h.r.Intn(2) == 0)
		if perr != nil {
			err = true
			return
		}
		serr := gojsonpath.Search(model, path, func(p gojsonpath.DocPath) {
			h.ev("deliver", false, Ev{"q": q, "r": segsOf(root, p)})
			h.add(p, root)
			for h.r.Intn(3) > 0 && !h.full() {
				if h.depth < 3 && h.r.Intn(h.nest) == 0 {
					h.search()
				} else {
					h.pathOp()
				}
			}
		})
		err = serr != nil
	})
	h.depth--
	h.ev("end", pan, Ev{"q": q, "err": err, "msg": msg})
}

func pickOf[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func (h *hist) runPaths() {
	h.add(gojsonpath.DocPath{}, h.s.Docs[0].Root)
	h.ev("new", false, nil)
	for i := 0; i < 60 && !h.full(); i++ {
		if h.r.Intn(10) == 0 {
			h.search()
		} else {
			h.pathOp()
		}
	}
	if h.runs == 0 {
		h.search()
	}
	cells := 0
	for i := range h.dps {
		if cells < 6000 {
			h.look(i)
			cells += h.lens[i]
		}
	}
}

// --- builders

func (h *hist) addB(p gojsonpath.Path, n, rec int) {
	h.bps = append(h.bps, p)
	h.blen = append(h.blen, n)
	h.brec = append(h.brec, rec)
}

func (h *hist) buildOp() {
	k := h.r.Intn(20)
	if len(h.bps) < 4 {
		k = h.r.Intn(10)
	}
	var p gojsonpath.Path
	if h.grows && len(h.bps) > 0 && h.grown == 0 {
		h.grown = len(h.bps)
	}
	if h.grows && h.grown > 0 && h.r.Intn(3) > 0 {
		// the path that grows, step by step
		i := h.grown - 1
		if h.blen[i] > 10 {
			h.grown = 1
			return
		}
		if h.r.Intn(3) == 0 && h.brec[i] < 3 {
			pan, msg := h.guard("recursive descent", func() { p = gojsonpath.RecursiveDescent(h.bps[i]) })
			h.ev("rec", pan, Ev{"h": i + 1, "msg": msg})
			h.addB(p, h.blen[i], h.brec[i]+1)
			if h.r.Intn(3) > 0 {
				h.grown = len(h.bps)
			}
			return
		}
		last := len(h.bps)
		if h.r.Intn(2) == 0 {
			p = gojsonpath.WildcardPath
			h.ev("wild", false, nil)
		} else if nm := pickOf(h.r, "a", "a", "b"); h.r.Intn(3) > 0 {
			pan, msg := h.guard("key selector", func() { p = gojsonpath.KeySelectorPath(nm) })
			h.ev("keysel", pan, Ev{"nm": cps(nm), "msg": msg})
		} else {
			ix := pickOf(h.r, 0, -1, 1)
			pan, msg := h.guard("index selector", func() { p = gojsonpath.IndexSelectorPath(ix) })
			h.ev("indexsel", pan, Ev{"nm": cps(strconv.Itoa(ix)), "msg": msg})
		}
		h.addB(p, 1, 0)
		var q gojsonpath.Path
		pan, msg := h.guard("append", func() { q = gojsonpath.Append(h.bps[i], p) })
		h.ev("append", pan, Ev{"hs": []int{i + 1, last + 1}, "msg": msg})
		h.addB(q, h.blen[i]+1, h.brec[i])
		h.grown = len(h.bps)
		return
	}
	switch {
	case k < 2:
		h.addB(gojsonpath.SelectRootPath, 1, 0)
		h.ev("root", false, nil)
	case k == 2:
		if h.r.Intn(2) == 0 {
			h.addB(gojsonpath.SelectCurrentPath, 1, 0)
			h.ev("cur", false, nil)
			return
		}
		h.addB(gojsonpath.Path{}, 0, 0)
		h.ev("empty", false, nil)
	case k < 5:
		h.addB(gojsonpath.WildcardPath, 1, 0)
		h.ev("wild", false, nil)
	case k < 7:
		nm := pickOf(h.r, "a", "b", "c", "0", "-1", "length", "é", "", "a b", "*", "$")
		pan, msg := h.guard("key selector", func() { p = gojsonpath.KeySelectorPath(nm) })
		h.ev("keysel", pan, Ev{"nm": cps(nm), "msg": msg})
		h.addB(p, 1, 0)
	case k < 9:
		ix := pickOf(h.r, 0, 1, 2, -1, -2, 7, -7)
		pan, msg := h.guard("index selector", func() { p = gojsonpath.IndexSelectorPath(ix) })
		h.ev("indexsel", pan, Ev{"nm": cps(strconv.Itoa(ix)), "msg": msg})
		h.addB(p, 1, 0)
	case k < 10:
		t := 1 + h.r.Intn(len(h.s.Texts))
		var err error
		pan, msg := h.guard("parse", func() { p, err = h.e.parse(h.s.Texts[t-1].String(), h.r.Intn(2) == 0) })
		h.ev("parse", pan, Ev{"t": t, "err": err != nil, "msg": msg})
		h.addB(p, 4, 1)
	case k < 13:
		i := h.some(len(h.bps))
		if h.brec[i] > 2 {
			return
		}
		pan, msg := h.guard("recursive descent", func() { p = gojsonpath.RecursiveDescent(h.bps[i]) })
		h.ev("rec", pan, Ev{"h": i + 1, "msg": msg})
		h.addB(p, h.blen[i], h.brec[i]+1)
	default:
		m := pickOf(h.r, 2, 2, 2, 2, 3, 3, 1, 0, 4)
		hs := []int{}
		ps := []gojsonpath.Path{}
		n, rec := 0, 0
		for j := 0; j < m; j++ {
			i := h.some(len(h.bps))
			if j == 0 && h.r.Intn(3) > 0 && h.s.Plan != "buildall" {
				// begin with the root
				for try := 0; try < 10 && !h.rooted(i); try++ {
					i = h.r.Intn(len(h.bps))
				}
			}
			if n+h.blen[i] > 12 || rec+h.brec[i] > 3 {
				continue
			}
			n += h.blen[i]
			rec += h.brec[i]
			hs = append(hs, i+1)
			ps = append(ps, h.bps[i])
		}
		pan, msg := h.guard("append", func() { p = gojsonpath.Append(ps...) })
		h.ev("append", pan, Ev{"hs": hs, "msg": msg})
		h.addB(p, n, rec)
	}
}

// rooted tells if built path i begins at the root, going by its events
func (h *hist) rooted(i int) bool {
	k := 0
	for _, e := range h.s.Ev {
		o := e["o"].(string)
		switch o {
		case "root", "parse":
			if k == i {
				return true
			}
			k++
		case "rec":
			if k == i {
				return h.rooted(e["h"].(int) - 1)
			}
			k++
		case "append":
			if k == i {
				hs := e["hs"].([]int)
				return len(hs) > 0 && h.rooted(hs[0]-1)
			}
			k++
		case "cur", "wild", "empty", "keysel", "indexsel":
			if k == i {
				return o == "cur"
			}
			k++
		}
	}
	return false
}

// find applies a built path to a document
func (h *hist) find(i, d int) {
	m := pickOf(h.r, "ptr", "strict", "map")
	model := h.s.model(h.e, d, m)
	root := h.s.Docs[d-1].Root
	ids := []int{}
	var err error
	useFind := m != "map" && h.r.Intn(2) == 0
	pan, msg := h.guard("find", func() {
		if useFind {
			var ns []any
			ns, err = gojsonpath.Find(model, h.bps[i])
			for _, n := range ns {
				ids = append(ids, nodeID(root, n, nil))
			}
			return
		}
		err = gojsonpath.Search(model, h.bps[i], func(p gojsonpath.DocPath) {
			ids = append(ids, nodeID(root, p.Last().Node, &p))
		})
	})
	h.ev("find", pan, Ev{"h": i + 1, "d": d, "ids": ids, "err": err != nil, "bag": m == "map", "msg": msg, "how": m})
}

func (h *hist) runBuild() {
	n := 10 + h.r.Intn(25)
	for len(h.bps) < n && !h.full() {
		k := len(h.bps)
		h.buildOp()
		if len(h.bps) > k && h.r.Intn(3) == 0 {
			h.find(len(h.bps)-1, 1+h.r.Intn(len(h.s.Docs)))
		}
		if h.r.Intn(4) == 0 {
			h.find(h.r.Intn(len(h.bps)), 1+h.r.Intn(len(h.s.Docs)))
		}
	}
	for i := range h.bps {
		for d := range h.s.Docs {
			h.find(i, d+1)
		}
	}
}

// --- searches that run at the same time

// coroutine is a search that stops whenever it reports a path
type coroutine struct {
	resume chan byte // go, finish without reporting, or give up
	event  chan coEvent
	done   bool
}

const (
	goOn     = 'g'
	goSilent = 's'
	giveUp   = 'x'
)

type gaveUp struct{}

type coEvent struct {
	end  bool
	pan  bool
	err  bool
	msg  string
	segs []Seg
}

func startSearch(model gojsonpath.DocModel, root *N, parse func() (gojsonpath.Path, error)) *coroutine {
	c := &coroutine{resume: make(chan byte), event: make(chan coEvent)}
	go func() {
		if <-c.resume != goOn {
			c.event <- coEvent{end: true}
			return
		}
		stopped := false
		err := false
		pan, msg := guard("coroutine", func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(gaveUp); !ok {
						panic(x)
					}
				}
			}()
			path, perr := parse()
			if perr != nil {
				err = true
				return
			}
			serr := gojsonpath.Search(model, path, func(p gojsonpath.DocPath) {
				if stopped {
					return
				}
				c.event <- coEvent{segs: segsOf(root, p)}
				switch <-c.resume {
				case giveUp:
					stopped = true
					panic(gaveUp{})
				case goSilent:
					stopped = true
				}
			})
			err = serr != nil
		})
		c.event <- coEvent{end: true, pan: pan, err: err, msg: msg}
	}()
	return c
}

func (c *coroutine) step() coEvent {
	c.resume <- goOn
	e := <-c.event
	c.done = e.end
	return e
}

// finish lets it run to its end
func (c *coroutine) finish() {
	if !c.done {
		c.resume <- goSilent
		for e := range c.event {
			if e.end {
				break
			}
		}
		c.done = true
	}
}

// abandon makes the callback panic; the search must have reported something
func (c *coroutine) abandon() {
	c.resume <- giveUp
	for e := range c.event {
		if e.end {
			break
		}
	}
	c.done = true
}

type wovenSearch struct {
	c *coroutine
	q int
	// it has reported something
	on bool
}

func (h *hist) runWeave() {
	shows := []string{}
	for d := range h.s.Docs {
		shows = append(shows, h.s.Docs[d].Root.dump())
	}
	var live []*wovenSearch
	defer func() {
		for _, l := range live {
			l.c.finish()
		}
	}()
	left := 3 + h.r.Intn(6)
	for (left > 0 || len(live) > 0) && !h.full() {
		if left > 0 && (len(live) == 0 || (len(live) < 4 && h.r.Intn(4) == 0)) {
			left--
			t, d := 1+h.r.Intn(len(h.s.Texts)), 1+h.r.Intn(len(h.s.Docs))
			m := pickOf(h.r, "ptr", "strict", "map", "val")
			h.runs++
			h.ev("start", false, Ev{"q": h.runs, "t": t, "h": 0, "d": d, "bag": m == "map", "how": m})
			fresh := h.r.Intn(5) == 0
			c := startSearch(h.s.model(h.e, d, m), h.s.Docs[d-1].Root, func() (gojsonpath.Path, error) {
				return h.e.parse(h.s.Texts[t-1].String(), fresh)
			})
			live = append(live, &wovenSearch{c: c, q: h.runs})
			continue
		}
		i := h.r.Intn(len(live))
		if l := live[i]; l.on && h.r.Intn(15) == 0 {
			l.c.abandon()
			h.ev("gone", false, Ev{"q": l.q})
			live = append(live[:i], live[i+1:]...)
			continue
		}
		for k := pickOf(h.r, 1, 1, 1, 2, 3, 10); k > 0; k-- {
			l := live[i]
			l.on = true
			e := l.c.step()
			if e.end {
				h.ev("end", e.pan, Ev{"q": l.q, "err": e.err, "msg": e.msg})
				live = append(live[:i], live[i+1:]...)
				break
			}
			h.ev("deliver", false, Ev{"q": l.q, "r": e.segs})
		}
		if h.r.Intn(12) == 0 {
			h.documents(shows)
		}
	}
	h.documents(shows)
}

// documents tells if they are what they were
func (h *hist) documents(shows []string) {
	same := true
	for d := range h.s.Docs {
		root := h.s.Docs[d].Root
		if root.dump() != shows[d] {
			same = false
		}
		if m, ok := h.e.models[fmt.Sprint(d+1, "map")]; ok && !deepEqual(m.(gojsonpath.MapModel).Doc, root.goValue()) {
			same = false
		}
	}
	h.ev("doc", false, Ev{"same": same})
}

// runHist performs a session that is a history
func (s *Session) runHist(r *rand.Rand) {
	h := &hist{s: s, e: newEnv(), r: r, limit: 160, nest: 12}
	s.Ev = nil
	s.Calls = []*Call{}
	if strings.HasPrefix(s.Prop, "C24") {
		h.nest = 2
	}
	switch s.Plan {
	case "paths":
		h.runPaths()
	case "build", "buildall":
		h.limit = 400
		h.grows = s.Plan == "build" && r.Intn(2) == 0
		h.runBuild()
	case "weave":
		h.limit = 120
		h.runWeave()
	}
}

// whether there has been a session with several goroutines
var raced bool

// runRace performs the calls of the session in several goroutines
func (s *Session) runRace(r *rand.Rand) {
	e := newEnv()
	var shows []string
	hows := []string{"ptr/search", "map/search", "val/search", "ptr/find"}
	// paths and models are shared; they are made before
	for _, t := range s.Texts {
		// but the first texts of all are parsed at the same time
		if r.Intn(4) > 0 && raced {
			e.parse(t.String(), false)
		}
	}
	raced = true
	for d := range s.Docs {
		shows = append(shows, s.Docs[d].Root.dump())
		for _, m := range []string{"ptr", "map", "val"} {
			s.model(e, d+1, m)
		}
	}
	type job struct {
		c   *Call
		how string
	}
	var jobs []job
	for _, c := range s.Calls {
		c.Outs = []*Out{}
		for _, how := range hows {
			jobs = append(jobs, job{c, how})
		}
	}
	workers := 3 + r.Intn(6)
	outs := make([][]*Out, workers)
	jobss := make([][]job, workers)
	for w := range jobss {
		js := append([]job(nil), jobs...)
		r.Shuffle(len(js), func(i, j int) { js[i], js[j] = js[j], js[i] })
		if len(js) > 40 {
			js = js[:40]
		}
		jobss[w] = js
		outs[w] = make([]*Out, len(js))
	}
	guard(fmt.Sprintf("session %d in %d goroutines", s.ID, workers), func() {
		quiet.Store(true)
		defer quiet.Store(false)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := range jobss {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				for i, j := range jobss[w] {
					outs[w][i] = s.one(e, j.c.T, j.c.D, j.how, false)
				}
			}(w)
		}
		close(start)
		wg.Wait()
	})
	changed := false
	for d := range s.Docs {
		if s.Docs[d].Root.dump() != shows[d] {
			changed = true
		}
		if !deepEqual(s.model(e, d+1, "map").(gojsonpath.MapModel).Doc, s.Docs[d].Root.goValue()) {
			changed = true
		}
	}
	for w := range jobss {
		for i, j := range jobss[w] {
			o := outs[w][i]
			if changed {
				o.Broke = "document changed"
			}
			j.c.add(o)
		}
	}
	var used []*Call
	for _, c := range s.Calls {
		if len(c.Outs) > 0 {
			used = append(used, c)
		}
	}
	s.Calls = used
}
