package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"time"
)

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "harness:", err)
	os.Exit(3)
}

// memory ends the process when the heap grows beyond all bounds
func memory(limit uint64) {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			metrics.Read(s)
			if s[0].Value.Uint64() > limit {
				fmt.Fprintln(os.Stderr, "MEMORY", busyWhat.Load())
				os.Exit(43)
			}
		}
	}()
}

type lines struct {
	f *os.File
	w *bufio.Writer
	e *json.Encoder
}

func openLines(name string) *lines {
	f, err := os.Create(name)
	if err != nil {
		fatal(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	e := json.NewEncoder(w)
	e.SetEscapeHTML(false)
	return &lines{f, w, e}
}

func (l *lines) put(x any) {
	if err := l.e.Encode(x); err != nil {
		fatal(err)
	}
}

func (l *lines) close() {
	l.w.Flush()
	l.f.Close()
}

func main() {
	if len(os.Args) < 2 {
		fatal(fmt.Errorf("no command"))
	}
	debug.SetMaxStack(512 << 20)
	fs := flag.NewFlagSet("", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Int64("seed", 1, "")
	from := fs.Int("from", 1, "first session")
	to := fs.Int("to", 1<<30, "last session")
	out := fs.String("out", "", "")
	in := fs.String("in", "", "")
	now := fs.String("now", "", "file that names the current session")
	deep := fs.Bool("deep", false, "more systematic sessions")
	hang := fs.Int("hang", 30, "seconds")
	what := fs.String("kind", "calls", "kind of behaviours")
	contract := fs.Bool("contract", false, "check the contract of the document model, too")
	fs.Parse(os.Args[2:])
	watchdog(time.Duration(*hang) * time.Second)
	memory(6 << 30)
	current := func(id int) {}
	if *now != "" {
		f, err := os.Create(*now)
		if err != nil {
			fatal(err)
		}
		current = func(id int) { f.WriteAt([]byte(fmt.Sprintf("%12d\n", id)), 0) }
	}
	switch os.Args[1] {
	case "run":
		// random sessions
		l := openLines(*out)
		for id := *from; id <= *to; id++ {
			s := generate(*prop, *seed, id)
			current(id)
			s.run(rand.New(rand.NewSource(*seed + int64(id))))
			l.put(s)
		}
		l.close()
	case "sys":
		// all systematic sessions
		l := openLines(*out)
		for _, s := range systematic(*prop, *deep) {
			if s.ID < *from || s.ID > *to {
				continue
			}
			current(s.ID)
			s.run(rand.New(rand.NewSource(*seed + int64(s.ID))))
			l.put(s)
		}
		l.close()
	case "replay":
		// behaviours that TLC printed
		if err := replay(*what, *in, *out, *contract, current); err != nil {
			fatal(err)
		}
	case "rerun":
		// the sessions of a file
		l := openLines(*out)
		if err := forSessions(*in, func(s *Session) error {
			current(s.ID)
			s.run(rand.New(rand.NewSource(*seed + int64(s.ID))))
			l.put(s)
			return nil
		}); err != nil {
			fatal(err)
		}
		l.close()
	default:
		fatal(fmt.Errorf("command %s", os.Args[1]))
	}
}
