// Command drv binds the TLA+ specifications in /verif/spec to the real code in /repo.
//
//	drv gen PROP SEED TIER        writes test cases (ndjson) to stdout
//	drv run PROP < cases > recs   runs the real code on every case and records what it did
//	drv work PROP                 a worker of run: one case per line in, one record per line out
//
// A record is {"in": case, "out": observation, "fail": ""}; fail is "panic: ...", "crash" or "hang"
// when the code under test did that (confirmed on the case alone), and out is then a zero value.
// Nothing is judged here: spec/Trace_*.tla decides whether a record is allowed.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Bs is a byte string, an array of numbers in JSON (a sequence in TLA+).
type Bs []byte

func (b Bs) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 2+4*len(b))
	out = append(out, '[')
	for i, c := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(c), 10)
	}
	return append(out, ']'), nil
}

func (b *Bs) UnmarshalJSON(d []byte) error {
	var x []int
	if err := json.Unmarshal(d, &x); err != nil {
		return err
	}
	*b = make(Bs, len(x))
	for i, v := range x {
		(*b)[i] = byte(v)
	}
	return nil
}

type G struct {
	*rand.Rand
	Tier  string
	Sound bool // most inputs are valid
	UTF8  bool // Go literals are valid UTF-8
	emit  func(any)
}

func (g *G) Thorough() bool { return g.Tier == "thorough" }

// N is the number of random cases: quick or thorough.
func (g *G) N(quick, thorough int) int {
	if g.Thorough() {
		return thorough
	}
	return quick
}

type prop struct {
	gen     func(g *G)
	run     func(raw json.RawMessage) (any, error)
	zero    any
	timeout time.Duration
	workers int
}

var props = map[string]*prop{}

// register binds a property to its generator and to the function that runs the real code.
func register[C any, O any](name string, gen func(g *G, emit func(C)), run func(C) O) *prop {
	p := &prop{
		gen: func(g *G) { gen(g, func(c C) { g.emit(c) }) },
		run: func(raw json.RawMessage) (any, error) {
			var c C
			if err := json.Unmarshal(raw, &c); err != nil {
				return nil, err
			}
			return run(c), nil
		},
		zero:    *new(O),
		timeout: 20 * time.Second,
		workers: runtime.NumCPU(),
	}
	props[name] = p
	return p
}

type record struct {
	In   json.RawMessage `json:"in"`
	Out  json.RawMessage `json:"out"`
	Fail string          `json:"fail"`
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(99)
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		die("marshal: %v", err)
	}
	// TLC's Json module has no null.
	return bytes.ReplaceAll(b, []byte("null"), []byte("[]"))
}

func guarded(p *prop, raw json.RawMessage) (rec record) {
	rec.In = raw
	defer func() {
		if e := recover(); e != nil {
			rec.Fail = fmt.Sprintf("panic: %v", e)
			if os.Getenv("DRV_STACK") != "" {
				debug.PrintStack()
			}
			rec.Out = mustJSON(p.zero)
		}
	}()
	out, err := p.run(raw)
	if err != nil {
		die("bad case: %v: %.300s", err, raw)
	}
	rec.Out = mustJSON(out)
	return
}

func work(p *prop) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			rec := guarded(p, json.RawMessage(bytes.TrimSpace(line)))
			out.Write(mustJSON(rec))
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startWorker(name string) *worker {
	// The limit turns runaway allocation into a crash of the worker alone.
	cmd := exec.Command("bash", "-c", `ulimit -v 12000000; exec "$0" work "$1"`, os.Args[0], name)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOTRACEBACK=none")
	if name == "C25" {
		// The race detector reserves far more than it uses.
		cmd = exec.Command(os.Args[0], "work", name)
		races := filepath.Join(os.TempDir(), "races")
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOTRACEBACK=none", "C25_RACES="+races, "GORACE=halt_on_error=0 exitcode=0 log_path="+races)
	}
	if os.Getenv("DRV_STACK") != "" {
		cmd.Stderr = os.Stderr
	}
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		die("worker: %v", err)
	}
	return &worker{cmd, in, bufio.NewReaderSize(out, 1<<20)}
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

// ask runs one case; "" means answered, otherwise "crash" or "hang".
func (w *worker) ask(c []byte, d time.Duration) ([]byte, string) {
	type answer struct {
		line []byte
		err  error
	}
	ch := make(chan answer, 1)
	go func() {
		if _, err := w.in.Write(append(append([]byte{}, c...), '\n')); err != nil {
			ch <- answer{nil, err}
			return
		}
		line, err := w.out.ReadBytes('\n')
		ch <- answer{line, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			w.in.Close()
			w.cmd.Wait()
			if w.cmd.ProcessState.ExitCode() == 99 {
				die("worker failed on its own account: %.300s", c)
			}
			return nil, "crash"
		}
		return a.line, ""
	case <-time.After(d):
		return nil, "hang"
	}
}

func run(name string, p *prop) {
	var cases [][]byte
	sc := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if l := bytes.TrimSpace(line); len(l) > 0 {
			cases = append(cases, l)
		}
		if err != nil {
			break
		}
	}
	results := make([][]byte, len(cases))
	type suspect struct {
		i    int
		kind string
	}
	var suspects []suspect
	var mu sync.Mutex
	next := 0
	var wg sync.WaitGroup
	for k := 0; k < p.workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := startWorker(name)
			for {
				mu.Lock()
				i := next
				next++
				tooMany := len(suspects) >= 8
				mu.Unlock()
				if i >= len(cases) || tooMany {
					break
				}
				line, kind := w.ask(cases[i], p.timeout)
				if kind != "" {
					mu.Lock()
					suspects = append(suspects, suspect{i, kind})
					mu.Unlock()
					w.stop()
					w = startWorker(name)
					continue
				}
				results[i] = bytes.TrimSpace(line)
			}
			w.stop()
		}()
	}
	wg.Wait()
	// Confirm each in a worker of its own, with three times the time, three at a time; when some are confirmed that is enough.
	confirmed := 0
	var conf sync.WaitGroup
	turn := make(chan struct{}, 3)
	for _, s := range suspects {
		conf.Add(1)
		go func() {
			defer conf.Done()
			turn <- struct{}{}
			defer func() { <-turn }()
			mu.Lock()
			enough := confirmed > 0
			mu.Unlock()
			if enough {
				return
			}
			w := startWorker(name)
			line, kind := w.ask(cases[s.i], 3*p.timeout)
			w.stop()
			mu.Lock()
			defer mu.Unlock()
			if kind == "" {
				results[s.i] = bytes.TrimSpace(line)
				return
			}
			confirmed++
			results[s.i] = mustJSON(record{cases[s.i], mustJSON(p.zero), kind})
		}()
	}
	conf.Wait()
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for _, r := range results {
		if r != nil {
			out.Write(r)
			out.WriteByte('\n')
		}
	}
	out.Flush()
}

func main() {
	if len(os.Args) < 3 {
		die("usage: drv gen|run|work PROP ...")
	}
	name := os.Args[2]
	p, ok := props[name]
	if !ok {
		die("unknown property %s", name)
	}
	switch os.Args[1] {
	case "gen":
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		out := bufio.NewWriterSize(os.Stdout, 1<<20)
		h := int64(0)
		for _, c := range name {
			h = h*31 + int64(c)
		}
		g := &G{Rand: rand.New(rand.NewSource(seed*1000003 + h)), Tier: os.Args[4]}
		g.emit = func(c any) {
			out.Write(mustJSON(c))
			out.WriteByte('\n')
		}
		p.gen(g)
		out.Flush()
	case "work":
		work(p)
	case "run":
		run(name, p)
	default:
		die("usage: drv gen|run|work PROP ... (%s)", strings.Join(os.Args, " "))
	}
}

func jsonCopy(from, to any) error {
	b, err := json.Marshal(from)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, to)
}
