package main

import (
	"bytes"
	"errors"
	"io"
	"log"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

// ---- C24: failing destinations ----

type T24 struct {
	Mode  string `json:"mode"`
	At    int    `json:"at"`
	Force bool   `json:"force"`
	// What the destination does at each call, in mode "script"; afterwards it works.
	Script []Resp24 `json:"script"`
}

// Resp24: M bytes are taken (-1: all, -2: all but one), and an error returned if Bad.
type Resp24 struct {
	M   int  `json:"m"`
	Bad bool `json:"bad"`
}

type C24 struct {
	Kind   string `json:"kind"`
	Fmt    string `json:"fmt"`
	Ignore bool   `json:"ignore"`
	Opt    int    `json:"opt"`
	Way    int    `json:"way"`
	Es     []E    `json:"es"`
	Trials []T24  `json:"trials"`
	Tool   string `json:"tool"`
	Fs     []F22  `json:"fs"`
	Runs   []R22  `json:"runs"` // of a tool: one for each trial, after the one that works
}

type Call24 struct {
	N   int  `json:"n"`
	M   int  `json:"m"`
	Bad bool `json:"bad"`
}

type Seen24 struct {
	Calls []Call24 `json:"calls"`
	Got   Bs       `json:"got"`
	Err   bool     `json:"err"`
	St    string   `json:"st"`
}

type O24 struct {
	Full   Bs       `json:"full"`
	Trials []Seen24 `json:"trials"`
}

// sink24 takes At bytes; what then happens depends on the mode.
type sink24 struct {
	t     T24
	calls []Call24
	got   []byte
	hit   bool
}

var silent24 = log.New(io.Discard, "", 0)

var errSink = errors.New("the sink is broken")

func (s *sink24) Write(b []byte) (int, error) {
	m, bad := len(b), false
	room := s.t.At - len(s.got)
	switch s.t.Mode {
	case "none":
	case "error": // takes what fits, then fails for good
		if room < m {
			m, bad = max(room, 0), true
		}
	case "whole": // takes nothing of what does not fit
		if room < m {
			m, bad = 0, true
		}
	case "once": // fails one time
		if room < m && !s.hit {
			m, bad, s.hit = max(room, 0), true, true
		}
	case "once-short": // takes less without a word, which no io.Writer should
		if room < m && !s.hit {
			m, s.hit = max(room, 0), true
		}
	case "script":
		if k := len(s.calls); k < len(s.t.Script) {
			r := s.t.Script[k]
			switch {
			case r.M == -2:
				m = max(m-1, 0)
			case r.M >= 0:
				m = min(m, r.M)
			}
			bad = r.Bad
		}
	case "late": // takes everything and fails nevertheless, once
		if room < m && !s.hit {
			bad, s.hit = true, true
		}
	}
	s.got = append(s.got, b[:m]...)
	s.calls = append(s.calls, Call24{len(b), m, bad})
	if bad {
		return m, errSink
	}
	return m, nil
}

func (c C24) po() []compile.PoOption {
	out := []compile.PoOption{compile.PoWithIgnoreErrors(c.Ignore), compile.PoWithWordWrap(c.Opt&1 != 0), compile.PoWithManageHeader(c.Opt&2 != 0)}
	if c.Opt&4 != 0 {
		out = append(out, compile.PoWithHighlight(compile.DefaultHighlight))
	}
	if c.Opt&8 != 0 {
		out = append(out, compile.PoWithVerbose(true), compile.PoWithLogger(silent24))
	}
	if c.Opt&16 != 0 {
		out = append(out, compile.PoWithCommentFuzzy(true), compile.PoWithOmitHeader(true), compile.PoWithAddLocation(compile.PoLocationModeFile))
	}
	return out
}

func (c C24) mo() []compile.MoOption {
	out := []compile.MoOption{compile.MoWithIgnoreErrors(c.Ignore), compile.MoWithHashTable(c.Opt&1 == 0), compile.MoWithSortEntries(c.Opt&2 == 0)}
	if c.Opt&8 != 0 {
		out = append(out, compile.MoWithVerbose(true), compile.MoWithLogger(silent24))
	}
	if c.Opt&16 != 0 {
		out = append(out, compile.MoWithEndianness(compile.BigEndian))
	}
	return out
}

func (c C24) toWriter(w *sink24) error {
	file := &po.File{Name: "x.po", Entries: toEntries(c.Es)}
	if c.Fmt == "po" {
		switch c.Way % 3 {
		case 0:
			return compile.PoToWriter(file, w, c.po()...)
		case 1:
			x := compile.NewPo(file, c.po()...)
			return x.ToWriter(w)
		}
		x := compile.NewPo(file)
		return x.ToWriterWithOptions(w, c.po()...)
	}
	switch c.Way % 3 {
	case 0:
		return compile.MoToWriter(file, w, c.mo()...)
	case 1:
		x := compile.NewMo(file, c.mo()...)
		return x.ToWriter(w)
	}
	x := compile.NewMo(file)
	return x.ToWriterWithOptions(w, c.mo()...)
}

func (c C24) toFile(path string, force bool) error {
	file := &po.File{Name: "x.po", Entries: toEntries(c.Es)}
	if c.Fmt == "po" {
		opts := append(c.po(), compile.PoWithForcePo(force))
		switch c.Way % 3 {
		case 0:
			return compile.PoToFile(file, path, opts...)
		case 1:
			x := compile.NewPo(file, opts...)
			return x.ToFile(path)
		}
		x := compile.NewPo(file)
		return x.ToFileWithOptions(path, opts...)
	}
	opts := append(c.mo(), compile.MoWithForce(force))
	switch c.Way % 3 {
	case 0:
		return compile.MoToFile(file, path, opts...)
	case 1:
		x := compile.NewMo(file, opts...)
		return x.ToFile(path)
	}
	x := compile.NewMo(file)
	return x.ToFileWithOptions(path, opts...)
}

func (c C24) full() []byte {
	file := &po.File{Name: "x.po", Entries: toEntries(c.Es)}
	if c.Fmt == "po" {
		return compile.PoToBytes(file, c.po()...)
	}
	return compile.MoToBytes(file, c.mo()...)
}

const old24 = "old content"

func (c C24) fileTrial(t T24, full []byte) (s Seen24) {
	scratch(func(dir string) {
		path := filepath.Join(dir, "x.out")
		switch t.Mode {
		case "old":
			check22(os.WriteFile(path, []byte(old24), 0o600))
		case "long":
			check22(os.WriteFile(path, append([]byte(old24), full...), 0o600))
		case "dir":
			check22(os.Mkdir(path, 0o700))
		case "nodir":
			path = filepath.Join(dir, "no", "x.out")
		case "full":
			path = "/dev/full"
		case "limit":
			// The file system takes At bytes of a file and no more.
			signal.Ignore(syscall.SIGXFSZ)
			var lim syscall.Rlimit
			check22(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim))
			check22(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(t.At), Max: lim.Max}))
			defer func() { check22(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)) }()
		}
		s.Err = c.toFile(path, t.Force) != nil
		s.St = "absent"
		if t.Mode == "full" {
			s.St = "file"
		} else if st, err := os.Stat(path); err == nil && st.IsDir() {
			s.St = "dir"
		} else if err == nil {
			s.St = "file"
			s.Got, err = os.ReadFile(path)
			check22(err)
		}
	})
	return
}

func run24(c C24) (o O24) {
	o.Trials = []Seen24{}
	if c.Kind == "tool" {
		scratch(func(dir string) {
			setUp22(dir, c.Fs)
			for i, r := range c.Runs {
				s := runTool(dir, r)
				if i == 0 {
					if s.Exit != 0 {
						break
					}
					o.Full = s.Stdout
					continue
				}
				o.Trials = append(o.Trials, Seen24{Calls: []Call24{}, Got: Bs{}, Err: s.Exit != 0})
			}
		})
		return
	}
	o.Full = c.full()
	for _, t := range c.Trials {
		var s Seen24
		if c.Kind == "writer" {
			w := &sink24{t: t}
			s.Err = c.toWriter(w) != nil
			s.Calls, s.Got = w.calls, w.got
		} else {
			s = c.fileTrial(t, o.Full)
		}
		o.Trials = append(o.Trials, s)
	}
	return
}

var modes24 = []string{"error", "whole", "once", "once-short", "late"}

func (g *G) gen24(emit func(C24), es []E, positions int) {
	for _, f := range []string{"po", "mo"} {
		c := C24{Kind: "writer", Fmt: f, Ignore: g.Intn(4) == 0, Opt: g.Intn(32), Way: g.Intn(6), Es: es, Fs: []F22{}, Runs: []R22{}}
		n := len(c.full())
		at := map[int]bool{0: true, n: true, n - 1: true, 4096: true, 4095: true, 4097: true, 8192: true}
		for k := 0; len(at) < positions && k <= n; k++ {
			at[k] = true
		}
		for k := 0; k < positions/2; k++ {
			at[g.Intn(n+1)] = true
		}
		c.Trials = []T24{{Mode: "none"}}
		for k := 0; k <= n; k++ {
			if at[k] {
				if positions > n { // each byte in each way
					for _, m := range modes24 {
						c.Trials = append(c.Trials, T24{Mode: m, At: k})
					}
				} else {
					c.Trials = append(c.Trials, T24{Mode: pick(g, modes24), At: k})
				}
			}
		}
		emit(c)
		c.Kind, c.Way, c.Ignore = "file", g.Intn(6), g.Intn(4) == 0
		c.Trials = []T24{}
		for _, m := range []string{"absent", "old", "long", "dir", "nodir", "full"} {
			for _, force := range []bool{false, true} {
				c.Trials = append(c.Trials, T24{Mode: m, Force: force})
			}
		}
		for k := range at {
			if k >= 0 && k <= n && len(c.Trials) < 24 {
				c.Trials = append(c.Trials, T24{Mode: "limit", At: k, Force: g.Intn(2) == 0})
			}
		}
		emit(c)
	}
}

// tools24 has the tools print to a full device, or write to one.
func (g *G) tools24(emit func(C24)) {
	take := func(c C22) {
		out := C24{Kind: "tool", Es: []E{}, Fs: c.Fs, Trials: []T24{}}
		for _, r := range c.Runs {
			if r.Keep || r.O.Update {
				continue
			}
			r.O.HasOut, r.O.Out = r.Tool != "xgotext", Bs("-")
			r.O.Join = false
			bad := r
			bad.Sink = "full"
			dev := r
			dev.O.HasOut, dev.O.Out, dev.O.Force, dev.O.OutDir, dev.O.Dir = true, Bs("/dev/full"), true, Bs{}, r.O.Dir
			if r.Tool == "xgotext" && len(r.O.OutDir) == 0 {
				dev.O.Out = Bs("../../../../../../../../dev/full")
			}
			out.Tool = r.Tool
			out.Runs = []R22{r, bad}
			if len(r.O.Dir) == 0 && len(r.O.OutDir) == 0 {
				out.Runs = append(out.Runs, dev)
			}
			break
		}
		if len(out.Runs) > 0 {
			emit(out)
		}
	}
	g.fmt23(take)
	g.unfmt23(take)
	g.cat23(take)
	g.merge23(take)
	g.go23(take)
}

func init() {
	register("C24", func(g *G, emit func(C24)) {
		g.gen24(emit, []E{}, 10)
		one := plainEntry("a")
		one.Str = Bs("b")
		g.gen24(emit, []E{one}, 1000)
		for i := 0; i < g.N(40, 400); i++ {
			es := g.compilable(1 + g.Intn(3))
			for k := range es {
				if len(es[k].Str) > 60 {
					es[k].Str = es[k].Str[:40]
				}
			}
			g.gen24(emit, es, 40)
		}
		for i := 0; i < g.N(8, 40); i++ { // more than the buffers hold
			es := g.compilable(6)
			big := plainEntry("big")
			big.Str = Bs(bytes.Repeat([]byte(pick(g, []string{"a", "é\n", "\\"})), pick(g, []int{2000, 4000, 4096, 9000})))
			g.gen24(emit, append(es, big), 12)
		}
		for i := 0; i < g.N(25, 250); i++ {
			g.tools24(emit)
		}
	}, run24)
}
