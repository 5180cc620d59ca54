package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// ---- C25: operations at the same time ----

// Op25 works on shared catalogues, texts, binaries and sources number A and B.
type Op25 struct {
	Op string `json:"op"`
	A  int    `json:"a"`
	B  int    `json:"b"`
	N  int    `json:"n"`
}

type C25 struct {
	Kind   string   `json:"kind"`  // free: all at once; gate: the others run whenever the first reads, writes or asks
	Fresh  bool     `json:"fresh"` // in a process that did nothing before, together first
	Rounds int      `json:"rounds"`
	Cats   [][]E    `json:"cats"`
	Texts  []Bs     `json:"texts"`
	Mos    []Bs     `json:"mos"`
	Srcs   []Bs     `json:"srcs"`
	Progs  [][]Op25 `json:"progs"`
}

type O25 struct {
	Alone    [][]string   `json:"alone"`
	Together [][][]string `json:"together"`
	Before   []string     `json:"before"`
	After    []string     `json:"after"`
	Races    []string     `json:"races"`
}

// world25 is what the goroutines share.
type world25 struct {
	cats  []cat16
	texts [][]byte
	mos   [][]byte
	srcs  [][]byte
	dir   string
	hdr   po.Header
	hcfg  po.HeaderConfig
	copts []compile.PoOption
}

// at returns the elements of a shared list by number.
func at[T any](xs []T, n int) T { return xs[n%len(xs)] }

// hooked calls a function at every read and write.
type hookedReader struct {
	r    io.Reader
	hook func()
}

func (h hookedReader) Read(b []byte) (int, error) {
	h.hook()
	if len(b) > 64 {
		b = b[:64]
	}
	return h.r.Read(b)
}

type hookedWriter struct {
	bytes.Buffer
	hook func()
}

func (h *hookedWriter) Write(b []byte) (int, error) {
	h.hook()
	// Others run before the bytes are taken.
	return h.Buffer.Write(b)
}

func show25(f *po.File, err error) string {
	if f == nil {
		return fmt.Sprint("nothing ", err)
	}
	return f.Name + string(mustJSON(fromEntries(f.Entries))) + fmt.Sprint(err)
}

var ops25 = map[string]func(w *world25, o Op25, hook func()) string{
	"readpo": func(w *world25, o Op25, hook func()) string {
		text, opts := at(w.texts, o.A), []parse.PoOption{}
		if o.N%5 > 1 {
			opts = append(opts, parse.PoWithUseCustomObsoletePrefix(true), parse.PoWithCustomObsoletePrefix([]rune("~!^")[o.N%5-2]))
		}
		if o.N%3 == 0 {
			opts = append(opts, parse.PoWithIgnoreComments(o.N%4 == 1), parse.PoWithIgnoreAllComments(o.N%4 == 2), parse.PoWithSkipHeader(o.N%2 == 0), parse.PoWithCleanDuplicates(o.N%5 == 0))
		}
		switch o.N % 7 {
		case 0:
			return show25(parse.PoFromBytes(text, "x.po", opts...))
		case 1:
			return show25(parse.PoFromReader(hookedReader{bytes.NewReader(text), hook}, "x.po", opts...))
		case 2:
			return show25(parse.Po(filepath.Join(w.dir, fmt.Sprint(o.A%len(w.texts), ".po")), opts...))
		case 3:
			lg := &hookedWriter{hook: hook}
			opts = append(opts, parse.PoWithVerbose(true), parse.PoWithLogger(log.New(lg, "", 0)))
			p := parse.NewPoFromBytes(text, "x.po", opts...)
			f := p.Parse()
			g := p.ParseWithOptions(opts...)
			return show25(f, p.Error()) + show25(g, p.Error()) + errorsText(p.Errors())
		default:
			return show25(parse.PoFromReader(hookedReader{bytes.NewReader(text), hook}, "y.po", opts...))
		}
	},
	"readmo": func(w *world25, o Op25, hook func()) string {
		mo, opts := at(w.mos, o.A), []parse.MoOption{}
		if o.N%4 == 3 {
			opts = append(opts, parse.MoWithEndianness(parse.Endianness(o.N/4%3)), parse.MoWithMustBeSorted(o.N%5 == 0))
		}
		switch o.N % 3 {
		case 0:
			return show25(parse.MoFromBytes(mo, "x.mo", opts...))
		case 1:
			return show25(parse.Mo(filepath.Join(w.dir, fmt.Sprint(o.A%len(w.mos), ".mo")), opts...))
		}
		return show25(parse.MoFromReader(hookedReader{bytes.NewReader(mo), hook}, "x.mo", opts...))
	},
	"writepo": func(w *world25, o Op25, hook func()) string {
		out := &hookedWriter{hook: hook}
		var opts []compile.PoOption
		switch o.N % 6 {
		case 0:
			opts = w.copts // shared options
		case 4:
			opts = append(opts, compile.PoWithUseCustomObsoletePrefix(true), compile.PoWithCustomObsoletePrefixRune([]rune("!^")[o.N/6%2]), compile.PoWithCommentFuzzy(true), compile.PoWithMsgstrSuffix(">"))
		case 5:
			opts = append(opts, compile.PoWithOmitHeader(o.N/6%2 == 0), compile.PoWithAddLocation(compile.PoLocationMode([]string{"file", "never", "full"}[o.N/12%3])), compile.PoWithNoLocation(o.N%5 == 0))
		case 1:
			opts = append(opts, compile.PoWithHighlight(compile.DefaultHighlight), compile.PoWithWordWrap(true))
		case 2:
			opts = append(opts, compile.PoWithPackageName("p"), compile.PoWithTitle("t"), compile.PoWithManageHeader(true), compile.PoWithHeaderFields(true))
		}
		file := at(w.cats, o.A).file
		var err error
		if o.N%3 == 0 {
			c := compile.NewPo(at(w.cats, o.B).file, opts...)
			c.SetFile(file)
			err = c.ToWriter(out)
			out.Write(c.ToBytes())
		} else {
			err = compile.PoToWriter(file, out, opts...)
		}
		return out.String() + fmt.Sprint(err)
	},
	"writemo": func(w *world25, o Op25, hook func()) string {
		out := &hookedWriter{hook: hook}
		err := compile.MoToWriter(at(w.cats, o.A).file, out, compile.MoWithSortEntries(o.N%2 == 0), compile.MoWithHashTable(o.N%3 != 0), compile.MoWithEndianness(compile.Endianness(o.N%3)))
		return out.String() + fmt.Sprint(err)
	},
	"extract": func(w *world25, o Op25, hook func()) string {
		src, opts := at(w.srcs, o.A), []goparse.Option{goparse.WithExtractAll(o.N%2 == 0), goparse.WithNoHeader(o.N%3 == 0), goparse.WithCleanDuplicates(o.N%7 != 0)}
		switch o.N % 5 {
		case 0:
			opts = append(opts, goparse.WithCustomHeader(&w.hdr))
		case 1:
			opts = append(opts, goparse.WithHeaderConfig(&w.hcfg))
		}
		switch o.N / 5 % 4 {
		case 0:
			return show25(goparse.FromReader(hookedReader{bytes.NewReader(src), hook}, "x.go", opts...))
		case 1:
			return show25(goparse.FromPaths([]string{w.dir, filepath.Join(w.dir, "0.go")}, opts...))
		case 2:
			p, err := goparse.NewParserFromBytes(src, "x.go", opts...)
			if err != nil {
				return "nothing " + err.Error()
			}
			return show25(p.Parse(), p.Error()) + show25(p.Parse(), p.Error())
		}
		return show25(goparse.FromBytes(src, "x.go", opts...))
	},
	"sortby": func(w *world25, o Op25, hook func()) string {
		es := toEntries(fromEntries(at(w.cats, o.A).file.Entries))
		es = es.SortFunc(func(a, b po.Entry) int { hook(); return po.CompareEntry(a, b) })
		return string(mustJSON(fromEntries(es)))
	},
	"solveby": func(w *world25, o Op25, hook func()) string {
		es := at(w.cats, o.A).file.Entries
		es = es.SolveFunc(func(a, b po.Entry) *po.Entry { hook(); return &b })
		return string(mustJSON(fromEntries(es)))
	},
}

func (w *world25) do(o Op25, hook func()) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = fmt.Sprint("panic: ", e)
		}
	}()
	if f := ops25[o.Op]; f != nil {
		return digest([]byte(f(w, o, hook)))
	}
	a, b := at(w.cats, o.A), at(w.cats, o.B)
	if f := filters16[o.Op]; f != nil {
		return digest(mustJSON(fromEntries(f(a.file.Entries, b.file.Entries, o.N))))
	}
	if f := answers16[o.Op]; f != nil {
		return digest([]byte(f(a.file, b.file, o.N)))
	}
	own := &po.File{Name: "own.po", Entries: toEntries(fromEntries(a.file.Entries))}
	changes16[o.Op](own, b.file.Entries, o.N)
	return digest(mustJSON(fromEntries(own.Entries)))
}

func (w *world25) digests() (out []string) {
	for _, c := range w.cats {
		out = append(out, c.digest())
	}
	for _, xs := range [][][]byte{w.texts, w.mos, w.srcs} {
		for _, x := range xs {
			out = append(out, digest(x))
		}
	}
	return append(out, fmt.Sprint(w.hdr, w.hcfg))
}

func newWorld25(c C25, dir string) *world25 {
	w := &world25{dir: dir, hcfg: po.DefaultTemplateHeaderConfig()}
	for i, es := range c.Cats {
		w.cats = append(w.cats, newCat(fmt.Sprintf("%d.po", i), es))
	}
	put := func(to *[][]byte, xs []Bs, ext string) {
		// The inputs lie one behind the other in the same memory.
		var all []byte
		for _, x := range xs {
			all = append(all, x...)
		}
		all = append(all, bytes.Repeat([]byte("SPARE!!!"), 64)...)
		at := 0
		for i, x := range xs {
			*to = append(*to, all[at:at+len(x)])
			at += len(x)
			if err := os.WriteFile(filepath.Join(dir, fmt.Sprint(i, ext)), x, 0o600); err != nil {
				die("%v", err)
			}
		}
	}
	put(&w.texts, c.Texts, ".po")
	put(&w.mos, c.Mos, ".mo")
	put(&w.srcs, c.Srcs, ".go")
	w.hdr = po.Header{Fields: []po.HeaderField{{Key: "Language", Value: "xx"}, {Key: "X-B", Value: "y"}}}
	w.hcfg.Language = "yy"
	w.copts = []compile.PoOption{compile.PoWithHighlight(compile.DefaultHighlight), compile.PoWithHeaderComments(true), compile.PoWithMsgstrPrefix("<")}
	return w
}

func nothing() {}

func run25(c C25) (o O25) {
	if c.Fresh && os.Getenv("C25_FRESH") == "" {
		// The same case again in a process of its own.
		cmd := exec.Command(os.Args[0], "work", "C25")
		cmd.Env = append(os.Environ(), "C25_FRESH=1")
		cmd.Stdin = bytes.NewReader(append(mustJSON(c), '\n'))
		out, _ := cmd.Output() // 66 after a race
		var rec struct {
			Out  O25    `json:"out"`
			Fail string `json:"fail"`
		}
		if err := json.Unmarshal(bytes.TrimSpace(out), &rec); err != nil {
			panic("a process of its own: " + fmt.Sprint(cmd.ProcessState))
		}
		if rec.Fail != "" {
			panic(rec.Fail)
		}
		return rec.Out
	}
	if len(c.Cats) == 0 { // programs of the specification: the inputs are made here
		g := &G{Rand: rand.New(rand.NewSource(int64(len(c.Progs[0][0].Op)*64 + c.Progs[0][0].N))), Tier: "quick"}
		in := g.world25()
		c.Cats, c.Texts, c.Mos, c.Srcs = in.Cats, in.Texts, in.Mos, in.Srcs
	}
	dir, err := os.MkdirTemp("", "c25")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	w := newWorld25(c, dir)
	defer func() { // names of scratch directories are not part of any result
		o.Before, o.After = strip25(o.Before, dir), strip25(o.After, dir)
	}()
	o.Races = []string{}
	o.Before = w.digests()
	from := races25()
	alone := func() {
		for _, p := range c.Progs {
			res := []string{}
			for _, op := range p {
				res = append(res, w.do(op, nothing))
			}
			o.Alone = append(o.Alone, res)
		}
	}
	if !c.Fresh {
		alone()
	}
	for r := 0; r < c.Rounds; r++ {
		if c.Kind == "gate" {
			o.Together = append(o.Together, w.gate(c, r))
		} else {
			o.Together = append(o.Together, w.free(c))
		}
	}
	if c.Fresh {
		alone()
	}
	o.After = w.digests()
	o.Races = raceReports(from)
	return
}

func strip25(xs []string, dir string) (out []string) {
	for _, x := range xs {
		out = append(out, strings.ReplaceAll(x, dir, ""))
	}
	return
}

// free runs all programs at once; nothing but the start orders them.
func (w *world25) free(c C25) [][]string {
	res := make([][]string, len(c.Progs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, p := range c.Progs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			var mine []string
			for _, op := range p {
				mine = append(mine, w.do(op, runtime.Gosched))
			}
			res[i] = mine
		}()
	}
	close(start)
	wg.Wait()
	return res
}

// gate runs the first program; whenever it reads, writes or asks for the r-th time, the others run.
func (w *world25) gate(c C25, r int) [][]string {
	res := make([][]string, len(c.Progs))
	others := func() {
		for i, p := range c.Progs[1:] {
			var mine []string
			for _, op := range p {
				mine = append(mine, w.do(op, nothing))
			}
			res[i+1] = mine
		}
	}
	n, ran := 0, make(chan struct{})
	hook := func() {
		if n++; n == r+1 {
			go func() { others(); close(ran) }()
			select { // someone may have to wait for the first
			case <-ran:
			case <-time.After(300 * time.Millisecond):
			}
		}
	}
	for _, op := range c.Progs[0] {
		res[0] = append(res[0], w.do(op, hook))
	}
	if n <= r {
		others()
	} else {
		<-ran
	}
	return res
}

// The race detector writes to a file of this process (GORACE in startWorker).
func raceFile() string { return fmt.Sprint(os.Getenv("C25_RACES"), ".", os.Getpid()) }

func races25() int64 {
	s, err := os.Stat(raceFile())
	if err != nil {
		return 0
	}
	return s.Size()
}

var frame25 = regexp.MustCompile(`(?m)^  ([^\s(]+\.[^\s]*)\(.*\)\n\s+(\S+):(\d+)`)

// raceReports names the functions that raced.
func raceReports(from int64) []string {
	text, _ := os.ReadFile(raceFile())
	if int64(len(text)) <= from {
		return []string{}
	}
	seen := map[string]bool{}
	for _, rep := range strings.Split(string(text[from:]), "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		where := "somewhere"
		for _, m := range frame25.FindAllStringSubmatch(rep, -1) {
			if strings.Contains(m[1], "gotext-tools") {
				where = m[1][strings.LastIndex(m[1], "/")+1:]
				break
			}
		}
		seen["a data race in "+where] = true
	}
	out := []string{}
	for s := range seen {
		out = append(out, s)
	}
	sort.Strings(out)
	return out[:min(len(out), 4)]
}

var broken25 = []string{"msgid \"a\"\nmsgstr \"b\n", "msgid a\n", "# \n#~ msgid \"x\"\n#~ msgstr \"y\"\n\nmsgid \"\"\n", "\xff\xfe", "msgctxt \"c\" msgid \"\\q\"\nmsgstr[0] \"\"\n"}

func (g *G) world25() C25 {
	c := C25{}
	for i := 0; i < 3; i++ {
		def, ref := g.mergeCats(i > 0)
		if g.Intn(2) == 0 {
			def = append([]E{g.Header()}, ref...)
		}
		c.Cats = append(c.Cats, def)
	}
	c.Cats = append(c.Cats, g.compilable(3+g.Intn(10)))
	for i := 0; i < 3; i++ {
		c.Texts = append(c.Texts, Bs(g.layOut(g.readable(2+g.Intn(6)), pick(g, []string{"~", "~", "!"}))))
		b, err := writeMo(&po.File{Entries: toEntries(g.compilable(g.Intn(8)))}, 0)
		if err != nil {
			die("%v", err)
		}
		c.Mos = append(c.Mos, b)
	}
	c.Texts = append(c.Texts, Bs(pick(g, broken25)))
	if m := c.Mos[0]; len(m) > 30 {
		c.Mos = append(c.Mos, m[:len(m)-1-g.Intn(20)])
	}
	for i := 0; i < 3; i++ {
		c.Srcs = append(c.Srcs, Bs(g.source(i == 1, []string{"shared", "a"})))
	}
	return c
}

func keys25() (out []string) {
	for k := range ops25 {
		out = append(out, k)
	}
	sort.Strings(out)
	out = append(out, keysOf(filters16)...)
	out = append(out, keysOf(answers16)...)
	return append(out, keysOf(changes16)...)
}

func init() {
	p := register("C25", func(g *G, emit func(C25)) {
		keys := keys25()
		op := func(k string) Op25 { return Op25{k, g.Intn(12), g.Intn(12), g.Intn(5040)} }
		same := g.N(2, 12)
		for _, k := range keys {
			// The same operation everywhere, also before anything else happened.
			for i := 0; i < 2*same; i++ {
				c := g.world25()
				c.Kind, c.Fresh, c.Rounds = "free", i%2 == 0, 2
				one := op(k)
				for n := 0; n < 8; n++ {
					if i%4 >= 2 {
						one = op(k)
					}
					c.Progs = append(c.Progs, []Op25{one})
				}
				emit(c)
			}
		}
		// Any operations.
		for i := 0; i < g.N(60, 800); i++ {
			c := g.world25()
			c.Kind, c.Fresh, c.Rounds = "free", g.Intn(3) == 0, 3
			for n := 0; n < 8; n++ {
				var p []Op25
				for k := 2 + g.Intn(3); k > 0; k-- {
					p = append(p, op(pick(g, keys)))
				}
				c.Progs = append(c.Progs, p)
			}
			emit(c)
		}
		// One stops in the middle while another runs.
		var gates []string
		for k := range ops25 {
			gates = append(gates, k)
		}
		sort.Strings(gates)
		for _, k := range gates {
			for i := 0; i < g.N(8, 60); i++ {
				c := g.world25()
				c.Kind, c.Rounds = "gate", 10
				first := op(k)
				other := op(k)
				if i%2 == 1 {
					other = op(pick(g, keys))
				}
				c.Progs = [][]Op25{{first}, {other, op(pick(g, keys))}}
				emit(c)
			}
		}
	}, run25)
	p.timeout = 120 * time.Second
	p.workers = 4
}
