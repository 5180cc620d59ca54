package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"
	"testing/iotest"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// scratch is a directory that exists only during f.
func scratch(f func(dir string)) {
	dir, err := os.MkdirTemp("", "drv")
	if err != nil {
		die("scratch: %v", err)
	}
	defer os.RemoveAll(dir)
	f(dir)
}

// broken is a source that fails after its text, whole or in pieces.
type broken struct {
	text []byte
	step int
}

var errBroken = errors.New("broken source")

func (b *broken) Read(p []byte) (int, error) {
	n := len(p)
	if b.step > 0 && n > b.step {
		n = b.step
	}
	n = copy(p[:n], b.text)
	b.text = b.text[n:]
	if len(b.text) == 0 {
		return n, errBroken
	}
	return n, nil
}

// slowly gives text in pieces of n bytes, or whole.
func slowly(text []byte, n int) io.Reader {
	switch n % 4 {
	case 0:
		return iotest.OneByteReader(bytes.NewReader(text))
	case 1:
		return iotest.DataErrReader(bytes.NewReader(text))
	case 2:
		return iotest.HalfReader(bytes.NewReader(text))
	}
	return bytes.NewReader(text)
}

// silent takes what is logged.
var silent = log.New(io.Discard, "", 0)

// Logging never changes a result: n chooses who listens.
func chatPo(n int, opts []compile.PoOption) []compile.PoOption {
	return append(opts[:len(opts):len(opts)], [][]compile.PoOption{nil, {compile.PoWithVerbose(true)}, {compile.PoWithLogger(silent)}, {compile.PoWithVerbose(true), compile.PoWithLogger(silent)}}[n%4]...)
}

func chatMo(n int, opts []compile.MoOption) []compile.MoOption {
	return append(opts[:len(opts):len(opts)], [][]compile.MoOption{nil, {compile.MoWithVerbose(true)}, {compile.MoWithLogger(silent)}, {compile.MoWithVerbose(true), compile.MoWithLogger(silent)}}[n%4]...)
}

func chatReadPo(n int, opts []parse.PoOption) []parse.PoOption {
	return append(opts[:len(opts):len(opts)], [][]parse.PoOption{nil, {parse.PoWithVerbose(true)}, {parse.PoWithLogger(silent)}, {parse.PoWithVerbose(true), parse.PoWithLogger(silent)}}[n%4]...)
}

func chatReadMo(n int, opts []parse.MoOption) []parse.MoOption {
	return append(opts[:len(opts):len(opts)], [][]parse.MoOption{nil, {parse.MoWithLogger(silent)}}[n%2]...)
}

// writePo writes a catalogue through one of the public ways.
func writePo(file *po.File, route int, opts ...compile.PoOption) (text []byte, err error) {
	opts = chatPo(len(file.Entries)+route/8, opts)
	switch route % 8 {
	case 0:
		return compile.PoToBytes(file, opts...), nil
	case 1:
		return []byte(compile.PoToString(*file, opts...)), nil
	case 2:
		var b bytes.Buffer
		err = compile.PoToWriter(file.Entries, &b, opts...)
		return b.Bytes(), err
	case 3:
		scratch(func(dir string) {
			p := filepath.Join(dir, "x.po")
			if err = compile.PoToFile(file, p, opts...); err == nil {
				text, err = os.ReadFile(p)
			}
		})
		return
	case 4:
		c := compile.NewPo(file)
		return c.ToBytesWithOptions(opts...), nil
	case 5:
		c := compile.NewPo(&po.File{})
		c.SetFile(file)
		return []byte(c.ToStringWithOptions(opts...)), nil
	case 6:
		var b bytes.Buffer
		c := compile.NewPo(file)
		err = c.ToWriterWithOptions(&b, opts...)
		return b.Bytes(), err
	default:
		scratch(func(dir string) {
			p := filepath.Join(dir, "x.po")
			c := compile.NewPo(file)
			if err = c.ToFileWithOptions(p, opts...); err == nil {
				text, err = os.ReadFile(p)
			}
		})
		return
	}
}

// readPo reads PO text through one of the public ways.
func readPo(text []byte, route int, opts ...parse.PoOption) (f *po.File, err error) {
	opts = chatReadPo(len(text)+route/7, opts)
	switch route % 7 {
	case 0:
		return parse.PoFromBytes(text, "x.po", opts...)
	case 1:
		return parse.PoFromString(string(text), "x.po", opts...)
	case 2:
		return parse.PoFromReader(slowly(text, route/7), "x.po", opts...)
	case 3:
		scratch(func(dir string) {
			p := filepath.Join(dir, "x.po")
			if e := os.WriteFile(p, text, 0o600); e != nil {
				die("%v", e)
			}
			f, err = parse.Po(p, opts...)
		})
		return
	case 4:
		scratch(func(dir string) {
			p := filepath.Join(dir, "x.po")
			if e := os.WriteFile(p, text, 0o600); e != nil {
				die("%v", e)
			}
			h, e := os.Open(p)
			if e != nil {
				die("%v", e)
			}
			defer h.Close()
			f, err = parse.PoFromFile(h, opts...)
		})
		return
	case 5:
		p := parse.NewPoFromBytes(text, "x.po", opts...)
		f = p.Parse()
		if es := p.Errors(); len(es) > 0 {
			err = es[len(es)-1]
		}
		return
	default:
		p := parse.NewPoFromString(string(text), "x.po")
		f = p.ParseWithOptions(opts...)
		return f, p.Error()
	}
}

func entriesOf(f *po.File) []E {
	if f == nil {
		return []E{}
	}
	return fromEntries(f.Entries)
}

type C01 struct {
	Es   []E  `json:"es"`
	Wrap bool `json:"wrap"`
	W    int  `json:"w"`
	R    int  `json:"r"`
}

type O01 struct {
	Text Bs   `json:"text"`
	Err  bool `json:"err"`
	Es   []E  `json:"es"`
}

// plainEntry has all fields present and empty.
func plainEntry(id string) E {
	return E{ID: Bs(id), F: []F{}, Flag: []Bs{}, Com: []Bs{}, Ext: []Bs{}, Prev: []Bs{}, Locs: []L{}}
}

// bare drops the forms of some plural messages, as in a catalogue just extracted.
func (g *G) bare(es []E) []E {
	for i := range es {
		if len(es[i].Pl) > 0 && g.Intn(6) == 0 {
			es[i].F = []F{}
		}
	}
	return es
}

func smallStrings() []string {
	alpha := []string{`"`, `\`, "\n", "\t", "\r", "\x00", "\a", "\b", "\v", "\f", "\x1b", "\x7f", "n", "0", "é", "#", "\u2028", "\ufffd"}
	out := append([]string{}, alpha...)
	for _, a := range alpha {
		for _, b := range alpha {
			out = append(out, a+b)
		}
	}
	for c := 0; c < 0x80; c++ {
		out = append(out, string(rune(c)), string(rune(c))+"1", "x"+string(rune(c)))
	}
	for _, a := range alpha[:4] {
		for _, b := range alpha[:4] {
			for _, c := range alpha[:4] {
				out = append(out, a+b+c)
			}
		}
	}
	return out
}

// nears are texts that are almost t.
func nears(t string) []string {
	out := []string{t, t + "\n", t + " ", t + "\r\n", t + "\t", "\n" + t, " " + t, strings.TrimSpace(t), strings.ToUpper(t), strings.ToLower(t), t + t, t + ".", t + "\n\n", t[:len(t)-1]}
	return out
}

// relatedEntries are messages one of whose texts is almost another one, with distinct keys in each list.
func relatedEntries() [][]E {
	var out [][]E
	fields := func(e *E) []*Bs { return []*Bs{&e.Ctx, &e.ID, &e.Pl, &e.F[0].S, &e.F[1].S, &e.Str} }
	for _, t := range []string{"Ab c", "x\n", " y "} {
		for _, n := range nears(t) {
			var es []E
			seen := map[string]bool{}
			for a := 0; a < 6; a++ {
				for b := 0; b < 6; b++ {
					if a == b || a == 5 && (b == 2 || b == 3 || b == 4) || b == 5 && (a == 2 || a == 3 || a == 4) {
						continue
					}
					e := plainEntry(fmt.Sprint("id", a, b))
					e.Ctx, e.Pl, e.F = Bs(fmt.Sprint("ctx", a, b)), Bs("pl"), []F{{0, Bs("f0")}, {1, Bs("f1")}}
					fs := fields(&e)
					*fs[a], *fs[b] = Bs(t), Bs(n)
					if a == 5 || b == 5 {
						e.Pl, e.F = Bs{}, []F{}
					}
					if (len(e.Pl) == 0 && len(e.F) > 0) || seen[key(e)] || key(e) == "" {
						continue
					}
					seen[key(e)] = true
					es = append(es, e)
				}
			}
			out = append(out, es)
		}
	}
	return out
}

func init() {
	register("C01", func(g *G, emit func(C01)) {
		// Every small string in every text position.
		n := 0
		var es []E
		flush := func() {
			if len(es) > 0 {
				emit(C01{es, n%2 == 0, n % 8, n % 7})
				n++
				es = nil
			}
		}
		seen := map[string]bool{}
		for _, s := range smallStrings() {
			if seen[s] {
				continue
			}
			seen[s] = true
			e := plainEntry("k" + s)
			e.Str = Bs(s)
			es = append(es, e)
			p := plainEntry(s)
			p.Ctx = Bs("c")
			p.Pl = Bs("p" + s)
			p.F = []F{{0, Bs(s)}, {1, Bs(s + "x")}}
			if !bytes.Contains(p.ID, []byte{4}) {
				es = append(es, p)
			}
			c := plainEntry("id")
			c.Ctx = Bs(s + "c")
			c.Str = Bs("x" + s)
			c.Obs = n%3 == 0
			es = append(es, c)
			if len(es) > 40 {
				flush()
			}
		}
		flush()
		// Every shape of a message: plural/context/obsolete/flags/comments/references.
		for shape := 0; shape < 512; shape++ {
			e := plainEntry("id")
			on := func(bit int) bool { return shape&(1<<bit) != 0 }
			if on(0) {
				e.Ctx = Bs("ctx")
			}
			if on(1) {
				e.Pl, e.F = Bs("ids"), []F{{0, Bs("a")}, {1, Bs("b")}}
			} else {
				e.Str = Bs("s")
			}
			e.Obs = on(2)
			if on(3) {
				e.Flag = []Bs{Bs("fuzzy"), Bs("c-format")}
			}
			if on(4) {
				e.Com = []Bs{Bs("one"), {}, Bs("two: 2")}
			}
			if on(5) {
				e.Ext = []Bs{Bs("ext one"), Bs(".two")}
			}
			if on(6) {
				e.Prev = []Bs{Bs(`msgid "old"`), Bs("| x")}
			}
			if on(7) {
				e.Locs = []L{{Bs("a.go"), 1}, {Bs("b c.go"), 22}}
			}
			// The second message must not be touched by the first.
			f := plainEntry("other")
			f.Str = Bs("o")
			f.Obs = on(8)
			es := []E{e, f}
			if shape%3 == 1 {
				es = []E{f, e}
			}
			emit(C01{es, shape%5 == 0, shape % 8, shape % 7})
		}
		for i, es := range relatedEntries() {
			emit(C01{es, i%3 == 0, i % 8, i % 7})
		}
		// Forms numbered in any order and with gaps.
		for i := 0; i < g.N(40, 300); i++ {
			e := plainEntry("id")
			e.Pl = Bs("ids")
			for k, n := range g.Perm(8)[:1+g.Intn(4)] {
				e.F = append(e.F, F{n, Bs(fmt.Sprint("form ", k))})
			}
			emit(C01{[]E{e}, i%2 == 0, i % 8, i % 7})
		}
		for i := 0; i < g.N(1500, 12000); i++ {
			emit(C01{g.bare(g.Catalogue(g.Size())), g.Intn(3) == 0, g.Intn(8), g.Intn(7)})
		}
		// Sizes around buffers, many forms, many messages.
		for i := 0; i < g.N(4, 12); i++ {
			es := g.Catalogue(3)
			for k := range es {
				es[k].Str, es[k].F, es[k].Pl = Bs(bytes.Repeat([]byte(pick(g, []string{"a", "é", "\\", "\n", `"`})), pick(g, []int{1023, 4095, 4096, 4097}))), []F{}, nil
			}
			emit(C01{es, i%2 == 0, i % 8, i % 7})
		}
		for i := 0; i < g.N(2, 8); i++ {
			emit(C01{g.Catalogue(60), i%2 == 0, i % 8, i % 7})
		}
	}, func(c C01) (o O01) {
		file := &po.File{Name: "x.po", Entries: toEntries(c.Es)}
		text, err := writePo(file, c.W, compile.PoWithWordWrap(c.Wrap))
		o.Text = text
		if err != nil {
			o.Err = true
			return
		}
		f, err := readPo(text, c.R)
		o.Err = err != nil
		o.Es = entriesOf(f)
		return
	})
}
