package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// ---- C18: parsers and compilers used again ----

type Op18 struct {
	Op string `json:"op"` // run, spoil
	I  int    `json:"i"`  // input
	K  int    `json:"k"`  // answer to spoil
	N  int    `json:"n"`  // options
}

type C18 struct {
	Kind   string `json:"kind"`
	Inputs []Bs   `json:"inputs"` // texts
	Cats   [][]E  `json:"cats"`   // or catalogues
	Ops    []Op18 `json:"ops"`
}

type Step18 struct {
	Res    string   `json:"res"`
	Errs   string   `json:"errs"`
	Fresh  string   `json:"fresh"`
	FErrs  string   `json:"ferrs"`
	Old    []string `json:"old"`
	Inputs []string `json:"inputs"`
}

type O18 struct {
	Start []string `json:"start"`
	Steps []Step18 `json:"steps"`
}

// ans18 is what one run gave.
type ans18 struct {
	file *po.File
	text []byte
	errs []error
	note string
}

func (a ans18) res() string {
	return digest([]byte(fmt.Sprint(a.file == nil, string(mustJSON(entriesOf(a.file))), string(a.text), a.note)))
}

func (a ans18) old() string { return a.res() + digest([]byte(errorsText(a.errs))) }

func spoilStrings(xs []string) {
	for i := range xs {
		xs[i] = "spoilt"
	}
}

// spoil changes everything that the answer consists of.
func (a *ans18) spoil() {
	for i := range a.text {
		a.text[i] ^= 0x55
	}
	for i := range a.errs {
		a.errs[i] = fmt.Errorf("spoilt")
	}
	if a.file == nil {
		return
	}
	es := a.file.Entries
	for i := range es {
		spoilStrings(es[i].Flags)
		spoilStrings(es[i].Comments)
		spoilStrings(es[i].ExtractedComments)
		spoilStrings(es[i].Previous)
		for k := range es[i].Plurals {
			es[i].Plurals[k] = po.PluralEntry{ID: 77, Str: "spoilt"}
		}
		for k := range es[i].Locations {
			es[i].Locations[k] = po.Location{Line: 77, File: "spoilt"}
		}
		es[i].ID, es[i].Str, es[i].Context, es[i].Plural, es[i].Obsolete = "spoilt", "spoilt", "spoilt", "spoilt", true
		es[i].Flags = append(es[i].Flags, "spoilt")
		es[i].Locations = append(es[i].Locations, po.Location{Line: 78})
	}
	a.file.Entries = append(es, po.Entry{ID: "spoilt"})
	a.file.Name = "spoilt"
}

// limited fails after n bytes.
type limited struct {
	n int
	b bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	if len(p) <= l.n {
		l.n -= len(p)
		return l.b.Write(p)
	}
	k, _ := l.b.Write(p[:l.n])
	l.n = 0
	return k, fmt.Errorf("full")
}

// machine18 runs on input i with options n.
type machine18 func(i, n int) ans18

func poOpts18(n int) []parse.PoOption {
	var out []parse.PoOption
	if n%2 == 1 {
		out = append(out, parse.PoWithIgnoreComments(n%3 == 1), parse.PoWithCleanDuplicates(n%4 == 1))
	}
	if n%5 == 1 {
		out = append(out, parse.PoWithSkipHeader(true), parse.PoWithParseObsolete(n%2 == 0))
	}
	return out
}

func machine18of(kind string, inputs [][]byte, files []*po.File) machine18 {
	switch kind {
	case "parsepo":
		ps := map[int]*parse.PoParser{}
		return func(i, n int) ans18 {
			p := ps[i]
			if p == nil {
				p = parse.NewPoFromBytes(inputs[i], fmt.Sprintf("%d.po", i))
				ps[i] = p
			}
			var f *po.File
			if opts := poOpts18(n); len(opts) > 0 {
				f = p.ParseWithOptions(opts...)
			} else {
				f = p.Parse()
			}
			return ans18{file: f, errs: p.Errors(), note: fmt.Sprint(p.Error()) + errorsText(p.Warnings())}
		}
	case "parsemo":
		ps := map[int]*parse.MoParser{}
		return func(i, n int) ans18 {
			p := ps[i]
			if p == nil {
				p = parse.NewMoFromBytes(inputs[i], fmt.Sprintf("%d.mo", i))
				ps[i] = p
			}
			var f *po.File
			switch n % 4 {
			case 1:
				f = p.ParseWithOptions(parse.MoWithMustBeSorted(true))
			case 2:
				f = p.ParseWithOptions(parse.MoWithEndianness(parse.Endianness(n / 4 % 3)))
			default:
				f = p.Parse()
			}
			return ans18{file: f, errs: p.Errors(), note: fmt.Sprint(p.Error())}
		}
	case "go":
		ps := map[int]*goparse.Parser{}
		return func(i, n int) ans18 {
			p := ps[i]
			if p == nil {
				var err error
				p, err = goparse.NewParserFromBytes(inputs[i], fmt.Sprintf("%d.go", i))
				if err != nil {
					return ans18{note: err.Error()}
				}
				ps[i] = p
			}
			var f *po.File
			switch n % 4 {
			case 1:
				f = p.ParseWithOptions(goparse.WithExtractAll(true))
			case 2:
				f = p.ParseWithOptions(goparse.WithCleanDuplicates(false), goparse.WithNoHeader(true))
			default:
				f = p.Parse()
			}
			return ans18{file: f, errs: p.Errors(), note: fmt.Sprint(p.Error())}
		}
	case "gofile":
		var f *goparse.File
		current := [2]int{-1, -1}
		return func(i, n int) ans18 {
			cfg := goparse.DefaultConfig(goparse.WithExtractAll(n%4 == 1))
			want := [2]int{i, n % 4}
			name := fmt.Sprintf("%d.go", i)
			if f == nil {
				x, err := goparse.NewFileFromBytes(inputs[i], name, &cfg)
				if err != nil {
					return ans18{note: err.Error()}
				}
				f, current = x, want
			} else if current != want || n%5 == 0 {
				c := &cfg
				if n%4 == 3 {
					c = nil
				}
				if err := f.Reset(bytes.NewReader(inputs[i]), name, c); err != nil {
					current = [2]int{-1, -1}
					return ans18{note: err.Error()}
				}
				current = want
			}
			es := f.Entries()
			return ans18{file: &po.File{Entries: es}, errs: f.Errors(), note: fmt.Sprint(f.Error())}
		}
	case "po":
		var c *compile.PoCompiler
		return func(i, n int) ans18 {
			if c == nil {
				x := compile.NewPo(files[i])
				c = &x
			} else if c.File != files[i] || n%3 == 0 {
				c.SetFile(files[i])
			}
			switch n % 6 {
			case 0, 1:
				return ans18{text: c.ToBytes()}
			case 2:
				w := &limited{n: n}
				err := c.ToWriter(w)
				return ans18{text: w.b.Bytes(), note: fmt.Sprint(err)}
			case 3:
				return ans18{text: c.ToBytesWithOptions(compile.PoWithOmitHeader(true), compile.PoWithWordWrap(true))}
			case 4:
				return ans18{text: []byte(c.ToStringWithOptions(compile.PoWithManageHeader(true), compile.PoWithHeaderFields(true)))}
			}
			var b bytes.Buffer
			err := c.ToWriterWithOptions(&b, compile.PoWithHighlight(compile.DefaultHighlight))
			return ans18{text: b.Bytes(), note: fmt.Sprint(err)}
		}
	}
	var c *compile.MoCompiler
	return func(i, n int) ans18 {
		if c == nil {
			x := compile.NewMo(files[i])
			c = &x
		} else if c.File != files[i] || n%3 == 0 {
			c.SetFile(files[i])
		}
		switch n % 5 {
		case 0, 1:
			return ans18{text: c.ToBytes()}
		case 2:
			w := &limited{n: n}
			err := c.ToWriter(w)
			return ans18{text: w.b.Bytes(), note: fmt.Sprint(err)}
		case 3:
			return ans18{text: c.ToBytesWithOptions(compile.MoWithHashTable(false), compile.MoWithEndianness(compile.BigEndian))}
		}
		err := c.ToWriterWithOptions(io.Discard, compile.MoWithSortEntries(false))
		return ans18{note: fmt.Sprint(err)}
	}
}

func run18(c C18) (o O18) {
	var inputs, spares [][]byte
	for _, in := range c.Inputs {
		// The memory behind an input belongs to somebody else.
		full := append(append(make([]byte, 0, len(in)+512), in...), bytes.Repeat([]byte("SPARE!!!"), 64)...)
		inputs, spares = append(inputs, full[:len(in)]), append(spares, full)
	}
	var files []*po.File
	var cats []cat16
	for i, es := range c.Cats {
		x := newCat(fmt.Sprintf("%d.po", i), es)
		files, cats = append(files, x.file), append(cats, x)
	}
	see := func() []string {
		out := []string{}
		for i := range c.Inputs {
			out = append(out, digest(spares[i]))
		}
		for _, x := range cats {
			out = append(out, x.digest())
		}
		return out
	}
	o.Start = see()
	m := machine18of(c.Kind, inputs, files)
	var old []*ans18
	for _, op := range c.Ops {
		s := Step18{Old: []string{}}
		if op.Op == "spoil" {
			old[op.K].spoil()
		} else {
			// An instance of its own on a copy of the input.
			var ins [][]byte
			for _, in := range c.Inputs {
				ins = append(ins, bytes.Clone(in))
			}
			var fs []*po.File
			for i, es := range c.Cats {
				fs = append(fs, &po.File{Name: fmt.Sprintf("%d.po", i), Entries: toEntries(es)})
			}
			fresh := machine18of(c.Kind, ins, fs)(op.I, op.N)
			a := m(op.I, op.N)
			s.Res, s.Errs, s.Fresh, s.FErrs = a.res(), digest([]byte(errorsText(a.errs))), fresh.res(), digest([]byte(errorsText(fresh.errs)))
			old = append(old, &a)
		}
		for _, a := range old {
			s.Old = append(s.Old, a.old())
		}
		s.Inputs = see()
		o.Steps = append(o.Steps, s)
	}
	return
}

var goTexts18 = append([]string{
	"package p\n\nimport g \"github.com/leonelquinteros/gotext\"\n\nfunc f() { g.Get(\"a\"); g.GetD(\"d\", \"b\"); gotext.Get(\"no\") }\n",
	"package p\n\nfunc f() { gotext.Get(\"not imported\") }\n",
	"package p\n\nfunc broken( {\n",
	"",
	"package p\r\n\r\nimport \"github.com/leonelquinteros/gotext\"\r\n\r\nvar a = gotext.Get(`raw\r\nline`)\r\nvar b = gotext.GetC(\"x\", y)\r\nvar c = gotext.GetN(\"n\")\r\n",
}, sources17...)

func init() {
	register("C18", func(g *G, emit func(C18)) {
		kinds := []string{"parsepo", "parsemo", "go", "gofile", "po", "mo"}
		for _, kind := range kinds {
			for i := 0; i < g.N(250, 3000); i++ {
				c := C18{Kind: kind, Inputs: []Bs{}, Cats: [][]E{}}
				n := 1 + g.Intn(3)
				for k := 0; k < n; k++ {
					switch kind {
					case "parsepo":
						text := g.layOut(liveThenObsolete(g.readable(g.Size())), "~")
						switch g.Intn(5) {
						case 0:
							text = pick(g, texts17)
						case 1:
							if len(text) > 0 {
								text = text[:g.Intn(len(text))]
							}
						case 2:
							text += pick(g, []string{"#: a.go:99999999999999999999\nmsgid \"z\"\nmsgstr \"\"\n", "#~ msgid\n", "msgid \"x\" msgid\n", "#~ msgid \"x\"\n#~ msgstr \"y\n"})
						}
						c.Inputs = append(c.Inputs, Bs(text))
					case "parsemo":
						mo := quietly(g.compilable(g.Size()), compile.MoWithEndianness(compile.Endianness(g.Intn(3))), compile.MoWithSortEntries(g.Intn(4) != 0))
						switch g.Intn(4) {
						case 0:
							mo = mo[:g.Intn(len(mo)+1)]
						case 1:
							mo = bytes.Clone(mo)
							if len(mo) > 0 {
								mo[g.Intn(len(mo))] ^= byte(1 + g.Intn(255))
							}
						}
						c.Inputs = append(c.Inputs, Bs(mo))
					case "go", "gofile":
						text := pick(g, goTexts18)
						if g.Intn(4) == 0 {
							text = strings.Replace(text, `"a"`, pick(g, []string{"\"A\"", "`r`", `""`, "x", "\"two\\nlines\""}), 1)
						}
						c.Inputs = append(c.Inputs, Bs(text))
					default:
						d, r := g.mergeCats(g.Intn(3) == 0)
						c.Cats = append(c.Cats, append(d, r...))
					}
				}
				runs := 0
				for k := 2 + g.Intn(6); k > 0; k-- {
					op := Op18{Op: "run", I: g.Intn(n), N: g.Intn(420)}
					if runs > 0 && g.Intn(4) == 0 {
						op = Op18{Op: "spoil", K: g.Intn(runs)}
					} else {
						runs++
					}
					c.Ops = append(c.Ops, op)
				}
				emit(c)
			}
		}
	}, run18)
}
