package main

import (
	"bytes"
	"fmt"
	"io"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// ReadOpt are the options of the PO parser that change what a text means.
type ReadOpt struct {
	Marker   Bs   `json:"marker"`
	Clean    bool `json:"clean"`
	Obsolete bool `json:"obsolete"`
	Skip     bool `json:"skip"`
	NoCom    bool `json:"nocom"`
	NoAll    bool `json:"noall"`
}

func defaultRead() ReadOpt { return ReadOpt{Marker: Bs("~"), Clean: true, Obsolete: true} }

func (o ReadOpt) opts() []parse.PoOption {
	out := []parse.PoOption{
		parse.PoWithCleanDuplicates(o.Clean), parse.PoWithParseObsolete(o.Obsolete), parse.PoWithSkipHeader(o.Skip),
		parse.PoWithIgnoreComments(o.NoCom), parse.PoWithIgnoreAllComments(o.NoAll),
	}
	if m := string(o.Marker); m != "~" {
		out = append(out, parse.PoWithUseCustomObsoletePrefix(true), parse.PoWithCustomObsoletePrefix([]rune(m)[0]))
	}
	return out
}

// CRead is a text to read; Want is what it was made from, if Has.
type CRead struct {
	Text Bs      `json:"text"`
	Opt  ReadOpt `json:"opt"`
	R    int     `json:"r"`
	Has  bool    `json:"has"`
	Want []E     `json:"want"`
}

type ORead struct {
	Err  bool `json:"err"`
	Nil  bool `json:"nil"`
	Name bool `json:"name"` // the file has the given name
	Es   []E  `json:"es"`
	// Failures of the source that were not reported.
	Unseen int `json:"unseen"`
}

// unseen counts the failures of a source, after some of its text, that are not reported.
func unseen(text []byte, r int, read func(io.Reader) error, open func(string) error) (n int) {
	if read(&broken{text: text[:r*7%(len(text)+1)], step: r % 3}) == nil {
		n++
	}
	if r%23 == 0 {
		scratch(func(dir string) {
			if open(filepath.Join(dir, "missing")) == nil || open(dir) == nil {
				n++
			}
		})
	}
	return
}

func runRead(c CRead) (o ORead) {
	opts := c.Opt.opts()
	if reflect.DeepEqual(c.Opt, defaultRead()) && c.R%2 == 0 {
		opts = nil // the defaults
	}
	f, err := readPo(c.Text, c.R, opts...)
	o.Err = err != nil
	o.Nil = f == nil
	if f != nil {
		o.Name = strings.HasSuffix(f.Name, "x.po")
	}
	o.Es = entriesOf(f)
	o.Unseen = unseen(c.Text, c.R, func(r io.Reader) error {
		if c.R%4 < 2 {
			_, err := parse.PoFromReader(r, "x.po", opts...)
			return err
		}
		p, err := parse.NewPoFromReader(r, "x.po", opts...)
		if err == nil {
			p.Parse()
			err = p.Error()
		}
		return err
	}, func(p string) error {
		_, err := parse.Po(p, opts...)
		return err
	})
	return
}

// ---- layouts ----

// layout writes messages in one of the many ways the format allows.
type layout struct {
	g      *G
	nl     string
	indent bool
	marker string
	b      strings.Builder
}

func (l *layout) esc(s string) string {
	var b strings.Builder
	rs := []rune(s)
	for i, r := range rs {
		switch {
		case r == '"':
			b.WriteString(pick(l.g, []string{`\"`, `\"`, `\042`}))
		case r == '\\':
			b.WriteString(pick(l.g, []string{`\\`, `\\`, `\134`}))
		case r == '\n':
			b.WriteString(pick(l.g, []string{`\n`, `\n`, `\n`, `\012`}))
		case r == '\t':
			b.WriteString(pick(l.g, []string{`\t`, "\t", `\011`}))
		case r == '\r':
			b.WriteString(`\r`)
		case r == '\a':
			b.WriteString(`\a`)
		case r == '\b':
			b.WriteString(`\b`)
		case r == '\v':
			b.WriteString(`\v`)
		case r == '\f':
			b.WriteString(`\f`)
		case r < 0x20 || r == 0x7f:
			b.WriteString(fmt.Sprintf(`\%03o`, r))
		case r < 0x80 && l.g.Intn(60) == 0:
			// A hexadecimal escape may not be followed by a digit of its own kind.
			if i+1 < len(rs) && strings.ContainsRune("0123456789abcdefABCDEF", rs[i+1]) {
				b.WriteString(fmt.Sprintf(`\%03o`, r))
			} else {
				b.WriteString(fmt.Sprintf(`\x%02x`, r))
			}
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (l *layout) lead() string {
	if !l.indent {
		return ""
	}
	return pick(l.g, []string{"", "", " ", "\t", "    "})
}

func (l *layout) put(s string) { l.b.WriteString(s + l.nl) }

// cut splits text into pieces at character boundaries.
func (l *layout) cut(s string) []string {
	switch l.g.Intn(4) {
	case 0:
		return []string{s}
	case 1:
		return []string{"", s}
	}
	var out []string
	cur := ""
	for _, r := range s {
		cur += string(r)
		if l.g.Intn(4) == 0 || r == '\n' {
			out = append(out, cur)
			cur = ""
		}
	}
	return append(out, cur)
}

func (l *layout) kw(pre, kw, s string) {
	ps := l.cut(s)
	sep := pick(l.g, []string{" ", " ", " ", "", "  ", "\t"})
	if l.g.Intn(12) == 0 {
		// The first piece on the next line.
		l.put(pre + l.lead() + kw)
		l.put(pre + l.lead() + `"` + l.esc(ps[0]) + `"`)
	} else {
		l.put(pre + l.lead() + kw + sep + `"` + l.esc(ps[0]) + `"` + pick(l.g, []string{"", "", "", " ", "\t "}))
	}
	for _, p := range ps[1:] {
		if l.g.Intn(15) == 0 && pre == "" {
			l.put("")
		}
		l.put(pre + l.lead() + `"` + l.esc(p) + `"`)
	}
}

func (l *layout) list(mark string, xs []string, sep string) {
	for i := 0; i < len(xs); {
		n := 1 + l.g.Intn(len(xs)-i)
		l.put(l.lead() + mark + pick(l.g, []string{" ", "", "  "}) + strings.Join(xs[i:i+n], sep) + pick(l.g, []string{"", "", " "}))
		i += n
	}
}

func reference(c L) string {
	if c.L < 0 {
		return string(c.F)
	}
	return fmt.Sprintf("%s:%d", c.F, c.L)
}

func (l *layout) comments(e E) {
	kinds := l.g.Perm(5)
	for _, k := range kinds {
		switch k {
		case 0:
			for _, c := range e.Com {
				// Without a blank the text might look like another kind of comment.
				if len(c) == 0 {
					l.put(l.lead() + "#")
				} else {
					l.put(l.lead() + "# " + string(c))
				}
			}
		case 1:
			for _, c := range e.Ext {
				l.put(l.lead() + "#." + pick(l.g, []string{" ", "", "  "}) + string(c))
			}
		case 2:
			// References with and without lines stand in comments of their own.
			var xs []string
			for i, c := range e.Locs {
				if len(xs) > 0 && (c.L < 0) != (e.Locs[i-1].L < 0) {
					l.list("#:", xs, pick(l.g, []string{" ", "  "}))
					xs = nil
				}
				xs = append(xs, reference(c))
			}
			l.list("#:", xs, pick(l.g, []string{" ", "  "}))
		case 3:
			l.list("#,", strs(e.Flag), pick(l.g, []string{", ", ",", " , "}))
		case 4:
			if !e.Obs {
				for _, c := range e.Prev {
					l.put(l.lead() + "#|" + pick(l.g, []string{" ", "", "  "}) + string(c))
				}
			}
		}
		if l.g.Intn(20) == 0 {
			l.put("")
		}
	}
}

func (l *layout) entry(e E) {
	l.comments(e)
	pre := ""
	if e.Obs {
		pre = "#" + l.marker + pick(l.g, []string{" ", "", "  "})
		for _, c := range e.Prev {
			l.put("#" + l.marker + pick(l.g, []string{"|", "| ", " | "}) + string(c))
		}
	}
	if len(e.Ctx) > 0 || l.g.Intn(30) == 0 {
		l.kw(pre, "msgctxt", string(e.Ctx))
	}
	l.kw(pre, "msgid", string(e.ID))
	if len(e.Pl) > 0 || len(e.F) > 0 {
		l.kw(pre, "msgid_plural", string(e.Pl))
		for _, f := range e.F {
			l.kw(pre, pick(l.g, []string{fmt.Sprintf("msgstr[%d]", f.I), fmt.Sprintf("msgstr[%d]", f.I), fmt.Sprintf("msgstr [ %d ]", f.I)}), string(f.S))
		}
	} else {
		l.kw(pre, "msgstr", string(e.Str))
	}
}

// layOut is a random layout of es; live and obsolete messages may be mixed.
func (g *G) layOut(es []E, marker string) string {
	l := &layout{g: g, nl: pick(g, []string{"\n", "\n", "\r\n"}), indent: g.Intn(3) == 0, marker: marker}
	for n := g.Intn(3); n > 0; n-- {
		l.put(l.lead())
	}
	for _, e := range es {
		l.entry(e)
		for n := pick(g, []int{0, 1, 1, 1, 2, 4}); n > 0; n-- {
			l.put(l.lead())
		}
	}
	s := l.b.String()
	switch g.Intn(4) {
	case 0:
		s = strings.TrimRight(s, " \t\r\n")
	case 1:
		s += "# a trailing comment" + pick(g, []string{"", l.nl})
	}
	return s
}

// readable is a catalogue whose comments survive every layout.
func (g *G) readable(n int) []E {
	es := g.Catalogue(n)
	clean := func(xs []Bs, first string) []Bs {
		out := []Bs{}
		for _, x := range xs {
			s := strings.TrimLeft(strings.Map(func(r rune) rune {
				if r < 0x20 && r != '\t' || r == 0x7f || r == 0x85 || r == 0xa0 || r == 0x2028 {
					return -1
				}
				return r
			}, string(x)), " \t")
			if s != "" && strings.ContainsAny(s[:1], first) {
				s = "x" + s
			}
			out = append(out, Bs(s))
		}
		return out
	}
	for i := range es {
		es[i].Com = clean(es[i].Com, "")
		es[i].Ext = clean(es[i].Ext, "")
		es[i].Prev = clean(es[i].Prev, "")
		// A form index may be anything.
		if len(es[i].F) > 0 && g.Intn(4) == 0 {
			for k := range es[i].F {
				es[i].F[k].I = pick(g, []int{0, 1, 2, 3, 7, 10, 100})
			}
		}
	}
	return es
}

func liveThenObsolete(es []E) []E {
	out := []E{}
	for _, e := range es {
		if !e.Obs {
			out = append(out, e)
		}
	}
	for _, e := range es {
		if e.Obs {
			out = append(out, e)
		}
	}
	return out
}

func (g *G) readOpt() ReadOpt {
	o := defaultRead()
	switch g.Intn(8) {
	case 0:
		o.Marker = Bs(pick(g, []string{"!", "é", "^", "*", "$", ".", "%"}))
		if string(o.Marker) == "." {
			o.Marker = Bs("@")
		}
	case 1:
		o.Clean = false
	case 2:
		o.Obsolete = false
	case 3:
		o.Skip = true
	case 4:
		o.NoCom = true
	case 5:
		o.NoAll = true
	}
	return o
}

func init() {
	register("C02", func(g *G, emit func(CRead)) {
		for i := 0; i < g.N(1800, 15000); i++ {
			es := g.readable(g.Size())
			text := g.layOut(es, "~")
			emit(CRead{Bs(text), defaultRead(), g.Intn(70), true, liveThenObsolete(es)})
		}
		// Options, repeated messages.
		for i := 0; i < g.N(900, 6000); i++ {
			es := g.readable(g.Size())
			if len(es) > 0 && g.Intn(3) == 0 {
				e := pick(g, es)
				e.Locs = append([]L{}, g.Loc())
				if g.Intn(2) == 0 {
					e.Str, e.F = Bs(g.Text()), []F{}
					e.Pl = nil
				}
				es = append(es, e)
			}
			for i := range es {
				if string(es[i].ID) == "" && string(es[i].Ctx) == "" {
					es[i].Obs = false
				}
			}
			o := g.readOpt()
			emit(CRead{Bs(g.layOut(es, string(o.Marker))), o, g.Intn(70), false, []E{}})
		}
		// References in all their forms.
		for i := 0; i < g.N(200, 1500); i++ {
			var b strings.Builder
			b.WriteString("#: ")
			for n := g.Intn(6); n >= 0; n-- {
				b.WriteString(pick(g, []string{"a.go:1", "b c.go:22", "x:y.go:3", "file.go", "C:\\d\\e.go:5", "a:1", "dir/a.go:007", "1:2", "a.go:12x", ":5", "é.go:9", "a.go:", "z"}))
				b.WriteString(pick(g, []string{" ", "  ", "\t"}))
			}
			emit(CRead{Bs(b.String() + "\nmsgid \"a\"\nmsgstr \"b\"\n"), defaultRead(), i, false, []E{}})
		}
		// Long texts, many messages.
		for i := 0; i < g.N(3, 10); i++ {
			es := g.readable(40)
			emit(CRead{Bs(g.layOut(es, "~")), defaultRead(), i, true, liveThenObsolete(es)})
			es = es[:2]
			es[0].Str, es[0].F, es[0].Pl = Bs(bytes.Repeat([]byte("word é\n"), pick(g, []int{600, 1200}))), []F{}, nil
			emit(CRead{Bs(g.layOut(es, "~")), defaultRead(), i + 3, true, liveThenObsolete(es)})
		}
	}, runRead)

	register("C03", func(g *G, emit func(CRead)) {
		plain := func(s string) { emit(CRead{Bs(s), defaultRead(), g.Intn(70), false, []E{}}) }
		// Every truncation of files that use everything.
		for i := 0; i < g.N(6, 40); i++ {
			s := g.layOut(g.readable(pick(g, []int{1, 2, 3})), "~")
			if len(s) > 700 {
				s = s[:700]
			}
			for k := 0; k <= len(s); k++ {
				plain(s[:k])
			}
		}
		// Mutations: a token or line removed, repeated, swapped or replaced.
		toks := []string{"msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr[0]", "msgstr[1]", `"x"`, `""`, `"`, "[", "]", "0", "1", "\n", " ", "#", "# c\n", "#~ ", "#~ msgid \"o\"\n", "#, fuzzy\n", "#| p\n", "#: a:1\n", "#: a:99999999999999999999\n", "\\", "msg", "msgi", "x", "\r", "\x00", "é", "\xff", "\ufeff", "\u2028", "---", "msgid \"---\"\nmsgstr \"---\"\n", "domain \"x\"\n", "msgstr[-1] \"x\"\n", "msgstr[99999999999999999999] \"x\"\n", "msgstr[ 1 ] \"x\"\n", "\\q", `"\x4"`, `"\xzz"`, `"\8"`, `"\1"`, `"\400"`, `"\u00e9"`}
		for i := 0; i < g.N(3000, 30000); i++ {
			s := g.layOut(g.readable(pick(g, []int{0, 1, 1, 2, 3})), "~")
			for n := 1 + g.Intn(2); n > 0; n-- {
				ls := strings.SplitAfter(s, "\n")
				switch g.Intn(6) {
				case 0:
					k := g.Intn(len(ls))
					ls = append(ls[:k:k], ls[k+1:]...)
				case 1:
					k := g.Intn(len(ls))
					ls[k] = ls[k] + ls[k]
				case 2:
					a, b := g.Intn(len(ls)), g.Intn(len(ls))
					ls[a], ls[b] = ls[b], ls[a]
				case 3:
					k := g.Intn(len(s) + 1)
					ls = []string{s[:k] + pick(g, toks) + s[k:]}
				case 4:
					k := g.Intn(len(ls))
					ls[k] = pick(g, toks) + ls[k]
				case 5:
					if len(s) > 0 {
						k := g.Intn(len(s))
						ls = []string{s[:k] + s[k+1:]}
					}
				}
				s = strings.Join(ls, "")
			}
			plain(s)
		}
		// Sequences of tokens.
		for i := 0; i < g.N(2500, 30000); i++ {
			var b strings.Builder
			for n := g.Intn(12); n >= 0; n-- {
				b.WriteString(pick(g, toks))
				b.WriteString(pick(g, []string{"", " ", "\n"}))
			}
			plain(b.String())
		}
		// Any bytes.
		for c := 0; c < 256; c++ {
			plain(string([]byte{byte(c)}))
			plain("msgid \"a\"\nmsgstr \"b" + string([]byte{byte(c)}) + "\"\n")
			plain("msgid \"a\"" + string([]byte{byte(c)}) + "\nmsgstr \"b\"\n")
			plain("msgid \"a\"\nmsgstr \"\\" + string([]byte{byte(c)}) + "\"\n")
			plain("#" + string([]byte{byte(c)}) + " x\nmsgid \"a\"\nmsgstr \"b\"\n")
			plain("#" + string([]byte{byte(c)}))
		}
		for i := 0; i < g.N(500, 6000); i++ {
			b := make([]byte, g.Intn(40))
			g.Read(b)
			plain(string(b))
		}
		// Deep and long inputs.
		big := g.N(20000, 50000)
		for _, s := range []string{"[", `"`, "#", "\\", "msgid", "#~", "\n", " ", `""`, "msgid \"a\" msgstr \"b\"\n", "#~ msgid \"a\"\n", "msgstr[0] \"\"\n", "#: a\n", `\"`, "1", "#: a:1 "} {
			emit(CRead{Bs(strings.Repeat(s, big/len(s)/4)), defaultRead(), g.Intn(3), false, []E{}})
		}
		// Options keep the answer.
		for i := 0; i < g.N(500, 4000); i++ {
			s := g.layOut(g.readable(2), "~")
			k := g.Intn(len(s) + 1)
			emit(CRead{Bs(s[:k] + pick(g, toks) + s[k:]), g.readOpt(), g.Intn(70), false, []E{}})
		}
	}, runRead)
}
