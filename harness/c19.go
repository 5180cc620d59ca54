package main

import (
	"bytes"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// ---- C19, C20, C21: extraction from Go sources ----

type F19 struct {
	Name Bs `json:"name"`
	Src  Bs `json:"src"`
}

type C19 struct {
	Files []F19 `json:"files"`
	All   bool  `json:"all"`
	Clean bool  `json:"clean"`
	Hdr   int   `json:"hdr"` // 0 none, 1 default, 2 custom, 3 from a configuration
	HText Bs    `json:"htext"`
	Disk  bool  `json:"disk"`
}

type W19 struct {
	Way  string `json:"way"`
	Es   []E    `json:"es"`
	Bad  bool   `json:"bad"`
	Lost bool   `json:"lost"`
}

type O19 struct {
	Ways []W19 `json:"ways"`
}

func run19(c C19) (o O19) {
	opts := []goparse.Option{
		goparse.WithExtractAll(c.All), goparse.WithCleanDuplicates(c.Clean), goparse.WithNoHeader(c.Hdr == 0),
	}
	switch c.Hdr {
	case 2:
		h := po.Header{Fields: []po.HeaderField{{Key: "Language", Value: "xx"}}}
		opts = append(opts, goparse.WithCustomHeader(&h))
	case 3:
		h := po.DefaultTemplateHeaderConfig()
		h.Language = "yy"
		opts = append(opts, goparse.WithHeaderConfig(&h))
	}
	switch n := len(c.Files[0].Src); n % 4 {
	case 1:
		opts = append(opts, goparse.WithVerbose(true))
	case 2:
		opts = append(opts, goparse.WithLogger(silent))
	case 3:
		opts = append(opts, goparse.WithVerbose(true), goparse.WithLogger(silent))
	}
	add := func(way string, f *po.File, bad bool, strip string) {
		w := W19{Way: way, Bad: bad, Lost: f == nil, Es: []E{}}
		if f != nil {
			es := f.Entries
			if strip != "" {
				es = po.Entries(append([]po.Entry(nil), es...))
				for i := range es {
					ls := append(po.Locations(nil), es[i].Locations...)
					for k := range ls {
						ls[k].File = strings.TrimPrefix(ls[k].File, strip)
					}
					es[i].Locations = ls
				}
			}
			w.Es = fromEntries(es)
		}
		o.Ways = append(o.Ways, w)
	}
	if len(c.Files) == 1 {
		name, src := string(c.Files[0].Name), []byte(c.Files[0].Src)
		if p, err := goparse.NewParserFromBytes(src, name, opts...); err != nil {
			add("bytes", nil, true, "")
		} else {
			f := p.Parse()
			add("bytes", f, len(p.Errors()) > 0 || p.Error() != nil, "")
		}
		f, err := goparse.FromReader(bytes.NewReader(src), name, opts...)
		add("reader", f, err != nil, "")
		if len(src)%3 == 0 {
			f, err = goparse.FromString(string(src), name, opts...)
			add("string", f, err != nil, "")
			f, err = goparse.FromBytes(src, name, opts...)
			add("bytes2", f, err != nil, "")
		}
		if p, err := goparse.NewParserFromString(string(src), name, goparse.WithExtractAll(!c.All)); err != nil {
			add("options", nil, true, "")
		} else {
			f := p.ParseWithOptions(opts...)
			add("options", f, p.Error() != nil, "")
		}
		cfg := goparse.DefaultConfig(opts...)
		if x, err := goparse.NewFileFromBytes(src, name, &cfg); err != nil {
			add("file", nil, true, "")
		} else {
			es := x.Entries()
			add("file", &po.File{Entries: es}, x.Error() != nil, "")
		}
	}
	if c.Disk || len(c.Files) != 1 {
		dir, err := os.MkdirTemp("", "c19")
		if err != nil {
			die("%v", err)
		}
		defer os.RemoveAll(dir)
		var paths []string
		var files []*os.File
		for _, f := range c.Files {
			p := filepath.Join(dir, string(f.Name))
			if err := os.WriteFile(p, f.Src, 0o600); err != nil {
				die("%v", err)
			}
			x, err := os.Open(p)
			if err != nil {
				die("%v", err)
			}
			defer x.Close()
			paths, files = append(paths, p), append(files, x)
		}
		strip := dir + "/"
		f, err := goparse.FromPaths(paths, opts...)
		add("paths", f, err != nil, strip)
		f, err = goparse.FromFiles(files, opts...)
		add("files", f, err != nil, strip)
		if len(paths) == 1 {
			f, err = goparse.FromPath(paths[0], opts...)
			add("path", f, err != nil, strip)
			x, err := os.Open(paths[0])
			if err != nil {
				die("%v", err)
			}
			defer x.Close()
			f, err = goparse.FromFile(x, opts...)
			add("file2", f, err != nil, strip)
		}
	}
	return
}

// ---- sources ----

// src builds one Go file.  In templates, § is a place where a line may end and ¤ one where
// a comment or blank may stand.
type src struct {
	g    *G
	all  bool
	pkg  string
	text []string // literals to choose from
	n    int
}

var words19 = []string{
	"a", "b", "Hello", "Hello, %s!", "", "", "ñandú", "日本\n語", "tab\there", "quote\"d", "back\\slash", "`tick", "//no", "/* no */", "gotext.Get(\"x\")",
	"import", "\r\n", "'", "%", "\x00", "\xff\xfe", "line1\nline2\nline3", " ", "x.go:1", "\U0001F600", "\a\b\f\v\x7f", "{", ")", "(,", "\\", "é",
}

func (s *src) quote(v string) string {
	g := s.g
	if strconv.CanBackquote(v) || (strings.Contains(v, "\n") && strconv.CanBackquote(strings.ReplaceAll(v, "\n", ""))) {
		if g.Intn(3) == 0 {
			return "`" + v + "`"
		}
	}
	switch g.Intn(8) {
	case 0:
		return strconv.QuoteToASCII(v)
	case 1, 2:
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(v); i++ {
			c := v[i]
			switch {
			case g.Intn(4) == 0:
				fmt.Fprintf(&b, pick(g, []string{"\\x%02x", "\\%03o", "\\x%02X"}), c)
			case c < 32 || c == '"' || c == '\\' || c >= 127:
				fmt.Fprintf(&b, pick(g, []string{"\\x%02x", "\\%03o"}), c)
			default:
				b.WriteByte(c)
			}
		}
		b.WriteByte('"')
		return b.String()
	case 3:
		var b strings.Builder
		b.WriteByte('"')
		for _, c := range v {
			if c == 0xFFFD || c == '"' || c == '\\' || c < 32 {
				return strconv.Quote(v)
			}
			if c > 0xFFFF {
				fmt.Fprintf(&b, "\\U%08x", c)
			} else if g.Intn(2) == 0 {
				fmt.Fprintf(&b, "\\u%04X", c)
			} else {
				b.WriteRune(c)
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	return strconv.Quote(v)
}

func (s *src) lit() string {
	if len(s.text) > 0 && s.g.Intn(3) == 0 {
		return s.quote(pick(s.g, s.text))
	}
	v := pick(s.g, words19)
	if s.g.UTF8 && !utf8.ValidString(v) {
		v = "\u00ff"
	}
	if s.g.Intn(2) == 0 {
		s.n++
		v += strconv.Itoa(s.n)
	}
	s.text = append(s.text, v)
	return s.quote(v)
}

var methods19 = map[string]int{"Get": 1, "GetN": 3, "GetD": 2, "GetND": 4, "GetC": 2, "GetNC": 4, "GetDC": 3, "GetNDC": 5}
var names19 = []string{"Get", "GetN", "GetD", "GetND", "GetC", "GetNC", "GetDC", "GetNDC"}

// expr is an expression that is no literal and has no comma outside brackets.
func (s *src) expr(depth int) string {
	g := s.g
	t := []string{"x", "n", "x.y", "f()", "1 + 2", "-1", "x[0]", "x[\"§\"]", "&x", "nil", "true", "len(x)", "1.5e-3 * n", "[]int{1,§2}", "'\"' + 1", "!b", "x.(string)", "g2[int, string](x)"}
	if depth > 0 {
		t = append(t, "f(@,§@)", "@ +¤§@", "map[string]string{@:§@,§@: @}", "func() string { return @ }()", "[]string{@,§@}", "T{A:¤@}", "x[@]", "fmt.Sprintf(@,§@)", "@ + x", "struct{ s string }{@}.s")
		if g.Intn(2) == 0 {
			return s.call(depth - 1)
		}
	}
	return s.fill(pick(g, t), depth-1)
}

func (s *src) fill(t string, depth int) string {
	for strings.Contains(t, "@") {
		v := ""
		if depth > 0 && s.g.Intn(4) == 0 {
			v = s.expr(depth - 1)
		} else {
			v = strings.ReplaceAll(s.lit(), "@", "A")
		}
		t = strings.Replace(t, "@", v, 1)
	}
	return t
}

// call is a call of the gotext family, or something that looks like one.
func (s *src) call(depth int) string {
	g := s.g
	name := pick(g, names19)
	n := methods19[name]
	pkg := s.pkg
	switch g.Intn(14) {
	case 0:
		pkg = pick(g, []string{"other", "x." + s.pkg, "f()", "x[0]", "po.gotext", "goText", "gotext2"})
	case 1:
		name = pick(g, []string{"Getx", "get", "GetX", "GetCN", "GetNDCx", "Set", "NewLocale"})
	}
	var args []string
	for i := 0; i < n; i++ {
		switch {
		case g.Intn(9) == 0 && !g.Sound:
			args = append(args, s.expr(depth))
		case g.Intn(40) == 0 && !g.Sound:
			args = append(args, pick(g, []string{"1", "2.5", "'x'", "0x1F", "1i"}))
		case (name == "GetN" && i == 2) || (name == "GetNC" && i == 2) || (strings.HasPrefix(name, "GetND") && i == 3):
			args = append(args, pick(g, []string{"1", "n", "len(x)", "f(1,§2)", "int('x')", "n +¤1"}))
		default:
			args = append(args, s.lit())
		}
	}
	switch g.Intn(12) {
	case 0:
		if !g.Sound {
			args = args[:g.Intn(len(args)+1)]
		}
	case 1, 2, 3:
		for k := 1 + g.Intn(2); k > 0; k-- {
			if g.Intn(2) == 0 {
				args = append(args, s.expr(depth))
			} else {
				args = append(args, s.lit())
			}
		}
	}
	out := pkg + "¤.§" + name + "¤(§" + strings.Join(args, "¤,§")
	if len(args) > 0 && g.Intn(5) == 0 {
		out += ",§"
	}
	return out + ")"
}

func (s *src) stmt(depth int) string {
	g := s.g
	c := func() string { return s.call(2) }
	e := func() string {
		if g.Intn(2) == 0 {
			return c()
		}
		return s.lit()
	}
	block := func() string {
		if depth <= 0 {
			return ""
		}
		var b strings.Builder
		for k := g.Intn(3); k > 0; k-- {
			b.WriteString(s.stmt(depth - 1))
		}
		return b.String()
	}
	switch g.Intn(24) {
	case 0, 1, 2, 3, 4:
		return c() + "\n"
	case 5:
		return "_ =¤" + e() + "\n"
	case 6:
		return "x :=¤" + e() + " +¤§" + e() + "; _ = x\n"
	case 7:
		return "if x == " + e() + " && " + e() + "¤!= x {\n" + block() + "} else {\n" + block() + "}\n"
	case 8:
		return "for i := " + s.lit() + "; i != " + s.lit() + "; i += " + e() + " {\n" + block() + "}\n"
	case 9:
		return "for range " + e() + " {\n" + block() + "}\n"
	case 10:
		return "switch " + e() + " {\ncase " + e() + ",§" + e() + ":\n" + block() + "default:\n" + block() + "}\n"
	case 11:
		return "go func(s string) {\n" + block() + "}(§" + e() + ")\n"
	case 12:
		return "defer " + c() + "\n"
	case 13:
		return "m[" + s.lit() + "] = " + e() + "\n"
	case 14:
		return "const k = " + s.lit() + "\n"
	case 15:
		return "var v, w string = " + e() + ",§" + e() + "\n"
	case 16:
		return "// " + strings.ReplaceAll(strings.ReplaceAll(c(), "\n", " "), "\r", " ") + "\n"
	case 17:
		return "/* " + strings.ReplaceAll(c(), "*/", "* /") + "\n" + strings.ReplaceAll(c(), "*/", "* /") + " */\n"
	case 18:
		return "type T struct { A string `json:\"a\"`; B int \"tag" + strconv.Itoa(g.Intn(3)) + "\" }\n"
	case 19:
		return "{\n" + block() + "}\n"
	case 20:
		return "ch <- " + e() + "\nselect {\ncase y := <-ch: _ = y + " + e() + "\ndefault:\n}\n"
	case 21:
		return "c := '\"'; d := '\\''; r := '`'; _ = c + d + r\n"
	case 22:
		return "L: " + c() + "\ngoto L\n"
	}
	return "fmt.Println(§" + e() + ",§" + e() + ")\n"
}

func (s *src) finish(t string) string {
	g := s.g
	style := g.Intn(4)
	var b strings.Builder
	for _, r := range t {
		switch r {
		case '¤':
			if style > 1 && g.Intn(3) == 0 {
				b.WriteString(pick(g, []string{" ", "  ", "\t", " /* c */ ", "/*\"*/", "/*`*/", "/*'*/", " /* " + s.pkg + ".Get(\"n\") */ "}))
			} else if g.Intn(6) == 0 {
				b.WriteString(" ")
			}
		case '§':
			if style > 0 && g.Intn(3) == 0 {
				b.WriteString(pick(g, []string{"\n", "\n\t", "\n\n", " // c\n", "// \"\n", "/*\n*/", "// " + s.pkg + ".Get(\"n\")\n", "/* é\n\n */ "}))
			} else {
				b.WriteString(" ")
			}
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (g *G) source(all bool, text []string) string {
	for {
		s := &src{g: g, all: all, pkg: "gotext", text: text}
		const want = "github.com/leonelquinteros/gotext"
		path := strconv.Quote(want)
		if g.Intn(4) == 0 {
			path = "`" + want + "`"
		}
		name := ""
		if g.Intn(2) == 0 {
			s.pkg = pick(g, []string{"g", "i18n", "l10n", "GT", "π", "_t", "gotext", "imp", "x1"})
			name = s.pkg + "¤ "
		}
		var b strings.Builder
		b.WriteString(pick(g, []string{"", "", "", "\ufeff", "// A comment \"x\"\n", "//go:build linux\n\n", "/* one\ntwo */\n", "\n\n", "#"}))
		head := b.String()
		if head == "#" {
			head = ""
		}
		b.Reset()
		b.WriteString("package p\n\n")
		spec := name + path
		imported := true
		switch g.Intn(9) {
		case 0, 1, 2:
			b.WriteString("import " + spec + "\n")
		case 3, 4:
			b.WriteString("import (\n\t\"fmt\"\n\n\t" + spec + "\n\tstr \"strings\"\n)\n")
		case 5:
			b.WriteString("import \"fmt\"; import str `strings`\nimport (¤" + spec + "¤)\n")
		case 6:
			b.WriteString("import ()\nimport (\n\t// " + path + "\n\tx \"example.com/gotext\"\n\t" + spec + "; \"os\"\n)\n")
		default:
			b.WriteString(pick(g, []string{"", "import \"fmt\"\n", "import \"example.com/leonelquinteros/gotext\"\n", "import gotext \"github.com/leonelquinteros/gotext/v2\"\n", "// import \"github.com/leonelquinteros/gotext\"\n", "/*\nimport \"github.com/leonelquinteros/gotext\"\n*/\n"}))
			imported = false
			if all {
				s.pkg = "notgotext"
			} else {
				s.pkg = "gotext"
			}
		}
		_ = imported
		for k := 1 + g.Intn(3); k > 0; k-- {
			switch g.Intn(6) {
			case 0:
				b.WriteString("var V = " + s.call(1) + "\n")
			case 1:
				b.WriteString("const (\n\tA = " + s.lit() + "\n\tB = " + s.lit() + "; C = " + s.lit() + "\n)\n")
			case 2:
				b.WriteString("type S struct {\n\tF string `" + pick(g, []string{"json:\"f\"", "tag", "x"}) + "`\n}\n\nfunc (r *S) Get(s string) string { return r.F +¤" + s.lit() + " }\n")
			case 3:
				b.WriteString("func g2[A, B any](x A) string { return " + s.call(1) + " }\n")
			}
			b.WriteString(pick(g, []string{"func f(gotextx string) {\n", "func (r T) m() {\n", "func init() {\n"}))
			for j := 1 + g.Intn(4); j > 0; j-- {
				b.WriteString(s.stmt(2))
			}
			b.WriteString("}\n")
		}
		out := head + s.finish(b.String())
		if g.Intn(12) == 0 {
			out = "//line other.go:100\n" + strings.TrimPrefix(out, "\ufeff")
		}
		switch g.Intn(6) {
		case 0:
			out = strings.ReplaceAll(out, "\n", "\r\n")
		case 1:
			parts := strings.SplitAfter(out, "\n")
			for i := range parts {
				if g.Intn(3) == 0 {
					parts[i] = strings.Replace(parts[i], "\n", "\r\n", 1)
				}
			}
			out = strings.Join(parts, "")
		}
		if g.Intn(8) == 0 {
			out = strings.TrimRight(out, "\r\n")
		}
		if _, err := parser.ParseFile(token.NewFileSet(), "x.go", out, 0); err != nil {
			if os.Getenv("DRV_STACK") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n----\n", err, out)
			}
			continue
		}
		return out
	}
}

func (g *G) case19(all bool) C19 {
	c := C19{All: all, Clean: g.Intn(3) != 0, Disk: g.Intn(8) == 0}
	if g.Intn(5) == 0 {
		c.Hdr = 1 + g.Intn(3)
		c.HText = Bs([]string{"", "X-Generator: xgotext\n", "Language: xx\n", "Language: yy\n"}[c.Hdr])
	}
	n := 1
	if g.Intn(8) == 0 {
		n = 2 + g.Intn(2)
	}
	var text []string
	if n > 1 || g.Intn(2) == 0 {
		text = []string{"shared", "a"}
	}
	names := []string{"a.go", "x y.go", "ñ.go", "b_test.go", "n:1.go"}
	g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for i := 0; i < n; i++ {
		c.Files = append(c.Files, F19{Bs(names[i]), Bs(g.source(all, text))})
	}
	return c
}

func init() {
	register("C19", func(g *G, emit func(C19)) {
		for i := 0; i < g.N(1500, 20000); i++ {
			emit(g.case19(false))
		}
	}, run19)
	register("C20", func(g *G, emit func(C19)) {
		for i := 0; i < g.N(1500, 20000); i++ {
			emit(g.case19(true))
		}
	}, run19)
	register("C21", func(g *G, emit func(C19)) {
		for i := 0; i < g.N(1500, 20000); i++ {
			emit(g.case19(i%2 == 0))
		}
		// Long lines, many lines.
		for i := 0; i < g.N(8, 40); i++ {
			c := g.case19(i%2 == 0)
			pad := "// " + strings.Repeat("long é ", 700*(1+g.Intn(3))) + "\n"
			switch i {
			case 0:
				pad = "/*" + strings.Repeat("x", 66000) + "*/\n"
			case 1:
				pad = strings.Repeat("\n", 66000)
			case 2:
				pad = strings.Repeat("//\r\n", 900)
			}
			src := string(c.Files[0].Src)
			if k := strings.Index(src, "\nfunc"); k >= 0 {
				src = src[:k+1] + pad + src[k+1:]
			}
			c.Files[0].Src = Bs(src)
			emit(c)
		}
	}, run19)
}
