package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

type KV struct {
	K Bs `json:"k"`
	V Bs `json:"v"`
}

func fromFields(fs []po.HeaderField) []KV {
	out := []KV{}
	for _, f := range fs {
		out = append(out, KV{Bs(f.Key), Bs(f.Value)})
	}
	return out
}

func toFields(fs []KV) []po.HeaderField {
	var out []po.HeaderField
	for _, f := range fs {
		out = append(out, po.HeaderField{Key: string(f.K), Value: string(f.V)})
	}
	return out
}

type WCfg struct {
	Omit    bool   `json:"omit"`
	NoL     bool   `json:"nol"`
	CFuzzy  bool   `json:"cfuzzy"`
	Manage  bool   `json:"manage"`
	HCom    bool   `json:"hcom"`
	HFields bool   `json:"hfields"`
	Foreign bool   `json:"foreign"`
	Loc     string `json:"loc"`
	Pre     Bs     `json:"pre"`
	Suf     Bs     `json:"suf"`
	Title   Bs     `json:"title"`
	Holder  Bs     `json:"holder"`
	Pkg     Bs     `json:"pkg"`
	HasHC   bool   `json:"hashc"`
	HC      []KV   `json:"hc"`
}

type C04 struct {
	Es     []E    `json:"es"`
	Cfg    WCfg   `json:"cfg"`
	Wrap   bool   `json:"wrap"`
	Marker Bs     `json:"marker"`
	HL     string `json:"hl"`
	Style  int64  `json:"style"`
	How    int    `json:"how"`
	W      int    `json:"w"`
}

type O04 struct {
	Text  Bs   `json:"text"`
	Plain Bs   `json:"plain"`
	Err   bool `json:"err"`
	HC    []KV `json:"hc"`
	// The plain text highlighted by the functions that take a text; nothing if it is the same.
	Texts []Bs `json:"texts"`
}

func headerConfig(kind int) *po.HeaderConfig {
	var c po.HeaderConfig
	switch kind % 3 {
	case 0:
		c = po.DefaultTemplateHeaderConfig(po.HeaderWithLanguage("xx"), po.HeaderWithReportMsgidBugsTo("https://x.org/a:b"))
	case 1:
		c = po.DefaultHeaderConfig(po.HeaderWithLanguage("es"), po.HeaderWithLastTranslator(`A "B" <a@b.c>`))
	default:
		c = po.HeaderConfig{ProjectIDVersion: "p 1", Nplurals: 3, Plural: "n", ExtraFields: []po.HeaderField{{Key: "X-A", Value: "b:c"}}}
	}
	return &c
}

// ansi is a terminal colour.
type ansi int

func (a ansi) Sprint(x ...any) string {
	return fmt.Sprintf("\x1b[%dm%s\x1b[0m", int(a), fmt.Sprint(x...))
}

func (a ansi) Sprintf(f string, x ...any) string { return a.Sprint(fmt.Sprintf(f, x...)) }

var everyClass = func() compile.CSSClassesHighlighting {
	h := compile.CSSClassesHighlighting{}
	for i, k := range []string{"comment", "keyword", "string", "text", "msgid", "msgstr", "msgid string", "msgstr string", "msgid text", "msgstr text", "string text", "fuzzy", "obsolete"} {
		p := compile.HighlightCSSProperties{Color: ansi(31)}
		switch i % 4 {
		case 1:
			p.BackgroundColor = ansi(44)
		case 2:
			p.FontWeight = compile.FontWeightBold
			p.TextDecoration = compile.TextDecorationUnderline
		case 3:
			p.FontStyle = compile.FontStyleItalic
		}
		h[k] = p
	}
	return h
}()

// someClasses is a style of its own for some of the classes.
func someClasses(seed int64) compile.CSSClassesHighlighting {
	r := rand.New(rand.NewSource(seed))
	h := compile.CSSClassesHighlighting{}
	for _, k := range []string{"comment", "keyword", "string", "text", "msgid", "msgstr", "msgid string", "msgstr string", "msgid text", "msgstr text", "string text", "fuzzy", "obsolete"} {
		if r.Intn(2) == 0 {
			continue
		}
		var p compile.HighlightCSSProperties
		if r.Intn(3) == 0 {
			p.Color = ansi(30 + r.Intn(8))
		}
		if r.Intn(3) == 0 {
			p.BackgroundColor = ansi(40 + r.Intn(8))
		}
		if r.Intn(3) == 0 {
			p.FontWeight = compile.FontWeightBold
		}
		if r.Intn(3) == 0 {
			p.TextDecoration = compile.TextDecorationUnderline
		}
		if r.Intn(3) == 0 {
			p.FontStyle = []compile.HighlightFontStyle{compile.FontStyleItalic, compile.FontStyleOblique}[r.Intn(2)]
		}
		h[k] = p
	}
	return h
}

func (c C04) opts(hl bool) []compile.PoOption {
	out := []compile.PoOption{}
	f := c.Cfg
	add := func(on bool, o compile.PoOption) {
		if on || c.How%2 == 0 {
			out = append(out, o)
		}
	}
	add(f.Omit, compile.PoWithOmitHeader(f.Omit))
	add(f.NoL, compile.PoWithNoLocation(f.NoL))
	add(f.CFuzzy, compile.PoWithCommentFuzzy(f.CFuzzy))
	add(f.Manage, compile.PoWithManageHeader(f.Manage))
	add(f.HCom, compile.PoWithHeaderComments(f.HCom))
	add(f.HFields, compile.PoWithHeaderFields(f.HFields))
	add(f.Foreign, compile.PoWithForeignUser(f.Foreign))
	add(f.Loc != "full", compile.PoWithAddLocation(compile.PoLocationMode(f.Loc)))
	add(len(f.Pre) > 0, compile.PoWithMsgstrPrefix(string(f.Pre)))
	add(len(f.Suf) > 0, compile.PoWithMsgstrSuffix(string(f.Suf)))
	out = append(out, compile.PoWithTitle(string(f.Title)), compile.PoWithCopyrightHolder(string(f.Holder)), compile.PoWithPackageName(string(f.Pkg)))
	add(c.Wrap, compile.PoWithWordWrap(c.Wrap))
	if m := string(c.Marker); m != "~" {
		out = append(out, compile.PoWithUseCustomObsoletePrefix(true), compile.PoWithCustomObsoletePrefixRune([]rune(m)[0]))
	}
	if f.HasHC {
		hc := headerConfig(c.How)
		// There is no option for it.
		out = append(out, func(p *compile.PoConfig) { p.HeaderConfig = hc })
	}
	if hl {
		switch c.HL {
		case "default":
			out = append(out, compile.PoWithHighlight(compile.DefaultHighlight))
		case "test":
			out = append(out, compile.PoWithHighlight(compile.TestHighlight))
		case "every":
			out = append(out, compile.PoWithHighlight(everyClass))
		case "some":
			out = append(out, compile.PoWithHighlight(someClasses(c.Style)))
		}
	}
	if c.How%5 == 3 {
		// The same configuration in one piece.
		cfg := compile.DefaultPoConfig(out...)
		out = []compile.PoOption{compile.PoWithConfig(cfg)}
	}
	return out
}

// writable is a catalogue whose references can be read back in every location mode.
func (g *G) writable(n int) []E {
	es := g.bare(g.Catalogue(n))
	for i := range es {
		for k := range es[i].Locs {
			es[i].Locs[k].F = Bs(pick(g, []string{"a.go", "b/c.go", "./x/y.go", "../z.go", "ü.go", "C:\\x.go", "v1.2/f-1.go", "/abs/p.go", "a"}))
		}
		es[i].Com = noEscapes(es[i].Com)
		es[i].Ext = noEscapes(es[i].Ext)
		es[i].Prev = noEscapes(es[i].Prev)
	}
	return es
}

func noEscapes(xs []Bs) []Bs {
	out := []Bs{}
	for _, x := range xs {
		out = append(out, Bs(strings.TrimSpace(strings.ReplaceAll(string(x), "\x1b", ""))))
	}
	return out
}

func init() {
	register("C04", func(g *G, emit func(C04)) {
		base := func() C04 {
			return C04{Cfg: WCfg{Loc: "full", Pre: Bs{}, Suf: Bs{}, Title: Bs{}, Holder: Bs{}, Pkg: Bs{}, HC: []KV{}}, Marker: Bs("~"), HL: "none", Style: int64(g.Intn(1 << 30)), W: g.Intn(8), How: g.Intn(30)}
		}
		// One message of each kind under every combination of the boolean options.
		for bits := 0; bits < 256; bits++ {
			on := func(b int) bool { return bits&(1<<b) != 0 }
			c := base()
			c.Cfg.Omit, c.Cfg.NoL, c.Cfg.CFuzzy, c.Cfg.Manage = on(0), on(1), on(2), on(3)
			c.Cfg.HCom, c.Cfg.HFields, c.Cfg.HasHC, c.Wrap = on(4), on(5), on(6), on(7)
			c.Cfg.Foreign = bits%3 == 0
			c.Cfg.Loc = pick(g, []string{"full", "full", "file", "never", ""})
			c.Cfg.Title, c.Cfg.Holder, c.Cfg.Pkg = Bs("A title"), Bs("Some One"), Bs("pack")
			c.Marker = Bs(pick(g, []string{"~", "!", "é"}))
			c.HL = pick(g, []string{"none", "default", "test", "every", "some"})
			h := g.Header()
			h.Str = Bs(pick(g, []string{"Language: es\nX-A: b:c\n", "", "Plural-Forms: nplurals=2; plural=(n != 1);\nX-Quote: \"q\" \\\n"}))
			a, b, o, p := plainEntry("a"), plainEntry("b"), plainEntry("o"), plainEntry("p")
			a.Str, b.Str, o.Str = Bs("x\ny"), Bs("z"), Bs("t")
			a.Locs, b.Locs = []L{{Bs("a.go"), 3}}, []L{{Bs("a.go"), 4}, {Bs("b.go"), 5}}
			a.Flag, o.Obs = []Bs{Bs("fuzzy"), Bs("c-format")}, true
			a.Com, b.Com, a.Ext, a.Prev = []Bs{Bs("ca")}, []Bs{Bs("cb")}, []Bs{Bs("xa")}, []Bs{Bs("pa")}
			o.Locs = []L{{Bs("o.go"), 1}}
			o.Flag = []Bs{Bs("fuzzy")}
			p.Pl, p.F = Bs("ps"), []F{{0, Bs("1")}, {1, Bs("2\n")}, {2, Bs{}}}
			c.Es = []E{h, a, b, o, p}
			if bits%2 == 1 {
				c.Es = []E{a, o, h, p, b}
			}
			if bits%7 == 6 {
				c.Es = []E{a, p, b, o}
			}
			emit(c)
		}
		for i := 0; i < g.N(1500, 12000); i++ {
			c := base()
			c.Es = g.writable(g.Size())
			c.Wrap = g.Intn(2) == 0
			for n := 1 + g.Intn(3); n > 0; n-- {
				switch g.Intn(11) {
				case 0:
					c.Cfg.Omit = true
				case 1:
					c.Cfg.NoL = true
				case 2:
					c.Cfg.CFuzzy = true
				case 3, 4:
					c.Cfg.Manage, c.Cfg.HFields, c.Cfg.HCom = true, g.Intn(4) != 0, g.Intn(2) == 0
					c.Cfg.HasHC, c.Cfg.Foreign = g.Intn(3) == 0, g.Intn(3) == 0
					c.Cfg.Title, c.Cfg.Holder, c.Cfg.Pkg = Bs(g.Line()), Bs(g.Line()), Bs(g.Line())
					c.Cfg.Title, c.Cfg.Holder, c.Cfg.Pkg = noEscapes([]Bs{c.Cfg.Title})[0], noEscapes([]Bs{c.Cfg.Holder})[0], noEscapes([]Bs{c.Cfg.Pkg})[0]
				case 5:
					c.Cfg.Loc = pick(g, []string{"file", "never", ""})
				case 6:
					c.Cfg.Pre = Bs(g.Str())
				case 7:
					c.Cfg.Suf = Bs(g.Str())
				case 8:
					c.Marker = Bs(pick(g, []string{"!", "é", "^", "*", "$", "%", "@", "+", "?", "(", "\\"}))
				case 9, 10:
					c.HL = pick(g, []string{"default", "test", "every", "some", "some"})
				}
			}
			emit(c)
		}
	}, func(c C04) (o O04) {
		o.HC = []KV{}
		if c.Cfg.HasHC {
			o.HC = fromFields(headerConfig(c.How).ToHeader().Fields)
		}
		mk := func() *po.File { return &po.File{Name: "x.po", Entries: toEntries(c.Es)} }
		text, err := writePo(mk(), c.W, c.opts(true)...)
		plain, err2 := text, err
		if c.HL != "none" {
			plain, err2 = writePo(mk(), 0, c.opts(false)...)
		}
		o.Err = err != nil || err2 != nil
		o.Text, o.Plain = text, plain
		o.Texts = []Bs{}
		style := everyClass
		if c.HL == "some" {
			style = someClasses(c.Style)
		}
		keep := func(b []byte, err error) {
			if err != nil {
				o.Err = true
			} else if !bytes.Equal(b, plain) {
				o.Texts = append(o.Texts, b)
			}
		}
		keep(compile.Highlight(style, "x.po", string(plain)))
		keep(compile.HighlightFromBytes(style, "x.po", plain))
		keep(compile.HighlightFromReader(style, "x.po", slowly(plain, c.W)))
		return
	})
}
