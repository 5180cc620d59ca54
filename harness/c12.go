package main

import (
	"fmt"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// ---- C12: headers ----

type HOp struct {
	Op string `json:"op"` // load, set, register
	K  Bs     `json:"k"`
	V  []Bs   `json:"v"`
}

type HCfg struct {
	Template bool `json:"template"`
	Nplurals int  `json:"nplurals"`
	// In the order of hcfgNames.
	Vals  []Bs `json:"vals"`
	Extra []KV `json:"extra"`
}

type C12 struct {
	Kind  string `json:"kind"` // text, fields, config
	Str   Bs     `json:"str"`
	Fuzzy bool   `json:"fuzzy"`
	Fs    []KV   `json:"fs"`
	Ops   []HOp  `json:"ops"`
	Cfg   HCfg   `json:"cfg"`
	R     int    `json:"r"`
}

type HStep struct {
	V  Bs   `json:"v"`
	Fs []KV `json:"fs"`
}

type O12 struct {
	Fs       []KV    `json:"fs"` // the fields read
	Template bool    `json:"template"`
	Np       int     `json:"np"`
	Steps    []HStep `json:"steps"`
	// The header written as a message and read back.
	BackFs []KV `json:"backfs"`
	BackT  bool `json:"backt"`
	BackK  bool `json:"backk"` // the message is a header
	Cfg    HCfg `json:"cfg"`   // of the header
	Errs   int  `json:"errs"`  // of validating the configuration
}

var hcfgNames = []string{"Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language", "MIME-Version", "X-Generator", "plural", "media", "charset", "encoding"}

func (c HCfg) config() po.HeaderConfig {
	v := func(i int) string { return string(c.Vals[i]) }
	return po.HeaderConfig{
		Template: c.Template, Nplurals: uint(c.Nplurals),
		ProjectIDVersion: v(0), ReportMsgidBugsTo: v(1), POTCreationDate: v(2), PORevisionDate: v(3), LastTranslator: v(4), LanguageTeam: v(5),
		Language: v(6), MimeVersion: v(7), XGenerator: v(8), Plural: v(9), MediaType: v(10), Charset: v(11), ContentTransferEncoding: v(12),
		ExtraFields: toFields(c.Extra),
	}
}

// options gives the same configuration through options.
func (c HCfg) options() []po.HeaderOption {
	k := c.config()
	extra := func(h *po.HeaderConfig) { h.ExtraFields = k.ExtraFields }
	return []po.HeaderOption{po.HeaderWithTemplate(k.Template), po.HeaderWithNplurals(k.Nplurals), po.HeaderWithProjectIDVersion(k.ProjectIDVersion),
		po.HeaderWithReportMsgidBugsTo(k.ReportMsgidBugsTo), po.HeaderWithPOTCreationDate(k.POTCreationDate), po.HeaderWithPORevisionDate(k.PORevisionDate),
		po.HeaderWithLastTranslator(k.LastTranslator), po.HeaderWithLanguageTeam(k.LanguageTeam), po.HeaderWithLanguage(k.Language),
		po.HeaderWithMimeVersion(k.MimeVersion), po.HeaderWithXGenerator(k.XGenerator), po.HeaderWithPlural(k.Plural), po.HeaderWithMediaType(k.MediaType),
		po.HeaderWithCharset(k.Charset), po.HeaderWtihContentTransferEncoding(k.ContentTransferEncoding), extra}
}

func fromConfig(k po.HeaderConfig) HCfg {
	return HCfg{Template: k.Template, Nplurals: int(k.Nplurals), Extra: fromFields(k.ExtraFields),
		Vals: bss([]string{k.ProjectIDVersion, k.ReportMsgidBugsTo, k.POTCreationDate, k.PORevisionDate, k.LastTranslator, k.LanguageTeam, k.Language,
			k.MimeVersion, k.XGenerator, k.Plural, k.MediaType, k.Charset, k.ContentTransferEncoding})}
}

// charsets12 are the character sets that gettext supports.
var charsets12 = strings.Fields(`UTF-8 ASCII ISO-8859-1 ISO-8859-2 ISO-8859-3 ISO-8859-4 ISO-8859-5 ISO-8859-6 ISO-8859-7 ISO-8859-8 ISO-8859-9
	ISO-8859-13 ISO-8859-14 ISO-8859-15 KOI8-R KOI8-U KOI8-T CP850 CP866 CP874 CP932 CP949 CP950 CP1250 CP1251 CP1252 CP1253 CP1254
	CP1255 CP1256 CP1257 GB2312 EUC-JP EUC-KR EUC-TW BIG5 BIG5-HKSCS GBK GB18030 SHIFT_JIS JOHAB TIS-620 VISCII GEORGIAN-PS`)

var hKeys = []string{"Language", "Plural-Forms", "X-A", "x-a", "Project-Id-Version", "Report-Msgid-Bugs-To", "MIME-Version", "Content-Type", "K", "Key with blanks", "Ключ", "X-Generated-By", "X-Generator", "Languages", "Project-Id", "language", "mime-version", "Last-Translator", "Language-Team", "PO-Revision-Date", "POT-Creation-Date", "Content-Transfer-Encoding"}

func (g *G) hValue() string {
	return pick(g, []string{"", "v", "es", "https://example.org/bugs?x=1:2", "a: b: c", ":", "::", "2024-01-01 10:00+0000", "nplurals=2; plural=(n != 1);",
		"text/plain; charset=UTF-8", "A <a@b.c>", `q "x" \ y`, "ñ 日本", "a = b; c", "x\ty", "%d", "nplurals=1"})
}

func (g *G) plurals() string {
	n := pick(g, []int{0, 1, 2, 3, 4, 6, 10, 100, 255, 256, 300, 1000, 65536, 65538, 999999999})
	rule := pick(g, []string{"n", "(n != 1)", "n == 1 ? 0 : 1", "(n%10==1 && n%100!=11 ? 0 : n%10>=2 ? 1 : 2)", "0"})
	switch g.Intn(12) {
	case 6:
		return fmt.Sprintf("plural=%s; nplurals=%d", rule, n)
	case 7:
		return fmt.Sprintf("plural=%s ;  nplurals =  %d", rule, n)
	case 8:
		return fmt.Sprintf("x=1; nplurals=%d; plural=%s; y=2", n, rule)
	case 0:
		return fmt.Sprintf("nplurals = %d ; plural = %s ;", n, rule)
	case 1:
		return fmt.Sprintf("nplurals=%d;plural=%s", n, rule)
	case 2:
		return fmt.Sprintf("plural=%s; nplurals=%d;", rule, n)
	case 3:
		return "plural=n;"
	case 4:
		return "nplurals=INTEGER; plural=EXPRESSION;"
	case 5:
		return fmt.Sprintf("nplurals=%d", n)
	default:
		return fmt.Sprintf("nplurals=%d; plural=%s;", n, rule)
	}
}

func (g *G) fields() []KV {
	fs := []KV{}
	for n := g.Intn(6); n > 0; n-- {
		k := pick(g, hKeys)
		v := g.hValue()
		if k == "Plural-Forms" {
			v = g.plurals()
		}
		fs = append(fs, KV{Bs(k), Bs(v)})
	}
	return fs
}

func init() {
	register("C12", func(g *G, emit func(C12)) {
		none := HCfg{Vals: make([]Bs, len(hcfgNames)), Extra: []KV{}}
		ops := func() []HOp {
			out := []HOp{}
			for n := g.Intn(6); n > 0; n-- {
				o := HOp{Op: pick(g, []string{"load", "set", "register"}), K: Bs(pick(g, hKeys)), V: []Bs{}}
				if o.Op == "set" {
					o.V = []Bs{Bs(g.hValue())}
				}
				if o.Op == "register" {
					for m := g.Intn(4); m > 0; m-- {
						o.V = append(o.V, Bs(g.hValue()))
					}
				}
				out = append(out, o)
			}
			return out
		}
		emit(C12{Kind: "text", Fs: []KV{}, Ops: []HOp{}, Cfg: none})
		for i := 0; i < g.N(500, 4000); i++ {
			var b strings.Builder
			for _, f := range g.fields() {
				b.WriteString(pick(g, []string{"", "", "", " ", "#"}))
				b.Write(f.K)
				b.WriteString(pick(g, []string{":", ": ", ": ", ": ", " : ", ":   ", "\t:\t"}))
				b.Write(f.V)
				b.WriteString(pick(g, []string{"\n", "\n", "\n", "\n\n", "\nno field here\n", " \n", "\r\n"}))
			}
			if g.Intn(4) == 0 {
				b.WriteString("Last: line")
			}
			emit(C12{"text", Bs(b.String()), g.Intn(3) == 0, []KV{}, ops(), none, i})
		}
		for i := 0; i < g.N(500, 4000); i++ {
			emit(C12{"fields", nil, g.Intn(3) == 0, g.fields(), ops(), none, i})
		}
		for i := 0; i < g.N(500, 4000); i++ {
			c := HCfg{Template: g.Intn(2) == 0, Vals: make([]Bs, len(hcfgNames)), Extra: []KV{}}
			for k := range hcfgNames {
				if g.Intn(3) != 0 {
					c.Vals[k] = Bs(g.hValue())
				}
			}
			c.Vals[7] = Bs(pick(g, []string{"1.0", "1.1"}))
			c.Vals[10], c.Vals[11], c.Vals[12] = Bs("text/plain"), Bs(charsets12[i%len(charsets12)]), Bs("8bit")
			c.Vals[9] = nil
			c.Nplurals = pick(g, []int{1, 2, 3, 6, 2, 3, 256, 1000, 65537, 999999999})
			c.Vals[9] = Bs(pick(g, []string{"n", "(n != 1)", "n==1 ? 0 : n==2 ? 1 : 2", "0"}))
			for _, k := range []string{"X-A", "x-generator", "Custom", "X-Generated-By", "Languages", "language", "Project-Id"} {
				if g.Intn(3) == 0 {
					v := g.hValue()
					if v != "" {
						c.Extra = append(c.Extra, KV{Bs(k), Bs(v)})
					}
				}
			}
			emit(C12{"config", nil, false, []KV{}, ops(), c, i})
		}
	}, func(c C12) (o O12) {
		var h po.Header
		switch c.Kind {
		case "text":
			e := po.Entry{Str: string(c.Str)}
			if c.Fuzzy {
				e.Flags = []string{"c-format", "fuzzy"}
			}
			other := po.Entry{ID: "a", Str: "Language: not this\n"}
			ctx := po.Entry{Context: "c", Str: "Language: nor this\n"}
			es := po.Entries{other, ctx, e, {Str: "Language: second\n"}}[c.R%2*2:]
			switch c.R % 3 {
			case 0:
				h = es.Header()
			case 1:
				h = es.HeaderFromIndex(es.Index("", ""))
			default:
				h = po.EntryToHeader(e)
			}
		case "fields":
			h = po.Header{Template: c.Fuzzy, Fields: toFields(c.Fs)}
		case "config":
			k := c.Cfg.config()
			switch c.R % 4 {
			case 0:
				h = k.ToHeader()
			case 1:
				h = po.NewHeader(c.Cfg.options()...)
			case 2:
				h = po.HeaderConfigFromOptions(po.HeaderWithConfig(k)).ToHeader()
			default:
				d := po.DefaultHeaderConfig(c.Cfg.options()...)
				h = d.ToHeader()
			}
			o.Errs = len(k.Validate())
		}
		o.Cfg = fromConfig(h.ToConfig())
		o.Fs, o.Template, o.Np = fromFields(h.Fields), h.Template, int(h.Nplurals())
		for _, op := range c.Ops {
			var s HStep
			switch op.Op {
			case "load":
				s.V = Bs(h.Load(string(op.K)))
			case "set":
				h.Set(string(op.K), string(op.V[0]))
			case "register":
				h.Register(string(op.K), strs(op.V)...)
			}
			s.Fs = fromFields(h.Fields)
			o.Steps = append(o.Steps, s)
		}
		e := h.ToEntry()
		back := po.EntryToHeader(e)
		o.BackFs, o.BackT, o.BackK = fromFields(back.Fields), back.Template, e.IsHeader() && !e.IsPlural()
		return
	})
}
