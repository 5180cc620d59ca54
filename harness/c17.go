package main

import (
	"bytes"
	"errors"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// ---- C17: temporary options ----

// Opt17 sets field F to V; F = "*" replaces everything by the configuration after step From.
type Opt17 struct {
	F    string `json:"f"`
	V    string `json:"v"`
	From int    `json:"from"`
}

type Op17 struct {
	Op   string  `json:"op"` // apply, restore, poke, run, nested (a run while another one writes)
	Opts []Opt17 `json:"opts"`
	In   []Opt17 `json:"in"` // of the run inside
	N    int     `json:"n"`  // way to run
}

type C17 struct {
	Kind  string `json:"kind"`
	Input int    `json:"input"`
	Ops   []Op17 `json:"ops"`
}

type Step17 struct {
	Cfg   map[string]string `json:"cfg"`
	Res   string            `json:"res"`   // what a run gave
	Fresh string            `json:"fresh"` // what an instance configured that way gives
}

type O17 struct {
	Init  map[string]string `json:"init"`
	Deep  bool              `json:"deep"` // making the instance applied options already
	Steps []Step17          `json:"steps"`
}

// Values that configurations point to.
type pools struct {
	logs    map[string]*bytes.Buffer
	loggers map[string]*log.Logger
	hcs     map[string]*po.HeaderConfig
	hs      map[string]*po.Header
	hls     map[string]compile.CSSClassesHighlighting
}

func newPools() *pools {
	p := &pools{map[string]*bytes.Buffer{}, map[string]*log.Logger{}, map[string]*po.HeaderConfig{}, map[string]*po.Header{}, map[string]compile.CSSClassesHighlighting{}}
	for _, n := range []string{"x", "y"} {
		b := &bytes.Buffer{}
		p.logs[n], p.loggers[n] = b, log.New(b, n, 0)
		p.hcs[n] = &po.HeaderConfig{ProjectIDVersion: n, Language: n, Nplurals: 2, Plural: "n"}
		p.hs[n] = &po.Header{Fields: []po.HeaderField{{Key: "X-" + n, Value: n}}}
	}
	p.hls["x"], p.hls["y"] = compile.DefaultHighlight, everyClass
	return p
}

func (p *pools) logText() string {
	s := p.logs["x"].String() + p.logs["y"].String()
	p.logs["x"].Reset()
	p.logs["y"].Reset()
	// The names of scratch files vary.
	return scratchPath.ReplaceAllString(s, "x")
}

var scratchPath = regexp.MustCompile(`\S*/x\b`)

func nameOf[V comparable](m map[string]V, v, zero V) string {
	if v == zero {
		return "nil"
	}
	for k, x := range m {
		if x == v {
			return k
		}
	}
	return "other"
}

func (p *pools) render(v reflect.Value) string {
	switch x := v.Interface().(type) {
	case *log.Logger:
		return nameOf(p.loggers, x, nil)
	case *po.HeaderConfig:
		return nameOf(p.hcs, x, nil)
	case *po.Header:
		return nameOf(p.hs, x, nil)
	case compile.CSSClassesHighlighting:
		if x == nil {
			return "nil"
		}
		for k, h := range p.hls {
			if reflect.ValueOf(h).Pointer() == reflect.ValueOf(x).Pointer() {
				return k
			}
		}
		return "other"
	case []string:
		return strings.Join(x, "|")
	}
	switch v.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.String:
		return v.String()
	}
	return fmt.Sprint(v.Int())
}

// snapshot17 shows the exported fields of a configuration.
func (p *pools) snapshot(cfg any) map[string]string {
	out := map[string]string{}
	v := reflect.ValueOf(cfg).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Type().Field(i); f.IsExported() {
			out[f.Name] = p.render(v.Field(i))
		}
	}
	return out
}

func (p *pools) set(cfg any, field, val string) {
	f := reflect.ValueOf(cfg).Elem().FieldByName(field)
	switch f.Interface().(type) {
	case *log.Logger:
		f.Set(reflect.ValueOf(p.loggers[val]))
	case *po.HeaderConfig:
		f.Set(reflect.ValueOf(p.hcs[val]))
	case *po.Header:
		f.Set(reflect.ValueOf(p.hs[val]))
	case compile.CSSClassesHighlighting:
		f.Set(reflect.ValueOf(p.hls[val]))
	case []string:
		f.Set(reflect.ValueOf(strings.Split(val, "|")))
	default:
		switch f.Kind() {
		case reflect.Bool:
			f.SetBool(val == "true")
		case reflect.String:
			f.SetString(val)
		default:
			n, _ := strconv.Atoi(val)
			f.SetInt(int64(n))
		}
	}
}

// copyFields makes the exported fields of to those of from.
func copyFields(to, from any) {
	a, b := reflect.ValueOf(to).Elem(), reflect.ValueOf(from).Elem()
	for i := 0; i < a.NumField(); i++ {
		if a.Type().Field(i).IsExported() {
			a.Field(i).Set(b.Field(i))
		}
	}
}

// inst17 is a parser or compiler with a configuration C and options O.
type inst17[C any, O any] struct {
	cfg     *C
	apply   func(opts ...O)
	restore func()
	run     func(n int, inside func(), opts ...O) string // n < 0: without temporary options
}

type kind17[C any, O any] struct {
	make    func(input int) *inst17[C, O]
	option  func(p *pools, f, v string) (O, bool) // the option for a field, if there is one
	replace func(C) O
	wrap    func(func(*C)) O
}

type insideWriter struct {
	bytes.Buffer
	inside func()
	fails  int // 1: gives errors, 2: panics
	room   int // before that
}

// writer17 is a writer for way n to run: some of them fail.
func writer17(n int, inside func()) *insideWriter {
	if n < 0 {
		n = -1 - n
	}
	return &insideWriter{inside: inside, fails: []int{0, 1, 0, 2}[n/30%4], room: n / 120 * 40}
}

func (w *insideWriter) Write(b []byte) (int, error) {
	if f := w.inside; f != nil {
		w.inside = nil
		f()
	}
	if left := w.room - w.Len(); w.fails > 0 && len(b) > left {
		if w.fails == 2 {
			panic("writer17")
		}
		w.Buffer.Write(b[:max(left, 0)])
		return max(left, 0), errors.New("writer17")
	}
	return w.Buffer.Write(b)
}

// caught17 gives what f gives, or how it ended.
func caught17(w *insideWriter, f func() error) (s string) {
	defer func() {
		if x := recover(); x != nil {
			if x != "writer17" {
				panic(x)
			}
			s = "panic" + w.String()
		}
	}()
	return fmt.Sprint(f(), w.String())
}

// toFile17 lets f write to a path where something is already.
func toFile17(exists bool, f func(string) error) (s string) {
	scratch(func(dir string) {
		path := filepath.Join(dir, "x")
		if exists {
			os.WriteFile(path, []byte("old content, and rather a lot of it"), 0o600)
		}
		err := f(path)
		b, _ := os.ReadFile(path)
		s = string(b) + fmt.Sprint(err != nil)
	})
	return
}

func bool17(s string) bool { return s == "true" }
func int17(s string) int   { n, _ := strconv.Atoi(s); return n }

var cats17 = func() [][]E {
	h, a, b, o, p := E{Str: Bs("Language: es\nPlural-Forms: nplurals=2; plural=(n != 1);\n")}, plainEntry("a"), plainEntry("b"), plainEntry("o"), plainEntry("p")
	h.Com = []Bs{Bs("title")}
	a.Str, b.Str, o.Str = Bs("x\ny"), Bs("z"), Bs("t")
	a.Locs, b.Locs = []L{{Bs("a.go"), 3}}, []L{{Bs("a.go"), 4}, {Bs("b.go"), 5}}
	a.Flag, o.Obs = []Bs{Bs("fuzzy"), Bs("c-format")}, true
	a.Com, b.Com, a.Ext, a.Prev = []Bs{Bs("ca")}, []Bs{Bs("cb")}, []Bs{Bs("xa")}, []Bs{Bs("pa")}
	p.Pl, p.F = Bs("ps"), []F{{0, Bs("1")}, {1, Bs("2\n")}}
	return [][]E{{h, a, b, o, p}, {p, b, a, b}, {}, {o, h, a}}
}()

var texts17 = []string{
	"# c\nmsgid \"\"\nmsgstr \"A: b\\n\"\n\n# tc\n#. xc\n#: a.go:1\n#, fuzzy\n#| pc\nmsgid \"a\"\nmsgstr \"x\"\n\nmsgid \"a\"\nmsgstr \"y\"\n\n#~ msgid \"o\"\n#~ msgstr \"p\"\n\n#! msgid \"q\"\n#! msgstr \"r\"\n",
	"msgid \"a\"\nmsgstr \"x\"\nmsgid\n",
	"",
	"#: bad.go:99999999999999999999\nmsgid \"z\"\nmsgstr \"w\"\n",
}

var sources17 = []string{
	"package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nfunc f() {\n\tgotext.Get(\"a\")\n\tgotext.Get(\"a\")\n\tgotext.GetN(\"b\", \"bs\", 2)\n\tx := \"plain\"\n\t_ = x\n}\n",
	"package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nfunc f() { gotext.GetC(\"a\"); gotext.Get(\"b\") }\n",
	"package p\n\nvar s = \"only\"\n",
	"package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nfunc f() { gotext.Get() ; _ = \"z\" }\n",
}

func setter[C any, O any](k kind17[C, O], p *pools, f, v string, direct bool) O {
	if !direct {
		if o, ok := k.option(p, f, v); ok {
			return o
		}
	}
	return k.wrap(func(c *C) { p.set(c, f, v) })
}

func play17[C any, O any](c C17, k kind17[C, O], p *pools) (o O17) {
	in := k.make(c.Input)
	o.Init = p.snapshot(in.cfg)
	saved := []C{*in.cfg}
	opts := func(xs []Opt17, n int) []O {
		var out []O
		for i, x := range xs {
			if x.F == "*" {
				out = append(out, k.replace(saved[x.From]))
			} else {
				out = append(out, setter(k, p, x.F, x.V, (n+i)%5 == 4))
			}
		}
		if len(out) > 1 && n%7 == 3 { // options that apply options
			inner := out
			out = []O{k.wrap(func(c *C) {
				for _, x := range inner {
					reflect.ValueOf(x).Call([]reflect.Value{reflect.ValueOf(c)})
				}
			})}
		}
		return out
	}
	for _, op := range c.Ops {
		s := Step17{}
		switch op.Op {
		case "apply":
			in.apply(opts(op.Opts, op.N)...)
		case "restore":
			in.restore()
		case "poke":
			p.set(in.cfg, op.Opts[0].F, op.Opts[0].V)
		case "run", "nested":
			// An instance with the same configuration and the options for good.
			fresh := k.make(c.Input)
			copyFields(fresh.cfg, in.cfg)
			fresh.apply(opts(op.Opts, op.N)...)
			var inside func()
			if op.Op == "nested" {
				inside = func() { in.run(0, nil, opts(op.In, 0)...) }
			}
			var nothing func()
			if inside != nil {
				nothing = func() {}
			}
			p.logText()
			s.Fresh = fresh.run(-1-op.N, nothing)
			log1 := p.logText()
			s.Res = in.run(op.N, inside, opts(op.Opts, op.N)...)
			log2 := p.logText()
			if op.Op == "run" { // otherwise the run inside logs too
				s.Fresh += log1
				s.Res += log2
			}
			s.Fresh, s.Res = digest([]byte(s.Fresh)), digest([]byte(s.Res))
		}
		s.Cfg = p.snapshot(in.cfg)
		saved = append(saved, *in.cfg)
		o.Steps = append(o.Steps, s)
	}
	return
}

func poKind() kind17[compile.PoConfig, compile.PoOption] {
	return kind17[compile.PoConfig, compile.PoOption]{
		make: func(input int) *inst17[compile.PoConfig, compile.PoOption] {
			c := compile.NewPo(&po.File{Name: "x.po", Entries: toEntries(cats17[input])})
			in := &inst17[compile.PoConfig, compile.PoOption]{cfg: &c.Config, apply: c.Config.ApplyOptions, restore: c.Config.RestoreLastCfg}
			in.run = func(n int, inside func(), opts ...compile.PoOption) string {
				w := writer17(n, inside)
				if n < 0 {
					switch n = -1 - n; {
					case inside == nil && n%6 == 1:
						return c.ToString()
					case inside == nil && n%6 == 2:
						return string(c.ToBytes())
					case inside == nil && n%6 >= 4:
						return toFile17(n%2 == 0, c.ToFile)
					}
					return caught17(w, func() error { return c.ToWriter(w) })
				}
				switch {
				case inside == nil && n%6 == 1:
					return c.ToStringWithOptions(opts...)
				case inside == nil && n%6 == 2:
					return string(c.ToBytesWithOptions(opts...))
				case inside == nil && n%6 >= 4:
					return toFile17(n%2 == 0, func(p string) error { return c.ToFileWithOptions(p, opts...) })
				}
				return caught17(w, func() error { return c.ToWriterWithOptions(w, opts...) })
			}
			return in
		},
		replace: compile.PoWithConfig,
		wrap:    func(f func(*compile.PoConfig)) compile.PoOption { return f },
		option: func(p *pools, f, v string) (compile.PoOption, bool) {
			b := bool17(v)
			m := map[string]compile.PoOption{
				"Logger": compile.PoWithLogger(p.loggers[v]), "ForcePo": compile.PoWithForcePo(b), "OmitHeader": compile.PoWithOmitHeader(b),
				"PackageName": compile.PoWithPackageName(v), "CopyrightHolder": compile.PoWithCopyrightHolder(v), "ForeignUser": compile.PoWithForeignUser(b),
				"Title": compile.PoWithTitle(v), "NoLocation": compile.PoWithNoLocation(b), "AddLocation": compile.PoWithAddLocation(compile.PoLocationMode(v)),
				"MsgstrPrefix": compile.PoWithMsgstrPrefix(v), "MsgstrSuffix": compile.PoWithMsgstrSuffix(v), "IgnoreErrors": compile.PoWithIgnoreErrors(b),
				"Verbose": compile.PoWithVerbose(b), "CommentFuzzy": compile.PoWithCommentFuzzy(b), "ManageHeader": compile.PoWithManageHeader(b),
				"HeaderComments": compile.PoWithHeaderComments(b), "HeaderFields": compile.PoWithHeaderFields(b), "WordWrap": compile.PoWithWordWrap(b),
				"UseCustomObsoletePrefix": compile.PoWithUseCustomObsoletePrefix(b), "CustomObsoletePrefixRune": compile.PoWithCustomObsoletePrefixRune(rune(int17(v))),
				"NoColor": compile.PoWithNoColor(b), "Highlight": compile.PoWithHighlight(p.hls[v]),
			}
			o, ok := m[f]
			return o, ok
		},
	}
}

func moKind() kind17[compile.MoConfig, compile.MoOption] {
	return kind17[compile.MoConfig, compile.MoOption]{
		make: func(input int) *inst17[compile.MoConfig, compile.MoOption] {
			c := compile.NewMo(&po.File{Name: "x.po", Entries: toEntries(cats17[input])})
			in := &inst17[compile.MoConfig, compile.MoOption]{cfg: &c.Config, apply: c.Config.ApplyOptions, restore: c.Config.RestoreLastCfg}
			in.run = func(n int, inside func(), opts ...compile.MoOption) string {
				w := writer17(n, inside)
				if n < 0 {
					switch n = -1 - n; {
					case inside == nil && n%5 == 1:
						return string(c.ToBytes())
					case inside == nil && n%5 >= 3:
						return toFile17(n%2 == 0, c.ToFile)
					}
					return caught17(w, func() error { return c.ToWriter(w) })
				}
				switch {
				case inside == nil && n%5 == 1:
					return string(c.ToBytesWithOptions(opts...))
				case inside == nil && n%5 >= 3:
					return toFile17(n%2 == 0, func(p string) error { return c.ToFileWithOptions(p, opts...) })
				}
				return caught17(w, func() error { return c.ToWriterWithOptions(w, opts...) })
			}
			return in
		},
		replace: compile.MoWithConfig,
		wrap:    func(f func(*compile.MoConfig)) compile.MoOption { return f },
		option: func(p *pools, f, v string) (compile.MoOption, bool) {
			b := bool17(v)
			m := map[string]compile.MoOption{
				"Logger": compile.MoWithLogger(p.loggers[v]), "Force": compile.MoWithForce(b), "Verbose": compile.MoWithVerbose(b), "IgnoreErrors": compile.MoWithIgnoreErrors(b),
				"Endianness": compile.MoWithEndianness(compile.Endianness(int17(v))), "HashTable": compile.MoWithHashTable(b),
				"DepureEntries": compile.MoWithDepureEntries(b), "SortEntries": compile.MoWithSortEntries(b),
			}
			o, ok := m[f]
			return o, ok
		},
	}
}

func parsed(f *po.File, err error, errs []error) string {
	return fmt.Sprint(f == nil, err, errorsText(errs), string(mustJSON(entriesOf(f))))
}

func parsePoKind() kind17[parse.PoConfig, parse.PoOption] {
	return kind17[parse.PoConfig, parse.PoOption]{
		make: func(input int) *inst17[parse.PoConfig, parse.PoOption] {
			c := parse.NewPoFromString(texts17[input], "x.po")
			in := &inst17[parse.PoConfig, parse.PoOption]{cfg: &c.Config, apply: c.Config.ApplyOptions, restore: c.Config.RestoreLastCfg}
			in.run = func(n int, inside func(), opts ...parse.PoOption) string {
				var f *po.File
				if n < 0 {
					f = c.Parse()
				} else {
					f = c.ParseWithOptions(opts...)
				}
				return parsed(f, c.Error(), c.Errors()) + errorsText(c.Warnings())
			}
			return in
		},
		replace: parse.PoWithConfig,
		wrap:    func(f func(*parse.PoConfig)) parse.PoOption { return f },
		option: func(p *pools, f, v string) (parse.PoOption, bool) {
			b := bool17(v)
			m := map[string]parse.PoOption{
				"IgnoreComments": parse.PoWithIgnoreComments(b), "IgnoreAllComments": parse.PoWithIgnoreAllComments(b), "Logger": parse.PoWithLogger(p.loggers[v]),
				"Verbose": parse.PoWithVerbose(b), "SkipHeader": parse.PoWithSkipHeader(b), "CleanDuplicates": parse.PoWithCleanDuplicates(b),
				"ParseObsoletes": parse.PoWithParseObsolete(b), "UseCustomObsoletePrefix": parse.PoWithUseCustomObsoletePrefix(b),
				"CustomObsoletePrefix": parse.PoWithCustomObsoletePrefix(rune(int17(v))),
			}
			o, ok := m[f]
			return o, ok
		},
	}
}

// mos17 are the inputs of the MO parser, written by the compiler when they are first needed.
var mos17 = sync.OnceValue(func() [][]byte {
	return [][]byte{
		quietly(cats17[0], compile.MoWithEndianness(compile.LittleEndian)),
		quietly(cats17[0], compile.MoWithEndianness(compile.BigEndian)),
		quietly(cats17[1], compile.MoWithSortEntries(false)),
		[]byte("\xde\x12\x04\x95not at all"),
	}
})

func parseMoKind() kind17[parse.MoConfig, parse.MoOption] {
	return kind17[parse.MoConfig, parse.MoOption]{
		make: func(input int) *inst17[parse.MoConfig, parse.MoOption] {
			c := parse.NewMoFromBytes(mos17()[input], "x.mo")
			in := &inst17[parse.MoConfig, parse.MoOption]{cfg: &c.Config, apply: c.Config.ApplyOptions, restore: c.Config.RestoreLastCfg}
			in.run = func(n int, inside func(), opts ...parse.MoOption) string {
				var f *po.File
				if n < 0 {
					f = c.Parse()
				} else {
					f = c.ParseWithOptions(opts...)
				}
				return parsed(f, c.Error(), c.Errors())
			}
			return in
		},
		replace: parse.MoWithConfig,
		wrap:    func(f func(*parse.MoConfig)) parse.MoOption { return f },
		option: func(p *pools, f, v string) (parse.MoOption, bool) {
			m := map[string]parse.MoOption{
				"Logger": parse.MoWithLogger(p.loggers[v]), "Endianness": parse.MoWithEndianness(parse.Endianness(int17(v))), "MustBeSorted": parse.MoWithMustBeSorted(bool17(v)),
			}
			o, ok := m[f]
			return o, ok
		},
	}
}

func goKind() kind17[goparse.Config, goparse.Option] {
	return kind17[goparse.Config, goparse.Option]{
		make: func(input int) *inst17[goparse.Config, goparse.Option] {
			c, err := goparse.NewParserFromReader(strings.NewReader(sources17[input]), "x.go")
			if err != nil {
				die("%v", err)
			}
			in := &inst17[goparse.Config, goparse.Option]{cfg: &c.Config, apply: c.Config.ApplyOptions, restore: c.Config.RestoreLastCfg}
			in.run = func(n int, inside func(), opts ...goparse.Option) string {
				var f *po.File
				if n < 0 {
					f = c.Parse()
				} else {
					f = c.ParseWithOptions(opts...)
				}
				return parsed(f, c.Error(), c.Errors())
			}
			return in
		},
		replace: goparse.WithConfig,
		wrap:    func(f func(*goparse.Config)) goparse.Option { return f },
		option: func(p *pools, f, v string) (goparse.Option, bool) {
			b := bool17(v)
			m := map[string]goparse.Option{
				"Exclude": goparse.WithExclude(strings.Split(v, "|")...), "ExtractAll": goparse.WithExtractAll(b), "NoHeader": goparse.WithNoHeader(b),
				"HeaderConfig": goparse.WithHeaderConfig(p.hcs[v]), "CustomHeader": goparse.WithCustomHeader(p.hs[v]), "Logger": goparse.WithLogger(p.loggers[v]),
				"Verbose": goparse.WithVerbose(b), "CleanDuplicates": goparse.WithCleanDuplicates(b),
			}
			o, ok := m[f]
			return o, ok
		},
	}
}

func run17(c C17) O17 {
	p := newPools()
	switch c.Kind {
	case "po":
		return play17(c, poKind(), p)
	case "mo":
		return play17(c, moKind(), p)
	case "parsepo":
		return play17(c, parsePoKind(), p)
	case "parsemo":
		return play17(c, parseMoKind(), p)
	}
	return play17(c, goKind(), p)
}

var fields17 = map[string][][]string{
	"po": {
		{"Logger", "x", "y", "nil"}, {"ForcePo", "true", "false"}, {"OmitHeader", "true", "false"}, {"PackageName", "p", "q", ""}, {"CopyrightHolder", "h", ""}, {"ForeignUser", "true", "false"},
		{"Title", "t", "u"}, {"NoLocation", "true", "false"}, {"AddLocation", "full", "file", "never", "wrong"}, {"MsgstrPrefix", "<", ""}, {"MsgstrSuffix", ">", ""}, {"IgnoreErrors", "true", "false"},
		{"Verbose", "true", "false"}, {"CommentFuzzy", "true", "false"}, {"ManageHeader", "true", "false"}, {"HeaderComments", "true", "false"}, {"HeaderFields", "true", "false"}, {"WordWrap", "true", "false"},
		{"HeaderConfig", "x", "y", "nil"}, {"UseCustomObsoletePrefix", "true", "false"}, {"CustomObsoletePrefixRune", "33", "94"}, {"NoColor", "true", "false"}, {"Highlight", "x", "y", "nil"},
	},
	"mo":      {{"Logger", "x", "y", "nil"}, {"Force", "true", "false"}, {"Verbose", "true", "false"}, {"IgnoreErrors", "true", "false"}, {"Endianness", "0", "1", "2"}, {"HashTable", "true", "false"}, {"DepureEntries", "true", "false"}, {"SortEntries", "true", "false"}},
	"parsepo": {{"IgnoreComments", "true", "false"}, {"IgnoreAllComments", "true", "false"}, {"Logger", "x", "y", "nil"}, {"Verbose", "true", "false"}, {"SkipHeader", "true", "false"}, {"CleanDuplicates", "true", "false"}, {"ParseObsoletes", "true", "false"}, {"UseCustomObsoletePrefix", "true", "false"}, {"CustomObsoletePrefix", "33", "126"}},
	"parsemo": {{"Logger", "x", "y", "nil"}, {"Endianness", "0", "1", "2"}, {"MustBeSorted", "true", "false"}},
	"go":      {{"Exclude", "x.go", "a|b"}, {"ExtractAll", "true", "false"}, {"NoHeader", "true", "false"}, {"HeaderConfig", "x", "y", "nil"}, {"CustomHeader", "x", "y", "nil"}, {"Logger", "x", "y", "nil"}, {"Verbose", "true", "false"}, {"CleanDuplicates", "true", "false"}},
}

func init() {
	register("C17", func(g *G, emit func(C17)) {
		for _, kind := range []string{"po", "mo", "parsepo", "parsemo", "go"} {
			fs := fields17[kind]
			one := func() Opt17 {
				f := pick(g, fs)
				return Opt17{F: f[0], V: f[1+g.Intn(len(f)-1)]}
			}
			some := func(step, max int) []Opt17 {
				out := []Opt17{}
				for n := g.Intn(max + 1); n > 0; n-- {
					if g.Intn(5) == 0 {
						out = append(out, Opt17{F: "*", From: g.Intn(step + 1)})
					} else {
						out = append(out, one())
					}
				}
				return out
			}
			// Every option on its own, temporarily and for good.
			for _, f := range fs {
				for _, v := range f[1:] {
					for input := range texts17 {
						o := []Opt17{{F: f[0], V: v}}
						run := func(opts []Opt17) Op17 { return Op17{Op: "run", Opts: opts, In: []Opt17{}, N: g.Intn(1000)} }
						emit(C17{kind, input, []Op17{run(o), run([]Opt17{}), {Op: "apply", Opts: o, In: []Opt17{}}, run(o), run([]Opt17{{F: "*", From: 0}}), {Op: "restore", Opts: []Opt17{}, In: []Opt17{}}, run(o)}})
					}
				}
			}
			for i := 0; i < g.N(400, 4000); i++ {
				c := C17{Kind: kind, Input: g.Intn(len(texts17))}
				depth, poked := 0, false
				for k, n := 0, 2+g.Intn(8); k < n; k++ {
					op := Op17{Opts: []Opt17{}, In: []Opt17{}, N: g.Intn(1000)}
					switch x := g.Intn(12); {
					case x < 4:
						op.Op, op.Opts = "run", some(k, 4)
					case x < 5:
						op.Op, op.Opts, op.In = "nested", some(k, 3), some(k, 3)
					case x < 8:
						op.Op, op.Opts = "apply", some(k, 3)
						depth++
					case x < 9:
						op.Op, op.Opts = "poke", []Opt17{one()}
						poked = poked || depth == 0
					default:
						// What lies below the first configuration is not specified once that is changed.
						if depth == 0 && poked {
							continue
						}
						op.Op = "restore"
						if depth > 0 {
							depth--
						}
					}
					c.Ops = append(c.Ops, op)
				}
				// Steps may have been left out above: references must stay in range.
				for k := range c.Ops {
					for _, xs := range [][]Opt17{c.Ops[k].Opts, c.Ops[k].In} {
						for j := range xs {
							if xs[j].From > k {
								xs[j].From = k
							}
						}
					}
				}
				if len(c.Ops) > 0 {
					emit(c)
				}
			}
		}
	}, run17)
}
