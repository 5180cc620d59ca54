package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// E is the projection of po.Entry that the specifications work with.
type E struct {
	Ctx  Bs   `json:"ctx"`
	ID   Bs   `json:"id"`
	Pl   Bs   `json:"pl"`
	Str  Bs   `json:"str"`
	F    []F  `json:"forms"`
	Flag []Bs `json:"flags"`
	Com  []Bs `json:"com"`
	Ext  []Bs `json:"ext"`
	Prev []Bs `json:"prev"`
	Locs []L  `json:"locs"`
	Obs  bool `json:"obs"`
}

type F struct {
	I int `json:"i"`
	S Bs  `json:"s"`
}

type L struct {
	F Bs  `json:"f"`
	L int `json:"l"`
}

func bss(x []string) []Bs {
	out := []Bs{}
	for _, s := range x {
		out = append(out, Bs(s))
	}
	return out
}

func strs(x []Bs) []string {
	var out []string
	for _, s := range x {
		out = append(out, string(s))
	}
	return out
}

func fromForms(p po.PluralEntries) []F {
	out := []F{}
	for _, x := range p {
		out = append(out, F{x.ID, Bs(x.Str)})
	}
	return out
}

func toForms(p []F) po.PluralEntries {
	var out po.PluralEntries
	for _, x := range p {
		out = append(out, po.PluralEntry{ID: x.I, Str: string(x.S)})
	}
	return out
}

func fromLocs(p po.Locations) []L {
	out := []L{}
	for _, x := range p {
		out = append(out, L{Bs(x.File), x.Line})
	}
	return out
}

func toLocs(p []L) po.Locations {
	var out po.Locations
	for _, x := range p {
		out = append(out, po.Location{Line: x.L, File: string(x.F)})
	}
	return out
}

func fromEntry(e po.Entry) E {
	return E{
		Ctx: Bs(e.Context), ID: Bs(e.ID), Pl: Bs(e.Plural), Str: Bs(e.Str),
		F: fromForms(e.Plurals), Flag: bss(e.Flags), Com: bss(e.Comments), Ext: bss(e.ExtractedComments),
		Prev: bss(e.Previous), Locs: fromLocs(e.Locations), Obs: e.Obsolete,
	}
}

func toEntry(e E) po.Entry {
	return po.Entry{
		Context: string(e.Ctx), ID: string(e.ID), Plural: string(e.Pl), Str: string(e.Str),
		Plurals: toForms(e.F), Flags: strs(e.Flag), Comments: strs(e.Com), ExtractedComments: strs(e.Ext),
		Previous: strs(e.Prev), Locations: toLocs(e.Locs), Obsolete: e.Obs,
	}
}

func fromEntries(es po.Entries) []E {
	out := []E{}
	for _, e := range es {
		out = append(out, fromEntry(e))
	}
	return out
}

func toEntries(es []E) po.Entries {
	var out po.Entries
	for _, e := range es {
		out = append(out, toEntry(e))
	}
	return out
}

// ---- random data ----

var specials = []string{
	`"`, `\`, "\n", "\t", "\r", "\x00", "\a", "\b", "\v", "\f", "\x1b", "\x7f", "\x01", "\x1f", "n", "t", "0", "7", "x41", "%d", " ",
	"é", "ñ", "日本", "😀", "\u0085", "\u00a0", "\u2028", "\ufeff", "\ufffd", "\uffff", "\U0010ffff", "\ue000", "e\u0301", "#", "~", "[", "]", "'", "`", ",", ":", ";", "|", "/", "\r\n", "\\n", "\\\"", "\\\\", "a", "Z",
}

var poLike = []string{
	"---", `msgid "x"`, `msgstr ""`, "#~ msgid", "#, fuzzy", "msgstr[0]", `"quoted"`, `\`, `\\`, `ends with \`, `ends with "`, `"`, "\n", "\n\n", "line\n", "\nline", "a\nb\nc", "a\n\nb",
	`\n`, `\t`, `\0`, `\x41`, `\101`, "tab\there", "cr\rlf\r\n", "100%", "C:\\path\\new", "#: a.go:1", "#| x", "# c", "~", "msgctxt", " lead", "trail ", "   ", "\x00", "\x1b[31mred\x1b[0m", "\x7f", "#-#-#-#-#  a.po  #-#-#-#-#",
}

var words = []string{
	"file", "Open", "open file", "Hello", "hello world", "Save", "Cancel", "%d files", "%s: not found", "one", "two", "apples", "Manzana", "naïve", "日本語", "Привет", "ok", "a", "b", "c", "A b", "x y z",
}

func pick[T any](g *G, xs []T) T { return xs[g.Intn(len(xs))] }

func (g *G) Str() string {
	switch g.Intn(10) {
	case 0:
		return pick(g, poLike)
	case 1, 2:
		var b strings.Builder
		for n := g.Intn(8); n >= 0; n-- {
			b.WriteString(pick(g, specials))
		}
		return b.String()
	case 3:
		var b strings.Builder
		for n := g.Intn(4); n >= 0; n-- {
			b.WriteString(pick(g, words))
			b.WriteString(pick(g, []string{" ", "\n", ", ", "  ", "\t"}))
		}
		return b.String()
	case 4:
		return pick(g, words) + pick(g, specials)
	case 5:
		return pick(g, specials) + pick(g, words)
	default:
		return pick(g, words)
	}
}

// Text is a string, empty now and then.
func (g *G) Text() string {
	if g.Intn(8) == 0 {
		return ""
	}
	return g.Str()
}

// Line is a single line without surrounding blanks.
func (g *G) Line() string {
	s := g.Str()
	s = strings.NewReplacer("\n", "", "\r", "", "\x00", "", "\v", "", "\f", "").Replace(s)
	return strings.TrimSpace(s)
}

// Remark is a comment: blanks at its end belong to it.
func (g *G) Remark() string {
	s := g.Line()
	if s != "" && g.Intn(6) == 0 {
		s += pick(g, []string{" ", "\t", "  ", " \t "})
	}
	return s
}

// ID is a string without NUL and EOT.
func (g *G) ID() string { return strings.NewReplacer("\x00", "", "\x04", "").Replace(g.Str()) }

func (g *G) FileName() string {
	return pick(g, []string{"a.go", "b.go", "cmd/main.go", "./x/y.go", "pkg/po/entry.go", "../z.go", "my file.go", "ü.go", "dir with space/f.go", "C:\\x.go", "a", "x.templ", "a:b.go", "v1.2/f-1.go", "/abs/p.go"})
}

func (g *G) Loc() L {
	l := L{Bs(g.FileName()), pick(g, []int{1, 2, 3, 10, 99, 100, 12345, 0, g.Intn(500)})}
	if g.Intn(8) == 0 && !bytes.Contains(l.F, []byte(" ")) {
		l.L = -1 // no line
	}
	return l
}

func (g *G) list(max int, f func() string) []Bs {
	out := []Bs{}
	if g.Intn(2) == 0 {
		return out
	}
	for n := g.Intn(max + 1); n > 0; n-- {
		out = append(out, Bs(f()))
	}
	return out
}

func (g *G) Flag() string {
	return pick(g, []string{"fuzzy", "c-format", "no-wrap", "range: 0..10", "go-format", "no-c-format", "python-format", "x", "fuzzy-ish", "c-format-x", "Fuzzy", "no-wrapping"})
}

func (g *G) Flags() []Bs {
	out := []Bs{}
	seen := map[string]bool{}
	for n := pick(g, []int{0, 0, 0, 1, 1, 2, 3}); n > 0; n-- {
		f := g.Flag()
		if !seen[f] || g.Intn(4) == 0 {
			seen[f] = true
			out = append(out, Bs(f))
		}
	}
	return out
}

func (g *G) Forms() []F {
	n := pick(g, []int{1, 2, 2, 2, 3, 4, 6})
	if g.Intn(40) == 0 {
		n = 12
	}
	out := []F{}
	for i := 0; i < n; i++ {
		out = append(out, F{i, Bs(g.Text())})
	}
	if g.Intn(6) == 0 {
		// The numbers say what a form is, not the place.
		g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}

// near is a text that is almost another one.
func (g *G) near(s Bs) Bs {
	t := string(s)
	switch g.Intn(9) {
	case 0, 1:
		return Bs(t)
	case 2:
		return Bs(t + pick(g, []string{"\n", " ", "\r\n", "\t", "."}))
	case 3:
		return Bs(pick(g, []string{"\n", " ", "\t"}) + t)
	case 4:
		return Bs(strings.TrimSpace(t))
	case 5:
		return Bs(strings.ToUpper(t))
	case 6:
		return Bs(strings.ToLower(t))
	case 7:
		return Bs(t + t)
	default:
		return Bs(strings.TrimSuffix(t, "\n"))
	}
}

// relate makes fields of a message depend on each other.
func (g *G) relate(e *E) {
	for n := 1 + g.Intn(2); n > 0; n-- {
		switch g.Intn(9) {
		case 0:
			if len(e.Pl) > 0 {
				if e.Pl = g.near(e.ID); len(e.Pl) == 0 {
					e.Pl = Bs("pl")
				}
			}
		case 1:
			if len(e.Pl) == 0 {
				e.Str = g.near(e.ID)
			} else if len(e.F) > 0 {
				e.F[g.Intn(len(e.F))].S = g.near(e.ID)
			}
		case 2:
			if len(e.Ctx) > 0 {
				e.Ctx = g.near(e.ID)
			}
		case 3:
			if len(e.ID) > 0 {
				e.ID = g.near(e.ID)
			}
		case 4:
			if len(e.Ctx) > 0 {
				e.Ctx = g.near(e.Ctx)
			}
		case 5:
			for i := range e.F {
				if i > 0 && g.Intn(2) == 0 {
					e.F[i].S = g.near(e.F[i-1].S)
				}
			}
		case 6:
			for _, l := range []*[]Bs{&e.Com, &e.Ext, &e.Prev} {
				if len(*l) > 0 && g.Intn(2) == 0 {
					*l = append(*l, (*l)[g.Intn(len(*l))])
				}
			}
		case 7:
			if len(e.Locs) > 0 {
				l := e.Locs[g.Intn(len(e.Locs))]
				if g.Intn(2) == 0 {
					l.L++
				}
				e.Locs = append(e.Locs, l)
			}
		case 8:
			if len(e.Com) > 0 {
				e.Ext = append(e.Ext, e.Com[0])
			}
		}
	}
}

// Entry is a well-formed message (its key may still clash with others).
func (g *G) Entry() E {
	e := E{ID: Bs(g.ID()), F: []F{}}
	if g.Intn(3) == 0 {
		e.Ctx = Bs(g.ID())
	}
	if g.Intn(3) == 0 {
		e.Pl = Bs(g.ID())
		if len(e.Pl) == 0 {
			e.Pl = Bs("pl")
		}
		e.F = g.Forms()
	} else {
		e.Str = Bs(g.Text())
	}
	e.Flag = g.Flags()
	e.Com = g.list(3, g.Remark)
	e.Ext = g.list(3, g.Remark)
	e.Prev = g.list(2, func() string {
		if g.Intn(2) == 0 {
			return `msgid "` + pick(g, words) + `"`
		}
		return g.Remark()
	})
	e.Locs = []L{}
	if g.Intn(2) == 0 {
		for n := g.Intn(4); n > 0; n-- {
			e.Locs = append(e.Locs, g.Loc())
		}
	}
	e.Obs = g.Intn(5) == 0
	if g.Intn(4) == 0 {
		g.relate(&e)
	}
	return e
}

func key(e E) string {
	if len(e.Ctx) > 0 {
		return string(e.Ctx) + "\x04" + string(e.ID)
	}
	return string(e.ID)
}

func (g *G) HeaderStr() string {
	return pick(g, []string{
		"Language: es\nPlural-Forms: nplurals=2; plural=(n != 1);\n",
		"Project-Id-Version: x 1.0\nReport-Msgid-Bugs-To: https://example.org/bugs?x=1\nContent-Type: text/plain; charset=UTF-8\n",
		"Plural-Forms: nplurals=3; plural=n;\nX-Extra: a:b:c\n",
		"Language: \nMIME-Version: 1.0\n",
		"",
		"POT-Creation-Date: 2024-01-01 10:00+0000\n",
	})
}

// Header is a header message.
func (g *G) Header() E {
	h := E{Str: Bs(g.HeaderStr()), F: []F{}, Flag: []Bs{}, Com: g.list(2, g.Remark), Ext: []Bs{}, Prev: []Bs{}, Locs: []L{}}
	if g.Intn(3) == 0 {
		h.Flag = []Bs{Bs("fuzzy")}
	}
	return h
}

// Catalogue is a list of well-formed messages with distinct keys; a header may be anywhere.
func (g *G) Catalogue(n int) []E {
	out := []E{}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		e := g.Entry()
		if len(e.ID) == 0 && len(e.Ctx) == 0 {
			e.Ctx = Bs("c")
		}
		for seen[key(e)] {
			e.ID = append(e.ID, Bs(fmt.Sprint(i))...)
		}
		seen[key(e)] = true
		out = append(out, e)
	}
	if g.Intn(2) == 0 {
		h := g.Header()
		at := 0
		if g.Intn(4) == 0 {
			at = g.Intn(len(out) + 1)
		}
		out = append(out[:at], append([]E{h}, out[at:]...)...)
	}
	return out
}

func (g *G) Size() int {
	return pick(g, []int{0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8})
}
