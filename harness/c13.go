package main

import (
	"fmt"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	fuzzy "github.com/paul-mannino/go-fuzzywuzzy"
)

// ---- C13, C14: merging ----

type MCfg struct {
	Fuzzy bool   `json:"fuzzy"`
	Keep  bool   `json:"keep"`
	Sort  bool   `json:"sort"`
	Mode  string `json:"mode"`
}

type C13 struct {
	Def []E  `json:"def"`
	Ref []E  `json:"ref"`
	Cfg MCfg `json:"cfg"`
	R   int  `json:"r"`
}

// Sim is the similarity of two messages: of their ids, contexts and plural ids.
type Sim struct {
	ID  int `json:"id"`
	Ctx int `json:"ctx"`
	Pl  int `json:"pl"`
	Avg int `json:"avg"` // as the library computes it
}

type O13 struct {
	SDef []E     `json:"sdef"` // without duplicates
	SRef []E     `json:"sref"` // without duplicates and obsolete messages
	Sim  [][]Sim `json:"sim"`
	Best []Best  `json:"best"` // per reference message
	Out  []E     `json:"out"`
	Err  string  `json:"err"`
}

type Best struct {
	I int `json:"i"`
	R int `json:"r"`
}

var modes = map[string]po.SortMode{"all": po.SortByAll, "id": po.SortByID, "file": po.SortByFile, "line": po.SortByLine, "fuzzy": po.SortByFuzzy, "obsolete": po.SortByObsolete}

func (c MCfg) options(r int) []po.MergeOption {
	out := []po.MergeOption{po.MergeWithFuzzyMatch(c.Fuzzy), po.MergeWithKeepPreviousIDs(c.Keep), po.MergeWithSort(c.Sort), po.MergeWithSortMode(modes[c.Mode])}
	if r%2 == 0 { // options at their default can be left out
		var o []po.MergeOption
		if !c.Fuzzy {
			o = append(o, out[0])
		}
		if c.Keep {
			o = append(o, out[1])
		}
		if !c.Sort {
			o = append(o, out[2])
		}
		if c.Mode != "all" {
			o = append(o, out[3])
		}
		out = o
	}
	return out
}

func (c MCfg) config() po.MergeConfig {
	return po.MergeConfig{FuzzyMatch: c.Fuzzy, KeepPreviousIDs: c.Keep, Sort: c.Sort, SortMode: modes[c.Mode]}
}

func run13(c C13) (o O13) {
	def, ref := toEntries(c.Def), toEntries(c.Ref)
	sdef, sref := toEntries(c.Def).Solve(), toEntries(c.Ref).CleanObsoletes().Solve()
	o.SDef, o.SRef = fromEntries(sdef), fromEntries(sref)
	o.Sim = [][]Sim{}
	for _, d := range sdef {
		row := []Sim{}
		for _, r := range sref {
			row = append(row, Sim{fuzzy.Ratio(d.ID, r.ID), fuzzy.Ratio(d.Context, r.Context), fuzzy.Ratio(d.Plural, r.Plural), po.EntryIDMatchRatio(d, r)})
		}
		o.Sim = append(o.Sim, row)
	}
	o.Best = []Best{}
	for _, r := range sref {
		i, n := sdef.BestIDRatio(r)
		o.Best = append(o.Best, Best{i, n})
	}
	switch c.R % 3 {
	case 0:
		o.Out = fromEntries(po.Merge(def, ref, c.Cfg.options(c.R/3)...))
	case 1:
		o.Out = fromEntries(po.MergeWithConfig(c.Cfg.config(), def, ref))
	default:
		o.Out = fromEntries(po.Merge(def, ref, po.MergeWithMergeConfig(c.Cfg.config())))
	}
	return
}

var stems = []string{"open file", "open files", "open the file", "Open file", "close file", "close", "save", "save as", "Save as", "save all", "hello", "hello world", "x", "xy", "%d files found", "%d file found", "un", "unrelated thing", "日本語", "日本", "a", "b"}

// mergeEntry is a message whose id resembles those of others.
func (g *G) mergeEntry() E {
	e := g.Entry()
	e.ID = Bs(pick(g, stems))
	e.Ctx = nil
	if g.Intn(4) == 0 {
		e.Ctx = Bs(pick(g, []string{"menu", "menus", "dialog", "d"}))
		if g.Intn(6) == 0 {
			e.ID = nil
		}
	}
	if len(e.Pl) > 0 {
		e.Pl = Bs(pick(g, stems))
	}
	switch g.Intn(4) {
	case 0:
		e.Str = nil
		for i := range e.F {
			e.F[i].S = nil
		}
	case 1:
		if len(e.F) > 1 {
			e.F[0].S = nil
		}
	}
	e.Com = g.list(2, g.Line)
	return e
}

func (g *G) mergeCats(dup bool) (def, ref []E) {
	cat := func(n int) []E {
		out := []E{}
		seen := map[string]bool{}
		for ; n > 0; n-- {
			e := g.mergeEntry()
			if seen[key(e)] && !dup {
				continue
			}
			seen[key(e)] = true
			out = append(out, e)
		}
		return out
	}
	def, ref = cat(g.Intn(6)), cat(g.Intn(6))
	// References usually hold no translations.
	for i := range ref {
		if g.Intn(5) != 0 {
			ref[i].Str, ref[i].F, ref[i].Com = nil, []F{}, []Bs{}
		}
		if g.Intn(6) != 0 {
			ref[i].Obs = false
		}
		ref[i].Flag = g.Flags()
		if g.Intn(3) != 0 {
			ref[i].Flag = []Bs{}
		}
	}
	// Messages of both.
	for _, d := range def {
		if g.Intn(2) == 0 {
			r := g.mergeEntry()
			r.ID, r.Ctx, r.Obs = d.ID, d.Ctx, false
			if g.Intn(3) != 0 {
				r.Pl, r.Str, r.F = d.Pl, nil, []F{}
			}
			ok := dup
			if !dup {
				ok = true
				for _, x := range ref {
					ok = ok && key(x) != key(r)
				}
			}
			if ok {
				ref = append(ref, r)
			}
		}
	}
	if g.Intn(2) == 0 {
		def = append([]E{g.Header()}, def...)
	}
	if g.Intn(2) == 0 {
		h := g.Header()
		h.Str = Bs(pick(g, []string{"", "Plural-Forms: nplurals=3; plural=n;\n", "Plural-Forms: nplurals=1; plural=0;\n", "Language: x\n", "Plural-Forms: nplurals=INTEGER; plural=EXPRESSION;\n"}))
		ref = append([]E{h}, ref...)
	}
	return
}

// odd leaves out some ids of messages with a context, and some plural ids.
func (g *G) odd(es []E) {
	seen := map[string]bool{}
	for i := range es {
		if len(es[i].F) > 0 && g.Intn(5) == 0 {
			es[i].Pl = nil
		}
		if k := string(es[i].Ctx); k != "" && !seen[k] && g.Intn(4) == 0 {
			es[i].ID = nil
			seen[k] = true
		}
	}
}

func (g *G) mcfg() MCfg {
	return MCfg{g.Intn(2) == 0, g.Intn(3) == 0, g.Intn(3) == 0, pick(g, []string{"all", "id", "file", "line", "fuzzy", "obsolete"})}
}

func gen13(g *G, emit func(C13)) {
	for i := 0; i < g.N(1200, 12000); i++ {
		d, r := g.mergeCats(g.Intn(6) == 0)
		g.odd(d)
		g.odd(r)
		emit(C13{d, r, g.mcfg(), i})
	}
	// Similarities around the threshold, of one part or of several on average.
	for i := 0; i < g.N(200, 2000); i++ {
		n := 17 + g.Intn(14)
		word := func(same int, fill string) string { return strings.Repeat("a", same) + strings.Repeat(fill, n-same) }
		near := func() int { return n/2 - 1 + g.Intn(3) }
		d, r := plainEntry(word(n, "a")), plainEntry(word(near(), "b"))
		d.Str = Bs("t")
		if g.Intn(3) == 0 {
			d.Ctx, r.Ctx = Bs(word(n, "a")), Bs(word(near(), "b"))
		}
		if g.Intn(3) == 0 {
			d.Pl, r.Pl, d.Str, d.F = Bs(word(n, "a")), Bs(word(near(), "b")), nil, []F{{0, Bs("u")}, {1, Bs("v")}}
		}
		if g.Intn(2) == 0 { // of odd total length
			r.ID = append(r.ID, 'c')
		}
		emit(C13{[]E{d}, []E{r}, MCfg{true, g.Intn(4) == 0, g.Intn(2) == 0, "all"}, i})
	}
	// Many similar messages compete for one.
	for i := 0; i < g.N(100, 1000); i++ {
		def, ref := []E{}, []E{}
		for n := 0; n < 2+g.Intn(4); n++ {
			e := plainEntry(fmt.Sprintf("message %d", n))
			e.Str = Bs(fmt.Sprint("t", n))
			if g.Intn(3) == 0 {
				e.Str, e.Pl, e.F = nil, Bs(fmt.Sprintf("messages %d", n)), []F{{0, Bs(fmt.Sprint("u", n))}, {1, Bs(fmt.Sprint("v", n))}}
			}
			if g.Intn(2) == 0 {
				def = append(def, e)
			}
			if g.Intn(2) == 0 {
				e.Str, e.F = nil, []F{}
				e.ID = Bs(fmt.Sprintf("message %d", 10+n))
				ref = append(ref, e)
			} else if g.Intn(2) == 0 {
				e.Str, e.F = nil, []F{}
				ref = append(ref, e)
			}
		}
		emit(C13{def, ref, MCfg{g.Intn(4) != 0, g.Intn(4) == 0, g.Intn(2) == 0, "all"}, i})
	}
}

func init() {
	register("C13", gen13, run13)
	register("C14", gen13, run13)
}
