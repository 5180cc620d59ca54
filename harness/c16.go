package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

// ---- C16: operations leave their inputs alone ----

// Op16 works on catalogues a and b; a catalogue it returns becomes number to.
type Op16 struct {
	Op string `json:"op"`
	A  int    `json:"a"`
	B  int    `json:"b"`
	To int    `json:"to"`
	N  int    `json:"n"` // options
}

type C16 struct {
	Cats [][]E  `json:"cats"`
	Ops  []Op16 `json:"ops"`
}

// Step16 is what one operation left behind; values are digests.
type Step16 struct {
	Regs []string `json:"regs"` // the catalogues after it
	Res  string   `json:"res"`  // its answer
	Res2 string   `json:"res2"` // its answer when run again
}

type O16 struct {
	Init  []string `json:"init"`
	Steps []Step16 `json:"steps"`
}

const regs16 = 6

// spare is what a caller keeps in the memory behind a list.
const spare = "\x01spare"

type cat16 struct {
	file  *po.File
	spare func() string // the memory behind the lists
}

func withSpareStrings(xs []string, roots *[]func() string) []string {
	full := append(append(make([]string, 0, len(xs)+2), xs...), spare, spare)
	n := len(xs)
	*roots = append(*roots, func() string { return fmt.Sprint(full[n:]) })
	return full[:n]
}

// newCat builds a catalogue all of whose lists are parts of longer ones.
func newCat(name string, es []E) cat16 {
	var roots []func() string
	src := toEntries(es)
	full := make(po.Entries, 0, len(src)+2)
	for i, e := range src {
		if i%3 == 2 && len(e.Flags)+len(e.Comments)+len(e.ExtractedComments)+len(e.Previous)+len(e.Plurals)+len(e.Locations) == 0 {
			full = append(full, e)
			continue
		}
		e.Flags = withSpareStrings(e.Flags, &roots)
		e.Comments = withSpareStrings(e.Comments, &roots)
		e.ExtractedComments = withSpareStrings(e.ExtractedComments, &roots)
		e.Previous = withSpareStrings(e.Previous, &roots)
		{
			f := append(append(make(po.PluralEntries, 0, len(e.Plurals)+2), e.Plurals...), po.PluralEntry{ID: -1, Str: spare}, po.PluralEntry{ID: -2, Str: spare})
			n := len(e.Plurals)
			roots = append(roots, func() string { return fmt.Sprint(len(f), f[n].ID, f[n].Str, f[n+1].ID, f[n+1].Str) })
			e.Plurals = f[:n]
		}
		{
			f := append(append(make(po.Locations, 0, len(e.Locations)+2), e.Locations...), po.Location{Line: -1, File: spare}, po.Location{Line: -2, File: spare})
			n := len(e.Locations)
			roots = append(roots, func() string { return fmt.Sprint(f[n].Line, f[n].File, f[n+1].Line, f[n+1].File) })
			e.Locations = f[:n]
		}
		full = append(full, e)
	}
	full = append(full, po.Entry{ID: spare}, po.Entry{ID: spare})
	n := len(src)
	roots = append(roots, func() string { return full[n].ID + full[n+1].ID + full[n].Str })
	return cat16{&po.File{Name: name, Entries: full[:n]}, func() string {
		s := ""
		for _, r := range roots {
			s += r()
		}
		return s
	}}
}

func digest(b []byte) string {
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:6])
}

func (c cat16) digest() string {
	b := mustJSON(fromEntries(c.file.Entries))
	b = append(b, c.file.Name...)
	if c.spare != nil {
		b = append(b, c.spare()...)
	}
	return digest(b)
}

func errorsText(errs []error) string {
	s := ""
	for _, e := range errs {
		s += e.Error() + "\n"
	}
	return s
}

var filters16 = map[string]func(a, b po.Entries, n int) po.Entries{
	"cutheader": func(a, _ po.Entries, _ int) po.Entries { return a.CutHeader() },
	"obsolete":  func(a, _ po.Entries, _ int) po.Entries { return a.CleanObsoletes() },
	"fuzzy":     func(a, _ po.Entries, _ int) po.Entries { return a.CleanFuzzy() },
	"empties":   func(a, _ po.Entries, _ int) po.Entries { return a.CleanEmpties() },
	"clean":     func(a, _ po.Entries, _ int) po.Entries { return a.CleanDuplicates() },
	"solve":     func(a, _ po.Entries, _ int) po.Entries { return a.Solve() },
	"solveprior": func(a, b po.Entries, n int) po.Entries {
		keys := []string{}
		for i, e := range b {
			if i%2 == n%2 {
				keys = append(keys, e.UnifiedID())
			}
		}
		switch n % 4 {
		case 0:
			return a.SolveFunc(po.MergeUsingPriorAsBase(b))
		case 1:
			return a.SolveFunc(po.MergeAndMarkObsoleteIfNotPrioritized(keys))
		case 2:
			return a.SolveFunc(po.MergeIfInPriorityList(keys))
		}
		return a.SolveFunc(po.MergeUsingPriorityOrFallback(b))
	},
	"merge": func(a, b po.Entries, n int) po.Entries {
		cfg := po.MergeConfig{FuzzyMatch: n%2 == 0, KeepPreviousIDs: n%3 == 0, Sort: n%5 < 3, SortMode: po.SortMode(n % 6)}
		if n%7 < 3 {
			return po.Merge(a, b, po.MergeWithMergeConfig(cfg))
		}
		return po.MergeWithConfig(cfg, a, b)
	},
	"concat": func(a, b po.Entries, n int) po.Entries {
		var opts []po.MsgcatMergeOption
		if n%3 == 0 {
			opts = append(opts, po.MsgcatMergeWithUseFirst(true))
		}
		if n%4 == 0 {
			opts = append(opts, po.MsgcatMergeWithMoreThan(1))
		}
		if n%5 == 0 {
			opts = append(opts, po.MsgcatMergeWithLessThan(2))
		}
		fs := []*po.File{{Name: "a.po", Entries: a}, {Name: "b.po", Entries: b}}
		if n%7 == 0 {
			fs = append(fs, fs[0])
		}
		return po.MsgcatMergeFiles(fs, opts...)
	},
}

// answers16 only look.
var answers16 = map[string]func(a, b *po.File, n int) string{
	"compilepo": func(a, _ *po.File, n int) string {
		c := C04{Cfg: WCfg{Loc: pick16([]string{"full", "full", "file", "never"}, n), Omit: n%7 == 0, CFuzzy: n%3 == 0, Manage: n%4 == 0, HCom: n%2 == 0, HFields: n%3 == 1, HasHC: n%5 == 0,
			Pre: Bs(pick16([]string{"", "<"}, n/2)), Suf: Bs(pick16([]string{"", ">"}, n/3))}, Wrap: n%3 == 0, Marker: Bs(pick16([]string{"~", "!"}, n/5)), HL: pick16([]string{"none", "default", "every"}, n/7), How: n}
		b, err := writePo(a, n, c.opts(true)...)
		return fmt.Sprint(string(b), err != nil)
	},
	"compilemo": func(a, _ *po.File, n int) string {
		opts := []compile.MoOption{compile.MoWithSortEntries(n%3 != 0), compile.MoWithDepureEntries(n%4 != 0), compile.MoWithHashTable(n%2 == 0), compile.MoWithEndianness(compile.Endianness(n % 3))}
		b, err := writeMo(a, n, opts...)
		return fmt.Sprint(string(b), err != nil)
	},
	"compileagain": func(a, b *po.File, n int) string {
		var out bytes.Buffer
		p := compile.NewPo(a)
		p.ToWriter(&out)
		p.SetFile(b)
		p.ToWriter(io.Discard)
		m := compile.NewMo(b)
		m.SetFile(a)
		m.ToWriter(&out)
		return out.String()
	},
	"validate": func(a, _ *po.File, n int) string {
		s := errorsText(a.Validate()) + errorsText(a.Entries.Validate()) + errorsText(a.CatchDuplicateEntries())
		for _, e := range a.Entries {
			s += errorsText(e.Validate())
		}
		return s
	},
	"format": func(a, _ *po.File, n int) string {
		s := a.String() + a.Entries.String()
		for _, e := range a.Entries {
			s += e.String() + e.Locations.String() + e.Plurals.String() + e.UnifiedID() + e.FullUnifiedID() + e.UnifiedStr() + fmt.Sprint(e.Hash(), e.FullHash())
			for _, p := range e.Plurals {
				s += p.String()
			}
			for _, l := range e.Locations {
				s += l.String()
			}
		}
		return s
	},
	"header": func(a, _ *po.File, n int) string {
		h := a.Header()
		s := h.String() + fmt.Sprint(h.Nplurals(), h.ToConfig())
		e := h.ToEntry()
		h.Set("Language", "zz")
		h.Register("X-New", "v")
		return s + e.String() + h.String()
	},
	"query": func(a, b *po.File, n int) string {
		s := fmt.Sprint(a.Equal(*b), a.Entries.Equal(b.Entries), a.IsSorted(), a.HasDuplicates(), a.HasHeader())
		for _, e := range b.Entries {
			i, r := a.BestIDRatio(e)
			j, q := a.BestStrRatio(e)
			s += fmt.Sprint(a.Index(e.ID, e.Context), a.FuzzyFind(e.ID, e.Context), a.Load(e.ID, e.Context), a.ContainsUnifiedID(e.UnifiedID()), i, r, j, q, e.IsFuzzy(), e.Plurals.IsSorted(), e.Locations.IsSorted())
			s += fmt.Sprint(fromForms(e.Plurals.Solve()))
			for _, x := range a.Entries {
				s += fmt.Sprint(po.CompareEntry(e, x), po.CompareEntryByStr(e, x), e.Equal(x))
			}
		}
		s += fmt.Sprint(po.CompareEntriesFunc(a.Entries, b.Entries, po.CompareEntry))
		return s
	},
}

func pick16[T any](xs []T, n int) T { return xs[n%len(xs)] }

// changes16 change the catalogue they are called on.
var changes16 = map[string]func(a *po.File, b po.Entries, n int){
	"sort": func(a *po.File, _ po.Entries, n int) {
		switch n % 4 {
		case 0:
			a.Sort()
		case 1:
			a.Entries = a.SortFunc(po.CompareEntryByFile)
		case 2:
			a.Entries = a.PrepareSorter(po.CompareEntryByObsolete)()
		default:
			a.Entries = po.SortMode(n % 6).SortMethod(a.Entries)()
		}
	},
	"set": func(a *po.File, b po.Entries, n int) {
		e := po.Entry{ID: "set", Str: fmt.Sprint(n)}
		if len(a.Entries) > 0 && n%3 != 0 {
			x := a.Entries[n%len(a.Entries)]
			e.ID, e.Context = x.ID, x.Context
		}
		a.Set(e.ID, e.Context, e)
	},
}

func run16(c C16) (o O16) {
	var regs [regs16]cat16
	for i := range regs {
		var es []E
		if i < len(c.Cats) {
			es = c.Cats[i]
		}
		regs[i] = newCat(fmt.Sprintf("%d.po", i), es)
	}
	see := func() []string {
		out := []string{}
		for _, r := range regs {
			out = append(out, r.digest())
		}
		return out
	}
	o.Init = see()
	for _, op := range c.Ops {
		a, b := regs[op.A], regs[op.B]
		s := Step16{}
		if f := filters16[op.Op]; f != nil {
			res := f(a.file.Entries, b.file.Entries, op.N)
			again := f(a.file.Entries, b.file.Entries, op.N)
			s.Res, s.Res2 = digest(mustJSON(fromEntries(res))), digest(mustJSON(fromEntries(again)))
			regs[op.To] = cat16{file: &po.File{Name: "r.po", Entries: res}}
		} else if f := answers16[op.Op]; f != nil {
			s.Res, s.Res2 = digest([]byte(f(a.file, b.file, op.N))), digest([]byte(f(a.file, b.file, op.N)))
		} else {
			changes16[op.Op](a.file, b.file.Entries, op.N)
		}
		s.Regs = see()
		o.Steps = append(o.Steps, s)
	}
	return
}

func keysOf[V any](m map[string]V) []string {
	var out []string
	for _, k := range []string{"cutheader", "obsolete", "fuzzy", "empties", "clean", "solve", "solveprior", "merge", "concat", "compilepo", "compilemo", "compileagain", "validate", "format", "header", "query", "sort", "set"} {
		if _, ok := m[k]; ok {
			out = append(out, k)
		}
	}
	return out
}

func init() {
	register("C16", func(g *G, emit func(C16)) {
		fs, as, cs := keysOf(filters16), keysOf(answers16), keysOf(changes16)
		cat := func() []E {
			def, ref := g.mergeCats(g.Intn(2) == 0)
			es := def
			if g.Intn(2) == 0 {
				es = ref
			}
			if g.Intn(3) == 0 { // duplicates with references and forms of their own
				for n := g.Intn(3); n > 0 && len(es) > 0; n-- {
					e := g.mergeEntry()
					x := pick(g, es)
					e.ID, e.Ctx = x.ID, x.Ctx
					es = append(es, e)
				}
			}
			for i := range es {
				if len(es[i].Locs) == 0 && g.Intn(2) == 0 {
					es[i].Locs = []L{g.Loc(), g.Loc()}
				}
				if g.Intn(3) == 0 {
					g.Shuffle(len(es[i].F), func(a, b int) { es[i].F[a], es[i].F[b] = es[i].F[b], es[i].F[a] })
				}
			}
			return es
		}
		op := func(kind, a, b int) Op16 {
			o := Op16{A: a, B: b, To: 3 + g.Intn(3), N: g.Intn(5040)}
			switch kind {
			case 0:
				o.Op = pick(g, fs)
			case 1:
				o.Op = pick(g, as)
			default:
				o.Op = pick(g, cs)
			}
			return o
		}
		// Every operation once, and then a change of its result.
		for i := 0; i < g.N(40, 400); i++ {
			for _, name := range append(append([]string{}, fs...), as...) {
				o := Op16{name, 0, 1, 3, g.Intn(5040)}
				ops := []Op16{o}
				if filters16[name] != nil {
					ops = append(ops, Op16{pick(g, cs), 3, 1, 3, g.Intn(5040)}, Op16{pick(g, fs), 3, 0, 4, g.Intn(5040)}, Op16{pick(g, cs), 4, 1, 4, g.Intn(5040)})
				}
				emit(C16{[][]E{cat(), cat()}, ops})
			}
		}
		for i := 0; i < g.N(1500, 20000); i++ {
			c := C16{Cats: [][]E{cat(), cat(), cat()}}
			for n := 2 + g.Intn(7); n > 0; n-- {
				switch k := g.Intn(6); k {
				case 0, 1, 2:
					c.Ops = append(c.Ops, op(0, g.Intn(regs16), g.Intn(regs16)))
				case 3, 4:
					c.Ops = append(c.Ops, op(1, g.Intn(regs16), g.Intn(regs16)))
				default:
					c.Ops = append(c.Ops, op(2, 3+g.Intn(3), g.Intn(regs16)))
				}
			}
			emit(c)
		}
	}, run16)
}
