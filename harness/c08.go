package main

import (
	"errors"
	"math"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// ---- C08: duplicates ----

type C08 struct {
	Es    []E  `json:"es"`
	List  []Bs `json:"list"`  // priority keys
	Prior []E  `json:"prior"` // priority messages
	Forms []F  `json:"forms"`
	File  bool `json:"file"`
}

type Dup struct {
	At    int `json:"at"`
	First int `json:"first"`
	Key   Bs  `json:"key"`
}

type O08 struct {
	Has      bool  `json:"has"`
	Dups     []Dup `json:"dups"`
	VDups    []Dup `json:"vdups"` // reported by Validate
	VBad     []int `json:"vbad"`
	Odd      int   `json:"odd"` // errors of no known kind
	Solve    []E   `json:"solve"`
	Solve2   []E   `json:"solve2"`
	Clean    []E   `json:"clean"`
	Clean2   []E   `json:"clean2"`
	IfPrior  []E   `json:"ifprior"`
	Obsolete []E   `json:"obsolete"`
	Fallback []E   `json:"fallback"`
	Base     []E   `json:"base"`
	Forms    []F   `json:"forms"`
}

func report(errs []error, file string) (dups []Dup, bad []int, odd int) {
	dups, bad = []Dup{}, []int{}
	for _, err := range errs {
		var at *po.InvalidEntryAtIndexError
		var dup *po.DuplicatedEntryError
		var inv *po.InvalidEntryError
		var inFile *po.InvalidFileError
		if errors.As(err, &inFile) != (file != "") || (file != "" && inFile.Filename != file) || err.Error() == "" {
			odd++
		}
		switch {
		case !errors.As(err, &at) || !errors.As(err, &inv):
			odd++
		case errors.As(err, &dup):
			dups = append(dups, Dup{at.Index, dup.OriginalIndex, Bs(inv.ID)})
		case errors.Is(err, po.ErrBadPluralEntry):
			bad = append(bad, at.Index)
		default:
			odd++
		}
	}
	return
}

// smallEntry is a message over few keys, with anything in its other fields.
func (g *G) smallEntry() E {
	e := g.Entry()
	e.ID = Bs(pick(g, []string{"", "a", "a", "b", "b", "c", "ab"}))
	e.Ctx = Bs(pick(g, []string{"", "", "", "a", "x", "b"}))
	if g.Intn(3) == 0 {
		e.Str = nil
		for i := range e.F {
			e.F[i].S = nil
		}
	}
	return e
}

func (g *G) smallCatalogue(n int) []E {
	out := []E{}
	for i := 0; i < n; i++ {
		out = append(out, g.smallEntry())
	}
	return out
}

// shapes are messages that differ in one aspect each.
func shapes(id, ctx string) []E {
	base := plainEntry(id)
	base.Ctx = Bs(ctx)
	var out []E
	add := func(f func(*E)) {
		e := base
		f(&e)
		out = append(out, e)
	}
	add(func(e *E) {})
	add(func(e *E) { e.Str = Bs("s") })
	add(func(e *E) { e.Str = Bs("t") })
	add(func(e *E) { e.Pl = Bs("ps") })
	add(func(e *E) { e.Pl, e.F = Bs("ps"), []F{{0, nil}, {1, nil}} })
	add(func(e *E) { e.Pl, e.F = Bs("ps"), []F{{0, Bs("u")}, {1, Bs("v")}} })
	add(func(e *E) { e.Pl, e.F = Bs("qs"), []F{{0, Bs("w")}} })
	add(func(e *E) { e.F = []F{{0, Bs("w")}, {1, Bs("z")}} })
	add(func(e *E) { e.Obs, e.Str = true, Bs("o") })
	add(func(e *E) { e.Flag, e.Str = []Bs{Bs("fuzzy")}, Bs("f") })
	add(func(e *E) { e.Locs, e.Str = []L{{Bs("a.go"), 1}}, Bs("s") })
	add(func(e *E) { e.Locs = []L{{Bs("a.go"), 2}, {Bs("b.go"), 1}} })
	add(func(e *E) { e.Com, e.Ext, e.Prev = []Bs{Bs("c")}, []Bs{Bs("e")}, []Bs{Bs("p")} })
	add(func(e *E) { e.Str, e.Pl, e.F = Bs("s"), Bs("ps"), []F{{0, Bs("u")}} })
	return out
}

func init() {
	register("C08", func(g *G, emit func(C08)) {
		a, b := shapes("a", ""), shapes("a", "a")
		n := 0
		c := func(es ...E) {
			n++
			emit(C08{es, []Bs{Bs("a")}, []E{shapes("a", "")[n%len(a)]}, []F{}, n%2 == 0})
		}
		c()
		for i := range a {
			c(a[i])
			for j := range a {
				c(a[i], a[j])
				c(a[i], b[j], a[j])
				for k := range a {
					if g.Thorough() || (i+j+k)%4 == 0 {
						c(a[i], a[j], b[k], a[k])
					}
				}
			}
		}
		// Messages that could be mistaken for each other.
		for _, p := range [][4]string{{"", "ab", "a", "b"}, {"a", "", "", "a"}, {"a", "b", "b", "a"}, {"", "a|b", "a", "b"}, {"a", "a", "", "aa"}, {"", "a\x00b", "a", "b"}, {"", "A", "", "a"}, {"", "a", "", "a "}} {
			x, y := plainEntry(p[1]), plainEntry(p[3])
			x.Ctx, y.Ctx = Bs(p[0]), Bs(p[2])
			c(x, y)
			c(x, y, x, y)
		}
		for i := 0; i < g.N(1500, 12000); i++ {
			k := C08{Es: g.smallCatalogue(g.Intn(8)), List: []Bs{}, Prior: g.Catalogue(2), Forms: []F{}, File: g.Intn(2) == 0}
			for _, s := range []string{"a", "b", "", "a\x04a", "x\x04b"} {
				if g.Intn(2) == 0 {
					k.List = append(k.List, Bs(s))
				}
			}
			if len(k.Es) > 0 && g.Intn(2) == 0 {
				k.Prior = append(k.Prior, k.Es[g.Intn(len(k.Es))])
			}
			if len(k.Es) > 0 && g.Intn(2) == 0 {
				p := pick(g, k.Es)
				p.Str, p.Com = Bs("prior"), []Bs{Bs("prior")}
				k.Prior = append(k.Prior, p)
			}
			for m := g.Intn(5); m > 0; m-- {
				k.Forms = append(k.Forms, F{pick(g, []int{0, 1, 2, 1, 11, 12}), Bs(pick(g, []string{"", "a", "b", "1", "a1", "11"}))})
			}
			emit(k)
		}
		emit(C08{g.smallCatalogue(60), []Bs{}, []E{}, []F{}, true})
	}, func(c C08) (o O08) {
		es := func() po.Entries { return toEntries(c.Es) }
		file := po.File{Name: "f.po", Entries: es()}
		o.Has = es().HasDuplicates()
		var odd1, odd2 int
		var none []int
		if c.File {
			o.Dups, none, odd1 = report(file.CatchDuplicateEntries(), "f.po")
			o.VDups, o.VBad, odd2 = report(file.Validate(), "f.po")
		} else {
			o.Dups, none, odd1 = report(es().CatchDuplicateEntries(), "")
			o.VDups, o.VBad, odd2 = report(es().Validate(), "")
		}
		o.Odd = odd1 + odd2 + len(none)
		s := es().Solve()
		o.Solve = fromEntries(s)
		o.Solve2 = fromEntries(s.Solve())
		k := es().CleanDuplicates()
		o.Clean = fromEntries(k)
		o.Clean2 = fromEntries(k.CleanDuplicates())
		o.IfPrior = fromEntries(es().SolveFunc(po.MergeIfInPriorityList(strs(c.List))))
		o.Obsolete = fromEntries(es().SolveFunc(po.MergeAndMarkObsoleteIfNotPrioritized(strs(c.List))))
		o.Fallback = fromEntries(es().SolveFunc(po.MergeUsingPriorityOrFallback(toEntries(c.Prior))))
		o.Base = fromEntries(es().SolveFunc(po.MergeUsingPriorAsBase(toEntries(c.Prior))))
		o.Forms = fromForms(toForms(c.Forms).Solve())
		return
	})
}

// ---- C09: lookups, updates and filters ----

type Op9 struct {
	Op  string `json:"op"`
	ID  Bs     `json:"id"`
	Ctx Bs     `json:"ctx"`
	E   E      `json:"e"`
	Rep bool   `json:"rep"` // the file goes on with the filtered messages
}

type C09 struct {
	Es  []E   `json:"es"`
	Ops []Op9 `json:"ops"`
}

type Step9 struct {
	N   int  `json:"n"`
	B   bool `json:"b"`
	S   Bs   `json:"s"`
	Res []E  `json:"res"` // what a filter returned
	Es  []E  `json:"es"`  // the file afterwards
}

type O09 struct {
	Steps []Step9 `json:"steps"`
}

var ops9 = []string{"set", "index", "indexuid", "contains", "load", "loaduid", "hasheader", "cutheader", "noobsolete", "nofuzzy", "noempties", "clean", "dups"}

func init() {
	register("C09", func(g *G, emit func(C09)) {
		ids, ctxs := []string{"", "a", "b", "ab"}, []string{"", "a", "x"}
		op := func(name string) Op9 {
			o := Op9{Op: name, ID: Bs(pick(g, ids)), Ctx: Bs(pick(g, ctxs)), E: plainEntry(""), Rep: g.Intn(3) != 0}
			if name == "set" {
				o.E = g.smallEntry()
				// Mostly the message of that key; anything may be put there, though.
				if g.Intn(5) != 0 {
					o.E.ID, o.E.Ctx = o.ID, o.Ctx
				}
			}
			return o
		}
		// Every operation alone on small catalogues, with every key.
		for n := 0; n < 4; n++ {
			for k := 0; k < g.N(6, 40); k++ {
				es := g.smallCatalogue(n)
				for _, name := range ops9 {
					for _, id := range ids {
						for _, ctx := range ctxs[:2] {
							o := op(name)
							o.ID, o.Ctx = Bs(id), Bs(ctx)
							if name == "set" {
								o.E.ID, o.E.Ctx = o.ID, o.Ctx
							}
							emit(C09{es, []Op9{o}})
						}
						if len(name) > 8 {
							break
						}
					}
				}
			}
		}
		for i := 0; i < g.N(600, 6000); i++ {
			// Sometimes a text that looks like a key with a context.
			ids = []string{"", "a", "b", "ab", "a\x04b", "x\x04a"}[:4+2*(i/2%2)]
			c := C09{Es: g.smallCatalogue(g.Intn(6))}
			for k := range c.Es {
				if len(ids) > 4 && g.Intn(2) == 0 {
					c.Es[k].ID, c.Es[k].Ctx = Bs(pick(g, ids)), Bs(pick(g, ctxs))
				}
			}
			for n := 1 + g.Intn(12); n > 0; n-- {
				c.Ops = append(c.Ops, op(pick(g, ops9)))
			}
			emit(c)
		}
	}, func(c C09) (o O09) {
		f := &po.File{Name: "f.po", Entries: toEntries(c.Es)}
		if len(c.Ops)%2 == 0 {
			f = po.NewFile("f.po", toEntries(c.Es)...)
		}
		for _, op := range c.Ops {
			id, ctx := string(op.ID), string(op.Ctx)
			uid := po.Entry{ID: id, Context: ctx}.UnifiedID()
			var s Step9
			res := f.Entries
			filter := true
			switch op.Op {
			case "cutheader":
				res = f.CutHeader()
			case "noobsolete":
				res = f.CleanObsoletes()
			case "nofuzzy":
				res = f.CleanFuzzy()
			case "noempties":
				res = f.CleanEmpties()
			case "clean":
				res = f.CleanDuplicates()
			default:
				filter = false
			}
			switch op.Op {
			case "set":
				f.Set(id, ctx, toEntry(op.E))
			case "index":
				s.N = f.Index(id, ctx)
			case "indexuid":
				s.N = f.IndexByUnifiedID(uid)
			case "contains":
				s.B = f.ContainsUnifiedID(uid)
			case "load":
				s.S = Bs(f.Load(id, ctx))
			case "loaduid":
				s.S = Bs(f.LoadByUnifiedID(uid))
			case "hasheader":
				s.B = f.HasHeader()
			case "dups":
				s.B = f.HasDuplicates()
			}
			if filter {
				s.Res = fromEntries(res)
				if op.Rep {
					f.Entries = res
				}
			} else {
				s.Res = []E{}
			}
			s.Es = fromEntries(f.Entries)
			o.Steps = append(o.Steps, s)
		}
		return
	})
}

// ---- C10: sorting ----

type C10 struct {
	Es    []E `json:"es"`
	Locs  []L `json:"locs"`
	Forms []F `json:"forms"`
	R     int `json:"r"`
}

// A1 is what a comparison does with a list: its sign for every pair, the list sorted by it,
// and whether it was sorted before and after.
type A1[T any] struct {
	O      string  `json:"o"`
	Cmp    [][]int `json:"cmp"`
	Sorted []T     `json:"sorted"`
	Before bool    `json:"before"`
	After  bool    `json:"after"`
}

type O10 struct {
	Es    []A1[E] `json:"es"`
	Modes []A1[E] `json:"modes"`
	Locs  []A1[L] `json:"locs"`
	Forms []A1[F] `json:"forms"`
	Lists []int   `json:"lists"` // comparisons of whole lists
}

func sign(n int) int {
	if n < 0 {
		return -1
	}
	if n > 0 {
		return 1
	}
	return 0
}

// big makes extreme numbers of those beyond 2000000000.
func big(n int) int {
	if n > 2000000000 {
		return math.MaxInt - (2000000009 - n)
	}
	if n < -2000000000 {
		return math.MinInt + (2000000009 + n)
	}
	return n
}

func unbig(n int) int {
	if n > 2000000000 {
		return n - math.MaxInt + 2000000009
	}
	if n < -2000000000 {
		return n - math.MinInt - 2000000009
	}
	return n
}

func bigLocs(ls []L, f func(int) int) []L {
	out := []L{}
	for _, l := range ls {
		out = append(out, L{l.F, f(l.L)})
	}
	return out
}

func bigForms(fs []F, f func(int) int) []F {
	out := []F{}
	for _, x := range fs {
		out = append(out, F{f(x.I), x.S})
	}
	return out
}

func bigEs(es []E, f func(int) int) []E {
	out := []E{}
	for _, e := range es {
		e.Locs, e.F = bigLocs(e.Locs, f), bigForms(e.F, f)
		out = append(out, e)
	}
	return out
}

type entryOrder struct {
	name string
	cmp  po.Cmp[po.Entry]
	mode po.SortMode
}

var entryOrders = []entryOrder{
	{"all", po.CompareEntry, po.SortByAll}, {"obsolete", po.CompareEntryByObsolete, po.SortByObsolete}, {"fuzzy", po.CompareEntryByFuzzy, po.SortByFuzzy},
	{"file", po.CompareEntryByFile, po.SortByFile}, {"line", po.CompareEntryByLine, po.SortByLine}, {"id", po.CompareEntryByID, po.SortByID},
	{"location", po.CompareEntryByLocation, -1}, {"str", po.CompareEntryByStr, -1},
}

func matrix[T any](xs []T, cmp func(a, b T) int) [][]int {
	out := [][]int{}
	for _, a := range xs {
		row := []int{}
		for _, b := range xs {
			row = append(row, sign(cmp(a, b)))
		}
		out = append(out, row)
	}
	return out
}

func init() {
	register("C10", func(g *G, emit func(C10)) {
		files := []string{"a.go", "./a.go", "b.go", "a/b.go", "a//b.go", "a/../b.go", "", ".", "A.go", "b/", "../b.go", "/b.go", "x/../a.go", "a.go/."}
		lines := []int{1, 2, 3, 10, 9, 0, -1, 100, 2000000009, -2000000009, 2000000008}
		loc := func() L { return L{Bs(pick(g, files[:g.Intn(len(files))+1])), pick(g, lines[:g.Intn(len(lines))+1])} }
		form := func() F {
			return F{pick(g, []int{0, 1, 2, 3, 10, -1, 2000000009, -2000000009}[:g.Intn(8)+1]), Bs(pick(g, []string{"", "a", "b", "ab", "é", "B"}))}
		}
		entry := func() E {
			e := plainEntry(pick(g, []string{"a", "b", "", "ab", "a b", "é", "Z"}))
			e.Ctx = Bs(pick(g, []string{"", "", "a", "b"}))
			for n := g.Intn(3); n > 0; n-- {
				e.Locs = append(e.Locs, loc())
			}
			e.Obs = g.Intn(4) == 0
			if g.Intn(4) == 0 {
				e.Flag = g.Flags()
			}
			e.Str = Bs(pick(g, []string{"", "x", "y"}))
			for n := g.Intn(3); n > 0 && g.Intn(2) == 0; n-- {
				e.F = append(e.F, form())
			}
			return e
		}
		for i := 0; i < g.N(500, 5000); i++ {
			c := C10{Es: []E{}, Locs: []L{}, Forms: []F{}, R: i}
			for n := g.Intn(6); n > 0; n-- {
				c.Es = append(c.Es, entry())
			}
			for n := g.Intn(7); n > 0; n-- {
				c.Locs = append(c.Locs, loc())
			}
			for n := g.Intn(7); n > 0; n-- {
				c.Forms = append(c.Forms, form())
			}
			if i%5 == 0 && len(c.Es) > 1 { // nearly equal messages
				for k := range c.Es {
					c.Es[k] = c.Es[0]
				}
				c.Es[len(c.Es)-1] = entry()
			}
			if i%7 == 0 { // already sorted lists too
				c.Es = bigEs(fromEntries(toEntries(bigEs(c.Es, big)).Sort()), unbig)
			}
			emit(c)
		}
		// Long lists leave the insertion sort of small ones.
		for i := 0; i < g.N(6, 40); i++ {
			c := C10{Es: []E{}, Locs: []L{}, Forms: []F{}, R: i}
			for n := 0; n < 30; n++ {
				c.Es, c.Locs, c.Forms = append(c.Es, entry()), append(c.Locs, loc()), append(c.Forms, form())
			}
			emit(c)
		}
	}, func(c C10) (o O10) {
		es := func() po.Entries { return toEntries(bigEs(c.Es, big)) }
		out := func(x po.Entries) []E { return bigEs(fromEntries(x), unbig) }
		for _, k := range entryOrders {
			a := A1[E]{O: k.name, Cmp: matrix(es(), k.cmp), Before: es().IsSortedFunc(k.cmp)}
			x := es()
			switch {
			case k.name == "all" && c.R%3 == 0:
				x = x.Sort()
				a.Before = es().IsSorted()
			case c.R%2 == 0:
				x = x.PrepareSorter(k.cmp)()
			default:
				x = x.SortFunc(k.cmp)
			}
			a.Sorted, a.After = out(x), x.IsSortedFunc(k.cmp)
			o.Es = append(o.Es, a)
			if k.mode >= 0 {
				y := k.mode.SortMethod(es())()
				o.Modes = append(o.Modes, A1[E]{k.name, [][]int{}, out(y), false, y.IsSortedFunc(k.cmp)})
			}
		}
		y := po.SortMode(99).SortMethod(es())()
		o.Modes = append(o.Modes, A1[E]{"all", [][]int{}, out(y), false, y.IsSorted()})
		locs := func() po.Locations { return toLocs(bigLocs(c.Locs, big)) }
		for _, k := range []struct {
			name string
			cmp  po.Cmp[po.Location]
		}{{"all", po.CompareLocation}, {"file", po.CompareLocationByFile}, {"line", po.CompareLocationByLine}} {
			a := A1[L]{O: k.name, Cmp: matrix(locs(), k.cmp), Before: locs().IsSortedFunc(k.cmp)}
			x := locs()
			if k.name == "all" && c.R%2 == 0 {
				a.Before = x.IsSorted()
				x = x.Sort()
			} else {
				x = x.SortFunc(k.cmp)
			}
			a.Sorted, a.After = bigLocs(fromLocs(x), unbig), x.IsSortedFunc(k.cmp)
			o.Locs = append(o.Locs, a)
		}
		forms := func() po.PluralEntries { return toForms(bigForms(c.Forms, big)) }
		for _, k := range []struct {
			name string
			cmp  po.Cmp[po.PluralEntry]
		}{{"all", po.ComparePluralEntry}, {"id", po.ComparePluralEntryByID}, {"str", po.ComparePluralEntryByStr}} {
			a := A1[F]{O: k.name, Cmp: matrix(forms(), k.cmp), Before: forms().IsSortedFunc(k.cmp)}
			x := forms()
			if k.name == "all" && c.R%2 == 0 {
				a.Before = x.IsSorted()
				x = x.Sort()
			} else {
				x = x.SortFunc(k.cmp)
			}
			a.Sorted, a.After = bigForms(fromForms(x), unbig), x.IsSortedFunc(k.cmp)
			o.Forms = append(o.Forms, a)
		}
		// The first half of each list against the rest.
		h := es()
		l, p := locs(), forms()
		o.Lists = []int{
			sign(po.CompareEntriesFunc(h[:len(h)/2], h[len(h)/2:], po.CompareEntry)),
			sign(po.CompareLocationsFunc(l[:len(l)/2], l[len(l)/2:], po.CompareLocation)),
			sign(po.ComparePluralEntriesFunc(p[:len(p)/2], p[len(p)/2:], po.ComparePluralEntry)),
		}
		return
	})
}

// ---- C11: equality ----

type C11 struct {
	A  []E    `json:"a"`
	B  []E    `json:"b"`
	NA string `json:"na"`
	NB string `json:"nb"`
	// View > 0: b is the part of a from View-1 on, in the same memory.
	View int `json:"view"`
	// Nil: absent lists of b are empty instead of nil.
	Nil bool `json:"nil"`
}

type O11 struct {
	Files  []bool   `json:"files"` // a=b, b=a, a=a, b=b
	Es     []bool   `json:"es"`
	Locs   []bool   `json:"locs"` // reference lists of the first messages
	Forms  []bool   `json:"forms"`
	Loc1   []bool   `json:"loc1"` // their first elements
	Form1  []bool   `json:"form1"`
	Entry  [][]bool `json:"entry"`  // every message of a with every message of b
	Entry2 [][]bool `json:"entry2"` // every message of b with every message of a
}

func notNil(es po.Entries) po.Entries {
	if es == nil {
		es = po.Entries{}
	}
	for i := range es {
		e := &es[i]
		if e.Flags == nil {
			e.Flags = []string{}
		}
		if e.Comments == nil {
			e.Comments = []string{}
		}
		if e.ExtractedComments == nil {
			e.ExtractedComments = []string{}
		}
		if e.Previous == nil {
			e.Previous = []string{}
		}
		if e.Plurals == nil {
			e.Plurals = po.PluralEntries{}
		}
		if e.Locations == nil {
			e.Locations = po.Locations{}
		}
	}
	return es
}

// mutations are all single changes of a message.
func mutations(e E) []E {
	var out []E
	add := func(f func(*E)) {
		var x E
		if err := jsonCopy(e, &x); err != nil {
			die("%v", err)
		}
		f(&x)
		out = append(out, x)
	}
	x := Bs("x")
	add(func(e *E) { e.Ctx = append(e.Ctx, x...) })
	add(func(e *E) { e.ID = append(e.ID, x...) })
	add(func(e *E) { e.Pl = append(e.Pl, x...) })
	add(func(e *E) { e.Str = append(e.Str, x...) })
	add(func(e *E) { e.Obs = !e.Obs })
	add(func(e *E) { e.Ctx, e.ID = e.ID, e.Ctx })
	add(func(e *E) { e.ID, e.Str = e.Str, e.ID })
	lists := []func(*E) *[]Bs{func(e *E) *[]Bs { return &e.Flag }, func(e *E) *[]Bs { return &e.Com }, func(e *E) *[]Bs { return &e.Ext }, func(e *E) *[]Bs { return &e.Prev }}
	for _, l := range lists {
		l := l
		add(func(e *E) { *l(e) = append(*l(e), x) })
		add(func(e *E) { *l(e) = append([]Bs{x}, *l(e)...) })
		n := len(*l(&e))
		for i := 0; i < n; i++ {
			i := i
			add(func(e *E) { (*l(e))[i] = append((*l(e))[i], x...) })
			add(func(e *E) { *l(e) = append((*l(e))[:i], (*l(e))[i+1:]...) })
		}
		if n > 1 {
			add(func(e *E) { (*l(e))[0], (*l(e))[1] = (*l(e))[1], (*l(e))[0] })
		}
	}
	for i := range e.F {
		i := i
		add(func(e *E) { e.F[i].I += 7 })
		add(func(e *E) { e.F[i].S = append(e.F[i].S, x...) })
		add(func(e *E) { e.F = append(e.F[:i], e.F[i+1:]...) })
		add(func(e *E) { e.F[0], e.F[i] = e.F[i], e.F[0] })
	}
	add(func(e *E) { e.F = append(e.F, F{9, x}) })
	for i := range e.Locs {
		i := i
		add(func(e *E) { e.Locs[i].L += 1 })
		add(func(e *E) { e.Locs[i].F = append(e.Locs[i].F, x...) })
		add(func(e *E) { e.Locs = append(e.Locs[:i], e.Locs[i+1:]...) })
		add(func(e *E) { e.Locs[0], e.Locs[i] = e.Locs[i], e.Locs[0] })
	}
	add(func(e *E) { e.Locs = append(e.Locs, L{x, 1}) })
	return out
}

func init() {
	register("C11", func(g *G, emit func(C11)) {
		k := 0
		c := func(a, b []E) {
			k++
			x := C11{A: a, B: b, NA: "n", NB: "n", Nil: k%2 == 0}
			if k%11 == 0 {
				x.NB = "m"
			}
			emit(x)
		}
		c([]E{}, []E{})
		full := plainEntry("id")
		full.Ctx, full.Pl = Bs("c"), Bs("p")
		full.Flag, full.Com, full.Ext, full.Prev = bss([]string{"fuzzy", "a"}), bss([]string{"1", "2"}), bss([]string{"3", "4"}), bss([]string{"5", "6"})
		full.F = []F{{0, Bs("a")}, {1, Bs("b")}}
		full.Locs = []L{{Bs("f"), 1}, {Bs("g"), 2}}
		for _, e := range []E{full, plainEntry("a")} {
			c([]E{e}, []E{e})
			ms := mutations(e)
			for _, m := range ms {
				c([]E{e}, []E{m})
				c([]E{plainEntry("x"), e}, []E{plainEntry("x"), m})
				c([]E{e, m}, []E{m, e})
				c([]E{e, e}, []E{e, m})
			}
			for i := 0; i < g.N(150, 2000); i++ {
				c([]E{pick(g, ms)}, []E{pick(g, ms)})
			}
		}
		for i := 0; i < g.N(400, 3000); i++ {
			a := g.Catalogue(g.Size())
			var b []E
			jsonCopy(a, &b)
			if len(b) > 0 && g.Intn(4) != 0 {
				n := g.Intn(len(b))
				if g.Intn(2) == 0 {
					n = len(b) - 1
				}
				switch g.Intn(4) {
				case 0:
					b = append(b[:n], b[n+1:]...)
				case 1:
					b = append(b, g.Entry())
				default:
					b[n] = pick(g, mutations(b[n]))
				}
			}
			c(a, b)
		}
		// The same memory.
		for i := 0; i < g.N(200, 1000); i++ {
			a := g.Catalogue(g.Size())
			if g.Intn(2) == 0 {
				for k := range a {
					a[k] = a[0]
				}
				if len(a) > 0 && g.Intn(2) == 0 {
					a[len(a)-1] = g.Entry()
				}
			}
			v := g.Intn(min(len(a), 2) + 1)
			emit(C11{A: a, B: a[v:], NA: "n", NB: "n", View: v + 1})
		}
	}, func(c C11) (o O11) {
		a := toEntries(c.A)
		var b po.Entries
		if c.View > 0 {
			b = a[c.View-1:]
		} else {
			b = toEntries(c.B)
			if c.Nil {
				b = notNil(b)
			}
		}
		fa, fb := po.File{Name: c.NA, Entries: a}, po.File{Name: c.NB, Entries: b}
		o.Files = []bool{fa.Equal(fb), fb.Equal(fa), fa.Equal(fa), fb.Equal(fb)}
		o.Es = []bool{a.Equal(b), b.Equal(a), a.Equal(a), b.Equal(b)}
		var ea, eb po.Entry
		if len(a) > 0 {
			ea = a[0]
		}
		if len(b) > 0 {
			eb = b[0]
		}
		o.Locs = []bool{ea.Locations.Equal(eb.Locations), eb.Locations.Equal(ea.Locations), ea.Locations.Equal(ea.Locations), eb.Locations.Equal(eb.Locations)}
		o.Forms = []bool{ea.Plurals.Equal(eb.Plurals), eb.Plurals.Equal(ea.Plurals), ea.Plurals.Equal(ea.Plurals), eb.Plurals.Equal(eb.Plurals)}
		var la, lb po.Location
		if len(ea.Locations) > 0 && len(eb.Locations) > 0 {
			la, lb = ea.Locations[0], eb.Locations[0]
		}
		o.Loc1 = []bool{la.Equal(lb), lb.Equal(la), la.Equal(la), lb.Equal(lb)}
		var pa, pb po.PluralEntry
		if len(ea.Plurals) > 0 && len(eb.Plurals) > 0 {
			pa, pb = ea.Plurals[0], eb.Plurals[0]
		}
		o.Form1 = []bool{pa.Equal(pb), pb.Equal(pa), pa.Equal(pa), pb.Equal(pb)}
		o.Entry, o.Entry2 = [][]bool{}, [][]bool{}
		for i := range a {
			row := []bool{}
			for k := range b {
				row = append(row, a[i].Equal(b[k]))
			}
			o.Entry = append(o.Entry, row)
		}
		for k := range b {
			row := []bool{}
			for i := range a {
				row = append(row, b[k].Equal(a[i]))
			}
			o.Entry2 = append(o.Entry2, row)
		}
		return
	})
}
