package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// ---- C23: what the tools produce ----

func run23(c C22) (o O22) {
	step := func(dir string, r R22) {
		s := runTool(dir, r)
		if r.Tool == "xgotext" {
			s.Stdout = undated(s.Stdout)
			for i := range s.Fs {
				if filepath.Ext(string(s.Fs[i].P)) != ".go" {
					if d := undated(s.Fs[i].D); !bytes.Equal(d, s.Fs[i].D) {
						// The next run finds what is recorded.
						s.Fs[i].D = d
						check22(os.WriteFile(filepath.Join(dir, string(s.Fs[i].P)), d, 0o600))
					}
				}
			}
		}
		o.Steps = append(o.Steps, s)
	}
	for i := 0; i < len(c.Runs); {
		scratch(func(dir string) {
			setUp22(dir, c.Fs)
			step(dir, c.Runs[i])
			for i++; i < len(c.Runs) && c.Runs[i].Keep; i++ {
				step(dir, c.Runs[i])
			}
		})
	}
	return
}

type case23 struct {
	g *G
	c C22
}

func (x *case23) file(p string, d string) {
	dir := filepath.Dir(p)
	if dir != "." {
		x.dir(dir)
	}
	x.c.Fs = append(x.c.Fs, F22{P: Bs(p), D: Bs(d)})
}

func (x *case23) dir(p string) {
	for _, f := range x.c.Fs {
		if string(f.P) == p {
			return
		}
	}
	if d := filepath.Dir(p); d != "." {
		x.dir(d)
	}
	x.c.Fs = append(x.c.Fs, F22{P: Bs(p), D: Bs{}, Dir: true})
}

func (x *case23) run(rel string, base int, r R22) int {
	r.Rel, r.Base = rel, base
	if r.Alias == 0 {
		r.Alias = x.g.Intn(210)
	}
	x.c.Runs = append(x.c.Runs, r)
	return len(x.c.Runs)
}

func (x *case23) done(emit func(C22)) {
	sort.Slice(x.c.Fs, func(i, j int) bool { return bytes.Compare(x.c.Fs[i].P, x.c.Fs[j].P) < 0 })
	emit(x.c)
}

func tool23(tool string, args ...string) R22 {
	r := R22{Tool: tool, Args: []Bs{}, Stdin: Bs{}, O: Opt22{Exclude: []Bs{}, Comp: []Bs{}, Domain: Bs("messages"), Wrap: tool != "xgotext"}}
	for _, a := range args {
		r.Args = append(r.Args, Bs(a))
	}
	return r
}

func (r R22) with(f func(*R22)) R22 {
	r.Args = append([]Bs{}, r.Args...)
	f(&r)
	return r
}

func to(out string) func(*R22) {
	return func(r *R22) { r.O.HasOut, r.O.Out = true, Bs(out) }
}

// elsewhere adds runs that must give the text of run b: in a file, over an existing file, by
// the wrapper.
func (x *case23) elsewhere(b int, stdinArg bool) {
	r := x.c.Runs[b-1]
	if r.Tool != "msgofmt" {
		r.O.HasOut = r.O.HasOut && x.g.Intn(2) == 0
	}
	switch x.g.Intn(3) {
	case 0:
		x.run("same", b, r.with(to("new.out")))
	case 1:
		x.run("same", b, r.with(func(r *R22) { to("there.out")(r); r.O.Force = true }))
	}
	if x.g.Intn(2) == 0 {
		x.run("alike", b, x.c.Runs[b-1].with(func(r *R22) { r.Wrap = true }))
	}
}

func (g *G) writing(o *Opt22, tool string) {
	switch g.Intn(4) {
	case 0:
		o.NoLoc = true
	case 1, 2:
		o.HasAddLoc, o.AddLoc = true, pick(g, []string{"full", "file", "never"})
	}
	o.Wrap = g.Intn(2) == 0
	if tool == "xgotext" {
		o.Omit = g.Intn(3) == 0
		if g.Intn(2) == 0 {
			o.Pre = Bs(pick(g, []string{"<", "tr ", "é\n", "\""}))
		}
		if g.Intn(2) == 0 {
			o.Suf = Bs(pick(g, []string{">", "\\", " \t", "!"}))
		}
	}
}

func noDates(es []E) []E {
	for i := range es {
		es[i].Str = Bs(strings.ReplaceAll(string(es[i].Str), "POT-Creation-Date", "X-Date"))
	}
	return es
}

// tidy makes messages survive being written and read: references that all location modes
// keep, comments without blanks around.
func (g *G) tidy(es []E) []E {
	for i := range es {
		e := &es[i]
		for k := range e.Locs {
			e.Locs[k].F = Bs(pick(g, []string{"a.go", "b/c.go", "ü.go", "/abs/p.go", "a"}))
		}
		line := func(xs []Bs) []Bs {
			out := []Bs{}
			for _, c := range xs {
				c = Bs(strings.TrimSpace(strings.Map(func(r rune) rune {
					if r < 0x20 || r == 0x7f || r == 0x85 || r == 0xa0 || r == 0x2028 {
						return -1
					}
					return r
				}, string(c))))
				if len(c) > 0 {
					out = append(out, c)
				}
			}
			return out
		}
		e.Com, e.Ext, e.Prev = line(e.Com), line(e.Ext), line(e.Prev)
	}
	return es
}

func (g *G) fmt23(emit func(C22)) {
	x := &case23{g: g}
	es := g.tidy(g.compilable(g.Intn(8)))
	// Distinct keys: the same message in two files is an error.
	seen := map[string]bool{}
	var files [][]E
	n := 1 + g.Intn(3)
	for i := 0; i < n; i++ {
		files = append(files, nil)
	}
	for _, e := range es {
		if seen[key(e)] && g.Intn(12) != 0 {
			continue
		}
		seen[key(e)] = true
		k := g.Intn(n)
		files[k] = append(files[k], e)
	}
	var args []string
	dir := ""
	if g.Intn(3) == 0 {
		dir = "d"
	}
	for i, f := range files {
		name := fmt.Sprintf("f%d.po", i)
		if dir != "" && g.Intn(3) == 0 {
			name = fmt.Sprintf(pick(g, []string{"f%d.po.po", "x.portal%d.po", ".po%d.po", "f%d.pot.po", "f.%d.mo.po"}), i)
		}
		x.file(filepath.Join(dir, name), g.layOut(f, "~"))
		args = append(args, name)
	}
	x.file("there.out", "precious")
	if dir == "d" {
		x.file("d/there.out", "precious")
		x.file("d/readme.txt", "not a catalogue")
	}
	x.dir("out")
	opts := func(r *R22) {
		r.O.Dir = Bs(dir)
		r.O.NoHash = g.Intn(3) == 0
		r.O.Endian = pick(g, []string{"", "big", "little", "native"})
	}
	base := tool23("msgofmt", args...).with(opts)
	if g.Intn(4) == 0 {
		base = base.with(func(r *R22) {
			k := g.Intn(len(files))
			r.Args[k] = Bs("-")
			r.Stdin = Bs(g.layOut(files[k], "~"))
		})
	}
	out := pick(g, []string{"new.mo", "there.out", "messages.mo"})
	first := x.run("result", 0, base.with(func(r *R22) {
		if out != "messages.mo" {
			to(out)(r)
		}
		r.O.Force = true
	}))
	un := tool23("msgounfmt", filepath.Join(dir, out)).with(func(r *R22) { r.Keep = true })
	x.run("chain", first, un)
	if g.Intn(2) == 0 {
		x.run("same", first+1, un.with(to("new.out")))
		// A second time around.
		x.run("result", 0, tool23("msgofmt", "new.out").with(func(r *R22) { r.Keep = true; to("again.mo")(r) }))
	}
	std := x.run("result", 0, base.with(to("-")))
	x.elsewhere(std, false)
	if dir != "" && g.Intn(2) == 0 {
		whole := tool23("msgofmt").with(func(r *R22) { opts(r); r.O.Force = g.Intn(2) == 0 })
		x.run("result", 0, whole)
		x.run("alike", len(x.c.Runs), whole.with(func(r *R22) { r.Wrap = true }))
	}
	x.done(emit)
}

func (g *G) unfmt23(emit func(C22)) {
	x := &case23{g: g}
	var args []string
	seen := map[string]bool{}
	for i := 0; i < 1+g.Intn(3); i++ {
		var pairs [][2]string
		for _, e := range g.tidy(g.compilable(g.Intn(5))) {
			if e.Obs || seen[key(e)] && g.Intn(8) != 0 || len(e.F) == 1 {
				continue
			}
			seen[key(e)] = true
			id, tr := key(e), string(e.Str)
			if len(e.Pl) > 0 || len(e.F) > 0 {
				id += "\x00" + string(e.Pl)
				var fs []string
				for _, f := range e.F {
					fs = append(fs, string(f.S))
				}
				tr = strings.Join(fs, "\x00")
			}
			pairs = append(pairs, [2]string{id, tr})
		}
		if g.Intn(2) == 0 {
			sort.Slice(pairs, func(a, b int) bool { return pairs[a][0] < pairs[b][0] })
		}
		var flat []string
		for _, p := range pairs {
			flat = append(flat, p[0], p[1])
		}
		name := fmt.Sprintf("m%d.mo", i)
		x.file(name, string(moFile(g.Intn(2) == 0, flat...)))
		args = append(args, name)
	}
	x.file("there.out", "precious")
	base := tool23("msgounfmt", args...).with(func(r *R22) {
		r.O.Ignore = g.Intn(3) == 0
		switch g.Intn(5) {
		case 0:
			r.Stdin = x.c.Fs[0].D
			r.Args[0] = Bs("-")
		case 1:
			r.Stdin = x.c.Fs[0].D
			r.Args = []Bs{}
		}
	})
	b := x.run("result", 0, base)
	if g.Intn(2) == 0 {
		x.run("write", b, base.with(func(r *R22) { r.O.Wrap = false }))
	}
	x.elsewhere(b, false)
	b = x.run("result", 0, base.with(func(r *R22) { r.O.Sort = true; r.O.Wrap = g.Intn(2) == 0 }))
	x.elsewhere(b, false)
	x.done(emit)
}

func (g *G) cat23(emit func(C22)) {
	x := &case23{g: g}
	var c C15
	gen15one(g, func(k C15) { c = k })
	files := map[string][]E{}
	var names []string
	dir := g.Intn(3) == 0
	for _, d := range c.Defs {
		name := filepath.Base(string(d.File))
		if filepath.Ext(name) == "" {
			name += ".po"
		}
		name = strings.ReplaceAll(name, " ", "_")
		if dir {
			name = "d/" + name
		}
		if _, ok := files[name]; !ok {
			names = append(names, name)
		}
		dup := false
		for _, e := range files[name] {
			dup = dup || key(e) == key(d.E)
		}
		if !dup {
			d.E.Locs = append([]L{}, d.E.Locs...)
			g.formed(&d.E)
			files[name] = append(files[name], g.tidy([]E{d.E})...)
		}
	}
	if len(names) == 0 {
		names = []string{"e.po"}
	}
	lang := g.Intn(5) < 2
	for _, n := range names {
		if lang && g.Intn(2) == 0 {
			has := false
			for _, e := range files[n] {
				has = has || key(e) == key(E{})
			}
			if !has {
				h := g.Header()
				if g.Intn(3) == 0 {
					h.Ext = g.list(2, g.Line)
				}
				if g.Intn(4) == 0 {
					h.Locs = []L{{Bs("a.go"), 3}}
				}
				h.Obs = g.Intn(5) == 0
				files[n] = append(g.tidy([]E{h}), files[n]...)
			}
		}
		x.file(n, g.layOut(files[n], "~"))
	}
	x.file("list.txt", strings.Join(names, pick(g, []string{"\n", "\r\n", "\n\n ", " \n"}))+pick(g, []string{"", "\n"}))
	x.file("there.out", "precious")
	base := tool23("msgocat").with(func(r *R22) {
		switch {
		case dir && g.Intn(2) == 0:
			r.O.Dir = Bs("d")
			if g.Intn(3) == 0 {
				r.Args = []Bs{Bs(pick(g, names))}
			}
		case g.Intn(3) == 0:
			r.O.From = Bs("list.txt")
		case g.Intn(4) == 0:
			r.O.From = Bs("-")
			r.Stdin = Bs(strings.Join(names, "\n"))
		default:
			for _, n := range names {
				r.Args = append(r.Args, Bs(n))
			}
			if k := g.Intn(len(r.Args)); g.Intn(3) == 0 {
				r.Stdin = Bs(g.layOut(files[names[k]], "~"))
				r.Args[k] = Bs("-")
			}
		}
		o := &r.O
		if g.Intn(3) == 0 {
			o.HasMore, o.More = true, g.Intn(3)
		}
		switch g.Intn(4) {
		case 0:
			o.HasLess, o.Less = true, 2+g.Intn(3)
		case 1:
			o.Unique = g.Intn(2) == 0
		}
		o.First = g.Intn(3) == 0
		if lang {
			o.HasLang, o.Lang = true, Bs(pick(g, []string{"es", "zz_ZZ", "es"}))
		}
		switch g.Intn(4) {
		case 0:
			o.Sort = true
		case 1:
			o.SortFile = true
		}
	})
	b := x.run("result", 0, base)
	x.run("write", b, base.with(func(r *R22) { g.writing(&r.O, r.Tool) }))
	x.elsewhere(b, false)
	x.done(emit)
}

// formed gives a plural entry at least one form.
func (g *G) formed(e *E) {
	if len(e.Pl) > 0 && len(e.F) == 0 {
		e.F = []F{{0, Bs{}}}
	}
}

func (g *G) merge23(emit func(C22)) {
	x := &case23{g: g}
	def, ref := g.mergeCats(false)
	def, ref = g.tidy(def), g.tidy(ref)
	for i := range ref {
		ref[i].Obs = false
		g.formed(&ref[i])
	}
	for i := range def {
		g.formed(&def[i])
	}
	dir := ""
	if g.Intn(3) == 0 {
		dir = "d"
	}
	x.file(filepath.Join(dir, "def.po"), g.layOut(def, "~"))
	x.file(filepath.Join(dir, "ref.pot"), g.layOut(ref, "~"))
	x.file("there.out", "precious")
	var comps []Bs
	for i := 0; i < g.Intn(3); i++ {
		var es []E
		_, more := g.mergeCats(false)
		for _, e := range g.tidy(more) {
			e.Obs = false
			g.formed(&e)
			known := false
			for _, y := range ref {
				if key(y) == key(e) {
					known = true
					if g.Intn(2) == 0 {
						e = y
						known = false
						if g.Intn(2) == 0 {
							e.Locs = append(append([]L{}, e.Locs...), L{Bs("comp.go"), 1 + g.Intn(9)})
						}
						if g.Intn(4) == 0 {
							e.Locs, e.Ext = []L{{Bs("a.go"), 3}, {Bs("comp.go"), 1}}, []Bs{Bs("from the compendium")}
						}
					}
				}
			}
			if !known && (len(e.ID) > 0 || len(e.Ctx) > 0) {
				es = append(es, e)
				ref = append(ref, e)
			}
		}
		name := fmt.Sprintf("comp%d.po", i)
		x.file(filepath.Join(dir, name), g.layOut(es, "~"))
		comps = append(comps, Bs(name))
	}
	base := tool23("msgomerge", "def.po", "ref.pot").with(func(r *R22) {
		r.O.NoFuzzy = g.Intn(2) == 0
		r.O.Dir = Bs(dir)
		if comps != nil {
			r.O.Comp = comps
		}
	})
	b := x.run("result", 0, base)
	x.run("write", b, base.with(func(r *R22) { g.writing(&r.O, r.Tool) }))
	up := x.run("result", 0, base.with(func(r *R22) { r.O.Update = true; to("-")(r) }))
	if g.Intn(2) == 0 {
		x.run("result", 0, base.with(func(r *R22) { r.O.Update = true; to("there.out")(r); r.O.Wrap = g.Intn(2) == 0 }))
		// Again, onto what the first run left.
		x.run("result", 0, base.with(func(r *R22) { r.Keep = true; r.O.Update = g.Intn(2) == 0; to("def.po")(r) }))
	}
	if g.Intn(3) == 0 {
		// Over one of the inputs.
		x.run("result", 0, base.with(func(r *R22) {
			r.O.Update = g.Intn(2) == 0
			to(filepath.Join(dir, pick(g, []string{"ref.pot", "def.po"})))(r)
		}))
	}
	_ = up
	x.elsewhere(b, false)
	x.done(emit)
}

func (g *G) go23(emit func(C22)) {
	x := &case23{g: g}
	all := g.Intn(4) == 0
	g.UTF8, g.Sound = true, g.Intn(8) > 0
	defer func() { g.UTF8, g.Sound = false, false }()
	text := []string{"shared", "a"}
	var args []string
	paths := []string{"a.go", "b.go", "lib/x.go", "lib/deep/y.go", "lib/z_test.go"}
	for _, p := range paths[:1+g.Intn(len(paths))] {
		x.file(p, g.source(all, text))
		if !strings.HasPrefix(p, "lib") {
			args = append(args, p)
		}
	}
	if len(x.c.Fs) > 2 {
		args = append(args, "lib")
		x.file("lib/notes.txt", "gotext.Get(\"no\")")
	}
	if g.Intn(4) == 0 {
		args = []string{"."}
	}
	g.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
	x.file("there.out", "precious")
	x.file("list.txt", strings.Join(args, pick(g, []string{"\n", "\r\n", "\n\n "}))+"\n")
	// An existing catalogue that knows some of the messages.
	var old []E
	for i, w := range []string{"shared", "a", "gone", "gone too"} {
		if g.Intn(2) == 0 {
			e := plainEntry(w)
			e.Str = Bs(fmt.Sprint("T", i))
			if g.Intn(3) == 0 {
				e.Str, e.Pl, e.F = nil, Bs(w+"s"), []F{{0, Bs("p")}, {1, Bs("q")}}
			}
			e.Com = g.list(1, func() string { return "by hand" })
			e.Flag = g.Flags()
			e.Obs = g.Intn(5) == 0
			e.Locs = []L{{Bs("old.go"), 3}}
			old = append(old, e)
		}
	}
	if g.Intn(2) == 0 {
		h := plainEntry("")
		h.Str = Bs("Language: fr\nPlural-Forms: nplurals=3; plural=n;\nX-Own: 1\n")
		old = append([]E{h}, old...)
	}
	x.file("old.pot", g.layOut(old, "~"))
	x.file("sub/old.pot", g.layOut(old, "~"))
	x.dir("sub")
	base := tool23("xgotext", args...).with(func(r *R22) {
		r.O.All = all
		switch g.Intn(6) {
		case 0:
			r.O.From, r.Args = Bs("list.txt"), []Bs{}
		case 1:
			r.Args = append(r.Args, Bs("-"))
			r.Stdin = Bs(g.source(all, text))
		}
		if g.Intn(3) == 0 {
			r.O.HasLang, r.O.Lang = true, Bs(pick(g, []string{"es", "de_AT"}))
		}
		if g.Intn(3) == 0 {
			r.O.NPlurals = 1 + g.Intn(6)
		}
		if g.Intn(5) == 0 {
			r.O.Exclude = []Bs{Bs(pick(g, []string{"lib", "a.go", "lib/deep", "lib/x.go"}))}
		}
	})
	b := x.run("result", 0, base)
	x.run("write", b, base.with(func(r *R22) { g.writing(&r.O, r.Tool) }))
	switch g.Intn(3) {
	case 0:
		x.run("same", b, base.with(func(r *R22) { to("")(r); r.O.Domain = Bs(pick(g, []string{"messages", "dom"})) }))
	case 1:
		x.run("same", b, base.with(func(r *R22) { to("x.pot")(r); r.O.OutDir = Bs("sub") }))
	}
	x.elsewhere(b, false)
	join := base.with(func(r *R22) {
		r.O.Join = true
		switch g.Intn(5) {
		case 0:
			to("fresh.pot")(r)
		case 1:
			to("old.pot")(r)
			r.O.OutDir = Bs("sub")
		case 2:
			to("")(r)
			r.O.OutDir, r.O.Domain = Bs("sub"), Bs("old")
		default:
			to("old.pot")(r)
		}
	})
	x.run("join", b, join)
	x.done(emit)
}

func (g *G) alike23(emit func(C22)) {
	g.Sound = g.Intn(3) > 0
	fs, names := g.fs22()
	x := &case23{g: g, c: C22{Fs: fs}}
	for k := 0; k < 2; k++ {
		r := g.run22(names)
		b := x.run("any", 0, r)
		x.run("alike", b, x.c.Runs[b-1].with(func(r *R22) { r.Wrap = !r.Wrap }))
	}
	x.done(emit)
}

func init() {
	register("C23", func(g *G, emit func(C22)) {
		for i := 0; i < g.N(150, 1500); i++ {
			g.fmt23(emit)
			g.unfmt23(emit)
			g.cat23(emit)
			g.merge23(emit)
			g.go23(emit)
			if i%2 == 0 {
				g.alike23(emit)
			}
		}
	}, run23).timeout = 100 * time.Second
}
