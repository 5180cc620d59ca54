package main

import (
	"fmt"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// ---- C15: concatenating ----

// Def is one definition of a message; neighbours with the same file are in one file.
type Def struct {
	File Bs `json:"file"`
	E    E  `json:"e"`
}

type KCfg struct {
	First bool `json:"first"`
	More  int  `json:"more"`
	Less  int  `json:"less"` // -1: no limit
}

type C15 struct {
	Defs []Def `json:"defs"`
	Cfg  KCfg  `json:"cfg"`
	R    int   `json:"r"`
}

type O15 struct {
	Out []E `json:"out"`
}

func (c KCfg) options(r int) []po.MsgcatMergeOption {
	cfg := po.DefaultMsgcatMergeConfig()
	cfg.UseFirst, cfg.MoreThan = c.First, uint(c.More)
	if c.Less >= 0 {
		cfg.LessThan = uint(c.Less)
	}
	switch r % 3 {
	case 0:
		return []po.MsgcatMergeOption{po.MsgcatMergeWithConfig(cfg)}
	case 1:
		return []po.MsgcatMergeOption{po.MsgcatMergeWithMoreThan(cfg.MoreThan), po.MsgcatMergeWithLessThan(cfg.LessThan), po.MsgcatMergeWithUseFirst(cfg.UseFirst)}
	}
	var out []po.MsgcatMergeOption
	if c.Less >= 0 {
		out = append(out, po.MsgcatMergeWithLessThan(cfg.LessThan))
	}
	if c.First {
		out = append(out, po.MsgcatMergeWithUseFirst(true))
	}
	if c.More != 0 {
		out = append(out, po.MsgcatMergeWithMoreThan(cfg.MoreThan))
	}
	return out
}

func run15(c C15) (o O15) {
	var files []*po.File
	for _, d := range c.Defs {
		if n := len(files); n == 0 || files[n-1].Name != string(d.File) {
			files = append(files, &po.File{Name: string(d.File)})
		}
		f := files[len(files)-1]
		f.Entries = append(f.Entries, toEntry(d.E))
	}
	o.Out = fromEntries(po.MsgcatMergeFiles(files, c.Cfg.options(c.R)...))
	return
}

// nearList is the list with one element changed.
func (g *G) nearList(l []Bs) []Bs {
	l = append([]Bs{}, l...)
	if len(l) == 0 || g.Intn(6) == 0 {
		return append(l, Bs(g.Line()))
	}
	l[g.Intn(len(l))] = Bs(g.Line())
	return l
}

func gen15one(g *G, emit func(C15)) {
	names := []string{"a.po", "b.po", "dir/c.po", "ü d.po", "e.po"}
	var pool []E
	for n := 1 + g.Intn(3); n > 0; n-- {
		e := g.mergeEntry()
		pool = append(pool, e)
		// Later definitions differ from the first in few places.
		for k := g.Intn(4); k > 0; k-- {
			v := g.mergeEntry()
			v.ID, v.Ctx = e.ID, e.Ctx
			if g.Intn(3) != 0 {
				v.Com = e.Com
			}
			if g.Intn(3) != 0 {
				v.Ext = e.Ext
			}
			if g.Intn(3) != 0 {
				v.Prev = e.Prev
			}
			for _, p := range []struct{ l, of *[]Bs }{{&v.Com, &e.Com}, {&v.Ext, &e.Ext}, {&v.Prev, &e.Prev}} {
				if g.Intn(6) == 0 {
					*p.l = g.nearList(*p.of)
				}
			}
			if g.Intn(3) != 0 {
				v.Pl = e.Pl
				if len(e.Pl) == 0 {
					v.F = []F{}
				} else if len(v.F) == 0 {
					v.F = g.Forms()
					v.Str = nil
				}
			}
			if g.Intn(3) == 0 {
				v.Str, v.F = e.Str, e.F
			}
			if g.Intn(3) == 0 {
				v.Str = nil
				f := append([]F{}, v.F...)
				for j := range f {
					f[j].S = nil
				}
				v.F = f
			}
			if g.Intn(2) == 0 {
				v.Flag = e.Flag
			}
			// no singular translation beside plural forms
			if len(v.F) > 0 || len(v.Pl) > 0 {
				v.Str = nil
			}
			pool = append(pool, v)
		}
	}
	if g.Intn(2) == 0 {
		for k := 1 + g.Intn(3); k > 0; k-- {
			pool = append(pool, g.Header())
		}
	}
	g.Shuffle(len(pool), func(a, b int) { pool[a], pool[b] = pool[b], pool[a] })
	c := C15{Defs: []Def{}, Cfg: KCfg{g.Intn(4) == 0, pick(g, []int{0, 0, 0, 1, 1, 2, 3}), pick(g, []int{-1, -1, -1, 2, 3, 1, 0, 4})}, R: 0}
	f := g.Intn(2)
	for k, e := range pool {
		if k > 0 && g.Intn(2) == 0 && f < len(names)-1 {
			f++
		}
		c.Defs = append(c.Defs, Def{Bs(names[f]), e})
	}
	emit(c)
}

func gen15(g *G, emit func(C15)) {
	for i := 0; i < g.N(1500, 15000); i++ {
		gen15one(g, func(c C15) { c.R = i; emit(c) })
	}
	// Many files hold the same message.
	for i := 0; i < g.N(60, 600); i++ {
		c := C15{Defs: []Def{}, Cfg: KCfg{i%7 == 0, g.Intn(6), pick(g, []int{-1, 3, 6, 7, 8})}, R: i}
		n := 3 + g.Intn(5)
		for k := 0; k < n; k++ {
			e := plainEntry("m")
			e.Str = Bs(fmt.Sprint("t", g.Intn(n)))
			if g.Intn(4) == 0 {
				e.Str = nil
			}
			e.Com = []Bs{Bs(fmt.Sprint("c", g.Intn(2)))}
			e.Locs = []L{{Bs("x.go"), k}}
			c.Defs = append(c.Defs, Def{Bs(fmt.Sprintf("%d.po", k)), e})
			if g.Intn(3) == 0 {
				o := plainEntry(fmt.Sprint("only", k))
				c.Defs = append(c.Defs, Def{Bs(fmt.Sprintf("%d.po", k)), o})
			}
		}
		emit(c)
	}
}

func init() { register("C15", gen15, run15) }
