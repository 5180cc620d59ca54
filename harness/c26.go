package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// ---- C26: which files are read ----

// N26 is a file or directory of the tree; a bad file can't be parsed.
type N26 struct {
	P   string `json:"p"`
	Dir bool   `json:"dir"`
	Bad bool   `json:"bad"`
}

// C26 names paths; "@" at the start of one is the root of the tree, the run starts in its directory w.
type C26 struct {
	Tree  string   `json:"tree"` // "every" or the list below
	Fs    []N26    `json:"fs"`
	Args  []string `json:"args"`
	Excl  []string `json:"excl"`
	Cli   int      `json:"cli"` // 0: not as a command; else how the command gets its paths
	Dir   string   `json:"dir"`
	Stdin bool     `json:"stdin"`
}

// P26 is a path as components.
type P26 struct {
	Abs bool `json:"abs"`
	C   []Bs `json:"c"`
}

type T26 struct {
	P    []Bs `json:"p"`
	Dir  bool `json:"dir"`
	Good bool `json:"good"`
}

// Read26 is the use of a message: the number of the file it is in, and where it is said to be.
type Read26 struct {
	N    int `json:"n"`
	At   P26 `json:"at"`
	Line int `json:"line"`
}

type W26 struct {
	Way   string   `json:"way"`
	Err   bool     `json:"err"`
	Files int      `json:"files"` // -1: not known
	Reads []Read26 `json:"reads"`
}

type O26 struct {
	Tree []T26 `json:"tree"`
	Args []P26 `json:"args"`
	Excl []P26 `json:"excl"`
	Dir  P26   `json:"dir"`
	Ways []W26 `json:"ways"`
}

var every26 = []N26{
	{P: "w", Dir: true}, {P: "w/x.go"}, {P: "w/t.txt"}, {P: "w/a", Dir: true}, {P: "w/a/x.go"}, {P: "w/a/bad", Dir: true}, {P: "w/a/bad/x.go", Bad: true},
	{P: "w/a/b", Dir: true}, {P: "w/a/b/x.go"}, {P: "w/a/b/x_test.go"}, {P: "w/ab", Dir: true}, {P: "w/ab/y.go"}, {P: "w/d.go", Dir: true}, {P: "w/d.go/z.go"},
	{P: "w/e", Dir: true}, {P: "w/.git", Dir: true}, {P: "w/.git/.go"}, {P: "y.go"}, {P: "w/ab/_u.go"}, {P: "w/ab/.h.go"}, {P: "w/ab/u_windows_test.go"}, {P: "w/_u", Dir: true}, {P: "w/_u/x.go"}, {P: "w/a/vendor", Dir: true}, {P: "w/a/vendor/x.go"}, {P: "w/ab/testdata", Dir: true}, {P: "w/ab/testdata/x.go"}, {P: "w/ab/go"}, {P: "w/ab/x.go.orig", Bad: true}, {P: "w/ab/Y.GO", Bad: true},
}

const line26 = 4

func source26(n int, bad bool) []byte {
	if bad {
		return []byte("package p\n\nfunc {\n")
	}
	return []byte(fmt.Sprintf("package p\n\nimport \"github.com/leonelquinteros/gotext\"\nvar _ = gotext.Get(\"F%d\")\n", n))
}

func rooted26(p string) bool { return p == "@" || strings.HasPrefix(p, "@/") }

func split26(p string) P26 {
	out := P26{C: []Bs{}}
	if rooted26(p) {
		out.Abs = true
		p = strings.TrimPrefix(p[1:], "/")
		if p == "" {
			return out
		}
	}
	for _, c := range strings.Split(p, "/") {
		out.C = append(out.C, Bs(c))
	}
	return out
}

func run26(c C26) (o O26) {
	tree := c.Fs
	if c.Tree == "every" {
		tree = every26
	}
	root, err := os.MkdirTemp("", "c26")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(root)
	for i, n := range tree {
		p := filepath.Join(root, n.P)
		if n.Dir {
			err = os.MkdirAll(p, 0o700)
		} else {
			err = os.WriteFile(p, source26(i+1, n.Bad), 0o600)
		}
		if err != nil {
			die("%v", err)
		}
		t := T26{P: split26(n.P).C, Dir: n.Dir, Good: !n.Bad}
		o.Tree = append(o.Tree, t)
	}
	cwd := filepath.Join(root, "w")
	if err := os.Chdir(cwd); err != nil {
		die("%v", err)
	}
	defer os.Chdir("/")
	real := func(p string) string {
		if rooted26(p) {
			return root + p[1:]
		}
		return p
	}
	var args, excl []string
	o.Args, o.Excl, o.Dir = []P26{}, []P26{}, split26(c.Dir)
	for _, a := range c.Args {
		args = append(args, real(a))
		o.Args = append(o.Args, split26(a))
	}
	for _, x := range c.Excl {
		excl = append(excl, real(x))
		o.Excl = append(o.Excl, split26(x))
	}
	where := func(p string) P26 {
		if r := strings.TrimPrefix(p, root); r != p {
			return split26("@" + r)
		}
		return split26(p)
	}
	add := func(way string, f *po.File, err error, files int) {
		w := W26{Way: way, Err: err != nil, Files: files, Reads: []Read26{}}
		if f != nil {
			for _, e := range f.Entries {
				for _, l := range e.Locations {
					n, _ := strconv.Atoi(strings.TrimPrefix(e.ID, "F"))
					w.Reads = append(w.Reads, Read26{n, where(l.File), l.Line})
				}
			}
		}
		o.Ways = append(o.Ways, w)
	}
	if c.Cli == 0 {
		opts := func() []goparse.Option {
			return []goparse.Option{goparse.WithExclude(excl...), goparse.WithCleanDuplicates(false), goparse.WithNoHeader(true)}
		}
		f, err := goparse.FromPaths(args, opts()...)
		add("paths", f, err, -1)
		p, err := goparse.NewParserFromPaths(args, opts()...)
		if p != nil {
			f := p.Parse()
			if err == nil {
				err = p.Error()
			}
			add("parser", f, err, len(p.Files()))
			add("again", p.Parse(), p.Error(), len(p.Files()))
		} else {
			add("parser", nil, err, -1)
		}
		if len(args) == 1 {
			f, err := goparse.FromPath(args[0], opts()...)
			add("path", f, err, -1)
			p, err := goparse.NewParser(args[0], opts()...)
			if p != nil {
				add("one", p.Parse(), err, len(p.Files()))
			} else {
				add("one", nil, err, -1)
			}
		}
		return
	}
	// The command.
	a := []string{"-o", "-"}
	if c.Dir != "" {
		a = append(a, "-D", real(c.Dir))
	}
	if c.Cli&1 != 0 {
		for _, x := range excl {
			if x != "" {
				a = append(a, "-X", x)
			}
		}
	} else if len(excl) > 0 {
		if err := os.WriteFile(filepath.Join(root, "excl.list"), []byte(strings.Join(excl, "\n")+"\n"), 0o600); err != nil {
			die("%v", err)
		}
		a = append(a, "--exclude-file", filepath.Join(root, "excl.list"))
	}
	var stdin []byte
	if c.Stdin {
		stdin = source26(0, false)
		k := len(args) * (c.Cli % 7) / 7
		args = append(append(append([]string{}, args[:k]...), "-"), args[k:]...)
	}
	if c.Cli&2 != 0 {
		if err := os.WriteFile(filepath.Join(root, "args.list"), []byte(strings.Join(args, "\n")+"\n"), 0o600); err != nil {
			die("%v", err)
		}
		a = append(a, "--files-from", filepath.Join(root, "args.list"))
	} else {
		a = append(append(a, "--"), args...)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("TOOLS"), "xgotext"), a...)
	cmd.Dir, cmd.Stdin = cwd, bytes.NewReader(stdin)
	var out, text bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &text
	err = cmd.Run()
	if ctx.Err() != nil {
		panic("xgotext does not end")
	}
	if strings.Contains(text.String(), "goroutine ") {
		panic("xgotext panicked")
	}
	w := W26{Way: "xgotext", Err: err != nil, Files: -1, Reads: []Read26{}}
	if err == nil {
		var locs []string
		for _, l := range strings.Split(out.String(), "\n") {
			switch {
			case strings.HasPrefix(l, "#: "):
				locs = append(locs, reference26.FindAllString(l[3:], -1)...)
			case strings.HasPrefix(l, "msgid "):
				for _, x := range locs {
					k := strings.LastIndex(x, ":")
					n, _ := strconv.Atoi(strings.Trim(l[6:], `"F`))
					line, _ := strconv.Atoi(x[k+1:])
					w.Reads = append(w.Reads, Read26{n, where(strings.Trim(strings.TrimSpace(x[:k]), "\u2068\u2069")), line})
				}
				locs = nil
			}
		}
	} else if os.Getenv("DRV_STACK") != "" {
		fmt.Fprintln(os.Stderr, a, text.String())
	}
	o.Ways = append(o.Ways, w)
	return
}

// A reference of a file whose name has blanks in it can still be told by its line.
var reference26 = regexp.MustCompile(`\s*.+?:` + fmt.Sprint(line26) + `(?:\s|$|\x{2069})`)

func (g *G) tree26() []N26 {
	fs := []N26{{P: "w", Dir: true}}
	dirs := []string{"w", ""}
	seen := map[string]bool{"w": true}
	for n := 3 + g.Intn(12); n > 0; n-- {
		d := pick(g, dirs)
		if g.Intn(4) > 0 && d == "" {
			d = "w"
		}
		f := N26{Dir: g.Intn(3) == 0}
		if f.Dir {
			f.P = filepath.Join(d, pick(g, []string{"a", "ab", "a b", "b", "ñ", ".h", "vendor", "testdata", "c.go", "x.go", "_p", "...", "-d", "A"}))
		} else {
			f.P = filepath.Join(d, pick(g, []string{"x.go", "y.go", "z.go", "x_test.go", "a.go", ".go", "..go", "ñ.go", "a b.go", "x.go.bak", "x.txt", "go", "Z.GO", "-x.go", "x .go", "@.go", "_x.go", ".x.go", "x_linux.go", "doc.go", "#x.go", "~x.go", "x~.go", "X.go", "A.go"}))
			f.Bad = g.Intn(60) == 0 || filepath.Ext(f.P) != ".go"
		}
		if seen[f.P] {
			continue
		}
		seen[f.P] = true
		fs = append(fs, f)
		if f.Dir {
			dirs = append(dirs, f.P)
		}
	}
	return fs
}

// spelled26 names a node of the tree in some way.
func (g *G) spelled26(fs []N26) string {
	p := pick(g, fs).P
	if g.Intn(50) == 0 {
		p = filepath.Join(p, "no")
	}
	var out string
	switch g.Intn(5) {
	case 0:
		out = "@/" + p
	default:
		rel, err := filepath.Rel("w", p)
		if err != nil {
			die("%v", err)
		}
		out = rel
	}
	for n := g.Intn(3); n > 0; n-- {
		parts := strings.Split(out, "/")
		k := g.Intn(len(parts) + 1)
		if k == 0 && parts[0] == "@" {
			k = 1
		}
		ins := pick(g, [][]string{{"."}, {""}, {"."}, {"..", "w"}})
		if g.Intn(12) == 0 {
			ins = []string{pick(g, []string{"a", "ab", "b", "no", "x.go"}), ".."}
		}
		if (ins[0] == "" || ins[0] == ".." || ins[0] == ".") && k == len(parts) && strings.HasSuffix(p, "o") && g.Intn(8) > 0 {
			k--
		}
		if ins[0] == "" && k == 0 || ins[0] == ".." && k > 0 { // not the root of everything
			continue
		}
		parts = append(parts[:k:k], append(append([]string{}, ins...), parts[k:]...)...)
		out = strings.Join(parts, "/")
	}
	if strings.HasPrefix(out, "-") {
		out = "./" + out
	}
	return out
}

func init() {
	register("C26", func(g *G, emit func(C26)) {
		for i := 0; i < g.N(5000, 60000); i++ {
			c := C26{Fs: g.tree26(), Args: []string{}, Excl: []string{}}
			for n := 1 + g.Intn(4); n > 0; n-- {
				c.Args = append(c.Args, g.spelled26(c.Fs))
			}
			for n := g.Intn(4) - 1; n > 0; n-- {
				c.Excl = append(c.Excl, g.spelled26(c.Fs))
			}
			// A path that is not there may not be excluded: is it to be reported?
			for _, a := range c.Args {
				if strings.Contains(a, "no") && g.Intn(2) == 0 {
					c.Excl = []string{}
				}
			}
			if g.Intn(3) == 0 {
				c.Cli = 1 + g.Intn(27)
				c.Stdin = g.Intn(6) == 0
				if g.Intn(4) == 0 {
					c.Stdin = false
					c.Dir = pick(g, []string{".", "..", "@", "@/w", "./", "a"})
					for k := range c.Args {
						rel, _ := filepath.Rel(filepath.Join("w", strings.Replace(c.Dir, "@", "..", 1)), pick(g, c.Fs).P)
						c.Args[k] = rel
					}
					for k := range c.Excl {
						rel, _ := filepath.Rel(filepath.Join("w", strings.Replace(c.Dir, "@", "..", 1)), pick(g, c.Fs).P)
						c.Excl[k] = rel
					}
				}
			}
			emit(c)
		}
	}, run26)
}
