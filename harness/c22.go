package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// ---- C22, C23: the command-line tools ----

// F22 is a file (or directory) of the scratch directory that a run starts in.
type F22 struct {
	P   Bs   `json:"p"`
	D   Bs   `json:"d"`
	Dir bool `json:"dir"`
}

// Opt22 are the options of all tools; each takes those it knows.
type Opt22 struct {
	HasOut      bool   `json:"hasout"`
	Out         Bs     `json:"out"`
	Dir         Bs     `json:"dir"`
	Force       bool   `json:"force"`
	From        Bs     `json:"from"`
	Exclude     []Bs   `json:"exclude"`
	ExcludeFile Bs     `json:"excludefile"`
	OutDir      Bs     `json:"outdir"`
	Domain      Bs     `json:"domain"`
	Update      bool   `json:"update"`
	Comp        []Bs   `json:"comp"`
	Ignore      bool   `json:"ignore"`
	Bogus       bool   `json:"bogus"`
	HasLess     bool   `json:"hasless"`
	Less        int    `json:"less"`
	HasMore     bool   `json:"hasmore"`
	More        int    `json:"more"`
	Unique      bool   `json:"unique"`
	First       bool   `json:"first"`
	NoLoc       bool   `json:"noloc"`
	HasAddLoc   bool   `json:"hasaddloc"`
	AddLoc      string `json:"addloc"`
	Sort        bool   `json:"sort"`
	SortFile    bool   `json:"sortfile"`
	Join        bool   `json:"join"`
	All         bool   `json:"all"`
	HasLang     bool   `json:"haslang"`
	Lang        Bs     `json:"lang"`
	NoFuzzy     bool   `json:"nofuzzy"`
	Endian      string `json:"endian"`
	NoHash      bool   `json:"nohash"`
	Omit        bool   `json:"omit"`
	Wrap        bool   `json:"wrap"` // --word-wrap of xgotext, no --no-wrap of the others
	Pre         Bs     `json:"pre"`
	Suf         Bs     `json:"suf"`
	Verbose     bool   `json:"verbose"`
	NPlurals    int    `json:"nplurals"`
}

// R22 is one run of a tool.
type R22 struct {
	Tool  string `json:"tool"`
	Args  []Bs   `json:"args"`
	Stdin Bs     `json:"stdin"`
	O     Opt22  `json:"o"`
	Wrap  bool   `json:"wrapper"` // as a subcommand of gotext-tools
	Alias int    `json:"alias"`   // how options and the subcommand are spelled
	Sink  string `json:"sink"`    // where the standard output goes: "" is recorded, "full" fails
	Keep  bool   `json:"keep"`    // C23: starts from what the run before left
	Rel   string `json:"rel"`     // C23: what the result is compared with
	Base  int    `json:"base"`    // C23: the run it is compared with, from 1
}

type C22 struct {
	Fs   []F22 `json:"fs"`
	Runs []R22 `json:"runs"`
}

type S22 struct {
	Exit   int   `json:"exit"`
	Crash  bool  `json:"crash"`
	Stdout Bs    `json:"stdout"`
	Said   bool  `json:"said"` // something was written to the standard error
	Fs     []F22 `json:"fs"`
}

type O22 struct {
	Steps []S22 `json:"steps"`
}

func (r R22) argv() []string {
	var a []string
	o := r.O
	tool := r.Tool
	str := func(on bool, long, short string, v Bs) {
		if !on {
			return
		}
		if len(v) == 0 { // "-o=" is the value "="
			a = append(a, "--"+long, "")
			return
		}
		switch {
		case short != "" && r.Alias%3 == 1:
			a = append(a, "-"+short, string(v))
		case short != "" && r.Alias%3 == 2:
			a = append(a, "-"+short+"="+string(v))
		case r.Alias%2 == 1:
			a = append(a, "--"+long, string(v))
		default:
			a = append(a, "--"+long+"="+string(v))
		}
	}
	boolean := func(on bool, long, short string) {
		switch {
		case !on:
		case short != "" && r.Alias%3 != 0:
			a = append(a, "-"+short)
		case r.Alias%5 == 4:
			a = append(a, "--"+long+"=true")
		default:
			a = append(a, "--"+long)
		}
	}
	num := func(on bool, long, short string, n int) { str(on, long, short, Bs(fmt.Sprint(n))) }
	has := func(b Bs) bool { return len(b) > 0 }
	switch tool {
	case "msgofmt":
		str(o.HasOut, "output-file", "o", o.Out)
		str(has(o.Dir), "directory", "D", o.Dir)
		str(o.Endian != "", "endianness", "", Bs(o.Endian))
		boolean(o.Force, "force", "f")
		boolean(o.NoHash, "no-hash", "")
		boolean(o.Verbose, "verbose", "v")
	case "msgounfmt":
		str(o.HasOut, "output", "o", o.Out)
		boolean(o.Sort, "sort-output", "s")
		boolean(!o.Wrap, "no-wrap", "")
		boolean(o.Force, "force-po", "f")
		boolean(o.Ignore, "ignore-errors", "")
	case "msgocat":
		str(has(o.From), "files-from", "f", o.From)
		str(has(o.Dir), "directory", "D", o.Dir)
		str(o.HasOut, "output-file", "o", o.Out)
		num(o.HasLess, "less-than", "<", o.Less)
		num(o.HasMore, "more-than", ">", o.More)
		boolean(o.Unique, "unique", "u")
		boolean(o.First, "use-first", "")
		str(o.HasLang, "lang", "", o.Lang)
		boolean(o.NoLoc, "no-location", "")
		str(o.HasAddLoc, "add-location", "", Bs(o.AddLoc))
		boolean(!o.Wrap, "no-wrap", "")
		boolean(o.Sort, "sort-output", "s")
		boolean(o.SortFile, "sort-by-file", "F")
	case "msgomerge":
		for _, c := range o.Comp {
			str(true, "compendium", "C", c)
		}
		str(has(o.Dir), "directory", "D", o.Dir)
		boolean(o.Update, "update", "U")
		str(o.HasOut, "output-file", "o", o.Out)
		boolean(o.NoFuzzy, "no-fuzzy-matching", "N")
		boolean(o.NoLoc, "no-location", "")
		str(o.HasAddLoc, "add-location", "n", Bs(o.AddLoc))
		boolean(!o.Wrap, "no-wrap", "")
		boolean(o.Force, "force-po", "")
		boolean(o.Verbose, "verbose", "")
	case "xgotext":
		for _, x := range o.Exclude {
			str(true, "exclude", "X", x)
		}
		str(has(o.ExcludeFile), "exclude-file", "x", o.ExcludeFile)
		boolean(o.All, "extract-all", "a")
		boolean(o.Join, "join-existing", "j")
		str(o.HasLang, "lang", "l", o.Lang)
		num(o.NPlurals > 0, "nplurals", "", o.NPlurals)
		str(has(o.From), "files-from", "f", o.From)
		str(has(o.Dir), "directory", "D", o.Dir)
		str(string(o.Domain) != "messages", "default-domain", "d", o.Domain)
		str(o.HasOut, "output", "o", o.Out)
		str(has(o.OutDir), "output-dir", "p", o.OutDir)
		boolean(o.Force, "force-po", "")
		boolean(o.NoLoc, "no-location", "n")
		str(o.HasAddLoc, "add-location", "", Bs(o.AddLoc))
		boolean(o.Omit, "omit-header", "")
		str(has(o.Pre), "msgstr-prefix", "m", o.Pre)
		str(has(o.Suf), "msgstr-suffix", "M", o.Suf)
		boolean(o.Wrap, "word-wrap", "")
		boolean(o.Verbose, "verbose", "")
	default:
		die("tool %q", tool)
	}
	if o.Bogus {
		a = append(a, []string{"--no-such-option", "--color", "-Z", "--output-file"}[r.Alias%4])
		if r.Alias%4 == 1 || r.Alias%4 == 3 { // the value is missing
			args := append([]string{}, strs(r.Args)...)
			return append(args, a...)
		}
	}
	args := strs(r.Args)
	if r.Alias%7 == 6 {
		return append(append([]string{}, args...), a...)
	}
	return append(a, args...)
}

var aliases22 = map[string][]string{
	"msgofmt": {"msgofmt", "msgfmt", "fmt"}, "msgounfmt": {"msgounfmt", "msgunfmt", "unfmt"}, "msgocat": {"msgocat", "msgcat", "cat"},
	"msgomerge": {"msgomerge", "msgmerge", "merge"}, "xgotext": {"xgotext", "xgettext"},
}

func setUp22(dir string, files []F22) {
	for _, f := range files {
		p := filepath.Join(dir, string(f.P))
		if f.Dir {
			check22(os.MkdirAll(p, 0o755))
			continue
		}
		check22(os.MkdirAll(filepath.Dir(p), 0o755))
		check22(os.WriteFile(p, f.D, 0o644))
	}
}

func check22(err error) {
	if err != nil {
		die("tools: %v", err)
	}
}

func look22(dir string) []F22 {
	out := []F22{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		check22(err)
		if p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		f := F22{P: Bs(rel), Dir: d.IsDir(), D: Bs{}}
		if !d.IsDir() {
			b, err := os.ReadFile(p)
			check22(err)
			f.D = Bs(b)
		}
		out = append(out, f)
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i].P, out[j].P) < 0 })
	return out
}

// Lines whose text depends on the moment of the run.
var dates22 = regexp.MustCompile(`(POT-Creation-Date|PO-Revision-Date): [0-9A-Za-z:+\- ]*`)

func undated(b []byte) []byte { return dates22.ReplaceAll(b, []byte("$1: NOW")) }

func runTool(dir string, r R22) (s S22) {
	tools := os.Getenv("TOOLS")
	bin, argv := r.Tool, r.argv()
	if r.Wrap {
		al := aliases22[bin]
		argv = append([]string{al[r.Alias%len(al)]}, argv...)
		bin = "gotext-tools"
	}
	cmd := exec.Command(filepath.Join(tools, bin), argv...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "HOME="+dir, "GOTRACEBACK=single")
	cmd.Stdin = bytes.NewReader(r.Stdin)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if r.Sink == "full" {
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		check22(err)
		defer full.Close()
		cmd.Stdout = full
	}
	check22(cmd.Start())
	timer := time.AfterFunc(15*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) && !strings.Contains(err.Error(), "broken pipe") {
		die("tools: %v", err)
	}
	s.Exit = cmd.ProcessState.ExitCode()
	text := stderr.String()
	s.Crash = s.Exit < 0 || s.Exit == 2 || strings.Contains(text, "panic: ") || strings.Contains(text, "goroutine ")
	s.Said = len(text) > 0
	s.Stdout = Bs(stdout.Bytes())
	if s.Exit != 0 {
		s.Stdout = Bs{} // cobra prints the usage there
	}
	s.Fs = look22(dir)
	if os.Getenv("DRV_STACK") != "" {
		fmt.Fprintf(os.Stderr, "%s %q -> %d\n%s%s\n", bin, argv, s.Exit, stdout.String(), text)
	}
	return
}

func run22(c C22) (o O22) {
	scratch(func(dir string) {
		setUp22(dir, c.Fs)
		for _, r := range c.Runs {
			o.Steps = append(o.Steps, runTool(dir, r))
		}
	})
	return
}

// moFile lays out strings as an MO file, in the order given.
func moFile(be bool, pairs ...string) Bs {
	var ord binary.ByteOrder = binary.LittleEndian
	if be {
		ord = binary.BigEndian
	}
	n := uint32(len(pairs) / 2)
	w := make([]uint32, 7)
	w[0], w[2], w[3], w[4], w[6] = 0x950412de, n, 28, 28+8*n, 28+16*n
	var heap bytes.Buffer
	at := func(s string) (uint32, uint32) {
		o := 28 + 16*n + uint32(heap.Len())
		heap.WriteString(s + "\x00")
		return uint32(len(s)), o
	}
	var ids, trs []uint32
	for i := 0; i < len(pairs); i += 2 {
		l, o := at(pairs[i])
		ids = append(ids, l, o)
	}
	for i := 1; i < len(pairs); i += 2 {
		l, o := at(pairs[i])
		trs = append(trs, l, o)
	}
	var out bytes.Buffer
	for _, x := range append(append(w, ids...), trs...) {
		binary.Write(&out, ord, x)
	}
	out.Write(heap.Bytes())
	return out.Bytes()
}

var po22 = []string{
	"msgid \"\"\nmsgstr \"Language: xx\\n\"\n\nmsgid \"a\"\nmsgstr \"A\"\n",
	"msgid \"a\"\nmsgstr \"B\"\n",
	"#: f.go:1\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n",
	"#, fuzzy\nmsgid \"c\"\nmsgstr \"C\"\n\n#~ msgid \"old\"\n#~ msgstr \"o\"\n",
	"msgctxt \"k\"\nmsgid \"a\"\nmsgstr \"kA\"\n",
	"",
	"# only a comment\n",
	"msgid \"\"\nmsgstr \"Language: yy\\nPlural-Forms: nplurals=2; plural=(n != 1);\\n\"\n",
	"#: g.go:2 f.go:9\nmsgid \"d é\"\nmsgstr \"D\"\n\n#: f.go:3\nmsgid \"e\"\nmsgstr \"\"\n",
}

var badPo22 = []string{
	"msgid \"a\"\nmsgstr \"A\n", "msgid \"a\nmsgstr \"\"\n", "msgid \"a\"\n", "bogus\n", "msgid \"a\"\nmsgstr \"A\"\nmsgstr \"B\"\n",
	"msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0 \"x\"\n", "#~ msgid \"a\n", "msgid \"ok\"\nmsgstr \"fine\"\n\nmsgid \"x\"\nmsgid \"y\"\nmsgstr \"\"\n", "msgstr \"A\"\n",
}

// The same message twice.
var dupPo22 = []string{
	"msgid \"a\"\nmsgstr \"A\"\n\nmsgid \"a\"\nmsgstr \"B\"\n",
	"msgctxt \"k\"\nmsgid \"a\"\nmsgstr \"A\"\n\nmsgctxt \"k\"\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"B\"\n",
}

var go22 = []string{
	"package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nvar x = gotext.Get(\"a\")\nvar y = gotext.GetN(\"b\", \"bs\", 2)\n",
	"package p\n\nimport g \"github.com/leonelquinteros/gotext\"\n\nfunc f() { g.GetC(\"a\", \"k\"); g.Get(\"new\") }\n",
	"package p\n",
	"package p\n\nconst s = \"plain\"\n",
}

var badGo22 = []string{
	"package p\n\nfunc f( {\n", "", "pakage p\n", "package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nvar x = gotext.Get()\n", "package p\n\nfunc f() {\n",
}

func (g *G) mo22() Bs {
	n := 8
	if g.Sound {
		n = 60
	}
	switch g.Intn(n) {
	case 0:
		return Bs("garbage")
	case 1:
		return Bs{}
	case 2:
		return moFile(false, "a", "A", "a", "B")
	case 3:
		b := moFile(g.Intn(2) == 0, "", "Language: xx\n", "a", "A", "b\x00bs", "x\x00y")
		return b[:g.Intn(len(b))]
	case 4:
		return moFile(false)
	case 5:
		return moFile(true, "a", "A", "k\x04a", "kA")
	}
	return moFile(g.Intn(2) == 0, "", "Language: xx\n", "a", "A", "b\x00bs", "x\x00y")
}

func (g *G) content22(name string) Bs {
	switch filepath.Ext(name) {
	case ".po", ".pot":
		n := 9
		if g.Sound {
			n = 100
		}
		switch g.Intn(n) {
		case 0:
			return Bs(pick(g, badPo22))
		case 1:
			return Bs(pick(g, dupPo22))
		}
		if g.Intn(2) == 0 {
			return Bs(pick(g, po22) + "\n" + strings.Replace(pick(g, po22), "msgid \"a\"", "msgid \"z\"", 1))
		}
		return Bs(pick(g, po22))
	case ".mo":
		return g.mo22()
	case ".go":
		if g.Intn(7) == 0 && !g.Sound {
			return Bs(pick(g, badGo22))
		}
		return Bs(pick(g, go22))
	}
	return Bs(pick(g, []string{"", "precious\n", "a.po\n", "a.po\nb.po\n", " sub/c.po \n\nmissing.po\n", "a.go\nlib\n", "lib/x.go\n", "c.po\n"}))
}

var tools22 = []string{"msgofmt", "msgounfmt", "msgocat", "msgomerge", "xgotext"}

// spell22 is another way to write the same path.
func (g *G) spell22(p string) Bs {
	if p == "-" || p == "" {
		return Bs(p)
	}
	switch g.Intn(8) {
	case 0:
		return Bs("./" + p)
	case 1:
		return Bs("sub/../" + p)
	case 2:
		return Bs(strings.ReplaceAll(p, "/", "//"))
	}
	return Bs(p)
}

func (g *G) run22(names map[string][]string) R22 {
	tool := pick(g, tools22)
	r := R22{Tool: tool, Args: []Bs{}, Alias: g.Intn(210), Wrap: g.Intn(4) == 0, O: Opt22{Exclude: []Bs{}, Comp: []Bs{}, Domain: Bs("messages"), Wrap: g.Intn(2) == 0}}
	o := &r.O
	inputs := func(exts ...string) string {
		n := 14
		if g.Sound {
			n = 200
		}
		switch g.Intn(n) {
		case 0:
			return "missing" + exts[0]
		case 1:
			return "-"
		case 2:
			return "sub"
		}
		ns := names[pick(g, exts)]
		if len(ns) == 0 {
			return "none" + exts[0]
		}
		return pick(g, ns)
	}
	outs := func(ext string) Bs {
		all := append([]string{}, names["all"]...)
		all = append(all, names[ext]...)
		all = append(all, names[ext]...)
		switch g.Intn(6) {
		case 0:
			return Bs("-")
		case 1:
			return Bs("new" + ext)
		case 2:
			return g.spell22(pick(g, []string{"nodir/new" + ext, "sub", "a.po/x" + ext, "sub/new" + ext, "precious.txt"}))
		}
		return g.spell22(pick(g, all))
	}
	o.HasOut = g.Intn(6) != 0
	o.Force = g.Intn(2) == 0 || g.Sound && g.Intn(2) == 0
	o.Bogus = g.Intn(25) == 0 && !g.Sound
	o.Verbose = g.Intn(8) == 0
	stdin := ".po"
	switch tool {
	case "msgofmt":
		for k := g.Intn(4) + b22(g.Sound); k > 0; k-- {
			r.Args = append(r.Args, g.spell22(inputs(".po")))
		}
		o.Out = outs(".mo")
		if g.Intn(3) == 0 {
			o.Dir = Bs(pick(g, []string{"sub", "sub", "sub/", "lib", "nodir", ".", "a.po"}))
			if g.Intn(2) == 0 {
				r.Args = []Bs{}
			}
			for i := range r.Args {
				if g.Sound || g.Intn(2) == 0 {
					r.Args[i] = Bs(pick(g, []string{"c.po", "d.po"}))
				}
			}
			if g.Intn(2) == 0 {
				o.Out = Bs(pick(g, []string{"c.mo", "new.mo", "messages.mo", "zz.mo", "c.po"}))
			}
		}
		o.NoHash = g.Intn(4) == 0
		o.Endian = pick(g, []string{"", "", "big", "little", "native"})
	case "msgounfmt":
		for k := g.Intn(3); k > 0; k-- {
			r.Args = append(r.Args, g.spell22(inputs(".mo")))
		}
		o.Out = outs(".po")
		o.Ignore, o.Sort = g.Intn(2) == 0, g.Intn(2) == 0
		stdin = ".mo"
	case "msgocat":
		for k := g.Intn(4); k > 0; k-- {
			r.Args = append(r.Args, g.spell22(inputs(".po", ".pot")))
		}
		if g.Intn(5) == 0 {
			o.From = Bs(pick(g, []string{"list.txt", "list.txt", "-", "nolist"}))
		}
		if g.Intn(5) == 0 {
			o.Dir = Bs(pick(g, []string{"sub", "nodir", "empty", "a.po"}))
		}
		o.Out = outs(".po")
		if g.Intn(3) == 0 {
			o.HasLess, o.Less = true, pick(g, []int{0, 1, 2, 3})
		}
		if g.Intn(3) == 0 {
			o.HasMore, o.More = true, pick(g, []int{0, 1, 2})
		}
		o.Unique, o.First = g.Intn(6) == 0, g.Intn(3) == 0
		o.NoLoc, o.HasAddLoc, o.AddLoc = g.Intn(5) == 0, g.Intn(5) == 0, pick(g, []string{"full", "file", "never"})
		o.Sort, o.SortFile = g.Intn(4) == 0, g.Intn(4) == 0
		if g.Intn(3) == 0 {
			o.HasLang, o.Lang = true, Bs("zz")
		}
	case "msgomerge":
		for k := pick(g, []int{2, 2, 2, 2, 2, 2, 0, 1, 3})*b22(!g.Sound) + 2*b22(g.Sound); k > 0; k-- {
			r.Args = append(r.Args, g.spell22(inputs(".po", ".pot")))
		}
		o.Out = outs(".po")
		o.Update = g.Intn(2) == 0
		for k := g.Intn(3) - 1; k > 0; k-- {
			o.Comp = append(o.Comp, Bs(inputs(".po")))
		}
		if g.Intn(5) == 0 {
			o.Dir = Bs(pick(g, []string{"sub", ".", "nodir"}))
			for i := range r.Args {
				if g.Intn(3) > 0 {
					r.Args[i] = Bs(pick(g, []string{"c.po", "d.po"}))
				}
			}
		}
		o.NoFuzzy = g.Intn(2) == 0
	case "xgotext":
		for k := 1 + g.Intn(3); k > 0; k-- {
			in := inputs(".go")
			if g.Intn(4) == 0 {
				in = pick(g, []string{"lib", ".", "lib/deep"})
			}
			r.Args = append(r.Args, g.spell22(in))
		}
		if g.Intn(6) == 0 {
			o.From = Bs(pick(g, []string{"gofiles.txt", "nolist", "list.txt"}))
		}
		if g.Intn(4) == 0 {
			o.Exclude = append(o.Exclude, Bs(pick(g, []string{"a.go", "lib", "lib/deep", "lib/x.go", "nothing"})))
		}
		if g.Intn(8) == 0 {
			o.ExcludeFile = Bs(pick(g, []string{"gofiles.txt", "nolist"}))
		}
		o.Out = outs(".pot")
		if string(o.Out) == "-" {
			r.Args = without(r.Args, "-")
		}
		if g.Intn(5) == 0 {
			o.Out = Bs{}
			o.Domain = Bs(pick(g, []string{"messages", "dom", "t"}))
		}
		if g.Intn(5) == 0 {
			o.OutDir = Bs(pick(g, []string{"sub", "nodir", "."}))
		}
		if g.Intn(8) == 0 {
			o.Dir = Bs(pick(g, []string{"lib", "."}))
			r.Args = without(r.Args, "-")
			for i := range r.Args {
				if g.Intn(2) == 0 {
					r.Args[i] = Bs(pick(g, []string{"x.go", "deep", "."}))
				}
			}
		}
		o.Join, o.All, o.Omit = g.Intn(2) == 0, g.Intn(4) == 0, g.Intn(5) == 0
		o.Wrap = g.Intn(2) == 0
		stdin = ".go"
	}
	for i, a := range r.Args { // one argument at most reads the standard input
		if string(a) == "-" {
			for k := i + 1; k < len(r.Args); k++ {
				if string(r.Args[k]) == "-" {
					r.Args[k] = Bs(names["all"][0])
				}
			}
		}
	}
	if string(o.From) == "-" {
		r.Args = without(r.Args, "-")
		r.Stdin = Bs(pick(g, []string{"a.po\n", "a.po\nsub/c.po", "", "missing.po\n"}))
	} else if stdin == ".mo" && g.Intn(2) == 0 {
		r.Stdin = moFile(false, "s", "S")
	} else {
		r.Stdin = g.content22("x" + stdin)
	}
	if g.Intn(12) == 0 {
		r.Sink = "full"
	}
	return r
}

func b22(b bool) int {
	if b {
		return 1
	}
	return 0
}

func without(xs []Bs, s string) (out []Bs) {
	out = []Bs{}
	for _, x := range xs {
		if string(x) != s {
			out = append(out, x)
		}
	}
	return
}

func (g *G) fs22() ([]F22, map[string][]string) {
	var fs []F22
	names := map[string][]string{}
	put := func(p string, d Bs) {
		fs = append(fs, F22{P: Bs(p), D: d})
		if ext := filepath.Ext(p); ext != ".txt" {
			names[ext] = append(names[ext], p)
			names["all"] = append(names["all"], p)
		}
	}
	for _, p := range []string{"a.po", "b.po", "sub/c.po", "sub/d.po", "t.pot", "a.mo", "b.mo", "a.go", "lib/x.go", "lib/deep/y.go"} {
		switch {
		case p == "a.po" || p == "a.go" || p == "a.mo":
			put(p, g.content22(p))
		case g.Intn(5) > 0:
			put(p, g.content22(p))
		}
	}
	for _, p := range []string{"messages.mo", "messages.pot", "sub/c.mo", "sub/messages.mo", "sub/new.po", "sub/dom.pot"} {
		if g.Intn(3) == 0 {
			put(p, g.content22(p))
		}
	}
	put("list.txt", Bs(pick(g, []string{"a.po\n", "a.po\nb.po\n", " a.po \r\n\n", "sub/c.po\nmissing.po\n", "", "a.po\na.po"})))
	put("gofiles.txt", Bs(pick(g, []string{"a.go\n", "a.go\nlib\n", "lib/x.go\n", "\n"})))
	put("precious.txt", Bs("precious\n"))
	fs = append(fs, F22{P: Bs("empty"), D: Bs{}, Dir: true})
	if g.Intn(6) == 0 {
		fs = append(fs, F22{P: Bs(pick(g, []string{"sub/zz.mo", "sub/c.mo", "sub/d.mo"})), D: Bs{}, Dir: true})
	}
	// Directories, each once.
	seen := map[string]bool{}
	var out []F22
	add := func(f F22) {
		if !seen[string(f.P)] {
			seen[string(f.P)] = true
			out = append(out, f)
		}
	}
	add(F22{P: Bs("sub"), D: Bs{}, Dir: true})
	add(F22{P: Bs("lib"), D: Bs{}, Dir: true})
	for _, f := range fs {
		if d := filepath.Dir(string(f.P)); d != "." {
			add(F22{P: Bs(d), D: Bs{}, Dir: true})
		}
		add(f)
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i].P, out[j].P) < 0 })
	return out, names
}

func init() {
	register("C22", func(g *G, emit func(C22)) {
		for i := 0; i < g.N(1200, 12000); i++ {
			g.Sound = g.Intn(3) > 0
			fs, names := g.fs22()
			c := C22{Fs: fs}
			for k := 1 + g.Intn(3); k > 0; k-- {
				c.Runs = append(c.Runs, g.run22(names))
			}
			emit(c)
		}
	}, run22).timeout = 90 * time.Second
}
