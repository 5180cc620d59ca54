package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// writeMo compiles through one of the public ways.
func writeMo(file *po.File, route int, opts ...compile.MoOption) (mo []byte, err error) {
	opts = chatMo(len(file.Entries)+route/7, opts)
	switch route % 7 {
	case 0:
		return compile.MoToBytes(file, opts...), nil
	case 1:
		var b bytes.Buffer
		err = compile.MoToWriter(*file, &b, opts...)
		return b.Bytes(), err
	case 2:
		scratch(func(dir string) {
			p := filepath.Join(dir, "x.mo")
			if err = compile.MoToFile(file.Entries, p, opts...); err == nil {
				mo, err = os.ReadFile(p)
			}
		})
		return
	case 3:
		c := compile.NewMo(file)
		return c.ToBytesWithOptions(opts...), nil
	case 4:
		c := compile.NewMo(&po.File{})
		c.SetFile(file)
		var b bytes.Buffer
		err = c.ToWriterWithOptions(&b, opts...)
		return b.Bytes(), err
	case 5:
		scratch(func(dir string) {
			p := filepath.Join(dir, "x.mo")
			c := compile.NewMo(file)
			if err = c.ToFileWithOptions(p, opts...); err == nil {
				mo, err = os.ReadFile(p)
			}
		})
		return
	default:
		return compile.NewMo(file, opts...).ToBytes(), nil
	}
}

func readMo(mo []byte, route int, opts ...parse.MoOption) (f *po.File, err error) {
	opts = chatReadMo(len(mo)+route/6, opts)
	switch route % 6 {
	case 0:
		return parse.MoFromBytes(mo, "x.mo", opts...)
	case 1:
		return parse.MoFromReader(slowly(mo, route/6), "x.mo", opts...)
	case 2:
		scratch(func(dir string) {
			p := filepath.Join(dir, "x.mo")
			if e := os.WriteFile(p, mo, 0o600); e != nil {
				die("%v", e)
			}
			f, err = parse.Mo(p, opts...)
		})
		return
	case 3:
		scratch(func(dir string) {
			p := filepath.Join(dir, "x.mo")
			if e := os.WriteFile(p, mo, 0o600); e != nil {
				die("%v", e)
			}
			h, e := os.Open(p)
			if e != nil {
				die("%v", e)
			}
			defer h.Close()
			f, err = parse.MoFromFile(h, opts...)
		})
		return
	case 4:
		p := parse.NewMoFromBytes(mo, "x.mo", opts...)
		f = p.Parse()
		if es := p.Errors(); len(es) > 0 {
			err = es[len(es)-1]
		}
		return
	default:
		p := parse.NewMoFromBytes(mo, "x.mo")
		f = p.ParseWithOptions(opts...)
		return f, p.Error()
	}
}

type CMo struct {
	Es     []E  `json:"es"`
	Endian int  `json:"endian"` // 0 native, 1 little, 2 big
	Hash   bool `json:"hash"`
	W      int  `json:"w"`
	R      int  `json:"r"`
	Sorted bool `json:"sorted"`
	Absent []Bs `json:"absent"`
	Raw    bool `json:"raw"`  // keep fuzzy and obsolete messages
	AsIs   bool `json:"asis"` // do not sort
}

type OMo struct {
	Mo  Bs   `json:"mo"`
	Err bool `json:"err"`
	Es  []E  `json:"es"`
}

func runMo(c CMo) (o OMo) {
	file := &po.File{Name: "x.po", Entries: toEntries(c.Es)}
	var opts []compile.MoOption
	if c.Endian != 0 || c.W%2 == 0 {
		opts = append(opts, compile.MoWithEndianness(compile.Endianness(c.Endian)))
	}
	if !c.Hash || c.W%3 == 0 {
		opts = append(opts, compile.MoWithHashTable(c.Hash))
	}
	if c.Raw {
		opts = append(opts, compile.MoWithDepureEntries(false))
	}
	if c.AsIs {
		opts = append(opts, compile.MoWithSortEntries(false))
	}
	mo, err := writeMo(file, c.W, opts...)
	o.Mo = mo
	o.Es = []E{}
	if err != nil {
		o.Err = true
		return
	}
	var ropts []parse.MoOption
	if c.Sorted {
		ropts = append(ropts, parse.MoWithMustBeSorted(true))
	}
	if c.R >= 6 {
		ropts = append(ropts, parse.MoWithEndianness(parse.Endianness(c.Endian)))
	}
	f, err := readMo(mo, c.R, ropts...)
	o.Err = err != nil
	o.Es = entriesOf(f)
	return
}

// compiled is the file of a case; nothing if it cannot be had.
func compiled(c CMo) Bs {
	return quietly(c.Es, compile.MoWithEndianness(compile.Endianness(c.Endian)), compile.MoWithHashTable(c.Hash))
}

// quietly compiles an input for other checks: nothing when the compiler panics or hangs.
func quietly(es []E, opts ...compile.MoOption) Bs {
	if compilerHangs {
		return nil
	}
	ch := make(chan Bs, 1)
	go func() {
		var mo Bs
		defer func() {
			recover()
			ch <- mo
		}()
		mo = compile.MoToBytes(toFile(es), opts...)
	}()
	select {
	case mo := <-ch:
		return mo
	case <-time.After(20 * time.Second):
		compilerHangs = true
		return nil
	}
}

var compilerHangs bool

func toFile(es []E) *po.File { return &po.File{Name: "x.po", Entries: toEntries(es)} }

// compilable is a catalogue for MO files; some keys may be repeated.
func (g *G) compilable(n int) []E {
	es := g.Catalogue(n)
	if len(es) > 0 && g.Intn(4) == 0 {
		e := pick(g, es)
		e.Locs = []L{g.Loc()}
		e.Flag = []Bs{}
		if len(e.F) == 0 {
			e.Str = Bs(g.Text())
		}
		es = append(es, e)
	}
	nul := func(b Bs) Bs { return Bs(strings.ReplaceAll(string(b), "\x00", "")) }
	for i := range es {
		e := &es[i]
		e.Str = nul(e.Str)
		for k := range e.F {
			e.F[k].S = nul(e.F[k].S)
		}
	}
	return es
}

func (g *G) absent(es []E) []Bs {
	out := []Bs{}
	for i := 0; i < 6; i++ {
		s := g.ID()
		if len(es) > 0 {
			k := key(pick(g, es))
			switch g.Intn(6) {
			case 0:
				s = k + "x"
			case 1:
				if len(k) > 0 {
					s = k[:len(k)-1]
				}
			case 2:
				s = "c\x04" + k
			case 3:
				s = k
			case 4:
				_, s, _ = strings.Cut(k, "\x04")
			}
		}
		out = append(out, Bs(s))
	}
	return out
}

func (g *G) moCase(es []E) CMo {
	return CMo{es, g.Intn(3), g.Intn(3) != 0, g.Intn(42), g.Intn(12), g.Intn(3) == 0, g.absent(es), false, false}
}

// sized has n messages whose keys share prefixes and collide in small hash tables.
func (g *G) sized(n int) []E {
	out := []E{}
	for i := 0; i < n; i++ {
		e := plainEntry(pick(g, []string{"k", "key ", "", "\xc3\xa9"}) + fmt.Sprint(i))
		e.Str = Bs(fmt.Sprint("t", i))
		if g.Intn(4) == 0 {
			e.Ctx = Bs(pick(g, []string{"a", "b", "menu"}))
		}
		if g.Intn(5) == 0 {
			e.Str, e.Pl, e.F = Bs{}, Bs("s"), []F{{0, Bs("1")}, {1, Bs("")}}
		}
		if g.Intn(12) == 0 {
			e.Obs = true
		}
		if g.Intn(12) == 0 {
			e.Flag = []Bs{Bs("fuzzy")}
		}
		out = append(out, e)
	}
	g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

type C07 struct {
	Mo     Bs   `json:"mo"`
	Endian int  `json:"endian"`
	Sorted bool `json:"sorted"`
	R      int  `json:"r"`
}

type O07 struct {
	Err   bool `json:"err"`
	Es    []E  `json:"es"`
	Alloc int  `json:"alloc"`
	// Failures of the source that were not reported.
	Unseen int `json:"unseen"`
}

func init() {
	moGen := func(g *G, emit func(CMo)) {
		// Every number of messages up to 40 in both orders, with and without the table.
		for n := 0; n <= 40; n++ {
			c := g.moCase(g.sized(n))
			c.Endian, c.Hash = n%3, n%4 != 0
			emit(c)
		}
		for i := 0; i < 12; i++ { // nearly empty files
			c := g.moCase(g.sized(i / 6))
			c.Endian, c.Hash = i%3, i%2 == 0
			emit(c)
		}
		for _, n := range []int{63, 64, 65, 100, 128, 200} {
			emit(g.moCase(g.sized(n)))
		}
		// Every number of plural forms.
		for n := 1; n <= 12; n++ {
			for _, empty := range []int{-1, 0, n - 1, n} {
				e := plainEntry("a")
				e.Pl = Bs("as")
				for i := 0; i < n; i++ {
					s := fmt.Sprint("f", i)
					if i == empty || empty == n {
						s = ""
					}
					e.F = append(e.F, F{i, Bs(s)})
				}
				x := plainEntry("z")
				x.Str = Bs("zz")
				emit(g.moCase([]E{x, e}))
			}
		}
		// Keys whose order is delicate.
		for _, ids := range [][]string{
			{"a", "ab", "a b", "A", "a\x01", "a\x05"}, {"a", "\xc3\xa9", "z", "\xf0\x9f\x98\x80", "\xef\xbf\xbd"}, {"\x01", " ", "~", "\x7f", "\xc2\x80"},
			{"x", "xx", "xxx", "xxxx"}, {"\xc3\xbf", "\xc4\x80", "y"}, {"1", "10", "2", "02"},
		} {
			es := []E{}
			for i, id := range ids {
				e := plainEntry(id)
				e.Str = Bs("t" + fmt.Sprint(i))
				es = append(es, e)
				e = plainEntry("q")
				e.Ctx = Bs(id)
				e.Str = Bs("c" + fmt.Sprint(i))
				es = append(es, e)
			}
			emit(g.moCase(es))
			for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
				es[i], es[j] = es[j], es[i]
			}
			emit(g.moCase(es))
		}
		// Long keys and bytes above 127, for the hash.
		for i := 0; i < g.N(6, 30); i++ {
			es := []E{}
			for k := 0; k < 8; k++ {
				e := plainEntry(strings.Repeat(pick(g, []string{"\xc3\xbf", "z", "longkey", "\xf0\x9f\x98\x80"}), 1+g.Intn(40)) + fmt.Sprint(k))
				e.Str = Bs(strings.Repeat("v", g.Intn(300)))
				es = append(es, e)
			}
			emit(g.moCase(es))
		}
		for _, es := range relatedEntries() {
			emit(g.moCase(es))
		}
		for i := 0; i < g.N(900, 8000); i++ {
			emit(g.moCase(g.compilable(g.Size())))
		}
	}
	register("C05", func(g *G, emit func(CMo)) {
		moGen(g, emit)
		for i := 0; i < g.N(100, 800); i++ {
			c := g.moCase(g.compilable(g.Size()))
			seen := map[string]bool{}
			dup := false
			for _, e := range c.Es {
				dup = dup || seen[key(e)]
				seen[key(e)] = true
			}
			c.Raw, c.AsIs = !dup && i%2 == 0, i%3 != 0
			c.Sorted = c.Sorted && !c.AsIs
			emit(c)
		}
	}, runMo)
	register("C06", moGen, runMo)

	register("C07", func(g *G, emit func(C07)) {
		files := [][]byte{}
		for i := 0; i < g.N(14, 60); i++ {
			es := g.compilable(pick(g, []int{0, 1, 2, 2, 3, 5}))
			for k := range es {
				if len(es[k].Str) > 30 {
					es[k].Str = es[k].Str[:0]
				}
			}
			c := g.moCase(es)
			c.Endian = i % 3
			mo := compiled(c)
			if len(mo) < 28 || len(mo) > 600 {
				continue
			}
			files = append(files, mo)
		}
		for n, mo := range files {
			for k := 0; k <= len(mo); k++ {
				emit(C07{Bs(mo[:k]), 0, k%2 == 0, k})
			}
			// Every byte of the header and tables, changed in several ways.
			var bo binary.ByteOrder = binary.LittleEndian
			if len(mo) > 0 && mo[0] == 0x95 {
				bo = binary.BigEndian
			}
			nstr := int(bo.Uint32(mo[8:]))
			end := 28 + 16*nstr
			for k := 0; k < end && k < len(mo); k++ {
				vals := []byte{mo[k] + 1, mo[k] - 1, 0, 0xff, mo[k] ^ 0x80, mo[k] ^ 4}
				if !g.Thorough() && k >= 28 {
					vals = []byte{pick(g, vals), pick(g, vals)}
				}
				for _, v := range vals {
					b := append([]byte{}, mo...)
					b[k] = v
					emit(C07{Bs(b), 0, k%2 == 0, k + n})
				}
			}
			// Words.
			for i := 0; i < 80; i++ {
				b := append([]byte{}, mo...)
				at := 4 * g.Intn(1+(end-4)/4)
				if at+4 > len(b) {
					continue
				}
				old := bo.Uint32(b[at:])
				bo.PutUint32(b[at:], pick(g, []uint32{0, 1, 2, 27, 28, uint32(len(b)), uint32(len(b) - 1), uint32(len(b) + 1), old + 8, old - 8, old * 2, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0x20000000, 0x10000000, 0x1fffffff}))
				emit(C07{Bs(b), 0, i%2 == 0, i})
			}
			// The NUL after a string.
			for k := end; k < len(mo); k++ {
				if mo[k] == 0 {
					b := append([]byte{}, mo...)
					b[k] = 'x'
					emit(C07{Bs(b), 0, false, k})
				}
			}
			// A declared byte order.
			for e := 0; e < 3; e++ {
				emit(C07{Bs(mo), e, n%2 == 0, n})
				b := append([]byte{}, mo...)
				b[0]++
				emit(C07{Bs(b), e, n%2 == 0, n})
			}
			emit(C07{Bs(append(append([]byte{}, mo...), "trailing"...)), 0, true, n})
		}
		// Hand-made files: unsorted, repeated, overlapping strings.
		for i := 0; i < g.N(150, 1500); i++ {
			var bo binary.ByteOrder = binary.LittleEndian
			if i%2 == 1 {
				bo = binary.BigEndian
			}
			n := g.Intn(5)
			head := make([]byte, 28+16*n)
			bo.PutUint32(head, 0x950412de)
			bo.PutUint32(head[8:], uint32(n))
			bo.PutUint32(head[12:], 28)
			bo.PutUint32(head[16:], uint32(28+8*n))
			if g.Intn(3) == 0 {
				head[4+g.Intn(4)] = byte(pick(g, []int{0, 1, 1, 1, 2, 255}))
			}
			body := []byte{}
			for k := 0; k < 2*n; k++ {
				s := pick(g, []string{"a", "b", "c\x04a", "a\x00as", "", "z", "\xc3\xa9", "c\x04a\x00as", "x\x04y\x04z", "p\x00q\x00r"})
				bo.PutUint32(head[28+8*k:], uint32(len(s)))
				bo.PutUint32(head[28+8*k+4:], uint32(len(head)+len(body)))
				body = append(append(body, s...), 0)
			}
			emit(C07{Bs(append(head, body...)), 0, g.Intn(2) == 0, i})
		}
		for i := 0; i < g.N(400, 4000); i++ {
			b := make([]byte, g.Intn(80))
			g.Read(b)
			if len(b) > 4 && g.Intn(3) != 0 {
				copy(b, pick(g, [][]byte{{0xde, 0x12, 4, 0x95}, {0x95, 4, 0x12, 0xde}}))
				if len(b) >= 28 {
					for k := 4; k < 28; k++ {
						b[k] = byte(pick(g, []int{0, 0, 0, 0, 1, 2, 28, 255}))
					}
				}
			}
			emit(C07{Bs(b), g.Intn(3), g.Intn(2) == 0, i})
		}
		// A file without messages whose words are all zero, in both orders.
		for i := 0; i < 48; i++ {
			b := make([]byte, 28+4*(i/24))
			copy(b, [][]byte{{0xde, 0x12, 4, 0x95}, {0x95, 4, 0x12, 0xde}, {0xde, 0x12, 4, 0x94}, {0x95, 4, 0x12, 0xdf}}[i%4])
			emit(C07{Bs(b), i / 4 % 3, i%8 < 4, i})
		}
		// Big claims in a small and in a middle-sized file.
		for _, n := range []int{28, 100, 30000} {
			for _, claim := range []uint32{1, 1000, 3000, 1 << 20, 1 << 27, 1 << 29, 1 << 31, 0xffffffff} {
				b := make([]byte, n)
				binary.LittleEndian.PutUint32(b, 0x950412de)
				binary.LittleEndian.PutUint32(b[8:], claim)
				binary.LittleEndian.PutUint32(b[12:], 28)
				binary.LittleEndian.PutUint32(b[16:], 28)
				emit(C07{Bs(b), 0, false, 0})
				binary.LittleEndian.PutUint32(b[8:], 0)
				binary.LittleEndian.PutUint32(b[20:], claim)
				emit(C07{Bs(b), 0, false, 4})
			}
		}
	}, func(c C07) (o O07) {
		var opts []parse.MoOption
		if c.Endian != 0 || c.R%2 == 0 {
			opts = append(opts, parse.MoWithEndianness(parse.Endianness(c.Endian)))
		}
		if c.Sorted {
			opts = append(opts, parse.MoWithMustBeSorted(true))
		}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		f, err := readMo(c.Mo, c.R, opts...)
		runtime.ReadMemStats(&b)
		o.Alloc = int(b.TotalAlloc - a.TotalAlloc)
		if o.Alloc > 2000000000 {
			o.Alloc = 2000000000
		}
		o.Err = err != nil
		o.Es = entriesOf(f)
		o.Unseen = unseen(c.Mo, c.R, func(r io.Reader) error {
			_, err := parse.MoFromReader(r, "x.mo", opts...)
			return err
		}, func(p string) error {
			_, err := parse.Mo(p, opts...)
			return err
		})
		return
	})
}
