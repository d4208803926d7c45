// Command c20 decides property C20 (release metadata files).
package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/format"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/mmcloughlin/addchain/internal/metavars"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
)

// Prop is a property with its value as bytes (JSON strings cannot carry
// invalid UTF-8).
type Prop struct {
	Name, Doc string
	Value     []byte
}

// Desc is a metadata description.
type Desc struct {
	Package string
	Props   []Prop
}

func (d Desc) file() *metavars.File {
	f := &metavars.File{Package: d.Package}
	for _, p := range d.Props {
		f.Properties = append(f.Properties, metavars.Property{Name: p.Name, Doc: p.Doc, Value: string(p.Value)})
	}
	return f
}

func same(f *metavars.File, d Desc) error {
	if f == nil {
		return errors.New("no file")
	}
	if f.Package != d.Package {
		return fmt.Errorf("package %q, want %q", f.Package, d.Package)
	}
	if len(f.Properties) != len(d.Props) {
		return fmt.Errorf("%d properties, want %d", len(f.Properties), len(d.Props))
	}
	for i, p := range f.Properties {
		q := d.Props[i]
		if p.Name != q.Name || p.Doc != q.Doc || p.Value != string(q.Value) {
			return fmt.Errorf("property %d is {%q %q %q}, want {%q %q %q}", i, p.Name, p.Doc, p.Value, q.Name, q.Doc, q.Value)
		}
	}
	return nil
}

// roundtrip writes d, checks the text, reads it back.
func roundtrip(w *mc.W, d Desc) error {
	f := d.file()
	var buf bytes.Buffer
	if err := metavars.Write(&buf, f); err != nil {
		return fmt.Errorf("write: %v", err)
	}
	if err := same(f, d); err != nil {
		return fmt.Errorf("Write changed its argument: %v", err)
	}
	src := append([]byte{}, buf.Bytes()...)
	canon, err := format.Source(src)
	if err != nil {
		return fmt.Errorf("written text is not Go source: %v\n%s", err, src)
	}
	if !bytes.Equal(canon, src) {
		return fmt.Errorf("written text is not in gofmt form:\n%s\ngofmt gives:\n%s", src, canon)
	}
	g, err := metavars.Read(bytes.NewReader(src))
	if err != nil {
		return fmt.Errorf("read: %v\n%s", err, src)
	}
	if err := same(g, d); err != nil {
		return fmt.Errorf("read back: %v\n%s", err, src)
	}
	w.Step(3)
	// A second write gives the same text.
	buf.Reset()
	if err := metavars.Write(&buf, g); err != nil || !bytes.Equal(buf.Bytes(), src) {
		return fmt.Errorf("rewriting gives (%v)\n%s\nnot\n%s", err, buf.Bytes(), src)
	}
	// In a file that had other properties before.
	used, _ := w.Local["file"].(*metavars.File)
	if used == nil {
		used = &metavars.File{}
		w.Local["file"] = used
	}
	used.Package = d.Package
	used.Properties = append(used.Properties[:0], g.Properties...)
	buf.Reset()
	if err := metavars.Write(&buf, used); err != nil || !bytes.Equal(buf.Bytes(), src) {
		return fmt.Errorf("writing it from a file that had other properties before gives (%v)\n%s\nnot\n%s", err, buf.Bytes(), src)
	}
	for _, p := range d.Props {
		if v, ok := used.Get(p.Name); !ok || v != string(p.Value) {
			return fmt.Errorf("Get(%q) = %q, %v in a file that had other properties before", p.Name, v, ok)
		}
		if n := len(used.Properties); n > 1 && n <= 8 {
			first := used.Properties[0]
			copy(used.Properties, used.Properties[1:])
			used.Properties[n-1] = first
			if v, ok := used.Get(p.Name); !ok || v != string(p.Value) {
				return fmt.Errorf("Get(%q) = %q, %v after the properties were rotated", p.Name, v, ok)
			}
		}
	}
	// Look up.
	for _, p := range d.Props {
		if v, ok := g.Get(p.Name); !ok || v != string(p.Value) {
			return fmt.Errorf("Get(%q) = %q, %v", p.Name, v, ok)
		}
	}
	w.Max("text bytes", len(src))
	w.Later(func() error {
		if err := same(g, d); err != nil {
			return fmt.Errorf("the file read back is now different: %v", err)
		}
		return same(f, d)
	})
	return nil
}

func checkDesc(w *mc.W, d Desc) error {
	w.Trace(1)
	w.State(1)
	return roundtrip(w, d)
}

// checkValue places the value alone, documented, and between two others.
func checkValue(w *mc.W, v []byte) error {
	w.Trace(3)
	w.State(1)
	if utf8.Valid(v) {
		w.Outcome("valid UTF-8")
	} else {
		w.Outcome("invalid UTF-8")
	}
	for _, d := range []Desc{
		{"meta", []Prop{{"doi", "", v}}},
		{"p", []Prop{{"a", "", []byte("v")}, {"longername", "Documentation of it.", v}, {"b", "", v}}},
	} {
		if err := roundtrip(w, d); err != nil {
			return err
		}
	}
	// Set gives the same text as construction.
	f := Desc{"meta", []Prop{{"a", "", []byte("old value")}, {"doi", "The DOI.", []byte("old")}}}.file()
	if err := f.Set("doi", string(v)); err != nil {
		return err
	}
	if err := same(f, Desc{"meta", []Prop{{"a", "", []byte("old value")}, {"doi", "The DOI.", v}}}); err != nil {
		return fmt.Errorf("after Set: %v", err)
	}
	return nil
}

func seq(alpha []string, idx []int) []byte {
	var b []byte
	for _, i := range idx {
		b = append(b, alpha[i]...)
	}
	return b
}

var nasty = []string{"\"", "\\", "\n", "\r", "\x00", "`", "\x80", "\xff", "\xc3", "\u2028", "%", "\t", "\x7f", "\ufeff", "\ufffd", "n", "x", "0", "/", "*", "'", " ", "u", "\xed\xa0\x80", "é", "\U0001F600", "$", "{", "}", "s"}
var nasty2 = []string{"\"", "\\", "\n", "`", "\xff", "\xc3", "\u00a9", "%", "x", "0", "/", " "}
var nasty3 = []string{"\"", "\\", "n", "`", "%", "\xe2\x80", "\xa8", "\n"}

func values(t mc.Tier) []mc.Gen[[]byte] {
	var gs []mc.Gen[[]byte]
	all := make([]string, 256)
	for i := range all {
		all[i] = string([]byte{byte(i)})
	}
	bytesUpTo := func(id string, alpha []string, lo, hi, sh int) {
		gs = append(gs, mc.Shards(id, sh, func(s, n int, y func([]byte)) {
			enum.Seqs(len(alpha), lo, hi, s, n, func(ix []int) { y(seq(alpha, ix)) })
		})...)
	}
	bytesUpTo("every byte string of up to 2 bytes", all, 0, 2, 16)
	bytesUpTo("every string of 3 symbols over 30", nasty, 3, 3, 16)
	bytesUpTo("every string of 4 symbols over 12", nasty2, 4, t.Pick(4, 5), 16)
	bytesUpTo("every string of 5 symbols over 8", nasty3, 5, t.Pick(5, 6), 16)
	top := t.Pick(0x10000, 0x110000)
	gs = append(gs, mc.Shards("every code point, alone and within text", 16, func(s, n int, y func([]byte)) {
		for r := s; r < top; r += n {
			if r >= 0xd800 && r < 0xe000 {
				// Not encodable by Go; the raw bytes of it.
				y([]byte{0xe0 | byte(r>>12), 0x80 | byte(r>>6&0x3f), 0x80 | byte(r&0x3f)})
				continue
			}
			y([]byte(string(rune(r))))
			y([]byte("a" + string(rune(r)) + "0"))
		}
		if t.Pick(0, 1) == 0 {
			for r := 0x10000 + s*0x1000; r < 0x110000; r += n * 0x1000 {
				for _, d := range []int{0, 1, 0x555, 0xffe, 0xfff} {
					y([]byte(string(rune(r + d))))
				}
			}
		}
	})...)
	gs = append(gs, mc.Shards("long values of one repeated symbol", 16, func(s, n int, y func([]byte)) {
		i := 0
		for _, a := range nasty {
			for _, l := range []int{4, 7, 8, 15, 16, 31, 32, 63, 64, 65, 79, 80, 81, 100, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 4095, 4096, 4097, 20000} {
				i++
				if enum.Mine(i, s, n) {
					y(bytes.Repeat([]byte(a), l))
				}
			}
		}
	})...)
	if t.Pick(0, 1) == 1 {
		gs = append(gs, mc.Shards("every byte string of 3 bytes", 256, func(s, n int, y func([]byte)) {
			for i := s; i < 1<<24; i += n {
				y([]byte{byte(i >> 16), byte(i >> 8), byte(i)})
			}
		})...)
	}
	return gs
}

// lists: number of properties x documentation pattern x name lengths x values.
func lists(t mc.Tier) []mc.Gen[Desc] {
	vals := [][]byte{[]byte(""), []byte("v"), []byte("two words \"quoted\" and\nlonger"), []byte("\xff`\\")}
	docs := []string{"", "Word", "A longer sentence, with punctuation (here); and 100% sure it's fine."}
	lens := []int{1, 3, 17}
	kinds := len(vals) * len(docs) * len(lens)
	// per property: kind; all lists up to 3 over all kinds, longer over fewer
	build := func(kinds []int) Desc {
		d := Desc{Package: "meta", Props: []Prop{}}
		for i, k := range kinds {
			v, dc, ln := vals[k%len(vals)], docs[k/len(vals)%len(docs)], lens[k/len(vals)/len(docs)]
			name := strings.Repeat("n", ln-1) + string(rune('a'+i))
			d.Props = append(d.Props, Prop{name, dc, v})
		}
		return d
	}
	gs := mc.Shards("lists of 0..3 properties over 36 kinds", 16, func(s, n int, y func(Desc)) {
		enum.Seqs(kinds, 0, 3, s, n, func(ix []int) { y(build(ix)) })
	})
	few := []int{0, 13, 22, 35, 18, 7}
	gs = append(gs, mc.Shards("lists of 4..6 properties over 4..6 kinds", 16, func(s, n int, y func(Desc)) {
		enum.Seqs(t.Pick(4, 6), 4, 6, s, n, func(ix []int) {
			k := make([]int, len(ix))
			for i, j := range ix {
				k[i] = few[j]
			}
			y(build(k))
		})
	})...)
	gs = append(gs, mc.Shards("name length pairs and triples", 16, func(s, n int, y func(Desc)) {
		i := 0
		for a := 1; a <= 45; a++ {
			for b := 1; b <= 45; b++ {
				i++
				if !enum.Mine(i, s, n) {
					continue
				}
				for _, m := range []int{0, 1, 2, 3, 4, 5, 6, 7} {
					d := Desc{Package: "m"}
					for j, l := range []int{a, b, (a + b) / 2} {
						p := Prop{Name: strings.Repeat("n", l-1) + string(rune('a'+j)), Value: []byte("v")}
						if m>>j&1 == 1 {
							p.Doc = "Doc here"
						}
						d.Props = append(d.Props, p)
					}
					y(d)
				}
			}
		}
	})...)
	gs = append(gs, mc.Shards("lists of 7..130 properties", 16, func(s, n int, y func(Desc)) {
		for k := 7 + s; k <= 130; k += n {
			for m := 0; m < 4; m++ {
				d := Desc{Package: "m"}
				for j := 0; j < k; j++ {
					p := Prop{Name: fmt.Sprintf("v%d", j), Value: []byte(strings.Repeat("\"x", j))}
					if m > 0 && j%m == 0 {
						p.Doc = "Doc here"
					}
					d.Props = append(d.Props, p)
				}
				y(d)
			}
		}
	})...)
	return gs
}

func ident(s string) bool { return token.IsIdentifier(s) && !token.IsKeyword(s) }

func names(t mc.Tier) []mc.Gen[Desc] {
	alpha := []string{"a", "A", "_", "1", "0", "é", "世", "i", "f", "t", "Z", "Ⅷ", "٣", "ſ", "K"}
	special := []string{"init", "main", "nil", "true", "false", "iota", "string", "int", "len", "append", "any", "min", "clear", "error", "comparable", "meta", "doi", "var_", "Package", "importx", "_test", "__", "typ", "vars", "new", "make", "panic", "rune", "byte", "cgo", "C", "unsafe", "test", "documentation"}
	emit := func(y func(Desc), id string) {
		if !ident(id) {
			return
		}
		y(Desc{"meta", []Prop{{id, "", []byte("v")}}})
		y(Desc{"meta", []Prop{{"other", "", []byte("u")}, {id, "Doc of it.", []byte("v")}}})
		if id != "_" {
			y(Desc{id, []Prop{{"x", "", []byte("v")}}})
			y(Desc{id, nil})
			if id != "other" {
				y(Desc{id, []Prop{{id, "", []byte("v")}, {"other", "", []byte("w")}}})
			}
		}
	}
	gs := mc.Shards("identifiers of 1..3 symbols over 15", 16, func(s, n int, y func(Desc)) {
		enum.Seqs(len(alpha), 1, t.Pick(3, 4), s, n, func(ix []int) { emit(y, string(seq(alpha, ix))) })
	})
	gs = append(gs, mc.Shards("every one-letter identifier, predeclared and special names, long names", 16, func(s, n int, y func(Desc)) {
		for r := s; r < t.Pick(0x3000, 0x110000); r += n {
			emit(y, string(rune(r)))
		}
		for i, x := range special {
			if enum.Mine(i, s, n) {
				emit(y, x)
				emit(y, strings.ToUpper(x))
				emit(y, x+"1")
			}
		}
		for l := 1 + s; l <= 300; l += n {
			emit(y, strings.Repeat("n", l))
		}
	})...)
	return gs
}

// prose enumerates one-line plain documentation: words separated by single
// spaces with sentence punctuation.  Forms which gofmt itself rewrites (list
// markers, headings, directives, leading or trailing space) are not prose.
func prose(t mc.Tier) []mc.Gen[Desc] {
	words := []string{"the", "DOI", "of", "version's", "value,", "\"quoted\"", "(see", "below)", "100%", "a/b", "x;", "well-known", "is:", "é", "v1.2.3", "name_with_underscore", "e.g.", "why?", "yes!", "$5", "%s", "\\n", "//", "*/"}
	emit := func(y func(Desc), doc string) {
		y(Desc{"meta", []Prop{{"a", doc, []byte("v")}}})
		y(Desc{"meta", []Prop{{"a", "", []byte("v")}, {"bb", doc, []byte("w")}, {"c", doc, []byte("w")}}})
	}
	gs := mc.Shards("sentences of 1..3 words over 24", 16, func(s, n int, y func(Desc)) {
		enum.Seqs(len(words), 1, 3, s, n, func(ix []int) {
			var ws []string
			for _, i := range ix {
				ws = append(ws, words[i])
			}
			emit(y, strings.Join(ws, " "))
			if last := ws[len(ws)-1]; last[len(last)-1] != ':' {
				emit(y, strings.Join(ws, " ")+".")
			}
		})
	})
	gs = append(gs, mc.Shards("long sentences, and every initial and middle letter", 16, func(s, n int, y func(Desc)) {
		for l := 1 + s; l <= t.Pick(200, 2000); l += n {
			emit(y, strings.TrimSpace(strings.Repeat("word ", l)))
			emit(y, strings.Repeat("w", l))
		}
		for r := 'a' + rune(s); r < rune(t.Pick(0x600, 0x3000)); r += rune(n) {
			if ident(string(r)) {
				emit(y, string(r))
				emit(y, string(r)+" word")
				emit(y, "wo"+string(r)+"rd")
			}
		}
	})...)
	return gs
}

// Hist is a history of calls on a file with the initial properties.  Each call
// is encoded as kind + 3*(name + N*value).
type Hist struct {
	Init  []int
	Calls []int
	Sets  int // which name set
}

var nameSets = [][]string{{"a", "b", "ab"}, {"x", "X", "x1"}}
var valSet = []string{"", "v1"}

type hcall struct {
	kind  int
	name  string
	value string
}

func decode(c, set int) hcall {
	// 3 names x (get | add v1 | add v2 | set v1 | set v2)
	names := nameSets[set]
	n := names[c%3]
	switch c / 3 {
	case 0:
		return hcall{0, n, ""}
	case 1, 2:
		return hcall{1, n, valSet[c/3-1]}
	default:
		return hcall{2, n, valSet[c/3-3]}
	}
}

func checkHist(w *mc.W, h Hist) error {
	w.Trace(1)
	d := Desc{Package: "meta"}
	for i, k := range h.Init {
		d.Props = append(d.Props, Prop{Name: nameSets[h.Sets][k], Value: []byte(fmt.Sprint("i", i)), Doc: "Initial."})
	}
	f := d.file()
	for step, c := range h.Calls {
		op := decode(c, h.Sets)
		at := -1
		for i, p := range d.Props {
			if p.Name == op.name {
				at = i
			}
		}
		where := fmt.Sprintf("call %d %+v", step, op)
		switch op.kind {
		case 0:
			v, ok := f.Get(op.name)
			if ok != (at >= 0) || (ok && v != string(d.Props[at].Value)) {
				return fmt.Errorf("%s: Get = %q, %v", where, v, ok)
			}
		case 1:
			doc := ""
			if step%2 == 1 {
				doc = "Doc."
			}
			err := f.Add(metavars.Property{Name: op.name, Value: op.value, Doc: doc})
			if (err == nil) != (at < 0) {
				return fmt.Errorf("%s: Add: error %v", where, err)
			}
			if at < 0 {
				d.Props = append(d.Props, Prop{op.name, doc, []byte(op.value)})
			}
		case 2:
			err := f.Set(op.name, op.value)
			if (err == nil) != (at >= 0) {
				return fmt.Errorf("%s: Set: error %v", where, err)
			}
			if at >= 0 {
				d.Props[at].Value = []byte(op.value)
			}
		}
		if err := same(f, d); err != nil {
			return fmt.Errorf("after %s: %v", where, err)
		}
		w.Step(1)
	}
	w.State(1)
	// The outcome of short histories is also written and read back, and the
	// history goes on from the file read back.
	if len(h.Calls) <= 3 {
		return roundtrip(w, d)
	}
	return nil
}

func hists(t mc.Tier) []mc.Gen[Hist] {
	inits := [][]int{{}, {0}, {1}, {2, 0}, {1, 2}, {0, 1, 2}, {2, 1, 0}}
	return mc.Shards("call histories from 7 initial files", 32, func(s, n int, y func(Hist)) {
		for set := range nameSets {
			for ii, in := range inits {
				d := t.Pick(4, 5)
				if ii == 0 && set == 0 {
					d = t.Pick(5, 6)
				}
				enum.Seqs(15, 1, d, s, n, func(ix []int) {
					y(Hist{in, append([]int{}, ix...), set})
				})
			}
		}
	})
}

// Wide is a file of N properties on which every position is looked up and set.
type Wide struct{ N int }

func checkWide(w *mc.W, c Wide) error {
	w.Trace(1)
	f := &metavars.File{Package: "m"}
	var d Desc
	d.Package = "m"
	name := func(i int) string { return fmt.Sprintf("n%d", i) }
	for i := 0; i < c.N; i++ {
		if err := f.Add(metavars.Property{Name: name(i), Value: name(i)}); err != nil {
			return err
		}
		d.Props = append(d.Props, Prop{name(i), "", []byte(name(i))})
		if err := f.Add(metavars.Property{Name: name(i / 2), Value: "other"}); err == nil {
			return fmt.Errorf("Add of existing %q accepted", name(i/2))
		}
	}
	if err := same(f, d); err != nil {
		return err
	}
	for i := 0; i < c.N; i++ {
		if err := f.Set(name(i), "s"); err != nil {
			return err
		}
		d.Props[i].Value = []byte("s")
		if err := same(f, d); err != nil {
			return fmt.Errorf("after Set(%q): %v", name(i), err)
		}
		w.Step(1)
	}
	for _, x := range []string{name(c.N), "", "n", "N0", "n00", " n0", "n0 ", "v"} {
		if v, ok := f.Get(x); ok || v != "" {
			return fmt.Errorf("Get(%q) = %q, %v", x, v, ok)
		}
		if err := f.Set(x, "t"); err == nil {
			return fmt.Errorf("Set(%q) accepted", x)
		}
		if err := same(f, d); err != nil {
			return fmt.Errorf("after Set(%q): %v", x, err)
		}
	}
	w.State(1)
	return roundtrip(w, d)
}

// Over is a pair of descriptions written to the same file, one after another.
type Over struct{ A, B Desc }

func checkOver(w *mc.W, o Over) error {
	w.Trace(1)
	dir, err := os.MkdirTemp("", "c20")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "vars.go")
	for _, d := range []Desc{o.A, o.B, o.A} {
		if err := metavars.WriteFile(file, d.file()); err != nil {
			return fmt.Errorf("WriteFile: %v", err)
		}
		g, err := metavars.ReadFile(file)
		if err != nil {
			return fmt.Errorf("ReadFile: %v", err)
		}
		if err := same(g, d); err != nil {
			return fmt.Errorf("ReadFile: %v", err)
		}
		b, err := os.ReadFile(file)
		if err != nil {
			return err
		}
		var buf bytes.Buffer
		if err := metavars.Write(&buf, d.file()); err != nil || !bytes.Equal(buf.Bytes(), b) {
			return fmt.Errorf("WriteFile wrote %q, Write %q (%v)", b, buf.Bytes(), err)
		}
		w.Step(2)
	}
	w.State(1)
	return nil
}

func overs(t mc.Tier) []mc.Gen[Over] {
	var ds []Desc
	for n := 0; n <= 6; n++ {
		for _, v := range []string{"", "v", "\"\\\n\xff`", strings.Repeat("long ", 2000)} {
			d := Desc{Package: "meta"}
			for i := 0; i < n; i++ {
				p := Prop{Name: string(rune('a' + i)), Value: []byte(v)}
				if i%2 == 1 {
					p.Doc = "Doc of it."
				}
				d.Props = append(d.Props, p)
			}
			ds = append(ds, d)
		}
	}
	return mc.Shards("pairs of descriptions over one file", 16, func(s, n int, y func(Over)) {
		for i, a := range ds {
			for j, b := range ds {
				if enum.Mine(i*len(ds)+j, s, n) {
					y(Over{a, b})
				}
			}
		}
	})
}

// Bump is a run of the release tool's bump command.
type Bump struct {
	File          Desc
	Version, Date string
}

func checkBump(w *mc.W, b Bump) error {
	w.Trace(1)
	bin := filepath.Join(os.Getenv("VERIF_BUILD"), "release")
	dir, err := os.MkdirTemp("", "c20")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "vars.go")
	if err := metavars.WriteFile(file, b.File.file()); err != nil {
		return err
	}
	before, _ := os.ReadFile(file)
	cmd := exec.Command(bin, "bump", "-vars", file, "-date", b.Date, b.Version)
	cmd.Dir = dir
	out, rerr := cmd.CombinedOutput()
	want := Desc{Package: b.File.Package, Props: append([]Prop{}, b.File.Props...)}
	found := 0
	for i, p := range want.Props {
		switch p.Name {
		case "releaseversion":
			want.Props[i].Value = []byte(b.Version)
			found |= 1
		case "releasedate":
			want.Props[i].Value = []byte(b.Date)
			found |= 2
		}
	}
	if found == 3 {
		w.Outcome("bumped")
		if rerr != nil {
			return fmt.Errorf("bump: %v: %s", rerr, out)
		}
		g, err := metavars.ReadFile(file)
		if err != nil {
			return fmt.Errorf("read after bump: %v", err)
		}
		if err := same(g, want); err != nil {
			return fmt.Errorf("after bump: %v", err)
		}
		src, _ := os.ReadFile(file)
		if canon, err := format.Source(src); err != nil || !bytes.Equal(canon, src) {
			return fmt.Errorf("after bump the file is not in gofmt form (%v):\n%s", err, src)
		}
	} else {
		w.Outcome("property missing")
		if rerr == nil {
			return fmt.Errorf("bump of a file without the properties succeeded: %s", out)
		}
		if found&1 == 0 {
			if after, _ := os.ReadFile(file); !bytes.Equal(before, after) {
				return fmt.Errorf("bump failed and changed the file to\n%s", after)
			}
		}
	}
	w.State(1)
	w.Step(1)
	return nil
}

func bumps(t mc.Tier) []mc.Gen[Bump] {
	std := Desc{"meta", []Prop{{"buildversion", "", nil}, {"releaseversion", "Version of the release.", []byte("0.4.0")}, {"releasedate", "", []byte("2021-10-30")}, {"doi", "", []byte("10.5281/zenodo.5622943")}}}
	var files []Desc
	files = append(files, std)
	rv, rd, o := Prop{"releaseversion", "", []byte("\"\\\xff")}, Prop{"releasedate", "Date.", []byte("`\n`")}, Prop{"other", "", []byte("%d\xc3")}
	for _, ps := range [][]Prop{{}, {rv}, {rd}, {o}, {rv, rd}, {rd, rv}, {o, rv}, {rd, o}, {o, rv, rd}, {rv, o, rd}, {rd, rv, o}} {
		files = append(files, Desc{"meta", ps})
	}
	nums := []string{"0", "1", "9", "10", "123"}
	dates := []string{"", "2021-10-30", "a \"quoted\" date", "back\\slash", "\n", "`", "%s%d", "\xff\xfe", "é\u2028"}
	return mc.Shards("bump", 16, func(s, n int, y func(Bump)) {
		i := 0
		for _, f := range files {
			for _, d := range dates {
				for k := 0; k < 125; k++ {
					if t.Pick(0, 1) == 0 && k%31 != 0 && (d != dates[0] || len(f.Props) != 4) {
						continue
					}
					i++
					if enum.Mine(i, s, n) {
						y(Bump{f, nums[k/25] + "." + nums[k/5%5] + "." + nums[k%5], d})
					}
				}
			}
		}
	})
}

func main() {
	names := mc.NewFamily("names", "identifiers and package names", names, checkDesc)
	prose := mc.NewFamily("prose", "documentation", prose, checkDesc)
	lists := mc.NewFamily("lists", "property lists", lists, checkDesc)
	wide := mc.NewFamily("wide", "every position of long files", func(t mc.Tier) []mc.Gen[Wide] {
		return mc.Shards("0..N properties", 8, func(s, n int, y func(Wide)) {
			for i := s; i <= t.Pick(80, 200); i += n {
				y(Wide{i})
			}
		})
	}, checkWide)
	bump := mc.NewFamily("bump", "release tool", bumps, checkBump)
	mc.Deep(names, prose, lists, wide, bump)
	mc.Main(&mc.Check{
		Property:  "C20",
		Technique: "bounded exhaustive enumeration of metadata descriptions and of call histories on the real package, against an ordered-map model and gofmt",
		Families: []*mc.Family{
			mc.NewFamily("values", "property values", values, checkValue),
			lists, names, prose,
			mc.NewFamily("histories", "Get, Add, Set histories", hists, checkHist),
			wide,
			mc.NewFamily("files", "WriteFile over an existing file, ReadFile", overs, checkOver),
			bump,
		},
		Assumptions: []string{"go/format of the installed toolchain defines canonical gofmt form", "plain prose is single-spaced words; comment forms that gofmt rewrites (lists, headings, directives, link definitions) are not prose"},
	})
}
