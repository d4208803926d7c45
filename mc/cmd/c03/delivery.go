package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
)

// Delivery of a source text through a reader.
type Delivery struct {
	Src  string
	Cuts []int  // positions where a read ends
	End  string // how the end is reported: "after", "with", "zero", "fail"
}

var errBroken = errors.New("broken source")

// pieces is a reader that delivers a text in given pieces.
type pieces struct {
	rest []string
	end  string
	zero bool
}

func (d Delivery) reader() io.Reader {
	p := &pieces{end: d.End}
	last := 0
	for _, c := range d.Cuts {
		p.rest = append(p.rest, d.Src[last:c])
		last = c
	}
	p.rest = append(p.rest, d.Src[last:])
	return p
}

func (p *pieces) Read(b []byte) (int, error) {
	if p.end == "zero" && len(b) > 0 {
		// Nothing, once before each piece.
		if p.zero = !p.zero; p.zero {
			return 0, nil
		}
	}
	for len(p.rest) > 0 && p.rest[0] == "" {
		p.rest = p.rest[1:]
	}
	if len(p.rest) == 0 {
		if p.end == "fail" {
			return 0, errBroken
		}
		return 0, io.EOF
	}
	n := copy(b, p.rest[0])
	p.rest[0] = p.rest[0][n:]
	if p.end == "with" && len(p.rest) == 1 && p.rest[0] == "" {
		return n, io.EOF
	}
	return n, nil
}

func checkDelivery(w *mc.W, d Delivery) error {
	if d.End == "fail" {
		w.Trace(1)
		if _, err := parse.Reader("x", d.reader()); err == nil {
			return errors.New("parse succeeds although the text could not be read")
		}
		if _, err := acc.LoadReader("x", d.reader()); err == nil {
			return errors.New("load succeeds although the text could not be read")
		}
		w.Outcome("unreadable")
		return nil
	}
	return checkVia(w, d.Src, func(string) (*ast.Chain, error) { return parse.Reader("x", d.reader()) },
		func(string) (*ir.Program, error) { return acc.LoadReader("x", d.reader()) })
}

// deliveries is the family of all ways to deliver short texts.
func deliveries() *mc.Family {
	return mc.NewFamily("deliveries", "texts read from a reader that delivers them in every partition into pieces (texts of up to 10 (12) bytes) or at every pair of cut points, byte by byte, with empty reads, with the end reported with or after the last piece, or with an error",
		func(t mc.Tier) []mc.Gen[Delivery] {
			texts := append([]string{"1+1", "a=1+1\na", "[1]", "2*(1+1)", "1<<2+1", "1 + ", "x=1<<3\ny", "return 1\n", "1+1\n2*1", "a = 1\n", "dbl dbl 1\n"}, samples...)
			return mc.Shards("deliver", 32, func(shard, n int, yield func(Delivery)) {
				cnt := 0
				emit := func(d Delivery) {
					if cnt++; cnt%n == shard {
						yield(d)
					}
				}
				for _, src := range texts {
					for _, end := range []string{"after", "with", "zero", "fail"} {
						if len(src) <= t.Pick(10, 12) {
							for m := 0; m < 1<<(len(src)-1); m++ {
								d := Delivery{Src: src, End: end}
								for i := 1; i < len(src); i++ {
									if m>>(i-1)&1 == 1 {
										d.Cuts = append(d.Cuts, i)
									}
								}
								emit(d)
							}
							continue
						}
						var all []int
						for i := 1; i < len(src); i++ {
							all = append(all, i)
							for j := i; j < len(src); j++ {
								emit(Delivery{src, []int{i, j}, end})
							}
						}
						emit(Delivery{src, all, end})
						emit(Delivery{src, nil, end})
					}
				}
			})
		}, checkDelivery)
}

// Sized is a text of a given length in bytes.
type Sized struct {
	Form string
	Size int
	Via  string // "string", "reader", "bytes", "file"
}

func (z Sized) text() string {
	pad := func(pre, fill, post string) string {
		if k := z.Size - len(pre) - len(post); k > 0 {
			pre += strings.Repeat(fill, k/len(fill)) + strings.Repeat(fill[:1], k%len(fill))
		}
		return pre + post
	}
	switch z.Form {
	case "blanks":
		return pad("a = 1 +", " ", "1\nreturn a + 1\n")
	case "tabs-end":
		return pad("a = 2*1\nreturn a << 3", "\t \r", "")
	case "blanks-then-undefined":
		return pad("a = 1 +", "\t", "1\nreturn a + b\n")
	case "blanks-then-outside":
		return pad("a = 1 +", " ", "1\nreturn a +\n")
	case "name":
		k := (z.Size - 17) / 2
		if k < 1 {
			k = 1
		}
		id := strings.Repeat("v", k)
		return pad(id+" = 1 + 1\nreturn ", " ", id+" + 1")
	case "name-differs":
		k := (z.Size - 17) / 2
		if k < 1 {
			k = 1
		}
		id := strings.Repeat("v", k)
		return pad(id+"w = 1 + 1\nreturn ", " ", id+"x + 1")
	case "statements":
		var b strings.Builder
		prev := "1"
		for i := 0; b.Len() < z.Size-40; i++ {
			id := fmt.Sprintf("t%d", i)
			fmt.Fprintf(&b, "%s = %s + 1\n", id, prev)
			prev = id
		}
		z2 := z
		z2.Form = ""
		return b.String() + strings.Repeat(" ", max(0, z.Size-b.Len()-len(prev)-7)) + "return " + prev
	}
	// A long sum.
	var b strings.Builder
	b.WriteString("1")
	for b.Len() < z.Size-3 {
		b.WriteString(" + 1")
	}
	return b.String() + strings.Repeat(" ", max(0, z.Size-b.Len()))
}

func checkSized(w *mc.W, z Sized) error {
	src := z.text()
	w.Max("text-bytes", len(src))
	switch z.Via {
	case "reader":
		return checkDelivery(w, Delivery{Src: src, End: "after"})
	case "bytes":
		d := Delivery{Src: src, End: "after"}
		for i := 1; i < len(src); i++ {
			d.Cuts = append(d.Cuts, i)
		}
		return checkDelivery(w, d)
	case "file":
		dir, err := os.MkdirTemp(os.Getenv("VERIF_BUILD"), "c03")
		if err != nil {
			return nil
		}
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "script.acc")
		if os.WriteFile(name, []byte(src), 0o600) != nil {
			return nil
		}
		return checkVia(w, src, func(string) (*ast.Chain, error) { return parse.File(name) },
			func(string) (*ir.Program, error) { return acc.LoadFile(name) })
	}
	return check(w, src)
}

func sizes() *mc.Family {
	return mc.NewFamily("sizes", "texts of 2^k+d bytes, k = 5..17 (19), |d| <= 1 (one long sum or thousands of statements up to 2^14 (2^15)): blanks, names, sums, statements, accepted and refused for what comes last; from a string, a file, a reader, and a reader that delivers single bytes",
		func(t mc.Tier) []mc.Gen[Sized] {
			return mc.Shards("sizes", 32, func(shard, n int, yield func(Sized)) {
				cnt := 0
				for k := t.Pick(17, 19); k >= 5; k-- {
					for d := 1; d >= -1; d-- {
						for _, f := range []string{"blanks", "tabs-end", "blanks-then-undefined", "blanks-then-outside", "name", "name-differs", "statements", "sum"} {
							if (f == "statements" || f == "sum") && k > t.Pick(14, 15) {
								continue
							}
							for _, v := range []string{"string", "file", "reader", "bytes"} {
								if cnt++; enum.Mine(cnt, shard, n) {
									yield(Sized{f, 1<<k + d, v})
								}
							}
						}
					}
				}
			})
		}, checkSized)
}
