package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/verifmc/cli"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/glue"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// checkSearch compares the chain the search command lists with the script it
// prints, and that with what `addchain fmt -b` makes of it.
func checkSearch(w *mc.W, expr string) error {
	r, err := cli.Run(cli.Limits{Timeout: 300e9}, "", "search", "-v", "-p", "2", expr)
	if err != nil {
		return err
	}
	if err := r.Crashed(); err != nil {
		return err
	}
	if r.Code != 0 {
		return fmt.Errorf("search %s: %s", expr, r.Stderr)
	}
	w.Trace(1)
	listed, _, _, _, err := cli.Listing(r.Stderr, "addchain: ")
	if err != nil {
		return err
	}
	want := make([]ref.Op, len(listed))
	for i, o := range listed {
		want[i] = ref.Op(o)
	}
	chain, err := ref.Eval(want)
	if err != nil {
		return fmt.Errorf("the listed operations %v: %w", listed, err)
	}
	if err := judge(r.Stdout, want, chain); err != nil {
		return fmt.Errorf("%w\nscript:\n%s", err, r.Stdout)
	}
	b, err := cli.Run(cli.Limits{}, r.Stdout, "fmt", "-b")
	if err != nil {
		return err
	}
	if b.Code != 0 {
		return fmt.Errorf("fmt -b of the script: %s", b.Stderr)
	}
	if err := judge(b.Stdout, want, chain); err != nil {
		return fmt.Errorf("fmt -b: %w\nscript:\n%s", err, b.Stdout)
	}
	w.Trace(1)
	if len(want) == 0 {
		w.Outcome("without-operations")
	} else {
		w.Outcome("with-operations")
	}
	return nil
}

// checkFile saves a program over files of several contents and loads it from
// there.
func checkFile(w *mc.W, ops enum.Ops) error {
	want := refops(ops)
	chain, err := ref.Eval(want)
	if err != nil {
		return err
	}
	dir, err := os.MkdirTemp("", "c04")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "script.acc")
	for _, before := range []string{"", "1", strings.Repeat("a = 1 + 1\n", 200)} {
		if before != "" {
			if err := os.WriteFile(file, []byte(before), 0o600); err != nil {
				return err
			}
		}
		p, err := acc.Decompile(glue.Program(ops))
		if err != nil {
			return err
		}
		if err := acc.Save(file, p); err != nil {
			return fmt.Errorf("save: %w", err)
		}
		b, err := os.ReadFile(file)
		if err != nil {
			return err
		}
		if err := judge(string(b), want, chain); err != nil {
			return fmt.Errorf("saved over a file of %d bytes: %w\n%s", len(before), err, b)
		}
		l, err := acc.LoadFile(file)
		if err != nil {
			return fmt.Errorf("load file: %w", err)
		}
		if !ref.Equal(l.Chain, chain) || !ref.SameOps(glue.Ops(l.Program), want) {
			return fmt.Errorf("the file loads to %v", l.Chain)
		}
		w.Trace(1)
	}
	w.Outcome("saved")
	return nil
}

func commands() *mc.Family {
	return mc.NewFamily("search-command", "the built tool: the chain that search -v lists against the script it prints, and that built again by fmt -b, for every target up to 48 (400), and 2^e+d, periodic and run patterns up to 256 bits",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("search", 32, func(shard, n int, yield func(string)) {
				cnt := 0
				emit := func(x string) {
					if cnt++; enum.Mine(cnt, shard, n) {
						yield(x)
					}
				}
				for x := 1; x <= t.Pick(48, 400); x++ {
					emit(fmt.Sprint(x))
				}
				for _, e := range []uint{31, 64, 128, 192, 255} {
					for _, d := range []int64{-1, -3, -19, 0, 1} {
						if t == mc.Thorough || d != 1 {
							emit(ref.Pow2(e, d).String())
						}
					}
				}
				bits := []int{40, 129}
				if t == mc.Thorough {
					bits = []int{24, 40, 65, 129, 256}
				}
				for _, l := range bits {
					for _, word := range []string{"10", "110", "1000", "11010", "111111110", "1111000"} {
						emit("0b" + strings.Repeat(word, l/len(word)) + "1")
					}
				}
			})
		}, checkSearch)
}

func files() *mc.Family {
	return mc.NewFamily("files", "every program of up to 4 (5) operations saved as a file, over a shorter and over a longer one, and loaded",
		func(t mc.Tier) []mc.Gen[enum.Ops] {
			return mc.Shards("files", 32, func(shard, n int, yield func(enum.Ops)) {
				enum.Programs(t.Pick(4, 5), false, shard, n, func(o [][2]int) { yield(enum.CloneOps(o)) })
			})
		}, checkFile)
}
