package main

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
)

// Versions are the successive contents of one file.
type Versions struct {
	Srcs []string
	How  string // "write" in place, or "rename" another file over it
}

func checkVersions(w *mc.W, v Versions) error {
	dir, err := os.MkdirTemp("", "c03-")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "a.acc")
	if _, err := acc.LoadFile(file); err == nil {
		return fmt.Errorf("load succeeds without a file")
	}
	for i, src := range v.Srcs {
		dest := file
		if v.How == "rename" {
			dest = file + ".new"
		}
		if err := os.WriteFile(dest, []byte(src), 0o600); err != nil {
			return err
		}
		// As if all were written at once.
		if err := os.Chtimes(dest, time.Unix(1e9, 0), time.Unix(1e9, 0)); err != nil {
			return err
		}
		if dest != file {
			if err := os.Rename(dest, file); err != nil {
				return err
			}
		}
		for n := 0; n < 2; n++ {
			// The text is passed for the oracle; what is loaded is the file.
			if err := checkVia(w, src, parseFile(file), loadFile(file)); err != nil {
				return fmt.Errorf("version %d, time %d: %w", i, n, err)
			}
		}
	}
	if err := os.Remove(file); err != nil {
		return err
	}
	if _, err := acc.LoadFile(file); err == nil {
		return fmt.Errorf("load succeeds after the file was removed")
	}
	if _, err := parse.File(file); err == nil {
		return fmt.Errorf("parse succeeds after the file was removed")
	}
	w.State(1)
	return nil
}

func parseFile(file string) func(string) (*ast.Chain, error) {
	return func(string) (*ast.Chain, error) { return parse.File(file) }
}

func loadFile(file string) func(string) (*ir.Program, error) {
	return func(string) (*ir.Program, error) { return acc.LoadFile(file) }
}

func versions() *mc.Family {
	texts := []string{"1 << 2", "1 << 3", "2*1", "1+1", "1+[1]", "a=2*1\na", "b=2*1\na", "a=1+1\na", "1 +", ""}
	return mc.NewFamily("file-versions", "every sequence of 1..3 (4) of 10 texts as successive contents of one file, written in place or renamed over it with the same time, each loaded twice by file name",
		func(t mc.Tier) []mc.Gen[Versions] {
			return mc.Shards("versions", 32, func(shard, n int, yield func(Versions)) {
				enum.Seqs(len(texts), 1, t.Pick(3, 4), shard, n, func(s []int) {
					for _, how := range []string{"write", "rename"} {
						v := Versions{How: how}
						for _, i := range s {
							v.Srcs = append(v.Srcs, texts[i])
						}
						yield(v)
					}
				})
			})
		}, checkVersions)
}
