package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mmcloughlin/addchain/internal/gen"
	"github.com/mmcloughlin/addchain/verifmc/cli"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// checkCommand judges `addchain gen` on a text, for every builtin output, with
// the text on standard input and in a file, and the output on standard output
// and in a new and an existing file.
func checkCommand(w *mc.W, src string) error {
	s, ok := ref.ParseScript(src)
	if !ok {
		return fmt.Errorf("harness: text is outside the grammar")
	}
	m, meaning := ref.EvalScript(s)
	dir, err := os.MkdirTemp("", "c06")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "script.acc")
	if err := os.WriteFile(file, []byte(src), 0o600); err != nil {
		return err
	}
	run := func(in string, args ...string) (*cli.Result, error) {
		r, err := cli.Run(cli.Limits{}, in, append([]string{"gen"}, args...)...)
		if err != nil {
			return nil, err
		}
		w.Trace(1)
		if err := r.Crashed(); err != nil {
			return nil, fmt.Errorf("gen %s: %w", strings.Join(args, " "), err)
		}
		return r, nil
	}
	first, err := run(src)
	if err != nil {
		return err
	}
	if first.Code != 0 {
		w.Outcome("refused")
		return nil
	}
	if meaning != nil {
		return fmt.Errorf("accepted a script with: %v\n%s", meaning, first.Stdout)
	}
	judge := func(how, typ, text string) error {
		var err error
		switch typ {
		case "listing":
			err = listing(w, text, allocs[0], m)
		case "chain":
			err = chain(text, m)
		case "ops":
			err = opslist(text, m)
		case "script":
			err = script(text, m)
		}
		if err != nil {
			return fmt.Errorf("%s: %s: %w\n%s", how, typ, err, text)
		}
		return nil
	}
	if err := judge("by default", "listing", first.Stdout); err != nil {
		return err
	}
	for k, typ := range []string{"listing", "chain", "ops", "script"} {
		// An accepted script is accepted for every output.
		r, err := run(src, "-type", typ)
		if err != nil {
			return err
		}
		if r.Code != 0 {
			w.Outcome("refused-" + typ)
			continue
		}
		if err := judge("standard input", typ, r.Stdout); err != nil {
			return err
		}
		// From a file, into a file which may exist and be longer.
		out := filepath.Join(dir, "out")
		if k%2 == 0 {
			if err := os.WriteFile(out, []byte(strings.Repeat("add\tz\tz\tx\n", len(r.Stdout)+1)), 0o600); err != nil {
				return err
			}
		} else {
			os.Remove(out)
		}
		f, err := run("", "-type", typ, "-out", out, file)
		if err != nil {
			return err
		}
		if f.Code != 0 {
			return fmt.Errorf("refused for %s from a file into a file: %s", typ, f.Stderr)
		}
		b, err := os.ReadFile(out)
		if err != nil {
			return err
		}
		if err := judge("into a file", typ, string(b)); err != nil {
			return err
		}
		if f.Stdout != "" {
			return fmt.Errorf("also prints %q", f.Stdout)
		}
		// The builtin template given as a file.
		text, err := gen.BuiltinTemplate(typ)
		if err != nil {
			return err
		}
		tmpl := filepath.Join(dir, "tmpl")
		if err := os.WriteFile(tmpl, []byte(text), 0o600); err != nil {
			return err
		}
		t, err := run("", "-type", "chain", "-tmpl", tmpl, file)
		if err != nil {
			return err
		}
		if t.Code != 0 {
			return fmt.Errorf("refused for the %s template from a file: %s", typ, t.Stderr)
		}
		if err := judge("template from a file", typ, t.Stdout); err != nil {
			return err
		}
	}
	w.Outcome("accepted")
	return nil
}

func commands() *mc.Family {
	return mc.NewFamily("gen-command", "the built tool: gen of every type from standard input and from a file, to standard output and over a file, and with the template from a file: every script, valid or not, of one statement with up to 2 (3) operators, two with up to 1 (2), every program of up to 2 (3) instructions in four styles, and long scripts",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("command", 32, func(shard, n int, yield func(string)) {
				all := func(s ref.Script) { yield(s.Text()) }
				enum.Scripts(enum.ScriptSpace{
					Statements: 1, Ops: t.Pick(2, 3), Operands: enum.Operands([]uint64{0, 1}, nil), Shifts: []uint64{0, 3},
				}, shard, n, all)
				enum.Scripts(enum.ScriptSpace{
					Statements: 2, Ops: 1, Operands: enum.Operands([]uint64{0, 2}, []string{"a"}), Names: []string{"a"}, Shifts: []uint64{3},
				}, shard, n, all)
				enum.Insts(enum.InstSpace{Max: t.Pick(2, 3), Shifts: []int{2}}, shard, n, func(p []ref.Inst) {
					for style := 0; style < 4; style++ {
						yield(write(p, style))
					}
				})
				cnt := 0
				for _, c := range []int{3, 9, 10, 11, 60, 100, 101, 128} {
					enum.Words(4, 1, func(word []int) {
						for order := 0; order < 4; order++ {
							if cnt%n == shard {
								if p := enum.Pressure(c, word, order, c%2 == 0); len(p) > 0 {
									yield(write(p, c%3))
								}
							}
							cnt++
						}
					})
				}
			})
		}, checkCommand)
}
