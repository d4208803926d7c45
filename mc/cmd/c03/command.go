package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"

	"github.com/mmcloughlin/addchain/verifmc/cli"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// checkCommand judges `addchain eval` on a text, from standard input and from a
// file.
func checkCommand(w *mc.W, src string) error {
	want, ok := ref.ParseScript(src)
	var m *ref.Meaning
	var meaning error
	if ok {
		for _, st := range want {
			if hugeShift(st.E) {
				w.Outcome("skipped")
				return nil
			}
		}
		m, meaning = ref.EvalScript(want)
	}
	dir, err := os.MkdirTemp("", "c03")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "script.acc")
	if err := os.WriteFile(file, []byte(src), 0o600); err != nil {
		return err
	}
	for _, from := range []string{"", file} {
		args, in := []string{"eval"}, src
		if from != "" {
			args, in = []string{"eval", from}, ""
		}
		r, err := cli.Run(cli.Limits{}, in, args...)
		if err != nil {
			return err
		}
		if err := r.Crashed(); err != nil {
			return err
		}
		w.Trace(1)
		if !ok || meaning != nil {
			if r.Code == 0 {
				return fmt.Errorf("accepted, but outside the grammar or: %v\n%s", meaning, r.Stdout)
			}
			if r.Stdout != "" {
				return fmt.Errorf("rejected, but prints\n%s", r.Stdout)
			}
			w.Outcome("rejected")
			continue
		}
		if r.Code != 0 {
			if m.ZeroShift || m.Future {
				w.Outcome("rejected-unspecified")
				continue
			}
			return fmt.Errorf("a valid script is rejected: %s", r.Stderr)
		}
		ops, values, doubles, adds, err := cli.Listing(r.Stdout, "")
		if err != nil {
			return err
		}
		got := make([]ref.Op, len(ops))
		d := 0
		for i, o := range ops {
			got[i] = ref.Op(o)
			if o[0] == o[1] {
				d++
			}
		}
		if !ref.SameOps(got, m.Ops) || !ref.Equal(values, m.Chain[1:]) {
			return fmt.Errorf("lists operations %v and values %v, want %v and %v", ops, values, m.Ops, m.Chain[1:])
		}
		if doubles != d || adds != len(ops)-d {
			return errors.New("the totals are not those of the listing:\n" + r.Stdout)
		}
		w.Outcome("accepted")
	}
	return nil
}

func commands() *mc.Family {
	return mc.NewFamily("eval-command", "the built tool: eval from standard input and from a file on every sequence of up to 2 (3) of 20 lexical atoms and up to 3 (4) of 8, every script of one statement with up to 2 operators and two with 1 (2), and every sample with a byte removed, doubled or put before another one",
		func(t mc.Tier) []mc.Gen[string] {
			return append(append(tokenPlan(tokens, 0, 2, 3)(t), tokenPlan([]string{"1", "+", "<<", "3", "a", "=", "\n", "["}, 3, 3, 4)(t)...), mc.Shards("command", 32, func(shard, n int, yield func(string)) {
				all := func(s ref.Script) { yield(s.Text()) }
				enum.Scripts(enum.ScriptSpace{
					Statements: 1, Ops: 2, Operands: enum.Operands([]uint64{0, 1, 5}, []string{"a"}), Shifts: []uint64{0, 3},
				}, shard, n, all)
				enum.Scripts(enum.ScriptSpace{
					Statements: 2, Ops: t.Pick(1, 2), Operands: enum.Operands([]uint64{0, 2}, []string{"a"}), Names: []string{"a"}, Shifts: []uint64{3},
				}, shard, n, all)
				for k, src := range samples {
					for i := 0; i <= len(src); i++ {
						if !enum.Mine(i+k, shard, n) {
							continue
						}
						if i < len(src) {
							yield(src[:i] + src[i+1:])
							yield(src[:i+1] + src[i:])
						}
						for _, c := range []string{"\n", "\v", "\x00", "\xef\xbb\xbf", "\u00a0", "\r\n"} {
							yield(src[:i] + c + src[i:])
						}
					}
				}
			})...)
		}, checkCommand)
}
