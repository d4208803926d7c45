package main

import (
	"fmt"
	"strings"

	"github.com/mmcloughlin/addchain/verifmc/cli"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// checkSearch judges the names in the script the search command prints, and in
// what `addchain fmt -b` makes of it without its names.
func checkSearch(w *mc.W, expr string) error {
	text, err := tool("", "search", expr)
	if err != nil {
		return err
	}
	for _, how := range []string{"search", "fmt -b"} {
		s, ok := ref.ParseScript(text)
		if !ok {
			return fmt.Errorf("%s prints a script outside the grammar:\n%s", how, text)
		}
		m, err := ref.EvalScript(s)
		if err != nil {
			return fmt.Errorf("%s: %w\n%s", how, err, text)
		}
		if err := names(w, s, m.Chain); err != nil {
			return fmt.Errorf("%s: %w\n%s", how, err, text)
		}
		w.Trace(1)
		if how == "fmt -b" {
			break
		}
		// The same chain, one operation and no name at a time.
		var b strings.Builder
		for k, o := range m.Ops {
			if k == len(m.Ops)-1 {
				fmt.Fprintf(&b, "return [%d] + [%d]\n", o[0], o[1])
			} else {
				fmt.Fprintf(&b, "v%d_ = [%d] + [%d]\n", k, o[0], o[1])
			}
		}
		if len(m.Ops) == 0 {
			break
		}
		in := b.String()
		text, err = tool(text, "fmt", "-b")
		if err != nil {
			return err
		}
		// Built from the script with names of its own, those stay and are
		// only judged to be unique, legal and absent from the last statement.
		own, err := tool(in, "fmt", "-b")
		if err != nil {
			return err
		}
		o, ok := ref.ParseScript(own)
		if !ok {
			return fmt.Errorf("fmt -b prints a script outside the grammar:\n%s", own)
		}
		if err := unique(o); err != nil {
			return fmt.Errorf("fmt -b: %w\n%s", err, own)
		}
	}
	return nil
}

func tool(in string, args ...string) (string, error) {
	r, err := cli.Run(cli.Limits{Timeout: 300e9}, in, args...)
	if err != nil {
		return "", err
	}
	if err := r.Crashed(); err != nil {
		return "", err
	}
	if r.Code != 0 {
		return "", fmt.Errorf("%s: %s", strings.Join(args, " "), r.Stderr)
	}
	return r.Stdout, nil
}

func commands() *mc.Family {
	return mc.NewFamily("search-command", "the built tool: the names in the script that search prints and in that built again by fmt -b, for every target up to 48 (400), and 2^e+d, periodic and run patterns up to 256 bits",
		func(t mc.Tier) []mc.Gen[string] {
			return mc.Shards("search", 32, func(shard, n int, yield func(string)) {
				cnt := 0
				emit := func(x string) {
					if cnt++; enum.Mine(cnt, shard, n) {
						yield(x)
					}
				}
				for x := 1; x <= t.Pick(48, 400); x++ {
					emit(fmt.Sprint(x))
				}
				for _, e := range []uint{31, 64, 128, 192, 255} {
					for _, d := range []int64{-1, -3, -19, 0} {
						emit(ref.Pow2(e, d).String())
					}
				}
				bits := []int{40, 129}
				if t == mc.Thorough {
					bits = []int{24, 40, 65, 129, 256}
				}
				for _, l := range bits {
					for _, word := range []string{"10", "110", "1000", "11010", "111111110", "1111000"} {
						emit("0b" + strings.Repeat(word, l/len(word)) + "1")
					}
				}
			})
		}, checkSearch)
}
