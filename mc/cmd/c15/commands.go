package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/mmcloughlin/addchain/internal/gen"
	"github.com/mmcloughlin/addchain/verifmc/cli"
	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// Command is a run of the tool. The argument FILE stands for a file holding
// Stdin, and DIR for an empty directory.
type Command struct {
	Args  []string
	Stdin []byte   `json:",omitempty"`
	Env   []string `json:",omitempty"`

	// Fails is set where a result would be wrong: the run must report an error.
	Fails bool `json:",omitempty"`
}

func checkCommand(w *mc.W, c Command) error {
	w.State(1)
	w.Trace(1)
	w.Step(1)
	dir, err := os.MkdirTemp("", "c15")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	args := append([]string{}, c.Args...)
	for i, a := range args {
		switch a {
		case "FILE":
			args[i] = filepath.Join(dir, "script.acc")
			if err := os.WriteFile(args[i], c.Stdin, 0o644); err != nil {
				return err
			}
		case "DIR":
			args[i] = dir
		case "OUT":
			args[i] = filepath.Join(dir, "out")
		}
	}
	r, err := cli.Run(cli.Limits{Timeout: 30 * time.Second, Env: c.Env}, string(c.Stdin), args...)
	if err != nil {
		return err
	}
	if err := r.Crashed(); err != nil {
		return err
	}
	if c.Fails && r.Code == 0 {
		return fmt.Errorf("exit status 0 without a result: stdout %.200q stderr %.200q", r.Stdout, r.Stderr)
	}
	w.Outcome(fmt.Sprintf("exit status %d", r.Code))
	return nil
}

func searchPlan(t mc.Tier) []mc.Gen[Command] {
	cmd := func(args ...string) Command { return Command{Args: append([]string{"search"}, args...)} }
	var gs []mc.Gen[Command]

	// Expressions: every short token sequence.
	toks := []string{"0", "1", "2", "7", "-", "+", "*", "/", "^", " ", "0x", "a"}
	gs = append(gs, mc.Shards("every expression of up to 4 tokens over 12", 64, func(s, n int, y func(Command)) {
		i := 0
		enum.Seqs(len(toks), 0, t.Pick(3, 4), 0, 1, func(ix []int) {
			e := string(join(toks, ix))
			v, err := ref.Calc(e, 1<<16)
			if tooLarge(e) || (err == nil && v.BitLen() > 70) {
				return
			}
			i++
			if !enum.Mine(i, s, n) {
				return
			}
			c := cmd("--", e)
			c.Fails = err != nil && err != ref.ErrUnspecified || err == nil && v.Sign() <= 0
			y(c)
			if strings.HasPrefix(e, "-") && i%4 == 0 {
				y(cmd(e))
			}
		})
	})...)
	// Every small integer, signs included.
	gs = append(gs, mc.Shards("every integer of a range", 32, func(s, n int, y func(Command)) {
		for x := -t.Pick(40, 400) + s; x <= t.Pick(300, 3000); x += n {
			c := cmd("--", fmt.Sprint(x))
			c.Fails = x <= 0
			y(c)
			if x <= 4 {
				for _, p := range []string{"1", "64"} {
					for _, v := range []bool{false, true} {
						c := cmd("-p", p, fmt.Sprintf("-v=%v", v), "--", fmt.Sprint(x))
						c.Fails = x <= 0
						y(c)
					}
				}
			}
		}
	})...)
	// Settings.
	ps := []string{"", "-9223372036854775809", "-9223372036854775808", "-2147483649", "-2147483648", "-200", "-2", "-1", "-0", "0", "1", "2", "3", "7", "16", "64", "199", "200", "201", "202", "255", "256", "1000", "65536", "2147483647", "2147483648", "4294967296", "1152921504606846976", "4611686018427387904", "9223372036854775806", "9223372036854775807", "9223372036854775808", "abc", "1.5", "0x10", " 1", "1e3", "٣"}
	cs := []string{"", "0", "-0", "-1", "-1e300", "1", "0.5", "1e308", "1e309", "1e400", "5e-324", "1e-400", "NaN", "Inf", "-Inf", "+Inf", "nan", "infinity", "0x1p-1074", "0x1p2000", "1_000", "abc", "1e", ".", "٣"}
	ns := []string{"1", "2", "23", "0", "-3", "1/0", "x", "2^64-1"}
	gs = append(gs, mc.Shards("concurrency settings x targets", 32, func(s, n int, y func(Command)) {
		i := 0
		for _, p := range ps {
			for _, x := range ns {
				if i++; enum.Mine(i, s, n) {
					y(cmd("-p", p, "--", x))
					y(cmd("-p="+p, "-v", "--", x))
				}
			}
		}
	})...)
	gs = append(gs, mc.Shards("cost settings", 32, func(s, n int, y func(Command)) {
		i := 0
		for _, a := range cs {
			for _, d := range cs {
				if i++; enum.Mine(i, s, n) {
					y(cmd("-add", a, "-double", d, ns[i%3]))
					if i%5 == 0 || t.Pick(0, 1) == 1 {
						y(cmd("-v", "-p", ps[i%len(ps)], "-add", a, "-double", d, "--", ns[i%len(ns)]))
					}
				}
			}
		}
	})...)
	// Larger shapes, degenerate spellings, flags.
	var cmds []Command
	for _, k := range []int{31, 32, 33, 63, 64, 65, 70} {
		for _, d := range []int64{-3, -1, 0, 1, 2} {
			cmds = append(cmds, cmd(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(k)), big.NewInt(d)).String()))
		}
	}
	if t.Pick(0, 1) == 1 {
		for _, k := range []int{127, 128, 160, 192, 255, 256} {
			cmds = append(cmds, cmd(fmt.Sprintf("2^%d", k)), cmd(fmt.Sprintf("2^%d-1", k)), cmd(fmt.Sprintf("2^%d+1", k)), cmd("-p", "1", fmt.Sprintf("(2^%d)/3", k)), cmd(fmt.Sprintf("2^%d/3", k)))
		}
	} else {
		cmds = append(cmds, cmd("2^127-1"), cmd("2^128/3"))
	}
	for _, a := range [][]string{{}, {""}, {" "}, {"-h"}, {"-help"}, {"--help"}, {"-v"}, {"-v=maybe", "7"}, {"-p"}, {"-add"}, {"-double"}, {"-x", "7"}, {"7", "9"}, {"7", "-p", "0"}, {"--", "7", "extra"}, {"--"}, {"-"}, {"\x00"}, {"\xff"}, {"٣"}, {"7\n"}, {"7 7"}, {strings.Repeat("1+", 5000) + "1"}, {strings.Repeat("9", 100) + "*0+5"}, {"0x"}, {"0b"}, {"0b2"}, {"0xG"}, {"00"}, {"08"}, {"1_000"}, {"0o17"}, {"0B1"}, {"0X1"}} {
		ok := true
		for _, x := range a {
			if strings.Contains(x, "\x00") {
				ok = false // not expressible as an argument
			}
		}
		if ok {
			cmds = append(cmds, cmd(a...))
		}
	}
	gs = append(gs, mc.Shards("shapes, spellings and flags", 32, func(s, n int, y func(Command)) {
		for i, c := range cmds {
			if i%n == s {
				y(c)
			}
		}
	})...)
	return gs
}

func commandPlan(t mc.Tier) []mc.Gen[Command] {
	var gs []mc.Gen[Command]
	subs := [][]string{{"eval"}, {"fmt"}, {"fmt", "-b"}, {"gen"}}
	for _, ty := range gen.BuiltinTemplateNames() {
		subs = append(subs, []string{"gen", "-type", ty})
	}
	with := func(sub []string, extra ...string) []string { return append(append([]string{}, sub...), extra...) }

	// Every script of up to 3 (4) atoms, from standard input, plus degenerate ones.
	at := []string{"1", "[1]", "[0]", "a", "=", "+", "<< 3", "<< 0", "2*", "(", ")", "\n", "return ", " "}
	gs = append(gs, mc.Shards("every script of up to N atoms over 14", 64, func(s, n int, y func(Command)) {
		i := 0
		enum.Seqs(len(at), 0, t.Pick(3, 4), 0, 1, func(ix []int) {
			i++
			if !enum.Mine(i, s, n) {
				return
			}
			src := join(at, ix)
			sc, ok := ref.ParseScript(string(src))
			fails := !ok
			if ok {
				// The rest of the pipeline is run for scripts of the grammar.
				_, err := ref.EvalScript(sc)
				for _, sub := range subs {
					y(Command{Args: sub, Stdin: src, Fails: err != nil && sub[0] != "fmt"})
				}
				return
			}
			y(Command{Args: subs[i%len(subs)], Stdin: src, Fails: fails})
		})
	})...)
	deep := t.Pick(2500, 10000)
	var scripts []string
	scripts = append(scripts, samples...)
	scripts = append(scripts, "", "\n", "return", "a = 1\nreturn a\n", "a=[0]\nb=[0]\na+b", "a = b\nreturn a", "a = 1\na = 1\nreturn a", "return [5]", "return [5] + 1", "a = [7]\nreturn 1 + 1", "return 1 << 10000", "a = 1 << 10000\nreturn a + [5000]", "x = 1 + 1\nz = x + 1\nt0 = z + x\nreturn t0 + t0", "return 1 << 18446744073709551616", "return [9223372036854775808] + 1", "return [18446744073709551615]", "return (1", "return 1)", "\x00\x01", "\xff\xfe", strings.Repeat("(", 50000), "return "+strings.Repeat("(", deep)+"1"+strings.Repeat(")", deep), "return "+strings.Repeat("(", 100000)+"1"+strings.Repeat(")", 100000), "return 1"+strings.Repeat(" + 1", 5000), strings.Repeat("x", 1<<20), strings.Repeat("\n", 1<<16)+"1", "i1 = 1 + 1\ni2 = i1 + 1\nreturn i2 + i1", "dbl = 1\nreturn dbl", "return = 1\nreturn", "add = 1 + 1\nreturn add add add", "shl = 1\nshl shl 1")
	gs = append(gs, mc.Shards("degenerate scripts x commands x file and standard input", 32, func(s, n int, y func(Command)) {
		i := 0
		for _, src := range scripts {
			for _, sub := range subs {
				if i++; enum.Mine(i, s, n) {
					y(Command{Args: sub, Stdin: []byte(src)})
					y(Command{Args: with(sub, "FILE"), Stdin: []byte(src)})
				}
			}
		}
	})...)
	if t.Pick(0, 1) == 1 {
		gs = append(gs, mc.Shards("every single byte edit over 12 bytes of sample scripts", 64, func(s, n int, y func(Command)) {
			i := 0
			bytealpha = "1[](=+< \n2*a"
			defer func() { bytealpha = "" }()
			for _, src := range samples {
				edits(src, func(b []byte) {
					if i++; enum.Mine(i, s, n) {
						y(Command{Args: subs[i/n%len(subs)], Stdin: append([]byte{}, b...)})
					}
				})
			}
		})...)
	}

	// Arguments.
	var cmds []Command
	ok := []byte("a = 2*1\nreturn a << 3 + 1\n")
	for _, sub := range append(subs, []string{"cite"}, []string{"version"}, []string{"help"}, []string{"commands"}, []string{"flags"}, []string{"nonesuch"}) {
		for _, extra := range [][]string{{}, {"DIR"}, {"/nonexistent/file"}, {""}, {"-"}, {"-h"}, {"-help"}, {"-x"}, {"--"}, {"--", "FILE"}, {"FILE", "FILE"}, {"FILE", "-b"}, {"-b"}, {"-b=maybe"}, {"-type"}, {"-type", ""}, {"-type", "nonesuch", "FILE"}, {"-tmpl", "/nonexistent/file", "FILE"}, {"-tmpl", "DIR", "FILE"}, {"-tmpl", "FILE", "FILE"}, {"-out", "DIR", "FILE"}, {"-out", "/nonexistent/dir/out", "FILE"}, {"-out", "OUT", "FILE"}, {"-out", "/dev/full", "FILE"}, {"-out", "", "FILE"}, {"-out", "FILE", "FILE"}, {"search"}, {"eval"}, {"fmt"}, {"gen"}, {"cite"}, {"\xff"}} {
			cmds = append(cmds, Command{Args: with(sub, extra...), Stdin: ok})
			cmds = append(cmds, Command{Args: with(sub, extra...)})
		}
	}
	for _, a := range [][]string{{}, {""}, {"-h"}, {"-help"}, {"-x"}, {"--"}, {"-", "-"}, {"--", "search", "7"}, {"-v", "search", "7"}, {"SEARCH", "7"}, {"help", "search"}, {"help", "nonesuch"}} {
		cmds = append(cmds, Command{Args: a, Stdin: ok})
	}
	// Templates, which are scripts too as far as gen is concerned.
	for _, tm := range []string{"", "{{", "{{.}}", "{{.Nonesuch}}", "{{index .Chain 1000}}", "{{index .Chain -1}}", "{{range .Program.Instructions}}{{.Op}}{{end}}", "{{define \"x\"}}{{template \"x\"}}{{end}}{{template \"x\"}}", "{{add 1}}", "{{format .Chain}}", "{{format 3}}", "{{split 1 2}}", "{{inc \"a\"}}", "{{lines .Script}}", "{{join .Chain \"\"}}", "{{with .Meta}}{{.}}{{end}}", "\xff\x00", strings.Repeat("{{if true}}", 3000)} {
		cmds = append(cmds, Command{Args: []string{"gen", "-tmpl", "FILE"}, Stdin: []byte(tm)})
		cmds = append(cmds, Command{Args: []string{"gen", "-tmpl", "FILE", "FILE"}, Stdin: []byte(tm)})
	}
	gs = append(gs, mc.Shards("argument vectors", 32, func(s, n int, y func(Command)) {
		for i, c := range cmds {
			if i%n == s {
				y(c)
			}
		}
	})...)
	return gs
}

// largePlan is scripts whose values are long.
func largePlan(t mc.Tier) []mc.Gen[Command] {
	return mc.Shards("shift amounts", 32, func(s, n int, y func(Command)) {
		i := 0
		for _, k := range []int{4095, 4096, 8191, 8192, 8193, 12000, 16383, 16384, 16385, 20000, 25000, t.Pick(28000, 32769)} {
			for _, src := range []string{"return 1 << %d", "a = 1 << %d\nreturn 1 + a", "a = 1 << 5 + [3]\nreturn a << %d"} {
				for _, sub := range [][]string{{"eval"}, {"gen"}, {"gen", "-type", "ops"}, {"fmt", "-b"}} {
					if i++; enum.Mine(i, s, n) {
						y(Command{Args: sub, Stdin: []byte(fmt.Sprintf(src, k))})
					}
				}
			}
		}
	})
}
