From c7d6cd9681f655053fabee24a568a5f41cb8721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 01/16] fix: return an error for division by zero in
 expressions

---
 internal/calc/calc.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/calc/calc.go b/internal/calc/calc.go
index 71eed0c..f4b97fa 100644
--- a/internal/calc/calc.go
+++ b/internal/calc/calc.go
@@ -21,6 +21,9 @@ type operator struct {
 	precedence    int
 	associativity associativity
 	apply         func(*big.Int, *big.Int, *big.Int) *big.Int
+
+	// nonzero requires the right operand to be non-zero.
+	nonzero bool
 }
 
 // operators supported by the calculator.
@@ -70,6 +73,10 @@ func (y *yard) apply(op operator) error {
 		return errors.New("too few operands")
 	}
 
+	if op.nonzero && y.operands[n-1].Sign() == 0 {
+		return errors.New("division by zero")
+	}
+
 	z := new(big.Int)
 	op.apply(z, y.operands[n-2], y.operands[n-1])
 	y.operands = append(y.operands[:n-2], z)
@@ -132,6 +139,7 @@ func Eval(expr string) (*big.Int, error) {
 		if !ok {
 			return nil, errors.New("expected operator")
 		}
+		op.nonzero = b[0] == '/'
 		if err := y.operator(op); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From d9894a24597e467433f07ed01943c9e4825388ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 02/16] fix: search reports an error for zero and negative
 targets

---
 cmd/addchain/search.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/addchain/search.go b/cmd/addchain/search.go
index 434e484..cee084b 100644
--- a/cmd/addchain/search.go
+++ b/cmd/addchain/search.go
@@ -69,6 +69,11 @@ func (cmd *search) Execute(_ context.Context, f *flag.FlagSet, _ ...interface{})
 	cmd.Log.Printf("hex: %x", n)
 	cmd.Log.Printf("dec: %s", n)
 
+	// Addition chains only exist for positive integers.
+	if n.Sign() <= 0 {
+		return cmd.Fail("target must be positive: got %s", n)
+	}
+
 	// Execute an ensemble of algorithms.
 	ex := exec.NewParallel()
 	if cmd.verbose {
-- 
2.43.0


From 1f79942217d6050848154aabadcd0ff150874bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 03/16] fix: search handles non-positive and very large
 concurrency settings

---
 alg/exec/exec.go       | 5 +++++
 cmd/addchain/search.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/alg/exec/exec.go b/alg/exec/exec.go
index 54935e7..6d9737c 100644
--- a/alg/exec/exec.go
+++ b/alg/exec/exec.go
@@ -76,6 +76,11 @@ func (p *Parallel) SetLogger(l *log.Logger) {
 func (p Parallel) Execute(n *big.Int, as []alg.ChainAlgorithm) []Result {
 	rs := make([]Result, len(as))
 
+	// There is no use for more tokens than algorithms.
+	if p.limit > len(as) {
+		p.limit = len(as)
+	}
+
 	// Use buffered channel to limit concurrency.
 	type token struct{}
 	sem := make(chan token, p.limit)
diff --git a/cmd/addchain/search.go b/cmd/addchain/search.go
index cee084b..b005d7d 100644
--- a/cmd/addchain/search.go
+++ b/cmd/addchain/search.go
@@ -58,6 +58,10 @@ func (cmd *search) Execute(_ context.Context, f *flag.FlagSet, _ ...interface{})
 	}
 	expr := f.Arg(0)
 
+	if cmd.concurrency < 1 {
+		return cmd.UsageError("concurrency must be at least 1: got %d", cmd.concurrency)
+	}
+
 	// Evaluate expression.
 	cmd.Log.Printf("expr: %q", expr)
 
-- 
2.43.0


From d54205bef85b1c14d2e7a76bfde483610401a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 04/16] fix: build a script for the program without
 instructions

---
 acc/build.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/acc/build.go b/acc/build.go
index 38adda3..f1a1c2c 100644
--- a/acc/build.go
+++ b/acc/build.go
@@ -51,6 +51,13 @@ func newbuilder(p *ir.Program) *builder {
 func (b *builder) process() error {
 	insts := b.prog.Instructions
 	n := len(insts)
+
+	// Without instructions this is the trivial chain, consisting only of 1.
+	if n == 0 {
+		b.chain.Statements = append(b.chain.Statements, ast.Statement{Expr: ast.Operand(0)})
+		return nil
+	}
+
 	complexity := 0
 	for i := 0; i < n; i++ {
 		complexity++
-- 
2.43.0


From 73349b9e297da00ae7a28aeb63e24510f0e92334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 05/16] fix: allocator returns an error for a program without
 instructions

---
 acc/pass/alloc.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acc/pass/alloc.go b/acc/pass/alloc.go
index 812df5a..5a22e2c 100644
--- a/acc/pass/alloc.go
+++ b/acc/pass/alloc.go
@@ -1,6 +1,7 @@
 package pass
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/mmcloughlin/addchain/acc/ir"
@@ -24,6 +25,11 @@ type Allocator struct {
 
 // Execute performs temporary variable allocation.
 func (a Allocator) Execute(p *ir.Program) error {
+	// There is no output to allocate in a program without instructions.
+	if len(p.Instructions) == 0 {
+		return errors.New("cannot allocate temporaries for a program without instructions")
+	}
+
 	// Canonicalize operands, collect unique indexes, and delete all names.
 	if err := Exec(p, Func(CanonicalizeOperands), Func(Indexes), Func(ClearNames)); err != nil {
 		return err
-- 
2.43.0


From aa36f5ee8a00fe40f520bf3876b1ac0e734fcb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 06/16] fix: print parentheses around nested operators where
 the grammar needs them

---
 acc/printer/printer.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/acc/printer/printer.go b/acc/printer/printer.go
index 96e8baa..7076fa6 100644
--- a/acc/printer/printer.go
+++ b/acc/printer/printer.go
@@ -78,6 +78,16 @@ func (p *printer) statement(stmt ast.Statement) {
 }
 
 func (p *printer) expr(e, parent ast.Expr) {
+	// Double and shift only apply to base expressions, so any operator below
+	// them needs parens.
+	switch parent.(type) {
+	case ast.Double, ast.Shift:
+		if ast.IsOp(e) {
+			p.parens(e)
+			return
+		}
+	}
+
 	// Parens required if the precence of this operator is less than its parent.
 	if parent != nil && e.Precedence() < parent.Precedence() {
 		p.Printf("(")
@@ -102,9 +112,22 @@ func (p *printer) expr(e, parent ast.Expr) {
 	}
 }
 
+func (p *printer) parens(e ast.Expr) {
+	p.Printf("(")
+	p.expr(e, nil)
+	p.Printf(")")
+}
+
 func (p *printer) add(a ast.Add) {
 	p.expr(a.X, a)
 	p.Printf(" + ")
+
+	// Addition is left-associative.
+	if _, ok := a.Y.(ast.Add); ok {
+		p.parens(a.Y)
+		return
+	}
+
 	p.expr(a.Y, a)
 }
 
-- 
2.43.0


From fdb2e87faa692c7121c400713ebf61508c9d5fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 07/16] fix: print index literals above the signed range as
 they were written

---
 acc/printer/printer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acc/printer/printer.go b/acc/printer/printer.go
index 7076fa6..eae96a6 100644
--- a/acc/printer/printer.go
+++ b/acc/printer/printer.go
@@ -148,6 +148,9 @@ func (p *printer) identifier(name ast.Identifier) {
 func (p *printer) operand(op ast.Operand) {
 	if op == 0 {
 		p.Printf("1")
+	} else if op < 0 {
+		// Index literals are unsigned.
+		p.Printf("[%d]", uint(op))
 	} else {
 		p.Printf("[%d]", op)
 	}
-- 
2.43.0


From cf4857b02d6f5699d73be1b95db23fc24abce863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 08/16] fix: gen refuses scripts that read a value no
 instruction outputs

---
 internal/gen/gen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 46a7775..c322299 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -56,6 +56,12 @@ func PrepareData(cfg Config, s *ast.Chain) (*Data, error) {
 		return nil, err
 	}
 
+	// Allocation and generation require every value to be output by some
+	// instruction.
+	if err := pass.Validate.Execute(p); err != nil {
+		return nil, err
+	}
+
 	// Apply processing passes: temporary variable allocation, and computing the
 	// full addition chain sequence and operations.
 	if err := pass.Exec(p, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
-- 
2.43.0


From 359e720e6a8b42fc1b2bd05a8f8154a7e180face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 09/16] fix: translate shift by zero to its operand

---
 acc/translate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acc/translate.go b/acc/translate.go
index 91bfcf1..2d4407d 100644
--- a/acc/translate.go
+++ b/acc/translate.go
@@ -110,6 +110,11 @@ func (s *state) shift(sh ast.Shift) (*ir.Operand, error) {
 		return nil, err
 	}
 
+	// Shift by zero is the identity: it does not produce a new element.
+	if sh.S == 0 {
+		return x, nil
+	}
+
 	s.n += int(sh.S)
 	out := ir.Index(s.n - 1)
 	inst := &ir.Instruction{
-- 
2.43.0


From 6cc97540b7f3f71c532b4cb6d92a6a40aaab9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 10/16] fix: parse nested parentheses in linear time

---
 acc/parse/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acc/parse/parse.go b/acc/parse/parse.go
index 8523e14..5b7eaf4 100644
--- a/acc/parse/parse.go
+++ b/acc/parse/parse.go
@@ -13,13 +13,13 @@ import (
 
 // File parses filename.
 func File(filename string) (*ast.Chain, error) {
-	return cast(parser.ParseFile(filename))
+	return cast(parser.ParseFile(filename, parser.Memoize(true)))
 }
 
 // Reader parses the data from r using filename as information in
 // error messages.
 func Reader(filename string, r io.Reader) (*ast.Chain, error) {
-	return cast(parser.ParseReader(filename, r))
+	return cast(parser.ParseReader(filename, r, parser.Memoize(true)))
 }
 
 // String parses s.
-- 
2.43.0


From d56593ca2f77ffb12615813136b101bf24b295a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 11/16] fix: refuse oversized run lengths before building the
 runs chain

---
 alg/dict/runs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/alg/dict/runs.go b/alg/dict/runs.go
index 5277be4..b975313 100644
--- a/alg/dict/runs.go
+++ b/alg/dict/runs.go
@@ -84,6 +84,12 @@ func RunsChain(lc addchain.Chain) (addchain.Chain, error) {
 		return nil, err
 	}
 
+	for _, l := range lc {
+		if !l.IsUint64() {
+			return nil, errors.New("values in lengths chain are far too large")
+		}
+	}
+
 	c := addchain.New()
 	s := map[uint]uint{} // current largest shift of each run length
 	for _, op := range p {
-- 
2.43.0


From 5bb8a8059329a3d241ec5fd4281eeb787b88d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 12/16] fix: fixed and sliding windows handle window sizes
 beyond the signed range

---
 alg/dict/dict.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/alg/dict/dict.go b/alg/dict/dict.go
index 08a1fa0..cf14e51 100644
--- a/alg/dict/dict.go
+++ b/alg/dict/dict.go
@@ -82,6 +82,12 @@ func (w FixedWindow) String() string { return fmt.Sprintf("fixed_window(%d)", w.
 
 // Decompose represents x in terms of k-bit windows from left to right.
 func (w FixedWindow) Decompose(x *big.Int) Sum {
+	// Larger windows than x are all equivalent. Note this also ensures the window
+	// size is representable as a signed integer.
+	if w.K > uint(x.BitLen()) {
+		w.K = uint(x.BitLen())
+	}
+
 	sum := Sum{}
 	h := x.BitLen()
 	for h > 0 {
@@ -107,6 +113,12 @@ func (w SlidingWindow) String() string { return fmt.Sprintf("sliding_window(%d)"
 
 // Decompose represents x in base 2ᵏ.
 func (w SlidingWindow) Decompose(x *big.Int) Sum {
+	// Larger windows than x are all equivalent. Note this also ensures the window
+	// size is representable as a signed integer.
+	if w.K > uint(x.BitLen()) {
+		w.K = uint(x.BitLen())
+	}
+
 	sum := Sum{}
 	h := x.BitLen() - 1
 	for h >= 0 {
-- 
2.43.0


From e201b705c2b106808923683cbae890176843a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 13/16] fix: refuse expressions nested too deeply for the
 parser's stack

---
 acc/parse/parse.go | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/acc/parse/parse.go b/acc/parse/parse.go
index 5b7eaf4..03d6f9b 100644
--- a/acc/parse/parse.go
+++ b/acc/parse/parse.go
@@ -2,24 +2,43 @@
 package parse
 
 import (
+	"fmt"
 	"io"
+	"os"
 	"strings"
 
 	"github.com/mmcloughlin/addchain/acc/ast"
 	"github.com/mmcloughlin/addchain/acc/parse/internal/parser"
+	"github.com/mmcloughlin/addchain/internal/errutil"
 )
 
 //go:generate pigeon -o internal/parser/zparser.go acc.peg
 
+// maxdepth is the maximum supported depth of nested parentheses. The parser is
+// recursive, so the stack would overflow on deeper expressions.
+const maxdepth = 10000
+
 // File parses filename.
-func File(filename string) (*ast.Chain, error) {
-	return cast(parser.ParseFile(filename, parser.Memoize(true)))
+func File(filename string) (c *ast.Chain, err error) {
+	f, err := os.Open(filename)
+	if err != nil {
+		return nil, err
+	}
+	defer errutil.CheckClose(&err, f)
+	return Reader(filename, f)
 }
 
 // Reader parses the data from r using filename as information in
 // error messages.
 func Reader(filename string, r io.Reader) (*ast.Chain, error) {
-	return cast(parser.ParseReader(filename, r, parser.Memoize(true)))
+	b, err := io.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	if depth(b) > maxdepth {
+		return nil, fmt.Errorf("%s: expressions nested more than %d deep", filename, maxdepth)
+	}
+	return cast(parser.Parse(filename, b, parser.Memoize(true)))
 }
 
 // String parses s.
@@ -33,3 +52,20 @@ func cast(i interface{}, err error) (*ast.Chain, error) {
 	}
 	return i.(*ast.Chain), nil
 }
+
+// depth returns the maximum depth of nested parentheses in b.
+func depth(b []byte) int {
+	max, cur := 0, 0
+	for _, c := range b {
+		switch {
+		case c == '(':
+			cur++
+		case c == ')' && cur > 0:
+			cur--
+		}
+		if cur > max {
+			max = cur
+		}
+	}
+	return max
+}
-- 
2.43.0


From 0b9e6e98eefac9888691d9bb5730fff7138a46b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 14/16] fix: a failed compile leaves no partial program behind

---
 acc/pass/eval.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/acc/pass/eval.go b/acc/pass/eval.go
index 2dd85b1..6d034aa 100644
--- a/acc/pass/eval.go
+++ b/acc/pass/eval.go
@@ -15,18 +15,18 @@ func Compile(p *ir.Program) error {
 		return nil
 	}
 
-	p.Program = addchain.Program{}
+	c := addchain.Program{}
 	for _, i := range p.Instructions {
 		var out int
 		var err error
 
 		switch op := i.Op.(type) {
 		case ir.Add:
-			out, err = p.Program.Add(op.X.Index, op.Y.Index)
+			out, err = c.Add(op.X.Index, op.Y.Index)
 		case ir.Double:
-			out, err = p.Program.Double(op.X.Index)
+			out, err = c.Double(op.X.Index)
 		case ir.Shift:
-			out, err = p.Program.Shift(op.X.Index, op.S)
+			out, err = c.Shift(op.X.Index, op.S)
 		default:
 			return errutil.UnexpectedType(op)
 		}
@@ -39,6 +39,7 @@ func Compile(p *ir.Program) error {
 		}
 	}
 
+	p.Program = c
 	return nil
 }
 
-- 
2.43.0


From 47fef5e119bbdf00bd56bf7e5a4498e0df302493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 15/16] fix: reject expressions with a missing last operand
 before evaluating them

---
 internal/calc/calc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/calc/calc.go b/internal/calc/calc.go
index f4b97fa..b18f67c 100644
--- a/internal/calc/calc.go
+++ b/internal/calc/calc.go
@@ -146,6 +146,9 @@ func Eval(expr string) (*big.Int, error) {
 		b = b[1:]
 		operand = true
 	}
+	if operand {
+		return nil, errors.New("expected number")
+	}
 	return y.result()
 }
 
-- 
2.43.0


From 68c72a6a93806a49d2781a5984f6d22501df0426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:23 +0000
Subject: [PATCH 16/16] fix: discard the temporaries of a previous allocation

Allocating temporaries of a program a second time cleared the names given by the first allocation but kept them in the list of declared temporaries, so names that are not used anywhere remained declared.
---
 acc/pass/alloc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acc/pass/alloc.go b/acc/pass/alloc.go
index 5a22e2c..15257b8 100644
--- a/acc/pass/alloc.go
+++ b/acc/pass/alloc.go
@@ -67,8 +67,10 @@ func (a Allocator) Execute(p *ir.Program) error {
 		}
 	}
 
-	// Map from variable index to name.
+	// Map from variable index to name. Any names declared by a previous
+	// allocation have been cleared.
 	name := map[int]string{}
+	p.Temporaries = nil
 	outv := allocation.Variable(p.Output().Index)
 	for _, index := range p.Indexes {
 		op := p.Operands[index]
-- 
2.43.0

