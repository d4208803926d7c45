module github.com/mmcloughlin/addchain/verifmc

go 1.25

require github.com/mmcloughlin/addchain v0.0.0

replace github.com/mmcloughlin/addchain => /repo
