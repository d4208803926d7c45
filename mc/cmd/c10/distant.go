package main

import (
	"fmt"
	"math/big"

	"github.com/mmcloughlin/addchain/verifmc/enum"
	"github.com/mmcloughlin/addchain/verifmc/mc"
	"github.com/mmcloughlin/addchain/verifmc/ref"
)

// Distant is a small chain, then doublings of its last element, then sums of
// the last doubling with elements of the small chain, possibly closed with a
// doubling or the sum of the last two.
type Distant struct {
	Head []int64
	Fill int
	Tail int // a set of elements of the head
	End  int
}

func (d Distant) chain() []*big.Int {
	c := ref.Big(d.Head)
	for i := 0; i < d.Fill; i++ {
		c = append(c, new(big.Int).Lsh(c[len(c)-1], 1))
	}
	top := c[len(c)-1]
	for i, e := range d.Head {
		if d.Tail>>i&1 == 1 {
			c = append(c, new(big.Int).Add(top, big.NewInt(e)))
		}
	}
	switch d.End {
	case 1:
		c = append(c, new(big.Int).Lsh(c[len(c)-1], 1))
	case 2:
		c = append(c, new(big.Int).Add(c[len(c)-1], c[len(c)-2]))
	}
	return c
}

func checkDistant(w *mc.W, d Distant) error {
	c := d.chain()
	w.Max("distance", d.Fill)
	w.Max("chain-length", len(c))
	if err := check(w, c); err != nil {
		s := err.Error()
		if len(s) > 600 {
			s = s[:300] + " ... " + s[len(s)-300:]
		}
		return fmt.Errorf("%s", s)
	}
	return nil
}

func distantFamily() *mc.Family {
	return mc.NewFamily("distant-uses", "every ascending chain of 4..5 (6) elements, 30, 63..65, 127, 255, 400, 600 (1100) doublings of its last, the last doubling plus every non-empty set of elements of the small chain, ended as is, by a doubling or by the sum of the last two",
		func(t mc.Tier) []mc.Gen[Distant] {
			return mc.Shards("distant", 64, func(shard, n int, yield func(Distant)) {
				fills := []int{30, 63, 64, 65, 127, 255, 400, 600}
				if t == mc.Thorough {
					fills = append(fills, 1100)
				}
				cnt := 0
				enum.Chains(t.Pick(5, 6), 0, 1, func(c []int64) {
					if len(c) < 4 {
						return
					}
					for i := 1; i < len(c); i++ {
						if c[i] < c[i-1] {
							return
						}
					}
					head := append([]int64{}, c...)
					for _, f := range fills {
						if f > 255 && len(head) > 5 {
							continue
						}
						for m := 1; m < 1<<len(head); m++ {
							for end := 0; end < 3; end++ {
								if cnt++; cnt%n == shard {
									yield(Distant{head, f, m, end})
								}
							}
						}
					}
				})
			})
		}, checkDistant)
}
