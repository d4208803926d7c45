package cli

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

var (
	reStep  = regexp.MustCompile(`^\[ *(\d+)\] +(\d+)\+ *(\d+)\t([0-9a-f]+)$`)
	reTotal = regexp.MustCompile(`^total: (\d+)\tdoubles: \t(\d+) adds: (\d+)$`)
)

// Listing reads the output of the eval command, or the listing of a chain in
// the messages of the search command: the operations and values listed, and the
// totals if there are any (otherwise -1).
func Listing(out string, prefix string) (ops [][2]int, values []*big.Int, doubles, adds int, err error) {
	doubles, adds = -1, -1
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if !strings.HasPrefix(l, prefix) {
			continue
		}
		l = l[len(prefix):]
		if m := reTotal.FindStringSubmatch(l); m != nil {
			t, _ := strconv.Atoi(m[1])
			doubles, _ = strconv.Atoi(m[2])
			adds, _ = strconv.Atoi(m[3])
			if t != doubles+adds {
				return nil, nil, 0, 0, fmt.Errorf("%q does not add up", l)
			}
			continue
		}
		m := reStep.FindStringSubmatch(l)
		if m == nil {
			if prefix == "" {
				return nil, nil, 0, 0, fmt.Errorf("unexpected line %q", l)
			}
			continue
		}
		p, _ := strconv.Atoi(m[1])
		i, _ := strconv.Atoi(m[2])
		j, _ := strconv.Atoi(m[3])
		if p != len(ops)+1 {
			return nil, nil, 0, 0, fmt.Errorf("line %q is not number %d", l, len(ops)+1)
		}
		v, _ := new(big.Int).SetString(m[4], 16)
		ops = append(ops, [2]int{i, j})
		values = append(values, v)
	}
	return ops, values, doubles, adds, nil
}
