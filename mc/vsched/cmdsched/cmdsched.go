// Package cmdsched runs the main function of a command under a schedule given
// by the environment: the command's packages are instrumented with scheduling
// points, and exactly one goroutine runs between two points.
//
// VERIF_SCHED is BASE[,K:J]... where BASE picks the goroutine to run at each
// decision and K:J picks the J-th other enabled goroutine at decision K.
// VERIF_SCHED_LOG names a file that receives one byte per decision, the number
// of enabled goroutines.
package cmdsched

import (
	"fmt"
	"os"
	"os/signal"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/mmcloughlin/addchain/verifmc/vsched"
)

// Exit codes of a run without verdict, and of a deadlock.
const (
	ExitLong     = 96
	ExitDeadlock = 97
)

const maxsteps = 400000

// fair is how long one goroutine may run while others wait.
const fair = 20000

// Run main, under a schedule if there is one.
func Run(main func()) {
	spec := os.Getenv("VERIF_SCHED")
	if spec == "" {
		main()
		return
	}
	// The goroutines behind signals must not belong to the bubble.
	c := make(chan os.Signal, 1)
	signal.Notify(c, syscall.SIGUSR2)
	args := os.Args
	os.Args = args[:1]
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "main", F: func(t *testing.T) {
		os.Args = args
		synctest.Test(t, func(*testing.T) { drive(main, spec) })
	}}}, nil, nil)
}

func drive(main func(), spec string) {
	parts := strings.Split(spec, ",")
	base := parts[0]
	dev := map[int]int{}
	for _, p := range parts[1:] {
		k, j, _ := strings.Cut(p, ":")
		a, _ := strconv.Atoi(k)
		b, _ := strconv.Atoi(j)
		dev[a] = b
	}
	var log *os.File
	if name := os.Getenv("VERIF_SCHED_LOG"); name != "" {
		f, err := os.Create(name)
		if err != nil {
			panic(err)
		}
		log = f
	}
	s := &vsched.Sched{}
	vsched.Start(s)
	go func() {
		vsched.Point()
		main()
		os.Exit(0)
	}()
	var buf [512]vsched.Enabled
	cur, same, waited := uint64(0), 0, 0
	for step := 0; ; step++ {
		synctest.Wait()
		en := s.Enabled(buf[:0])
		if len(en) == 0 {
			if waited++; waited > 3 {
				fmt.Fprintln(os.Stderr, "verif: every goroutine waits")
				os.Exit(ExitDeadlock)
			}
			time.Sleep(time.Hour)
			continue
		}
		waited = 0
		if step > maxsteps {
			os.Exit(ExitLong)
		}
		if log != nil {
			log.Write([]byte{byte(min(len(en), 255))})
		}
		pick := 0
		at := -1
		for i, e := range en {
			if e.ID == cur {
				at = i
			}
		}
		switch {
		case base == "eager":
			// A new goroutine runs at once.
			pick = len(en) - 1
		case base == "robin":
			for i, e := range en {
				if e.ID > cur {
					pick = i
					break
				}
			}
		case at >= 0:
			pick = at
		case base == "newest":
			pick = len(en) - 1
		}
		if same > fair {
			pick = (max(at, 0) + 1) % len(en)
		}
		if j, ok := dev[step]; ok && len(en) > 1 {
			pick = (pick + j) % len(en)
		}
		if id := en[pick].ID; id == cur {
			same++
		} else {
			cur, same = id, 0
		}
		s.Release(cur)
	}
}
