package rt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"
)

var (
	beats   atomic.Uint64
	outside atomic.Int32
)

// Outside runs f, which waits for something that isn't simulated, such as the go command.
func Outside(f func()) {
	outside.Add(1)
	defer outside.Add(-1)
	f()
}

// ExitStuck is the status of a process that Watch ended.
const ExitStuck = 7

// Watch ends the process when the simulation comes to no further step for long,
// or takes all memory: the code under test loops without a scheduling point.
func Watch(seconds int) {
	debug.SetMaxStack(256 << 20)
	go func() {
		last, same := beats.Load(), 0
		for {
			time.Sleep(time.Second)
			n := beats.Load()
			if n != last || outside.Load() != 0 || S == nil {
				last, same = n, 0
				continue
			}
			same++
			var m runtime.MemStats
			if same > 3 {
				runtime.ReadMemStats(&m)
			}
			if same < seconds && m.HeapAlloc < 3<<30 {
				continue
			}
			b := make([]byte, 1<<20)
			b = b[:runtime.Stack(b, true)]
			fmt.Fprintf(os.Stderr, "STUCK: no step for %d s, %d MB of memory\n%s\n", same, m.HeapAlloc>>20, b)
			os.Exit(ExitStuck)
		}
	}()
}
