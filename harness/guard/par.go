package guard

import (
	"verif/harness/ev"
	"verif/harness/hb"
)

// Par returns a function that runs f(slot index, i) for i in [0,n) on all CPUs until the check stops.
func (g *Guard) Par(c *ev.Check) func(name string, n int, f func(w, i int)) {
	tok := make(chan int, len(g.Slots))
	for i := range g.Slots {
		tok <- i
	}
	return func(name string, n int, f func(w, i int)) {
		if c.Stop() {
			return
		}
		hb.Parallel(n, c.Stop, func(i int) {
			w := <-tok
			f(w, i)
			tok <- w
		})
	}
}
