// cold30 own|shared I J runs operations I and J of ops30 in two goroutines as the first use of the library in this
// process, each on a world of its own or both on one, and prints their results, a line each.
package main

import (
	"fmt"
	"os"
	"strconv"
	"sync"

	"verif/ops30"
)

func main() {
	var out [2]string
	var ix [2]int
	for k := range ix {
		ix[k], _ = strconv.Atoi(os.Args[2+k])
	}
	a, b := &ops30.Ops[ix[0]], &ops30.Ops[ix[1]]
	var w *ops30.World
	if os.Args[1] == "shared" {
		w = ops30.New(a.Need | b.Need)
	}
	var wg sync.WaitGroup
	run := func(k int, op *ops30.Op) {
		defer wg.Done()
		u := w
		if u == nil {
			u = ops30.New(op.Need)
		}
		out[k] = ops30.Render(op.Run(u))
	}
	wg.Add(2)
	go run(0, a)
	go run(1, b)
	wg.Wait()
	fmt.Printf("%q\n%q\n", out[0], out[1])
}
