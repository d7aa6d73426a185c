// Command sanity uses nothing of the repository: an emulated processor on which
// it does not run cannot be used to judge the repository either.
package main

import (
	"fmt"
	"runtime"
	"sync"
)

func main() {
	var wg sync.WaitGroup
	var mu sync.Mutex
	total := 0
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := make([]byte, 1000*i+1)
			mu.Lock()
			total += int(s[0]) + extra()
			mu.Unlock()
			runtime.GC()
		}()
	}
	wg.Wait()
	m := map[string]int{}
	for i := 0; i < 1000; i++ {
		m[fmt.Sprint(i)] = i
	}
	fmt.Println("sane", len(m), total > 0)
}
