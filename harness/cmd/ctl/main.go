// ctl is the control: it runs the Go runtime, the CPU feature library and the reference model on an
// emulated CPU without touching the implementation.
package main

import (
	"fmt"
	"os"

	"averif/harness/plant"
	"averif/harness/ref"

	"github.com/klauspost/cpuid/v2"
)

func main() {
	_ = cpuid.CPU.Supports(cpuid.SSE2)
	ch := make(chan [20]byte)
	for i := 0; i < 4; i++ {
		go func(i int) { ch <- ref.Plain(plant.Bytes(uint64(i), 1000)) }(i)
	}
	for i := 0; i < 4; i++ {
		<-ch
	}
	if fmt.Sprintf("%x", ref.Plain([]byte("abc"))) != "a9993e364706816aba3e25717850c26c9cd0d89d" {
		os.Exit(5)
	}
	fmt.Println("ok")
}
