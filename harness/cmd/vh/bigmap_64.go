//go:build amd64 || arm64

package main

import (
	"os"
	"syscall"
	"unsafe"

	"averif/harness/plant"
)

// bigdata returns n bytes (several GiB are fine) whose contents do not repeat at a distance of a power of two:
// one 16 MiB + 1 page segment mapped again and again.
func bigdata(n int) []byte {
	ps := os.Getpagesize()
	seg := 1<<24 + ps
	b := zeros((n + ps - 1) / ps * ps)
	f, err := os.CreateTemp("", "seg")
	if err != nil {
		return b[:n]
	}
	defer f.Close()
	os.Remove(f.Name())
	one := plant.Bytes(77, 1<<16+1)
	buf := make([]byte, 0, seg+len(one))
	for len(buf) < seg {
		buf = append(buf, one...)
	}
	if _, err := f.Write(buf[:seg]); err != nil {
		return b[:n]
	}
	for o := 0; o < len(b); o += seg {
		syscall.Syscall6(syscall.SYS_MMAP, uintptr(unsafe.Pointer(&b[o])), uintptr(min(seg, len(b)-o)), syscall.PROT_READ, syscall.MAP_FIXED|syscall.MAP_SHARED, f.Fd(), 0)
	}
	return b[:n]
}
