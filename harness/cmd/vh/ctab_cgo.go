//go:build cgo

package main

// #include <stdint.h>
// struct vdv { int32_t dvType, dvK, dvB, testt, maski, maskb; uint32_t dm[80]; };
// extern struct vdv sha1_dvs[] __attribute__((weak));
// static struct vdv *vtab(void) { return sha1_dvs; }
import "C"

import (
	"bufio"
	"fmt"
	"os"
	"strings"
	"syscall"
	"unsafe"
)

const haveCgo = true

type cdv struct {
	Type, K, B, TestT, MaskI, MaskB int32
	Dm                              [80]uint32
}

// cTable returns the C table if the symbol exists and looks like the known layout.
func cTable() *[33]cdv {
	p := C.vtab()
	if p == nil {
		return nil
	}
	return (*[33]cdv)(unsafe.Pointer(p))
}

// cTabStatic finds the table by its contents (when the symbol is hidden or renamed).
func cTabStatic() *Tab {
	n := 0
	for i := 0; i < 32; i++ {
		if len(staticCopies(i, true)) > 0 {
			n++
		}
	}
	if n < 28 {
		return nil
	}
	t := &Tab{name: "c", live: -1, saved: map[int][80]uint32{}}
	t.also = func(i int) []*[80]uint32 { return staticCopies(i, true) }
	t.get = func(i int) *[80]uint32 {
		if l := staticCopies(i, true); len(l) > 0 {
			return l[0]
		}
		return nil
	}
	return t
}

func cTab() *Tab {
	tb := cTable()
	if tb == nil {
		return cTabStatic()
	}
	if !writable(uintptr(unsafe.Pointer(tb))) {
		// a read-only table: open its pages for planting
		const ps = 4096
		a := uintptr(unsafe.Pointer(tb)) &^ (ps - 1)
		n := (uintptr(unsafe.Pointer(tb)) + unsafe.Sizeof(*tb) - a + ps - 1) &^ (ps - 1)
		syscall.Syscall(syscall.SYS_MPROTECT, a, n, syscall.PROT_READ|syscall.PROT_WRITE)
		if !writable(uintptr(unsafe.Pointer(tb))) {
			return cTabStatic()
		}
	}
	ok := 0
	for i := 0; i < 32; i++ {
		if (tb[i].Type == 1 || tb[i].Type == 2) && tb[i].K > 40 && tb[i].K < 60 && tb[i].MaskI == 0 {
			ok++
		}
	}
	if ok < 28 {
		return cTabStatic()
	}
	t := &Tab{name: "c", live: -1, saved: map[int][80]uint32{}}
	t.also = func(i int) []*[80]uint32 { return staticCopies(i, true) }
	t.get = func(i int) *[80]uint32 {
		for k := 0; k < 32; k++ {
			if int(tb[k].MaskB) == i && tb[k].Type != 0 {
				return &tb[k].Dm
			}
		}
		return nil
	}
	return t
}

func writable(a uintptr) bool {
	f, err := os.Open("/proc/self/maps")
	if err != nil {
		return false
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		var lo, hi uintptr
		var perm string
		if n, _ := fmt.Sscanf(sc.Text(), "%x-%x %s", &lo, &hi, &perm); n == 3 && a >= lo && a < hi {
			return strings.HasPrefix(perm, "rw")
		}
	}
	return false
}
