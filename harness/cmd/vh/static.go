package main

import (
	"bytes"
	"debug/elf"
	"encoding/binary"
	"fmt"
	"os"
	"strings"
	"sync"
	"syscall"
	"unsafe"
)

// copies of the published differences held by the library in static memory (the exported table may not be
// the one that detection reads)

var elfAnchor [16]byte

var (
	copiesOnce sync.Once
	goCopies   [32][]*[80]uint32
	cCopies    [32][]*[80]uint32
	goSet      = map[string]uint32{} // symbol -> vectors whose published differences it holds
	cSet       = map[string]uint32{}
)

func goLists() *map[string]uint32 { copiesOnce.Do(findCopies); return &goSet }
func cLists() *map[string]uint32  { copiesOnce.Do(findCopies); return &cSet }

func (t *Tab) ready() {
	if t != nil {
		t.also(0)
	}
}

func staticCopies(i int, c bool) []*[80]uint32 {
	copiesOnce.Do(findCopies)
	if c {
		return cCopies[i]
	}
	return goCopies[i]
}

func at(a uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&a)) }

func findCopies() {
	defer func() { recover() }()
	if !scanStatic { // padding between symbols is poisoned in sanitizer builds
		return
	}
	elfAnchor[0] = 1
	f, err := elf.Open("/proc/self/exe")
	if err != nil {
		return
	}
	defer f.Close()
	syms, err := f.Symbols()
	if err != nil {
		return
	}
	base, found := uint64(0), false
	for _, s := range syms {
		if s.Name == "main.elfAnchor" {
			base, found = uint64(uintptr(unsafe.Pointer(&elfAnchor)))-s.Value, true
		}
	}
	if !found {
		return
	}
	var pats [32][]byte
	for i := range pats {
		b := make([]byte, 320)
		for t, v := range published[i].Dm {
			binary.NativeEndian.PutUint32(b[4*t:], v)
		}
		pats[i] = b
	}
	for _, s := range syms {
		if s.Size < 320 || s.Size > 1<<20 || elf.ST_TYPE(s.Info) != elf.STT_OBJECT || int(s.Section) >= len(f.Sections) || s.Section == 0 {
			continue
		}
		sec := f.Sections[s.Section]
		if sec.Flags&elf.SHF_ALLOC == 0 || sec.Flags&elf.SHF_EXECINSTR != 0 {
			continue
		}
		isGo := strings.HasPrefix(s.Name, "github.com/pjbgf/sha1cd")
		if !isGo && (strings.HasPrefix(s.Name, "main.") || strings.Contains(s.Name, "/") || strings.HasPrefix(s.Name, "runtime.") || strings.HasPrefix(s.Name, "type:") || strings.HasPrefix(s.Name, "go:")) {
			continue
		}
		a := uintptr(s.Value + base)
		mem := unsafe.Slice((*byte)(at(a)), int(s.Size))
		for i, p := range pats {
			for off := 0; ; {
				k := bytes.Index(mem[off:], p)
				if k < 0 {
					break
				}
				off += k
				if (a+uintptr(off))%4 == 0 && openPage(a+uintptr(off), 320, sec.Flags&elf.SHF_WRITE != 0) {
					q := (*[80]uint32)(at(a + uintptr(off)))
					if isGo {
						goSet[s.Name] |= 1 << uint(i)
						goCopies[i] = append(goCopies[i], q)
					} else {
						cSet[s.Name] |= 1 << uint(i)
						cCopies[i] = append(cCopies[i], q)
					}
				}
				off += 320
			}
		}
	}
}

func openPage(a, n uintptr, writable bool) bool {
	if writable {
		return true
	}
	ps := uintptr(os.Getpagesize())
	lo := a &^ (ps - 1)
	hi := (a + n + ps - 1) &^ (ps - 1)
	_, _, e := syscall.Syscall(syscall.SYS_MPROTECT, lo, hi-lo, syscall.PROT_READ|syscall.PROT_WRITE)
	return e == 0
}

func init() { reg("c07.copies", c07Copies) }

// A static table of the library that holds most of the published differences but not all of them, and a vector
// that is missed when the differences are planted everywhere they are found: what detection consults is not
// the published list.
func c07Copies(c *Ctx) {
	lists, what := goLists, "Go"
	if c.Eng.Name == "cgo" && haveCgo {
		lists, what = cLists, "C"
	}
	c.Eng.Tab.ready()
	var short []string
	missing := map[int]bool{}
	for name, m := range *lists() {
		c.Count("tables", 1)
		c.State(name)
		c.Evals += 32
		c.Traces++
		c.Trans += 32
		n := 0
		for i := 0; i < 32; i++ {
			if m&(1<<uint(i)) != 0 {
				n++
			}
		}
		if n >= 20 && n < 32 {
			short = append(short, name)
			for i := 0; i < 32; i++ {
				if m&(1<<uint(i)) == 0 {
					missing[i] = true
				}
			}
		}
	}
	c.Sample("%s engine: static tables holding published differences: %d", what, len(*lists()))
	if len(short) == 0 || !c.Eng.Live() {
		return
	}
	for i := range missing {
		s := newScn("consulted", uint64(160000+i))
		if !s.Attack(i, nil) {
			continue
		}
		s.Finish()
		s.With(c.Eng, func() {
			if d, col := c.Eng.Sum(s.Msg); !col {
				c.Fail(strings.Join(short, ",")+fmt.Sprintf(" vector %d(%d,%d)", published[i].Type, published[i].K, published[i].B), "the table lacks the published differences of this vector, and detection does not follow them either (%x)", d)
			}
		})
	}
}
