package main

import (
	"os"
	"reflect"
	"syscall"
	"unsafe"
)

// arena is a run of pages fenced by inaccessible pages on both sides.
type arena struct {
	all  []byte
	body []byte
	ps   int
}

func newArena(pages int) *arena {
	ps := os.Getpagesize()
	all, err := syscall.Mmap(-1, 0, (pages+2)*ps, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("harness: mmap: " + err.Error())
	}
	if syscall.Mprotect(all[:ps], syscall.PROT_NONE) != nil || syscall.Mprotect(all[(pages+1)*ps:], syscall.PROT_NONE) != nil {
		panic("harness: mprotect")
	}
	return &arena{all: all, body: all[ps : (pages+1)*ps : (pages+1)*ps], ps: ps}
}

func (a *arena) ro() { must(syscall.Mprotect(a.body, syscall.PROT_READ)) }
func (a *arena) rw() { must(syscall.Mprotect(a.body, syscall.PROT_READ|syscall.PROT_WRITE)) }

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// tail returns the last n bytes of the body: any read past the slice faults.
func (a *arena) tail(n int) []byte { return a.body[len(a.body)-n:] }

// head returns the first n bytes: any read before the slice faults.
func (a *arena) head(n int) []byte { return a.body[:n:n] }

// transplant moves a hasher's own structure into fenced memory, so that anything the implementation
// writes outside its state faults. atEnd: the structure ends at the fence; else it starts at it.
// ok is false when the structure cannot be moved (not a pointer to a struct).
func transplant(h H, a *arena, atEnd bool) (H, bool) {
	v := reflect.ValueOf(h)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct || hasPointers(v.Elem().Type()) {
		return nil, false
	}
	sz := int(v.Elem().Type().Size())
	if sz > len(a.body) || sz == 0 {
		return nil, false
	}
	dst := a.body[:sz]
	if atEnd {
		dst = a.body[len(a.body)-sz:]
	}
	src := unsafe.Slice((*byte)(v.UnsafePointer()), sz)
	copy(dst, src)
	g, ok := reflect.NewAt(v.Elem().Type(), unsafe.Pointer(&dst[0])).Interface().(H)
	return g, ok
}

// hasPointers: Go pointers must stay where the collector sees them (C pointers are plain words here).
func hasPointers(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return t.Len() > 0 && hasPointers(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPointers(t.Field(i).Type) {
				return true
			}
		}
		return false
	case reflect.Ptr:
		return t.Elem().Kind() != reflect.Array || t.Elem().Elem().Kind() != reflect.Uint8 || t.Elem().Len() != 0 // cgo function pointers are *[0]byte
	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Slice, reflect.String, reflect.UnsafePointer:
		return true
	}
	return false
}

// cgoCounters finds the C context's byte counter and chaining value inside the cgo hasher by name and type.
func cgoCounters(h H) (total *uint64, ihv *[5]uint32, buf *[64]byte) {
	v := reflect.ValueOf(h)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return
	}
	e := v.Elem()
	for i := 0; i < e.NumField(); i++ {
		f := e.Field(i)
		if f.Kind() != reflect.Struct {
			continue
		}
		for k := 0; k < f.NumField(); k++ {
			g := f.Field(k)
			p := unsafe.Pointer(g.UnsafeAddr())
			switch n := f.Type().Field(k).Name; {
			case n == "total" && g.Kind() == reflect.Uint64:
				total = (*uint64)(p)
			case n == "ihv" && g.Kind() == reflect.Array && g.Len() == 5 && g.Type().Size() == 20:
				ihv = (*[5]uint32)(p)
			case n == "buffer" && g.Kind() == reflect.Array && g.Len() == 64 && g.Type().Size() == 64:
				buf = (*[64]byte)(p)
			}
		}
	}
	if total == nil || ihv == nil || buf == nil {
		return nil, nil, nil
	}
	return
}

func structSize(h H) int { return int(reflect.TypeOf(h).Elem().Size()) }

// wordsAt places an 80-word array flush against either fence.
func wordsAt(a *arena, end bool) *[80]uint32 {
	if end {
		return (*[80]uint32)(unsafe.Pointer(&a.body[len(a.body)-320]))
	}
	return (*[80]uint32)(unsafe.Pointer(&a.body[0]))
}
