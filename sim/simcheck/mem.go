//go:build go1.24

package main

import (
	"fmt"
	"syscall"
	"unsafe"
)

// The arena holds documents in memory of their own: the text ends where an
// unreadable page begins, and the memory is write-protected while the code reads it.
const (
	pageSize  = 4096
	slotPages = 16
	slotData  = slotPages * pageSize
	slotAll   = 2 * slotData // data, then memory nobody may touch
	slotCount = 512
)

type arena struct {
	mem  []byte
	used int
}

var theArena *arena

func getArena() *arena {
	if theArena == nil {
		mem, err := syscall.Mmap(-1, 0, slotAll*slotCount, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			fatalf("mmap: %v", err)
		}
		theArena = &arena{mem: mem}
	}
	return theArena
}

func (a *arena) reset() { a.used = 0 }

// region is one document in the arena.
type region struct {
	base  uintptr // start of the slot
	data  []byte  // the document
	text  string  // what it was made from
	prot  int
	heap  bool
	pages int
}

func (g *region) protect(prot int) {
	if g.heap || g.prot == prot {
		return
	}
	_, _, e := syscall.Syscall(syscall.SYS_MPROTECT, g.base+uintptr(slotData-g.pages*pageSize), uintptr(g.pages*pageSize), uintptr(prot))
	if e != 0 {
		fatalf("mprotect: %v", e)
	}
	g.prot = prot
}

// place puts text into memory of its own, write-protected. When readable is less
// than the length, what is behind can not be read.
func (a *arena) place(text string, readable int) *region {
	if readable > len(text) || readable < 0 {
		readable = len(text)
	}
	if readable > slotData || len(text)-readable > slotData || a.used >= slotCount {
		b := make([]byte, len(text))
		copy(b, text)
		return &region{data: b[:len(b):len(b)], text: text, heap: true}
	}
	base := uintptr(unsafe.Pointer(&a.mem[a.used*slotAll]))
	a.used++
	g := &region{base: base, text: text, prot: -1, pages: (readable + pageSize - 1) / pageSize}
	if g.pages == 0 {
		g.pages = 1
	}
	g.protect(syscall.PROT_READ | syscall.PROT_WRITE)
	off := slotData - readable
	slot := unsafe.Slice((*byte)(unsafe.Pointer(base)), slotAll)
	if readable > 0 {
		copy(slot[off:off+readable], text[:readable])
	}
	// Half of the buffers have spare capacity, which nobody may touch.
	spare := 0
	if len(text)%2 == 0 {
		spare = 32
	}
	g.data = slot[off : off+len(text) : off+len(text)+spare]
	g.protect(syscall.PROT_READ)
	return g
}

// room is memory the code may write to, which ends at an unreadable page.
func (a *arena) room(n int) *region {
	g := a.place(string(make([]byte, n)), n)
	g.protect(syscall.PROT_READ | syscall.PROT_WRITE)
	return g
}

func heapRegion(text string) *region {
	b := make([]byte, len(text))
	copy(b, text)
	return &region{data: b, text: text, heap: true}
}

// scribble overwrites the document, as a caller who reuses its buffer does.
func (g *region) scribble(seed int) {
	g.protect(syscall.PROT_READ | syscall.PROT_WRITE)
	junk := "9}]\"tfn0,:{["
	for i := range g.data {
		g.data[i] = junk[(i+seed)%len(junk)]
	}
	g.protect(syscall.PROT_READ)
}

// unmap makes the memory unusable, as a caller who unmaps its file does.
func (g *region) unmap(seed int) {
	if g.heap {
		g.scribble(seed)
		return
	}
	g.protect(syscall.PROT_NONE)
}

func fatalf(f string, a ...interface{}) {
	panic(fatalErr(fmt.Sprintf(f, a...)))
}

type fatalErr string
