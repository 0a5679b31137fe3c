//go:build vasm

package asmx

import (
	_ "unsafe"

	_ "github.com/pjbgf/sha1cd"
)

//go:linkname block github.com/pjbgf/sha1cd.blockARM64
//go:noescape
func block(h []uint32, p []byte, m1 []uint32, cs [][5]uint32)

//go:linkname has github.com/pjbgf/sha1cd.hasSHA1
var has bool

func Block(h []uint32, p []byte, m1 []uint32, cs [][5]uint32) { block(h, p, m1, cs) }
func Usable() bool                                            { return has }
