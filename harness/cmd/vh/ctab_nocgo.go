//go:build !cgo

package main

const haveCgo = false

type cdv struct {
	Type, K, B, TestT, MaskI, MaskB int32
	Dm                              [80]uint32
}

func cTable() *[33]cdv { return nil }
func cTab() *Tab       { return nil }
