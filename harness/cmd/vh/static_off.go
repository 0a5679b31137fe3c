//go:build asan || msan || race

package main

const scanStatic = false
