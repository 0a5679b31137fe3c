// Package cpuoff lets a run pretend that optional CPU features are absent (VERIF_CPUOFF=SHA1,AVX...) or, for
// features that no emulated CPU has, present (VERIF_CPUON=AVX512F...).
// Its import path sorts before the implementation's, so it is initialised first.
package cpuoff

import (
	"os"
	"strings"

	"github.com/klauspost/cpuid/v2"
)

var Off []string

func init() {
	for _, f := range strings.Split(os.Getenv("VERIF_CPUON"), ",") {
		if id := cpuid.ParseFeature(f); f != "" && id != cpuid.UNKNOWN {
			cpuid.CPU.Enable(id)
		}
	}
	for _, f := range strings.Split(os.Getenv("VERIF_CPUOFF"), ",") {
		if f == "" {
			continue
		}
		if id := cpuid.ParseFeature(f); id != cpuid.UNKNOWN {
			cpuid.CPU.Disable(id)
			Off = append(Off, f)
		}
	}
}
