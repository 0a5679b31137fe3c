// Package early is initialised before the library (its import path sorts first): it can install planted
// differences in the exported table before anything in the library has looked at it.
package early

import (
	"os"

	"github.com/pjbgf/sha1cd/ubc"
)

// Planted reports whether a plan was installed.
var Planted bool

func init() {
	f := os.Getenv("VERIF_PLANT")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		return
	}
	for ; len(b) >= 321; b = b[321:] {
		dvs := ubc.SHA1_dvs()
		for k := range dvs {
			if dvs[k].DvType != 0 && dvs[k].MaskI == 0 && int(dvs[k].MaskB) == int(b[0]) {
				for t := 0; t < 80; t++ {
					p := b[1+4*t:]
					dvs[k].Dm[t] = uint32(p[0])<<24 | uint32(p[1])<<16 | uint32(p[2])<<8 | uint32(p[3])
				}
				Planted = true
			}
		}
	}
}
