// Package asmx reaches the assembly block functions directly (only built with the tag vasm, after the
// driver has found the expected declarations).
package asmx
