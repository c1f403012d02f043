// Package caller is the user of the code under test touching memory the code
// has given to it or has given back. The race build instruments it.
package caller

//go:noinline
func Reuse(b []byte) {
	for i := range b {
		b[i] = b[i] + 0
	}
}

//go:noinline
func Reuse16(v []uint16) {
	for i := range v {
		v[i] = v[i] + 0
	}
}
