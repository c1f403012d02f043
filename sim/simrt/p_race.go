//go:build race

package simrt

// P is the statement-level yield point inserted into the code under test.
//
//go:noinline
//go:norace
func P() {
	s := S
	if s == nil {
		return
	}
	s.steps++
	if s.steps >= s.next {
		s.pSlow()
	}
}
