// Package entropy puts an exchangeable source in front of the system's secure
// random source. Its import path sorts before the one of the package under test,
// so that it is initialized first and whatever that package takes from
// crypto/rand, when initialized or later, is drawn through here.
package entropy

import (
	"crypto/rand"
	"io"
	"sync/atomic"
)

type holder struct{ r io.Reader }

var current atomic.Pointer[holder]

type proxy struct{}

func (proxy) Read(p []byte) (int, error) { return current.Load().r.Read(p) }

func init() {
	current.Store(&holder{rand.Reader})
	rand.Reader = proxy{}
}

// Swap exchanges the source and returns the previous one.
func Swap(r io.Reader) io.Reader { return current.Swap(&holder{r}).r }
