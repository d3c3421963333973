// Package pure decides properties of (mostly) sequential parts of Ginkgo by
// enumerating all inputs up to a bound and comparing with independent oracles.
package pure

import (
	"os"
	"testing"

	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
)

var checks = map[string]func(*lib.Ctx){}

func TestProperty(t *testing.T) {
	id := os.Getenv("VERIF_PROPERTY")
	c := lib.New(id)
	f, ok := checks[id]
	if !ok {
		t.Fatalf("unknown property %q", id)
	}
	f(c)
	c.Write()
}
