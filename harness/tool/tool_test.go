// Package tool decides properties of the parts of the command line tool that read source files.
package tool

import (
	"os"
	"testing"

	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
)

var checks = map[string]func(*lib.Ctx, string){}

func TestProperty(t *testing.T) {
	c := lib.New(os.Getenv("VERIF_PROPERTY"))
	f, ok := checks[c.R.Property]
	if !ok {
		t.Fatalf("unknown property %q", c.R.Property)
	}
	dir, err := os.MkdirTemp(lib.Env("VERIF_TMP", ""), "tool")
	if err != nil {
		t.Fatal(err)
	}
	f(c, dir)
	os.Chdir("/")
	os.RemoveAll(dir)
	c.Write()
}

// stdout returns what f writes to the standard output.
func stdout(dir string, f func()) string {
	out, err := os.OpenFile(dir+"/stdout", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = out
	defer func() { os.Stdout = old; out.Close() }()
	f()
	b, err := os.ReadFile(dir + "/stdout")
	if err != nil {
		panic(err)
	}
	return string(b)
}
