package spec

import "github.com/onsi/ginkgo/v2/internal/zzverif/lib"

func preview(c *lib.Ctx) {}
