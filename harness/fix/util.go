package fix

import "runtime"

func goexit() { runtime.Goexit() }
