// Package vos stands in for os.Exit in the copies of the implementation under check.
package vos

import "os"

// Hook, if set, is called instead of ending the process; it must not return.
var Hook func(code int)

func Exit(code int) {
	if Hook != nil {
		Hook(code)
		panic("the hook of Exit returned")
	}
	os.Exit(code)
}
