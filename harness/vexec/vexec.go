// Package vexec stands in for os/exec in instrumented code: commands are handed to Hook instead of being run.
package vexec

import (
	"fmt"
	"io"
	"os/exec"
)

// Hook runs a command: it returns what it prints and whether it succeeds.
var Hook func(dir string, args []string) (string, bool)

type Cmd struct {
	exec.Cmd
	out  string
	ok   bool
	done chan struct{}
}

type ExitError = exec.ExitError

var LookPath = exec.LookPath

func Command(name string, args ...string) *Cmd {
	return &Cmd{Cmd: exec.Cmd{Path: name, Args: append([]string{name}, args...)}}
}

func (c *Cmd) Run() error {
	c.out, c.ok = Hook(c.Dir, c.Args)
	if c.Stdout != nil {
		io.WriteString(c.Stdout, c.out)
	}
	if !c.ok {
		return fmt.Errorf("exit status 1")
	}
	return nil
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	err := c.Run()
	return []byte(c.out), err
}

func (c *Cmd) Output() ([]byte, error) { return c.CombinedOutput() }
func (c *Cmd) Start() error            { c.out, c.ok = Hook(c.Dir, c.Args); return nil }
func (c *Cmd) Wait() error {
	if c.Stdout != nil {
		io.WriteString(c.Stdout, c.out)
	}
	if !c.ok {
		return fmt.Errorf("exit status 1")
	}
	return nil
}
