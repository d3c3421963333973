// Package vwatch stands in for what the watch command does besides watching: compiling and running suites, and
// waiting for signals.
package vwatch

import (
	"os"
	"sync"
)

// Compile and Run, if set, say what becomes of a suite.
var Compile, Run func(suite any) any

func CompileSuite[S any](suite S, _ ...any) S { return Compile(suite).(S) }

func RunCompiledSuite[S any](suite S, _ ...any) S { return Run(suite).(S) }

func Cleanup(...any) {}

func FinalizeProfilesAndReportsForSuites(...any) ([]string, error) { return nil, nil }

func VerifyCLIAndFrameworkVersion(...any) {}

// ---- the interrupt handler ----

type InterruptCause uint

const (
	InterruptCauseInvalid InterruptCause = iota
	InterruptCauseSignal
	InterruptCauseAbortByOtherProcess
)

type InterruptLevel uint

const (
	InterruptLevelUninterrupted InterruptLevel = iota
	InterruptLevelCleanupAndReport
	InterruptLevelReportOnly
	InterruptLevelBailOut
)

type InterruptStatus struct {
	Channel chan any
	Level   InterruptLevel
	Cause   InterruptCause
}

func (s InterruptStatus) Interrupted() bool { return s.Level != InterruptLevelUninterrupted }

func (s InterruptStatus) Message() string { return "Interrupted" }

func (s InterruptStatus) ShouldIncludeProgressReport() bool { return true }

type InterruptHandlerInterface interface{ Status() InterruptStatus }

type InterruptHandler struct {
	mu     sync.Mutex
	status InterruptStatus
}

var Handler *InterruptHandler

func NewInterruptHandler(any, ...os.Signal) *InterruptHandler {
	Handler = &InterruptHandler{}
	Handler.Reset()
	return Handler
}

func SwallowSigQuit() {}

func (h *InterruptHandler) Stop() {}

func (h *InterruptHandler) Status() InterruptStatus {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.status
}

func (h *InterruptHandler) Reset() {
	h.mu.Lock()
	h.status = InterruptStatus{Channel: make(chan any)}
	h.mu.Unlock()
}

func (h *InterruptHandler) Interrupt() {
	h.mu.Lock()
	c := h.status.Channel
	h.status = InterruptStatus{Channel: make(chan any), Level: InterruptLevelCleanupAndReport, Cause: InterruptCauseSignal}
	h.mu.Unlock()
	close(c)
}
