package hx

import (
	"fmt"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

// failure is what Fail panics with inside a bubble.
type failure struct{ msg string }

// Failf ends the bubble's main function (or a goroutine started with Go) with a failure.
func Failf(format string, a ...interface{}) { panic(failure{fmt.Sprintf(format, a...)}) }

// Bubble runs f in a synctest bubble, that is with virtual time, and returns how it failed ("" if
// it did not). Failures are reported with Failf, or are panics of the code under test.
func Bubble(t *testing.T, f func()) (msg string) {
	synctest.Test(t, func(*testing.T) {
		msg = Protect(f)
	})
	return
}

// Protect runs f and returns its failure or panic as text.
func Protect(f func()) (msg string) {
	normal := false
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				msg = fl.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
			return
		}
		if !normal {
			msg = "the goroutine ended"
		}
	}()
	f()
	normal = true
	return
}

// FailureText is how a recovered panic reads.
func FailureText(r interface{}) string {
	if fl, ok := r.(failure); ok {
		return fl.msg
	}
	return fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Within runs f in its own goroutine and waits for at most d. It tells whether f ended in time and
// how it failed.
func Within(d time.Duration, f func()) (ended bool, msg string) {
	done := make(chan string, 1)
	go func() {
		m := "the goroutine ended"
		defer func() { done <- m }()
		m = Protect(f)
	}()
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case m := <-done:
		return true, m
	case <-tm.C:
		return false, ""
	}
}
