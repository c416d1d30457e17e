package fw

import (
	"fmt"
	"runtime/debug"
	"testing"
	"testing/synctest"
)

// Bubble runs f on a virtual clock. Every goroutine f starts must end by
// itself once f has returned. A deadlock of all goroutines is an error.
func Bubble(x *X, f func() error) (err error) {
	finished := false
	defer func() {
		if v := recover(); v != nil {
			if finished && err != nil {
				return // the case failed before and left goroutines blocked
			}
			err = fmt.Errorf("virtual clock: %v", v)
		}
	}()
	synctest.Test(x.T, func(*testing.T) {
		defer func() {
			if v := recover(); v != nil {
				err = fmt.Errorf("panic: %v\n%s", v, trimStack(debug.Stack()))
			}
			finished = true
		}()
		err = f()
	})
	return err
}
