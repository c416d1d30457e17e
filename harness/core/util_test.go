package core

import "testing/synctest"

// settleBubble waits until every other goroutine of the bubble is blocked.
func settleBubble() { synctest.Wait() }
