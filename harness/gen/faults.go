package gen

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
)

// Faults are the errors with which the injected faults fail. Code likes to
// treat some errors in a special way.
var Faults = []error{
	errors.New("harness: injected fault"),
	appdash.ErrQueueDropped, appdash.ErrBadSpanID,
	fmt.Errorf("harness: wrapped: %w", appdash.ErrQueueDropped),
	io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrNoProgress, fmt.Errorf("harness: wrapped: %w", io.EOF),
	os.ErrClosed, os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrDeadlineExceeded,
	&os.PathError{Op: "write", Path: "/f", Err: syscall.EIO},
	syscall.ENOSPC, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE,
	net.ErrClosed, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded},
	context.Canceled, context.DeadlineExceeded,
	errors.New(""), errors.New("%s%d"),
}

// Fault is the i-th of the Faults, cyclically.
func Fault(i int) error { return Faults[uint(i)%uint(len(Faults))] }

// DrawFault draws the index of a fault, the plain one in half of the cases.
func DrawFault(t *rapid.T) int {
	if rapid.Bool().Draw(t, "plainfault") {
		return 0
	}
	return rapid.IntRange(0, len(Faults)-1).Draw(t, "fault")
}

// IsFault tells whether err reports the fault f.
func IsFault(err, f error) bool {
	return err != nil && (errors.Is(err, f) || strings.Contains(err.Error(), f.Error()))
}
