package fw

import (
	"os"
	"path/filepath"
	"syscall"
)

// OtherFS makes a directory on another file system than dir, a directory in a
// Scratch, or returns "" if there is none. run.py removes it even when the
// process is killed.
func OtherFS(dir string) string {
	var a, b syscall.Stat_t
	if syscall.Stat(dir, &a) != nil || syscall.Stat("/dev/shm", &b) != nil || a.Dev == b.Dev {
		return ""
	}
	d := filepath.Join("/dev/shm", filepath.Base(filepath.Dir(filepath.Dir(dir))), filepath.Base(filepath.Dir(dir)), filepath.Base(dir))
	if os.MkdirAll(d, 0o755) != nil {
		return ""
	}
	return d
}
