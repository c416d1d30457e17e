// Package data stands in for sourcegraph.com/sourcegraph/appdash-data (static
// web assets), which cannot be fetched offline. Every file with an extension
// exists and contains its own path.
package data

import (
	"bytes"
	"net/http"
	"os"
	"path"
	"time"
)

type names struct{}

type file struct {
	*bytes.Reader
	name string
}

func (f file) Close() error                       { return nil }
func (f file) Readdir(int) ([]os.FileInfo, error) { return nil, os.ErrInvalid }
func (f file) Stat() (os.FileInfo, error)         { return f, nil }
func (f file) Name() string                       { return path.Base(f.name) }
func (f file) Mode() os.FileMode                  { return 0o444 }
func (f file) ModTime() time.Time                 { return time.Time{} }
func (f file) IsDir() bool                        { return false }
func (f file) Sys() any                           { return nil }

func (names) Open(name string) (http.File, error) {
	if path.Ext(name) == "" {
		return nil, os.ErrNotExist
	}
	return file{bytes.NewReader([]byte(name)), name}, nil
}

// Data is the file system of static assets.
var Data http.FileSystem = names{}
