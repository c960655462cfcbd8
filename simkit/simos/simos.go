// Package simos stands in for the standard streams of the console program.
package simos

import (
	"errors"
	"fmt"
	"io"
)

// File stands in for os.File.
type File struct {
	R    io.Reader
	W    io.Writer
	name string
	fd   uintptr
}

var (
	Stdin  = &File{name: "/dev/stdin"}
	Stdout = &File{name: "/dev/stdout", fd: 1}
	Stderr = &File{name: "/dev/stderr", fd: 2}
	Args   = []string{"maho"}
)

var errUse = errors.New("bad file descriptor")

func (f *File) Read(b []byte) (int, error) {
	if f.R == nil {
		return 0, errUse
	}
	return f.R.Read(b)
}

func (f *File) Write(b []byte) (int, error) {
	if f.W == nil {
		return 0, errUse
	}
	return f.W.Write(b)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Name() string                      { return f.name }
func (f *File) Fd() uintptr                       { return f.fd }
func (f *File) Sync() error                       { return nil }
func (f *File) Close() error                      { return nil }

func Print(a ...any) (int, error)            { return fmt.Fprint(Stdout, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(Stdout, f, a...) }

// ExitCode is what Exit panics with.
type ExitCode int

func Exit(code int) { panic(ExitCode(code)) }
