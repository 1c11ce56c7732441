// Package vioutil stands in for package io/ioutil; see vos.
package vioutil

import (
	"io/ioutil"
	"os"

	"github.com/go-air/gini/vos"
)

var (
	Discard   = ioutil.Discard
	NopCloser = ioutil.NopCloser
	ReadAll   = ioutil.ReadAll
	ReadDir   = ioutil.ReadDir
	ReadFile  = ioutil.ReadFile
)

func WriteFile(n string, b []byte, p os.FileMode) error { return vos.WriteFile(n, b, p) }
func TempDir(d, p string) (string, error)               { return vos.MkdirTemp(d, p) }
func TempFile(d, p string) (*vos.File, error)           { return vos.CreateTemp(d, p) }
