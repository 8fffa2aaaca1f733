//go:build go1.21 && linux && amd64

package store

import (
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	if f := os.Getenv("VH_CHILD"); f != "" {
		reexec()
		childMain(f)
	}
	os.Exit(m.Run())
}
