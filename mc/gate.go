package main

import (
	"os"
	"path/filepath"
	"time"
)

// gate blocks a stand-alone fake R until the replay driver lets it proceed;
// it reports whether the driver wants the call to fail.
func gate(dir string, e *Ev) bool {
	name := e.Pkg + "." + e.Stage()
	os.WriteFile(filepath.Join(dir, "want."+name), nil, 0644)
	for i := 0; i < 4000; i++ {
		if b, err := os.ReadFile(filepath.Join(dir, "go."+name)); err == nil && len(b) > 0 {
			return b[0] == 'F'
		}
		if _, err := os.Stat(filepath.Join(dir, "abort")); err == nil {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
	return true
}
