package main

import (
	"os"
	"path/filepath"
)

// scratchFile writes a file into the worker's scratch directory.
func scratchFile(name, content string) (string, error) {
	dir := os.Getenv("VP_SCRATCH")
	if dir == "" {
		dir = os.TempDir()
	}
	if len(name) > 100 {
		name = name[:100]
	}
	p := filepath.Join(dir, name)
	return p, os.WriteFile(p, []byte(content), 0o644)
}
