package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const repoDir = "/repo"

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOOS=") || strings.HasPrefix(e, "MC_") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "CGO_ENABLED=0")
}

func goRun(dir string, args ...string) (string, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = goEnv()
	b, err := c.CombinedOutput()
	if err != nil {
		return string(b), fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, b)
	}
	return string(b), nil
}

// newSession builds both binaries into a scratch directory.
func newSession() (*Session, error) {
	base := "/dev/shm"
	if st, err := os.Stat(base); err != nil || !st.IsDir() {
		base = os.TempDir()
	}
	dir, err := os.MkdirTemp(base, "vmc")
	if err != nil {
		dir, err = os.MkdirTemp("", "vmc")
		if err != nil {
			return nil, err
		}
	}
	s := &Session{Scratch: dir, Bin: filepath.Join(dir, "pkgr.mc"), Stock: filepath.Join(dir, "pkgr.stock"), WWW: filepath.Join(dir, "www")}
	s.Self, _ = os.Executable()
	gr, err := goRun(repoDir, "env", "GOROOT")
	if err != nil {
		return s, err
	}
	ov := filepath.Join(dir, "ov")
	os.MkdirAll(ov, 0755)
	js, err := writeOverlay(ov, strings.TrimSpace(gr), repoDir)
	if err != nil {
		return s, err
	}
	if p := os.Getenv("MCDEV_BIN"); p != "" { // development only
		s.Bin, s.Stock = p+".mc", p+".stock"
		return s, nil
	}
	if _, err := goRun(repoDir, "build", "-trimpath", "-ldflags=-s -w", "-o", s.Stock, "./cmd/pkgr"); err != nil {
		return s, err
	}
	if _, err := goRun(repoDir, "build", "-overlay", js, "-ldflags=-s -w", "-o", s.Bin, "./cmd/pkgr"); err != nil {
		return s, err
	}
	return s, nil
}

func (s *Session) close() {
	if s.Scratch != "" && strings.Contains(s.Scratch, "/vmc") {
		os.RemoveAll(s.Scratch)
	}
}
