// Command mkoverlay generates the build overlay of the simulator:
//
//   - a patched copy of the parts of the Go standard library that decide
//     nondeterminism (scheduler, clock, randomness, locks, channels, file
//     system calls, dialing), and
//   - an instrumented copy of the code under test (statement level
//     scheduling points).
//
// It changes nothing in /repo or GOROOT: the result is a set of files below
// the output directory and an overlay.json for 'go build -overlay'.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

var (
	goroot   = flag.String("goroot", "/usr/lib/go-1.21", "")
	out      = flag.String("out", "", "output directory")
	repo     = flag.String("repo", "/repo", "")
	modc     = flag.String("modcache", "/root/go/pkg/mod", "")
	std      = flag.String("std", "", "directory with new std files (zsim_*.go)")
	noinst   = flag.Bool("noinst", false, "do not instrument the code under test")
	nodyn    = flag.Bool("nodyn", false, "the same size constants for every run")
	noshrink = flag.Bool("noshrink", false, "keep the size constants of the code under test")
	overlay  = map[string]string{}
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+f+"\n", a...)
	os.Exit(3)
}

func check(err error) {
	if err != nil {
		die("%v", err)
	}
}

func emit(orig string, data []byte) {
	name := strings.ReplaceAll(strings.TrimPrefix(orig, "/"), "/", "__")
	dst := filepath.Join(*out, name)
	if old, err := os.ReadFile(dst); err != nil || string(old) != string(data) {
		check(os.WriteFile(dst, data, 0o644))
	}
	overlay[orig] = dst
}

func main() {
	flag.Parse()
	if *out == "" {
		die("-out missing")
	}
	abs, err := filepath.Abs(*out)
	check(err)
	*out = abs
	check(os.MkdirAll(*out, 0o755))
	patchStd()
	if !*noinst {
		instrumentAll()
	}
	check(os.WriteFile(filepath.Join(*out, "points.txt"), []byte(strings.Join(points, "\n")), 0o644))
	b, err := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}
