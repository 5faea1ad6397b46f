package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "fakeR" {
		os.Exit(FakeRMain(os.Args[2], os.Args[3:]))
	}
	if len(os.Args) > 2 && os.Args[1] == "overlay" {
		p, err := writeOverlay(os.Args[2], os.Args[3], os.Args[4])
		fmt.Println(p, err)
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "manifest" {
		manifest()
		return
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc <property> [quick|thorough]")
		os.Exit(2)
	}
	if os.Args[1] == "explore" {
		// the unprivileged half: everything that runs the program under test
		os.Exit(exploreMain(os.Args[2], os.Args[3], os.Args[4]))
	}
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	os.Exit(supervise(os.Args[1], tier))
}
