package main

import (
	"os"
	"runtime/pprof"
)

func profStart(f string) {
	w, _ := os.Create(f)
	pprof.StartCPUProfile(w)
}
func profStop() { pprof.StopCPUProfile() }
