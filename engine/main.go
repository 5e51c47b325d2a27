package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"
)

var jobDeadline time.Time
var termLimit uint32

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	if p := os.Getenv("SVC_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "ir":
		m, err := buildIR(parseTune(os.Args[2]), os.Args[3])
		fmt.Println(m, err)
	case "job":
		debug.SetGCPercent(500)
		gb, _ := strconv.Atoi(os.Getenv("SVC_MEM"))
		if gb == 0 {
			gb = 3
		}
		debug.SetMemoryLimit(int64(gb) << 30)
		termLimit = uint32(gb) * 2500000
		if n, _ := strconv.Atoi(os.Getenv("SVC_SECS")); n > 0 {
			jobDeadline = time.Now().Add(time.Duration(n) * time.Second)
		}
		r := runJob(os.Args[3], os.Args[2])
		fmt.Println(string(r.json()))
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(checkMain(os.Args[2], tier))
	case "manifest":
		writeManifest()
	default:
		os.Exit(2)
	}
}
