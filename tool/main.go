package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"

	"polyverif/chk"
	"polyverif/dom"
	"polyverif/genchk"
	"polyverif/gochk"
	"polyverif/rchk"
	"polyverif/report"
	"polyverif/tchk"
)

var checks = map[string]func(repo string, r *report.Report){
	"C01": gochk.Encoders,
	"C02": gochk.Decoders,
	"C03": gochk.NoPanic,
	"C04": gochk.Malformed,
	"C05": gochk.Mismatch,
	"C06": gochk.Aliasing,
	"C07": gochk.Buffers,
	"C08": gochk.Pools,
	"C09": gochk.SharedState,
	"C10": gochk.Allocation,
	"C11": rchk.RustEncoders,
	"C12": rchk.RustDecoders,
	"C13": rchk.RustNoPanic,
	"C14": rchk.RustMalformed,
	"C15": rchk.RustMismatch,
	"C16": tchk.Encoders,
	"C17": tchk.Decoders,
	"C18": tchk.Malformed,
	"C19": tchk.Mismatch,
	"C20": tchk.Copying,
	"C21": func(repo string, r *report.Report) {
		r.Technique = "proof"
		r.Rule = "the kind numbers of the five implementations, after evaluation of their initialisation or constants, are compared with one table; the conversions between numbers and kinds are evaluated abstractly for every byte value; every operation's kind bytes are compared with the table"
		r.Trusted = []string{"the parsers and type checkers of Go, Rust, C and TypeScript", "the transfer functions of tool/dom and of the interpreters"}
		r.MinOblig = 250
		st, fns := &dom.Stats{}, map[string]int{}
		gochk.Kinds(repo, r, st, fns)
		rchk.Kinds(repo, r, st, fns)
		tchk.Kinds(repo, r, st, fns)
		chk.Cover(r, st, fns)
	},
	"C22": rchk.Header,
	"C23": rchk.CStatus,
	"C24": rchk.CMemory,
	"C25": rchk.CValues,
	"C26": genchk.Agree,
	"C27": genchk.RoundTrip,
	"C28": genchk.Compiles,
	"C29": genchk.Stable,
	"C30": genchk.Plugins,
	"C31": genchk.RustCompiles,
	"C32": genchk.RustRoundTrip,
	"C33": genchk.Reserve,
	"C34": genchk.TSCompiles,
	"C35": genchk.TSRoundTrip,
	"C36": genchk.Versions,
	"C37": gochk.Errors,
	"C38": genchk.Hooks,
}

func main() {
	if len(os.Args) == 4 && os.Args[1] == "gen" {
		repo := os.Getenv("POLYVERIF_REPO")
		if repo == "" {
			repo = "/repo"
		}
		genchk.Dump(repo, os.Args[2], os.Args[3])
		return
	}
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Println("usage: polyverif check <property>")
		os.Exit(2)
	}
	if f := os.Getenv("POLYVERIF_PROFILE"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		defer pprof.StopCPUProfile()
	}
	id := os.Args[2]
	repo := os.Getenv("POLYVERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("POLYVERIF_DIR")
	if verif == "" {
		exe, _ := os.Executable()
		verif = filepath.Dir(filepath.Dir(exe))
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	f := checks[id]
	if f == nil {
		fmt.Println("no check for", id)
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	r := report.New(id, tier)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("POLYVERIF_TRACE") != "" {
					panic(e)
				}
				r.Undecided("internal", "analysis stopped: %v", e)
			}
		}()
		f(repo, r)
	}()
	pprof.StopCPUProfile()
	os.Exit(r.Finish(verif))
}
