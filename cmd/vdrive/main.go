// vdrive builds the simulator from the current tree of the repository and
// drives it: seeded search, minimisation, replay, evidence.
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "overlay":
		_, verif := dirs()
		f, n, err := buildOverlay(os.Args[2], verif, os.Args[3])
		fmt.Println(f, len(n), err)
		if err != nil {
			os.Exit(3)
		}
	case "setup": // build once, to see that everything is there
		repo, verif := dirs()
		b := newBuild(repo, verif)
		fmt.Printf("simulator builds in %.1fs; %d scenarios\n", b.took.Seconds(), len(b.scenarios))
		b.close()
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "sweep":
		os.Exit(cmdSweep(os.Args[2:]))
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: vdrive check PROP [quick|thorough] | replay FILE | sweep ... | overlay REPO OUT")
	os.Exit(3)
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", args...)
	os.Exit(3)
}
