// The harness runs the real code for the checks in /verif: see DESIGN.md.
package main

import (
	"flag"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: harness command [flags]")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	profile := fs.String("profile", "", "what to run")
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 1000, "how much")
	out := fs.String("out", "", "output file")
	in := fs.String("in", "", "input file")
	fs.Parse(os.Args[2:])
	startWatchdog()
	_ = in
	switch os.Args[1] {
	case "store-replay":
		storeReplay(*in, *out)
	case "catalog-replay":
		catalogReplay(*in, *out)
	case "catalog-keyword":
		catalogKeyword(*profile, *out)
	case "session-random":
		sesRandom(*profile, *seed, *n, *out)
	case "session-replay":
		sesReplay(*profile, *in, *out)
	case "session-conc":
		sesConc(*seed, *n, *out)
	case "typed-replay":
		typedReplay(*in, *out)
	case "typed-random":
		typedRandom(*seed, *n, *out)
	case "catalog-random":
		catalogRandom(*profile, *seed, *n, *out)
	case "sql-random":
		sqlRandom(*profile, *seed, *n, *out)
	case "sql-big":
		sqlBig(*profile, *seed, *n, *out)
	case "sql-deep":
		sqlDeep(*seed, *n, *out)
	case "sql-replay":
		sqlReplay(*in, *out)
	case "sql-child":
		sqlChild()
	case "store-conc":
		storeConc(*seed, *n, *out)
	case "pure":
		pureRandom(*profile, *seed, *n, *out)
	case "ident":
		identRandom(*profile, *seed, *n, *out)
	case "ident-conc":
		identConc(*seed, *n, *out)
	case "store-random":
		storeRandom(*profile, *seed, *n, *out)
	default:
		fatal("unknown command", os.Args[1])
	}
}
