package sqldef

import (
	"fmt"
	"io/ioutil"
	"log"
	"os"

	"github.com/k0kubun/sqldef/adapter"
	"github.com/k0kubun/sqldef/schema"
	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

// The dry run shows every statement of the plan on the line that applying would show for it.
//
//@ spec showDDLs
//@ prop C12 C13 C15
//@ lockstep
func showDDLsZ(ddls []string, skipDrop bool) {
	fmt.Print("-- dry run --\n")
	for i := range ddls {
		fmt.Print(adapter.PlanLineZ(ddls[i], skipDrop))
	}
}

// The desired schema is everything in the file, or everything on standard input for "-", which must not be a terminal.
//
//@ spec readFile
//@ prop C12 C16
func readFileZ(filepath string) (string, error) {
	if filepath == "-" {
		st, err := os.Stdin.Stat()
		zz.Requires(err == nil && st != nil)
		if st.Mode()&os.ModeCharDevice != 0 {
			return "", fmt.Errorf("stdin is not piped")
		}
		b, err := ioutil.ReadAll(os.Stdin)
		if err != nil {
			return "", err
		}
		return string(b), nil
	}
	b, err := ioutil.ReadFile(filepath)
	if err != nil {
		return "", err
	}
	return string(b), nil
}

// One run: dump; export shows the dump and does nothing else; otherwise the plan for the desired schema is computed from
// it, and shown (dry run) or applied. An empty plan is only reported. Every failure ends the process with an error.
//
//@ spec Run
//@ prop C12 C13 C15 C16
//@ seed CREATE TABLE users (id int)
//@ seed CREATE TABLE users (id int, name int)
//@ seed CREATE TABLE users (name int NOT NULL, age int)
//@ seed CREATE TABLE posts (id int, author int)
//@ seed CREATE TABLE logs (id int)
//@ external schema.GenerateIdempotentDDLs
func RunZ(generatorMode schema.GeneratorMode, db adapter.Database, options *Options) {
	zz.Requires(db != nil && options != nil)
	dump, err := adapter.DumpDDLs(db)
	if err != nil {
		log.Fatal("dump failed")
	}
	if options.Export {
		if dump == "" {
			fmt.Print("-- No table exists --\n")
		} else {
			fmt.Print(dump + ";\n")
		}
		return
	}
	desired, err := readFile(options.SqlFile)
	if err != nil {
		log.Fatal("no schema file")
	}
	plan, err := schema.GenerateIdempotentDDLs(generatorMode, desired, dump)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	if len(plan) == 0 {
		fmt.Print("-- Nothing is modified --\n")
		return
	}
	if options.DryRun {
		showDDLs(plan, options.SkipDrop)
		return
	}
	if adapter.RunDDLs(db, plan, options.SkipDrop) != nil {
		log.Fatal("failed")
	}
}
