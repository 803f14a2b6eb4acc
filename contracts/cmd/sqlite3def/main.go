package main

import (
	"fmt"
	"log"
	"os"

	"github.com/jessevdk/go-flags"
	"github.com/k0kubun/sqldef"
	"github.com/k0kubun/sqldef/adapter"
	"github.com/k0kubun/sqldef/adapter/sqlite3"
	"github.com/k0kubun/sqldef/schema"
	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

// Each option of the command line reaches the setting it is named after, and no other.
//
//@ spec parseOptions
//@ prop C12 C13 C15 C19
//@ seed -fa
//@ seed --file=b
//@ seed --dry-run
//@ seed --export
//@ seed --skip-drop
//@ seed --help
//@ seed --version
func liteParseOptionsZ(args []string) (adapter.Config, *sqldef.Options) {
	var o struct {
		File     string `short:"f" long:"file" default:"-"`
		DryRun   bool   `long:"dry-run"`
		Export   bool   `long:"export"`
		SkipDrop bool   `long:"skip-drop"`
		Help     bool   `long:"help"`
		Version  bool   `long:"version"`
	}
	parser := flags.NewParser(&o, flags.None)
	rest, err := parser.ParseArgs(args)
	if err != nil {
		log.Fatal(err)
	}
	if o.Help {
		parser.WriteHelp(os.Stdout)
		os.Exit(0)
	}
	if o.Version {
		fmt.Print(version + "\n")
		os.Exit(0)
	}
	if len(rest) == 0 {
		fmt.Print("No database is specified!\n\n")
		parser.WriteHelp(os.Stdout)
		os.Exit(1)
	}
	if len(rest) > 1 {
		fmt.Printf("Multiple databases are given: %v\n\n", rest)
		parser.WriteHelp(os.Stdout)
		os.Exit(1)
	}
	config := adapter.Config{DbName: rest[0]}
	if _, err := os.Stat(config.Host); !os.IsNotExist(err) {
		config.Socket = config.Host
	}
	return config, &sqldef.Options{SqlFile: o.File, DryRun: o.DryRun, Export: o.Export, SkipDrop: o.SkipDrop}
}

// The database named on the command line is opened, and handed with the options to the run for its dialect.
//
//@ spec main
//@ prop C12 C13 C15 C19
//@ nonative
//@ external github.com/k0kubun/sqldef.Run
//@ external adapter/sqlite3.NewDatabase
func liteMainZ() {
	zz.Requires(len(os.Args) > 0)
	config, options := parseOptions(os.Args[1:])
	db, err := sqlite3.NewDatabase(config)
	if err != nil {
		log.Fatal(err)
	}
	sqldef.Run(schema.GeneratorModeSQLite3, db, options)
	db.Close()
}
