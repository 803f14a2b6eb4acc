package main

import (
	"fmt"
	"log"
	"os"
	"syscall"

	"github.com/jessevdk/go-flags"
	"github.com/k0kubun/sqldef"
	"github.com/k0kubun/sqldef/adapter"
	"github.com/k0kubun/sqldef/adapter/postgres"
	"github.com/k0kubun/sqldef/schema"
	zz "github.com/k0kubun/sqldef/zzverif"
	"golang.org/x/term"
)

var _ = zz.Requires

// Each option of the command line reaches the setting it is named after, and no other.
//
//@ spec parseOptions
//@ prop C12 C13 C15 C19
//@ seed -Ubob
//@ seed --user=root
//@ seed -Wsecret
//@ seed --password=pw
//@ seed -ha
//@ seed --host=db.example
//@ seed -p5433
//@ seed --port=12
//@ seed --password-prompt
//@ seed --file=c
//@ seed -fa
//@ seed --dry-run
//@ seed --export
//@ seed --skip-drop
//@ seed --help
//@ seed --version
func pgParseOptionsZ(args []string) (adapter.Config, *sqldef.Options) {
	var o struct {
		User     string `short:"U" long:"user" default:"postgres"`
		Password string `short:"W" long:"password"`
		Host     string `short:"h" long:"host" default:"127.0.0.1"`
		Port     uint   `short:"p" long:"port" default:"5432"`
		Prompt   bool   `long:"password-prompt"`
		File     string `short:"f" long:"file" default:"-"`
		DryRun   bool   `long:"dry-run"`
		Export   bool   `long:"export"`
		SkipDrop bool   `long:"skip-drop"`
		Help     bool   `long:"help"`
		Version  bool   `long:"version"`
	}
	parser := flags.NewParser(&o, flags.None)
	rest, err := parser.ParseArgs(args)
	if err != nil {
		log.Fatal(err)
	}
	if o.Help {
		parser.WriteHelp(os.Stdout)
		os.Exit(0)
	}
	if o.Version {
		fmt.Print(version + "\n")
		os.Exit(0)
	}
	if len(rest) == 0 {
		fmt.Print("No database is specified!\n\n")
		parser.WriteHelp(os.Stdout)
		os.Exit(1)
	}
	if len(rest) > 1 {
		fmt.Printf("Multiple databases are given: %v\n\n", rest)
		parser.WriteHelp(os.Stdout)
		os.Exit(1)
	}
	password, ok := os.LookupEnv("PGPASSWORD")
	if !ok {
		password = o.Password
	}
	if o.Prompt {
		fmt.Print("Enter Password: ")
		typed, err := term.ReadPassword(int(syscall.Stdin))
		if err != nil {
			log.Fatal(err)
		}
		password = string(typed)
	}
	config := adapter.Config{DbName: rest[0], User: o.User, Password: password, Host: o.Host, Port: int(o.Port)}
	if _, err := os.Stat(config.Host); !os.IsNotExist(err) {
		config.Socket = config.Host
	}
	return config, &sqldef.Options{SqlFile: o.File, DryRun: o.DryRun, Export: o.Export, SkipDrop: o.SkipDrop}
}

// The database named on the command line is opened, and handed with the options to the run for its dialect.
//
//@ spec main
//@ prop C12 C13 C15 C19
//@ nonative
//@ external github.com/k0kubun/sqldef.Run
//@ external adapter/postgres.NewDatabase
func pgMainZ() {
	zz.Requires(len(os.Args) > 0)
	config, options := parseOptions(os.Args[1:])
	db, err := postgres.NewDatabase(config)
	if err != nil {
		log.Fatal(err)
	}
	sqldef.Run(schema.GeneratorModePostgres, db, options)
	db.Close()
}
