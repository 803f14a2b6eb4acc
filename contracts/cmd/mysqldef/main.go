package main

import (
	"fmt"
	"log"
	"os"
	"syscall"

	"github.com/jessevdk/go-flags"
	"github.com/k0kubun/sqldef"
	"github.com/k0kubun/sqldef/adapter"
	"github.com/k0kubun/sqldef/adapter/mysql"
	"github.com/k0kubun/sqldef/schema"
	zz "github.com/k0kubun/sqldef/zzverif"
	"golang.org/x/term"
)

var _ = zz.Requires

// Each option of the command line reaches the setting it is named after, and no other.
//
//@ spec parseOptions
//@ prop C12 C13 C15 C19
//@ seed -uroot
//@ seed --user=bob
//@ seed -psecret
//@ seed --password=pw
//@ seed -ha
//@ seed --host=db.example
//@ seed -P3307
//@ seed --port=12
//@ seed -S/tmp/x.sock
//@ seed --socket=b
//@ seed --password-prompt
//@ seed --enable-cleartext-plugin
//@ seed --file=c
//@ seed -fa
//@ seed --dry-run
//@ seed --export
//@ seed --skip-drop
//@ seed --help
//@ seed --version
func myParseOptionsZ(args []string) (adapter.Config, *sqldef.Options) {
	var o struct {
		User     string `short:"u" long:"user" default:"root"`
		Password string `short:"p" long:"password"`
		Host     string `short:"h" long:"host" default:"127.0.0.1"`
		Port     uint   `short:"P" long:"port" default:"3306"`
		Socket   string `short:"S" long:"socket"`
		Prompt   bool   `long:"password-prompt"`
		File     string `long:"file" default:"-"`
		DryRun   bool   `long:"dry-run"`
		Export   bool   `long:"export"`
		SkipDrop bool   `long:"skip-drop"`
		Help     bool   `long:"help"`
		Version  bool   `long:"version"`
	}
	parser := flags.NewParser(&o, flags.None)
	rest, err := parser.ParseArgs(args)
	if err != nil {
		log.Fatal(err)
	}
	if o.Help {
		parser.WriteHelp(os.Stdout)
		os.Exit(0)
	}
	if o.Version {
		fmt.Print(version + "\n")
		os.Exit(0)
	}
	if len(rest) == 0 {
		fmt.Print("No database is specified!\n\n")
		parser.WriteHelp(os.Stdout)
		os.Exit(1)
	}
	if len(rest) > 1 {
		fmt.Printf("Multiple databases are given: %v\n\n", rest)
		parser.WriteHelp(os.Stdout)
		os.Exit(1)
	}
	password, ok := os.LookupEnv("MYSQL_PWD")
	if !ok {
		password = o.Password
	}
	if o.Prompt {
		fmt.Print("Enter Password: ")
		typed, err := term.ReadPassword(int(syscall.Stdin))
		if err != nil {
			log.Fatal(err)
		}
		password = string(typed)
	}
	config := adapter.Config{DbName: rest[0], User: o.User, Password: password, Host: o.Host, Port: int(o.Port), Socket: o.Socket}
	return config, &sqldef.Options{SqlFile: o.File, DryRun: o.DryRun, Export: o.Export, SkipDrop: o.SkipDrop}
}

// The database named on the command line is opened, and handed with the options to the run for its dialect.
//
//@ spec main
//@ prop C12 C13 C15 C19
//@ nonative
//@ external github.com/k0kubun/sqldef.Run
//@ external adapter/mysql.NewDatabase
func myMainZ() {
	zz.Requires(len(os.Args) > 0)
	config, options := parseOptions(os.Args[1:])
	db, err := mysql.NewDatabase(config)
	if err != nil {
		log.Fatal(err)
	}
	sqldef.Run(schema.GeneratorModeMysql, db, options)
	db.Close()
}
