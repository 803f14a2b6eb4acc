package postgres

import (
	"database/sql"

	"github.com/k0kubun/sqldef/adapter"
	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

// The driver of the dialect is given the connection string of the configured settings.
//
//@ spec NewDatabase
//@ prop C19
//@ nonative
func pgNewDatabaseZ(config adapter.Config) (adapter.Database, error) {
	db, err := sql.Open("postgres", postgresBuildDSN(config))
	if err != nil {
		return nil, err
	}
	return &PostgresDatabase{config: config, db: db}, nil
}

// The connection is the one that was opened, and closing closes it.
//
//@ spec PostgresDatabase.DB
//@ prop C12 C14 C19
//@ nonative
func pgDBZ(d *PostgresDatabase) *sql.DB { return d.db }

//@ spec PostgresDatabase.Close
//@ prop C19
//@ nonative
func pgCloseZ(d *PostgresDatabase) error { return d.db.Close() }
