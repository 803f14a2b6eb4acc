package sqlite3

import (
	"database/sql"

	"github.com/k0kubun/sqldef/adapter"
	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

// The driver of the dialect is given the connection string of the configured settings.
//
//@ spec NewDatabase
//@ prop C19
//@ nonative
func liteNewDatabaseZ(config adapter.Config) (adapter.Database, error) {
	db, err := sql.Open("sqlite3", config.DbName)
	if err != nil {
		return nil, err
	}
	return &Sqlite3Database{config: config, db: db}, nil
}

// The connection is the one that was opened, and closing closes it.
//
//@ spec Sqlite3Database.DB
//@ prop C12 C14 C19
//@ nonative
func liteDBZ(d *Sqlite3Database) *sql.DB { return d.db }

//@ spec Sqlite3Database.Close
//@ prop C19
//@ nonative
func liteCloseZ(d *Sqlite3Database) error { return d.db.Close() }
