package mssql

import (
	"database/sql"

	"github.com/k0kubun/sqldef/adapter"
	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

// The driver of the dialect is given the connection string of the configured settings.
//
//@ spec NewDatabase
//@ prop C19
//@ nonative
func msNewDatabaseZ(config adapter.Config) (adapter.Database, error) {
	db, err := sql.Open("sqlserver", mssqlBuildDSN(config))
	if err != nil {
		return nil, err
	}
	return &MssqlDatabase{config: config, db: db}, nil
}

// The connection is the one that was opened, and closing closes it.
//
//@ spec MssqlDatabase.DB
//@ prop C12 C14 C19
//@ nonative
func msDBZ(d *MssqlDatabase) *sql.DB { return d.db }

//@ spec MssqlDatabase.Close
//@ prop C19
//@ nonative
func msCloseZ(d *MssqlDatabase) error { return d.db.Close() }
