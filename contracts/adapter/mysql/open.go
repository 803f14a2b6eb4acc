package mysql

import (
	"database/sql"

	"github.com/k0kubun/sqldef/adapter"
	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

// The driver of the dialect is given the connection string of the configured settings.
//
//@ spec NewDatabase
//@ prop C19
//@ nonative
func myNewDatabaseZ(config adapter.Config) (adapter.Database, error) {
	db, err := sql.Open("mysql", mysqlBuildDSN(config))
	if err != nil {
		return nil, err
	}
	return &MysqlDatabase{config: config, db: db}, nil
}

// The connection is the one that was opened, and closing closes it.
//
//@ spec MysqlDatabase.DB
//@ prop C12 C14 C19
//@ nonative
func myDBZ(d *MysqlDatabase) *sql.DB { return d.db }

//@ spec MysqlDatabase.Close
//@ prop C19
//@ nonative
func myCloseZ(d *MysqlDatabase) error { return d.db.Close() }
