package sqlite3

import (
	zz "github.com/k0kubun/sqldef/zzverif"
)

// The rows of a catalog query come back as they are and in order; a failure of the query, of reading a row or of the
// row stream is the result.
//
//@ spec Sqlite3Database.TableNames
//@ prop C17
//@ lockstep
func sqliteTableNamesZ(d *Sqlite3Database) ([]string, error) {
	zz.Requires(d != nil)
	rows, err := d.db.Query("select tbl_name from sqlite_master where type = 'table' and tbl_name not like 'sqlite_%'")
	if err != nil {
		return nil, err
	}
	r := []string{}
	for rows.Next() {
		var a string
		if err := rows.Scan(&a); err != nil {
			return nil, err
		}
		r = append(r, a)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

//@ spec Sqlite3Database.Views
//@ prop C17
//@ lockstep
func sqliteViewsZ(d *Sqlite3Database) ([]string, error) {
	zz.Requires(d != nil)
	rows, err := d.db.Query("select sql from sqlite_master where type = 'view';")
	if err != nil {
		return nil, err
	}
	var r []string
	for rows.Next() {
		var a string
		if err := rows.Scan(&a); err != nil {
			return nil, err
		}
		r = append(r, a)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

//@ spec Sqlite3Database.DumpTableDDL
//@ prop C17
func sqliteDumpTableDDLZ(d *Sqlite3Database, table string) (string, error) {
	zz.Requires(d != nil)
	var a string
	err := d.db.QueryRow("select sql from sqlite_master where tbl_name = ?", table).Scan(&a)
	return a, err
}

//@ spec Sqlite3Database.Triggers
//@ prop C17
func sqliteTriggersZ(d *Sqlite3Database) ([]string, error) {
	return nil, nil
}
