package mysql

import (
	"strconv"
	"strings"

	driver "github.com/go-sql-driver/mysql"
	"github.com/k0kubun/sqldef/adapter"
	zz "github.com/k0kubun/sqldef/zzverif"
)

//@ spec MysqlDatabase.TableNames
//@ prop C17
//@ lockstep
func mysqlTableNamesZ(d *MysqlDatabase) ([]string, error) {
	zz.Requires(d != nil)
	rows, err := d.db.Query("show full tables where Table_Type != 'VIEW'")
	if err != nil {
		return nil, err
	}
	r := []string{}
	for rows.Next() {
		var a, b string
		if err := rows.Scan(&a, &b); err != nil {
			return nil, err
		}
		r = append(r, a)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

//@ spec MysqlDatabase.DumpTableDDL
//@ prop C01 C17
func mysqlDumpTableDDLZ(d *MysqlDatabase, table string) (string, error) {
	zz.Requires(d != nil)
	var a, b string
	err := d.db.QueryRow("show create table `" + strings.ReplaceAll(table, "`", "``") + "`;").Scan(&a, &b)
	if err != nil {
		return "", err
	}
	return b, nil
}

//@ spec MysqlDatabase.Views
//@ prop C17
//@ lockstep
func mysqlViewsZ(d *MysqlDatabase) ([]string, error) {
	zz.Requires(d != nil)
	rows, err := d.db.Query("show full tables where TABLE_TYPE = 'VIEW'")
	if err != nil {
		return nil, err
	}
	var r []string
	for rows.Next() {
		var a, b, c string
		if err := rows.Scan(&a, &b); err != nil {
			return nil, err
		}
		if err := d.db.QueryRow("select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_NAME = '" + a + "';").Scan(&c); err != nil {
			return nil, err
		}
		r = append(r, "CREATE VIEW "+a+" AS "+c)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

//@ spec MysqlDatabase.Triggers
//@ prop C17
//@ lockstep
func mysqlTriggersZ(d *MysqlDatabase) ([]string, error) {
	zz.Requires(d != nil)
	rows, err := d.db.Query("show triggers")
	if err != nil {
		return nil, err
	}
	var r []string
	for rows.Next() {
		var name, event, table, body, timing, x1, x2, x3, x4, x5, x6 string
		if err := rows.Scan(&name, &event, &table, &body, &timing, &x1, &x2, &x3, &x4, &x5, &x6); err != nil {
			return nil, err
		}
		r = append(r, "CREATE TRIGGER "+name+" "+timing+" "+event+" ON "+table+" FOR EACH ROW "+body+";")
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

// The connection string denotes exactly the configured settings.
//
//@ spec mysqlBuildDSN
//@ prop C19
func mysqlBuildDSNZ(config adapter.Config) string {
	c := driver.NewConfig()
	c.User, c.Passwd, c.DBName = config.User, config.Password, config.DbName
	c.Net, c.Addr = "unix", config.Socket
	if config.Socket == "" {
		c.Net, c.Addr = "tcp", config.Host+":"+strconv.Itoa(config.Port)
	}
	return c.FormatDSN()
}
