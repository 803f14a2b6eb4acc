package adapter

import (
	"fmt"
	"strings"

	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

// SkippedZ: with skip-drop, whatever contains DROP is not executed.
func SkippedZ(ddl string, skipDrop bool) bool {
	return skipDrop && strings.Contains(ddl, "DROP")
}

// PlanLineZ is the line that stands for a statement of the plan, in a dry run and when applying.
func PlanLineZ(ddl string, skipDrop bool) string {
	if SkippedZ(ddl, skipDrop) {
		return "-- Skipped: " + ddl + ";\n"
	}
	return ddl + ";\n"
}

// Applying: one transaction; every statement is shown, then executed unless skipped; the first failure rolls back, ends
// it and is the result; otherwise the result is that of the commit.
//
//@ spec RunDDLs
//@ prop C12 C13 C14 C15
//@ lockstep
func RunDDLsZ(d Database, ddls []string, skipDrop bool) error {
	zz.Requires(d != nil)
	tx, err := d.DB().Begin()
	if err != nil {
		return err
	}
	fmt.Print("-- Apply --\n")
	for i := range ddls {
		fmt.Print(PlanLineZ(ddls[i], skipDrop))
		if SkippedZ(ddls[i], skipDrop) {
			continue
		}
		_, err := tx.Exec(ddls[i])
		if err != nil {
			tx.Rollback()
			return err
		}
	}
	return tx.Commit()
}

// The dump: the definition of every table in the order of the list, then the views, then the triggers, joined by ";\n\n";
// the first failure is the result.
//
//@ spec DumpDDLs
//@ prop C12 C16
//@ lockstep
func DumpDDLsZ(d Database) (string, error) {
	zz.Requires(d != nil)
	r := []string{}
	ts, err := d.TableNames()
	if err != nil {
		return "", err
	}
	for i := range ts {
		s, err := d.DumpTableDDL(ts[i])
		if err != nil {
			return "", err
		}
		r = append(r, s)
	}
	vs, err := d.Views()
	if err != nil {
		return "", err
	}
	gs, err := d.Triggers()
	if err != nil {
		return "", err
	}
	r = append(r, vs...)
	r = append(r, gs...)
	return strings.Join(r, ";\n\n"), nil
}
