package sqlparser

import (
	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

// The key options of a column under names that the contracts of the planner can use.
const (
	ZZKeyNone       = colKeyNone
	ZZKeyPrimary    = colKeyPrimary
	ZZKeySpatialKey = colKeySpatialKey
	ZZKeyUnique     = colKeyUnique
	ZZKeyUniqueKey  = colKeyUniqueKey
	ZZKey           = colKey
)
