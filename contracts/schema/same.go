package schema

import (
	"sort"
	"strings"

	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

// typeZ is the name a type alias stands for.
func typeZ(m GeneratorMode, t string) string {
	if t == "bool" || t == "boolean" {
		if m == GeneratorModeMysql {
			return "tinyint"
		}
		return "boolean"
	}
	if t == "int" {
		return "integer"
	}
	if t == "char" {
		return "character"
	}
	if t == "varchar" {
		return "character varying"
	}
	return t
}

//@ spec Generator.normalizeDataType
//@ prop C06 C07
func normalizeDataTypeZ(g *Generator, dataType string) string {
	return typeZ(g.mode, dataType)
}

// A length is compared when both sides state one.
//
//@ spec Generator.haveSameDataType
//@ prop C06 C07
//@ reveal sameTypeZ
func haveSameDataTypeZ(g *Generator, current Column, desired Column) bool {
	return sameTypeZ(g.mode, current, desired)
}

//@ opaque
func sameTypeZ(m GeneratorMode, current Column, desired Column) bool {
	if typeZ(m, current.typeName) != typeZ(m, desired.typeName) {
		return false
	}
	if !zz.Same(current.enumValues, desired.enumValues) {
		return false
	}
	if current.length != nil && desired.length != nil && current.length.intVal != desired.length.intVal {
		return false
	}
	return current.array == desired.array
}

// reportedNotNullZ is the nullability MySQL reports.
func reportedNotNullZ(c Column, implied bool) bool {
	if c.notNull != nil && *c.notNull {
		return true
	}
	return implied
}

//@ spec Generator.haveSameColumnDefinition
//@ prop C06 C07
//@ reveal sameColumnZ
func haveSameColumnDefinitionZ(g *Generator, current Column, desired Column) bool {
	return sameColumnZ(g.mode, current, desired)
}

//@ opaque
func sameColumnZ(m GeneratorMode, current Column, desired Column) bool {
	if !sameTypeZ(m, current, desired) || current.unsigned != desired.unsigned || current.timezone != desired.timezone {
		return false
	}
	if reportedNotNullZ(current, false) != reportedNotNullZ(desired, desired.keyOption == ColumnKeyPrimary) {
		return false
	}
	if !sameCheckZ(current.check, desired.check) {
		return false
	}
	if desired.charset != "" && desired.charset != current.charset {
		return false
	}
	if desired.collate != "" && desired.collate != current.collate {
		return false
	}
	return zz.Same(current.onUpdate, desired.onUpdate)
}

//@ spec areSameCheckDefinition
//@ prop C06 C07
//@ reveal sameCheckZ
func areSameCheckDefinitionZ(checkA *CheckDefinition, checkB *CheckDefinition) bool {
	return sameCheckZ(checkA, checkB)
}

//@ opaque
func sameCheckZ(checkA *CheckDefinition, checkB *CheckDefinition) bool {
	if checkA == nil || checkB == nil {
		return checkA == nil && checkB == nil
	}
	return checkA.notForReplication == checkB.notForReplication && checkA.definition == checkB.definition
}

//@ spec areSameIdentityDefinition
//@ prop C06 C07
//@ reveal sameIdentityZ
func areSameIdentityDefinitionZ(identityA *Identity, identityB *Identity) bool {
	return sameIdentityZ(identityA, identityB)
}

//@ opaque
func sameIdentityZ(identityA *Identity, identityB *Identity) bool {
	if identityA == nil || identityB == nil {
		return identityA == nil && identityB == nil
	}
	return identityA.notForReplication == identityB.notForReplication && identityA.behavior == identityB.behavior
}

//@ spec isNullValue
//@ prop C06 C07
func isNullValueZ(value *Value) bool {
	if value == nil {
		return false
	}
	return value.valueType == ValueTypeValArg && string(value.raw) == "null"
}

// defaultZ is the declared default, without an explicit NULL, which is the same as none.
func defaultZ(d *DefaultDefinition) *Value {
	if d == nil || isNullValueZ(d.value) {
		return nil
	}
	return d.value
}

//@ spec areSameDefaultValue
//@ prop C06 C07
//@ reveal sameDefaultZ
func areSameDefaultValueZ(currentDefault *DefaultDefinition, desiredDefault *DefaultDefinition) bool {
	return sameDefaultZ(currentDefault, desiredDefault)
}

//@ opaque
func sameDefaultZ(currentDefault *DefaultDefinition, desiredDefault *DefaultDefinition) bool {
	return areSameValueZ(defaultZ(currentDefault), defaultZ(desiredDefault))
}

// Values are compared by their text; trailing zeros that the database adds to a decimal do not count.
//
//@ spec areSameValue
//@ prop C06 C07
func areSameValueZ(current, desired *Value) bool {
	if current == nil || desired == nil {
		return current == nil && desired == nil
	}
	c, d := string(current.raw), string(desired.raw)
	if desired.valueType != ValueTypeFloat || len(c) <= len(d) {
		return c == d
	}
	if c[:len(d)] != d || strings.ContainsAny(d, "eE") {
		return false
	}
	return strings.Trim(c[len(d):], "0") == ""
}

func bodyZ(s string) string {
	return strings.ToLower(strings.Replace(s, " ", "", -1))
}

//@ spec areSameTriggerDefinition
//@ prop C06 C07
func areSameTriggerDefinitionZ(triggerA, triggerB *Trigger) bool {
	zz.Requires(triggerA != nil && triggerB != nil)
	if triggerA.time != triggerB.time || triggerA.event != triggerB.event || triggerA.tableName != triggerB.tableName {
		return false
	}
	if len(triggerA.body) != len(triggerB.body) {
		return false
	}
	for i := range triggerA.body {
		if bodyZ(triggerA.body[i]) != bodyZ(triggerB.body[i]) {
			return false
		}
	}
	return true
}

//@ spec areSamePrimaryKeys
//@ nostate
//@ prop C06 C07
func areSamePrimaryKeysZ(primaryKeyA *Index, primaryKeyB *Index) bool {
	if primaryKeyA == nil || primaryKeyB == nil {
		return primaryKeyA == nil && primaryKeyB == nil
	}
	return sameIndexZ(*primaryKeyA, *primaryKeyB)
}

func directionZ(d string) string {
	if d == "" {
		return AscScr
	}
	return d
}

// Every option of the desired index must be there with the same value; their order does not matter.
//
//@ spec areSameIndexes
//@ prop C06 C07
//@ reveal sameIndexZ
func areSameIndexesZ(indexA Index, indexB Index) bool { return sameIndexZ(indexA, indexB) }

//@ opaque
func sameIndexZ(indexA Index, indexB Index) bool {
	if indexA.unique != indexB.unique || indexA.primary != indexB.primary || indexA.where != indexB.where {
		return false
	}
	if len(indexA.columns) != len(indexB.columns) || len(indexA.included) != len(indexB.included) {
		return false
	}
	for i := range indexA.columns {
		if indexA.columns[i].column != indexB.columns[i].column {
			return false
		}
		if directionZ(indexA.columns[i].direction) != directionZ(indexB.columns[i].direction) {
			return false
		}
	}
	for i := range indexA.included {
		if indexA.included[i] != indexB.included[i] {
			return false
		}
	}
	for i := range indexB.options {
		a := findIndexOptionByNameZ(indexA.options, indexB.options[i].optionName)
		if a == nil || !areSameValueZ(a.value, indexB.options[i].value) {
			return false
		}
	}
	return true
}

func actionZ(m GeneratorMode, a string) string {
	if a == "" && (m == GeneratorModePostgres || m == GeneratorModeMssql) {
		return "NO ACTION"
	}
	return a
}

//@ spec Generator.normalizeOnUpdate
//@ prop C06 C07
func normalizeOnUpdateZ(g *Generator, onUpdate string) string { return actionZ(g.mode, onUpdate) }

//@ spec Generator.normalizeOnDelete
//@ prop C06 C07
func normalizeOnDeleteZ(g *Generator, onDelete string) string { return actionZ(g.mode, onDelete) }

//@ spec Generator.areSameForeignKeys
//@ prop C05 C06 C07
func areSameForeignKeysZ(g *Generator, foreignKeyA ForeignKey, foreignKeyB ForeignKey) bool {
	if actionZ(g.mode, foreignKeyA.onUpdate) != actionZ(g.mode, foreignKeyB.onUpdate) {
		return false
	}
	if actionZ(g.mode, foreignKeyA.onDelete) != actionZ(g.mode, foreignKeyB.onDelete) {
		return false
	}
	return foreignKeyA.notForReplication == foreignKeyB.notForReplication
}

func exprZ(a, b string) bool {
	a, b = strings.ToLower(a), strings.ToLower(b)
	return a == b || "("+a+")" == b
}

// Roles are compared as sets, whatever their order and letter case.
//
//@ spec areSamePolicies
//@ prop C06 C07
//@ reveal samePolicyZ
func areSamePoliciesZ(policyA, policyB Policy) bool { return samePolicyZ(policyA, policyB) }

//@ opaque
func samePolicyZ(policyA, policyB Policy) bool {
	if strings.ToLower(policyA.scope) != strings.ToLower(policyB.scope) {
		return false
	}
	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
		return false
	}
	if !exprZ(policyA.using, policyB.using) || !exprZ(policyA.withCheck, policyB.withCheck) {
		return false
	}
	if len(policyA.roles) != len(policyB.roles) {
		return false
	}
	a := append([]string{}, policyA.roles...)
	b := append([]string{}, policyB.roles...)
	sort.Slice(a, func(i, j int) bool { return strings.ToLower(a[i]) < strings.ToLower(a[j]) })
	sort.Slice(b, func(i, j int) bool { return strings.ToLower(b[i]) < strings.ToLower(b[j]) })
	for i := range a {
		if strings.ToLower(a[i]) != strings.ToLower(b[i]) {
			return false
		}
	}
	return true
}

// ---- what the comparisons guarantee

//@ lemma
//@ reveal *
//@ prop C06
func sameTypeReflexiveZ(g *Generator, c Column) {
	zz.Requires(g != nil)
	zz.Ensures("a column has its own data type", g.haveSameDataType(c, c))
	zz.Ensures("a column has its own check", areSameCheckDefinition(c.check, c.check))
	zz.Ensures("a column has its own identity", areSameIdentityDefinition(c.identity, c.identity))
	zz.Ensures("a column has its own default", areSameDefaultValue(c.defaultDef, c.defaultDef))
}

// MySQL reports a primary key column as NOT NULL.
//
//@ lemma
//@ reveal *
//@ prop C06
func sameColumnReflexiveZ(g *Generator, c Column) {
	zz.Requires(g != nil)
	zz.Requires(c.keyOption != ColumnKeyPrimary || c.notNull != nil && *c.notNull)
	zz.Ensures("a column has its own definition", g.haveSameColumnDefinition(c, c))
}

//@ lemma
//@ reveal *
//@ prop C06
func sameObjectsReflexiveZ(g *Generator, fk ForeignKey, p Policy, t *Trigger) {
	zz.Requires(g != nil && t != nil)
	zz.Ensures("a foreign key is the same as itself", g.areSameForeignKeys(fk, fk))
	zz.Ensures("a policy is the same as itself", areSamePolicies(p, p))
	zz.Ensures("a trigger is the same as itself", areSameTriggerDefinition(t, t))
}

// No option is declared twice.
//
//@ lemma
//@ reveal *
//@ prop C06
func sameIndexReflexiveZ(x Index) {
	for i := range x.options {
		for j := range x.options {
			zz.Requires(i == j || x.options[i].optionName != x.options[j].optionName)
		}
	}
	zz.Ensures("an index is the same as itself", areSameIndexes(x, x))
	zz.Ensures("a primary key is the same as itself", areSamePrimaryKeys(&x, &x))
}

//@ lemma
//@ reveal *
//@ prop C07
func differencesSeenZ(g *Generator, a, b Column) {
	zz.Requires(g != nil)
	if g.haveSameColumnDefinition(a, b) {
		zz.Ensures("unsigned is compared", a.unsigned == b.unsigned)
		zz.Ensures("time zone is compared", a.timezone == b.timezone)
		zz.Ensures("array is compared", a.array == b.array)
		zz.Ensures("a declared collation is compared", b.collate == "" || a.collate == b.collate)
		zz.Ensures("a declared character set is compared", b.charset == "" || a.charset == b.charset)
		zz.Ensures("nullability is compared", !(b.notNull != nil && *b.notNull) || a.notNull != nil && *a.notNull)
		zz.Ensures("enumeration values are compared", len(a.enumValues) == len(b.enumValues))
		zz.Ensures("checks are compared", (a.check == nil) == (b.check == nil))
		if a.check != nil && b.check != nil {
			zz.Ensures("check expressions are compared", a.check.definition == b.check.definition)
		}
	}
}
