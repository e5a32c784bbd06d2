package main

// Model of a server's schema for PostgreSQL, MySQL and SQL Server: enough of
// it to say what a declared schema means, what introspection would report and
// what a DDL statement does to it (vsql.go).

import (
	"fmt"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

// vType is a column type with the spellings that mean it.
type vType struct {
	Canon string
	Group string   // which defaults and type changes make sense
	Field string   // field type for table structs
	Decl  []string // spellings in declarations
	Intro string   // spelling reported by introspection
}

var vTypes = map[string][]vType{
	"postgres": {
		{"int", "int", "NumberField", []string{"INT", "INTEGER", "int4", "int"}, "int"},
		{"bigint", "int", "NumberField", []string{"BIGINT", "INT8", "bigint"}, "bigint"},
		{"smallint", "int", "NumberField", []string{"SMALLINT", "int2"}, "smallint"},
		{"numeric(10,2)", "num", "NumberField", []string{"NUMERIC(10,2)", "DECIMAL(10,2)", "numeric(10, 2)"}, "numeric(10,2)"},
		{"numeric(12,2)", "num", "NumberField", []string{"NUMERIC(12,2)", "decimal(12,2)"}, "numeric(12,2)"},
		{"numeric(12,4)", "num", "NumberField", []string{"NUMERIC(12,4)"}, "numeric(12,4)"},
		{"numeric(10)", "num", "NumberField", []string{"NUMERIC(10)"}, "numeric(10,0)"},
		{"numeric", "num", "NumberField", []string{"NUMERIC", "DECIMAL"}, "numeric"},
		{"double precision", "num", "NumberField", []string{"DOUBLE PRECISION", "FLOAT8"}, "double precision"},
		{"text", "str", "StringField", []string{"TEXT", "text"}, "text"},
		{"varchar(50)", "str", "StringField", []string{"VARCHAR(50)", "CHARACTER VARYING(50)"}, "varchar(50)"},
		{"varchar(255)", "str", "StringField", []string{"VARCHAR(255)", "varchar(255)"}, "varchar(255)"},
		{"varchar(300)", "str", "StringField", []string{"VARCHAR(300)"}, "varchar(300)"},
		{"varchar", "str", "StringField", []string{"VARCHAR", "CHARACTER VARYING"}, "varchar"},
		{"boolean", "bool", "BooleanField", []string{"BOOLEAN", "BOOL"}, "boolean"},
		{"timestamptz", "time", "TimeField", []string{"TIMESTAMPTZ", "TIMESTAMP WITH TIME ZONE"}, "timestamptz"},
		{"timestamp", "time", "TimeField", []string{"TIMESTAMP", "TIMESTAMP WITHOUT TIME ZONE"}, "timestamp"},
		{"date", "date", "TimeField", []string{"DATE"}, "date"},
		{"jsonb", "json", "JSONField", []string{"JSONB"}, "jsonb"},
		{"uuid", "uuid", "UUIDField", []string{"UUID"}, "uuid"},
		{"bytea", "bin", "BinaryField", []string{"BYTEA"}, "bytea"},
		{"text[]", "arr", "ArrayField", []string{"TEXT[]"}, "text[]"},
		{"int[]", "arr", "ArrayField", []string{"INT[]", "integer[]"}, "int[]"},
		{"cidr", "net", "AnyField", []string{"CIDR"}, "cidr"},
		{"inet", "net", "AnyField", []string{"INET"}, "inet"},
		{`"Mood"`, "udt", "AnyField", []string{`"Mood"`}, `"Mood"`},
	},
	"mysql": {
		{"int", "int", "NumberField", []string{"INT", "INTEGER", "int(11)"}, "int"},
		{"bigint", "int", "NumberField", []string{"BIGINT", "bigint(20)"}, "bigint"},
		{"bigint unsigned", "int", "NumberField", []string{"BIGINT UNSIGNED"}, "bigint unsigned"},
		{"decimal(10,2)", "num", "NumberField", []string{"DECIMAL(10,2)", "NUMERIC(10,2)", "DEC(10,2)", "FIXED(10,2)"}, "decimal(10,2)"},
		{"decimal(12,4)", "num", "NumberField", []string{"DECIMAL(12,4)"}, "decimal(12,4)"},
		{"double", "num", "NumberField", []string{"DOUBLE", "DOUBLE PRECISION", "REAL"}, "double"},
		{"varchar(50)", "str", "StringField", []string{"VARCHAR(50)", "CHARACTER VARYING(50)"}, "varchar(50)"},
		{"varchar(255)", "str", "StringField", []string{"VARCHAR(255)", "varchar(255)"}, "varchar(255)"},
		{"varchar(300)", "str", "StringField", []string{"VARCHAR(300)"}, "varchar(300)"},
		{"varchar(500)", "str", "StringField", []string{"VARCHAR(500)"}, "varchar(500)"},
		{"char(3)", "str", "StringField", []string{"CHAR(3)", "CHARACTER(3)"}, "char(3)"},
		{"text", "lob", "StringField", []string{"TEXT"}, "text"},
		{"tinyint(1)", "bool", "BooleanField", []string{"BOOLEAN", "BOOL", "TINYINT(1)"}, "tinyint(1)"},
		{"datetime", "time", "TimeField", []string{"DATETIME"}, "datetime"},
		{"timestamp", "time", "TimeField", []string{"TIMESTAMP"}, "timestamp"},
		{"date", "date", "TimeField", []string{"DATE"}, "date"},
		{"json", "lob", "JSONField", []string{"JSON"}, "json"},
		{"binary(16)", "uuid", "UUIDField", []string{"BINARY(16)"}, "binary(16)"},
		{"mediumblob", "lob", "BinaryField", []string{"MEDIUMBLOB"}, "mediumblob"},
		{"enum('a','B')", "enum", "EnumField", []string{"ENUM('a','B')", "enum('a','B')"}, "enum('a','B')"},
	},
	"sqlserver": {
		{"int", "int", "NumberField", []string{"INT", "INTEGER"}, "int"},
		{"bigint", "int", "NumberField", []string{"BIGINT", "bigint"}, "bigint"},
		{"smallint", "int", "NumberField", []string{"SMALLINT"}, "smallint"},
		{"decimal(10,2)", "num", "NumberField", []string{"DECIMAL(10,2)", "NUMERIC(10,2)", "DEC(10,2)"}, "decimal(10,2)"},
		{"decimal(12,4)", "num", "NumberField", []string{"DECIMAL(12,4)"}, "decimal(12,4)"},
		{"float", "num", "NumberField", []string{"FLOAT", "DOUBLE PRECISION"}, "float"},
		{"nvarchar(50)", "str", "StringField", []string{"NVARCHAR(50)", "NATIONAL CHARACTER VARYING(50)"}, "nvarchar(50)"},
		{"nvarchar(255)", "str", "StringField", []string{"NVARCHAR(255)", "nvarchar(255)"}, "nvarchar(255)"},
		{"varchar(50)", "str", "StringField", []string{"VARCHAR(50)", "CHARACTER VARYING(50)"}, "varchar(50)"},
		{"nvarchar(max)", "str", "StringField", []string{"NVARCHAR(MAX)", "nvarchar(max)"}, "nvarchar(MAX)"},
		{"bit", "bool", "BooleanField", []string{"BIT"}, "bit"},
		{"datetimeoffset", "time", "TimeField", []string{"DATETIMEOFFSET"}, "datetimeoffset"},
		{"datetime2", "time", "TimeField", []string{"DATETIME2"}, "datetime2"},
		{"date", "date", "TimeField", []string{"DATE"}, "date"},
		{"binary(16)", "uuid", "UUIDField", []string{"BINARY(16)"}, "binary(16)"},
		{"uniqueidentifier", "guid", "UUIDField", []string{"UNIQUEIDENTIFIER"}, "uniqueidentifier"},
		{"varbinary(max)", "lob", "BinaryField", []string{"VARBINARY(MAX)"}, "varbinary(MAX)"},
	},
}

// upperOutside upper-cases the text outside quotes and squeezes blanks.
func upperOutside(s string) string {
	var b strings.Builder
	var quote byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case quote != 0:
			if c == quote {
				quote = 0
			}
		case c == '\'' || c == '"':
			quote = c
		case c == ' ' || c == '\n' || c == '\t':
			if b.Len() > 0 && b.String()[b.Len()-1] == ' ' {
				continue
			}
			c = ' '
		case c >= 'a' && c <= 'z':
			c -= 32
		}
		b.WriteByte(c)
	}
	return strings.ReplaceAll(strings.ReplaceAll(strings.TrimSpace(b.String()), ", ", ","), " (", "(")
}

func vTypeOf(dialect, text string) *vType {
	text = upperOutside(text)
	for i := range vTypes[dialect] {
		vt := &vTypes[dialect][i]
		if upperOutside(vt.Intro) == text {
			return vt
		}
		for _, d := range vt.Decl {
			if upperOutside(d) == text {
				return vt
			}
		}
	}
	return nil
}

func vTypeNamed(dialect, canon string) *vType {
	for i := range vTypes[dialect] {
		if vTypes[dialect][i].Canon == canon {
			return &vTypes[dialect][i]
		}
	}
	if strings.HasPrefix(canon, "udt ") {
		return &vType{Canon: canon, Group: "udt", Intro: canon}
	}
	panic("no type " + canon)
}

// vDefault is a column default with the spellings that mean it.
type vDefault struct {
	Canon string
	Decl  []string
}

// vDefaults lists the defaults that suit a type.
func vDefaults(dialect, group string) []vDefault {
	switch group {
	case "int":
		return []vDefault{{"0", []string{"0"}}, {"1", []string{"1"}}, {"42", []string{"42"}}, {"-5", []string{"-5"}}}
	case "num":
		return []vDefault{{"0", []string{"0"}}, {"12.5", []string{"12.5"}}, {"1", []string{"1"}}}
	case "str":
		return []vDefault{{"'abc'", []string{"'abc'"}}, {"'it''s'", []string{"'it''s'"}}, {"''", []string{"''"}}, {"'x y'", []string{"'x y'"}}, {"'a::b'", []string{"'a::b'"}}, {"'1'", []string{"'1'"}}, {"'ABC'", []string{"'ABC'"}}}
	case "bool":
		if dialect == "sqlserver" {
			return []vDefault{{"true", []string{"1"}}, {"false", []string{"0"}}}
		}
		return []vDefault{{"true", []string{"TRUE", "true"}}, {"false", []string{"FALSE", "false"}}}
	case "time":
		switch dialect {
		case "postgres", "mysql":
			return []vDefault{{"now", []string{"CURRENT_TIMESTAMP", "NOW()"}}}
		}
		return []vDefault{{"now", []string{"CURRENT_TIMESTAMP", "GETDATE()"}}}
	case "json":
		return []vDefault{{"'{}'", []string{"'{}'"}}, {"'[]'", []string{"'[]'"}}}
	case "arr":
		return []vDefault{{"'{}'", []string{"'{}'"}}}
	case "enum":
		return []vDefault{{"'a'", []string{"'a'"}}, {"'B'", []string{"'B'"}}}
	case "uuid":
		if dialect == "postgres" {
			return []vDefault{{"gen_random_uuid()", []string{"gen_random_uuid()"}}, {"uuid_nil()", []string{"uuid_nil()"}}}
		}
	case "guid":
		return []vDefault{{"newid()", []string{"newid()"}}}
	}
	return nil
}

var pgCast = map[string]string{
	"int": "integer", "bigint": "bigint", "smallint": "smallint", "text": "text", "varchar": "character varying", "varchar(50)": "character varying",
	"varchar(255)": "character varying", "varchar(300)": "character varying", "jsonb": "jsonb", "text[]": "text[]", "int[]": "integer[]",
}

// introDefault is how introspection spells a default.
func introDefault(dialect, canon string, vt *vType) string {
	switch dialect {
	case "postgres":
		switch {
		case canon == "now":
			if vt.Canon == "timestamptz" {
				return "now()"
			}
			return "CURRENT_TIMESTAMP"
		case strings.HasPrefix(canon, "'"):
			return canon + "::" + pgCast[vt.Canon]
		case strings.HasPrefix(canon, "-"):
			return "'" + canon + "'::integer"
		}
		return canon
	case "mysql":
		switch canon {
		case "now":
			return "CURRENT_TIMESTAMP"
		case "true":
			return "1"
		case "false":
			return "0"
		}
		return canon
	}
	switch canon {
	case "now":
		return "(getdate())"
	case "true":
		return "1"
	case "false":
		return "0"
	case "newid()":
		return "(newid())"
	}
	return canon
}

// canonDefault reads the text of a default for a column of type vt.
func canonDefault(dialect, text string, vt *vType) (string, error) {
	s := strings.TrimSpace(text)
	bracketed := false
	for wholeBrackets(s) {
		bracketed = true
		s = strings.TrimSpace(s[1 : len(s)-1])
	}
	if dialect == "postgres" {
		if i := strings.LastIndex(s, "::"); i > 0 && !strings.ContainsAny(s[i:], "')") {
			s = s[:i]
		}
		for wholeBrackets(s) {
			s = strings.TrimSpace(s[1 : len(s)-1])
		}
	}
	upper := strings.ToUpper(s)
	switch upper {
	case "CURRENT_TIMESTAMP", "NOW()", "GETDATE()":
		if upper == "NOW()" && dialect == "sqlserver" || upper == "GETDATE()" && dialect != "sqlserver" {
			return "", fmt.Errorf("unknown function %s", s)
		}
		if upper == "NOW()" && dialect == "mysql" && !bracketed {
			return "", fmt.Errorf("default expression %s is not in brackets", s)
		}
		return "now", nil
	case "TRUE", "FALSE":
		if dialect == "sqlserver" {
			return "", fmt.Errorf("invalid default %s", s)
		}
	}
	quoted := len(s) >= 2 && s[0] == '\'' && s[len(s)-1] == '\'' && !strings.Contains(strings.ReplaceAll(s[1:len(s)-1], "''", ""), "'")
	inner := s
	if quoted {
		inner = s[1 : len(s)-1]
	}
	switch vt.Group {
	case "bool":
		switch strings.ToUpper(inner) {
		case "1", "TRUE", "T":
			return "true", nil
		case "0", "FALSE", "F":
			return "false", nil
		}
		return "", fmt.Errorf("invalid default %s for type %s", s, vt.Canon)
	case "int", "num":
		if inner == "" || strings.Trim(inner, "-.0123456789") != "" {
			return "", fmt.Errorf("invalid default %s for type %s", s, vt.Canon)
		}
		return inner, nil
	}
	if quoted {
		return s, nil
	}
	if strings.HasSuffix(s, "()") {
		if !bracketed && dialect == "mysql" {
			return "", fmt.Errorf("default expression %s is not in brackets", s)
		}
		return strings.ToLower(s), nil
	}
	if s != "" && strings.Trim(s, "-.0123456789") == "" && vt.Group == "str" {
		return "'" + s + "'", nil
	}
	return "", fmt.Errorf("invalid default %s for type %s", s, vt.Canon)
}

type vCol struct {
	Name    string
	Type    string // canonical
	Def     string // canonical, empty for none
	NotNull bool   // includes what a key or identity implies
	Ident   string // PostgreSQL, SQL Server: the identity clause
	Autoinc bool
	OUCT    bool
	Coll    string // empty for the default
	Gen     string
	DefName string // SQL Server: name of the default constraint
	id      int    // SQL Server: column_id
}

type vCon struct {
	Name, Type string
	Cols       []string
	RefSchema  string
	RefTable   string
	RefCols    []string
	Upd, Del   string
	Deferrable bool
	Deferred   bool
	NotValid   bool
	Expr       string
}

type vIdx struct {
	Name   string
	Type   string // empty for the usual kind
	Unique bool
	Cols   []string
	Desc   []bool
	Incl   []string
	Pred   string

	Invalid bool // left behind by a failed CREATE INDEX CONCURRENTLY
}

type vTable struct {
	Schema, Name string
	Cols         []*vCol
	Cons         []*vCon
	Idxs         []*vIdx
	nextID       int
}

type vDB struct {
	Dialect string
	Version []int
	Cur     string // current schema
	Coll    string // default collation
	Schemas map[string]bool
	Tables  []*vTable
	UDT     map[string]bool // PostgreSQL: enums and domains a script created
	defSeq  int
	vars    map[string]bool // SQL Server: variables declared in the batch
	ev      []vEvent        // what the statements did, for the checks of G04
}

// vEvent is work on a table that holds its lock for long when there are many
// rows, or a step of a way around it.
type vEvent struct{ kind, schema, table, name string }

func (db *vDB) note(kind string, t *vTable, name string) {
	db.ev = append(db.ev, vEvent{kind, t.Schema, t.Name, name})
}

// provesNotNull reports whether a valid check says that the column is NOT NULL.
func (db *vDB) provesNotNull(t *vTable, col string) bool {
	for _, c := range t.Cons {
		if c.Type != "CHECK" || c.NotValid {
			continue
		}
		if c.Expr == "notnull:"+col {
			return true
		}
	}
	return false
}

func (db *vDB) clone() *vDB {
	out := &vDB{Dialect: db.Dialect, Version: db.Version, Cur: db.Cur, Coll: db.Coll, Schemas: map[string]bool{}, defSeq: db.defSeq}
	for s := range db.Schemas {
		out.Schemas[s] = true
	}
	for _, t := range db.Tables {
		out.Tables = append(out.Tables, t.clone())
	}
	return out
}

func (t *vTable) clone() *vTable {
	n := &vTable{Schema: t.Schema, Name: t.Name, nextID: t.nextID}
	for _, c := range t.Cols {
		cc := *c
		n.Cols = append(n.Cols, &cc)
	}
	for _, c := range t.Cons {
		n.Cons = append(n.Cons, c.clone())
	}
	for _, x := range t.Idxs {
		n.Idxs = append(n.Idxs, x.clone())
	}
	return n
}

func (c *vCon) clone() *vCon {
	cc := *c
	cc.Cols = append([]string(nil), c.Cols...)
	cc.RefCols = append([]string(nil), c.RefCols...)
	return &cc
}

func (x *vIdx) clone() *vIdx {
	xx := *x
	xx.Cols = append([]string(nil), x.Cols...)
	xx.Desc = append([]bool(nil), x.Desc...)
	xx.Incl = append([]string(nil), x.Incl...)
	return &xx
}

func (db *vDB) table(schema, name string) *vTable {
	for _, t := range db.Tables {
		if t.Schema == schema && t.Name == name {
			return t
		}
	}
	return nil
}

func (t *vTable) col(name string) *vCol {
	for _, c := range t.Cols {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func (t *vTable) con(name string) *vCon {
	for _, c := range t.Cons {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func (t *vTable) idx(name string) *vIdx {
	for _, x := range t.Idxs {
		if x.Name == name {
			return x
		}
	}
	return nil
}

func (t *vTable) pk() *vCon {
	for _, c := range t.Cons {
		if c.Type == "PRIMARY KEY" {
			return c
		}
	}
	return nil
}

func (t *vTable) dropCol(name string) {
	for i, c := range t.Cols {
		if c.Name == name {
			t.Cols = append(t.Cols[:i:i], t.Cols[i+1:]...)
			return
		}
	}
}

func (t *vTable) dropCon(name string) {
	for i, c := range t.Cons {
		if c.Name == name {
			t.Cons = append(t.Cons[:i:i], t.Cons[i+1:]...)
			return
		}
	}
}

func (t *vTable) dropIdx(name string) {
	for i, x := range t.Idxs {
		if x.Name == name {
			t.Idxs = append(t.Idxs[:i:i], t.Idxs[i+1:]...)
			return
		}
	}
}

func (db *vDB) dropTable(t *vTable) {
	for i := range db.Tables {
		if db.Tables[i] == t {
			db.Tables = append(db.Tables[:i:i], db.Tables[i+1:]...)
			return
		}
	}
}

// referencedBy returns the foreign keys that reference the table.
func (db *vDB) referencedBy(schema, name string) (out []*vCon, owners []*vTable) {
	for _, t := range db.Tables {
		for _, c := range t.Cons {
			if c.Type == "FOREIGN KEY" && c.RefSchema == schema && c.RefTable == name {
				out = append(out, c)
				owners = append(owners, t)
			}
		}
	}
	return out, owners
}

// implied sets the NOT NULL that keys and identities imply.
func (db *vDB) implied() {
	for _, t := range db.Tables {
		if pk := t.pk(); pk != nil {
			for _, n := range pk.Cols {
				if c := t.col(n); c != nil {
					c.NotNull = true
				}
			}
		}
		for _, c := range t.Cols {
			if c.Ident != "" || c.Autoinc {
				c.NotNull = true
			}
		}
	}
}

// facts lists everything a schema consists of.
func (db *vDB) facts() []string {
	var out []string
	for s := range db.Schemas {
		out = append(out, fmt.Sprintf("schema %q", s))
	}
	for _, t := range db.Tables {
		tn := fmt.Sprintf("%q.%q", t.Schema, t.Name)
		out = append(out, "table "+tn)
		for _, c := range t.Cols {
			s := fmt.Sprintf("column %s.%q %s", tn, c.Name, c.Type)
			if c.NotNull {
				s += " not-null"
			}
			if c.Def != "" {
				s += " default " + c.Def
			}
			if c.Ident != "" {
				s += " identity"
			}
			if c.Autoinc {
				s += " auto_increment"
			}
			if c.OUCT {
				s += " on-update"
			}
			if c.Coll != "" && c.Coll != db.Coll {
				s += " collate " + c.Coll
			}
			if c.Gen != "" {
				s += " generated"
			}
			out = append(out, s)
		}
		for _, c := range t.Cons {
			s := fmt.Sprintf("constraint %s.%q %s %q", tn, c.Name, c.Type, c.Cols)
			if c.Type == "FOREIGN KEY" {
				s += fmt.Sprintf(" -> %q.%q %q update=%s delete=%s", c.RefSchema, c.RefTable, c.RefCols, c.Upd, c.Del)
			}
			if c.Deferrable {
				s += " deferrable"
			}
			if c.Deferred {
				s += " deferred"
			}
			if c.NotValid {
				s += " NOT-VALIDATED"
			}
			out = append(out, s)
		}
		for _, x := range t.Idxs {
			s := fmt.Sprintf("index %s.%q %s unique=%v %q desc=%v include=%q where=%q", tn, x.Name, x.Type, x.Unique, x.Cols, descList(x.Desc), x.Incl, x.Pred)
			if x.Invalid {
				s += " INVALID"
			}
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func descList(d []bool) string {
	s := ""
	for i, v := range d {
		if v {
			s += fmt.Sprint(i, " ")
		}
	}
	return s
}

// ---- as a catalog ------------------------------------------------------------

// catalog gives the schema the way introspection reports it.
func (db *vDB) catalog() *ddl.Catalog {
	cat := &ddl.Catalog{Dialect: db.Dialect, VersionNums: ddl.VersionNums(db.Version), CurrentSchema: db.Cur, DefaultCollation: db.Coll, DefaultCollationValid: db.Coll != ""}
	names := make([]string, 0, len(db.Schemas))
	for s := range db.Schemas {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, s := range names {
		sc := ddl.Schema{SchemaName: s}
		for _, t := range db.Tables {
			if t.Schema == s {
				sc.Tables = append(sc.Tables, db.catalogTable(t))
			}
		}
		cat.Schemas = append(cat.Schemas, sc)
	}
	return cat
}

func (db *vDB) catalogTable(t *vTable) ddl.Table {
	out := ddl.Table{TableSchema: t.Schema, TableName: t.Name}
	for _, c := range t.Cols {
		vt := vTypeNamed(db.Dialect, c.Type)
		col := ddl.Column{TableSchema: t.Schema, TableName: t.Name, ColumnName: c.Name, ColumnType: vt.Intro, IsNotNull: c.NotNull, IsAutoincrement: c.Autoinc,
			ColumnIdentity: c.Ident, OnUpdateCurrentTimestamp: c.OUCT, CollationName: c.Coll}
		if vt.Group == "udt" {
			col.IsEnum = true
		}
		if c.Def != "" {
			col.ColumnDefault = introDefault(db.Dialect, c.Def, vt)
		}
		if c.Gen != "" {
			col.IsGenerated, col.GeneratedExpr, col.GeneratedExprStored = true, c.Gen, true
		}
		if c.Coll == "" && db.Dialect != "postgres" && vt.Group == "str" {
			// These servers report the collation of every text column.
			col.CollationName = db.Coll
		}
		for _, con := range t.Cons {
			if len(con.Cols) == 1 && con.Cols[0] == c.Name {
				col.IsPrimaryKey = col.IsPrimaryKey || con.Type == "PRIMARY KEY"
				col.IsUnique = col.IsUnique || con.Type == "UNIQUE"
			}
		}
		out.Columns = append(out.Columns, col)
	}
	for _, c := range t.Cons {
		con := ddl.Constraint{TableSchema: t.Schema, TableName: t.Name, ConstraintName: c.Name, ConstraintType: c.Type, Columns: c.Cols, ReferencesSchema: c.RefSchema,
			ReferencesTable: c.RefTable, ReferencesColumns: c.RefCols, UpdateRule: c.Upd, DeleteRule: c.Del, IsDeferrable: c.Deferrable, IsInitiallyDeferred: c.Deferred, IsNotValid: c.NotValid, CheckExpr: c.Expr}
		if c.Type == "FOREIGN KEY" {
			if con.UpdateRule == "" {
				con.UpdateRule = "NO ACTION"
			}
			if con.DeleteRule == "" {
				con.DeleteRule = "NO ACTION"
			}
		}
		out.Constraints = append(out.Constraints, con)
	}
	for _, x := range t.Idxs {
		ix := ddl.Index{TableSchema: t.Schema, TableName: t.Name, IndexName: x.Name, IndexType: x.Type, IsUnique: x.Unique, Columns: x.Cols, IncludeColumns: x.Incl, Predicate: x.Pred}
		for i := range x.Cols {
			ix.Descending = append(ix.Descending, i < len(x.Desc) && x.Desc[i])
		}
		switch db.Dialect {
		case "postgres":
			if ix.IndexType == "" {
				ix.IndexType = "btree"
			}
			ix.Columns, ix.IncludeColumns = nil, nil
			var cols, incl []string
			for i, c := range x.Cols {
				ix.Columns = append(ix.Columns, pgIdent(c))
				s := pgIdent(c)
				if i < len(x.Desc) && x.Desc[i] {
					s += " DESC"
				}
				cols = append(cols, s)
			}
			for _, c := range x.Incl {
				ix.IncludeColumns = append(ix.IncludeColumns, pgIdent(c))
				incl = append(incl, pgIdent(c))
			}
			ix.SQL = "CREATE "
			if x.Unique {
				ix.SQL += "UNIQUE "
			}
			ix.SQL += "INDEX " + pgIdent(x.Name) + " ON " + pgIdent(t.Schema) + "." + pgIdent(t.Name) + " USING " + ix.IndexType + " (" + strings.Join(cols, ", ") + ")"
			if len(incl) > 0 {
				ix.SQL += " INCLUDE (" + strings.Join(incl, ", ") + ")"
			}
			if x.Pred != "" {
				ix.SQL += " WHERE (" + x.Pred + ")"
			}
			ix.SQL += ";"
		case "mysql":
			if ix.IndexType == "" {
				ix.IndexType = "BTREE"
			}
		case "sqlserver":
			ix.IndexType = "NONCLUSTERED"
		}
		out.Indexes = append(out.Indexes, ix)
	}
	return out
}
