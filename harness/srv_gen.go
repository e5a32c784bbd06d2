package main

// Model databases for the emulated servers, as the introspector should report
// them.

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

var srvNames = []string{"users", "orders", "Mixed", "with space", "order", "a'b", "splitter", "sptable", "x_1", "naïve", `q"uote`, "tab.le", "pgstuff", "group", "UPPER", "items", "payments", "semi;colon", "back`tick", "br]acket"}
var srvSchemas = map[string][]string{
	"postgres":  {"public", "app", "Mixed Case", "pgx", "o'brien", "informative"},
	"mysql":     {"sakila", "other_db", "Mixed", "sysadmin", "my'db"},
	"sqlserver": {"dbo", "app", "Mixed Case", "o'brien"},
}

type catGen struct {
	version string
	r       *rand.Rand
	dialect string
	cat     *ddl.Catalog
	used    map[string]bool
	n       int
}

func pickStr(r *rand.Rand, list ...string) string { return list[r.Intn(len(list))] }

// name returns a name that was not used before with the prefix.
func (g *catGen) name(kind string) string {
	for {
		g.n++
		n := srvNames[g.r.Intn(len(srvNames))]
		if g.r.Intn(2) == 0 {
			n += fmt.Sprint(g.n)
		}
		if !g.used[kind+"\x00"+strings.ToLower(n)] {
			g.used[kind+"\x00"+strings.ToLower(n)] = true
			return n
		}
	}
}

func genCatalog(r *rand.Rand, dialect string) (*ddl.Catalog, string) {
	g := &catGen{r: r, dialect: dialect, used: map[string]bool{}}
	g.cat = &ddl.Catalog{Dialect: dialect, CatalogName: "sakila", DefaultCollationValid: true}
	all := srvSchemas[dialect]
	g.cat.CurrentSchema = all[0]
	switch dialect {
	case "postgres":
		g.cat.DefaultCollation = "en_US.utf8"
		g.version = pickStr(r, "14.5 (Debian 14.5-1.pgdg110+1)", "15.2")
		for _, e := range []string{"plpgsql", "uuid-ossp", "pg_trgm"} {
			if r.Intn(2) == 0 {
				g.cat.Extensions = append(g.cat.Extensions, e)
			}
		}
		sort.Strings(g.cat.Extensions)
	case "mysql":
		g.cat.DefaultCollation = "utf8mb4_0900_ai_ci"
		g.version = pickStr(r, "8.0.31", "8.0.31-0ubuntu0.20.04.1", "8.4.3", "5.7.44-log", "10.11.2-MariaDB-1:10.11.2+maria~ubu2204")
	case "sqlserver":
		g.cat.DefaultCollation = "SQL_Latin1_General_CP1_CI_AS"
		g.version = "15.0.4261.1"
	}
	var tables []*ddl.Table
	n := 1 + r.Intn(3)
	perm := r.Perm(len(all))
	for i := 0; i < n; i++ {
		name := all[perm[i]]
		if i == 0 && r.Intn(3) > 0 {
			name = all[0]
		}
		if g.used["schema\x00"+name] {
			continue
		}
		g.used["schema\x00"+name] = true
		g.cat.Schemas = append(g.cat.Schemas, ddl.Schema{SchemaName: name})
	}
	if r.Intn(2) == 0 {
		g.system()
	}
	for i := range g.cat.Schemas {
		sc := &g.cat.Schemas[i]
		if isSystem(dialect, sc.SchemaName) {
			continue
		}
		if dialect == "postgres" {
			for j := r.Intn(3); j > 0; j-- {
				e := ddl.Enum{EnumSchema: sc.SchemaName, EnumName: g.name("type"), Comment: g.comment()}
				for k := 0; k <= r.Intn(4); k++ {
					e.EnumLabels = append(e.EnumLabels, []string{"small", "it's", "Größe", "a,b", `d"q`}[k])
				}
				sc.Enums = append(sc.Enums, e)
			}
			for j := r.Intn(3); j > 0; j-- {
				d := ddl.Domain{DomainSchema: sc.SchemaName, DomainName: g.name("type"), Comment: g.comment(), IsNotNull: r.Intn(2) == 0}
				d.UnderlyingType = pickStr(r, "integer", "text", "character varying(255)", "numeric(10,2)")
				if strings.HasPrefix(d.UnderlyingType, "t") && r.Intn(2) == 0 {
					d.CollationName = "C"
				}
				if r.Intn(2) == 0 {
					d.ColumnDefault = "1"
				}
				for k := r.Intn(3); k > 0; k-- {
					d.CheckNames = append(d.CheckNames, fmt.Sprintf("check%d", k))
					d.CheckExprs = append(d.CheckExprs, fmt.Sprintf("(VALUE <> '%d')", k))
				}
				sc.Domains = append(sc.Domains, d)
			}
		}
	}
	for i := range g.cat.Schemas {
		sc := &g.cat.Schemas[i]
		if isSystem(dialect, sc.SchemaName) {
			continue
		}
		nt := r.Intn(4)
		sc.Tables = append(make([]ddl.Table, 0, nt+len(sc.Tables)), sc.Tables...)
		for j := 0; j < nt; j++ {
			sc.Tables = append(sc.Tables, g.table(sc))
			tables = append(tables, &sc.Tables[len(sc.Tables)-1])
		}
	}
	for _, t := range tables {
		g.fkeys(t, tables)
	}
	for i := range g.cat.Schemas {
		sc := &g.cat.Schemas[i]
		if isSystem(dialect, sc.SchemaName) {
			continue
		}
		for j := r.Intn(3); j > 0; j-- {
			sc.Views = append(sc.Views, g.view(sc))
		}
		for j := r.Intn(3); j > 0; j-- {
			sc.Routines = append(sc.Routines, g.routine(sc))
		}
		// Overloaded functions.
		if dialect == "postgres" && len(sc.Routines) > 0 && r.Intn(2) == 0 {
			o := sc.Routines[0]
			o.IdentityArguments = "other text"
			if o.RoutineType != "AGGREGATE" {
				o.SQL = "CREATE FUNCTION overload(other text);"
			}
			sc.Routines = append(sc.Routines, o)
		}
	}
	g.cat.VersionNums = nil
	for _, n := range strings.Split(strings.Split(strings.Split(g.version, "-")[0], " ")[0], ".") {
		num, err := strconv.Atoi(n)
		must(err)
		g.cat.VersionNums = append(g.cat.VersionNums, num)
	}
	return g.cat, g.version
}

func (g *catGen) comment() string {
	return pickStr(g.r, "", "", "a comment", "it's a \"comment\"")
}

func isSystem(dialect, schema string) bool {
	switch dialect {
	case "postgres":
		return schema == "information_schema" || strings.HasPrefix(schema, "pg_")
	case "mysql":
		return schema == "mysql" || schema == "information_schema" || schema == "performance_schema" || schema == "sys"
	}
	return false
}

// isSystemName tells the objects SQL Server ships in ordinary schemas.
func isSystemName(dialect, kind, name string) bool {
	if dialect != "sqlserver" {
		return false
	}
	if kind == "routine" {
		return strings.HasPrefix(strings.ToLower(name), "sp_")
	}
	return strings.HasPrefix(strings.ToLower(name), "spt_") || strings.HasPrefix(strings.ToLower(name), "msreplication_")
}

func (g *catGen) system() {
	simple := func(schema, table string) ddl.Table {
		typ := "int"
		return ddl.Table{TableSchema: schema, TableName: table, Columns: []ddl.Column{{TableSchema: schema, TableName: table, ColumnName: "id", ColumnType: typ}}}
	}
	switch g.dialect {
	case "postgres":
		for _, name := range []string{"information_schema", "pg_catalog"} {
			sc := ddl.Schema{SchemaName: name}
			sc.Tables = append(sc.Tables, simple(name, "sql_parts"))
			sc.Views = append(sc.Views, ddl.View{ViewSchema: name, ViewName: "sysview", SQL: "SELECT 1", Columns: []string{"a"}, ColumnTypes: []string{"INTEGER"}})
			sc.Routines = append(sc.Routines, ddl.Routine{RoutineSchema: name, RoutineName: "sysfn", RoutineType: "FUNCTION", SQL: "CREATE FUNCTION sysfn();", Attrs: map[string]string{"returnType": "void"}})
			sc.Domains = append(sc.Domains, ddl.Domain{DomainSchema: name, DomainName: "cardinal_number", UnderlyingType: "integer"})
			g.cat.Schemas = append(g.cat.Schemas, sc)
		}
	case "mysql":
		for _, name := range []string{"mysql", "performance_schema", "sys", "information_schema"} {
			sc := ddl.Schema{SchemaName: name}
			sc.Tables = append(sc.Tables, simple(name, "sys_table"))
			sc.Views = append(sc.Views, ddl.View{ViewSchema: name, ViewName: "sysview", SQL: "SELECT 1", Columns: []string{"a"}, ColumnTypes: []string{"int"}})
			g.cat.Schemas = append(g.cat.Schemas, sc)
		}
	case "sqlserver":
		sc := &g.cat.Schemas[0]
		sc.Tables = append(sc.Tables, simple(sc.SchemaName, "spt_values"), simple(sc.SchemaName, "MSreplication_options"))
		sc.Views = append(sc.Views, ddl.View{ViewSchema: sc.SchemaName, ViewName: "spt_view", SQL: "SELECT 1", Columns: []string{"a"}, ColumnTypes: []string{"int"}})
		sc.Routines = append(sc.Routines, ddl.Routine{RoutineSchema: sc.SchemaName, RoutineName: "sp_MScleanup", RoutineType: "PROCEDURE", SQL: "CREATE PROC sp_MScleanup"})
	}
}

func (g *catGen) column(sc *ddl.Schema, t *ddl.Table, name string) ddl.Column {
	r := g.r
	c := ddl.Column{TableSchema: t.TableSchema, TableName: t.TableName, ColumnName: name, IsNotNull: r.Intn(2) == 0}
	if g.dialect != "sqlserver" {
		c.Comment = g.comment()
	}
	switch g.dialect {
	case "postgres":
		c.ColumnType = pickStr(r, "int", "bigint", "smallint", "text", "varchar(255)", "char(3)", "numeric(10,2)", "boolean", "bytea", "timestamptz", "timestamptz(3)", "timestamp", "date", "time", "json", "jsonb", "uuid", "real", "double precision", "tsvector", "int[]", "text[]", "varchar(10)[]", "numeric(10,2)[]", "timestamptz(3)[]")
		if len(sc.Enums) > 0 && r.Intn(5) == 0 {
			e := sc.Enums[r.Intn(len(sc.Enums))]
			c.IsEnum = true
			c.ColumnType = pgIdent(e.EnumName)
			if sc.SchemaName != g.cat.CurrentSchema {
				c.ColumnType = pgIdent(sc.SchemaName) + "." + c.ColumnType
			}
		} else if len(sc.Domains) > 0 && r.Intn(5) == 0 {
			d := sc.Domains[r.Intn(len(sc.Domains))]
			c.DomainName, c.ColumnType = pgIdent(d.DomainName), shortType(d.UnderlyingType)
			if sc.SchemaName != g.cat.CurrentSchema {
				c.DomainName = pgIdent(sc.SchemaName) + "." + c.DomainName
			}
		}
		switch {
		case c.ColumnType == "int" && c.DomainName == "" && r.Intn(3) == 0:
			c.ColumnIdentity = pickStr(r, "GENERATED BY DEFAULT AS IDENTITY", "GENERATED ALWAYS AS IDENTITY")
		case r.Intn(4) == 0 && c.DomainName == "" && !c.IsEnum:
			c.GeneratedExpr, c.GeneratedExprStored = pickStr(r, "lower(x)", "a + 1"), true
		case r.Intn(3) == 0:
			c.ColumnDefault = pickStr(r, "0", "'abc'::text", "now()", "'it''s'::character varying")
		}
		if c.ColumnType == "text" && c.DomainName == "" && r.Intn(3) == 0 {
			c.CollationName = "C"
		}
	case "mysql":
		c.ColumnType = pickStr(r, "int", "bigint", "bigint unsigned", "varchar(255)", "char(3)", "decimal(10,2)", "datetime", "datetime(6)", "json", "enum('a','b')", "tinyint(1)", "text", "binary(16)", "mediumblob", "varbinary(16)", "smallint", "longtext", "date", "time", "longblob", "double")
		switch {
		case c.ColumnType == "int" && r.Intn(2) == 0:
			c.IsAutoincrement = true
		case strings.HasPrefix(c.ColumnType, "datetime") && r.Intn(2) == 0:
			c.OnUpdateCurrentTimestamp = r.Intn(3) > 0
			if r.Intn(3) > 0 {
				c.ColumnDefault = "CURRENT_TIMESTAMP"
				if c.ColumnType == "datetime(6)" {
					c.ColumnDefault = "(CURRENT_TIMESTAMP(6))"
				}
			}
		case r.Intn(5) == 0:
			c.GeneratedExpr, c.GeneratedExprStored = pickStr(r, "lower(`x`)", "concat(`a`,_utf8mb4'b')"), r.Intn(2) == 0
		case r.Intn(3) == 0:
			c.ColumnDefault = pickStr(r, "0", "'abc'", "CURRENT_TIMESTAMP", "'it''s'", "(uuid())", "12.5")
		}
		if strings.HasPrefix(c.ColumnType, "varchar") && r.Intn(3) == 0 {
			c.CollationName = "utf8mb4_bin"
		}
	case "sqlserver":
		c.ColumnType = pickStr(r, "int", "bigint", "smallint", "tinyint", "bit", "decimal(10,2)", "float", "real", "nvarchar(255)", "nvarchar(MAX)", "varchar(10)", "char(3)", "nchar(5)", "varbinary(MAX)", "binary(16)", "datetimeoffset", "datetime2", "date", "uniqueidentifier", "varbinary(16)", "time", "smalldatetime", "datetime")
		switch {
		case c.ColumnType == "int" && r.Intn(2) == 0:
			c.ColumnIdentity = pickStr(r, "IDENTITY", "IDENTITY(100, 5)")
		case r.Intn(5) == 0:
			c.GeneratedExpr, c.GeneratedExprStored = pickStr(r, "(lower([x]))", "([a]+(1))"), r.Intn(2) == 0
		case r.Intn(3) == 0:
			c.ColumnDefault = pickStr(r, "0", "'abc'", "(getdate())", "'it''s'", "(newid())", "(1)+(2)")
			if c.ColumnDefault == "(1)+(2)" {
				c.ColumnDefault = "((1)+(2))"
			}
		}
		if strings.HasPrefix(c.ColumnType, "n") && r.Intn(3) == 0 {
			c.CollationName = "Latin1_General_CI_AS"
		}
	}
	return c
}

func (g *catGen) table(sc *ddl.Schema) ddl.Table {
	r := g.r
	t := ddl.Table{TableSchema: sc.SchemaName, TableName: g.name("rel" + sc.SchemaName)}
	if g.dialect != "sqlserver" {
		t.Comment = g.comment()
	}
	prefix := fmt.Sprint("col", g.n)
	for i := 0; i <= 1+r.Intn(5); i++ {
		t.Columns = append(t.Columns, g.column(sc, &t, g.name(prefix)))
	}
	g.constraints(&t)
	g.indexes(sc, &t)
	for i := r.Intn(2); i > 0; i-- {
		t.Triggers = append(t.Triggers, g.trigger(sc, t.TableName, false))
	}
	return t
}

func (g *catGen) trigger(sc *ddl.Schema, table string, view bool) ddl.Trigger {
	tr := ddl.Trigger{TableSchema: sc.SchemaName, TableName: table, TriggerName: g.name("trigger"), IsViewTrigger: view, SQL: "CREATE TRIGGER 'x'\nAS"}
	switch g.dialect {
	case "postgres":
		tr.SQL += ";"
		tr.Comment = g.comment()
	case "mysql":
		tr.Attrs = map[string]string{"actionTiming": pickStr(g.r, "BEFORE", "AFTER"), "eventManipulation": pickStr(g.r, "INSERT", "UPDATE")}
	}
	return tr
}

// some returns a few distinct column names of a table.
func (g *catGen) some(t *ddl.Table, n int) (out []string) {
	for i, j := range g.r.Perm(len(t.Columns)) {
		if i < n {
			out = append(out, t.Columns[j].ColumnName)
		}
	}
	return out
}

func (g *catGen) constraints(t *ddl.Table) {
	r := g.r
	add := func(c ddl.Constraint) {
		c.TableSchema, c.TableName = t.TableSchema, t.TableName
		t.Constraints = append(t.Constraints, c)
	}
	cname := func() string {
		if g.dialect == "sqlserver" {
			return g.name("con")
		}
		// Index names, constraint names of other tables are used again.
		return g.name("con" + t.TableSchema)
	}
	clustered := false
	if r.Intn(4) > 0 {
		c := ddl.Constraint{ConstraintType: "PRIMARY KEY", ConstraintName: cname(), Columns: g.some(t, 1+r.Intn(2))}
		if g.dialect == "mysql" {
			c.ConstraintName = "PRIMARY"
		}
		if g.dialect == "sqlserver" && r.Intn(3) > 0 {
			c.IsClustered, clustered = true, true
		}
		if g.dialect == "postgres" && r.Intn(4) == 0 {
			c.IsDeferrable, c.IsInitiallyDeferred = true, r.Intn(2) == 0
		}
		add(c)
	}
	for i := r.Intn(3); i > 0; i-- {
		c := ddl.Constraint{ConstraintType: "UNIQUE", ConstraintName: cname(), Columns: g.some(t, 1+r.Intn(2))}
		if g.dialect == "mysql" && r.Intn(2) == 0 {
			// Names of unique keys need to be unique in a table only.
			c.ConstraintName = "email"
		}
		dup := false
		for _, o := range t.Constraints {
			dup = dup || o.ConstraintName == c.ConstraintName
		}
		if dup {
			continue
		}
		if g.dialect == "sqlserver" && !clustered && r.Intn(4) == 0 {
			c.IsClustered, clustered = true, true
		}
		if g.dialect == "postgres" && r.Intn(4) == 0 {
			c.IsDeferrable, c.IsInitiallyDeferred = true, r.Intn(2) == 0
		}
		add(c)
	}
	for i := r.Intn(2); i > 0 && !strings.HasPrefix(g.version, "5"); i-- {
		c := ddl.Constraint{ConstraintType: "CHECK", ConstraintName: cname(), CheckExpr: pickStr(r, "(a > 0) AND (b < 2)", "x <> ''", "length(x) > 3", "'(' <> x")}
		c.IsNotValid = g.dialect == "sqlserver" && r.Intn(3) == 0
		add(c)
	}
	if g.dialect == "postgres" && r.Intn(5) == 0 {
		cols := g.some(t, 2)
		ops := []string{"=", "&&"}[:len(cols)]
		for i := range cols {
			cols[i] = pgIdent(cols[i])
		}
		add(ddl.Constraint{ConstraintType: "EXCLUDE", ConstraintName: cname(), Columns: cols, ExclusionOperators: ops, ExclusionIndexType: "gist", ExclusionPredicate: pickStr(r, "", "(x > 1)"), IsDeferrable: r.Intn(3) == 0})
	}
}

func (g *catGen) fkeys(t *ddl.Table, tables []*ddl.Table) {
	r := g.r
	used := map[string]bool{}
	for i := r.Intn(3); i > 0; i-- {
		ref := tables[r.Intn(len(tables))]
		n := 1 + r.Intn(2)
		cols, refs := g.some(t, n), g.some(ref, n)
		if len(cols) != len(refs) {
			continue
		}
		clash := false
		for _, c := range cols {
			clash = clash || used[c]
			used[c] = true
		}
		if clash {
			continue
		}
		c := ddl.Constraint{TableSchema: t.TableSchema, TableName: t.TableName, ConstraintType: "FOREIGN KEY", ConstraintName: g.name("con" + t.TableSchema), Columns: cols, ReferencesSchema: ref.TableSchema, ReferencesTable: ref.TableName, ReferencesColumns: refs}
		c.UpdateRule = pickStr(r, "", "CASCADE", "SET NULL")
		c.DeleteRule = pickStr(r, "", "CASCADE", "SET NULL", "SET DEFAULT")
		switch g.dialect {
		case "postgres":
			c.MatchOption = pickStr(r, "", "", "MATCH FULL")
			c.IsDeferrable = r.Intn(3) == 0
			c.IsInitiallyDeferred = c.IsDeferrable && r.Intn(2) == 0
			c.IsNotValid = r.Intn(4) == 0
		case "sqlserver":
			c.IsNotValid = r.Intn(4) == 0
			c.ConstraintName = g.name("con")
		}
		t.Constraints = append(t.Constraints, c)
	}
}

func (g *catGen) indexes(sc *ddl.Schema, t *ddl.Table) {
	r := g.r
	for i := r.Intn(3); i > 0; i-- {
		t.Indexes = append(t.Indexes, g.index(t, false))
		if last := &t.Indexes[len(t.Indexes)-1]; g.dialect == "mysql" {
			for _, c := range t.Constraints {
				if c.ConstraintName == last.IndexName {
					t.Indexes = t.Indexes[:len(t.Indexes)-1]
					break
				}
			}
			for j := 0; j < len(t.Indexes)-1; j++ {
				if t.Indexes[j].IndexName == last.IndexName {
					t.Indexes = t.Indexes[:len(t.Indexes)-1]
					break
				}
			}
		}
	}
}

func (g *catGen) index(t *ddl.Table, view bool) ddl.Index {
	r := g.r
	ix := ddl.Index{TableSchema: t.TableSchema, TableName: t.TableName, IndexName: g.name("con" + t.TableSchema), IsViewIndex: view}
	cols := g.some(t, 1+r.Intn(3))
	if g.dialect != "postgres" {
		// The names come as a list that cannot be taken apart otherwise.
		for i := len(cols) - 1; i >= 0; i-- {
			if strings.ContainsAny(cols[i], "'\"`[](),") {
				cols = append(cols[:i], cols[i+1:]...)
			}
		}
		if len(cols) == 0 {
			cols = []string{fmt.Sprint("plain", g.n)}
			t.Columns = append(t.Columns, ddl.Column{TableSchema: t.TableSchema, TableName: t.TableName, ColumnName: cols[0], ColumnType: "int"})
		}
	}
	switch g.dialect {
	case "postgres":
		ix.IndexType = pickStr(r, "btree", "gin", "hash")
		ix.IsUnique = r.Intn(3) == 0
		k := len(cols)
		if k > 1 && r.Intn(3) == 0 {
			k--
		}
		for i, c := range cols {
			ident := pgIdent(c)
			if i < k && r.Intn(5) == 0 {
				ident = "lower(" + ident + ")"
			}
			if i < k {
				ix.Columns = append(ix.Columns, ident)
				ix.Opclasses = append(ix.Opclasses, pickStr(r, "int4_ops", "text_pattern_ops"))
			} else {
				ix.IncludeColumns = append(ix.IncludeColumns, ident)
				ix.Opclasses = append(ix.Opclasses, "")
			}
		}
		ix.Predicate = pickStr(r, "", "", "deleted_at IS NULL", "(a = 'x') AND b")
		ix.SQL = "CREATE INDEX " + ix.IndexName + ";"
	case "mysql":
		ix.IndexType = pickStr(r, "BTREE", "FULLTEXT")
		for _, c := range cols {
			if r.Intn(6) == 0 && strings.HasPrefix(g.version, "8") {
				c = pickStr(r, "(lower(`x`))", "(concat(`a`,'b'))")
			}
			ix.Columns = append(ix.Columns, c)
			ix.Descending = append(ix.Descending, r.Intn(3) == 0)
		}
		if r.Intn(3) == 0 {
			ix.IndexName = "email"
		}
	case "sqlserver":
		ix.IndexType = "NONCLUSTERED"
		if view {
			ix.IndexType = "CLUSTERED"
		}
		ix.IsUnique = r.Intn(3) == 0
		k := len(cols)
		if k > 1 && r.Intn(2) == 0 && !view {
			k--
		}
		ix.Columns = cols[:k]
		ix.IncludeColumns = append([]string(nil), cols[k:]...)
		for range ix.Columns {
			ix.Descending = append(ix.Descending, r.Intn(3) == 0)
		}
		if !view {
			ix.Predicate = pickStr(r, "", "", "([deleted_at] IS NULL)")
		}
	}
	return ix
}

func (g *catGen) view(sc *ddl.Schema) ddl.View {
	r := g.r
	v := ddl.View{ViewSchema: sc.SchemaName, ViewName: g.name("rel" + sc.SchemaName), SQL: "CREATE VIEW x AS\nSELECT 'a';"}
	fake := &ddl.Table{TableSchema: sc.SchemaName, TableName: v.ViewName}
	prefix := fmt.Sprint("vcol", g.n)
	for i := 0; i <= r.Intn(4); i++ {
		name := g.name(prefix)
		v.Columns = append(v.Columns, name)
		fake.Columns = append(fake.Columns, ddl.Column{ColumnName: name})
		typ := ""
		switch g.dialect {
		case "postgres":
			typ = strings.ToUpper(pickStr(r, "integer", "text", "character varying(255)", "timestamp with time zone", "numeric(10,2)"))
			if len(sc.Enums) > 0 && sc.SchemaName == g.cat.CurrentSchema && r.Intn(3) == 0 {
				typ = strings.ToUpper(pgIdent(sc.Enums[0].EnumName))
				v.EnumColumns = append(v.EnumColumns, name)
			}
		case "mysql":
			typ = pickStr(r, "int", "varchar(255)", "decimal(10,2)")
		case "sqlserver":
			typ = pickStr(r, "int", "nvarchar", "decimal")
		}
		v.ColumnTypes = append(v.ColumnTypes, typ)
	}
	switch g.dialect {
	case "postgres":
		v.Comment = g.comment()
		if r.Intn(3) == 0 {
			v.IsMaterialized = true
			for i := r.Intn(3); i > 0; i-- {
				v.Indexes = append(v.Indexes, g.index(fake, true))
			}
		} else if r.Intn(3) == 0 {
			v.Triggers = append(v.Triggers, g.trigger(sc, v.ViewName, true))
		}
	case "sqlserver":
		if r.Intn(3) == 0 {
			v.Indexes = append(v.Indexes, g.index(fake, true))
			for _, c := range fake.Columns[len(v.Columns):] {
				v.Columns, v.ColumnTypes = append(v.Columns, c.ColumnName), append(v.ColumnTypes, "int")
			}
			v.Indexes[0].IsUnique = true
		}
		if r.Intn(3) == 0 {
			v.Triggers = append(v.Triggers, g.trigger(sc, v.ViewName, true))
		}
	}
	return v
}

func (g *catGen) routine(sc *ddl.Schema) ddl.Routine {
	r := g.r
	kind := "routine" + sc.SchemaName
	x := ddl.Routine{RoutineSchema: sc.SchemaName, RoutineName: g.name(kind), RoutineType: pickStr(r, "FUNCTION", "PROCEDURE"), SQL: "BEGIN\nSELECT 'x';\nEND"}
	switch g.dialect {
	case "postgres":
		x.SQL += ";"
		x.Comment = g.comment()
		x.IdentityArguments = pickStr(r, "", "a integer, b text", "OUT x character varying")
		x.Attrs = map[string]string{"returnType": ""}
		if x.RoutineType == "FUNCTION" {
			if r.Intn(4) == 0 {
				x.RoutineType = "WINDOW"
			}
			x.Attrs["returnType"] = pickStr(r, "integer", "SETOF text", "trigger")
			if r.Intn(4) == 0 {
				x.RoutineType, x.SQL, x.IdentityArguments = "AGGREGATE", "", pickStr(r, "a integer, b text", "")
			}
		}
	case "mysql":
		x.Comment = g.comment()
		x.Attrs = map[string]string{"returnType": "", "parameters": pickStr(r, "IN a int|OUT b varchar(10)", "INOUT p decimal(10,2)", ""), "routineBody": "SQL", "isDeterministic": pickStr(r, "true", "false"), "sqlDataAccess": pickStr(r, "CONTAINS SQL", "READS SQL DATA"), "securityType": pickStr(r, "DEFINER", "INVOKER")}
		if x.RoutineType == "FUNCTION" {
			x.Attrs["returnType"] = "int"
			x.Attrs["parameters"] = pickStr(r, "a int|b varchar(10)", "p decimal(10,2)", "")
		}
	}
	return x
}
