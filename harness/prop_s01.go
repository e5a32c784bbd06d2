package main

import (
	"bytes"
	"database/sql"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

// S01: the table structs written for a database are Go code, and read back
// they describe the same tables; the view structs are Go code with a field
// for every column. Databases are real SQLite files and emulated servers; the
// commands under test write the text, the real struct parser reads it back,
// and both sides are compared object by object.

// goDecl is a struct found in generated code.
type goDecl struct {
	Name, Kind, Tag string // Kind: TableStruct or ViewStruct
	Fields          []goField
}

type goField struct{ Name, Type, Tag, DDL string }

// readGo parses generated code and checks what the Go compiler would reject:
// syntax, duplicate types and duplicate fields.
func readGo(src string) ([]goDecl, error) {
	file, err := parser.ParseFile(token.NewFileSet(), "gen.go", src, 0)
	if err != nil {
		return nil, err
	}
	var out []goDecl
	seen := map[string]bool{}
	for _, d := range file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.TYPE {
			continue
		}
		for _, spec := range gd.Specs {
			ts := spec.(*ast.TypeSpec)
			st, ok := ts.Type.(*ast.StructType)
			if !ok {
				return nil, fmt.Errorf("%s is not a struct", ts.Name.Name)
			}
			if seen[ts.Name.Name] {
				return nil, fmt.Errorf("type %s is declared twice", ts.Name.Name)
			}
			seen[ts.Name.Name] = true
			decl := goDecl{Name: ts.Name.Name}
			fields := map[string]bool{}
			for i, f := range st.Fields.List {
				var tag, ddlTag string
				if f.Tag != nil {
					text, err := strconv.Unquote(f.Tag.Value)
					if err != nil {
						return nil, fmt.Errorf("%s: tag %s: %v", ts.Name.Name, f.Tag.Value, err)
					}
					tag, ddlTag = reflect.StructTag(text).Get("sq"), reflect.StructTag(text).Get("ddl")
					if strings.TrimSpace(text) != "" && tag == "" && ddlTag == "" {
						return nil, fmt.Errorf("%s: tag %s is not in the form of a struct tag", ts.Name.Name, f.Tag.Value)
					}
				}
				typ := ""
				if sel, ok := f.Type.(*ast.SelectorExpr); ok {
					typ = sel.Sel.Name
				}
				if i == 0 {
					decl.Kind, decl.Tag = typ, tag
					if len(f.Names) > 0 {
						return nil, fmt.Errorf("%s: the first field is not embedded", ts.Name.Name)
					}
					continue
				}
				if len(f.Names) != 1 {
					return nil, fmt.Errorf("%s: field without a name", ts.Name.Name)
				}
				n := f.Names[0].Name
				if n == "_" {
					continue
				}
				if fields[n] {
					return nil, fmt.Errorf("%s: field %s is declared twice", ts.Name.Name, n)
				}
				fields[n] = true
				decl.Fields = append(decl.Fields, goField{Name: n, Type: typ, Tag: tag, DDL: ddlTag})
			}
			out = append(out, decl)
		}
	}
	return out, nil
}

// fieldFor is the documented field type for a column type ("" if several
// would do).
func fieldFor(dialect, typ string, enum bool) string {
	if enum {
		return "EnumField"
	}
	typ = strings.ToUpper(typ)
	if strings.HasSuffix(typ, "[]") {
		return "ArrayField"
	}
	switch typ {
	case "TINYINT(1)":
		return "BooleanField"
	case "BINARY(16)", "UUID", "UNIQUEIDENTIFIER":
		return "UUIDField"
	}
	base := typ
	if i := strings.IndexByte(base, '('); i >= 0 {
		base = base[:i]
	}
	switch base {
	case "INT", "BIGINT", "SMALLINT", "INTEGER", "NUMERIC", "DECIMAL", "REAL", "DOUBLE PRECISION", "DOUBLE", "FLOAT", "BIGINT UNSIGNED":
		return "NumberField"
	case "TEXT", "VARCHAR", "CHAR", "NVARCHAR", "LONGTEXT":
		return "StringField"
	case "BOOLEAN":
		return "BooleanField"
	case "TIMESTAMP", "TIMESTAMPTZ", "DATE", "TIME", "DATETIME", "DATETIME2", "DATETIMEOFFSET", "SMALLDATETIME":
		return "TimeField"
	case "JSON", "JSONB":
		return "JSONField"
	case "BYTEA", "BLOB", "MEDIUMBLOB", "LONGBLOB", "VARBINARY":
		return "BinaryField"
	}
	if typ == "BIT" {
		return "BooleanField"
	}
	return ""
}

func stripBrackets(s string) string {
	for wholeBrackets(s) {
		s = s[1 : len(s)-1]
	}
	return s
}

// pgUnquote undoes the quoting of identifiers in Postgres index definitions.
func pgUnquote(s string) string {
	if len(s) > 1 && s[0] == '"' && s[len(s)-1] == '"' {
		return strings.ReplaceAll(s[1:len(s)-1], `""`, `"`)
	}
	return s
}

// structObjs lists the parts of the tables which table structs represent.
// complexIdx names the indexes that are out of their scope.
func structObjs(cat *ddl.Catalog, source bool, complexIdx map[string]bool) []string {
	var out []string
	for _, s := range cat.Schemas {
		for i := range s.Tables {
			t := &s.Tables[i]
			if t.Ignore || len(t.Columns) == 0 {
				continue
			}
			full := s.SchemaName + "." + t.TableName
			virtual := t.IsVirtual || strings.HasPrefix(strings.ToUpper(t.SQL), "CREATE VIRTUAL")
			out = append(out, "table "+full+yes(virtual, "virtual"))
			var pk []string
			count := map[string]int{}
			for _, con := range t.Constraints {
				if con.ConstraintType == "PRIMARY KEY" {
					pk = con.Columns
				}
				count[con.ConstraintType+strings.Join(con.Columns, "|")]++
			}
			isCol := map[string]bool{}
			for _, c := range t.Columns {
				isCol[c.ColumnName] = true
				typ := c.ColumnType
				if c.DomainName != "" {
					typ = c.DomainName
				}
				notnull := c.IsNotNull
				rowid := cat.Dialect == "sqlite" && len(pk) == 1 && pk[0] == c.ColumnName && strings.EqualFold(typ, "INTEGER")
				if rowid {
					typ = "INTEGER"
				}
				if source && contains(pk, c.ColumnName) && !rowid {
					notnull = true
				}
				ident := c.ColumnIdentity
				if strings.HasPrefix(ident, "IDENTITY") {
					ident = "IDENTITY"
				}
				coll := c.CollationName
				if coll == cat.DefaultCollation {
					coll = ""
				}
				def := stripBrackets(c.ColumnDefault)
				if source && strings.Contains(def, "`") {
					def = ""
				}
				out = append(out, colString(full, c.ColumnName, typ, notnull, c.IsAutoincrement, c.OnUpdateCurrentTimestamp, c.IsGenerated || c.GeneratedExpr != "", ident, coll, def))
			}
			for _, con := range t.Constraints {
				cols := "(" + strings.Join(con.Columns, "|") + ")"
				def := ""
				if cat.Dialect == "postgres" || cat.Dialect == "sqlite" {
					def = yes(con.IsDeferrable, "deferrable") + yes(con.IsInitiallyDeferred, "deferred")
				}
				switch con.ConstraintType {
				case "PRIMARY KEY", "UNIQUE":
					line := con.ConstraintType + " " + full + cols + def
					if con.ConstraintType == "UNIQUE" && count["UNIQUE"+strings.Join(con.Columns, "|")] > 1 {
						line = "UNIQUE " + full + cols + " several"
						if contains(out, line) {
							continue
						}
					}
					out = append(out, line)
				case "FOREIGN KEY":
					if count["FOREIGN KEY"+strings.Join(con.Columns, "|")] > 1 {
						if line := "FOREIGN KEY " + full + cols + " several"; !contains(out, line) {
							out = append(out, line)
						}
						continue
					}
					schema := con.ReferencesSchema
					if schema == "" {
						schema = cat.CurrentSchema
					}
					rule := func(r string) string {
						if r == "NO ACTION" {
							return ""
						}
						return r
					}
					out = append(out, fmt.Sprintf("FOREIGN KEY %s%s -> %s.%s(%s) upd=%s del=%s%s", full, cols, schema, con.ReferencesTable, strings.Join(con.ReferencesColumns, "|"), rule(con.UpdateRule), rule(con.DeleteRule), def))
				}
			}
			idx := map[string]int{}
			var lines []string
			for _, x := range t.Indexes {
				if source && complexIdx[x.IndexName] {
					continue
				}
				var cols []string
				simple := len(x.IncludeColumns) == 0 && x.Predicate == "" && len(x.Columns) > 0
				for _, c := range x.Columns {
					if cat.Dialect == "postgres" && source {
						c = pgUnquote(c)
					}
					simple = simple && isCol[c]
					cols = append(cols, c)
				}
				for _, d := range x.Descending {
					simple = simple && !d
				}
				for _, o := range x.Opclasses {
					simple = simple && strings.Count(o, "_") <= 1
				}
				if source && !simple {
					continue
				}
				using := ""
				if cat.Dialect == "postgres" || cat.Dialect == "mysql" {
					using = strings.ToUpper(x.IndexType)
				}
				if using == "BTREE" {
					using = ""
				}
				key := fmt.Sprintf("index %s(%s)", full, strings.Join(cols, "|"))
				idx[key]++
				lines = append(lines, fmt.Sprintf("%s%s using=%s", key, yes(x.IsUnique, "unique"), using))
			}
			for _, l := range lines {
				if idx[l[:strings.IndexByte(l, ')')+1]] == 1 {
					out = append(out, l)
				} else if key := l[:strings.IndexByte(l, ')')+1] + " several"; !contains(out, key) {
					// One declaration stands for all of them.
					out = append(out, key)
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// dropSeveral leaves out the objects that share their columns: one
// declaration stands for all of them.
func dropSeveral(want, got []string) (w, g []string) {
	var several []string
	for _, l := range want {
		if strings.HasSuffix(l, " several") {
			several = append(several, strings.TrimSuffix(l, "several"))
		}
	}
	filter := func(in []string) (out []string) {
		for _, l := range in {
			drop := false
			for _, s := range several {
				drop = drop || strings.HasPrefix(l+" ", s)
			}
			if !drop {
				out = append(out, l)
			}
		}
		return out
	}
	return filter(want), filter(got)
}

// noDots renames what cannot be written in modifiers.
func noDots(cat *ddl.Catalog) *ddl.Catalog {
	b, err := json.Marshal(cat)
	must(err)
	b = bytes.ReplaceAll(b, []byte("tab.le"), []byte("tab-le"))
	out := &ddl.Catalog{}
	must(json.Unmarshal(b, out))
	return out
}

// s01Check writes the structs of a database with the command and reads them
// back. source is the introspected catalog.
func s01Check(t *T, db *sql.DB, dialect string, source *ddl.Catalog, complexIdx map[string]bool) {
	r := t.Rng
	qualified := r.Intn(3) == 0
	cmd := &ddl.TablesCmd{DB: db, Dialect: dialect, SchemaQualifiedStructs: qualified, PackageName: pickStr(r, "tables", "x1")}
	var out bytes.Buffer
	cmd.Stdout = &out
	pkg := cmd.PackageName
	if r.Intn(2) == 0 {
		dir := pickStr(r, "tables", "my_pkg", "my-pkg", "two words", "1st", "größe")
		must(os.MkdirAll(filepath.Join(t.Dir(), dir), 0755))
		cmd.Filename = filepath.Join(t.Dir(), dir, "gen.go")
		if r.Intn(2) == 0 {
			must(os.WriteFile(cmd.Filename, bytes.Repeat([]byte("old contents\n"), 5000), 0644))
		}
		if r.Intn(2) == 0 {
			cmd.PackageName, pkg = "", ""
		}
	}
	var want = source
	if r.Intn(3) == 0 {
		want = s01Filter(r, cmd, source)
	}
	var err error
	if p := recovered(func() { err = cmd.Run() }); p != nil {
		t.Failf("panic", "%s: sqddl tables panicked: %v", dialect, p)
		return
	}
	if err != nil {
		t.Failf("tables failed", "%s: sqddl tables: %v", dialect, err)
		return
	}
	text := out.String()
	empty := len(structObjs(want, true, complexIdx)) == 0
	if cmd.Filename != "" {
		b, err := os.ReadFile(cmd.Filename)
		if err != nil && !empty {
			t.Failf("no file", "%s: %v", dialect, err)
			return
		}
		if text != "" {
			t.Failf("both", "%s: the code went to stdout as well as to the file", dialect)
			return
		}
		text = string(b)
	}
	if empty {
		t.Count("empty", 1)
		return
	}
	decls, err := readGo(text)
	if err != nil {
		t.Failf("not go", "%s: the table structs are not valid Go: %v\n%s", dialect, err, text)
		return
	}
	if pkg != "" && !strings.HasPrefix(text, "package "+pkg+"\n") {
		t.Failf("package", "%s: the package is not %s\n%s", dialect, pkg, text)
		return
	}
	got := &ddl.Catalog{Dialect: dialect, CurrentSchema: source.CurrentSchema, DefaultCollation: source.DefaultCollation}
	perr, panicked := parseSources([]string{text}, got)
	if panicked != "" {
		t.Failf("panic", "%s: reading the table structs panicked: %s\n%s", dialect, panicked, text)
		return
	}
	if perr != nil {
		if strings.Contains(perr.Error(), "is already used for") {
			t.Count("name_clashes", 1)
			return
		}
		// A foreign key into a table that was filtered out cannot be resolved.
		if want != source && strings.Contains(perr.Error(), "does not exist") && !strings.Contains(perr.Error(), "in the table") {
			t.Count("filtered_references", 1)
			return
		}
		t.Failf("unreadable", "%s: the table structs cannot be read back: %v\n%s", dialect, perr, text)
		return
	}
	w, g := dropSeveral(structObjs(want, true, complexIdx), structObjs(got, false, nil))
	if d := diffLists(w, g); d != "" {
		key := "differs"
		if f := strings.Fields(d); len(f) > 1 {
			key += " " + f[1]
		}
		t.Failf(key, "%s: the table structs describe other tables:\n%s\n%s", dialect, d, text)
		return
	}
	// Field types.
	fields := map[string]goField{}
	for _, d := range decls {
		if d.Kind != "TableStruct" {
			t.Failf("kind", "%s: struct %s does not embed sq.TableStruct", dialect, d.Name)
			return
		}
		table := d.Tag
		if table == "" {
			table = strings.ToLower(d.Name)
		}
		for _, f := range d.Fields {
			n := f.Tag
			if n == "" {
				n = strings.ToLower(f.Name)
			}
			fields[table+"\x00"+n] = f
		}
	}
	for _, s := range want.Schemas {
		for _, tab := range s.Tables {
			for _, c := range tab.Columns {
				f, ok := fields[tab.TableName+"\x00"+c.ColumnName]
				if !ok {
					f, ok = fields[s.SchemaName+"."+tab.TableName+"\x00"+c.ColumnName]
				}
				if !ok {
					continue // compared above
				}
				if w := fieldFor(dialect, c.ColumnType, c.IsEnum); w != "" && f.Type != w {
					t.Failf("field type", "%s: column %s.%s of type %s became a sq.%s, not a sq.%s", dialect, tab.TableName, c.ColumnName, c.ColumnType, f.Type, w)
					return
				}
				t.Count("fields", 1)
			}
		}
	}
	t.Count("round_trips", 1)
	t.Count("objects", len(w))
	for _, l := range w {
		t.Count("obj:"+strings.SplitN(l, " ", 2)[0], 1)
	}
	if qualified {
		t.Count("qualified", 1)
	}
	t.Sig(text)
	if t.Rng.Intn(20) == 0 {
		t.Sample("%s", text)
	}
}

// s01Filter narrows the command to some tables, and the catalog likewise.
func s01Filter(r *rand.Rand, cmd *ddl.TablesCmd, cat *ddl.Catalog) *ddl.Catalog {
	var names []string
	for _, s := range cat.Schemas {
		for _, tab := range s.Tables {
			names = append(names, tab.TableName)
		}
	}
	if len(names) == 0 {
		return cat
	}
	some := []string{names[r.Intn(len(names))], names[r.Intn(len(names))]}
	out := *cat
	out.Schemas = nil
	include := r.Intn(2) == 0
	if include {
		cmd.Tables = some
	} else {
		cmd.ExcludeTables = some
	}
	for _, s := range cat.Schemas {
		ns := s
		ns.Tables = nil
		for _, tab := range s.Tables {
			if contains(some, tab.TableName) == include {
				ns.Tables = append(ns.Tables, tab)
			}
		}
		out.Schemas = append(out.Schemas, ns)
	}
	return &out
}

// s01Views checks the structs of the views.
func s01Views(t *T, db *sql.DB, dialect string, source *ddl.Catalog) {
	cmd := &ddl.ViewsCmd{DB: db, Dialect: dialect, PackageName: "views"}
	var out bytes.Buffer
	cmd.Stdout = &out
	var err error
	if p := recovered(func() { err = cmd.Run() }); p != nil || err != nil {
		t.Failf("views failed", "%s: sqddl views: %v %v", dialect, p, err)
		return
	}
	type view struct{ cols, types []string }
	want := map[string]view{}
	enum := map[string]bool{}
	typeOf := map[string]string{}
	for _, s := range source.Schemas {
		for _, v := range s.Views {
			full := s.SchemaName + "." + v.ViewName
			want[full] = view{v.Columns, v.ColumnTypes}
			for _, c := range v.EnumColumns {
				enum[full+"\x00"+c] = true
			}
			for i, c := range v.Columns {
				if i < len(v.ColumnTypes) {
					typeOf[full+"\x00"+c] = v.ColumnTypes[i]
				}
			}
		}
	}
	if len(want) == 0 {
		return
	}
	decls, err := readGo(out.String())
	if err != nil {
		t.Failf("views not go", "%s: the view structs are not valid Go: %v\n%s", dialect, err, out.String())
		return
	}
	for _, d := range decls {
		if d.Kind != "ViewStruct" {
			t.Failf("kind", "%s: struct %s does not embed sq.ViewStruct", dialect, d.Name)
			return
		}
		name := d.Tag
		if name == "" {
			name = strings.ToLower(d.Name)
		}
		full := name
		if _, ok := want[full]; !ok {
			full = source.CurrentSchema + "." + name
		}
		v, ok := want[full]
		if !ok {
			t.Failf("view name", "%s: struct %s stands for %s, which is not a view\n%s", dialect, d.Name, name, out.String())
			return
		}
		delete(want, full)
		var cols []string
		for _, f := range d.Fields {
			n := f.Tag
			if n == "" {
				n = strings.ToLower(f.Name)
			}
			cols = append(cols, n)
			if w := fieldFor(dialect, typeOf[full+"\x00"+n], enum[full+"\x00"+n]); w != "" && w != f.Type {
				t.Failf("view field type", "%s: column %s of view %s has type %s and became a sq.%s", dialect, n, full, typeOf[full+"\x00"+n], f.Type)
				return
			}
		}
		for i, c := range v.cols {
			// Columns with spaces are the subject of a case of their own.
			if !strings.HasPrefix(t.CaseID, "views/") && strings.Contains(c, " ") && i < len(cols) && cols[i] == strings.ReplaceAll(c, " ", "_") {
				cols[i] = c
			}
		}
		if strings.Join(cols, "|") != strings.Join(v.cols, "|") {
			t.Failf("view columns", "%s: view %s has the columns %q, its struct the columns %q\n%s", dialect, full, v.cols, cols, out.String())
			return
		}
		t.Count("views", 1)
		t.Count("view_columns", len(cols))
	}
	for full := range want {
		t.Failf("view missing", "%s: view %s has no struct\n%s", dialect, full, out.String())
		return
	}
}

func introspected(t *T, db *sql.DB, dialect string) *ddl.Catalog {
	cat := &ddl.Catalog{}
	dbi := ddl.NewDatabaseIntrospector(dialect, db)
	var err error
	if p := recovered(func() { err = dbi.WriteCatalog(cat) }); p != nil || err != nil {
		panic(harnessError(fmt.Sprint("introspecting: ", p, err)))
	}
	return cat
}

func s01Server(t *T, dialect string) {
	r := t.Rng
	cat, version := genCatalog(r, dialect)
	cat = noDots(cat)
	for i := range cat.Schemas {
		for k := range cat.Schemas[i].Tables {
			s01Vary(r, dialect, &cat.Schemas[i].Tables[k])
		}
	}
	// Postgres has tables without columns, which no struct can describe.
	if dialect == "postgres" && len(cat.Schemas) > 0 && r.Intn(4) == 0 {
		s := &cat.Schemas[r.Intn(len(cat.Schemas))]
		s.Tables = append(s.Tables, ddl.Table{TableSchema: s.SchemaName, TableName: pickStr(r, "aaa", "mmm", "zzz") + "_bare"})
		t.Count("columnless", 1)
	}
	db, _, _ := newServerDB(t, dialect, version, cat)
	source := introspected(t, db, dialect)
	s01Check(t, db, dialect, source, nil)
	if !t.Failed() {
		s01Views(t, db, dialect, source)
	}
}

// s01Vary adds columns whose rendering is special.
func s01Vary(r *rand.Rand, dialect string, tab *ddl.Table) {
	if r.Intn(3) > 0 {
		return
	}
	add := func(name, typ, def string) {
		for _, c := range tab.Columns {
			if strings.EqualFold(c.ColumnName, name) {
				return
			}
		}
		tab.Columns = append(tab.Columns, ddl.Column{TableSchema: tab.TableSchema, TableName: tab.TableName, ColumnName: name, ColumnType: typ, ColumnDefault: def})
	}
	switch dialect {
	case "postgres":
		add("items", "text[]", "'{}'::text[]")
		add("a b", "int", "")
		add("a_b", "int", "")
		add("a-b", "int", "")
		add("1st", "timestamp", "'{ \"a\": 1 }'::jsonb")
	case "mysql":
		add("changed", "timestamp", "")
		add("a b", "int", "")
		add("a_b", "int", "")
	case "sqlserver":
		add("2nd", "datetime2", "")
		add("a b", "int", "")
		add("a_b", "int", "")
	}
}

func s01SQLite(t *T) {
	r := t.Rng
	db := openSQLite(t, ":memory:")
	db.SetMaxOpenConns(1)
	s := newSgen(r).schema()
	exec := func(q string) {
		if _, err := db.Exec(q); err != nil {
			panic(harnessError(q + ": " + err.Error()))
		}
	}
	for _, tab := range s.Tables {
		for _, q := range tab.sqliteCreate() {
			exec(q)
		}
	}
	sqliteExtras(r, db, s)
	if r.Intn(2) == 0 {
		exec(`CREATE TABLE "s01" (id INT PRIMARY KEY, ts TIMESTAMP, dt DATETIME DEFAULT CURRENT_TIMESTAMP, description TEXT, "desc" TEXT, "a b" INT, a_b INT, "a-b" INT DEFAULT 'it''s {x}', "1st" NUMERIC(10,2) DEFAULT (1 + 2), "group" BLOB COLLATE nocase, "back` + "`" + `tick" TEXT, "wh ere" TEXT, UNIQUE ("a b", a_b))`)
		exec(`CREATE INDEX s01_description ON s01 (ts, description)`)
		exec("CREATE UNIQUE INDEX s01_part ON s01 (dt)\nWHERE\n  id > 3")
		exec(`CREATE INDEX s01_desc ON s01 ("desc", a_b)`)
		exec("CREATE INDEX s01_down ON s01 (\"a b\"\tDESC)")
		exec(`CREATE INDEX "s01 where" ON s01 ("wh ere")`)
		exec(`CREATE INDEX s01_back ON s01 ("back` + "`" + `tick")`)
		exec("CREATE UNIQUE INDEX s01_expr ON s01 (lower(description))")
		exec("CREATE UNIQUE INDEX s01_expr2 ON s01 (id, abs(\"a-b\"))")
		exec(`CREATE TABLE "s01 child" (a INT REFERENCES s01 ON DELETE SET NULL, "x y" integer primary key autoincrement, FOREIGN KEY (a, "x y") REFERENCES s01 ("a b", a_b) ON UPDATE CASCADE DEFERRABLE INITIALLY DEFERRED)`)
		exec(`CREATE TABLE "s01-child" ("S01" BIGINT NOT NULL, id VARCHAR(20), PRIMARY KEY (id, "S01"))`)
		exec(`CREATE TABLE s01_child (flag BOOLEAN NOT NULL DEFAULT FALSE, u UUID UNIQUE, j JSON, n)`)
		exec(`CREATE TABLE "2fa" (code TEXT)`)
		exec(`CREATE VIEW "s01 view" AS SELECT id, "a b", a_b, "a-b", "1st", ts AS "TS" FROM s01`)
	}
	complexIdx := map[string]bool{}
	for _, row := range queryAll(db, `SELECT m.name, l."partial", x.cid, x."desc" FROM sqlite_schema m, pragma_index_list(m.tbl_name) l, pragma_index_xinfo(m.name) x WHERE m.type = 'index' AND l.name = m.name AND x.key`) {
		if asInt(row[1]) != 0 || asInt(row[2]) < 0 || asInt(row[3]) != 0 {
			complexIdx[asStr(row[0])] = true
		}
	}
	source := introspected(t, db, "sqlite")
	if r.Intn(2) == 0 {
		exec(`CREATE TABLE sqddl_history (filename TEXT PRIMARY KEY)`)
	}
	s01Check(t, db, "sqlite", source, complexIdx)
	if !t.Failed() {
		s01Views(t, db, "sqlite", source)
	}
}

func init() {
	register(&Prop{
		ID:    "S01",
		Level: "exploration",
		Rule:  "the output of sqddl tables parses as Go, has no duplicate names, and read by the struct parser gives the introspected tables, columns, keys and plain indexes; the output of sqddl views has one struct per view and one field per column",
		Cases: func(tier string, seed int64) []Case {
			n := tierN(tier, 400, 6000)
			cases := []Case{{ID: "views/space", Run: func(t *T) {
				db := openSQLite(t, ":memory:")
				db.SetMaxOpenConns(1)
				_, err := db.Exec(`CREATE VIEW customers AS SELECT 1 AS id, 2 AS "zip code"`)
				must(err)
				s01Views(t, db, "sqlite", introspected(t, db, "sqlite"))
			}}}
			for i := 0; i < n; i++ {
				cases = append(cases, Case{ID: fmt.Sprintf("sqlite/%d", i), Run: s01SQLite})
				for _, d := range allDialects[1:] {
					d := d
					cases = append(cases, Case{ID: fmt.Sprintf("%s/%d", d, i), Run: func(t *T) { s01Server(t, d) }})
				}
			}
			return cases
		},
		MinCounts: map[string]int64{"round_trips": 1000, "objects": 10000, "obj:FOREIGN": 300, "obj:index": 300, "obj:PRIMARY": 1000, "views": 500, "fields": 5000, "qualified": 300},
		Assumptions: []string{
			"names with a dot or a comma, defaults with a backquote and values with unbalanced braces cannot be written in struct tags and are not generated (defaults with backquotes are left out by design)",
			"foreign keys, unique constraints and indexes over the same columns share one declaration; indexes that are partial, descending, on expressions or with included columns have none",
			"Postgres, MySQL and SQL Server are emulated at the driver level",
		},
	})
}
