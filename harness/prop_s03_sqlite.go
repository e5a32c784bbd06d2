package main

// S03 on real SQLite databases.

import (
	"database/sql"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

// sqliteExtras creates objects the schema model does not have and returns the
// names of the tables that a user created.
func sqliteExtras(r *rand.Rand, db *sql.DB, s *mSchema) (tables []string) {
	exec := func(q string) {
		if _, err := db.Exec(q); err != nil {
			panic(harnessError(q + ": " + err.Error()))
		}
	}
	for _, t := range s.Tables {
		tables = append(tables, t.Name)
	}
	if r.Intn(2) == 0 {
		exec(`CREATE TABLE "gen'd" (a INT NOT NULL, "b c" TEXT GENERATED ALWAYS AS (a || 'x') VIRTUAL, d INT AS (a + 1) STORED UNIQUE, PRIMARY KEY (a)) WITHOUT ROWID`)
		exec(`CREATE INDEX gen_partial ON "gen'd" (d DESC) WHERE a > 3`)
		exec(`CREATE UNIQUE INDEX "gen expr" ON "gen'd" (a, lower("b c"))`)
		tables = append(tables, "gen'd")
	}
	if r.Intn(2) == 0 {
		exec(`CREATE TABLE parent (x INT, y INT, PRIMARY KEY (y, x))`)
		exec(`CREATE TABLE child (p INT REFERENCES parent2, q INT, r INT, FOREIGN KEY (q, r) REFERENCES parent)`)
		exec(`CREATE TABLE parent2 (k INTEGER PRIMARY KEY AUTOINCREMENT, untyped, "sqlite col" DATETIME DEFAULT CURRENT_TIMESTAMP)`)
		tables = append(tables, "parent", "child", "parent2")
	}
	if r.Intn(2) == 0 {
		exec(`CREATE VIRTUAL TABLE "fts_x" USING fts5 (title, body)`)
		tables = append(tables, "fts_x")
	}
	if len(tables) > 0 {
		for n := r.Intn(3); n > 0; n-- {
			t := tables[r.Intn(len(tables))]
			if t == "fts_x" {
				continue
			}
			exec(fmt.Sprintf(`CREATE TRIGGER "trg %d" AFTER INSERT ON %s BEGIN SELECT 'a;b'; END`, n, sq3(anyCase(r, t))))
		}
		for n := r.Intn(3); n > 0; n-- {
			t := tables[r.Intn(len(tables))]
			name := []string{"v1", "Order By", "sqliteview"}[n]
			exec(fmt.Sprintf(`CREATE VIEW %s AS SELECT *, 1 AS "one more" FROM %s WHERE '--' <> ''`, sq3(name), sq3(t)))
			if r.Intn(2) == 0 {
				exec(fmt.Sprintf(`CREATE VIEW "over %s" (a) AS SELECT 1 FROM %s`, name, sq3(name)))
			}
			if r.Intn(2) == 0 {
				exec(fmt.Sprintf(`CREATE TRIGGER "instead %s" INSTEAD OF INSERT ON %s BEGIN SELECT 1; END`, name, sq3(anyCase(r, name))))
			}
		}
	}
	return tables
}

// anyCase spells an ASCII name in another case.
func anyCase(r *rand.Rand, s string) string {
	if r.Intn(2) == 0 {
		return s
	}
	return strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' {
			return c - 32
		}
		return c
	}, s)
}

// sqliteObjs lists the objects of a real database.
func sqliteObjs(db *sql.DB, tables []string, f *ddl.Filter) objSet {
	out := objSet{}
	obs := readSQLite(db)
	in := func(name string, include, exclude []string) bool {
		if len(include) > 0 {
			return contains(include, name)
		}
		return !contains(exclude, name)
	}
	wants := func(typ string) bool { return len(f.ObjectTypes) == 0 || contains(f.ObjectTypes, typ) }
	if wants("VIEWS") {
		for name, text := range obs.Views {
			if !in(name, f.Views, f.ExcludeViews) {
				continue
			}
			var cols, types []string
			for _, c := range queryAll(db, `SELECT name, type FROM pragma_table_xinfo(?) ORDER BY cid`, name) {
				cols, types = append(cols, asStr(c[0])), append(types, asStr(c[1]))
			}
			out.add("view", []any{text + ";", cols, strings.Join(types, "|")}, name)
			// Which triggers of views a table filter selects is not specified.
			if len(f.Tables) == 0 && len(f.ExcludeTables) == 0 {
				for _, tr := range queryAll(db, `SELECT name, sql FROM sqlite_schema WHERE type = 'trigger' AND lower(tbl_name) = ?`, strings.ToLower(name)) {
					out.add("view trigger", asStr(tr[1])+";", name, asStr(tr[0]))
				}
			}
		}
	}
	if !wants("TABLES") {
		return out
	}
	for _, name := range tables {
		if !in(name, f.Tables, f.ExcludeTables) {
			continue
		}
		t := obs.Tables[name]
		out.add("table", t.SQL+";", name)
		pk, uniq := map[string]bool{}, map[string]bool{}
		cons := func(typ, what string) {
			if len(f.ConstraintTypes) == 0 || contains(f.ConstraintTypes, typ) {
				out.add("constraint", typ+" "+what, name, typ, what)
			}
		}
		if len(t.PK) > 0 {
			cons("PRIMARY KEY", strings.Join(t.PK, "|"))
			if len(t.PK) == 1 && f.IncludeConstraintType("PRIMARY KEY") {
				pk[t.PK[0]] = true
			}
		}
		for u := range t.Uniques {
			cons("UNIQUE", strings.ReplaceAll(u, "\x00", "|"))
			if !strings.Contains(u, "\x00") && f.IncludeConstraintType("UNIQUE") {
				uniq[u] = true
			}
		}
		fks := map[int]*mFK{}
		for _, x := range queryAll(db, `SELECT id, "table", "from", "to", on_update, on_delete, seq FROM pragma_foreign_key_list(?) ORDER BY id, seq`, name) {
			id := asInt(x[0])
			if fks[id] == nil {
				fks[id] = &mFK{RefTable: asStr(x[1]), OnUpdate: asStr(x[4]), OnDelete: asStr(x[5])}
			}
			to := asStr(x[3])
			if x[3] == nil {
				// The primary key of the other table is meant.
				to = obs.Tables[asStr(x[1])].PK[asInt(x[6])]
			}
			fks[id].Cols, fks[id].RefCols = append(fks[id].Cols, asStr(x[2])), append(fks[id].RefCols, to)
		}
		refs := map[string][]string{}
		for _, fk := range fks {
			cons("FOREIGN KEY", fkString(fk))
			if len(fk.Cols) == 1 {
				refs[fk.Cols[0]] = append(refs[fk.Cols[0]], fk.RefTable+"."+fk.RefCols[0])
			}
		}
		for _, cn := range t.Order {
			c := t.Cols[cn]
			def := c.Default
			typ := strings.TrimSuffix(c.Type, " GENERATED ALWAYS")
			out.add("column", []any{typ, c.NotNull, c.Hidden == 2 || c.Hidden == 3, normDefault(def), pk[cn], uniq[cn]}, name, cn)
		}
		out.add("columns of", t.Order, name)
		for xn, d := range t.Idxs {
			text := asStr(queryAll(db, `SELECT sql FROM sqlite_schema WHERE name = ? AND type = 'index'`, xn)[0][0])
			d = strings.TrimSuffix(strings.ReplaceAll(strings.ReplaceAll(d, " DESC", ""), "<expr>", ""), " PARTIAL")
			out.add("index", []any{d, text + ";"}, name, xn)
		}
		for tn, text := range t.Triggers {
			out.add("trigger", text+";", name, tn)
		}
	}
	return out
}

// catalogObjs lists the objects of a catalog in the same way.
func catalogObjs(cat *ddl.Catalog, f *ddl.Filter, dups *[]string) objSet {
	out := objSet{}
	put := func(kind string, v any, parts ...string) {
		if !out.add(kind, v, parts...) {
			*dups = append(*dups, kind+" "+strings.Join(parts, " / "))
		}
	}
	for _, sc := range cat.Schemas {
		for _, v := range sc.Views {
			put("view", []any{v.SQL, v.Columns, strings.Join(v.ColumnTypes, "|")}, v.ViewName)
			if len(f.Tables) == 0 && len(f.ExcludeTables) == 0 {
				for _, x := range v.Triggers {
					put("view trigger", x.SQL, v.ViewName, x.TriggerName)
				}
			}
		}
		for _, t := range sc.Tables {
			put("table", t.SQL, t.TableName)
			for _, c := range t.Constraints {
				what := strings.Join(c.Columns, "|")
				if c.ConstraintType == "FOREIGN KEY" {
					what = fkString(&mFK{Cols: c.Columns, RefTable: c.ReferencesTable, RefCols: c.ReferencesColumns, OnUpdate: c.UpdateRule, OnDelete: c.DeleteRule})
				}
				put("constraint", c.ConstraintType+" "+what, t.TableName, c.ConstraintType, what)
			}
			var order []string
			for _, c := range t.Columns {
				order = append(order, c.ColumnName)
				put("column", []any{strings.ToUpper(c.ColumnType), c.IsNotNull, c.IsGenerated, normDefault(c.ColumnDefault), c.IsPrimaryKey, c.IsUnique}, t.TableName, c.ColumnName)
			}
			put("columns of", order, t.TableName)
			for _, x := range t.Indexes {
				d := strings.Join(x.Columns, ",")
				if x.IsUnique {
					d = "UNIQUE " + d
				}
				put("index", []any{d, x.SQL}, t.TableName, x.IndexName)
			}
			for _, x := range t.Triggers {
				put("trigger", x.SQL, t.TableName, x.TriggerName)
			}
		}
	}
	return out
}

func s03SQLite(t *T) {
	r := t.Rng
	db := openSQLite(t, ":memory:")
	db.SetMaxOpenConns(1)
	s := newSgen(r).schema()
	for _, tab := range s.Tables {
		for _, q := range tab.sqliteCreate() {
			if _, err := db.Exec(q); err != nil {
				panic(harnessError(q + ": " + err.Error()))
			}
		}
	}
	tables := sqliteExtras(r, db, s)
	sort.Strings(tables)
	cat := &ddl.Catalog{Schemas: []ddl.Schema{{}}}
	for _, n := range tables {
		cat.Schemas[0].Tables = append(cat.Schemas[0].Tables, ddl.Table{TableName: n})
	}
	for _, n := range []string{"v1", "Order By", "sqliteview"} {
		cat.Schemas[0].Views = append(cat.Schemas[0].Views, ddl.View{ViewName: n})
	}
	dbi := ddl.NewDatabaseIntrospector("sqlite", db)
	dbi.IncludeSystemCatalogs = true
	all := &ddl.Catalog{}
	var err error
	if p := recovered(func() { err = dbi.WriteCatalog(all) }); p != nil || err != nil {
		t.Failf("system", "introspecting with system catalogs: %v %v", p, err)
		return
	}
	names := map[string]bool{}
	for _, sc := range all.Schemas {
		for _, tab := range sc.Tables {
			names[tab.TableName] = true
		}
	}
	for _, row := range queryAll(db, `SELECT name FROM sqlite_schema WHERE type = 'table'`) {
		if !names[asStr(row[0])] {
			t.Failf("system table", "table %s is not reported with system catalogs", asStr(row[0]))
		}
	}
	t.Count("introspections_with_system_catalogs", 1)
	for k := 0; k < 4; k++ {
		f := &ddl.Filter{}
		if k > 0 {
			f = genFilter(r, cat)
			f.Schemas, f.ExcludeSchemas = nil, nil
		}
		want := sqliteObjs(db, tables, f)
		dbi := ddl.NewDatabaseIntrospector("sqlite", db)
		dbi.Filter = *f
		got := &ddl.Catalog{}
		var err error
		if p := recovered(func() { err = dbi.WriteCatalog(got) }); p != nil {
			t.Failf("panic", "introspecting panicked: %v", p)
			return
		}
		if err != nil {
			t.Failf("error", "filter %s: %v", filterStr(f), err)
			return
		}
		var dups []string
		have := catalogObjs(got, f, &dups)
		for _, d := range dups {
			t.Failf("twice "+strings.Fields(d)[0], "filter %s: reported twice: %s", filterStr(f), d)
		}
		for _, d := range diffObjs(want, have) {
			t.Failf(diffKind(d), "%s\nfilter %s", d, filterStr(f))
		}
		t.Count("objects_compared", len(want))
		t.Count("introspections", 1)
		if k > 0 {
			t.Count("filtered_introspections", 1)
		}
		for k := range want {
			t.Sig("sqlite " + strings.Fields(k)[0])
		}
	}
}
