package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

// G06: an object of a catalog that is marked with Ignore counts as absent.
// The commands run twice, once on catalogs with marked objects and once on
// catalogs that lack them.

func init() {
	register(&Prop{
		ID:        "G06",
		Level:     "exploration",
		Rule:      "Fails when generate, given catalogs with schemas, tables, columns, constraints or indexes marked Ignore, writes other files or warnings than given the same catalogs without these objects, and when the structs written for such a catalog differ.",
		MinCounts: map[string]int64{"pairs": 500, "files": 500, "ignored_schemas": 50, "ignored_tables": 200, "ignored_columns": 200, "ignored_constraints": 200, "ignored_indexes": 100, "ignored_views": 100, "ignored_routines": 100, "structs": 500},
		Cases: func(tier string, seed int64) (cases []Case) {
			n := tierN(tier, 3000, 40000)
			for i := 0; i < n; i++ {
				d := []string{"postgres", "mysql", "sqlserver", "sqlite"}[i%4]
				cases = append(cases, Case{ID: fmt.Sprintf("%s/%d", d, i/4), Run: func(t *T) { g06Case(t, d) }})
			}
			cases = append(cases, Case{ID: "sqlite-first-tables", Run: func(t *T) {
				dest := &ddl.Catalog{Dialect: "sqlite", Schemas: []ddl.Schema{{Tables: []ddl.Table{
					{TableName: "a", Columns: []ddl.Column{{TableName: "a", ColumnName: "x", ColumnType: "INT"}}},
					{TableName: "b", Ignore: true, Columns: []ddl.Column{{TableName: "b", ColumnName: "x", ColumnType: "INT"}}},
				}}}}
				g06Compare(t, &ddl.Catalog{Dialect: "sqlite"}, dest, false)
			}})
			return cases
		},
	})
}

// hide marks some objects. Nothing that is left refers to a marked object.
func hide(t *T, r *rand.Rand, cat *ddl.Catalog) {
	count := func(what string) { t.Count("ignored_"+what, 1) }
	gone := map[string]bool{} // tables, and columns of tables
	tkey := func(s, tb string) string { return s + "\x00" + tb }
	ckey := func(s, tb, c string) string { return s + "\x00" + tb + "\x00" + c }
	rate := 4 + r.Intn(12)
	for i := range cat.Schemas {
		s := &cat.Schemas[i]
		if r.Intn(2*rate) == 0 {
			s.Ignore = true
			count("schemas")
		}
		for j := range s.Views {
			if r.Intn(rate) == 0 {
				s.Views[j].Ignore = true
				count("views")
			}
		}
		for j := range s.Routines {
			if r.Intn(rate) == 0 {
				s.Routines[j].Ignore = true
				count("routines")
			}
		}
		for j := range s.Tables {
			tb := &s.Tables[j]
			if r.Intn(rate) == 0 {
				tb.Ignore = true
				count("tables")
			}
			if tb.Ignore || s.Ignore {
				gone[tkey(s.SchemaName, tb.TableName)] = true
			}
			left := len(tb.Columns)
			for k := range tb.Columns {
				if left > 1 && r.Intn(rate) == 0 {
					tb.Columns[k].Ignore = true
					left--
					gone[ckey(s.SchemaName, tb.TableName, tb.Columns[k].ColumnName)] = true
					count("columns")
				}
			}
		}
	}
	for i := range cat.Schemas {
		s := &cat.Schemas[i]
		for j := range s.Tables {
			tb := &s.Tables[j]
			if !strings.HasPrefix(strings.ToUpper(tb.SQL), "CREATE VIRTUAL") {
				tb.SQL = "" // it would stand for the columns and constraints
			}
			for k := range tb.Triggers {
				if r.Intn(rate) == 0 {
					tb.Triggers[k].Ignore = true
					count("triggers")
				}
			}
			for k := range tb.Constraints {
				c := &tb.Constraints[k]
				refSchema := c.ReferencesSchema
				if refSchema == "" {
					refSchema = s.SchemaName
				}
				dead := r.Intn(rate) == 0 || c.ConstraintType == "FOREIGN KEY" && gone[tkey(refSchema, c.ReferencesTable)]
				for _, col := range c.Columns {
					dead = dead || gone[ckey(s.SchemaName, tb.TableName, col)]
				}
				for _, col := range c.ReferencesColumns {
					dead = dead || gone[ckey(refSchema, c.ReferencesTable, col)]
				}
				if !dead {
					continue
				}
				c.Ignore = true
				count("constraints")
				if len(c.Columns) == 1 {
					// The column says the same of itself.
					for n := range tb.Columns {
						if tb.Columns[n].ColumnName != c.Columns[0] {
							continue
						}
						switch c.ConstraintType {
						case "PRIMARY KEY":
							tb.Columns[n].IsPrimaryKey = false
						case "UNIQUE":
							tb.Columns[n].IsUnique = false
						case "FOREIGN KEY":
							tb.Columns[n].ReferencesSchema, tb.Columns[n].ReferencesTable, tb.Columns[n].ReferencesColumn = "", "", ""
							tb.Columns[n].UpdateRule, tb.Columns[n].DeleteRule = "", ""
						}
					}
				}
			}
			for k := range tb.Indexes {
				x := &tb.Indexes[k]
				dead := r.Intn(rate) == 0
				for _, col := range append(append([]string{}, x.Columns...), x.IncludeColumns...) {
					if n := len(col); cat.Dialect == "postgres" && n > 1 && col[0] == '"' && col[n-1] == '"' {
						col = strings.ReplaceAll(col[1:n-1], `""`, `"`)
					}
					dead = dead || gone[ckey(s.SchemaName, tb.TableName, col)]
				}
				if dead {
					x.Ignore = true
					count("indexes")
				}
			}
		}
	}
}

// without is the catalog without the marked objects.
func without(cat *ddl.Catalog) *ddl.Catalog {
	out := catCopy(cat)
	var schemas []ddl.Schema
	for _, s := range out.Schemas {
		if s.Ignore {
			continue
		}
		var tables []ddl.Table
		for _, tb := range s.Tables {
			if tb.Ignore {
				continue
			}
			var cols []ddl.Column
			for _, c := range tb.Columns {
				if !c.Ignore {
					cols = append(cols, c)
				}
			}
			var cons []ddl.Constraint
			for _, c := range tb.Constraints {
				if !c.Ignore {
					cons = append(cons, c)
				}
			}
			var idx []ddl.Index
			for _, x := range tb.Indexes {
				if !x.Ignore {
					idx = append(idx, x)
				}
			}
			var trg []ddl.Trigger
			for _, x := range tb.Triggers {
				if !x.Ignore {
					trg = append(trg, x)
				}
			}
			tb.Columns, tb.Constraints, tb.Indexes, tb.Triggers = cols, cons, idx, trg
			tables = append(tables, tb)
		}
		var views []ddl.View
		for _, v := range s.Views {
			if !v.Ignore {
				views = append(views, v)
			}
		}
		var routines []ddl.Routine
		for _, v := range s.Routines {
			if !v.Ignore {
				routines = append(routines, v)
			}
		}
		s.Tables, s.Views, s.Routines = tables, views, routines
		schemas = append(schemas, s)
	}
	out.Schemas = schemas
	return out
}

// catCopy copies a catalog through its JSON form.
func catCopy(cat *ddl.Catalog) *ddl.Catalog {
	b, err := json.Marshal(cat)
	must(err)
	out := &ddl.Catalog{}
	must(json.Unmarshal(b, out))
	return out
}

// addViews adds views and routines, which generate does not write.
func addViews(r *rand.Rand, cat *ddl.Catalog) {
	for i := range cat.Schemas {
		s := &cat.Schemas[i]
		for j := r.Intn(3); j > 0; j-- {
			s.Views = append(s.Views, ddl.View{ViewSchema: s.SchemaName, ViewName: fmt.Sprintf("view_%d", j), Columns: []string{"a", "b"}, ColumnTypes: []string{"int", "text"}})
		}
		if cat.Dialect == "sqlite" {
			continue
		}
		for j := r.Intn(3); j > 0; j-- {
			s.Routines = append(s.Routines, ddl.Routine{RoutineSchema: s.SchemaName, RoutineName: fmt.Sprintf("routine_%d", j), RoutineType: []string{"FUNCTION", "PROCEDURE"}[r.Intn(2)]})
		}
	}
}

// replaced reports whether a table loses all of its visible columns, while it
// keeps one that is marked. The last column of a table cannot be dropped, but this one
// is not the last.
func replaced(src, dest *ddl.Catalog) bool {
	for _, s := range src.Schemas {
		for _, a := range s.Tables {
			marked, kept := false, false
			for _, c := range a.Columns {
				marked = marked || c.Ignore
			}
			for _, ds := range dest.Schemas {
				for _, b := range ds.Tables {
					if b.TableName != a.TableName {
						continue
					}
					for _, c := range a.Columns {
						for _, d := range b.Columns {
							kept = kept || c.ColumnName == d.ColumnName && !c.Ignore && !d.Ignore
						}
					}
				}
			}
			if marked && !kept {
				return true
			}
		}
	}
	return false
}

func g06Case(t *T, dialect string) {
	r := t.Rng
	var src, dest *ddl.Catalog
	if dialect == "sqlite" {
		g := newSgen(r)
		a := g.schema()
		b, _ := g.evolve(a)
		read := func(s *mSchema) *ddl.Catalog {
			db := openSQLite(t, ":memory:")
			db.SetMaxOpenConns(1)
			for _, tb := range s.Tables {
				for _, q := range tb.sqliteCreate() {
					_, err := db.Exec(q)
					must(err)
				}
			}
			cat := &ddl.Catalog{}
			must(ddl.NewDatabaseIntrospector("sqlite", db).WriteCatalog(cat))
			return cat
		}
		src, dest = read(a), read(b)
	} else {
		a := d06Random(t, dialect)
		b := a.clone()
		g := &vGen{r: r, dialect: dialect, json: true}
		for i := r.Intn(8); i > 0; i-- {
			g.mutate(b, a, true)
		}
		src, dest = a.catalog(), target(b, a, true).catalog()
	}
	if r.Intn(6) == 0 {
		src.Schemas = nil
	}
	addViews(r, src)
	addViews(r, dest)
	if r.Intn(3) > 0 {
		hide(t, r, src)
	}
	hide(t, r, dest)
	if dialect == "sqlite" && len(without(src).Schemas) == 0 {
		// See the known finding.
		for i := range dest.Schemas {
			for j := range dest.Schemas[i].Tables {
				dest.Schemas[i].Tables[j].Ignore = false
			}
		}
	}
	if replaced(src, dest) {
		t.Count("replaced", 1)
		return
	}
	g06Compare(t, src, dest, r.Intn(2) == 0)
}

// g06Compare compares what is done with the catalogs and without what they
// mark.
func g06Compare(t *T, src, dest *ddl.Catalog, drop bool) {
	dialect := src.Dialect
	run := func(src, dest *ddl.Catalog, name string) (string, int, error) {
		dir := filepath.Join(t.Dir(), name)
		must(os.MkdirAll(dir, 0o755))
		var stderr bytes.Buffer
		cmd := &ddl.GenerateCmd{SrcCatalog: catCopy(src), DestCatalog: catCopy(dest), Dialect: dialect, OutputDir: dir, DropObjects: drop, AcceptWarnings: true, Prefix: "p", Stdout: &bytes.Buffer{}, Stderr: &stderr}
		var err error
		if p := recovered(func() { err = cmd.Run() }); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
		var b strings.Builder
		files := listSQL(dir)
		for _, f := range files {
			text, err := os.ReadFile(filepath.Join(dir, f))
			must(err)
			fmt.Fprintf(&b, "== %s\n%s\n", f, text)
		}
		fmt.Fprintf(&b, "== stderr\n%s", strings.ReplaceAll(stderr.String(), dir, "DIR"))
		return b.String(), len(files), err
	}
	got, n, gotErr := run(src, dest, "marked")
	want, _, wantErr := run(without(src), without(dest), "without")
	if gotErr != nil && strings.HasPrefix(gotErr.Error(), "panic") {
		t.Failf("panic", "generate: %v", gotErr)
		return
	}
	if (gotErr == nil) != (wantErr == nil) {
		t.Failf("error", "with ignored objects generate returns %v, without them %v", gotErr, wantErr)
		return
	}
	if got != want {
		t.Failf("differs", "with ignored objects generate writes\n%s\nwithout them\n%s\nsource %s\ndestination %s", got, want, jsonOf(src), jsonOf(dest))
		return
	}
	t.Count("pairs", 1)
	t.Count("files", n)
	t.Sig("generate", dialect, n, drop, len(got)/200)
	structs := func(cat *ddl.Catalog) string {
		ts, text := ddl.TableStructs{}, []byte{}
		var err error
		if p := recovered(func() {
			err = ts.ReadCatalog(catCopy(cat))
			if err == nil {
				text, err = ts.MarshalText()
			}
			vs := ddl.ViewStructs{}
			if err == nil {
				err = vs.ReadCatalog(catCopy(cat))
			}
			if err == nil {
				var more []byte
				more, err = vs.MarshalText()
				text = append(text, more...)
			}
		}); p != nil {
			return fmt.Sprint("panic: ", p)
		}
		return fmt.Sprintf("%s\n%v", text, err)
	}
	if a, b := structs(dest), structs(without(dest)); a != b {
		t.Failf("structs", "the structs of a catalog with ignored objects are\n%s\nwithout them\n%s", a, b)
	}
	t.Count("structs", 1)
}
