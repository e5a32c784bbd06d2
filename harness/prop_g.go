package main

// G01, G02, G05: generated migrations on a real SQLite database. A history of
// schema versions is declared as table structs (or as another database, or a
// schema.json file); after every step the real structure (read with pragmas)
// and the real rows are compared with the declared version.

import (
	"bytes"
	"database/sql"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

// compatible reports whether next can be reached from prev with the changes
// that generate tracks, on a database with rows.
func compatible(prev, next *mSchema) bool {
	for _, n := range next.Tables {
		p := prev.table(n.Name)
		if p == nil {
			continue
		}
		if key(p.PK) != key(n.PK) {
			return false
		}
		for _, f := range n.FKs {
			if pf := p.fk(f.Cols); pf != nil && (fkString(pf) != fkString(f) || pf.Defer != f.Defer) {
				return false
			}
		}
		for _, x := range n.Idxs {
			if px := p.idx(x.Cols); px != nil && px.Unique != x.Unique {
				return false
			}
		}
		for _, c := range n.Cols {
			pc := p.col(c.Name)
			if pc != nil {
				if pc.Autoinc != c.Autoinc || pc.Collate != c.Collate {
					return false
				}
				continue
			}
			if !addable(n, c) {
				return false
			}
		}
	}
	return true
}

// addable reports whether a column can be added to a table that has rows.
func addable(n *mTable, c *mCol) bool {
	if c.NotNull && c.Default == "" {
		return false
	}
	if c.Default == "" {
		return true
	}
	if !reLiteral.MatchString(c.Default) || strings.HasPrefix(strings.ToUpper(c.Default), "CURRENT") {
		return false
	}
	for _, u := range n.Uniques {
		if contains(u, c.Name) {
			return false
		}
	}
	for _, x := range n.Idxs {
		if x.Unique && contains(x.Cols, c.Name) {
			return false
		}
	}
	for _, f := range n.FKs {
		if contains(f.Cols, c.Name) {
			return false
		}
	}
	return true
}

// evolve returns the next version and a description of the changes.
func (g *sgen) evolve(prev *mSchema) (*mSchema, []string) {
	for try := 0; ; try++ {
		next := prev.clone()
		var did []string
		for n := 1 + g.r.Intn(4); n > 0; n-- {
			if d := g.mutate(next); d != "" {
				did = append(did, d)
			}
		}
		if len(did) > 0 && compatible(prev, next) {
			return next, did
		}
		if try > 200 {
			return prev.clone(), nil
		}
	}
}

// cells gives every cell of the database a unique value.
type cells struct{ n int }

func (c *cells) next() int { c.n++; return 1000 + c.n }

func fillRows(db *sql.DB, t *mTable, n int, c *cells) {
	for i := 0; i < n; i++ {
		var names, vals []string
		for _, col := range t.Cols {
			names = append(names, sq3(col.Name))
			vals = append(vals, strconv.Itoa(c.next()))
		}
		_, err := db.Exec("INSERT INTO " + sq3(t.Name) + " (" + strings.Join(names, ", ") + ") VALUES (" + strings.Join(vals, ", ") + ")")
		must(err)
	}
}

// rowsOf returns the rows of a table restricted to some columns, as sorted
// strings in which numbers and their text form are equal.
func rowsOf(db querier, table string, cols []string) []string {
	var q []string
	for _, c := range cols {
		q = append(q, "quote("+sq3(c)+")")
	}
	if len(q) == 0 {
		q = []string{"1"}
	}
	var out []string
	for _, row := range queryAll(db, "SELECT "+strings.Join(q, ", ")+" FROM "+sq3(table)) {
		var parts []string
		for i, v := range row {
			s := asStr(v)
			if len(s) >= 2 && s[0] == '\'' {
				s = s[1 : len(s)-1]
			}
			s = strings.TrimSuffix(s, ".0")
			if i < len(cols) {
				s = cols[i] + "=" + s
			}
			parts = append(parts, s)
		}
		out = append(out, strings.Join(parts, ","))
	}
	sort.Strings(out)
	return out
}

func openSQLite(t *T, dsn string) *sql.DB {
	db, err := sql.Open("sqlite3", dsn)
	must(err)
	t.Cleanup(func() { db.Close() })
	return db
}

// listSQL returns the migration files below dir.
func listSQL(dir string) []string {
	entries, err := os.ReadDir(dir)
	must(err)
	var out []string
	for _, e := range entries {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return out
}

type genSim struct {
	t       *T
	db      *sql.DB
	dbPath  string
	dir     string
	version int
	cells   cells
	fkOn    bool
	history string // the name of the history table
}

func newGenSim(t *T, fkOn bool) *genSim {
	g := &genSim{t: t, fkOn: fkOn, dir: t.Dir(), history: "sqddl_history"}
	if t.Rng.Intn(3) == 0 {
		g.history = []string{"schema_log", "migration log", "History"}[t.Rng.Intn(3)]
	}
	g.dbPath = filepath.Join(g.dir, "app.sqlite3")
	fk := "0"
	if fkOn {
		fk = "1"
	}
	g.db = openSQLite(t, "file:"+g.dbPath+"?_foreign_keys="+fk)
	return g
}

// sourceFor writes the declared schema and returns the name of the
// destination passed to generate.
func (g *genSim) sourceFor(s *mSchema, how string) string {
	g.version++
	name := filepath.Join(g.dir, fmt.Sprintf("tables%d.go", g.version))
	if how == "dbdest" || how == "jsondest" {
		path := filepath.Join(g.dir, fmt.Sprintf("dest%d.sqlite3", g.version))
		db := openSQLite(g.t, "file:"+path)
		for _, t := range s.Tables {
			for _, q := range t.sqliteCreate() {
				_, err := db.Exec(q)
				must(err)
			}
		}
		if g.version%2 == 0 {
			// The destination has migrated before.
			_, err := db.Exec(`CREATE TABLE "` + g.history + `" (filename TEXT PRIMARY KEY NOT NULL, checksum TEXT)`)
			must(err)
			g.t.Count("destination_histories", 1)
		}
		if how == "jsondest" {
			out := filepath.Join(g.dir, fmt.Sprintf("dump%d", g.version))
			cmd := &ddl.DumpCmd{DB: db, Dialect: "sqlite", OutputDir: out, SchemaOnly: true, HistoryTable: g.history, Stderr: &bytes.Buffer{}}
			must(os.MkdirAll(out, 0o755))
			if err := cmd.Run(); err != nil {
				g.t.Failf("dump-error", "dumping the schema failed: %v", err)
			}
			return out
		}
		return path
	}
	src := s.goSource(g.t.Rng, "sqlite")
	g.t.Note("version %d:\n%s", g.version, src)
	must(os.WriteFile(name, []byte(src), 0o644))
	return name
}

// generate runs generate and returns the migration files it wrote.
func (g *genSim) generate(how, dest string, drop bool) (files []string, dir string, err error) {
	dir = filepath.Join(g.dir, fmt.Sprintf("migrations%d_%s", g.version, how))
	for i := 2; exists(dir); i++ {
		dir = filepath.Join(g.dir, fmt.Sprintf("migrations%d_%s_%d", g.version, how, i))
	}
	must(os.MkdirAll(dir, 0o755))
	var stderr, stdout bytes.Buffer
	switch how {
	case "api":
		src := &ddl.Catalog{}
		dbi := ddl.NewDatabaseIntrospector("sqlite", g.db)
		dbi.ObjectTypes = []string{"TABLES"}
		dbi.ExcludeTables = []string{g.history}
		if err := dbi.WriteCatalog(src); err != nil {
			return nil, dir, err
		}
		cmd := &ddl.GenerateCmd{SrcCatalog: src, DirFS: os.DirFS(filepath.Dir(dest)), Filenames: []string{filepath.Base(dest)}, OutputDir: dir,
			Stdout: &stdout, Stderr: &stderr, DropObjects: drop, Dialect: "sqlite", Prefix: fmt.Sprintf("%03d", g.version), HistoryTable: g.history}
		err = cmd.Run()
	case "jsonsrc":
		out := filepath.Join(g.dir, fmt.Sprintf("srcdump%d", g.version))
		for i := 2; exists(out); i++ {
			out = filepath.Join(g.dir, fmt.Sprintf("srcdump%d_%d", g.version, i))
		}
		must(os.MkdirAll(out, 0o755))
		cmd := &ddl.DumpCmd{DB: g.db, Dialect: "sqlite", OutputDir: out, SchemaOnly: true, HistoryTable: g.history, Stderr: &bytes.Buffer{}}
		if err := cmd.Run(); err != nil {
			return nil, dir, err
		}
		return g.generateCLI(filepath.Join(out, "schema.json"), dest, dir, drop)
	default:
		return g.generateCLI(g.dbPath, dest, dir, drop)
	}
	return listSQL(dir), dir, err
}

func exists(path string) bool {
	_, err := os.Stat(path)
	return err == nil
}

func (g *genSim) generateCLI(src, dest, dir string, drop bool) ([]string, string, error) {
	args := []string{"-src", src, "-dest", dest, "-output-dir", dir, "-prefix", fmt.Sprintf("%03d", g.version)}
	if drop {
		args = append(args, "-drop-objects")
	}
	if g.history != "sqddl_history" {
		args = append(args, "-history-table", g.history)
		g.t.Count("custom_histories", 1)
	}
	cmd, err := ddl.GenerateCommand(args...)
	if err != nil {
		return nil, dir, err
	}
	cmd.Stderr, cmd.Stdout = &bytes.Buffer{}, &bytes.Buffer{}
	err = cmd.Run()
	return listSQL(dir), dir, err
}

// historyRows returns the contents of the history table, nil if there is none.
func (g *genSim) historyRows() []string {
	if len(queryAll(g.db, "SELECT 1 FROM sqlite_schema WHERE name = '"+g.history+"'")) == 0 {
		return nil
	}
	return append(rowsOf(g.db, g.history, []string{"filename", "checksum", "started_at", "time_taken_ns", "success"}), "exists")
}

// automigrate applies a step with the automigrate command.
func (g *genSim) automigrate(step int, how, dest string, drop bool) bool {
	t := g.t
	run := func(dry bool) (string, error) {
		var stdout, stderr bytes.Buffer
		var cmd *ddl.AutomigrateCmd
		if how == "automigrate-cli" {
			fk := "0"
			if g.fkOn {
				fk = "1"
			}
			args := []string{"-db", "sqlite:" + g.dbPath + "?_foreign_keys=" + fk, "-dest", dest}
			if drop {
				args = append(args, "-drop-objects")
			}
			if dry {
				args = append(args, "-dry-run")
			}
			if g.history != "sqddl_history" {
				args = append(args, "-history-table", g.history)
			}
			var err error
			if cmd, err = ddl.AutomigrateCommand(args...); err != nil {
				return "", err
			}
		} else {
			cmd = &ddl.AutomigrateCmd{DB: g.db, Dialect: "sqlite", DirFS: os.DirFS(filepath.Dir(dest)), Filenames: []string{filepath.Base(dest)}, DropObjects: drop, DryRun: dry, HistoryTable: g.history}
		}
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		err := cmd.Run()
		return stdout.String(), err
	}
	hist := g.historyRows()
	before, err := os.ReadFile(g.dbPath)
	if err != nil && !os.IsNotExist(err) {
		must(err)
	}
	plan, err := run(true)
	if err != nil {
		t.Failf("automigrate-error", "step %d: automigrate -dry-run failed: %v", step, err)
		return false
	}
	t.Note("automigrate:\n%s", plan)
	after, err := os.ReadFile(g.dbPath)
	if err != nil && !os.IsNotExist(err) {
		must(err)
	}
	if !bytes.Equal(before, after) {
		t.Failf("dry-run-writes", "step %d: automigrate -dry-run changed the database file", step)
	}
	out, err := run(false)
	if err != nil {
		t.Failf("automigrate-error", "step %d: automigrate failed: %v", step, err)
		return false
	}
	if out != "" {
		t.Failf("automigrate-output", "step %d: automigrate printed %q", step, out)
	}
	t.Count("automigrate", 1)
	if plan == "" {
		t.Count("automigrate-noop", 1)
		now, _ := os.ReadFile(g.dbPath)
		if !bytes.Equal(before, now) {
			t.Failf("noop-writes", "step %d: automigrate planned nothing and changed the database file", step)
		}
	}
	if now := g.historyRows(); strings.Join(now, "\n") != strings.Join(hist, "\n") {
		t.Failf("history", "step %d: automigrate changed the history table from %q to %q", step, hist, now)
	}
	if again, err := run(true); err != nil || again != "" {
		t.Failf("converge", "step %d: automigrate still plans a migration after running: %v\n%s", step, err, again)
		return false
	}
	return true
}

// genHistory runs one history of versions.
func genHistory(t *T, fkOn bool, drop func(step int) bool, modes []string) {
	r := t.Rng
	g := newGenSim(t, fkOn)
	sg := newSgen(r)
	if fkOn && drop(0) {
		// See the known finding about copying tables while foreign keys are
		// enforced.
		sg.noFKs = true
	}
	versions := []*mSchema{{}}
	var steps [][]string
	if r.Intn(3) == 0 {
		// Start from a database created by hand.
		versions[0] = sg.schema()
		for _, tab := range versions[0].Tables {
			for _, q := range tab.sqliteCreate() {
				_, err := g.db.Exec(q)
				must(err)
			}
		}
		t.Note("initial database:\n%s", versions[0])
	}
	n := 2 + r.Intn(3)
	for i := 0; i < n; i++ {
		prev := versions[len(versions)-1]
		var next *mSchema
		var did []string
		if len(prev.Tables) == 0 {
			next = sg.schema()
			did = []string{"create"}
		} else {
			next, did = sg.evolve(prev)
		}
		versions = append(versions, next)
		steps = append(steps, did)
	}
	// With foreign keys enforced, tables involved in foreign keys stay empty.
	involved := map[string]bool{}
	if fkOn {
		for _, v := range versions {
			for _, tab := range v.Tables {
				for _, f := range tab.FKs {
					involved[tab.Name] = true
					involved[f.RefTable] = true
				}
			}
		}
	}
	fill := func(v *mSchema) {
		for _, tab := range v.Tables {
			if involved[tab.Name] || len(rowsOf(g.db, tab.Name, nil)) > 0 {
				continue
			}
			fillRows(g.db, tab, 1+r.Intn(3), &g.cells)
		}
	}
	fill(versions[0])
	addTriggers := func(v *mSchema) {
		for _, tab := range v.Tables {
			if r.Intn(3) > 0 {
				continue
			}
			name := "trg_" + strconv.Itoa(g.cells.next())
			body := []string{"SELECT 1;", "SELECT 'a;b'; SELECT \"x;y\".rowid FROM " + sq3(tab.Name) + " AS \"x;y\";", "-- it's ; a comment\n  SELECT max(rowid) FROM " + sq3(tab.Name) + ";"}[r.Intn(3)]
			when := []string{"AFTER INSERT", "BEFORE DELETE", "AFTER UPDATE"}[r.Intn(3)]
			_, err := g.db.Exec("CREATE TRIGGER " + name + " " + when + " ON " + sq3(tab.Name) + "\nBEGIN\n  " + body + "\nEND")
			must(err)
		}
	}
	addTriggers(versions[0])
	if r.Intn(2) == 0 {
		_, err := g.db.Exec("CREATE VIEW \"a view\" AS SELECT 1 AS one, 'x' AS two")
		must(err)
	}
	current := versions[0].expectSQLite()
	for i, did := range steps {
		next := versions[i+1]
		how := modes[r.Intn(len(modes))]
		d := drop(i)
		if (how == "dbdest" || how == "jsondest") && len(next.Tables) == 0 {
			how = "cli"
		}
		t.Note("step %d (%s, drop=%v): %s", i, how, d, strings.Join(did, "; "))
		dest := g.sourceFor(next, how)
		before := readSQLite(g.db, g.history)
		if !d {
			// What an earlier version dropped is still in the database; stop if
			// it comes back differently.
			for _, tab := range next.Tables {
				o := before.Tables[tab.Name]
				if o == nil {
					continue
				}
				if versions[i].table(tab.Name) == nil {
					return
				}
				for _, c := range tab.Cols {
					if _, ok := o.Cols[c.Name]; ok {
						continue
					}
					if !addable(tab, c) {
						return
					}
					for other := range o.Cols {
						if strings.EqualFold(other, c.Name) {
							return
						}
					}
				}
			}
		}
		type saved struct {
			cols []string
			rows []string
		}
		// Columns that survive: all of them without -drop-objects.
		snaps := map[string]saved{}
		for name, o := range before.Tables {
			nt := next.table(name)
			if d && nt == nil {
				continue
			}
			var cols []string
			for _, c := range o.Order {
				if d && nt.col(c) == nil {
					continue
				}
				cols = append(cols, c)
			}
			if len(cols) == 0 {
				continue
			}
			snaps[name] = saved{cols, rowsOf(g.db, name, cols)}
		}
		var nfiles int
		if strings.HasPrefix(how, "automigrate") {
			if !g.automigrate(i, how, dest, d) {
				return
			}
		} else {
			files, dir, err := g.generate(how, dest, d)
			if err != nil {
				t.Failf("generate-error", "step %d (%s): generate failed: %v", i, strings.Join(did, "; "), err)
				return
			}
			nfiles = len(files)
			t.Count("generate", 1)
			for _, f := range files {
				b, _ := os.ReadFile(filepath.Join(dir, f))
				t.Note("%s:\n%s", f, b)
			}
			if len(files) > 0 {
				mig := &ddl.MigrateCmd{DB: g.db, Dialect: "sqlite", DirFS: os.DirFS(dir), HistoryTable: g.history, Stderr: &bytes.Buffer{}}
				if err := mig.Run(); err != nil {
					t.Failf("apply-error", "step %d (%s): the generated migration does not apply: %v", i, strings.Join(did, "; "), err)
					return
				}
				t.Count("apply", 1)
			}
		}
		// Structure.
		got := readSQLite(g.db, g.history)
		var want *obsSchema
		if d {
			want = next.expectSQLite()
		} else {
			want = mergeNoDrop(current, next.expectSQLite())
		}
		// Triggers and views are not declared in structs: they stay.
		for name, w := range want.Tables {
			if b := before.Tables[name]; b != nil {
				w.Triggers = b.Triggers
				t.Count("triggers-kept", len(b.Triggers))
			}
		}
		want.Views = before.Views
		if df := diffSchema(want, got); len(df) > 0 {
			t.Failf("structure", "step %d (%s, drop=%v): after applying the migration: %s", i, strings.Join(did, "; "), d, strings.Join(df, "; "))
			return
		}
		t.Count("structures-compared", 1)
		current = want
		// Rows.
		for name, s := range snaps {
			after := rowsOf(g.db, name, s.cols)
			if strings.Join(after, "\n") != strings.Join(s.rows, "\n") {
				t.Failf("rows", "step %d (%s, drop=%v): rows of %q were %q and became %q", i, strings.Join(did, "; "), d, name, s.rows, after)
				return
			}
			t.Count("rows-compared", len(s.rows))
		}
		// New columns of old rows hold their default.
		for name := range snaps {
			nt := next.table(name)
			if nt == nil || before.Tables[name] == nil {
				continue
			}
			for _, c := range nt.Cols {
				if _, ok := before.Tables[name].Cols[c.Name]; ok {
					continue
				}
				want := "NULL"
				if c.Default != "" {
					want = asStr(queryAll(g.db, "SELECT quote("+c.Default+")")[0][0])
				}
				for _, row := range queryAll(g.db, "SELECT quote("+sq3(c.Name)+") FROM "+sq3(name)) {
					if loose(asStr(row[0])) != loose(want) {
						t.Failf("new-column-value", "step %d: new column %q.%q of an existing row is %s, want %s", i, name, c.Name, row[0], want)
					}
				}
				for _, row := range queryAll(g.db, "SELECT rowid FROM "+sq3(name)) {
					_, err := g.db.Exec("UPDATE "+sq3(name)+" SET "+sq3(c.Name)+" = ? WHERE rowid = ?", g.cells.next(), row[0])
					must(err)
				}
			}
		}
		// A second generate finds nothing to do.
		if strings.HasPrefix(how, "automigrate") {
			how = "cli"
		}
		again, dir2, err := g.generate(how, dest, d)
		if err != nil {
			t.Failf("generate-error", "step %d: second generate failed: %v", i, err)
			return
		}
		if len(again) > 0 {
			b, _ := os.ReadFile(filepath.Join(dir2, again[0]))
			t.Failf("converge", "step %d (%s, drop=%v): generate still produces a migration after its own output was applied:\n%s", i, strings.Join(did, "; "), d, b)
			return
		}
		t.Count("second-generate-empty", 1)
		if d {
			fill(next)
		} else {
			for _, tab := range next.Tables {
				if before.Tables[tab.Name] == nil && !involved[tab.Name] {
					fillRows(g.db, tab, 1+r.Intn(3), &g.cells)
				}
			}
		}
		for _, x := range did {
			t.Sig(strings.SplitN(x, " ", 3)[0], strings.SplitN(x+"  ", " ", 3)[1], how, d)
		}
		if r.Intn(2) == 0 {
			addTriggers(next)
		}
		t.Sig(how, d, did)
		t.Sample("%s drop=%v %s -> %d files", how, d, strings.Join(did, "; "), nfiles)
	}
}

// loose makes the text and number forms of a value equal.
func loose(s string) string {
	if len(s) >= 2 && s[0] == '\'' {
		s = s[1 : len(s)-1]
	}
	return strings.TrimSuffix(s, ".0")
}

// mergeNoDrop is what generate promises without -drop-objects: everything that
// existed stays as it was, and new tables, columns and indexes are added.
func mergeNoDrop(cur, dest *obsSchema) *obsSchema {
	out := &obsSchema{Tables: map[string]*obsTable{}, Views: cur.Views}
	for name, c := range cur.Tables {
		n := &obsTable{Name: name, Cols: map[string]obsCol{}, Uniques: c.Uniques, FKs: map[string]bool{}, Idxs: map[string]string{}, Triggers: c.Triggers, PK: c.PK, Autoinc: c.Autoinc}
		for k, v := range c.Cols {
			n.Cols[k] = v
		}
		for k, v := range c.Idxs {
			n.Idxs[k] = v
		}
		for k := range c.FKs {
			n.FKs[k] = true
		}
		if d := dest.Tables[name]; d != nil {
			for k, v := range d.Cols {
				if _, ok := n.Cols[k]; !ok {
					n.Cols[k] = v
				}
			}
			for k, v := range d.Idxs {
				if _, ok := n.Idxs[k]; !ok {
					n.Idxs[k] = v
				}
			}
			for k := range d.FKs {
				// A single column foreign key of a new column is added with it.
				cols := strings.Split(strings.TrimPrefix(strings.SplitN(k, ")", 2)[0], "("), "|")
				if len(cols) == 1 {
					if _, ok := c.Cols[cols[0]]; !ok {
						n.FKs[k] = true
					}
				}
			}
		}
		out.Tables[name] = n
	}
	for name, d := range dest.Tables {
		if cur.Tables[name] == nil {
			out.Tables[name] = d
		}
	}
	return out
}

func alwaysDrop(int) bool { return true }

func init() {
	register(&Prop{ID: "G01", Level: "exploration",
		Rule:        "a distinct (changes, source kind) step whose migration was generated, applied to a real database and compared",
		Assumptions: []string{"SQLite is the only database that can run here", "constraints and indexes are identified by their kind and columns, as generate does; changes generate does not track (foreign key rules, index uniqueness, autoincrement, collation, primary key columns) are not part of a step"},
		MinCounts:   map[string]int64{"apply": 50, "structures-compared": 50, "second-generate-empty": 50},
		Cases: func(tier string, seed int64) []Case {
			var cs []Case
			for i, n := 0, tierN(tier, 5000, 30000); i < n; i++ {
				cs = append(cs, Case{ID: fmt.Sprintf("hist/%d", i), Run: func(t *T) {
					genHistory(t, false, alwaysDrop, []string{"cli", "api", "jsonsrc", "dbdest", "jsondest", "cli", "api"})
				}})
			}
			return cs
		}})
	register(&Prop{ID: "G05", Level: "exploration",
		Rule:      "a distinct (changes, entry point) step carried out by automigrate",
		MinCounts: map[string]int64{"automigrate": 50, "structures-compared": 50, "rows-compared": 50},
		Cases: func(tier string, seed int64) []Case {
			var cs []Case
			for i, n := 0, tierN(tier, 4000, 30000); i < n; i++ {
				cs = append(cs, Case{ID: fmt.Sprintf("auto/%d", i), Run: func(t *T) {
					last := t.Rng.Intn(8)
					// Some steps are ordinary migrations, so that the history
					// table exists and has rows.
					genHistory(t, t.Rng.Intn(2) == 0, func(i int) bool { return i < last }, []string{"automigrate-cli", "automigrate", "automigrate-cli", "automigrate", "cli"})
				}})
			}
			return cs
		}})
	register(&Prop{ID: "G02", Level: "exploration",
		Rule:      "a distinct step without -drop-objects, or one that preserves rows of a copied table",
		MinCounts: map[string]int64{"rows-compared": 50},
		Cases: func(tier string, seed int64) []Case {
			var cs []Case
			for _, action := range []string{"CASCADE", "SET NULL", "NO ACTION", "RESTRICT"} {
				action := action
				cs = append(cs, Case{ID: "fk-copy/" + strings.ReplaceAll(strings.ToLower(action), " ", "-"), Run: func(t *T) { fkCopy(t, action) }})
			}
			for i, n := 0, tierN(tier, 5000, 30000); i < n; i++ {
				cs = append(cs, Case{ID: fmt.Sprintf("nodrop/%d", i), Run: func(t *T) {
					last := t.Rng.Intn(4)
					genHistory(t, t.Rng.Intn(2) == 0, func(i int) bool { return i < last }, []string{"cli", "api", "jsonsrc", "dbdest", "cli"})
				}})
			}
			return cs
		}})
}

// fkCopy changes a column of a table that another table references, with
// foreign keys enforced: the table is copied, and dropping the original runs
// the referential action.
func fkCopy(t *T, action string) {
	g := newGenSim(t, true)
	s := &mSchema{Tables: []*mTable{
		{Name: "parent", Cols: []*mCol{{Name: "id", Field: "NumberField", Type: "INTEGER"}, {Name: "name", Field: "StringField", Type: "TEXT"}}, PK: []string{"id"}},
		{Name: "child", Cols: []*mCol{{Name: "id", Field: "NumberField", Type: "INTEGER"}, {Name: "pid", Field: "NumberField", Type: "INTEGER"}}, PK: []string{"id"},
			FKs: []*mFK{{Cols: []string{"pid"}, RefTable: "parent", RefCols: []string{"id"}, OnUpdate: "NO ACTION", OnDelete: action}}},
	}}
	for _, tab := range s.Tables {
		for _, q := range tab.sqliteCreate() {
			_, err := g.db.Exec(q)
			must(err)
		}
	}
	for _, q := range []string{"INSERT INTO parent VALUES (1, 'a'), (2, 'b')", "INSERT INTO child VALUES (10, 1), (20, 2)"} {
		_, err := g.db.Exec(q)
		must(err)
	}
	next := s.clone()
	next.Tables[0].Cols[1].Type = "VARCHAR(30)"
	dest := g.sourceFor(next, "cli")
	files, dir, err := g.generate("cli", dest, true)
	if err != nil || len(files) == 0 {
		t.Failf("generate-error", "generate: %v, %d files", err, len(files))
		return
	}
	before := append(rowsOf(g.db, "parent", []string{"id", "name"}), rowsOf(g.db, "child", []string{"id", "pid"})...)
	mig := &ddl.MigrateCmd{DB: g.db, Dialect: "sqlite", DirFS: os.DirFS(dir), HistoryTable: g.history, Stderr: &bytes.Buffer{}}
	if err := mig.Run(); err != nil {
		t.Failf("fk-copy-rejected", "changing the type of a column of a referenced table (ON DELETE %s) fails when foreign keys are enforced: %v", action, err)
		return
	}
	after := append(rowsOf(g.db, "parent", []string{"id", "name"}), rowsOf(g.db, "child", []string{"id", "pid"})...)
	if strings.Join(before, ";") != strings.Join(after, ";") {
		t.Failf("fk-copy-rows", "changing the type of a column of a referenced table (ON DELETE %s) changed rows from %q to %q", action, before, after)
	}
	t.Count("fk-copy", 1)
	t.Sig("fk-copy", action)
}
