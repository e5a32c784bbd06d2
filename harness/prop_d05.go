package main

// D05: wipe removes everything a user created, or nothing.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"database/sql"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

// leftovers lists the user objects of a model database.
func leftovers(dialect string, cat *ddl.Catalog) (out []string) {
	for _, sc := range cat.Schemas {
		if isSystem(dialect, sc.SchemaName) {
			continue
		}
		for _, x := range sc.Views {
			if !isSystemName(dialect, "view", x.ViewName) {
				out = append(out, "view "+sc.SchemaName+"."+x.ViewName)
			}
		}
		for _, x := range sc.Tables {
			if !isSystemName(dialect, "table", x.TableName) {
				out = append(out, "table "+sc.SchemaName+"."+x.TableName)
			}
		}
		for _, x := range sc.Routines {
			if !isSystemName(dialect, "routine", x.RoutineName) {
				out = append(out, "routine "+sc.SchemaName+"."+x.RoutineName+"("+x.IdentityArguments+")")
			}
		}
		for _, x := range sc.Enums {
			out = append(out, "enum "+sc.SchemaName+"."+x.EnumName)
		}
		for _, x := range sc.Domains {
			out = append(out, "domain "+sc.SchemaName+"."+x.DomainName)
		}
	}
	for _, e := range cat.Extensions {
		if e != "plpgsql" {
			out = append(out, "extension "+e)
		}
	}
	return out
}

// systemPart is what a wipe has to leave alone.
func systemPart(dialect string, cat *ddl.Catalog) string {
	var out []any
	for _, sc := range cat.Schemas {
		sys := isSystem(dialect, sc.SchemaName)
		out = append(out, sc.SchemaName)
		for _, x := range sc.Views {
			if sys || isSystemName(dialect, "view", x.ViewName) {
				out = append(out, x)
			}
		}
		for _, x := range sc.Tables {
			if sys || isSystemName(dialect, "table", x.TableName) {
				out = append(out, x)
			}
		}
		for _, x := range sc.Routines {
			if sys || isSystemName(dialect, "routine", x.RoutineName) {
				out = append(out, x)
			}
		}
		if sys {
			out = append(out, sc.Enums, sc.Domains)
		}
	}
	out = append(out, contains(cat.Extensions, "plpgsql"))
	b, err := json.Marshal(out)
	must(err)
	return string(b)
}

func catalogText(cat *ddl.Catalog) string {
	b, err := json.Marshal(cat)
	must(err)
	return string(b)
}

// wiped is one database under test.
type wiped struct {
	dialect string
	db      *sql.DB
	m       *Monitor
	state   func() string   // everything in the database
	left    func() []string // user objects
	system  func() string
	ddls    func() []string // statements executed since the last call

	sessionHit bool // a failure hit the statements around the transaction
}

func checkWipe(t *T, w *wiped) {
	r := t.Rng
	before, system := w.state(), w.system()
	objects := len(w.left())
	run := func(ctx context.Context, dry bool) (string, error, bool) {
		var out bytes.Buffer
		var err error
		cmd := &ddl.WipeCmd{DB: w.db, Dialect: w.dialect, DryRun: dry, Stdout: &out, Ctx: ctx}
		if p := recovered(func() { err = cmd.Run() }); p != nil {
			t.Failf("panic", "wipe panicked: %v", p)
			return "", nil, false
		}
		if notEmulated(err) {
			t.Count("not_emulated", 1)
			t.Note("not emulated: %v", err)
			return "", nil, false
		}
		if _, txs, stmts, rows := w.m.Live(); txs+stmts+rows > 0 {
			t.Failf("leak", "wipe left %d transactions, %d statements and %d result sets open", txs, stmts, rows)
		}
		return out.String(), err, true
	}

	// A dry run prints.
	w.m.Keep = true
	w.m.Take()
	printed, err, ok := run(nil, true)
	if !ok {
		return
	}
	if err != nil {
		t.Failf("dry-run", "dry run: %v", err)
		return
	}
	events := len(w.m.Take())
	if w.state() != before {
		t.Failf("dry-run-changed", "dry run changed the database; it printed\n%s", printed)
		return
	}
	t.Count("dry_runs", 1)
	w.ddls()

	// Failures.
	for k := 0; k < 2; k++ {
		w.m.Reset()
		w.m.Keep = true
		at := 1 + r.Intn(events+4)
		after := r.Intn(4) == 0
		n, hit, commit := 0, "", false
		ctx, cancel := context.WithCancel(context.Background())
		cancelling := r.Intn(4) == 0
		fail := func(ev *Event) error {
			if ev.Kind == "rollback" || ev.Kind == "close" || ev.Kind == "rowsclose" {
				return nil
			}
			if n++; n == at {
				hit, commit = ev.String(), ev.Kind == "commit"
				if strings.Contains(hit, "PRAGMA foreign_keys") {
					w.sessionHit = true
				}
				if cancelling {
					cancel()
					return ctx.Err()
				}
				return errInjected
			}
			return nil
		}
		if after {
			w.m.AfterOp = fail
		} else {
			w.m.Before = fail
		}
		out, err, ok := run(ctx, false)
		cancel()
		w.m.Reset()
		if !ok {
			return
		}
		w.ddls()
		if hit == "" {
			if err != nil {
				t.Failf("error", "wipe failed: %v\nit would run\n%s", err, printed)
			}
			break
		}
		t.Count("failures_injected", 1)
		if err == nil {
			t.Failf("error-lost", "%s failed, wipe reported success", hit)
			return
		}
		if out != "" {
			t.Failf("output", "wipe printed %q", out)
		}
		if now := w.state(); now != before {
			// Only a failure that comes after the effect excuses it.
			if (after && (commit || w.dialect == "mysql") || w.sessionHit) && len(w.left()) == 0 {
				break
			}
			t.Failf("partial", "%s failed and the database is changed: %v is left of %d objects", hit, w.left(), objects)
			return
		}
		t.Count("failures_without_a_trace", 1)
	}

	// The real thing.
	done := len(w.left()) == 0 && objects > 0
	w.ddls()
	out, err, ok := run(nil, false)
	if !ok {
		return
	}
	if err != nil {
		t.Failf("error", "wipe failed: %v\nit would run\n%s", err, printed)
		if w.state() != before && w.dialect != "mysql" {
			t.Failf("partial", "wipe failed and left %v of %d objects", w.left(), objects)
		}
		return
	}
	if out != "" {
		t.Failf("output", "wipe printed %q", out)
	}
	if left := w.left(); len(left) > 0 {
		t.Failf("left "+strings.Fields(left[0])[0], "wipe left %v", left)
	}
	if got := w.system(); got != system {
		t.Failf("system", "wipe changed system objects: %s instead of %s", got, system)
	}
	if ran := strings.Join(w.ddls(), ";\n"); !done && ran != strings.Join(splitSQL(printed), ";\n") {
		t.Failf("dry-run-differs", "dry run printed\n%s\nand wipe ran\n%s", printed, ran)
	}
	t.Count("wipes", 1)
	t.Count("objects_wiped", objects)
	// Again, with nothing to do.
	empty := w.state()
	if _, err, ok := run(nil, false); ok && (err != nil || w.state() != empty) {
		t.Failf("again", "wiping an empty database: %v", err)
	}
}

func d05Server(dialect string) func(t *T) {
	return func(t *T) {
		cat, version := genCatalog(t.Rng, dialect)
		db, s, m := newServerDB(t, dialect, version, cat)
		for _, sc := range cat.Schemas {
			if isSystem(dialect, sc.SchemaName) {
				continue
			}
			if len(sc.Views) > 0 {
				t.Sig(dialect + " views")
			}
			for _, x := range sc.Views {
				if x.IsMaterialized {
					t.Sig(dialect + " materialized view")
				}
			}
			for _, x := range sc.Tables {
				for _, c := range x.Constraints {
					t.Sig(fmt.Sprintf("%s %s cross-schema=%v self=%v", dialect, c.ConstraintType, c.ReferencesSchema != "" && c.ReferencesSchema != x.TableSchema, c.ReferencesTable == x.TableName))
				}
			}
			for _, x := range sc.Routines {
				t.Sig(dialect + " " + x.RoutineType)
			}
			if len(sc.Enums) > 0 {
				t.Sig("enums")
			}
			if len(sc.Domains) > 0 {
				t.Sig("domains")
			}
		}
		if len(cat.Extensions) > 0 {
			t.Sig("extensions")
		}
		lock := func(f func()) {
			s.mu.Lock()
			defer s.mu.Unlock()
			f()
		}
		seen := 0
		checkWipe(t, &wiped{
			dialect: dialect, db: db, m: m,
			state:  func() (out string) { lock(func() { out = catalogText(s.cat) }); return },
			left:   func() (out []string) { lock(func() { out = leftovers(dialect, s.cat) }); return },
			system: func() (out string) { lock(func() { out = systemPart(dialect, s.cat) }); return },
			ddls: func() (out []string) {
				lock(func() { out = append(out, s.ddls[seen:]...); seen = len(s.ddls) })
				return
			},
		})
	}
}

// sqliteState is the whole contents of a database.
func sqliteState(db querier) string {
	var out []string
	for _, row := range queryAll(db, `SELECT type, name, tbl_name, coalesce(sql, '') FROM sqlite_schema ORDER BY 1, 2`) {
		out = append(out, fmt.Sprint(row))
	}
	for _, row := range queryAll(db, `SELECT name FROM sqlite_schema WHERE type = 'table' ORDER BY 1`) {
		out = append(out, asStr(row[0]))
		var rows []string
		for _, x := range queryAll(db, `SELECT * FROM `+sq3(asStr(row[0]))) {
			rows = append(rows, fmt.Sprint(x))
		}
		sort.Strings(rows)
		out = append(out, rows...)
	}
	return fmt.Sprintf("%x %d", sha256.Sum256([]byte(strings.Join(out, "\x00"))), len(out))
}

func d05SQLite(t *T) {
	r := t.Rng
	path := filepath.Join(t.Dir(), "w.db")
	fk := r.Intn(2) == 0
	dsn := "file:" + path
	if fk {
		dsn += "?_foreign_keys=on"
	}
	plain := openSQLite(t, "file:"+path)
	plain.SetMaxOpenConns(1)
	exec := func(q string, args ...any) {
		if _, err := plain.Exec(q, args...); err != nil {
			panic(harnessError(q + ": " + err.Error()))
		}
	}
	var created []string
	var tables []string
	if r.Intn(10) > 0 {
		s := newSgen(r).schema()
		var c cells
		for _, tab := range s.Tables {
			for _, q := range tab.sqliteCreate() {
				exec(q)
			}
		}
		for _, tab := range s.Tables {
			fillRows(plain, tab, r.Intn(3), &c)
		}
		tables = sqliteExtras(r, plain, s)
	}
	// References among all the tables, in circles, with rows that use them.
	if r.Intn(2) == 0 {
		action := pickStr(r, "NO ACTION", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT")
		deferred := pickStr(r, "", " DEFERRABLE INITIALLY DEFERRED")
		names := []string{"ring 0", "Ring'1", `ring"2`}
		for i, n := range names {
			exec(fmt.Sprintf(`CREATE TABLE %s (id INTEGER PRIMARY KEY%s, next INT REFERENCES %s ON DELETE %s%s, self INT REFERENCES %s ON DELETE %s%s)`, sq3(n), pickStr(r, "", " AUTOINCREMENT"), sq3(names[(i+1)%3]), action, deferred, sq3(n), action, deferred))
		}
		for i := 1; i < 3; i++ {
			for _, n := range names {
				// Some of the references dangle.
				exec(fmt.Sprintf(`INSERT INTO %s VALUES (?, ?, ?)`, sq3(n)), i, 1+r.Intn(2), pickStr(r, "1", "2", "2", "77"))
			}
		}
		tables = append(tables, names...)
		t.Sig("ring " + action + deferred)
	}
	for _, row := range queryAll(plain, `SELECT sql FROM sqlite_schema WHERE sql IS NOT NULL AND name NOT LIKE 'sqlite\_%' ESCAPE '\' AND name NOT LIKE 'fts\_x\__%' ESCAPE '\' ORDER BY rowid`) {
		created = append(created, asStr(row[0]))
	}
	t.Sig(fmt.Sprintf("sqlite fk=%v tables=%v", fk, len(tables) > 0))
	m := &Monitor{}
	db := openMonitored(dsn, m)
	t.Cleanup(func() { db.Close() })
	pool := r.Intn(2)
	db.SetMaxOpenConns(pool)
	w := &wiped{
		dialect: "sqlite", db: db, m: m,
		state: func() string { return sqliteState(plain) },
		left: func() (out []string) {
			for _, row := range queryAll(plain, `SELECT type, name FROM sqlite_schema WHERE name NOT LIKE 'sqlite\_%' ESCAPE '\' ORDER BY 1, 2`) {
				out = append(out, asStr(row[0])+" "+asStr(row[1]))
			}
			return
		},
		system: func() string { return "" },
		ddls: func() (out []string) {
			for _, ev := range m.Take() {
				// Session settings around the transaction are not part of it.
				if ev.Kind == "exec" && ev.Err == "" && ev.Tx > 0 {
					out = append(out, splitSQL(ev.SQL)...)
				}
			}
			return
		},
	}
	checkWipe(t, w)
	if t.Failed() {
		return
	}
	on := asInt(queryAll(db, `PRAGMA foreign_keys`)[0][0]) == 1
	deferring := asInt(queryAll(db, `PRAGMA defer_foreign_keys`)[0][0]) == 1
	if (on != fk || deferring) && !w.sessionHit {
		t.Failf("session", "after wipe, foreign_keys is %v instead of %v and defer_foreign_keys is %v", on, fk, deferring)
	}
	// Everything can be created again.
	for _, q := range created {
		if _, err := plain.Exec(q); err != nil {
			t.Failf("rebuild", "after wipe, %s: %v", q, err)
			return
		}
	}
	// The command does the same from its flags.
	args := []string{"-db", pickStr(r, "sqlite:"+path, "sqlite:"+path+strings.TrimPrefix(dsn, "file:"+path))}
	dry := r.Intn(2) == 0
	if dry {
		args = append(args, "-dry-run")
	}
	was := sqliteState(plain)
	cmd, err := ddl.WipeCommand(args...)
	if err != nil {
		t.Failf("command", "%v: %v", args, err)
		return
	}
	var out bytes.Buffer
	cmd.Stdout = &out
	if err := cmd.Run(); err != nil {
		t.Failf("command", "%v: %v", args, err)
		return
	}
	n := asInt(queryAll(plain, `SELECT count(*) FROM sqlite_schema WHERE name NOT LIKE 'sqlite\_%' ESCAPE '\'`)[0][0])
	if dry && (sqliteState(plain) != was || (out.Len() > 0) != (n > 0)) {
		t.Failf("command", "%v changed the database or printed %q", args, out.String())
	}
	if !dry && (n > 0 || out.Len() > 0) {
		t.Failf("command", "%v left %d objects and printed %q", args, n, out.String())
	}
	if err := cmd.DB.Ping(); err == nil {
		t.Failf("command", "%v left its database handle open", args)
	}
	t.Count("commands", 1)
}

// d05Dangling wipes a database with a view of a table that is gone.
func d05Dangling(t *T) {
	path := filepath.Join(t.Dir(), "w.db")
	db := openSQLite(t, "file:"+path)
	for _, q := range []string{`CREATE TABLE t (a)`, `CREATE VIEW v AS SELECT * FROM t`, `DROP TABLE t`, `CREATE TABLE u (a)`} {
		_, err := db.Exec(q)
		must(err)
	}
	cmd := &ddl.WipeCmd{DB: db, Dialect: "sqlite", Stdout: os.Stderr}
	err := cmd.Run()
	if n := asInt(queryAll(db, `SELECT count(*) FROM sqlite_schema`)[0][0]); err != nil || n > 0 {
		t.Failf("dangling-view", "wipe left %d objects: %v", n, err)
	}
	t.Count("wipes", 1)
}

func init() {
	register(&Prop{
		ID:    "D05",
		Level: "exploration",
		Rule:  "case list fixed by seed: random databases per dialect, each wiped by a dry run, with injected failures, and for real",
		Assumptions: []string{
			"Postgres, MySQL and SQL Server are emulated: their rules for DROP (references, CASCADE, ambiguous routines, kinds of objects, transactions) are a model",
			"schema-bound views and functions of SQL Server, sequences, composite types and partitions are not modelled",
		},
		MinCounts: map[string]int64{"wipes": 500, "dry_runs": 500, "failures_injected": 300, "failures_without_a_trace": 200, "objects_wiped": 2000, "commands": 100},
		Cases: func(tier string, seed int64) (cases []Case) {
			n := tierN(tier, 200, 4000)
			for i := 0; i < n; i++ {
				cases = append(cases, Case{ID: fmt.Sprintf("sqlite/%d", i), Run: d05SQLite})
			}
			cases = append(cases, Case{ID: "sqlite/dangling-view", Run: d05Dangling})
			for _, d := range []string{"postgres", "mysql", "sqlserver"} {
				d := d
				for i := 0; i < n; i++ {
					cases = append(cases, Case{ID: fmt.Sprintf("%s/%d", d, i), Run: d05Server(d)})
				}
			}
			return cases
		},
	})
}
