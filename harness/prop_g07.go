package main

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/bokwoon95/sqddl/ddl"
)

// G07: automigrate on Postgres, MySQL and SQL Server. The catalogs it reads
// and the statements it runs belong to the same model server.

func init() {
	register(&Prop{
		ID:    "G07",
		Level: "exploration",
		Rule:  "Fails when automigrate does not bring a Postgres, MySQL or SQL Server database to the declared schema, runs anything that generate would not write, runs despite warnings or in a dry run, touches the history table, leaves a session setting, transaction or connection behind, hides a failure, or loses something when it fails.",
		Assumptions: []string{
			"The servers are represented by the model servers of G03, their system catalogs by those of S03.",
		},
		MinCounts: map[string]int64{"steps": 300, "executed_files": 500, "refused": 20, "faults": 50, "stopped": 50, "timeouts": 20, "half_built_indexes": 5, "dry_runs": 300, "noop": 100},
		Cases: func(tier string, seed int64) (cases []Case) {
			n := tierN(tier, 1000, 20000)
			for i := 0; i < n; i++ {
				d := []string{"postgres", "mysql", "sqlserver"}[i%3]
				cases = append(cases, Case{ID: fmt.Sprintf("%s/%d", d, i/3), Run: func(t *T) {
					vHistory(t, d, vNewDB(d, t.Rng), g07Step)
				}})
			}
			cases = append(cases, Case{ID: "mysql-empty-schema", Run: func(t *T) {
				live := vNewDB("mysql", t.Rng)
				live.Schemas["archive"] = true
				decl := live.clone()
				decl.Tables = append(decl.Tables, &vTable{Schema: "archive", Name: "t", Cols: []*vCol{{Name: "a", Type: "int", id: 1}}, nextID: 1})
				text, err := json.Marshal(decl.catalog())
				must(err)
				file := filepath.Join(t.Dir(), "dest.json")
				must(os.WriteFile(file, text, 0o644))
				if _, ok := g07Run(t, live, decl, file, string(text), "probe", "probe", false, 0); ok {
					t.Sig("probe")
				}
			}})
			return cases
		},
	})
}

// amServer is a server whose catalogs show a model server, which runs what it
// is given.
type amServer struct {
	*dbServer
	live     *vDB
	before   map[*mconn]*vDB // by connections in a transaction
	count    map[*mconn]int  // scripts executed before
	session  map[*mconn]string
	executed []string // scripts that went through
	inTx     []bool   // whether each of them was in a transaction
	failAt   int
	failWith error
	times    int // how often that script fails
	failed   []string
	broken   string
}

var reSession = regexp.MustCompile(`(?is)^\s*SET\s+lock_(?:wait_)?timeout\s*(?:=|\s)\s*'?([\w.-]+)'?\s*;?\s*$`)

func (s *amServer) show() {
	cat := s.live.catalog()
	for i := range cat.Schemas {
		for j := range cat.Schemas[i].Tables {
			tb := &cat.Schemas[i].Tables[j]
			for k := range tb.Constraints {
				// The emulated catalogs take the usual rule as an empty one.
				c := &tb.Constraints[k]
				c.UpdateRule, c.DeleteRule = strings.TrimPrefix(c.UpdateRule, "NO ACTION"), strings.TrimPrefix(c.DeleteRule, "NO ACTION")
			}
		}
	}
	if s.dialect == "postgres" {
		for i := range cat.Schemas {
			if sc := &cat.Schemas[i]; sc.SchemaName == cat.CurrentSchema {
				sc.Enums = append(sc.Enums, ddl.Enum{EnumSchema: sc.SchemaName, EnumName: "Mood", EnumLabels: []string{"a", "B"}})
			}
		}
	}
	s.cat = cat
	s.gen++
}

func (s *amServer) Query(c *mconn, ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, bool, error) {
	switch strings.ToUpper(strings.TrimSpace(query)) {
	case "SHOW LOCK_TIMEOUT", "SELECT @@LOCK_WAIT_TIMEOUT", "SELECT @@LOCK_TIMEOUT":
		s.mu.Lock()
		defer s.mu.Unlock()
		v, ok := s.session[c]
		if !ok {
			v = amDefault[s.dialect]
		}
		return &dRows{names: []string{"lock_timeout"}, rows: [][]driver.Value{{v}}}, true, nil
	}
	return s.dbServer.Query(c, ctx, query, args)
}

var amDefault = map[string]string{"postgres": "7s", "mysql": "31536000", "sqlserver": "-1"}

func (s *amServer) Exec(c *mconn, ctx context.Context, query string, args []driver.NamedValue) (driver.Result, bool, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if m := reSession.FindStringSubmatch(query); m != nil {
		s.session[c] = m[1]
		return emuResult{}, true, nil
	}
	if v, ok := s.session[c]; !ok || v == amDefault[s.dialect] {
		s.broken = "a script runs without a lock timeout"
	}
	s.failAt--
	if s.failWith != nil && (s.failAt == -1 || len(s.failed) > 0 && len(s.failed) < s.times && query == s.failed[0]) {
		s.failed = append(s.failed, query)
		if !errors.Is(s.failWith, errLockTimeout) {
			s.halfway(query)
		}
		return nil, true, s.failWith
	}
	stmts, err := vSplit(s.dialect, query)
	if err != nil {
		return nil, true, errServer(err.Error())
	}
	before := s.live.clone()
	inTx := s.before[c] != nil || len(stmts) > 1 && s.dialect != "mysql"
	s.live.vars = nil
	for _, stmt := range stmts {
		if err := s.live.apply(stmt, inTx); err != nil {
			if s.dialect == "postgres" {
				*s.live = *before
			}
			s.show()
			return nil, true, errServer(fmt.Sprintf("%s: %v", stmt, err))
		}
	}
	s.executed = append(s.executed, query)
	s.inTx = append(s.inTx, s.before[c] != nil)
	s.show()
	return emuResult{}, true, nil
}

// halfway leaves behind what Postgres does when it fails to create an index
// concurrently: an index that is never used. (A lock timeout is one that strikes
// before the statement begins.)
func (s *amServer) halfway(query string) {
	stmts, err := vSplit(s.dialect, query)
	if err != nil || len(stmts) != 1 || !reConcurrently.MatchString(query) {
		return
	}
	known := map[*vIdx]bool{}
	for _, tb := range s.live.Tables {
		for _, x := range tb.Idxs {
			known[x] = true
		}
	}
	if s.live.apply(stmts[0], false) != nil {
		return
	}
	for _, tb := range s.live.Tables {
		for _, x := range tb.Idxs {
			x.Invalid = x.Invalid || !known[x]
		}
	}
	s.show()
}

var reConcurrently = regexp.MustCompile(`(?i)^\s*CREATE\s+(UNIQUE\s+)?INDEX\s+CONCURRENTLY\s`)

var reElsewhere = regexp.MustCompile(`(?i)\sON\s+("[^"]*"|\w+)\.`)

func (s *amServer) Begin(c *mconn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.before[c] = s.live.clone()
	s.count[c] = len(s.executed)
}

func (s *amServer) Commit(c *mconn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.before, c)
}

func (s *amServer) Rollback(c *mconn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if old := s.before[c]; old != nil && s.dialect != "mysql" {
		*s.live = *old
		s.executed, s.inTx = s.executed[:s.count[c]], s.inTx[:s.count[c]]
		s.show()
	}
	delete(s.before, c)
}

func g07Step(t *T, live, decl *vDB, destFile, destText, tag, label string, drop bool) ([]vFile, bool) {
	return g07Run(t, live, decl, destFile, destText, tag, label, drop, -1)
}

// g07Run migrates the live database. The server fails on the given script, or
// on any.
func g07Run(t *T, live, decl *vDB, destFile, destText, tag, label string, drop bool, failAt int) ([]vFile, bool) {
	r := t.Rng
	d := live.Dialect
	history := ""
	if r.Intn(3) == 0 {
		history = "sqddl_history"
		if r.Intn(2) == 0 {
			history = "my history"
		}
		if live.table(live.Cur, history) == nil {
			live.Tables = append(live.Tables, &vTable{Schema: live.Cur, Name: history, Cols: []*vCol{{Name: "filename", Type: map[string]string{"postgres": "varchar", "mysql": "text", "sqlserver": "varchar(50)"}[d], id: 1}}, nextID: 1})
		}
	}
	name := history
	if name == "" {
		name = "sqddl_history"
	}
	defer func() {
		if history != "" {
			if tb := live.table(live.Cur, history); tb != nil {
				live.dropTable(tb)
			}
		}
	}()
	declared := decl
	if history != "" {
		// It counts as declared: nothing happens to it.
		declared = decl.clone()
		declared.Tables = append(declared.Tables, live.table(live.Cur, history).clone())
	}
	want := target(declared, live, drop)
	before := live.clone()
	var mon *Monitor
	var db *sql.DB
	srv := &amServer{live: live, before: map[*mconn]*vDB{}, count: map[*mconn]int{}, session: map[*mconn]string{}}
	db, srv.dbServer, mon = newServerDB(t, d, versionText(live.Version), nil)
	mon.Emu = srv
	srv.show()
	src := &ddl.Catalog{}
	dbi := ddl.NewDatabaseIntrospector(d, db)
	dbi.ObjectTypes, dbi.ExcludeTables = []string{"TABLES"}, []string{name}
	if err := dbi.WriteCatalog(src); notEmulated(err) {
		t.Count("not_emulated", 1)
		t.Note("not emulated: %v", err)
		return nil, false
	} else {
		must(err)
	}
	files, printed, err := vGenerateFrom(t, d, src, destFile, tag, drop)
	context := func() string {
		return fmt.Sprintf("files:\n%s\nbefore:\n%s\ndeclared:\n%s", dumpFiles(files), strings.Join(before.facts(), "\n"), destText)
	}
	fail := func(key, format string, args ...any) ([]vFile, bool) {
		t.Failf(key, "%s (drop=%v, version %v): %s\n%s", label, drop, live.Version, fmt.Sprintf(format, args...), context())
		return files, false
	}
	if err != nil {
		return fail("generate-error", "generate fails: %v", err)
	}
	var plan []string
	var planTx []bool
	listed := map[string]bool{}
	for _, f := range files {
		listed[f.name] = true
		if !strings.HasSuffix(f.name, ".undo.sql") {
			plan = append(plan, f.text)
			planTx = append(planTx, strings.HasSuffix(f.name, ".tx.sql") || d != "mysql" && !strings.HasSuffix(f.name, ".txoff.sql"))
		}
	}
	warned := 0
	for _, line := range strings.Split(printed, "\n") {
		if line != "" && !listed[filepath.Base(line)] {
			warned++
		}
	}
	attempts := 3
	run := func(dry, accept bool) (string, error) {
		var stdout, stderr bytes.Buffer
		cmd := &ddl.AutomigrateCmd{DB: db, Dialect: d, DirFS: os.DirFS(filepath.Dir(destFile)), Filenames: []string{filepath.Base(destFile)}, DropObjects: drop, DryRun: dry, AcceptWarnings: accept, HistoryTable: history, LockTimeout: time.Second, MaxAttempts: attempts, BaseDelay: 1, MaxDelay: 1, Stdout: &stdout, Stderr: &stderr}
		if history == "sqddl_history" {
			cmd.HistoryTable = "" // the default
		}
		var err error
		if p := recovered(func() { err = cmd.Run() }); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
		t.Note("automigrate dry=%v accept=%v: %v\n%s", dry, accept, err, stderr.String())
		if dry && len(srv.executed) == 0 {
			for _, line := range strings.Split(printed, "\n") {
				if line != "" && !listed[filepath.Base(line)] && err == nil && !strings.Contains(stderr.String(), line) {
					err = fmt.Errorf("the dry run does not show the warning %s", line)
				}
			}
		}
		return stdout.String(), err
	}
	untouched := func() bool {
		return len(srv.executed) == 0 && diffLists(before.facts(), live.facts()) == ""
	}
	settled := func() string {
		for _, v := range srv.session {
			if v != amDefault[d] {
				return "the lock timeout stays " + v
			}
		}
		if len(srv.before) > 0 {
			return "a transaction is still open"
		}
		if _, txs, stmts, rows := mon.Live(); txs != 0 || stmts != 0 || rows != 0 {
			return fmt.Sprintf("%d transactions, %d statements and %d result sets are still open", txs, stmts, rows)
		}
		if n := db.Stats().InUse; n != 0 {
			return fmt.Sprintf("%d connections are still in use", n)
		}
		return srv.broken
	}
	shown, err := run(true, r.Intn(2) == 0)
	if err != nil {
		return fail("dry-run", "the dry run fails: %v", err)
	}
	if !untouched() {
		return fail("dry-run-writes", "the dry run changes the database")
	}
	if got, want := amLines(shown), amLines(strings.Join(plan, "\n")); got != want {
		return fail("plan", "the dry run shows\n%s\ngenerate writes\n%s", got, want)
	}
	t.Count("dry_runs", 1)
	if warned > 0 {
		if _, err := run(false, false); err == nil || !untouched() {
			return fail("warnings", "despite warnings, automigrate returns %v and runs %q", err, srv.executed)
		}
		t.Count("refused", 1)
	}
	if len(plan) > 0 && (failAt >= 0 || r.Intn(2) == 0) {
		srv.failAt, srv.failWith, srv.times = r.Intn(len(plan)), errInjected, 1
		var building []int
		for i, text := range plan {
			if reConcurrently.MatchString(text) {
				building = append(building, i)
			}
		}
		if failAt >= 0 {
			srv.failAt = failAt
		} else if len(building) > 0 && r.Intn(2) == 0 {
			srv.failAt = building[r.Intn(len(building))]
		} else if r.Intn(2) == 0 {
			srv.failWith = errLockTimeout
			srv.times, attempts = 1+r.Intn(3), 1+r.Intn(4)
		}
		at := srv.failAt
		_, err := run(false, true)
		what := srv.failWith
		srv.failWith = nil
		repeated := false
		if len(srv.failed) > 0 && errors.Is(what, errLockTimeout) {
			text := strings.TrimSpace(plan[at])
			repeated = planTx[at] || strings.Count(text, ";") == 1 && strings.HasSuffix(text, ";")
		}
		switch {
		case len(srv.failed) == 0:
			if err != nil {
				return fail("automigrate-error", "automigrate fails: %v", err)
			}
		case repeated && (err == nil) != (srv.times < attempts):
			return fail("retry", "with %d attempts, automigrate returns %v after %d lock timeouts of\n%s", attempts, err, len(srv.failed), srv.failed[0])
		case repeated && err == nil:
			t.Count("timeouts", 1)
		case err == nil:
			return fail("fault-hidden", "automigrate succeeds although the server failed on\n%s", srv.failed[0])
		case !errors.Is(err, what):
			return fail("fault-changed", "automigrate returns %v", err)
		}
		if s := settled(); s != "" {
			return fail("left", "after %v: %s", err, s)
		}
		t.Count("faults", 1)
		if err != nil {
			if msg := amLost(before, want, live); msg != "" {
				return fail("lost", "automigrate fails on\n%s\nand %s", srv.failed[0], msg)
			}
			for _, fact := range live.facts() {
				if strings.HasSuffix(fact, " INVALID") {
					return fail("invalid-index", "automigrate fails on\n%s\nand leaves %s", srv.failed[0], fact)
				}
			}
			if reConcurrently.MatchString(srv.failed[0]) {
				t.Count("half_built_indexes", 1)
				if reElsewhere.MatchString(srv.failed[0]) {
					t.Count("half_built_elsewhere", 1)
				}
			}
			t.Count("stopped", 1)
			*live = *before.clone()
			srv.executed, srv.inTx = nil, nil
			srv.show()
		}
	}
	out, err := run(false, true)
	if err != nil {
		return fail("automigrate-error", "automigrate fails: %v", err)
	}
	if out != "" {
		return fail("automigrate-output", "automigrate prints %q", out)
	}
	if s := settled(); s != "" {
		return fail("left", "automigrate returns and %s", s)
	}
	if diff := diffLists(want.facts(), live.facts()); diff != "" {
		return fail("wrong-schema", "automigrate does not produce the declared schema:\n%s\nit runs\n%s", diff, strings.Join(srv.executed, "\n"))
	}
	if len(srv.executed) != len(plan) {
		return fail("executed", "automigrate runs\n%s", strings.Join(srv.executed, "\n"))
	}
	for i := range plan {
		if srv.executed[i] != plan[i] {
			return fail("executed", "automigrate runs\n%s", strings.Join(srv.executed, "\n"))
		}
		if srv.inTx[i] != planTx[i] {
			return fail("transaction", "in a transaction: %v\n%s", srv.inTx[i], plan[i])
		}
	}
	t.Count("steps", 1)
	t.Count("executed_files", len(srv.executed))
	n := len(srv.executed)
	if again, err := run(true, false); err != nil || again != "" {
		return fail("converge", "automigrate still plans a migration after running: %v\n%s", err, again)
	}
	if _, err := run(false, false); err != nil || len(srv.executed) != n {
		return fail("noop", "automigrate runs again with nothing to do: %v, %q", err, srv.executed[n:])
	}
	t.Count("noop", 1)
	t.Sig(d, len(plan), warned, drop, history != "")
	return files, true
}

// amLost names something that was there, belongs to the goal, and is gone.
func amLost(before, want, now *vDB) string {
	for name := range before.Schemas {
		if want.Schemas[name] && !now.Schemas[name] {
			return fmt.Sprintf("the schema %s is gone", name)
		}
	}
	for _, a := range before.Tables {
		b, c := want.table(a.Schema, a.Name), now.table(a.Schema, a.Name)
		if b == nil {
			continue
		}
		if c == nil {
			return fmt.Sprintf("the table %s is gone", a.Name)
		}
		for _, col := range a.Cols {
			if b.col(col.Name) != nil && c.col(col.Name) == nil {
				return fmt.Sprintf("the column %s.%s is gone", a.Name, col.Name)
			}
		}
	}
	return ""
}

// amLines are the lines of a script without comments and empty lines.
func amLines(script string) string {
	var out []string
	for _, line := range strings.Split(script, "\n") {
		if line != "" && !strings.HasPrefix(line, "-- automigrate") {
			out = append(out, line)
		}
	}
	return strings.Join(out, "\n")
}
