package main

// Model-based monitor for the migration history commands (migrate, touch, rm,
// mv, ls). A random history of directory edits and commands is executed
// against the real commands and against a model; after every step the effects
// log, the history table, the command's result and the transaction trace are
// compared.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"database/sql"
	"encoding/hex"
	"errors"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	"github.com/bokwoon95/sqddl/ddl"
)

var errLockTimeout = errors.New("canceling statement due to lock timeout")

func isLockTimeout(err error) bool { return errors.Is(err, errLockTimeout) }

func init() {
	for _, d := range []string{"sqlite", "postgres", "mysql", "sqlserver"} {
		drv := ddl.Driver{Dialect: d, DriverName: "vmon", IsLockTimeout: isLockTimeout}
		if d == "sqlite" {
			drv.PreprocessDSN = func(dsn string) string { return strings.TrimPrefix(dsn, "sqlite:") }
		}
		ddl.Register(drv)
	}
}

type simStmt struct {
	tok      string // effect token
	bad      bool   // fails when executed
	deferred bool   // violates a deferred constraint
}

func (s simStmt) sql() string {
	switch {
	case s.bad:
		return "INSERT INTO no_such_table VALUES (1);"
	case s.deferred:
		return "INSERT INTO child (pid) VALUES (424242);"
	default:
		return "INSERT INTO effects (tok) VALUES ('" + strings.ReplaceAll(s.tok, "'", "''") + "');"
	}
}

type simFile struct {
	name  string
	stmts []simStmt
	crlf  bool
	pad   string
	bare  bool // no semicolon at the end
}

func (f *simFile) content() string {
	nl := "\n"
	if f.crlf {
		nl = "\r\n"
	}
	var b strings.Builder
	if f.pad != "" {
		b.WriteString("-- " + f.pad + nl)
	}
	for i, s := range f.stmts {
		text := s.sql()
		if f.bare && i == len(f.stmts)-1 && i > 0 {
			text = strings.TrimSuffix(text, ";")
		}
		b.WriteString(text + nl)
	}
	return b.String()
}

func (f *simFile) checksum() string {
	sum := sha256.Sum256([]byte(strings.ReplaceAll(f.content(), "\r\n", "\n")))
	return hex.EncodeToString(sum[:])
}

type histRow struct {
	checksum string
	success  bool
	started  bool
}

type mismatch struct {
	aspect string // apply, order, atomic, scope, repeatable, failure, undo, retry, history, ls, result
	msg    string
}

type sim struct {
	t       *T
	dialect string
	mon     *Monitor
	emu     *serverEmu
	db      *sql.DB
	inspect *sql.DB
	table   string
	now     int // version counter, makes every token unique

	// model
	files   map[string]*simFile
	hist    map[string]*histRow
	exists  bool
	effects []string

	steps      []string
	mismatches []mismatch
	groupsRun  int
	filesRun   int
}

func newSim(t *T, dialect, table string) *sim {
	dsn := "file:" + t.Dir() + "/db.sqlite?_foreign_keys=true&_busy_timeout=5000"
	s := &sim{t: t, dialect: dialect, table: table, files: map[string]*simFile{}, hist: map[string]*histRow{}}
	s.mon = &Monitor{Keep: true}
	if dialect != "sqlite" {
		s.emu = newEmu(dialect)
		s.mon.Emu = s.emu
	}
	s.db = openMonitored(dsn, s.mon)
	var err error
	s.inspect, err = sql.Open("sqlite3", dsn)
	must(err)
	t.Cleanup(func() { s.db.Close(); s.inspect.Close() })
	_, err = s.inspect.Exec("PRAGMA journal_mode = DELETE; PRAGMA synchronous = OFF; CREATE TABLE effects (seq INTEGER PRIMARY KEY AUTOINCREMENT, tok TEXT); CREATE TABLE parent (id INTEGER PRIMARY KEY); CREATE TABLE child (pid INTEGER REFERENCES parent (id) DEFERRABLE INITIALLY DEFERRED);")
	must(err)
	s.mon.InitSQL = []string{"PRAGMA synchronous = OFF"}
	return s
}

func (s *sim) fail(aspect, format string, args ...any) {
	s.mismatches = append(s.mismatches, mismatch{aspect, fmt.Sprintf(format, args...)})
}

func (s *sim) fs() fstest.MapFS {
	m := fstest.MapFS{}
	for name, f := range s.files {
		m[name] = &fstest.MapFile{Data: []byte(f.content()), Mode: 0644, ModTime: time.Unix(1, 0)}
	}
	return m
}

// ---- model ----

func isRepeatable(name string) bool { return strings.HasPrefix(name, "repeatable/") }

func modelEligible(name string) bool {
	if !strings.HasSuffix(name, ".sql") || strings.HasSuffix(name, ".undo.sql") {
		return false
	}
	switch path.Base(name) {
	case "schema.sql", "indexes.sql", "constraints.sql":
		return false
	}
	return true
}

// modelWalk lists the migrations of the directory in the order they run.
func (s *sim) modelWalk() []string {
	var a, r []string
	for name := range s.files {
		if !modelEligible(name) {
			continue
		}
		if isRepeatable(name) {
			r = append(r, name)
		} else if !strings.Contains(name, "/") {
			a = append(a, name)
		}
	}
	sort.Strings(a)
	// Directory order: path components are compared one by one.
	sort.Slice(r, func(i, j int) bool {
		x, y := strings.Split(r[i], "/"), strings.Split(r[j], "/")
		for k := 0; k < len(x) && k < len(y); k++ {
			if x[k] != y[k] {
				return x[k] < y[k]
			}
		}
		return len(x) < len(y)
	})
	return append(a, r...)
}

func (s *sim) modelList(filenames []string) []string {
	if len(filenames) == 0 {
		return s.modelWalk()
	}
	var a, r []string
	seen := map[string]bool{}
	for _, name := range filenames {
		if !modelEligible(name) || seen[name] {
			continue
		}
		seen[name] = true
		if isRepeatable(name) {
			r = append(r, name)
		} else {
			a = append(a, name)
		}
	}
	return append(a, r...)
}

func ownTx(name string) bool { return strings.HasSuffix(name, ".tx.sql") }
func txOff(name string) bool { return strings.HasSuffix(name, ".txoff.sql") }

func (s *sim) isTxGroup(g []string) bool {
	if len(g) > 1 || ownTx(g[0]) {
		return true
	}
	return !txOff(g[0]) && s.dialect != "mysql"
}

func (s *sim) pending(list []string, useHistory bool) []string {
	var out []string
	for _, name := range list {
		h := s.hist[name]
		if useHistory && h != nil && h.success {
			if !isRepeatable(name) || h.checksum == s.files[name].checksum() {
				continue
			}
		}
		out = append(out, name)
	}
	return out
}

func (s *sim) groups(pending []string) [][]string {
	var out [][]string
	for _, name := range pending {
		if len(out) > 0 {
			last := out[len(out)-1]
			if s.dialect != "mysql" && !ownTx(last[0]) && !txOff(last[0]) && !ownTx(name) && !txOff(name) {
				out[len(out)-1] = append(last, name)
				continue
			}
		}
		out = append(out, []string{name})
	}
	return out
}

func undoName(name string) string {
	return strings.TrimSuffix(strings.TrimSuffix(name, ".sql"), ".txoff") + ".undo.sql"
}

// singleStatement mirrors the documented notion of a script that consists of
// one SQL statement.
func singleStatement(content string) bool {
	c := strings.TrimSpace(content)
	return strings.Count(c, ";") == 1 && strings.HasSuffix(c, ";")
}

// lockPlan tells how many times the execution of a script times out waiting
// for a lock before it goes through.
type lockPlan map[string]int

type migrateOutcome struct {
	err      bool
	errFile  string
	groups   [][]string // groups attempted (successful first, then the failing one)
	failed   int        // index of the failing group, -1 if none
	undoRun  string
	attempts map[string]int // number of times each script is expected to be executed
	executed []string       // files whose effects are committed
}

// modelMigrate applies a migrate command to the model.
func (s *sim) modelMigrate(filenames []string, skipHistory bool, plan lockPlan, maxAttempts int) migrateOutcome {
	out := migrateOutcome{failed: -1, attempts: map[string]int{}}
	for _, name := range filenames {
		if s.files[name] == nil {
			out.err, out.errFile = true, name
			return out
		}
	}
	list := s.modelList(filenames)
	if !skipHistory {
		s.exists = true
	}
	remaining := lockPlan{}
	for k, v := range plan {
		remaining[k] = v
	}
	pend := s.pending(list, !skipHistory)
	for gi, g := range s.groups(pend) {
		out.groups = append(out.groups, g)
		isTx := s.isTxGroup(g)
		retryable := isTx || singleStatement(s.files[g[0]].content())
		attempt := 0
	again:
		attempt++
		var effects []string
		stopped, timeout := -1, false
		deferredBad := false
		if isTx && remaining[beginKey] > 0 {
			remaining[beginKey]--
			stopped, timeout = 0, true
		}
		for i, name := range g {
			if timeout {
				break
			}
			out.attempts[name]++
			if remaining[name] > 0 {
				remaining[name]--
				stopped, timeout = i, true
				break
			}
			for _, st := range s.files[name].stmts {
				if st.bad || (st.deferred && !isTx) {
					stopped = i
					break
				}
				if st.deferred {
					deferredBad = true
					continue
				}
				effects = append(effects, st.tok)
			}
			if stopped >= 0 {
				break
			}
		}
		if stopped < 0 && deferredBad {
			stopped = len(g) - 1
		}
		if stopped < 0 {
			s.effects = append(s.effects, effects...)
			out.executed = append(out.executed, g...)
			if !skipHistory {
				for _, name := range g {
					s.hist[name] = s.newHist(name, true)
				}
			}
			continue
		}
		if timeout && retryable {
			if attempt < maxAttempts {
				goto again
			}
		}
		out.err, out.errFile, out.failed = true, g[stopped], gi
		if !isTx {
			s.effects = append(s.effects, effects...)
			if u := s.files[undoName(g[0])]; u != nil {
				out.undoRun = u.name
				for _, st := range u.stmts {
					if st.bad || st.deferred {
						break
					}
					s.effects = append(s.effects, st.tok)
				}
			}
		}
		if !skipHistory && !(timeout && retryable) {
			for _, name := range g[:stopped+1] {
				s.hist[name] = s.newHist(name, false)
			}
		}
		return out
	}
	return out
}

const beginKey = "<begin>"

// newHist is the history row that a run of the migration leaves behind. The
// checksum is meaningful only for repeatable migrations; a row that was
// renamed keeps the one it has.
func (s *sim) newHist(name string, success bool) *histRow {
	h := &histRow{success: success, started: true}
	if old := s.hist[name]; old != nil {
		h.checksum = old.checksum
	}
	if isRepeatable(name) {
		h.checksum = s.files[name].checksum()
	}
	return h
}

// ---- execution ----

type migrateOpts struct {
	filenames   []string
	skipHistory bool
	plan        lockPlan
	maxAttempts int
	verbose     bool
}

func (s *sim) migrate(o migrateOpts) {
	if o.maxAttempts == 0 {
		o.maxAttempts = 10
	}
	s.steps = append(s.steps, fmt.Sprintf("migrate files=%q skip=%v plan=%v max=%d", o.filenames, o.skipHistory, o.plan, o.maxAttempts))
	nBefore := len(s.effects)
	want := s.modelMigrate(o.filenames, o.skipHistory, o.plan, o.maxAttempts)
	remaining := lockPlan{}
	for k, v := range o.plan {
		remaining[k] = v
	}
	byContent := map[string]string{}
	for name, f := range s.files {
		byContent[f.content()] = name
	}
	ran := map[string]int{}
	type scriptRun struct {
		name string
		tx   int
		err  bool
	}
	var runs []scriptRun
	beginLeft := o.plan[beginKey]
	s.mon.Reset()
	s.mon.Keep = true
	s.mon.Before = func(ev *Event) error {
		if ev.Kind == "begin" && beginLeft > 0 {
			beginLeft--
			return errLockTimeout
		}
		if ev.Kind != "exec" && ev.Kind != "query" && ev.Kind != "stmtexec" {
			return nil
		}
		name, ok := byContent[ev.SQL]
		if !ok || ev.SQL == "" {
			return nil
		}
		ran[name]++
		runs = append(runs, scriptRun{name: name, tx: ev.Tx})
		if remaining[name] > 0 {
			remaining[name]--
			runs[len(runs)-1].err = true
			return errLockTimeout
		}
		return nil
	}
	var stderr bytes.Buffer
	cmd := &ddl.MigrateCmd{
		DB: s.db, Dialect: s.dialect, DirFS: s.fs(), Filenames: append([]string(nil), o.filenames...),
		Stderr: &stderr, HistoryTable: s.table, SkipHistoryTable: o.skipHistory, Verbose: o.verbose,
		MaxAttempts: o.maxAttempts, BaseDelay: time.Microsecond, MaxDelay: 20 * time.Microsecond,
		Ctx: context.Background(),
	}
	if len(o.filenames) == 0 {
		cmd.Filenames = nil
	}
	err := cmd.Run()
	events := s.mon.Take()
	s.mon.Before = nil
	s.t.Count("driver_events", len(events))
	s.t.Count("scripts_executed", len(runs))
	s.groupsRun += len(want.groups)
	s.filesRun += len(runs)

	// Result.
	if (err != nil) != want.err {
		s.fail("result", "migrate returned error %v, expected failure=%v (file %q)\nstderr: %s", err, want.err, want.errFile, stderr.String())
	} else if err != nil && want.errFile != "" && !strings.Contains(err.Error(), want.errFile) {
		s.fail("result", "error %q does not name the failing file %q", err, want.errFile)
	}
	if err != nil && want.err && want.failed >= 0 {
		var merr *ddl.MigrationError
		if errors.As(err, &merr) {
			if merr.Filename != want.errFile {
				s.fail("result", "MigrationError names %q, expected %q", merr.Filename, want.errFile)
			} else if merr.Contents != s.files[want.errFile].content() {
				s.fail("result", "MigrationError for %q carries wrong contents %q", merr.Filename, merr.Contents)
			}
		}
	}
	// Number of executions of every script.
	names := map[string]bool{}
	for n := range ran {
		names[n] = true
	}
	for n := range want.attempts {
		names[n] = true
	}
	extra := 0
	for n := range names {
		w := want.attempts[n]
		if n == want.undoRun {
			w = 1
		}
		if s.files[n] == nil || s.files[n].content() == "" {
			continue
		}
		if ran[n] != w {
			aspect := "apply"
			switch {
			case strings.HasSuffix(n, ".undo.sql"):
				aspect = "undo"
			case o.plan[n] > 0 || o.plan[beginKey] > 0:
				aspect = "retry"
			case isRepeatable(n):
				aspect = "repeatable"
			}
			s.fail(aspect, "script %q was executed %d times, expected %d (pending groups %q)", n, ran[n], w, want.groups)
			extra++
		}
	}
	// Order of execution: the non-failing run sequence follows the groups.
	if extra == 0 {
		var got []string
		for _, r := range runs {
			if !r.err && (len(got) == 0 || got[len(got)-1] != r.name) {
				got = append(got, r.name)
			}
		}
		var exp []string
		for i, g := range want.groups {
			if want.failed == i {
				break
			}
			for _, n := range g {
				if s.files[n].content() != "" {
					exp = append(exp, n)
				}
			}
		}
		// With retries a prefix of a group may repeat; only the final attempt
		// matters, so look for exp as a subsequence and for the relative order
		// of last executions.
		last := map[string]int{}
		for i, r := range runs {
			if !r.err {
				last[r.name] = i
			}
		}
		for i := 1; i < len(exp); i++ {
			if last[exp[i-1]] >= last[exp[i]] {
				s.fail("order", "scripts ran in order %q, expected %q", got, exp)
				break
			}
		}
		// Transaction scoping.
		txOf := map[string]int{}
		for _, r := range runs {
			if !r.err {
				txOf[r.name] = r.tx
			}
		}
		histTx := map[string]int{}
		if !o.skipHistory {
			for _, ev := range events {
				if (ev.Kind == "stmtexec" || ev.Kind == "exec") && len(ev.Args) > 0 && ev.Err == "" {
					if name, ok := ev.Args[0].(string); ok && s.files[name] != nil {
						if _, isScript := byContent[ev.SQL]; !isScript {
							if v, ok := ev.Args[len(ev.Args)-1].(bool); ok && v {
								histTx[name] = ev.Tx
							}
						}
					}
				}
			}
		}
		used := map[int]string{}
		for i, g := range want.groups {
			isTx := s.isTxGroup(g)
			groupTx := -1
			for _, n := range g {
				if s.files[n].content() == "" {
					continue
				}
				tx, ok := txOf[n]
				if !ok {
					continue
				}
				if !isTx && tx != 0 {
					s.fail("scope", "script %q must run outside a transaction but ran inside transaction %d", n, tx)
				}
				if isTx && tx == 0 {
					s.fail("scope", "script %q must run inside a transaction but ran outside", n)
				}
				if isTx && groupTx >= 0 && tx != groupTx {
					s.fail("scope", "scripts %q must share one transaction but %q ran in transaction %d rather than %d", g, n, tx, groupTx)
				}
				groupTx = tx
				if want.failed != i && !o.skipHistory {
					if htx, ok := histTx[n]; ok && htx != tx {
						s.fail("scope", "history row of %q was written in transaction %d while the script ran in %d", n, htx, tx)
					}
				}
			}
			if isTx && groupTx > 0 {
				if other, ok := used[groupTx]; ok {
					s.fail("scope", "scripts %q and %q must not share a transaction", other, g)
				}
				used[groupTx] = strings.Join(g, ",")
			}
		}
	}
	// The session is left as found.
	if s.emu != nil {
		s.checkSession()
	}
	_ = nBefore
	s.compare("migrate")
}

func (s *sim) checkSession() {
	// every variable set must end at its default
	s.emu.mu.Lock()
	defer s.emu.mu.Unlock()
	last := map[string]string{}
	for _, kv := range s.emu.sets {
		i := strings.Index(kv, "=")
		last[kv[:i]] = kv[i+1:]
	}
	for k, v := range last {
		if strings.HasPrefix(k, "identity_insert") {
			if v != "OFF" {
				s.fail("session", "%s left %s", k, v)
			}
			continue
		}
		if v != s.emu.defaults[k] {
			s.fail("session", "session variable %s left at %q, was %q before the command", k, v, s.emu.defaults[k])
		}
	}
}

// compare checks the observable database state against the model.
func (s *sim) compare(op string) {
	got, err := s.readEffects()
	must(err)
	if !eqStrings(got, s.effects) {
		aspect := "apply"
		i := 0
		for i < len(got) && i < len(s.effects) && got[i] == s.effects[i] {
			i++
		}
		if sameMultiset(got, s.effects) {
			aspect = "order"
		}
		s.fail(aspect, "after %s the applied effects differ from the model at index %d:\n got  %q\n want %q", op, i, tailFrom(got, i), tailFrom(s.effects, i))
		s.effects = got // resynchronise
	}
	rows, exists, err := s.readHistory()
	must(err)
	if exists != s.exists {
		s.fail("history", "after %s history table existence is %v, expected %v", op, exists, s.exists)
		s.exists = exists
	}
	for name, h := range s.hist {
		g, ok := rows[name]
		if !ok {
			s.fail("history", "after %s the history has no row for %q (expected success=%v)", op, name, h.success)
			continue
		}
		if g.success != h.success {
			s.fail("history", "after %s the history says success=%v for %q, expected %v", op, g.success, name, h.success)
		}
		if g.checksum != h.checksum && isRepeatable(name) {
			s.fail("repeatable", "after %s the recorded checksum of %q is %q, expected %q", op, name, g.checksum, h.checksum)
		}
		if g.started != h.started {
			s.fail("history", "after %s started_at of %q is set=%v, expected %v", op, name, g.started, h.started)
		}
	}
	for name := range rows {
		if s.hist[name] == nil {
			s.fail("history", "after %s the history has an unexpected row for %q", op, name)
		}
	}
	if len(s.mismatches) > 0 {
		// resynchronise so that one defect yields one report
		s.hist = map[string]*histRow{}
		for name, g := range rows {
			g := g
			s.hist[name] = &g
		}
	}
	s.t.Count("state_comparisons", 1)
}

func (s *sim) readEffects() ([]string, error) {
	rows, err := s.inspect.Query("SELECT tok FROM effects ORDER BY seq")
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	var out []string
	for rows.Next() {
		var v string
		if err := rows.Scan(&v); err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, rows.Err()
}

func (s *sim) readHistory() (map[string]histRow, bool, error) {
	var n int
	err := s.inspect.QueryRow("SELECT COUNT(*) FROM sqlite_schema WHERE type = 'table' AND name = $1", s.table).Scan(&n)
	if err != nil {
		return nil, false, err
	}
	out := map[string]histRow{}
	if n == 0 {
		return out, false, nil
	}
	rows, err := s.inspect.Query(`SELECT filename, COALESCE(checksum, ''), started_at IS NOT NULL, COALESCE(success, 0) FROM "` + strings.ReplaceAll(s.table, `"`, `""`) + `"`)
	if err != nil {
		return nil, true, err
	}
	defer rows.Close()
	for rows.Next() {
		var name string
		var h histRow
		if err := rows.Scan(&name, &h.checksum, &h.started, &h.success); err != nil {
			return nil, true, err
		}
		out[name] = h
	}
	return out, true, rows.Err()
}

func (s *sim) touch(filenames []string) {
	s.steps = append(s.steps, fmt.Sprintf("touch %q", filenames))
	wantErr := false
	for _, n := range filenames {
		if s.files[n] == nil {
			wantErr = true
		}
	}
	list := s.modelList(filenames)
	s.exists = true
	if !wantErr {
		for _, n := range list {
			h := &histRow{success: true, started: true}
			if isRepeatable(n) {
				h.checksum = s.files[n].checksum()
			}
			s.hist[n] = h
		}
	}
	s.mon.Reset()
	var stderr bytes.Buffer
	cmd := &ddl.TouchCmd{DB: s.db, Dialect: s.dialect, DirFS: s.fs(), Filenames: append([]string(nil), filenames...), Stderr: &stderr, HistoryTable: s.table}
	if len(filenames) == 0 {
		cmd.Filenames = nil
	}
	err := cmd.Run()
	if (err != nil) != wantErr {
		s.fail("result", "touch %q returned %v, expected failure=%v", filenames, err, wantErr)
	}
	s.compare("touch")
}

func (s *sim) rm(filenames []string) {
	s.steps = append(s.steps, fmt.Sprintf("rm %q", filenames))
	for _, n := range filenames {
		delete(s.hist, n)
	}
	s.mon.Reset()
	var stderr bytes.Buffer
	cmd := &ddl.RmCmd{DB: s.db, Dialect: s.dialect, Filenames: append([]string(nil), filenames...), Stderr: &stderr, HistoryTable: s.table}
	if err := cmd.Run(); err != nil {
		s.fail("result", "rm %q returned %v", filenames, err)
	}
	s.compare("rm")
}

func (s *sim) mv(src, dest string) {
	s.steps = append(s.steps, fmt.Sprintf("mv %q %q", src, dest))
	wantErr := false
	if h := s.hist[src]; h != nil && src != dest {
		if s.hist[dest] != nil {
			wantErr = true
		} else {
			s.hist[dest] = h
			delete(s.hist, src)
		}
	}
	s.mon.Reset()
	var stderr bytes.Buffer
	cmd := &ddl.MvCmd{DB: s.db, Dialect: s.dialect, SrcFilename: src, DestFilename: dest, Stderr: &stderr, HistoryTable: s.table}
	err := cmd.Run()
	if (err != nil) != wantErr {
		s.fail("result", "mv %q %q returned %v, expected failure=%v", src, dest, err, wantErr)
	}
	s.compare("mv")
}

// ls compares the listing with the model for every combination of filters.
func (s *sim) ls(pending, applied, failed, missing, all bool) {
	s.steps = append(s.steps, fmt.Sprintf("ls p=%v a=%v f=%v m=%v all=%v", pending, applied, failed, missing, all))
	s.mon.Reset()
	var out bytes.Buffer
	cmd := &ddl.LsCmd{DB: s.db, Dialect: s.dialect, DirFS: s.fs(), Stdout: &out, HistoryTable: s.table,
		IncludePending: pending, IncludeApplied: applied, IncludeFailed: failed, IncludeMissing: missing, IncludeAll: all}
	err := cmd.Run()
	if err != nil {
		s.fail("result", "ls returned %v", err)
		return
	}
	if all {
		pending, applied, failed, missing = true, true, true, true
	} else if !pending && !applied && !failed && !missing {
		pending, failed = true, true
	}
	var want []string
	inDir := map[string]bool{}
	for _, n := range s.modelWalk() {
		inDir[n] = true
		h := s.hist[n]
		status := "applied"
		switch {
		case h == nil:
			status = "pending"
		case !h.success:
			status = "failed"
		case isRepeatable(n) && h.checksum != s.files[n].checksum():
			status = "pending"
		}
		if status == "pending" && pending || status == "applied" && applied || status == "failed" && failed {
			want = append(want, "["+status+"] "+n)
		}
	}
	if missing {
		var a, r []string
		for n := range s.hist {
			if inDir[n] {
				continue
			}
			if isRepeatable(n) {
				r = append(r, "[missing] "+n)
			} else {
				a = append(a, "[missing] "+n)
			}
		}
		sort.Strings(a)
		sort.Strings(r)
		want = append(append(want, a...), r...)
	}
	var got []string
	for _, line := range strings.Split(strings.TrimRight(out.String(), "\n"), "\n") {
		if line == "" {
			continue
		}
		if i := strings.LastIndex(line, " ("); i > 0 && strings.HasSuffix(line, ")") && strings.Count(line[i:], ":") == 2 {
			line = line[:i]
		}
		got = append(got, line)
	}
	s.t.Count("ls_lines", len(got))
	if !eqStrings(got, want) {
		s.fail("ls", "ls printed %q, expected %q", got, want)
	}
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameMultiset(a, b []string) bool {
	x, y := append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	return eqStrings(x, y)
}

func tailFrom(a []string, i int) []string {
	if i < 0 || i > len(a) {
		return a
	}
	if len(a)-i > 12 {
		return a[i : i+12]
	}
	return a[i:]
}

var _ fs.FS = fstest.MapFS{}
