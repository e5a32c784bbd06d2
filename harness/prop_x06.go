package main

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/bokwoon95/sqddl/ddl"
	"github.com/bokwoon95/sqddl/drivers/ddlmysql"
	"github.com/bokwoon95/sqddl/drivers/ddloracle"
	"github.com/bokwoon95/sqddl/drivers/ddlpgx"
	"github.com/bokwoon95/sqddl/drivers/ddlpostgres"
	"github.com/bokwoon95/sqddl/drivers/ddlsqlite3"
	"github.com/bokwoon95/sqddl/drivers/ddlsqlserver"
	mssql "github.com/denisenkom/go-mssqldb"
	"github.com/denisenkom/go-mssqldb/msdsn"
	"github.com/go-sql-driver/mysql"
	"github.com/jackc/pgconn"
	"github.com/lib/pq"
	"github.com/sijms/go-ora/v2/network"
)

func init() {
	register(&Prop{
		ID:    "X06",
		Level: "runtime_monitoring",
		Rule:  "Fails when a documented form of -db is taken for another dialect or, read by the database driver, names another server, account, database or options than it says, or when an error of a database driver is retried, reported or located wrongly.",
		Assumptions: []string{
			"What a URL means to the drivers is read with their own parsers; SQLite databases are really opened.",
			"Errors of the server drivers are injected into migrations that run on emulated servers.",
		},
		MinCounts: map[string]int64{"urls": 1000, "sqlite_opened": 200, "from_file": 200, "driver_errors": 300, "retried": 50, "located": 50},
		Cases:     x06Cases,
		Serial:    true,
	})
}

func x06Cases(tier string, seed int64) []Case {
	var out []Case
	for i := 0; i < tierN(tier, 3000, 100000); i++ {
		out = append(out, Case{ID: fmt.Sprintf("url-%d", i), Run: x06URL})
	}
	for i := 0; i < tierN(tier, 500, 10000); i++ {
		out = append(out, Case{ID: fmt.Sprintf("sqlite-%d", i), Run: x06SQLite})
	}
	for i := 0; i < tierN(tier, 800, 20000); i++ {
		out = append(out, Case{ID: fmt.Sprintf("error-%d", i), Run: x06Error})
	}
	for i := 0; i < tierN(tier, 200, 5000); i++ {
		out = append(out, Case{ID: fmt.Sprintf("unknown-%d", i), Run: x06Unknown})
	}
	return out
}

// x06Mu guards the registered adapters, of which there is one per dialect.
var x06Mu sync.Mutex

func x06Register(pg string) {
	ddlsqlite3.Register()
	if pg == "pgx" {
		ddlpgx.Register()
	} else {
		ddlpostgres.Register()
	}
	ddlmysql.Register()
	ddlsqlserver.Register()
	ddloracle.Register()
}

func x06Word(r *rand.Rand, alphabet string, lo, hi int) string {
	n := lo + r.Intn(hi-lo+1)
	var b strings.Builder
	chars := []rune(alphabet)
	for i := 0; i < n; i++ {
		b.WriteRune(chars[r.Intn(len(chars))])
	}
	return b.String()
}

const (
	x06Plain = "abcXYZ019_"
	x06Pass  = "abcXYZ019_!?@/:#%&=+ $é~*()'\";,"
)

type x06Target struct {
	dialect, user, pass, host string
	port                      int
	name                      string
	params                    url.Values
}

func x06Gen(r *rand.Rand) x06Target {
	g := x06Target{
		dialect: []string{"postgres", "mysql", "sqlserver"}[r.Intn(3)],
		user:    "u" + x06Word(r, x06Plain, 0, 8),
		pass:    "p" + x06Word(r, []string{x06Plain, x06Pass}[r.Intn(2)], 0, 10),
		host:    []string{"localhost", "127.0.0.1", "db.example.com", "[::1]", "my-host"}[r.Intn(5)],
		name:    "d" + x06Word(r, []string{x06Plain, x06Plain + "- %é"}[r.Intn(2)], 0, 8) + "b",
		params:  url.Values{},
	}
	if r.Intn(4) > 0 {
		g.port = 1024 + r.Intn(60000)
	}
	add := func(k string, vs ...string) {
		if r.Intn(3) == 0 {
			g.params.Set(k, vs[r.Intn(len(vs))])
		}
	}
	switch g.dialect {
	case "postgres":
		add("sslmode", "disable", "require", "prefer")
		add("search_path", "public", "a,b", `"My Schema"`)
		add("application_name", "sqddl", "an app & more", "100%")
	case "mysql":
		add("allowAllFiles", "true", "false")
		add("multiStatements", "true", "false")
		add("parseTime", "true", "false")
		add("loc", "Local", "UTC")
		add("timeout", "5s")
		add("time_zone", "'+00:00'")
		add("sql_mode", "'ANSI_QUOTES,TRADITIONAL'")
	case "sqlserver":
		add("app name", "sqddl", "an app & more")
		add("dial timeout", "7")
	}
	return g
}

func (g *x06Target) hostPort() string {
	if g.port == 0 {
		return g.host
	}
	return g.host + ":" + strconv.Itoa(g.port)
}

func (g *x06Target) url(r *rand.Rand) string {
	q := g.params.Encode()
	if g.dialect == "mysql" && r.Intn(2) == 0 {
		// The form of the driver, where nothing but the parameters is encoded.
		prefix := []string{"", "mysql://"}[r.Intn(2)]
		if prefix != "" && strings.ContainsAny(g.pass, "?#%/@ ;\"") || strings.ContainsAny(g.pass, "()") {
			prefix = ""
			g.pass = strings.NewReplacer("(", "", ")", "").Replace(g.pass)
		}
		if strings.Contains(g.name, "%") {
			g.name = "db"
		}
		dsn := prefix + g.user + ":" + g.pass + "@tcp(" + g.hostPort() + ")/" + g.name
		if q != "" {
			dsn += "?" + q
		}
		return dsn
	}
	if g.dialect == "mysql" {
		g.pass = strings.NewReplacer("(", "", ")", "").Replace(g.pass)
		if strings.Contains(g.name, "%") {
			g.name = "db"
		}
	}
	u := &url.URL{Scheme: g.dialect, User: url.UserPassword(g.user, g.pass), Host: g.hostPort(), Path: "/" + g.name}
	if g.dialect == "sqlserver" && r.Intn(2) == 0 {
		u.Path = ""
		v := url.Values{}
		for k := range g.params {
			v.Set(k, g.params.Get(k))
		}
		v.Set("database", g.name)
		q = v.Encode()
	}
	u.RawQuery = q
	return u.String()
}

func x06URL(t *T) {
	x06Mu.Lock()
	defer x06Mu.Unlock()
	r := t.Rng
	pg := []string{"pgx", "postgres"}[r.Intn(2)]
	x06Register(pg)
	g := x06Gen(r)
	given := g.url(r)
	arg := given
	if r.Intn(3) == 0 {
		file := filepath.Join(t.Dir(), []string{"url.txt", "url", "secret.env"}[r.Intn(3)])
		must(os.WriteFile(file, []byte([]string{given, given + "\n", "  " + given + " \r\n"}[r.Intn(3)]), 0o600))
		arg = []string{"file:", "file://"}[r.Intn(2)] + file
		t.Count("from_file", 1)
	}
	dialect, driver, dsn := ddl.NormalizeDSN(arg)
	t.Count("urls", 1)
	t.Sig(fmt.Sprint(g.dialect, given == arg, len(g.params), g.port == 0, g.host))
	t.Sample("%s -> %s %s %s", given, dialect, driver, dsn)
	fail := func(format string, args ...any) {
		t.Failf("url", "-db %q (%s) is given to %s as %q: %s", arg, given, driver, dsn, fmt.Sprintf(format, args...))
	}
	if dialect != g.dialect {
		fail("dialect %q instead of %q", dialect, g.dialect)
		return
	}
	wantDriver := map[string]string{"postgres": pg, "mysql": "mysql", "sqlserver": "sqlserver"}[dialect]
	if driver != wantDriver {
		fail("driver instead of %s", wantDriver)
		return
	}
	type parsed struct {
		user, pass, host string
		port             int
		name             string
	}
	var got parsed
	want := parsed{g.user, g.pass, strings.Trim(g.host, "[]"), g.port, g.name}
	switch dialect {
	case "postgres":
		cfg, err := pgconn.ParseConfig(dsn)
		if err != nil {
			fail("%v", err)
			return
		}
		got = parsed{cfg.User, cfg.Password, cfg.Host, int(cfg.Port), cfg.Database}
		if want.port == 0 {
			want.port = 5432
		}
		for _, k := range []string{"search_path", "application_name"} {
			if cfg.RuntimeParams[k] != g.params.Get(k) {
				fail("%s is %q", k, cfg.RuntimeParams[k])
			}
		}
		u, err := url.Parse(dsn)
		must(err)
		mode := g.params.Get("sslmode")
		if mode == "" {
			mode = "disable"
		}
		if u.Query().Get("sslmode") != mode {
			fail("sslmode is %q", u.Query().Get("sslmode"))
		}
	case "mysql":
		cfg, err := mysql.ParseDSN(dsn)
		if err != nil {
			fail("%v", err)
			return
		}
		host, port := cfg.Addr, 0
		if i := strings.LastIndex(host, ":"); i >= 0 {
			port, _ = strconv.Atoi(host[i+1:])
			host = strings.Trim(host[:i], "[]")
		}
		got = parsed{cfg.User, cfg.Passwd, host, port, cfg.DBName}
		if want.port == 0 {
			want.port = 3306
		}
		if cfg.Net != "tcp" {
			fail("network %q", cfg.Net)
		}
		opt := func(k string, v bool) {
			w := g.params.Get(k) != "false"
			if v != w {
				fail("%s is %v", k, v)
			}
		}
		opt("allowAllFiles", cfg.AllowAllFiles)
		opt("multiStatements", cfg.MultiStatements)
		opt("parseTime", cfg.ParseTime)
		for _, k := range []string{"time_zone", "sql_mode"} {
			if cfg.Params[k] != g.params.Get(k) {
				fail("%s is %q", k, cfg.Params[k])
			}
		}
		if l := g.params.Get("loc"); l == "Local" && cfg.Loc != time.Local || l != "Local" && cfg.Loc != time.UTC {
			fail("loc is %v", cfg.Loc)
		}
		if w := g.params.Get("timeout"); w != "" && cfg.Timeout != 5*time.Second {
			fail("timeout is %v", cfg.Timeout)
		}
	case "sqlserver":
		cfg, _, err := msdsn.Parse(dsn)
		if err != nil {
			fail("%v", err)
			return
		}
		got = parsed{cfg.User, cfg.Password, strings.Trim(cfg.Host, "[]"), int(cfg.Port), cfg.Database}
		if want.port == 0 && got.port == 1433 {
			want.port = 1433
		}
		if cfg.Instance != "" {
			fail("instance is %q", cfg.Instance)
		}
		if w := g.params.Get("app name"); w != "" && cfg.AppName != w {
			fail("app name is %q", cfg.AppName)
		}
		if w := g.params.Get("dial timeout"); w != "" && cfg.DialTimeout != 7*time.Second {
			fail("dial timeout is %v", cfg.DialTimeout)
		}
	}
	if got != want {
		fail("the driver connects to %+v instead of %+v", got, want)
	}
}

// x06SQLite opens SQLite databases under all documented names.
func x06SQLite(t *T) {
	x06Mu.Lock()
	defer x06Mu.Unlock()
	r := t.Rng
	x06Register("pgx")
	base := "d" + x06Word(r, x06Plain+"-. é", 0, 6) + "x"
	suffix := []string{".sqlite", ".sqlite3", ".db", ".db3"}[r.Intn(4)]
	path := filepath.Join(t.Dir(), base)
	var arg string
	fromFile := false
	switch r.Intn(7) {
	case 0, 1:
		path += suffix
		arg = path
	case 2:
		path += suffix
		arg = "file:" + path
	case 3:
		arg = "sqlite:" + path
	case 4:
		arg = "sqlite:file:" + path
	case 5:
		arg = "sqlite3:" + path
	case 6:
		arg = "sqlite://" + path
	}
	exists := r.Intn(3)
	switch exists {
	case 1: // an empty file
		if strings.HasPrefix(arg, "file:") || r.Intn(2) == 0 {
			must(os.WriteFile(path, nil, 0o644))
		}
	case 2:
		db, err := sql.Open("sqlite3", path)
		must(err)
		_, err = db.Exec("CREATE TABLE here (id INT)")
		must(err)
		must(db.Close())
	}
	wantFK := "1"
	params := ""
	switch r.Intn(5) {
	case 0:
		params, wantFK = "?_foreign_keys=false", "0"
	case 1:
		params, wantFK = "?_fk=0", "0"
	case 2:
		params = "?_busy_timeout=1234"
	case 3:
		params = "?_fk=1"
	}
	arg += params
	given := arg
	if r.Intn(4) == 0 {
		file := filepath.Join(t.Dir(), "u")
		if r.Intn(2) == 0 && !strings.HasPrefix(arg, "file:") {
			must(os.WriteFile(file, []byte(arg+"\n"), 0o600))
			arg, fromFile = "file:"+file, true
			t.Count("from_file", 1)
		}
	}
	dialect, driver, dsn := ddl.NormalizeDSN(arg)
	t.Count("urls", 1)
	t.Sig(fmt.Sprint(strings.SplitN(given, "/", 2)[0], suffix, exists, params, fromFile))
	fail := func(format string, args ...any) {
		t.Failf("sqlite", "-db %q (%s, exists=%d) is given to %s as %q: %s", arg, given, exists, driver, dsn, fmt.Sprintf(format, args...))
	}
	if dialect != "sqlite" || driver != "sqlite3" {
		fail("dialect %q", dialect)
		return
	}
	db, err := sql.Open(driver, dsn)
	if err != nil {
		fail("%v", err)
		return
	}
	defer db.Close()
	var fk, file, busy string
	must(db.QueryRow("PRAGMA foreign_keys").Scan(&fk))
	if fk != wantFK {
		fail("foreign keys are %s", fk)
		return
	}
	must(db.QueryRow("PRAGMA busy_timeout").Scan(&busy))
	if strings.Contains(params, "busy") && busy != "1234" {
		fail("busy timeout is %s", busy)
		return
	}
	if _, err := db.Exec("CREATE TABLE made (id INT)"); err != nil {
		fail("%v", err)
		return
	}
	must(db.QueryRow("SELECT file FROM pragma_database_list WHERE name = 'main'").Scan(&file))
	t.Count("sqlite_opened", 1)
	if file != path {
		fail("the database is in %q", file)
		return
	}
	var n int
	must(db.QueryRow("SELECT count(*) FROM sqlite_schema WHERE name = 'here'").Scan(&n))
	if exists == 2 && n != 1 {
		fail("the database is another one")
	}
}

// x06Unknown checks that what is not a URL is not taken for one.
func x06Unknown(t *T) {
	x06Mu.Lock()
	defer x06Mu.Unlock()
	r := t.Rng
	x06Register("pgx")
	arg := x06Word(r, x06Plain+"./ -=", 1, 20)
	file := filepath.Join(t.Dir(), "f.txt")
	switch r.Intn(4) {
	case 0:
		arg = "unknown://" + arg
	case 1:
		must(os.WriteFile(file, []byte(arg), 0o600))
		arg = "file:" + file
	case 2:
		arg = "file:" + filepath.Join(t.Dir(), "nosuch"+x06Word(r, x06Plain, 0, 5))
	}
	for _, s := range []string{".sqlite", ".sqlite3", ".db", ".db3"} {
		if strings.HasSuffix(strings.TrimSpace(arg), s) {
			return
		}
	}
	dialect, driver, dsn := ddl.NormalizeDSN(arg)
	t.Count("unknown", 1)
	t.Sig("unknown" + arg)
	if dialect != "" || driver != "" || dsn != "" {
		t.Failf("unknown", "-db %q is taken for a %s database: %s %s", arg, dialect, driver, dsn)
		return
	}
	if _, err := ddl.LsCommand("-db", arg, "-dir", t.Dir()); err == nil {
		t.Failf("unknown", "-db %q is accepted", arg)
	}
}

// x06Error fails a migration with an error of a server driver.
func x06Error(t *T) {
	x06Mu.Lock()
	defer x06Mu.Unlock()
	r := t.Rng
	pg := []string{"pgx", "postgres"}[r.Intn(2)]
	dialect := []string{"postgres", "mysql", "sqlserver"}[r.Intn(3)]
	// The script, with the place of the error.
	var lines []string
	for i := 0; i < 1+r.Intn(6); i++ {
		lines = append(lines, []string{"", "-- comment é世", "/* 100% of it */", "-- %s %d %w"}[r.Intn(4)])
	}
	at := r.Intn(len(lines) + 1)
	lines = append(lines[:at:at], append([]string{"INSERT INTO effects (tok) VALUES ('a')"}, lines[at:]...)...)
	script := strings.Join(lines, "\n")
	if r.Intn(3) > 0 {
		script += "\n"
	}
	pos := len([]rune(strings.Join(lines[:at], "\n"))) + 1
	if at > 0 {
		pos++
	}
	line := at + 1
	if r.Intn(4) == 0 {
		// At the end of the input.
		pos = len([]rune(script)) + 1
		line = strings.Count(script, "\n") + 1
	}
	text := []string{"bad thing", "100% wrong", "%!d(x) %w", "syntax error at or near \"%s\"", "multi\nline"}
	msg := text[r.Intn(len(text))]
	detail, hint := "", ""
	if r.Intn(2) == 0 {
		detail = "Key (a)=(" + text[r.Intn(len(text))] + ") exists"
	}
	if r.Intn(3) == 0 {
		hint = "Try " + text[r.Intn(len(text))]
	}
	lock := r.Intn(2) == 0
	var injected error
	located := ""
	var extra []string
	switch {
	case dialect == "postgres" && pg == "postgres":
		e := &pq.Error{Message: msg, Code: "42601", Detail: detail, Hint: hint}
		if lock {
			e.Code = "55P03"
		} else if r.Intn(4) > 0 {
			e.Position = strconv.Itoa(pos)
			located = fmt.Sprintf("line %d: ", line)
		}
		extra = append(extra, detail, hint)
		injected = e
	case dialect == "postgres":
		e := &pgconn.PgError{Severity: "ERROR", Message: msg, Code: []string{"42601", "40001", "57014", "23505"}[r.Intn(4)]}
		if lock {
			e.Code = "55P03"
		}
		injected = e
	case dialect == "mysql":
		e := &mysql.MySQLError{Number: []uint16{1064, 1213, 1062, 3024}[r.Intn(4)], Message: msg}
		if lock {
			e.Number = 1205
		}
		injected = e
	default:
		e := mssql.Error{Number: []int32{102, 1205, 2627, 1204}[r.Intn(4)], Message: msg, LineNo: int32(line)}
		if lock {
			e.Number = 1222
		}
		located = fmt.Sprintf("line %d: ", line)
		if r.Intn(2) == 0 {
			e.All = []mssql.Error{{Message: detail}, e}
			extra = append(extra, detail)
		}
		injected = e
	}
	if r.Intn(6) == 0 {
		// An error that does not come from the server.
		injected, located, extra, lock = []error{io.ErrUnexpectedEOF, errors.New(msg), &net.OpError{Op: "read", Err: errors.New(msg)}}[r.Intn(3)], "", nil, false
		t.Count("foreign_errors", 1)
	}
	if r.Intn(3) == 0 && dialect != "sqlserver" {
		injected = fmt.Errorf("wrapped: %w", injected)
	}
	failures := 1 + r.Intn(3)
	max := 1 + r.Intn(3)
	x := &xRun{t: t, r: r, dialect: dialect, dir: t.Dir(), mon: &Monitor{}, ctx: context.Background()}
	db := x.store()
	_, err := db.Exec("CREATE TABLE effects (seq INTEGER PRIMARY KEY AUTOINCREMENT, tok TEXT)")
	must(err)
	x.write("migrations/01.sql", script)
	if dialect != "sqlite" {
		x.mon.Emu = newEmu(dialect)
	}
	x.connect(false)
	x06Register(pg)
	defer x.done()
	attempts := 0
	x.mon.Before = func(ev *Event) error {
		if strings.Contains(ev.SQL, "INTO effects") {
			attempts++
			if attempts <= failures {
				return injected
			}
		}
		return nil
	}
	// MySQL scripts run without a transaction and are retried only if they
	// are a single statement.
	cmd := &ddl.MigrateCmd{DB: x.db, Dialect: dialect, DirFS: os.DirFS(x.path("migrations")), Stderr: &strings.Builder{}, MaxAttempts: max, BaseDelay: time.Microsecond, MaxDelay: 2 * time.Microsecond}
	name := "01.sql"
	if dialect == "mysql" {
		name = "01.tx.sql"
		must(os.Rename(x.path("migrations/01.sql"), x.path("migrations/"+name)))
	}
	err = cmd.Run()
	x.mon.mu.Lock()
	x.mon.Before = nil
	x.mon.mu.Unlock()
	t.Count("driver_errors", 1)
	t.Sig(fmt.Sprint(dialect, pg, lock, failures, max, located != "", len(extra), msg))
	t.Sample("%s: %v", dialect, err)
	want := 1
	if lock {
		want = failures + 1
		if want > max {
			want = max
		}
	}
	if attempts != want {
		t.Failf("retry", "%s (%s): %#v: %d attempts instead of %d (at most %d): %v", dialect, pg, injected, attempts, want, max, err)
		return
	}
	if want > 1 {
		t.Count("retried", 1)
	}
	if lock && failures < max {
		if err != nil {
			t.Failf("retry", "%s (%s): failed after %d lock timeouts: %v", dialect, pg, failures, err)
		}
		return
	}
	if err == nil {
		t.Failf("lost", "%s (%s): %v is not reported", dialect, pg, injected)
		return
	}
	got := err.Error()
	root := injected
	for errors.Unwrap(root) != nil {
		root = errors.Unwrap(root)
	}
	missing := func(s string) bool { return !strings.Contains(got, s) }
	if missing(injected.Error()) || missing(name) {
		t.Failf("message", "%s (%s): %q does not contain the error %q and the file", dialect, pg, got, injected.Error())
		return
	}
	for _, s := range extra {
		if s != "" && missing(s) {
			t.Failf("detail", "%s (%s): %q does not contain %q", dialect, pg, got, s)
			return
		}
	}
	if located != "" {
		t.Count("located", 1)
		if missing(located) {
			t.Failf("line", "%s (%s): %q does not say %q", dialect, pg, got, located)
			return
		}
	}
	var (
		a *pq.Error
		b *pgconn.PgError
		c *mysql.MySQLError
		d mssql.Error
		e *network.OracleError
		m *ddl.MigrationError
	)
	if !(errors.As(err, &a) || errors.As(err, &b) || errors.As(err, &c) || errors.As(err, &d) || errors.As(err, &e) || errors.Is(err, root)) {
		t.Failf("type", "%s (%s): %T is lost in %v", dialect, pg, root, err)
		return
	}
	if !errors.As(err, &m) || m.Filename != name || m.Contents != script {
		t.Failf("type", "%s (%s): no MigrationError with the script in %v", dialect, pg, err)
	}
}
