package main

// Batched inserts and CSV loading on all four dialects. SQLite stores the
// rows; for the other dialects an emulated server keeps the system catalogs
// the code queries, session variables per connection, the rules about
// identity columns and the limits on parameters.

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
	"github.com/mattn/go-sqlite3"
)

var paramLimits = map[string]int{"sqlite": 32766, "postgres": 65535, "mysql": 65535, "sqlserver": 2100}

type server struct {
	db      *sql.DB
	mon     *Monitor
	emu     *serverEmu // nil for SQLite
	inspect *sql.DB
	schema  string
	overrun string
}

func emuFunctions(c *sqlite3.SQLiteConn) error {
	ident := func(args ...any) any { return args[0] }
	for _, n := range []string{"type_name", "format_type"} {
		if err := c.RegisterFunc(n, ident, true); err != nil {
			return err
		}
	}
	if err := c.RegisterFunc("columnproperty", func(args ...any) any { return int64(0) }, true); err != nil {
		return err
	}
	return c.RegisterFunc("in_array_", func(args ...any) any {
		arr, ok := args[1].(string)
		if !ok {
			if b, ok2 := args[1].([]byte); ok2 {
				arr, ok = string(b), true
			}
		}
		if !ok {
			return nil
		}
		for _, e := range strings.Split(strings.Trim(arr, "{}"), ",") {
			if e == asStr(args[0]) {
				return int64(1)
			}
		}
		return int64(0)
	}, true)
}

func emuQuote(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

// newServer creates the tables and the catalogs of a server.
func newServer(t *T, r *rand.Rand, dialect string, tables []*emuTable) *server {
	dir := t.Dir()
	s := &server{schema: emuSchema(dialect), mon: &Monitor{}}
	store := filepath.Join(dir, "store.sqlite3")
	s.inspect = openSQLite(t, "file:"+store+"?_busy_timeout=60000")
	exec := func(q string, args ...any) {
		_, err := s.inspect.Exec(q, args...)
		if err != nil {
			panic(harnessError(err.Error() + ": " + q))
		}
	}
	for _, tab := range tables {
		q := "CREATE TABLE " + sq3(tab.Name) + " (" + sq3list(tab.Cols)
		if len(tab.PK) > 0 {
			q += ", PRIMARY KEY (" + sq3list(tab.PK) + ")"
		}
		exec(q + ")")
	}
	if dialect == "sqlite" {
		s.db = openMonitored("file:"+store+"?_busy_timeout=60000", s.mon)
	} else {
		s.emu = newEmu(dialect)
		s.emu.tables = map[string]*emuTable{}
		s.emu.seqs = map[string]int64{}
		cat := filepath.Join(dir, "cat.sqlite3")
		catdb := openSQLite(t, "file:"+cat)
		cx := func(q string, args ...any) {
			_, err := catdb.Exec(q, args...)
			if err != nil {
				panic(harnessError(err.Error() + ": " + q))
			}
		}
		switch dialect {
		case "postgres":
			cx("CREATE TABLE pg_namespace (oid, nspname); CREATE TABLE pg_class (oid, relname, relnamespace, relkind); CREATE TABLE pg_attribute (attrelid, attnum, attname, atttypid, atttypmod, attidentity, attisdropped); CREATE TABLE pg_constraint (oid, contype, conrelid, conkey)")
			cx("INSERT INTO pg_namespace VALUES (1, 'public'), (2, 'other')")
		case "mysql":
			cx("CREATE TABLE columns (table_schema, table_name, column_name, column_type, ordinal_position); CREATE TABLE table_constraints (constraint_schema, constraint_name, table_schema, table_name, constraint_type); CREATE TABLE key_column_usage (constraint_schema, constraint_name, table_schema, table_name, column_name, ordinal_position)")
		case "sqlserver":
			cx("CREATE TABLE schemas (schema_id, name); CREATE TABLE tables (object_id, schema_id, name); CREATE TABLE columns (object_id, name, column_id, system_type_id, is_identity); CREATE TABLE indexes (object_id, index_id, is_primary_key, name); CREATE TABLE index_columns (object_id, index_id, column_id)")
			cx("INSERT INTO schemas VALUES (1, 'dbo'), (2, 'other')")
		}
		for i, tab := range tables {
			tab.Schema = s.schema
			s.emu.tables[tab.Name] = tab
			// A table of the same name in another schema, with other columns.
			for k, sch := range []string{s.schema, "other"} {
				oid := 100 + i*10 + k
				uniq := k == 0 && len(tab.Cols) > len(tab.PK)+1
				switch dialect {
				case "postgres":
					cx("INSERT INTO pg_class VALUES (?, ?, ?, 'r')", oid, tab.Name, k+1)
					nums := []string{}
					for j, c := range tab.Cols {
						ident := ""
						if contains(tab.Identity, c) && k == 0 {
							ident = map[bool]string{true: "a", false: "d"}[tab.Always]
						}
						typ := tab.Types[j]
						if k == 1 {
							typ = "bytea"
						}
						cx("INSERT INTO pg_attribute VALUES (?, ?, ?, ?, -1, ?, 0)", oid, j+1, c, typ, ident)
						if contains(tab.PK, c) && k == 0 {
							nums = append(nums, strconv.Itoa(j+1))
						}
					}
					if len(nums) > 0 {
						cx("INSERT INTO pg_constraint VALUES (?, 'p', ?, ?)", oid+5, oid, "{"+strings.Join(nums, ",")+"}")
					}
					if uniq {
						cx("INSERT INTO pg_constraint VALUES (?, 'u', ?, ?)", oid+6, oid, "{"+strconv.Itoa(len(tab.Cols))+"}")
					}
				case "mysql":
					for j, c := range tab.Cols {
						typ := tab.Types[j]
						if k == 1 {
							typ = "blob"
						}
						cx("INSERT INTO columns VALUES (?, ?, ?, ?, ?)", sch, tab.Name, c, typ, j+1)
					}
					if len(tab.PK) > 0 && k == 0 {
						cx("INSERT INTO table_constraints VALUES (?, 'PRIMARY', ?, ?, 'PRIMARY KEY')", sch, sch, tab.Name)
						for j, c := range tab.PK {
							cx("INSERT INTO key_column_usage VALUES (?, 'PRIMARY', ?, ?, ?, ?)", sch, sch, tab.Name, c, j+1)
						}
					}
					if uniq {
						cx("INSERT INTO table_constraints VALUES (?, ?, ?, ?, 'UNIQUE')", sch, "uq"+tab.Name, sch, tab.Name)
						cx("INSERT INTO key_column_usage VALUES (?, ?, ?, ?, ?, 1)", sch, "uq"+tab.Name, sch, tab.Name, tab.Cols[len(tab.Cols)-1])
					}
				case "sqlserver":
					cx("INSERT INTO tables VALUES (?, ?, ?)", oid, k+1, tab.Name)
					pk := 0
					for j, c := range tab.Cols {
						ident := 0
						if contains(tab.Identity, c) && k == 0 {
							ident = 1
						}
						typ := tab.Types[j]
						if k == 1 {
							typ = "varbinary"
						}
						cx("INSERT INTO columns VALUES (?, ?, ?, ?, ?)", oid, c, j+1, typ, ident)
						if contains(tab.PK, c) && k == 0 {
							pk = 1
							cx("INSERT INTO index_columns VALUES (?, 1, ?)", oid, j+1)
						}
					}
					if pk == 1 {
						cx("INSERT INTO indexes VALUES (?, 1, 1, 'pk')", oid)
					} else {
						cx("INSERT INTO indexes VALUES (?, 0, 0, NULL)", oid) // a heap
					}
					if uniq {
						cx("INSERT INTO indexes VALUES (?, 2, 0, 'ix')", oid)
						cx("INSERT INTO index_columns VALUES (?, 2, ?)", oid, len(tab.Cols))
					}
				}
			}
		}
		main := filepath.Join(dir, "main.sqlite3")
		if dialect == "postgres" {
			main = cat
		} else {
			alias := map[string]string{"mysql": "information_schema", "sqlserver": "sys"}[dialect]
			s.mon.InitSQL = append(s.mon.InitSQL, "ATTACH "+emuQuote(cat)+" AS "+alias)
		}
		s.mon.InitSQL = append(s.mon.InitSQL, "ATTACH "+emuQuote(store)+" AS "+s.schema)
		s.mon.Emu = s.emu
		s.mon.OnConnect = emuFunctions
		s.db = openMonitored("file:"+main+"?_busy_timeout=60000&_txlock=immediate&_journal_mode=OFF&_sync=0", s.mon)
	}
	t.Cleanup(func() { s.db.Close() })
	return s
}

// settled reports what the sessions of all connections were left with.
func (s *server) unsettled() []string {
	if s.emu == nil {
		return nil
	}
	var out []string
	s.emu.mu.Lock()
	defer s.emu.mu.Unlock()
	for c := range s.emu.seen {
		if c.closed {
			continue
		}
		for k, v := range c.session {
			if v != s.emu.defaults[k] {
				out = append(out, fmt.Sprintf("connection %d has %s = %q", c.id, k, v))
			}
		}
	}
	sort.Strings(out)
	return out
}

var reQuoted = regexp.MustCompile("'[^']*'|\"[^\"]*\"|`[^`]*`|\\[[^\\]]*\\]")

var rePlaceholder = regexp.MustCompile(`\?|\$\d+|@p\d+`)

// watchLimits records statements that exceed what the server accepts.
func (s *server) watchLimits(dialect string) {
	limit := paramLimits[dialect]
	s.mon.Before = func(ev *Event) error {
		n := len(ev.Args)
		if ev.Kind == "prepare" && dialect != "sqlite" {
			n = len(rePlaceholder.FindAllStringIndex(reQuoted.ReplaceAllString(ev.SQL, "q"), -1))
		}
		if n > limit {
			s.overrun = fmt.Sprintf("a statement has %d parameters, the limit of %s is %d", n, dialect, limit)
			return errServer("too many parameters")
		}
		return nil
	}
}

// --- BatchInsert ---------------------------------------------------------

type bmodel struct {
	cols []string
	pk   []string
	rows [][]any
}

func (m *bmodel) find(row []any) int {
next:
	for i, have := range m.rows {
		for _, k := range m.pk {
			j := indexOf(m.cols, k)
			if asStr(have[j]) != asStr(row[j]) {
				continue next
			}
		}
		return i
	}
	return -1
}

func (m *bmodel) lines() []string {
	var out []string
	for _, row := range m.rows {
		var parts []string
		for i, v := range row {
			parts = append(parts, m.cols[i]+"="+valLine(v))
		}
		out = append(out, strings.Join(parts, " "))
	}
	sort.Strings(out)
	return out
}

func valLine(v any) string {
	switch v := v.(type) {
	case nil:
		return "null:"
	case int:
		return fmt.Sprintf("integer:%X", strconv.Itoa(v))
	case int64:
		return fmt.Sprintf("integer:%X", strconv.FormatInt(v, 10))
	case []byte:
		return fmt.Sprintf("blob:%X", v)
	case string:
		return fmt.Sprintf("text:%X", v)
	}
	panic(harnessError(fmt.Sprintf("value of type %T", v)))
}

var errNext = errors.New("the iterator failed")

var d04Names = []string{"actor", "Film", "order", "a b", "tbl_1", "user", "été", "group"}
var d04Cols = []string{"id", "Name", "order", "a b", "c_1", "from", "x%d", "Última", "select", "v"}

func batchCase(t *T) {
	r := t.Rng
	dialect := []string{"sqlite", "postgres", "mysql", "sqlserver"}[r.Intn(4)]
	tab := &emuTable{Name: d04Names[r.Intn(len(d04Names))]}
	ncols := 1 + r.Intn(5)
	wide := r.Intn(20) == 0
	if wide {
		ncols = 20 + r.Intn(80)
		if r.Intn(4) == 0 {
			ncols = 100 + r.Intn(300)
		}
		if dialect == "sqlserver" && r.Intn(2) == 0 {
			ncols = 82 + r.Intn(12) // 25 rows are about as many parameters as it accepts
		}
	}
	perm := r.Perm(len(d04Cols))
	for i := 0; i < ncols; i++ {
		c := fmt.Sprintf("c%d", i)
		if i < len(perm) {
			c = d04Cols[perm[i]]
		}
		tab.Cols = append(tab.Cols, c)
		tab.Types = append(tab.Types, "text")
	}
	keyed := r.Intn(4) > 0
	if keyed {
		for _, i := range r.Perm(ncols)[:1+r.Intn(atMost(2, ncols))] {
			tab.PK = append(tab.PK, tab.Cols[i])
		}
	}
	if (dialect == "postgres" || dialect == "sqlserver") && r.Intn(2) == 0 {
		c := tab.Cols[r.Intn(ncols)]
		if keyed && r.Intn(2) == 0 {
			c = tab.PK[0]
		}
		tab.Identity = []string{c}
		tab.Always = r.Intn(2) == 0
	}
	s := newServer(t, r, dialect, []*emuTable{tab})
	s.watchLimits(dialect)

	// The columns inserted: all or some of them, in any order.
	var cols []string
	for _, i := range r.Perm(ncols) {
		if wide || contains(tab.PK, tab.Cols[i]) || r.Intn(4) > 0 {
			cols = append(cols, tab.Cols[i])
		}
	}
	if len(cols) == 0 {
		cols = []string{tab.Cols[0]}
	}
	bi := &ddl.BatchInsert{Dialect: dialect, TableSchema: s.schema, TableName: tab.Name, Columns: cols, IdentityColumns: tab.Identity}
	if dialect != "sqlite" && r.Intn(4) == 0 {
		bi.TableSchema = ""
	}
	bi.Batchsize = []int{-3, 0, 1, 2, 3, 7, 24, 25, 26, 100, 500, 4000}[r.Intn(12)]
	upsert := keyed && r.Intn(5) > 0
	if upsert {
		bi.KeyColumns = append([]string(nil), tab.PK...)
	} else if !keyed && r.Intn(6) == 0 {
		// key columns that are not all inserted: a plain insert
		bi.KeyColumns = []string{"no such column"}
	}
	n := []int{0, 1, 2, 3, 5, 8, 24, 25, 26, 49, 50, 51, 60, 130}[r.Intn(14)]
	if wide && r.Intn(4) == 0 {
		n = 400 + r.Intn(1800) // beyond the limit on parameters
	}
	dups := upsert && (dialect == "sqlite" || dialect == "mysql") && r.Intn(2) == 0
	model := &bmodel{cols: tab.Cols, pk: tab.PK}
	keyspace := n + 5
	mkrow := func(key, uniq int) []any {
		row := make([]any, ncols)
		for i, c := range tab.Cols {
			switch {
			case contains(tab.Identity, c):
				row[i] = int64(key)
			case len(tab.PK) > 1 && c == tab.PK[0]:
				// rows share parts of their keys
				row[i] = fmt.Sprintf("k%05d", key/4)
			case len(tab.PK) > 0 && c == tab.PK[0]:
				row[i] = fmt.Sprintf("k%05d", key)
			case contains(tab.PK, c):
				row[i] = fmt.Sprintf("s%d", key%4)
			default:
				switch r.Intn(8) {
				case 0:
					row[i] = nil
				case 1:
					row[i] = []byte{0, byte(uniq), 0xff}
				case 2:
					row[i] = "it's %d %w \\ \" ; " + strconv.Itoa(uniq)
				default:
					row[i] = fmt.Sprintf("v%d.%d", uniq, i)
				}
			}
		}
		return row
	}
	// Existing rows.
	if r.Intn(2) == 0 {
		for k := 0; k < keyspace; k += 1 + r.Intn(6) {
			if len(model.rows) > 20 {
				break
			}
			if keyed && !upsert {
				break
			}
			row := mkrow(k, 9000+k)
			model.rows = append(model.rows, row)
			q := "INSERT INTO " + sq3(tab.Name) + " VALUES (" + strings.TrimSuffix(strings.Repeat("?, ", ncols), ", ") + ")"
			_, err := s.inspect.Exec(q, row...)
			must(err)
		}
	}
	var input [][]any
	for i, k := range r.Perm(keyspace)[:n] {
		if dups && i > 0 && r.Intn(3) == 0 {
			k = r.Intn(keyspace)
		}
		input = append(input, mkrow(k, i))
	}
	conflict := keyed && !upsert && n > 1 && r.Intn(3) == 0
	if conflict {
		input[n-1] = append([]any(nil), input[0]...)
	}
	failNext := -1
	if r.Intn(8) == 0 {
		failNext = r.Intn(n + 1)
	}
	injectAt, fired := -1, false
	if r.Intn(5) == 0 {
		injectAt = r.Intn(5)
	}
	if injectAt >= 0 {
		limit := s.mon.Before
		seen := 0
		s.mon.Before = func(ev *Event) error {
			switch ev.Kind {
			case "exec", "stmtexec", "prepare":
				if seen == injectAt {
					seen++
					fired = true
					return errInjected
				}
				seen++
			}
			return limit(ev)
		}
	}

	// The states after each record.
	prefixes := [][]string{model.lines()}
	inserted, updated := 0, 0
	isCol := map[string]bool{}
	nonKey := 0
	for _, c := range cols {
		isCol[c] = true
		if !contains(tab.PK, c) && !(dialect == "sqlserver" && contains(tab.Identity, c)) {
			nonKey++
		}
	}
	for i, row := range input {
		if conflict && i == n-1 {
			break
		}
		at := -1
		if upsert {
			at = model.find(row)
		}
		if at >= 0 {
			if nonKey > 0 {
				updated++
			}
			have := append([]any(nil), model.rows[at]...)
			for j, c := range tab.Cols {
				if !isCol[c] || contains(tab.PK, c) || dialect == "sqlserver" && contains(tab.Identity, c) {
					continue
				}
				have[j] = row[j]
			}
			model.rows[at] = have
		} else {
			inserted++
			have := make([]any, ncols)
			for j, c := range tab.Cols {
				if isCol[c] {
					have[j] = row[j]
				}
			}
			model.rows = append(model.rows, have)
		}
		if n <= 200 {
			prefixes = append(prefixes, model.lines())
		}
	}
	if n > 200 {
		prefixes = append(prefixes, model.lines())
	}

	var db ddl.DB
	how := []string{"tx", "conn", "db"}[r.Intn(3)]
	ctx := context.Background()
	var finish func(ok bool)
	switch how {
	case "tx":
		tx, err := s.db.Begin()
		must(err)
		db = tx
		finish = func(ok bool) {
			if ok {
				must(tx.Commit())
			} else {
				tx.Rollback()
			}
		}
	case "conn":
		conn, err := s.db.Conn(ctx)
		must(err)
		db = conn
		finish = func(bool) { conn.Close() }
	default:
		s.db.SetMaxOpenConns(1)
		db = s.db
		finish = func(bool) {}
	}
	t.Note("%s %s table %s cols %v pk %v identity %v insert %v keys %v batchsize %d records %d existing %d failNext %d injectAt %d conflict %v", dialect, how, tab.Name, tab.Cols, tab.PK, tab.Identity, cols, bi.KeyColumns, bi.Batchsize, n, len(prefixes[0]), failNext, injectAt, conflict)
	i, eofs := 0, 0
	affected, err := bi.ExecContext(ctx, db, func(row []any) error {
		if len(row) != len(cols) {
			t.Failf("batch-row-length", "the iterator got a row of %d values for %d columns", len(row), len(cols))
		}
		if i == failNext {
			return errNext
		}
		if i >= len(input) {
			eofs++
			return io.EOF
		}
		for j, c := range cols {
			row[j] = input[i][indexOf(tab.Cols, c)]
		}
		i++
		return nil
	})
	s.mon.Before = nil
	finish(err == nil)
	got := exactRows(s.inspect, tab.Name, tab.Cols)
	if s.overrun != "" {
		t.Failf("batch-limit", "%s", s.overrun)
	}
	injected := errors.Is(err, errInjected)
	if err != nil && strings.Contains(err.Error(), "%!") {
		t.Failf("batch-message", "the error message is garbled: %.300s", err.Error())
	}
	switch {
	case failNext >= 0 && !conflict && !injected:
		if !errors.Is(err, errNext) {
			t.Failf("batch-error", "the iterator failed at record %d, ExecContext returned %v", failNext, err)
		}
	case conflict && failNext < 0 && !injected:
		if err == nil {
			t.Failf("batch-error", "a record violates the primary key, ExecContext returned no error")
		}
	case injectAt >= 0 || failNext >= 0:
		if err != nil && !injected && !errors.Is(err, errNext) && !conflict {
			t.Failf("batch-error", "unexpected error %v", err)
		}
		if err == nil && failNext >= 0 {
			t.Failf("batch-error", "the iterator failed, ExecContext returned no error")
		}
	case err != nil:
		t.Failf("batch-error", "ExecContext failed: %v", err)
	}
	if err == nil {
		if !eqStrings(got, prefixes[len(prefixes)-1]) {
			t.Failf("batch-rows", "the table does not hold the records: %s", diffRows(prefixes[len(prefixes)-1], got))
		}
		if i != n || eofs != 1 {
			t.Failf("batch-iterator", "the iterator was read %d of %d times and its end %d times", i, n, eofs)
		}
		if dialect != "mysql" && affected != int64(inserted+updated) {
			t.Failf("batch-affected", "ExecContext returned %d rows affected, %d were inserted and %d updated", affected, inserted, updated)
		}
		if s.emu != nil && dialect == "postgres" && len(tab.Identity) > 0 && isCol[tab.Identity[0]] && len(model.rows) > 0 {
			max := int64(-1)
			j := indexOf(tab.Cols, tab.Identity[0])
			for _, row := range model.rows {
				if v, ok := row[j].(int64); ok && v > max {
					max = v
				}
			}
			if seq, ok := s.emu.seqs[tab.Name+"\x00"+tab.Identity[0]]; !ok || seq != max {
				t.Failf("batch-sequence", "the identity sequence is at %d (set: %v), the highest value is %d", seq, ok, max)
			}
		}
	} else if how == "tx" {
		if !eqStrings(got, prefixes[0]) {
			t.Failf("batch-rollback", "a rolled back batch insert left changes: %s", diffRows(prefixes[0], got))
		}
	} else if n <= 200 && dialect != "sqlserver" {
		// SQL Server updates before it inserts, so a failure may leave the
		// updates of a batch without its inserts.
		ok := false
		for _, p := range prefixes {
			ok = ok || eqStrings(p, got)
		}
		if !ok {
			t.Failf("batch-prefix", "a failed batch insert left rows that are no prefix of the records: %s", diffRows(prefixes[0], got))
		}
	}
	if u := s.unsettled(); len(u) > 0 && !fired {
		t.Failf("batch-session", "after ExecContext returned %v: %v", err, u)
	}
	if _, _, stmts, rows := s.mon.Live(); stmts != 0 || rows != 0 {
		t.Failf("batch-leak", "%d statements and %d result sets are still open", stmts, rows)
	}
	t.Count("batch inserts", 1)
	t.Count("records inserted", n)
	if err != nil {
		t.Count("batch inserts with a failure", 1)
	}
	t.Sig("batch", dialect, how, len(cols), bi.Batchsize, n, upsert, len(tab.Identity), err != nil)
}

// --- load ----------------------------------------------------------------

var d04Types = map[string][]string{
	"postgres":  {"text", "character varying(50)", "bytea", "uuid", "integer", "text[]", "timestamp with time zone", "jsonb", "boolean"},
	"mysql":     {"text", "varchar(255)", "blob", "varbinary(50)", "binary(16)", "int", "json", "datetime", "int unsigned"},
	"sqlserver": {"nvarchar", "varbinary", "binary", "int", "bit", "datetime2", "uniqueidentifier"},
}

// d04Field returns a CSV field and the value the server must be given.
func d04Field(r *rand.Rand, dialect, typ string) (string, any) {
	if r.Intn(8) == 0 {
		return `\N`, nil
	}
	if r.Intn(12) == 0 {
		return "0xnot hex at all"[:2+r.Intn(1)], "0x"[:2]
	}
	switch {
	case typ == "bytea" || typ == "blob" || strings.HasPrefix(typ, "varbinary") || strings.HasPrefix(typ, "binary"):
		b := make([]byte, 1+r.Intn(6))
		r.Read(b)
		return fmt.Sprintf("0x%x", b), b
	case typ == "uuid":
		b := make([]byte, 16)
		r.Read(b)
		text := fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
		if r.Intn(2) == 0 {
			return text, text
		}
		return fmt.Sprintf("0x%x", b), text
	case typ == "text[]":
		switch r.Intn(4) {
		case 0:
			return "[]", "{}"
		case 1:
			return `["a","b c"]`, `{"a","b c"}`
		case 2:
			return `{x,y}`, `{x,y}`
		}
		return `[1,2]`, `{1,2}`
	case typ == "integer" || strings.HasPrefix(typ, "int"):
		n := strconv.Itoa(r.Intn(1000))
		return n, n
	}
	v := []string{"", "x", "0xff", "[1,2]", "a,b", "line\nbreak", `q"uote`, "it's", "日本", "%s", "NULL", "true"}[r.Intn(12)]
	return v, v
}

type d04File struct {
	tab    *emuTable
	cols   []string
	fields [][]string
	values [][]any
	bad    bool
	model  *bmodel
}

func serverLoad(t *T) {
	r := t.Rng
	dialect := []string{"postgres", "mysql", "sqlserver"}[r.Intn(3)]
	var tables []*emuTable
	names := r.Perm(len(d04Names))
	for i := 0; i < 1+r.Intn(4); i++ {
		tab := &emuTable{Name: d04Names[names[i]]}
		perm := r.Perm(len(d04Cols))
		ncols := 1 + r.Intn(5)
		for j := 0; j < ncols; j++ {
			tab.Cols = append(tab.Cols, d04Cols[perm[j]])
			types := d04Types[dialect]
			tab.Types = append(tab.Types, types[r.Intn(len(types))])
		}
		if r.Intn(4) > 0 {
			for _, j := range r.Perm(ncols)[:1+r.Intn(atMost(2, ncols))] {
				tab.PK = append(tab.PK, tab.Cols[j])
				tab.Types[j] = d04Types[dialect][0]
			}
		}
		if dialect != "mysql" && r.Intn(2) == 0 {
			j := r.Intn(ncols)
			tab.Identity = []string{tab.Cols[j]}
			tab.Types[j] = map[string]string{"postgres": "integer", "sqlserver": "int"}[dialect]
			tab.Always = r.Intn(2) == 0
		}
		tab.Child = dialect == "mysql" && r.Intn(2) == 0
		tables = append(tables, tab)
	}
	s := newServer(t, r, dialect, tables)
	s.watchLimits(dialect)
	how := []string{"files", "dir", "zip", "tgz"}[r.Intn(4)]
	batchsize := []int{0, 1, 2, 7, 25, 1000}[r.Intn(6)]
	badFile := -1
	if r.Intn(4) == 0 {
		badFile = r.Intn(len(tables))
	}
	dir := filepath.Join(t.Dir(), "in")
	must(mkdir(dir))
	var arch []archFile
	var files []*d04File
	total := 0
	for i, tab := range tables {
		f := &d04File{tab: tab, bad: i == badFile, model: &bmodel{cols: tab.Cols, pk: tab.PK}}
		for _, j := range r.Perm(len(tab.Cols)) {
			if contains(tab.PK, tab.Cols[j]) || r.Intn(4) > 0 {
				f.cols = append(f.cols, tab.Cols[j])
			}
		}
		if len(f.cols) == 0 {
			f.cols = []string{tab.Cols[0]}
		}
		n := []int{0, 1, 3, 24, 25, 26, 60}[r.Intn(7)]
		existing := map[string]bool{}
		if len(tab.PK) > 0 && r.Intn(2) == 0 {
			// an existing row that one of the records updates
			row := make([]any, len(tab.Cols))
			for j, c := range tab.Cols {
				if contains(tab.PK, c) {
					row[j] = "k0"
				} else {
					row[j] = "old"
				}
				if contains(tab.Identity, c) {
					row[j] = "0"
				}
			}
			f.model.rows = append(f.model.rows, row)
			_, err := s.inspect.Exec("INSERT INTO "+sq3(tab.Name)+" VALUES ("+strings.TrimSuffix(strings.Repeat("?, ", len(row)), ", ")+")", row...)
			must(err)
			existing["k0"] = true
		}
		for k, key := range r.Perm(n + 2)[:n] {
			fields := make([]string, len(f.cols))
			values := make([]any, len(f.cols))
			full := make([]any, len(tab.Cols))
			for j, c := range f.cols {
				typ := tab.Types[indexOf(tab.Cols, c)]
				switch {
				case contains(tab.Identity, c):
					fields[j], values[j] = strconv.Itoa(key), strconv.Itoa(key)
				case contains(tab.PK, c):
					part := key
					if len(tab.PK) > 1 {
						// rows share parts of their keys
						part = key % 4
						if c == tab.PK[0] {
							part = key / 4
						}
					}
					fields[j], values[j] = fmt.Sprintf("k%d", part), fmt.Sprintf("k%d", part)
				default:
					fields[j], values[j] = d04Field(r, dialect, typ)
					if typ != "text" && asStr(values[j]) == "0x" && fields[j] == "0x" {
						// nothing after the prefix: empty bytes on binary columns
						if typ == "bytea" || typ == "blob" || strings.HasPrefix(typ, "varbinary") || strings.HasPrefix(typ, "binary") || typ == "uuid" {
							fields[j], values[j] = "plain", "plain"
						}
					}
				}
				full[indexOf(tab.Cols, c)] = values[j]
			}
			f.fields = append(f.fields, fields)
			f.values = append(f.values, values)
			if f.bad && k == n-1 {
				break
			}
			at := -1
			if len(tab.PK) > 0 {
				at = f.model.find(full)
			}
			if at < 0 {
				f.model.rows = append(f.model.rows, full)
				continue
			}
			for _, c := range f.cols {
				j := indexOf(tab.Cols, c)
				if !contains(tab.PK, c) && !(dialect == "sqlserver" && contains(tab.Identity, c)) {
					f.model.rows[at][j] = full[j]
				}
			}
		}
		total += n
		rows := append([][]string{f.cols}, f.fields...)
		text := renderCSV(r, rows)
		if f.bad {
			text = strings.TrimSuffix(text, "\n") + "\n"
			text += "one,two,three,four,five,six,seven\n"
		}
		name := tab.Name + ".csv"
		if r.Intn(3) == 0 {
			name = s.schema + "." + name
		}
		if r.Intn(3) == 0 {
			name = fmt.Sprintf("%02d_%s", i, name)
		}
		arch = append(arch, archFile{name, text})
		files = append(files, f)
	}
	fkeys := 0
	if dialect == "mysql" && r.Intn(2) == 0 {
		fkeys = 1
		arch = append(arch, archFile{"constraints.sql", "ALTER TABLE a ADD CONSTRAINT a_b_fkey FOREIGN KEY (b) REFERENCES b (b);\n"})
	}
	cancelAt := -1
	if r.Intn(5) == 0 {
		cancelAt = r.Intn(20)
	}
	faultAt := -1
	if cancelAt < 0 && r.Intn(4) == 0 {
		faultAt = r.Intn(25)
	}
	// Or let one of the statements fail that set and restore settings.
	settings := -1
	if faultAt >= 0 && dialect != "sqlite" && r.Intn(3) == 0 {
		faultAt, settings = -1, r.Intn(6)
	} else if fkeys > 0 && cancelAt < 0 && badFile < 0 && r.Intn(6) == 0 {
		faultAt, settings = -1, 2*len(files)+r.Intn(2) // of constraints.sql
	}
	faulted := ""
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	limit := s.mon.Before
	var sets atomicInt
	var seen atomicInt
	s.mon.Before = func(ev *Event) error {
		if ev.Kind != "close" && ev.Kind != "rollback" {
			switch seen.add(1) {
			case cancelAt:
				cancel()
			case faultAt:
				faulted = ev.Kind + " " + ev.SQL
				return errors.New("injected failure")
			}
			if reSetting.MatchString(ev.SQL) && sets.add(1) == settings+1 {
				faulted = ev.Kind + " " + ev.SQL
				t.Count("failed_settings", 1)
				return errors.New("injected failure")
			}
		}
		return limit(ev)
	}
	cmd := &ddl.LoadCmd{DB: s.db, Dialect: dialect, DirFS: os.DirFS(dir), Batchsize: batchsize, Nullstring: `\N`, Binaryprefix: "0x", Stderr: &lockedBuffer{}, Ctx: ctx}
	switch how {
	case "files":
		for _, a := range arch {
			must(os.WriteFile(filepath.Join(dir, a.name), []byte(a.text), 0o644))
			cmd.Filenames = append(cmd.Filenames, a.name)
		}
	case "dir":
		for _, a := range arch {
			must(os.WriteFile(filepath.Join(dir, a.name), []byte(a.text), 0o644))
		}
		cmd.Filenames = []string{"."}
	default:
		writeArchive(filepath.Join(dir, "a."+how), arch)
		cmd.Filenames = []string{"a." + how}
	}
	before := map[string][]string{}
	for _, f := range files {
		before[f.tab.Name] = exactRows(s.inspect, f.tab.Name, f.tab.Cols)
	}
	for _, f := range files {
		t.Note("%s %s batchsize %d: table %s cols %v types %v pk %v identity %v, csv %v, %d records, bad %v, cancel at %d", dialect, how, batchsize, f.tab.Name, f.tab.Cols, f.tab.Types, f.tab.PK, f.tab.Identity, f.cols, len(f.fields), f.bad, cancelAt)
	}
	err := cmd.Run()
	s.mon.Before = nil
	if s.overrun != "" {
		t.Failf("load-limit", "%s", s.overrun)
	}
	if err == nil && badFile >= 0 {
		t.Failf("load-error", "a record has too many fields, load reported success")
	}
	if faulted != "" {
		t.Count("server loads with a fault", 1)
		if err == nil {
			t.Failf("load-fault", "%s failed, load reported success", faulted)
		}
	}
	if err != nil && badFile < 0 && ctx.Err() == nil && faulted == "" {
		t.Failf("load-error", "load failed: %v", err)
	}
	for _, f := range files {
		got := exactRows(s.inspect, f.tab.Name, f.tab.Cols)
		want := f.model.lines()
		switch {
		case f.bad:
			if !eqStrings(got, before[f.tab.Name]) {
				t.Failf("load-partial", "%s failed to load and was changed: %s", f.tab.Name, diffRows(before[f.tab.Name], got))
			}
		case err == nil && !eqStrings(got, want):
			t.Failf("load-rows", "%s does not hold the records: %s", f.tab.Name, diffRows(want, got))
		case err != nil && !eqStrings(got, want) && !eqStrings(got, before[f.tab.Name]):
			t.Failf("load-partial", "%s was loaded in part: %s", f.tab.Name, diffRows(want, got))
		}
	}
	if n := countOf(s.emu.sets, "fk=added"); err == nil && n != fkeys {
		t.Failf("load-constraints", "constraints.sql ran %d times, want %d", n, fkeys)
	}
	if u := s.unsettled(); len(u) > 0 && faulted == "" {
		t.Failf("load-session", "load returned %v and left: %v", err, u)
	}
	if _, txs, stmts, rows := s.mon.Live(); txs != 0 || stmts != 0 || rows != 0 {
		t.Failf("load-leak", "%d transactions, %d statements and %d result sets are still open", txs, stmts, rows)
	}
	t.Count("server loads", 1)
	t.Count("CSV records", total)
	if err != nil {
		t.Count("server loads that failed", 1)
	}
	t.Sig("load", dialect, how, batchsize, len(files), total, err != nil)
}

// duplicateKeys: two records with the same key within one batch.
func duplicateKeys(dialect string) func(t *T) {
	return func(t *T) {
		tab := &emuTable{Name: "actor", Cols: []string{"id", "name"}, Types: []string{d04Types[dialect][0], d04Types[dialect][0]}, PK: []string{"id"}}
		s := newServer(t, t.Rng, dialect, []*emuTable{tab})
		s.emu.onceOnly = dialect == "postgres"
		dir := filepath.Join(t.Dir(), "in")
		must(mkdir(dir))
		must(os.WriteFile(filepath.Join(dir, "actor.csv"), []byte("id,name\n1,a\n2,b\n1,c\n"), 0o644))
		cmd := &ddl.LoadCmd{DB: s.db, Dialect: dialect, DirFS: os.DirFS(dir), Filenames: []string{"actor.csv"}, Stderr: &lockedBuffer{}}
		err := cmd.Run()
		got := exactRows(s.inspect, "actor", []string{"id", "name"})
		want := []string{"id=text:31 name=text:63", "id=text:32 name=text:62"}
		if err != nil || !eqStrings(got, want) {
			t.Failf("duplicate-keys", "loading two records with the same key: %v, rows %v", err, got)
		}
		t.Sig("dup", dialect)
	}
}

func init() {
	register(&Prop{
		ID:    "D04",
		Level: "exploration",
		Rule:  "a batch insert or load with a distinct combination of dialect, handle, columns, batch size, record count, keys and outcome",
		Assumptions: []string{
			"Postgres, MySQL and SQL Server are emulated: SQLite stores the rows, the harness keeps catalogs, sessions, identity rules and parameter limits",
		},
		MinCounts: map[string]int64{"batch inserts": 1000, "records inserted": 20000, "server loads": 500, "batch inserts with a failure": 100, "server loads that failed": 50, "server loads with a fault": 50},
		Cases: func(tier string, seed int64) []Case {
			var cs []Case
			for _, d := range []string{"postgres", "mysql", "sqlserver"} {
				cs = append(cs, Case{ID: "duplicate/" + d, Run: duplicateKeys(d)})
			}
			cs = append(cs, manyCases("batch", tierN(tier, 3000, 40000), batchCase)...)
			return append(cs, manyCases("load", tierN(tier, 2000, 30000), serverLoad)...)
		},
	})
}

func countOf(list []string, s string) (n int) {
	for _, x := range list {
		if x == s {
			n++
		}
	}
	return n
}

var reSetting = regexp.MustCompile(`(?i)^\s*SET\s`)
