package main

// D01: a dump loaded into an empty database gives the same database.

import (
	"bytes"
	"database/sql"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/bokwoon95/sqddl/ddl"
)

// lockedBuffer is a writer that can be shared between goroutines.
type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

var hostileTexts = []string{
	"", "a", "NULL", "null", `\n`, `\\N`, `\NN`, `N`, "0x", "0x00ff", "0xzz", `"`, `""`, `"quoted"`, `a"b`, "'", "it's", "a,b", ",", "line1\nline2", "\n", "trailing\n",
	" lead", "trail ", "\ttab\t", "ünï ✓ 日本", `back\slash`, `\.`, "#hash", "-- comment", "{}", "[1,2]", "%d %s", "a\rb", "\x01\x02", "1e5", "007", "true", "=1+1", strings.Repeat("long ", 300), ";", " ", "\ufeffbom",
}

func genText(r *rand.Rand) string {
	if r.Intn(3) > 0 {
		return hostileTexts[r.Intn(len(hostileTexts))]
	}
	alphabet := []string{"a", "B", "7", ",", `"`, "'", "\n", " ", "\\", "é", "日", ";", "{", "}", "%", "\t", "N"}
	var b strings.Builder
	for n := r.Intn(12); n > 0; n-- {
		b.WriteString(alphabet[r.Intn(len(alphabet))])
	}
	return b.String()
}

var hostileInts = []int64{0, 1, -1, 42, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, 999999999999}
var hostileFloats = []float64{0.5, -0.25, 3.14159, 1e-7, 1.5e300, 2.2250738585072014e-308, 123456789.123, 1e15 + 0.5, 0.1, 1.0 / 3.0}

// genValue returns a value of the declared type of a SQLite column.
func genValue(r *rand.Rand, typ string, intTimes bool) any {
	base := strings.ToUpper(typ)
	if i := strings.IndexByte(base, '('); i >= 0 {
		base = base[:i]
	}
	day := func() string {
		return fmt.Sprintf("%04d-%02d-%02d", 1970+r.Intn(130), 1+r.Intn(12), 1+r.Intn(28))
	}
	clock := func() string { return fmt.Sprintf("%02d:%02d:%02d", r.Intn(24), r.Intn(60), r.Intn(60)) }
	switch base {
	case "INT", "INTEGER", "BIGINT":
		if r.Intn(2) == 0 {
			return hostileInts[r.Intn(len(hostileInts))]
		}
		return r.Int63() - r.Int63()
	case "REAL", "NUMERIC", "DOUBLE PRECISION":
		if r.Intn(2) == 0 {
			return hostileFloats[r.Intn(len(hostileFloats))]
		}
		return r.NormFloat64() * math.Pow(10, float64(r.Intn(40)-20))
	case "BOOLEAN":
		return int64(r.Intn(2))
	case "DATE":
		if intTimes {
			return int64(r.Intn(2000000000))
		}
		return day()
	case "DATETIME", "TIMESTAMP":
		if intTimes {
			return int64(r.Intn(2000000000))
		}
		s := day() + " " + clock()
		switch r.Intn(4) {
		case 0:
			s += fmt.Sprintf(".%03d", 1+r.Intn(999))
			s = strings.TrimRight(s, "0")
		case 1:
			s += fmt.Sprintf(".%06d", 1+r.Intn(999999))
			s = strings.TrimRight(s, "0")
		}
		return s
	case "BLOB":
		b := make([]byte, r.Intn(20))
		r.Read(b)
		return b
	case "UUID":
		b := make([]byte, 16)
		r.Read(b)
		if r.Intn(2) == 0 {
			return b
		}
		return fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
	case "JSON":
		return []string{"{}", "[]", `{"a": "b,c"}`, `[1, 2, "x\ny"]`, `{"q": "\"quoted\""}`, `"str"`}[r.Intn(6)]
	}
	return genText(r)
}

// fillTyped inserts rows with values of the declared types. Rows that break a
// constraint are skipped.
func fillTyped(t *T, db *sql.DB, tab *mTable, n int, intTimes bool, ok func(v any) bool) int {
	done := 0
	for i := 0; i < n; i++ {
		var names, marks []string
		var args []any
		for _, c := range tab.Cols {
			var v any
			if t.Rng.Intn(6) > 0 {
				v = genValue(t.Rng, tab.wantType("sqlite", c), intTimes)
				switch v.(type) {
				case int64, float64:
					// SQLite columns of numbers hold anything.
					if typ := tab.wantType("sqlite", c); t.Rng.Intn(12) == 0 && typ != "BOOLEAN" && !strings.HasPrefix(typ, "DATE") && typ != "TIMESTAMP" {
						v = []any{genText(t.Rng), hostileFloats[t.Rng.Intn(len(hostileFloats))], "n/a"}[t.Rng.Intn(3)]
						t.Count("odd_values", 1)
					}
				}
				if f, isFloat := v.(float64); isFloat {
					// SQLite itself does not read every decimal exactly.
					var back float64
					must(db.QueryRow("SELECT CAST(? AS REAL)", strconv.FormatFloat(f, 'g', -1, 64)).Scan(&back))
					if back != f {
						v = nil
					}
				}
				if !ok(v) {
					v = nil
				}
			}
			if v == nil && c.Default != "" && !(intTimes && c.Field == "TimeField") && t.Rng.Intn(2) == 0 {
				continue
			}
			names = append(names, sq3(c.Name))
			marks = append(marks, "?")
			args = append(args, v)
		}
		q := "INSERT INTO " + sq3(tab.Name) + " (" + strings.Join(names, ", ") + ") VALUES (" + strings.Join(marks, ", ") + ")"
		if len(names) == 0 {
			q = "INSERT INTO " + sq3(tab.Name) + " DEFAULT VALUES"
		}
		if _, err := db.Exec(q, args...); err == nil {
			done++
		}
	}
	return done
}

// exactRows returns the rows of a table with storage classes and exact bytes.
func exactRows(db querier, table string, cols []string) []string {
	var q []string
	for _, c := range cols {
		n := sq3(c)
		q = append(q, "typeof("+n+") || ':' || CASE typeof("+n+") WHEN 'real' THEN quote("+n+") WHEN 'null' THEN '' ELSE hex("+n+") END")
	}
	var out []string
	for _, row := range queryAll(db, "SELECT "+strings.Join(q, ", ")+" FROM "+sq3(table)) {
		var parts []string
		for i, v := range row {
			parts = append(parts, cols[i]+"="+asStr(v))
		}
		out = append(out, strings.Join(parts, " "))
	}
	sort.Strings(out)
	return out
}

func colNames(o *obsTable) []string {
	var out []string
	for _, n := range o.Order {
		if o.Cols[n].Hidden != 1 {
			out = append(out, n)
		}
	}
	return out
}

// normSQL removes the differences in layout between two CREATE statements.
func normSQL(s string) string { return strings.TrimRight(strings.Join(strings.Fields(s), " "), "; ") }

type tableFilter struct{ tables, exclude []string }

func (f tableFilter) has(name string) bool {
	if len(f.tables) > 0 {
		return contains(f.tables, name)
	}
	return !contains(f.exclude, name)
}

// extraDDL adds structure that the schema model does not have.
func extraDDL(r *rand.Rand) []string {
	all := [][]string{
		{`CREATE TABLE "gen" ("id" INTEGER PRIMARY KEY, "a" INT, "b" INT GENERATED ALWAYS AS ("a" * 2) STORED, "c" TEXT GENERATED ALWAYS AS ('x' || "a") VIRTUAL, "d" TEXT)`,
			`INSERT INTO "gen" ("id", "a", "d") VALUES (1, 5, 'p'), (2, NULL, 'q'), (7, -3, NULL)`},
		{`CREATE TABLE "chk" ("id" INTEGER PRIMARY KEY, "n" INT CHECK ("n" > 0), "s" TEXT COLLATE NOCASE UNIQUE, CONSTRAINT "long" CHECK (length("s") < 100))`,
			`INSERT INTO "chk" VALUES (1, 5, 'Ab'), (2, NULL, 'cd')`,
			`CREATE INDEX "chk_part" ON "chk" ("n") WHERE "n" > 3`,
			`CREATE INDEX "chk_expr" ON "chk" (lower("s"), "n" DESC)`},
		{`CREATE TABLE "norow" ("k1" TEXT, "k2" INT, "v" TEXT, PRIMARY KEY ("k2", "k1")) WITHOUT ROWID`,
			`INSERT INTO "norow" VALUES ('a', 1, 'x'), ('a', 2, NULL), ('b', 1, '')`},
		{`CREATE TABLE "onlytext" ("t" TEXT)`, `INSERT INTO "onlytext" VALUES ('x'), (''), (NULL), (''), ('y')`},
		{`CREATE TABLE "empty one" ("id" INTEGER PRIMARY KEY, "x" TEXT)`},
		{`CREATE TABLE "cyc1" ("id" INTEGER PRIMARY KEY, "o" INT REFERENCES "cyc2" ("id"))`, `CREATE TABLE "cyc2" ("id" INTEGER PRIMARY KEY, "o" INT REFERENCES "cyc1" ("id"))`,
			`INSERT INTO "cyc1" VALUES (1, 10), (2, 11)`, `INSERT INTO "cyc2" VALUES (10, 2), (11, 1)`},
		{`CREATE TABLE "selfref" ("id" INTEGER PRIMARY KEY, "up" INT REFERENCES "selfref" ("id"))`, `INSERT INTO "selfref" VALUES (1, 3), (2, 1), (3, NULL)`},
		{`CREATE TABLE "sqddl_history" ("filename" VARCHAR(255) PRIMARY KEY NOT NULL, "checksum" VARCHAR(64), "started_at" DATETIME, "time_taken_ns" BIGINT, "success" BOOLEAN)`,
			`INSERT INTO "sqddl_history" VALUES ('001.sql', 'abc', '2001-01-01 00:00:00', 5, 1)`},
		{`CREATE TABLE "_lead" ("id" INTEGER PRIMARY KEY, "x" TEXT)`, `INSERT INTO "_lead" VALUES (1, 'a')`},
		{`CREATE VIRTUAL TABLE "search" USING fts5("title", "body")`, `INSERT INTO "search" VALUES ('t', 'b')`},
		{`CREATE TABLE "many" ("id" INTEGER PRIMARY KEY, "v" TEXT, "w" REAL)`,
			`WITH RECURSIVE c(x) AS (SELECT 1 UNION ALL SELECT x + 1 FROM c WHERE x < 2300) INSERT INTO "many" SELECT x, 'v' || (x * 7), x / 3.0 FROM c`},
	}
	var out []string
	for _, group := range all {
		p := 4
		if strings.Contains(group[0], "many") {
			p = 25
		}
		if r.Intn(p) == 0 {
			out = append(out, group...)
		}
	}
	return out
}

func roundTrip(t *T) {
	r := t.Rng
	dir := t.Dir()
	srcPath, dstPath := filepath.Join(dir, "src.sqlite3"), filepath.Join(dir, "dst.sqlite3")
	src := openSQLite(t, "file:"+srcPath)
	if r.Intn(4) == 0 {
		src.SetMaxOpenConns(1)
	}
	schema := newSgen(r).schema()
	for _, tab := range schema.Tables {
		for _, q := range tab.sqliteCreate() {
			_, err := src.Exec(q)
			must(err)
		}
	}
	for _, q := range extraDDL(r) {
		_, err := src.Exec(q)
		must(err)
	}
	nullstring, binaryprefix := `\N`, "0x"
	custom := r.Intn(5) == 0
	if custom {
		nullstring = []string{"NULL", "<nil>", `\NN`, ""}[r.Intn(3)]
		binaryprefix = []string{`\x`, "hex:", "0x"}[r.Intn(3)]
	}
	intTimes := r.Intn(5) == 0
	total := 0
	for _, tab := range schema.Tables {
		n := []int{0, 1, 3, 10, 30}[r.Intn(5)]
		total += fillTyped(t, src, tab, n, intTimes, func(v any) bool { s, ok := v.(string); return !ok || s != nullstring })
	}
	want := readSQLite(src)
	all := []string{}
	for n := range want.Tables {
		if !strings.HasPrefix(n, "search_") { // kept by the virtual table
			all = append(all, n)
		}
	}
	sort.Strings(all)

	var filter tableFilter
	switch r.Intn(6) {
	case 0:
		for _, n := range all {
			if r.Intn(2) == 0 && n != "sqddl_history" && !strings.Contains(n, ",") {
				filter.tables = append(filter.tables, n)
			}
		}
	case 1:
		for _, n := range all {
			if r.Intn(3) == 0 && !strings.Contains(n, ",") {
				filter.exclude = append(filter.exclude, n)
			}
		}
	}
	dumped := []string{}
	for _, n := range all {
		if n != "sqddl_history" && filter.has(n) {
			dumped = append(dumped, n)
		}
	}

	format := []string{"dir", "zip", "tgz"}[r.Intn(3)]
	cli := r.Intn(3) == 0
	split := r.Intn(4) == 0 // a schema-only dump and a data-only dump
	out := filepath.Join(dir, "out")
	dump := func(out string, schemaOnly, dataOnly bool) bool {
		var cmd *ddl.DumpCmd
		if cli {
			args := []string{"-db", "sqlite:" + srcPath, "-output-dir", out}
			if format != "dir" {
				args = append(args, "-"+format, "arch."+format)
			}
			if schemaOnly {
				args = append(args, "-schema-only")
			}
			if dataOnly {
				args = append(args, "-data-only")
			}
			if len(filter.tables) > 0 {
				args = append(args, "-tables", strings.Join(filter.tables, ","))
			}
			if len(filter.exclude) > 0 {
				args = append(args, "-exclude-tables", strings.Join(filter.exclude, ","))
			}
			if custom {
				args = append(args, "-nullstring", nullstring, "-binaryprefix", binaryprefix)
			}
			var err error
			if cmd, err = ddl.DumpCommand(args...); err != nil {
				t.Failf("dump-error", "DumpCommand(%q): %v", args, err)
				return false
			}
		} else {
			cmd = &ddl.DumpCmd{DB: src, Dialect: "sqlite", OutputDir: out, SchemaOnly: schemaOnly, DataOnly: dataOnly, Tables: filter.tables, ExcludeTables: filter.exclude}
			switch format {
			case "zip":
				cmd.Zip = "arch.zip"
			case "tgz":
				cmd.Tgz = "arch.tgz"
			}
			if custom {
				cmd.Nullstring, cmd.Binaryprefix = nullstring, binaryprefix
			}
		}
		cmd.Stderr = &lockedBuffer{}
		if err := cmd.Run(); err != nil {
			t.Failf("dump-error", "dump to %s failed: %v", format, err)
			return false
		}
		t.Count("dumps", 1)
		// A part of the dump has only the files of that part.
		for name := range x01Tree(out) {
			if schemaOnly && strings.HasSuffix(name, ".csv") || dataOnly && (strings.HasSuffix(name, ".sql") || strings.HasSuffix(name, ".json")) {
				t.Failf("dump-part", "the %s dump (schema only: %v, data only: %v) has %s", format, schemaOnly, dataOnly, name)
				return false
			}
		}
		return true
	}
	before := dbImage(src, want)
	var outs []string
	if split {
		outs = []string{out + "1", out + "2"}
		if !dump(outs[0], true, false) || !dump(outs[1], false, true) {
			return
		}
	} else {
		outs = []string{out}
		if !dump(out, false, false) {
			return
		}
	}
	if after := dbImage(src, readSQLite(src)); after != before {
		t.Failf("dump-writes", "dumping changed the source database:\n%s\n%s", before, after)
		return
	}

	fk := []string{"0", "1"}[r.Intn(2)]
	dst := openSQLite(t, "file:"+dstPath+"?_foreign_keys="+fk)
	loadCLI := r.Intn(3) == 0
	batch := []int{0, 1, 2, 7, 100}[r.Intn(5)]
	load := func(base string, names ...string) bool {
		var cmd *ddl.LoadCmd
		if loadCLI {
			args := []string{"-db", "sqlite:" + dstPath + "?_foreign_keys=" + fk, "-dir", base}
			if batch > 0 {
				args = append(args, "-batchsize", fmt.Sprint(batch))
			}
			if intTimes {
				args = append(args, "-timestamp-as-integer")
			}
			if custom {
				args = append(args, "-nullstring", nullstring, "-binaryprefix", binaryprefix)
			}
			var err error
			if cmd, err = ddl.LoadCommand(append(args, names...)...); err != nil {
				t.Failf("load-error", "LoadCommand(%q): %v", append(args, names...), err)
				return false
			}
		} else {
			cmd = &ddl.LoadCmd{DB: dst, Dialect: "sqlite", DirFS: os.DirFS(base), Filenames: names, Batchsize: batch, TimestampAsInteger: intTimes}
			if custom {
				cmd.Nullstring, cmd.Binaryprefix = nullstring, binaryprefix
			}
		}
		cmd.Stderr = &lockedBuffer{}
		if err := cmd.Run(); err != nil {
			t.Failf("load-error", "loading %v from a %s dump failed: %v", names, format, err)
			return false
		}
		t.Count("loads", 1)
		return true
	}
	files := format == "dir" && !split && r.Intn(3) == 0
	for _, o := range outs {
		switch {
		case files:
			names := []string{"schema.sql"}
			var csvs []string
			for _, n := range listSQL(o) {
				if strings.HasSuffix(n, ".csv") {
					if r.Intn(3) == 0 {
						nn := fmt.Sprintf("%02d_%s", len(csvs), n)
						must(os.Rename(filepath.Join(o, n), filepath.Join(o, nn)))
						n = nn
					}
					csvs = append(csvs, n)
				}
			}
			r.Shuffle(len(csvs), func(i, j int) { csvs[i], csvs[j] = csvs[j], csvs[i] })
			names = append(append(names, csvs...), "indexes.sql", "constraints.sql")
			if !load(o, names...) {
				return
			}
		case format == "dir":
			if !load(dir, filepath.Base(o)) {
				return
			}
		default:
			if !load(o, "arch."+format) {
				return
			}
		}
	}
	check := func(when string) bool {
		got := readSQLite(dst)
		for n := range got.Tables {
			if !contains(dumped, n) && !strings.HasPrefix(n, "search_") {
				t.Failf("extra-table", "%s: table %q was not selected by the dump but exists after the load", when, n)
			}
		}
		for _, n := range dumped {
			w, g := want.Tables[n], got.Tables[n]
			if g == nil {
				t.Failf("missing-table", "%s: table %q is missing", when, n)
				continue
			}
			if normSQL(w.SQL) != normSQL(g.SQL) {
				for _, d := range diffSchema(&obsSchema{Tables: map[string]*obsTable{n: w}}, &obsSchema{Tables: map[string]*obsTable{n: g}}) {
					t.Failf("structure", "%s: %s", when, d)
				}
				if !t.Failed() {
					t.Failf("structure", "%s: table %q was\n%s\nand is\n%s", when, n, w.SQL, g.SQL)
				}
			}
			if wi, gi := fmt.Sprint(w.Idxs), fmt.Sprint(g.Idxs); wi != gi {
				t.Failf("indexes", "%s: table %q had indexes %s, has %s", when, n, wi, gi)
			}
			if strings.HasPrefix(w.SQL, "CREATE VIRTUAL") {
				continue
			}
			wr, gr := exactRows(src, n, colNames(w)), exactRows(dst, n, colNames(w))
			if !eqStrings(wr, gr) {
				t.Failf("rows", "%s: table %q (%s): %s", when, n, w.SQL, diffRows(wr, gr))
			}
			t.Count("rows compared", len(wr))
			t.Count("tables compared", 1)
		}
		return !t.Failed()
	}
	if !check("after the load") {
		return
	}
	// Tables with a primary key can be loaded again without any change.
	again := len(dumped) > 0
	for _, n := range dumped {
		pk := want.Tables[n].PK
		again = again && len(pk) > 0
		for _, k := range pk {
			c := want.Tables[n].Cols[k]
			again = again && (c.NotNull || (len(pk) == 1 && c.Type == "INTEGER"))
		}
	}
	if again && format == "dir" && !files {
		o := outs[len(outs)-1]
		for _, n := range []string{"schema.sql", "indexes.sql", "constraints.sql"} {
			os.Remove(filepath.Join(o, n))
		}
		if !load(dir, filepath.Base(o)) || !check("after loading the data again") {
			return
		}
		t.Count("repeated loads", 1)
	}
	if rows := queryAll(dst, "PRAGMA foreign_keys"); asStr(rows[0][0]) != fk {
		t.Failf("foreign_keys", "foreign_keys is %v after the load, it was %s", rows[0][0], fk)
	}
	t.Sig(format, cli, loadCLI, split, files, custom, intTimes, len(dumped), total > 0)
}

// dbImage is everything stored in a database.
func dbImage(db querier, o *obsSchema) string {
	var names []string
	for n := range o.Tables {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		b.WriteString(n + " " + o.Tables[n].SQL + " " + fmt.Sprint(o.Tables[n].Idxs) + "\n")
		for _, row := range exactRows(db, n, colNames(o.Tables[n])) {
			b.WriteString("  " + row + "\n")
		}
	}
	return b.String()
}

// diffRows describes the difference between two sorted lists of rows.
func diffRows(want, got []string) string {
	count := map[string]int{}
	for _, r := range want {
		count[r]++
	}
	for _, r := range got {
		count[r]--
	}
	var lost, extra []string
	for r, n := range count {
		for ; n > 0; n-- {
			lost = append(lost, r)
		}
		for ; n < 0; n++ {
			extra = append(extra, r)
		}
	}
	sort.Strings(lost)
	sort.Strings(extra)
	if len(lost) > 3 {
		lost = append(lost[:3], "…")
	}
	if len(extra) > 3 {
		extra = append(extra[:3], "…")
	}
	return fmt.Sprintf("%d rows expected, %d found; lost %v, unexpected %v", len(want), len(got), lost, extra)
}

// oneTable dumps and loads a database with one table with one text column.
func oneTable(table, text string) func(t *T) {
	return func(t *T) {
		for _, format := range []string{"dir", "zip", "tgz"} {
			dir := filepath.Join(t.Dir(), format)
			must(mkdir(dir))
			src := openSQLite(t, "file:"+filepath.Join(dir, "src.sqlite3"))
			dst := openSQLite(t, "file:"+filepath.Join(dir, "dst.sqlite3"))
			_, err := src.Exec("CREATE TABLE " + sq3(table) + " (id INTEGER PRIMARY KEY, x TEXT)")
			must(err)
			_, err = src.Exec("INSERT INTO "+sq3(table)+" VALUES (1, ?)", text)
			must(err)
			dump := &ddl.DumpCmd{DB: src, Dialect: "sqlite", OutputDir: filepath.Join(dir, "a", "b", "out"), Stderr: &lockedBuffer{}}
			load := &ddl.LoadCmd{DB: dst, Dialect: "sqlite", DirFS: os.DirFS(dump.OutputDir), Filenames: []string{"arch." + format}, Stderr: &lockedBuffer{}}
			switch format {
			case "dir":
				load.DirFS, load.Filenames = os.DirFS(filepath.Join(dir, "a", "b")), []string{"out"}
			case "zip":
				dump.Zip = "arch.zip"
			case "tgz":
				dump.Tgz = "arch.tgz"
			}
			if err := dump.Run(); err != nil {
				t.Failf("one-table", "%s: dump failed: %v", format, err)
				continue
			}
			if err := load.Run(); err != nil {
				t.Failf("one-table", "%s: load failed: %v", format, err)
				continue
			}
			o := readSQLite(dst)
			if o.Tables[table] == nil {
				t.Failf("one-table", "%s: table %q is missing", format, table)
				continue
			}
			wr, gr := exactRows(src, table, []string{"id", "x"}), exactRows(dst, table, []string{"id", "x"})
			if !eqStrings(wr, gr) {
				t.Failf("one-table", "%s: %s", format, diffRows(wr, gr))
			}
			t.Count("rows compared", len(wr))
			t.Sig("one", format, table, text)
		}
	}
}

// singleQuoted: SQLite accepts a name in single quotes in CREATE TABLE.
func singleQuoted(t *T) {
	dir := t.Dir()
	src := openSQLite(t, "file:"+filepath.Join(dir, "src.sqlite3"))
	_, err := src.Exec("CREATE TABLE 'plain' (id INTEGER PRIMARY KEY, x TEXT)")
	must(err)
	_, err = src.Exec("INSERT INTO plain VALUES (1, 'a')")
	must(err)
	dump := &ddl.DumpCmd{DB: src, Dialect: "sqlite", OutputDir: filepath.Join(dir, "out"), Stderr: &lockedBuffer{}}
	if err := dump.Run(); err != nil {
		t.Failf("one-table", "dump failed: %v", err)
		return
	}
	if !exists(filepath.Join(dir, "out", "plain.csv")) {
		t.Failf("one-table", "the table is not in the dump")
	}
}

func manyCases(prefix string, n int, f func(t *T)) []Case {
	var out []Case
	for i := 0; i < n; i++ {
		out = append(out, Case{ID: fmt.Sprintf("%s/%05d", prefix, i), Run: f})
	}
	return out
}

func init() {
	register(&Prop{
		ID:    "D01",
		Level: "exploration",
		Rule:  "a dump and load of a generated database with a distinct combination of archive format, entry points, flags and tables",
		Assumptions: []string{
			"only SQLite runs here; the values are of the declared type of their column, are not the null string, and have no CR LF pairs",
		},
		Cases: func(tier string, seed int64) []Case {
			out := []Case{
				{"text/crlf", oneTable("t", "line1\r\nline2")},
				{"name/digits-underscore", oneTable("2020_sales", "x")},
				{"name/dot", oneTable("a.b", "x")},
				{"name/slash", oneTable("a/b", "x")},
				{"name/created-in-single-quotes", singleQuoted},
			}
			for i, s := range []string{"_x", "__", "9", "9lives", "schema", "indexes", "csv", "-", "a b", "UPPER", "é", "a'b", "a\"b", "%41", "a\\b", "#1", "sqlite"} {
				out = append(out, Case{fmt.Sprintf("name/%02d", i), oneTable(s, "x")})
			}
			for i, s := range hostileTexts {
				out = append(out, Case{fmt.Sprintf("text/%02d", i), oneTable("t", s)})
			}
			return append(out, manyCases("round-trip", tierN(tier, 3000, 40000), roundTrip)...)
		},
		MinCounts: map[string]int64{"odd_values": 50, "dumps": 2000, "loads": 2000, "rows compared": 20000, "tables compared": 4000, "repeated loads": 100},
	})
}
