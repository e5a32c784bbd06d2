package main

// D03: what a load does, against a reference that applies the CSV records one
// by one, and against the documented order of files in directories and
// archives.

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"compress/gzip"
	"context"
	"database/sql"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/bokwoon95/sqddl/ddl"
)

// csvTable is a table that CSV files are loaded into.
type csvTable struct {
	name   string
	create string
	cols   []string
	types  []string // TEXT, INT, BLOB, …
	pk     []string
}

func genCSVTable(r *rand.Rand, name string) *csvTable {
	t := &csvTable{name: name}
	kinds := []string{"TEXT", "INT", "BLOB", "UUID", "VARCHAR(20)", "REAL", "DATETIME", "DATE", "timestamp", "BOOLEAN", "varbinary(20)"}
	names := []string{"id", "k2", "a", "b b", "select", "ünï", "D"}
	n := 2 + r.Intn(5)
	var defs []string
	for i := 0; i < n; i++ {
		typ := kinds[r.Intn(len(kinds))]
		if i < 2 {
			typ = []string{"INTEGER", "TEXT", "INT"}[r.Intn(3)]
		}
		t.cols = append(t.cols, names[i])
		t.types = append(t.types, typ)
		d := sq3(names[i]) + " " + typ
		if i >= 2 {
			switch r.Intn(8) {
			case 0:
				d += " NOT NULL"
			case 1:
				d += " NOT NULL DEFAULT 'dflt'"
			case 2:
				d += " DEFAULT 'other'"
			case 3:
				d += " UNIQUE"
			}
		}
		defs = append(defs, d)
	}
	switch r.Intn(5) {
	case 0:
	case 1:
		t.pk = []string{"id", "k2"}
	case 2:
		t.pk = []string{"k2", "id"}
	default:
		t.pk = []string{"id"}
	}
	if len(t.pk) > 0 {
		defs = append(defs, "PRIMARY KEY ("+sq3list(t.pk)+")")
	}
	t.create = "CREATE TABLE " + sq3(name) + " (" + strings.Join(defs, ", ") + ")"
	return t
}

// csvFile is a CSV file with the values it stands for.
type csvFile struct {
	name    string
	table   *csvTable
	header  []string
	records [][]string
	text    string
}

type csvOpts struct {
	nullstring, binaryprefix string
	noNull, noBinary         bool
	unix                     bool // timestamps are loaded as integers
}

var reCSVTime = regexp.MustCompile(`^(\d{4}-\d\d-\d\d)(?:[ T](\d\d):(\d\d)(?::(\d\d)(?:\.\d+)?(?:([+-])(\d\d):(\d\d))?)?)?Z?$`)

func (o csvOpts) value(typ, field string) (any, error) {
	if !o.noNull && field == o.nullstring {
		return nil, nil
	}
	base := strings.ToUpper(typ)
	if i := strings.IndexByte(base, '('); i >= 0 {
		base = base[:i]
	}
	if !o.noBinary && strings.HasPrefix(field, o.binaryprefix) && (base == "BLOB" || base == "UUID" || base == "VARBINARY") {
		b, err := hex.DecodeString(strings.TrimPrefix(field, o.binaryprefix))
		return b, err
	}
	if m := reCSVTime.FindStringSubmatch(field); m != nil && o.unix && isCSVTime(typ) {
		day, err := time.Parse("2006-01-02", m[1])
		if err != nil {
			return field, nil
		}
		n := func(i int) int64 { v, _ := strconv.ParseInt(m[i], 10, 64); return v }
		secs := day.Unix() + n(2)*3600 + n(3)*60 + n(4)
		if offset := n(6)*3600 + n(7)*60; m[5] == "-" {
			secs += offset
		} else {
			secs -= offset
		}
		return secs, nil
	}
	return field, nil
}

func isCSVTime(typ string) bool {
	return typ == "DATETIME" || typ == "DATE" || typ == "timestamp"
}

// genCSVTime gives a date or time in one of the accepted forms.
func genCSVTime(r *rand.Rand) string {
	s := fmt.Sprintf("%d-%02d-%02d", 1950+r.Intn(150), 1+r.Intn(12), 1+r.Intn(28))
	if r.Intn(4) == 0 {
		return s
	}
	s += []string{" ", "T"}[r.Intn(2)] + fmt.Sprintf("%02d:%02d", r.Intn(24), r.Intn(60))
	if r.Intn(3) > 0 {
		s += fmt.Sprintf(":%02d", r.Intn(60))
		if r.Intn(3) == 0 {
			s += "." + strings.Repeat("7", 1+r.Intn(9))
		}
		if r.Intn(3) == 0 {
			return s + []string{"+00:00", "-07:00", "+05:30", "+13:45"}[r.Intn(4)]
		}
	}
	return s + []string{"", "Z"}[r.Intn(2)]
}

func genCSVField(r *rand.Rand, typ string, o csvOpts, keyish bool) string {
	if keyish {
		return fmt.Sprint(r.Intn(6))
	}
	if r.Intn(6) == 0 {
		return o.nullstring
	}
	switch {
	case typ == "INT":
		return fmt.Sprint(r.Intn(1000) - 500)
	case typ == "REAL":
		return fmt.Sprint(r.Intn(1000)) + ".5"
	case typ == "BOOLEAN":
		return fmt.Sprint(r.Intn(2))
	case isCSVTime(typ):
		switch r.Intn(12) {
		case 0:
			return []string{"", "soon", "2020-13-45", "10:00", "0"}[r.Intn(5)]
		}
		return genCSVTime(r)
	case typ == "BLOB" || typ == "UUID" || strings.HasPrefix(typ, "varbinary"):
		if r.Intn(12) == 0 {
			return o.binaryprefix + "xyz"
		}
		b := make([]byte, r.Intn(6))
		r.Read(b)
		return o.binaryprefix + hex.EncodeToString(b)
	}
	s := genText(r)
	if strings.Contains(s, "\r") {
		return "cr"
	}
	return s
}

// renderCSV writes records in one of the many ways the format allows.
func renderCSV(r *rand.Rand, rows [][]string) string {
	var b strings.Builder
	eol := []string{"\n", "\r\n"}[r.Intn(2)]
	always := r.Intn(3) == 0
	for i, row := range rows {
		if i > 0 && r.Intn(8) == 0 {
			b.WriteString(eol)
		}
		for j, f := range row {
			if j > 0 {
				b.WriteString(",")
			}
			quote := always || strings.ContainsAny(f, ",\"\r\n") || (f == "" && len(row) == 1) || f == `\.` || strings.HasPrefix(f, " ") || strings.HasPrefix(f, "\t")
			if quote {
				b.WriteString(`"` + strings.ReplaceAll(f, `"`, `""`) + `"`)
			} else {
				b.WriteString(f)
			}
		}
		if i < len(rows)-1 || r.Intn(3) > 0 {
			b.WriteString(eol)
		}
	}
	return b.String()
}

func (f *csvFile) applyTo(db *sql.DB, o csvOpts) error {
	tx, err := db.Begin()
	must(err)
	defer tx.Rollback()
	upsert := len(f.table.pk) > 0
	for _, k := range f.table.pk {
		upsert = upsert && contains(f.header, k)
	}
	typeOf := map[string]string{}
	for i, c := range f.table.cols {
		typeOf[c] = f.table.types[i]
	}
	for _, h := range f.header {
		if !contains(f.table.cols, h) {
			return fmt.Errorf("no column %s", h)
		}
	}
	for _, rec := range f.records {
		if len(rec) != len(f.header) {
			return fmt.Errorf("%d fields, %d headers", len(rec), len(f.header))
		}
		var marks, sets []string
		var args []any
		for i, h := range f.header {
			v, err := o.value(typeOf[h], rec[i])
			if err != nil {
				return err
			}
			args = append(args, v)
			marks = append(marks, "?")
			if !contains(f.table.pk, h) {
				sets = append(sets, sq3(h)+" = excluded."+sq3(h))
			}
		}
		q := "INSERT INTO " + sq3(f.table.name) + " (" + sq3list(f.header) + ") VALUES (" + strings.Join(marks, ", ") + ")"
		if upsert {
			q += " ON CONFLICT (" + sq3list(f.table.pk) + ") DO "
			if len(sets) == 0 {
				q += "NOTHING"
			} else {
				q += "UPDATE SET " + strings.Join(sets, ", ")
			}
		}
		if _, err := tx.Exec(q, args...); err != nil {
			return err
		}
	}
	return tx.Commit()
}

func loadModel(t *T) {
	r := t.Rng
	dir := t.Dir()
	fk := []string{"0", "1"}[r.Intn(2)]
	dstPath := filepath.Join(dir, "dst.sqlite3")
	mon := &Monitor{}
	_ = mon
	dst := openSQLite(t, "file:"+dstPath+"?_foreign_keys="+fk)
	ref := openSQLite(t, "file:"+filepath.Join(dir, "ref.sqlite3")+"?_foreign_keys=0")
	opts := csvOpts{nullstring: `\N`, binaryprefix: "0x"}
	if r.Intn(4) == 0 {
		opts.nullstring = []string{"NULL", "~", "nil"}[r.Intn(3)]
		opts.binaryprefix = []string{`\x`, "hex", "0x"}[r.Intn(3)]
	}
	opts.noNull, opts.noBinary = r.Intn(8) == 0, r.Intn(8) == 0
	if opts.unix = r.Intn(3) == 0; opts.unix {
		t.Count("timestamps_as_integers", 1)
	}
	var tabs []*csvTable
	for i := 0; i < 1+r.Intn(2); i++ {
		tab := genCSVTable(r, []string{"actor", "my table", "order", "7_up"}[(i+r.Intn(3))%4]+fmt.Sprint(i))
		tabs = append(tabs, tab)
		for _, db := range []*sql.DB{dst, ref} {
			_, err := db.Exec(tab.create)
			must(err)
		}
	}
	// Several loads, one after the other.
	files := map[string]string{}
	var list []*csvFile
	for n := 1 + r.Intn(4); n > 0; n-- {
		tab := tabs[r.Intn(len(tabs))]
		f := &csvFile{table: tab}
		f.name = tab.name + ".csv"
		if r.Intn(2) == 0 || files[f.name] != "" || strings.HasPrefix(f.name, "7_") {
			f.name = fmt.Sprintf("%02d_%s", len(files), f.name)
		}
		for _, i := range r.Perm(len(tab.cols)) {
			if r.Intn(6) > 0 || (contains(tab.pk, tab.cols[i]) && r.Intn(8) > 0) {
				f.header = append(f.header, tab.cols[i])
			}
		}
		if len(f.header) == 0 {
			f.header = []string{tab.cols[0]}
		}
		if r.Intn(15) == 0 {
			f.header[r.Intn(len(f.header))] = "nosuchcolumn"
		}
		for m := []int{0, 1, 3, 8, 25, 60}[r.Intn(6)]; m > 0; m-- {
			var rec []string
			for _, h := range f.header {
				typ := "TEXT"
				for i, c := range tab.cols {
					if c == h {
						typ = tab.types[i]
					}
				}
				rec = append(rec, genCSVField(r, typ, opts, (h == "id" || h == "k2") && r.Intn(60) > 0))
			}
			f.records = append(f.records, rec)
		}
		if len(f.records) > 0 && r.Intn(25) == 0 {
			i := r.Intn(len(f.records))
			if len(f.header) > 1 && r.Intn(2) == 0 {
				f.records[i] = f.records[i][:len(f.records[i])-1]
			} else {
				f.records[i] = append(append([]string(nil), f.records[i]...), "extra")
			}
		}
		f.text = renderCSV(r, append([][]string{f.header}, f.records...))
		if files[f.name] != "" {
			continue
		}
		files[f.name] = f.text
		list = append(list, f)
		must(os.WriteFile(filepath.Join(dir, f.name), []byte(f.text), 0o644))
	}
	batch := []int{0, 1, 2, 3, 7, 1000, 100000}[r.Intn(7)]
	how := []string{"api", "cli"}[r.Intn(2)]
	var names []string
	for _, f := range list {
		names = append(names, f.name)
	}
	var cmd *ddl.LoadCmd
	if how == "cli" {
		args := []string{"-db", "sqlite:" + dstPath + "?_foreign_keys=" + fk, "-dir", dir, "-nullstring", opts.nullstring, "-binaryprefix", opts.binaryprefix}
		if batch > 0 {
			args = append(args, "-batchsize", fmt.Sprint(batch))
		}
		if opts.noNull {
			args = append(args, "-no-nullstring")
		}
		if opts.noBinary {
			args = append(args, "-no-binaryprefix")
		}
		if opts.unix {
			args = append(args, "-timestamp-as-integer")
		}
		var err error
		cmd, err = ddl.LoadCommand(append(args, names...)...)
		must(err)
	} else {
		cmd = &ddl.LoadCmd{DB: dst, Dialect: "sqlite", DirFS: os.DirFS(dir), Filenames: names, Batchsize: batch, Nullstring: opts.nullstring, Binaryprefix: opts.binaryprefix, NoNullstring: opts.noNull, NoBinaryprefix: opts.noBinary, TimestampAsInteger: opts.unix}
	}
	cmd.Verbose = r.Intn(3) == 0
	cmd.Stderr = &lockedBuffer{}
	err := cmd.Run()
	var wantErr error
	stopped := ""
	for _, f := range list {
		if wantErr = f.applyTo(ref, opts); wantErr != nil {
			stopped = f.name
			break
		}
		t.Count("files loaded", 1)
		t.Count("records", len(f.records))
	}
	switch {
	case err == nil && wantErr != nil:
		t.Failf("load-success", "load reported success; %s should have failed: %v\n%s", stopped, wantErr, files[stopped])
	case err != nil && wantErr == nil:
		t.Failf("load-error", "load failed: %v", err)
	case err != nil:
		t.Count("failing loads", 1)
		if !strings.Contains(err.Error(), stopped) {
			t.Failf("load-error-file", "the error does not name the file %s: %v", stopped, err)
		}
	}
	for _, tab := range tabs {
		w, g := exactRows(ref, tab.name, tab.cols), exactRows(dst, tab.name, tab.cols)
		if !eqStrings(w, g) {
			t.Failf("load-rows", "batchsize %d, files %v: table %s: %s", batch, names, tab.create, diffRows(w, g))
		}
		t.Count("rows compared", len(w))
	}
	if how == "api" {
		if rows := queryAll(dst, "PRAGMA foreign_keys"); asStr(rows[0][0]) != fk {
			t.Failf("foreign_keys", "foreign_keys is %v after the load, it was %s", rows[0][0], fk)
		}
	}
	if t.Failed() {
		for _, f := range list {
			t.Note("%s:\n%s", f.name, f.text)
		}
	}
	t.Sig(how, batch, len(list), wantErr != nil, len(tabs[0].pk), opts)
}

// ---- files in directories and archives --------------------------------------

type archFile struct{ name, text string }

func writeArchive(path string, files []archFile) {
	switch {
	case strings.HasSuffix(path, ".zip"):
		var b bytes.Buffer
		w := zip.NewWriter(&b)
		for _, f := range files {
			e, err := w.Create(f.name)
			must(err)
			_, err = e.Write([]byte(f.text))
			must(err)
		}
		must(w.Close())
		must(os.WriteFile(path, b.Bytes(), 0o644))
	case strings.HasSuffix(path, "gz") || strings.HasSuffix(path, ".gzip"):
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		w := tar.NewWriter(z)
		for _, f := range files {
			if strings.HasSuffix(f.name, "/") {
				must(w.WriteHeader(&tar.Header{Name: f.name, Mode: 0o755, Typeflag: tar.TypeDir}))
				continue
			}
			must(w.WriteHeader(&tar.Header{Name: f.name, Mode: 0o644, Size: int64(len(f.text))}))
			_, err := w.Write([]byte(f.text))
			must(err)
		}
		must(w.Close())
		must(z.Close())
		must(os.WriteFile(path, b.Bytes(), 0o644))
	default:
		for _, f := range files {
			p := filepath.Join(path, f.name)
			if strings.HasSuffix(f.name, "/") {
				must(mkdir(p))
				continue
			}
			must(mkdir(filepath.Dir(p)))
			must(os.WriteFile(p, []byte(f.text), 0o644))
		}
	}
}

// archiveLoad checks which files of a directory or archive are run, and in
// which order, by the marks they leave in a log table.
func archiveLoad(t *T) {
	r := t.Rng
	dir := t.Dir()
	db := openSQLite(t, "file:"+filepath.Join(dir, "dst.sqlite3"))
	for _, q := range []string{"CREATE TABLE log (n INTEGER PRIMARY KEY AUTOINCREMENT, what TEXT)", "CREATE TABLE t1 (what TEXT)", "CREATE TABLE t2 (what TEXT)", "CREATE TABLE t3 (what TEXT)",
		"CREATE TRIGGER t1_ins AFTER INSERT ON t1 BEGIN INSERT INTO log (what) VALUES (NEW.what); END",
		"CREATE TRIGGER t2_ins AFTER INSERT ON t2 BEGIN INSERT INTO log (what) VALUES (NEW.what); END",
		"CREATE TRIGGER t3_ins AFTER INSERT ON t3 BEGIN INSERT INTO log (what) VALUES (NEW.what); END"} {
		_, err := db.Exec(q)
		must(err)
	}
	format := []string{"", ".zip", ".tgz", ".tar.gz", ".tar.gzip"}[r.Intn(5)]
	top := ""
	base := []string{"dump", "my dump", "d.1"}[r.Intn(3)]
	if format != "" {
		top = []string{"", base + "/", "./"}[r.Intn(3)]
		if format == ".zip" && top == "./" {
			top = ""
		}
	}
	stage := map[string]int{}
	var files []archFile
	add := func(name, mark string, st int) {
		stage[mark] = st
		files = append(files, archFile{top + name, "INSERT INTO log (what) VALUES ('" + mark + "');\n"})
	}
	fails := ""
	for i, n := range []string{"schema.sql", "indexes.sql", "constraints.sql"} {
		if r.Intn(5) > 0 {
			add(n, n, []int{0, 2, 3}[i])
			if r.Intn(12) == 0 && fails == "" {
				fails = n
				files[len(files)-1].text += "SELECT * FROM nosuchtable;\n"
				files[len(files)-1].text = "SELECT nosuchfunction();\n" + files[len(files)-1].text
				delete(stage, n)
			}
		}
	}
	csvs := 0
	for i, tab := range []string{"t1", "t2", "t3"} {
		if r.Intn(4) > 0 {
			csvs++
			name := tab + ".csv"
			if r.Intn(2) == 0 {
				name = fmt.Sprintf("%d_%s", r.Intn(1000), name)
			}
			mark := "csv" + fmt.Sprint(i)
			text := "what\n" + mark + "\n"
			if r.Intn(12) == 0 && fails == "" {
				fails = name
				text += "a,b\n"
			} else {
				stage[mark] = 1
			}
			files = append(files, archFile{top + name, text})
		}
	}
	// Files that must not be run.
	for _, f := range []archFile{
		{"sub/schema.sql", ""}, {"sub/t1.csv", "what\nBAD\n"}, {"repeatable/x.sql", ""}, {"other.sql", ""}, {"01_init.sql", ""}, {"schema.json", "{}"}, {"README.txt", "x"},
		{"t1.csv.bak", "what\nBAD\n"}, {"t2.CSV.txt", "what\nBAD"}, {"sub/sub/t2.csv", "what\nBAD\n"}, {"__MACOSX/._t1.csv", "\x00\x05"}, {"schema.sql.undo.sql", ""},
	} {
		if r.Intn(3) == 0 {
			if f.text == "" {
				f.text = "INSERT INTO log (what) VALUES ('BAD');\n"
			}
			prefix := top
			if strings.HasPrefix(f.name, "__MACOSX") {
				if format != ".zip" {
					continue
				}
				prefix = ""
			}
			files = append(files, archFile{prefix + f.name, f.text})
		}
	}
	r.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
	if format != "" && top != "" && r.Intn(2) == 0 && format != ".zip" {
		files = append([]archFile{{top, ""}}, files...)
	}
	writeArchive(filepath.Join(dir, base+format), files)
	var cmd *ddl.LoadCmd
	if r.Intn(2) == 0 {
		cmd = &ddl.LoadCmd{DB: db, Dialect: "sqlite", DirFS: os.DirFS(dir), Filenames: []string{base + format}}
	} else {
		var err error
		cmd, err = ddl.LoadCommand("-db", "sqlite:"+filepath.Join(dir, "dst.sqlite3"), "-dir", dir, base+format)
		must(err)
	}
	cmd.Stderr = &lockedBuffer{}
	err := cmd.Run()
	if (err != nil) != (fails != "") {
		t.Failf("archive-error", "%s%s: the file that fails is %q, load returned %v", base, format, fails, err)
	}
	if err != nil && fails != "" && !strings.Contains(err.Error(), fails) {
		t.Failf("archive-error", "the error does not name %s: %v", fails, err)
	}
	got := []string{}
	last := -1
	for _, row := range queryAll(db, "SELECT what FROM log ORDER BY n") {
		m := asStr(row[0])
		got = append(got, m)
		st, ok := stage[m]
		switch {
		case !ok:
			t.Failf("archive-extra", "%s%s: %q was loaded: %v", base, format, m, got)
		case st < last:
			t.Failf("archive-order", "%s%s: loaded in the order %v", base, format, got)
		}
		last = st
	}
	if fails == "" {
		var want []string
		for m := range stage {
			want = append(want, m)
		}
		sort.Strings(want)
		sort.Strings(got)
		if !eqStrings(want, got) {
			t.Failf("archive-missing", "%s%s (top %q): loaded %v, expected %v", base, format, top, got, want)
		}
	}
	if t.Failed() {
		t.Note("files: %+v", files)
	}
	t.Count("archives", 1)
	t.Count("archive files run", len(got))
	t.Sig("archive", format, top != "", fails != "", csvs, len(files))
}

// cancelledLoad cancels the context after a number of statements and checks
// that the file being loaded has no effect and the session is restored.
func cancelledLoad(t *T) {
	r := t.Rng
	dir := t.Dir()
	mon := &Monitor{}
	db := openMonitored("file:"+filepath.Join(dir, "dst.sqlite3")+"?_foreign_keys=1", mon)
	t.Cleanup(func() { db.Close() })
	db.SetMaxOpenConns(1)
	_, err := db.Exec("CREATE TABLE a (id INTEGER PRIMARY KEY, x TEXT); CREATE TABLE b (id INTEGER PRIMARY KEY, x TEXT)")
	must(err)
	n := 1 + r.Intn(50)
	var sb strings.Builder
	sb.WriteString("id,x\n")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&sb, "%d,v%d\n", i, i)
	}
	for _, f := range []string{"a.csv", "b.csv"} {
		must(os.WriteFile(filepath.Join(dir, f), []byte(sb.String()), 0o644))
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	at := r.Intn(14)
	seen := 0
	mon.Before = func(ev *Event) error {
		if seen == at {
			cancel()
		}
		seen++
		return nil
	}
	cmd := &ddl.LoadCmd{DB: db, Dialect: "sqlite", DirFS: os.DirFS(dir), Filenames: []string{"a.csv", "b.csv"}, Batchsize: 1 + r.Intn(20), Ctx: ctx, Stderr: &lockedBuffer{}}
	err = cmd.Run()
	mon.Before = nil
	counts := []int{}
	for _, tab := range []string{"a", "b"} {
		c := asInt(queryAll(db, "SELECT count(*) FROM "+tab)[0][0])
		counts = append(counts, c)
		if c != 0 && c != n {
			t.Failf("cancel-partial", "a load cancelled at statement %d left %d of %d rows in %s", at, c, n, tab)
		}
	}
	if err == nil && (counts[0] != n || counts[1] != n) {
		t.Failf("cancel-success", "a load cancelled at statement %d reported success with %v of %d rows", at, counts, n)
	}
	if counts[0] == 0 && counts[1] != 0 {
		t.Failf("cancel-order", "b was loaded, a was not")
	}
	if rows := queryAll(db, "PRAGMA foreign_keys"); asStr(rows[0][0]) != "1" {
		t.Failf("cancel-session", "foreign_keys is %v after a load cancelled at statement %d", rows[0][0], at)
	}
	t.Count("cancelled loads", 1)
	t.Sig("cancel", at, counts[0] > 0, counts[1] > 0, err != nil)
}

func init() {
	register(&Prop{
		ID:    "D03",
		Level: "exploration",
		Rule:  "a load with a distinct combination of entry point, batch size, files, key columns and flags",
		Assumptions: []string{
			"only SQLite runs here; the reference applies the records one at a time to a second database",
		},
		Cases: func(tier string, seed int64) []Case {
			out := manyCases("model", tierN(tier, 4000, 60000), loadModel)
			out = append(out, manyCases("archive", tierN(tier, 1500, 15000), archiveLoad)...)
			return append(out, manyCases("cancel", tierN(tier, 300, 3000), cancelledLoad)...)
		},
		MinCounts: map[string]int64{"files loaded": 2000, "records": 20000, "failing loads": 200, "rows compared": 10000, "archives": 1000, "archive files run": 2000, "cancelled loads": 200, "timestamps_as_integers": 300},
	})
}
