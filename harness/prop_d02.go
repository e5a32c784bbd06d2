package main

// Referentially intact subsets. The rows and their references live in a model
// built by the harness; the forward and backward closures of a subset query
// are computed on the model, and the real dump is loaded into a second
// database whose rows are compared with them.

import (
	"database/sql"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

type subFK struct {
	cols    []string
	parent  int
	refs    []string
	notNull bool
}

type subTable struct {
	name   string
	pk     []string // empty: no primary key
	off    bool     // filtered out of the dump
	pkType []string
	uniq   bool // has a unique column "uq" that may be referenced
	fks    []subFK
	rows   [][]any // parallel to cols
	cols   []string
	types  []string
	to     [][]int // per row, per fk: row of the parent or -1
}

var subPKKinds = [][]string{
	{"INTEGER"}, {"INTEGER"}, {"INT"}, {"BIGINT"}, {"TEXT"}, {"VARCHAR(50)"}, {"BLOB"}, {"REAL"}, {"NUMERIC"}, {"DECIMAL(10,2)"}, {"UUID"}, {"UUID"}, {"DATE"}, {"TIMESTAMP"}, {"DATETIME"}, {""}, {"JSON"},
	{"INT", "TEXT"}, {"TEXT", "INT"}, {"INT", "INT"}, {"TIMESTAMP", "INT"}, {"BOOLEAN", "INT"}, {"INT", "INT", "BLOB"}, {"UUID", "TEXT"},
}

func subKey(r *rand.Rand, typ string, i int, intTimes bool) any {
	switch {
	case strings.HasPrefix(typ, "INT") || typ == "BIGINT":
		return int64(i*7 - 20)
	case typ == "REAL":
		return float64(i)*1.5 + 0.25
	case typ == "NUMERIC" || strings.HasPrefix(typ, "DECIMAL"):
		if i%2 == 0 {
			return int64(i)
		}
		return float64(i) + 0.5
	case typ == "BOOLEAN":
		return int64(i % 2)
	case typ == "BLOB":
		return []byte{byte(i), 0, 0xff, '\'', byte(i >> 8)}
	case typ == "UUID":
		if intTimes {
			return fmt.Sprintf("%08x-0000-4000-8000-%012x", i, i*3)
		}
		b := make([]byte, 16)
		b[0], b[15] = byte(i), byte(i*3)
		return b
	case typ == "DATE":
		if intTimes {
			return int64(1600000000 + i*86400)
		}
		return fmt.Sprintf("2020-01-%02d", i%28+1)
	case typ == "TIMESTAMP" || typ == "DATETIME":
		if intTimes {
			return int64(1600000000 + i*3600)
		}
		return fmt.Sprintf("2020-01-%02d %02d:00:%02d", i%28+1, i/28%24, i%60)
	case typ == "":
		return fmt.Sprintf("untyped %d", i)
	}
	return []string{"k", "it's", `a"b`, "日本", "x{y", "semi;", "--", "%d"}[i%8] + fmt.Sprint(i)
}

var subNames = []string{"film", "Order", "a b", `q"t`, "group", "select", "été", "UPPER", "tbl_9", "it's", "actor", "inventory", "x$y"}

// genSubset builds an acyclic graph of tables and consistent rows. cyc adds
// a self reference or a cycle.
func genSubset(r *rand.Rand, intTimes bool, cyc string) []*subTable {
	return genSubsetOf(r, subPKKinds, "TEXT", func(typ string, i int) any { return subKey(r, typ, i, intTimes) }, cyc)
}

// genSubsetOf does so for primary keys of the given types.
func genSubsetOf(r *rand.Rand, kinds [][]string, text string, key func(typ string, i int) any, cyc string) []*subTable {
	tree := r.Intn(2) == 0
	n := 2 + r.Intn(5)
	names := r.Perm(len(subNames))
	var tabs []*subTable
	for i := 0; i < n; i++ {
		t := &subTable{name: subNames[names[i]]}
		kind := kinds[r.Intn(len(kinds))]
		if r.Intn(8) == 0 && i > 0 && cyc == "" {
			t.uniq = true
		} else {
			for k, typ := range kind {
				t.pk = append(t.pk, []string{"id", "Key 2", "from"}[k])
				t.pkType = append(t.pkType, typ)
			}
			t.uniq = r.Intn(4) == 0
		}
		for k, c := range t.pk {
			t.cols = append(t.cols, c)
			t.types = append(t.types, t.pkType[k])
		}
		if t.uniq {
			t.cols = append(t.cols, "uq")
			t.types = append(t.types, text)
		}
		if i > 0 {
			nf := 1 + r.Intn(3)
			if tree {
				nf = r.Intn(5) / 4 // at most one link to an earlier table
				nf = 1 - nf
			}
			for f := 0; f < nf; f++ {
				p := r.Intn(i)
				fk := subFK{parent: p, notNull: r.Intn(2) == 0}
				par := tabs[p]
				if len(par.pk) == 0 || par.uniq && r.Intn(2) == 0 {
					fk.refs = []string{"uq"}
				} else {
					fk.refs = par.pk
				}
				for k := range fk.refs {
					c := fmt.Sprintf("fk%d_%d", f, k)
					if k == 0 && r.Intn(3) == 0 {
						c = fmt.Sprintf("Ref %d", f)
					}
					fk.cols = append(fk.cols, c)
					typ := text
					if len(par.pk) > 0 && fk.refs[0] == par.pk[0] {
						typ = par.pkType[k]
					}
					t.cols = append(t.cols, c)
					t.types = append(t.types, typ)
				}
				t.fks = append(t.fks, fk)
			}
		}
		t.cols = append(t.cols, "data")
		t.types = append(t.types, text)
		tabs = append(tabs, t)
	}
	for i, t := range tabs {
		nrows := r.Intn(14)
		for k := 0; k < nrows; k++ {
			row := make([]any, 0, len(t.cols))
			to := make([]int, len(t.fks))
			for j := range t.pk {
				row = append(row, key(t.pkType[j], k))
			}
			if t.uniq {
				row = append(row, fmt.Sprintf("u%d-%d", i, k))
			}
			bad := false
			for f, fk := range t.fks {
				par := tabs[fk.parent]
				to[f] = -1
				if len(par.rows) > 0 && (fk.notNull || r.Intn(4) > 0) {
					to[f] = r.Intn(len(par.rows))
				}
				if to[f] < 0 && fk.notNull {
					bad = true
					break
				}
				for _, ref := range fk.refs {
					if to[f] < 0 {
						row = append(row, nil)
						continue
					}
					row = append(row, par.rows[to[f]][indexOf(par.cols, ref)])
				}
			}
			if bad {
				break
			}
			row = append(row, fmt.Sprintf("d%d-%d", i, k))
			t.rows = append(t.rows, row)
			t.to = append(t.to, to)
		}
	}
	return tabs
}

func indexOf(list []string, s string) int {
	for i, v := range list {
		if v == s {
			return i
		}
	}
	return -1
}

func (t *subTable) create(tabs []*subTable) string {
	var defs []string
	for i, c := range t.cols {
		d := sq3(c) + " " + t.types[i]
		if c == "uq" {
			d += " UNIQUE"
		}
		for _, fk := range t.fks {
			if contains(fk.cols, c) && fk.notNull {
				d += " NOT NULL"
			}
		}
		if len(t.pk) == 1 && c == t.pk[0] {
			d += " PRIMARY KEY"
		}
		defs = append(defs, d)
	}
	if len(t.pk) > 1 {
		defs = append(defs, "PRIMARY KEY ("+sq3list(t.pk)+")")
	}
	for _, fk := range t.fks {
		defs = append(defs, "FOREIGN KEY ("+sq3list(fk.cols)+") REFERENCES "+sq3(tabs[fk.parent].name)+" ("+sq3list(fk.refs)+")")
	}
	return "CREATE TABLE " + sq3(t.name) + " (" + strings.Join(defs, ", ") + ")"
}

func (t *subTable) insert(db *sql.DB) {
	for _, row := range t.rows {
		q := "INSERT INTO " + sq3(t.name) + " (" + sq3list(t.cols) + ") VALUES (" + strings.TrimSuffix(strings.Repeat("?, ", len(row)), ", ") + ")"
		_, err := db.Exec(q, row...)
		must(err)
	}
}

func (t *subTable) dumped() bool { return len(t.pk) > 0 && !t.off }

// forest reports whether there is at most one way from one table to another,
// along foreign keys in either direction.
func forest(tabs []*subTable) bool {
	group := make([]int, len(tabs))
	for i := range group {
		group[i] = i
	}
	for i, t := range tabs {
		for _, fk := range t.fks {
			a, b := group[i], group[fk.parent]
			if a == b {
				return false
			}
			for j := range group {
				if group[j] == a {
					group[j] = b
				}
			}
		}
	}
	return true
}

// neighbours adds the rows directly linked to the rows of one table.
func (s rowSet) neighbours(tabs []*subTable, ti int) {
	base := s.clone()[ti]
	for k := range base {
		for f, fk := range tabs[ti].fks {
			if p := tabs[ti].to[k][f]; p >= 0 && fk.parent != ti && tabs[fk.parent].dumped() {
				s[fk.parent][p] = true
			}
		}
	}
	for i, t := range tabs {
		if i == ti || !t.dumped() {
			continue
		}
		for k := range t.rows {
			for f, fk := range t.fks {
				if p := t.to[k][f]; fk.parent == ti && p >= 0 && base[p] {
					s[i][k] = true
				}
			}
		}
	}
}

type rowSet []map[int]bool

func newRowSet(n int) rowSet {
	s := make(rowSet, n)
	for i := range s {
		s[i] = map[int]bool{}
	}
	return s
}

func (s rowSet) size() int {
	n := 0
	for _, m := range s {
		n += len(m)
	}
	return n
}

func (s rowSet) clone() rowSet {
	c := newRowSet(len(s))
	c.add(s)
	return c
}

func (s rowSet) add(o rowSet) {
	for i := range o {
		for k := range o[i] {
			s[i][k] = true
		}
	}
}

// forward adds everything the rows depend on.
func (s rowSet) forward(tabs []*subTable) {
	for n := -1; n != s.size(); {
		n = s.size()
		for i, t := range tabs {
			for k := range s[i] {
				for f, fk := range t.fks {
					if p := t.to[k][f]; p >= 0 {
						s[fk.parent][p] = true
					}
				}
			}
		}
	}
}

// backward adds everything that depends on the rows.
func (s rowSet) backward(tabs []*subTable) {
	for n := -1; n != s.size(); {
		n = s.size()
		for i, t := range tabs {
			for k := range t.rows {
				for f, fk := range t.fks {
					if p := t.to[k][f]; p >= 0 && s[fk.parent][p] {
						s[i][k] = true
					}
				}
			}
		}
	}
}

// strict keeps only what is linked without going through a table that has no
// primary key.
func (s rowSet) strictForward(tabs []*subTable) {
	for n := -1; n != s.size(); {
		n = s.size()
		for i, t := range tabs {
			if !t.dumped() {
				continue
			}
			for k := range s[i] {
				for f, fk := range t.fks {
					if p := t.to[k][f]; p >= 0 && tabs[fk.parent].dumped() {
						s[fk.parent][p] = true
					}
				}
			}
		}
	}
}

func (s rowSet) strictBackward(tabs []*subTable) {
	for n := -1; n != s.size(); {
		n = s.size()
		for i, t := range tabs {
			if !t.dumped() {
				continue
			}
			for k := range t.rows {
				for f, fk := range t.fks {
					if p := t.to[k][f]; p >= 0 && s[fk.parent][p] {
						s[i][k] = true
					}
				}
			}
		}
	}
}

// rowID is the content of a row as exactRows prints it.
func subRowIDs(db querier, t *subTable) map[string]int {
	ids := map[string]int{}
	di := indexOf(t.cols, "data")
	for k, row := range t.rows {
		rows := exactRowsWhere(db, t.name, t.cols, `"data" = '`+row[di].(string)+"'")
		if len(rows) != 1 {
			panic(harnessError(fmt.Sprintf("row %d of %s found %d times", k, t.name, len(rows))))
		}
		ids[rows[0]] = k
	}
	return ids
}

func exactRowsWhere(db querier, table string, cols []string, where string) []string {
	var q []string
	for _, c := range cols {
		n := sq3(c)
		q = append(q, "typeof("+n+") || ':' || CASE typeof("+n+") WHEN 'real' THEN quote("+n+") WHEN 'null' THEN '' ELSE hex("+n+") END")
	}
	var out []string
	for _, row := range queryAll(db, "SELECT "+strings.Join(q, ", ")+" FROM "+sq3(table)+" WHERE "+where) {
		var parts []string
		for i, v := range row {
			parts = append(parts, cols[i]+"="+asStr(v))
		}
		out = append(out, strings.Join(parts, " "))
	}
	sort.Strings(out)
	return out
}

type subQuery struct {
	table    int
	rows     map[int]bool
	query    string
	extended bool
}

func genSubQuery(r *rand.Rand, db querier, tabs []*subTable, ti int) subQuery {
	t := tabs[ti]
	q := subQuery{table: ti, rows: map[int]bool{}, extended: r.Intn(2) == 0}
	name := t.name
	if r.Intn(10) == 0 {
		name = "main." + name
		name = t.name // SQLite tables have no schema
	}
	star := []string{"SELECT {*} FROM ", "select  {*}\nfrom ", "SELECT DISTINCT {*} FROM "}[r.Intn(3)]
	query := star + "{" + name + "}"
	cond := ""
	switch r.Intn(6) {
	case 0: // everything
		for k := range t.rows {
			q.rows[k] = true
		}
	case 1: // nothing
		cond = " WHERE 1 = 0"
	default:
		var vals []string
		for k := range t.rows {
			if r.Intn(3) == 0 {
				q.rows[k] = true
				vals = append(vals, "'"+t.rows[k][indexOf(t.cols, "data")].(string)+"'")
			}
		}
		cond = ` WHERE "data" IN (` + strings.Join(vals, ", ") + `)`
		if r.Intn(8) == 0 {
			cond += ` AND '{{*}' <> '{{a}'` // doubled braces are text
		}
		if r.Intn(4) == 0 {
			cond += ` ORDER BY "data" DESC`
		}
	}
	if cond == "" && r.Intn(2) == 0 && len(t.pk) > 0 && !strings.HasPrefix(star, "SELECT D") {
		// the first rows in key order
		lim := r.Intn(5)
		var order []string
		for _, c := range t.pk {
			order = append(order, sq3(t.name)+"."+sq3(c))
		}
		q.rows = map[int]bool{}
		for _, row := range queryAll(db, `SELECT "data" FROM `+sq3(t.name)+" ORDER BY "+strings.Join(order, ", ")+fmt.Sprintf(" LIMIT %d", lim)) {
			for k := range t.rows {
				if t.rows[k][indexOf(t.cols, "data")] == asStr(row[0]) {
					q.rows[k] = true
				}
			}
		}
		cond = " ORDER BY " + []string{strings.Join(order, ", "), ordinals(len(order))}[r.Intn(2)] + fmt.Sprintf(" LIMIT %d", lim)
	}
	q.query = query + cond
	return q
}

func ordinals(n int) string {
	var out []string
	for i := 1; i <= n; i++ {
		out = append(out, fmt.Sprint(i))
	}
	return strings.Join(out, ", ")
}

func subsetCase(t *T) {
	r := t.Rng
	dir := t.Dir()
	srcPath, dstPath := filepath.Join(dir, "src.sqlite3"), filepath.Join(dir, "dst.sqlite3")
	src, dst := openSQLite(t, "file:"+srcPath), openSQLite(t, "file:"+dstPath)
	intTimes := r.Intn(3) == 0
	tabs := genSubset(r, intTimes, "")
	for _, tab := range tabs {
		q := tab.create(tabs)
		t.Note("%s", q)
		for _, db := range []*sql.DB{src, dst} {
			_, err := db.Exec(q)
			must(err)
		}
		tab.insert(src)
	}
	var queries []subQuery
	var filter, exclude []string
	if r.Intn(6) == 0 {
		off := 1 + r.Intn(len(tabs)-1)
		tabs[off].off = true
		if r.Intn(2) == 0 {
			exclude = []string{tabs[off].name}
		} else {
			for _, tab := range tabs {
				if !tab.off {
					filter = append(filter, tab.name)
				}
			}
		}
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		ti := r.Intn(len(tabs))
		if !tabs[ti].dumped() {
			ti = 0
		}
		queries = append(queries, genSubQuery(r, src, tabs, ti))
	}
	out := filepath.Join(dir, "out")
	cmd := &ddl.DumpCmd{DB: src, Dialect: "sqlite", OutputDir: out, Stderr: &lockedBuffer{}, DataOnly: true, Tables: filter, ExcludeTables: exclude}
	format := []string{"dir", "zip", "tgz"}[r.Intn(3)]
	switch format {
	case "zip":
		cmd.Zip = "a.zip"
	case "tgz":
		cmd.Tgz = "a.tgz"
	}
	for _, q := range queries {
		t.Note("subset extended=%v rows=%d: %s", q.extended, len(q.rows), q.query)
		if q.extended {
			cmd.ExtendedSubsetQueries = append(cmd.ExtendedSubsetQueries, q.query)
		} else {
			cmd.SubsetQueries = append(cmd.SubsetQueries, q.query)
		}
	}
	if err := cmd.Run(); err != nil {
		t.Failf("subset-error", "dump with a subset query failed: %v", err)
		return
	}
	checkSubset(t, src, dst, tabs, queries, out, format, intTimes)
}

// wantSubset is what has to be dumped, what may be, and whether no reference
// may dangle.
func wantSubset(t *T, tabs []*subTable, queries []subQuery) (must1, may rowSet, intact bool) {
	must1, may, intact = newRowSet(len(tabs)), newRowSet(len(tabs)), true
	for _, q := range queries {
		lo, hi := newRowSet(len(tabs)), newRowSet(len(tabs))
		for k := range q.rows {
			lo[q.table][k], hi[q.table][k] = true, true
		}
		if q.extended {
			hi.backward(tabs)
			if forest(tabs) || t.CaseID == "extended/diamond" {
				lo.strictBackward(tabs)
				lo.strictForward(tabs)
			} else {
				intact = false
				lo.neighbours(tabs, q.table)
			}
		} else {
			lo.strictForward(tabs)
		}
		hi.forward(tabs)
		must1.add(lo)
		may.add(hi)
	}
	return must1, may, intact
}

func checkSubset(t *T, src, dst *sql.DB, tabs []*subTable, queries []subQuery, out, format string, intTimes bool) {
	load := &ddl.LoadCmd{DB: dst, Dialect: "sqlite", DirFS: os.DirFS(out), Filenames: []string{"."}, Stderr: &lockedBuffer{}, TimestampAsInteger: intTimes}
	if format != "dir" {
		load.Filenames = []string{"a." + format}
	}
	if err := load.Run(); err != nil {
		t.Failf("subset-load", "loading the subset failed: %v", err)
		return
	}
	must1, may, intact := wantSubset(t, tabs, queries)
	sig := []any{format}
	total := 0
	for i, tab := range tabs {
		ids := subRowIDs(src, tab)
		got := map[int]bool{}
		for _, row := range exactRows(dst, tab.name, tab.cols) {
			k, ok := ids[row]
			if !ok {
				t.Failf("subset-row", "table %s of the subset has a row that the source does not have: %s", tab.name, row)
				continue
			}
			got[k] = true
		}
		total += len(got)
		if !tab.dumped() {
			if len(got) > 0 {
				t.Failf("subset-nopk", "table %s has no primary key or is filtered out and was dumped", tab.name)
			}
			continue
		}
		var missing, extra []int
		for k := range must1[i] {
			if !got[k] {
				missing = append(missing, k)
			}
		}
		for k := range got {
			if !may[i][k] {
				extra = append(extra, k)
			}
		}
		sort.Ints(missing)
		sort.Ints(extra)
		if len(missing) > 0 {
			t.Failf("subset-missing", "table %s: rows %v belong to the subset and were not dumped (%d were)", tab.name, missing, len(got))
		}
		if len(extra) > 0 {
			t.Failf("subset-extra", "table %s: rows %v do not belong to the subset and were dumped", tab.name, extra)
		}
		sig = append(sig, len(tab.rows), len(got))
	}
	for _, row := range queryAll(dst, "PRAGMA foreign_key_check") {
		if !intact {
			break
		}
		child, parent := asStr(row[0]), asStr(row[2])
		dumped := false
		for _, tab := range tabs {
			if tab.name == parent && tab.dumped() {
				dumped = true
			}
		}
		if dumped {
			t.Failf("subset-dangling", "row %v of %s references a row of %s that was not dumped", row[1], child, parent)
			break
		}
	}
	for _, q := range queries {
		sig = append(sig, q.table, q.extended, len(q.rows))
	}
	t.Count("subset dumps checked", 1)
	if intact {
		t.Count("subset dumps checked for dangling references", 1)
	}
	t.Count("subset rows dumped", total)
	t.Sig(sig...)
}

// badSubset: a malformed subset query is an error, never a crash.
func badSubset(t *T) {
	r := t.Rng
	db := openSQLite(t, "file:"+filepath.Join(t.Dir(), "a.sqlite3"))
	for _, q := range []string{`CREATE TABLE a (id INTEGER PRIMARY KEY, b INT REFERENCES b (id), x TEXT)`, `CREATE TABLE b (id INTEGER PRIMARY KEY, x TEXT)`, `CREATE TABLE n (id INT)`,
		`INSERT INTO b VALUES (1, 'p'), (2, 'q')`, `INSERT INTO a VALUES (1, 1, 'x'), (2, NULL, '{y}')`} {
		_, err := db.Exec(q)
		must(err)
	}
	parts := []string{"SELECT ", "{*}", " FROM ", "{a}", "{b}", "{", "}", "{{", "}}", "{nosuch}", "{n}", "{}", "{.}", "{main.a}", " WHERE 1", "*", "a", "x = '{'", ""}
	var q string
	switch r.Intn(3) {
	case 0:
		for n := r.Intn(8); n >= 0; n-- {
			q += parts[r.Intn(len(parts))]
		}
	case 1:
		b := []byte("SELECT {*} FROM {a} WHERE id > 0")
		for n := 1 + r.Intn(3); n > 0; n-- {
			i := r.Intn(len(b))
			switch r.Intn(3) {
			case 0:
				b = append(b[:i], b[i+1:]...)
			case 1:
				b[i] = "{}*a "[r.Intn(5)]
			case 2:
				b = append(b[:i], append([]byte{"{}*a "[r.Intn(5)]}, b[i:]...)...)
			}
		}
		q = string(b)
	case 2:
		q = []string{"", "{", "}", "{*}", "{a}", "{*}{a}", "{a}{*}", "{{*}}", "SELECT {*} FROM a", "SELECT * FROM {a}", "SELECT {*} FROM {a}, {b}", "SELECT {*}, {*} FROM {a}", "{*} {a}", "SELECT {*} FROM {a", "SELECT {*} FROM {a} {", "SELECT {*} FROM {n}", "{a} {b} {*}", "{*}{*}{a}"}[r.Intn(18)]
	}
	t.Note("query %q", q)
	cmd := &ddl.DumpCmd{DB: db, Dialect: "sqlite", OutputDir: filepath.Join(t.Dir(), "out"), Stderr: &lockedBuffer{}, DataOnly: true}
	if r.Intn(2) == 0 {
		cmd.SubsetQueries = []string{q}
	} else {
		cmd.ExtendedSubsetQueries = []string{q}
	}
	err := cmd.Run()
	nstar := strings.Count(q, "{*}")
	if err == nil && (nstar != 1 || !strings.Contains(q, "{a}") && !strings.Contains(q, "{b}") && !strings.Contains(q, "{.a}") && !strings.Contains(q, "{main.a}")) {
		t.Failf("subset-malformed", "the query %q was accepted", q)
	}
	t.Count("malformed subset queries", 1)
	t.Sig("bad", err == nil, len(q), nstar)
}

// subsetCycle: tables that reference themselves or each other.
func subsetCycle(kind string) func(t *T) {
	return func(t *T) {
		dir := t.Dir()
		src, dst := openSQLite(t, "file:"+filepath.Join(dir, "src.sqlite3")), openSQLite(t, "file:"+filepath.Join(dir, "dst.sqlite3"))
		var tabs []*subTable
		extended := false
		if kind == "diamond" {
			mk := func(name string, cols ...string) *subTable {
				t := &subTable{name: name, pk: []string{"id"}, pkType: []string{"INT"}, cols: append(append([]string{"id"}, cols...), "data")}
				for range t.cols[1:] {
					t.types = append(t.types, "INT")
				}
				t.types = append(t.types, "TEXT")
				return t
			}
			// payment -> customer -> address, payment -> staff -> address,
			// address -> city
			city, addr, cust, staff, pay := mk("city"), mk("address", "city"), mk("customer", "address"), mk("staff", "address"), mk("payment", "customer", "staff")
			fk := func(col string, parent int) subFK {
				return subFK{cols: []string{col}, parent: parent, refs: []string{"id"}}
			}
			addr.fks, cust.fks, staff.fks = []subFK{fk("city", 0)}, []subFK{fk("address", 1)}, []subFK{fk("address", 1)}
			pay.fks = []subFK{fk("customer", 2), fk("staff", 3)}
			city.rows, city.to = [][]any{{1, "c1"}, {2, "c2"}}, [][]int{{}, {}}
			addr.rows, addr.to = [][]any{{1, 1, "a1"}, {2, 2, "a2"}}, [][]int{{0}, {1}}
			cust.rows, cust.to = [][]any{{1, 1, "k1"}}, [][]int{{0}}
			staff.rows, staff.to = [][]any{{1, 2, "s1"}}, [][]int{{1}}
			pay.rows, pay.to = [][]any{{1, 1, 1, "p1"}}, [][]int{{0, 0}}
			tabs = []*subTable{city, addr, cust, staff, pay}
			extended = true
		} else if kind == "self" {
			e := &subTable{name: "employee", pk: []string{"id"}, pkType: []string{"INT"}, cols: []string{"id", "boss", "data"}, types: []string{"INT", "INT", "TEXT"}, fks: []subFK{{cols: []string{"boss"}, parent: 0, refs: []string{"id"}}}}
			e.rows = [][]any{{1, nil, "d1"}, {2, 1, "d2"}, {3, 2, "d3"}}
			e.to = [][]int{{-1}, {0}, {1}}
			tabs = []*subTable{e}
		} else {
			a := &subTable{name: "store", pk: []string{"id"}, pkType: []string{"INT"}, cols: []string{"id", "staff", "data"}, types: []string{"INT", "INT", "TEXT"}, fks: []subFK{{cols: []string{"staff"}, parent: 1, refs: []string{"id"}}}}
			b := &subTable{name: "staff", pk: []string{"id"}, pkType: []string{"INT"}, cols: []string{"id", "store", "data"}, types: []string{"INT", "INT", "TEXT"}, fks: []subFK{{cols: []string{"store"}, parent: 0, refs: []string{"id"}}}}
			a.rows = [][]any{{1, 1, "d1"}, {2, 2, "d2"}}
			a.to = [][]int{{0}, {1}}
			b.rows = [][]any{{1, 2, "s1"}, {2, 1, "s2"}}
			b.to = [][]int{{1}, {0}}
			tabs = []*subTable{a, b}
		}
		for _, tab := range tabs {
			for _, db := range []*sql.DB{src, dst} {
				_, err := db.Exec(tab.create(tabs))
				must(err)
			}
			tab.insert(src)
		}
		base := 0
		if extended {
			base = len(tabs) - 1
		}
		last := len(tabs[base].rows) - 1
		q := subQuery{table: base, rows: map[int]bool{last: true}, query: fmt.Sprintf("SELECT {*} FROM {%s} WHERE id = %d", tabs[base].name, last+1), extended: extended}
		out := filepath.Join(dir, "out")
		cmd := &ddl.DumpCmd{DB: src, Dialect: "sqlite", OutputDir: out, Stderr: &lockedBuffer{}, DataOnly: true}
		if extended {
			cmd.ExtendedSubsetQueries = []string{q.query}
		} else {
			cmd.SubsetQueries = []string{q.query}
		}
		if err := cmd.Run(); err != nil {
			t.Failf("subset-error", "dump with a subset query failed: %v", err)
			return
		}
		checkSubset(t, src, dst, tabs, []subQuery{q}, out, "dir", false)
	}
}

func init() {
	register(&Prop{
		ID:    "D02",
		Level: "exploration",
		Rule:  "a subset dump with a distinct combination of table sizes, dumped row counts, query targets and query kinds",
		Assumptions: []string{
			"the source is itself referentially intact; foreign keys form no cycles except in the two recorded cases",
		},
		MinCounts: map[string]int64{"subset dumps checked": 500, "subset rows dumped": 2000, "malformed subset queries": 100},
		Cases: func(tier string, seed int64) []Case {
			cs := []Case{{ID: "cycle/self", Run: subsetCycle("self")}, {ID: "cycle/mutual", Run: subsetCycle("mutual")}, {ID: "extended/diamond", Run: subsetCycle("diamond")}}
			cs = append(cs, manyCases("bad", tierN(tier, 400, 4000), badSubset)...)
			return append(cs, manyCases("subset", tierN(tier, 2500, 40000), subsetCase)...)
		},
	})
}
