package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"encoding/csv"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

// Subsets of the emulated servers. The rows are kept in SQLite as canonical
// texts; the statements are rewritten for SQLite, and the literals they hold
// are read the way the server reads them for the column they are compared to.

var dKeyKinds = map[string][][]string{
	"postgres":  {{"int"}, {"bigint"}, {"text"}, {"varchar(255)"}, {"uuid"}, {"bytea"}, {"numeric(30,4)"}, {"double precision"}, {"smallint"}, {"double precision", "int"}, {"timestamptz"}, {"timestamp"}, {"date"}, {"int", "text"}, {"uuid", "int"}, {"boolean", "int"}, {"int", "int", "date"}},
	"mysql":     {{"int"}, {"bigint"}, {"bigint unsigned"}, {"varchar(255)"}, {"binary(16)"}, {"varbinary(20)"}, {"decimal(30,4)"}, {"double"}, {"int unsigned"}, {"int", "double"}, {"datetime(6)"}, {"date"}, {"int", "varchar(255)"}, {"binary(16)", "int"}, {"int", "int", "date"}},
	"sqlserver": {{"int"}, {"bigint"}, {"nvarchar(255)"}, {"uniqueidentifier"}, {"varbinary(20)"}, {"binary(16)"}, {"decimal(30,4)"}, {"float"}, {"smallint"}, {"float", "int"}, {"datetime2"}, {"date"}, {"int", "nvarchar(255)"}, {"bit", "int"}, {"uniqueidentifier", "int"}},
}

func dKindOf(dialect, typ string) string {
	for _, k := range dKinds[dialect] {
		if k[0] == typ {
			return k[1]
		}
	}
	panic("no kind of " + typ)
}

// dKey is the canonical text of the i-th key.
func dKey(kind string, i int) string {
	switch kind {
	case "int":
		return fmt.Sprint(i*7 - 20)
	case "uint":
		return "1844674407370955" + fmt.Sprintf("%04d", i)
	case "num":
		return canonNum([]string{fmt.Sprint(i), fmt.Sprintf("%d.5", i), fmt.Sprintf("12345678901234567890.00%02d", i)}[i%3])
	case "float":
		return canonFloat([]float64{float64(i) + 0.1, float64(i) * 1.5e-9, float64(i)*1e18 + 4096}[i%3])
	case "text":
		return []string{"k", "it's", `a"b`, "日本", "x{y", `back\slash`, "--", "%d", "été"}[i%9] + fmt.Sprint(i)
	case "bytes":
		return hex.EncodeToString([]byte{byte(i), 0, 0xff, '\''})
	case "bytes16":
		return fmt.Sprintf("%030xff", i)
	case "uuid":
		return fmt.Sprintf("%08x-0102-4304-8506-0708090a%04x", 0xa1b2c300+i, i)
	case "bool":
		return fmt.Sprint(i%2 == 0)
	case "ts":
		return fmt.Sprintf("2020-01-%02d %02d:30:15%s", i%28+1, i%24, []string{"", ".5", ".123456", ".000001"}[i%4])
	case "date":
		return fmt.Sprintf("2020-02-%02d", i%28+1)
	}
	panic("no key of " + kind)
}

type dStore struct {
	dialect, drv string
	db           *sql.DB
	tabs         []*subTable
	schema       []string
	queries      []int // the tables of the subset queries, in the order they are run
	seen         int
}

func (s *dStore) table(schema, name string) int {
	for i, t := range s.tabs {
		if t.name == name && s.schema[i] == schema {
			return i
		}
	}
	return -1
}

var reQueryN = regexp.MustCompile(`^query(\d+)_$`)

// literal reads a literal and says what type it has.
func (s *dStore) literal(toks []vTok, src string, c dCol) (string, error) {
	cast := ""
	if n := len(toks); n > 2 && s.dialect == "postgres" {
		for i := n - 2; i > 0; i-- {
			if toks[i].text == ":" && toks[i-1].text == ":" {
				cast, toks = src[toks[i+1].start:toks[n-1].end], toks[:i-1]
				break
			}
		}
	}
	if len(toks) > 4 && strings.EqualFold(toks[0].text, "CAST") {
		for i := range toks {
			if toks[i].kind == 'w' && strings.EqualFold(toks[i].text, "AS") {
				cast, toks = src[toks[i+1].start:toks[len(toks)-2].end], toks[2:i]
				break
			}
		}
	}
	if len(toks) == 0 {
		return "", fmt.Errorf("syntax error: a value is missing")
	}
	neg := ""
	national := false
	for len(toks) > 1 && (toks[0].text == "-" && toks[0].kind == 'p' || toks[0].kind == 'w' && strings.EqualFold(toks[0].text, "N")) {
		if toks[0].kind == 'w' {
			national = true
		} else {
			neg = "-"
		}
		toks = toks[1:]
	}
	if toks[0].kind == 'w' && strings.EqualFold(toks[0].text, "NULL") && len(toks) == 1 {
		return "NULL", nil
	}
	typ, text := "", toks[0].text
	var err error
	isBytes := c.Kind == "bytes" || c.Kind == "bytes16"
	switch {
	case toks[0].kind == 's' && len(toks) == 1:
		typ = "text"
		if cast != "" {
			typ = strings.ToLower(cast)
		}
		if s.dialect == "sqlserver" && !national {
			// The literal is in the code page of the database.
			text = strings.Map(func(r rune) rune {
				if r > 0xff {
					return '?'
				}
				return r
			}, text)
		}
		if isBytes {
			if s.dialect == "postgres" && strings.HasPrefix(text, `\x`) {
				text = text[2:]
			} else {
				text = hex.EncodeToString([]byte(text))
			}
		} else {
			text, err = dServer(c, text)
		}
	case toks[0].kind == 'n' && len(toks) == 1:
		typ = "number"
		text, err = dServer(c, neg+text)
		if isBytes || c.Kind == "text" {
			err = fmt.Errorf("a number is compared to %s", c.Type)
		}
	case toks[0].kind == 'w' && strings.EqualFold(text, "x") && len(toks) == 2 && toks[1].kind == 's':
		typ, text = "bytes", strings.ToLower(toks[1].text)
	case toks[0].kind == 'n' && text == "0" && len(toks) == 2 && toks[1].kind == 'w' && strings.HasPrefix(toks[1].text, "x"):
		typ, text = "bytes", strings.ToLower(toks[1].text[1:])
	case toks[0].kind == 'w' && (strings.EqualFold(text, "TRUE") || strings.EqualFold(text, "FALSE")):
		typ, text = "bool", strings.ToLower(text)
	default:
		return "", fmt.Errorf("not emulated: literal %s", src[toks[0].start:toks[len(toks)-1].end])
	}
	if err != nil {
		return "", err
	}
	ok := true
	switch {
	case typ == "bytes":
		ok = isBytes
	case s.dialect == "postgres":
		switch c.Kind {
		case "int", "num", "float":
			ok = typ == "number" || typ == c.Type || typ == strings.TrimSuffix(c.Type, "(30,4)")
		case "text":
			ok = typ == "text" || typ == c.Type || strings.HasPrefix(typ, "character varying")
		case "bool":
			ok = typ == "bool" || typ == "boolean"
		default:
			// A text is not compared to them unless it is cast.
			full := map[string]string{"timestamptz": "timestamp with time zone", "timestamp": "timestamp without time zone"}[c.Type]
			ok = typ == c.Type || typ == full
		}
	}
	if !ok {
		return "", errServer(fmt.Sprintf("operator does not exist: %s = %s", c.Type, typ))
	}
	return emuQuote(text), nil
}

// sqlite writes a statement for SQLite.
func (s *dStore) sqlite(query string) (string, error) {
	toks, err := vLex(s.dialect, query)
	if err != nil {
		return "", errServer(err.Error())
	}
	match := func(i int) int { // the bracket that closes the one at i
		depth := 0
		for ; i < len(toks); i++ {
			if toks[i].kind == 'p' && toks[i].text == "(" {
				depth++
			} else if toks[i].kind == 'p' && toks[i].text == ")" {
				if depth--; depth == 0 {
					return i
				}
			}
		}
		return -1
	}
	is := func(i int, w string) bool {
		return i < len(toks) && toks[i].kind != 'q' && toks[i].kind != 's' && strings.EqualFold(toks[i].text, w)
	}
	var out []string
	emit := func(from, to int) {
		for _, t := range toks[from:to] {
			switch t.kind {
			case 'q':
				out = append(out, sq3(t.text))
			case 's':
				out = append(out, emuQuote(t.text))
			default:
				out = append(out, t.text)
			}
		}
	}
	i := 0
	for i < len(toks) {
		m := reQueryN.FindStringSubmatch(toks[i].text)
		if m == nil || toks[i].kind != 'w' || i == 0 || !is(i-1, "WITH") && !is(i-1, ",") {
			emit(i, i+1)
			i++
			continue
		}
		n, _ := strconv.Atoi(m[1])
		if n < 1 || n > len(s.queries) {
			return "", fmt.Errorf("not emulated: %s of %d", m[0], len(s.queries))
		}
		tab := s.tabs[s.queries[n-1]]
		start := i
		i++
		var cols []string
		list := func(from, to int) (out []string) {
			for k := from; k < to; k++ {
				if toks[k].text != "," {
					out = append(out, toks[k].text)
				}
			}
			return out
		}
		if is(i, "(") {
			end := match(i)
			cols = list(i+1, end)
			i = end + 1
		}
		if !is(i, "AS") || !is(i+1, "(") {
			return "", errServer("syntax error near " + query[toks[start].start:])
		}
		end := match(i + 1)
		body := i + 2
		if is(body, "SELECT") && is(body+1, "*") && is(body+2, "FROM") && is(body+3, "(") && is(body+4, "VALUES") {
			inner := match(body + 3)
			if !is(inner+1, "AS") || !is(inner+3, "(") {
				return "", errServer("a derived table needs an alias")
			}
			cols = list(inner+4, match(inner+3))
			body, i = body+4, inner
		} else {
			i = end
		}
		if !is(body, "VALUES") {
			emit(start, end+1)
			i = end + 1
			continue
		}
		if s.dialect == "sqlserver" && i == end {
			return "", errServer("incorrect syntax near the keyword VALUES")
		}
		var rows []string
		for k := body + 1; k < i; {
			if s.dialect == "mysql" {
				if !is(k, "ROW") {
					return "", errServer("VALUES needs row constructors")
				}
				k++
			}
			if !is(k, "(") {
				return "", errServer("syntax error in VALUES")
			}
			close := match(k)
			var vals []string
			from := k + 1
			for j := k + 1; j <= close; j++ {
				if j == close || is(j, ",") {
					if len(vals) >= len(cols) {
						return "", errServer("VALUES has more values than columns")
					}
					ci := indexOf(tab.cols, cols[len(vals)])
					if ci < 0 {
						return "", errServer("column " + cols[len(vals)] + " does not exist")
					}
					v, err := s.literal(toks[from:j], query, dCol{Name: cols[len(vals)], Type: tab.types[ci], Kind: dKindOf(s.dialect, tab.types[ci])})
					if err != nil {
						return "", err
					}
					vals = append(vals, v)
					from = j + 1
				} else if is(j, "(") {
					j = match(j)
				}
			}
			if len(vals) != len(cols) {
				return "", errServer("VALUES has fewer values than columns")
			}
			rows = append(rows, "("+strings.Join(vals, ", ")+")")
			k = close + 1
			if is(k, ",") {
				k++
			}
		}
		out = append(out, m[0], "("+sq3list(cols)+") AS (VALUES "+strings.Join(rows, ", ")+")")
		i = end + 1
	}
	return strings.Join(out, " "), nil
}

// answer runs statements that name one of the tables.
func (s *dStore) answer(query string) (driver.Rows, bool, error) {
	if strings.Contains(query, "pg_catalog") || strings.Contains(query, "information_schema") || strings.Contains(query, "sys.") || !strings.Contains(strings.ToUpper(query), "FROM") {
		return nil, false, nil
	}
	q, err := s.sqlite(query)
	if err != nil {
		return nil, true, err
	}
	rows, err := s.db.Query(q)
	if err != nil {
		if strings.Contains(err.Error(), "no such table") {
			return nil, false, nil // perhaps of the system catalogs
		}
		return nil, true, fmt.Errorf("%v in %s", err, q)
	}
	defer rows.Close()
	types, err := rows.ColumnTypes()
	must(err)
	d := &dRows{}
	var cols []dCol
	for _, ct := range types {
		d.names = append(d.names, ct.Name())
		n, err := strconv.Atoi(strings.TrimPrefix(ct.DatabaseTypeName(), "BLOB #"))
		if err != nil {
			return nil, true, fmt.Errorf("not emulated: column %s of type %q in %s", ct.Name(), ct.DatabaseTypeName(), q)
		}
		cols = append(cols, dCol{Name: ct.Name(), Type: dKinds[s.dialect][n][0], Kind: dKinds[s.dialect][n][1]})
	}
	for rows.Next() {
		vals, ptrs := make([]sql.NullString, len(cols)), make([]any, len(cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		must(rows.Scan(ptrs...))
		row := make([]driver.Value, len(cols))
		for i, v := range vals {
			if !v.Valid {
				continue
			}
			row[i] = dDriver(nil, s.drv, cols[i], v.String)
		}
		d.rows = append(d.rows, row)
	}
	return d, true, nil
}

func d06Subset(t *T, dialect string) {
	r := t.Rng
	text := map[string]string{"postgres": "text", "mysql": "varchar(255)", "sqlserver": "nvarchar(255)"}[dialect]
	s := &dStore{dialect: dialect, drv: map[string]string{"postgres": pickStr(r, "pq", "pgx"), "mysql": "mysql", "sqlserver": "mssql"}[dialect]}
	s.tabs = genSubsetOf(r, dKeyKinds[dialect], text, func(typ string, i int) any { return dKey(dKindOf(dialect, typ), i) }, "")
	cur := srvSchemas[dialect][0]
	schemas := []string{cur, pickStr(r, "other", "Big One", "app")}
	cat := &ddl.Catalog{Dialect: dialect, CatalogName: "sakila", DefaultCollationValid: true, CurrentSchema: cur, DefaultCollation: vDefaultColl[dialect]}
	s.db = openSQLite(t, ":memory:")
	s.db.SetMaxOpenConns(1)
	exec := func(q string, args ...any) {
		_, err := s.db.Exec(q, args...)
		if err != nil {
			panic(harnessError(err.Error() + ": " + q))
		}
	}
	for _, name := range schemas {
		cat.Schemas = append(cat.Schemas, ddl.Schema{SchemaName: name})
		exec("ATTACH ':memory:' AS " + sq3(name))
	}
	cross := false
	namesakes := false
	for i, tab := range s.tabs {
		si := r.Intn(4) / 3
		s.schema = append(s.schema, schemas[si])
		if j := r.Intn(i + 1); j < i && r.Intn(2) == 0 {
			// Take the name of a table of the other schema.
			free := s.schema[j] != schemas[si]
			for k, other := range s.tabs {
				if k < i && s.schema[k] == schemas[si] && strings.EqualFold(other.name, s.tabs[j].name) {
					free = false
				}
				if k > i && strings.EqualFold(other.name, s.tabs[j].name) {
					free = false
				}
			}
			if free {
				tab.name = s.tabs[j].name
				namesakes = true
			}
		}
		ct := ddl.Table{TableSchema: schemas[si], TableName: tab.name}
		var defs, marks []string
		for i, c := range tab.cols {
			for n, k := range dKinds[dialect] {
				if k[0] == tab.types[i] {
					defs = append(defs, fmt.Sprintf(`%s "BLOB #%d"`, sq3(c), n)) // without an affinity
				}
			}
			marks = append(marks, "?")
			col := ddl.Column{TableSchema: schemas[si], TableName: tab.name, ColumnName: c, ColumnType: tab.types[i], IsPrimaryKey: contains(tab.pk, c), IsNotNull: contains(tab.pk, c)}
			ct.Columns = append(ct.Columns, col)
		}
		exec("CREATE TABLE " + sq3(schemas[si]) + "." + sq3(tab.name) + " (" + strings.Join(defs, ", ") + ")")
		for _, row := range tab.rows {
			exec("INSERT INTO "+sq3(schemas[si])+"."+sq3(tab.name)+" VALUES ("+strings.Join(marks, ", ")+")", row...)
		}
		con := func(typ, name string, cols []string) ddl.Constraint {
			return ddl.Constraint{TableSchema: schemas[si], TableName: tab.name, ConstraintName: name, ConstraintType: typ, Columns: cols}
		}
		if len(tab.pk) > 0 {
			ct.Constraints = append(ct.Constraints, con("PRIMARY KEY", "PRIMARY", tab.pk))
		}
		if tab.uniq {
			ct.Constraints = append(ct.Constraints, con("UNIQUE", "uq", []string{"uq"}))
		}
		for f, fk := range tab.fks {
			c := con("FOREIGN KEY", fmt.Sprintf("fk%d_%d", len(s.schema), f), fk.cols)
			c.ReferencesSchema, c.ReferencesTable, c.ReferencesColumns = s.schema[fk.parent], s.tabs[fk.parent].name, fk.refs
			cross = cross || c.ReferencesSchema != schemas[si]
			ct.Constraints = append(ct.Constraints, c)
		}
		cat.Schemas[si].Tables = append(cat.Schemas[si].Tables, ct)
	}
	version := map[string]string{"postgres": "14.5", "mysql": "8.0.31", "sqlserver": "15.0.4261.1"}[dialect]
	sdb, srv, _ := newServerDB(t, dialect, version, cat)
	srv.answer = s.answer
	out := filepath.Join(t.Dir(), "out")
	cmd := &ddl.DumpCmd{DB: sdb, Dialect: dialect, OutputDir: out, DataOnly: true, Stderr: &lockedBuffer{}, Nullstring: `\N`, Binaryprefix: "0x"}
	var queries []subQuery
	for n := 1 + r.Intn(3); n > 0; n-- {
		ti := r.Intn(len(s.tabs))
		if !s.tabs[ti].dumped() {
			ti = 0
		}
		tab := s.tabs[ti]
		q := subQuery{table: ti, rows: map[int]bool{}, extended: r.Intn(2) == 0}
		name := tab.name
		if s.schema[ti] != cur || r.Intn(4) == 0 {
			name = s.schema[ti] + "." + name
		}
		q.query = []string{"SELECT {*} FROM ", "select  {*}\nfrom ", "SELECT DISTINCT {*} FROM "}[r.Intn(3)] + "{" + name + "}"
		vals := []string{"'none'"}
		all := r.Intn(4) == 0
		for k := range tab.rows {
			if all || r.Intn(3) == 0 {
				q.rows[k] = true
				vals = append(vals, "'"+tab.rows[k][indexOf(tab.cols, "data")].(string)+"'")
			}
		}
		if !all {
			q.query += " WHERE data IN (" + strings.Join(vals, ", ") + ")"
		}
		queries = append(queries, q)
	}
	for _, ext := range []bool{false, true} {
		for _, q := range queries {
			if q.extended == ext {
				if ext {
					cmd.ExtendedSubsetQueries = append(cmd.ExtendedSubsetQueries, q.query)
				} else {
					cmd.SubsetQueries = append(cmd.SubsetQueries, q.query)
				}
				s.queries = append(s.queries, q.table)
			}
		}
	}
	describe := func() string {
		var b strings.Builder
		for i, tab := range s.tabs {
			fmt.Fprintf(&b, "%s.%s pk %v %v", s.schema[i], tab.name, tab.pk, tab.pkType)
			for _, fk := range tab.fks {
				fmt.Fprintf(&b, " %v -> %s %v", fk.cols, s.tabs[fk.parent].name, fk.refs)
			}
			b.WriteString("\n")
		}
		for _, q := range queries {
			fmt.Fprintf(&b, "extended %v: %s\n", q.extended, q.query)
		}
		return b.String() + s.drv
	}
	var err error
	if p := recovered(func() { err = cmd.Run() }); p != nil {
		t.Failf("panic", "dump panicked: %v\n%s", p, describe())
		return
	}
	if notEmulated(err) || err != nil && strings.Contains(err.Error(), "not emulated") {
		t.Count("not_emulated", 1)
		t.Note("not emulated: %v", err)
		return
	}
	if err != nil {
		t.Failf("subset-error", "dump with a subset query fails: %v\n%s", err, describe())
		return
	}
	must1, may, intact := wantSubset(t, s.tabs, queries)
	got := newRowSet(len(s.tabs))
	for i, tab := range s.tabs {
		name := tab.name + ".csv"
		if s.schema[i] != cur {
			name = s.schema[i] + "." + name
		}
		b, err := os.ReadFile(filepath.Join(out, name))
		if err != nil {
			continue
		}
		recs, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
		if err != nil || len(recs) == 0 {
			t.Failf("subset-csv", "%s: %v\n%s", name, err, b)
			return
		}
		for _, rec := range recs[1:] {
			k := -1
			for j, row := range tab.rows {
				if row[indexOf(tab.cols, "data")] == rec[indexOf(recs[0], "data")] {
					k = j
				}
			}
			if k < 0 || got[i][k] {
				t.Failf("subset-row", "%s has a row that is not in the table or is there twice: %q\n%s", name, rec, describe())
				return
			}
			got[i][k] = true
		}
	}
	rows := 0
	for i, tab := range s.tabs {
		var missing, extra []int
		for k := range must1[i] {
			if !got[i][k] && tab.dumped() {
				missing = append(missing, k)
			}
		}
		for k := range got[i] {
			if !may[i][k] || !tab.dumped() {
				extra = append(extra, k)
			}
		}
		rows += len(got[i])
		sort.Ints(missing)
		sort.Ints(extra)
		if len(missing) > 0 {
			t.Failf("subset-missing", "table %s.%s: rows %v belong to the subset and are not dumped\n%s", s.schema[i], tab.name, missing, describe())
		}
		if len(extra) > 0 {
			t.Failf("subset-extra", "table %s.%s: rows %v are dumped and do not belong to the subset\n%s", s.schema[i], tab.name, extra, describe())
		}
		if !intact {
			continue
		}
		for k := range got[i] {
			for f, fk := range tab.fks {
				if p := tab.to[k][f]; p >= 0 && s.tabs[fk.parent].dumped() && !got[fk.parent][p] {
					t.Failf("subset-dangling", "row %d of %s references a row of %s that is not dumped\n%s", k, tab.name, s.tabs[fk.parent].name, describe())
				}
			}
		}
	}
	t.Count("subsets_"+dialect, 1)
	t.Count("subset_rows", rows)
	if cross {
		t.Count("subsets_across_schemas", 1)
		if namesakes {
			t.Count("subsets_with_namesakes", 1)
		}
	}
	t.Sig("subset", dialect, len(s.tabs), rows, len(queries), cross)
}
