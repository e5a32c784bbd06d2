package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"encoding/csv"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/bokwoon95/sqddl/ddl"
)

// The rows of the emulated servers. A value is kept in a canonical text; the
// emulated driver hands it out as the Go type that lib/pq, pgx, go-sql-driver
// or go-mssqldb use for the column, and the fields of the dumped CSV and the
// values a load sends are read back into the canonical text.

type dCol struct {
	Name, Type, Kind string
}

// dKinds are the types of each dialect with what they hold.
var dKinds = map[string][][2]string{
	"postgres": {
		{"int", "int"}, {"bigint", "int"}, {"smallint", "int"}, {"numeric(30,4)", "num"}, {"numeric", "num"}, {"real", "real"}, {"double precision", "float"},
		{"text", "text"}, {"varchar(255)", "text"}, {"char(3)", "text"}, {"boolean", "bool"}, {"bytea", "bytes"}, {"uuid", "uuid"}, {"json", "json"}, {"jsonb", "json"},
		{"timestamptz", "ts"}, {"timestamp", "ts"}, {"date", "date"}, {"time", "time"}, {"text[]", "texts"}, {"int[]", "ints"}, {"numeric[]", "nums"}, {"boolean[]", "bools"}, {"inet", "inet"},
	},
	"mysql": {
		{"int", "int"}, {"bigint", "int"}, {"bigint unsigned", "uint"}, {"int unsigned", "int"}, {"tinyint(1)", "small"}, {"decimal(30,4)", "num"}, {"double", "float"}, {"varchar(255)", "text"}, {"char(3)", "text"},
		{"text", "text"}, {"datetime", "ts0"}, {"datetime(6)", "ts"}, {"timestamp", "ts0"}, {"date", "date"}, {"time", "time0"}, {"json", "json"}, {"binary(16)", "bytes16"}, {"mediumblob", "bytes"}, {"varbinary(20)", "bytes"},
		{"enum('a','b')", "enum"}, {"bit(1)", "bit"}, {"year", "year"},
	},
	"sqlserver": {
		{"int", "int"}, {"bigint", "int"}, {"smallint", "int"}, {"decimal(30,4)", "num"}, {"float", "float"}, {"nvarchar(255)", "text"}, {"varchar(50)", "text"}, {"bit", "bool"}, {"varbinary(20)", "bytes"},
		{"binary(16)", "bytes16"}, {"uniqueidentifier", "uuid"}, {"datetime2", "ts"}, {"datetimeoffset", "ts"}, {"date", "date"}, {"time", "time"},
	},
}

var dTexts = []string{"", "x", "it's", `q"uote`, "line\nbreak", "tab\t", "日本", "a,b", "%d", `back\slash`, "<b>&", "NULL", "null", "{a}", "[1]", " pad ", " ", "0", "true", "é"}

// dValue makes the canonical text of a value.
func dValue(r *rand.Rand, kind string) string {
	switch kind {
	case "int":
		return fmt.Sprint([]int64{0, 1, -1, 42, 32767, -32768, int64(r.Intn(30000))}[r.Intn(7)])
	case "small":
		return fmt.Sprint(r.Intn(2))
	case "uint":
		return []string{"0", "1", "9223372036854775807", "9223372036854775808", "18446744073709551615"}[r.Intn(5)]
	case "num":
		return canonNum([]string{"0", "1", "-1.5", "12345678901234567890.1234", "0.0001", "99999999999999999.99", "-9007199254740993", "1000000", "3.1400"}[r.Intn(9)])
	case "float":
		return canonFloat([]float64{0, 1, -2.5, 0.1, 1e21, 1e-9, 123456789.125, 1.7976931348623157e308}[r.Intn(8)])
	case "real":
		return canonFloat([]float64{0, 1, -2.5, 0.125, 1024.5}[r.Intn(5)])
	case "text":
		return dTexts[r.Intn(len(dTexts))]
	case "bool", "bit":
		return []string{"false", "true"}[r.Intn(2)]
	case "bytes":
		b := make([]byte, r.Intn(6))
		r.Read(b)
		return hex.EncodeToString(b)
	case "bytes16":
		b := make([]byte, 16)
		r.Read(b)
		return hex.EncodeToString(b)
	case "uuid":
		b := make([]byte, 16)
		r.Read(b)
		return uuidText(b)
	case "json":
		return []string{`{}`, `[]`, `{"a": "it's"}`, `[1, 2]`, `"x"`, `null`, `{"k": "é\n"}`, `12`}[r.Intn(8)]
	case "ts", "ts0":
		ts := time.Date(1970+r.Intn(100), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
		if kind == "ts" {
			ts = ts.Add([]time.Duration{0, 500 * time.Millisecond, 123456 * time.Microsecond, time.Microsecond}[r.Intn(4)])
		}
		return ts.Format(dTS)
	case "date":
		return time.Date(1900+r.Intn(200), time.Month(1+r.Intn(12)), 1+r.Intn(28), 0, 0, 0, 0, time.UTC).Format("2006-01-02")
	case "time", "time0":
		s := fmt.Sprintf("%02d:%02d:%02d", r.Intn(24), r.Intn(60), r.Intn(60))
		if kind == "time0" && r.Intn(4) == 0 {
			return []string{"-01:02:03", "123:00:01"}[r.Intn(2)] // MySQL
		}
		if kind == "time" && r.Intn(3) == 0 {
			s += ".25"
		}
		return s
	case "enum":
		return pickStr(r, "a", "b")
	case "year":
		return fmt.Sprint(1950 + r.Intn(100))
	case "inet":
		return pickStr(r, "10.0.0.1/8", "::1")
	case "texts", "ints", "nums", "bools":
		var out []any
		for i := r.Intn(4); i > 0; i-- {
			switch {
			case r.Intn(6) == 0:
				out = append(out, nil)
			case kind == "texts":
				out = append(out, dTexts[r.Intn(len(dTexts))])
			case kind == "ints":
				out = append(out, fmt.Sprint(r.Intn(100)-50))
			case kind == "nums":
				out = append(out, canonNum([]string{"0.5", "-1", "1000000", "12345678901234567.25"}[r.Intn(4)]))
			case kind == "bools":
				out = append(out, []string{"false", "true"}[r.Intn(2)])
			}
		}
		return canonArray(out)
	}
	panic("no kind " + kind)
}

const dTS = "2006-01-02 15:04:05.999999999"

func canonNum(s string) string {
	x, ok := new(big.Rat).SetString(s)
	if !ok {
		return "not a number: " + s
	}
	return x.RatString()
}

// decimalText writes a canonical number the way a server does.
func decimalText(canon string, scale int) string {
	x, _ := new(big.Rat).SetString(canon)
	return x.FloatString(scale)
}

func canonFloat(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

func canonArray(list []any) string {
	if list == nil {
		list = []any{}
	}
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	must(enc.Encode(list))
	return strings.TrimSpace(b.String())
}

func uuidText(b []byte) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
}

// pgArrayText writes the elements the way PostgreSQL does.
func pgArrayText(canon string) string {
	var list []*string
	must(json.Unmarshal([]byte(canon), &list))
	var out []string
	for _, e := range list {
		switch {
		case e == nil:
			out = append(out, "NULL")
		case *e == "" || strings.EqualFold(*e, "null") || strings.ContainsAny(*e, "{},\"\\ \t\n\r\v\f"):
			out = append(out, `"`+strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(*e)+`"`)
		default:
			out = append(out, *e)
		}
	}
	return "{" + strings.Join(out, ",") + "}"
}

// parsePGArray reads the text of an array the way PostgreSQL does.
func parsePGArray(s string) (list []any, err error) {
	const space = " \t\n\r\v\f"
	s = strings.Trim(s, space)
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, fmt.Errorf("malformed array literal: %q", s)
	}
	s = s[1 : len(s)-1]
	list = []any{}
	if strings.Trim(s, space) == "" {
		return list, nil
	}
	i := 0
	for {
		for i < len(s) && strings.IndexByte(" \t\n\r\v\f", s[i]) >= 0 {
			i++
		}
		var b strings.Builder
		quoted := false
		if i < len(s) && s[i] == '"' {
			quoted = true
			i++
			for {
				if i >= len(s) {
					return nil, fmt.Errorf("malformed array literal: unterminated quote")
				}
				if s[i] == '"' {
					i++
					break
				}
				if s[i] == '\\' && i+1 < len(s) {
					i++
				}
				b.WriteByte(s[i])
				i++
			}
			for i < len(s) && strings.IndexByte(" \t\n\r\v\f", s[i]) >= 0 {
				i++
			}
			if i < len(s) && s[i] != ',' {
				return nil, fmt.Errorf("malformed array literal: %q after an element", s[i:])
			}
		} else {
			for i < len(s) && s[i] != ',' {
				if s[i] == '"' || s[i] == '{' || s[i] == '}' {
					return nil, fmt.Errorf("malformed array literal: unexpected %q", s[i:])
				}
				if s[i] == '\\' && i+1 < len(s) {
					i++
				}
				b.WriteByte(s[i])
				i++
			}
		}
		text := b.String()
		if !quoted {
			text = strings.TrimRight(text, " \t\n\r\v\f")
		}
		switch {
		case !quoted && strings.EqualFold(text, "null"):
			list = append(list, nil)
		case !quoted && text == "":
			return nil, fmt.Errorf("malformed array literal: empty element")
		default:
			list = append(list, text)
		}
		if i >= len(s) {
			return list, nil
		}
		i++ // the comma
	}
}

// dDriver is the value as the driver gives it.
func dDriver(r *rand.Rand, drv string, c dCol, canon string) driver.Value {
	text := canon
	switch c.Kind {
	case "num":
		text = decimalText(canon, 4)
	case "texts", "ints", "bools", "nums":
		text = canon
		if c.Kind == "bools" {
			text = strings.NewReplacer("false", "f", "true", "t").Replace(canon)
		}
		if c.Kind == "nums" {
			var list []*string
			must(json.Unmarshal([]byte(canon), &list))
			for _, e := range list {
				if e != nil {
					*e = decimalText(*e, 2)
				}
			}
			text = jsonOf(list)
		}
		text = pgArrayText(text)
	}
	utc := func(layout, s string) time.Time {
		ts, err := time.Parse(layout, s)
		must(err)
		return ts
	}
	n, _ := strconv.ParseInt(canon, 10, 64)
	f, _ := strconv.ParseFloat(canon, 64)
	raw, _ := hex.DecodeString(canon)
	switch drv {
	case "mysql": // the text protocol
		switch c.Kind {
		case "ts", "ts0":
			return utc(dTS, canon)
		case "date":
			return utc("2006-01-02", canon)
		case "bytes", "bytes16":
			return append([]byte{}, raw...)
		case "bit":
			return []byte{map[string]byte{"false": 0, "true": 1}[canon]}
		case "float":
			return []byte(canon)
		}
		return []byte(text)
	case "mssql":
		switch c.Kind {
		case "int":
			return n
		case "float":
			return f
		case "bool":
			return canon == "true"
		case "text":
			return text
		case "bytes", "bytes16":
			return append([]byte{}, raw...)
		case "uuid":
			b, _ := hex.DecodeString(strings.ReplaceAll(canon, "-", ""))
			return []byte{b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]}
		case "ts":
			ts := utc(dTS, canon)
			if c.Type == "datetimeoffset" {
				ts = ts.In(time.FixedZone("", 3600*3+1800))
			}
			return ts
		case "date":
			return utc("2006-01-02", canon)
		case "time":
			return utc("2006-01-02 15:04:05.999999999", "0001-01-01 "+canon)
		}
		return []byte(text) // decimals
	}
	// PostgreSQL
	switch c.Kind {
	case "int":
		return n
	case "float", "real":
		return f
	case "bool":
		return canon == "true"
	case "bytes":
		return append([]byte{}, raw...)
	case "ts":
		ts := utc(dTS, canon)
		if c.Type == "timestamptz" {
			ts = ts.In(time.FixedZone("", -8*3600))
		}
		return ts
	case "date":
		return utc("2006-01-02", canon)
	case "time":
		if drv == "pq" {
			return utc("2006-01-02 15:04:05.999999999", "0000-01-01 "+canon)
		}
	case "text":
		return text
	}
	if drv == "pq" {
		return []byte(text)
	}
	return text
}

// dServer reads a text the way the server does for a column of this kind.
func dServer(c dCol, s string) (string, error) {
	bad := func() (string, error) { return "", fmt.Errorf("invalid value %q for a column of type %s", s, c.Type) }
	layouts := []string{"2006-01-02 15:04:05.999999999", "2006-01-02T15:04:05.999999999", "2006-01-02 15:04:05.999999999Z07:00", "2006-01-02T15:04:05.999999999Z07:00", "2006-01-02"}
	stamp := func() (time.Time, bool) {
		for _, l := range layouts {
			if ts, err := time.Parse(l, s); err == nil && ts.Year() > 0 {
				return ts.UTC(), true
			}
		}
		return time.Time{}, false
	}
	switch c.Kind {
	case "int", "uint", "small", "year":
		x, ok := new(big.Int).SetString(s, 10)
		if !ok {
			return bad()
		}
		return x.String(), nil
	case "num":
		if x, ok := new(big.Rat).SetString(s); ok {
			return x.RatString(), nil
		}
		return bad()
	case "float", "real":
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return bad()
		}
		return canonFloat(f), nil
	case "bool":
		switch strings.ToLower(s) {
		case "1", "t", "true":
			return "true", nil
		case "0", "f", "false":
			return "false", nil
		}
		return bad()
	case "uuid":
		b, err := hex.DecodeString(strings.ReplaceAll(s, "-", ""))
		if err != nil || len(b) != 16 {
			return bad()
		}
		return uuidText(b), nil
	case "ts", "ts0":
		ts, ok := stamp()
		if !ok {
			return bad()
		}
		return ts.Format(dTS), nil
	case "date":
		ts, ok := stamp()
		if !ok {
			return bad()
		}
		return ts.Format("2006-01-02"), nil
	case "time", "time0":
		// A date in front of the time has to be a date.
		if i := strings.IndexAny(s, " T"); i >= 0 {
			if d, err := time.Parse("2006-01-02", s[:i]); err != nil || d.Year() == 0 {
				return bad()
			}
			s = s[i+1:]
		}
		if c.Kind == "time0" {
			return s, nil
		}
		ts, err := time.Parse("15:04:05.999999999", strings.TrimSuffix(s, "Z"))
		if err != nil {
			return bad()
		}
		return ts.Format("15:04:05.999999999"), nil
	case "texts", "ints", "bools", "nums":
		list, err := parsePGArray(s)
		if err != nil {
			return "", err
		}
		el := dCol{Type: c.Type, Kind: map[string]string{"texts": "text", "ints": "int", "bools": "bool", "nums": "num"}[c.Kind]}
		for i, e := range list {
			if e == nil {
				continue
			}
			v, err := dServer(el, e.(string))
			if err != nil {
				return "", err
			}
			list[i] = v
		}
		return canonArray(list), nil
	}
	return s, nil
}

// dField reads a field of a dumped CSV file.
func dField(c dCol, field string, uuidBytes, arrayJSON bool) (canon string, null bool, err error) {
	if field == `\N` {
		return "", true, nil
	}
	switch {
	case c.Kind == "bytes" || c.Kind == "bytes16" || c.Kind == "bit" || c.Kind == "uuid" && uuidBytes:
		if !strings.HasPrefix(field, "0x") {
			if c.Kind == "bit" {
				canon, err = dServer(dCol{Kind: "bool", Type: c.Type}, field)
				return canon, false, err
			}
			return "", false, fmt.Errorf("%q is no binary literal", field)
		}
		b, err := hex.DecodeString(field[2:])
		if err != nil {
			return "", false, err
		}
		if c.Kind == "bit" {
			return fmt.Sprint(len(b) > 0 && b[len(b)-1] != 0), false, nil
		}
		if c.Kind == "uuid" {
			if len(b) != 16 {
				return "", false, fmt.Errorf("%q has no 16 bytes", field)
			}
			return uuidText(b), false, nil
		}
		return hex.EncodeToString(b), false, nil
	case arrayJSON && strings.HasSuffix(c.Type, "[]"):
		dec := json.NewDecoder(strings.NewReader(field))
		dec.UseNumber()
		var list []any
		if err := dec.Decode(&list); err != nil || list == nil {
			return "", false, fmt.Errorf("%q is no JSON array (%v)", field, err)
		}
		for i, e := range list {
			switch e := e.(type) {
			case json.Number:
				list[i] = canonNum(e.String())
			case bool:
				list[i] = fmt.Sprint(e)
			}
		}
		return canonArray(list), false, nil
	}
	canon, err = dServer(c, field)
	return canon, false, err
}

// dRows gives the rows of a table as the driver would.
type dRows struct {
	names []string
	rows  [][]driver.Value
	i     int
}

func (d *dRows) Columns() []string { return d.names }
func (d *dRows) Close() error      { return nil }
func (d *dRows) Next(dest []driver.Value) error {
	if d.i >= len(d.rows) {
		return io.EOF
	}
	for k, v := range d.rows[d.i] {
		if b, ok := v.([]byte); ok {
			v = append([]byte{}, b...)
		}
		dest[k] = v
	}
	d.i++
	return nil
}

type dTable struct {
	Schema, Name string
	Cols         []dCol
	PK           []string
	Rows         [][]*string // canonical, nil for NULL
}

// dAnswer answers SELECT columns FROM table [ORDER BY columns].
func dAnswer(r *rand.Rand, dialect, drv, cur string, tables []*dTable, query string) (driver.Rows, bool, error) {
	toks, err := vLex(dialect, query)
	if err != nil {
		return nil, true, errServer(err.Error())
	}
	p := &vParser{db: &vDB{Dialect: dialect, Cur: cur}, src: query, toks: toks}
	if !p.try("SELECT") {
		return nil, false, nil
	}
	var out *dRows
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(vReject); !ok {
					panic(e)
				}
				out = nil
			}
		}()
		var cols []string
		for {
			cols = append(cols, p.name())
			if !p.try(",") {
				break
			}
		}
		p.need("FROM")
		schema, name := p.qname()
		var tab *dTable
		for _, t := range tables {
			if t.Schema == schema && t.Name == name {
				tab = t
			}
		}
		if tab == nil {
			return
		}
		var order []string
		if p.try("ORDER BY") {
			for {
				order = append(order, p.name())
				if !p.try(",") {
					break
				}
			}
		}
		p.done()
		index := func(n string) int {
			for i, c := range tab.Cols {
				if c.Name == n {
					return i
				}
			}
			reject("column %s does not exist", n)
			return -1
		}
		rows := append([][]*string{}, tab.Rows...)
		sort.SliceStable(rows, func(a, b int) bool {
			for _, o := range order {
				if x, y := *rows[a][index(o)], *rows[b][index(o)]; x != y {
					return x < y
				}
			}
			return false
		})
		d := &dRows{names: cols}
		for _, row := range rows {
			vals := make([]driver.Value, len(cols))
			for k, n := range cols {
				if v := row[index(n)]; v != nil {
					vals[k] = dDriver(r, drv, tab.Cols[index(n)], *v)
				}
			}
			d.rows = append(d.rows, vals)
		}
		out = d
	}()
	if out == nil {
		return nil, false, nil
	}
	return out, true, nil
}

// queryRaw reads rows and keeps text and bytes apart.
func queryRaw(db *sql.DB, q string) (out [][]any) {
	rows, err := db.Query(q)
	must(err)
	defer rows.Close()
	cols, err := rows.Columns()
	must(err)
	for rows.Next() {
		vals, ptrs := make([]any, len(cols)), make([]any, len(cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		must(rows.Scan(ptrs...))
		out = append(out, vals)
	}
	must(rows.Err())
	return out
}

func d06Data(t *T, dialect string) {
	r := t.Rng
	drv := map[string]string{"postgres": pickStr(r, "pq", "pgx"), "mysql": "mysql", "sqlserver": "mssql"}[dialect]
	cur := srvSchemas[dialect][0]
	cat := &ddl.Catalog{Dialect: dialect, CatalogName: "sakila", DefaultCollationValid: true, CurrentSchema: cur, DefaultCollation: vDefaultColl[dialect]}
	schemas := []string{cur, "other"}
	for _, s := range schemas {
		cat.Schemas = append(cat.Schemas, ddl.Schema{SchemaName: s})
	}
	var tables []*dTable
	names := r.Perm(len(subNames))
	colNames := []string{"id", "Value", "a b", "group", "größe", "n", "order", "x1", "desc", `q"c`}
	for i := 0; i < 1+r.Intn(3); i++ {
		si := 0
		if r.Intn(4) == 0 {
			si = 1
		}
		tab := &dTable{Schema: schemas[si], Name: subNames[names[i]]}
		ct := ddl.Table{TableSchema: tab.Schema, TableName: tab.Name}
		perm := r.Perm(len(colNames))
		for j := 0; j < 1+r.Intn(7); j++ {
			k := dKinds[dialect][r.Intn(len(dKinds[dialect]))]
			c := dCol{Name: colNames[perm[j]], Type: k[0], Kind: k[1]}
			if j == 0 {
				c.Type, c.Kind = "int", "int"
			}
			tab.Cols = append(tab.Cols, c)
			ct.Columns = append(ct.Columns, ddl.Column{TableSchema: tab.Schema, TableName: tab.Name, ColumnName: c.Name, ColumnType: c.Type, IsNotNull: j == 0, IsPrimaryKey: j == 0})
		}
		tab.PK = []string{tab.Cols[0].Name}
		ct.Constraints = []ddl.Constraint{{TableSchema: tab.Schema, TableName: tab.Name, ConstraintName: "PRIMARY", ConstraintType: "PRIMARY KEY", Columns: tab.PK}}
		for k := 1 + r.Intn(6); k > 0; k-- {
			id := fmt.Sprint(k)
			row := []*string{&id}
			for _, c := range tab.Cols[1:] {
				if r.Intn(5) == 0 {
					row = append(row, nil)
					continue
				}
				v := dValue(r, c.Kind)
				row = append(row, &v)
			}
			tab.Rows = append(tab.Rows, row)
		}
		cat.Schemas[si].Tables = append(cat.Schemas[si].Tables, ct)
		tables = append(tables, tab)
	}
	version := map[string]string{"postgres": "14.5", "mysql": "8.0.31", "sqlserver": "15.0.4261.1"}[dialect]
	sdb, srv, _ := newServerDB(t, dialect, version, cat)
	seed := r.Int63()
	srv.answer = func(q string) (driver.Rows, bool, error) {
		return dAnswer(rand.New(rand.NewSource(seed)), dialect, drv, cur, tables, q)
	}
	out := filepath.Join(t.Dir(), "out")
	cmd := &ddl.DumpCmd{DB: sdb, Dialect: dialect, OutputDir: out, DataOnly: r.Intn(2) == 0, Stderr: &lockedBuffer{}, Nullstring: `\N`, Binaryprefix: "0x"}
	cmd.ArrayAsJSON, cmd.UUIDAsBytes = r.Intn(2) == 0, r.Intn(2) == 0
	var err error
	if p := recovered(func() { err = cmd.Run() }); p != nil {
		t.Failf("panic", "dump panicked: %v", p)
		return
	}
	if notEmulated(err) {
		t.Count("not_emulated", 1)
		t.Note("not emulated: %v", err)
		return
	}
	describe := func() string {
		var b strings.Builder
		for _, tab := range tables {
			fmt.Fprintf(&b, "%s.%s %v (%s, json arrays %v, uuid bytes %v)\n", tab.Schema, tab.Name, tab.Cols, drv, cmd.ArrayAsJSON, cmd.UUIDAsBytes)
		}
		return b.String()
	}
	if err != nil {
		t.Failf("dump-error", "dump fails: %v\n%s", err, describe())
		return
	}
	var emus []*emuTable
	for _, tab := range tables {
		name := tab.Name + ".csv"
		if tab.Schema != cur {
			name = tab.Schema + "." + name
		}
		b, err := os.ReadFile(filepath.Join(out, name))
		if err != nil {
			t.Failf("missing", "%v\n%s", err, describe())
			return
		}
		recs, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
		if err != nil || len(recs) != len(tab.Rows)+1 {
			t.Failf("rows", "%s has %d records for %d rows (%v)\n%s\n%s", name, len(recs)-1, len(tab.Rows), err, b, describe())
			return
		}
		byID := map[string][]*string{}
		for _, row := range tab.Rows {
			byID[*row[0]] = row
		}
		ids := indexOf(recs[0], tab.Cols[0].Name)
		for _, rec := range recs[1:] {
			row := byID[rec[ids]]
			if row == nil {
				t.Failf("rows", "%s has a row %q that the table does not have", name, rec)
				return
			}
			delete(byID, rec[ids])
			for k, c := range tab.Cols {
				f := rec[indexOf(recs[0], c.Name)]
				canon, null, err := dField(c, f, cmd.UUIDAsBytes && dialect == "postgres", cmd.ArrayAsJSON)
				switch {
				case err != nil:
					t.Failf("field", "%s column %s: %v\n%s", name, c.Type, err, describe())
				case null && row[k] == nil:
				case row[k] == nil:
					t.Failf("field", "%s column %s: NULL is written as %q\n%s", name, c.Type, f, describe())
				case null:
					t.Failf("field", "%s column %s: the value %q is written as NULL\n%s", name, c.Type, *row[k], describe())
				case canon != *row[k]:
					t.Failf("field", "%s column %s: the value %q is written as %q\n%s", name, c.Type, *row[k], f, describe())
				}
				t.Count("fields", 1)
				t.Sig("field", drv, c.Type, row[k] == nil)
			}
		}
		et := &emuTable{Name: tab.Name, PK: tab.PK}
		for _, c := range tab.Cols {
			et.Cols = append(et.Cols, c.Name)
			et.Types = append(et.Types, c.Type)
		}
		if tab.Schema == cur {
			emus = append(emus, et)
		}
	}
	if t.Failed() || len(emus) == 0 {
		return
	}
	// What was dumped is loaded, and the server reads the values it is sent.
	s := newServer(t, r, dialect, emus)
	load := &ddl.LoadCmd{DB: s.db, Dialect: dialect, DirFS: os.DirFS(out), Nullstring: `\N`, Binaryprefix: "0x", Stderr: &lockedBuffer{}}
	for _, et := range emus {
		load.Filenames = append(load.Filenames, et.Name+".csv")
	}
	if err := load.Run(); err != nil {
		t.Failf("load-error", "load fails: %v\n%s", err, describe())
		return
	}
	for _, tab := range tables {
		if tab.Schema != cur {
			continue
		}
		var cols []string
		for _, c := range tab.Cols {
			cols = append(cols, sq3(c.Name))
		}
		got := queryRaw(s.inspect, "SELECT "+strings.Join(cols, ", ")+" FROM "+sq3(tab.Name))
		if len(got) != len(tab.Rows) {
			t.Failf("load-rows", "%d rows are loaded of %d\n%s", len(got), len(tab.Rows), describe())
			return
		}
		byID := map[string][]*string{}
		for _, row := range tab.Rows {
			byID[*row[0]] = row
		}
		for _, g := range got {
			row := byID[asStr(g[0])]
			for k, c := range tab.Cols {
				if (g[k] == nil) != (row[k] == nil) {
					t.Failf("load-value", "table %s column %s: %v is loaded for %v\n%s", tab.Name, c.Type, g[k], row[k], describe())
					continue
				}
				if g[k] == nil {
					continue
				}
				var canon string
				var err error
				switch v := g[k].(type) {
				case []byte:
					if strings.HasPrefix(c.Kind, "bytes") {
						canon = hex.EncodeToString(v)
					} else if c.Kind == "bit" {
						canon = fmt.Sprint(len(v) > 0 && v[len(v)-1] != 0)
					} else {
						canon, err = dServer(c, string(v))
					}
				default:
					if strings.HasPrefix(c.Kind, "bytes") {
						err = fmt.Errorf("text %q is sent for bytes", v)
					} else {
						canon, err = dServer(c, asStr(v))
					}
				}
				if err != nil || canon != *row[k] {
					t.Failf("load-value", "table %s column %s: %q is loaded as %v (%v)\n%s", tab.Name, c.Type, *row[k], g[k], err, describe())
				}
				t.Count("loaded_values", 1)
			}
		}
	}
	t.Count("round_trips_"+dialect, 1)
}
