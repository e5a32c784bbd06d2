package main

import (
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/bokwoon95/sqddl/ddl"
)

func init() {
	register(&Prop{
		ID:    "S05",
		Level: "runtime_monitoring",
		Rule:  "Fails when a quoted name is read as another name or not as a name, a value written into SQL is read as another value, a parameter is replaced by another value or a text that is no parameter is replaced, or versions and timestamps are compared or read wrongly.",
		Assumptions: []string{
			"SQLite itself reads the names and values written for it; for the other dialects they are read by a lexer that follows the servers' documentation, with their lists of reserved words.",
		},
		MinCounts: map[string]int64{"names": 1000, "names_sqlite": 200, "reserved": 100, "values": 2000, "values_sqlite": 300, "queries": 1000, "queries_sqlite": 200, "refused": 50, "versions": 500, "timestamps": 300},
		Cases:     s05Cases,
	})
}

func s05Cases(tier string, seed int64) []Case {
	var out []Case
	add := func(name string, quick, thorough int, run func(t *T)) {
		for i := 0; i < tierN(tier, quick, thorough); i++ {
			out = append(out, Case{ID: fmt.Sprintf("%s-%d", name, i), Run: run})
		}
	}
	add("name", 300, 20000, s05Names)
	add("value", 300, 20000, s05Values)
	add("query", 500, 40000, s05Queries)
	add("version", 30, 1000, s05Versions)
	add("timestamp", 30, 1000, s05Timestamps)
	out = append(out, Case{ID: "reserved", Run: s05Reserved})
	return out
}

var s05Dialects = []string{"sqlite", "postgres", "mysql", "sqlserver"}

func s05Text(r *rand.Rand) string {
	alphabets := []string{"abcxyz_019", "abcXYZ", "ab'\"`[]", "a b\t.,;-/*?$:@%\\", "éß世🙂a", "\r\na'", "\\'a\"", "0123456789"}
	return x06Word(r, alphabets[r.Intn(len(alphabets))]+[]string{"", "a", "'\"`]"}[r.Intn(3)], 1, 8)
}

// s05IsName says whether the server reads text as exactly the name.
func s05IsName(dialect, text, name string) string {
	toks, err := vLex(dialect, text)
	if err != nil {
		return err.Error()
	}
	if len(toks) != 1 || toks[0].start != 0 || toks[0].end != len(text) {
		return fmt.Sprintf("%d tokens", len(toks))
	}
	tok := toks[0]
	switch tok.kind {
	case 'q':
		if tok.text != name {
			return fmt.Sprintf("the name %q", tok.text)
		}
	case 'w':
		if reservedWords[dialect][strings.ToUpper(tok.text)] {
			return "a reserved word"
		}
		got := tok.text
		if dialect == "postgres" {
			got = strings.ToLower(got)
		}
		if got != name {
			return fmt.Sprintf("the name %q", got)
		}
	default:
		return "no name"
	}
	return ""
}

// The names of the pseudo tables are left alone.
func s05Pseudo(name string) bool {
	return contains([]string{"EXCLUDED", "INSERTED", "DELETED", "NEW", "OLD"}, name)
}

func s05Names(t *T) {
	r := t.Rng
	db, err := sql.Open("sqlite3", ":memory:")
	must(err)
	defer db.Close()
	db.SetMaxOpenConns(1)
	for i := 0; i < 30; i++ {
		name := s05Text(r)
		if s05Pseudo(name) {
			continue
		}
		for _, d := range s05Dialects {
			q := ddl.QuoteIdentifier(d, name)
			t.Count("names", 1)
			t.Sig(fmt.Sprint(d, q == name, len(name), strings.ContainsAny(name, "'\"`[]")))
			if d != "sqlite" {
				if got := s05IsName(d, q, name); got != "" {
					t.Failf("name", "%s: the name %q is written %s, which is %s", d, name, q, got)
					return
				}
				continue
			}
			if i%4 > 0 {
				continue
			}
			t.Count("names_sqlite", 1)
			stmt := fmt.Sprintf("CREATE TABLE %s (%s INT, x INT)", q, q)
			if strings.HasPrefix(strings.ToLower(name), "sqlite_") || strings.EqualFold(name, "x") {
				continue
			}
			if _, err := db.Exec(stmt); err != nil {
				t.Failf("name", "sqlite: %s: %v", stmt, err)
				return
			}
			var tbl, col string
			must(db.QueryRow("SELECT name FROM sqlite_schema WHERE type = 'table'").Scan(&tbl))
			must(db.QueryRow("SELECT name FROM pragma_table_info(?)", tbl).Scan(&col))
			if tbl != name || col != name {
				t.Failf("name", "sqlite: %s makes table %q with column %q", stmt, tbl, col)
				return
			}
			_, err := db.Exec("DROP TABLE " + q)
			must(err)
		}
	}
}

// s05Reserved quotes all reserved words.
func s05Reserved(t *T) {
	db, err := sql.Open("sqlite3", ":memory:")
	must(err)
	defer db.Close()
	db.SetMaxOpenConns(1)
	all := map[string]bool{}
	for _, words := range reservedWords {
		for w := range words {
			all[strings.ToLower(w)] = true
		}
	}
	for w := range all {
		for _, d := range s05Dialects {
			for _, name := range []string{w, strings.ToUpper(w), strings.Title(w)} {
				if s05Pseudo(name) {
					continue
				}
				q := ddl.QuoteIdentifier(d, name)
				t.Count("reserved", 1)
				if d != "sqlite" {
					if got := s05IsName(d, q, name); got != "" {
						t.Failf("reserved", "%s: the name %q is written %s, which is %s", d, name, q, got)
					}
					continue
				}
				stmt := fmt.Sprintf("CREATE TABLE %s (%s INT)", q, q)
				if _, err := db.Exec(stmt); err != nil {
					t.Failf("reserved", "sqlite: %s: %v", stmt, err)
					continue
				}
				_, err := db.Exec("DROP TABLE " + q)
				must(err)
			}
		}
	}
	t.Sig(fmt.Sprint("reserved", len(all)))
}

type s05Valuer struct{ v driver.Value }

func (v s05Valuer) Value() (driver.Value, error) {
	if err, ok := v.v.(error); ok {
		return nil, err
	}
	return v.v, nil
}

var s05Err = errors.New("no value")

// s05Value makes a value and what it means: nil, int64, uint64, float64,
// string, []byte, bool or time.Time.
func s05Value(r *rand.Rand) (v, want any) {
	switch r.Intn(22) {
	case 0:
		return nil, nil
	case 1:
		b := r.Intn(2) == 0
		return b, b
	case 2, 3, 4, 5:
		s := s05Text(r)
		if r.Intn(4) == 0 {
			s += s05Text(r)
		}
		if r.Intn(10) == 0 {
			s = []string{"", "\n", "\r", "\r\n", "a\n", "\na", "\n\n"}[r.Intn(7)]
		}
		switch r.Intn(5) {
		case 0:
			return &s, s
		case 1:
			return sql.NullString{String: s, Valid: true}, s
		case 2:
			return s05Valuer{s}, s
		}
		return s, s
	case 6, 7:
		b := make([]byte, r.Intn(6))
		r.Read(b)
		return b, b
	case 8, 9:
		n := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, r.Int63(), -r.Int63n(1000)}[r.Intn(7)]
		switch r.Intn(8) {
		case 0:
			return int(n), n
		case 1:
			return int8(n), int64(int8(n))
		case 2:
			return int16(n), int64(int16(n))
		case 3:
			return int32(n), int64(int32(n))
		case 4:
			return sql.NullInt64{Int64: n, Valid: true}, n
		case 5:
			return sql.NullInt32{Int32: int32(n), Valid: true}, int64(int32(n))
		case 6:
			return &n, n
		}
		return n, n
	case 10:
		n := r.Uint64()
		switch r.Intn(5) {
		case 0:
			return uint(n), n
		case 1:
			return uint8(n), uint64(uint8(n))
		case 2:
			return uint16(n), uint64(uint16(n))
		case 3:
			return uint32(n), uint64(uint32(n))
		}
		return n, n
	case 11, 12:
		f := []float64{0, 1, -1.5, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, -1e-7, r.NormFloat64(), math.Float64frombits(r.Uint64() & 0x7fe0ffffffffffff)}[r.Intn(10)]
		switch r.Intn(4) {
		case 0:
			return float32(f / 1e300), float64(float32(f / 1e300))
		case 1:
			return sql.NullFloat64{Float64: f, Valid: true}, f
		}
		return f, f
	case 13:
		b := r.Intn(2) == 0
		return []any{sql.NullBool{Bool: b, Valid: true}, &b, s05Valuer{b}}[r.Intn(3)], b
	case 14, 15:
		return []any{sql.NullString{}, sql.NullBool{}, sql.NullInt64{}, sql.NullInt32{}, sql.NullFloat64{}, sql.NullTime{}, (*int)(nil), (*string)(nil), (*sql.NullString)(nil), s05Valuer{nil}, (*time.Time)(nil)}[r.Intn(11)], nil
	case 16, 17, 18:
		tm := time.Date(1900+r.Intn(200), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(10000000)*100, time.FixedZone("", (r.Intn(49)-24)*1800))
		switch r.Intn(4) {
		case 0:
			return sql.NullTime{Time: tm, Valid: true}, tm
		case 1:
			return &tm, tm
		case 2:
			return s05Valuer{tm}, tm
		}
		return tm, tm
	case 19:
		return []any{math.Inf(1), math.Inf(-1), math.NaN(), float32(math.Inf(1)), struct{}{}, []int{1}, map[string]int{}, s05Valuer{s05Err}, s05Valuer{int8(1)}, complex(1, 1)}[r.Intn(10)], s05Err
	case 20:
		v, want := s05Value(r)
		if _, ok := v.(sql.NamedArg); ok {
			return v, want
		}
		return sql.Named("x", v), want
	}
	n := int64(r.Intn(100))
	return s05Valuer{n}, n
}

// s05Read reads a value written for a server.
func s05Read(dialect, text string, want any) error {
	bad := func(got any) error { return fmt.Errorf("is read as %#v", got) }
	switch want := want.(type) {
	case nil:
		if text != "NULL" {
			return bad(text)
		}
	case bool:
		w := map[bool]string{true: "TRUE", false: "FALSE"}[want]
		if dialect == "sqlserver" {
			w = map[bool]string{true: "1", false: "0"}[want]
		}
		if text != w {
			return bad(text)
		}
	case int64:
		if n, err := strconv.ParseInt(text, 10, 64); err != nil || n != want {
			return bad(text)
		}
	case uint64:
		if n, err := strconv.ParseUint(text, 10, 64); err != nil || n != want {
			return bad(text)
		}
	case float64:
		f, err := strconv.ParseFloat(text, 64)
		if err != nil || f != want || strings.Trim(text, "0123456789.e+-") != "" {
			return bad(text)
		}
	case []byte:
		var digits string
		switch dialect {
		case "postgres":
			digits = strings.TrimSuffix(strings.TrimPrefix(text, `'\x`), `'`)
		case "mysql":
			digits = strings.TrimSuffix(strings.TrimPrefix(text, `x'`), `'`)
		default:
			digits = strings.TrimPrefix(text, `0x`)
		}
		if b, err := hex.DecodeString(digits); err != nil || string(b) != string(want) || len(digits) == len(text) {
			return bad(text)
		}
	case time.Time:
		toks, err := vLex(dialect, text)
		if err != nil || len(toks) != 1 || toks[0].kind != 's' {
			return bad(text)
		}
		if dialect == "mysql" {
			got, err := time.Parse("2006-01-02 15:04:05", toks[0].text[:19])
			if err != nil || !got.Equal(want.Truncate(time.Second)) {
				return bad(text)
			}
			return nil
		}
		got, err := time.Parse("2006-01-02 15:04:05.999999999-07:00", toks[0].text)
		if err != nil || !got.Equal(want) {
			return bad(text)
		}
	case string:
		got, err := s05ReadString(dialect, text)
		if err != nil {
			return fmt.Errorf("cannot be read: %v", err)
		}
		if got != want {
			return bad(got)
		}
	}
	return nil
}

// s05ReadString evaluates string literals, character codes and their
// concatenation.
func s05ReadString(dialect, text string) (string, error) {
	toks, err := vLex(dialect, text)
	if err != nil {
		return "", err
	}
	i := 0
	next := func() vTok {
		if i < len(toks) {
			i++
			return toks[i-1]
		}
		return vTok{kind: 'e'}
	}
	var expr func() (string, error)
	term := func() (string, error) {
		tok := next()
		if tok.kind == 's' {
			return tok.text, nil
		}
		word := strings.ToUpper(tok.text)
		switch {
		case tok.kind == 'w' && (word == "CHAR" && dialect != "postgres" || word == "CHR" && dialect == "postgres"):
			a, n, b := next(), next(), next()
			code, err := strconv.Atoi(n.text)
			if a.text != "(" || b.text != ")" || err != nil {
				return "", fmt.Errorf("%s without a number", word)
			}
			return string(rune(code)), nil
		case tok.kind == 'w' && word == "CONCAT":
			if next().text != "(" {
				return "", fmt.Errorf("CONCAT without arguments")
			}
			var out string
			args := 0
			for {
				s, err := expr()
				if err != nil {
					return "", err
				}
				out += s
				args++
				if sep := next().text; sep == ")" {
					break
				} else if sep != "," {
					return "", fmt.Errorf("%q in CONCAT", sep)
				}
			}
			if args < 2 && dialect == "sqlserver" {
				return "", fmt.Errorf("CONCAT needs two arguments")
			}
			return out, nil
		}
		return "", fmt.Errorf("unexpected %q", tok.text)
	}
	expr = func() (string, error) {
		out, err := term()
		if err != nil {
			return "", err
		}
		for i+1 < len(toks) && toks[i].text == "|" && toks[i+1].text == "|" && dialect != "mysql" && dialect != "sqlserver" {
			i += 2
			s, err := term()
			if err != nil {
				return "", err
			}
			out += s
		}
		return out, nil
	}
	out, err := expr()
	if err == nil && i != len(toks) {
		err = fmt.Errorf("unexpected %q", toks[i].text)
	}
	return out, err
}

// s05SQLite says what SQLite must give for a value.
func s05SQLite(want any) any {
	switch want := want.(type) {
	case bool:
		if want {
			return int64(1)
		}
		return int64(0)
	case uint64:
		return int64(want)
	case time.Time:
		return want.UTC().Format("2006-01-02 15:04:05")
	}
	return want
}

func s05Same(got, want any) bool {
	if f, ok := want.(float64); ok {
		// SQLite does not read all numbers to the last digit.
		n, ok := got.(float64)
		if i, isInt := got.(int64); isInt {
			n, ok = float64(i), true
		}
		return ok && (n == f || math.Abs(n-f) <= math.Abs(f)*1e-13)
	}
	if b, ok := got.([]byte); ok {
		if w, ok := want.([]byte); ok {
			return string(b) == string(w)
		}
	}
	return reflect.DeepEqual(got, want)
}

func s05Values(t *T) {
	r := t.Rng
	db, err := sql.Open("sqlite3", ":memory:")
	must(err)
	defer db.Close()
	db.SetMaxOpenConns(1)
	for i := 0; i < 40; i++ {
		v, want := s05Value(r)
		for _, d := range s05Dialects {
			text, err := ddl.Sprint(d, v)
			t.Count("values", 1)
			t.Sig(fmt.Sprintf("%s %T %v", d, v, err == nil))
			if want == s05Err {
				t.Count("refused", 1)
				if err == nil {
					t.Failf("refused", "%s: %T %v is written as %s", d, v, v, text)
					return
				}
				continue
			}
			if err != nil {
				t.Failf("value", "%s: %#v: %v", d, v, err)
				return
			}
			if d != "sqlite" {
				if err := s05Read(d, text, want); err != nil {
					t.Failf("value", "%s: %#v is written %s, which %v", d, v, text, err)
					return
				}
				continue
			}
			if u, ok := want.(uint64); ok && u > math.MaxInt64 {
				continue // no such number in SQLite
			}
			t.Count("values_sqlite", 1)
			if f, ok := want.(float64); ok {
				if err := s05Read(d, text, f); err != nil {
					t.Failf("value", "%s: %#v is written %s, which %v", d, v, text, err)
					return
				}
			}
			var got any
			if err := db.QueryRow("SELECT " + text).Scan(&got); err != nil {
				t.Failf("value", "sqlite: %#v is written %s: %v", v, text, err)
				return
			}
			if b, ok := got.([]byte); ok && len(b) == 0 {
				got = []byte{}
			}
			if w := s05SQLite(want); !s05Same(got, w) {
				if w, ok := w.([]byte); ok && len(w) == 0 && got == nil {
					continue // the driver gives nil for an empty blob
				}
				t.Failf("value", "sqlite: %#v is written %s, which is %#v", v, text, got)
				return
			}
		}
	}
}

// s05Queries interpolates arguments into queries made of pieces whose meaning
// is known.
func s05Queries(t *T) {
	r := t.Rng
	db, err := sql.Open("sqlite3", ":memory:")
	must(err)
	defer db.Close()
	db.SetMaxOpenConns(1)
	for round := 0; round < 20; round++ {
		d := s05Dialects[r.Intn(4)]
		var args []any
		names := map[int]string{}
		wants := []any{}
		n := 1 + r.Intn(5)
		if r.Intn(4) == 0 {
			n = 10 + r.Intn(15)
		}
		positional := d == "mysql" || d == "sqlite" && r.Intn(2) == 0
		for i := 0; i < n; i++ {
			var v, want any
			for {
				v, want = s05Value(r)
				if _, ok := v.(sql.NamedArg); ok || want == s05Err {
					continue
				}
				if u, ok := want.(uint64); ok && u > math.MaxInt64 {
					continue
				}
				break
			}
			if !positional && (d == "sqlite" || d == "sqlserver") && r.Intn(2) == 0 {
				names[i] = fmt.Sprintf("%s%d", []string{"name", "n_é", "Price"}[r.Intn(3)], i)
				v = sql.Named(names[i], v)
			}
			args = append(args, v)
			wants = append(wants, want)
		}
		write := func(i int) string {
			s, err := ddl.Sprint(d, args[i])
			must(err)
			return s
		}
		var query, want strings.Builder
		var cols []any
		next := 0
		both := func(s string) { query.WriteString(s); want.WriteString(s) }
		query.WriteString("SELECT ")
		want.WriteString("SELECT ")
		pieces := 1 + r.Intn(8)
		if positional {
			pieces = n
		}
		first := true
		for p := 0; p < pieces || positional && next < n; p++ {
			if !first {
				both([]string{", ", ",", " ,\n"}[r.Intn(3)])
			}
			first = false
			if r.Intn(3) == 0 {
				// Text that is no parameter.
				s := strings.NewReplacer("\n", " ", "\r", " ").Replace(s05Text(r)) + []string{"", " ? ", "$1", "@p1 :x", "''"}[r.Intn(5)]
				if d == "mysql" {
					s = strings.ReplaceAll(s, `\`, "")
				}
				both("'" + strings.ReplaceAll(s, "'", "''") + "'")
				cols = append(cols, s)
				if r.Intn(3) == 0 {
					open, close := `"`, `"`
					if d == "mysql" {
						open, close = "`", "`"
					} else if d == "sqlserver" {
						open, close = "[", "]"
					}
					id := []string{"a?", "b$1", "@p1", "x" + close + close + ":y"}[r.Intn(4)]
					both(" AS " + open + id + close)
				}
				continue
			}
			at := 0
			switch {
			case positional:
				if next >= n {
					both("1")
					cols = append(cols, int64(1))
					continue
				}
				at = next
				next++
				query.WriteString("?")
			default:
				at = r.Intn(n)
				name := names[at]
				switch {
				case d == "postgres":
					query.WriteString(fmt.Sprintf("$%d", at+1))
				case d == "sqlserver" && name != "":
					query.WriteString("@" + name)
				case d == "sqlserver":
					query.WriteString(fmt.Sprintf("@p%d", at+1))
				case name != "":
					query.WriteString(string("$:@"[r.Intn(3)]) + name)
				default:
					query.WriteString(fmt.Sprintf("?%d", at+1))
				}
			}
			want.WriteString(write(at))
			cols = append(cols, wants[at])
			switch r.Intn(6) {
			case 0:
				if d == "postgres" {
					both("::text")
				}
			case 1:
				if d == "sqlite" || d == "postgres" {
					both(`"alias"`)
				}
			case 2:
				both(" ")
			}
		}
		t.Count("queries", 1)
		t.Sig(fmt.Sprint(d, positional, len(args), len(names), pieces))
		got, err := ddl.Sprintf(d, query.String(), args)
		if err != nil {
			t.Failf("query", "%s: %q %v: %v", d, query.String(), args, err)
			return
		}
		if got != want.String() {
			t.Failf("query", "%s: %q %v gives %q, not %q", d, query.String(), args, got, want.String())
			return
		}
		t.Sample("%s: %s", d, got)
		if d == "sqlite" {
			t.Count("queries_sqlite", 1)
			out := make([]any, len(cols))
			ptr := make([]any, len(cols))
			for i := range out {
				ptr[i] = &out[i]
			}
			if err := db.QueryRow(got).Scan(ptr...); err != nil {
				t.Failf("query", "sqlite: %q: %v", got, err)
				return
			}
			for i := range cols {
				w := s05SQLite(cols[i])
				if b, ok := w.([]byte); ok && len(b) == 0 {
					continue
				}
				if !s05Same(out[i], w) {
					t.Failf("query", "sqlite: column %d of %q is %#v, not %#v", i, got, out[i], w)
					return
				}
			}
		}
		// What cannot be interpolated is an error.
		bad := query.String()
		few := args
		switch r.Intn(3) {
		case 0:
			bad += ", '" + strings.ReplaceAll(s05Text(r), "'", "")
			if d == "mysql" {
				bad = strings.ReplaceAll(bad, `\`, "")
			}
		case 1:
			if !positional {
				bad += map[string]string{"sqlite": ", ?99", "postgres": ", $99", "sqlserver": ", @p99"}[d]
			} else {
				bad += ", ?"
			}
		case 2:
			if positional {
				if n == 1 {
					continue
				}
				few = args[:n-1]
			} else {
				if d == "postgres" {
					continue
				}
				bad += ", @nosuchname"
			}
		}
		t.Count("refused", 1)
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Failf("refused", "%s: %q with %d arguments panics: %v", d, bad, len(few), e)
				}
			}()
			if s, err := ddl.Sprintf(d, bad, few); err == nil {
				t.Failf("refused", "%s: %q with %d arguments gives %q", d, bad, len(few), s)
			}
		}()
		if t.Failed() {
			return
		}
	}
}

// s05Versions compares versions.
func s05Versions(t *T) {
	r := t.Rng
	for i := 0; i < 100; i++ {
		gen := func(lo int) []int {
			out := make([]int, lo+r.Intn(4-lo))
			for j := range out {
				out[j] = []int{0, 1, 2, 8, 9, 10, 11, 12}[r.Intn(8)]
			}
			return out
		}
		v, nums := gen(1), gen(0)
		less := false
		for j := 0; j < 4; j++ {
			a, b := 0, 0
			if j < len(v) {
				a = v[j]
			}
			if j < len(nums) {
				b = nums[j]
			}
			if a != b {
				less = a < b
				break
			}
		}
		t.Count("versions", 1)
		t.Sig(fmt.Sprint("version", len(v), len(nums), less))
		lower, greater := ddl.VersionNums(v).LowerThan(nums...), ddl.VersionNums(v).GreaterOrEqualTo(nums...)
		if lower != less || greater == less {
			t.Failf("version", "%v.LowerThan(%v) is %v, GreaterOrEqualTo %v", v, nums, lower, greater)
			return
		}
		if ddl.VersionNums(nil).LowerThan(nums...) {
			t.Failf("version", "an unknown version is lower than %v", nums)
			return
		}
	}
}

// s05Timestamps reads timestamps in all documented forms.
func s05Timestamps(t *T) {
	r := t.Rng
	formats := []struct {
		layout string
		unit   time.Duration
		zone   bool
	}{
		{"2006-01-02 15:04:05.999999999-07:00", 1, true},
		{"2006-01-02T15:04:05.999999999-07:00", 1, true},
		{"2006-01-02 15:04:05.999999999", 1, false},
		{"2006-01-02T15:04:05.999999999", 1, false},
		{"2006-01-02 15:04:05", time.Second, false},
		{"2006-01-02T15:04:05", time.Second, false},
		{"2006-01-02 15:04", time.Minute, false},
		{"2006-01-02T15:04", time.Minute, false},
		{"2006-01-02", 24 * time.Hour, false},
	}
	for i := 0; i < 60; i++ {
		zone := time.FixedZone("", (r.Intn(49)-24)*1800)
		want := time.Date(1900+r.Intn(200), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1e9), zone)
		f := formats[r.Intn(len(formats))]
		var in any
		switch r.Intn(5) {
		case 0:
			in = want
		case 1:
			want = want.Truncate(time.Second)
			in = want.Unix()
		case 2:
			want = want.Truncate(time.Millisecond)
			if ms := want.UnixMilli(); ms <= 1e12 && ms >= -1e12 {
				continue
			}
			in = want.UnixMilli()
		default:
			if !f.zone {
				want = want.UTC().Truncate(f.unit)
			}
			s := want.Format(f.layout)
			if !f.zone && r.Intn(3) == 0 && f.unit < time.Minute {
				s += "Z"
			}
			in = s
			if r.Intn(2) == 0 {
				in = []byte(s)
			}
		}
		var ts ddl.Timestamp
		if r.Intn(4) == 0 {
			must(ts.Scan(time.Now()))
		}
		err := ts.Scan(in)
		t.Count("timestamps", 1)
		t.Sig(fmt.Sprintf("timestamp %T %s", in, f.layout))
		if err != nil || !ts.Valid || !ts.Time.Equal(want) {
			t.Failf("timestamp", "%T %s is read as %v (%v), not %v: %v", in, in, ts.Time, ts.Valid, want, err)
			return
		}
		v, err := ts.Value()
		if tm, ok := v.(time.Time); err != nil || !ok || !tm.Equal(want) {
			t.Failf("timestamp", "the value of %v is %v: %v", want, v, err)
			return
		}
		for _, empty := range []any{nil, "", []byte(nil)} {
			must(ts.Scan(time.Now()))
			if err := ts.Scan(empty); err != nil || ts.Valid {
				t.Failf("timestamp", "%#v is read as %v: %v", empty, ts, err)
				return
			}
			if v, err := ts.Value(); v != nil || err != nil {
				t.Failf("timestamp", "the value of no timestamp is %v: %v", v, err)
				return
			}
		}
		if err := ts.Scan(x06Word(r, "abc-:", 1, 10)); err == nil {
			t.Failf("timestamp", "nonsense is read as %v", ts.Time)
			return
		}
	}
}
