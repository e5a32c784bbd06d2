package main

// Emulated system catalogs. The introspection queries for Postgres, MySQL and
// SQL Server are executed, not recognised: the tables they read (pg_class,
// information_schema.columns, sys.indexes and so on) are filled in from a
// model database, in SQLite, and the few constructs SQLite lacks are rewritten
// (ordered aggregates, unnest) or provided as functions (format_type,
// COLUMNPROPERTY and so on). DROP statements are interpreted on the model.

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/bokwoon95/sqddl/ddl"
	"github.com/mattn/go-sqlite3"
)

// dbServer is an emulated database server holding one database.
type dbServer struct {
	mu      sync.Mutex
	dialect string
	version string
	cat     *ddl.Catalog
	gen     int
	built   map[*mconn]int
	saved   map[*mconn]*ddl.Catalog
	reg     *srvReg
	// Needs holds dependencies: the objects a view or routine refers to.
	ddls []string
	// answer, when set, answers queries of the tables' rows.
	answer func(query string) (driver.Rows, bool, error)
}

// srvReg answers the catalog functions of the current generation.
type srvReg struct {
	types     map[int64]pgTypeInfo
	exprs     map[int64]string // constraint, view, routine and trigger definitions by oid
	args      map[int64]string
	results   map[int64]string
	indexdefs map[int64][]string // [0] is the whole definition
	classes   map[string]int64   // qualified name, as text, to oid
	coldesc   map[[2]int64]string
	typeNames map[int64]string // SQL Server
	charlen   map[string]int64
	ordinal   map[string]int64
}

type pgTypeInfo struct {
	name string // format_type without modifiers
	kind byte
}

func newSrvReg() *srvReg {
	return &srvReg{map[int64]pgTypeInfo{}, map[int64]string{}, map[int64]string{}, map[int64]string{}, map[int64][]string{}, map[string]int64{}, map[[2]int64]string{}, map[int64]string{}, map[string]int64{}, map[string]int64{}}
}

// newServer opens a database handle on an emulated server.
func newServerDB(t *T, dialect, version string, cat *ddl.Catalog) (*sql.DB, *dbServer, *Monitor) {
	s := &dbServer{dialect: dialect, version: version, cat: cat, built: map[*mconn]int{}, saved: map[*mconn]*ddl.Catalog{}}
	m := &Monitor{Emu: s, OnConnect: s.onConnect}
	db := openMonitored(":memory:", m)
	t.Cleanup(func() { db.Close() })
	return db, s, m
}

// isNull tells whether an argument of a function is NULL.
func isNull(v any) bool {
	b, ok := v.([]byte)
	return v == nil || ok && b == nil
}

type ordAgg struct {
	json bool
	sep  string
	vals []any
	keys []float64
	text []string
}

func (a *ordAgg) step(v, key any) {
	a.vals = append(a.vals, v)
	f, _ := strconv.ParseFloat(asStr(key), 64)
	a.keys = append(a.keys, f)
	a.text = append(a.text, asStr(key))
}

func (a *ordAgg) sorted() []any {
	idx := make([]int, len(a.vals))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool { return a.keys[idx[i]] < a.keys[idx[j]] })
	out := make([]any, len(idx))
	for i, j := range idx {
		out[i] = a.vals[j]
	}
	return out
}

type jsonAgg struct{ ordAgg }

func (a *jsonAgg) Step(v, key any) { a.step(v, key) }
func (a *jsonAgg) Done() string {
	out := a.sorted()
	for i, v := range out {
		if isNull(v) {
			out[i] = nil
		} else if b, ok := v.([]byte); ok {
			out[i] = string(b)
		}
	}
	b, _ := json.Marshal(out)
	return string(b)
}

type stringAgg struct{ ordAgg }

func (a *stringAgg) Step(v, sep, key any) {
	a.sep = asStr(sep)
	if !isNull(v) {
		a.step(v, key)
	}
}
func (a *stringAgg) Done() any {
	if len(a.vals) == 0 {
		return nil
	}
	var out []string
	for _, v := range a.sorted() {
		out = append(out, asStr(v))
	}
	return strings.Join(out, a.sep)
}

// likeMatch implements LIKE of the servers: backslash escapes on Postgres and
// MySQL, character classes on SQL Server.
func (s *dbServer) likeMatch(pattern, value string) bool {
	var b strings.Builder
	if s.dialect != "postgres" {
		b.WriteString("(?is)^")
	} else {
		b.WriteString("(?s)^")
	}
	for i := 0; i < len(pattern); i++ {
		c := pattern[i]
		switch {
		case c == '%':
			b.WriteString(".*")
		case c == '_':
			b.WriteString(".")
		case c == '\\' && s.dialect != "sqlserver" && i+1 < len(pattern):
			i++
			b.WriteString(regexp.QuoteMeta(pattern[i : i+1]))
		case c == '[' && s.dialect == "sqlserver" && strings.IndexByte(pattern[i:], ']') > 0:
			j := i + strings.IndexByte(pattern[i:], ']')
			b.WriteString("[" + regexp.QuoteMeta(pattern[i+1:j]) + "]")
			i = j
		default:
			b.WriteString(regexp.QuoteMeta(string(c)))
		}
	}
	b.WriteString("$")
	return regexp.MustCompile(b.String()).MatchString(value)
}

func (s *dbServer) onConnect(c *sqlite3.SQLiteConn) error {
	fns := map[string]any{
		"like": func(p, v any) bool { return !isNull(v) && s.likeMatch(asStr(p), asStr(v)) },
		"concat": func(args ...any) any {
			var b strings.Builder
			for _, a := range args {
				if isNull(a) && s.dialect == "mysql" {
					return nil
				}
				if !isNull(a) {
					b.WriteString(asStr(a))
				}
			}
			return b.String()
		},
	}
	switch s.dialect {
	case "postgres":
		fns["current_database"] = func() string { return s.cat.CatalogName }
		fns["current_schema"] = func() string { return s.cat.CurrentSchema }
		fns["current_setting"] = func(n string) string { return s.version }
		fns["format_type"] = func(oid, mod any) any { return s.formatType(oid, mod) }
		fns["pg_get_expr"] = func(e, rel, pretty any) any { return e }
		fns["col_description"] = func(rel, n int64) any {
			if v, ok := s.reg.coldesc[[2]int64{rel, n}]; ok {
				return v
			}
			return nil
		}
		fns["obj_description"] = func(oid any, catalog string) any {
			n, ok := oid.(int64)
			if !ok {
				return nil
			}
			v, ok := s.reg.coldesc[[2]int64{n, 0}]
			if !ok {
				return nil
			}
			switch catalog {
			case "pg_class", "pg_type", "pg_proc", "pg_trigger":
				return v
			}
			return nil
		}
		fns["pg_get_constraintdef"] = func(oid any, pretty any) any { return s.def(s.reg.exprs, oid) }
		fns["pg_get_viewdef"] = func(oid any, pretty any) any { return s.def(s.reg.exprs, oid) }
		fns["pg_get_triggerdef"] = func(oid any, pretty any) any { return s.def(s.reg.exprs, oid) }
		fns["pg_get_functiondef"] = func(oid any) (any, error) {
			if v := s.def(s.reg.exprs, oid); v != nil {
				return v, nil
			}
			return nil, fmt.Errorf("%v is an aggregate function", oid)
		}
		fns["pg_get_function_identity_arguments"] = func(oid any) any { return s.def(s.reg.args, oid) }
		fns["pg_get_function_result"] = func(oid any) any { return s.def(s.reg.results, oid) }
		fns["pg_get_indexdef"] = func(oid, n int64, pretty any) any {
			d := s.reg.indexdefs[oid]
			if n < 0 || int(n) >= len(d) {
				return nil
			}
			return d[n]
		}
		fns["to_regclass"] = func(name any) any {
			if isNull(name) {
				return nil
			}
			parts := splitName(asStr(name))
			if oid, ok := s.reg.classes[strings.Join(parts, "\x00")]; ok {
				return oid
			}
			return nil
		}
		fns["upper"] = strings.ToUpper
		fns["quote_ident"] = func(name string) string { return pgIdent(name) }
	case "mysql":
		fns["database"] = func() string { return s.cat.CurrentSchema }
		fns["version"] = func() string { return s.version }
		fns["collation_database_"] = func() string { return s.cat.DefaultCollation }
	case "sqlserver":
		fns["db_name"] = func() string { return s.cat.CatalogName }
		fns["schema_name"] = func() string { return s.cat.CurrentSchema }
		fns["serverproperty"] = func(n string) any {
			switch strings.ToLower(n) {
			case "collation":
				return s.cat.DefaultCollation
			case "productversion":
				return s.version
			}
			return nil
		}
		fns["type_name"] = func(id int64) any {
			if v, ok := s.reg.typeNames[id]; ok {
				return v
			}
			return nil
		}
		fns["columnproperty"] = func(obj int64, col, prop string) any {
			m := s.reg.charlen
			if strings.EqualFold(prop, "ordinal") {
				m = s.reg.ordinal
			}
			if v, ok := m[fmt.Sprint(obj, " ", col)]; ok {
				return v
			}
			return nil
		}
		fns["odbcscale"] = func(id, scale any) any {
			if id == int64(106) || id == int64(108) {
				return scale
			}
			return nil
		}
		fns["object_definition"] = func(oid any) any { return s.def(s.reg.exprs, oid) }
	}
	for name, fn := range fns {
		if err := c.RegisterFunc(name, fn, false); err != nil {
			return fmt.Errorf("%s: %w", name, err)
		}
	}
	if err := c.RegisterAggregator("json_agg_", func() *jsonAgg { return &jsonAgg{} }, true); err != nil {
		return err
	}
	return c.RegisterAggregator("string_agg_", func() *stringAgg { return &stringAgg{} }, true)
}

func (s *dbServer) def(m map[int64]string, oid any) any {
	n, ok := oid.(int64)
	if !ok {
		return nil
	}
	if v, ok := m[n]; ok {
		return v
	}
	return nil
}

func pgIdent(name string) string {
	if regexp.MustCompile(`^[a-z_][a-z0-9_]*$`).MatchString(name) && !reservedWords["postgres"][strings.ToUpper(name)] {
		return name
	}
	return `"` + strings.ReplaceAll(name, `"`, `""`) + `"`
}

func (s *dbServer) formatType(oid, mod any) any {
	n, ok := oid.(int64)
	if !ok {
		return nil
	}
	info, ok := s.reg.types[n]
	if !ok {
		return "???"
	}
	m, ok := mod.(int64)
	if !ok {
		m = -1
	}
	name, array := info.name, ""
	if strings.HasSuffix(name, "[]") {
		name, array = strings.TrimSuffix(name, "[]"), "[]"
	}
	if m >= 0 {
		switch name {
		case "character varying", "character":
			name += fmt.Sprintf("(%d)", m-4)
		case "numeric":
			name += fmt.Sprintf("(%d,%d)", (m-4)>>16, (m-4)&65535)
		case "timestamp with time zone", "timestamp without time zone", "time without time zone":
			head, tail, _ := strings.Cut(name, " ")
			name = fmt.Sprintf("%s(%d) %s", head, m, tail)
		}
	}
	return name + array
}

// rewrite turns the servers' SQL into what SQLite understands.
func (s *dbServer) rewrite(q string) string {
	if s.dialect == "postgres" {
		q = strings.ReplaceAll(q, "pg_catalog.", "")
		for _, m := range reUnnest.FindAllStringSubmatch(q, -1) {
			alias := m[2]
			q = strings.Replace(q, m[0], "json_each("+m[1]+") AS "+alias, 1)
			q = replaceColumn(q, alias, m[3], alias+".value")
			q = replaceColumn(q, alias, m[4], "("+alias+".key + 1)")
		}
		q = reCast.ReplaceAllString(q, "")
		q = reFormat.ReplaceAllString(q, "quote_ident($1) || '.' || quote_ident($2)")
	}
	if s.dialect == "mysql" {
		q = strings.ReplaceAll(q, "@@collation_database", "collation_database_()")
	}
	for _, name := range []string{"json_agg", "string_agg", "group_concat"} {
		pos := 0
		for {
			i := strings.Index(q[pos:], name+"(")
			if i < 0 {
				break
			}
			i += pos
			open := i + len(name)
			end := open + closing(q[open:])
			inner := q[open+1 : end]
			tail := q[end+1:]
			sep, order := "','", "0"
			if m := reWithin.FindStringSubmatchIndex(tail); m != nil {
				order = tail[m[2]:m[3]]
				tail = tail[m[1]:]
			}
			if j := topLevel(inner, "SEPARATOR"); j >= 0 {
				sep = strings.TrimSpace(inner[j+len("SEPARATOR"):])
				if s.dialect == "mysql" {
					sep = strings.NewReplacer(`\\`, `\`, `\n`, "\n", `\t`, "\t", `\0`, "\x00").Replace(sep)
				}
				inner = inner[:j]
			}
			if j := topLevel(inner, "ORDER BY"); j >= 0 {
				order = strings.TrimSpace(inner[j+len("ORDER BY"):])
				inner = inner[:j]
			}
			var call string
			switch name {
			case "json_agg":
				call = "json_agg_(" + inner + ", " + order + ")"
			case "string_agg":
				call = "string_agg_(" + inner + ", " + order + ")"
			case "group_concat":
				call = "string_agg_(concat(" + inner + "), " + sep + ", " + order + ")"
			}
			q = q[:i] + call + tail
			pos = i + len(name) + 2
		}
	}
	return q
}

var reClause = regexp.MustCompile(`(?i)\b(SELECT|FROM|WHERE|GROUP BY|ORDER BY|ON)\b`)

// replaceColumn puts an expression in place of a column, keeping its name
// where it is a column of a result.
func replaceColumn(q, alias, column, expr string) string {
	re := regexp.MustCompile(`\b` + alias + `\.` + column + `\b`)
	var b strings.Builder
	pos := 0
	for _, loc := range re.FindAllStringIndex(q, -1) {
		b.WriteString(q[pos:loc[0]])
		b.WriteString(expr)
		pos = loc[1]
		before := q[:loc[0]]
		all := reClause.FindAllStringIndex(before, -1)
		if len(all) == 0 {
			continue
		}
		last := all[len(all)-1]
		next := strings.TrimSpace(q[pos:])
		prev := strings.TrimSpace(before[last[1]:])
		if strings.EqualFold(before[last[0]:last[1]], "SELECT") && (prev == "" || strings.HasSuffix(prev, ",")) && (strings.HasPrefix(next, ",") || len(next) > 5 && strings.EqualFold(next[:5], "FROM ") || strings.HasPrefix(next, "FROM\n")) {
			b.WriteString(" AS " + column)
		}
	}
	b.WriteString(q[pos:])
	return b.String()
}

var (
	reUnnest = regexp.MustCompile(`(?is)unnest\(([\w.]+)\)\s+WITH\s+ORDINALITY\s+AS\s+(\w+)\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)`)
	reCast   = regexp.MustCompile(`::\s*\w+`)
	reFormat = regexp.MustCompile(`(?is)format\('%I\.%I',\s*([\w.]+),\s*([\w.]+)\)`)
	reWithin = regexp.MustCompile(`(?is)^\s*WITHIN\s+GROUP\s*\(\s*ORDER\s+BY\s+([\w.]+)\s*\)`)
)

// closing returns the index of the bracket closing the one s starts with.
func closing(s string) int {
	level, quote := 0, byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if quote != 0 {
			if c == quote {
				quote = 0
			}
			continue
		}
		switch c {
		case '\'', '"', '`':
			quote = c
		case '(':
			level++
		case ')':
			level--
			if level == 0 {
				return i
			}
		}
	}
	return len(s) - 1
}

func topLevel(s, word string) int {
	level, quote := 0, byte(0)
	for i := 0; i+len(word) <= len(s); i++ {
		c := s[i]
		if quote != 0 {
			if c == quote {
				quote = 0
			}
			continue
		}
		switch c {
		case '\'', '"', '`':
			quote = c
		case '(':
			level++
		case ')':
			level--
		}
		if level == 0 && strings.EqualFold(s[i:i+len(word)], word) {
			return i
		}
	}
	return -1
}

func (s *dbServer) Query(c *mconn, ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, bool, error) {
	s.mu.Lock()
	err := s.build(c)
	s.mu.Unlock()
	if err != nil {
		return nil, true, err
	}
	if s.answer != nil {
		if rows, ok, err := s.answer(query); ok {
			return rows, true, err
		}
	}
	rows, err := c.c.QueryContext(ctx, s.rewrite(query), args)
	if err != nil {
		for _, what := range []string{"expression", "check_constraints"} {
			if s.lacks(what) && strings.Contains(err.Error(), what) {
				return nil, true, errServer(err.Error())
			}
		}
		return nil, true, fmt.Errorf("emulated %s: %w", s.dialect, err)
	}
	if s.lacks("check_constraints") && strings.Contains(query, "check_constraints") {
		rows.Close()
		return nil, true, errServer("unknown table check_constraints")
	}
	return rows, true, nil
}

func (s *dbServer) Exec(c *mconn, ctx context.Context, query string, args []driver.NamedValue) (driver.Result, bool, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, stmt := range splitSQL(query) {
		if err := s.ddl(stmt); err != nil {
			return nil, true, err
		}
		s.ddls = append(s.ddls, stmt)
	}
	s.gen++
	return emuResult{}, true, nil
}

// Begin, Commit and Rollback follow the transactions of the connections.
func (s *dbServer) Begin(c *mconn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.saved[c] = copyCatalog(s.cat)
}

func (s *dbServer) Commit(c *mconn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.saved, c)
}

func (s *dbServer) Rollback(c *mconn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if old := s.saved[c]; old != nil && s.dialect != "mysql" {
		s.cat = old
		s.gen++
	}
	delete(s.saved, c)
}

func copyCatalog(c *ddl.Catalog) *ddl.Catalog {
	b, err := json.Marshal(c)
	must(err)
	var out ddl.Catalog
	must(json.Unmarshal(b, &out))
	return &out
}

// splitSQL splits a script into statements.
func splitSQL(script string) (out []string) {
	quote := byte(0)
	start := 0
	for i := 0; i < len(script); i++ {
		c := script[i]
		if quote != 0 {
			if c == quote {
				quote = 0
			}
			continue
		}
		switch c {
		case '\'', '"', '`':
			quote = c
		case '[':
			quote = ']'
		case ';':
			if st := strings.TrimSpace(script[start:i]); st != "" {
				out = append(out, st)
			}
			start = i + 1
		}
	}
	if st := strings.TrimSpace(script[start:]); st != "" {
		out = append(out, st)
	}
	return out
}
