package main

// Schema model shared by the generate, struct, introspection and dump
// properties: random schemas, their rendering as sqddl table structs, and an
// independent reader of a real SQLite database.

import (
	"database/sql"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

type mCol struct {
	Name    string
	Field   string // sq field type without the sq. prefix
	Type    string // explicit type, empty for the documented default of the field type
	NotNull bool
	Default string // SQL text of the default, empty for none
	Autoinc bool
	Collate string
}

type mFK struct {
	Cols, RefCols      []string
	RefTable           string
	OnUpdate, OnDelete string // upper case rule, empty for NO ACTION
	Defer              string // "", "deferrable", "deferred"
}

type mIdx struct {
	Cols   []string
	Unique bool
}

type mTable struct {
	Name    string
	Cols    []*mCol
	PK      []string
	Uniques [][]string
	FKs     []*mFK
	Idxs    []*mIdx
}

type mSchema struct{ Tables []*mTable }

func (s *mSchema) clone() *mSchema {
	out := &mSchema{}
	for _, t := range s.Tables {
		n := &mTable{Name: t.Name, PK: append([]string(nil), t.PK...)}
		for _, c := range t.Cols {
			cc := *c
			n.Cols = append(n.Cols, &cc)
		}
		for _, u := range t.Uniques {
			n.Uniques = append(n.Uniques, append([]string(nil), u...))
		}
		for _, f := range t.FKs {
			ff := *f
			ff.Cols = append([]string(nil), f.Cols...)
			ff.RefCols = append([]string(nil), f.RefCols...)
			n.FKs = append(n.FKs, &ff)
		}
		for _, x := range t.Idxs {
			n.Idxs = append(n.Idxs, &mIdx{Cols: append([]string(nil), x.Cols...), Unique: x.Unique})
		}
		out.Tables = append(out.Tables, n)
	}
	return out
}

func (s *mSchema) table(name string) *mTable {
	for _, t := range s.Tables {
		if t.Name == name {
			return t
		}
	}
	return nil
}

func (t *mTable) col(name string) *mCol {
	for _, c := range t.Cols {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func key(cols []string) string { return strings.Join(cols, "\x00") }

func (t *mTable) hasUnique(cols []string) bool {
	if key(cols) == key(t.PK) {
		return true
	}
	for _, u := range t.Uniques {
		if key(u) == key(cols) {
			return true
		}
	}
	return false
}

func (t *mTable) fk(cols []string) *mFK {
	for _, f := range t.FKs {
		if key(f.Cols) == key(cols) {
			return f
		}
	}
	return nil
}

func (t *mTable) idx(cols []string) *mIdx {
	for _, x := range t.Idxs {
		if key(x.Cols) == key(cols) {
			return x
		}
	}
	return nil
}

func contains(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// fieldTypes is the documented default column type of every field type.
var fieldTypes = map[string]map[string]string{
	"sqlite":    {"NumberField": "INT", "StringField": "TEXT", "BooleanField": "BOOLEAN", "TimeField": "DATETIME", "BinaryField": "BLOB", "JSONField": "JSON", "UUIDField": "UUID", "EnumField": "TEXT", "ArrayField": "JSON", "AnyField": ""},
	"postgres":  {"NumberField": "INT", "StringField": "TEXT", "BooleanField": "BOOLEAN", "TimeField": "TIMESTAMPTZ", "BinaryField": "BYTEA", "JSONField": "JSONB", "UUIDField": "UUID", "EnumField": "TEXT", "ArrayField": "TEXT[]"},
	"mysql":     {"NumberField": "INT", "StringField": "VARCHAR(255)", "BooleanField": "BOOLEAN", "TimeField": "DATETIME", "BinaryField": "MEDIUMBLOB", "JSONField": "JSON", "UUIDField": "BINARY(16)", "EnumField": "VARCHAR(255)", "ArrayField": "JSON"},
	"sqlserver": {"NumberField": "INT", "StringField": "NVARCHAR(255)", "BooleanField": "BIT", "TimeField": "DATETIMEOFFSET", "BinaryField": "VARBINARY(MAX)", "JSONField": "NVARCHAR(MAX)", "UUIDField": "BINARY(16)", "EnumField": "NVARCHAR(255)", "ArrayField": "NVARCHAR(MAX)"},
}

// wantType is the column type the user asked for.
func (t *mTable) wantType(dialect string, c *mCol) string {
	if c.Autoinc && dialect == "sqlite" {
		return "INTEGER"
	}
	if c.Type != "" {
		return strings.ToUpper(c.Type)
	}
	typ := fieldTypes[dialect][c.Field]
	if dialect == "sqlite" && typ == "INT" && len(t.PK) == 1 && t.PK[0] == c.Name {
		return "INTEGER"
	}
	return typ
}

// wantNotNull: primary key columns are NOT NULL, except the rowid alias.
func (t *mTable) wantNotNull(dialect string, c *mCol) bool {
	if c.NotNull {
		return true
	}
	if !contains(t.PK, c.Name) {
		return false
	}
	if dialect == "sqlite" && len(t.PK) == 1 && t.wantType(dialect, c) == "INTEGER" {
		return false
	}
	return true
}

// ---- rendering as Go source -------------------------------------------------

func simpleName(s string) bool {
	return regexp.MustCompile(`^[a-z_][a-z0-9_]*$`).MatchString(s)
}

func brace(s string) string {
	if strings.Contains(s, " ") || strings.HasPrefix(s, "{") {
		return "{" + s + "}"
	}
	return s
}

// modWith renders name={value sub...}.
func modWith(name, value string, subs []string) string {
	if len(subs) == 0 {
		if value == "." {
			return name
		}
		if strings.Contains(value, " ") {
			return name + "={{" + value + "}}"
		}
		return name + "=" + value
	}
	return name + "={" + brace(value) + " " + strings.Join(subs, " ") + "}"
}

func ruleWord(r string) string { return strings.ToLower(strings.ReplaceAll(r, " ", "")) }

// goSource renders the schema as a table struct file. The choice between
// equivalent spellings (column level or table level modifiers) is random.
func (s *mSchema) goSource(r *rand.Rand, dialect string) string {
	var b strings.Builder
	b.WriteString("package tables\n\nimport \"github.com/bokwoon95/sq\"\n\n")
	for i, t := range s.Tables {
		t.writeGo(r, dialect, i, &b)
	}
	return b.String()
}

func (t *mTable) writeGo(r *rand.Rand, dialect string, i int, b *strings.Builder) {
	type field struct {
		name, typ, sqTag string
		mods             []string
	}
	structName := "T" + strconv.Itoa(i)
	first := field{typ: "sq.TableStruct"}
	if simpleName(t.Name) && r.Intn(4) > 0 {
		structName = strings.ToUpper(t.Name)
	} else {
		first.sqTag = t.Name
	}
	var fields []*field
	byCol := map[string]*field{}
	for j, c := range t.Cols {
		f := &field{name: "F" + strconv.Itoa(j), typ: "sq." + c.Field, sqTag: c.Name}
		if simpleName(c.Name) && r.Intn(4) > 0 {
			f.name, f.sqTag = strings.ToUpper(c.Name), ""
		}
		if c.Type != "" {
			if strings.Contains(c.Type, " ") {
				f.mods = append(f.mods, "type={"+c.Type+"}")
			} else {
				f.mods = append(f.mods, "type="+c.Type)
			}
		} else if r.Intn(8) == 0 {
			// A type for another dialect must not matter.
			for _, other := range []string{"postgres", "mysql", "sqlserver", "sqlite"} {
				if other != dialect {
					f.mods = append(f.mods, other+":type=BIGINT")
					break
				}
			}
		}
		if c.NotNull {
			f.mods = append(f.mods, "notnull")
		}
		if c.Default != "" {
			if strings.Contains(c.Default, " ") || strings.HasPrefix(c.Default, "{") {
				f.mods = append(f.mods, "default={"+c.Default+"}")
			} else {
				f.mods = append(f.mods, "default="+c.Default)
			}
		}
		if c.Autoinc {
			switch dialect {
			case "sqlite":
				f.mods = append(f.mods, "autoincrement")
			case "mysql":
				f.mods = append(f.mods, "auto_increment")
			default:
				f.mods = append(f.mods, "identity")
			}
		}
		if c.Collate != "" {
			f.mods = append(f.mods, "collate="+c.Collate)
		}
		byCol[c.Name] = f
		fields = append(fields, f)
	}
	var extra []*field
	tableLevel := func(m string) {
		if r.Intn(2) == 0 {
			first.mods = append(first.mods, m)
			return
		}
		extra = append(extra, &field{name: "_", typ: "struct{}", mods: []string{m}})
	}
	if len(t.PK) == 1 && r.Intn(4) > 0 {
		byCol[t.PK[0]].mods = append(byCol[t.PK[0]].mods, "primarykey")
	} else if len(t.PK) > 0 {
		tableLevel(modWith("primarykey", strings.Join(t.PK, ","), nil))
	}
	for _, u := range t.Uniques {
		if len(u) == 1 && r.Intn(3) > 0 {
			byCol[u[0]].mods = append(byCol[u[0]].mods, "unique")
		} else {
			tableLevel(modWith("unique", strings.Join(u, ","), nil))
		}
	}
	for _, f := range t.FKs {
		ref := f.RefTable
		if key(f.Cols) != key(f.RefCols) || r.Intn(3) == 0 {
			ref += "." + strings.Join(f.RefCols, ",")
		}
		var subs []string
		if f.OnUpdate != "" {
			subs = append(subs, "onupdate="+ruleWord(f.OnUpdate))
		}
		if f.OnDelete != "" {
			subs = append(subs, "ondelete="+ruleWord(f.OnDelete))
		}
		if f.Defer != "" {
			subs = append(subs, f.Defer)
		}
		if len(f.Cols) == 1 && r.Intn(3) > 0 {
			byCol[f.Cols[0]].mods = append(byCol[f.Cols[0]].mods, modWith("references", ref, subs))
		} else {
			subs = append([]string{"references=" + brace(ref)}, subs...)
			tableLevel(modWith("foreignkey", strings.Join(f.Cols, ","), subs))
		}
	}
	for _, x := range t.Idxs {
		var subs []string
		if x.Unique {
			subs = append(subs, "unique")
		}
		if len(x.Cols) == 1 && r.Intn(3) > 0 {
			byCol[x.Cols[0]].mods = append(byCol[x.Cols[0]].mods, modWith("index", ".", subs))
		} else {
			tableLevel(modWith("index", strings.Join(x.Cols, ","), subs))
		}
	}
	b.WriteString("type " + structName + " struct {\n")
	all := append([]*field{&first}, fields...)
	all = append(all, extra...)
	for _, f := range all {
		b.WriteString("\t")
		if f.name != "" {
			b.WriteString(f.name + " ")
		}
		b.WriteString(f.typ)
		var tags []string
		if f.sqTag != "" {
			tags = append(tags, "sq:"+strconv.Quote(f.sqTag))
		}
		if len(f.mods) > 0 {
			tags = append(tags, "ddl:"+strconv.Quote(strings.Join(f.mods, " ")))
		}
		if len(tags) > 0 {
			b.WriteString(" `" + strings.Join(tags, " ") + "`")
		}
		b.WriteString("\n")
	}
	b.WriteString("}\n\n")
}

// ---- independent SQLite DDL -------------------------------------------------

func sq3(name string) string { return `"` + strings.ReplaceAll(name, `"`, `""`) + `"` }

func sq3list(names []string) string {
	q := make([]string, len(names))
	for i, n := range names {
		q[i] = sq3(n)
	}
	return strings.Join(q, ", ")
}

func genName(kind, table string, cols []string) string {
	name := strings.ReplaceAll(table+"_"+strings.Join(cols, "_"), " ", "_")
	kind = "_" + kind
	// PostgreSQL keeps 63 bytes of a name.
	for len(name)+len(kind) > 63 || !utf8.ValidString(name) {
		name = name[:len(name)-1]
	}
	return name + kind
}

// sqliteCreate is the harness's own DDL for a table of the model.
func (t *mTable) sqliteCreate() []string {
	var parts []string
	for _, c := range t.Cols {
		d := sq3(c.Name)
		if typ := t.wantType("sqlite", c); typ != "" {
			d += " " + typ
		}
		if len(t.PK) == 1 && t.PK[0] == c.Name {
			d += " PRIMARY KEY"
			if c.Autoinc {
				d += " AUTOINCREMENT"
			}
		}
		if t.wantNotNull("sqlite", c) {
			d += " NOT NULL"
		}
		if c.Default != "" {
			d += " DEFAULT " + sqliteDefault(c.Default)
		}
		if c.Collate != "" {
			d += " COLLATE " + c.Collate
		}
		parts = append(parts, d)
	}
	if len(t.PK) > 1 {
		parts = append(parts, "PRIMARY KEY ("+sq3list(t.PK)+")")
	}
	for _, u := range t.Uniques {
		parts = append(parts, "UNIQUE ("+sq3list(u)+")")
	}
	for _, f := range t.FKs {
		d := "FOREIGN KEY (" + sq3list(f.Cols) + ") REFERENCES " + sq3(f.RefTable) + " (" + sq3list(f.RefCols) + ")"
		if f.OnUpdate != "" {
			d += " ON UPDATE " + f.OnUpdate
		}
		if f.OnDelete != "" {
			d += " ON DELETE " + f.OnDelete
		}
		switch f.Defer {
		case "deferrable":
			d += " DEFERRABLE"
		case "deferred":
			d += " DEFERRABLE INITIALLY DEFERRED"
		}
		parts = append(parts, d)
	}
	out := []string{"CREATE TABLE " + sq3(t.Name) + " (" + strings.Join(parts, ", ") + ")"}
	for _, x := range t.Idxs {
		u := ""
		if x.Unique {
			u = "UNIQUE "
		}
		out = append(out, "CREATE "+u+"INDEX "+sq3(genName("idx", t.Name, x.Cols))+" ON "+sq3(t.Name)+" ("+sq3list(x.Cols)+")")
	}
	return out
}

var reLiteral = regexp.MustCompile(`(?i)^('([^']|'')*'|[-+]?[0-9.]+|true|false|null|current_timestamp|current_date|current_time)$`)

func sqliteDefault(d string) string {
	if reLiteral.MatchString(d) {
		return d
	}
	return "(" + d + ")"
}

// ---- observation ------------------------------------------------------------

type obsCol struct {
	Name, Type, Default string
	NotNull             bool
	PK                  int
	Hidden              int
}

type obsTable struct {
	Name     string
	Cols     map[string]obsCol
	Order    []string
	PK       []string
	Uniques  map[string]bool
	FKs      map[string]bool
	Idxs     map[string]string
	Triggers map[string]string
	Autoinc  bool
	SQL      string
}

type obsSchema struct {
	Tables map[string]*obsTable
	Views  map[string]string
}

var reAutoinc = regexp.MustCompile(`(?i)\bAUTOINCREMENT\b`)

type querier interface {
	Query(query string, args ...any) (*sql.Rows, error)
}

func queryAll(db querier, q string, args ...any) [][]any {
	rows, err := db.Query(q, args...)
	if err != nil {
		panic(harnessError(fmt.Sprintf("%s: %v", q, err)))
	}
	defer rows.Close()
	cols, err := rows.Columns()
	must(err)
	var out [][]any
	for rows.Next() {
		vals := make([]any, len(cols))
		ptrs := make([]any, len(cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		must(rows.Scan(ptrs...))
		for i, v := range vals {
			if b, ok := v.([]byte); ok {
				vals[i] = string(b)
			}
		}
		out = append(out, vals)
	}
	must(rows.Err())
	return out
}

func asStr(v any) string {
	switch v := v.(type) {
	case nil:
		return ""
	case string:
		return v
	}
	return fmt.Sprint(v)
}

func asInt(v any) int {
	n, _ := strconv.Atoi(fmt.Sprint(v))
	return n
}

// readSQLite reads the structure of a database with pragmas only.
func readSQLite(db querier, skip ...string) *obsSchema {
	out := &obsSchema{Tables: map[string]*obsTable{}, Views: map[string]string{}}
	for _, row := range queryAll(db, `SELECT type, name, tbl_name, sql FROM sqlite_schema ORDER BY CASE type WHEN 'table' THEN 0 ELSE 1 END, name`) {
		typ, name, tbl, text := asStr(row[0]), asStr(row[1]), asStr(row[2]), asStr(row[3])
		if strings.HasPrefix(tbl, "sqlite_") || contains(skip, tbl) {
			continue
		}
		switch typ {
		case "view":
			out.Views[name] = text
		case "trigger":
			// SQLite keeps the table's name as CREATE TRIGGER spelled it.
			for n, t := range out.Tables {
				if strings.EqualFold(n, tbl) {
					t.Triggers[name] = text
				}
			}
		case "table":
			t := &obsTable{Name: name, Cols: map[string]obsCol{}, Uniques: map[string]bool{}, FKs: map[string]bool{}, Idxs: map[string]string{}, Triggers: map[string]string{}, SQL: text}
			t.Autoinc = reAutoinc.MatchString(stripStrings(text))
			out.Tables[name] = t
			pk := map[int]string{}
			for _, c := range queryAll(db, `SELECT name, type, "notnull", dflt_value, pk, hidden FROM pragma_table_xinfo(?)`, name) {
				oc := obsCol{Name: asStr(c[0]), Type: strings.ToUpper(asStr(c[1])), NotNull: asInt(c[2]) != 0, Default: asStr(c[3]), PK: asInt(c[4]), Hidden: asInt(c[5])}
				t.Cols[oc.Name] = oc
				t.Order = append(t.Order, oc.Name)
				if oc.PK > 0 {
					pk[oc.PK] = oc.Name
				}
			}
			for i := 1; i <= len(pk); i++ {
				t.PK = append(t.PK, pk[i])
			}
			fks := map[int]*mFK{}
			for _, f := range queryAll(db, `SELECT id, seq, "table", "from", "to", on_update, on_delete FROM pragma_foreign_key_list(?) ORDER BY id, seq`, name) {
				id := asInt(f[0])
				if fks[id] == nil {
					fks[id] = &mFK{RefTable: asStr(f[2]), OnUpdate: asStr(f[5]), OnDelete: asStr(f[6])}
				}
				fks[id].Cols = append(fks[id].Cols, asStr(f[3]))
				fks[id].RefCols = append(fks[id].RefCols, asStr(f[4]))
			}
			for _, f := range fks {
				t.FKs[fkString(f)] = true
			}
			for _, x := range queryAll(db, `SELECT name, "unique", origin, partial FROM pragma_index_list(?)`, name) {
				iname, origin := asStr(x[0]), asStr(x[2])
				var cols []string
				for _, c := range queryAll(db, `SELECT name, "desc", coll, cid FROM pragma_index_xinfo(?) WHERE "key" = 1 ORDER BY seqno`, iname) {
					n := asStr(c[0])
					if asInt(c[3]) < 0 {
						n = "<expr>"
					}
					if asInt(c[1]) != 0 {
						n += " DESC"
					}
					cols = append(cols, n)
				}
				switch origin {
				case "u":
					t.Uniques[key(cols)] = true
				case "c":
					d := strings.Join(cols, ",")
					if asInt(x[1]) != 0 {
						d = "UNIQUE " + d
					}
					if asInt(x[3]) != 0 {
						d += " PARTIAL"
					}
					t.Idxs[iname] = d
				}
			}
		}
	}
	return out
}

func fkString(f *mFK) string {
	up, del := f.OnUpdate, f.OnDelete
	if up == "" {
		up = "NO ACTION"
	}
	if del == "" {
		del = "NO ACTION"
	}
	return fmt.Sprintf("(%s) -> %s (%s) on update %s on delete %s", strings.Join(f.Cols, "|"), f.RefTable, strings.Join(f.RefCols, "|"), up, del)
}

// stripStrings blanks out quoted text of an SQL statement.
func stripStrings(s string) string {
	var b strings.Builder
	var quote byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if quote != 0 {
			if c == quote {
				quote = 0
			}
			continue
		}
		switch c {
		case '\'', '"', '`':
			quote = c
			b.WriteByte(' ')
		case '[':
			quote = ']'
			b.WriteByte(' ')
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// normDefault brings the text of a default into a comparable form.
func normDefault(d string) string {
	d = strings.TrimSpace(d)
	for len(d) >= 2 && d[0] == '(' && matchParen(d) == len(d)-1 {
		d = strings.TrimSpace(d[1 : len(d)-1])
	}
	switch strings.ToUpper(d) {
	case "TRUE":
		return "1"
	case "FALSE":
		return "0"
	case "CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME", "NULL":
		return strings.ToUpper(d)
	}
	return d
}

// matchParen returns the position of the parenthesis closing the first one.
func matchParen(s string) int {
	depth := 0
	var quote byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if quote != 0 {
			if c == quote {
				quote = 0
			}
			continue
		}
		switch c {
		case '\'', '"':
			quote = c
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return i
			}
		}
	}
	return -1
}

// expectSQLite turns the model into the observation it should give rise to.
func (s *mSchema) expectSQLite() *obsSchema {
	out := &obsSchema{Tables: map[string]*obsTable{}, Views: map[string]string{}}
	for _, t := range s.Tables {
		o := &obsTable{Name: t.Name, Cols: map[string]obsCol{}, Uniques: map[string]bool{}, FKs: map[string]bool{}, Idxs: map[string]string{}, Triggers: map[string]string{}, PK: append([]string(nil), t.PK...)}
		for _, c := range t.Cols {
			o.Cols[c.Name] = obsCol{Name: c.Name, Type: t.wantType("sqlite", c), NotNull: t.wantNotNull("sqlite", c), Default: c.Default}
			o.Order = append(o.Order, c.Name)
			if c.Autoinc {
				o.Autoinc = true
			}
		}
		for _, u := range t.Uniques {
			o.Uniques[key(u)] = true
		}
		for _, f := range t.FKs {
			o.FKs[fkString(f)] = true
		}
		for _, x := range t.Idxs {
			d := strings.Join(x.Cols, ",")
			if x.Unique {
				d = "UNIQUE " + d
			}
			o.Idxs[genName("idx", t.Name, x.Cols)] = d
		}
		out.Tables[t.Name] = o
	}
	return out
}

// diffSchema lists the differences between two observations.
func diffSchema(want, got *obsSchema) []string {
	var d []string
	add := func(f string, a ...any) { d = append(d, fmt.Sprintf(f, a...)) }
	for name, w := range want.Tables {
		g := got.Tables[name]
		if g == nil {
			add("table %q is missing", name)
			continue
		}
		for cn, wc := range w.Cols {
			gc, ok := g.Cols[cn]
			if !ok {
				add("column %q.%q is missing", name, cn)
				continue
			}
			if gc.Type != wc.Type {
				add("column %q.%q has type %q, want %q", name, cn, gc.Type, wc.Type)
			}
			if gc.NotNull != wc.NotNull {
				add("column %q.%q has notnull=%v, want %v", name, cn, gc.NotNull, wc.NotNull)
			}
			if normDefault(gc.Default) != normDefault(wc.Default) {
				add("column %q.%q has default %q, want %q", name, cn, gc.Default, wc.Default)
			}
		}
		for cn := range g.Cols {
			if _, ok := w.Cols[cn]; !ok {
				add("column %q.%q should not exist", name, cn)
			}
		}
		if key(w.PK) != key(g.PK) {
			add("table %q has primary key %q, want %q", name, g.PK, w.PK)
		}
		diffSet(&d, name, "unique", w.Uniques, g.Uniques)
		diffSet(&d, name, "foreign key", w.FKs, g.FKs)
		diffMap(&d, name, "index", w.Idxs, g.Idxs)
		diffMap(&d, name, "trigger", w.Triggers, g.Triggers)
		if w.Autoinc != g.Autoinc {
			add("table %q autoincrement=%v, want %v", name, g.Autoinc, w.Autoinc)
		}
	}
	for name := range got.Tables {
		if want.Tables[name] == nil {
			add("table %q should not exist", name)
		}
	}
	diffMap(&d, "", "view", want.Views, got.Views)
	sort.Strings(d)
	return d
}

func diffSet(d *[]string, table, kind string, want, got map[string]bool) {
	for k := range want {
		if !got[k] {
			*d = append(*d, fmt.Sprintf("table %q lacks %s %q", table, kind, k))
		}
	}
	for k := range got {
		if !want[k] {
			*d = append(*d, fmt.Sprintf("table %q has an unexpected %s %q", table, kind, k))
		}
	}
}

func diffMap(d *[]string, table, kind string, want, got map[string]string) {
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			*d = append(*d, fmt.Sprintf("table %q lacks %s %q", table, kind, k))
		} else if g != v {
			*d = append(*d, fmt.Sprintf("table %q: %s %q is %q, want %q", table, kind, k, g, v))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			*d = append(*d, fmt.Sprintf("table %q has an unexpected %s %q", table, kind, k))
		}
	}
}

func (s *mSchema) String() string {
	var b strings.Builder
	for _, t := range s.Tables {
		for _, q := range t.sqliteCreate() {
			b.WriteString(q + ";\n")
		}
	}
	return b.String()
}
