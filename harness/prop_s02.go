package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/bokwoon95/sqddl/ddl"
)

// S02: the text of a table struct declaration, with its modifiers, means what
// the documentation says it means for each of the four dialects. The
// declarations are generated together with their documented meaning; the real
// parser reads the text, and the catalog it produces is compared with the
// meaning object by object. Malformed declarations have to be reported as
// errors, naming the struct, and never to panic.

var allDialects = []string{"sqlite", "postgres", "mysql", "sqlserver"}

// dmod is a column modifier, applicable to Dialects (nil: all of them).
type dmod struct {
	Dialects []string
	Kind     string
	Val      string
}

func applies(dialects []string, dialect string) bool {
	return len(dialects) == 0 || contains(dialects, dialect)
}

type dcol struct {
	Name  string
	Go    string // Go field name
	Field string
	Mods  []dmod
	Only  []string // dialect= modifier: the column exists only there
	// OnlyAt is the position of the dialect modifier in Mods.
	OnlyAt int
	cons   []*dcon
}

type dsub struct {
	Dialects []string
	Name     string
	Val      string
}

// dcon is a constraint or index declaration.
type dcon struct {
	Dialects []string
	Kind     string // primarykey, unique, index, foreignkey
	Cols     []string
	Ref      string // schema.table, table
	RefCols  []string
	Subs     []dsub
	IdxSubs  []dsub // submodifiers of the index submodifier of a foreign key
	Short    bool   // leave out the columns that are implied
}

type dtable struct {
	Schema, Name, Go string
	Only             []string
	Virtual          bool
	Cols             []*dcol
	cons             [3][]*dcon // in the TableStruct field, in a blank field, in another blank field
}

func (t *dtable) col(name string) *dcol {
	for _, c := range t.Cols {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func someDialects(r *rand.Rand) []string {
	if r.Intn(3) > 0 {
		return nil
	}
	p := r.Perm(4)[:1+r.Intn(3)]
	var out []string
	for _, i := range p {
		out = append(out, allDialects[i])
	}
	return out
}

func prefix(dialects []string) string {
	if len(dialects) == 0 {
		return ""
	}
	return strings.Join(dialects, ",") + ":"
}

var s02Words = []string{"a", "film", "film_id", "last_update", "x1", "Title", "user id", "order", "größe", "n-1", "id", "b", "äö", "z_z", "c", "日本", "d$"}

// ident returns a new name together with the Go identifier that stands for it
// (the lower case of which is the name, unless a name tag is written).
func s02Ident(r *rand.Rand, used map[string]bool) (name, goName string) {
	for {
		name = s02Words[r.Intn(len(s02Words))]
		if r.Intn(2) == 0 {
			name += fmt.Sprint(r.Intn(30))
		}
		key := strings.ToLower(name)
		if used[key] {
			continue
		}
		used[key] = true
		if simpleName(name) && r.Intn(4) > 0 {
			return name, strings.ToUpper(name)
		}
		for {
			goName = fmt.Sprintf("F%d", r.Intn(1000))
			if !used[goName] {
				used[goName] = true
				return name, goName
			}
		}
	}
}

var s02Types = map[string][]string{
	"sqlite":    {"INTEGER", "REAL", "NUMERIC(10,2)", "VARCHAR(20)", "bigint unsigned"},
	"postgres":  {"BIGINT", "NUMERIC(5,2)", "DOUBLE PRECISION", "timestamp without time zone", "INT[]", "citext"},
	"mysql":     {"BIGINT UNSIGNED", "DECIMAL(5,2)", "CHAR(3)", "ENUM('a', 'b}')", "SET('x','y')"},
	"sqlserver": {"BIGINT", "DECIMAL(5, 2)", "NVARCHAR(MAX)", "UNIQUEIDENTIFIER", "DATETIME2"},
	"":          {"BIGINT", "DECIMAL(4,1)", "SMALLINT", "CHAR(7)", "weird type"},
}

// wellFormed reports whether a value may be written between braces.
func wellFormed(s string) bool {
	level := 0
	for _, c := range s {
		switch c {
		case '{':
			level++
		case '}':
			level--
		}
		if level < 0 {
			return false
		}
	}
	return level == 0
}

var s02Defaults = []string{"0", "1", "-5", "3.14", "'abc'", "'it''s'", "'a b'", "TRUE", "false", "CURRENT_TIMESTAMP", "current_date", "NULL", "now()", "(1 + 2)", "1 + 2", "'a' || 'b'", "(a) + (b)", "uuid_generate_v4()", "'{}'", "'{\"a\": 1}'", "1e3", "'='", "''", "f('x', 'y')"}

// wantDefault is the documented form of a default.
func wantDefault(dialect, v string) string {
	if dialect == "postgres" {
		return v
	}
	if literalDefault(v) {
		if dialect == "sqlserver" {
			switch strings.ToUpper(v) {
			case "TRUE":
				return "1"
			case "FALSE":
				return "0"
			}
		}
		return v
	}
	if wholeBrackets(v) {
		return v
	}
	return "(" + v + ")"
}

// literalDefault reports whether the text is one literal: a string, a number
// or one of the constants.
func literalDefault(v string) bool {
	switch strings.ToUpper(v) {
	case "TRUE", "FALSE", "NULL", "CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP":
		return true
	}
	if len(v) >= 2 && v[0] == '\'' {
		rest := strings.ReplaceAll(v[1:], "''", "")
		if v == "''" {
			return true
		}
		return strings.IndexByte(rest, '\'') == len(rest)-1
	}
	digits := strings.TrimLeft(v, "+-")
	return digits != "" && strings.Trim(digits, "0123456789.eE") == "" && digits[0] >= '0' && digits[0] <= '9'
}

// wholeBrackets reports whether one pair of brackets encloses the whole text.
func wholeBrackets(v string) bool {
	if !strings.HasPrefix(v, "(") || !strings.HasSuffix(v, ")") {
		return false
	}
	level := 0
	for i, c := range v {
		switch c {
		case '(':
			level++
		case ')':
			level--
			if level == 0 && i < len(v)-1 {
				return false
			}
		}
	}
	return true
}

func genDecl(r *rand.Rand) []*dtable {
	fields := []string{"NumberField", "StringField", "BooleanField", "TimeField", "BinaryField", "JSONField", "UUIDField", "EnumField", "ArrayField", "AnyField"}
	usedTables, usedTypes := map[string]bool{}, map[string]bool{}
	var tables []*dtable
	for i := 0; i < 1+r.Intn(4); i++ {
		t := &dtable{}
		t.Name, t.Go = s02Ident(r, usedTables)
		if t.Go != strings.ToUpper(t.Name) {
			t.Go = fmt.Sprintf("T%d_%s", i, t.Go)
		}
		for usedTypes[t.Go] {
			t.Go += "X"
		}
		usedTypes[t.Go] = true
		if r.Intn(4) == 0 {
			t.Schema = pickStr(r, "s1", "other schema", "S2")
		}
		if r.Intn(7) == 0 {
			t.Only = someDialects(r)
		}
		t.Virtual = r.Intn(12) == 0
		usedCols := map[string]bool{}
		for j := 0; j < 1+r.Intn(6); j++ {
			c := &dcol{Field: fields[r.Intn(len(fields))], OnlyAt: -1}
			c.Name, c.Go = s02Ident(r, usedCols)
			genColMods(r, c)
			t.Cols = append(t.Cols, c)
		}
		if r.Intn(4) == 0 {
			field := fields[r.Intn(len(fields))]
			for _, name := range []string{"left", "right"} {
				t.Cols = append(t.Cols, &dcol{Name: name, Go: strings.ToUpper(name), Field: field, OnlyAt: -1})
			}
		}
		tables = append(tables, t)
	}
	for _, t := range tables {
		genCons(r, tables, t)
	}
	return tables
}

func genColMods(r *rand.Rand, c *dcol) {
	seen := map[string][]string{} // kind -> dialects with a type or length already
	for i := r.Intn(5); i > 0; i-- {
		m := dmod{Dialects: someDialects(r)}
		m.Kind = pickStr(r, "type", "len", "auto_increment", "autoincrement", "identity", "alwaysidentity", "notnull", "onupdatecurrenttimestamp", "collate", "default", "default", "generated", "notnull")
		switch m.Kind {
		case "type", "len", "autoincrement":
			// How a type combines with a length or with another type is not
			// documented: at most one of them per dialect.
			clash := false
			for _, d := range allDialects {
				if applies(m.Dialects, d) && contains(seen["type"], d) {
					clash = true
				}
			}
			if clash {
				continue
			}
			for _, d := range allDialects {
				if applies(m.Dialects, d) {
					seen["type"] = append(seen["type"], d)
				}
			}
			if m.Kind == "len" {
				m.Val = fmt.Sprint(1 + r.Intn(300))
			}
			if m.Kind == "type" {
				pool := s02Types[""]
				if len(m.Dialects) == 1 {
					pool = s02Types[m.Dialects[0]]
				}
				m.Val = pool[r.Intn(len(pool))]
				if !wellFormed(m.Val) && strings.Contains(m.Val, " ") {
					m.Val = pool[0]
				}
			}
		case "collate":
			m.Val = pickStr(r, "nocase", "latin1_swedish_ci", "C", "en_US.utf8")
		case "default":
			m.Val = s02Defaults[r.Intn(len(s02Defaults))]
		}
		c.Mods = append(c.Mods, m)
	}
	if r.Intn(8) == 0 {
		c.Only = someDialects(r)
		if c.Only != nil {
			c.OnlyAt = r.Intn(len(c.Mods) + 1)
		}
	}
}

func genCons(r *rand.Rand, tables []*dtable, t *dtable) {
	// Only columns that exist in every dialect take part in table level
	// constraints.
	var everywhere []string
	for _, c := range t.Cols {
		if c.Only == nil {
			everywhere = append(everywhere, c.Name)
		}
	}
	taken := map[string]bool{} // kind + columns + dialect
	names := map[string]bool{} // generated name + dialect
	add := func(con *dcon) bool {
		for _, d := range allDialects {
			if !applies(con.Dialects, d) {
				continue
			}
			key := con.Kind + "|" + strings.Join(con.Cols, ",") + "|" + d
			if con.Kind == "primarykey" {
				key = "primarykey|" + d
			}
			if taken[key] || names[conName(t.Name, con.Kind, con.Cols)+"|"+d] {
				return false
			}
			if con.hasIndex() && (taken["index|"+strings.Join(con.Cols, ",")+"|"+d] || names[conName(t.Name, "index", con.Cols)+"|"+d]) {
				return false
			}
		}
		for _, d := range allDialects {
			if !applies(con.Dialects, d) {
				continue
			}
			key := con.Kind + "|" + strings.Join(con.Cols, ",") + "|" + d
			if con.Kind == "primarykey" {
				key = "primarykey|" + d
			}
			taken[key] = true
			names[conName(t.Name, con.Kind, con.Cols)+"|"+d] = true
			if con.hasIndex() {
				taken["index|"+strings.Join(con.Cols, ",")+"|"+d] = true
				names[conName(t.Name, "index", con.Cols)+"|"+d] = true
			}
		}
		return true
	}
	for i := r.Intn(6); i > 0; i-- {
		con := &dcon{Dialects: someDialects(r), Kind: pickStr(r, "primarykey", "unique", "index", "foreignkey"), Short: r.Intn(2) == 0}
		level := r.Intn(5)
		var home *dcol
		if level >= 2 {
			home = t.Cols[r.Intn(len(t.Cols))]
			con.Cols = []string{home.Name}
			if home.Only != nil && len(con.Dialects) > 0 {
				con.Dialects = nil
			}
			if home.Only == nil && r.Intn(3) == 0 && len(everywhere) > 0 {
				con.Cols = pickCols(r, everywhere)
			}
		} else {
			if len(everywhere) == 0 {
				continue
			}
			con.Cols = pickCols(r, everywhere)
		}
		if con.Kind == "foreignkey" {
			ref := tables[r.Intn(len(tables))]
			if ref.Only != nil {
				continue
			}
			var refCols []string
			for _, c := range ref.Cols {
				if c.Only == nil {
					refCols = append(refCols, c.Name)
				}
			}
			if len(refCols) < len(con.Cols) {
				continue
			}
			p := r.Perm(len(refCols))
			for k := range con.Cols {
				con.RefCols = append(con.RefCols, refCols[p[k]])
			}
			con.Ref = ref.Name
			if ref.Schema != "" {
				con.Ref = ref.Schema + "." + ref.Name
			}
			for k := r.Intn(4); k > 0; k-- {
				sub := dsub{Dialects: someDialects(r), Name: pickStr(r, "onupdate", "ondelete", "deferrable", "deferred", "index")}
				if sub.Name == "onupdate" || sub.Name == "ondelete" {
					sub.Val = pickStr(r, "cascade", "restrict", "noaction", "setnull", "setdefault")
				}
				if sub.Name == "index" {
					if con.hasIndex() {
						continue
					}
					if r.Intn(2) == 0 {
						con.IdxSubs = genIdxSubs(r)
					}
				}
				con.Subs = append(con.Subs, sub)
			}
		}
		switch con.Kind {
		case "primarykey", "unique":
			for k := r.Intn(3); k > 0; k-- {
				con.Subs = append(con.Subs, dsub{Dialects: someDialects(r), Name: pickStr(r, "deferrable", "deferred")})
			}
		case "index":
			con.Subs = genIdxSubs(r)
		}
		if home != nil && home.Only != nil {
			// Registered for all dialects: the column exists in some only.
			saved := con.Dialects
			con.Dialects = home.Only
			ok := add(con)
			con.Dialects = saved
			if ok {
				home.cons = append(home.cons, con)
			}
			continue
		}
		if !add(con) {
			continue
		}
		if home != nil {
			home.cons = append(home.cons, con)
		} else {
			t.cons[level%2] = append(t.cons[level%2], con)
		}
	}
	// The same columns once more for the dialects that do not have it yet.
	if len(everywhere) > 0 && r.Intn(3) == 0 {
		cols := pickCols(r, everywhere)
		split := 1 + r.Intn(3)
		p := r.Perm(4)
		var left, right []string
		for i, k := range p {
			if i < split {
				left = append(left, allDialects[k])
			} else {
				right = append(right, allDialects[k])
			}
		}
		kind := pickStr(r, "unique", "index")
		for i, ds := range [][]string{left, right} {
			con := &dcon{Dialects: ds, Kind: kind, Cols: cols}
			if kind == "index" && r.Intn(2) == 0 {
				con.Subs = []dsub{{Name: "unique"}}
			}
			if kind == "unique" && r.Intn(2) == 0 {
				con.Subs = []dsub{{Name: "deferred"}}
			}
			if add(con) {
				k := (i + r.Intn(2)) % 3
				t.cons[k] = append(t.cons[k], con)
			}
		}
	}
}

func (con *dcon) hasIndex() bool {
	for _, s := range con.Subs {
		if con.Kind == "foreignkey" && s.Name == "index" {
			return true
		}
	}
	return false
}

func genIdxSubs(r *rand.Rand) []dsub {
	var out []dsub
	if r.Intn(2) == 0 {
		out = append(out, dsub{Dialects: someDialects(r), Name: "unique"})
	}
	if r.Intn(2) == 0 {
		out = append(out, dsub{Dialects: someDialects(r), Name: "using", Val: pickStr(r, "btree", "HASH", "gin")})
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func pickCols(r *rand.Rand, cols []string) []string {
	n := 1 + r.Intn(3)
	if n > len(cols) {
		n = len(cols)
	}
	var out []string
	for _, i := range r.Perm(len(cols))[:n] {
		out = append(out, cols[i])
	}
	return out
}

// conName is the documented name of a constraint.
func conName(table, kind string, cols []string) string {
	suffix := map[string]string{"primarykey": "pkey", "unique": "key", "index": "idx", "foreignkey": "fkey"}[kind]
	return strings.ReplaceAll(table+"_"+strings.Join(cols, "_")+"_"+suffix, " ", "_")
}

// ---- text ---------------------------------------------------------------------

func space(r *rand.Rand) string { return strings.Repeat(" ", 1+r.Intn(2)*r.Intn(3)) }

func modText(r *rand.Rand, dialects []string, name, val string) string {
	if val == "" {
		return prefix(dialects) + name
	}
	if strings.Contains(val, " ") || strings.HasPrefix(val, "{") || r.Intn(6) == 0 && wellFormed(val) {
		val = "{" + val + "}"
	}
	return prefix(dialects) + name + "=" + val
}

func subsText(r *rand.Rand, subs []dsub) string {
	var parts []string
	for _, s := range subs {
		parts = append(parts, modText(r, s.Dialects, s.Name, s.Val))
	}
	return strings.Join(parts, space(r))
}

// conText writes a constraint modifier; own is the column it is written at.
func conText(r *rand.Rand, con *dcon, own string) string {
	value := strings.Join(con.Cols, ",")
	if own != "" && len(con.Cols) == 1 && con.Cols[0] == own && con.Kind != "foreignkey" && con.Short {
		value = "."
	}
	quoted := func(v string) string {
		if strings.Contains(v, " ") || r.Intn(8) == 0 && v != "." {
			return "{" + v + "}"
		}
		return v
	}
	name := con.Kind
	var subs []string
	for _, s := range con.Subs {
		if s.Name == "index" && len(con.IdxSubs) > 0 {
			subs = append(subs, prefix(s.Dialects)+"index={. "+subsText(r, con.IdxSubs)+"}")
			continue
		}
		subs = append(subs, modText(r, s.Dialects, s.Name, s.Val))
	}
	if con.Kind == "foreignkey" {
		ref := con.Ref + "." + strings.Join(con.RefCols, ",")
		if con.Short && reflect.DeepEqual(con.Cols, con.RefCols) && !strings.Contains(con.Ref, ".") {
			ref = con.Ref
		}
		if own != "" && len(con.Cols) == 1 && con.Cols[0] == own && r.Intn(3) > 0 {
			name, value = "references", ref
		} else {
			i := 0
			if len(subs) > 0 {
				i = r.Intn(len(subs) + 1)
			}
			subs = append(subs[:i:i], append([]string{modText(r, nil, "references", ref)}, subs[i:]...)...)
		}
	}
	if len(subs) == 0 {
		switch {
		case value == "." && r.Intn(2) == 0:
			return prefix(con.Dialects) + name
		case strings.Contains(value, " "):
			return prefix(con.Dialects) + name + "={{" + value + "}}"
		}
		return prefix(con.Dialects) + name + "=" + value
	}
	return prefix(con.Dialects) + name + "={" + quoted(value) + " " + strings.Join(subs, space(r)) + "}"
}

func goTag(r *rand.Rand, nameTag string, mods []string) string {
	tag := ""
	if nameTag != "" {
		tag = fmt.Sprintf("sq:%q", nameTag)
	}
	if len(mods) > 0 {
		text := strings.Join(mods, space(r))
		if r.Intn(6) == 0 {
			text = " " + text + " "
		}
		if tag != "" {
			tag += " "
		}
		tag += fmt.Sprintf("ddl:%q", text)
		if r.Intn(5) == 0 {
			tag += ` json:"x,omitempty"`
		}
	}
	if tag == "" {
		return ""
	}
	if r.Intn(6) == 0 {
		return fmt.Sprintf(" %q", tag)
	}
	return " `" + tag + "`"
}

func (t *dtable) write(r *rand.Rand, b *strings.Builder) {
	nameTag := ""
	if t.Schema != "" {
		nameTag = t.Schema + "." + t.Name
	} else if strings.ToLower(t.Go) != t.Name || r.Intn(5) == 0 {
		nameTag = t.Name
	}
	fmt.Fprintf(b, "type %s struct {\n", t.Go)
	var mods []string
	for _, con := range t.cons[0] {
		mods = append(mods, conText(r, con, ""))
	}
	if t.Virtual {
		mods = append(mods, "virtual")
	}
	if t.Only != nil {
		// Modifiers before it would apply to every dialect, but the table
		// exists only in these: the position does not matter, except that
		// explicit dialect prefixes stay as they are.
		mods = append(mods, "dialect="+strings.Join(t.Only, ","))
	}
	fmt.Fprintf(b, "\tsq.TableStruct%s\n", goTag(r, nameTag, mods))
	blanks := [][]*dcon{t.cons[1], t.cons[2]}
	blank := func(i int) {
		if len(blanks[i]) == 0 {
			return
		}
		var mods []string
		for _, con := range blanks[i] {
			mods = append(mods, conText(r, con, ""))
		}
		blanks[i] = nil
		fmt.Fprintf(b, "\t_ struct{}%s\n", goTag(r, "", mods))
	}
	skip := false
	for i, c := range t.Cols {
		if skip {
			skip = false
			continue
		}
		if r.Intn(4) == 0 {
			blank(0)
		}
		colTag := ""
		if strings.ToLower(c.Go) != c.Name || r.Intn(6) == 0 {
			colTag = c.Name
		}
		var mods []string
		for k, m := range c.Mods {
			if k == c.OnlyAt {
				mods = append(mods, "dialect="+strings.Join(c.Only, ","))
			}
			mods = append(mods, modText(r, m.Dialects, m.Kind, m.Val))
		}
		if c.OnlyAt == len(c.Mods) {
			mods = append(mods, "dialect="+strings.Join(c.Only, ","))
		}
		for _, con := range c.cons {
			mods = append(mods, conText(r, con, c.Name))
		}
		// Several plain fields in one declaration.
		if colTag == "" && len(mods) == 0 && i+1 < len(t.Cols) {
			next := t.Cols[i+1]
			if next.Field == c.Field && len(next.Mods)+len(next.cons) == 0 && next.Only == nil && strings.ToLower(next.Go) == next.Name {
				fmt.Fprintf(b, "\t%s, %s sq.%s\n", c.Go, next.Go, c.Field)
				skip = true
				continue
			}
		}
		fmt.Fprintf(b, "\t%s sq.%s%s\n", c.Go, c.Field, goTag(r, colTag, mods))
	}
	blank(0)
	blank(1)
	if r.Intn(5) == 0 {
		b.WriteString("\tnote string // not a column\n")
	}
	b.WriteString("}\n\n")
}

// ---- meaning ------------------------------------------------------------------

func yes(b bool, s string) string {
	if b {
		return " " + s
	}
	return ""
}

// meaning lists the objects that the declarations stand for in a dialect.
func meaning(tables []*dtable, dialect, currentSchema string) []string {
	var out []string
	for _, t := range tables {
		if !applies(t.Only, dialect) {
			continue
		}
		schema := t.Schema
		if schema == "" {
			schema = currentSchema
		}
		full := schema + "." + t.Name
		out = append(out, "table "+full+yes(t.Virtual && dialect == "sqlite", "virtual"))
		type placed struct {
			con *dcon
			col *dcol
		}
		var cons []placed
		for _, list := range t.cons {
			for _, con := range list {
				if applies(con.Dialects, dialect) {
					cons = append(cons, placed{con, nil})
				}
			}
		}
		for _, c := range t.Cols {
			if !applies(c.Only, dialect) {
				continue
			}
			for _, con := range c.cons {
				if applies(con.Dialects, dialect) {
					cons = append(cons, placed{con, c})
				}
			}
		}
		var pk []string
		for _, p := range cons {
			con := p.con
			deferrable, deferred, unique, using, upd, del := false, false, false, "", "", ""
			index, iunique, iusing := false, false, ""
			for _, s := range con.Subs {
				if !applies(s.Dialects, dialect) {
					continue
				}
				switch s.Name {
				case "deferrable", "deferred":
					if dialect == "sqlite" || dialect == "postgres" {
						deferrable = true
						deferred = deferred || s.Name == "deferred"
					}
				case "unique":
					unique = true
				case "using":
					using = s.Val
				case "onupdate":
					upd = ruleOf(dialect, s.Val)
				case "ondelete":
					del = ruleOf(dialect, s.Val)
				case "index":
					index = true
					for _, is := range con.IdxSubs {
						if applies(is.Dialects, dialect) {
							iunique = iunique || is.Name == "unique"
							if is.Name == "using" {
								iusing = is.Val
							}
						}
					}
				}
			}
			if dialect != "postgres" && dialect != "mysql" {
				using, iusing = "", ""
			}
			cols := "(" + strings.Join(con.Cols, "|") + ")"
			name := conName(t.Name, con.Kind, con.Cols)
			def := yes(deferrable, "deferrable") + yes(deferred, "deferred")
			switch con.Kind {
			case "primarykey":
				pk = con.Cols
				if dialect == "mysql" {
					name = "PRIMARY"
				}
				if dialect == "sqlite" {
					def = "" // documented for Postgres only
				}
				out = append(out, fmt.Sprintf("PRIMARY KEY %s %s%s%s", full, name, cols, def))
			case "unique":
				if dialect == "sqlite" {
					def = ""
				}
				out = append(out, fmt.Sprintf("UNIQUE %s %s%s%s", full, name, cols, def))
			case "index":
				out = append(out, fmt.Sprintf("index %s %s%s%s using=%s", full, name, cols, yes(unique, "unique"), using))
			case "foreignkey":
				ref := con.Ref
				if !strings.Contains(ref, ".") {
					ref = currentSchema + "." + ref
				}
				out = append(out, fmt.Sprintf("FOREIGN KEY %s %s%s -> %s(%s) upd=%s del=%s%s", full, name, cols, ref, strings.Join(con.RefCols, "|"), upd, del, def))
				if index {
					out = append(out, fmt.Sprintf("index %s %s%s%s using=%s", full, conName(t.Name, "index", con.Cols), cols, yes(iunique, "unique"), iusing))
				}
			}
		}
		for _, c := range t.Cols {
			if !applies(c.Only, dialect) {
				continue
			}
			typ, explicit := fieldTypes[dialect][c.Field], false
			var notnull, autoinc, ouct, generated bool
			var ident, coll, def string
			for _, m := range c.Mods {
				if !applies(m.Dialects, dialect) {
					continue
				}
				switch m.Kind {
				case "type":
					typ, explicit = m.Val, true
				case "len":
					switch dialect {
					case "postgres", "mysql":
						typ = "VARCHAR(" + m.Val + ")"
					case "sqlserver":
						typ = "NVARCHAR(" + m.Val + ")"
					}
				case "auto_increment":
					autoinc = autoinc || dialect == "mysql"
				case "autoincrement":
					if dialect == "sqlite" {
						autoinc, typ = true, "INTEGER"
					}
				case "identity", "alwaysidentity":
					switch dialect {
					case "postgres":
						ident = "GENERATED BY DEFAULT AS IDENTITY"
						if m.Kind == "alwaysidentity" {
							ident = "GENERATED ALWAYS AS IDENTITY"
						}
					case "sqlserver":
						ident = "IDENTITY"
					}
				case "notnull":
					notnull = true
				case "onupdatecurrenttimestamp":
					ouct = dialect == "mysql"
				case "collate":
					coll = m.Val
				case "default":
					def = wantDefault(dialect, m.Val)
				case "generated":
					generated = true
				}
			}
			if dialect == "sqlite" && typ == "INT" && !explicit && len(pk) == 1 && pk[0] == c.Name {
				typ = "INTEGER"
			}
			if contains(pk, c.Name) && !(dialect == "sqlite" && typ == "INTEGER" && len(pk) == 1) {
				notnull = true
			}
			out = append(out, colString(full, c.Name, typ, notnull, autoinc, ouct, generated, ident, coll, def))
		}
	}
	sort.Strings(out)
	return out
}

func ruleOf(dialect, word string) string {
	if word == "restrict" && dialect == "sqlserver" {
		return "NO ACTION"
	}
	return map[string]string{"cascade": "CASCADE", "restrict": "RESTRICT", "noaction": "NO ACTION", "setnull": "SET NULL", "setdefault": "SET DEFAULT"}[word]
}

func colString(table, name, typ string, notnull, autoinc, ouct, generated bool, ident, coll, def string) string {
	return fmt.Sprintf("column %s %s type=%s%s%s%s%s identity=%s collate=%s default=%s", table, name, typ, yes(notnull, "notnull"), yes(autoinc, "autoincrement"), yes(ouct, "onupdate"), yes(generated, "generated"), ident, coll, def)
}

// declared lists the objects of a parsed catalog in the same form.
func declared(c *ddl.Catalog) []string {
	var out []string
	for _, s := range c.Schemas {
		for _, t := range s.Tables {
			if t.Ignore {
				continue
			}
			full := s.SchemaName + "." + t.TableName
			out = append(out, "table "+full+yes(t.IsVirtual, "virtual"))
			for _, col := range t.Columns {
				if col.Ignore {
					continue
				}
				out = append(out, colString(full, col.ColumnName, col.ColumnType, col.IsNotNull, col.IsAutoincrement, col.OnUpdateCurrentTimestamp, col.IsGenerated, col.ColumnIdentity, col.CollationName, col.ColumnDefault))
			}
			for _, con := range t.Constraints {
				if con.Ignore {
					continue
				}
				def := yes(con.IsDeferrable, "deferrable") + yes(con.IsInitiallyDeferred, "deferred")
				line := fmt.Sprintf("%s %s %s(%s)", con.ConstraintType, full, con.ConstraintName, strings.Join(con.Columns, "|"))
				if con.ConstraintType == ddl.FOREIGN_KEY {
					schema := con.ReferencesSchema
					if schema == "" {
						schema = c.CurrentSchema
					}
					line += fmt.Sprintf(" -> %s.%s(%s) upd=%s del=%s", schema, con.ReferencesTable, strings.Join(con.ReferencesColumns, "|"), con.UpdateRule, con.DeleteRule)
				} else if c.Dialect == "sqlite" {
					def = ""
				}
				out = append(out, line+def)
			}
			for _, x := range t.Indexes {
				if x.Ignore {
					continue
				}
				out = append(out, fmt.Sprintf("index %s %s(%s)%s using=%s", full, x.IndexName, strings.Join(x.Columns, "|"), yes(x.IsUnique, "unique"), x.IndexType))
			}
		}
	}
	sort.Strings(out)
	return out
}

// parseSources runs the real parser over the files.
func parseSources(files []string, catalog *ddl.Catalog) (err error, panicked string) {
	defer func() {
		if p := recover(); p != nil {
			panicked = fmt.Sprint(p)
		}
	}()
	parser := ddl.NewStructParser(nil)
	for i, src := range files {
		name := fmt.Sprintf("f%d.go", i)
		f, err := fstest.MapFS{name: &fstest.MapFile{Data: []byte(src)}}.Open(name)
		if err != nil {
			panic(harnessError(err.Error()))
		}
		if err := parser.ParseFile(f); err != nil {
			return err, ""
		}
	}
	return parser.WriteCatalog(catalog), ""
}

const s02Head = "package tables\n\nimport \"github.com/bokwoon95/sq\"\n\n"

// s02Noise is Go code that declares no table.
var s02Noise = []string{
	"// FILM is not declared here: type FILM struct {}\n",
	"type helper struct {\n\tsq.TableStruct2\n\tname string `ddl:\"nonsense={\"`\n}\n\n",
	"type Rows []int\n\nfunc (r Rows) Len() int { return len(r) }\n\n",
	"var x = struct{ A int }{1}\n\n",
	"type empty struct{}\n\n",
	"func f() {\n\ttype LOCAL = int\n\tvar _ LOCAL\n}\n\n",
	"type iface interface{ M() }\n\n",
}

func currentSchemaOf(r *rand.Rand, dialect string) string {
	switch dialect {
	case "postgres":
		return pickStr(r, "public", "", "app")
	case "mysql":
		return pickStr(r, "db", "")
	case "sqlserver":
		return pickStr(r, "dbo", "")
	}
	return ""
}

func s02Declarations(t *T, n int) {
	r := t.Rng
	for i := 0; i < n && !t.Failed(); i++ {
		tables := genDecl(r)
		nfiles := 1 + r.Intn(3)
		bodies := make([]strings.Builder, nfiles)
		for _, tb := range tables {
			b := &bodies[r.Intn(nfiles)]
			if r.Intn(3) == 0 {
				b.WriteString(s02Noise[r.Intn(len(s02Noise))])
			}
			tb.write(r, b)
		}
		var files []string
		for k := range bodies {
			files = append(files, s02Head+bodies[k].String())
		}
		for _, dialect := range allDialects {
			current := currentSchemaOf(r, dialect)
			catalog := &ddl.Catalog{Dialect: dialect, CurrentSchema: current}
			err, panicked := parseSources(files, catalog)
			if panicked != "" {
				t.Failf("panic", "%s: the parser panicked: %s\n%s", dialect, panicked, strings.Join(files, "\n"))
				return
			}
			if err != nil {
				t.Failf("rejected", "%s: valid declarations were rejected: %v\n%s", dialect, err, strings.Join(files, "\n"))
				return
			}
			want, got := meaning(tables, dialect, current), declared(catalog)
			if d := diffLists(want, got); d != "" {
				t.Failf("meaning/"+dialect, "%s: the declarations mean something else:\n%s\n%s", dialect, d, strings.Join(files, "\n"))
				return
			}
			t.Count("catalogs", 1)
			t.Count("objects", len(want))
			for _, w := range want {
				t.Count("obj:"+strings.SplitN(w, " ", 2)[0], 1)
			}
		}
		if i == 0 {
			t.Sample("%s", files[0])
			t.Sig(files[0])
		}
	}
}

func diffLists(want, got []string) string {
	count := map[string]int{}
	for _, w := range want {
		count[w]++
	}
	for _, g := range got {
		count[g]--
	}
	var b strings.Builder
	for _, w := range want {
		if count[w] > 0 {
			count[w]--
			b.WriteString("  want " + w + "\n")
		}
	}
	for _, g := range got {
		if count[g] < 0 {
			count[g]++
			b.WriteString("  got  " + g + "\n")
		}
	}
	return b.String()
}

// ---- malformed declarations ------------------------------------------------------

// s02Bad are modifiers that do not mean anything. T: written at the table.
var s02Bad = []struct{ Where, Mod string }{
	{"C", "foo"}, {"C", "virtual"}, {"C", "nullable=1"}, {"T", "foo"}, {"T", "notnull"}, {"T", "type=INT"},
	{"C", "index={. foo}"}, {"C", "index={. unique using=btree where=1}"}, {"C", "primarykey={. foo}"}, {"C", "unique={. foo=1}"},
	{"C", "references={t1.id foo}"}, {"C", "references={t1.id index={. foo}}"}, {"C", "foreignkey={c references=t1.id foo}"},
	{"C", "index=missing"}, {"T", "index=c,missing"}, {"T", "primarykey=missing,c"}, {"C", "unique=c,missing"}, {"T", "unique=missing"},
	{"T", "foreignkey={missing references=t1.id}"}, {"T", "foreignkey={c references=missing.id}"}, {"T", "foreignkey={c references=t1.missing}"},
	{"T", "foreignkey={c,d references=t1.id,missing}"}, {"T", "foreignkey={c,d references=t1.missing,id}"}, {"T", "foreignkey={c,missing references=t1.id,id}"},
	{"C", "references=missing"}, {"C", "references=t1.missing"}, {"C", "references=noschema.t1.id"}, {"C", "references=t1"},
	{"C", "default={now()"}, {"C", "type={a {b}"}, {"T", "index={c unique"}, {"C", "references={t1.id onupdate={cascade}"},
	{"C", "dialect="}, {"C", "dialect"}, {"T", "dialect="}, {"T", "dialect"},
	{"C", "references={t1.id onupdate=explode}"}, {"C", "references={t1.id ondelete=CASCADE}"}, {"T", "foreignkey={c references=t1.id onupdate=x}"}, {"T", "foreignkey={c references=t1.id ondelete=no action}"},
	{"T", "foreignkey=c"}, {"C", "foreignkey"}, {"T", "foreignkey={c ondelete=cascade}"}, {"T", "foreignkey={c deferrable index}"}, {"T", "foreignkey={. references=t1.id}"}, {"T", "foreignkey={c,d onupdate=cascade}"},
	{"T", "primarykey"}, {"T", "unique"}, {"T", "index"}, {"T", "index={. unique}"},
	{"T", "references=t1.id"}, {"C", "sqlite:index={. foo}"}, {"T", "postgres:foo"}, {"C", "mysql:foo"}, {"C", "sqlserver:references=missing"},
}

func s02Errors(t *T) {
	r := t.Rng
	for _, bad := range s02Bad {
		for _, dialect := range allDialects {
			if i := strings.IndexByte(bad.Mod, ':'); i > 0 && bad.Mod[:i] != dialect {
				continue
			}
			tmods, cmods := "", "notnull"
			if bad.Where == "T" {
				tmods = bad.Mod
			} else if r.Intn(2) == 0 {
				cmods = bad.Mod
			} else {
				cmods = "notnull " + bad.Mod
			}
			src := s02Head + "type T1 struct {\n\tsq.TableStruct\n\tID sq.NumberField `ddl:\"primarykey\"`\n}\n\n" +
				"type BAD struct {\n\tsq.TableStruct `ddl:\"" + tmods + "\"`\n\tC sq.NumberField `ddl:\"" + cmods + "\"`\n\tD sq.NumberField\n}\n"
			err, panicked := parseSources([]string{src}, &ddl.Catalog{Dialect: dialect})
			key := strings.ReplaceAll(bad.Where+" "+bad.Mod, "/", "_")
			if panicked != "" {
				t.Failf("panic "+key, "%s: the parser panicked: %s\n%s", dialect, panicked, src)
				return
			}
			if err == nil {
				t.Failf("accepted "+key, "%s: a malformed declaration was accepted silently\n%s", dialect, src)
				return
			}
			if !strings.Contains(err.Error(), "BAD") && !regexp.MustCompile(`f0.go:1\d:`).MatchString(err.Error()) {
				t.Failf("location "+key, "%s: the error does not locate the struct BAD: %v\n%s", dialect, err, src)
				return
			}
			t.Count("errors", 1)
			t.Sig("error " + err.Error())
		}
	}
	// Declarations whose generated names are the same: none may be lost.
	long := strings.Repeat("l", 60)
	for _, kind := range []string{"index", "unique", "foreignkey", "primarykey"} {
		for _, cols := range [][2]string{{"a,b", "a_b"}, {"a_b", "a,b"}, {long + ",a", long + ",b"}} {
			for _, dialect := range allDialects {
				one := func(cols string) string {
					if kind == "foreignkey" {
						return "foreignkey={" + cols + " references=bad." + cols + "}"
					}
					return kind + "=" + cols
				}
				src := s02Head + "type BAD struct {\n\tsq.TableStruct `ddl:\"" + one(cols[0]) + "\"`\n\tA sq.NumberField\n\tB sq.NumberField\n\tA_B sq.NumberField\n\t" + strings.ToUpper(long) + " sq.NumberField\n\t_ struct{} `ddl:\"" + one(cols[1]) + "\"`\n}\n"
				catalog := &ddl.Catalog{Dialect: dialect}
				err, panicked := parseSources([]string{src}, catalog)
				if panicked != "" {
					t.Failf("panic name", "%s: the parser panicked: %s\n%s", dialect, panicked, src)
					return
				}
				t.Count("names", 1)
				if err != nil {
					continue
				}
				got := strings.Join(declared(catalog), "\n")
				for _, c := range cols {
					if !strings.Contains(got, "("+strings.ReplaceAll(c, ",", "|")+")") {
						t.Failf("lost "+kind, "%s: %s=%s was lost without an error\n%s", dialect, kind, c, src)
						return
					}
				}
			}
		}
	}
	for _, src := range []string{"package tables\ntype A struct {\n", "", "not go at all", s02Head + "type A struct { sq.TableStruct `ddl:\"index={\"` }\n"} {
		err, panicked := parseSources([]string{src}, &ddl.Catalog{Dialect: "sqlite"})
		if panicked != "" || err == nil {
			t.Failf("source", "a file that is not Go was accepted (or panicked: %s): %q", panicked, src)
			return
		}
	}
}

// s02Soup: arbitrary tags never make the parser panic.
func s02Soup(t *T, n int) {
	r := t.Rng
	tokens := []string{"index", "unique", "primarykey", "references", "foreignkey", "dialect", "default", "type", "len", "using", "=", "=", "{", "}", "{", "}", " ", " ", ",", ".", ":", "a", "b", "t", "sqlite", "postgres", "mysql", "sqlserver", "'", "ö", "=.", "={", "onupdate", "ondelete", "cascade", "(", ")", "deferred", "identity", "VARCHAR", "NUMERIC(", "1"}
	for i := 0; i < n; i++ {
		soup := func() string {
			var b strings.Builder
			if r.Intn(2) == 0 {
				return ""
			}
			for k := r.Intn(12); k > 0; k-- {
				b.WriteString(tokens[r.Intn(len(tokens))])
			}
			return b.String()
		}
		src := s02Head + fmt.Sprintf("type T struct {\n\tsq.TableStruct `sq:%q ddl:%q`\n\tA sq.NumberField `ddl:%q`\n\tB sq.StringField `sq:%q ddl:%q`\n\t_ struct{} `ddl:%q`\n}\n",
			pickStr(r, "", "", "t", soup()), soup(), soup(), pickStr(r, "", "", "b", soup()), soup(), soup())
		dialect := allDialects[r.Intn(4)]
		catalog := &ddl.Catalog{Dialect: dialect, CurrentSchema: currentSchemaOf(r, dialect)}
		err, panicked := parseSources([]string{src}, catalog)
		if panicked != "" {
			t.Failf("panic-soup", "%s: the parser panicked: %s\n%s", dialect, panicked, src)
			return
		}
		if err == nil {
			t.Count("soup-accepted", 1)
		}
		t.Count("soup", 1)
	}
}

// ---- modifier text ------------------------------------------------------------

func genModifier(r *rand.Rand, depth int) ddl.Modifier {
	name := func() string {
		return pickStr(r, "a", "default", "type", "references", "x", "onupdate", "_", "größe", "index")
	}
	m := ddl.Modifier{Dialects: someDialects(r), Name: name()}
	value := func() string {
		return pickStr(r, "1", "now()", "a b", "'it''s {x} y'", "{1,2}", "{}", "a=b", "x:y", " lead", "trail ", "(1 + 2)", "t.a,b", "{a}b", "'{\"a\": [1, 2]}'", "a  b", "ä ö", "=", "{a b} c", "c {a b}")
	}
	switch k := r.Intn(4); {
	case k == 0:
	case k == 1 || depth == 0:
		m.RawValue = value()
	default:
		m.Value = pickStr(r, "", value(), value())
		for i := r.Intn(4); i > 0; i-- {
			m.Submodifiers = append(m.Submodifiers, genModifier(r, depth-1))
		}
	}
	return m
}

// sameModifier compares what was written with what was read.
func sameModifier(w, g *ddl.Modifier) string {
	if w.Name != g.Name || strings.Join(w.Dialects, ",") != strings.Join(g.Dialects, ",") {
		return fmt.Sprintf("wrote modifier %v:%s, read %v:%s", w.Dialects, w.Name, g.Dialects, g.Name)
	}
	if w.RawValue != "" {
		if w.RawValue != g.RawValue {
			return fmt.Sprintf("%s: wrote the value %q, read %q", w.Name, w.RawValue, g.RawValue)
		}
		return ""
	}
	if w.Value == "" && len(w.Submodifiers) == 0 {
		if g.RawValue != "" {
			return fmt.Sprintf("%s: wrote no value, read %q", w.Name, g.RawValue)
		}
		return ""
	}
	if err := g.ParseRawValue(); err != nil {
		return fmt.Sprintf("%s: %v", w.Name, err)
	}
	wv, gv := w.Value, g.Value
	if wv == "" {
		wv = "."
	}
	if gv == "" {
		gv = "."
	}
	if wv != gv {
		return fmt.Sprintf("%s: wrote the value %q, read %q", w.Name, w.Value, g.Value)
	}
	if len(w.Submodifiers) != len(g.Submodifiers) {
		return fmt.Sprintf("%s: wrote %d submodifiers, read %d", w.Name, len(w.Submodifiers), len(g.Submodifiers))
	}
	for i := range w.Submodifiers {
		if s := sameModifier(&w.Submodifiers[i], &g.Submodifiers[i]); s != "" {
			return w.Name + "." + s
		}
	}
	return ""
}

func s02Modifiers(t *T, n int) {
	r := t.Rng
	for i := 0; i < n; i++ {
		var ms ddl.Modifiers
		for k := 1 + r.Intn(4); k > 0; k-- {
			ms = append(ms, genModifier(r, 2))
		}
		text := ms.String()
		got, err := ddl.NewModifiers(text)
		if err != nil {
			t.Failf("format", "the text of %+v is %q, which does not parse: %v", ms, text, err)
			return
		}
		if len(got) != len(ms) {
			t.Failf("format", "%d modifiers became %d: %+v is written as %q", len(ms), len(got), ms, text)
			return
		}
		for k := range ms {
			if s := sameModifier(&ms[k], &got[k]); s != "" {
				t.Failf("format", "%s (text %q)", s, text)
				return
			}
		}
		// What was read is written as text that reads the same.
		again, err := ddl.NewModifiers(ddl.Modifiers(got).String())
		if err != nil || len(again) != len(got) {
			t.Failf("reformat", "%q was read and written as %q (%v)", text, ddl.Modifiers(got).String(), err)
			return
		}
		t.Count("modifier-lists", 1)
		t.Sig("mods " + text)
	}
}

func init() {
	register(&Prop{
		ID:    "S02",
		Level: "exploration",
		Rule:  "every generated declaration, read by the real struct parser for each dialect, gives exactly the catalog objects its documented meaning lists; malformed declarations give an error naming the struct; no text panics; modifier lists survive being written and read",
		Cases: func(tier string, seed int64) []Case {
			n := tierN(tier, 40, 400)
			var cases []Case
			for i := 0; i < n; i++ {
				cases = append(cases, Case{ID: fmt.Sprintf("declarations/%d", i), Run: func(t *T) { s02Declarations(t, tierN(tier, 150, 1000)) }})
			}
			for i := 0; i < tierN(tier, 6, 40); i++ {
				cases = append(cases, Case{ID: fmt.Sprintf("soup/%d", i), Run: func(t *T) { s02Soup(t, tierN(tier, 2000, 10000)) }})
				cases = append(cases, Case{ID: fmt.Sprintf("modifiers/%d", i), Run: func(t *T) { s02Modifiers(t, tierN(tier, 1000, 5000)) }})
				cases = append(cases, Case{ID: fmt.Sprintf("errors/%d", i), Run: func(t *T) { s02Errors(t) }})
			}
			return cases
		},
		MinCounts: map[string]int64{"catalogs": 20000, "objects": 200000, "obj:FOREIGN": 5000, "obj:index": 10000, "obj:PRIMARY": 5000, "errors": 600, "names": 200, "soup": 10000, "soup-accepted": 100, "modifier-lists": 5000},
		Assumptions: []string{
			"how a type combines with a length or a second type on one column, and DEFERRABLE on SQLite primary keys and unique constraints, are not documented and not compared",
			"names with a dot or a comma cannot be written in modifiers and are not generated",
		},
	})
}
