package main

// Interpreter for the DDL that sqddl generates, as strict as the servers are
// about names, quoting, order and dependencies. A statement it cannot accept
// is a statement the server would reject.

import (
	"database/sql"
	"fmt"
	"strings"
)

type vTok struct {
	kind       byte // 'w' word, 'q' quoted name, 's' string, 'n' number, 'p' punctuation
	text       string
	start, end int
}

func vLex(dialect, src string) ([]vTok, error) {
	var out []vTok
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "--"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '\'' || c == '"' || c == '`' && dialect == "mysql" || c == '[' && dialect == "sqlserver":
			close, kind := c, byte('q')
			if c == '[' {
				close = ']'
			}
			if c == '\'' || c == '"' && dialect == "mysql" {
				kind = 's'
			}
			var b strings.Builder
			j := i + 1
			done := false
			for j < len(src) {
				if src[j] == '\\' && kind == 's' && dialect == "mysql" && j+1 < len(src) {
					b.WriteByte(src[j+1])
					j += 2
					continue
				}
				if src[j] == close {
					if j+1 < len(src) && src[j+1] == close {
						b.WriteByte(close)
						j += 2
						continue
					}
					done = true
					break
				}
				b.WriteByte(src[j])
				j++
			}
			if !done {
				return nil, fmt.Errorf("unterminated quote at %q", src[i:])
			}
			if kind == 'q' && b.Len() == 0 {
				return nil, fmt.Errorf("zero-length delimited identifier")
			}
			out = append(out, vTok{kind, b.String(), i, j + 1})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '.') {
				j++
			}
			out = append(out, vTok{'n', src[i:j], i, j})
			i = j
		case c == '_' || c == '@' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(src) && (src[j] == '_' || src[j] == '@' || src[j] == '$' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9' || src[j] >= 0x80) {
				j++
			}
			out = append(out, vTok{'w', src[i:j], i, j})
			i = j
		default:
			out = append(out, vTok{'p', string(c), i, i + 1})
			i++
		}
	}
	return out, nil
}

// vSplit splits a script into statements.
func vSplit(dialect, src string) ([]string, error) {
	toks, err := vLex(dialect, src)
	if err != nil {
		return nil, err
	}
	var out []string
	start, depth := 0, 0
	flush := func(end int) {
		if s := strings.TrimSpace(src[start:end]); s != "" {
			out = append(out, s)
		}
	}
	for _, t := range toks {
		if t.kind == 'w' && dialect == "sqlserver" {
			switch strings.ToUpper(t.text) {
			case "BEGIN":
				depth++
			case "END":
				depth--
			}
		}
		if t.kind == 'p' && t.text == ";" && depth == 0 {
			flush(t.start)
			start = t.end
		}
	}
	flush(len(src))
	return out, nil
}

type vParser struct {
	db   *vDB
	src  string
	toks []vTok
	pos  int
}

type vReject struct{ msg string }

func reject(format string, args ...any) { panic(vReject{fmt.Sprintf(format, args...)}) }

func (p *vParser) peek() vTok {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return vTok{kind: 0}
}

func (p *vParser) rest() string {
	if p.pos < len(p.toks) {
		return p.src[p.toks[p.pos].start:]
	}
	return "end of statement"
}

func (p *vParser) isWord(n int, w string) bool {
	if p.pos+n >= len(p.toks) {
		return false
	}
	t := p.toks[p.pos+n]
	return t.kind == 'w' && strings.EqualFold(t.text, w) || t.kind == 'p' && t.text == w
}

// try consumes the words if they are next.
func (p *vParser) try(words string) bool {
	list := strings.Fields(words)
	for i, w := range list {
		if !p.isWord(i, w) {
			return false
		}
	}
	p.pos += len(list)
	return true
}

func (p *vParser) need(words string) {
	if !p.try(words) {
		reject("syntax error: expected %s at %q", words, p.rest())
	}
}

func (p *vParser) done() {
	if p.pos != len(p.toks) {
		reject("syntax error at %q", p.rest())
	}
}

func (p *vParser) name() string {
	t := p.peek()
	switch t.kind {
	case 'q':
		p.pos++
		return t.text
	case 'w':
		if reservedWords[p.db.Dialect][strings.ToUpper(t.text)] {
			reject("syntax error: reserved word %s used as a name", t.text)
		}
		p.pos++
		if p.db.Dialect == "postgres" {
			return strings.ToLower(t.text)
		}
		return t.text
	}
	reject("syntax error: expected a name at %q", p.rest())
	return ""
}

// qname reads a name that may be qualified by a schema.
func (p *vParser) qname() (schema, name string) {
	name = p.name()
	if p.try(".") {
		return name, p.name()
	}
	if p.db.Cur == "" {
		reject("no schema selected for %s", name)
	}
	return p.db.Cur, name
}

func (p *vParser) names() (out []string) {
	p.need("(")
	for {
		out = append(out, p.name())
		if !p.try(",") {
			break
		}
	}
	p.need(")")
	return out
}

var typeStops = wordSet("NOT NULL PRIMARY AUTO_INCREMENT GENERATED IDENTITY DEFAULT ON COLLATE AS UNIQUE CONSTRAINT REFERENCES CHECK USING FOR FIRST AFTER DEFERRABLE")

// raw reads the text of a type or expression up to the next clause.
func (p *vParser) raw() string {
	depth, start, end := 0, -1, -1
	for p.pos < len(p.toks) {
		t := p.toks[p.pos]
		if depth == 0 && (t.kind == 'p' && (t.text == "," || t.text == ")") || t.kind == 'w' && typeStops[strings.ToUpper(t.text)] && start >= 0) {
			break
		}
		if t.kind == 'p' && t.text == "(" {
			depth++
		}
		if t.kind == 'p' && t.text == ")" {
			depth--
		}
		if start < 0 {
			start = t.start
		}
		end = t.end
		p.pos++
	}
	if start < 0 {
		reject("syntax error: missing type or expression at %q", p.rest())
	}
	return p.src[start:end]
}

// udtName is the canonical name of an enum or domain.
func udtName(schema, name string) string { return fmt.Sprintf("udt %q.%q", schema, name) }

func (p *vParser) typ() string {
	raw := p.raw()
	vt := vTypeOf(p.db.Dialect, raw)
	if p.db.UDT != nil && (vt == nil || vt.Group == "udt") {
		vt = nil
		if toks, err := vLex(p.db.Dialect, raw); err == nil && (len(toks) == 1 || len(toks) == 3 && toks[1].text == ".") {
			q := &vParser{db: p.db, src: raw, toks: toks}
			if canon := udtName(q.qname()); p.db.UDT[canon] {
				return canon
			}
		}
	}
	if vt == nil {
		reject("type %q does not exist", raw)
	}
	return vt.Canon
}

func (p *vParser) collation() string {
	if p.db.Dialect == "postgres" {
		t := p.peek()
		if t.kind != 'q' {
			return p.name()
		}
	}
	return p.name()
}

// columnDef reads a column definition.
func (p *vParser) columnDef() (c *vCol, pk, unique bool) {
	c = &vCol{Name: p.name()}
	var def string
	if p.db.Dialect == "sqlserver" && p.isWord(0, "AS") {
		p.need("AS")
		c.Gen, c.Type = p.raw(), "int"
		p.try("PERSISTED")
		return c, false, false
	}
	c.Type = p.typ()
	for {
		switch {
		case p.try("NOT NULL"):
			c.NotNull = true
		case p.try("NULL"):
		case p.try("PRIMARY KEY"):
			pk = true
		case p.try("UNIQUE"):
			unique = true
		case p.db.Dialect == "mysql" && p.try("AUTO_INCREMENT"):
			c.Autoinc = true
		case p.db.Dialect == "postgres" && p.try("GENERATED BY DEFAULT AS IDENTITY"):
			c.Ident = "GENERATED BY DEFAULT AS IDENTITY"
		case p.db.Dialect == "postgres" && p.try("GENERATED ALWAYS AS IDENTITY"):
			c.Ident = "GENERATED ALWAYS AS IDENTITY"
		case p.db.Dialect != "sqlserver" && p.try("GENERATED ALWAYS AS"):
			c.Gen = p.raw()
			p.try("STORED")
		case p.db.Dialect == "mysql" && p.try("AS"):
			c.Gen = p.raw()
			p.try("STORED")
		case p.db.Dialect == "sqlserver" && p.try("IDENTITY"):
			c.Ident = "IDENTITY"
			if p.try("(") {
				p.pos += 3
				p.need(")")
			}
		case p.try("DEFAULT"):
			if def != "" {
				reject("several defaults")
			}
			def = p.raw()
		case p.db.Dialect == "mysql" && p.try("ON UPDATE CURRENT_TIMESTAMP"):
			c.OUCT = true
		case p.try("COLLATE"):
			c.Coll = p.collation()
			if g := vTypeNamed(p.db.Dialect, c.Type).Group; g != "str" && g != "lob" && g != "enum" {
				reject("collations are not supported by type %s", c.Type)
			}
		default:
			if def != "" {
				p.setDefault(c, def)
			}
			if c.Ident != "" && c.Def != "" {
				reject("both default and identity for column %s", c.Name)
			}
			if c.Ident != "" && vTypeNamed(p.db.Dialect, c.Type).Group != "int" {
				reject("identity column %s of type %s", c.Name, c.Type)
			}
			if c.Ident != "" || pk {
				c.NotNull = true
			}
			return c, pk, unique
		}
	}
}

func (p *vParser) setDefault(c *vCol, text string) {
	canon, err := canonDefault(p.db.Dialect, text, vTypeNamed(p.db.Dialect, c.Type))
	if err != nil {
		reject("column %s: %v", c.Name, err)
	}
	c.Def = canon
	p.db.defSeq++
	c.DefName = fmt.Sprintf("DF__%.9s__%08X", c.Name, 0x1234567+p.db.defSeq*7919)
}

func (p *vParser) rule() string {
	for _, r := range []string{"NO ACTION", "CASCADE", "SET NULL", "SET DEFAULT", "RESTRICT"} {
		if p.try(r) {
			if r == "NO ACTION" {
				return ""
			}
			if r == "RESTRICT" && p.db.Dialect == "sqlserver" {
				reject("syntax error at RESTRICT")
			}
			return r
		}
	}
	reject("syntax error: expected a rule at %q", p.rest())
	return ""
}

// constraintDef reads a table constraint, after ADD or in CREATE TABLE.
func (p *vParser) constraintDef(t *vTable) *vCon {
	c := &vCon{}
	if p.try("CONSTRAINT") {
		c.Name = p.name()
	}
	switch {
	case p.try("PRIMARY KEY"):
		c.Type = "PRIMARY KEY"
		if p.db.Dialect == "mysql" {
			c.Name = "PRIMARY"
		}
	case p.try("UNIQUE"):
		c.Type = "UNIQUE"
	case p.try("FOREIGN KEY"):
		c.Type = "FOREIGN KEY"
	case p.try("CHECK"):
		c.Type = "CHECK"
		p.need("(")
		start := p.pos
		depth := 1
		for p.pos < len(p.toks) && depth > 0 {
			switch tk := p.toks[p.pos]; {
			case tk.kind == 'p' && tk.text == "(":
				depth++
			case tk.kind == 'p' && tk.text == ")":
				depth--
			}
			p.pos++
		}
		if depth > 0 {
			reject("syntax error: unclosed CHECK")
		}
		// A check of the form (column IS NOT NULL) is read, others are kept.
		inner := p.toks[start : p.pos-1]
		if len(inner) == 4 && strings.EqualFold(inner[1].text, "IS") && strings.EqualFold(inner[2].text, "NOT") && strings.EqualFold(inner[3].text, "NULL") {
			q := &vParser{db: p.db, src: p.src, toks: inner}
			c.Expr = "notnull:" + q.name()
			if t.col(c.Expr[len("notnull:"):]) == nil {
				reject("column %s does not exist", c.Expr[len("notnull:"):])
			}
		} else {
			c.Expr = p.src[p.toks[start].start:p.toks[p.pos-2].end]
		}
	default:
		reject("syntax error: expected a constraint at %q", p.rest())
	}
	if c.Name == "" {
		reject("unnamed constraint")
	}
	if p.db.Dialect == "postgres" && (c.Type == "PRIMARY KEY" || c.Type == "UNIQUE") && p.try("USING INDEX") {
		iname := p.name()
		x := t.idx(iname)
		if x == nil {
			reject("index %s does not exist on table %s", iname, t.Name)
		}
		if !x.Unique || x.Pred != "" || x.Type != "" || len(x.Incl) > 0 || strings.Contains(descList(x.Desc), " ") {
			reject("index %s cannot back a %s constraint", iname, c.Type)
		}
		if c.Name != iname && (p.db.taken(t, c.Name)) {
			reject("relation %s already exists", c.Name)
		}
		c.Cols = x.Cols
		p.deferrable(c)
		t.dropIdx(iname)
		return c
	}
	if c.Type != "CHECK" {
		c.Cols = p.names()
		for i, n := range c.Cols {
			if t.col(n) == nil {
				reject("column %s named in key does not exist", n)
			}
			for _, o := range c.Cols[:i] {
				if o == n {
					reject("column %s appears twice in key", n)
				}
			}
		}
	}
	if c.Type == "FOREIGN KEY" {
		p.need("REFERENCES")
		if p.db.Dialect == "mysql" {
			// An unqualified table is one of the referencing table's schema.
			c.RefSchema, c.RefTable = t.Schema, p.name()
			if p.try(".") {
				c.RefSchema, c.RefTable = c.RefTable, p.name()
			}
		} else {
			c.RefSchema, c.RefTable = p.qname()
		}
		c.RefCols = p.names()
		for {
			if p.try("ON UPDATE") {
				c.Upd = p.rule()
			} else if p.try("ON DELETE") {
				c.Del = p.rule()
			} else {
				break
			}
		}
		p.db.checkFK(t, c)
	}
	p.deferrable(c)
	return c
}

func (p *vParser) deferrable(c *vCon) {
	if p.db.Dialect != "postgres" {
		return
	}
	if p.try("NOT DEFERRABLE") {
		c.Deferrable = false
	} else if p.try("DEFERRABLE") {
		c.Deferrable = true
	}
	if p.try("INITIALLY DEFERRED") {
		c.Deferrable, c.Deferred = true, true
	} else {
		p.try("INITIALLY IMMEDIATE")
	}
	if c.Deferrable && c.Type == "CHECK" {
		reject("CHECK constraints cannot be marked DEFERRABLE")
	}
}

func (db *vDB) checkFK(t *vTable, c *vCon) {
	ref := db.table(c.RefSchema, c.RefTable)
	if ref == nil {
		reject("table %s.%s does not exist", c.RefSchema, c.RefTable)
	}
	if len(c.Cols) != len(c.RefCols) {
		reject("number of referencing and referenced columns for foreign key disagree")
	}
	for _, n := range c.RefCols {
		if ref.col(n) == nil {
			reject("referenced column %s does not exist", n)
		}
	}
	for _, k := range ref.Cons {
		if (k.Type == "PRIMARY KEY" || k.Type == "UNIQUE") && sameSet(k.Cols, c.RefCols) && !k.Deferrable {
			return
		}
	}
	for _, x := range ref.Idxs {
		if x.Unique && sameSet(x.Cols, c.RefCols) && x.Pred == "" {
			return
		}
		if db.Dialect == "mysql" && len(x.Cols) >= len(c.RefCols) && key(x.Cols[:len(c.RefCols)]) == key(c.RefCols) {
			return
		}
	}
	if db.Dialect == "mysql" {
		for _, k := range ref.Cons {
			if len(k.Cols) >= len(c.RefCols) && key(k.Cols[:len(c.RefCols)]) == key(c.RefCols) {
				return
			}
		}
	}
	reject("there is no unique constraint matching given keys %q for referenced table %s", c.RefCols, c.RefTable)
}

// taken reports whether an index (or the like) may not have the name.
func (db *vDB) taken(t *vTable, name string) bool {
	if db.Dialect != "postgres" {
		if t.idx(name) != nil {
			return true
		}
		c := t.con(name)
		return c != nil && (c.Type == "PRIMARY KEY" || c.Type == "UNIQUE")
	}
	for _, o := range db.Tables {
		if o.Schema != t.Schema {
			continue
		}
		if o.Name == name || o.idx(name) != nil {
			return true
		}
		if c := o.con(name); c != nil && (c.Type == "PRIMARY KEY" || c.Type == "UNIQUE") {
			return true
		}
	}
	return false
}

func (db *vDB) addCon(t *vTable, c *vCon) {
	if t.con(c.Name) != nil {
		reject("constraint %s for relation %s already exists", c.Name, t.Name)
	}
	if c.Type != "FOREIGN KEY" && c.Type != "CHECK" && db.taken(t, c.Name) {
		reject("relation %s already exists", c.Name)
	}
	for _, o := range db.Tables {
		if o.Schema != t.Schema || o == t {
			continue
		}
		if k := o.con(c.Name); k != nil && (db.Dialect == "sqlserver" || db.Dialect == "mysql" && c.Type == "FOREIGN KEY" && k.Type == "FOREIGN KEY") {
			reject("there is already a constraint named %s", c.Name)
		}
	}
	if c.Type == "PRIMARY KEY" {
		if t.pk() != nil {
			reject("multiple primary keys for table %s are not allowed", t.Name)
		}
		for _, n := range c.Cols {
			if col := t.col(n); !col.NotNull && db.Dialect == "sqlserver" {
				reject("cannot define PRIMARY KEY on nullable column %s", n)
			} else {
				col.NotNull = true
			}
		}
	}
	t.Cons = append(t.Cons, c)
}

func (db *vDB) addCol(t *vTable, c *vCol) {
	if t.col(c.Name) != nil {
		reject("column %s of relation %s already exists", c.Name, t.Name)
	}
	t.nextID++
	c.id = t.nextID
	t.Cols = append(t.Cols, c)
	n := 0
	for _, o := range t.Cols {
		if o.Ident != "" || o.Autoinc {
			n++
		}
	}
	if n > 1 && db.Dialect != "postgres" {
		reject("table %s has several identity columns", t.Name)
	}
}

func (p *vParser) indexCols(x *vIdx, t *vTable) {
	p.need("(")
	for {
		n := p.name()
		if t.col(n) == nil {
			reject("column %s does not exist", n)
		}
		x.Cols = append(x.Cols, n)
		desc := p.try("DESC")
		if !desc {
			p.try("ASC")
		}
		x.Desc = append(x.Desc, desc)
		if !p.try(",") {
			break
		}
	}
	p.need(")")
	if p.db.Dialect != "mysql" && p.try("INCLUDE") {
		x.Incl = p.names()
		for _, n := range x.Incl {
			if t.col(n) == nil {
				reject("column %s does not exist", n)
			}
		}
	}
	if p.db.Dialect != "mysql" && p.try("WHERE") {
		x.Pred = strings.TrimSpace(p.rest())
		p.pos = len(p.toks)
		for wholeBrackets(x.Pred) {
			x.Pred = x.Pred[1 : len(x.Pred)-1]
		}
	}
}

func (db *vDB) indexKind(k string) string {
	switch {
	case strings.EqualFold(k, "btree"):
		return ""
	case db.Dialect == "postgres":
		k = strings.ToLower(k)
		if k != "gin" && k != "hash" && k != "gist" {
			reject("access method %s does not exist", k)
		}
	case db.Dialect == "mysql":
		k = strings.ToUpper(k)
		if k != "HASH" {
			reject("syntax error at %s", k)
		}
	}
	return k
}

func (db *vDB) addIdx(t *vTable, x *vIdx) {
	if db.taken(t, x.Name) {
		reject("index %s already exists", x.Name)
	}
	t.Idxs = append(t.Idxs, x)
}

func (p *vParser) table() *vTable {
	s, n := p.qname()
	t := p.db.table(s, n)
	if t == nil {
		reject("table %s.%s does not exist", s, n)
	}
	return t
}

// apply executes one statement. inTx says whether it runs in a transaction
// (a file of several statements counts as one).
func (db *vDB) apply(stmt string, inTx bool) (err error) {
	toks, err := vLex(db.Dialect, stmt)
	if err != nil {
		return err
	}
	p := &vParser{db: db, src: stmt, toks: toks}
	defer func() {
		if e := recover(); e != nil {
			r, ok := e.(vReject)
			if !ok {
				panic(e)
			}
			err = fmt.Errorf("%s", r.msg)
		}
	}()
	p.statement(inTx)
	return nil
}

func (p *vParser) statement(inTx bool) {
	db := p.db
	pg, my, ms := db.Dialect == "postgres", db.Dialect == "mysql", db.Dialect == "sqlserver"
	switch {
	case !ms && p.try("CREATE SCHEMA"):
		ifne := p.try("IF NOT EXISTS")
		n := p.name()
		p.done()
		if db.Schemas[n] && !ifne {
			reject("schema %s already exists", n)
		}
		db.Schemas[n] = true
	case ms && p.try("IF SCHEMA_ID ("):
		want := p.peek().text
		p.pos++
		p.need(") IS NULL EXEC (")
		inner := p.peek()
		p.pos++
		p.need(")")
		p.done()
		if !db.Schemas[want] {
			q := &vParser{db: db, src: inner.text}
			q.toks, _ = vLex(db.Dialect, inner.text)
			q.need("CREATE SCHEMA")
			n := q.name()
			q.done()
			if db.Schemas[n] {
				reject("there is already a schema named %s", n)
			}
			db.Schemas[n] = true
		}
	case p.try("DROP SCHEMA"):
		ife := p.try("IF EXISTS")
		n := p.name()
		cascade := pg && p.try("CASCADE")
		p.done()
		if !db.Schemas[n] {
			if ife {
				return
			}
			reject("schema %s does not exist", n)
		}
		for i := len(db.Tables) - 1; i >= 0; i-- {
			t := db.Tables[i]
			if t.Schema != n {
				continue
			}
			if !cascade && !my {
				reject("schema %s is not empty", n)
			}
			fks, owners := db.referencedBy(t.Schema, t.Name)
			for j, fk := range fks {
				if owners[j].Schema == n {
					continue
				}
				if my {
					reject("cannot drop table %s referenced by a foreign key constraint %s", t.Name, fk.Name)
				}
				owners[j].dropCon(fk.Name)
			}
		}
		for i := len(db.Tables) - 1; i >= 0; i-- {
			if db.Tables[i].Schema == n {
				db.dropTable(db.Tables[i])
			}
		}
		delete(db.Schemas, n)
	case p.try("CREATE TABLE"):
		s, n := p.qname()
		if !db.Schemas[s] {
			reject("schema %s does not exist", s)
		}
		t := &vTable{Schema: s, Name: n}
		if db.table(s, n) != nil || pg && db.taken(t, n) {
			reject("relation %s already exists", n)
		}
		p.need("(")
		for {
			if p.isWord(0, "CONSTRAINT") || p.isWord(0, "PRIMARY") || p.isWord(0, "FOREIGN") {
				c := p.constraintDef(t)
				db.nullability(t, c)
				db.addCon(t, c)
			} else {
				c, pk, unique := p.columnDef()
				if pk || unique {
					reject("column level key without a name")
				}
				db.addCol(t, c)
			}
			if !p.try(",") {
				break
			}
		}
		p.need(")")
		p.done()
		if len(t.Cols) == 0 {
			reject("table without columns")
		}
		db.autoincKey(t)
		db.Tables = append(db.Tables, t)
	case p.try("DROP TABLE"):
		ife := p.try("IF EXISTS")
		s, n := p.qname()
		p.done()
		t := db.table(s, n)
		if t == nil {
			if ife {
				return
			}
			reject("table %s.%s does not exist", s, n)
		}
		fks, owners := db.referencedBy(s, n)
		for i := range fks {
			if owners[i] != t {
				reject("cannot drop table %s because constraint %s depends on it", n, fks[i].Name)
			}
		}
		db.dropTable(t)
	case p.isWord(0, "CREATE"):
		p.need("CREATE")
		x := &vIdx{}
		x.Unique = p.try("UNIQUE")
		if my && p.try("FULLTEXT") {
			x.Type = "FULLTEXT"
		} else if my && p.try("SPATIAL") {
			x.Type = "SPATIAL"
		}
		p.need("INDEX")
		concurrently := pg && p.try("CONCURRENTLY")
		if concurrently && inTx {
			reject("CREATE INDEX CONCURRENTLY cannot run inside a transaction block")
		}
		x.Name = p.name()
		if my && p.try("USING") {
			x.Type = db.indexKind(p.name())
		}
		p.need("ON")
		t := p.table()
		if pg && p.try("USING") {
			x.Type = db.indexKind(p.name())
		}
		p.indexCols(x, t)
		p.done()
		db.addIdx(t, x)
		if concurrently {
			db.note("concurrent index", t, x.Name)
		} else {
			db.note("index", t, x.Name)
		}
	case p.try("DROP INDEX"):
		if pg && p.try("CONCURRENTLY") && inTx {
			reject("DROP INDEX CONCURRENTLY cannot run inside a transaction block")
		}
		ife := p.try("IF EXISTS")
		var t *vTable
		var n string
		if pg {
			var s string
			s, n = p.qname()
			p.done()
			for _, o := range db.Tables {
				if o.Schema == s && o.idx(n) != nil {
					t = o
				}
				if c := o.con(n); o.Schema == s && c != nil && (c.Type == "PRIMARY KEY" || c.Type == "UNIQUE") {
					reject("cannot drop index %s because constraint %s requires it", n, n)
				}
			}
		} else {
			n = p.name()
			p.need("ON")
			t = p.table()
			p.done()
			if t.idx(n) == nil {
				t = nil
			}
		}
		if t == nil {
			if ife {
				return
			}
			reject("index %s does not exist", n)
		}
		t.dropIdx(n)
	case p.try("ALTER TABLE"):
		t := p.table()
		switch {
		case pg:
			p.alterPostgres(t)
		case my:
			p.alterMySQL(t)
		default:
			p.alterSQLServer(t)
		}
	case ms && p.isWord(0, "BEGIN"):
		p.dropDefault()
	default:
		reject("syntax error at %q", p.rest())
	}
}

// nullability: a key declared in CREATE TABLE makes its columns NOT NULL.
func (db *vDB) nullability(t *vTable, c *vCon) {
	if c.Type == "PRIMARY KEY" {
		for _, n := range c.Cols {
			t.col(n).NotNull = true
		}
	}
}

// autoincKey: MySQL wants an AUTO_INCREMENT column to be the first of a key.
func (db *vDB) autoincKey(t *vTable) {
	if db.Dialect != "mysql" {
		return
	}
	for _, c := range t.Cols {
		if !c.Autoinc {
			continue
		}
		ok := false
		for _, k := range t.Cons {
			ok = ok || (k.Type == "PRIMARY KEY" || k.Type == "UNIQUE") && k.Cols[0] == c.Name
		}
		for _, x := range t.Idxs {
			ok = ok || x.Cols[0] == c.Name
		}
		if !ok {
			reject("there can be only one auto column and it must be defined as a key")
		}
	}
}

// dependants names what prevents a key of the table from being dropped.
func (db *vDB) keyInUse(t *vTable, c *vCon) string {
	if c.Type != "PRIMARY KEY" && c.Type != "UNIQUE" {
		return ""
	}
	fks, _ := db.referencedBy(t.Schema, t.Name)
	for _, fk := range fks {
		if !sameSet(fk.RefCols, c.Cols) {
			continue
		}
		return fk.Name
	}
	return ""
}

func (p *vParser) alterPostgres(t *vTable) {
	db := p.db
	lower12 := len(db.Version) > 0 && db.Version[0] < 12
	switch {
	case p.try("DROP CONSTRAINT"):
		ife := p.try("IF EXISTS")
		n := p.name()
		p.done()
		c := t.con(n)
		if c == nil {
			if ife {
				return
			}
			reject("constraint %s of relation %s does not exist", n, t.Name)
		}
		if fk := db.keyInUse(t, c); fk != "" {
			reject("cannot drop constraint %s on table %s because constraint %s depends on it", n, t.Name, fk)
		}
		t.dropCon(n)
	case p.try("DROP COLUMN"):
		ife := p.try("IF EXISTS")
		n := p.name()
		p.done()
		if t.col(n) == nil {
			if ife {
				return
			}
			reject("column %s does not exist", n)
		}
		fks, owners := db.referencedBy(t.Schema, t.Name)
		for i, fk := range fks {
			if contains(fk.RefCols, n) && owners[i] != t {
				reject("cannot drop column %s because constraint %s depends on it", n, fk.Name)
			}
		}
		// Indexes and constraints over the column go with it.
		for i := len(t.Idxs) - 1; i >= 0; i-- {
			if contains(t.Idxs[i].Cols, n) || contains(t.Idxs[i].Incl, n) {
				t.dropIdx(t.Idxs[i].Name)
			}
		}
		for i := len(t.Cons) - 1; i >= 0; i-- {
			if contains(t.Cons[i].Cols, n) {
				t.dropCon(t.Cons[i].Name)
			}
		}
		t.dropCol(n)
	case p.try("ADD COLUMN"):
		c, pk, unique := p.columnDef()
		p.done()
		if pk || unique {
			reject("column level key without a name")
		}
		db.addCol(t, c)
	case p.try("ALTER COLUMN"):
		n := p.name()
		c := t.col(n)
		if c == nil {
			reject("column %s of relation %s does not exist", n, t.Name)
		}
		switch {
		case p.try("TYPE"):
			typ := p.typ()
			coll := ""
			if p.try("COLLATE") {
				coll = p.collation()
			}
			p.done()
			old, nw := vTypeNamed(db.Dialect, c.Type), vTypeNamed(db.Dialect, typ)
			if coll != "" && nw.Group != "str" {
				reject("collations are not supported by type %s", typ)
			}
			if old.Group != nw.Group && nw.Group != "str" && !(old.Group == "int" && nw.Group == "num" || old.Group == "num" && nw.Group == "int" || old.Group == "time" && nw.Group == "date" || old.Group == "date" && nw.Group == "time") {
				reject("column %s cannot be cast automatically to type %s", n, typ)
			}
			if c.Ident != "" && nw.Group != "int" {
				reject("identity column type must be smallint, integer, or bigint")
			}
			if c.Gen != "" {
				reject("generated column %s altered", n)
			}
			if c.Type != typ {
				db.note("type", t, n)
			}
			c.Type, c.Coll = typ, coll
		case p.try("SET DEFAULT"):
			if c.Ident != "" {
				reject("column %s is an identity column", n)
			}
			if c.Gen != "" {
				reject("column %s is a generated column", n)
			}
			text := p.raw()
			p.done()
			p.setDefault(c, text)
		case p.try("DROP DEFAULT"):
			p.done()
			if c.Ident != "" || c.Gen != "" {
				reject("column %s is an identity or generated column", n)
			}
			c.Def = ""
		case p.try("SET NOT NULL"):
			p.done()
			switch {
			case c.NotNull:
			case !lower12 && db.provesNotNull(t, n):
				db.note("proved not null", t, n)
			default:
				db.note("scan for nulls", t, n)
			}
			c.NotNull = true
		case p.try("DROP NOT NULL"):
			p.done()
			if pk := t.pk(); pk != nil && contains(pk.Cols, n) {
				reject("column %s is in a primary key", n)
			}
			if c.Ident != "" {
				reject("column %s is an identity column", n)
			}
			c.NotNull = false
		case p.try("DROP IDENTITY"):
			ife := p.try("IF EXISTS")
			p.done()
			if c.Ident == "" && !ife {
				reject("column %s is not an identity column", n)
			}
			c.Ident = ""
		case p.try("ADD GENERATED"):
			kind := "BY DEFAULT"
			if !p.try("BY DEFAULT") {
				p.need("ALWAYS")
				kind = "ALWAYS"
			}
			p.need("AS IDENTITY")
			p.done()
			switch {
			case !c.NotNull:
				reject("column %s must be declared NOT NULL before identity can be added", n)
			case c.Ident != "":
				reject("column %s is already an identity column", n)
			case c.Def != "":
				reject("column %s already has a default value", n)
			case vTypeNamed(db.Dialect, c.Type).Group != "int":
				reject("identity column type must be smallint, integer, or bigint")
			}
			c.Ident = "GENERATED " + kind + " AS IDENTITY"
		default:
			reject("syntax error at %q", p.rest())
		}
	case p.try("ALTER CONSTRAINT"):
		n := p.name()
		c := t.con(n)
		if c == nil {
			reject("constraint %s of relation %s does not exist", n, t.Name)
		}
		if c.Type != "FOREIGN KEY" {
			reject("constraint %s of relation %s is not a foreign key constraint", n, t.Name)
		}
		c.Deferrable, c.Deferred = false, false
		p.deferrable(c)
		p.done()
	case p.try("VALIDATE CONSTRAINT"):
		n := p.name()
		p.done()
		c := t.con(n)
		if c == nil {
			reject("constraint %s of relation %s does not exist", n, t.Name)
		}
		if c.Type != "FOREIGN KEY" && c.Type != "CHECK" {
			reject("constraint %s is not a foreign key or check constraint", n)
		}
		if c.NotValid {
			db.note("validate", t, n)
		}
		c.NotValid = false
	case p.try("ADD"):
		indexes := len(t.Idxs)
		c := p.constraintDef(t)
		if p.try("NOT VALID") {
			if c.Type != "FOREIGN KEY" && c.Type != "CHECK" {
				reject("%s constraints cannot be marked NOT VALID", c.Type)
			}
			c.NotValid = true
		}
		p.done()
		db.addCon(t, c)
		switch {
		case c.NotValid:
			db.note("not valid", t, c.Name)
		case len(t.Idxs) < indexes:
			db.note("using index", t, c.Name)
		default:
			db.note("add "+c.Type, t, c.Name)
		}
	default:
		reject("syntax error at %q", p.rest())
	}
}

func (p *vParser) alterMySQL(t *vTable) {
	db := p.db
	for {
		switch {
		case p.try("DROP CONSTRAINT"):
			if len(db.Version) > 0 && (db.Version[0] < 8 || len(db.Version) > 2 && db.Version[0] == 8 && db.Version[1] == 0 && db.Version[2] < 19) {
				reject("syntax error at CONSTRAINT")
			}
			n := p.name()
			c := t.con(n)
			if c == nil {
				reject("constraint %s does not exist", n)
			}
			t.dropCon(n)
		case p.try("DROP PRIMARY KEY"):
			if t.pk() == nil {
				reject("there is no primary key")
			}
			t.dropCon(t.pk().Name)
		case p.try("DROP FOREIGN KEY"):
			n := p.name()
			if c := t.con(n); c == nil || c.Type != "FOREIGN KEY" {
				reject("foreign key %s does not exist", n)
			}
			t.dropCon(n)
		case p.try("DROP INDEX"), p.try("DROP KEY"):
			n := p.name()
			if c := t.con(n); c != nil && c.Type == "UNIQUE" {
				t.dropCon(n)
			} else if t.idx(n) != nil {
				t.dropIdx(n)
			} else {
				reject("index %s does not exist", n)
			}
		case p.try("DROP COLUMN"):
			n := p.name()
			if t.col(n) == nil {
				reject("column %s does not exist", n)
			}
			for _, c := range t.Cons {
				if c.Type == "FOREIGN KEY" && contains(c.Cols, n) {
					reject("cannot drop column %s: needed in a foreign key constraint %s", n, c.Name)
				}
				if c.Type != "CHECK" && contains(c.Cols, n) {
					reject("key %s over the dropped column %s", c.Name, n)
				}
			}
			fks, _ := db.referencedBy(t.Schema, t.Name)
			for _, fk := range fks {
				if contains(fk.RefCols, n) {
					reject("cannot drop column %s: needed in a foreign key constraint %s", n, fk.Name)
				}
			}
			for i := len(t.Idxs) - 1; i >= 0; i-- {
				if contains(t.Idxs[i].Cols, n) {
					t.dropIdx(t.Idxs[i].Name)
				}
			}
			t.dropCol(n)
		case p.try("ADD COLUMN"):
			c, pk, unique := p.columnDef()
			if pk || unique {
				reject("column level key without a name")
			}
			db.addCol(t, c)
		case p.try("MODIFY COLUMN"):
			c, pk, unique := p.columnDef()
			if pk || unique {
				reject("column level key without a name")
			}
			old := t.col(c.Name)
			if old == nil {
				reject("unknown column %s", c.Name)
			}
			c.id = old.id
			*old = *c
		case p.isWord(0, "ADD") && (p.isWord(1, "INDEX") || p.isWord(2, "INDEX")):
			p.need("ADD")
			x := &vIdx{}
			x.Unique = p.try("UNIQUE")
			if p.try("FULLTEXT") {
				x.Type = "FULLTEXT"
			} else if p.try("SPATIAL") {
				x.Type = "SPATIAL"
			}
			p.need("INDEX")
			x.Name = p.name()
			if p.try("USING") {
				x.Type = db.indexKind(p.name())
			}
			p.indexCols(x, t)
			db.addIdx(t, x)
		case p.try("ADD"):
			db.addCon(t, p.constraintDef(t))
		default:
			reject("syntax error at %q", p.rest())
		}
		if !p.try(",") {
			break
		}
	}
	p.done()
	if pk := t.pk(); pk != nil {
		for _, n := range pk.Cols {
			t.col(n).NotNull = true
		}
	}
	db.autoincKey(t)
}

func (p *vParser) alterSQLServer(t *vTable) {
	db := p.db
	switch {
	case p.try("DROP CONSTRAINT"):
		n := p.name()
		p.done()
		for _, c := range t.Cols {
			if c.Def != "" && c.DefName == n {
				c.Def, c.DefName = "", ""
				return
			}
		}
		c := t.con(n)
		if c == nil {
			reject("%s is not a constraint", n)
		}
		if fk := db.keyInUse(t, c); fk != "" {
			reject("the constraint %s is being referenced by table, foreign key constraint %s", n, fk)
		}
		t.dropCon(n)
	case p.try("DROP COLUMN"):
		n := p.name()
		p.done()
		c := t.col(n)
		if c == nil {
			reject("column %s does not exist", n)
		}
		if c.Def != "" {
			reject("the object %s is dependent on column %s", c.DefName, n)
		}
		for _, k := range t.Cons {
			if contains(k.Cols, n) {
				reject("the object %s is dependent on column %s", k.Name, n)
			}
		}
		for _, x := range t.Idxs {
			if contains(x.Cols, n) || contains(x.Incl, n) {
				reject("the index %s is dependent on column %s", x.Name, n)
			}
		}
		t.dropCol(n)
		if len(t.Cols) == 0 {
			reject("the only column of a table cannot be dropped")
		}
	case p.try("ALTER COLUMN"):
		n := p.name()
		c := t.col(n)
		if c == nil {
			reject("column %s does not exist", n)
		}
		typ := p.typ()
		coll := ""
		if p.try("COLLATE") {
			coll = p.collation()
		}
		notnull := false
		if p.try("NOT NULL") {
			notnull = true
		} else {
			p.try("NULL")
		}
		p.done()
		old, nw := vTypeNamed(db.Dialect, c.Type), vTypeNamed(db.Dialect, typ)
		base := func(s string) string { return strings.Split(s, "(")[0] }
		if c.Def != "" && base(old.Canon) != base(nw.Canon) {
			reject("the object %s is dependent on column %s", c.DefName, n)
		}
		for _, k := range t.Cons {
			if contains(k.Cols, n) {
				reject("the object %s is dependent on column %s", k.Name, n)
			}
		}
		for _, x := range t.Idxs {
			if contains(x.Cols, n) || contains(x.Incl, n) {
				reject("the index %s is dependent on column %s", x.Name, n)
			}
		}
		fks, _ := db.referencedBy(t.Schema, t.Name)
		for _, fk := range fks {
			if contains(fk.RefCols, n) {
				reject("the object %s is dependent on column %s", fk.Name, n)
			}
		}
		if coll != "" && nw.Group != "str" {
			reject("collation on type %s", typ)
		}
		if c.Ident != "" && !notnull {
			reject("identity column %s cannot be nullable", n)
		}
		c.Type, c.Coll, c.NotNull = typ, coll, notnull
	case p.try("ADD DEFAULT"):
		text := p.raw()
		p.need("FOR")
		n := p.name()
		p.done()
		c := t.col(n)
		if c == nil {
			reject("column %s does not exist", n)
		}
		if c.Def != "" {
			reject("column %s already has a DEFAULT bound to it", n)
		}
		p.setDefault(c, text)
	case p.try("ADD"):
		if p.isWord(0, "CONSTRAINT") || p.isWord(0, "PRIMARY") || p.isWord(0, "FOREIGN") {
			c := p.constraintDef(t)
			p.done()
			db.addCon(t, c)
			return
		}
		c, pk, unique := p.columnDef()
		p.done()
		if pk || unique {
			reject("column level key without a name")
		}
		db.addCol(t, c)
	default:
		reject("syntax error at %q", p.rest())
	}
}

// dropDefault executes the block that looks up and drops the default
// constraint of a column: the lookup is a query on the system catalog, which
// SQLite evaluates.
func (p *vParser) dropDefault() {
	src := p.src
	i, j := strings.Index(strings.ToUpper(src), "SELECT"), -1
	if i >= 0 {
		j = strings.Index(src[i:], ";")
	}
	if i < 0 || j < 0 {
		reject("block without a lookup: %s", src)
	}
	query := src[i : i+j]
	at, eq := strings.Index(query, "@"), strings.Index(query, "=")
	if at < 0 || eq < at {
		reject("block without an assignment: %s", src)
	}
	variable := strings.TrimSpace(query[at:eq])
	for _, part := range strings.Split(src[:i], ";") {
		f := strings.Fields(strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(part), "BEGIN")))
		switch {
		case len(f) == 0:
		case len(f) > 2 && strings.EqualFold(f[0], "DECLARE"):
			if p.db.vars[strings.ToUpper(f[1])] {
				reject("the variable name %q has already been declared", f[1])
			}
			if p.db.vars == nil {
				p.db.vars = map[string]bool{}
			}
			p.db.vars[strings.ToUpper(f[1])] = true
		case len(f) == 4 && strings.EqualFold(f[0], "SET") && f[2] == "=":
			if !p.db.vars[strings.ToUpper(f[1])] {
				reject("must declare the scalar variable %q", f[1])
			}
		default:
			reject("unexpected statement in block: %s", part)
		}
	}
	if !p.db.vars[strings.ToUpper(variable)] {
		reject("must declare the scalar variable %q", variable)
	}
	query = query[:at] + query[eq+1:]
	names, err := p.db.sysQuery(query)
	if err != nil {
		reject("lookup failed: %v", err)
	}
	name := ""
	switch len(names) {
	case 1:
		name = names[0]
	case 0:
		// The variable stays NULL, and so does the concatenated statement.
		return
	default:
		reject("the lookup of the default constraint finds several: %q", names)
	}
	rest := src[i+j+1:]
	a, b := strings.Index(strings.ToUpper(rest), "EXEC"), strings.LastIndex(rest, ")")
	if a < 0 || b < 0 {
		reject("block without EXEC: %s", src)
	}
	toks, err := vLex("sqlserver", rest[a+4:b+1])
	if err != nil {
		reject("%v", err)
	}
	stmt, i := "", 0
	for i < len(toks) {
		t := toks[i]
		switch {
		case t.kind == 's':
			stmt += t.text
		case t.kind == 'w' && strings.EqualFold(t.text, "QUOTENAME"):
			stmt += "[" + strings.ReplaceAll(name, "]", "]]") + "]"
			i += 3
		case t.kind == 'w' && t.text == variable:
			stmt += name
		case t.kind == 'w' && strings.EqualFold(t.text, "N"):
		}
		i++
	}
	if err := p.db.apply(stmt, true); err != nil {
		reject("%s: %v", stmt, err)
	}
}

// sysQuery evaluates a query on sys.default_constraints, sys.tables,
// sys.columns and sys.schemas.
func (db *vDB) sysQuery(query string) ([]string, error) {
	conn, err := sql.Open("sqlite3", ":memory:")
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	conn.SetMaxOpenConns(1)
	exec := func(q string, args ...any) {
		if _, e := conn.Exec(q, args...); e != nil && err == nil {
			err = e
		}
	}
	exec("ATTACH ':memory:' AS sys")
	exec("CREATE TABLE sys.schemas (schema_id INT, name TEXT)")
	exec("CREATE TABLE sys.tables (object_id INT, schema_id INT, name TEXT)")
	exec("CREATE TABLE sys.columns (object_id INT, column_id INT, name TEXT, default_object_id INT)")
	exec("CREATE TABLE sys.default_constraints (object_id INT, parent_object_id INT, parent_column_id INT, name TEXT, definition TEXT)")
	ids := map[string]int{}
	for s := range db.Schemas {
		ids[s] = len(ids) + 5
		exec("INSERT INTO sys.schemas VALUES (?, ?)", ids[s], s)
	}
	for i, t := range db.Tables {
		exec("INSERT INTO sys.tables VALUES (?, ?, ?)", 1000+i*1000, ids[t.Schema], t.Name)
		for _, c := range t.Cols {
			d := 0
			if c.Def != "" {
				d = 1000 + i*1000 + 500 + c.id
				exec("INSERT INTO sys.default_constraints VALUES (?, ?, ?, ?, ?)", d, 1000+i*1000, c.id, c.DefName, c.Def)
			}
			exec("INSERT INTO sys.columns VALUES (?, ?, ?, ?)", 1000+i*1000, c.id, c.Name, d)
		}
	}
	if err != nil {
		return nil, err
	}
	query = strings.ReplaceAll(query, "SCHEMA_NAME(tables.schema_id)", "(SELECT s.name FROM sys.schemas AS s WHERE s.schema_id = tables.schema_id)")
	rows, err := conn.Query(query)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	seen := map[string]bool{}
	var out []string
	for rows.Next() {
		var n string
		if err := rows.Scan(&n); err != nil {
			return nil, err
		}
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	return out, rows.Err()
}
