package main

// Filling the emulated system catalogs from the model database.

import (
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

var srvTables = map[string]map[string]string{
	"postgres": {
		"pg_namespace":   "oid, nspname",
		"pg_class":       "oid, relname, relnamespace, relkind, relam",
		"pg_attribute":   "attrelid, attnum, attname, atttypid, atttypmod, attidentity, attnotnull, attgenerated, attcollation, attisdropped",
		"pg_attrdef":     "adrelid, adnum, adbin",
		"pg_collation":   "oid, collname",
		"pg_type":        "oid, typname, typnamespace, typtype, typbasetype, typtypmod, typnotnull, typdefault, typcollation",
		"pg_constraint":  "oid, conname, contype, conrelid, contypid, conindid, confrelid, conkey, confkey, conexclop, confupdtype, confdeltype, confmatchtype, condeferrable, condeferred, convalidated",
		"pg_index":       "indexrelid, indrelid, indisunique, indnkeyatts, indkey, indclass, indpred",
		"pg_am":          "oid, amname",
		"pg_opclass":     "oid, opcname",
		"pg_operator":    "oid, oprname",
		"pg_proc":        "oid, proname, pronamespace, prokind",
		"pg_description": "objoid, classoid, objsubid, description",
		"pg_extension":   "oid, extname, extversion",
		"pg_depend":      "objid, refobjid, deptype",
		"pg_trigger":     "oid, tgrelid, tgname, tgisinternal",
		"pg_views":       "schemaname, viewname",
		"pg_matviews":    "schemaname, matviewname",
		"pg_enum":        "enumtypid, enumsortorder, enumlabel",
		"pg_database":    "datname, datcollate",
	},
	"mysql": {
		"information_schema.tables":                  "table_schema, table_name, table_type, table_comment",
		"information_schema.columns":                 "table_schema, table_name, column_name, ordinal_position, column_type, character_maximum_length, numeric_precision, numeric_scale, extra, is_nullable, generation_expression, collation_name, column_default, column_comment",
		"information_schema.table_constraints":       "constraint_schema, constraint_name, table_schema, table_name, constraint_type",
		"information_schema.key_column_usage":        "constraint_schema, constraint_name, table_schema, table_name, column_name, ordinal_position, referenced_table_schema, referenced_table_name, referenced_column_name",
		"information_schema.referential_constraints": "constraint_schema, constraint_name, unique_constraint_schema, table_name, referenced_table_name, update_rule, delete_rule, match_option",
		"information_schema.check_constraints":       "constraint_schema, constraint_name, check_clause",
		"information_schema.statistics":              "table_schema, table_name, index_name, index_type, non_unique, column_name, expression, collation, seq_in_index",
		"information_schema.routines":                "routine_schema, routine_name, specific_name, routine_type, dtd_identifier, routine_definition, routine_comment, routine_body, is_deterministic, sql_data_access, security_type",
		"information_schema.parameters":              "specific_schema, specific_name, ordinal_position, parameter_mode, parameter_name, dtd_identifier, routine_type",
		"information_schema.triggers":                "trigger_schema, trigger_name, event_object_schema, event_object_table, action_statement, action_timing, event_manipulation",
		"information_schema.views":                   "table_schema, table_name, view_definition",
	},
	"sqlserver": {
		"sys.schemas":             "schema_id, name",
		"sys.objects":             "object_id, name, schema_id, type, parent_object_id",
		"sys.tables":              "object_id, name, schema_id, type",
		"sys.views":               "object_id, name, schema_id, type",
		"sys.columns":             "object_id, name, column_id, system_type_id, user_type_id, precision, scale, is_identity, is_nullable, collation_name, default_object_id",
		"sys.types":               "user_type_id, name",
		"sys.identity_columns":    "object_id, column_id, seed_value, increment_value",
		"sys.computed_columns":    "object_id, column_id, definition, is_persisted",
		"sys.indexes":             "object_id, index_id, name, type_desc, is_unique, is_primary_key, is_unique_constraint, filter_definition",
		"sys.index_columns":       "object_id, index_id, index_column_id, column_id, key_ordinal, is_descending_key, is_included_column",
		"sys.foreign_keys":        "object_id, name, parent_object_id, update_referential_action_desc, delete_referential_action_desc, is_not_trusted",
		"sys.foreign_key_columns": "constraint_object_id, constraint_column_id, parent_object_id, parent_column_id, referenced_object_id, referenced_column_id",
		"sys.check_constraints":   "object_id, name, parent_object_id, definition, is_not_trusted",
		"sys.sql_modules":         "object_id, definition",
	},
}

type filler struct {
	s   *dbServer
	c   *mconn
	oid int64
	err error
}

func (f *filler) exec(q string, args ...any) {
	if f.err != nil {
		return
	}
	vals := make([]driver.Value, len(args))
	for i, a := range args {
		switch v := a.(type) {
		case int:
			vals[i] = int64(v)
		case bool:
			vals[i] = int64(0)
			if v {
				vals[i] = int64(1)
			}
		default:
			vals[i] = v
		}
	}
	_, f.err = f.c.c.Exec(q, vals)
	if f.err != nil {
		f.err = fmt.Errorf("%s: %w", q, f.err)
	}
}

func (f *filler) ins(table string, args ...any) {
	f.exec("INSERT INTO "+table+" VALUES ("+strings.TrimSuffix(strings.Repeat("?, ", len(args)), ", ")+")", args...)
}

func (f *filler) next() int64 {
	f.oid++
	return f.oid
}

// build brings the catalogs of a connection up to date.
func (s *dbServer) build(c *mconn) error {
	if s.built[c] == s.gen+1 {
		return nil
	}
	f := &filler{s: s, c: c, oid: 16384}
	if s.built[c] == 0 {
		switch s.dialect {
		case "mysql":
			f.exec("ATTACH ':memory:' AS information_schema")
		case "sqlserver":
			f.exec("ATTACH ':memory:' AS sys")
		}
		for name, cols := range srvTables[s.dialect] {
			if strings.HasSuffix(name, ".statistics") && s.lacks("expression") {
				cols = strings.Replace(cols, "expression", "lacks_expression", 1)
			}
			f.exec("CREATE TABLE " + name + " (" + cols + ")")
		}
	} else {
		for name := range srvTables[s.dialect] {
			f.exec("DELETE FROM " + name)
		}
	}
	s.reg = newSrvReg()
	switch s.dialect {
	case "postgres":
		f.postgres()
	case "mysql":
		f.mysql()
	case "sqlserver":
		f.sqlserver()
	}
	s.built[c] = s.gen + 1
	return f.err
}

// lacks tells what the version of the server does not have.
func (s *dbServer) lacks(what string) bool {
	old := strings.HasPrefix(s.version, "5.")
	switch what {
	case "expression":
		return old || strings.Contains(s.version, "MariaDB")
	case "check_constraints":
		return old
	}
	return false
}

// pgTypes maps the column types as they are reported to the internal ones.
var pgTypes = map[string]struct {
	oid  int64
	name string
}{
	"int": {23, "integer"}, "bigint": {20, "bigint"}, "smallint": {21, "smallint"}, "text": {25, "text"},
	"varchar": {1043, "character varying"}, "char": {1042, "character"}, "numeric": {1700, "numeric"},
	"boolean": {16, "boolean"}, "bytea": {17, "bytea"}, "timestamptz": {1184, "timestamp with time zone"},
	"timestamp": {1114, "timestamp without time zone"}, "date": {1082, "date"}, "time": {1083, "time without time zone"},
	"json": {114, "json"}, "jsonb": {3802, "jsonb"}, "uuid": {2950, "uuid"}, "real": {700, "real"},
	"double precision": {701, "double precision"}, "tsvector": {3614, "tsvector"},
	"int[]": {1007, "integer[]"}, "boolean[]": {1000, "boolean[]"}, "text[]": {1009, "text[]"}, "varchar[]": {1015, "character varying[]"}, "numeric[]": {1231, "numeric[]"},
	"cidr": {650, "cidr"}, "inet": {869, "inet"},
	"timestamptz[]": {1185, "timestamp with time zone[]"},
}

// pgType encodes a reported column type as type and modifier.
func pgType(typ string) (oid int64, mod int64) {
	base, rest, ok := strings.Cut(typ, "(")
	mod = -1
	if ok {
		args, suffix, _ := strings.Cut(rest, ")")
		base += suffix
		nums := strings.Split(args, ",")
		a, _ := strconv.Atoi(nums[0])
		switch strings.TrimSuffix(base, "[]") {
		case "varchar", "char":
			mod = int64(a + 4)
		case "numeric":
			b := 0
			if len(nums) > 1 {
				b, _ = strconv.Atoi(nums[1])
			}
			mod = int64(a<<16|b) + 4
		default:
			mod = int64(a)
		}
	}
	t, ok := pgTypes[base]
	if !ok {
		panic(harnessError("unknown Postgres type " + typ))
	}
	return t.oid, mod
}

func jsonOf(v any) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

func (f *filler) postgres() {
	s := f.s
	for _, t := range pgTypes {
		s.reg.types[t.oid] = pgTypeInfo{t.name, 'b'}
		coll := int64(0)
		if t.name == "text" || strings.HasPrefix(t.name, "character") {
			coll = 100
		}
		f.ins("pg_type", t.oid, t.name, 11, "b", 0, -1, false, nil, coll)
	}
	f.ins("pg_database", s.cat.CatalogName, s.cat.DefaultCollation)
	f.ins("pg_database", "other", "xx")
	f.ins("pg_collation", 100, "default")
	colls := map[string]int64{"": 0}
	collOid := func(name string) int64 {
		if _, ok := colls[name]; !ok {
			colls[name] = f.next()
			f.ins("pg_collation", colls[name], name)
		}
		return colls[name]
	}
	ams := map[string]int64{}
	amOid := func(name string) int64 {
		if _, ok := ams[name]; !ok {
			ams[name] = f.next()
			f.ins("pg_am", ams[name], name)
		}
		return ams[name]
	}
	opc := map[string]int64{}
	opcOid := func(name string) int64 {
		if _, ok := opc[name]; !ok {
			opc[name] = f.next()
			f.ins("pg_opclass", opc[name], name)
		}
		return opc[name]
	}
	oper := map[string]int64{}
	operOid := func(name string) int64 {
		if _, ok := oper[name]; !ok {
			oper[name] = f.next()
			f.ins("pg_operator", oper[name], name)
		}
		return oper[name]
	}
	describe := func(oid int64, class string, sub int, comment string) {
		if comment != "" {
			f.ins("pg_description", oid, class, sub, comment)
			s.reg.coldesc[[2]int64{oid, int64(sub)}] = comment
		}
	}
	for _, e := range s.cat.Extensions {
		oid := f.next()
		f.ins("pg_extension", oid, e, "1."+strconv.Itoa(len(e)))
		// A function owned by the extension.
		fn := f.next()
		f.ins("pg_proc", fn, e+"_fn", 2200, "f")
		f.ins("pg_depend", fn, oid, "e")
		s.reg.exprs[fn], s.reg.args[fn], s.reg.results[fn] = "CREATE FUNCTION "+e+"_fn", "", "void"
	}
	nsOid := map[string]int64{}
	for i := range s.cat.Schemas {
		nsOid[s.cat.Schemas[i].SchemaName] = f.next()
		f.ins("pg_namespace", f.oid, s.cat.Schemas[i].SchemaName)
	}
	f.ins("pg_namespace", 2200, "the schema of the extensions")
	qual := func(schema, name string) string {
		if schema == s.cat.CurrentSchema {
			return pgIdent(name)
		}
		return pgIdent(schema) + "." + pgIdent(name)
	}
	enums, domains := map[string]int64{}, map[string]int64{}
	for _, sc := range s.cat.Schemas {
		ns := nsOid[sc.SchemaName]
		for _, e := range sc.Enums {
			oid := f.next()
			enums[qual(sc.SchemaName, e.EnumName)] = oid
			s.reg.types[oid] = pgTypeInfo{qual(sc.SchemaName, e.EnumName), 'e'}
			f.ins("pg_type", oid, e.EnumName, ns, "e", 0, -1, false, nil, 0)
			// Labels are stored in no particular order.
			for i := len(e.EnumLabels) - 1; i >= 0; i-- {
				f.ins("pg_enum", oid, float64(i+1), e.EnumLabels[i])
			}
			describe(oid, "pg_type", 0, e.Comment)
		}
		for _, d := range sc.Domains {
			oid := f.next()
			domains[qual(sc.SchemaName, d.DomainName)] = oid
			base, mod := pgType(shortType(d.UnderlyingType))
			coll := int64(0)
			if base == 25 || base == 1043 || base == 1042 {
				coll = 100
			}
			if d.CollationName != "" {
				coll = collOid(d.CollationName)
			}
			s.reg.types[oid] = pgTypeInfo{qual(sc.SchemaName, d.DomainName), 'd'}
			var def any
			if d.ColumnDefault != "" {
				def = d.ColumnDefault
			}
			f.ins("pg_type", oid, d.DomainName, ns, "d", base, mod, d.IsNotNull, def, coll)
			for i, name := range d.CheckNames {
				con := f.next()
				s.reg.exprs[con] = "CHECK " + d.CheckExprs[i]
				f.ins("pg_constraint", con, name, "c", 0, oid, 0, 0, "[]", "[]", "[]", " ", " ", " ", false, false, true)
			}
			describe(oid, "pg_type", 0, d.Comment)
		}
	}
	rel := map[string]int64{}
	attnum := map[string]int{}
	for _, sc := range s.cat.Schemas {
		for i := range sc.Tables {
			t := &sc.Tables[i]
			oid := f.next()
			rel[sc.SchemaName+"\x00"+t.TableName] = oid
			s.reg.classes[sc.SchemaName+"\x00"+t.TableName] = oid
			f.ins("pg_class", oid, t.TableName, nsOid[sc.SchemaName], "r", 2)
			describe(oid, "pg_class", 0, t.Comment)
			f.ins("pg_attribute", oid, -1, "ctid", 27, -1, "", true, "", 0, false)
			n := 0
			for j := range t.Columns {
				col := &t.Columns[j]
				if j%3 == 1 {
					// A dropped column leaves a gap.
					n++
					f.ins("pg_attribute", oid, n, "........pg.dropped."+strconv.Itoa(n)+"........", 0, -1, "", false, "", 0, true)
				}
				n++
				attnum[fmt.Sprint(oid, " ", col.ColumnName)] = n
				typ, mod := int64(0), int64(-1)
				coll := int64(0)
				switch {
				case col.DomainName != "":
					typ = domains[col.DomainName]
				case col.IsEnum:
					typ = enums[col.ColumnType]
				default:
					typ, mod = pgType(col.ColumnType)
					if typ == 25 || typ == 1043 || typ == 1042 {
						coll = 100
					}
				}
				if typ == 0 {
					f.err = fmt.Errorf("type of %+v", col)
				}
				if col.CollationName != "" {
					coll = collOid(col.CollationName)
				}
				ident := ""
				switch col.ColumnIdentity {
				case "GENERATED BY DEFAULT AS IDENTITY":
					ident = "d"
				case "GENERATED ALWAYS AS IDENTITY":
					ident = "a"
				}
				gen := ""
				if col.GeneratedExpr != "" {
					gen = "s"
					f.ins("pg_attrdef", oid, n, col.GeneratedExpr)
				} else if col.ColumnDefault != "" {
					f.ins("pg_attrdef", oid, n, col.ColumnDefault)
				}
				f.ins("pg_attribute", oid, n, col.ColumnName, typ, mod, ident, col.IsNotNull, gen, coll, false)
				describe(oid, "pg_class", n, col.Comment)
			}
		}
	}
	index := func(relOid int64, ns int64, idx *ddl.Index, constraint bool) int64 {
		ioid := f.next()
		f.ins("pg_class", ioid, idx.IndexName, ns, "i", amOid(idx.IndexType))
		var keys, classes []int64
		defs := []string{strings.TrimSuffix(idx.SQL, ";")}
		for i, col := range append(append([]string{}, idx.Columns...), idx.IncludeColumns...) {
			defs = append(defs, col)
			keys = append(keys, int64(attnum[fmt.Sprint(relOid, " ", unquotePG(col))]))
			if i < len(idx.Columns) {
				name := "int4_ops"
				if i < len(idx.Opclasses) && idx.Opclasses[i] != "" {
					name = idx.Opclasses[i]
				}
				classes = append(classes, opcOid(name))
			}
		}
		var pred any
		if idx.Predicate != "" {
			pred = idx.Predicate
		}
		s.reg.indexdefs[ioid] = defs
		f.ins("pg_index", ioid, relOid, idx.IsUnique, len(idx.Columns), jsonOf(keys), jsonOf(classes), pred)
		return ioid
	}
	rules := map[string]string{"": "a", "RESTRICT": "r", "CASCADE": "c", "SET NULL": "n", "SET DEFAULT": "d"}
	for _, sc := range s.cat.Schemas {
		ns := nsOid[sc.SchemaName]
		for i := range sc.Tables {
			t := &sc.Tables[i]
			oid := rel[sc.SchemaName+"\x00"+t.TableName]
			for j := range t.Constraints {
				con := &t.Constraints[j]
				coid := f.next()
				nums := func(rel int64, cols []string) string {
					var out []int
					for _, c := range cols {
						out = append(out, attnum[fmt.Sprint(rel, " ", c)])
					}
					return jsonOf(out)
				}
				switch con.ConstraintType {
				case "PRIMARY KEY", "UNIQUE":
					quoted := make([]string, len(con.Columns))
					for k, c := range con.Columns {
						quoted[k] = pgIdent(c)
					}
					ioid := index(oid, ns, &ddl.Index{IndexName: con.ConstraintName, IndexType: "btree", IsUnique: true, Columns: quoted}, true)
					f.ins("pg_constraint", coid, con.ConstraintName, strings.ToLower(con.ConstraintType[:1]), oid, 0, ioid, 0, nums(oid, con.Columns), nil, nil, " ", " ", " ", con.IsDeferrable, con.IsInitiallyDeferred, true)
				case "FOREIGN KEY":
					ref := rel[con.ReferencesSchema+"\x00"+con.ReferencesTable]
					match := map[string]string{"": "s", "MATCH FULL": "f", "MATCH PARTIAL": "p"}[con.MatchOption]
					f.ins("pg_constraint", coid, con.ConstraintName, "f", oid, 0, 0, ref, nums(oid, con.Columns), nums(ref, con.ReferencesColumns), nil, rules[con.UpdateRule], rules[con.DeleteRule], match, con.IsDeferrable, con.IsInitiallyDeferred, !con.IsNotValid)
					f.ins("pg_trigger", f.next(), oid, "RI_ConstraintTrigger_c_"+strconv.Itoa(int(coid)), true)
					f.ins("pg_trigger", f.next(), ref, "RI_ConstraintTrigger_a_"+strconv.Itoa(int(coid)), true)
				case "CHECK":
					s.reg.exprs[coid] = "CHECK (" + con.CheckExpr + ")"
					f.ins("pg_constraint", coid, con.ConstraintName, "c", oid, 0, 0, 0, "[1]", nil, nil, " ", " ", " ", con.IsDeferrable, con.IsInitiallyDeferred, !con.IsNotValid)
				case "EXCLUDE":
					ioid := index(oid, ns, &ddl.Index{IndexName: con.ConstraintName, IndexType: con.ExclusionIndexType, Columns: con.Columns, Predicate: con.ExclusionPredicate}, true)
					var ops []int64
					for _, o := range con.ExclusionOperators {
						ops = append(ops, operOid(o))
					}
					f.ins("pg_constraint", coid, con.ConstraintName, "x", oid, 0, ioid, 0, nums(oid, con.Columns), nil, jsonOf(ops), " ", " ", " ", con.IsDeferrable, con.IsInitiallyDeferred, true)
				}
			}
			for j := range t.Indexes {
				index(oid, ns, &t.Indexes[j], false)
			}
			for j := range t.Triggers {
				tr := &t.Triggers[j]
				toid := f.next()
				s.reg.exprs[toid] = strings.TrimSuffix(tr.SQL, ";")
				f.ins("pg_trigger", toid, oid, tr.TriggerName, false)
				describe(toid, "pg_trigger", 0, tr.Comment)
			}
		}
		for i := range sc.Views {
			v := &sc.Views[i]
			oid := f.next()
			rel[sc.SchemaName+"\x00"+v.ViewName] = oid
			s.reg.classes[sc.SchemaName+"\x00"+v.ViewName] = oid
			kind := "v"
			if v.IsMaterialized {
				kind = "m"
				f.ins("pg_matviews", sc.SchemaName, v.ViewName)
			} else {
				f.ins("pg_views", sc.SchemaName, v.ViewName)
			}
			f.ins("pg_class", oid, v.ViewName, ns, kind, 0)
			s.reg.exprs[oid] = v.SQL
			for j, col := range v.Columns {
				attnum[fmt.Sprint(oid, " ", col)] = j + 1
				typ, mod := int64(0), int64(-1)
				if contains(v.EnumColumns, col) {
					for name, id := range enums {
						if strings.EqualFold(name, v.ColumnTypes[j]) {
							typ = id
						}
					}
				} else {
					typ, mod = pgType(shortType(strings.ToLower(v.ColumnTypes[j])))
				}
				f.ins("pg_attribute", oid, j+1, col, typ, mod, "", false, "", 0, false)
			}
			describe(oid, "pg_class", 0, v.Comment)
			for j := range v.Indexes {
				index(oid, ns, &v.Indexes[j], false)
			}
			for j := range v.Triggers {
				tr := &v.Triggers[j]
				toid := f.next()
				s.reg.exprs[toid] = strings.TrimSuffix(tr.SQL, ";")
				f.ins("pg_trigger", toid, oid, tr.TriggerName, false)
				describe(toid, "pg_trigger", 0, tr.Comment)
			}
		}
		for i := range sc.Routines {
			r := &sc.Routines[i]
			oid := f.next()
			kind := map[string]string{"FUNCTION": "f", "PROCEDURE": "p", "WINDOW": "w", "AGGREGATE": "a"}[r.RoutineType]
			f.ins("pg_proc", oid, r.RoutineName, ns, kind)
			if kind != "a" {
				s.reg.exprs[oid] = strings.TrimSuffix(r.SQL, ";")
			}
			s.reg.args[oid] = r.IdentityArguments
			if rt := r.Attrs["returnType"]; rt != "" {
				s.reg.results[oid] = rt
			}
			describe(oid, "pg_proc", 0, r.Comment)
		}
	}
}

// shortType turns a type as Postgres formats it into the short form.
func shortType(typ string) string {
	for short, t := range pgTypes {
		if t.name == typ {
			return short
		}
		if head, args, ok := strings.Cut(typ, "("); ok && head == t.name {
			return short + "(" + args
		}
	}
	return typ
}

func unquotePG(s string) string {
	if p := splitName(s); len(p) == 1 {
		return p[0]
	}
	return s
}

func nullStr(s string) any {
	if s == "" {
		return nil
	}
	return s
}

func (f *filler) mysql() {
	s := f.s
	info := "information_schema."
	yes := func(b bool) string {
		if b {
			return "YES"
		}
		return "NO"
	}
	for _, sc := range s.cat.Schemas {
		for i := range sc.Tables {
			t := &sc.Tables[i]
			f.ins(info+"tables", sc.SchemaName, t.TableName, "BASE TABLE", t.Comment)
			for j := range t.Columns {
				c := &t.Columns[j]
				extra := ""
				def := nullStr(c.ColumnDefault)
				if strings.HasPrefix(c.ColumnDefault, "'") {
					def = strings.ReplaceAll(c.ColumnDefault[1:len(c.ColumnDefault)-1], "''", "'")
				} else if strings.HasPrefix(c.ColumnDefault, "(") {
					def = c.ColumnDefault[1 : len(c.ColumnDefault)-1]
					extra = "DEFAULT_GENERATED"
				} else if strings.HasPrefix(c.ColumnDefault, "CURRENT_TIMESTAMP") {
					extra = "DEFAULT_GENERATED"
				}
				if c.IsAutoincrement {
					extra = "auto_increment"
				}
				if c.OnUpdateCurrentTimestamp {
					extra = strings.TrimSpace(extra + " on update CURRENT_TIMESTAMP")
					if strings.HasSuffix(c.ColumnType, "(6)") {
						extra += "(6)"
					}
				}
				if c.GeneratedExpr != "" {
					extra = "VIRTUAL GENERATED"
					if c.GeneratedExprStored {
						extra = "STORED GENERATED"
					}
				}
				var coll, length, prec, scale any
				base, args, _ := strings.Cut(strings.TrimSuffix(c.ColumnType, ")"), "(")
				switch base {
				case "varchar", "char":
					length, _ = strconv.ParseInt(args, 10, 64)
					coll = s.cat.DefaultCollation
				case "text":
					length = int64(65535)
					coll = s.cat.DefaultCollation
				case "decimal":
					a, b, _ := strings.Cut(args, ",")
					prec, _ = strconv.ParseInt(a, 10, 64)
					scale, _ = strconv.ParseInt(b, 10, 64)
				case "int", "bigint", "int unsigned":
					prec, scale = int64(10), int64(0)
				}
				if c.CollationName != "" {
					coll = c.CollationName
				}
				f.ins(info+"columns", sc.SchemaName, t.TableName, c.ColumnName, j+1, c.ColumnType, length, prec, scale, extra, yes(!c.IsNotNull), strings.ReplaceAll(c.GeneratedExpr, "'", `\'`), coll, def, c.Comment)
			}
			stat := func(name, typ string, unique bool, cols []string, desc []bool) {
				for k, col := range cols {
					coll := "A"
					if k < len(desc) && desc[k] {
						coll = "D"
					}
					var cn, ex any = col, nil
					if strings.HasPrefix(col, "(") {
						cn, ex = nil, strings.ReplaceAll(col[1:len(col)-1], "'", `\'`)
					}
					f.ins(info+"statistics", sc.SchemaName, t.TableName, name, typ, !unique, cn, ex, coll, k+1)
				}
			}
			for j := range t.Constraints {
				con := &t.Constraints[j]
				f.ins(info+"table_constraints", sc.SchemaName, con.ConstraintName, sc.SchemaName, t.TableName, con.ConstraintType)
				for k, col := range con.Columns {
					var rs, rt, rc any
					if con.ConstraintType == "FOREIGN KEY" {
						rs, rt, rc = con.ReferencesSchema, con.ReferencesTable, con.ReferencesColumns[k]
					}
					f.ins(info+"key_column_usage", sc.SchemaName, con.ConstraintName, sc.SchemaName, t.TableName, col, k+1, rs, rt, rc)
				}
				switch con.ConstraintType {
				case "PRIMARY KEY", "UNIQUE":
					stat(con.ConstraintName, "BTREE", true, con.Columns, nil)
				case "FOREIGN KEY":
					upd, del := con.UpdateRule, con.DeleteRule
					if upd == "" {
						upd = "NO ACTION"
					}
					if del == "" {
						del = "NO ACTION"
					}
					f.ins(info+"referential_constraints", sc.SchemaName, con.ConstraintName, con.ReferencesSchema, t.TableName, con.ReferencesTable, upd, del, "NONE")
					// The server creates the index a foreign key needs.
					stat(con.ConstraintName, "BTREE", false, con.Columns, nil)
				case "CHECK":
					f.ins(info+"check_constraints", sc.SchemaName, con.ConstraintName, "("+con.CheckExpr+")")
				}
			}
			for j := range t.Indexes {
				ix := &t.Indexes[j]
				stat(ix.IndexName, ix.IndexType, ix.IsUnique, ix.Columns, ix.Descending)
			}
			for j := range t.Triggers {
				tr := &t.Triggers[j]
				f.ins(info+"triggers", sc.SchemaName, tr.TriggerName, sc.SchemaName, t.TableName, tr.SQL, tr.Attrs["actionTiming"], tr.Attrs["eventManipulation"])
			}
		}
		for i := range sc.Views {
			v := &sc.Views[i]
			f.ins(info+"tables", sc.SchemaName, v.ViewName, "VIEW", "VIEW")
			f.ins(info+"views", sc.SchemaName, v.ViewName, v.SQL)
			for j := range v.Columns {
				f.ins(info+"columns", sc.SchemaName, v.ViewName, v.Columns[j], j+1, v.ColumnTypes[j], nil, nil, nil, "", "YES", "", nil, nil, "")
			}
		}
		for i := range sc.Routines {
			r := &sc.Routines[i]
			f.ins(info+"routines", sc.SchemaName, r.RoutineName, r.RoutineName, r.RoutineType, nullStr(r.Attrs["returnType"]), r.SQL, r.Comment, r.Attrs["routineBody"], yes(r.Attrs["isDeterministic"] == "true"), r.Attrs["sqlDataAccess"], r.Attrs["securityType"])
			if r.RoutineType == "FUNCTION" {
				f.ins(info+"parameters", sc.SchemaName, r.RoutineName, 0, nil, nil, r.Attrs["returnType"], "FUNCTION")
			}
			if p := r.Attrs["parameters"]; p != "" {
				for k, param := range strings.Split(p, "|") {
					mode := any(nil)
					if r.RoutineType == "PROCEDURE" {
						m, rest, _ := strings.Cut(param, " ")
						mode, param = m, rest
					} else {
						mode = "IN"
					}
					name, typ, _ := strings.Cut(param, " ")
					f.ins(info+"parameters", sc.SchemaName, r.RoutineName, k+1, mode, name, typ, r.RoutineType)
				}
			}
		}
	}
}

var msTypes = map[string]int64{"int": 56, "bigint": 127, "smallint": 52, "tinyint": 48, "bit": 104, "decimal": 106, "numeric": 108, "float": 62, "real": 59,
	"nvarchar": 231, "varchar": 167, "char": 175, "nchar": 239, "varbinary": 165, "binary": 173, "datetimeoffset": 43, "datetime2": 42, "date": 40, "time": 41, "uniqueidentifier": 36, "smalldatetime": 58, "datetime": 61}

func (f *filler) sqlserver() {
	s := f.s
	for name, id := range msTypes {
		s.reg.typeNames[id] = name
		f.ins("sys.types", id, name)
	}
	ids := map[string]int64{}
	colID := map[string]int{}
	schemaID := map[string]int64{}
	column := func(obj int64, j int, name, typ string, c *ddl.Column) {
		base, args, _ := strings.Cut(strings.TrimSuffix(typ, ")"), "(")
		id, ok := msTypes[base]
		if !ok {
			f.err = fmt.Errorf("unknown SQL Server type %s", typ)
		}
		prec, scale := 0, 0
		key := fmt.Sprint(obj, " ", name)
		var coll any
		switch base {
		case "nvarchar", "varchar", "char", "nchar", "varbinary", "binary":
			n, err := strconv.ParseInt(args, 10, 64)
			if err != nil {
				n = -1
			}
			s.reg.charlen[key] = n
			if !strings.Contains(base, "binary") {
				coll = s.cat.DefaultCollation
			}
		case "decimal", "numeric":
			a, b, _ := strings.Cut(args, ",")
			prec, _ = strconv.Atoi(a)
			scale, _ = strconv.Atoi(b)
		case "int":
			prec = 10
		case "bigint":
			prec = 19
		case "float":
			prec = 53
		}
		s.reg.ordinal[key] = int64(j + 1)
		colID[key] = j + 1
		if c == nil {
			f.ins("sys.columns", obj, name, j+1, id, id, prec, scale, false, true, coll, 0)
			return
		}
		if c.CollationName != "" {
			coll = c.CollationName
		}
		defID := int64(0)
		if d := c.ColumnDefault; d != "" {
			defID = f.next()
			if strings.HasPrefix(d, "(") {
				s.reg.exprs[defID] = d
			} else if strings.HasPrefix(d, "'") {
				s.reg.exprs[defID] = "(" + d + ")"
			} else {
				s.reg.exprs[defID] = "((" + d + "))"
			}
		}
		if c.ColumnIdentity != "" {
			seed, inc := 1, 1
			fmt.Sscanf(c.ColumnIdentity, "IDENTITY(%d, %d)", &seed, &inc)
			f.ins("sys.identity_columns", obj, j+1, seed, inc)
		}
		if c.GeneratedExpr != "" {
			f.ins("sys.computed_columns", obj, j+1, c.GeneratedExpr, c.GeneratedExprStored)
		}
		f.ins("sys.columns", obj, name, j+1, id, id, prec, scale, c.ColumnIdentity != "", !c.IsNotNull, coll, defID)
	}
	for _, sc := range s.cat.Schemas {
		schemaID[sc.SchemaName] = f.next()
		f.ins("sys.schemas", f.oid, sc.SchemaName)
	}
	index := func(obj int64, indexID int, ix *ddl.Index, pk, uq bool) {
		f.ins("sys.indexes", obj, indexID, ix.IndexName, ix.IndexType, ix.IsUnique || pk || uq, pk, uq, nullStr(ix.Predicate))
		n := 0
		for k, col := range ix.Columns {
			n++
			f.ins("sys.index_columns", obj, indexID, n, colID[fmt.Sprint(obj, " ", col)], k+1, k < len(ix.Descending) && ix.Descending[k], false)
		}
		for _, col := range ix.IncludeColumns {
			n++
			f.ins("sys.index_columns", obj, indexID, n, colID[fmt.Sprint(obj, " ", col)], 0, false, true)
		}
	}
	for _, sc := range s.cat.Schemas {
		for i := range sc.Tables {
			t := &sc.Tables[i]
			oid := f.next()
			ids[sc.SchemaName+"\x00"+t.TableName] = oid
			f.ins("sys.objects", oid, t.TableName, schemaID[sc.SchemaName], "U", 0)
			f.ins("sys.tables", oid, t.TableName, schemaID[sc.SchemaName], "U")
			for j := range t.Columns {
				column(oid, j, t.Columns[j].ColumnName, t.Columns[j].ColumnType, &t.Columns[j])
			}
		}
	}
	rule := func(r string) string {
		if r == "" {
			return "NO_ACTION"
		}
		return strings.ReplaceAll(r, " ", "_")
	}
	for _, sc := range s.cat.Schemas {
		for i := range sc.Tables {
			t := &sc.Tables[i]
			oid := ids[sc.SchemaName+"\x00"+t.TableName]
			indexID, clustered := 1, false
			for j := range t.Constraints {
				clustered = clustered || t.Constraints[j].IsClustered
			}
			if !clustered {
				f.ins("sys.indexes", oid, 0, nil, "HEAP", false, false, false, nil)
			}
			for j := range t.Constraints {
				con := &t.Constraints[j]
				switch con.ConstraintType {
				case "PRIMARY KEY", "UNIQUE":
					id := indexID + 1
					typ := "NONCLUSTERED"
					if con.IsClustered {
						id, typ = 1, "CLUSTERED"
					} else {
						indexID++
					}
					index(oid, id, &ddl.Index{IndexName: con.ConstraintName, IndexType: typ, Columns: con.Columns, IsUnique: true}, con.ConstraintType == "PRIMARY KEY", con.ConstraintType == "UNIQUE")
				case "FOREIGN KEY":
					fk := f.next()
					ref := ids[con.ReferencesSchema+"\x00"+con.ReferencesTable]
					f.ins("sys.foreign_keys", fk, con.ConstraintName, oid, rule(con.UpdateRule), rule(con.DeleteRule), con.IsNotValid)
					for k := range con.Columns {
						f.ins("sys.foreign_key_columns", fk, k+1, oid, colID[fmt.Sprint(oid, " ", con.Columns[k])], ref, colID[fmt.Sprint(ref, " ", con.ReferencesColumns[k])])
					}
				case "CHECK":
					f.ins("sys.check_constraints", f.next(), con.ConstraintName, oid, "("+con.CheckExpr+")", con.IsNotValid)
				}
			}
			for j := range t.Indexes {
				indexID++
				index(oid, indexID, &t.Indexes[j], false, false)
			}
			for j := range t.Triggers {
				tr := &t.Triggers[j]
				toid := f.next()
				f.ins("sys.objects", toid, tr.TriggerName, schemaID[sc.SchemaName], "TR", oid)
				f.ins("sys.sql_modules", toid, tr.SQL)
			}
		}
		for i := range sc.Views {
			v := &sc.Views[i]
			oid := f.next()
			f.ins("sys.objects", oid, v.ViewName, schemaID[sc.SchemaName], "V", 0)
			f.ins("sys.views", oid, v.ViewName, schemaID[sc.SchemaName], "V")
			f.ins("sys.sql_modules", oid, v.SQL)
			for j := range v.Columns {
				column(oid, j, v.Columns[j], v.ColumnTypes[j], nil)
			}
			for j := range v.Indexes {
				index(oid, j+1, &v.Indexes[j], false, false)
			}
			for j := range v.Triggers {
				tr := &v.Triggers[j]
				toid := f.next()
				f.ins("sys.objects", toid, tr.TriggerName, schemaID[sc.SchemaName], "TR", oid)
				f.ins("sys.sql_modules", toid, tr.SQL)
			}
		}
		for i := range sc.Routines {
			r := &sc.Routines[i]
			oid := f.next()
			typ := "P"
			if r.RoutineType == "FUNCTION" {
				typ = []string{"FN", "IF", "TF"}[i%3]
			}
			f.ins("sys.objects", oid, r.RoutineName, schemaID[sc.SchemaName], typ, 0)
			f.ins("sys.sql_modules", oid, r.SQL)
		}
	}
}
