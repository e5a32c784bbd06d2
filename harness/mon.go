package main

// A database/sql driver that forwards to the real SQLite driver while
// recording every call the code under test makes, keeping a ledger of live
// connections, transactions, statements and result sets, and giving hooks the
// chance to fail, delay or crash any call.

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"

	"github.com/mattn/go-sqlite3"
)

// Event is one call crossing the database/sql driver boundary.
type Event struct {
	Seq   int
	Kind  string // open close begin commit rollback exec query prepare stmtexec stmtquery next rowsclose
	Conn  int
	Tx    int // 0 if outside a transaction
	SQL   string
	Args  []any
	Err   string
	After bool
}

func (e Event) String() string {
	s := fmt.Sprintf("#%d %s conn=%d tx=%d", e.Seq, e.Kind, e.Conn, e.Tx)
	if e.SQL != "" {
		q := strings.Join(strings.Fields(e.SQL), " ")
		if len(q) > 120 {
			q = q[:120] + "..."
		}
		s += " " + q
	}
	if e.Err != "" {
		s += " ERR=" + e.Err
	}
	return s
}

// Monitor observes all the connections opened through one *sql.DB.
type Monitor struct {
	mu      sync.Mutex
	seq     int
	connSeq int
	txSeq   int
	Events  []Event
	Keep    bool // keep events in memory
	// Before is called before an operation is forwarded. A non-nil error is
	// returned instead of forwarding.
	Before func(ev *Event) error
	// AfterOp is called after the operation was forwarded successfully; a
	// non-nil error is reported although the operation took effect.
	AfterOp func(ev *Event) error
	// Emu rewrites or answers statements of another dialect.
	Emu Emulator

	LiveConns, LiveTxs, LiveStmts, LiveRows int
	Opened, Txs, Statements                 int
	DSN                                     string
	InitSQL                                 []string
	OnConnect                               func(c *sqlite3.SQLiteConn) error
}

// Emulator lets SQLite stand in for another database server.
type Emulator interface {
	Query(c *mconn, ctx context.Context, query string, args []driver.NamedValue) (rows driver.Rows, handled bool, err error)
	Exec(c *mconn, ctx context.Context, query string, args []driver.NamedValue) (res driver.Result, handled bool, err error)
}

// txEmulator is an Emulator that keeps state of its own.
type txEmulator interface {
	Begin(c *mconn)
	Commit(c *mconn)
	Rollback(c *mconn)
}

var errInjected = errors.New("injected driver failure")

type connector struct {
	m *Monitor
	d *sqlite3.SQLiteDriver
}

func (c *connector) Driver() driver.Driver { return c.d }

// openMonitored opens a SQLite database through a Monitor.
func openMonitored(dsn string, m *Monitor) *sql.DB {
	m.DSN = dsn
	return sql.OpenDB(&connector{m: m, d: &sqlite3.SQLiteDriver{ConnectHook: func(c *sqlite3.SQLiteConn) error {
		if m.OnConnect != nil {
			return m.OnConnect(c)
		}
		return nil
	}}})
}

func (m *Monitor) before(kind string, c *mconn, query string, args []driver.NamedValue) (*Event, error) {
	m.mu.Lock()
	m.seq++
	ev := Event{Seq: m.seq, Kind: kind, SQL: query}
	if c != nil {
		ev.Conn = c.id
		ev.Tx = c.tx
	}
	for _, a := range args {
		ev.Args = append(ev.Args, a.Value)
	}
	hook := m.Before
	m.mu.Unlock()
	var err error
	if hook != nil {
		err = hook(&ev)
	}
	if err != nil {
		m.finish(&ev, err)
	}
	return &ev, err
}

func (m *Monitor) finish(ev *Event, err error) error {
	if err == nil && m.AfterOp != nil {
		err = m.AfterOp(ev)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if err != nil {
		ev.Err = err.Error()
	}
	if m.Keep {
		m.Events = append(m.Events, *ev)
	}
	return err
}

// Take returns the recorded events and clears them.
func (m *Monitor) Take() []Event {
	m.mu.Lock()
	defer m.mu.Unlock()
	evs := m.Events
	m.Events = nil
	return evs
}

// Reset clears hooks and the sequence counter.
func (m *Monitor) Reset() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.Before, m.AfterOp = nil, nil
	m.seq = 0
	m.Events = nil
}

func (m *Monitor) add(p *int, n int) {
	m.mu.Lock()
	*p += n
	m.mu.Unlock()
}

// Live returns the ledger.
func (m *Monitor) Live() (conns, txs, stmts, rows int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.LiveConns, m.LiveTxs, m.LiveStmts, m.LiveRows
}

func (c *connector) Connect(ctx context.Context) (driver.Conn, error) {
	ev, err := c.m.before("open", nil, "", nil)
	if err != nil {
		return nil, err
	}
	inner, err := c.d.Open(c.m.DSN)
	if err != nil {
		c.m.finish(ev, err)
		return nil, err
	}
	c.m.mu.Lock()
	c.m.connSeq++
	mc := &mconn{m: c.m, c: inner.(*sqlite3.SQLiteConn), id: c.m.connSeq, session: map[string]string{}}
	c.m.LiveConns++
	c.m.Opened++
	c.m.mu.Unlock()
	ev.Conn = mc.id
	for _, q := range c.m.InitSQL {
		if _, err := mc.c.Exec(q, nil); err != nil {
			return nil, err
		}
	}
	if err := c.m.finish(ev, nil); err != nil {
		mc.Close()
		return nil, err
	}
	return mc, nil
}

type mconn struct {
	m       *Monitor
	c       *sqlite3.SQLiteConn
	id      int
	tx      int
	closed  bool
	session map[string]string // emulated session variables
}

func (c *mconn) Close() error {
	if c.closed {
		return nil
	}
	c.closed = true
	ev, _ := c.m.before("close", c, "", nil)
	c.m.add(&c.m.LiveConns, -1)
	err := c.c.Close()
	c.m.finish(ev, err)
	return err
}

func (c *mconn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}

func (c *mconn) BeginTx(ctx context.Context, opts driver.TxOptions) (driver.Tx, error) {
	ev, err := c.m.before("begin", c, "", nil)
	if err != nil {
		return nil, err
	}
	tx, err := c.c.BeginTx(ctx, opts)
	if err != nil {
		c.m.finish(ev, err)
		return nil, err
	}
	c.m.mu.Lock()
	c.m.txSeq++
	c.m.Txs++
	c.tx = c.m.txSeq
	c.m.LiveTxs++
	c.m.mu.Unlock()
	ev.Tx = c.tx
	mt := &mtx{c: c, tx: tx, session: map[string]string{}}
	for k, v := range c.session {
		mt.session[k] = v
	}
	if e, ok := c.m.Emu.(txEmulator); ok {
		e.Begin(c)
	}
	if err := c.m.finish(ev, nil); err != nil {
		tx.Rollback()
		mt.undoSession()
		mt.done()
		return nil, err
	}
	return mt, nil
}

type mtx struct {
	c        *mconn
	tx       driver.Tx
	finished bool
	session  map[string]string // at the beginning of the transaction
}

// undoSession puts back the session variables, on the servers where a
// rollback does that.
func (t *mtx) undoSession() {
	if e, ok := t.c.m.Emu.(*serverEmu); ok && e.dialect == "postgres" && !t.finished {
		t.c.session = t.session
	}
	if e, ok := t.c.m.Emu.(txEmulator); ok && !t.finished {
		e.Rollback(t.c)
	}
}

func (t *mtx) done() {
	if t.finished {
		return
	}
	t.finished = true
	t.c.m.mu.Lock()
	t.c.m.LiveTxs--
	t.c.tx = 0
	t.c.m.mu.Unlock()
}

func (t *mtx) Commit() error {
	ev, err := t.c.m.before("commit", t.c, "", nil)
	if err != nil {
		// A commit that is reported as failed did not commit.
		t.tx.Rollback()
		t.undoSession()
		t.done()
		return err
	}
	err = t.tx.Commit()
	if err != nil {
		// database/sql considers the transaction finished after Commit; like
		// the servers, roll back what could not be committed.
		t.tx.Rollback()
	}
	if e, ok := t.c.m.Emu.(txEmulator); ok && !t.finished && err == nil {
		e.Commit(t.c)
	}
	t.done()
	if err != nil {
		t.c.m.finish(ev, err)
		return err
	}
	return t.c.m.finish(ev, nil)
}

func (t *mtx) Rollback() error {
	ev, err := t.c.m.before("rollback", t.c, "", nil)
	if err != nil {
		t.tx.Rollback()
		t.undoSession()
		t.done()
		return err
	}
	err = t.tx.Rollback()
	t.undoSession()
	t.done()
	if err != nil {
		t.c.m.finish(ev, err)
		return err
	}
	return t.c.m.finish(ev, nil)
}

func (c *mconn) Ping(ctx context.Context) error { return c.c.Ping(ctx) }

func (c *mconn) ExecContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Result, error) {
	ev, err := c.m.before("exec", c, query, args)
	if err != nil {
		return nil, err
	}
	if err := ctx.Err(); err != nil {
		// Like the drivers of the servers, refuse to begin; SQLite's may finish
		// a short statement.
		c.m.finish(ev, err)
		return nil, err
	}
	c.m.add(&c.m.Statements, 1)
	res, err := c.exec(ctx, query, args)
	if err != nil {
		c.m.finish(ev, err)
		return nil, err
	}
	if err := c.m.finish(ev, nil); err != nil {
		return nil, err
	}
	return res, nil
}

func (c *mconn) exec(ctx context.Context, query string, args []driver.NamedValue) (driver.Result, error) {
	if c.m.Emu != nil {
		res, handled, err := c.m.Emu.Exec(c, ctx, query, args)
		if handled {
			return res, err
		}
	}
	return c.c.ExecContext(ctx, query, args)
}

func (c *mconn) QueryContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
	ev, err := c.m.before("query", c, query, args)
	if err != nil {
		return nil, err
	}
	if err := ctx.Err(); err != nil {
		// Like the drivers of the servers, refuse to begin; SQLite's may finish
		// a short statement.
		c.m.finish(ev, err)
		return nil, err
	}
	c.m.add(&c.m.Statements, 1)
	rows, err := c.query(ctx, query, args)
	if err != nil {
		c.m.finish(ev, err)
		return nil, err
	}
	c.m.add(&c.m.LiveRows, 1)
	mr := &mrows{c: c, r: rows, query: query}
	if err := c.m.finish(ev, nil); err != nil {
		mr.Close()
		return nil, err
	}
	return mr, nil
}

func (c *mconn) query(ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
	if c.m.Emu != nil {
		rows, handled, err := c.m.Emu.Query(c, ctx, query, args)
		if handled {
			return rows, err
		}
	}
	return c.c.QueryContext(ctx, query, args)
}

func (c *mconn) Prepare(query string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), query)
}

func (c *mconn) PrepareContext(ctx context.Context, query string) (driver.Stmt, error) {
	ev, err := c.m.before("prepare", c, query, nil)
	if err != nil {
		return nil, err
	}
	c.m.add(&c.m.LiveStmts, 1)
	ms := &mstmt{c: c, query: query}
	if c.m.Emu == nil {
		ms.s, err = c.c.PrepareContext(ctx, query)
		if err != nil {
			c.m.add(&c.m.LiveStmts, -1)
			c.m.finish(ev, err)
			return nil, err
		}
	}
	if err := c.m.finish(ev, nil); err != nil {
		ms.Close()
		return nil, err
	}
	return ms, nil
}

type mstmt struct {
	c      *mconn
	s      driver.Stmt
	query  string
	closed bool
}

func (s *mstmt) Close() error {
	if s.closed {
		return nil
	}
	s.closed = true
	s.c.m.add(&s.c.m.LiveStmts, -1)
	if s.s != nil {
		return s.s.Close()
	}
	return nil
}

func (s *mstmt) NumInput() int { return -1 }

func (s *mstmt) Exec(args []driver.Value) (driver.Result, error) {
	return s.ExecContext(context.Background(), named(args))
}

func (s *mstmt) Query(args []driver.Value) (driver.Rows, error) {
	return s.QueryContext(context.Background(), named(args))
}

func named(args []driver.Value) []driver.NamedValue {
	out := make([]driver.NamedValue, len(args))
	for i, a := range args {
		out[i] = driver.NamedValue{Ordinal: i + 1, Value: a}
	}
	return out
}

func (s *mstmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	ev, err := s.c.m.before("stmtexec", s.c, s.query, args)
	if err != nil {
		return nil, err
	}
	if err := ctx.Err(); err != nil {
		s.c.m.finish(ev, err)
		return nil, err
	}
	s.c.m.add(&s.c.m.Statements, 1)
	var res driver.Result
	if s.s != nil {
		res, err = s.s.(driver.StmtExecContext).ExecContext(ctx, args)
	} else {
		res, err = s.c.exec(ctx, s.query, args)
	}
	if err != nil {
		s.c.m.finish(ev, err)
		return nil, err
	}
	if err := s.c.m.finish(ev, nil); err != nil {
		return nil, err
	}
	return res, nil
}

func (s *mstmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	ev, err := s.c.m.before("stmtquery", s.c, s.query, args)
	if err != nil {
		return nil, err
	}
	if err := ctx.Err(); err != nil {
		s.c.m.finish(ev, err)
		return nil, err
	}
	s.c.m.add(&s.c.m.Statements, 1)
	var rows driver.Rows
	if s.s != nil {
		rows, err = s.s.(driver.StmtQueryContext).QueryContext(ctx, args)
	} else {
		rows, err = s.c.query(ctx, s.query, args)
	}
	if err != nil {
		s.c.m.finish(ev, err)
		return nil, err
	}
	s.c.m.add(&s.c.m.LiveRows, 1)
	mr := &mrows{c: s.c, r: rows, query: s.query}
	if err := s.c.m.finish(ev, nil); err != nil {
		mr.Close()
		return nil, err
	}
	return mr, nil
}

type mrows struct {
	c      *mconn
	r      driver.Rows
	query  string
	closed bool
	failed error
}

func (r *mrows) Columns() []string { return r.r.Columns() }

func (r *mrows) Close() error {
	if r.closed {
		return nil
	}
	r.closed = true
	r.c.m.add(&r.c.m.LiveRows, -1)
	return r.r.Close()
}

func (r *mrows) Next(dest []driver.Value) error {
	ev, err := r.c.m.before("next", r.c, r.query, nil)
	if err != nil {
		return err
	}
	err = r.r.Next(dest)
	if err != nil {
		if err != io.EOF {
			r.c.m.finish(ev, err)
		}
		return err
	}
	return r.c.m.finish(ev, nil)
}

func (r *mrows) ColumnTypeDatabaseTypeName(i int) string {
	if v, ok := r.r.(driver.RowsColumnTypeDatabaseTypeName); ok {
		return v.ColumnTypeDatabaseTypeName(i)
	}
	return ""
}

// cannedRows is a result set that does not come from SQLite.
type cannedRows struct {
	cols []string
	rows [][]driver.Value
	pos  int
}

func (r *cannedRows) Columns() []string { return r.cols }
func (r *cannedRows) Close() error      { return nil }
func (r *cannedRows) Next(dest []driver.Value) error {
	if r.pos >= len(r.rows) {
		return io.EOF
	}
	copy(dest, r.rows[r.pos])
	r.pos++
	return nil
}

func canned1(v driver.Value) driver.Rows {
	return &cannedRows{cols: []string{"v"}, rows: [][]driver.Value{{v}}}
}

// Like the drivers of the database servers, the connection can be reset and
// validated, so that database/sql keeps it when a context is cancelled.
func (c *mconn) ResetSession(ctx context.Context) error { return nil }
func (c *mconn) IsValid() bool                          { return true }
