// Package zzdriver registers, under the names of the real database drivers,
// a driver that passes every call to the process that started this one.
package zzdriver

import (
	"bufio"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"io"
	"os"
	"sync"
)

func init() {
	for _, n := range []string{"mysql", "postgres", "spanner"} {
		sql.Register(n, &drv{n})
	}
}

// Call is a request, Reply the answer to it: one JSON text a line.
type Call struct {
	Op     string `json:"op"`
	Driver string `json:"driver,omitempty"`
	DSN    string `json:"dsn,omitempty"`
	Conn   int    `json:"conn"`
	Query  string `json:"query,omitempty"`
	Args   []any  `json:"args,omitempty"`
}

// Reply is the answer to a Call.
type Reply struct {
	Err     string   `json:"err,omitempty"`
	BadConn bool     `json:"bad_conn,omitempty"`
	Conn    int      `json:"conn"`
	Cols    []string `json:"cols"`
	Rows    [][]any  `json:"rows"`
	RowsErr string   `json:"rows_err,omitempty"` // after the rows
}

var (
	mu  sync.Mutex
	in  *bufio.Reader
	out *os.File
)

func call(c *Call) (*Reply, error) {
	mu.Lock()
	defer mu.Unlock()
	if in == nil {
		if os.Getenv("ZZ_DB") == "" {
			return nil, errors.New("zzdriver: no database here")
		}
		in = bufio.NewReader(os.NewFile(3, "zzin"))
		out = os.NewFile(4, "zzout")
	}
	b, err := json.Marshal(c)
	if err != nil {
		return nil, err
	}
	if _, err := out.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	line, err := in.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	r := &Reply{}
	if err := json.Unmarshal(line, r); err != nil {
		return nil, err
	}
	if r.BadConn {
		return nil, driver.ErrBadConn
	}
	if r.Err != "" {
		return nil, errors.New(r.Err)
	}
	return r, nil
}

type drv struct{ name string }

func (d *drv) Open(dsn string) (driver.Conn, error) {
	r, err := call(&Call{Op: "open", Driver: d.name, DSN: dsn})
	if err != nil {
		return nil, err
	}
	return &conn{id: r.Conn}, nil
}

type conn struct{ id int }

func (c *conn) Ping(context.Context) error {
	_, err := call(&Call{Op: "ping", Conn: c.id})
	return err
}

func (c *conn) Close() error {
	_, err := call(&Call{Op: "close", Conn: c.id})
	return err
}

func (c *conn) Begin() (driver.Tx, error) {
	if _, err := call(&Call{Op: "begin", Conn: c.id}); err != nil {
		return nil, err
	}
	return &tx{c}, nil
}

type tx struct{ c *conn }

func (t *tx) Commit() error {
	_, err := call(&Call{Op: "commit", Conn: t.c.id})
	return err
}

func (t *tx) Rollback() error {
	_, err := call(&Call{Op: "rollback", Conn: t.c.id})
	return err
}

func values(args []driver.NamedValue) []any {
	v := make([]any, 0, len(args))
	for _, a := range args {
		v = append(v, a.Value)
	}
	return v
}

func (c *conn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if _, err := call(&Call{Op: "exec", Conn: c.id, Query: q, Args: values(args)}); err != nil {
		return nil, err
	}
	return driver.RowsAffected(0), nil
}

func (c *conn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	r, err := call(&Call{Op: "query", Conn: c.id, Query: q, Args: values(args)})
	if err != nil {
		return nil, err
	}
	return &rows{r: r}, nil
}

func (c *conn) Prepare(q string) (driver.Stmt, error) { return &stmt{c, q}, nil }

type stmt struct {
	c *conn
	q string
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return -1 }

func named(args []driver.Value) []driver.NamedValue {
	v := make([]driver.NamedValue, 0, len(args))
	for i, a := range args {
		v = append(v, driver.NamedValue{Ordinal: i + 1, Value: a})
	}
	return v
}

func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(args))
}

func (s *stmt) Query(args []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(args))
}

type rows struct {
	r *Reply
	i int
}

func (r *rows) Columns() []string { return r.r.Cols }
func (r *rows) Close() error      { return nil }
func (r *rows) Next(dest []driver.Value) error {
	if r.i >= len(r.r.Rows) {
		if r.r.RowsErr != "" {
			return errors.New(r.r.RowsErr)
		}
		return io.EOF
	}
	for i, v := range r.r.Rows[r.i] {
		if f, ok := v.(float64); ok {
			v = int64(f)
		}
		dest[i] = v
	}
	r.i++
	return nil
}
