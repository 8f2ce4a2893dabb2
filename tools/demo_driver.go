package ddlctl

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"io"
	"os"
	"strings"
)

// A database that answers queries from the file $DEMO_DB and writes what it executes to $DEMO_LOG.

func init() {
	for _, n := range []string{"mysql", "postgres", "spanner"} {
		sql.Register(n, drv{})
	}
}

type drv struct{}

type conn struct{}

type answer struct {
	Match string
	Args  string
	Cols  []string
	Rows  [][]any
	Err   string
	Times int
}

var answers *[]*answer

func find(q string, args []driver.NamedValue) *answer {
	if answers == nil {
		answers = new([]*answer)
		if b, err := os.ReadFile(os.Getenv("DEMO_DB")); err == nil {
			if err := json.Unmarshal(b, answers); err != nil {
				panic(err)
			}
		}
	}
	a, _ := json.Marshal(args)
	for _, x := range *answers {
		if strings.Contains(q, x.Match) && strings.Contains(string(a), x.Args) {
			if x.Times > 0 {
				x.Times--
				if x.Times == 0 {
					x.Match = "\x00"
				}
			}
			return x
		}
	}
	return &answer{Cols: []string{"none"}}
}

func log(s string) {
	f, err := os.OpenFile(os.Getenv("DEMO_LOG"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o600)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	_, _ = f.WriteString(s + "\n")
}

func (drv) Open(string) (driver.Conn, error)     { return &conn{}, nil }
func (*conn) Prepare(string) (driver.Stmt, error) { return nil, errors.New("no prepared statements") }
func (*conn) Begin() (driver.Tx, error)           { return nil, errors.New("no transactions") }
func (*conn) Close() error                        { return nil }

func (*conn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if a := find(q, args); a.Err != "" {
		log("FAILED " + q)
		return nil, errors.New(a.Err)
	}
	log("EXEC " + q)
	return driver.ResultNoRows, nil
}

func (*conn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	a := find(q, args)
	if a.Err != "" {
		return nil, errors.New(a.Err)
	}
	return &rows{a.Cols, a.Rows}, nil
}

type rows struct {
	cols []string
	rest [][]any
}

func (r *rows) Columns() []string { return r.cols }
func (r *rows) Close() error      { return nil }
func (r *rows) Next(dest []driver.Value) error {
	if len(r.rest) == 0 {
		return io.EOF
	}
	for i := range dest {
		dest[i] = r.rest[0][i]
		if f, ok := dest[i].(float64); ok {
			dest[i] = int64(f)
		}
	}
	r.rest = r.rest[1:]
	return nil
}
