package zzverif

import (
	"errors"
	"fmt"

	"github.com/kunitsucom/ddlctl/pkg/ddl"
	crddl "github.com/kunitsucom/ddlctl/pkg/ddl/cockroachdb"
	myddl "github.com/kunitsucom/ddlctl/pkg/ddl/mysql"
	pgddl "github.com/kunitsucom/ddlctl/pkg/ddl/postgres"
	spddl "github.com/kunitsucom/ddlctl/pkg/ddl/spanner"
)

// DDL is what the tool reads from a text, in any dialect.
type DDL interface{ String() string }

// toolParse reads a text with the code under test.
func toolParse(dialect, s string) (DDL, error) {
	switch dialect {
	case PG:
		d, err := pgddl.NewParser(pgddl.NewLexer(s)).Parse()
		if err != nil {
			return nil, err
		}
		return d, nil
	case CR:
		d, err := crddl.NewParser(crddl.NewLexer(s)).Parse()
		if err != nil {
			return nil, err
		}
		return d, nil
	case MY:
		d, err := myddl.NewParser(myddl.NewLexer(s)).Parse()
		if err != nil {
			return nil, err
		}
		return d, nil
	case SP:
		d, err := spddl.NewParser(spddl.NewLexer(s)).Parse()
		if err != nil {
			return nil, err
		}
		return d, nil
	}
	harnessf("unknown dialect %q", dialect)
	return nil, nil
}

// toolDiff compares with the code under test. same is true when the tool says
// there is no difference.
func toolDiff(dialect string, a, b DDL) (out string, same bool, err error) {
	var r DDL
	switch dialect {
	case PG:
		r2, e := pgddl.Diff(a.(*pgddl.DDL), b.(*pgddl.DDL))
		r, err = r2, e
	case CR:
		r2, e := crddl.Diff(a.(*crddl.DDL), b.(*crddl.DDL))
		r, err = r2, e
	case MY:
		r2, e := myddl.Diff(a.(*myddl.DDL), b.(*myddl.DDL))
		r, err = r2, e
	case SP:
		r2, e := spddl.Diff(a.(*spddl.DDL), b.(*spddl.DDL))
		r, err = r2, e
	default:
		harnessf("unknown dialect %q", dialect)
	}
	if err != nil {
		if errors.Is(err, ddl.ErrNoDifference) {
			return "", true, nil
		}
		return "", false, err
	}
	return r.String(), false, nil
}

func parseBoth(d, a, b string) (DDL, DDL, error) {
	x, err := toolParse(d, a)
	if err != nil {
		return nil, nil, fmt.Errorf("reading the first text: %w", err)
	}
	y, err := toolParse(d, b)
	if err != nil {
		return nil, nil, fmt.Errorf("reading the second text: %w", err)
	}
	return x, y, nil
}

func emptyDDL(d string) DDL {
	switch d {
	case PG:
		return &pgddl.DDL{}
	case CR:
		return &crddl.DDL{}
	case MY:
		return &myddl.DDL{}
	}
	return &spddl.DDL{}
}

func nilDDL(d string) DDL {
	switch d {
	case PG:
		return (*pgddl.DDL)(nil)
	case CR:
		return (*crddl.DDL)(nil)
	case MY:
		return (*myddl.DDL)(nil)
	}
	return (*spddl.DDL)(nil)
}
