// Prints, for every case of cases.txt, what the tool makes of it.  A case is
//
//	dialect read|diff|pure
//	text [ "--->" text ]
//
// and cases are separated by "====" lines.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/ddl/cockroachdb"
	"github.com/kunitsucom/ddlctl/pkg/ddl/mysql"
	"github.com/kunitsucom/ddlctl/pkg/ddl/postgres"
	"github.com/kunitsucom/ddlctl/pkg/ddl/spanner"
)

type schema interface{ String() string }

func read(d, s string) (x schema, err error) {
	switch d {
	case "postgres":
		v, e := postgres.NewParser(postgres.NewLexer(s)).Parse()
		return v, e
	case "cockroachdb":
		v, e := cockroachdb.NewParser(cockroachdb.NewLexer(s)).Parse()
		return v, e
	case "mysql":
		v, e := mysql.NewParser(mysql.NewLexer(s)).Parse()
		return v, e
	default:
		v, e := spanner.NewParser(spanner.NewLexer(s)).Parse()
		return v, e
	}
}

func diff(a, b schema) (schema, error) {
	switch x := a.(type) {
	case *postgres.DDL:
		v, e := postgres.Diff(x, b.(*postgres.DDL))
		return v, e
	case *cockroachdb.DDL:
		v, e := cockroachdb.Diff(x, b.(*cockroachdb.DDL))
		return v, e
	case *mysql.DDL:
		v, e := mysql.Diff(x, b.(*mysql.DDL))
		return v, e
	default:
		v, e := spanner.Diff(a.(*spanner.DDL), b.(*spanner.DDL))
		return v, e
	}
}

// plain leaves out comment lines.
func plain(s string) string {
	var b bytes.Buffer
	sc := bufio.NewScanner(strings.NewReader(s))
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		if l := sc.Text(); l != "" && !strings.HasPrefix(l, "--") {
			b.WriteString(l + "\n")
		}
	}
	return b.String()
}

func showDiff(a, b schema) {
	r, err := diff(a, b)
	if err != nil {
		fmt.Println("no difference")
		return
	}
	fmt.Print(plain(r.String()))
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	for i, c := range strings.Split(string(src), "\n====\n") {
		head, body, _ := strings.Cut(c, "\n")
		f := strings.Fields(head)
		fmt.Println("case", i+1)
		l, r, two := strings.Cut(body, "\n--->\n")
		a, err := read(f[0], l)
		if err != nil {
			fmt.Println("rejected")
			continue
		}
		if !two {
			fmt.Print(a.String())
			again, err := read(f[0], a.String())
			if err != nil {
				fmt.Println("printed text is rejected")
				continue
			}
			showDiff(a, again)
			continue
		}
		b, err := read(f[0], r)
		if err != nil {
			fmt.Println("rejected")
			continue
		}
		pa, pb := a.String(), b.String()
		showDiff(a, b)
		if f[1] == "pure" {
			showDiff(b, a)
			showDiff(a, b)
		}
		fmt.Println("unchanged", a.String() == pa, b.String() == pb)
	}
}
