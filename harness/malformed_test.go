package zzverif

import (
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zzverif/rapid"
)

// malformed lists statements that the dialects must refuse.
var malformed = map[string][]string{
	PG: {
		"CREATE TABLE IF EXISTS t (id INTEGER)",
		"CREATE TABLE IF t (id INTEGER)",
		"CREATE TABLE IF NOT t (id INTEGER)",
		"CREATE TABLE NOT EXISTS t (id INTEGER)",
		"CREATE TABLE t t2 (id INTEGER)",
		"CREATE TABLE t (id INTEGER) garbage",
		"CREATE TABLE t (id INTEGER NULL NULL x)",
		"CREATE TABLE t (id INTEGER NOT x)",
		"CREATE TABLE t (id INTEGER garbage)",
		"CREATE TABLE t (id garbage)",
		"CREATE TABLE t (id VARCHAR(36) (36)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT PRIMARY KEY)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c PRIMARY (id))",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c PRIMARY KEY id)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c PRIMARY KEY (id)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c UNIQUE id)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN (id) REFERENCES u (id))",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY id REFERENCES u (id))",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCE u (id))",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u id)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON DELETE)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON DELETE garbage)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON INSERT CASCADE)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) CASCADE)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c CHECK id > 0)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c CHECK (id > 0)",
		"CREATE TABLE t (id INTEGER, FOREIGN KEY (id))",
		"CREATE TABLE t (id INTEGER, CHECK)",
		"CREATE TABLE t (id INTEGER DEFAULT (1)",
		"CREATE TABLE t (id INTEGER) x = 1",
		"CREATE TABLE t",
		"CREATE TABLE t (id INTEGER) (id2 INTEGER)",
		"CREATE TABLE t (id INTEGER);;) ",
		"CREATE TABLE t (id INTEGER) CREATE TABLE u (id INTEGER)",
		"CREATE TABLE t (id INTEGER) ALTER",
		"ALTER TABLE t ADD COLUMN x INTEGER",
		"CREATE VIEW v AS SELECT 1",
		"CREATE INDEX IF EXISTS i ON t (id)",
		"CREATE INDEX IF i ON t (id)",
		"CREATE UNIQUE i ON t (id)",
		"CREATE INDEX i TABLE t (id)",
		"CREATE INDEX i ON t id",
		"CREATE INDEX i ON t (id))",
		"CREATE INDEX i ON t (id) ON u (id)",
		"CREATE INDEX i ON (id)",
		"CREATE INDEX i j ON t (id)",
		"CREATE INDEX i ON t u (id)",
		"CREATE INDEX i ON t (id UP)",
		"CREATE INDEX i ON t (id ASC DESC)",
		"CREATE INDEX i ON t (id DESC ASC)",
		"CREATE TABLE t (\"id INTEGER)",
		"CREATE TABLE t (id INTEGER DEFAULT 'x)",
		"CREATE TABLE t (`id INTEGER)",
		"CREATE TABLE t (id INTEGER /* x)",
		"CREATE TABLE t (id INTEGER @)",
		"CREATE TABLE t (id INTEGER #x)",
		"CREATE TABLE t (id INTEGER ?)",
		"create TABL t (id INTEGER)",
		"TABLE t (id INTEGER)",
		"CREATE TABLE t (id TIMESTAMP WITH)",
		"CREATE TABLE t (id TIMESTAMP WITH TIME)",
		"CREATE TABLE t (id TIMESTAMP TIME ZONE)",
		"CREATE TABLE t (id DOUBLE)",
		"CREATE TABLE t (id CHARACTER VARYIN(3))",
		"CREATE TABLE t (id INTEGER REFERENCES)",
		"CREATE TABLE t (id INTEGER REFERENCES u ()",
		"CREATE TABLE t (id INTEGER CHECK)",
		"CREATE TABLE t (id INTEGER PRIMARY)",
		"CREATE TABLE t (id INTEGER GENERATED)",
		"CREATE INDEX i ON t USING (id)",
		"CREATE INDEX i ON t btree (id)",
		"CREATE INDEX i ON t USING btree id",
	},
	CR: {
		"CREATE TABLE IF EXISTS t (id INTEGER)",
		"CREATE TABLE IF t (id INTEGER)",
		"CREATE TABLE IF NOT t (id INTEGER)",
		"CREATE TABLE NOT EXISTS t (id INTEGER)",
		"CREATE TABLE t t2 (id INTEGER)",
		"CREATE TABLE t (id INTEGER) garbage",
		"CREATE TABLE t (id INTEGER NULL NULL x)",
		"CREATE TABLE t (id INTEGER NOT x)",
		"CREATE TABLE t (id INTEGER garbage)",
		"CREATE TABLE t (id garbage)",
		"CREATE TABLE t (id VARCHAR(36) (36)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT PRIMARY KEY)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c PRIMARY (id))",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c PRIMARY KEY id)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c UNIQUE id)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN (id) REFERENCES u (id))",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY id REFERENCES u (id))",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCE u (id))",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON DELETE)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON DELETE garbage)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON INSERT CASCADE)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) CASCADE)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c CHECK id > 0)",
		"CREATE TABLE t (id INTEGER, FOREIGN KEY (id))",
		"CREATE TABLE t (id INTEGER, CHECK)",
		"CREATE TABLE t (id INTEGER DEFAULT (1)",
		"CREATE TABLE t (id INTEGER) x = 1",
		"CREATE TABLE t",
		"CREATE TABLE t (id INTEGER) (id2 INTEGER)",
		"CREATE TABLE t (id INTEGER);;) ",
		"CREATE TABLE t (id INTEGER) CREATE TABLE u (id INTEGER)",
		"CREATE TABLE t (id INTEGER) ALTER",
		"ALTER TABLE t ADD COLUMN x INTEGER",
		"CREATE VIEW v AS SELECT 1",
		"CREATE INDEX IF EXISTS i ON t (id)",
		"CREATE INDEX IF i ON t (id)",
		"CREATE UNIQUE i ON t (id)",
		"CREATE INDEX i TABLE t (id)",
		"CREATE INDEX i ON t id",
		"CREATE INDEX i ON t (id))",
		"CREATE INDEX i ON t (id) ON u (id)",
		"CREATE INDEX i ON (id)",
		"CREATE INDEX i j ON t (id)",
		"CREATE INDEX i ON t u (id)",
		"CREATE INDEX i ON t (id UP)",
		"CREATE INDEX i ON t (id ASC DESC)",
		"CREATE INDEX i ON t (id DESC ASC)",
		"CREATE TABLE t (\"id INTEGER)",
		"CREATE TABLE t (id INTEGER DEFAULT 'x)",
		"CREATE TABLE t (`id INTEGER)",
		"CREATE TABLE t (id INTEGER /* x)",
		"CREATE TABLE t (id INTEGER @)",
		"CREATE TABLE t (id INTEGER #x)",
		"CREATE TABLE t (id INTEGER ?)",
		"create TABL t (id INTEGER)",
		"TABLE t (id INTEGER)",
		"CREATE TABLE t (id TIMESTAMP WITH)",
		"CREATE TABLE t (id TIMESTAMP WITH TIME)",
		"CREATE TABLE t (id TIMESTAMP TIME ZONE)",
		"CREATE TABLE t (id DOUBLE)",
		"CREATE TABLE t (id CHARACTER VARYIN(3))",
		"CREATE TABLE t (id INTEGER REFERENCES)",
		"CREATE TABLE t (id INTEGER REFERENCES u ()",
		"CREATE TABLE t (id INTEGER CHECK)",
		"CREATE TABLE t (id INTEGER PRIMARY)",
		"CREATE TABLE t (id INTEGER GENERATED)",
		"CREATE INDEX i ON t USING (id)",
		"CREATE INDEX i ON t btree (id)",
		"CREATE INDEX i ON t USING btree id",
		"CREATE TABLE t (id INT8, INDEX)",
		"CREATE TABLE t (id INT8, INDEX i)",
		"CREATE TABLE t (id INT8, INDEX i ())",
		"CREATE TABLE t (id INT8, INDEX i id)",
		"CREATE TABLE t (id INT8, UNIQUE INDEX i)",
		"CREATE TABLE t (id INT8 NOT VISIBL)",
		"CREATE TABLE t (id INT8 AS VIRTUAL)",
		"CREATE TABLE t (id INT8 AS (1 VIRTUAL)",
		"CREATE TABLE t (id INT8, FAMILY)",
		"CREATE TABLE t (id INT8, FAMILY f)",
		"CREATE INDEX i ON t (id) USING HASH WITH",
		"CREATE INDEX i ON t (id) USING HASH WITH (",
	},
	MY: {
		"CREATE TABLE IF EXISTS t (id INTEGER)",
		"CREATE TABLE IF t (id INTEGER)",
		"CREATE TABLE IF NOT t (id INTEGER)",
		"CREATE TABLE NOT EXISTS t (id INTEGER)",
		"CREATE TABLE t t2 (id INTEGER)",
		"CREATE TABLE t (id INTEGER) garbage",
		"CREATE TABLE t (id INTEGER NULL NULL x)",
		"CREATE TABLE t (id INTEGER NOT x)",
		"CREATE TABLE t (id INTEGER garbage)",
		"CREATE TABLE t (id garbage)",
		"CREATE TABLE t (id VARCHAR(36) (36)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT PRIMARY KEY)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c PRIMARY (id))",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c PRIMARY KEY id)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c PRIMARY KEY (id)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c UNIQUE id)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN (id) REFERENCES u (id))",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY id REFERENCES u (id))",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCE u (id))",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u id)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON DELETE)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON DELETE garbage)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON INSERT CASCADE)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) CASCADE)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c CHECK id > 0)",
		"CREATE TABLE t (id INTEGER, CONSTRAINT c CHECK (id > 0)",
		"CREATE TABLE t (id INTEGER, FOREIGN KEY (id))",
		"CREATE TABLE t (id INTEGER, CHECK)",
		"CREATE TABLE t (id INTEGER DEFAULT (1)",
		"CREATE TABLE t (id INTEGER) x = 1",
		"CREATE TABLE t",
		"CREATE TABLE t (id INTEGER) (id2 INTEGER)",
		"CREATE TABLE t (id INTEGER);;) ",
		"CREATE TABLE t (id INTEGER) CREATE TABLE u (id INTEGER)",
		"CREATE TABLE t (id INTEGER) ALTER",
		"ALTER TABLE t ADD COLUMN x INTEGER",
		"CREATE VIEW v AS SELECT 1",
		"CREATE INDEX IF EXISTS i ON t (id)",
		"CREATE INDEX IF i ON t (id)",
		"CREATE UNIQUE i ON t (id)",
		"CREATE INDEX i TABLE t (id)",
		"CREATE INDEX i ON t id",
		"CREATE INDEX i ON t (id))",
		"CREATE INDEX i ON t (id) ON u (id)",
		"CREATE INDEX i ON (id)",
		"CREATE INDEX i j ON t (id)",
		"CREATE INDEX i ON t u (id)",
		"CREATE INDEX i ON t (id UP)",
		"CREATE INDEX i ON t (id ASC DESC)",
		"CREATE INDEX i ON t (id DESC ASC)",
		"CREATE TABLE t (\"id INTEGER)",
		"CREATE TABLE t (id INTEGER DEFAULT 'x)",
		"CREATE TABLE t (`id INTEGER)",
		"CREATE TABLE t (id INTEGER /* x)",
		"CREATE TABLE t (id INTEGER @)",
		"CREATE TABLE t (id INTEGER #x)",
		"CREATE TABLE t (id INTEGER ?)",
		"create TABL t (id INTEGER)",
		"TABLE t (id INTEGER)",
		"CREATE TABLE t (id INT AUTO_INCREMENT =)",
		"CREATE TABLE t (id INT COMMENT)",
		"CREATE TABLE t (id INT COLLATE)",
		"CREATE TABLE t (id INT CHARACTER utf8)",
		"CREATE TABLE t (id INT CHARACTER SET)",
		"CREATE TABLE t (id INT ON UPDATE)",
		"CREATE TABLE t (id INT) ENGINE",
		"CREATE TABLE t (id INT) ENGINE=",
		"CREATE TABLE t (id INT) COMMENT",
		"CREATE TABLE t (id INT) COMMENT=",
		"CREATE TABLE t (id INT, KEY k)",
		"CREATE TABLE t (id INT, KEY k ())",
		"CREATE TABLE t (id INT, KEY k (id)",
		"CREATE TABLE t (id INT, UNIQUE KEY k id)",
		"CREATE TABLE t (id INT, INDEX)",
	},
	SP: {
		"CREATE VIEW v AS SELECT 1",
		"CREATE INDEX IF EXISTS i ON t (id)",
		"CREATE INDEX IF i ON t (id)",
		"CREATE UNIQUE i ON t (id)",
		"CREATE INDEX i TABLE t (id)",
		"CREATE INDEX i ON t id",
		"CREATE INDEX i ON t (id))",
		"CREATE INDEX i ON t (id) ON u (id)",
		"CREATE INDEX i ON (id)",
		"CREATE INDEX i j ON t (id)",
		"CREATE INDEX i ON t u (id)",
		"CREATE INDEX i ON t (id UP)",
		"CREATE INDEX i ON t (id ASC DESC)",
		"CREATE INDEX i ON t (id DESC ASC)",
		"CREATE TABLE IF EXISTS t (id INT64) PRIMARY KEY (id)",
		"CREATE TABLE IF t (id INT64) PRIMARY KEY (id)",
		"CREATE TABLE IF NOT t (id INT64) PRIMARY KEY (id)",
		"CREATE TABLE NOT EXISTS t (id INT64) PRIMARY KEY (id)",
		"CREATE TABLE t t2 (id INT64) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64) garbage PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64 NULL NULL x) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64 NOT x) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64 garbage) PRIMARY KEY (id)",
		"CREATE TABLE t (id garbage) PRIMARY KEY (id)",
		"CREATE TABLE t (id STRING(36) (36) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT PRIMARY KEY) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c PRIMARY (id)) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c PRIMARY KEY id) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c PRIMARY KEY (id) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c UNIQUE id) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c FOREIGN (id) REFERENCES u (id)) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c FOREIGN KEY id REFERENCES u (id)) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c FOREIGN KEY (id) REFERENCE u (id)) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c FOREIGN KEY (id) REFERENCES u id) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON DELETE) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON DELETE garbage) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) ON INSERT CASCADE) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c FOREIGN KEY (id) REFERENCES u (id) CASCADE) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c CHECK id > 0) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CONSTRAINT c CHECK (id > 0) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, FOREIGN KEY (id)) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64, CHECK) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64 DEFAULT (1) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64) x = 1 PRIMARY KEY (id)",
		"CREATE TABLE t PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64) (id2 INT64) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64);;)  PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64) CREATE TABLE u (id INT64) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64) ALTER PRIMARY KEY (id)",
		"ALTER TABLE t ADD COLUMN x INT64",
		"CREATE TABLE t (\"id INT64)",
		"CREATE TABLE t (id INT64 DEFAULT 'x)",
		"CREATE TABLE t (`id INT64)",
		"CREATE TABLE t (id INT64 /* x)",
		"CREATE TABLE t (id INT64 @) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64 #x) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64 ?) PRIMARY KEY (id)",
		"create TABL t (id INT64) PRIMARY KEY (id)",
		"TABLE t (id INT64) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64) PRIMARY (id)",
		"CREATE TABLE t (id INT64) PRIMARY KEY id",
		"CREATE TABLE t (id INT64) PRIMARY KEY (id",
		"CREATE TABLE t (id INT64) PRIMARY KEY (id) INTERLEAVE",
		"CREATE TABLE t (id INT64) PRIMARY KEY (id), INTERLEAVE PARENT u",
		"CREATE TABLE t (id INT64) PRIMARY KEY (id), INTERLEAVE IN u",
		"CREATE TABLE t (id INT64) PRIMARY KEY (id), INTERLEAVE IN PARENT",
		"CREATE TABLE t (id INT64) PRIMARY KEY (id), ROW DELETION (OLDER_THAN(c, INTERVAL 1 DAY))",
		"CREATE TABLE t (id INT64) PRIMARY KEY (id), ROW DELETION POLICY",
		"CREATE TABLE t (id INT64) PRIMARY KEY (id), garbage",
		"CREATE TABLE t (id INT64 OPTIONS) PRIMARY KEY (id)",
		"CREATE TABLE t (id STRING(MAX) PRIMARY KEY (id)",
		"CREATE TABLE t (id INT64) PRIMARY KEY (id) garbage",
		"CREATE TABLE t (id INT64) PRIMARY KEY (id), INTERLEAVE IN PARENT u ON DELETE",
		"CREATE TABLE t (id INT64) PRIMARY KEY (id), INTERLEAVE IN PARENT u ON DELETE garbage",
		"CREATE TABLE t (id INT64) PRIMARY KEY (id), INTERLEAVE IN PARENT u CASCADE",
	},
}

func malformedText(g *G) string {
	bad := g.pick(malformed[g.d])
	if g.p(30) { // the keywords, but no literal, in lower case
		if !strings.ContainsAny(bad, "'\"`") {
			bad = strings.ToLower(bad)
		}
	}
	if g.p(30) {
		bad = strings.ReplaceAll(bad, " ", g.pick([]string{"\n", "\t", "  ", " -- x\n", "\r\n"}))
	}
	good := plainText(g.schema())
	switch g.n(0, 3) {
	case 0:
		return bad
	case 1:
		return bad + ";\n"
	case 2:
		return strings.TrimRight(good, ";\n") + ";\n" + bad + ";\n"
	}
	return bad + ";\n" + good
}

func checkMalformed(in *Input) *Result {
	d, err := toolParse(in.Dialect, string(in.Raw))
	if err == nil {
		return failf("DDL that cannot be parsed is accepted:\n%s\nread as:\n%s", in.Raw, d.String())
	}
	if err.Error() == "" {
		return failf("an error without a message for %q", in.Raw)
	}
	return &Result{Nontrivial: true}
}

func init() {
	perDialect(func(d string) {
		register(&Sub{Prop: "C18", Name: "malformed_" + d, Quick: 6000, Thorough: 100000, Rule: "every case",
			Gen: func(t *rapid.T) *Input {
				g := newG(t, d)
				return &Input{Dialect: d, Raw: []byte(malformedText(g))}
			}, Check: checkMalformed})
	})
}
