// Package gen generates schemas, edits of schemas, and texts of schemas.
package gen

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"verifharness/pbt"
)

// G generates things from choices.
type G struct {
	*pbt.T
	// ASCII restricts names and strings to plain words
	Plain bool
}

// New returns a generator.
func New(t *pbt.T) *G { return &G{T: t} }

var keywords = map[string]bool{}

// Keywords lists words that can not be used as identifiers without quotes.
var Keywords = strings.Fields(`ACTION AUTO_INCREMENT AVG_ROW_LENGTH BIGINT BINARY BIT BLOB BOOL BOOLEAN BTREE CASCADE CHAR
	CHARACTER CHARSET CHECK CHECKSUM COLLATE COMMENT COMPACT COMPRESSED CONNECTION CONSTRAINT CREATE CURRENT_TIMESTAMP DATA
	DATABASE DATE DATETIME DECIMAL DEFAULT DELAY_KEY_WRITE DELETE DIRECTORY DISK DOUBLE DROP DYNAMIC ENGINE ENUM EXISTS FALSE
	FIRST FIXED FLOAT FOREIGN FULL FULLTEXT GEOMETRY HASH IF INDEX INSERT_METHOD INT INTEGER JSON KEY KEY_BLOCK_SIZE LAST LIKE
	LONGBLOB LONGTEXT MATCH MAX_ROWS MEDIUMBLOB MEDIUMINT MEDIUMTEXT MEMORY MIN_ROWS NO NOT NULL NUMERIC ON PACK_KEYS PARTIAL
	PARSER PASSWORD PRIMARY REAL REDUNDANT REFERENCES RESTRICT ROW_FORMAT SET SIMPLE SMALLINT SPATIAL STATS_AUTO_RECALC
	STATS_PERSISTENT STATS_SAMPLE_PAGES STORAGE TABLE TABLESPACE TEMPORARY TEXT TIME TIMESTAMP TINYBLOB TINYINT TINYTEXT TRUE
	UNION UNIQUE UNSIGNED UPDATE USE USING VARBINARY VARCHAR YEAR WITH ZEROFILL ASC DESC NOW`)

// reserved words of MySQL that schemalex does not know
var reservedOnly = strings.Fields(`ADD ALTER AND AS BETWEEN BY CASE CHANGE COLUMN CROSS DISTINCT FOR FROM GRANT GROUP HAVING IN
	INSERT INTO IS JOIN KEYS LIMIT LOCALTIME LOCALTIMESTAMP OR ORDER SELECT THEN TO VALUES WHERE`)

func init() {
	for _, w := range Keywords {
		keywords[w] = true
	}
	for _, w := range reservedOnly {
		keywords[w] = true
	}
}

// CanBeBare tells whether the name can be written without quotes.
func CanBeBare(s string) bool {
	if s == "" || keywords[strings.ToUpper(s)] {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !letter && (i == 0 || !(c >= '0' && c <= '9' || c == '_')) {
			return false
		}
	}
	return true
}

var simpleNames = []string{"a", "b", "c", "id", "x", "user_id", "name", "t1", "foo", "Bar", "created_at", "n2", "key_", "zz9",
	"e1", "int_col", "primary_email", "index1", "user", "account", "status", "parent_id", "not_null", "f", "on_update"}

var nasty = []string{"`", "'", "\"", "\\", " ", ".", ";", ",", "(", ")", "\n", "\t", "--", "/*", "*/", "#", "%", "$", "é", "日本", "😀",
	"=", "-", "@", "\r", "``", "''", "\\'", "\\`", ":", "+", "/", "1", "a", "KEY", "\xff", "\x00", "~", "|", "{", "_", "\u2028", "\\n",
	"\u200b", "\u3000", "\u00a0", "\u0085", "ß", "ſ", "\u212a", "İ"}

// what names are put together from that mean something to somebody
var (
	prefixes = []string{"", "", "", "_", "__", "#", "#sql", "#sql-ib", "tmp_", "tmp", "temp_", "old_", "new_", "bak_", "sys_", "mysql", "innodb_", "fk_", "idx_",
		"uniq_", "pk_", "v_", "view_", "test_", "schema_", "gtid_", "~", "$", "@", "."}
	stems    = []string{"a", "b", "t", "user", "orders", "id", "log", "2020", "42", "migrations", "migration", "information", "PRIMARY", "x"}
	suffixes = []string{"", "", "", "_old", "_new", "_gho", "_ghc", "_del", "_bak", "_copy", "_tmp", "_2020", "_ibfk_1", "_fk", "_idx", "_pk", "_1", "_2", "_", "~", " ",
		"_id", "_at", "_schema", ".sql", "#P#p0", "_view", "s"}
)

func (g *G) join(parts []string, min, max int) string {
	var b strings.Builder
	g.Many(min, max, func(int) { b.WriteString(parts[g.N(len(parts))]) })
	return b.String()
}

var letters = strings.Split("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_", "")

// Ident returns an identifier, sometimes a nasty one.
func (g *G) Ident() string {
	k := 0
	if !g.Plain {
		k = g.Weighted(60, 14, 8, 3, 6)
	}
	switch k {
	case 0:
		return simpleNames[g.N(len(simpleNames))]
	case 1:
		return g.join(nasty, 1, 4)
	case 2:
		w := Keywords[g.N(len(Keywords))]
		if g.Bool() {
			w = strings.ToLower(w)
		}
		return w
	case 4:
		return pbt.Pick(g.T, prefixes...) + pbt.Pick(g.T, stems...) + pbt.Pick(g.T, suffixes...)
	default:
		s := letters[g.N(26)] + g.join(letters, 1, 12)
		if g.Chance(1, 3) {
			n := pbt.Pick(g.T, 64, 64, 65, 70, 100, 128, 130)
			s = strings.Repeat(s, n/len(s)+1)[:n]
		}
		return s
	}
}

// Fresh returns an identifier that does not occur in used, which it is added to.
// Names do not differ from each other in letter case only.
func (g *G) Fresh(used map[string]bool) string {
	s := g.Ident()
	for n := 0; used[fold(s)]; n++ {
		s += letters[(n+g.N(36))%36]
	}
	used[fold(s)] = true
	return s
}

func fold(s string) string {
	if !utf8.ValidString(s) {
		return s
	}
	return strings.Map(func(r rune) rune {
		// the same for all that strings.EqualFold takes for equal
		min := r
		for o := unicode.SimpleFold(r); o != r; o = unicode.SimpleFold(o) {
			if o < min {
				min = o
			}
		}
		return min
	}, s)
}

// Tweak returns a string that is hardly different.
func (g *G) Tweak(s string) string {
	r := []rune(s)
	if g.Plain || !utf8.ValidString(s) {
		return g.Str()
	}
	i := g.N(len(r) + 1)
	put := func(x string) string { return string(r[:i]) + x + string(r[i:]) }
	k := g.N(10)
	if strings.Contains(s, "\n") && g.Chance(1, 3) {
		k = 7
	}
	switch k {
	case 0:
		return s + pbt.Pick(g.T, " ", "\n", "\x00", ".", "\t", "\r\n")
	case 1:
		return pbt.Pick(g.T, " ", "\n", "'", "\ufeff") + s
	case 2:
		return put(strParts[g.N(len(strParts))])
	case 3:
		if i < len(r) {
			return string(r[:i]) + string(r[i+1:])
		}
	case 4:
		if u := strings.ToUpper(s); u != s {
			return u
		}
	case 5:
		if u := strings.ToLower(s); u != s {
			return u
		}
	case 6:
		if u := strings.TrimSpace(s); u != s {
			return u
		}
	case 7:
		if u := strings.ReplaceAll(s, "\r\n", "\n"); u != s {
			return u
		}
		if u := strings.ReplaceAll(s, "\n", "\r\n"); u != s {
			return u
		}
		return put("\n")
	case 8:
		if i < len(r) {
			return put(string(r[i]))
		}
	case 9:
		if u := strings.Join(strings.Fields(s), " "); u != s {
			return u
		}
	}
	return put(pbt.Pick(g.T, " ", "\\", "x", "\u200b"))
}

var strParts = []string{"a", "word", " ", "'", "\"", "\\", "\n", "\t", "`", ";", "--", "-- x\n", "/*", "*/", "#", "%", "\\%", "\\_", "\\'", "\\\\",
	"é", "日本語", "😀", "\x00", "\x1a", "\b", "\r\n", "0", "1", "CREATE TABLE", ")", "(", ",", "''", "\"\"", "NULL", "\xff\xfe", "x", "z", "\\0", "n", "\\n", "\u0301",
	"\u200b", "\ufeff", "\u3000", "\u00a0", "ß"}

// Str returns a string, sometimes a nasty one.
func (g *G) Str() string {
	if g.Plain {
		return pbt.Pick(g.T, "", "x", "hello world", "42")
	}
	switch g.Weighted(3, 8, 12, 1) {
	case 0:
		return ""
	case 1:
		return pbt.Pick(g.T, "x", "hello", "on", "off", "it is", "CURRENT_TIMESTAMP", "NULL", "0", "1.5", "2000-01-01 00:00:00")
	case 2:
		return g.join(strParts, 1, 5)
	default:
		return strings.Repeat(g.join(strParts, 1, 4), g.Range(1, 60))
	}
}

// Uint returns digits.
func (g *G) Uint() string {
	return pbt.Pick(g.T, "1", "2", "10", "255", "0", "11", "20", "65535", "4", "007", "64", "4294967295")
}

// Number returns a number as it can be written as a default value.
func (g *G) Number() string {
	return pbt.Pick(g.T, "0", "1", "-1", "10", "+5", "1.5", "-0.25", ".5", "1E5", "1E-3", "2.5E10", "1.", "-7E2", "00", "123456789012345678901234567890")
}
