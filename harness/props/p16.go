package props

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/model"

	"verifharness/fakemysql"
	"verifharness/gen"
	"verifharness/obs"
	"verifharness/pbt"
	"verifharness/ref"
)

func init() {
	register(&Prop{
		ID:    "P16",
		Rule:  "the schema of at least one table was read from a server, without a fault or with one that did happen, or incomplete parameters were refused; distinct (schema, parameters, fault) are counted",
		Run:   p16,
		Quick: 40000, Thorough: 250000,
		Leaks: true,
		Files: true,
	})
}

// pki are certificates.
type pki struct {
	ca, cert, key    []byte // in PEM
	oca, other, okey []byte // another authority, and a certificate signed by it
	pool, opool      *x509.CertPool
	server, rogue    tls.Certificate

	elsewhere, expired tls.Certificate // for another host, and for another time
}

var thePKI = sync.OnceValue(func() *pki {
	serial := int64(0)
	make := func(name string, parent *x509.Certificate, signer *ecdsa.PrivateKey) (c *x509.Certificate, k *ecdsa.PrivateKey, cp, kp []byte) {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		serial++
		t := &x509.Certificate{
			SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name},
			NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
			KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
			ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
			DNSNames:    []string{"*.example.com", "localhost"}, BasicConstraintsValid: true, IsCA: parent == nil,
			IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1), net.IPv6loopback},
		}
		switch name {
		case "elsewhere":
			t.DNSNames, t.IPAddresses = []string{"db1.example.net", "example.com"}, []net.IP{net.IPv4(127, 0, 0, 2)}
		case "expired":
			t.NotAfter = t.NotBefore.Add(time.Hour)
		}
		if parent == nil {
			parent, signer = t, k
		}
		der, err := x509.CreateCertificate(rand.Reader, t, parent, &k.PublicKey, signer)
		if err != nil {
			panic(err)
		}
		c, err = x509.ParseCertificate(der)
		if err != nil {
			panic(err)
		}
		kd, err := x509.MarshalECPrivateKey(k)
		if err != nil {
			panic(err)
		}
		return c, k, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd})
	}
	p := &pki{pool: x509.NewCertPool()}
	ca, cakey, capem, _ := make("ca", nil, nil)
	ca2, ca2key, ca2pem, _ := make("another ca", nil, nil)
	p.ca, p.oca = capem, ca2pem
	p.opool = x509.NewCertPool()
	p.opool.AddCert(ca2)
	p.pool.AddCert(ca)
	_, _, p.cert, p.key = make("client", ca, cakey)
	_, _, p.other, p.okey = make("other client", ca2, ca2key)
	_, _, sc, sk := make("server", ca, cakey)
	_, _, rc, rk := make("rogue server", ca2, ca2key)
	_, _, ec, ek := make("elsewhere", ca, cakey)
	_, _, xc, xk := make("expired", ca, cakey)
	pair := func(c, k []byte) tls.Certificate {
		t, err := tls.X509KeyPair(c, k)
		if err != nil {
			panic(err)
		}
		return t
	}
	p.server, p.rogue, p.elsewhere, p.expired = pair(sc, sk), pair(rc, rk), pair(ec, ek), pair(xc, xk)
	return p
})

// dsn are the parts of the description of a MySQL source.
type dsn struct {
	user, password, db string
	params             []string
}

func (d *dsn) uri(addr string) string {
	u := "mysql://"
	if d.user != "" {
		u += d.user
		if d.password != "" {
			u += ":" + d.password
		}
		u += "@"
	}
	u += addr + "/" + d.db
	if len(d.params) > 0 {
		u += "?" + strings.Join(d.params, "&")
	}
	return u
}

// database fills the server and the description of it.
func database(c *C) (s *fakemysql.Server, d *dsn, parsable bool) {
	s = &fakemysql.Server{}
	d = &dsn{
		user:     pbt.Pick(c.T, "root", "me", "", "a.b", "ünï", "user_1"),
		password: pbt.Pick(c.T, "", "secret", "p@ss", "pa/ss", "a:b", "x?y=z", "p w", "a&b", "%41"),
		db:       pbt.Pick(c.T, "test", "", "db-1", "日本"),
	}
	if d.user == "" {
		d.password = ""
	}
	s.User, s.Password, s.DB = d.user, d.password, d.db
	s.Net = c.N(fakemysql.MaxNet)

	// definitions, as the server reports them or anything else
	used := map[string]bool{}
	fresh := func() string {
		// names that differ in letter case only are different for many servers
		if n := len(s.Tables); n > 0 && c.Chance(1, 12) {
			o := s.Tables[c.N(n)].Name
			for _, x := range []string{strings.ToUpper(o), strings.ToLower(o), strings.ToTitle(o), o + " ", " " + o} {
				ok := true
				for _, t := range s.Tables {
					ok = ok && t.Name != x
				}
				if ok {
					return x
				}
			}
		}
		return c.Fresh(used)
	}
	report := func(t *ref.Table) {
		s.Tables = append(s.Tables, fakemysql.Table{Name: t.Name, Def: gen.ServerTable(t)})
	}
	kind := c.Weighted(4, 3, 1, 1)
	switch kind {
	case 0:
		c.Many(1, 6, func(int) {
			def := c.Str()
			if c.Chance(1, 3) {
				// something that may look familiar
				def = pbt.Pick(c.T, "CREATE", "create", "CREATE TEMPORARY", "CREATE ALGORITHM=UNDEFINED DEFINER=`a`@`%` SQL SECURITY DEFINER", "CREATE OR REPLACE", "/*!50001 CREATE", "DROP", " CREATE") +
					" " + pbt.Pick(c.T, "TABLE", "VIEW", "SEQUENCE", "TABLE IF NOT EXISTS") + " " + gen.Backquote(c.Ident()) + pbt.Pick(c.T, " (`a` int)", " AS select 1", " LIKE `x`", "") +
					pbt.Pick(c.T, "", " AUTO_INCREMENT=7", " ENGINE=InnoDB AUTO_INCREMENT=4 DEFAULT CHARSET=utf8", "\n/*!50100 PARTITION BY HASH (`a`) PARTITIONS 4 */", " COMMENT='"+def+"'", ";", "\n", " ")
			}
			if def == "" {
				def = "x"
			}
			s.Tables = append(s.Tables, fakemysql.Table{Name: fresh(), Def: def})
		})
	case 1:
		cf := gen.Conf{MaxTables: 5, MaxCols: 6, MaxIdx: 3, Opts: true}
		for _, t := range c.Schema(cf).Normalize().Tables {
			report(t)
		}
	case 2: // many tables
		for n := c.N(80); n > 0; n-- {
			name := fresh()
			s.Tables = append(s.Tables, fakemysql.Table{Name: name, Def: "CREATE TABLE " + gen.Backquote(name) + " (`a` int)"})
		}
	case 3: // large ones
		c.Many(1, 3, func(int) {
			s.Tables = append(s.Tables, fakemysql.Table{Name: fresh(), Def: strings.Repeat(c.Str()+"y", c.Range(1, 5000))})
		})
	}

	// parameters
	set := func(k, v string) {
		d.params = append(d.params, k+"="+url.QueryEscape(v))
		s.Sets = append(s.Sets, "SET "+k+"="+v)
	}
	if c.Chance(1, 3) {
		set("sql_mode", pbt.Pick(c.T, "'ANSI'", "''", "'NO_ZERO_DATE,STRICT_ALL_TABLES'"))
	}
	if c.Chance(1, 4) {
		set(pbt.Pick(c.T, "wait_timeout", "sql_quote_show_create", "autocommit"), pbt.Pick(c.T, "1", "0", "27"))
	}
	if c.Chance(1, 4) {
		set("time_zone", "'+00:00'")
	}
	if c.Chance(1, 4) {
		d.params = append(d.params, "charset=utf8mb4")
		s.Sets = append(s.Sets, "SET NAMES utf8mb4")
	}
	if c.Chance(1, 5) {
		d.params = append(d.params, "collation=utf8_bin")
		s.Collation = 83
	}
	if c.Chance(1, 5) {
		d.params = append(d.params, "clientFoundRows=true")
		s.Flags |= fakemysql.FoundRows
	}
	if c.Chance(1, 5) {
		d.params = append(d.params, "multiStatements=true")
		s.Flags |= fakemysql.MultiStatements
	}
	if c.Chance(1, 8) {
		d.params = append(d.params, "maxAllowedPacket=0")
	}
	if c.Chance(1, 8) {
		d.params = append(d.params, "parseTime=true")
	}
	if c.Chance(1, 8) {
		d.params = append(d.params, "interpolateParams=true")
	}
	for i := len(d.params) - 1; i > 0; i-- {
		j := c.N(i + 1)
		d.params[i], d.params[j] = d.params[j], d.params[i]
	}
	return s, d, kind == 1 || kind == 2
}

// whole is what the source has to deliver.
func whole(s *fakemysql.Server) string {
	var l []string
	for _, t := range s.Tables {
		l = append(l, t.Def+";")
	}
	return strings.Join(l, "\n\n")
}

// fetch reads the source.
func fetch(c *C, s *fakemysql.Server, d *dsn) (string, error) {
	addr := s.Start()
	defer s.Stop()
	u := d.uri(addr)
	var src schemalex.SchemaSource
	if c.Bool() {
		src = schemalex.NewMySQLSource(strings.TrimPrefix(u, "mysql://"))
	} else {
		var err error
		if src, err = schemalex.NewSchemaSource(u); err != nil {
			c.Failf("source %q is refused: %s", u, err)
		}
	}
	return read(src)
}

func p16(c *C) {
	s, d, parsable := database(c)
	if c.Chance(1, 5) {
		p16tls(c, s, d)
		return
	}
	if c.Chance(1, 20) {
		p16invalid(c, s, d)
		return
	}
	if c.Chance(1, 6) {
		// TLS parameters are not for the server
		d.params = append(d.params, pbt.Pick(c.T, "tls=false", "tls=0", "tls=FALSE"), "ssl-ca=%2Fno%2Fsuch%2Ffile", "ssl-cert=x")
	}
	c.Note("source", d.uri("HOST"))
	names := []string{}
	for _, t := range s.Tables {
		names = append(names, fmt.Sprintf("%q", t.Name))
	}
	c.Note("tables", Clip(strings.Join(names, " "), 2000))
	got, err := fetch(c, s, d)
	if err != nil {
		c.Failf("reading fails although the server works: %s\nthe server says %q", err, s.Bad)
	}
	if len(s.Bad) > 0 {
		c.Failf("the client does something wrong: %s", strings.Join(s.Bad, "\n"))
	}
	want := whole(s)
	if got != want {
		c.Failf("the schema is not the one of the server:\n%s", firstLine(want, got))
	}
	if len(s.Tables) == 0 {
		c.Class("no tables")
		return
	}
	if parsable {
		// it can be parsed if each of the definitions can
		p := schemalex.New()
		var alone model.Stmts
		for _, x := range s.Tables {
			l, err := p.ParseString(x.Def)
			if err != nil {
				c.Failf("table %q: a definition as the server reports it is refused: %s\n%s", x.Name, err, x.Def)
			}
			alone = append(alone, l...)
		}
		if a, b := obs.Dump(alone), obs.Dump(mustParse(c, "the schema of the server", got)); a != b {
			c.Failf("the schema is not parsed to the same as its tables one by one:\n%s", firstLine(a, b))
		}
		c.Class("parsed")
	}
	c.Class("no fault")
	c.NonTrivial(d.uri("HOST") + "\n" + want)

	// the same with a fault
	var places []string
	for _, x := range s.Places {
		// the driver panics if it does not get an answer to this
		if !strings.Contains(x, "max_allowed_packet") {
			places = append(places, x)
		}
	}
	sort.Strings(places)
	for n := c.Range(1, 3); n > 0; n-- {
		f := &fakemysql.Server{Tables: s.Tables, User: s.User, Password: s.Password, DB: s.DB, Sets: s.Sets, Net: s.Net}
		f.Code = pbt.Pick(c.T, 1105, 1045, 1049, 1142, 1146, 1051, 1109, 1205, 1213, 1317, 1347, 1356, 1412, 1449, 2006, 2013, 3024, 0xffff)
		f.Fault = 1 + c.N(fakemysql.MaxFault-1)
		f.At = places[c.N(len(places))]
		f.Table = c.N(len(s.Tables))
		f.Persistent = c.Bool()
		e := *d
		switch f.Fault {
		case fakemysql.Refuse, fakemysql.Denied:
			step := map[int]string{fakemysql.Refuse: "dial", fakemysql.Denied: "login"}[f.Fault]
			var l []string
			for _, x := range places {
				if strings.HasPrefix(x, step) {
					l = append(l, x)
				}
			}
			f.At = l[c.N(len(l))]
		case fakemysql.Hang:
			if !c.Chance(1, 6) {
				continue
			}
			e.params = append(append([]string(nil), d.params...), "readTimeout=30ms")
		}
		what := fmt.Sprintf("%s at %q", fakemysql.FaultNames[f.Fault], f.At)
		switch f.Fault {
		case fakemysql.NullName, fakemysql.NullDef, fakemysql.FewColumns, fakemysql.ManyColumns, fakemysql.NoRow:
			what = fmt.Sprintf("%s of table %q", fakemysql.FaultNames[f.Fault], s.Tables[f.Table].Name)
		}
		if f.Persistent {
			what += ", every time"
		}
		got, err := fetch(c, f, &e)
		c.Note("fault", what)
		if f.Faults == 0 && f.Fault != fakemysql.Hang {
			c.Class("fault did not happen")
			if err != nil {
				c.Failf("an error although no fault happened: %s", err)
			}
		} else {
			c.Class(fakemysql.FaultNames[f.Fault])
		}
		if err != nil {
			if got != "" {
				c.Failf("something is written along with the error %s:\n%s", err, Clip(got, 1000))
			}
			continue
		}
		want := want
		var i, n int
		if f.Fault == fakemysql.End && f.Faults > 0 {
			if k, _ := fmt.Sscanf(f.At, "row %d of tables #%d", &i, &n); k == 2 {
				// that is what the server says
				want = whole(&fakemysql.Server{Tables: s.Tables[:i]})
			}
		}
		if got != want {
			c.Failf("no error, but the schema is incomplete:\n%s", firstLine(want, got))
		}
		c.Class("fault without effect")
	}
}

// p16invalid: parameters that make no sense.
func p16invalid(c *C, s *fakemysql.Server, d *dsn) {
	bad := pbt.Pick(c.T, "timeout=x", "readTimeout=5", "writeTimeout=-", "parseTime=maybe", "multiStatements=2", "clientFoundRows=x",
		"interpolateParams=-1", "maxAllowedPacket=many", "tls=nosuchconfig", "tls=2", "loc=No%2FWhere", "loc=%zz", "x=%zz", "columnsWithAlias=no+no",
		"allowNativePasswords=x", "rejectReadOnly=x", "allowOldPasswords=%", "serverPubKey=nosuchkey", "")
	i := c.N(len(d.params) + 1)
	d.params = append(d.params[:i:i], append([]string{bad}, d.params[i:]...)...)
	addr := s.Start()
	defer s.Stop()
	u := d.uri(addr)
	if bad == "" {
		// no database, or the address is not complete
		i := strings.Index(u, addr)
		switch c.N(3) {
		case 0:
			u = u[:i+len(addr)]
		case 1:
			u = u[:i+len(addr)-1] + u[i+len(addr):]
		case 2:
			u = "mysql://" + pbt.Pick(c.T, "", "x", "x@y", "me:secret@", ":", "@", "(", "tcp(", "tcp()")
		}
	}
	c.Note("source", strings.ReplaceAll(u, addr, "HOST"))
	c.NonTrivial(strings.ReplaceAll(u, addr, "HOST"))
	c.Class("invalid description")
	src, err := schemalex.NewSchemaSource(u)
	if err == nil {
		var got string
		if got, err = read(src); got != "" {
			c.Failf("something is written: %q", Clip(got, 1000))
		}
	} else if src != nil {
		c.Failf("both a source and the error %s", err)
	}
	if err == nil {
		c.Failf("no error although the description makes no sense")
	}
	if s.Dials > 0 {
		c.Failf("it connects to the server although the description makes no sense: %s", err)
	}
}

// p16tls checks the parameters for TLS.
func p16tls(c *C, s *fakemysql.Server, d *dsn) {
	p := thePKI()
	dir := c.Dir()
	ca, cert, key := p.ca, p.cert, p.key
	how := c.Weighted(4, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1)
	if s.Net == fakemysql.Unix {
		s.Net = fakemysql.TCP // there is no host name to verify
	}
	s.TLS = &tls.Config{Certificates: []tls.Certificate{p.server}, ClientAuth: tls.RequireAndVerifyClientCert, ClientCAs: p.pool, MaxVersion: tls.VersionTLS12}
	why := ""
	connects := false // it may get as far as that
	switch how {
	case 1:
		s.TLS.Certificates[0] = p.rogue
		why, connects = "the certificate of the server is signed by another authority", true
	case 2:
		cert, key = p.other, p.okey
		why, connects = "the certificate of the client is signed by another authority", true
	case 8:
		s.TLS.Certificates[0] = p.elsewhere
		why, connects = "the certificate of the server is for another host", true
	case 9:
		s.TLS.Certificates[0] = p.expired
		why, connects = "the certificate of the server has expired", true
	case 10:
		s.TLS = nil
		why, connects = "the server can not encrypt", true
	case 4:
		ca, why = []byte("no certificate"), "the authority is no certificate"
	case 5:
		key, why = p.okey, "the key does not belong to the certificate"
	case 6:
		cert, why = []byte("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"), "the certificate is nonsense"
	}
	fn := map[string]string{
		"ssl-ca":     c.File(dir, "ca"+fileName(c), string(ca)),
		"ssl-cert":   c.File(dir, "cert"+fileName(c), string(cert)),
		"ssl-secret": c.File(dir, "secret"+fileName(c), string(key)),
	}
	keys := []string{"ssl-ca", "ssl-cert", "ssl-secret"}
	k := keys[c.N(3)]
	switch how {
	case 3:
		if c.Bool() {
			delete(fn, k)
		} else {
			fn[k] = ""
		}
		if o := keys[c.N(3)]; o != k && c.Bool() {
			delete(fn, o)
		}
		why = k + " is missing"
	case 7:
		fn[k] = pbt.Pick(c.T, filepath.Join(dir, "no such file"), dir)
		why = k + " is not a file"
	}
	l := []string{"tls=" + pbt.Pick(c.T, "true", "1", "TRUE", "True")}
	for _, k := range keys {
		if v, ok := fn[k]; ok {
			l = append(l, k+"="+url.QueryEscape(v))
		}
	}
	for _, i := range c.Perm(len(l)) {
		d.params = append(d.params, l[i])
	}
	c.Note("source", d.uri("HOST"))
	c.NonTrivial(strings.ReplaceAll(d.uri("HOST"), dir, "DIR") + "\n" + why + "\n" + whole(s))
	got, err := fetch(c, s, d)
	if why != "" {
		c.Class("TLS refused")
		if err == nil {
			c.Failf("no error although %s", why)
		}
		if got != "" {
			c.Failf("something is written along with the error %s", err)
		}
		if s.Dials > 0 && !connects {
			c.Failf("it connects to the server although %s", why)
		}
		if len(s.Log) > 0 {
			c.Failf("it sends statements to the server although %s: %q", why, s.Log)
		}
		return
	}
	c.Class("TLS")
	if err != nil {
		c.Failf("reading fails although the server works: %s\nthe server says %q", err, s.Bad)
	}
	if len(s.Bad) > 0 {
		c.Failf("the client does something wrong: %s", strings.Join(s.Bad, "\n"))
	}
	if want := whole(s); got != want {
		c.Failf("the schema is not the one of the server:\n%s", firstLine(want, got))
	}
	for _, v := range fn {
		if _, err := os.Stat(v); err != nil {
			c.Failf("file %q: %s", v, err)
		}
	}
}

// tlsParams makes the server require TLS, and returns the parameters for it.
func tlsParams(c *C, s *fakemysql.Server, dir string) []string {
	p := thePKI()
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	if s.Net == fakemysql.Unix {
		s.Net = fakemysql.TCP // there is no host name to verify
	}
	ca, cert, key, server, pool := p.ca, p.cert, p.key, p.server, p.pool
	if c.Bool() {
		ca, cert, key, server, pool = p.oca, p.other, p.okey, p.rogue, p.opool
	}
	s.TLS = &tls.Config{Certificates: []tls.Certificate{server}, ClientAuth: tls.RequireAndVerifyClientCert, ClientCAs: pool, MaxVersion: tls.VersionTLS12}
	return []string{"tls=true",
		"ssl-ca=" + url.QueryEscape(c.File(dir, "ca", string(ca))),
		"ssl-cert=" + url.QueryEscape(c.File(dir, "cert", string(cert))),
		"ssl-secret=" + url.QueryEscape(c.File(dir, "secret", string(key)))}
}
