// Package fakemysql is a model of a MySQL server: it speaks the protocol as far
// as it is needed to show tables, checks who connects, and can fail at any step.
package fakemysql

import (
	"bytes"
	"context"
	"crypto/sha1"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"

	"github.com/go-sql-driver/mysql"
)

// Table is what the server knows of a table.
type Table struct{ Name, Def string }

// Kinds of faults.
const (
	None       = iota
	Refuse     // a connection attempt is refused
	Err        // an error packet is sent instead of a packet
	Drop       // the connection is closed before a packet is sent
	Half       // the connection is closed within a packet
	Garbage    // a packet of nonsense is sent
	Sequence   // a packet has a wrong number
	End        // the rows end early, without an error
	NullName   // a table has no name
	NullDef    // a table has no definition
	FewColumns // the definition is in a result of one column
	ManyColumns
	NoRow  // SHOW CREATE TABLE returns no rows
	Hang   // nothing is sent any more
	Denied // the login is refused
	MaxFault
)

// FaultNames are the names of the faults.
var FaultNames = [...]string{"none", "refuse", "error packet", "drop", "half packet", "garbage", "sequence", "end", "null name", "null definition",
	"few columns", "many columns", "no row", "hang", "denied"}

// Server is a server.
type Server struct {
	Tables             []Table
	User, Password, DB string
	// Sets are the statements that have to be sent before others
	Sets []string
	// Flags are capabilities that the client has to ask for
	Flags uint32
	// Collation that the client has to ask for, or 0
	Collation byte
	TLS       *tls.Config

	// Fault happens at the place (one of Places), and if it is Persistent, at
	// all like it. Faults of the data happen to the table with number Table.
	Fault      int
	At         string
	Persistent bool
	Table      int
	// Code is the number of the error in error packets
	Code int

	// Places are where a fault could have happened
	Places []string

	// Net is the kind of network
	Net int

	mu      sync.Mutex
	dialed  string
	seen    map[string]int
	Faults  int // how many there were
	Log     []string
	Dials   int
	Bad     []string // what the client did wrong
	conns   []net.Conn
	wg      sync.WaitGroup
	release chan struct{}

	listener net.Listener
}

var (
	mu      sync.Mutex
	servers = map[string]*Server{}
	count   int
)

func init() {
	mysql.SetLogger(log.New(io.Discard, "", 0))
	// real networks are replaced as well
	for _, n := range []string{"fake", "tcp", "unix"} {
		n := n
		mysql.RegisterDialContext(n, func(_ context.Context, addr string) (net.Conn, error) {
			mu.Lock()
			s := servers[n+"("+addr+")"]
			mu.Unlock()
			if s == nil {
				return nil, fmt.Errorf("no server at %s %q", n, addr)
			}
			return s.dial()
		})
	}
}

// Start makes the server reachable and returns its address.
func (s *Server) Start() string {
	mu.Lock()
	defer mu.Unlock()
	count++
	n := count%50000 + 10000
	var addr string
	switch s.Net {
	case TCP:
		addr = fmt.Sprintf("tcp(db%d.example.com:3306)", count)
	case NoPort:
		addr = fmt.Sprintf("tcp(db%d.example.com)", count)
		s.dialed = fmt.Sprintf("tcp(db%d.example.com:3306)", count)
	case Local:
		addr = fmt.Sprintf("tcp(127.0.0.1:%d)", n)
	case LocalName:
		addr = fmt.Sprintf("tcp(localhost:%d)", n)
	case IPv6:
		addr = fmt.Sprintf("tcp([::1]:%d)", n)
	case Unix:
		addr = fmt.Sprintf("unix(/run/my sql/%d.sock)", count)
	default:
		addr = fmt.Sprintf("fake(db%d.example.com:3306)", count)
	}
	if s.dialed == "" {
		s.dialed = addr
	}
	s.release = make(chan struct{})
	servers[s.dialed] = s
	return addr
}

// Listen makes the server reachable from other processes, too, and returns
// its address.
func (s *Server) Listen(network, addr string) (string, error) {
	l, err := net.Listen(network, addr)
	if err != nil {
		return "", err
	}
	s.listener = l
	s.dialed = network + "(" + l.Addr().String() + ")"
	s.release = make(chan struct{})
	mu.Lock()
	servers[s.dialed] = s
	mu.Unlock()
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			b, err := l.Accept()
			if err != nil {
				return
			}
			s.serve(b)
		}
	}()
	return s.dialed, nil
}

// Kinds of networks.
const (
	Fake = iota
	TCP
	NoPort
	Local
	LocalName
	IPv6
	Unix
	MaxNet
)

// Stop closes everything and waits for it.
func (s *Server) Stop() {
	mu.Lock()
	delete(servers, s.dialed)
	mu.Unlock()
	close(s.release)
	if s.listener != nil {
		s.listener.Close()
	}
	s.mu.Lock()
	l := s.conns
	s.mu.Unlock()
	for _, c := range l {
		c.Close()
	}
	s.wg.Wait()
}

// Wrong returns what the client did wrong so far.
func (s *Server) Wrong() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.Bad...)
}

var errFault = errors.New("fault")

func (s *Server) bad(f string, a ...interface{}) {
	s.mu.Lock()
	s.Bad = append(s.Bad, fmt.Sprintf(f, a...))
	s.mu.Unlock()
}

// step notes a place and tells whether the fault happens now.
func (s *Server) step(place string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.seen == nil {
		s.seen = map[string]int{}
	}
	id := fmt.Sprintf("%s #%d", place, s.seen[place])
	s.seen[place]++
	s.Places = append(s.Places, id)
	if s.Fault != None && (id == s.At || s.Persistent && strings.HasPrefix(s.At, place+" #")) {
		s.Faults++
		return true
	}
	return false
}

func (s *Server) dial() (net.Conn, error) {
	s.mu.Lock()
	s.Dials++
	s.mu.Unlock()
	hit := s.step("dial")
	if hit && s.Fault == Refuse {
		return nil, errors.New("connection refused")
	}
	a, b, err := pair()
	if err != nil {
		return nil, err
	}
	s.serve(b)
	return a, nil
}

// serve talks to a client.
func (s *Server) serve(b net.Conn) {
	s.mu.Lock()
	s.conns = append(s.conns, b)
	s.mu.Unlock()
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		c := &conn{s: s, c: b}
		c.serve()
		c.c.Close()
		b.Close()
	}()
}

// pair returns the two ends of a connection.
func pair() (a, b net.Conn, err error) {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	var l [2]net.Conn
	for i, fd := range fds {
		f := os.NewFile(uintptr(fd), "socket")
		c, e := net.FileConn(f)
		f.Close()
		if e != nil {
			err = e
		}
		l[i] = c
	}
	return l[0], l[1], err
}

type conn struct {
	s   *Server
	c   net.Conn
	seq byte
}

func (c *conn) read() ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(c.c, h[:]); err != nil {
		return nil, err
	}
	n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
	c.seq = h[3] + 1
	b := make([]byte, n)
	_, err := io.ReadFull(c.c, b)
	return b, err
}

func (c *conn) raw(b []byte) error {
	h := []byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), c.seq}
	c.seq++
	_, err := c.c.Write(append(h, b...))
	return err
}

func (s *Server) code() int {
	if s.Code != 0 {
		return s.Code
	}
	return 1105
}

func errPacket(code int, msg string) []byte {
	return append([]byte{0xff, byte(code), byte(code >> 8), '#', 'H', 'Y', '0', '0', '0'}, msg...)
}

// write sends a packet, unless the fault happens.
func (c *conn) write(place string, b []byte) error {
	if c.s.step(place) {
		switch c.s.Fault {
		case Err:
			c.raw(errPacket(c.s.code(), "fault"))
			if strings.HasPrefix(place, "handshake") || place == "login" {
				return errFault
			}
			return errEnd
		case Denied:
			c.raw(errPacket(1045, "Access denied"))
			return errFault
		case Drop:
			return errFault
		case Half:
			h := []byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), c.seq}
			c.c.Write(append(h, b[:len(b)/2]...))
			return errFault
		case Garbage:
			c.raw([]byte("\xfb\x05\x00\xfd\x00\x01garbage"))
			return errFault
		case Sequence:
			c.seq += 3
			c.raw(b)
			return errFault
		case End:
			if strings.HasPrefix(place, "row") {
				c.raw([]byte{0xfe, 0, 0, 2, 0})
				return errEnd
			}
		case Hang:
			<-c.s.release
			return errFault
		}
	}
	return c.raw(b)
}

// errEnd ends a result, but not the connection.
var errEnd = errors.New("end of result")

var salt = []byte("abcdefgh12345678ABCD")

// Capabilities of the client.
const (
	FoundRows       = 2
	LongFlag        = 4
	WithDB          = 8
	Protocol41      = 512
	SSL             = 2048
	Transactions    = 8192
	Secure          = 32768
	MultiStatements = 65536
	MultiResults    = 1 << 17
	PluginAuth      = 1 << 19
)

func (c *conn) serve() {
	if err := c.login(); err != nil {
		return
	}
	sets := map[string]bool{}
	for {
		b, err := c.read()
		if err != nil || len(b) == 0 {
			return
		}
		switch b[0] {
		case 1: // quit
			return
		case 14: // ping
			err = c.write("ping", ok)
		case 3:
			err = c.query(string(b[1:]), sets)
		default:
			c.s.bad("command %d", b[0])
			err = c.raw(errPacket(1047, "Unknown command"))
		}
		if err != nil && err != errEnd {
			return
		}
	}
}

var ok = []byte{0, 0, 0, 2, 0, 0, 0}

func (c *conn) login() error {
	s := c.s
	caps := uint32(LongFlag | WithDB | Protocol41 | Transactions | Secure | FoundRows | MultiStatements | MultiResults | PluginAuth)
	if s.TLS != nil {
		caps |= SSL
	}
	var p bytes.Buffer
	p.WriteByte(10)
	p.WriteString("5.7.30\x00")
	p.Write([]byte{1, 0, 0, 0})
	p.Write(salt[:8])
	p.WriteByte(0)
	binary.Write(&p, binary.LittleEndian, uint16(caps))
	p.WriteByte(33)
	p.Write([]byte{2, 0})
	binary.Write(&p, binary.LittleEndian, uint16(caps>>16))
	p.WriteByte(21)
	p.Write(make([]byte, 10))
	p.Write(salt[8:])
	p.WriteByte(0)
	p.WriteString("mysql_native_password\x00")
	if err := c.write("handshake", p.Bytes()); err != nil {
		return err
	}
	b, err := c.read()
	if err != nil {
		return err
	}
	if len(b) < 32 {
		s.bad("short login")
		return errFault
	}
	flags := binary.LittleEndian.Uint32(b)
	if flags&SSL != 0 {
		if s.TLS == nil {
			s.bad("TLS is asked for")
			return errFault
		}
		t := tls.Server(c.c, s.TLS)
		if err := t.Handshake(); err != nil {
			// read on, so that the client can say good bye
			return err
		}
		c.c = t
		if b, err = c.read(); err != nil {
			return err
		}
		if len(b) < 32 {
			s.bad("short login")
			return errFault
		}
		flags = binary.LittleEndian.Uint32(b)
	} else if s.TLS != nil {
		s.bad("the connection is not encrypted")
	}
	if flags&s.Flags != s.Flags {
		s.bad("capabilities are %x without %x", flags, s.Flags)
	}
	if s.Collation != 0 && b[8] != s.Collation {
		s.bad("collation is %d, not %d", b[8], s.Collation)
	}
	b = b[32:]
	i := bytes.IndexByte(b, 0)
	if i < 0 || i+1 >= len(b) {
		s.bad("login without user")
		return errFault
	}
	user := string(b[:i])
	b = b[i+1:]
	n := int(b[0])
	if n+1 > len(b) {
		s.bad("login without password")
		return errFault
	}
	auth := b[1 : 1+n]
	b = b[1+n:]
	db := ""
	if flags&WithDB != 0 {
		if i = bytes.IndexByte(b, 0); i < 0 {
			s.bad("login without database")
			return errFault
		}
		db = string(b[:i])
	}
	if user != s.User || !bytes.Equal(auth, scramble(s.Password)) {
		s.bad("login of user %q, expected %q with password %q", user, s.User, s.Password)
		c.raw(errPacket(1045, "Access denied"))
		return errFault
	}
	if db != s.DB {
		s.bad("login to database %q, not %q", db, s.DB)
	}
	return c.write("login", ok)
}

// scramble is the answer that proves the password.
func scramble(pw string) []byte {
	if pw == "" {
		return nil
	}
	a := sha1.Sum([]byte(pw))
	b := sha1.Sum(a[:])
	h := sha1.New()
	h.Write(salt)
	h.Write(b[:])
	r := h.Sum(nil)
	for i := range r {
		r[i] ^= a[i]
	}
	return r
}

func lenenc(s string) []byte {
	n := len(s)
	switch {
	case n < 251:
		return append([]byte{byte(n)}, s...)
	case n < 1<<16:
		return append([]byte{0xfc, byte(n), byte(n >> 8)}, s...)
	default:
		return append([]byte{0xfd, byte(n), byte(n >> 8), byte(n >> 16)}, s...)
	}
}

// result sends rows; nil is NULL.
func (c *conn) result(place string, cols []string, rows [][]*string) error {
	if err := c.write("columns of "+place, []byte{byte(len(cols))}); err != nil {
		return err
	}
	for _, n := range cols {
		var b []byte
		b = append(b, lenenc("def")...)
		for i := 0; i < 3; i++ {
			b = append(b, lenenc("")...)
		}
		b = append(b, lenenc(n)...)
		b = append(b, lenenc(n)...)
		b = append(b, 12, 33, 0, 0, 1, 0, 0, 253, 0, 0, 0, 0, 0)
		if err := c.write("column of "+place, b); err != nil {
			return err
		}
	}
	eof := []byte{0xfe, 0, 0, 2, 0}
	if err := c.write("columns end of "+place, eof); err != nil {
		return err
	}
	for i, r := range rows {
		var b []byte
		for _, v := range r {
			if v == nil {
				b = append(b, 0xfb)
			} else {
				b = append(b, lenenc(*v)...)
			}
		}
		if err := c.write(fmt.Sprintf("row %d of %s", i, place), b); err != nil {
			return err
		}
	}
	return c.write("end of "+place, eof)
}

func (c *conn) query(q string, sets map[string]bool) error {
	s := c.s
	s.mu.Lock()
	s.Log = append(s.Log, q)
	s.mu.Unlock()
	words := strings.Fields(strings.TrimRight(q, "; \n"))
	up := strings.ToUpper(strings.Join(words, " "))
	place := q
	switch {
	case len(words) > 0 && strings.EqualFold(words[0], "SET"):
		known := false
		for _, x := range s.Sets {
			known = known || x == q
		}
		if !known {
			s.bad("unexpected statement %q", q)
			return c.raw(errPacket(1064, "You have an error in your SQL syntax"))
		}
		sets[q] = true
		return c.write(place, ok)
	case up == "SELECT @@MAX_ALLOWED_PACKET":
		v := "4194304"
		return c.result(place, []string{"@@max_allowed_packet"}, [][]*string{{&v}})
	case up == "SHOW TABLES":
		c.ready(sets)
		var rows [][]*string
		hit := -1
		for i := range s.Tables {
			n := s.Tables[i].Name
			rows = append(rows, []*string{&n})
			if s.Fault == NullName && s.Table == i {
				hit = i
			}
		}
		if hit >= 0 {
			rows[hit][0] = nil
			s.fault()
		}
		return c.result("tables", []string{"Tables_in_db"}, rows)
	case strings.HasPrefix(up, "SHOW CREATE TABLE "):
		c.ready(sets)
		i := strings.Index(strings.ToUpper(q), "TABLE") + 5
		name, valid := unquote(strings.TrimSpace(strings.TrimRight(q[i:], ";")))
		if !valid {
			s.bad("statement %q", q)
			return c.raw(errPacket(1064, "You have an error in your SQL syntax"))
		}
		for i := range s.Tables {
			t := s.Tables[i]
			if t.Name != name {
				continue
			}
			cols, row := []string{"Table", "Create Table"}, []*string{&t.Name, &t.Def}
			if s.Table == i {
				switch s.Fault {
				case NullDef:
					row[1] = nil
					s.fault()
				case FewColumns:
					cols, row = cols[1:], row[1:]
					s.fault()
				case ManyColumns:
					cols, row = append(cols, "character_set_client", "collation_connection"), append(row, &t.Name, &t.Name)
					s.fault()
				case NoRow:
					s.fault()
					return c.result(place, cols, nil)
				}
			}
			return c.result(place, cols, [][]*string{row})
		}
		s.bad("table %q does not exist", name)
		return c.raw(errPacket(1146, "Table doesn't exist"))
	}
	s.bad("unexpected statement %q", q)
	return c.raw(errPacket(1064, "You have an error in your SQL syntax"))
}

// fault notes a fault of the data.
func (s *Server) fault() {
	s.mu.Lock()
	s.Faults++
	s.mu.Unlock()
}

// ready checks that all parameters are set.
func (c *conn) ready(sets map[string]bool) {
	for _, x := range c.s.Sets {
		if !sets[x] {
			c.s.bad("%q was not sent", x)
		}
	}
}

// unquote reads a quoted name.
func unquote(s string) (string, bool) {
	if len(s) < 2 || s[0] != '`' || s[len(s)-1] != '`' {
		return "", false
	}
	s = s[1 : len(s)-1]
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '`' {
			if i++; i >= len(s) || s[i] != '`' {
				return "", false
			}
		}
		b.WriteByte(s[i])
	}
	return b.String(), true
}
