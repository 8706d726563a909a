package harness

import (
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"unicode"

	"github.com/jackc/pgx/v5/pgproto3"
)

// pgDB stands in for a PostgreSQL server: it speaks the wire protocol over in-memory connections and keeps
// tables of bytea columns with PostgreSQL's rules for what a transaction sees (READ COMMITTED: what is
// committed when a statement starts; REPEATABLE READ and up: what was committed when the transaction first
// looked), table and row locks, failed transactions and deadlocks. SQL that it does not know makes the case
// inconclusive, never a violation: unknown says what it was.
type pgDB struct {
	mu       sync.Mutex
	cond     *sync.Cond
	tables   map[string]*pgTable // committed; a table is replaced as a whole, never changed
	held     map[string]map[*pgSession]int
	rowOwner map[string]*pgSession
	creating map[string]*pgSession
	unknown  string
	sessions map[*pgSession]bool

	// Faults: a statement counts down, and at 0 it fails as told.
	arm        int
	armKind    string // error, drop (before it runs), dropafter
	fired      string // the statement that failed
	statements int
	commits    int64

	pause  func() // called before each statement, without locks held
	closes []func()
}

func (d *pgDB) onClose(f func()) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.closes = append(d.closes, f)
}

// Close closes the connections that were opened.
func (d *pgDB) Close() {
	d.mu.Lock()
	cs := d.closes
	d.closes = nil
	d.mu.Unlock()
	for _, c := range cs {
		c()
	}
}

type pgTable struct {
	cols []string
	pk   string
	rows map[string][][]byte // by primary key
	ver  map[string]int64    // last commit that wrote the row, deleted rows too
	gone bool
}

func newPGDB() *pgDB {
	d := &pgDB{tables: map[string]*pgTable{}, held: map[string]map[*pgSession]int{}, rowOwner: map[string]*pgSession{}, creating: map[string]*pgSession{}, sessions: map[*pgSession]bool{}}
	d.cond = sync.NewCond(&d.mu)
	return d
}

// dump is what is committed, apart from which tables there are.
func (d *pgDB) dump() string {
	d.mu.Lock()
	defer d.mu.Unlock()
	n := 0
	var sum [32]byte
	for name, t := range d.tables {
		for k, r := range t.rows {
			n++
			h := refLeafHash([]byte(fmt.Sprintf("%s %x %x", name, k, r)))
			for i := range sum {
				sum[i] ^= h[i]
			}
		}
	}
	return fmt.Sprintf("%d rows %x", n, sum)
}

func (d *pgDB) Dial(ctx context.Context, network, addr string) (net.Conn, error) {
	c, s := net.Pipe()
	go d.serve(s)
	return c, nil
}

// busy says how many sessions have a transaction open.
func (d *pgDB) busy() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	n := 0
	for s := range d.sessions {
		if s.tx != nil {
			n++
		}
	}
	return n
}

type pgErr struct{ code, msg string }

func (e *pgErr) Error() string { return e.code + " " + e.msg }

var errPGDrop = errors.New("connection dropped")

type pgTx struct {
	repeatable bool
	readOnly   bool
	snap       map[string]*pgTable // for repeatable
	snapAt     int64
	writes     map[string]map[string][][]byte // nil row: deleted
	created    map[string]*pgTable
	failed     bool
	saves      []pgSave
}

type pgSave struct {
	name    string
	writes  map[string]map[string][][]byte
	created map[string]*pgTable
}

type pgStmt struct {
	sql    string
	toks   []pgTok
	kind   string
	nparam int
	cols   []string // of the result
	table  string
}

type pgSession struct {
	d        *pgDB
	be       *pgproto3.Backend
	tx       *pgTx
	waitsFor map[*pgSession]bool
	prepared map[string]*pgStmt
	portals  map[string]*pgPortal
	ended    bool
}

type pgPortal struct {
	st     *pgStmt
	params [][]byte
	text   bool // result format
	ran    bool
	done   []pgproto3.BackendMessage
}

func (d *pgDB) serve(c net.Conn) {
	defer c.Close()
	s := &pgSession{d: d, be: pgproto3.NewBackend(c, c), prepared: map[string]*pgStmt{}, portals: map[string]*pgPortal{}}
	for {
		m, err := s.be.ReceiveStartupMessage()
		if err != nil {
			return
		}
		switch m.(type) {
		case *pgproto3.SSLRequest, *pgproto3.GSSEncRequest:
			if _, err := c.Write([]byte("N")); err != nil {
				return
			}
			continue
		case *pgproto3.StartupMessage:
		default: // CancelRequest
			return
		}
		break
	}
	d.mu.Lock()
	d.sessions[s] = true
	d.mu.Unlock()
	defer s.end()
	s.be.Send(&pgproto3.AuthenticationOk{})
	for k, v := range map[string]string{"server_version": "16.0", "client_encoding": "UTF8", "standard_conforming_strings": "on", "TimeZone": "UTC", "integer_datetimes": "on"} {
		s.be.Send(&pgproto3.ParameterStatus{Name: k, Value: v})
	}
	s.be.Send(&pgproto3.BackendKeyData{ProcessID: 1, SecretKey: 1})
	s.ready()
	if s.be.Flush() != nil {
		return
	}
	skip := false // after an error, until Sync
	fail := func(err error) bool {
		if errors.Is(err, errPGDrop) {
			return false
		}
		e, ok := err.(*pgErr)
		if !ok {
			e = &pgErr{"XX000", err.Error()}
		}
		if s.tx != nil {
			s.tx.failed = true
		}
		s.be.Send(&pgproto3.ErrorResponse{Severity: "ERROR", SeverityUnlocalized: "ERROR", Code: e.code, Message: e.msg})
		return true
	}
	for {
		m, err := s.be.Receive()
		if err != nil {
			return
		}
		if _, isSync := m.(*pgproto3.Sync); skip && !isSync {
			if _, ok := m.(*pgproto3.Terminate); ok {
				return
			}
			continue
		}
		switch m := m.(type) {
		case *pgproto3.Terminate:
			return
		case *pgproto3.Sync:
			skip = false
			s.ready()
			if s.be.Flush() != nil {
				return
			}
		case *pgproto3.Flush:
			if s.be.Flush() != nil {
				return
			}
		case *pgproto3.Query:
			var err error
			stmts := pgSplit(m.String)
			for _, q := range stmts {
				var st *pgStmt
				if st, err = s.parse(q); err != nil {
					break
				}
				var msgs []pgproto3.BackendMessage
				if msgs, err = s.run(st, nil, true); err != nil {
					break
				}
				if st.cols != nil {
					s.be.Send(st.rowDescription(true))
				}
				for _, x := range msgs {
					s.be.Send(x)
				}
			}
			if len(stmts) == 0 {
				s.be.Send(&pgproto3.EmptyQueryResponse{})
			}
			if err != nil && !fail(err) {
				return
			}
			s.ready()
			if s.be.Flush() != nil {
				return
			}
		case *pgproto3.Parse:
			st, err := s.parse(m.Query)
			if err != nil {
				if !fail(err) {
					return
				}
				skip = true
				continue
			}
			s.prepared[m.Name] = st
			s.be.Send(&pgproto3.ParseComplete{})
		case *pgproto3.Describe:
			var st *pgStmt
			text := false
			if m.ObjectType == 'S' {
				st = s.prepared[m.Name]
			} else if p := s.portals[m.Name]; p != nil {
				st, text = p.st, p.text
			}
			if st == nil {
				fail(&pgErr{"26000", "no such statement or portal"})
				skip = true
				continue
			}
			if m.ObjectType == 'S' {
				oids := make([]uint32, st.nparam)
				for i := range oids {
					oids[i] = 17
				}
				s.be.Send(&pgproto3.ParameterDescription{ParameterOIDs: oids})
			}
			if st.cols == nil {
				s.be.Send(&pgproto3.NoData{})
			} else {
				s.be.Send(st.rowDescription(text))
			}
		case *pgproto3.Bind:
			st := s.prepared[m.PreparedStatement]
			if st == nil {
				fail(&pgErr{"26000", "no such statement"})
				skip = true
				continue
			}
			p := &pgPortal{st: st, text: len(m.ResultFormatCodes) == 0 || m.ResultFormatCodes[0] == 0}
			for i, v := range m.Parameters {
				f := int16(0)
				if len(m.ParameterFormatCodes) == 1 {
					f = m.ParameterFormatCodes[0]
				} else if i < len(m.ParameterFormatCodes) {
					f = m.ParameterFormatCodes[i]
				}
				if v == nil {
					p.params = append(p.params, nil)
					continue
				}
				b := append([]byte{}, v...)
				if f == 0 && strings.HasPrefix(string(b), `\x`) {
					if h, err := hex.DecodeString(string(b[2:])); err == nil {
						b = h
					}
				}
				p.params = append(p.params, b)
			}
			if len(p.params) != st.nparam {
				fail(&pgErr{"08P01", "wrong number of parameters"})
				skip = true
				continue
			}
			s.portals[m.DestinationPortal] = p
			s.be.Send(&pgproto3.BindComplete{})
		case *pgproto3.Execute:
			p := s.portals[m.Portal]
			if p == nil {
				fail(&pgErr{"34000", "no such portal"})
				skip = true
				continue
			}
			msgs, err := s.run(p.st, p.params, p.text)
			if err != nil {
				if !fail(err) {
					return
				}
				skip = true
				continue
			}
			for _, x := range msgs {
				s.be.Send(x)
			}
		case *pgproto3.Close:
			if m.ObjectType == 'S' {
				delete(s.prepared, m.Name)
			} else {
				delete(s.portals, m.Name)
			}
			s.be.Send(&pgproto3.CloseComplete{})
		default:
			s.d.setUnknown(fmt.Sprintf("message %T", m))
			return
		}
	}
}

func (d *pgDB) setUnknown(s string) {
	d.mu.Lock()
	if d.unknown == "" {
		d.unknown = s
	}
	d.mu.Unlock()
}

func (d *pgDB) Unknown() string {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.unknown
}

func (s *pgSession) ready() {
	st := byte('I')
	if s.tx != nil {
		st = 'T'
		if s.tx.failed {
			st = 'E'
		}
	}
	s.be.Send(&pgproto3.ReadyForQuery{TxStatus: st})
}

func (s *pgSession) end() {
	s.d.mu.Lock()
	defer s.d.mu.Unlock()
	s.ended = true
	s.finish(false)
	delete(s.d.sessions, s)
}

// ---- SQL ----

type pgTok struct {
	kind byte // w word (lower case), q quoted identifier, n number, s string, p parameter, o other
	s    string
	n    int
}

func pgSplit(q string) []string {
	var rv []string
	for _, x := range strings.Split(q, ";") {
		if strings.TrimSpace(x) != "" {
			rv = append(rv, x)
		}
	}
	return rv
}

func pgLex(q string) ([]pgTok, bool) {
	var rv []pgTok
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case strings.HasPrefix(q[i:], "/*"):
			e := strings.Index(q[i:], "*/")
			if e < 0 {
				return nil, false
			}
			i += e + 2
		case c == '"' || c == '\'':
			e := strings.IndexByte(q[i+1:], c)
			if e < 0 || strings.HasPrefix(q[i+1+e+1:], string(c)) {
				return nil, false
			}
			k := byte('q')
			if c == '\'' {
				k = 's'
			}
			rv = append(rv, pgTok{k, q[i+1 : i+1+e], 0})
			i += e + 2
		case c == '$':
			j := i + 1
			n := 0
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				n = n*10 + int(q[j]-'0')
				j++
			}
			if n == 0 {
				return nil, false
			}
			rv = append(rv, pgTok{'p', q[i:j], n})
			i = j
		case unicode.IsLetter(rune(c)) || c == '_':
			j := i
			for j < len(q) && (q[j] == '_' || q[j] == '$' || unicode.IsLetter(rune(q[j])) || unicode.IsDigit(rune(q[j]))) {
				j++
			}
			rv = append(rv, pgTok{'w', strings.ToLower(q[i:j]), 0})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			rv = append(rv, pgTok{'n', q[i:j], 0})
			i = j
		case strings.HasPrefix(q[i:], "::"):
			rv = append(rv, pgTok{'o', "::", 0})
			i += 2
		default:
			rv = append(rv, pgTok{'o', string(c), 0})
			i++
		}
	}
	return rv, true
}

// pgP is a cursor over the tokens of a statement.
type pgP struct {
	t   []pgTok
	i   int
	bad bool
}

func (p *pgP) end() bool { return p.i >= len(p.t) }
func (p *pgP) peek(s string) bool {
	return !p.end() && (p.t[p.i].kind == 'w' || p.t[p.i].kind == 'o') && p.t[p.i].s == s
}

// try eats the words or signs if they are all next.
func (p *pgP) try(ws ...string) bool {
	at := p.i
	for _, w := range ws {
		if !p.peek(w) {
			p.i = at
			return false
		}
		p.i++
	}
	return true
}

func (p *pgP) need(ws ...string) {
	if !p.try(ws...) {
		p.bad = true
	}
}

func (p *pgP) name() string {
	if p.end() || (p.t[p.i].kind != 'w' && p.t[p.i].kind != 'q') {
		p.bad = true
		return ""
	}
	p.i++
	n := p.t[p.i-1].s
	if n == "public" && p.try(".") {
		return p.name()
	}
	return n
}

// value is a parameter, a bytea literal, NULL, or EXCLUDED.column.
type pgValue struct {
	param    int
	lit      []byte
	excluded string
}

func (p *pgP) value() pgValue {
	var v pgValue
	switch {
	case p.end():
		p.bad = true
	case p.t[p.i].kind == 'p':
		v.param = p.t[p.i].n
		p.i++
	case p.t[p.i].kind == 's' && strings.HasPrefix(p.t[p.i].s, `\x`):
		b, err := hex.DecodeString(p.t[p.i].s[2:])
		if err != nil {
			p.bad = true
		}
		if b == nil {
			b = []byte{}
		}
		v.lit = b
		p.i++
	case p.try("null"):
	case p.try("excluded", "."):
		v.excluded = p.name()
	default:
		p.bad = true
	}
	if p.try("::") {
		p.need("bytea")
	}
	return v
}

func (v pgValue) get(params [][]byte) []byte {
	if v.param > 0 {
		if v.param > len(params) {
			return nil
		}
		return params[v.param-1]
	}
	return v.lit
}

func (s *pgSession) unknownSQL(q string) error {
	s.d.setUnknown(q)
	return &pgErr{"0A000", "the stand-in does not know: " + q}
}

// parse finds out what kind of statement it is and what it returns.
func (s *pgSession) parse(q string) (*pgStmt, error) {
	toks, ok := pgLex(q)
	if !ok {
		return nil, s.unknownSQL(q)
	}
	for len(toks) > 0 && toks[len(toks)-1].s == ";" {
		toks = toks[:len(toks)-1]
	}
	st := &pgStmt{sql: strings.Join(strings.Fields(q), " "), toks: toks}
	for _, t := range toks {
		if t.kind == 'p' && t.n > st.nparam {
			st.nparam = t.n
		}
	}
	if len(toks) == 0 {
		return st, nil
	}
	st.kind = toks[0].s
	if s.tx != nil && s.tx.failed && st.kind != "rollback" && st.kind != "commit" && st.kind != "abort" && st.kind != "end" {
		return nil, &pgErr{"25P02", "current transaction is aborted, commands ignored until end of transaction block"}
	}
	if st.kind == "select" {
		p := &pgP{t: toks, i: 1}
		for {
			switch {
			case p.try("1"):
				st.cols = append(st.cols, "?column?")
			case !p.end() && p.t[p.i].kind == 'n':
				return nil, s.unknownSQL(q)
			default:
				n := p.name()
				if p.try(".") {
					n = p.name()
				}
				st.cols = append(st.cols, n)
			}
			if !p.try(",") {
				break
			}
		}
		p.need("from")
		st.table = p.name()
		if p.bad {
			return nil, s.unknownSQL(q)
		}
	}
	if st.kind == "select" || st.kind == "delete" || st.kind == "insert" || st.kind == "update" {
		if st.kind != "select" {
			p := &pgP{t: toks, i: 1}
			if st.kind == "delete" {
				p.need("from")
			} else if st.kind == "insert" {
				p.need("into")
			}
			st.table = p.name()
		}
		s.d.mu.Lock()
		t := s.table(st.table)
		s.d.mu.Unlock()
		if t == nil {
			return nil, &pgErr{"42P01", fmt.Sprintf("relation %q does not exist", st.table)}
		}
		for _, c := range st.cols {
			if t.col(c) < 0 && c != "?column?" {
				return nil, s.unknownSQL(q)
			}
		}
	}
	return st, nil
}

func (st *pgStmt) rowDescription(text bool) *pgproto3.RowDescription {
	rd := &pgproto3.RowDescription{}
	for _, c := range st.cols {
		f := pgproto3.FieldDescription{Name: []byte(c), DataTypeOID: 17, DataTypeSize: -1, TypeModifier: -1}
		if !text {
			f.Format = 1
		}
		if c == "?column?" {
			f.DataTypeOID, f.DataTypeSize = 23, 4
		}
		rd.Fields = append(rd.Fields, f)
	}
	return rd
}

func (t *pgTable) col(n string) int {
	for i, c := range t.cols {
		if c == n {
			return i
		}
	}
	return -1
}

// table is the table as the session sees it now (its rows without the session's own writes).
func (s *pgSession) table(n string) *pgTable {
	if s.tx != nil {
		if t := s.tx.created[n]; t != nil {
			return t
		}
		if s.tx.repeatable {
			if s.tx.snap == nil {
				s.tx.snap = map[string]*pgTable{}
				for k, v := range s.d.tables {
					s.tx.snap[k] = v
				}
				s.tx.snapAt = s.d.commits
			}
			if t := s.tx.snap[n]; t != nil {
				return t
			}
			if t := s.d.tables[n]; t != nil { // the catalogue is not part of the snapshot
				return &pgTable{cols: t.cols, pk: t.pk, rows: map[string][][]byte{}}
			}
			return nil
		}
	}
	return s.d.tables[n]
}

func (s *pgSession) row(t *pgTable, n string, key []byte) [][]byte {
	if s.tx != nil {
		if r, ok := s.tx.writes[n][string(key)]; ok {
			return r
		}
	}
	return t.rows[string(key)]
}

// wait blocks until others no longer stand in the way (blockers returns none).
func (s *pgSession) wait(blockers func() map[*pgSession]bool) error {
	defer func() { s.waitsFor = nil }()
	for {
		b := blockers()
		if len(b) == 0 {
			return nil
		}
		s.waitsFor = b
		seen := map[*pgSession]bool{}
		var reach func(x *pgSession) bool
		reach = func(x *pgSession) bool {
			if x == s {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for y := range x.waitsFor {
				if reach(y) {
					return true
				}
			}
			return false
		}
		for x := range b {
			if reach(x) {
				return &pgErr{"40P01", "deadlock detected"}
			}
		}
		s.d.cond.Wait()
	}
}

// Lock modes by number, and for each the modes it conflicts with.
var pgModes = map[string]int{"access share": 1, "row share": 2, "row exclusive": 3, "share update exclusive": 4, "share": 5, "share row exclusive": 6, "exclusive": 7, "access exclusive": 8}
var pgConflicts = [9][]int{1: {8}, 2: {7, 8}, 3: {5, 6, 7, 8}, 4: {4, 5, 6, 7, 8}, 5: {3, 4, 6, 7, 8}, 6: {3, 4, 5, 6, 7, 8}, 7: {2, 3, 4, 5, 6, 7, 8}, 8: {1, 2, 3, 4, 5, 6, 7, 8}}

func (s *pgSession) lockTable(n string, mode int) error {
	h := s.d.held[n]
	if h == nil {
		h = map[*pgSession]int{}
		s.d.held[n] = h
	}
	err := s.wait(func() map[*pgSession]bool {
		b := map[*pgSession]bool{}
		for o, bits := range h {
			if o == s {
				continue
			}
			for _, c := range pgConflicts[mode] {
				if bits&(1<<c) != 0 {
					b[o] = true
				}
			}
		}
		return b
	})
	if err == nil {
		h[s] |= 1 << mode
	}
	return err
}

func (s *pgSession) lockRow(n string, key []byte) error {
	id := n + "\x00" + string(key)
	err := s.wait(func() map[*pgSession]bool {
		if o := s.d.rowOwner[id]; o != nil && o != s {
			return map[*pgSession]bool{o: true}
		}
		return nil
	})
	if err != nil {
		return err
	}
	s.d.rowOwner[id] = s
	if s.tx.repeatable {
		s.table(n) // sets the snapshot
		if t := s.d.tables[n]; t != nil && t.ver[string(key)] > s.tx.snapAt {
			return &pgErr{"40001", "could not serialize access due to concurrent update"}
		}
	}
	return nil
}

// finish ends the transaction.
func (s *pgSession) finish(commit bool) {
	tx := s.tx
	s.tx = nil
	if tx != nil && commit && !tx.failed {
		s.d.commits++
		for n, t := range tx.created {
			if s.d.tables[n] == nil {
				s.d.tables[n] = &pgTable{cols: t.cols, pk: t.pk, rows: map[string][][]byte{}, ver: map[string]int64{}}
			}
		}
		for n, w := range tx.writes {
			o := s.d.tables[n]
			if o == nil || len(w) == 0 {
				continue
			}
			t := &pgTable{cols: o.cols, pk: o.pk, rows: make(map[string][][]byte, len(o.rows)), ver: make(map[string]int64, len(o.ver))}
			for k, v := range o.rows {
				t.rows[k] = v
			}
			for k, v := range o.ver {
				t.ver[k] = v
			}
			for k, v := range w {
				t.ver[k] = s.d.commits
				if v == nil {
					delete(t.rows, k)
				} else {
					t.rows[k] = v
				}
			}
			s.d.tables[n] = t
		}
	}
	for _, h := range s.d.held {
		delete(h, s)
	}
	for id, o := range s.d.rowOwner {
		if o == s {
			delete(s.d.rowOwner, id)
		}
	}
	for n, o := range s.d.creating {
		if o == s {
			delete(s.d.creating, n)
		}
	}
	s.d.cond.Broadcast()
}

func pgTag(s string) []pgproto3.BackendMessage {
	return []pgproto3.BackendMessage{&pgproto3.CommandComplete{CommandTag: []byte(s)}}
}

// run executes a statement.
func (s *pgSession) run(st *pgStmt, params [][]byte, text bool) ([]pgproto3.BackendMessage, error) {
	d := s.d
	if d.pause != nil {
		d.pause()
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.statements++
	drop := false
	if d.arm > 0 {
		d.arm--
		if d.arm == 0 {
			d.fired = st.sql
			switch d.armKind {
			case "error":
				if st.kind == "rollback" || st.kind == "abort" { // does not fail
					break
				}
				if st.kind == "commit" || st.kind == "end" { // e.g. a deferred constraint, or no space
					s.finish(false)
				}
				return nil, &pgErr{"53100", "no space left on the pretended device"}
			case "drop":
				return nil, errPGDrop
			case "dropafter":
				drop = true
			}
		}
	}
	msgs, err := s.exec(st, params, text)
	if drop {
		return nil, errPGDrop
	}
	return msgs, err
}

func (s *pgSession) exec(st *pgStmt, params [][]byte, text bool) ([]pgproto3.BackendMessage, error) {
	p := &pgP{t: st.toks, i: 1}
	unknown := func() ([]pgproto3.BackendMessage, error) {
		if s.d.unknown == "" {
			s.d.unknown = st.sql
		}
		return nil, &pgErr{"0A000", "the stand-in does not know: " + st.sql}
	}
	switch st.kind {
	case "":
		return []pgproto3.BackendMessage{&pgproto3.EmptyQueryResponse{}}, nil
	case "begin", "start":
		tx := &pgTx{writes: map[string]map[string][][]byte{}, created: map[string]*pgTable{}}
		_ = p.try("transaction") || p.try("work")
		for !p.end() {
			switch {
			case p.try("isolation", "level", "repeatable", "read"), p.try("isolation", "level", "serializable"):
				tx.repeatable = true
			case p.try("isolation", "level", "read", "committed"), p.try("isolation", "level", "read", "uncommitted"), p.try("read", "write"), p.try("not", "deferrable"), p.try("deferrable"), p.try(","):
			case p.try("read", "only"):
				tx.readOnly = true
			default:
				return unknown()
			}
		}
		if s.tx != nil { // a warning, and nothing happens
			return append([]pgproto3.BackendMessage{&pgproto3.NoticeResponse{Severity: "WARNING", SeverityUnlocalized: "WARNING", Code: "25001", Message: "there is already a transaction in progress"}}, pgTag("BEGIN")...), nil
		}
		s.tx = tx
		return pgTag("BEGIN"), nil
	case "commit", "end":
		tag := "COMMIT"
		if s.tx != nil && s.tx.failed {
			tag = "ROLLBACK"
		}
		s.finish(true)
		return pgTag(tag), nil
	case "rollback", "abort":
		_ = p.try("transaction") || p.try("work")
		if p.try("to") {
			p.try("savepoint")
			n := p.name()
			for i := len(s.txSaves()) - 1; i >= 0; i-- {
				if s.tx.saves[i].name == n {
					s.tx.writes, s.tx.created, s.tx.failed = cloneWrites(s.tx.saves[i].writes), s.tx.saves[i].created, false
					s.tx.saves = s.tx.saves[:i+1]
					return pgTag("ROLLBACK"), nil
				}
			}
			return nil, &pgErr{"3B001", "no such savepoint"}
		}
		s.finish(false)
		return pgTag("ROLLBACK"), nil
	case "savepoint":
		n := p.name()
		if p.bad || s.tx == nil {
			return nil, &pgErr{"25P01", "SAVEPOINT can only be used in transaction blocks"}
		}
		c := map[string]*pgTable{}
		for k, v := range s.tx.created {
			c[k] = v
		}
		s.tx.saves = append(s.tx.saves, pgSave{n, cloneWrites(s.tx.writes), c})
		return pgTag("SAVEPOINT"), nil
	case "release":
		p.try("savepoint")
		n := p.name()
		for i := len(s.txSaves()) - 1; i >= 0; i-- {
			if s.tx.saves[i].name == n {
				s.tx.saves = s.tx.saves[:i]
				return pgTag("RELEASE"), nil
			}
		}
		return nil, &pgErr{"3B001", "no such savepoint"}
	case "set":
		if p.try("transaction") && s.tx != nil {
			for !p.end() {
				switch {
				case p.try("isolation", "level", "repeatable", "read"), p.try("isolation", "level", "serializable"):
					s.tx.repeatable = true
				case p.try("isolation", "level", "read", "committed"), p.try("read", "write"), p.try(","):
				case p.try("read", "only"):
					s.tx.readOnly = true
				default:
					return unknown()
				}
			}
			return pgTag("SET"), nil
		}
		return unknown()
	case "deallocate":
		return pgTag("DEALLOCATE"), nil
	case "create", "lock", "select", "insert", "delete", "update":
	default:
		return unknown()
	}
	// The rest runs in a transaction of its own if there is none.
	if s.tx != nil && s.tx.failed {
		return nil, &pgErr{"25P02", "current transaction is aborted, commands ignored until end of transaction block"}
	}
	own := s.tx == nil
	if own {
		if st.kind == "lock" {
			return nil, &pgErr{"25P01", "LOCK TABLE can only be used in transaction blocks"}
		}
		s.tx = &pgTx{writes: map[string]map[string][][]byte{}, created: map[string]*pgTable{}}
	}
	msgs, err := s.statement(st, p, params, text, unknown)
	if own {
		s.finish(err == nil)
	}
	return msgs, err
}

func (s *pgSession) txSaves() []pgSave {
	if s.tx == nil {
		return nil
	}
	return s.tx.saves
}

func cloneWrites(w map[string]map[string][][]byte) map[string]map[string][][]byte {
	rv := map[string]map[string][][]byte{}
	for n, m := range w {
		c := map[string][][]byte{}
		for k, v := range m {
			c[k] = v
		}
		rv[n] = c
	}
	return rv
}

func (s *pgSession) put(n string, key []byte, row [][]byte) {
	if s.tx.writes[n] == nil {
		s.tx.writes[n] = map[string][][]byte{}
	}
	s.tx.writes[n][string(key)] = row
}

func (s *pgSession) statement(st *pgStmt, p *pgP, params [][]byte, text bool, unknown func() ([]pgproto3.BackendMessage, error)) ([]pgproto3.BackendMessage, error) {
	if s.tx.readOnly && st.kind != "select" {
		return nil, &pgErr{"25006", "cannot execute in a read-only transaction"}
	}
	switch st.kind {
	case "create":
		_ = p.try("unlogged")
		p.need("table")
		quiet := p.try("if", "not", "exists")
		n := p.name()
		p.need("(")
		t := &pgTable{rows: map[string][][]byte{}, ver: map[string]int64{}}
		for !p.bad {
			if p.try("primary", "key", "(") {
				t.pk = p.name()
				p.need(")")
			} else {
				c := p.name()
				p.need("bytea")
				t.cols = append(t.cols, c)
				for {
					if p.try("primary", "key") {
						t.pk = c
					} else if !p.try("not", "null") && !p.try("null") {
						break
					}
				}
			}
			if !p.try(",") {
				break
			}
		}
		p.need(")")
		if p.bad || !p.end() || t.pk == "" {
			return unknown()
		}
		if err := s.wait(func() map[*pgSession]bool {
			if o := s.d.creating[n]; o != nil && o != s {
				return map[*pgSession]bool{o: true}
			}
			return nil
		}); err != nil {
			return nil, err
		}
		if s.d.tables[n] != nil || s.tx.created[n] != nil {
			if !quiet {
				return nil, &pgErr{"42P07", "relation already exists"}
			}
			return append([]pgproto3.BackendMessage{&pgproto3.NoticeResponse{Severity: "NOTICE", SeverityUnlocalized: "NOTICE", Code: "42P07", Message: "relation already exists, skipping"}}, pgTag("CREATE TABLE")...), nil
		}
		s.d.creating[n] = s
		s.tx.created[n] = t
		return pgTag("CREATE TABLE"), nil
	case "lock":
		p.try("table")
		p.try("only")
		n := p.name()
		mode := 8
		if p.try("in") {
			w := ""
			for !p.end() && !p.peek("mode") {
				w += " " + p.name()
			}
			p.need("mode")
			mode = pgModes[strings.TrimSpace(w)]
		}
		if p.bad || !p.end() || mode == 0 {
			return unknown()
		}
		if s.d.tables[n] == nil && s.tx.created[n] == nil {
			return nil, &pgErr{"42P01", fmt.Sprintf("relation %q does not exist", n)}
		}
		if err := s.lockTable(n, mode); err != nil {
			return nil, err
		}
		return pgTag("LOCK TABLE"), nil
	}
	t := s.table(st.table)
	if t == nil {
		return nil, &pgErr{"42P01", fmt.Sprintf("relation %q does not exist", st.table)}
	}
	where := func() []byte {
		p.need("where")
		paren := p.try("(")
		c := p.name()
		if p.try(".") {
			c = p.name()
		}
		if c != t.pk {
			p.bad = true
		}
		p.need("=")
		v := p.value()
		if paren {
			p.need(")")
		}
		return v.get(params)
	}
	switch st.kind {
	case "select":
		for !p.end() && !p.peek("where") {
			p.i++
		}
		key := where()
		mode := 1
		for !p.bad && !p.end() {
			switch {
			case p.try("for", "update"), p.try("for", "share"), p.try("for", "no", "key", "update"), p.try("for", "key", "share"):
				mode = 2
			case p.try("limit", "1"):
			default:
				if p.peek("limit") && p.i+1 < len(p.t) && p.t[p.i+1].s == "1" {
					p.i += 2
					continue
				}
				return unknown()
			}
		}
		if p.bad {
			return unknown()
		}
		if err := s.lockTable(st.table, mode); err != nil {
			return nil, err
		}
		if mode == 2 {
			if err := s.lockRow(st.table, key); err != nil {
				return nil, err
			}
		}
		t = s.table(st.table) // as of now
		var rv []pgproto3.BackendMessage
		n := 0
		if r := s.row(t, st.table, key); r != nil && key != nil {
			n = 1
			m := &pgproto3.DataRow{}
			for _, c := range st.cols {
				if c == "?column?" {
					if text {
						m.Values = append(m.Values, []byte("1"))
					} else {
						m.Values = append(m.Values, binary.BigEndian.AppendUint32(nil, 1))
					}
					continue
				}
				v := r[t.col(c)]
				if v != nil && text {
					v = []byte(`\x` + hex.EncodeToString(v))
				}
				m.Values = append(m.Values, v)
			}
			rv = append(rv, m)
		}
		return append(rv, pgTag(fmt.Sprintf("SELECT %d", n))...), nil
	case "update":
		p.name()
		p.need("set")
		c := p.name()
		p.need("=")
		v := p.value()
		key := where()
		if p.bad || !p.end() || t.col(c) < 0 || c == t.pk || v.excluded != "" {
			return unknown()
		}
		if err := s.lockTable(st.table, 3); err != nil {
			return nil, err
		}
		if err := s.lockRow(st.table, key); err != nil {
			return nil, err
		}
		n := 0
		if old := s.row(s.table(st.table), st.table, key); old != nil && key != nil {
			n = 1
			row := append([][]byte{}, old...)
			row[t.col(c)] = v.get(params)
			s.put(st.table, key, row)
		}
		return pgTag(fmt.Sprintf("UPDATE %d", n)), nil
	case "delete":
		p.need("from")
		p.name()
		key := where()
		if p.bad || !p.end() {
			return unknown()
		}
		if err := s.lockTable(st.table, 3); err != nil {
			return nil, err
		}
		if err := s.lockRow(st.table, key); err != nil {
			return nil, err
		}
		n := 0
		if s.row(s.table(st.table), st.table, key) != nil && key != nil {
			n = 1
			s.put(st.table, key, nil)
		}
		return pgTag(fmt.Sprintf("DELETE %d", n)), nil
	case "insert":
		p.need("into")
		p.name()
		cols := t.cols
		if p.try("(") {
			cols = nil
			for {
				cols = append(cols, p.name())
				if !p.try(",") {
					break
				}
			}
			p.need(")")
		}
		p.need("values", "(")
		var vals []pgValue
		for !p.bad {
			vals = append(vals, p.value())
			if !p.try(",") {
				break
			}
		}
		p.need(")")
		action := "error"
		type set struct {
			col string
			v   pgValue
		}
		var sets []set
		if p.try("on", "conflict") {
			if p.try("(") {
				if p.name() != t.pk {
					p.bad = true
				}
				p.need(")")
			}
			p.need("do")
			if p.try("nothing") {
				action = "nothing"
			} else {
				action = "update"
				p.need("update", "set")
				for !p.bad {
					c := p.name()
					p.need("=")
					sets = append(sets, set{c, p.value()})
					if !p.try(",") {
						break
					}
				}
			}
		}
		if p.bad || !p.end() || len(vals) != len(cols) {
			return unknown()
		}
		row := make([][]byte, len(t.cols))
		for i, c := range cols {
			if t.col(c) < 0 {
				return unknown()
			}
			row[t.col(c)] = vals[i].get(params)
		}
		key := row[t.col(t.pk)]
		if key == nil {
			return nil, &pgErr{"23502", "null value in the primary key"}
		}
		if err := s.lockTable(st.table, 3); err != nil {
			return nil, err
		}
		if err := s.lockRow(st.table, key); err != nil {
			return nil, err
		}
		if old := s.row(s.table(st.table), st.table, key); old != nil {
			switch action {
			case "error":
				return nil, &pgErr{"23505", "duplicate key value violates unique constraint"}
			case "nothing":
				return pgTag("INSERT 0 0"), nil
			}
			n := append([][]byte{}, old...)
			for _, x := range sets {
				if t.col(x.col) < 0 || x.col == t.pk {
					return unknown()
				}
				if x.v.excluded != "" {
					if t.col(x.v.excluded) < 0 {
						return unknown()
					}
					n[t.col(x.col)] = row[t.col(x.v.excluded)]
				} else {
					n[t.col(x.col)] = x.v.get(params)
				}
			}
			row = n
		}
		s.put(st.table, key, row)
		return pgTag("INSERT 0 1"), nil
	}
	return unknown()
}
