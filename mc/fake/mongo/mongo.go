// Package mongo is a stand-in for a MongoDB server: it listens on the loopback interface, speaks as much of the wire protocol
// as the driver needs, hands out the documents it is told to and records what is inserted.
package mongo

import (
	"encoding/binary"
	"io"
	"net"
	"sync"

	"go.mongodb.org/mongo-driver/bson"
)

// Server is the stand-in.
type Server struct {
	mu sync.Mutex
	l  net.Listener
	// Docs is what a find returns, Batch at a time (all at once if it is 0).
	docs  []any
	batch int
	// failFind: a find fails; failAt, if positive: the batch with that number fails.
	failFind bool
	failAt   int

	cursors  map[int64]*cursor
	next     int64
	inserted []bson.M
	finds    int
}

type cursor struct {
	ns   string
	docs []any
	n    int
}

// Start starts a server.
func Start() (*Server, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &Server{l: l, cursors: map[int64]*cursor{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s, nil
}

// URI is the server's address for the driver.
func (s *Server) URI() string { return "mongodb://" + s.l.Addr().String() + "/?directConnection=true" }

// Set says what the next finds return.
func (s *Server) Set(docs []any, batch int, failFind bool, failAt int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.docs, s.batch, s.failFind, s.failAt = append([]any(nil), docs...), batch, failFind, failAt
}

// Finds is the number of finds so far.
func (s *Server) Finds() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.finds
}

// Inserted returns the documents inserted so far.
func (s *Server) Inserted() []bson.M {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]bson.M(nil), s.inserted...)
}

func (s *Server) serve(c net.Conn) {
	defer c.Close()
	le := binary.LittleEndian
	for {
		head := make([]byte, 16)
		if _, err := io.ReadFull(c, head); err != nil {
			return
		}
		n := int(le.Uint32(head))
		if n < 16 || n > 64<<20 {
			return
		}
		body := make([]byte, n-16)
		if _, err := io.ReadFull(c, body); err != nil {
			return
		}
		id, op := le.Uint32(head[4:]), le.Uint32(head[12:])
		var out []byte
		switch op {
		case 2004: // the first greeting: flags, name, skip, return, query
			out = append(make([]byte, 20), marshal(s.do(bson.M{"hello": 1}, nil))...)
			le.PutUint32(out, 8)
			le.PutUint32(out[16:], 1)
			op = 1
		case 2013: // flags, sections
			if len(body) < 9 {
				return
			}
			flags := le.Uint32(body)
			var cmd bson.M
			var more []bson.M
			name := ""
			for at := 4; at+5 <= len(body) && (flags&1 == 0 || at+4 < len(body)); {
				kind := body[at]
				size := int(le.Uint32(body[at+1:]))
				if size < 5 || at+1+size > len(body) {
					return
				}
				sec := body[at+1 : at+1+size]
				at += 1 + size
				if kind == 0 {
					if bson.Unmarshal(sec, &cmd) != nil {
						return
					}
					if els, err := bson.Raw(sec).Elements(); err == nil && len(els) > 0 {
						name = els[0].Key()
					}
					continue
				}
				p := 4
				for p < len(sec) && sec[p] != 0 {
					p++
				}
				for p++; p+4 <= len(sec); {
					k := int(le.Uint32(sec[p:]))
					var m bson.M
					if k < 5 || p+k > len(sec) || bson.Unmarshal(sec[p:p+k], &m) != nil {
						return
					}
					more = append(more, m)
					p += k
				}
			}
			cmd["$name"] = name
			r := s.do(cmd, more)
			if flags&2 != 0 {
				continue // no answer is wanted
			}
			out = append(make([]byte, 5), marshal(r)...)
		default:
			return
		}
		h := make([]byte, 16, 16+len(out))
		le.PutUint32(h, uint32(16+len(out)))
		le.PutUint32(h[8:], id)
		le.PutUint32(h[12:], op)
		if _, err := c.Write(append(h, out...)); err != nil {
			return
		}
	}
}

func marshal(d any) []byte {
	b, err := bson.Marshal(d)
	if err != nil {
		panic(err)
	}
	return b
}

func (s *Server) do(cmd bson.M, more []bson.M) bson.D {
	s.mu.Lock()
	defer s.mu.Unlock()
	name, _ := cmd["$name"].(string)
	ok := bson.E{Key: "ok", Value: 1.0}
	bad := bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: "out of order"}, {Key: "code", Value: int32(2)}, {Key: "codeName", Value: "BadValue"}}
	ns := func(coll any) string {
		db, _ := cmd["$db"].(string)
		c, _ := coll.(string)
		return db + "." + c
	}
	answer := func(id int64, c *cursor, key string) bson.D {
		c.n++
		if s.failAt > 0 && c.n == s.failAt {
			delete(s.cursors, id)
			return bad
		}
		k := len(c.docs)
		if s.batch > 0 && s.batch < k {
			k = s.batch
		}
		part := append(bson.A{}, c.docs[:k]...)
		c.docs = c.docs[k:]
		if len(c.docs) == 0 {
			delete(s.cursors, id)
			id = 0
		}
		return bson.D{{Key: "cursor", Value: bson.D{{Key: "id", Value: id}, {Key: "ns", Value: c.ns}, {Key: key, Value: part}}}, ok}
	}
	switch name {
	case "find":
		s.finds++
		if s.failFind {
			return bad
		}
		s.next++
		c := &cursor{ns: ns(cmd["find"]), docs: s.docs}
		s.cursors[s.next] = c
		return answer(s.next, c, "firstBatch")
	case "getMore":
		id, _ := cmd["getMore"].(int64)
		c := s.cursors[id]
		if c == nil {
			return bad
		}
		return answer(id, c, "nextBatch")
	case "insert":
		if l, isList := cmd["documents"].(bson.A); isList {
			for _, x := range l {
				if m, isDoc := x.(bson.M); isDoc {
					more = append(more, m)
				}
			}
		}
		s.inserted = append(s.inserted, more...)
		return bson.D{{Key: "n", Value: int32(len(more))}, ok}
	}
	return bson.D{{Key: "helloOk", Value: true}, {Key: "ismaster", Value: true}, {Key: "isWritablePrimary", Value: true}, {Key: "maxBsonObjectSize", Value: int32(16 << 20)},
		{Key: "maxMessageSizeBytes", Value: int32(48000000)}, {Key: "maxWriteBatchSize", Value: int32(100000)}, {Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(13)},
		{Key: "readOnly", Value: false}, ok}
}
