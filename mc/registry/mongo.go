package registry

import (
	"fmt"
	"os"
	"strings"

	"go.mongodb.org/mongo-driver/bson"

	"github.com/hrygo/gosms/auth"

	"verif/mc/fake"
	"verif/mc/fake/mongo"
	"verif/mc/lib"
)

// accounts in a database: every set of accounts, letter case, size of the batches and trouble in a reload, with the real driver
// against a stand-in for the server.
func p28mongo(r *lib.R) {
	srv, err := mongo.Start()
	if err != nil {
		r.Cap("no loopback network for the database: " + err.Error())
		return
	}
	os.Setenv("MONGO_USER", "u")
	os.Setenv("MONGO_PASSWD", "p")
	cfg := fake.NewConfig("", map[string]any{"AuthClient.StoreType": "mongo", "AuthClient.ReloadTicker": "3h", "Mongo.URI": srv.URI(),
		"Mongo.ConnectTimeout": "60s", "Mongo.ReadTimeout": "60s", "Mongo.WriteTimeout": "60s", "Mongo.HeartbeatInterval": "60s", "Mongo.MinPoolSize": 1, "Mongo.MaxPoolSize": 4})
	all := []file{{"", "cmpp", "100", 0}, {"", "sgip", "100", 1}, {"", "smgp", "AbC", 2}, {"", "cmpp", "1001", 3}}
	forms := []func(string) string{strings.ToLower, strings.ToUpper, strings.Title}
	doc := func(f file, form, v int) any {
		c := account(f.isp, f.cid, f.i, v)
		c.ISP = forms[form](c.ISP)
		return c
	}
	spoil := func(d any) any {
		var m bson.M
		b, err := bson.Marshal(d)
		if err == nil {
			err = bson.Unmarshal(b, &m)
		}
		if err != nil {
			panic(err)
		}
		m["version"] = "abc"
		return m
	}
	srv.Set(nil, 0, false, 0)
	first := auth.New(cfg) // connects
	started := false
	for set := 0; set < 1<<len(all); set++ {
		for form := range forms {
			for batch := 0; batch < 3; batch++ {
				// trouble of the reload: none, no answer, a batch that fails, a document that cannot be read
				for trouble := 0; trouble < 4+len(all); trouble++ {
					if r.Violated() || r.OverBudget() {
						return
					}
					if trouble >= 4 && set>>(trouble-4)&1 == 0 {
						continue
					}
					ctx := fmt.Sprintf("database: accounts %04b in form %d, batches of %d, trouble %d", set, form, batch, trouble)
					r.Case(ctx)
					st := auth.Store(&auth.MongoStore{Config: cfg, Cache: map[string]*auth.Client{}})
					if !started {
						st, started = first, true
					}
					fail := func(format string, a ...any) { r.Fail(ctx, map[string]any{"what": ctx + ": " + fmt.Sprintf(format, a...)}) }
					var docs [2][]any
					for v := range docs {
						for i, f := range all {
							if set>>i&1 == 1 {
								docs[v] = append(docs[v], doc(f, form, v+1))
								if v == 1 && trouble == 4+i {
									docs[v][len(docs[v])-1] = spoil(docs[v][len(docs[v])-1])
								}
							}
						}
					}
					see := func(ok func(i, v int) bool) map[int]*auth.Client {
						out := map[int]*auth.Client{}
						for _, isp := range []string{"cmpp", "CMPP", "Cmpp", "sgip", "SGIP", "smgp", "SMGP", "abcd", ""} {
							for _, cid := range []string{"100", "101", "1001", "10", "AbC", "", "_100", "cmpp_100", "0100", "100 "} {
								got := st.FindByCid(isp, cid)
								at := -1
								for i, f := range all {
									if set>>i&1 == 1 && f.isp == strings.ToLower(isp) && f.cid == cid {
										at = i
									}
								}
								ver := 0
								if got != nil {
									ver = -1
									for v := 1; at >= 0 && v < 3; v++ {
										c := *got
										c.ISP = strings.ToLower(c.ISP)
										if c == account(all[at].isp, cid, all[at].i, v) {
											ver = v
										}
									}
								}
								if at < 0 && got != nil || at >= 0 && !ok(at, ver) {
									fail("%q %q gives %+v", isp, cid, got)
								}
								if at >= 0 {
									out[at] = got
								}
							}
						}
						return out
					}
					srv.Set(docs[0], batch, false, 0)
					st.Load()
					old := see(func(i, v int) bool { return v == 1 })
					at := 0
					if trouble == 2 || trouble == 3 {
						at = trouble - 1
					}
					srv.Set(docs[1], batch, trouble == 1, at)
					st.Load()
					see(func(i, v int) bool {
						switch {
						case trouble == 0 || trouble >= 4 && i != trouble-4:
							return v == 2
						case trouble == 1:
							return v == 1
						case trouble >= 4:
							return v == 1 || v == 0
						}
						return v == 1 || v == 2
					})
					for i, c := range old {
						if c == nil {
							continue
						}
						d := *c
						d.ISP = strings.ToLower(d.ISP)
						if d != account(all[i].isp, all[i].cid, all[i].i, 1) {
							fail("an account that was looked up before the reload has changed")
						}
					}
					r.AddStates(2)
					r.AddTransitions(2 * 90)
					r.Outcome(fmt.Sprintf("database: %d accounts, trouble %d", len(old), trouble))
				}
			}
		}
	}
}
