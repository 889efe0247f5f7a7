package registry

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/hrygo/gosms/auth"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
)

var dir string

func p28setup() {
	d, err := os.MkdirTemp(".", "accounts")
	if err != nil {
		panic(err)
	}
	if dir, err = filepath.Abs(d); err != nil {
		panic(err)
	}
}

// account i of version v; every field differs between accounts and versions
func account(isp, cid string, i, v int) auth.Client {
	s := func(f string) string { return fmt.Sprintf("%s%dv%d", f, i, v) }
	b := func(k int) byte { return byte(k*20 + i*2 + v) }
	return auth.Client{ISP: isp, ClientId: cid, LoginName: s("ln"), SharedSecret: s("secret"), Version: b(0), NeedReport: b(1), SmsDisplayNo: s("955"),
		ServiceId: s("svc"), DefaultMsgLevel: b(2), FeeUserType: b(3), FeeTerminalType: b(4), FeeTerminalId: s("ft"), FeeType: s("fy"), FeeCode: s("fc"),
		FixedFee: s("ff"), LinkId: s("li"), MtValidDuration: time.Duration(i*10+v) * time.Hour, MaxConns: 100 + i*10 + v, MtWindowSize: 200 + i*10 + v, Throughput: 300 + i*10 + v}
}

func yamlOf(c auth.Client) string {
	return fmt.Sprintf("client-id: %q\nlogin-name: %q\nshared-secret: %q\nversion: %d\nneed-report: %d\nsms-display-no: %q\nservice-id: %q\ndefault-msg-level: %d\n"+
		"fee-user-type: %d\nfee-terminal-type: %d\nfee-terminal-id: %q\nfee-type: %q\nfee-code: %q\nfixed-fee: %q\nlink-id: %q\nmt-valid-duration: %s\nmax-conns: %d\nmt-window-size: %d\nthroughput: %d\n",
		c.ClientId, c.LoginName, c.SharedSecret, c.Version, c.NeedReport, c.SmsDisplayNo, c.ServiceId, c.DefaultMsgLevel, c.FeeUserType, c.FeeTerminalType,
		c.FeeTerminalId, c.FeeType, c.FeeCode, c.FixedFee, c.LinkId, c.MtValidDuration, c.MaxConns, c.MtWindowSize, c.Throughput)
}

type file struct {
	name, isp, cid string // isp "" when it is no account file
	i              int
}

var files = []file{
	{"cmpp_100.yaml", "cmpp", "100", 0},
	{"CMPP_101.yaml", "cmpp", "101", 1},
	{"sgip_100.yml", "sgip", "100", 2},
	{"smgp_AbC.yaml", "smgp", "AbC", 3},
	{"cmpp_1001.yaml", "cmpp", "1001", 4},
	{"abc.yaml", "", "abc", 5},
	{"cmpp_400.yaml.bak", "", "400", 6},
	{"cmpp_500.txt", "", "500", 7},
	{"cmpp_401.yml.bak", "", "401", 6},
	{"cmpp_402.yml~", "", "402", 6},
	{"cmpp_600.yaml", "", "600", 8}, // a directory
	{"smgp_bad.yaml", "", "bad", 9}, // no account in it
}

func write(f file, v int) {
	p := filepath.Join(dir, "store", f.name)
	switch {
	case f.cid == "600":
		_ = os.MkdirAll(p, 0o755)
		return
	case f.cid == "bad":
		_ = os.WriteFile(p, []byte("client-id: [x\n  max-conns"), 0o644)
		return
	}
	isp := f.isp
	if isp == "" {
		isp = "cmpp"
	}
	_ = os.WriteFile(p, []byte(yamlOf(account(isp, f.cid, f.i, v))), 0o644)
}

func fresh() {
	if strings.Contains(dir, "accounts") {
		_ = os.RemoveAll(filepath.Join(dir, "store"))
	}
	_ = os.MkdirAll(filepath.Join(dir, "store"), 0o755)
}

func config() *fake.Config {
	return fake.NewConfig(dir+"/", map[string]any{"AuthClient.StoreType": "yaml", "AuthClient.ReloadTicker": "3m", "AuthClient.YamlFilePath": "store"})
}

// lookups asks the store for everything and compares; version tells the expected version of each file, 0 for none.
func lookups(e *rt.Exec, s auth.Store, version map[string]int, ctx string) {
	for _, isp := range []string{"cmpp", "CMPP", "Cmpp", "sgip", "SGIP", "smgp", "SMGP", "abcd", ""} {
		for _, cid := range []string{"100", "101", "1001", "10", "AbC", "400", "500", "600", "bad", "", "_100", "Ab", "cmpp_100", "0100", "00100", "100 ", " 100", "100.yaml", "401", "402", "401.yml"} {
			got := s.FindByCid(isp, cid)
			var want *auth.Client
			for _, f := range files {
				if f.isp != "" && f.isp == strings.ToLower(isp) && f.cid == cid && version[f.name] > 0 {
					w := account(f.isp, f.cid, f.i, version[f.name])
					want = &w
				}
			}
			switch {
			case want == nil && got != nil:
				e.Fail("%s: %s %s is found: %+v", ctx, isp, cid, *got)
			case want != nil && got == nil:
				e.Fail("%s: %s %s is not found", ctx, isp, cid)
			case want != nil && *got != *want:
				e.Fail("%s: %s %s is %+v instead of %+v", ctx, isp, cid, *got, *want)
			}
			if e.Failed() {
				return
			}
		}
	}
}

// look reads an account field by field while others run and says which version it is.
func look(e *rt.Exec, s auth.Store, f file) (ver int, c *auth.Client) {
	c = s.FindByCid(strings.ToUpper(f.isp), f.cid)
	if c == nil {
		return 0, nil
	}
	var d auth.Client
	e.Point("read")
	d.ISP, d.ClientId, d.LoginName, d.SharedSecret, d.Version, d.NeedReport, d.SmsDisplayNo = c.ISP, c.ClientId, c.LoginName, c.SharedSecret, c.Version, c.NeedReport, c.SmsDisplayNo
	e.Point("read")
	d.ServiceId, d.DefaultMsgLevel, d.FeeUserType, d.FeeTerminalType, d.FeeTerminalId, d.FeeType, d.FeeCode = c.ServiceId, c.DefaultMsgLevel, c.FeeUserType, c.FeeTerminalType, c.FeeTerminalId, c.FeeType, c.FeeCode
	e.Point("read")
	d.FixedFee, d.LinkId, d.MtValidDuration, d.MaxConns, d.MtWindowSize, d.Throughput = c.FixedFee, c.LinkId, c.MtValidDuration, c.MaxConns, c.MtWindowSize, c.Throughput
	for v := 1; v <= 3; v++ {
		if d == account(f.isp, f.cid, f.i, v) {
			return v, c
		}
	}
	e.Fail("%s %s is a mixture or incomplete: %+v", f.isp, f.cid, d)
	return -1, c
}

func p28(r *lib.R) (out []sched.Scenario) {
	// every subset of the files, then a reload with some of them rewritten, added or unchanged
	out = append(out, sched.Scenario{Name: "subsets of files", Wide: true, Body: func(e *rt.Exec) {
		fresh()
		ver := map[string]int{}
		for _, f := range files {
			if e.ChooseFree(2) == 1 {
				ver[f.name] = 1
				write(f, 1)
			}
		}
		cfg := config()
		if e.ChooseFree(2) == 1 {
			cfg.Set("AuthClient.StoreType", []string{"", "yml"}[ver[files[0].name]])
			cfg.Set("AuthClient.YamlFilePath", "store/")
		}
		s := auth.New(cfg)
		lookups(e, s, ver, "after loading")
		// the reload touches the first three files
		for _, f := range files[:3] {
			if ver[f.name] == 0 || f.i == 1 {
				ver[f.name] = 2
				write(f, 2)
			}
		}
		s.Load()
		lookups(e, s, ver, "after reloading")
		e.Note("%d files", len(ver))
	}})
	for _, c := range []struct {
		name            string
		loads, finds, n int
	}{{"a reload and a lookup", 1, 1, 3}, {"a reload and two lookups", 1, 2, 2}, {"two reloads and a lookup", 2, 1, 2}} {
		c := c
		out = append(out, sched.Scenario{Name: c.name, Body: func(e *rt.Exec) {
			fresh()
			write(files[0], 1)
			write(files[2], 1)
			s := auth.New(config())
			e.Idle()
			v0, old := look(e, s, files[0])
			if v0 != 1 {
				e.Fail("version %d after loading", v0)
				return
			}
			before := *old
			write(files[0], 2)
			write(files[1], 2)
			left := c.loads + c.finds
			loaded := 0
			for i := 0; i < c.loads; i++ {
				e.Go(fmt.Sprintf("reload %d", i), func() { s.Load(); loaded++; left-- })
			}
			for i := 0; i < c.finds; i++ {
				i := i
				e.Go(fmt.Sprintf("lookup %d", i), func() {
					last := 1
					for k := 0; k < c.n; k++ {
						done := loaded
						v, _ := look(e, s, files[0])
						if v < last || (done > 0 && v != 2) || v > 2 {
							e.Fail("version %d after version %d, reloads finished: %d", v, last, done)
						}
						last = v
						if v, _ := look(e, s, files[2]); v != 1 {
							e.Fail("an account that did not change has version %d", v)
						}
						w, _ := look(e, s, files[1])
						if w != 0 && w != 2 || done > 0 && w != 2 {
							e.Fail("the new account has version %d, reloads finished: %d", w, done)
						}
						e.Note("%d:%d%d", i, v, w)
					}
					left--
				})
			}
			e.Until("threads", func() bool { return left == 0 })
			e.Idle()
			if *old != before {
				e.Fail("a copy held by a caller changed from %+v to %+v", before, *old)
			}
			lookups(e, s, map[string]int{files[0].name: 2, files[1].name: 2, files[2].name: 1}, "at the end")
		}})
	}
	// file names of every kind
	ids := []string{"m", "l", "y", "a", "ml", "yml", "yaml", "lily", "aml", "mmmm", "family", "1.2", "a.yml", "b.yaml", ".", "..", "_", "__", "1_2", "cmpp", "cmpp_1", "sgip_1",
		"900001", "000000", "0", "-1", " 1", "1 ", "测试", "a b", "%s", "*", "?", "[1]", "1~", "1#", "+1", strings.Repeat("9", 100)}
	out = append(out, sched.Scenario{Name: "names of files", Wide: true, Body: func(e *rt.Exec) {
		a, b := e.ChooseFree(len(ids)), e.ChooseFree(len(ids))
		isps := []string{"cmpp", "sgip", "smgp"}
		suffix := []string{".yaml", ".yml"}
		fs := []file{{isps[a%3] + "_" + ids[a] + suffix[a%2], isps[a%3], ids[a], 1}, {isps[(a+b)%3] + "_" + ids[b] + suffix[(a+b)%2], isps[(a+b)%3], ids[b], 2}}
		if fs[0].isp == fs[1].isp && fs[0].cid == fs[1].cid {
			fs = fs[:1]
		}
		fresh()
		for _, f := range fs {
			write(f, 1)
		}
		s := auth.New(config())
		for _, isp := range []string{"cmpp", "SGIP", "sMGP"} {
			for _, f := range fs {
				for _, cid := range []string{f.cid, f.cid + ".yaml", f.cid + ".yml", f.cid + "m", "0" + f.cid, f.cid + " ", f.cid[:len(f.cid)-1], f.cid[1:], ""} {
					got := s.FindByCid(isp, cid)
					var want *auth.Client
					for _, f := range fs {
						if f.isp == strings.ToLower(isp) && f.cid == cid {
							c := account(f.isp, f.cid, f.i, 1)
							want = &c
						}
					}
					if (got == nil) != (want == nil) || got != nil && *got != *want {
						e.Fail("files %q: %s %q gives %+v", fs, isp, cid, got)
						return
					}
				}
			}
		}
		e.Note("%d", len(fs))
	}})
	// files that leave fields out
	out = append(out, sched.Scenario{Name: "fields left out", Wide: true, Body: func(e *rt.Exec) {
		f := files[0]
		lines := strings.SplitAfter(strings.TrimSuffix(yamlOf(account(f.isp, f.cid, f.i, 2)), "\n"), "\n")
		zero := func(c *auth.Client, i int) {
			for k, p := range []any{&c.ClientId, &c.LoginName, &c.SharedSecret, &c.Version, &c.NeedReport, &c.SmsDisplayNo, &c.ServiceId, &c.DefaultMsgLevel, &c.FeeUserType,
				&c.FeeTerminalType, &c.FeeTerminalId, &c.FeeType, &c.FeeCode, &c.FixedFee, &c.LinkId, &c.MtValidDuration, &c.MaxConns, &c.MtWindowSize, &c.Throughput} {
				if k == i {
					switch p := p.(type) {
					case *string:
						*p = ""
					case *byte:
						*p = 0
					case *int:
						*p = 0
					case *time.Duration:
						*p = 0
					}
				}
			}
		}
		var out []bool // by line
		switch at := e.ChooseFree(2 + 2*len(lines)); {
		case at == 0: // all are there
			out = make([]bool, len(lines))
		case at == 1: // none but the first
			out = make([]bool, len(lines))
			for i := range out {
				out[i] = i > 0
			}
		case at < 2+len(lines): // one is missing
			out = make([]bool, len(lines))
			out[at-2] = true
		default: // the first half or the second, or one of three
			out = make([]bool, len(lines))
			for i := range out {
				out[i] = (i+at)%(1+(at-2-len(lines))%5+1) == 0
			}
		}
		order := e.ChooseFree(3) // of the lines: as usual, reversed, with comments and unknown fields between
		first := e.ChooseFree(2) == 1
		fresh()
		want := account(f.isp, f.cid, f.i, 2)
		var text []string
		for i, l := range lines {
			if out[i] {
				zero(&want, i)
				continue
			}
			l = strings.TrimSuffix(l, "\n") + "\n"
			switch order {
			case 0:
				text = append(text, l)
			case 1:
				text = append([]string{l}, text...)
			default:
				text = append(text, l, fmt.Sprintf("# max-conns: 999\nunknown-%d: 7\n\n", i))
			}
		}
		p := filepath.Join(dir, "store", f.name)
		var s auth.Store
		if first {
			_ = os.WriteFile(p, []byte(strings.Join(text, "")), 0o644)
			s = auth.New(config())
		} else {
			write(f, 1)
			s = auth.New(config())
			_ = os.WriteFile(p, []byte(strings.Join(text, "")), 0o644)
			s.Load()
		}
		got := s.FindByCid(f.isp, f.cid)
		if len(text) > 0 && (got == nil || *got != want) {
			e.Fail("a file with %q gives %+v instead of %+v", strings.Join(text, ""), got, want)
		}
		e.Note("%d", len(text))
	}})
	for _, tick := range []string{"", "3m", "20s"} {
		tick := tick
		out = append(out, sched.Scenario{Name: "reload by the clock, every " + tick, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
			fresh()
			write(files[0], 1)
			cfg := config()
			if tick == "" {
				cfg.Set("AuthClient.ReloadTicker", nil)
			} else {
				cfg.Set("AuthClient.ReloadTicker", tick)
			}
			d, err := time.ParseDuration(tick)
			if err != nil {
				d = 5 * time.Minute
			}
			s := auth.New(cfg)
			for v := 2; v <= 3; v++ {
				write(files[0], v)
				e.Pass(d - time.Second)
				if got, _ := look(e, s, files[0]); got != v-1 && got != v {
					e.Fail("version %d", got)
				}
				e.Pass(2 * time.Second)
				if got, _ := look(e, s, files[0]); got != v {
					e.Fail("version %d instead of %d after the reload time", got, v)
				}
				e.Pass(d - time.Second - 1*time.Second)
			}
			e.Note("ok")
		}})
	}
	return
}
