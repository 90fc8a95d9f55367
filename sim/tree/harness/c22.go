package harness

import (
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/ti-mo/comfo/zsim/link"
	"github.com/ti-mo/comfo/zsim/rt"
	simhttp "github.com/ti-mo/comfo/zsim/std/net/http"
)

// settings is one configuration of the program: what the flags, the environment and the defaults say.
type settings struct {
	mode, target, listen string
	args                 []string
	env                  map[string]string
}

var (
	cfgTargets = map[string][]string{
		"tcp":    {unitAddr, "192.0.2.7:4001", "[2001:db8::7]:23", "unit4.example:1", ":5000", "unit6.example:8899"},
		"serial": {unitTTY, "/dev/ttyUSB0", "/dev/ttyUSB1", "/dev/serial/by-id/usb-0", "COM3", "/dev/serial/by-path/pci-0000:00:14.0-usb-0:1:1.0-port0", "ttyS0"},
	}
	cfgListens = []string{apiAddr, "[::]:3094", ":3094", "0.0.0.0:8080", "[::1]:65535", "localhost:80"}
	cfgModes   = []string{"tcp", "serial", "tcp", "serial", "tcp", "serial", "tcp", "serial", "tcp", "serial",
		"udp", "none", "tcp4", "serial2", "file",
		"TCP", "Serial", " tcp", "serial ", "Tcp", "SERIAL", "tcp,serial", "s", "unix"}
)

// drawSettings draws a configuration.
func drawSettings(w *rt.World) *settings {
	c := &settings{mode: "serial", target: "/dev/ttyUSB0", listen: "[::]:3094", env: map[string]string{}}
	mode := cfgModes[w.Choose("conf", len(cfgModes))]
	// every value comes from a flag, the environment, both (the flag decides), or neither
	source := func(key, def, val, other string) string {
		flag := func(v string) {
			if w.Chance("conf", 0.5) {
				c.args = append(c.args, "--"+key+"="+v)
			} else {
				c.args = append(c.args, "--"+key, v)
			}
		}
		env := "COMFO_" + strings.ToUpper(key)
		switch w.Pick("conf", 3, 4, 3, 1, 2) {
		case 0:
			flag(val)
		case 1:
			c.env[env] = val
		case 2:
			flag(val)
			c.env[env] = other
		case 3:
			c.env[env] = "" // the same as not set
			return def
		case 4:
			return def
		}
		return val
	}
	c.mode = source("mode", c.mode, mode, cfgModes[w.Choose("conf", len(cfgModes))])
	t := cfgTargets[c.mode]
	if t == nil || w.Chance("conf", 0.15) {
		// the mode, not the look of the target, decides how the target is opened
		t = cfgTargets[[]string{"tcp", "serial"}[w.Choose("conf", 2)]]
	}
	c.target = source("target", c.target, t[w.Choose("conf", len(t))], cfgTargets["tcp"][w.Choose("conf", 6)])
	c.listen = source("listen", c.listen, cfgListens[w.Choose("conf", len(cfgListens))], cfgListens[w.Choose("conf", len(cfgListens))])
	switch w.Choose("conf", 6) {
	case 0:
		c.args = append(c.args, "--debug")
	case 1:
		c.args = append(c.args, "--debug="+[]string{"true", "false"}[w.Choose("conf", 2)])
	case 2:
		c.env["COMFO_DEBUG"] = []string{"true", "false", "1", "0"}[w.Choose("conf", 4)]
	}
	return c
}

func (c *settings) String() string { return fmt.Sprintf("flags %q, environment %v", c.args, c.env) }

func (c *settings) good() bool { return c.mode == "tcp" || c.mode == "serial" }

// c22 starts the program, possibly more than once, under different configurations.
func c22(r *Run) {
	w := r.W
	cfg := SrvCfg{NoStart: true, Fast: true}
	if w.Chance("cfg", 0.3) {
		cfg.Faults, cfg.FaultP = r.swarm(srvSafe), 0.2
	}
	var c *settings
	var opened []string // what the program connected to
	var listened []string
	apply := func(sw *SrvWorld) {
		c = drawSettings(w)
		opened, listened = nil, nil
		for _, k := range []string{"MODE", "TARGET", "LISTEN", "DEBUG"} {
			if v, ok := c.env["COMFO_"+k]; ok {
				os.Setenv("COMFO_"+k, v)
			} else {
				os.Unsetenv("COMFO_" + k)
			}
		}
		sw.args, sw.api, sw.mode = c.args, c.listen, c.mode
		sw.dialErr, sw.listenErr = nil, nil
		switch {
		case w.Chance("cfg", 0.12):
			sw.Fault("cannot connect")
			sw.dialErr = errors.New("no route to host")
		case w.Chance("cfg", 0.1):
			sw.Fault("cannot listen")
			sw.listenErr = errors.New("address already in use")
		}
		w.Event("conf", "%v", c)
	}
	cfg.Setup = func(sw *SrvWorld) {
		apply(sw)
		link.Net.Dial = func(network, addr string) (*link.Conn, error) {
			opened = append(opened, "tcp "+addr)
			if c.mode != "tcp" || addr != c.target {
				return nil, link.ErrRefused
			}
			return sw.connect()
		}
		link.Net.Open = func(name string, baud int, size, parity, stop byte) (*link.Conn, error) {
			opened = append(opened, "serial "+name)
			if baud != 9600 || size != 8 || parity != 'N' || stop != 1 {
				opened[len(opened)-1] = fmt.Sprintf("serial %s (%d baud, %d%c%d)", name, baud, size, parity, stop)
			}
			if c.mode != "serial" || name != c.target {
				return nil, os.ErrNotExist
			}
			return sw.connect()
		}
		link.Net.Listen = func(network, addr string) error {
			listened = append(listened, addr)
			return sw.listenErr
		}
	}
	judge := func(sw *SrvWorld) bool {
		served := sw.awaitListening(20 * sec)
		r.Judge("start")
		want := c.mode + " " + c.target
		if !c.good() {
			want = "nothing"
		}
		for _, o := range opened {
			if o != want {
				r.Violate("target", "the program connects to %q, its configuration asks for %q (%v)", o, want, c)
				return false
			}
		}
		for _, l := range listened {
			if l != c.listen {
				r.Violate("listen", "the program listens at %q, its configuration asks for %q (%v)", l, c.listen, c)
				return false
			}
		}
		ok := c.good() && sw.dialErr == nil && sw.listenErr == nil
		switch {
		case ok && !served && sw.proc.Dead:
			r.Violate("exit", "the process ends with status %d although nothing prevents its start (%v)", sw.proc.Code, c)
			return false
		case ok && !served:
			r.Violate("unserved", "the server does not listen at %q: %v (%v)", c.listen, w.Blocked(), c)
			return false
		case ok:
			o := &SrvOp{Kind: getKinds[w.Choose("op", len(getKinds))], JSON: w.Chance("op", 0.5)}
			sw.do(o)
			if !o.ok() {
				r.Violate("request", "%v: fails (%v)", o, c)
				return false
			}
			if len(opened) != 1 {
				r.Violate("target", "the program connects to the unit %d times: %v", len(opened), opened)
				return false
			}
			return true
		case served:
			r.Violate("served", "the server listens although it cannot work (%v)", c)
		case !sw.proc.Dead:
			r.Violate("hung", "the server neither exits nor listens: %v (%v)", w.Blocked(), c)
		case len(w.Crashes) > 0:
		case sw.proc.Code == 0:
			r.Violate("status", "the process exits with status 0 although it could not start (%v)", c)
		default:
			return true
		}
		return false
	}
	cfg.After = func(sw *SrvWorld) {
		for n := w.Choose("cfg", 3); ; n-- {
			if !judge(sw) || n == 0 {
				return
			}
			if !sw.proc.Dead {
				sw.Inject("server killed")
				w.KillProc(sw.proc, 137)
			}
			rt.Sleep(w.LogRange("crash", 1, 3*sec))
			sw.inc = len(sw.conns)
			apply(sw)
			sw.start()
		}
	}
	r.Simulate(func() { r.runSrv(cfg) })
	if c != nil {
		r.Sample = c.String()
	}
	_ = simhttp.Serving
}
