package harness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"net/http"
	"os"
	"strings"
	"syscall"

	"github.com/spf13/pflag"
	"github.com/spf13/viper"
	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"github.com/ti-mo/comfo/zsim/link"
	"github.com/ti-mo/comfo/zsim/rt"
	simhttp "github.com/ti-mo/comfo/zsim/std/net/http"
	"github.com/ti-mo/comfo/zsim/std/os/signal"
	"github.com/twitchtv/twirp"
)

// The server world: the whole program (main, caches, API, library) runs as a simulated process with one unit; clients
// use the generated API clients.

const (
	apiAddr  = "127.0.0.1:3094"
	unitAddr = "unit.example:23"
	unitTTY  = "/dev/ttyUSB0"
	rpcPath  = "/twirp/comfo.api.Comfo/"
)

// SrvOp is one API request and its outcome.
type SrvOp struct {
	Client  int
	Kind    string
	A, B    uint32
	Rel     bool
	JSON    bool
	GiveUp  int64
	Upload  *simhttp.Upload // how the body is sent, nil: at once
	Chunked bool            // the body comes without its length
	Inc     int             // incarnation of the server

	// raw requests
	Method, CT, Path string
	Body             []byte

	InvSeq, RetSeq uint64
	InvT, RetT     int64
	Done           bool
	Status         int
	Dropped        string // no response: why
	Gone           bool   // the client gave up
	Refused        bool   // nobody listens
	Code           string // API error code
	Msg            string
	Vec            []int64
	Str            string
	Success        bool
	Modified       bool
	Orig, Target   uint32
	Lone           bool // no other request was being handled at any time
	Clean          bool // no fault of the line in between, and nothing left over from earlier ones
	Settled        bool // nothing was left over from earlier faults when it was called
	Phase          int
}

func (o *SrvOp) ok() bool { return o.Done && o.Status == 200 && o.Code == "" && o.Dropped == "" }

func (o *SrvOp) String() string {
	a := o.Kind
	switch o.Kind {
	case "SetFanSpeed":
		a = fmt.Sprintf("SetFanSpeed(abs=%d rel=%v)", o.A, o.Rel)
	case "SetFanProfile":
		a = fmt.Sprintf("SetFanProfile(mode=%d speed=%d)", o.A, o.B)
	case "SetComfortTemp":
		a = fmt.Sprintf("SetComfortTemp(%d)", o.A)
	case "FlushCache":
		a = fmt.Sprintf("FlushCache(%d)", int32(o.A))
	case "raw":
		a = fmt.Sprintf("raw %s %s %q %q", o.Method, o.Path, o.CT, o.Body)
	}
	if u := o.Upload; u != nil {
		a += fmt.Sprintf(" sent over %.3fs", float64(u.Dur)/1e9)
		if u.Break {
			a += fmt.Sprintf(" up to byte %d", u.Cut)
		}
	}
	st := "pending"
	if o.Done {
		st = fmt.Sprintf("at %.3fs:", float64(o.RetT)/1e9)
		switch {
		case o.Refused:
			st += " connection refused"
		case o.Gone:
			st += " client gave up"
		case o.Dropped != "":
			st += " connection dropped: " + o.Dropped
		case o.Code != "" || o.Status != 200:
			st += fmt.Sprintf(" %d %s %s", o.Status, o.Code, o.Msg)
		case strings.HasPrefix(o.Kind, "Get"):
			st += fmt.Sprintf(" %v %q", o.Vec, o.Str)
		case o.Kind == "FlushCache":
			st += fmt.Sprintf(" success=%v", o.Success)
		default:
			st += fmt.Sprintf(" modified=%v original=%d target=%d", o.Modified, o.Orig, o.Target)
		}
	}
	return fmt.Sprintf("client%d #%d %s called at %.3fs, returned #%d %s", o.Client, o.InvSeq, a, float64(o.InvT)/1e9, o.RetSeq, st)
}

// SrvCfg configures a server run.
type SrvCfg struct {
	Clients  int
	Ops      int
	Mix      map[string]float64
	Think    int64
	ThinkP   float64
	Faults   []string
	FaultP   float64
	Outages  int     // number of windows in which the unit does not answer
	OutMax   int64   // longest outage
	Panel    int     // number of changes at the unit's own panel
	PanelMid int     // number of such changes right after an answer of the unit
	Ramp     bool    // fans take time to reach their speed
	SlowRmp  bool    // fans may take too long
	Fast     bool    // the unit answers quickly
	Flush    []int32 // if set, only these kinds are flushed
	GiveUp   float64
	Upload   float64 // how often a request body arrives slowly or is cut off
	Crashes  int
	Stalls   bool
	Jumps    int   // jumps of the wall clock
	Linger   int64 // idle time at the end
	Heal     bool
	Raw      bool
	SetLo    bool // small value domains, so that requests collide
	DeadAt   int64
	NoStart  bool
	Twin     int  // the encoding of all requests in a run that is compared with another one (1 Protobuf, 2 JSON)
	Late     bool // faults may leave acknowledgements behind that arrive during a later exchange
	Setup    func(sw *SrvWorld)
	Mute     string // kind of query that the unit does not answer before MuteTo
	// Pester repeats one request at even intervals, in the midst of reads.
	Pester bool
	MuteTo int64
	After  func(sw *SrvWorld)
}

type window struct{ a, b int64 }

// PanelEv is a change at the unit's own panel.
type PanelEv struct {
	Seq       uint64
	T         int64
	Pre, Post State
}

// SrvWorld is a finished server run.
type SrvWorld struct {
	*Run
	cfg   SrvCfg
	unit  *Unit
	conns []*link.Conn // one per incarnation
	proc  *rt.Proc
	procs []*rt.Proc
	cl    *rt.Proc
	lw    *LibWorld // carries the line faults
	ops   []*SrvOp
	panel []PanelEv

	running int // clients still at work
	outs    []window
	mode    string
	api     string   // where the server should listen
	args    []string // its command line
	init    State

	setters   int // set requests in flight
	active    int // requests in flight, including abandoned ones
	loneOp    *SrvOp
	inc       int
	quiet     bool
	downSince int64
	starts    []startInfo
	change    rt.WaitQ
	listenErr error
	dialErr   error
	noDial    bool
	lastBusy  int64
}

type startInfo struct {
	BeginT, ListenT     int64
	BeginSeq, ListenSeq uint64
	Listened            bool
	KillSeq             uint64
	ReadsBefore         map[byte]int
}

func (sw *SrvWorld) connect() (*link.Conn, error) {
	if sw.dialErr != nil {
		return nil, sw.dialErr
	}
	if len(sw.conns) > 0 && sw.mode == "serial" && !sw.conns[len(sw.conns)-1].Closed() {
		return nil, errors.New("device or resource busy")
	}
	name := unitAddr
	if sw.mode == "serial" {
		name = unitTTY
	}
	c := &link.Conn{W: sw.W, Name: name}
	w := sw.W
	switch w.Pick("init", 3, 1, 1) {
	case 1:
		c.ReadLimit = func(n int) int { return 1 }
	case 2:
		c.ReadLimit = func(n int) int { return 1 + w.Choose("rlimit", n) }
	}
	for _, f := range sw.cfg.Faults {
		if f == "flood" {
			c.ReadLimit = nil // rescanning a flood byte by byte takes too many steps
		}
	}
	sw.unit.Attach(c)
	sw.conns = append(sw.conns, c)
	sw.lw.conns = []*link.Conn{c}
	if len(sw.cfg.Faults) > 0 {
		sw.lw.armLine(0, sw.unit, c)
	}
	return c, nil
}

// start runs the program's main function in a new process.
func (sw *SrvWorld) start() {
	w := sw.W
	simhttp.ZsimReset()
	link.Net.Listening = map[string]any{}
	pflag.CommandLine = pflag.NewFlagSet("comfo", pflag.PanicOnError)
	viper.Reset()
	os.Args = append([]string{"comfo"}, sw.args...)
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	resetProgram()
	p := w.NewProc(fmt.Sprintf("comfo%d", sw.inc))
	p.Stalls = true
	sw.proc = p
	sw.procs = append(sw.procs, p)
	sw.starts = append(sw.starts, startInfo{BeginT: w.Now(), BeginSeq: w.Seq(), ReadsBefore: map[byte]int{}})
	c0 := len(sw.conns)
	p.OnExit = func(int) {
		for _, c := range sw.conns[c0:] {
			c.Abandon()
		}
		sw.change.WakeAll(w)
	}
	w.Spawn(p, "main", func() {
		programMain()
		w.Event("exit", "main returned")
		rt.Exit(0)
	})
}

func (sw *SrvWorld) setup() {
	w := sw.W
	link.Reset()
	sw.mode = []string{"tcp", "serial"}[w.Choose("init", 2)]
	target := unitAddr
	if sw.mode == "serial" {
		target = unitTTY
	}
	os.Setenv("COMFO_MODE", sw.mode)
	os.Setenv("COMFO_TARGET", target)
	sw.api, sw.args = apiAddr, nil
	os.Setenv("COMFO_LISTEN", apiAddr)
	os.Setenv("COMFO_DEBUG", []string{"false", "true"}[w.Pick("init", 9, 1)])
	u := NewUnit(w, "unit")
	sw.unit = u
	for k := range u.In {
		if sw.cfg.SetLo {
			u.In[k], u.Out[k] = byte(15+w.Choose("init", 5)), byte(15+w.Choose("init", 5))
		} else {
			u.In[k], u.Out[k] = byte(15+w.Choose("init", 86)), byte(15+w.Choose("init", 86))
		}
	}
	u.Mode = byte(1 + w.Choose("init", 4))
	u.Comfort = byte(2 * (20 + 12 + w.Choose("init", 17)))
	if sw.cfg.SetLo {
		u.Comfort = byte(2 * (20 + 18 + w.Choose("init", 3)))
	}
	if sw.cfg.Ramp && w.Chance("init", 0.7) {
		u.RampPerSec = 30 + w.Choose("init", 60)
		if sw.cfg.SlowRmp && w.Chance("init", 0.4) {
			u.RampPerSec = 1 + w.Choose("init", 12)
		}
	}
	u.FanIn, u.FanOut = u.target()
	u.rampAt = w.Now()
	sw.init = u.State
	lat := int64(1 * ms)
	if !sw.cfg.Fast && w.Chance("init", 0.5) {
		lat = w.LogRange("init", 0, 90*ms)
	}
	u.inLat = func(n int) int64 { return lat }
	sw.lw = &LibWorld{Run: sw.Run, cfg: LibCfg{Faults: sw.cfg.Faults, FaultP: sw.cfg.FaultP, Ops: 20}, units: []*Unit{u}, dead: []bool{false}, readErr: []bool{false}}
	slow := !sw.cfg.Fast && w.Chance("init", 0.5)
	u.Plan = func(u *Unit, cmd byte, data []byte, msg []byte) {
		if len(sw.cfg.Faults) > 0 && !sw.quiet && w.Chance("fault?", sw.cfg.FaultP) {
			sw.lw.faultyPlan(0, u, cmd, msg)
			return
		}
		if slow {
			healthyPlan(u, msg, 880*ms)
			return
		}
		d := 5 * ms
		if w.Chance("pace", 0.3) {
			d = w.LogRange("pace", 0, 120*ms)
		}
		u.Send(msg, d)
	}
	link.Net.Dial = func(network, addr string) (*link.Conn, error) {
		if addr != unitAddr {
			return nil, link.ErrRefused
		}
		return sw.connect()
	}
	link.Net.Open = func(name string, baud int, size, parity, stop byte) (*link.Conn, error) {
		if name != unitTTY {
			return nil, os.ErrNotExist
		}
		c, err := sw.connect()
		if err == nil && (baud != 9600 || size != 8 || parity != 'N' || stop != 1) {
			sw.unit.gen++ // nothing intelligible gets through
			sw.Fault("wrong serial settings")
		}
		return c, err
	}
	link.Net.Listen = func(network, addr string) error { return sw.listenErr }
	sw.cl = w.NewProc("clients")
	if sw.cfg.Setup != nil {
		sw.cfg.Setup(sw)
	}
}

// awaitListening waits until the server listens or its process ended.
func (sw *SrvWorld) awaitListening(lim int64) bool {
	w := sw.W
	end := sw.deadline(lim)
	for !simhttp.Serving(sw.api) && !sw.proc.Dead && w.Now() < end.end() {
		simhttp.Listeners.WaitUntil(w, "server to listen", min64(end.end(), w.Now()+100*ms))
	}
	s := &sw.starts[len(sw.starts)-1]
	if simhttp.Serving(sw.api) {
		s.Listened, s.ListenT, s.ListenSeq = true, w.Now(), w.Seq()
		return true
	}
	return false
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// simClient is the HTTP transport of the API clients.
type simClient struct {
	sw *SrvWorld
	o  *SrvOp
}

func (c simClient) Do(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
	}
	out := c.sw.exchange(c.o, req.Method, req.URL.String(), req.Header, body)
	if out.Err != nil {
		return nil, out.Err
	}
	return out.Resp, nil
}

func (sw *SrvWorld) exchange(o *SrvOp, method, url string, hdr http.Header, body []byte) *simhttp.Outcome {
	if u := o.Upload; u != nil {
		if len(body) == 0 {
			o.Upload = nil
		} else if u.Break {
			u.Cut %= len(body)
			sw.Inject("request cut off")
		} else {
			sw.Inject("slow request body")
		}
	}
	if o.Chunked {
		hdr = hdr.Clone()
		hdr.Set("Transfer-Encoding", "chunked")
	}
	out := simhttp.Do(sw.api, method, url, hdr, body, o.GiveUp, o.Upload)
	switch {
	case out.Resp != nil:
		o.Status = out.Resp.StatusCode
	case out.Err == simhttp.ErrConnRefused:
		o.Refused = true
	case out.Err == simhttp.ErrClientGone:
		o.Gone = true
	default:
		o.Dropped = out.Reason
		if o.Dropped == "" {
			o.Dropped = out.Err.Error()
		}
	}
	return out
}

func isSet(kind string) bool { return strings.HasPrefix(kind, "Set") }
func isGet(kind string) bool { return strings.HasPrefix(kind, "Get") }

// do performs one request.
func (sw *SrvWorld) do(o *SrvOp) {
	w := sw.W
	o.Inc = sw.inc
	if sw.quiet {
		o.Phase = 1
	}
	o.InvSeq, o.InvT = w.Event("call", "client%d %s a=%d b=%d rel=%v", o.Client, o.Kind, int32(o.A), o.B, o.Rel), w.Now()
	sw.ops = append(sw.ops, o)
	nf := len(sw.FaultSeqs)
	o.Settled = sw.settled()
	sw.active++
	o.Lone = sw.active == 1 && simhttp.Active(sw.api) == 0
	if o.Lone {
		sw.loneOp = o
	} else if sw.loneOp != nil {
		sw.loneOp.Lone = false
	}
	if isSet(o.Kind) {
		sw.setters++
	}
	defer func() {
		if w.Reaping() {
			return
		}
		sw.active--
		if sw.loneOp == o {
			sw.loneOp = nil
		}
		if isSet(o.Kind) {
			sw.setters--
		}
		o.Done = true
		o.Clean = o.Upload == nil && o.Settled && nf == len(sw.FaultSeqs) && !sw.outage(o.InvT, w.Now())
		o.RetSeq, o.RetT = w.Event("return", "%s", o.String()), w.Now()
		sw.Ops++
	}()
	if o.Kind == "raw" {
		h := http.Header{}
		if o.CT != "" {
			h.Set("Content-Type", o.CT)
		}
		out := sw.exchange(o, o.Method, "http://"+apiAddr+o.Path, h, o.Body)
		if out.Resp != nil {
			b, _ := io.ReadAll(out.Resp.Body)
			o.Msg = string(b)
			if o.Status != 200 {
				o.Code = "http"
			}
		}
		return
	}
	if sw.cfg.Twin != 0 {
		sw.twin(o)
		return
	}
	var c rpc.Comfo
	if o.JSON {
		c = rpc.NewComfoJSONClient("http://"+apiAddr, simClient{sw, o})
	} else {
		c = rpc.NewComfoProtobufClient("http://"+apiAddr, simClient{sw, o})
	}
	ctx := context.Background()
	var err error
	u := func(x uint32) int64 { return int64(x) }
	switch o.Kind {
	case "GetTemps":
		var v *rpc.Temps
		if v, err = c.GetTemps(ctx, &rpc.Noop{}); err == nil {
			f := func(x float32) int64 { return int64(x) }
			o.Vec = []int64{f(v.Comfort), f(v.OutsideAir), f(v.SupplyAir), f(v.InsideAir), f(v.ExhaustAir), f(v.GeoHeat), f(v.Reheating), f(v.KitchenHood)}
		}
	case "GetFans":
		var v *rpc.Fans
		if v, err = c.GetFans(ctx, &rpc.Noop{}); err == nil {
			o.Vec = []int64{u(v.InPercent), u(v.OutPercent), u(v.InSpeed), u(v.OutSpeed)}
		}
	case "GetFanProfiles":
		var v *rpc.FanProfiles
		if v, err = c.GetFanProfiles(ctx, &rpc.Noop{}); err == nil {
			o.Vec = []int64{u(v.OutAway), u(v.OutLow), u(v.OutMid), u(v.OutHigh), u(v.InAway), u(v.InLow), u(v.InMid), u(v.InHigh), b2i(v.InFanActive), u(v.CurrentOut), u(v.CurrentIn), u(v.CurrentMode)}
		}
	case "GetBypass":
		var v *rpc.Bypass
		if v, err = c.GetBypass(ctx, &rpc.Noop{}); err == nil {
			o.Vec = []int64{u(v.Factor), u(v.Level), u(v.Correction), b2i(v.SummerMode)}
		}
	case "GetBootInfo":
		var v *rpc.BootInfo
		if v, err = c.GetBootInfo(ctx, &rpc.Noop{}); err == nil {
			o.Vec, o.Str = []int64{u(v.MajorVersion), u(v.MinorVersion), u(v.BetaVersion)}, v.DeviceName
		}
	case "GetErrors":
		var v *rpc.Errors
		if v, err = c.GetErrors(ctx, &rpc.Noop{}); err == nil {
			o.Vec = []int64{b2i(v.Filter)}
		}
	case "SetFanSpeed":
		var v *rpc.FanSpeedModified
		if v, err = c.SetFanSpeed(ctx, &rpc.FanSpeedTarget{Abs: o.A, Rel: o.Rel}); err == nil {
			o.Modified, o.Orig, o.Target = v.Modified, v.OriginalSpeed, v.TargetSpeed
		}
	case "SetFanProfile":
		var v *rpc.FanProfileModified
		if v, err = c.SetFanProfile(ctx, &rpc.FanProfileTarget{Mode: o.A, TargetSpeed: o.B}); err == nil {
			o.Modified, o.Orig, o.Target = v.Modified, v.OriginalSpeed, v.TargetSpeed
		}
	case "SetComfortTemp":
		var v *rpc.ComfortModified
		if v, err = c.SetComfortTemp(ctx, &rpc.ComfortTarget{ComfortTemp: o.A}); err == nil {
			o.Modified, o.Orig, o.Target = v.Modified, v.OriginalTemp, v.TargetTemp
		}
	case "FlushCache":
		var v *rpc.FlushCacheResponse
		if v, err = c.FlushCache(ctx, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(int32(o.A))}); err == nil {
			o.Success = v.Success
		}
	default:
		panic(rt.HarnessBug{Msg: "unknown request " + o.Kind})
	}
	if err != nil {
		o.Code, o.Msg = "error", err.Error()
		var te twirp.Error
		if errors.As(err, &te) {
			o.Code, o.Msg = string(te.Code()), te.Msg()
		}
	}
}

// settled: the line has been silent for a while since the last fault, so that no remains of an earlier exchange are
// left on it. Without such a pause, each exchange may meet the late answer to the one before.
func (sw *SrvWorld) settled() bool {
	if len(sw.conns) == 0 {
		return false
	}
	c := sw.conns[len(sw.conns)-1]
	last := int64(-1)
	if n := len(sw.FaultTs); n > 0 {
		last = sw.FaultTs[n-1]
	}
	for _, v := range sw.outs {
		if v.a <= sw.W.Now() {
			last = max(last, min(v.b, sw.W.Now()))
		}
	}
	if last < 0 {
		return true
	}
	// look for a pause on the line, with everything read and nothing on its way, that started after the last fault
	unread, from, busy := 0, last, sw.unit.Busy
	pause := func(t int64, d int) bool {
		if unread == 0 && t-from > 1200*ms {
			return true
		}
		unread += d
		from = max(from, t)
		return false
	}
	for _, e := range c.Log {
		for ; len(busy) > 0 && busy[0].T <= e.T; busy = busy[1:] {
			if pause(busy[0].T, busy[0].D) {
				return true
			}
		}
		d := 0
		switch e.Kind {
		case 'D':
			d = len(e.Data)
		case 'R':
			d = -len(e.Data)
		case 'E':
			d = 1
		case 'e':
			d = -1
		}
		if pause(e.T, d) {
			return true
		}
	}
	for _, b := range busy {
		if pause(b.T, b.D) {
			return true
		}
	}
	return unread == 0 && sw.W.Now()-from > 1200*ms
}

// outage reports whether the unit was off at some time in [a,b].
func (sw *SrvWorld) outage(a, b int64) bool {
	for _, o := range sw.outs {
		if a <= o.b && b >= o.a {
			return true
		}
	}
	return false
}

var getKinds = []string{"GetTemps", "GetFans", "GetFanProfiles", "GetBypass", "GetBootInfo", "GetErrors"}

var kindCmd = map[string]byte{"GetTemps": cmdTemps, "GetFans": cmdFans, "GetFanProfiles": cmdFanProfiles, "GetBypass": cmdBypass, "GetBootInfo": cmdBootloader, "GetErrors": cmdErrors}

// cmdTypes of the flush kinds.
var flushCmds = map[int32][]byte{
	int32(rpc.FlushCacheRequest_BootInfo): {cmdBootloader},
	int32(rpc.FlushCacheRequest_Bypass):   {cmdBypass},
	int32(rpc.FlushCacheRequest_Fans):     {cmdFans},
	int32(rpc.FlushCacheRequest_Temps):    {cmdTemps},
	int32(rpc.FlushCacheRequest_Profiles): {cmdFanProfiles},
	int32(rpc.FlushCacheRequest_All):      {cmdBootloader, cmdBypass, cmdTemps, cmdFans, cmdFanProfiles, cmdErrors},
}

var flushKinds = []int32{int32(rpc.FlushCacheRequest_BootInfo), int32(rpc.FlushCacheRequest_Bypass), int32(rpc.FlushCacheRequest_Fans),
	int32(rpc.FlushCacheRequest_Temps), int32(rpc.FlushCacheRequest_Profiles), int32(rpc.FlushCacheRequest_All)}

var mixOrder = []string{"get", "GetTemps", "GetFans", "GetFanProfiles", "SetFanSpeed", "SetFanProfile", "SetComfortTemp", "FlushCache", "badflush", "bad", "raw", "GetBypass", "GetBootInfo", "GetErrors"}

// next draws a request.
func (sw *SrvWorld) next(client int) *SrvOp {
	w := sw.W
	o := &SrvOp{Client: client, JSON: w.Choose("op", 2) == 1}
	ws := make([]float64, len(mixOrder))
	for i, m := range mixOrder {
		ws[i] = sw.cfg.Mix[m]
	}
	o.Kind = mixOrder[w.Pick("op", ws...)]
	if ws[0] == 0 && sw.cfg.Mix[o.Kind] == 0 {
		// a replay may draw what is not in the mix
		for i, m := range mixOrder {
			if ws[i] > 0 {
				o.Kind = m
				break
			}
		}
	}
	o.Chunked = sw.cfg.Upload > 0 && w.Chance("op", 0.2)
	if w.Chance("op", sw.cfg.Upload) {
		o.Upload = &simhttp.Upload{Dur: w.LogRange("op", 0, 2*sec), Pieces: 1 + w.Choose("op", 6)}
		if w.Chance("op", 0.4) {
			o.Upload.Break, o.Upload.Cut = true, w.Choose("op", 64)
		}
	}
	if w.Chance("op", sw.cfg.GiveUp) {
		o.GiveUp = 1 + w.LogRange("op", 0, 8*sec)
	}
	switch o.Kind {
	case "get":
		o.Kind = getKinds[w.Choose("op", len(getKinds))]
	case "SetFanSpeed":
		switch w.Pick("op", 2, 1, 1) {
		case 0:
			o.A = uint32(1 + w.Choose("op", 4))
		case 1:
			o.Rel = true
		case 2: // a step down
		}
	case "SetFanProfile":
		o.A, o.B = uint32(1+w.Choose("op", 4)), uint32(15+w.Choose("op", 86))
		if sw.cfg.SetLo {
			o.B = uint32(15 + w.Choose("op", 5))
		}
	case "SetComfortTemp":
		o.A = uint32(12 + w.Choose("op", 17))
		if sw.cfg.SetLo {
			o.A = uint32(18 + w.Choose("op", 3))
		} else if w.Chance("op", 0.1) {
			o.A = uint32(w.Choose("op", 108))
		}
	case "FlushCache":
		fk := flushKinds
		if len(sw.cfg.Flush) > 0 {
			fk = sw.cfg.Flush
		}
		o.A = uint32(fk[w.Choose("op", len(fk))])
	case "badflush":
		o.Kind = "FlushCache"
		o.A = []uint32{6, 7, 17, 255, 256, 257, 258, 261, 1 << 31, ^uint32(0), ^uint32(0) - 249}[w.Choose("op", 11)]
	case "bad":
		sw.bad(o)
	case "raw":
		sw.raw(o)
	}
	return o
}

// wild draws a value over the whole 32 bit range, near the ends of what fits in 8, 16 and 31 bits.
func (sw *SrvWorld) wild(like func() uint32) uint32 {
	w := sw.W
	switch w.Pick("op", 3, 2, 1, 1) {
	case 0: // truncates to something plausible
		return uint32(1+w.Choose("op", 4))*256 + like()
	case 1:
		return uint32(1)<<(8+w.Choose("op", 24)) + like()
	case 2:
		return uint32(w.Range("op", 0, 1<<32-1))
	}
	return []uint32{0, 5, 255, 256, 1<<31 - 1, 1 << 31, ^uint32(0)}[w.Choose("op", 7)]
}

// bad draws a request that must be refused.
func (sw *SrvWorld) bad(o *SrvOp) {
	w := sw.W
	for try := 0; ; try++ {
		switch w.Choose("op", 4) {
		case 0:
			o.Kind, o.A, o.Rel = "SetFanSpeed", 0, false
			if w.Chance("op", 0.3) {
				o.Rel, o.A = true, uint32(1+w.Choose("op", 4))
			} else {
				o.A = sw.wild(func() uint32 { return uint32(1 + w.Choose("op", 4)) })
			}
		case 1:
			o.Kind, o.A, o.B = "SetFanProfile", uint32(1+w.Choose("op", 4)), uint32(15+w.Choose("op", 86))
			o.A = sw.wild(func() uint32 { return uint32(1 + w.Choose("op", 4)) })
			if w.Chance("op", 0.3) {
				o.B = sw.wild(func() uint32 { return uint32(15 + w.Choose("op", 86)) })
			}
		case 2:
			o.Kind, o.A = "SetFanProfile", uint32(1+w.Choose("op", 4))
			if w.Chance("op", 0.5) {
				o.B = []uint32{0, 1, 14, 101, 102, 128, 200, 255}[w.Choose("op", 8)]
			} else {
				o.B = sw.wild(func() uint32 { return uint32(15 + w.Choose("op", 86)) })
			}
		case 3:
			o.Kind, o.B = "SetComfortTemp", 0
			if w.Chance("op", 0.3) {
				o.A = []uint32{108, 109, 120, 127, 128, 148, 200, 236, 255}[w.Choose("op", 9)]
			} else {
				o.A = sw.wild(func() uint32 { return uint32(12 + w.Choose("op", 17)) })
			}
		}
		if !o.valid() {
			return
		}
		if try > 20 {
			o.Kind, o.A, o.B, o.Rel = "SetFanSpeed", 5, 0, false
			return
		}
	}
}

// valid says whether the documented argument ranges permit the request (a relative step may still be out of range).
func (o *SrvOp) valid() bool {
	if o.Upload != nil && o.Upload.Break {
		return false
	}
	switch o.Kind {
	case "SetFanSpeed":
		return o.A == 0 || o.A <= 4 && !o.Rel
	case "SetFanProfile":
		return o.A >= 1 && o.A <= 4 && o.B >= 15 && o.B <= 100
	case "SetComfortTemp":
		return o.A <= 107
	case "FlushCache":
		return flushCmds[int32(o.A)] != nil
	case "raw":
		return false
	}
	return true
}

// raw draws a malformed or misdirected HTTP request.
func (sw *SrvWorld) raw(o *SrvOp) {
	w := sw.W
	m := []string{"SetFanSpeed", "SetFanProfile", "SetComfortTemp"}[w.Choose("op", 3)]
	o.Method, o.CT, o.Path = "POST", "application/json", rpcPath+m
	good := map[string]string{"SetFanSpeed": `{"Abs":3}`, "SetFanProfile": `{"Mode":2,"TargetSpeed":40}`, "SetComfortTemp": `{"ComfortTemp":21}`}[m]
	switch w.Choose("op", 8) {
	case 0: // cut off
		o.Body = []byte(good[:1+w.Choose("op", len(good)-1)])
	case 1: // wrong types
		o.Body = []byte(map[string][]string{
			"SetFanSpeed":    {`{"Abs":-1}`, `{"Abs":4294967296}`, `{"Abs":"three"}`, `{"Abs":2.5}`, `{"Abs":[3]}`, `{"Abs":3,"Rel":"yes"}`, `{"Abs":1e10}`, `{"Abs":3,}`},
			"SetFanProfile":  {`{"Mode":-2,"TargetSpeed":40}`, `{"Mode":2,"TargetSpeed":-40}`, `{"Mode":2,"TargetSpeed":40.5}`, `{"Mode":"x","TargetSpeed":40}`, `[2,40]`, `{"Mode":2,"TargetSpeed":4294967336}`, `2,40`, `{"Mode":{},"TargetSpeed":40}`},
			"SetComfortTemp": {`{"ComfortTemp":-21}`, `{"ComfortTemp":21.5}`, `{"ComfortTemp":4294967317}`, `{"ComfortTemp":"warm"}`, `"21"`, `21`, `{"ComfortTemp":true}`, `{"ComfortTemp"=21}`},
		}[m][w.Choose("op", 8)])
	case 2: // wrong method
		o.Method, o.Body = []string{"GET", "PUT", "DELETE", "HEAD"}[w.Choose("op", 4)], []byte(good)
	case 3: // wrong content type
		o.CT, o.Body = []string{"", "text/plain", "application/xml", "application/x-www-form-urlencoded"}[w.Choose("op", 4)], []byte(good)
	case 4: // wrong path
		o.Path, o.Body = []string{rpcPath + m + "s", "/" + m, "/twirp/comfo.api.Other/" + m, rpcPath, rpcPath + strings.ToLower(m), "/twirp/Comfo/" + m}[w.Choose("op", 6)], []byte(good)
	case 5: // damaged protobuf
		o.CT = "application/protobuf"
		o.Body = [][]byte{{0x08}, {0x08, 0x80}, {0x0a, 0x05, 0x01}, {0xff, 0xff, 0xff}, {0x08, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01}, {0x07}}[w.Choose("op", 6)]
	case 6: // nothing
		o.Body = [][]byte{nil, []byte(" "), []byte("x")}[w.Choose("op", 3)]
	case 7: // not even text
		o.Body = sw.unit.rndBytes(1 + w.Choose("op", 12))
		o.Body = append([]byte{0xfe}, bytes.ReplaceAll(o.Body, []byte("{"), nil)...)
	}
}

// spawnAux starts what happens besides the clients.
func (sw *SrvWorld) spawnAux(horizon int64) {
	w := sw.W
	for i := 0; i < sw.cfg.Outages; i++ {
		a := w.Range("outage", 0, horizon)
		d := w.LogRange("outage", 100*ms, sw.cfg.OutMax)
		w.After(a, func() {
			if sw.quiet {
				return
			}
			sw.Fault("unit off")
			w.Event("fault", "unit is off for %.3fs", float64(d)/1e9)
			sw.outs = append(sw.outs, window{w.Now(), w.Now() + d})
			sw.unit.Off = true
			w.After(d, func() {
				// overlapping outages end with the last
				for _, o := range sw.outs {
					if o.a <= w.Now() && o.b > w.Now() {
						return
					}
				}
				sw.unit.Off = false
			})
		})
	}
	for i := 0; i < sw.cfg.Jumps; i++ {
		at := w.Range("jump", 0, horizon)
		w.After(at, func() {
			d := w.LogRange("jump", 0, 40*3600*sec)
			if w.Chance("jump", 0.5) {
				d = -d
			}
			sw.Inject("wall clock jump")
			w.JumpWall(d)
		})
	}
	for i := 0; i < sw.cfg.Panel; i++ {
		at := w.Range("panel", 0, horizon)
		w.After(at, func() { sw.panelChange() })
	}
	if left := sw.cfg.PanelMid; left > 0 {
		// just after an answer left the unit, and before the server has it; perhaps a request arrives then, too
		sw.unit.Sent = func() {
			if left == 0 || sw.quiet || sw.running == 0 || simhttp.Active(sw.api) > 0 || !w.Chance("panel", 0.3) {
				return
			}
			left--
			w.After(w.LogRange("panel", 0, ms), func() {
				if !sw.panelChange() || !w.Chance("panel", 0.7) || sw.running == 0 || sw.proc.Dead {
					return
				}
				sw.running++
				o := sw.next(70 + left)
				w.Spawn(sw.cl, "panel user", func() {
					sw.do(o)
					sw.running--
					sw.change.WakeAll(w)
				})
			})
		}
	}
}

// panelChange changes the unit's settings at its own panel, unless a set request is in flight.
func (sw *SrvWorld) panelChange() bool {
	w, u := sw.W, sw.unit
	if sw.setters > 0 || u.Off || simhttp.Active(sw.api) > 0 {
		return false
	}
	u.ramp()
	pre := u.State
	switch w.Choose("panel", 3) {
	case 0:
		u.Mode = byte(1 + w.Choose("panel", 4))
	case 1:
		k, v := w.Choose("panel", 4), byte(15+w.Choose("panel", 86))
		if sw.cfg.SetLo {
			v = byte(15 + w.Choose("panel", 5))
		}
		if w.Chance("panel", 0.5) {
			u.In[k] = v
		} else {
			u.Out[k] = v
		}
	case 2:
		u.Comfort = byte(2 * (20 + 18 + w.Choose("panel", 3)))
	}
	u.rampAt = w.Now()
	sw.Inject("panel change")
	sw.panel = append(sw.panel, PanelEv{Seq: w.Event("unit", "panel change: mode %d in %v out %v comfort %d", u.Mode, u.In, u.Out, u.Comfort), T: w.Now(), Pre: pre, Post: u.State})
	return true
}

// runSrv executes one server run.
func (r *Run) runSrv(cfg SrvCfg) *SrvWorld {
	sw := &SrvWorld{Run: r, cfg: cfg}
	return r.runSrvIn(sw)
}

func (r *Run) runSrvIn(sw *SrvWorld) *SrvWorld {
	w, cfg := r.W, sw.cfg
	r.strategy(cfg.Stalls, cfg.Stalls, "http ")
	sw.setup()
	sw.start()
	if cfg.NoStart {
		if cfg.After != nil {
			cfg.After(sw)
		}
		return sw
	}
	if !sw.awaitListening(60 * sec) {
		if !sw.proc.Dead || !sw.proc.Exited {
			r.Stuck("the server does not listen 60s after its start: %v", w.Blocked())
		} else {
			r.Aborted = fmt.Sprintf("the server exited with %d at start", sw.proc.Code)
		}
		return sw
	}
	horizon := int64(cfg.Ops)*(cfg.Think/3+300*ms) + 2*sec
	sw.spawnAux(horizon)
	sw.running = cfg.Clients
	for i := 0; i < cfg.Clients; i++ {
		w.Spawn(sw.cl, fmt.Sprintf("client%d", i), func() {
			if cfg.PanelMid > 0 {
				rt.Sleep(w.Range("think", 0, 15*sec))
			}
			for k := 0; k < cfg.Ops; k++ {
				o := sw.next(i)
				if cfg.Think > 0 && w.Chance("think", cfg.ThinkP) {
					rt.Sleep(w.LogRange("think", 0, cfg.Think))
				}
				for sw.proc.Dead && !sw.quiet {
					rt.Sleep(200 * ms)
				}
				sw.do(o)
			}
			sw.running--
			sw.change.WakeAll(w)
		})
	}
	var pester int64
	if cfg.Pester {
		sw.running++
		o := sw.next(90)
		for i := 0; i < 4 && strings.HasPrefix(o.Kind, "Get"); i++ {
			o = sw.next(90)
		}
		gap := w.LogRange("pester", 200*ms, 280*sec)
		long := w.LogRange("pester", 10*sec, 40*sec)
		if gap > 5*sec {
			long += 300 * sec
		}
		k := int(min(80, 2+long/gap))
		pester = int64(k) * (gap + 90*sec)
		w.Spawn(sw.cl, "pester", func() {
			for ; k > 0; k-- {
				x := *o
				sw.do(&x)
				if w.Chance("pester", 0.3) {
					sw.do(&SrvOp{Client: 90, Kind: getKinds[w.Choose("pester", len(getKinds))]})
				}
				rt.Sleep(gap)
			}
			sw.running--
			sw.change.WakeAll(w)
		})
	}
	crashes := cfg.Crashes
	var crashAt int64
	if crashes > 0 {
		crashAt = w.Now() + w.LogRange("crash", 1, horizon/2)
	}
	lim := r.deadline(int64(cfg.Ops*cfg.Clients)*75*sec + 600*sec + pester)
	for sw.running > 0 {
		now := w.Now()
		if sw.proc.Dead && len(w.Crashes) > 0 {
			return sw
		}
		if sw.proc.Dead && sw.starts[len(sw.starts)-1].KillSeq == 0 {
			r.Crash("the server exited with status %d", sw.proc.Code)
			return sw
		}
		if crashes > 0 && now >= crashAt {
			crashes--
			if !sw.restart() {
				return sw
			}
			crashAt = w.Now() + w.LogRange("crash", 1, horizon/2)
			continue
		}
		end := lim.end()
		if crashes > 0 && crashAt < end {
			end = crashAt
		}
		if !sw.change.WaitUntil(w, "clients", end) && w.Now() >= lim.end() {
			r.Stuck("requests still pending after %ds: %v", w.Now()/sec, w.Blocked())
			return sw
		}
	}
	if cfg.Linger > 0 {
		rt.Sleep(cfg.Linger)
	}
	if cfg.Heal {
		sw.heal()
	}
	if cfg.After != nil {
		w2 := false
		w.Spawn(sw.cl, "observer", func() { cfg.After(sw); w2 = true; sw.change.WakeAll(w) })
		lim := r.deadline(3600 * sec)
		for !w2 {
			if sw.proc.Dead && (len(w.Crashes) > 0 || sw.starts[len(sw.starts)-1].KillSeq == 0) {
				if len(w.Crashes) == 0 {
					r.Crash("the server exited with status %d", sw.proc.Code)
				}
				return sw
			}
			if !lim.wait(&sw.change, "observer") {
				r.Stuck("requests still pending after the faults stopped: %v", w.Blocked())
				return sw
			}
		}
	}
	return sw
}

// heal ends all faults.
func (sw *SrvWorld) heal() {
	w := sw.W
	sw.quiet = true
	sw.lw.quiet = true
	w.Event("heal", "unit and line are healthy from here on")
	sw.unit.Off = false
	sw.unit.Damage = nil
	if u := sw.unit; u.RampPerSec > 0 {
		u.ramp()
		u.RampPerSec = max(u.RampPerSec, 30)
		u.Brisk = true
	}
	for i := range sw.outs {
		if sw.outs[i].b > w.Now() {
			sw.outs[i].b = w.Now()
		}
	}
	for !sw.unit.Quiet() {
		rt.Sleep(100 * ms)
	}
	rt.Sleep(1500*ms + w.LogRange("heal", 0, 6*sec))
}

// restart kills the server and starts it again after a while.
func (sw *SrvWorld) restart() bool {
	w := sw.W
	last := &sw.starts[len(sw.starts)-1]
	if signal.Catches(sw.proc, syscall.SIGTERM) && w.Chance("crash", 0.3) {
		// it may shut down in its own way, but not take forever over it
		sw.Inject("server terminated")
		last.KillSeq = w.Event("fault", "server asked to terminate")
		signal.Deliver(w, sw.proc, syscall.SIGTERM)
		for end := w.Now() + w.LogRange("crash", 1, 30*sec); !sw.proc.Dead && w.Now() < end; {
			rt.Sleep(100 * ms)
		}
		if len(w.Crashes) > 0 {
			return false
		}
	}
	sw.Inject("server killed")
	last.KillSeq = w.Event("fault", "server killed")
	w.KillProc(sw.proc, 137)
	rt.Sleep(1 + w.LogRange("crash", 0, 3*sec))
	sw.inc++
	sw.start()
	if !sw.awaitListening(60 * sec) {
		if sw.proc.Dead {
			sw.Aborted = "the restarted server exited"
		} else {
			sw.Stuck("the restarted server does not listen after 60s: %v", w.Blocked())
		}
		return false
	}
	return true
}
