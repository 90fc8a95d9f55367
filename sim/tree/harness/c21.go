package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"regexp"
	"strings"

	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
)

// message builds the request and an empty response of an operation.
func (o *SrvOp) message() (req, resp proto.Message) {
	switch o.Kind {
	case "GetTemps":
		return &rpc.Noop{}, &rpc.Temps{}
	case "GetFans":
		return &rpc.Noop{}, &rpc.Fans{}
	case "GetFanProfiles":
		return &rpc.Noop{}, &rpc.FanProfiles{}
	case "GetBypass":
		return &rpc.Noop{}, &rpc.Bypass{}
	case "GetBootInfo":
		return &rpc.Noop{}, &rpc.BootInfo{}
	case "GetErrors":
		return &rpc.Noop{}, &rpc.Errors{}
	case "SetFanSpeed":
		return &rpc.FanSpeedTarget{Abs: o.A, Rel: o.Rel}, &rpc.FanSpeedModified{}
	case "SetFanProfile":
		return &rpc.FanProfileTarget{Mode: o.A, TargetSpeed: o.B}, &rpc.FanProfileModified{}
	case "SetComfortTemp":
		return &rpc.ComfortTarget{ComfortTemp: o.A}, &rpc.ComfortModified{}
	case "FlushCache":
		return &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(int32(o.A))}, &rpc.FlushCacheResponse{}
	}
	return nil, nil
}

var (
	jsonNumber = regexp.MustCompile(`:\s*(-?\d+)`)
	jsonZero   = regexp.MustCompile(`:\s*(0|false)([,}\s])`)
)

// contentParams may follow the type in a Content-Type header.
var contentParams = []string{"", ";charset=utf-8", "; charset=UTF-8", " ; q=1"}

// twin performs a request in the encoding of this run; the other run performs the same request in the other one.
func (sw *SrvWorld) twin(o *SrvOp) {
	w := sw.W
	req, resp := o.message()
	// drawn in both runs
	form := protojson.MarshalOptions{UseProtoNames: w.Chance("enc", 0.5), UseEnumNumbers: w.Chance("enc", 0.5), EmitUnpopulated: w.Chance("enc", 0.5), Multiline: w.Chance("enc", 0.2)}
	quoted, unknown := w.Chance("enc", 0.2), w.Chance("enc", 0.15)
	later := 1
	if unknown && w.Chance("enc", 0.3) {
		later = int(w.LogRange("enc", 1, 5000))
	}
	number, nulls := w.Choose("enc", 8), w.Chance("enc", 0.15)
	var params string
	chunked := false
	for k := 1; k <= 2; k++ {
		if p := contentParams[max(0, w.Choose("enc", 2*len(contentParams))-len(contentParams))]; k == sw.cfg.Twin {
			params = p
		}
		if c := w.Chance("enc", 0.1); k == sw.cfg.Twin {
			chunked = c
		}
	}
	var body []byte
	ct := "application/protobuf"
	if sw.cfg.Twin == 1 {
		body, _ = proto.Marshal(req)
		if unknown {
			body = protowire.AppendTag(body, 999, protowire.BytesType)
			body = protowire.AppendBytes(body, bytes.Repeat([]byte("7"), later))
		}
	} else {
		ct = "application/json"
		body, _ = form.Marshal(req)
		if quoted && !strings.HasPrefix(o.Kind, "FlushCache") {
			body = jsonNumber.ReplaceAll(body, []byte(`:"$1"`))
		}
		switch {
		case quoted || o.Kind == "FlushCache":
		case number == 1:
			body = jsonNumber.ReplaceAll(body, []byte(`:${1}.0`))
		case number == 2:
			body = jsonNumber.ReplaceAll(body, []byte(`:${1}e0`))
		}
		if nulls {
			body = jsonZero.ReplaceAll(body, []byte(`:null$2`))
		}
		if unknown {
			body = bytes.TrimSpace(body)
			sep := []byte(`,"Later":"` + strings.Repeat("7", later) + `"}`)
			if bytes.Equal(body, []byte("{}")) {
				sep = sep[1:]
			}
			body = append(body[:len(body)-1:len(body)-1], sep...)
		}
	}
	h := http.Header{}
	h.Set("Content-Type", ct+params)
	if chunked {
		h.Set("Transfer-Encoding", "chunked")
	}
	out := sw.exchange(o, "POST", "http://"+apiAddr+rpc.ComfoPathPrefix+o.Kind, h, body)
	if out.Resp == nil {
		return
	}
	b, _ := io.ReadAll(out.Resp.Body)
	got := out.Resp.Header.Get("Content-Type")
	if o.Status != 200 {
		o.Code, o.Msg = "error", string(b)
		if got != "application/json" {
			o.Msg = fmt.Sprintf("%s: %q", got, b)
		}
		return
	}
	if got != ct {
		o.Code, o.Msg = "encoding", fmt.Sprintf("asked in %s, answered in %s", ct, got)
		return
	}
	var err error
	if sw.cfg.Twin == 1 {
		err = proto.Unmarshal(b, resp)
		if len(resp.ProtoReflect().GetUnknown()) > 0 {
			err = fmt.Errorf("unknown fields %x", resp.ProtoReflect().GetUnknown())
		}
	} else {
		err = protojson.Unmarshal(b, resp)
		var names map[string]json.RawMessage
		if json.Unmarshal(b, &names) == nil && err == nil {
			for fs, i := resp.ProtoReflect().Descriptor().Fields(), 0; i < fs.Len() && err == nil; i++ {
				if _, ok := names[string(fs.Get(i).Name())]; !ok {
					err = fmt.Errorf("no field %q", fs.Get(i).Name())
				}
			}
		}
	}
	if err != nil {
		o.Code, o.Msg = "encoding", fmt.Sprintf("%q: %v", b, err)
		return
	}
	fields, _ := proto.MarshalOptions{Deterministic: true}.Marshal(resp)
	o.Str = string(fields)
}

// c21 runs the same requests under the same schedule and faults once in each encoding.
func c21(r *Run, base func(r *Run) SrvCfg) {
	simulate := func(rr *Run, twin int) (sw *SrvWorld) {
		cfg := base(rr)
		cfg.Twin = twin
		rr.W.NoGen = true // the same schedule, whichever functions the encoding goes through
		rr.Simulate(func() {
			sw = &SrvWorld{Run: rr, cfg: cfg}
			rr.runSrvIn(sw)
		})
		return sw
	}
	again := func(twin int) *SrvWorld { return simulate(newRun(r.Check, r.Seed, r.W.Recorded(), false), twin) }
	a := simulate(r, 1)
	b := again(2)
	r.Aborted = ""
	for i, x := range a.ops {
		if i < 8 {
			r.Sample += x.String() + "\n"
		}
	}
	class, msg := twinDiff(r, a, b)
	if class == "" {
		return
	}
	for i := 0; i < 3; i++ {
		// what differs from one Protobuf run to the next is not up to the encoding
		if c, _ := twinDiff(nil, a, again(1)); c != "" {
			r.Aborted = "the program does not behave the same in two runs with the same encoding"
			return
		}
	}
	r.Violate(class, "%s", msg)
}

// twinDiff compares two runs with the same requests.
func twinDiff(r *Run, a, b *SrvWorld) (string, string) {
	show := func(o *SrvOp) string {
		if !o.Done {
			return "no response"
		}
		if o.ok() {
			_, resp := o.message()
			proto.Unmarshal([]byte(o.Str), resp)
			return fmt.Sprintf("at %.6fs %v", float64(o.RetT)/1e9, resp)
		}
		return fmt.Sprintf("at %.6fs status %d %s %s %s", float64(o.RetT)/1e9, o.Status, o.Code, o.Msg, o.Dropped)
	}
	// the later of two observations that differ may be a consequence of the first
	for i := 0; i < len(a.ops) && i < len(b.ops); i++ {
		x, y := a.ops[i], b.ops[i]
		if x.Kind != y.Kind || x.A != y.A || x.B != y.B || x.InvT != y.InvT {
			break // after something else differed
		}
		if r != nil && (x.Done || y.Done) {
			r.Judge("request")
		}
		if x.Code == "encoding" || y.Code == "encoding" {
			return "encoding", fmt.Sprintf("%v: the response cannot be read: as Protobuf %s, as JSON %s", x, show(x), show(y))
		}
		if x.Done != y.Done || x.Status != y.Status || x.Code != y.Code || x.Msg != y.Msg || x.Str != y.Str || x.Gone != y.Gone || x.Refused != y.Refused || x.RetT != y.RetT || (x.Dropped == "") != (y.Dropped == "") {
			return "response", fmt.Sprintf("%v: as Protobuf %s, as JSON %s", x, show(x), show(y))
		}
	}
	if len(a.ops) != len(b.ops) || len(a.unit.Execs) != len(b.unit.Execs) {
		return "diverged", fmt.Sprintf("the same requests lead to %d requests and %d executed commands as Protobuf, %d and %d as JSON", len(a.ops), len(a.unit.Execs), len(b.ops), len(b.unit.Execs))
	}
	for i, x := range a.unit.Execs {
		if y := b.unit.Execs[i]; x.Cmd != y.Cmd || !bytes.Equal(x.Data, y.Data) || x.T != y.T {
			return "effect", fmt.Sprintf("the unit executes %02x %x as Protobuf, %02x %x as JSON", x.Cmd, x.Data, y.Cmd, y.Data)
		}
	}
	return "", ""
}
