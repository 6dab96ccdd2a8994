package checks

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
	"unlynxverif/engine"
)

// A provider's rows, encrypted by the client library and decoded by the server.

func init() {
	engine.Register(&engine.Scenario{Name: "c03-client", Prop: "C03", MaxDev: 1, MaxDevT: 2, Run: c03Client})
}

type crows struct {
	sec   kyber.Scalar
	pub   kyber.Point
	rows  []libunlynx.DpClearResponse
	rep   int
	count bool
	up    *servicesunlynx.SurveyResponseQuery
	out   []libunlynx.DpResponse
}

// clientRows makes n rows with two encrypted attributes of every kind; the
// values are all different.
func clientRows(x *engine.X, n int) *crows {
	r := &crows{rep: 1}
	r.sec, r.pub = libunlynx.GenKey()
	v := int64(0)
	m := func(names ...string) map[string]int64 {
		o := map[string]int64{}
		for _, a := range names {
			v++
			o[a] = v
		}
		return o
	}
	for i := 0; i < n; i++ {
		r.rows = append(r.rows, libunlynx.DpClearResponse{
			GroupByClear: m("g0"), GroupByEnc: m("g1", "g2"), WhereClear: m("w0"), WhereEnc: m("w1", "w2"),
			AggregatingAttributesClear: m("s0"), AggregatingAttributesEnc: m("s1", "s2")})
	}
	return r
}

func (r *crows) encrypt() (err error) {
	r.up, err = servicesunlynx.EncryptDataToSurvey("dp", "sid", r.rows, r.pub, r.rep, r.count)
	return
}

func (r *crows) decode() error {
	r.out = make([]libunlynx.DpResponse, len(r.up.Responses))
	for i := range r.up.Responses {
		if err := r.out[i].FromDpResponseToSend(r.up.Responses[i]); err != nil {
			return err
		}
	}
	return nil
}

func (r *crows) same() bool {
	if len(r.out) != len(r.rows)*r.rep || r.up.SurveyID != "sid" {
		return false
	}
	clear := func(a, b map[string]int64) bool {
		for k, v := range a {
			if w, ok := b[k]; !ok || w != v {
				return false
			}
		}
		return len(a) == len(b)
	}
	enc := func(a map[string]int64, b map[string]libunlynx.CipherText, more int) bool {
		for k, v := range a {
			if w, ok := b[k]; !ok || !encodes(r.sec, w, v) {
				return false
			}
		}
		return len(a)+more == len(b)
	}
	for i := range r.out {
		in, o, more := r.rows[i/r.rep], r.out[i], 0
		if r.count {
			if c, ok := o.AggregatingAttributesEnc["count"]; !ok || !encodes(r.sec, c, 1) {
				return false
			}
			more = 1
		}
		if !clear(in.GroupByClear, o.GroupByClear) || !clear(in.WhereClear, o.WhereClear) || !clear(in.AggregatingAttributesClear, o.AggregatingAttributesClear) ||
			!enc(in.GroupByEnc, o.GroupByEnc, 0) || !enc(in.WhereEnc, o.WhereEnc, 0) || !enc(in.AggregatingAttributesEnc, o.AggregatingAttributesEnc, more) {
			return false
		}
	}
	return true
}

// c03Client encrypts an upload with a goroutine per row.
func c03Client(x *engine.X) {
	n := splitToy(x, 2)
	r := clientRows(x, n)
	r.rep = x.Int(1, 2, "repetitions")
	r.count = x.Bool("count")
	var err error
	if !split(x, "encrypting an upload", false, func() { err = r.encrypt() }) {
		return
	}
	if !need(x, err, "encrypting %d rows", n) || !need(x, r.decode(), "decoding %d rows", n) {
		return
	}
	if !r.same() {
		x.Failf("an upload of %d rows (each %d times, count %v) does not hold the rows: %d rows", n, r.rep, r.count, len(r.out))
	}
	x.Obs("%d %d %v", n, r.rep, r.count)
}
