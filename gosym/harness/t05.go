package harness

import (
	"time"

	"github.com/substrait-io/substrait-go/v8/types"

	"verif/gosym/sym"
)

var _ = reg("T05",
	H{F: T05CountToTime, Bounds: "every precision 0..9, every 64-bit count", Reach: []string{"done"}},
	H{F: T05TimeToCount, Bounds: "every precision 0..9, seconds within the 64-bit nanosecond range, every nanosecond of the second", Reach: []string{"done"}},
	H{F: T05Duration, Bounds: "every precision 0..9, every sub-second count whose duration fits 64 bits", Reach: []string{"done"}},
	H{F: T05Rejected, Bounds: "every precision value outside 0..9", Reach: []string{"rejected"}},
)

var pow10 = []int64{1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000}

// T05CountToTime: the instant of a count is count/10^p seconds after the epoch, for
// all three counted types, and converting back gives the count.
func T05CountToTime() {
	p := sym.Choice("precision", 10)
	u := sym.Int64("units")
	tp := types.TimePrecision(p)
	sym.Case("precision " + string(rune('0'+p)))
	var tm time.Time
	switch sym.Choice("type", 3) {
	case 0:
		tm = types.Timestamp(u).ToPrecisionTime(tp)
	case 1:
		tm = types.TimestampTz(u).ToPrecisionTime(tp)
	case 2:
		tm = types.Time(u).ToPrecisionTime(tp)
	}
	sec, ns := tm.Unix(), int64(tm.Nanosecond())
	sym.Assert(sym.And(ns >= 0, ns < 1000000000), "nanosecond in range")
	frac := pow10[9-p] // nanoseconds per unit
	// u == sec*10^p + ns/frac and ns is a whole number of units
	k := ns / frac
	sym.Assert(k*frac == ns, "a whole number of units")
	sym.Assert(sec*pow10[p]+k == u, "instant is count/10^precision seconds")
	sym.Reach("done")
}

func T05TimeToCount() {
	p := sym.Choice("precision", 10)
	tp := types.TimePrecision(p)
	sym.Case("precision " + string(rune('0'+p)))
	sec := sym.Int64("sec")
	ns := sym.Int64("ns")
	sym.Assume(sym.And(sec >= -9223372036, sec < 9223372036))
	sym.Assume(sym.And(ns >= 0, ns < 1000000000))
	u := types.GetTimeValueByPrecision(time.Unix(sec, ns), tp)
	// floor(sec*10^p + ns/10^(9-p))
	r := u - sec*pow10[p]
	f := pow10[9-p]
	sym.Assert(sym.And(r >= 0, r < pow10[p]), "count within the second")
	sym.Assert(sym.And(r*f <= ns, ns-r*f < f), "count is the instant truncated to the precision")
	sym.Reach("done")
}

func T05Duration() {
	p := sym.Choice("precision", 10)
	u := sym.Int64("units")
	sym.Case("precision " + string(rune('0'+p)))
	f := pow10[9-p]
	lim := int64(9223372036854775807) / f
	sym.Assume(sym.And(u >= -lim, u <= lim))
	d := types.SubSecondsToDuration(u, types.TimePrecision(p))
	sym.Assert(int64(d) == u*f, "duration is count/10^precision seconds")
	sym.Reach("done")
}

func T05Rejected() {
	v := sym.Int32("v")
	sym.Assume(sym.Or(v < 0, v > 9))
	_, err := types.ProtoToTimePrecision(v)
	sym.Assert(err != nil, "precision outside 0..9 is rejected")
	p := types.TimePrecision(v)
	sym.Assert(sym.Catch(func() { types.GetTimeValueByPrecision(time.Unix(0, 0), p) }), "no count for an unknown precision")
	sym.Assert(sym.Catch(func() { types.Timestamp(0).ToPrecisionTime(p) }), "no instant for an unknown precision")
	sym.Assert(sym.Catch(func() { types.SubSecondsToDuration(0, p) }), "no duration for an unknown precision")
	sym.Reach("rejected")
}
