package fw

import (
	"bytes"
	"encoding/json"
	"time"

	"verifsim/simrt"
)

// Wall is the wall clock of a run, and what else surrounds it. Every case has one, as the field "wall" of its JSON text.
type Wall struct {
	At   int64 `json:"at"`             // in ns
	Step int64 `json:"step,omitempty"` // how far the clock moves with every look at it
	// Env are the environment variables, of those in simrt.EnvNames
	Env map[string]string `json:"env,omitempty"`
	// CPUs is the number of processors the run is told of
	CPUs int `json:"cpus,omitempty"`
}

var envValues = []string{"", "0", "1", "true", "C", "POSIX", "C.UTF-8", "ja_JP.UTF-8", "ja_JP.eucJP", "en_US.UTF-8", "tr_TR.UTF-8", "dumb", "xterm-256color", "80", "20", "Asia/Tokyo", "America/New_York", "Windows_NT", "x"}

const plainWall = 1700000000 * int64(time.Second)

// special dates and times of day, at which software has surprised its users
var specialTimes = []string{
	"1969-12-31T23:59:59Z", "1970-01-01T00:00:00Z", "1999-12-31T23:59:59Z", "2000-01-01T00:00:00Z", "2000-02-29T12:00:00Z",
	"2001-09-09T01:46:40Z", "2019-05-01T00:00:00+09:00", "2024-02-29T23:59:59.999999999Z", "2025-04-01T09:00:00+09:00", "2026-04-01T00:00:00Z",
	"2026-12-31T23:59:59Z", "2027-01-01T00:00:00+09:00", "2038-01-19T03:14:07Z", "2038-01-19T03:14:08Z", "2100-02-28T23:59:59Z", "2106-02-07T06:28:16Z", "2200-01-01T00:00:00Z",
}

func genWall(r *Rand) Wall {
	w := Wall{At: plainWall}
	switch r.Weighted(3, 4, 2) {
	case 1:
		w.At = int64(r.N(4000000000))*int64(time.Second) + int64(r.N(1000000000))
	case 2:
		t, err := time.Parse(time.RFC3339Nano, r.Pick(specialTimes...))
		if err != nil {
			panic(err)
		}
		w.At = t.UnixNano()
	}
	switch r.Weighted(3, 2, 2, 2, 1) {
	case 1:
		w.Step = int64(r.N(1000000))
	case 2:
		w.Step = int64(time.Second) * int64(r.Range(1, 90000))
	case 3:
		w.Step = 24 * int64(time.Hour) * int64(r.Range(1, 40))
	case 4:
		w.Step = -int64(time.Second) * int64(r.Range(1, 90000))
	}
	if r.P(0.3) {
		w.Env = map[string]string{}
		for n := r.Range(1, 5); n > 0; n-- {
			w.Env[r.Pick(simrt.EnvNames...)] = r.Pick(envValues...)
		}
	}
	if r.P(0.5) {
		w.CPUs = r.PickInt(2, 3, 4, 8, 64)
	}
	return w
}

// withWall adds the wall clock to the text of a case.
func withWall(b []byte, w Wall) []byte {
	f, _ := json.Marshal(w)
	b = bytes.TrimRight(b, " \n")
	b = append([]byte{}, b[:len(b)-1]...)
	if len(b) > 1 {
		b = append(b, ',')
	}
	return append(append(append(b, `"wall":`...), f...), '}')
}

// wallOf is the wall clock the text of a case names.
func wallOf(b []byte) (Wall, bool) {
	var c struct {
		Wall *Wall `json:"wall"`
	}
	if json.Unmarshal(b, &c) != nil {
		return Wall{}, false
	}
	if c.Wall == nil {
		return Wall{At: plainWall}, true
	}
	const far = 400 * 24 * int64(time.Hour)
	if c.Wall.CPUs < 0 || c.Wall.CPUs > 1024 {
		return Wall{}, false
	}
	return *c.Wall, c.Wall.Step <= far && c.Wall.Step >= -far && c.Wall.At >= -2e18 && c.Wall.At <= 8e18
}

func (w Wall) set() {
	simrt.SetWall(w.At, w.Step)
	simrt.SetEnv(w.Env)
	simrt.SetCPUs(w.CPUs)
}
