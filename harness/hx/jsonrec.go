package hx

import (
	"encoding/json"
	"io"
	"strconv"
	"strings"
	"time"
)

// Civil is a time in UTC, taken apart.
func Civil(t time.Time) Ev {
	t = t.UTC()
	return Ev{"y": t.Year(), "mo": int(t.Month()), "d": t.Day(), "h": t.Hour(), "mi": t.Minute(), "s": t.Second(), "ns": t.Nanosecond()}
}

// DecodeWrite reads one JSON object generically.
func DecodeWrite(s string) Ev {
	bad := Ev{"ok": false, "f": Ev{"x": ""}, "kvs": [][]string{}, "raw": Lat(s)}
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	var m map[string]interface{}
	if dec.Decode(&m) != nil || m == nil {
		return bad
	}
	if _, err := dec.Token(); err != io.EOF {
		return bad
	}
	f := Ev{"_": ""}
	kvs := [][]string{}
	for k, v := range m {
		switch x := v.(type) {
		case string:
			if k == "Timestamp" {
				t, err := time.Parse(time.RFC3339Nano, x)
				if err != nil || !strings.HasSuffix(x, "Z") {
					f[k] = "bad " + Lat(x)
				} else {
					f[k] = t.Format(time.RFC3339Nano)
				}
			} else if k != "Nanoseconds" && k != "Value" {
				f[k] = Lat(x)
			}
		case json.Number:
			if k == "Value" {
				g, err := strconv.ParseFloat(x.String(), 64)
				if err != nil {
					return bad
				}
				f[k] = strconv.FormatFloat(g, 'g', -1, 64)
			} else if k == "Nanoseconds" {
				f[k] = x.String()
			}
		case nil:
		case map[string]interface{}:
			if k == "Kvs" {
				for kk, vv := range x {
					s, ok := vv.(string)
					if !ok {
						return bad
					}
					kvs = append(kvs, []string{Lat(kk), Lat(s)})
				}
			}
		}
	}
	return Ev{"ok": true, "f": f, "kvs": kvs, "raw": Lat(s)}
}
