package fw

import (
	"fmt"
	"os"
	"strings"
)

// RaceReport reads the race detector's report of this process and returns the part that is
// about the code under test: the access lines with the repository's source positions.
func RaceReport() string {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("SIM_RACELOG"), os.Getpid()))
	if err != nil {
		return ""
	}
	for _, rep := range strings.Split(string(b), "==================") {
		if !strings.Contains(rep, "DATA RACE") || !strings.Contains(rep, "/repo/") {
			continue
		}
		var out []string
		kind := ""
		for _, l := range strings.Split(rep, "\n") {
			t := strings.TrimSpace(l)
			switch {
			case strings.Contains(t, " at 0x") && strings.Contains(t, " by "):
				kind = t[:strings.Index(t, " at 0x")]
			case strings.HasPrefix(t, "Goroutine "):
				kind = ""
			case kind != "" && strings.Contains(t, "/repo/"):
				if i := strings.LastIndex(t, " +0x"); i > 0 {
					t = t[:i]
				}
				out = append(out, kind+" at "+t[strings.Index(t, "/repo/")+6:])
				kind = ""
			}
		}
		if len(out) > 0 {
			return strings.Join(out, "; ")
		}
	}
	return ""
}
