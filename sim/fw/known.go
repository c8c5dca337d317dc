package fw

import (
	"os"
	"path/filepath"
	"strings"
)

// Listed returns the line of the known-findings file with the property and key.
func Listed(id, key string) (string, bool) {
	b, err := os.ReadFile(filepath.Join(simRoot, "..", "known-findings.txt"))
	if err != nil {
		return "", false
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "KNOWN-FINDING: property="+id+" key="+key+" ")
		if ok {
			return rest, true
		}
	}
	return "", false
}
