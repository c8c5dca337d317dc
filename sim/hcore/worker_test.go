package hcore

import (
	"testing"

	"verifsim/fw"
)

func TestWorker(t *testing.T) { fw.Main(t) }
