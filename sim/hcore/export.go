package hcore

import (
	"verifsim/fw"
	"verifsim/hc"
	"verifsim/model"
)

// What other harnesses use of this one.

func GenOp(r *fw.Rand, cfg *model.GenCfg, limit int) Op     { return genOp(r, cfg, limit) }
func GenGameOp(r *fw.Rand, cfg *model.GenCfg, limit int) Op { return genGameOp(r, cfg, limit) }
func ValidOps(ops []Op, n int) bool                         { return validOps(ops, n) }

var Junk = junk

// Expect is what a session with the game system must answer to the operation.
func Expect(gameID string, o *Op) (hc.Snapshot, string, bool) { return expect(gameID, o) }
