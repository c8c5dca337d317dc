package hc

import (
	"fmt"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"

	"verifsim/fw"
	"verifsim/model"
	"verifsim/simrt"
)

// Budget is the number of steps one command may take before it counts as hanging.
const Budget = 400_000_000

// Exec runs a command in a session under the step budget. A panic of the code under test
// passes through to the framework.
func Exec(b *bcdice.BCDice, text string) (*command.Result, error) {
	simrt.SetBudget(Budget)
	defer simrt.SetBudget(0)
	return b.ExecuteCommand(text)
}

// ExecBasic and ExecBot give a command to the basic commands or the game system alone.
func ExecBasic(b *bcdice.BCDice, text string) (*command.Result, error) {
	simrt.SetBudget(Budget)
	defer simrt.SetBudget(0)
	return b.ExecuteBasicCommand(text)
}

func ExecBot(b *bcdice.BCDice, text string) (*command.Result, error) {
	simrt.SetBudget(Budget)
	defer simrt.SetBudget(0)
	return b.ExecuteDiceBotCommand(text)
}

// ExecVia executes a command in a session, or gives it to the basic commands ("basic") or the
// game system ("bot") alone.
func ExecVia(b *bcdice.BCDice, via, text string) (*command.Result, error) {
	switch via {
	case "basic":
		return ExecBasic(b, text)
	case "bot":
		return ExecBot(b, text)
	}
	return Exec(b, text)
}

// Snapshot is a result as it was when it was returned.
type Snapshot struct {
	Err     bool
	Nil     bool
	Message string
	GameID  string
	Dice    []dice.Die
	Success int
	Secret  bool
}

func Snap(res *command.Result, err error) Snapshot {
	s := Snapshot{Err: err != nil, Nil: res == nil}
	if res != nil {
		s.Message = res.Message()
		s.GameID = res.GameID
		s.Dice = append([]dice.Die{}, res.RolledDice...)
		s.Success = int(res.SuccessCheckResult)
		s.Secret = res.IsSecret
	}
	return s
}

func (s Snapshot) Equal(t Snapshot) bool {
	return s.Err == t.Err && s.Nil == t.Nil && s.Message == t.Message && s.GameID == t.GameID && SameDice(s.Dice, t.Dice) && s.Success == t.Success && s.Secret == t.Secret
}

func (s Snapshot) String() string {
	if s.Err {
		if s.Nil {
			return "error"
		}
		return "error with result " + Short(s.Message)
	}
	if s.Nil {
		return "nil"
	}
	return fmt.Sprintf("%q dice %s success %d secret %v", Short(s.Message), DiceText(s.Dice), s.Success, s.Secret)
}

// Ev records the answer as an event.
func (s Snapshot) Ev(x *fw.Ctx, what string) {
	x.Ev("%s -> err=%v nil=%v %q %v %d %v", what, s.Err, s.Nil, Short(s.Message), DiceText(s.Dice), s.Success, s.Secret)
}

// Expected is the snapshot the model's answer amounts to.
func Expected(a *model.Answer, gameID string) Snapshot {
	if a.Err {
		return Snapshot{Err: true, Nil: true}
	}
	s := Snapshot{Message: a.Message(gameID), GameID: gameID, Success: a.Success, Secret: a.Secret}
	for _, d := range a.Dice {
		s.Dice = append(s.Dice, dice.Die{Value: d.Value, Sides: d.Sides})
	}
	return s
}
