From 1e0defa075cd2c639eeb3086a955381368660fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 01/12] fix: evaluate the operands of a lone roll on the left
 of a comparison

A success check whose left side is a single roll with computed operands, such as
the documented (8/2)D(4+6)<=(5*3), failed with "num is not Int: Add".
---
 pkg/core/evaluator/eval_var_args.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/core/evaluator/eval_var_args.go b/pkg/core/evaluator/eval_var_args.go
index 5969ffe..2b0c3ad 100644
--- a/pkg/core/evaluator/eval_var_args.go
+++ b/pkg/core/evaluator/eval_var_args.go
@@ -158,7 +158,16 @@ func (e *Evaluator) evalVarArgsInCommand(node *ast.Command) error {
 // evalVarArgsInCompare は、比較式の左辺の可変ノードの引数および右辺を評価する。
 func (e *Evaluator) evalVarArgsInCompare(node ast.InfixExpression) error {
 	// 左辺の可変ノードの引数を評価して整数に変換する
-	leftEvalErr := e.EvalVarArgs(node.Left())
+	left := node.Left()
+	var leftEvalErr error
+	if left.IsPrimaryExpression() {
+		if left.IsVariable() {
+			leftEvalErr = e.evalVarArgsOfVariableExpr(left)
+		}
+	} else {
+		leftEvalErr = e.EvalVarArgs(left)
+	}
+
 	if leftEvalErr != nil {
 		return leftEvalErr
 	}
-- 
2.43.0


From 70bbcea70c35c4f176556ea23c5797262e0eff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 02/12] fix: leave the REPL at end of input

The break on io.EOF only left the switch, so the REPL ran an empty command and
kept waiting for input after ^D or the end of a pipe.
---
 cmd/GoBCDiceREPL/repl/repl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index a40bf42..6799ae0 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -235,7 +235,7 @@ func (r *REPL) Start() {
 		switch readlineErr {
 		case io.EOF:
 			// ^D が押されたら修了する
-			break
+			return
 		case readline.ErrInterrupt:
 			// ^C が押されたら次の読み込みに移る
 			continue
-- 
2.43.0


From 7401001cb508d97aebc87166f4e540254ead9a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 03/12] fix: reject a die whose value is outside 1..sides

A queued die such as 5/2 reached CHOICE as an index and panicked, and was summed
as a normal value by the other commands.
---
 pkg/core/dice/roller/roller.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/core/dice/roller/roller.go b/pkg/core/dice/roller/roller.go
index ae54df5..094f116 100644
--- a/pkg/core/dice/roller/roller.go
+++ b/pkg/core/dice/roller/roller.go
@@ -70,6 +70,16 @@ func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 			)
 		}
 
+		if d.Value < 1 || d.Value > sides {
+			return nil, fmt.Errorf(
+				"RollDice(num: %d, sides: %d) -> %d/%d: ダイスの出目が範囲外です",
+				num,
+				sides,
+				d.Value,
+				d.Sides,
+			)
+		}
+
 		rolledDice = append(rolledDice, d)
 	}
 
-- 
2.43.0


From 72226eb0c09ca811c80a8e05dd8022a1745578f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 04/12] fix: bound the number of dice rolled by one command

A count such as 9999999999999999999D6, the same in .roll or a U roll, panicked in
make or exhausted memory; so could explosive R/U rolls of large counts.
---
 pkg/core/dice/roller/roller.go         | 12 ++++++++++++
 pkg/core/evaluator/eval_u_roll_expr.go |  9 +++++++++
 pkg/core/evaluator/evaluator.go        | 10 ++++++++++
 3 files changed, 31 insertions(+)

diff --git a/pkg/core/dice/roller/roller.go b/pkg/core/dice/roller/roller.go
index 094f116..7f0d5f4 100644
--- a/pkg/core/dice/roller/roller.go
+++ b/pkg/core/dice/roller/roller.go
@@ -10,6 +10,9 @@ import (
 	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
 )
 
+// MaxNumOfDice は一度に振ることができるダイスの最大数。
+const MaxNumOfDice = 1000000
+
 // ダイスローラーを表す構造体。
 type DiceRoller struct {
 	// feederが実際にダイスを供給する
@@ -33,6 +36,7 @@ func (dr *DiceRoller) DieFeeder() feeder.DieFeeder {
 // RollDice は、sides個の面を持つダイスをnum個振り、その結果を返す。
 //
 // num、sidesともに正の整数でなければならない。
+// また、numはMaxNumOfDice以下でなければならない。
 // この条件が満たされていなかった場合は、エラーを返す。
 func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 	if sides < 1 {
@@ -51,6 +55,14 @@ func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 		)
 	}
 
+	if num > MaxNumOfDice {
+		return nil, fmt.Errorf(
+			"RollDice(num: %d, sides: %d): 振るダイス数が多すぎます",
+			num,
+			sides,
+		)
+	}
+
 	// 結果のスライスの領域をnum個分確保する
 	rolledDice := make([]dice.Die, 0, num)
 
diff --git a/pkg/core/evaluator/eval_u_roll_expr.go b/pkg/core/evaluator/eval_u_roll_expr.go
index 400600c..a9fdfe0 100644
--- a/pkg/core/evaluator/eval_u_roll_expr.go
+++ b/pkg/core/evaluator/eval_u_roll_expr.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/raa0121/GoBCDice/pkg/core/ast"
+	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
 	"github.com/raa0121/GoBCDice/pkg/core/object"
 )
 
@@ -100,6 +101,14 @@ func (e *Evaluator) evalCompoundingRoll(
 		)
 	}
 
+	if numVal > roller.MaxNumOfDice {
+		return nil, fmt.Errorf(
+			"evalCompoundingRoll(num: %d, sides: %d): 振るダイス数が多すぎます",
+			numVal,
+			sidesVal,
+		)
+	}
+
 	valueGroups := make([]object.Object, 0, numVal)
 	for i := 0; i < numVal; i++ {
 		valueGroup := []object.Object{}
diff --git a/pkg/core/evaluator/evaluator.go b/pkg/core/evaluator/evaluator.go
index 6adfb3f..1427746 100644
--- a/pkg/core/evaluator/evaluator.go
+++ b/pkg/core/evaluator/evaluator.go
@@ -90,7 +90,17 @@ func (e *Evaluator) evalCommand(node *ast.Command) (object.Object, error) {
 
 // RollDice は、sides個の面を持つダイスをnum個振り、その結果を返す。
 // また、ダイスロールの結果を記録する。
+//
+// 1つのコマンドで振るダイスの総数がroller.MaxNumOfDiceを超える場合は、エラーを返す。
 func (e *Evaluator) RollDice(num int, sides int) ([]dice.Die, error) {
+	if num > roller.MaxNumOfDice-len(e.env.rolledDice) {
+		return nil, fmt.Errorf(
+			"RollDice(num: %d, sides: %d): 振るダイスの総数が多すぎます",
+			num,
+			sides,
+		)
+	}
+
 	rolledDice, err := e.diceRoller.RollDice(num, sides)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d94b07f6b8998ce43b7f2506c4bcb56a1f2f8df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 05/12] fix: do not run a basic command twice when its
 evaluation fails

The fallback to the first part of the input is for trailing text. It also ran after
an evaluation error, drawing more dice and possibly hiding the failure of the die
feeder behind a result rolled with later dice.
---
 pkg/bcdice/bcdice.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pkg/bcdice/bcdice.go b/pkg/bcdice/bcdice.go
index e529057..f1557e5 100644
--- a/pkg/bcdice/bcdice.go
+++ b/pkg/bcdice/bcdice.go
@@ -74,22 +74,23 @@ func (b *BCDice) ExecuteCommand(input string) (*command.Result, error) {
 		}
 	}
 
-	{
-		result, err := b.ExecuteBasicCommand(command)
-		if err == nil {
-			result.IsSecret = isSecret
-			return result, nil
+	// 入力全体が基本コマンドとして構文解析できない場合のみ、最初の部分を使う。
+	// 実行時のエラーで再試行すると、ダイスが余分に振られてしまう。
+	node, parseErr := parser.Parse("input", []byte(command))
+	if parseErr != nil {
+		node, parseErr = parser.Parse("input", []byte(firstPart))
+		if parseErr != nil {
+			return nil, parseErr
 		}
 	}
-	{
-		result, err := b.ExecuteBasicCommand(firstPart)
-		if err == nil {
-			result.IsSecret = isSecret
-			return result, nil
-		}
 
+	result, err := b.executeBasicCommandNode(node.(ast.Node))
+	if err != nil {
 		return nil, err
 	}
+
+	result.IsSecret = isSecret
+	return result, nil
 }
 
 // ExecuteDiceBotCommand は設定されているダイスボットを使用して指定されたコマンドを実行する。
@@ -112,8 +113,13 @@ func (b *BCDice) ExecuteBasicCommand(c string) (*command.Result, error) {
 		return nil, parseErr
 	}
 
+	return b.executeBasicCommandNode(node.(ast.Node))
+}
+
+// executeBasicCommandNode は構文解析済みのBCDiceの基本コマンドを実行する。
+func (b *BCDice) executeBasicCommandNode(node ast.Node) (*command.Result, error) {
 	env := evaluator.NewEnvironment()
 	ev := evaluator.NewEvaluator(b.diceRoller, env)
 
-	return command.Execute(node.(ast.Node), b.DiceBot.GameID(), ev)
+	return command.Execute(node, b.DiceBot.GameID(), ev)
 }
-- 
2.43.0


From 885ba19e38249f8ebc5037d97a7f0d8591104afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 06/12] fix: report the dice rolled before a reroll threshold
 is rejected

An R or U roll with a missing or too small threshold still draws the dice of the
random numbers in its operands, but its result reported no rolled dice.
---
 pkg/core/command/execute_r_roll_comp.go | 4 ++++
 pkg/core/command/execute_r_roll_list.go | 4 ++++
 pkg/core/command/execute_u_roll_comp.go | 4 ++++
 pkg/core/command/execute_u_roll_expr.go | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/core/command/execute_r_roll_comp.go b/pkg/core/command/execute_r_roll_comp.go
index fe4a184..dc42aa0 100644
--- a/pkg/core/command/execute_r_roll_comp.go
+++ b/pkg/core/command/execute_r_roll_comp.go
@@ -43,6 +43,10 @@ func executeRRollComp(
 	checkRerollThresholdErr :=
 		evaluator.CheckRRollThreshold(compareNode.Left().(*ast.RRollList))
 	if checkRerollThresholdErr != nil {
+		if rolledDice := evaluator.RolledDice(); len(rolledDice) > 0 {
+			result.RolledDice = rolledDice
+		}
+
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
diff --git a/pkg/core/command/execute_r_roll_list.go b/pkg/core/command/execute_r_roll_list.go
index 84641bf..a8ea0be 100644
--- a/pkg/core/command/execute_r_roll_list.go
+++ b/pkg/core/command/execute_r_roll_list.go
@@ -30,6 +30,10 @@ func executeRRollList(
 	// 振り足しの閾値を確認する
 	checkRerollThresholdErr := evaluator.CheckRRollThreshold(node)
 	if checkRerollThresholdErr != nil {
+		if rolledDice := evaluator.RolledDice(); len(rolledDice) > 0 {
+			result.RolledDice = rolledDice
+		}
+
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
diff --git a/pkg/core/command/execute_u_roll_comp.go b/pkg/core/command/execute_u_roll_comp.go
index 93b1f65..696c0d0 100644
--- a/pkg/core/command/execute_u_roll_comp.go
+++ b/pkg/core/command/execute_u_roll_comp.go
@@ -38,6 +38,10 @@ func executeURollComp(
 		compareNode.Left().(*ast.URollExpr).URollList,
 	)
 	if checkRerollThresholdErr != nil {
+		if rolledDice := evaluator.RolledDice(); len(rolledDice) > 0 {
+			result.RolledDice = rolledDice
+		}
+
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
diff --git a/pkg/core/command/execute_u_roll_expr.go b/pkg/core/command/execute_u_roll_expr.go
index 490819f..da6cee1 100644
--- a/pkg/core/command/execute_u_roll_expr.go
+++ b/pkg/core/command/execute_u_roll_expr.go
@@ -32,6 +32,10 @@ func executeURollExpr(
 	// 振り足しの閾値を確認する
 	checkRerollThresholdErr := evaluator.CheckURollThreshold(node.URollList)
 	if checkRerollThresholdErr != nil {
+		if rolledDice := evaluator.RolledDice(); len(rolledDice) > 0 {
+			result.RolledDice = rolledDice
+		}
+
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
-- 
2.43.0


From c23eb3a9a03667878ea81f835947adec14433692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 07/12] fix: do not truncate a request log that already exists

The log file is named by the second, so a restart within the same second erased the
records of the previous process.
---
 cmd/GoBCDiceAPI/config/environment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/GoBCDiceAPI/config/environment.go b/cmd/GoBCDiceAPI/config/environment.go
index f0f61f4..72dadb7 100644
--- a/cmd/GoBCDiceAPI/config/environment.go
+++ b/cmd/GoBCDiceAPI/config/environment.go
@@ -24,7 +24,7 @@ func Setup(e *echo.Echo) {
 		tmpdir := filepath.Join(os.TempDir(), "GoBCDiceAPI")
 		os.MkdirAll(tmpdir, 0700)
 		logFileName := filepath.Join(tmpdir, fmt.Sprintf("%s-%d.log", Environment, time.Now().Unix()))
-		f, err := os.Create(logFileName)
+		f, err := os.OpenFile(logFileName, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0666)
 		if err != nil {
 			panic(err)
 		}
-- 
2.43.0


From fbd9856c1e37fbc519a7558cb6388240c36007cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 08/12] fix: execute a command of the REPL exactly as the
 session would

The REPL removed the secret mark before it handed the input to the session, which removes one
itself: SS2D6 was executed as 2D6 instead of being rejected.
---
 cmd/GoBCDiceREPL/repl/repl.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index 6799ae0..7a9d072 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -338,8 +338,7 @@ func eval(r *REPL, c *Command, input string) {
 		}()
 	}
 
-	command, isSecret := util.CheckIfInputMayBeASecretRoll(input)
-	result, err := r.bcDice.ExecuteCommand(command)
+	result, err := r.bcDice.ExecuteCommand(input)
 	if err != nil {
 		r.printError(err)
 		return
@@ -347,7 +346,7 @@ func eval(r *REPL, c *Command, input string) {
 
 	fmt.Fprint(r.out, RESULT_HEADER)
 
-	if isSecret {
+	if result.IsSecret {
 		fmt.Fprint(r.out, SECRET_HEADER)
 	}
 
-- 
2.43.0


From d99475d70c87561fec622240d7693a8c0fc724a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 09/12] fix: the secret mark no longer alters invalid UTF-8 in
 the rest of the input

---
 pkg/core/util/secret_roll.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/core/util/secret_roll.go b/pkg/core/util/secret_roll.go
index 281e716..fdabeae 100644
--- a/pkg/core/util/secret_roll.go
+++ b/pkg/core/util/secret_roll.go
@@ -10,11 +10,10 @@ func CheckIfInputMayBeASecretRoll(input string) (string, bool) {
 		return "", false
 	}
 
-	inputRunes := []rune(input)
-
-	switch inputRunes[0] {
+	switch input[0] {
 	case 'S', 's':
-		return string(inputRunes[1:len(inputRunes)]), true
+		// 残りの部分は、UTF-8として不正なバイト列も含めてそのまま返す
+		return input[1:], true
 	default:
 		return input, false
 	}
-- 
2.43.0


From 2f6889f9e502f025bce779cc37276e40f026af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 10/12] fix: divide integers exactly whatever their size

---
 pkg/core/evaluator/eval_infix_expression.go | 53 ++++++++++++++++-----
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/pkg/core/evaluator/eval_infix_expression.go b/pkg/core/evaluator/eval_infix_expression.go
index 2903c95..4a7bc08 100644
--- a/pkg/core/evaluator/eval_infix_expression.go
+++ b/pkg/core/evaluator/eval_infix_expression.go
@@ -2,7 +2,6 @@ package evaluator
 
 import (
 	"fmt"
-	"math"
 
 	"github.com/raa0121/GoBCDice/pkg/core/ast"
 	"github.com/raa0121/GoBCDice/pkg/core/object"
@@ -126,22 +125,54 @@ func (e *Evaluator) evalIntegerDivide(
 		// 除算（小数点以下切り捨て）
 		return object.NewInteger(leftValue / rightValue), nil
 	case ast.ROUNDING_METHOD_ROUND:
-		{
-			// 除算（小数点以下四捨五入）
-			resultFloat := math.Round(float64(leftValue) / float64(rightValue))
-			return object.NewInteger(int(resultFloat)), nil
-		}
+		// 除算（小数点以下四捨五入）
+		return object.NewInteger(divideWithRounding(leftValue, rightValue)), nil
 	case ast.ROUNDING_METHOD_ROUND_UP:
-		{
-			// 除算（小数点以下切り上げ）
-			resultFloat := math.Ceil(float64(leftValue) / float64(rightValue))
-			return object.NewInteger(int(resultFloat)), nil
-		}
+		// 除算（小数点以下切り上げ）
+		return object.NewInteger(divideWithRoundingUp(leftValue, rightValue)), nil
 	default:
 		return nil, fmt.Errorf("evalIntegerDivide: unknown rounding method")
 	}
 }
 
+// divideWithRounding は、整数の除算の結果の小数点以下を四捨五入する。
+// 大きな整数でも正確な結果となるように、浮動小数点数を使わずに計算する。
+func divideWithRounding(left, right int) int {
+	quotient, remainder := left/right, left%right
+
+	// 絶対値は表せないことがあるため、負の数で比較する
+	if r, d := negativeAbs(remainder), negativeAbs(right); r > d-r {
+		return quotient
+	}
+
+	if (left < 0) == (right < 0) {
+		return quotient + 1
+	}
+
+	return quotient - 1
+}
+
+// divideWithRoundingUp は、整数の除算の結果の小数点以下を切り上げる。
+// 大きな整数でも正確な結果となるように、浮動小数点数を使わずに計算する。
+func divideWithRoundingUp(left, right int) int {
+	quotient, remainder := left/right, left%right
+
+	if remainder != 0 && (remainder < 0) == (right < 0) {
+		return quotient + 1
+	}
+
+	return quotient
+}
+
+// negativeAbs はnの絶対値に負号を付けた値を返す。
+func negativeAbs(n int) int {
+	if n > 0 {
+		return -n
+	}
+
+	return n
+}
+
 // evalSumRoll は加算ロールを評価する。
 func (e *Evaluator) evalSumRoll(
 	num *object.Integer,
-- 
2.43.0


From 9be90f66dbc464e2d407a3a3a13816520ffc1706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 11/12] fix: reject integers that are too large instead of
 altering them

---
 pkg/core/parser/parser.go     | 6 ++++--
 pkg/core/parser/parser.pigeon | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 67c782b..f74826d 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -2346,8 +2346,10 @@ func (p *parser) callonIncRandCount1() error {
 func (c *current) onInteger1() (interface{}, error) {
 	s := string(c.text)
 
-	// TODO: 整数が大きすぎるときなどのエラー処理が必要
-	value, _ := strconv.Atoi(s)
+	value, err := strconv.Atoi(s)
+	if err != nil {
+		return ast.NewInt(value), fmt.Errorf("整数が大きすぎます: %s", s)
+	}
 
 	return ast.NewInt(value), nil
 }
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index 97ba423..5ca0118 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -3,6 +3,7 @@
 package parser
 
 import (
+	"fmt"
 	"github.com/raa0121/GoBCDice/pkg/core/ast"
 	"github.com/raa0121/GoBCDice/pkg/core/token"
 	"strconv"
@@ -356,8 +357,10 @@ IncRandCount <- #{
 Integer <- [0-9]+ {
 	s := string(c.text)
 
-	// TODO: 整数が大きすぎるときなどのエラー処理が必要
-	value, _ := strconv.Atoi(s)
+	value, err := strconv.Atoi(s)
+	if err != nil {
+		return ast.NewInt(value), fmt.Errorf("整数が大きすぎます: %s", s)
+	}
 
 	return ast.NewInt(value), nil
 }
-- 
2.43.0


From 75907a6823325ab1220b67267d41aad8c02577c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 12/12] fix: reject numbers that are too large in the roll
 command of the REPL

---
 cmd/GoBCDiceREPL/repl/repl.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index 7a9d072..7d77369 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -373,8 +373,17 @@ func rollDice(r *REPL, c *Command, input string) {
 		}()
 	}
 
-	num, _ := strconv.Atoi(matches[1])
-	sides, _ := strconv.Atoi(matches[2])
+	num, err := strconv.Atoi(matches[1])
+	if err != nil {
+		r.printError(err)
+		return
+	}
+
+	sides, err := strconv.Atoi(matches[2])
+	if err != nil {
+		r.printError(err)
+		return
+	}
 
 	rolledDice, err := r.diceRoller.RollDice(num, sides)
 	if err != nil {
-- 
2.43.0

