// Semantic validation: C01-C08.  Everything here is stated over the schema
// value that was built, the published sentinels and the statement parser.

// ---- vocabulary -------------------------------------------------------------------

pred sentinel(x: error) = x == schema.ErrNotSupportColumnType || x == schema.ErrMultiInit
  || x == schema.ErrActionVisibilityAlreadySet || x == schema.ErrActionMutabilityAlreadySet || x == schema.ErrActionAuxiliaryAlreadySet
  || x == schema.ErrAttributeNotAllow || x == schema.ErrDuplicateTable || x == schema.ErrDuplicateExtension || x == schema.ErrDuplicateColumn
  || x == schema.ErrDuplicateAttribute || x == schema.ErrDuplicateIndex || x == schema.ErrDuplicateAction || x == schema.ErrDuplicateParam
  || x == schema.ErrDupFKAction || x == schema.ErrDuplicateVariable || x == schema.ErrTableNotFound || x == schema.ErrColumnNotFound
  || x == schema.ErrActionNotFound || x == schema.ErrVariableNotFound || x == schema.ErrExtensionNotFound || x == schema.ErrBlockVarNotFound

// err matches the sentinel s and no other one
pred blames(err: error, s: error) = errIs(err, s) && (forall x: error {errIs(err, x)} :: sentinel(x) && errIs(err, x) ==> x == s)

pred dupAttr(c: schema.Column) opaque = exists i: int, j: int :: 0 <= i && i < j && j < len(c.Attributes) && c.Attributes[i].Type == c.Attributes[j].Type
pred incompat(ct: schema.ColumnType, at: schema.AttributeType) = (ct == "int" && (at == "min_length" || at == "max_length")) || (ct == "text" && (at == "min" || at == "max"))
pred badAttr(c: schema.Column) opaque = exists i: int :: 0 <= i && i < len(c.Attributes) && incompat(c.Type, c.Attributes[i].Type)

pred isCol(t: schema.Table, x: string) opaque = exists k: int :: 0 <= k && k < len(t.Columns) && t.Columns[k].Name == x
pred isIdx(t: schema.Table, x: string) opaque = exists k: int :: 0 <= k && k < len(t.Indexes) && t.Indexes[k].Name == x
pred dupCol(t: schema.Table) opaque = exists i: int, j: int :: 0 <= i && i < j && j < len(t.Columns) && t.Columns[i].Name == t.Columns[j].Name
pred dupIdx(t: schema.Table) opaque = (exists i: int, j: int :: 0 <= i && i < j && j < len(t.Indexes) && t.Indexes[i].Name == t.Indexes[j].Name)
   || (exists i: int :: 0 <= i && i < len(t.Indexes) && isCol(t, t.Indexes[i].Name))
pred colDupAttr(t: schema.Table) opaque = exists i: int :: 0 <= i && i < len(t.Columns) && dupAttr(t.Columns[i])
pred colBadAttr(t: schema.Table) opaque = exists i: int :: 0 <= i && i < len(t.Columns) && badAttr(t.Columns[i])
pred idxDangling(t: schema.Table) opaque = exists i: int, k: int :: 0 <= i && i < len(t.Indexes) && 0 <= k && k < len(t.Indexes[i].Columns) && !isCol(t, t.Indexes[i].Columns[k])

// the declaration table of one schema table
pred declares(m: schema.declCtx, t: schema.Table) = forall x: string {m[x]} :: m[x] == "column" <==> isCol(t, x)

func schema.NewCtxValidator() (c)
ensures [C01,C02,C04,C05,C07,C08] fresh(c) && c != nil
ensures [C01,C02,C04,C05,C07,C08] c.tableCtx != nil && c.actionCtx != nil && c.extCtx != nil
ensures [C01,C02,C04,C05,C07,C08,C14,C17] fresh(c.tableCtx) && fresh(c.actionCtx) && fresh(c.extCtx)
ensures [C01,C02,C04,C05,C07,C08] ref(c.tableCtx) != ref(c.actionCtx) && ref(c.tableCtx) != ref(c.extCtx) && ref(c.actionCtx) != ref(c.extCtx)
ensures [C01,C02,C04,C05,C07,C08] forall x: string :: !(x in c.tableCtx) && !(x in c.actionCtx) && !(x in c.extCtx)

pred wfV(c: *schema.ContextValidator) = c != nil && c.tableCtx != nil && c.actionCtx != nil && c.extCtx != nil
   && ref(c.tableCtx) != ref(c.actionCtx) && ref(c.tableCtx) != ref(c.extCtx) && ref(c.actionCtx) != ref(c.extCtx)

func schema.(*ContextValidator).VisitColumn(c, col) (err)
requires col != nil
reveal dupAttr, badAttr
ensures [C01,C07,C08] err == nil ==> !dupAttr(*col)
ensures [C03,C07,C08] err == nil ==> !badAttr(*col)
ensures [C07,C08] err != nil ==> dupAttr(*col) || badAttr(*col)
ensures [C08] err != nil ==> (blames(err, schema.ErrDuplicateAttribute) && dupAttr(*col)) || (blames(err, schema.ErrAttributeNotAllow) && badAttr(*col))
nopanic [C07]
loop over col.Attributes as i
invariant any m: map[schema.AttributeType]any :: forall x: schema.AttributeType :: x in m <==> exists j: int :: 0 <= j && j < i && col.Attributes[j].Type == x
invariant forall j: int, k: int :: 0 <= j && j < k && k < i ==> col.Attributes[j].Type != col.Attributes[k].Type
invariant forall j: int :: 0 <= j && j < i ==> !incompat(col.Type, col.Attributes[j].Type)

func schema.(*ContextValidator).VisitIndex(c, x) (err)
requires c != nil && x != nil
let m = c.tableCtx[c.currentDecl]
ensures [C02,C07,C08] err == nil ==> forall k: int :: 0 <= k && k < len(x.Columns) ==> m[x.Columns[k]] == "column"
ensures [C07,C08] err != nil ==> exists k: int :: 0 <= k && k < len(x.Columns) && m[x.Columns[k]] != "column"
ensures [C08] err != nil ==> blames(err, schema.ErrColumnNotFound)
nopanic [C07]
loop over x.Columns as i
invariant forall k: int :: 0 <= k && k < i ==> m[x.Columns[k]] == "column"

pred dupTrigger(fk: schema.ForeignKey) opaque = exists i: int, j: int :: 0 <= i && i < j && j < len(fk.Actions) && fk.Actions[i].On == fk.Actions[j].On

func schema.(*ContextValidator).VisitForeignKey(c, fk) (err)
requires c != nil && fk != nil
reveal dupTrigger
let m = c.tableCtx[fk.ParentTable]
ensures [C02,C07,C08] err == nil ==> fk.ParentTable in c.tableCtx
ensures [C02,C07,C08] err == nil ==> forall k: int :: 0 <= k && k < len(fk.ParentKeys) ==> m[fk.ParentKeys[k]] == "column"
ensures [C01,C07,C08] err == nil ==> !dupTrigger(*fk)
ensures [C07,C08] err != nil ==> !(fk.ParentTable in c.tableCtx) || dupTrigger(*fk) || (exists k: int :: 0 <= k && k < len(fk.ParentKeys) && m[fk.ParentKeys[k]] != "column")
ensures [C08] err != nil ==> (blames(err, schema.ErrTableNotFound) && !(fk.ParentTable in c.tableCtx)) || (blames(err, schema.ErrDupFKAction) && dupTrigger(*fk))
   || (blames(err, schema.ErrColumnNotFound) && (exists k: int :: 0 <= k && k < len(fk.ParentKeys) && m[fk.ParentKeys[k]] != "column"))
nopanic [C07]
loop over fk.ParentKeys as i
invariant forall k: int :: 0 <= k && k < i ==> m[fk.ParentKeys[k]] == "column"
loop over fk.Actions as i
invariant any s: map[schema.ForeignKeyActionOn]any :: forall x: schema.ForeignKeyActionOn :: x in s <==> exists j: int :: 0 <= j && j < i && fk.Actions[j].On == x
invariant forall j: int, k: int :: 0 <= j && j < k && k < i ==> fk.Actions[j].On != fk.Actions[k].On

pred tableBad(t: schema.Table) = dupCol(t) || dupIdx(t) || colDupAttr(t) || colBadAttr(t) || idxDangling(t)

func schema.(*ContextValidator).VisitTable(c, t) (err)
requires wfV(c) && t != nil
reveal dupCol, dupIdx, colDupAttr, colBadAttr, idxDangling, isCol, isIdx
modifies map(c.tableCtx)
freshIn schema.declCtx
ensures [C01,C02,C04,C05,C07,C08] forall x: string :: x in c.tableCtx <==> x == c.currentDecl || old(x in c.tableCtx)
ensures [C01,C02,C04,C05,C07,C08] forall x: string :: x != c.currentDecl ==> c.tableCtx[x] == old(c.tableCtx[x])
ensures [C01,C02,C04,C05,C07,C08] fresh(c.tableCtx[c.currentDecl]) && allocated(c.tableCtx[c.currentDecl])
ensures [C02,C07,C08] err == nil ==> declares(c.tableCtx[c.currentDecl], *t)
ensures [C01,C07,C08] err == nil ==> !dupCol(*t)
ensures [C01,C07,C08] err == nil ==> !dupIdx(*t)
ensures [C01,C07,C08] err == nil ==> !colDupAttr(*t)
ensures [C03,C07,C08] err == nil ==> !colBadAttr(*t)
ensures [C02,C07,C08] err == nil ==> !idxDangling(*t)
ensures [C07,C08] err != nil ==> tableBad(*t)
ensures [C08] err != nil ==> (blames(err, schema.ErrDuplicateColumn) && dupCol(*t)) || (blames(err, schema.ErrDuplicateIndex) && dupIdx(*t))
  || (blames(err, schema.ErrDuplicateAttribute) && colDupAttr(*t)) || (blames(err, schema.ErrAttributeNotAllow) && colBadAttr(*t))
  || (blames(err, schema.ErrColumnNotFound) && idxDangling(*t))
nopanic [C07]
loop over t.Columns as i
invariant forall x: string :: x in c.tableCtx <==> x == c.currentDecl || old(x in c.tableCtx)
invariant forall x: string :: x != c.currentDecl ==> c.tableCtx[x] == old(c.tableCtx[x])
invariant fresh(c.tableCtx[c.currentDecl]) && allocated(c.tableCtx[c.currentDecl])
invariant forall x: string :: x in c.tableCtx[c.currentDecl] <==> exists k: int :: 0 <= k && k < i && t.Columns[k].Name == x
invariant forall x: string :: x in c.tableCtx[c.currentDecl] ==> c.tableCtx[c.currentDecl][x] == "column"
invariant forall j: int, k: int :: 0 <= j && j < k && k < i ==> t.Columns[j].Name != t.Columns[k].Name
invariant forall k: int :: 0 <= k && k < i ==> !dupAttr(t.Columns[k])
invariant forall k: int :: 0 <= k && k < i ==> !badAttr(t.Columns[k])
loop over t.Indexes as i
invariant forall x: string :: x in c.tableCtx <==> x == c.currentDecl || old(x in c.tableCtx)
invariant forall x: string :: x != c.currentDecl ==> c.tableCtx[x] == old(c.tableCtx[x])
invariant fresh(c.tableCtx[c.currentDecl]) && allocated(c.tableCtx[c.currentDecl])
invariant forall x: string :: c.tableCtx[c.currentDecl][x] == "column" <==> isCol(*t, x)
invariant forall x: string :: x in c.tableCtx[c.currentDecl] <==> isCol(*t, x) || exists k: int :: 0 <= k && k < i && t.Indexes[k].Name == x
invariant forall j: int, k: int :: 0 <= j && j < k && k < i ==> t.Indexes[j].Name != t.Indexes[k].Name
invariant forall k: int :: 0 <= k && k < i ==> !isCol(*t, t.Indexes[k].Name)
invariant forall k: int, l: int :: 0 <= k && k < i && 0 <= l && l < len(t.Indexes[k].Columns) ==> isCol(*t, t.Indexes[k].Columns[l])

pred dupParam(a: schema.Action) opaque = exists i: int, j: int :: 0 <= i && i < j && j < len(a.Inputs) && a.Inputs[i] == a.Inputs[j]
pred isParam(a: schema.Action, x: string) opaque = exists i: int :: 0 <= i && i < len(a.Inputs) && a.Inputs[i] == x

func schema.(*ContextValidator).VisitAction(c, a) (err)
requires wfV(c) && a != nil
reveal dupParam, isParam
modifies map(c.actionCtx)
freshIn schema.declCtx
ensures [C01,C02,C04,C05,C07,C08] forall x: string :: x in c.actionCtx <==> x == c.currentDecl || old(x in c.actionCtx)
ensures [C01,C02,C04,C05,C07,C08] forall x: string :: x != c.currentDecl ==> c.actionCtx[x] == old(c.actionCtx[x])
ensures [C01,C02,C04,C05,C07,C08] fresh(c.actionCtx[c.currentDecl]) && allocated(c.actionCtx[c.currentDecl])
ensures [C05,C07,C08] err == nil ==> forall x: string :: x in c.actionCtx[c.currentDecl] <==> isParam(*a, x)
ensures [C01,C07,C08] err == nil ==> !dupParam(*a)
ensures [C07,C08] err != nil ==> dupParam(*a)
ensures [C08] err != nil ==> blames(err, schema.ErrDuplicateParam)
nopanic [C07]
loop over a.Inputs as i
invariant forall x: string :: x in c.actionCtx <==> x == c.currentDecl || old(x in c.actionCtx)
invariant forall x: string :: x != c.currentDecl ==> c.actionCtx[x] == old(c.actionCtx[x])
invariant fresh(c.actionCtx[c.currentDecl]) && allocated(c.actionCtx[c.currentDecl])
invariant forall x: string :: x in c.actionCtx[c.currentDecl] <==> exists k: int :: 0 <= k && k < i && a.Inputs[k] == x
invariant forall j: int, k: int :: 0 <= j && j < k && k < i ==> a.Inputs[j] != a.Inputs[k]

// ---- statements -------------------------------------------------------------------
// The statement parser and the SQL parser belong to another module: they are
// deterministic functions of the statement text.

fun actFails(t: string): bool
fun actStmt(t: string): actparser.ActionStmt
fun callMethod(t: string): string
fun callExt(t: string): string
fun argCount(t: string): int
fun callArg(t: string, i: int): tree.Expression
fun recvCount(t: string): int
fun callRecv(t: string, i: int): string
fun sqlFails(t: string): bool
fun sqlTree(t: string): tree.Ast
fun sqlRenders(a: tree.Ast): bool

pred isCall(t: string) = isType(actStmt(t), *actparser.ActionCallStmt)
pred isExtCall(t: string) = isType(actStmt(t), *actparser.ExtensionCallStmt)
pred isSql(t: string) = isType(actStmt(t), *actparser.DMLStmt)
pred noSentinel(err: error) = forall x: error {errIs(err, x)} :: sentinel(x) ==> !errIs(err, x)

trusted func actparser.Parse(text) (r, err)
ensures err != nil <==> actFails(text)
ensures err != nil ==> noSentinel(err)
result r = actStmt(text)
ensures err == nil ==> r != nil
ensures err == nil && isCall(text) ==> as(r, *actparser.ActionCallStmt).Method == callMethod(text) && len(as(r, *actparser.ActionCallStmt).Args) == argCount(text)
ensures err == nil && isCall(text) ==> forall i: int {as(r, *actparser.ActionCallStmt).Args[i]} :: 0 <= i && i < argCount(text) ==> as(r, *actparser.ActionCallStmt).Args[i] == callArg(text, i)
ensures err == nil && isExtCall(text) ==> as(r, *actparser.ExtensionCallStmt).Extension == callExt(text) && len(as(r, *actparser.ExtensionCallStmt).Args) == argCount(text) && len(as(r, *actparser.ExtensionCallStmt).Receivers) == recvCount(text)
ensures err == nil && isExtCall(text) ==> forall i: int {as(r, *actparser.ExtensionCallStmt).Args[i]} :: 0 <= i && i < argCount(text) ==> as(r, *actparser.ExtensionCallStmt).Args[i] == callArg(text, i)
ensures err == nil && isExtCall(text) ==> forall i: int {as(r, *actparser.ExtensionCallStmt).Receivers[i]} :: 0 <= i && i < recvCount(text) ==> as(r, *actparser.ExtensionCallStmt).Receivers[i] == callRecv(text, i)
why "statement parser of kwil-db: deterministic, does not panic, its errors wrap no sentinel of this module"

trusted func sqlparser.ParseSql(text, line, listener, trace) (r, err)
ensures listener == nil ==> (err != nil <==> sqlFails(text))
ensures err != nil ==> noSentinel(err)
result r = sqlTree(text)
ensures err == nil ==> r != nil
why "SQL parser of kwil-db: deterministic, does not panic, its errors wrap no sentinel of this module"

trusted func iface tree.Ast.ToSQL(a) (s, err)
ensures err == nil <==> sqlRenders(a)
ensures err != nil ==> noSentinel(err)
why "SQL renderer of kwil-db: deterministic, does not panic"

// a variable occurs in an argument expression
fun occurs(x: tree.Expression, v: string): bool
axiom occursBind = forall x: tree.Expression, v: string {occurs(x, v)} :: isType(x, *tree.ExpressionBindParameter) ==> (occurs(x, v) <==> as(x, *tree.ExpressionBindParameter).Parameter == v)
axiom occursUnary = forall x: tree.Expression, v: string {occurs(x, v)} :: isType(x, *tree.ExpressionUnary) ==> (occurs(x, v) <==> occurs(as(x, *tree.ExpressionUnary).Operand, v))
axiom occursArith = forall x: tree.Expression, v: string {occurs(x, v)} :: isType(x, *tree.ExpressionArithmetic) ==> (occurs(x, v) <==> occurs(as(x, *tree.ExpressionArithmetic).Left, v) || occurs(as(x, *tree.ExpressionArithmetic).Right, v))
axiom occursComp = forall x: tree.Expression, v: string {occurs(x, v)} :: isType(x, *tree.ExpressionBinaryComparison) ==> (occurs(x, v) <==> occurs(as(x, *tree.ExpressionBinaryComparison).Left, v) || occurs(as(x, *tree.ExpressionBinaryComparison).Right, v))
axiom occursFun = forall x: tree.Expression, v: string {occurs(x, v)} :: isType(x, *tree.ExpressionFunction) ==> (occurs(x, v) <==> exists i: int :: 0 <= i && i < len(as(x, *tree.ExpressionFunction).Inputs) && occurs(as(x, *tree.ExpressionFunction).Inputs[i], v))
axiom occursElse = forall x: tree.Expression, v: string {occurs(x, v)} :: !isType(x, *tree.ExpressionBindParameter) && !isType(x, *tree.ExpressionUnary) && !isType(x, *tree.ExpressionArithmetic) && !isType(x, *tree.ExpressionBinaryComparison) && !isType(x, *tree.ExpressionFunction) ==> !occurs(x, v)

func schema.checkArgRef(arg, ctx, local) (err)
ensures [C05,C07,C08] err == nil ==> forall v: string {occurs(arg, v)} :: occurs(arg, v) && hasPrefix(v, "$") ==> v in ctx || v in local
ensures [C05,C07,C08] err == nil ==> forall v: string {occurs(arg, v)} :: occurs(arg, v) && hasPrefix(v, "@") ==> v == "@caller"
ensures [C07,C08] err != nil ==> exists v: string :: occurs(arg, v) && ((hasPrefix(v, "$") && !(v in ctx) && !(v in local)) || (hasPrefix(v, "@") && v != "@caller"))
ensures [C08] err != nil ==> blames(err, schema.ErrVariableNotFound)
nopanic [C07]
loop over as(arg, *tree.ExpressionFunction).Inputs as i
invariant forall k: int, v: string :: 0 <= k && k < i && occurs(as(arg, *tree.ExpressionFunction).Inputs[k], v) && hasPrefix(v, "$") ==> v in ctx || v in local
invariant forall k: int, v: string :: 0 <= k && k < i && occurs(as(arg, *tree.ExpressionFunction).Inputs[k], v) && hasPrefix(v, "@") ==> v == "@caller"

pred inScope(a: schema.Action, j: int, v: string) opaque = isParam(a, v)
   || exists q: int, r: int :: 0 <= q && q < j && isExtCall(a.Statements[q]) && 0 <= r && r < recvCount(a.Statements[q]) && callRecv(a.Statements[q], r) == v

pred argBad(a: schema.Action, j: int, k: int) opaque = exists v: string {occurs(callArg(a.Statements[j], k), v)} :: occurs(callArg(a.Statements[j], k), v)
   && ((hasPrefix(v, "$") && !inScope(a, j, v)) || (hasPrefix(v, "@") && v != "@caller"))

pred dupRecv(t: string) opaque = exists i: int, j: int :: 0 <= i && i < j && j < recvCount(t) && callRecv(t, i) == callRecv(t, j)

// what can be wrong with the j-th statement of an action
pred parseBadAt(a: schema.Action, j: int) = actFails(a.Statements[j])
pred sqlBadAt(a: schema.Action, j: int) = isSql(a.Statements[j]) && (sqlFails(a.Statements[j]) || !sqlRenders(sqlTree(a.Statements[j])))
pred callBadAt(acts: set[string], a: schema.Action, j: int) = isCall(a.Statements[j]) && !(callMethod(a.Statements[j]) in acts)
pred extBadAt(exts: set[string], a: schema.Action, j: int) = isExtCall(a.Statements[j]) && !(callExt(a.Statements[j]) in exts)
pred argsBadAt(a: schema.Action, j: int) opaque = (isCall(a.Statements[j]) || isExtCall(a.Statements[j])) && exists k: int {callArg(a.Statements[j], k)} :: 0 <= k && k < argCount(a.Statements[j]) && argBad(a, j, k)
pred recvBadAt(a: schema.Action, j: int) = isExtCall(a.Statements[j]) && dupRecv(a.Statements[j])

pred parseBad(a: schema.Action) opaque = exists j: int :: 0 <= j && j < len(a.Statements) && parseBadAt(a, j)
pred sqlBad(a: schema.Action) opaque = exists j: int :: 0 <= j && j < len(a.Statements) && !parseBadAt(a, j) && sqlBadAt(a, j)
pred callBad(acts: set[string], a: schema.Action) opaque = exists j: int :: 0 <= j && j < len(a.Statements) && !parseBadAt(a, j) && callBadAt(acts, a, j)
pred extBad(exts: set[string], a: schema.Action) opaque = exists j: int :: 0 <= j && j < len(a.Statements) && !parseBadAt(a, j) && extBadAt(exts, a, j)
pred argsBad(a: schema.Action) opaque = exists j: int :: 0 <= j && j < len(a.Statements) && !parseBadAt(a, j) && argsBadAt(a, j)
pred recvBad(a: schema.Action) opaque = exists j: int :: 0 <= j && j < len(a.Statements) && !parseBadAt(a, j) && recvBadAt(a, j)

pred anyParseBad(as: []schema.Action) opaque = exists i: int :: 0 <= i && i < len(as) && parseBad(as[i])
pred anySqlBad(as: []schema.Action) opaque = exists i: int :: 0 <= i && i < len(as) && sqlBad(as[i])
pred anyCallBad(acts: set[string], as: []schema.Action) opaque = exists i: int :: 0 <= i && i < len(as) && callBad(acts, as[i])
pred anyExtBad(exts: set[string], as: []schema.Action) opaque = exists i: int :: 0 <= i && i < len(as) && extBad(exts, as[i])
pred anyArgsBad(as: []schema.Action) opaque = exists i: int :: 0 <= i && i < len(as) && argsBad(as[i])
pred anyRecvBad(as: []schema.Action) opaque = exists i: int :: 0 <= i && i < len(as) && recvBad(as[i])

func schema.(*ContextValidator).visitActions(c, actions) (err)
requires c != nil
requires forall i: int, x: string :: 0 <= i && i < len(actions) ==> (x in c.actionCtx[actions[i].Name] ==> isParam(actions[i], x))
reveal inScope, argBad, dupRecv, argsBadAt, parseBad, sqlBad, callBad, extBad, argsBad, recvBad, anyParseBad, anySqlBad, anyCallBad, anyExtBad, anyArgsBad, anyRecvBad, isParam
let acts = dom(c.actionCtx)
let exts = dom(c.extCtx)
ensures [C06,C07,C08] err == nil ==> !anyParseBad(actions)
ensures [C06,C07,C08] err == nil ==> !anySqlBad(actions)
ensures [C04,C07,C08] err == nil ==> !anyCallBad(acts, actions)
ensures [C04,C07,C08] err == nil ==> !anyExtBad(exts, actions)
ensures [C05,C07,C08] err == nil ==> !anyArgsBad(actions)
ensures [C05,C07,C08] err == nil ==> !anyRecvBad(actions)
ensures [C07,C08] err != nil ==> anyParseBad(actions) || anySqlBad(actions) || anyCallBad(acts, actions) || anyExtBad(exts, actions) || anyArgsBad(actions) || anyRecvBad(actions)
ensures [C08] err != nil ==> (noSentinel(err) && (anyParseBad(actions) || anySqlBad(actions)))
  || (blames(err, schema.ErrActionNotFound) && anyCallBad(acts, actions)) || (blames(err, schema.ErrExtensionNotFound) && anyExtBad(exts, actions))
  || (blames(err, schema.ErrVariableNotFound) && anyArgsBad(actions)) || (blames(err, schema.ErrDuplicateVariable) && anyRecvBad(actions))
nopanic [C07]
loop over actions as i
invariant forall q: int :: 0 <= q && q < i ==> !parseBad(actions[q])
invariant forall q: int :: 0 <= q && q < i ==> !sqlBad(actions[q])
invariant forall q: int :: 0 <= q && q < i ==> !callBad(acts, actions[q])
invariant forall q: int :: 0 <= q && q < i ==> !extBad(exts, actions[q])
invariant forall q: int :: 0 <= q && q < i ==> !argsBad(actions[q])
invariant forall q: int :: 0 <= q && q < i ==> !recvBad(actions[q])
loop over actions[i].Inputs as p inside i
invariant any m: map[string]any :: forall x: string :: x in m <==> exists k: int :: 0 <= k && k < p && actions[i].Inputs[k] == x
loop over actions[i].Statements as j inside i
invariant forall q: int :: 0 <= q && q < j ==> !parseBadAt(actions[i], q)
invariant forall q: int :: 0 <= q && q < j ==> !sqlBadAt(actions[i], q)
invariant forall q: int :: 0 <= q && q < j ==> !callBadAt(acts, actions[i], q)
invariant forall q: int :: 0 <= q && q < j ==> !extBadAt(exts, actions[i], q)
invariant forall q: int :: 0 <= q && q < j ==> !argsBadAt(actions[i], q)
invariant forall q: int :: 0 <= q && q < j ==> !recvBadAt(actions[i], q)
invariant any m: map[string]any :: forall x: string :: x in m <==> inScope(actions[i], j, x)
loop over as(actStmt(actions[i].Statements[j]), *actparser.ActionCallStmt).Args as k inside i, j
invariant forall q: int :: 0 <= q && q < k ==> !argBad(actions[i], j, q)
loop over as(actStmt(actions[i].Statements[j]), *actparser.ExtensionCallStmt).Args as k inside i, j
invariant forall q: int :: 0 <= q && q < k ==> !argBad(actions[i], j, q)
loop over as(actStmt(actions[i].Statements[j]), *actparser.ExtensionCallStmt).Receivers as k inside i, j
invariant any m: map[string]any :: forall x: string :: x in m <==> exists q: int :: 0 <= q && q < k && callRecv(actions[i].Statements[j], q) == x
invariant any m: map[string]any :: forall x: string :: x in m <==> inScope(actions[i], j, x) || exists q: int :: 0 <= q && q < k && callRecv(actions[i].Statements[j], q) == x
invariant forall p: int, q: int :: 0 <= p && p < q && q < k ==> callRecv(actions[i].Statements[j], p) != callRecv(actions[i].Statements[j], q)

// ---- the whole schema --------------------------------------------------------------

fun extKey(x: schema.Extension): string = ite(x.Alias != "", x.Alias, x.Name)
pred dupExt(xs: []schema.Extension) opaque = exists i: int, j: int :: 0 <= i && i < j && j < len(xs) && extKey(xs[i]) == extKey(xs[j])
pred dupTable(ts: []schema.Table) opaque = exists i: int, j: int :: 0 <= i && i < j && j < len(ts) && ts[i].Name == ts[j].Name
pred dupAction(as: []schema.Action) opaque = exists i: int, j: int :: 0 <= i && i < j && j < len(as) && as[i].Name == as[j].Name
pred anyDupCol(ts: []schema.Table) opaque = exists i: int :: 0 <= i && i < len(ts) && dupCol(ts[i])
pred anyDupIdx(ts: []schema.Table) opaque = exists i: int :: 0 <= i && i < len(ts) && dupIdx(ts[i])
pred anyDupAttr(ts: []schema.Table) opaque = exists i: int :: 0 <= i && i < len(ts) && colDupAttr(ts[i])
pred anyBadAttr(ts: []schema.Table) opaque = exists i: int :: 0 <= i && i < len(ts) && colBadAttr(ts[i])
pred anyIdxDangling(ts: []schema.Table) opaque = exists i: int :: 0 <= i && i < len(ts) && idxDangling(ts[i])
pred anyDupParam(as: []schema.Action) opaque = exists i: int :: 0 <= i && i < len(as) && dupParam(as[i])

pred tableNamed(ts: []schema.Table, n: string) opaque = exists i: int :: 0 <= i && i < len(ts) && ts[i].Name == n
pred colOf(ts: []schema.Table, n: string, x: string) opaque = exists i: int :: 0 <= i && i < len(ts) && ts[i].Name == n && isCol(ts[i], x)
pred fkChildBad(t: schema.Table, fk: schema.ForeignKey) opaque = exists k: int :: 0 <= k && k < len(fk.ChildKeys) && !isCol(t, fk.ChildKeys[k])
pred fkParentBad(ts: []schema.Table, fk: schema.ForeignKey) opaque = exists k: int :: 0 <= k && k < len(fk.ParentKeys) && !colOf(ts, fk.ParentTable, fk.ParentKeys[k])
pred anyFkTableMissing(ts: []schema.Table) opaque = exists i: int, k: int :: 0 <= i && i < len(ts) && 0 <= k && k < len(ts[i].ForeignKeys) && !tableNamed(ts, ts[i].ForeignKeys[k].ParentTable)
pred anyFkChildBad(ts: []schema.Table) opaque = exists i: int, k: int :: 0 <= i && i < len(ts) && 0 <= k && k < len(ts[i].ForeignKeys) && fkChildBad(ts[i], ts[i].ForeignKeys[k])
pred anyFkParentBad(ts: []schema.Table) opaque = exists i: int, k: int :: 0 <= i && i < len(ts) && 0 <= k && k < len(ts[i].ForeignKeys) && fkParentBad(ts, ts[i].ForeignKeys[k])
pred anyDupTrigger(ts: []schema.Table) opaque = exists i: int, k: int :: 0 <= i && i < len(ts) && 0 <= k && k < len(ts[i].ForeignKeys) && dupTrigger(ts[i].ForeignKeys[k])

// names that a call may use
fun actionNames(as: []schema.Action): set[string]
axiom actionNamesDef = forall as: []schema.Action, x: string {x in actionNames(as)} :: x in actionNames(as) <==> exists i: int :: 0 <= i && i < len(as) && as[i].Name == x
fun extNames(xs: []schema.Extension): set[string]
axiom extNamesDef = forall xs: []schema.Extension, x: string {x in extNames(xs)} :: x in extNames(xs) <==> exists i: int :: 0 <= i && i < len(xs) && extKey(xs[i]) == x

pred broken(s: schema.Schema) = dupExt(s.Extensions) || dupTable(s.Tables) || dupAction(s.Actions) || anyDupCol(s.Tables) || anyDupIdx(s.Tables)
  || anyDupAttr(s.Tables) || anyBadAttr(s.Tables) || anyIdxDangling(s.Tables) || anyDupParam(s.Actions)
  || anyFkTableMissing(s.Tables) || anyFkChildBad(s.Tables) || anyFkParentBad(s.Tables) || anyDupTrigger(s.Tables)
  || anyParseBad(s.Actions) || anySqlBad(s.Actions) || anyCallBad(actionNames(s.Actions), s.Actions) || anyExtBad(extNames(s.Extensions), s.Actions)
  || anyArgsBad(s.Actions) || anyRecvBad(s.Actions)

pred rightBlame(s: schema.Schema, err: error) = (blames(err, schema.ErrDuplicateExtension) && dupExt(s.Extensions))
  || (blames(err, schema.ErrDuplicateTable) && dupTable(s.Tables)) || (blames(err, schema.ErrDuplicateAction) && dupAction(s.Actions))
  || (blames(err, schema.ErrDuplicateColumn) && anyDupCol(s.Tables)) || (blames(err, schema.ErrDuplicateIndex) && anyDupIdx(s.Tables))
  || (blames(err, schema.ErrDuplicateAttribute) && anyDupAttr(s.Tables)) || (blames(err, schema.ErrAttributeNotAllow) && anyBadAttr(s.Tables))
  || (blames(err, schema.ErrColumnNotFound) && (anyIdxDangling(s.Tables) || anyFkChildBad(s.Tables) || anyFkParentBad(s.Tables)))
  || (blames(err, schema.ErrTableNotFound) && anyFkTableMissing(s.Tables)) || (blames(err, schema.ErrDupFKAction) && anyDupTrigger(s.Tables))
  || (blames(err, schema.ErrDuplicateParam) && anyDupParam(s.Actions))
  || (noSentinel(err) && (anyParseBad(s.Actions) || anySqlBad(s.Actions)))
  || (blames(err, schema.ErrActionNotFound) && anyCallBad(actionNames(s.Actions), s.Actions)) || (blames(err, schema.ErrExtensionNotFound) && anyExtBad(extNames(s.Extensions), s.Actions))
  || (blames(err, schema.ErrVariableNotFound) && anyArgsBad(s.Actions)) || (blames(err, schema.ErrDuplicateVariable) && anyRecvBad(s.Actions))

func schema.(*ContextValidator).VisitSchema(c, s) (err)
requires wfV(c) && s != nil
requires forall x: string :: !(x in c.tableCtx) && !(x in c.actionCtx) && !(x in c.extCtx)
reveal dupExt, dupTable, dupAction, anyDupCol, anyDupIdx, anyDupAttr, anyBadAttr, anyIdxDangling, anyDupParam, tableNamed, colOf, fkChildBad, fkParentBad, anyFkTableMissing, anyFkChildBad, anyFkParentBad, anyDupTrigger
modifies c.currentDecl, map(c.tableCtx), map(c.actionCtx), map(c.extCtx)
freshIn schema.declCtx
ensures [C01,C07,C08] err == nil ==> !dupExt(s.Extensions)
ensures [C01,C07,C08] err == nil ==> !dupTable(s.Tables)
ensures [C01,C07,C08] err == nil ==> !dupAction(s.Actions)
ensures [C01,C07,C08] err == nil ==> !anyDupCol(s.Tables)
ensures [C01,C07,C08] err == nil ==> !anyDupIdx(s.Tables)
ensures [C01,C07,C08] err == nil ==> !anyDupAttr(s.Tables)
ensures [C03,C07,C08] err == nil ==> !anyBadAttr(s.Tables)
ensures [C02,C07,C08] err == nil ==> !anyIdxDangling(s.Tables)
ensures [C01,C07,C08] err == nil ==> !anyDupParam(s.Actions)
ensures [C02,C07,C08] err == nil ==> !anyFkTableMissing(s.Tables)
ensures [C02,C07,C08] err == nil ==> !anyFkChildBad(s.Tables)
ensures [C02,C07,C08] err == nil ==> !anyFkParentBad(s.Tables)
ensures [C01,C07,C08] err == nil ==> !anyDupTrigger(s.Tables)
ensures [C06,C07,C08] err == nil ==> !anyParseBad(s.Actions)
ensures [C06,C07,C08] err == nil ==> !anySqlBad(s.Actions)
ensures [C04,C07,C08] err == nil ==> !anyCallBad(actionNames(s.Actions), s.Actions)
ensures [C04,C07,C08] err == nil ==> !anyExtBad(extNames(s.Extensions), s.Actions)
ensures [C05,C07,C08] err == nil ==> !anyArgsBad(s.Actions)
ensures [C05,C07,C08] err == nil ==> !anyRecvBad(s.Actions)
ensures [C07,C08] err != nil ==> broken(*s)
ensures [C08] err != nil ==> rightBlame(*s, err)
nopanic [C07]
loop over s.Extensions as i
invariant forall x: string :: x in c.extCtx <==> exists k: int :: 0 <= k && k < i && extKey(s.Extensions[k]) == x
invariant forall j: int, k: int :: 0 <= j && j < k && k < i ==> extKey(s.Extensions[j]) != extKey(s.Extensions[k])
loop over s.Tables as i
invariant forall x: string :: x in c.tableCtx <==> exists k: int :: 0 <= k && k < i && s.Tables[k].Name == x
invariant forall j: int, k: int :: 0 <= j && j < k && k < i ==> s.Tables[j].Name != s.Tables[k].Name
invariant forall k: int :: 0 <= k && k < i ==> allocated(c.tableCtx[s.Tables[k].Name]) && fresh(c.tableCtx[s.Tables[k].Name])
invariant forall k: int, x: string :: 0 <= k && k < i ==> (c.tableCtx[s.Tables[k].Name][x] == "column" <==> isCol(s.Tables[k], x))
invariant forall k: int :: 0 <= k && k < i ==> !dupCol(s.Tables[k])
invariant forall k: int :: 0 <= k && k < i ==> !dupIdx(s.Tables[k])
invariant forall k: int :: 0 <= k && k < i ==> !colDupAttr(s.Tables[k])
invariant forall k: int :: 0 <= k && k < i ==> !colBadAttr(s.Tables[k])
invariant forall k: int :: 0 <= k && k < i ==> !idxDangling(s.Tables[k])
invariant forall k: int, q: int :: 0 <= k && k < i && 0 <= q && q < len(s.Tables[k].ForeignKeys) ==> tableNamed(s.Tables, s.Tables[k].ForeignKeys[q].ParentTable)
invariant forall k: int, q: int :: 0 <= k && k < i && 0 <= q && q < len(s.Tables[k].ForeignKeys) ==> !fkChildBad(s.Tables[k], s.Tables[k].ForeignKeys[q])
invariant forall k: int, q: int :: 0 <= k && k < i && 0 <= q && q < len(s.Tables[k].ForeignKeys) ==> !fkParentBad(s.Tables, s.Tables[k].ForeignKeys[q])
invariant forall k: int, q: int :: 0 <= k && k < i && 0 <= q && q < len(s.Tables[k].ForeignKeys) ==> !dupTrigger(s.Tables[k].ForeignKeys[q])
loop over s.Tables[i].ForeignKeys as p inside i
invariant forall q: int :: 0 <= q && q < p ==> tableNamed(s.Tables, s.Tables[i].ForeignKeys[q].ParentTable)
invariant forall q: int :: 0 <= q && q < p ==> !fkChildBad(s.Tables[i], s.Tables[i].ForeignKeys[q])
invariant forall q: int :: 0 <= q && q < p ==> !fkParentBad(s.Tables, s.Tables[i].ForeignKeys[q])
invariant forall q: int :: 0 <= q && q < p ==> !dupTrigger(s.Tables[i].ForeignKeys[q])
loop over s.Tables[i].ForeignKeys[p].ChildKeys as q inside i, p
invariant forall k: int :: 0 <= k && k < q ==> isCol(s.Tables[i], s.Tables[i].ForeignKeys[p].ChildKeys[k])
loop over s.Actions as i
invariant forall x: string :: x in c.actionCtx <==> exists k: int :: 0 <= k && k < i && s.Actions[k].Name == x
invariant forall j: int, k: int :: 0 <= j && j < k && k < i ==> s.Actions[j].Name != s.Actions[k].Name
invariant forall k: int :: 0 <= k && k < i ==> allocated(c.actionCtx[s.Actions[k].Name]) && fresh(c.actionCtx[s.Actions[k].Name])
invariant forall k: int, x: string :: 0 <= k && k < i ==> (x in c.actionCtx[s.Actions[k].Name] ==> isParam(s.Actions[k], x))
invariant forall k: int :: 0 <= k && k < i ==> !dupParam(s.Actions[k])
