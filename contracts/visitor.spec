// Schema construction from the syntax tree: C09-C13, and that no conforming
// tree makes it fail (C07).

func kfparser.NewKuneiformVisitor(mode) (v)
ensures [C09,C10,C11,C12,C13,C07] v != nil
nopanic [C07]

// ---- tables (C09) --------------------------------------------------------------------

fun attrType(n: node): schema.AttributeType = ite(tok(n, PRIMARY_), "primary_key", ite(tok(n, NOT_NULL_), "not_null", ite(tok(n, UNIQUE_), "unique", ite(tok(n, DEFAULT_), "default",
  ite(tok(n, MIN_), "min", ite(tok(n, MAX_), "max", ite(tok(n, MIN_LEN_), "min_length", "max_length")))))))
fun attrValue(n: node): any = ite(tok(n, DEFAULT_), box(text(kid(n, Literal_value))), ite(tok(n, MIN_) || tok(n, MAX_) || tok(n, MIN_LEN_) || tok(n, MAX_LEN_), box(text(kid(n, Number_value))), box(nil)))

pred isAttr(a: schema.Attribute, n: node) = a.Type == attrType(n) && a.Value == attrValue(n)

func kfparser.(*KFVisitor).VisitColumn_constraint(v, ctx) (r)
requires v != nil && ctx != nil && conf_Column_constraint(ctx)
shape r: *schema.Attribute
ensures [C09,C01,C03] isAttr(*val(r), ctx)
nopanic [C07]

fun colType(n: node): schema.ColumnType = ite(tok(n, INT_), "int", ite(tok(n, TEXT_), "text", "blob"))
pred isColumn(c: schema.Column, n: node) opaque = c.Name == text(kid(n, Column_name)) && c.Type == colType(kid(n, Column_type))
  && len(c.Attributes) == cnt(n, Column_constraint) && (forall i: int {c.Attributes[i]} {kid(n, Column_constraint, i)} :: 0 <= i && i < cnt(n, Column_constraint) ==> isAttr(c.Attributes[i], kid(n, Column_constraint, i)))

func kfparser.(*KFVisitor).VisitColumn_def(v, ctx) (r)
requires v != nil && ctx != nil && conf_Column_def(ctx)
reveal isColumn
shape r: *schema.Column
ensures [C09,C01,C02,C03] isColumn(*val(r), ctx)
nopanic [C07]
loop over cnt(ctx, Column_constraint) as i
invariant any a: []schema.Attribute :: len(a) == cnt(ctx, Column_constraint)
invariant any a: []schema.Attribute :: forall k: int :: 0 <= k && k < i ==> isAttr(a[k], kid(ctx, Column_constraint, k))

pred areColumns(cs: []schema.Column, n: node) opaque = len(cs) == cnt(n, Column_def) && (forall i: int {cs[i]} {kid(n, Column_def, i)} :: 0 <= i && i < cnt(n, Column_def) ==> isColumn(cs[i], kid(n, Column_def, i)))

func kfparser.(*KFVisitor).VisitColumn_def_list(v, ctx) (r)
requires v != nil && ctx != nil && conf_Column_def_list(ctx)
reveal areColumns
shape r: []schema.Column
ensures [C09,C01,C02,C03] areColumns(val(r), ctx)
nopanic [C07]
loop over cnt(ctx, Column_def) as i
invariant any a: []schema.Column :: len(a) == cnt(ctx, Column_def)
invariant any a: []schema.Column :: forall k: int :: 0 <= k && k < i ==> isColumn(a[k], kid(ctx, Column_def, k))

// ---- indexes and foreign keys (C10) ----------------------------------------------------

pred areTexts(cs: []string, n: node) opaque = len(cs) == cnt(n, Column_name) && (forall i: int {cs[i]} {kid(n, Column_name, i)} :: 0 <= i && i < cnt(n, Column_name) ==> cs[i] == text(kid(n, Column_name, i)))

func kfparser.(*KFVisitor).VisitColumn_name_list(v, ctx) (r)
requires v != nil && ctx != nil && conf_Column_name_list(ctx)
reveal areTexts
shape r: []string
ensures [C10,C02] areTexts(val(r), ctx)
nopanic [C07]
loop over cnt(ctx, Column_name) as i
invariant any a: []string :: len(a) == cnt(ctx, Column_name)
invariant any a: []string :: len(a) == i
invariant any a: []string :: forall k: int :: 0 <= k && k < i ==> a[k] == text(kid(ctx, Column_name, k))

fun idxType(n: node): schema.IndexType = ite(tok(n, UNIQUE_), "unique_btree", ite(tok(n, INDEX_), "btree", "primary"))
pred isIndex(x: schema.Index, n: node) opaque = x.Name == text(kid(n, Index_name))[1:] && x.Type == idxType(n) && areTexts(x.Columns, kid(n, Column_name_list))

func kfparser.(*KFVisitor).VisitIndex_def(v, ctx) (r)
requires v != nil && ctx != nil && conf_Index_def(ctx)
reveal isIndex
shape r: *schema.Index
ensures [C10,C01,C02] isIndex(*val(r), ctx)
nopanic [C07]

fun fkOn(n: node): schema.ForeignKeyActionOn = ite(tok(n, ACTION_ON_UPDATE_), "UPDATE", "DELETE")
fun fkDo(n: node): schema.ForeignKeyActionDo = ite(tok(n, ACTION_DO_NO_ACTION_), "NO ACTION", ite(tok(n, ACTION_DO_RESTRICT_), "RESTRICT", ite(tok(n, ACTION_DO_SET_NULL_), "SET NULL", ite(tok(n, ACTION_DO_SET_DEFAULT_), "SET DEFAULT", "CASCADE"))))
pred isReaction(x: schema.ForeignKeyAction, n: node) = x.On == fkOn(n) && x.Do == fkDo(n)

func kfparser.(*KFVisitor).VisitForeign_key_action(v, ctx) (r)
requires v != nil && ctx != nil && conf_Foreign_key_action(ctx)
shape r: *schema.ForeignKeyAction
ensures [C10,C01] isReaction(*val(r), ctx)
nopanic [C07]

pred isFk(x: schema.ForeignKey, n: node) opaque = areTexts(x.ChildKeys, kid(n, Column_name_list, 0)) && x.ParentTable == text(kid(n, Table_name)) && areTexts(x.ParentKeys, kid(n, Column_name_list, 1))
  && len(x.Actions) == cnt(n, Foreign_key_action) && (forall i: int {x.Actions[i]} {kid(n, Foreign_key_action, i)} :: 0 <= i && i < cnt(n, Foreign_key_action) ==> isReaction(x.Actions[i], kid(n, Foreign_key_action, i)))

func kfparser.(*KFVisitor).VisitForeign_key_def(v, ctx) (r)
requires v != nil && ctx != nil && conf_Foreign_key_def(ctx)
reveal isFk
shape r: *schema.ForeignKey
ensures [C10,C01,C02] isFk(*val(r), ctx)
nopanic [C07]
loop over cnt(ctx, Foreign_key_action) as i
invariant any a: []schema.ForeignKeyAction :: len(a) == cnt(ctx, Foreign_key_action)
invariant any a: []schema.ForeignKeyAction :: len(a) == i
invariant any a: []schema.ForeignKeyAction :: forall k: int :: 0 <= k && k < i ==> isReaction(a[k], kid(ctx, Foreign_key_action, k))

pred isTable09(t: schema.Table, n: node) = t.Name == text(kid(n, Table_name)) && areColumns(t.Columns, kid(n, Column_def_list))
pred areIndexes(xs: []schema.Index, n: node) opaque = len(xs) == cnt(n, Index_def) && (forall i: int {xs[i]} {kid(n, Index_def, i)} :: 0 <= i && i < cnt(n, Index_def) ==> isIndex(xs[i], kid(n, Index_def, i)))
pred areFks(xs: []schema.ForeignKey, n: node) opaque = len(xs) == cnt(n, Foreign_key_def) && (forall i: int {xs[i]} {kid(n, Foreign_key_def, i)} :: 0 <= i && i < cnt(n, Foreign_key_def) ==> isFk(xs[i], kid(n, Foreign_key_def, i)))

func kfparser.(*KFVisitor).VisitTable_decl(v, ctx) (r)
requires v != nil && ctx != nil && conf_Table_decl(ctx)
reveal areIndexes, areFks
shape r: *schema.Table
ensures [C09,C01,C02,C03] isTable09(*val(r), ctx)
ensures [C10,C01,C02] areIndexes(val(r).Indexes, ctx)
ensures [C10,C01,C02] areFks(val(r).ForeignKeys, ctx)
nopanic [C07]
loop over cnt(ctx, Index_def) as i
invariant any a: []schema.Index :: len(a) == cnt(ctx, Index_def)
invariant any a: []schema.Index :: len(a) == i
invariant any a: []schema.Index :: forall k: int :: 0 <= k && k < i ==> isIndex(a[k], kid(ctx, Index_def, k))
loop over cnt(ctx, Foreign_key_def) as i
invariant any a: []schema.ForeignKey :: len(a) == cnt(ctx, Foreign_key_def)
invariant any a: []schema.ForeignKey :: len(a) == i
invariant any a: []schema.ForeignKey :: forall k: int :: 0 <= k && k < i ==> isFk(a[k], kid(ctx, Foreign_key_def, k))

// ---- actions (C11, C12) -----------------------------------------------------------------

pred areParams(cs: []string, n: node) opaque = len(cs) == cnt(n, Parameter) && (forall i: int {cs[i]} {kid(n, Parameter, i)} :: 0 <= i && i < cnt(n, Parameter) ==> cs[i] == text(kid(n, Parameter, i)))

func kfparser.(*KFVisitor).VisitParam_list(v, ctx) (r)
requires v != nil && ctx != nil && conf_Param_list(ctx)
reveal areParams
shape r: []string
ensures [C11,C01,C05] areParams(val(r), ctx)
nopanic [C07]
loop over cnt(ctx, Parameter) as i
invariant any a: []string :: len(a) == cnt(ctx, Parameter)
invariant any a: []string :: len(a) == i
invariant any a: []string :: forall k: int :: 0 <= k && k < i ==> a[k] == text(kid(ctx, Parameter, k))

fun stmtSource(n: node): string
func kfparser.(*KFVisitor).VisitAction_stmt(v, ctx) (r)
requires v != nil && ctx != nil && conf_Action_stmt(ctx)
shape r: string
ensures [C11,C04,C05,C06] val(r) == trim(stmtSource(ctx))
nopanic [C07]

pred areStmts(cs: []string, n: node) opaque = len(cs) == cnt(n, Action_stmt) && (forall i: int {cs[i]} {kid(n, Action_stmt, i)} :: 0 <= i && i < cnt(n, Action_stmt) ==> cs[i] == trim(stmtSource(kid(n, Action_stmt, i))))

func kfparser.(*KFVisitor).VisitAction_stmt_list(v, ctx) (r)
requires v != nil && ctx != nil && conf_Action_stmt_list(ctx)
reveal areStmts
shape r: []string
ensures [C11,C04,C05,C06] areStmts(val(r), ctx)
nopanic [C07]
loop over cnt(ctx, Action_stmt) as i
invariant any a: []string :: len(a) == cnt(ctx, Action_stmt)
invariant any a: []string :: len(a) == i
invariant any a: []string :: forall k: int :: 0 <= k && k < i ==> a[k] == trim(stmtSource(kid(ctx, Action_stmt, k)))

func kfparser.(*KFVisitor).VisitAnnotation_decl(v, ctx) (r)
requires v != nil && ctx != nil && conf_Annotation_decl(ctx)
shape r: string
ensures [C11] val(r) == text(ctx)[1:]
nopanic [C07]

pred isInit(a: schema.Action, n: node) opaque = a.Name == "init" && a.Mutability == "update" && !a.Public && len(a.Inputs) == 0 && len(a.Annotations) == 0 && len(a.Auxiliaries) == 0 && areStmts(a.Statements, kid(n, Action_stmt_list))

func kfparser.(*KFVisitor).VisitInit_decl(v, ctx) (r)
requires v != nil && ctx != nil && conf_Init_decl(ctx)
reveal isInit
shape r: schema.Action
ensures [C11,C12,C04,C05,C06] isInit(val(r), ctx)
nopanic [C07]

fun isPublic(n: node): bool = cnt(n, Action_visibility) > 0 && tok(kid(n, Action_visibility, 0), PUBLIC_)
fun mutabilityOf(n: node): schema.MutabilityType = ite(cnt(n, Action_mutability) > 0, "view", "update")
pred dupVisibility(n: node) opaque = cnt(n, Action_visibility) >= 2
pred dupMutability(n: node) opaque = cnt(n, Action_mutability) >= 2
pred dupAuxiliary(n: node) opaque = cnt(n, Action_auxiliary) >= 2
pred areAux(xs: []schema.AuxiliaryType, n: node) opaque = len(xs) == cnt(n, Action_auxiliary) && (forall i: int :: 0 <= i && i < len(xs) ==> xs[i] == "owner")

pred panicBlames(p: any, s: error) = isType(p, error) && blames(as(p, error), s)

func kfparser.(*KFVisitor).VisitAction_attr_list(v, ctx) (r)
requires v != nil && (ctx != nil ==> conf_Action_attr_list(ctx))
reveal dupVisibility, dupMutability, dupAuxiliary, areAux
shape r: *kfparser.actionAttrs
ensures [C12] ctx != nil ==> (val(r).public <==> isPublic(ctx)) && val(r).mutability == mutabilityOf(ctx)
ensures [C12] ctx != nil ==> areAux(val(r).auxs, ctx)
ensures [C12] ctx != nil ==> !dupVisibility(ctx)
ensures [C12] ctx != nil ==> !dupMutability(ctx)
ensures [C12] ctx != nil ==> !dupAuxiliary(ctx)
exsures [C12,C08,C07] ctx != nil && ((dupVisibility(ctx) && panicBlames(panicval, schema.ErrActionVisibilityAlreadySet)) || (dupMutability(ctx) && panicBlames(panicval, schema.ErrActionMutabilityAlreadySet))
  || (dupAuxiliary(ctx) && panicBlames(panicval, schema.ErrActionAuxiliaryAlreadySet)))
loop over cnt(ctx, Action_auxiliary) as i
invariant any a: []schema.AuxiliaryType :: len(a) == cnt(ctx, Action_auxiliary)
invariant any a: []schema.AuxiliaryType :: len(a) == i
invariant any a: []schema.AuxiliaryType :: forall k: int :: 0 <= k && k < i ==> a[k] == "owner"
invariant any m: map[string]any :: forall x: string :: x in m <==> i > 0 && x == "owner"
invariant any m: map[string]bool :: forall x: string :: m[x] <==> i > 0 && x == "owner"
invariant i <= 1

// ---- statement text ------------------------------------------------------------------------
// A statement is written as its tokens; a blank separates two tokens that
// would otherwise read as one word.

fun kidsOf(t: antlr.Tree): []antlr.Tree
fun srcText(t: antlr.Tree): string
fun srcJoin(t: antlr.Tree, k: int): string
pred isLeaf(t: antlr.Tree) = isType(t, antlr.TerminalNode)
pred wordChar(c: int) = c == 95 || (48 <= c && c <= 57) || (97 <= c && c <= 122) || (65 <= c && c <= 90)
pred digit(c: int) = 48 <= c && c <= 57
pred joins(a: string, b: string) opaque = b != "" && wordChar(b[0]) && exists i: int :: 0 <= i && i < len(a) && !digit(a[i]) && (forall j: int :: i <= j && j < len(a) ==> wordChar(a[j]))
axiom srcLeaf = forall t: antlr.Tree {srcText(t)} :: isLeaf(t) ==> srcText(t) == text(t)
axiom srcNode = forall t: antlr.Tree {srcText(t)} :: !isLeaf(t) ==> srcText(t) == srcJoin(t, len(kidsOf(t)))
axiom srcNone = forall t: antlr.Tree {srcJoin(t, 0)} :: srcJoin(t, 0) == ""
axiom srcStep = forall t: antlr.Tree, k: int {srcJoin(t, k), kidsOf(t)[k]} :: 0 <= k && k < len(kidsOf(t)) ==> srcJoin(t, k+1) == ite(joins(srcJoin(t, k), srcText(kidsOf(t)[k])), srcJoin(t, k) + " " + srcText(kidsOf(t)[k]), srcJoin(t, k) + srcText(kidsOf(t)[k]))
axiom srcStmt = forall n: *kfgrammar.Action_stmtContext {stmtSource(n)} :: stmtSource(n) == srcText(n)

trusted func iface antlr.Tree.GetChildren(t) (r)
result r = kidsOf(t)
ensures forall i: int {r[i]} :: 0 <= i && i < len(r) ==> r[i] != nil
pure
why "syntax tree nodes of the antlr runtime list their children"

func kfparser.stmtText(t) (r)
requires t != nil
ensures [C11,C04,C05,C06,C07] r == srcText(t)
nopanic [C07]
loop over kidsOf(t) as i
invariant any s: string :: s == srcJoin(t, i)

func kfparser.joinsWords(left, right) (r)
reveal joins
ensures [C11,C07] r <==> joins(left, right)
nopanic [C07]
loop over left as n
invariant forall j: int :: len(left) - n <= j && j < len(left) ==> wordChar(left[j]) && digit(left[j])

func kfparser.isWordChar(c) (r)
ensures [C11,C07] r <==> wordChar(c)
nopanic [C07]

pred areNotes(cs: []string, n: node) opaque = len(cs) == cnt(n, Annotation_decl) && (forall i: int {cs[i]} {kid(n, Annotation_decl, i)} :: 0 <= i && i < cnt(n, Annotation_decl) ==> cs[i] == text(kid(n, Annotation_decl, i))[1:])
pred isAction11(a: schema.Action, n: node) opaque = a.Name == text(kid(n, Action_name)) && areNotes(a.Annotations, n) && areParams(a.Inputs, kid(n, Param_list)) && areStmts(a.Statements, kid(n, Action_stmt_list))
pred isAction12(a: schema.Action, n: node) opaque = (a.Public <==> isPublic(kid(n, Action_attr_list))) && a.Mutability == mutabilityOf(kid(n, Action_attr_list)) && areAux(a.Auxiliaries, kid(n, Action_attr_list))
pred dupActionAttr(n: node) opaque = dupVisibility(kid(n, Action_attr_list)) || dupMutability(kid(n, Action_attr_list)) || dupAuxiliary(kid(n, Action_attr_list))
pred attrPanic(p: any, n: node) opaque = (dupVisibility(kid(n, Action_attr_list)) && panicBlames(p, schema.ErrActionVisibilityAlreadySet)) || (dupMutability(kid(n, Action_attr_list)) && panicBlames(p, schema.ErrActionMutabilityAlreadySet))
  || (dupAuxiliary(kid(n, Action_attr_list)) && panicBlames(p, schema.ErrActionAuxiliaryAlreadySet))

func kfparser.(*KFVisitor).VisitAction_decl(v, ctx) (r)
requires v != nil && ctx != nil && conf_Action_decl(ctx)
reveal areNotes, areParams, isAction11, isAction12, dupActionAttr, attrPanic
shape r: schema.Action
ensures [C11,C01,C04,C05,C06] isAction11(val(r), ctx)
ensures [C12] isAction12(val(r), ctx)
ensures [C12] !dupActionAttr(ctx)
exsures [C12,C08,C07] attrPanic(panicval, ctx)
loop over cnt(ctx, Annotation_decl) as i
invariant any a: []string :: len(a) == cnt(ctx, Annotation_decl)
invariant any a: []string :: len(a) == i
invariant any a: []string :: forall k: int :: 0 <= k && k < i ==> a[k] == text(kid(ctx, Annotation_decl, k))[1:]

// ---- extensions (C13) ---------------------------------------------------------------------

pred isConfig(c: schema.ExtensionConfig, n: node) = c.Argument == text(kid(n, Ext_config_name)) && c.Value == text(kid(n, Ext_config_value))
pred areConfigs(cs: []schema.ExtensionConfig, n: node) opaque = len(cs) == cnt(n, Ext_config) && (forall i: int {cs[i]} {kid(n, Ext_config, i)} :: 0 <= i && i < cnt(n, Ext_config) ==> isConfig(cs[i], kid(n, Ext_config, i)))

func kfparser.(*KFVisitor).VisitExt_config_list(v, ctx) (r)
requires v != nil && ctx != nil && conf_Ext_config_list(ctx)
reveal areConfigs
shape r: []schema.ExtensionConfig
ensures [C13] areConfigs(val(r), ctx)
nopanic [C07]
loop over cnt(ctx, Ext_config) as i
invariant any a: []schema.ExtensionConfig :: len(a) == cnt(ctx, Ext_config)
invariant any a: []schema.ExtensionConfig :: len(a) == i
invariant any a: []schema.ExtensionConfig :: forall k: int :: 0 <= k && k < i ==> isConfig(a[k], kid(ctx, Ext_config, k))

pred isExtension(x: schema.Extension, n: node) opaque = x.Name == text(kid(n, Extension_name, 0)) && x.Alias == text(kid(n, Extension_name, 1))
  && (cnt(n, Ext_config_list) == 1 ==> areConfigs(x.Config, kid(n, Ext_config_list, 0))) && (cnt(n, Ext_config_list) == 0 ==> len(x.Config) == 0)

func kfparser.(*KFVisitor).VisitExtension_directive(v, ctx) (r)
requires v != nil && ctx != nil && conf_Extension_directive(ctx)
reveal isExtension
shape r: *schema.Extension
ensures [C13,C01,C06] isExtension(*val(r), ctx)
nopanic [C07]

// ---- the whole declaration ------------------------------------------------------------------

pred areTables09(ts: []schema.Table, n: node) opaque = len(ts) == cnt(n, Table_decl) && (forall i: int {ts[i]} {kid(n, Table_decl, i)} :: 0 <= i && i < cnt(n, Table_decl) ==> isTable09(ts[i], kid(n, Table_decl, i)))
pred areTables10(ts: []schema.Table, n: node) opaque = len(ts) == cnt(n, Table_decl) && (forall i: int {ts[i]} {kid(n, Table_decl, i)} :: 0 <= i && i < cnt(n, Table_decl) ==> areIndexes(ts[i].Indexes, kid(n, Table_decl, i)) && areFks(ts[i].ForeignKeys, kid(n, Table_decl, i)))
pred areActions11(ts: []schema.Action, n: node) opaque = len(ts) == cnt(n, Action_decl) + cnt(n, Init_decl) && (forall i: int {ts[i]} {kid(n, Action_decl, i)} :: 0 <= i && i < cnt(n, Action_decl) ==> isAction11(ts[i], kid(n, Action_decl, i)))
pred areActions12(ts: []schema.Action, n: node) opaque = len(ts) == cnt(n, Action_decl) + cnt(n, Init_decl) && (forall i: int {ts[i]} {kid(n, Action_decl, i)} :: 0 <= i && i < cnt(n, Action_decl) ==> isAction12(ts[i], kid(n, Action_decl, i)) && !dupActionAttr(kid(n, Action_decl, i)))
  && (cnt(n, Init_decl) > 0 ==> isInit(ts[cnt(n, Action_decl)], kid(n, Init_decl, 0)))
pred areExts(ts: []schema.Extension, n: node) opaque = len(ts) == cnt(n, Extension_directive) && (forall i: int {ts[i]} {kid(n, Extension_directive, i)} :: 0 <= i && i < cnt(n, Extension_directive) ==> isExtension(ts[i], kid(n, Extension_directive, i)))
pred buildPanic(p: any, n: node) opaque = (cnt(n, Init_decl) > 1 && panicBlames(p, schema.ErrMultiInit)) || exists i: int {kid(n, Action_decl, i)} :: 0 <= i && i < cnt(n, Action_decl) && attrPanic(p, kid(n, Action_decl, i))

func kfparser.(*KFVisitor).VisitSource_unit(v, ctx) (r)
requires v != nil && ctx != nil && conf_Source_unit(ctx)
reveal areTables09, areTables10, areActions11, areActions12, areExts, buildPanic
shape r: *schema.Schema
ensures [C13] val(r).Name == text(kid(kid(ctx, Database_directive), Database_name))
ensures [C13] val(r).Owner == ""
ensures [C09,C01,C02,C03] areTables09(val(r).Tables, ctx)
ensures [C10,C01,C02] areTables10(val(r).Tables, ctx)
ensures [C11,C01,C04,C05,C06] areActions11(val(r).Actions, ctx)
ensures [C12] areActions12(val(r).Actions, ctx)
ensures [C12] cnt(ctx, Init_decl) <= 1
ensures [C13,C01,C06] areExts(val(r).Extensions, ctx)
exsures [C12,C08,C07] buildPanic(panicval, ctx)
loop over cnt(ctx, Extension_directive) as i
invariant any a: []schema.Extension :: len(a) == cnt(ctx, Extension_directive)
invariant any a: []schema.Extension :: len(a) == i
invariant any a: []schema.Extension :: forall k: int :: 0 <= k && k < i ==> isExtension(a[k], kid(ctx, Extension_directive, k))
loop over cnt(ctx, Table_decl) as i
invariant any a: []schema.Table :: len(a) == cnt(ctx, Table_decl)
invariant any a: []schema.Table :: len(a) == i
invariant any a: []schema.Table :: forall k: int :: 0 <= k && k < i ==> isTable09(a[k], kid(ctx, Table_decl, k))
invariant any a: []schema.Table :: forall k: int :: 0 <= k && k < i ==> areIndexes(a[k].Indexes, kid(ctx, Table_decl, k)) && areFks(a[k].ForeignKeys, kid(ctx, Table_decl, k))
loop over cnt(ctx, Action_decl) as i
invariant any a: []schema.Action :: len(a) == cnt(ctx, Action_decl) + cnt(ctx, Init_decl)
invariant any a: []schema.Action :: len(a) == cnt(ctx, Action_decl)
invariant any a: []schema.Action :: len(a) == i
invariant any a: []schema.Action :: forall k: int :: 0 <= k && k < i ==> isAction11(a[k], kid(ctx, Action_decl, k))
invariant any a: []schema.Action :: forall k: int :: 0 <= k && k < i ==> isAction12(a[k], kid(ctx, Action_decl, k)) && !dupActionAttr(kid(ctx, Action_decl, k))
