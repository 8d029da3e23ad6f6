// generated by tools/genacc.py: one contract per accessor of a syntax tree node
fun childList(p: *antlr.BaseParserRuleContext): []antlr.Tree
fun tokenAt(p: *antlr.BaseParserRuleContext, t: int, i: int): antlr.TerminalNode
fun tokensOf(p: *antlr.BaseParserRuleContext, t: int): []antlr.TerminalNode
trusted func antlr.(*BaseParserRuleContext).GetChildren(p) (r)
result r = childList(p)
why "antlr runtime: the children of the node"
trusted func antlr.(*BaseParserRuleContext).GetToken(p, t, i) (r)
result r = tokenAt(p, t, i)
why "antlr runtime: the i-th token child of type t, nil if there is none"
trusted func antlr.(*BaseParserRuleContext).GetTokens(p, t) (r)
result r = tokensOf(p, t)
why "antlr runtime: the token children of type t, in order"

func kfgrammar.(*Source_unitContext).Database_directive(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IDatabase_directiveContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IDatabase_directiveContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IDatabase_directiveContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IDatabase_directiveContext)

func kfgrammar.(*Source_unitContext).SCOL(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserSCOL, 0)

func kfgrammar.(*Source_unitContext).EOF(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserEOF, 0)

func kfgrammar.(*Source_unitContext).AllExtension_directive(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IExtension_directiveContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IExtension_directiveContext) ==> r[count(c, k, kfgrammar.IExtension_directiveContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IExtension_directiveContext)
invariant any l: []kfgrammar.IExtension_directiveContext :: len(l) == count(c, len(c), kfgrammar.IExtension_directiveContext)
invariant any l: []kfgrammar.IExtension_directiveContext :: len(l) == count(c, p, kfgrammar.IExtension_directiveContext)
invariant any l: []kfgrammar.IExtension_directiveContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IExtension_directiveContext) ==> l[count(c, k, kfgrammar.IExtension_directiveContext)] == c[k]

func kfgrammar.(*Source_unitContext).Extension_directive(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IExtension_directiveContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IExtension_directiveContext) && count(c, k, kfgrammar.IExtension_directiveContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IExtension_directiveContext)
invariant any j: int :: j == count(c, p, kfgrammar.IExtension_directiveContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IExtension_directiveContext)
invariant i < 0 || count(c, p, kfgrammar.IExtension_directiveContext) <= i

func kfgrammar.(*Source_unitContext).AllTable_decl(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.ITable_declContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.ITable_declContext) ==> r[count(c, k, kfgrammar.ITable_declContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.ITable_declContext)
invariant any l: []kfgrammar.ITable_declContext :: len(l) == count(c, len(c), kfgrammar.ITable_declContext)
invariant any l: []kfgrammar.ITable_declContext :: len(l) == count(c, p, kfgrammar.ITable_declContext)
invariant any l: []kfgrammar.ITable_declContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.ITable_declContext) ==> l[count(c, k, kfgrammar.ITable_declContext)] == c[k]

func kfgrammar.(*Source_unitContext).Table_decl(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.ITable_declContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.ITable_declContext) && count(c, k, kfgrammar.ITable_declContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.ITable_declContext)
invariant any j: int :: j == count(c, p, kfgrammar.ITable_declContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.ITable_declContext)
invariant i < 0 || count(c, p, kfgrammar.ITable_declContext) <= i

func kfgrammar.(*Source_unitContext).AllAction_decl(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IAction_declContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_declContext) ==> r[count(c, k, kfgrammar.IAction_declContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IAction_declContext)
invariant any l: []kfgrammar.IAction_declContext :: len(l) == count(c, len(c), kfgrammar.IAction_declContext)
invariant any l: []kfgrammar.IAction_declContext :: len(l) == count(c, p, kfgrammar.IAction_declContext)
invariant any l: []kfgrammar.IAction_declContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IAction_declContext) ==> l[count(c, k, kfgrammar.IAction_declContext)] == c[k]

func kfgrammar.(*Source_unitContext).Action_decl(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IAction_declContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_declContext) && count(c, k, kfgrammar.IAction_declContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IAction_declContext)
invariant any j: int :: j == count(c, p, kfgrammar.IAction_declContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IAction_declContext)
invariant i < 0 || count(c, p, kfgrammar.IAction_declContext) <= i

func kfgrammar.(*Source_unitContext).AllInit_decl(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IInit_declContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IInit_declContext) ==> r[count(c, k, kfgrammar.IInit_declContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IInit_declContext)
invariant any l: []kfgrammar.IInit_declContext :: len(l) == count(c, len(c), kfgrammar.IInit_declContext)
invariant any l: []kfgrammar.IInit_declContext :: len(l) == count(c, p, kfgrammar.IInit_declContext)
invariant any l: []kfgrammar.IInit_declContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IInit_declContext) ==> l[count(c, k, kfgrammar.IInit_declContext)] == c[k]

func kfgrammar.(*Source_unitContext).Init_decl(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IInit_declContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IInit_declContext) && count(c, k, kfgrammar.IInit_declContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IInit_declContext)
invariant any j: int :: j == count(c, p, kfgrammar.IInit_declContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IInit_declContext)
invariant i < 0 || count(c, p, kfgrammar.IInit_declContext) <= i

func kfgrammar.(*Source_unitContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Source_unitContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitSource_unit, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitSource_unit") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitSource_unit", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitSource_unit", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitSource_unit", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitSource_unit") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Database_directiveContext).DATABASE_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserDATABASE_, 0)

func kfgrammar.(*Database_directiveContext).Database_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IDatabase_nameContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IDatabase_nameContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IDatabase_nameContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IDatabase_nameContext)

func kfgrammar.(*Database_directiveContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Database_directiveContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitDatabase_directive, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitDatabase_directive") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitDatabase_directive", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitDatabase_directive", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitDatabase_directive", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitDatabase_directive") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Extension_directiveContext).USE_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserUSE_, 0)

func kfgrammar.(*Extension_directiveContext).AllExtension_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IExtension_nameContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IExtension_nameContext) ==> r[count(c, k, kfgrammar.IExtension_nameContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IExtension_nameContext)
invariant any l: []kfgrammar.IExtension_nameContext :: len(l) == count(c, len(c), kfgrammar.IExtension_nameContext)
invariant any l: []kfgrammar.IExtension_nameContext :: len(l) == count(c, p, kfgrammar.IExtension_nameContext)
invariant any l: []kfgrammar.IExtension_nameContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IExtension_nameContext) ==> l[count(c, k, kfgrammar.IExtension_nameContext)] == c[k]

func kfgrammar.(*Extension_directiveContext).Extension_name(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IExtension_nameContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IExtension_nameContext) && count(c, k, kfgrammar.IExtension_nameContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IExtension_nameContext)
invariant any j: int :: j == count(c, p, kfgrammar.IExtension_nameContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IExtension_nameContext)
invariant i < 0 || count(c, p, kfgrammar.IExtension_nameContext) <= i

func kfgrammar.(*Extension_directiveContext).AS_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserAS_, 0)

func kfgrammar.(*Extension_directiveContext).SCOL(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserSCOL, 0)

func kfgrammar.(*Extension_directiveContext).L_BRACE(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserL_BRACE, 0)

func kfgrammar.(*Extension_directiveContext).Ext_config_list(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IExt_config_listContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IExt_config_listContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IExt_config_listContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IExt_config_listContext)

func kfgrammar.(*Extension_directiveContext).R_BRACE(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserR_BRACE, 0)

func kfgrammar.(*Extension_directiveContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Extension_directiveContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitExtension_directive, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitExtension_directive") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitExtension_directive", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitExtension_directive", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitExtension_directive", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitExtension_directive") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Ext_config_listContext).AllExt_config(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IExt_configContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IExt_configContext) ==> r[count(c, k, kfgrammar.IExt_configContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IExt_configContext)
invariant any l: []kfgrammar.IExt_configContext :: len(l) == count(c, len(c), kfgrammar.IExt_configContext)
invariant any l: []kfgrammar.IExt_configContext :: len(l) == count(c, p, kfgrammar.IExt_configContext)
invariant any l: []kfgrammar.IExt_configContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IExt_configContext) ==> l[count(c, k, kfgrammar.IExt_configContext)] == c[k]

func kfgrammar.(*Ext_config_listContext).Ext_config(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IExt_configContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IExt_configContext) && count(c, k, kfgrammar.IExt_configContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IExt_configContext)
invariant any j: int :: j == count(c, p, kfgrammar.IExt_configContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IExt_configContext)
invariant i < 0 || count(c, p, kfgrammar.IExt_configContext) <= i

func kfgrammar.(*Ext_config_listContext).AllCOMMA(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokensOf(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA)

func kfgrammar.(*Ext_config_listContext).COMMA(s, i) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA, i)

func kfgrammar.(*Ext_config_listContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Ext_config_listContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitExt_config_list, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_list") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_list", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_list", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_list", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_list") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Ext_configContext).Ext_config_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IExt_config_nameContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IExt_config_nameContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IExt_config_nameContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IExt_config_nameContext)

func kfgrammar.(*Ext_configContext).COL(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOL, 0)

func kfgrammar.(*Ext_configContext).Ext_config_value(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IExt_config_valueContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IExt_config_valueContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IExt_config_valueContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IExt_config_valueContext)

func kfgrammar.(*Ext_configContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Ext_configContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitExt_config, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitExt_config") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitExt_config", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitExt_config", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitExt_config", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitExt_config") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Annotation_declContext).Annotation_target_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IAnnotation_target_nameContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAnnotation_target_nameContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IAnnotation_target_nameContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IAnnotation_target_nameContext)

func kfgrammar.(*Annotation_declContext).L_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserL_PAREN, 0)

func kfgrammar.(*Annotation_declContext).Annotation_attr_list(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IAnnotation_attr_listContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAnnotation_attr_listContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IAnnotation_attr_listContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IAnnotation_attr_listContext)

func kfgrammar.(*Annotation_declContext).R_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserR_PAREN, 0)

func kfgrammar.(*Annotation_declContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Annotation_declContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_decl, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_decl") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_decl", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_decl", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_decl", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_decl") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Annotation_attr_listContext).AllAnnotation_attr(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IAnnotation_attrContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAnnotation_attrContext) ==> r[count(c, k, kfgrammar.IAnnotation_attrContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IAnnotation_attrContext)
invariant any l: []kfgrammar.IAnnotation_attrContext :: len(l) == count(c, len(c), kfgrammar.IAnnotation_attrContext)
invariant any l: []kfgrammar.IAnnotation_attrContext :: len(l) == count(c, p, kfgrammar.IAnnotation_attrContext)
invariant any l: []kfgrammar.IAnnotation_attrContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IAnnotation_attrContext) ==> l[count(c, k, kfgrammar.IAnnotation_attrContext)] == c[k]

func kfgrammar.(*Annotation_attr_listContext).Annotation_attr(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IAnnotation_attrContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAnnotation_attrContext) && count(c, k, kfgrammar.IAnnotation_attrContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IAnnotation_attrContext)
invariant any j: int :: j == count(c, p, kfgrammar.IAnnotation_attrContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IAnnotation_attrContext)
invariant i < 0 || count(c, p, kfgrammar.IAnnotation_attrContext) <= i

func kfgrammar.(*Annotation_attr_listContext).AllCOMMA(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokensOf(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA)

func kfgrammar.(*Annotation_attr_listContext).COMMA(s, i) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA, i)

func kfgrammar.(*Annotation_attr_listContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Annotation_attr_listContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_list, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_list") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_list", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_list", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_list", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_list") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Annotation_attrContext).Annotation_attr_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IAnnotation_attr_nameContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAnnotation_attr_nameContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IAnnotation_attr_nameContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IAnnotation_attr_nameContext)

func kfgrammar.(*Annotation_attrContext).ASSIGN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserASSIGN, 0)

func kfgrammar.(*Annotation_attrContext).Annotation_attr_value(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IAnnotation_attr_valueContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAnnotation_attr_valueContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IAnnotation_attr_valueContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IAnnotation_attr_valueContext)

func kfgrammar.(*Annotation_attrContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Annotation_attrContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Table_declContext).TABLE_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserTABLE_, 0)

func kfgrammar.(*Table_declContext).Table_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.ITable_nameContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.ITable_nameContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.ITable_nameContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.ITable_nameContext)

func kfgrammar.(*Table_declContext).L_BRACE(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserL_BRACE, 0)

func kfgrammar.(*Table_declContext).Column_def_list(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IColumn_def_listContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IColumn_def_listContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IColumn_def_listContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IColumn_def_listContext)

func kfgrammar.(*Table_declContext).R_BRACE(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserR_BRACE, 0)

func kfgrammar.(*Table_declContext).AllCOMMA(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokensOf(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA)

func kfgrammar.(*Table_declContext).COMMA(s, i) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA, i)

func kfgrammar.(*Table_declContext).AllIndex_def(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IIndex_defContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IIndex_defContext) ==> r[count(c, k, kfgrammar.IIndex_defContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IIndex_defContext)
invariant any l: []kfgrammar.IIndex_defContext :: len(l) == count(c, len(c), kfgrammar.IIndex_defContext)
invariant any l: []kfgrammar.IIndex_defContext :: len(l) == count(c, p, kfgrammar.IIndex_defContext)
invariant any l: []kfgrammar.IIndex_defContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IIndex_defContext) ==> l[count(c, k, kfgrammar.IIndex_defContext)] == c[k]

func kfgrammar.(*Table_declContext).Index_def(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IIndex_defContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IIndex_defContext) && count(c, k, kfgrammar.IIndex_defContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IIndex_defContext)
invariant any j: int :: j == count(c, p, kfgrammar.IIndex_defContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IIndex_defContext)
invariant i < 0 || count(c, p, kfgrammar.IIndex_defContext) <= i

func kfgrammar.(*Table_declContext).AllForeign_key_def(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IForeign_key_defContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IForeign_key_defContext) ==> r[count(c, k, kfgrammar.IForeign_key_defContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IForeign_key_defContext)
invariant any l: []kfgrammar.IForeign_key_defContext :: len(l) == count(c, len(c), kfgrammar.IForeign_key_defContext)
invariant any l: []kfgrammar.IForeign_key_defContext :: len(l) == count(c, p, kfgrammar.IForeign_key_defContext)
invariant any l: []kfgrammar.IForeign_key_defContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IForeign_key_defContext) ==> l[count(c, k, kfgrammar.IForeign_key_defContext)] == c[k]

func kfgrammar.(*Table_declContext).Foreign_key_def(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IForeign_key_defContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IForeign_key_defContext) && count(c, k, kfgrammar.IForeign_key_defContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IForeign_key_defContext)
invariant any j: int :: j == count(c, p, kfgrammar.IForeign_key_defContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IForeign_key_defContext)
invariant i < 0 || count(c, p, kfgrammar.IForeign_key_defContext) <= i

func kfgrammar.(*Table_declContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Table_declContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitTable_decl, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitTable_decl") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitTable_decl", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitTable_decl", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitTable_decl", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitTable_decl") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Column_defContext).Column_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IColumn_nameContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IColumn_nameContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IColumn_nameContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IColumn_nameContext)

func kfgrammar.(*Column_defContext).Column_type(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IColumn_typeContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IColumn_typeContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IColumn_typeContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IColumn_typeContext)

func kfgrammar.(*Column_defContext).AllColumn_constraint(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IColumn_constraintContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IColumn_constraintContext) ==> r[count(c, k, kfgrammar.IColumn_constraintContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IColumn_constraintContext)
invariant any l: []kfgrammar.IColumn_constraintContext :: len(l) == count(c, len(c), kfgrammar.IColumn_constraintContext)
invariant any l: []kfgrammar.IColumn_constraintContext :: len(l) == count(c, p, kfgrammar.IColumn_constraintContext)
invariant any l: []kfgrammar.IColumn_constraintContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IColumn_constraintContext) ==> l[count(c, k, kfgrammar.IColumn_constraintContext)] == c[k]

func kfgrammar.(*Column_defContext).Column_constraint(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IColumn_constraintContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IColumn_constraintContext) && count(c, k, kfgrammar.IColumn_constraintContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IColumn_constraintContext)
invariant any j: int :: j == count(c, p, kfgrammar.IColumn_constraintContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IColumn_constraintContext)
invariant i < 0 || count(c, p, kfgrammar.IColumn_constraintContext) <= i

func kfgrammar.(*Column_defContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Column_defContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitColumn_def, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitColumn_def") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitColumn_def", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitColumn_def", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitColumn_def", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitColumn_def") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Column_def_listContext).AllColumn_def(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IColumn_defContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IColumn_defContext) ==> r[count(c, k, kfgrammar.IColumn_defContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IColumn_defContext)
invariant any l: []kfgrammar.IColumn_defContext :: len(l) == count(c, len(c), kfgrammar.IColumn_defContext)
invariant any l: []kfgrammar.IColumn_defContext :: len(l) == count(c, p, kfgrammar.IColumn_defContext)
invariant any l: []kfgrammar.IColumn_defContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IColumn_defContext) ==> l[count(c, k, kfgrammar.IColumn_defContext)] == c[k]

func kfgrammar.(*Column_def_listContext).Column_def(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IColumn_defContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IColumn_defContext) && count(c, k, kfgrammar.IColumn_defContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IColumn_defContext)
invariant any j: int :: j == count(c, p, kfgrammar.IColumn_defContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IColumn_defContext)
invariant i < 0 || count(c, p, kfgrammar.IColumn_defContext) <= i

func kfgrammar.(*Column_def_listContext).AllCOMMA(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokensOf(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA)

func kfgrammar.(*Column_def_listContext).COMMA(s, i) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA, i)

func kfgrammar.(*Column_def_listContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Column_def_listContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitColumn_def_list, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitColumn_def_list") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitColumn_def_list", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitColumn_def_list", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitColumn_def_list", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitColumn_def_list") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Column_typeContext).INT_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserINT_, 0)

func kfgrammar.(*Column_typeContext).TEXT_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserTEXT_, 0)

func kfgrammar.(*Column_typeContext).BLOB_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserBLOB_, 0)

func kfgrammar.(*Column_typeContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Column_typeContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitColumn_type, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitColumn_type") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitColumn_type", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitColumn_type", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitColumn_type", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitColumn_type") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Column_constraintContext).PRIMARY_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserPRIMARY_, 0)

func kfgrammar.(*Column_constraintContext).NOT_NULL_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserNOT_NULL_, 0)

func kfgrammar.(*Column_constraintContext).UNIQUE_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserUNIQUE_, 0)

func kfgrammar.(*Column_constraintContext).DEFAULT_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserDEFAULT_, 0)

func kfgrammar.(*Column_constraintContext).L_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserL_PAREN, 0)

func kfgrammar.(*Column_constraintContext).Literal_value(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.ILiteral_valueContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.ILiteral_valueContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.ILiteral_valueContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.ILiteral_valueContext)

func kfgrammar.(*Column_constraintContext).R_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserR_PAREN, 0)

func kfgrammar.(*Column_constraintContext).MIN_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserMIN_, 0)

func kfgrammar.(*Column_constraintContext).Number_value(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.INumber_valueContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.INumber_valueContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.INumber_valueContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.INumber_valueContext)

func kfgrammar.(*Column_constraintContext).MAX_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserMAX_, 0)

func kfgrammar.(*Column_constraintContext).MIN_LEN_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserMIN_LEN_, 0)

func kfgrammar.(*Column_constraintContext).MAX_LEN_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserMAX_LEN_, 0)

func kfgrammar.(*Column_constraintContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Column_constraintContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitColumn_constraint, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitColumn_constraint") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitColumn_constraint", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitColumn_constraint", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitColumn_constraint", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitColumn_constraint") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Literal_valueContext).STRING_LITERAL(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserSTRING_LITERAL, 0)

func kfgrammar.(*Literal_valueContext).UNSIGNED_NUMBER_LITERAL(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserUNSIGNED_NUMBER_LITERAL, 0)

func kfgrammar.(*Literal_valueContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Literal_valueContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitLiteral_value, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitLiteral_value") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitLiteral_value", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitLiteral_value", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitLiteral_value", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitLiteral_value") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Number_valueContext).UNSIGNED_NUMBER_LITERAL(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserUNSIGNED_NUMBER_LITERAL, 0)

func kfgrammar.(*Number_valueContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Number_valueContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitNumber_value, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitNumber_value") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitNumber_value", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitNumber_value", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitNumber_value", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitNumber_value") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Index_defContext).Index_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IIndex_nameContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IIndex_nameContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IIndex_nameContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IIndex_nameContext)

func kfgrammar.(*Index_defContext).L_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserL_PAREN, 0)

func kfgrammar.(*Index_defContext).Column_name_list(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IColumn_name_listContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IColumn_name_listContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IColumn_name_listContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IColumn_name_listContext)

func kfgrammar.(*Index_defContext).R_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserR_PAREN, 0)

func kfgrammar.(*Index_defContext).UNIQUE_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserUNIQUE_, 0)

func kfgrammar.(*Index_defContext).INDEX_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserINDEX_, 0)

func kfgrammar.(*Index_defContext).PRIMARY_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserPRIMARY_, 0)

func kfgrammar.(*Index_defContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Index_defContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitIndex_def, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitIndex_def") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitIndex_def", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitIndex_def", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitIndex_def", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitIndex_def") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Foreign_key_actionContext).ACTION_ON_UPDATE_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserACTION_ON_UPDATE_, 0)

func kfgrammar.(*Foreign_key_actionContext).ACTION_ON_DELETE_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserACTION_ON_DELETE_, 0)

func kfgrammar.(*Foreign_key_actionContext).ACTION_DO_NO_ACTION_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserACTION_DO_NO_ACTION_, 0)

func kfgrammar.(*Foreign_key_actionContext).ACTION_DO_RESTRICT_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserACTION_DO_RESTRICT_, 0)

func kfgrammar.(*Foreign_key_actionContext).ACTION_DO_SET_NULL_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserACTION_DO_SET_NULL_, 0)

func kfgrammar.(*Foreign_key_actionContext).ACTION_DO_SET_DEFAULT_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserACTION_DO_SET_DEFAULT_, 0)

func kfgrammar.(*Foreign_key_actionContext).ACTION_DO_CASCADE_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserACTION_DO_CASCADE_, 0)

func kfgrammar.(*Foreign_key_actionContext).ACTION_DO_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserACTION_DO_, 0)

func kfgrammar.(*Foreign_key_actionContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Foreign_key_actionContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitForeign_key_action, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitForeign_key_action") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitForeign_key_action", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitForeign_key_action", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitForeign_key_action", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitForeign_key_action") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Foreign_key_defContext).AllL_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokensOf(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserL_PAREN)

func kfgrammar.(*Foreign_key_defContext).L_PAREN(s, i) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserL_PAREN, i)

func kfgrammar.(*Foreign_key_defContext).AllColumn_name_list(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IColumn_name_listContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IColumn_name_listContext) ==> r[count(c, k, kfgrammar.IColumn_name_listContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IColumn_name_listContext)
invariant any l: []kfgrammar.IColumn_name_listContext :: len(l) == count(c, len(c), kfgrammar.IColumn_name_listContext)
invariant any l: []kfgrammar.IColumn_name_listContext :: len(l) == count(c, p, kfgrammar.IColumn_name_listContext)
invariant any l: []kfgrammar.IColumn_name_listContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IColumn_name_listContext) ==> l[count(c, k, kfgrammar.IColumn_name_listContext)] == c[k]

func kfgrammar.(*Foreign_key_defContext).Column_name_list(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IColumn_name_listContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IColumn_name_listContext) && count(c, k, kfgrammar.IColumn_name_listContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IColumn_name_listContext)
invariant any j: int :: j == count(c, p, kfgrammar.IColumn_name_listContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IColumn_name_listContext)
invariant i < 0 || count(c, p, kfgrammar.IColumn_name_listContext) <= i

func kfgrammar.(*Foreign_key_defContext).AllR_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokensOf(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserR_PAREN)

func kfgrammar.(*Foreign_key_defContext).R_PAREN(s, i) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserR_PAREN, i)

func kfgrammar.(*Foreign_key_defContext).Table_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.ITable_nameContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.ITable_nameContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.ITable_nameContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.ITable_nameContext)

func kfgrammar.(*Foreign_key_defContext).FOREIGN_KEY_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserFOREIGN_KEY_, 0)

func kfgrammar.(*Foreign_key_defContext).FOREIGN_KEY_ABBR_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserFOREIGN_KEY_ABBR_, 0)

func kfgrammar.(*Foreign_key_defContext).REFERENCES_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserREFERENCES_, 0)

func kfgrammar.(*Foreign_key_defContext).REFERENCES_ABBR_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserREFERENCES_ABBR_, 0)

func kfgrammar.(*Foreign_key_defContext).AllForeign_key_action(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IForeign_key_actionContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IForeign_key_actionContext) ==> r[count(c, k, kfgrammar.IForeign_key_actionContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IForeign_key_actionContext)
invariant any l: []kfgrammar.IForeign_key_actionContext :: len(l) == count(c, len(c), kfgrammar.IForeign_key_actionContext)
invariant any l: []kfgrammar.IForeign_key_actionContext :: len(l) == count(c, p, kfgrammar.IForeign_key_actionContext)
invariant any l: []kfgrammar.IForeign_key_actionContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IForeign_key_actionContext) ==> l[count(c, k, kfgrammar.IForeign_key_actionContext)] == c[k]

func kfgrammar.(*Foreign_key_defContext).Foreign_key_action(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IForeign_key_actionContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IForeign_key_actionContext) && count(c, k, kfgrammar.IForeign_key_actionContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IForeign_key_actionContext)
invariant any j: int :: j == count(c, p, kfgrammar.IForeign_key_actionContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IForeign_key_actionContext)
invariant i < 0 || count(c, p, kfgrammar.IForeign_key_actionContext) <= i

func kfgrammar.(*Foreign_key_defContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Foreign_key_defContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitForeign_key_def, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitForeign_key_def") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitForeign_key_def", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitForeign_key_def", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitForeign_key_def", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitForeign_key_def") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Action_visibilityContext).PUBLIC_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserPUBLIC_, 0)

func kfgrammar.(*Action_visibilityContext).PRIVATE_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserPRIVATE_, 0)

func kfgrammar.(*Action_visibilityContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Action_visibilityContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitAction_visibility, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_visibility") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_visibility", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_visibility", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitAction_visibility", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_visibility") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Action_mutabilityContext).VIEW_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserVIEW_, 0)

func kfgrammar.(*Action_mutabilityContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Action_mutabilityContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitAction_mutability, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_mutability") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_mutability", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_mutability", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitAction_mutability", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_mutability") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Action_auxiliaryContext).OWNER_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserOWNER_, 0)

func kfgrammar.(*Action_auxiliaryContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Action_auxiliaryContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitAction_auxiliary, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_auxiliary") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_auxiliary", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_auxiliary", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitAction_auxiliary", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_auxiliary") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Action_attr_listContext).AllAction_visibility(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IAction_visibilityContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_visibilityContext) ==> r[count(c, k, kfgrammar.IAction_visibilityContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IAction_visibilityContext)
invariant any l: []kfgrammar.IAction_visibilityContext :: len(l) == count(c, len(c), kfgrammar.IAction_visibilityContext)
invariant any l: []kfgrammar.IAction_visibilityContext :: len(l) == count(c, p, kfgrammar.IAction_visibilityContext)
invariant any l: []kfgrammar.IAction_visibilityContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IAction_visibilityContext) ==> l[count(c, k, kfgrammar.IAction_visibilityContext)] == c[k]

func kfgrammar.(*Action_attr_listContext).Action_visibility(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IAction_visibilityContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_visibilityContext) && count(c, k, kfgrammar.IAction_visibilityContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IAction_visibilityContext)
invariant any j: int :: j == count(c, p, kfgrammar.IAction_visibilityContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IAction_visibilityContext)
invariant i < 0 || count(c, p, kfgrammar.IAction_visibilityContext) <= i

func kfgrammar.(*Action_attr_listContext).AllAction_mutability(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IAction_mutabilityContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_mutabilityContext) ==> r[count(c, k, kfgrammar.IAction_mutabilityContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IAction_mutabilityContext)
invariant any l: []kfgrammar.IAction_mutabilityContext :: len(l) == count(c, len(c), kfgrammar.IAction_mutabilityContext)
invariant any l: []kfgrammar.IAction_mutabilityContext :: len(l) == count(c, p, kfgrammar.IAction_mutabilityContext)
invariant any l: []kfgrammar.IAction_mutabilityContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IAction_mutabilityContext) ==> l[count(c, k, kfgrammar.IAction_mutabilityContext)] == c[k]

func kfgrammar.(*Action_attr_listContext).Action_mutability(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IAction_mutabilityContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_mutabilityContext) && count(c, k, kfgrammar.IAction_mutabilityContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IAction_mutabilityContext)
invariant any j: int :: j == count(c, p, kfgrammar.IAction_mutabilityContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IAction_mutabilityContext)
invariant i < 0 || count(c, p, kfgrammar.IAction_mutabilityContext) <= i

func kfgrammar.(*Action_attr_listContext).AllAction_auxiliary(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IAction_auxiliaryContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_auxiliaryContext) ==> r[count(c, k, kfgrammar.IAction_auxiliaryContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IAction_auxiliaryContext)
invariant any l: []kfgrammar.IAction_auxiliaryContext :: len(l) == count(c, len(c), kfgrammar.IAction_auxiliaryContext)
invariant any l: []kfgrammar.IAction_auxiliaryContext :: len(l) == count(c, p, kfgrammar.IAction_auxiliaryContext)
invariant any l: []kfgrammar.IAction_auxiliaryContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IAction_auxiliaryContext) ==> l[count(c, k, kfgrammar.IAction_auxiliaryContext)] == c[k]

func kfgrammar.(*Action_attr_listContext).Action_auxiliary(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IAction_auxiliaryContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_auxiliaryContext) && count(c, k, kfgrammar.IAction_auxiliaryContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IAction_auxiliaryContext)
invariant any j: int :: j == count(c, p, kfgrammar.IAction_auxiliaryContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IAction_auxiliaryContext)
invariant i < 0 || count(c, p, kfgrammar.IAction_auxiliaryContext) <= i

func kfgrammar.(*Action_attr_listContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Action_attr_listContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitAction_attr_list, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_attr_list") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_attr_list", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_attr_list", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitAction_attr_list", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_attr_list") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Action_declContext).ACTION_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserACTION_, 0)

func kfgrammar.(*Action_declContext).Action_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IAction_nameContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_nameContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IAction_nameContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IAction_nameContext)

func kfgrammar.(*Action_declContext).L_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserL_PAREN, 0)

func kfgrammar.(*Action_declContext).Param_list(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IParam_listContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IParam_listContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IParam_listContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IParam_listContext)

func kfgrammar.(*Action_declContext).R_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserR_PAREN, 0)

func kfgrammar.(*Action_declContext).Action_attr_list(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IAction_attr_listContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_attr_listContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IAction_attr_listContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IAction_attr_listContext)

func kfgrammar.(*Action_declContext).L_BRACE(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserL_BRACE, 0)

func kfgrammar.(*Action_declContext).Action_stmt_list(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IAction_stmt_listContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_stmt_listContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IAction_stmt_listContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IAction_stmt_listContext)

func kfgrammar.(*Action_declContext).R_BRACE(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserR_BRACE, 0)

func kfgrammar.(*Action_declContext).AllAnnotation_decl(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IAnnotation_declContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAnnotation_declContext) ==> r[count(c, k, kfgrammar.IAnnotation_declContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IAnnotation_declContext)
invariant any l: []kfgrammar.IAnnotation_declContext :: len(l) == count(c, len(c), kfgrammar.IAnnotation_declContext)
invariant any l: []kfgrammar.IAnnotation_declContext :: len(l) == count(c, p, kfgrammar.IAnnotation_declContext)
invariant any l: []kfgrammar.IAnnotation_declContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IAnnotation_declContext) ==> l[count(c, k, kfgrammar.IAnnotation_declContext)] == c[k]

func kfgrammar.(*Action_declContext).Annotation_decl(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IAnnotation_declContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAnnotation_declContext) && count(c, k, kfgrammar.IAnnotation_declContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IAnnotation_declContext)
invariant any j: int :: j == count(c, p, kfgrammar.IAnnotation_declContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IAnnotation_declContext)
invariant i < 0 || count(c, p, kfgrammar.IAnnotation_declContext) <= i

func kfgrammar.(*Action_declContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Action_declContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitAction_decl, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_decl") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_decl", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_decl", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitAction_decl", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_decl") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Param_listContext).AllParameter(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IParameterContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IParameterContext) ==> r[count(c, k, kfgrammar.IParameterContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IParameterContext)
invariant any l: []kfgrammar.IParameterContext :: len(l) == count(c, len(c), kfgrammar.IParameterContext)
invariant any l: []kfgrammar.IParameterContext :: len(l) == count(c, p, kfgrammar.IParameterContext)
invariant any l: []kfgrammar.IParameterContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IParameterContext) ==> l[count(c, k, kfgrammar.IParameterContext)] == c[k]

func kfgrammar.(*Param_listContext).Parameter(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IParameterContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IParameterContext) && count(c, k, kfgrammar.IParameterContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IParameterContext)
invariant any j: int :: j == count(c, p, kfgrammar.IParameterContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IParameterContext)
invariant i < 0 || count(c, p, kfgrammar.IParameterContext) <= i

func kfgrammar.(*Param_listContext).AllCOMMA(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokensOf(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA)

func kfgrammar.(*Param_listContext).COMMA(s, i) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA, i)

func kfgrammar.(*Param_listContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Param_listContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitParam_list, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitParam_list") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitParam_list", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitParam_list", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitParam_list", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitParam_list") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*ParameterContext).PARAM_OR_VAR(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserPARAM_OR_VAR, 0)

func kfgrammar.(*ParameterContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*ParameterContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitParameter, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitParameter") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitParameter", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitParameter", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitParameter", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitParameter") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Database_nameContext).IDENTIFIER(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserIDENTIFIER, 0)

func kfgrammar.(*Database_nameContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Database_nameContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitDatabase_name, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitDatabase_name") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitDatabase_name", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitDatabase_name", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitDatabase_name", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitDatabase_name") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Extension_nameContext).IDENTIFIER(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserIDENTIFIER, 0)

func kfgrammar.(*Extension_nameContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Extension_nameContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitExtension_name, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitExtension_name") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitExtension_name", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitExtension_name", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitExtension_name", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitExtension_name") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Ext_config_nameContext).IDENTIFIER(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserIDENTIFIER, 0)

func kfgrammar.(*Ext_config_nameContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Ext_config_nameContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitExt_config_name, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_name") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_name", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_name", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_name", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_name") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Table_nameContext).IDENTIFIER(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserIDENTIFIER, 0)

func kfgrammar.(*Table_nameContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Table_nameContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitTable_name, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitTable_name") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitTable_name", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitTable_name", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitTable_name", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitTable_name") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Action_nameContext).IDENTIFIER(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserIDENTIFIER, 0)

func kfgrammar.(*Action_nameContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Action_nameContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitAction_name, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_name") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_name", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_name", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitAction_name", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_name") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Column_nameContext).IDENTIFIER(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserIDENTIFIER, 0)

func kfgrammar.(*Column_nameContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Column_nameContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitColumn_name, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitColumn_name") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitColumn_name", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitColumn_name", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitColumn_name", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitColumn_name") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Column_name_listContext).AllColumn_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IColumn_nameContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IColumn_nameContext) ==> r[count(c, k, kfgrammar.IColumn_nameContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IColumn_nameContext)
invariant any l: []kfgrammar.IColumn_nameContext :: len(l) == count(c, len(c), kfgrammar.IColumn_nameContext)
invariant any l: []kfgrammar.IColumn_nameContext :: len(l) == count(c, p, kfgrammar.IColumn_nameContext)
invariant any l: []kfgrammar.IColumn_nameContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IColumn_nameContext) ==> l[count(c, k, kfgrammar.IColumn_nameContext)] == c[k]

func kfgrammar.(*Column_name_listContext).Column_name(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IColumn_nameContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IColumn_nameContext) && count(c, k, kfgrammar.IColumn_nameContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IColumn_nameContext)
invariant any j: int :: j == count(c, p, kfgrammar.IColumn_nameContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IColumn_nameContext)
invariant i < 0 || count(c, p, kfgrammar.IColumn_nameContext) <= i

func kfgrammar.(*Column_name_listContext).AllCOMMA(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokensOf(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA)

func kfgrammar.(*Column_name_listContext).COMMA(s, i) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA, i)

func kfgrammar.(*Column_name_listContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Column_name_listContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitColumn_name_list, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitColumn_name_list") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitColumn_name_list", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitColumn_name_list", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitColumn_name_list", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitColumn_name_list") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Index_nameContext).INDEX_NAME(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserINDEX_NAME, 0)

func kfgrammar.(*Index_nameContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Index_nameContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitIndex_name, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitIndex_name") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitIndex_name", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitIndex_name", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitIndex_name", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitIndex_name") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Annotation_target_nameContext).BLOCK_VAR_OR_ANNOTATION(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserBLOCK_VAR_OR_ANNOTATION, 0)

func kfgrammar.(*Annotation_target_nameContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Annotation_target_nameContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_target_name, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_target_name") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_target_name", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_target_name", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_target_name", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_target_name") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Annotation_attr_nameContext).IDENTIFIER(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserIDENTIFIER, 0)

func kfgrammar.(*Annotation_attr_nameContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Annotation_attr_nameContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_name, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_name") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_name", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_name", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_name", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_name") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Annotation_attr_valueContext).Literal_value(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.ILiteral_valueContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.ILiteral_valueContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.ILiteral_valueContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.ILiteral_valueContext)

func kfgrammar.(*Annotation_attr_valueContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Annotation_attr_valueContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_value, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_value") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_value", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_value", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_value", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitAnnotation_attr_value") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Ext_config_valueContext).Literal_value(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.ILiteral_valueContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.ILiteral_valueContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.ILiteral_valueContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.ILiteral_valueContext)

func kfgrammar.(*Ext_config_valueContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Ext_config_valueContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitExt_config_value, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_value") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_value", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_value", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_value", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitExt_config_value") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Init_declContext).INIT_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserINIT_, 0)

func kfgrammar.(*Init_declContext).L_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserL_PAREN, 0)

func kfgrammar.(*Init_declContext).R_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserR_PAREN, 0)

func kfgrammar.(*Init_declContext).L_BRACE(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserL_BRACE, 0)

func kfgrammar.(*Init_declContext).Action_stmt_list(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IAction_stmt_listContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_stmt_listContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IAction_stmt_listContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IAction_stmt_listContext)

func kfgrammar.(*Init_declContext).R_BRACE(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserR_BRACE, 0)

func kfgrammar.(*Init_declContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Init_declContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitInit_decl, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitInit_decl") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitInit_decl", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitInit_decl", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitInit_decl", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitInit_decl") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Action_stmt_listContext).AllAction_stmt(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IAction_stmtContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_stmtContext) ==> r[count(c, k, kfgrammar.IAction_stmtContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IAction_stmtContext)
invariant any l: []kfgrammar.IAction_stmtContext :: len(l) == count(c, len(c), kfgrammar.IAction_stmtContext)
invariant any l: []kfgrammar.IAction_stmtContext :: len(l) == count(c, p, kfgrammar.IAction_stmtContext)
invariant any l: []kfgrammar.IAction_stmtContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IAction_stmtContext) ==> l[count(c, k, kfgrammar.IAction_stmtContext)] == c[k]

func kfgrammar.(*Action_stmt_listContext).Action_stmt(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IAction_stmtContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_stmtContext) && count(c, k, kfgrammar.IAction_stmtContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IAction_stmtContext)
invariant any j: int :: j == count(c, p, kfgrammar.IAction_stmtContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IAction_stmtContext)
invariant i < 0 || count(c, p, kfgrammar.IAction_stmtContext) <= i

func kfgrammar.(*Action_stmt_listContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Action_stmt_listContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitAction_stmt_list, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_stmt_list") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_stmt_list", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_stmt_list", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitAction_stmt_list", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_stmt_list") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Action_stmtContext).Sql_stmt(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.ISql_stmtContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.ISql_stmtContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.ISql_stmtContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.ISql_stmtContext)

func kfgrammar.(*Action_stmtContext).Call_stmt(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.ICall_stmtContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.ICall_stmtContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.ICall_stmtContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.ICall_stmtContext)

func kfgrammar.(*Action_stmtContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Action_stmtContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitAction_stmt, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_stmt") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_stmt", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitAction_stmt", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitAction_stmt", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitAction_stmt") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Sql_stmtContext).SQL_STMT(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserSQL_STMT, 0)

func kfgrammar.(*Sql_stmtContext).SCOL(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserSCOL, 0)

func kfgrammar.(*Sql_stmtContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Sql_stmtContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitSql_stmt, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitSql_stmt") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitSql_stmt", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitSql_stmt", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitSql_stmt", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitSql_stmt") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Call_stmtContext).Call_body(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.ICall_bodyContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.ICall_bodyContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.ICall_bodyContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.ICall_bodyContext)

func kfgrammar.(*Call_stmtContext).SCOL(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserSCOL, 0)

func kfgrammar.(*Call_stmtContext).Call_receivers(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.ICall_receiversContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.ICall_receiversContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.ICall_receiversContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.ICall_receiversContext)

func kfgrammar.(*Call_stmtContext).ASSIGN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserASSIGN, 0)

func kfgrammar.(*Call_stmtContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Call_stmtContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitCall_stmt, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitCall_stmt") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitCall_stmt", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitCall_stmt", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitCall_stmt", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitCall_stmt") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Call_receiversContext).AllVariable(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IVariableContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IVariableContext) ==> r[count(c, k, kfgrammar.IVariableContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IVariableContext)
invariant any l: []kfgrammar.IVariableContext :: len(l) == count(c, len(c), kfgrammar.IVariableContext)
invariant any l: []kfgrammar.IVariableContext :: len(l) == count(c, p, kfgrammar.IVariableContext)
invariant any l: []kfgrammar.IVariableContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IVariableContext) ==> l[count(c, k, kfgrammar.IVariableContext)] == c[k]

func kfgrammar.(*Call_receiversContext).Variable(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IVariableContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IVariableContext) && count(c, k, kfgrammar.IVariableContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IVariableContext)
invariant any j: int :: j == count(c, p, kfgrammar.IVariableContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IVariableContext)
invariant i < 0 || count(c, p, kfgrammar.IVariableContext) <= i

func kfgrammar.(*Call_receiversContext).AllCOMMA(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokensOf(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA)

func kfgrammar.(*Call_receiversContext).COMMA(s, i) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA, i)

func kfgrammar.(*Call_receiversContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Call_receiversContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitCall_receivers, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitCall_receivers") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitCall_receivers", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitCall_receivers", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitCall_receivers", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitCall_receivers") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Call_bodyContext).Fn_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IFn_nameContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IFn_nameContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IFn_nameContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IFn_nameContext)

func kfgrammar.(*Call_bodyContext).L_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserL_PAREN, 0)

func kfgrammar.(*Call_bodyContext).Fn_arg_list(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IFn_arg_listContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IFn_arg_listContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IFn_arg_listContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IFn_arg_listContext)

func kfgrammar.(*Call_bodyContext).R_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserR_PAREN, 0)

func kfgrammar.(*Call_bodyContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Call_bodyContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitCall_body, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitCall_body") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitCall_body", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitCall_body", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitCall_body", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitCall_body") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*VariableContext).PARAM_OR_VAR(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserPARAM_OR_VAR, 0)

func kfgrammar.(*VariableContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*VariableContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitVariable, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitVariable") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitVariable", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitVariable", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitVariable", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitVariable") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Block_varContext).BLOCK_VAR_OR_ANNOTATION(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserBLOCK_VAR_OR_ANNOTATION, 0)

func kfgrammar.(*Block_varContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Block_varContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitBlock_var, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitBlock_var") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitBlock_var", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitBlock_var", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitBlock_var", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitBlock_var") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Extension_call_nameContext).AllIDENTIFIER(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokensOf(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserIDENTIFIER)

func kfgrammar.(*Extension_call_nameContext).IDENTIFIER(s, i) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserIDENTIFIER, i)

func kfgrammar.(*Extension_call_nameContext).PERIOD(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserPERIOD, 0)

func kfgrammar.(*Extension_call_nameContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Extension_call_nameContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitExtension_call_name, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitExtension_call_name") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitExtension_call_name", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitExtension_call_name", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitExtension_call_name", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitExtension_call_name") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Fn_nameContext).Extension_call_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IExtension_call_nameContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IExtension_call_nameContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IExtension_call_nameContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IExtension_call_nameContext)

func kfgrammar.(*Fn_nameContext).Action_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IAction_nameContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IAction_nameContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IAction_nameContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IAction_nameContext)

func kfgrammar.(*Fn_nameContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Fn_nameContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitFn_name, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitFn_name") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitFn_name", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitFn_name", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitFn_name", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitFn_name") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Sfn_nameContext).IDENTIFIER(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserIDENTIFIER, 0)

func kfgrammar.(*Sfn_nameContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Sfn_nameContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitSfn_name, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitSfn_name") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitSfn_name", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitSfn_name", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitSfn_name", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitSfn_name") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Fn_arg_listContext).AllFn_arg_expr(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IFn_arg_exprContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IFn_arg_exprContext) ==> r[count(c, k, kfgrammar.IFn_arg_exprContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IFn_arg_exprContext)
invariant any l: []kfgrammar.IFn_arg_exprContext :: len(l) == count(c, len(c), kfgrammar.IFn_arg_exprContext)
invariant any l: []kfgrammar.IFn_arg_exprContext :: len(l) == count(c, p, kfgrammar.IFn_arg_exprContext)
invariant any l: []kfgrammar.IFn_arg_exprContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IFn_arg_exprContext) ==> l[count(c, k, kfgrammar.IFn_arg_exprContext)] == c[k]

func kfgrammar.(*Fn_arg_listContext).Fn_arg_expr(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IFn_arg_exprContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IFn_arg_exprContext) && count(c, k, kfgrammar.IFn_arg_exprContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IFn_arg_exprContext)
invariant any j: int :: j == count(c, p, kfgrammar.IFn_arg_exprContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IFn_arg_exprContext)
invariant i < 0 || count(c, p, kfgrammar.IFn_arg_exprContext) <= i

func kfgrammar.(*Fn_arg_listContext).AllCOMMA(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokensOf(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA)

func kfgrammar.(*Fn_arg_listContext).COMMA(s, i) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA, i)

func kfgrammar.(*Fn_arg_listContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Fn_arg_listContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitFn_arg_list, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitFn_arg_list") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitFn_arg_list", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitFn_arg_list", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitFn_arg_list", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitFn_arg_list") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)

func kfgrammar.(*Fn_arg_exprContext).GetElevate_expr(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s.elevate_expr

func kfgrammar.(*Fn_arg_exprContext).GetUnary_expr(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s.unary_expr

func kfgrammar.(*Fn_arg_exprContext).SetElevate_expr(s, v)
requires s != nil
nopanic [C24]
modifies s.elevate_expr
ensures [C24] s.elevate_expr == v

func kfgrammar.(*Fn_arg_exprContext).SetUnary_expr(s, v)
requires s != nil
nopanic [C24]
modifies s.unary_expr
ensures [C24] s.unary_expr == v

func kfgrammar.(*Fn_arg_exprContext).Literal_value(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.ILiteral_valueContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.ILiteral_valueContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.ILiteral_valueContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.ILiteral_valueContext)

func kfgrammar.(*Fn_arg_exprContext).Variable(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IVariableContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IVariableContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IVariableContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IVariableContext)

func kfgrammar.(*Fn_arg_exprContext).Block_var(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.IBlock_varContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IBlock_varContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.IBlock_varContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.IBlock_varContext)

func kfgrammar.(*Fn_arg_exprContext).L_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserL_PAREN, 0)

func kfgrammar.(*Fn_arg_exprContext).R_PAREN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserR_PAREN, 0)

func kfgrammar.(*Fn_arg_exprContext).AllFn_arg_expr(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] len(r) == count(c, len(c), kfgrammar.IFn_arg_exprContext)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IFn_arg_exprContext) ==> r[count(c, k, kfgrammar.IFn_arg_exprContext)] == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IFn_arg_exprContext)
invariant any l: []kfgrammar.IFn_arg_exprContext :: len(l) == count(c, len(c), kfgrammar.IFn_arg_exprContext)
invariant any l: []kfgrammar.IFn_arg_exprContext :: len(l) == count(c, p, kfgrammar.IFn_arg_exprContext)
invariant any l: []kfgrammar.IFn_arg_exprContext :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], kfgrammar.IFn_arg_exprContext) ==> l[count(c, k, kfgrammar.IFn_arg_exprContext)] == c[k]

func kfgrammar.(*Fn_arg_exprContext).Fn_arg_expr(s, i) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), kfgrammar.IFn_arg_exprContext)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.IFn_arg_exprContext) && count(c, k, kfgrammar.IFn_arg_exprContext) == i && r == c[k]
loop over c as p
invariant any j: int :: j == count(c, p, kfgrammar.IFn_arg_exprContext)
invariant any j: int :: j == count(c, p, kfgrammar.IFn_arg_exprContext) - 1
invariant any j: int :: j == i - count(c, p, kfgrammar.IFn_arg_exprContext)
invariant i < 0 || count(c, p, kfgrammar.IFn_arg_exprContext) <= i

func kfgrammar.(*Fn_arg_exprContext).MINUS(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserMINUS, 0)

func kfgrammar.(*Fn_arg_exprContext).PLUS(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserPLUS, 0)

func kfgrammar.(*Fn_arg_exprContext).TILDE(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserTILDE, 0)

func kfgrammar.(*Fn_arg_exprContext).NOT_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserNOT_, 0)

func kfgrammar.(*Fn_arg_exprContext).Sfn_name(s) (r)
requires s != nil
nopanic [C24]
let c = childList(addr(s.BaseParserRuleContext))
ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], kfgrammar.ISfn_nameContext))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], kfgrammar.ISfn_nameContext) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], kfgrammar.ISfn_nameContext)
loop over c as i
invariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], kfgrammar.ISfn_nameContext)

func kfgrammar.(*Fn_arg_exprContext).STAR(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserSTAR, 0)

func kfgrammar.(*Fn_arg_exprContext).AllCOMMA(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokensOf(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA)

func kfgrammar.(*Fn_arg_exprContext).COMMA(s, i) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserCOMMA, i)

func kfgrammar.(*Fn_arg_exprContext).PIPE2(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserPIPE2, 0)

func kfgrammar.(*Fn_arg_exprContext).DIV(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserDIV, 0)

func kfgrammar.(*Fn_arg_exprContext).MOD(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserMOD, 0)

func kfgrammar.(*Fn_arg_exprContext).LT2(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserLT2, 0)

func kfgrammar.(*Fn_arg_exprContext).GT2(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserGT2, 0)

func kfgrammar.(*Fn_arg_exprContext).AMP(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserAMP, 0)

func kfgrammar.(*Fn_arg_exprContext).PIPE(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserPIPE, 0)

func kfgrammar.(*Fn_arg_exprContext).LT(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserLT, 0)

func kfgrammar.(*Fn_arg_exprContext).LT_EQ(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserLT_EQ, 0)

func kfgrammar.(*Fn_arg_exprContext).GT(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserGT, 0)

func kfgrammar.(*Fn_arg_exprContext).GT_EQ(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserGT_EQ, 0)

func kfgrammar.(*Fn_arg_exprContext).ASSIGN(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserASSIGN, 0)

func kfgrammar.(*Fn_arg_exprContext).EQ(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserEQ, 0)

func kfgrammar.(*Fn_arg_exprContext).SQL_NOT_EQ1(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserSQL_NOT_EQ1, 0)

func kfgrammar.(*Fn_arg_exprContext).SQL_NOT_EQ2(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserSQL_NOT_EQ2, 0)

func kfgrammar.(*Fn_arg_exprContext).AND_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserAND_, 0)

func kfgrammar.(*Fn_arg_exprContext).OR_(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == tokenAt(addr(s.BaseParserRuleContext), kfgrammar.KuneiformParserOR_, 0)

func kfgrammar.(*Fn_arg_exprContext).GetRuleContext(s) (r)
requires s != nil
nopanic [C24]
ensures [C24] r == s

func kfgrammar.(*Fn_arg_exprContext).Accept(s, v) (r)
requires s != nil
requires v != nil
observe iface kfgrammar.KuneiformParserVisitor.VisitFn_arg_expr, iface antlr.ParseTreeVisitor.VisitChildren
ensures [C24] isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface kfgrammar.KuneiformParserVisitor.VisitFn_arg_expr") == 1 && calls("iface antlr.ParseTreeVisitor.VisitChildren") == 0 && arg("iface kfgrammar.KuneiformParserVisitor.VisitFn_arg_expr", 0) == v && arg("iface kfgrammar.KuneiformParserVisitor.VisitFn_arg_expr", 1) == s && r == ret("iface kfgrammar.KuneiformParserVisitor.VisitFn_arg_expr", 0)
ensures [C24] !isType(v, kfgrammar.KuneiformParserVisitor) ==> calls("iface antlr.ParseTreeVisitor.VisitChildren") == 1 && calls("iface kfgrammar.KuneiformParserVisitor.VisitFn_arg_expr") == 0 && arg("iface antlr.ParseTreeVisitor.VisitChildren", 0) == v && arg("iface antlr.ParseTreeVisitor.VisitChildren", 1) == s && r == ret("iface antlr.ParseTreeVisitor.VisitChildren", 0)
