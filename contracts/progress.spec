// generated by tools/genprogress.py from rules.spec
//
// Termination of the rule functions. moves grows with every step of the parser
// runtime that consumes a token or recovers from an error; that there are only
// finitely many such steps for a finite input is the runtime's part (recovery
// consumes a token when it comes back to the same place). A loop has to make a
// step in each iteration, a rule has to make one before it can come back to
// itself, and a rule that is not empty makes one.
ghost moves: int
ghost perr: bool
ghost la: int

trusted func antlr.(*BaseParser).EnterRule(p, ctx, state, rule)
why "antlr runtime: keeps the tree, moves no token"
trusted func antlr.(*BaseParser).EnterRecursionRule(p, ctx, state, rule, prec)
why "antlr runtime: keeps the tree, moves no token"
trusted func antlr.(*BaseParser).PushNewRecursionContext(p, ctx, state, rule)
why "antlr runtime: keeps the tree, moves no token"
trusted func antlr.(*BaseParser).UnrollRecursionContexts(p, ctx)
why "antlr runtime: keeps the tree, moves no token"
trusted func antlr.(*BaseParser).EnterOuterAlt(p, ctx, n)
why "antlr runtime: keeps the tree, moves no token"
trusted func antlr.(*BaseParser).ExitRule(p)
why "antlr runtime: keeps the tree, moves no token"
trusted func antlr.(*BaseParser).TriggerExitRuleEvent(p)
why "antlr runtime: calls parse listeners"
trusted func antlr.(*BaseParser).Match(p, t) (r)
modifies ghost moves, ghost perr, ghost la
ensures moves >= old(moves) && (t != -1 ==> moves > old(moves))
why "antlr runtime: consumes a token, or recovers, or notes an error that the rule recovers from"
trusted func antlr.(*BaseParser).Consume(p) (r)
modifies ghost moves, ghost la
ensures moves >= old(moves) && (old(la) != -1 ==> moves > old(moves))
why "antlr runtime: consumes the current token, unless that is the end of the input"
trusted func antlr.(*BaseParser).Precpred(p, ctx, n) (r)
why "antlr runtime: compares the precedence of the open rule with n"
trusted func antlr.(*BaseParser).GetErrorHandler(p) (r)
ensures r != nil
why "antlr runtime: part of the parser"
trusted func antlr.(*BaseParser).GetTokenStream(p) (r)
ensures r != nil
why "antlr runtime: part of the parser"
trusted func antlr.(*BaseParser).GetInterpreter(p) (r)
ensures r != nil
why "antlr runtime: part of the parser"
trusted func antlr.(*BaseParser).GetParserRuleContext(p) (r)
ensures r != nil
why "antlr runtime: part of the parser"
trusted func antlr.(*BaseParser).GetParseListeners(p) (r)
why "antlr runtime: part of the parser"
trusted func antlr.(*BaseRecognizer).GetState(p) (r)
why "antlr runtime: part of the parser"
trusted func antlr.(*BaseRecognizer).SetState(p, n)
why "antlr runtime: the state used for prediction"
trusted func antlr.(*BaseRecognizer).HasError(p) (r)
ensures r == perr
why "antlr runtime: is an error pending"
trusted func antlr.(*BaseRecognizer).GetError(p) (r)
why "antlr runtime: part of the parser"
trusted func antlr.(*BaseRecognizer).SetError(p, err)
modifies ghost perr
ensures perr == (err != nil)
why "antlr runtime: sets the pending error"
trusted func antlr.NewNoViableAltException(a, b, c, d, e, f) (r)
ensures r != nil
why "antlr runtime: an error value"
trusted func antlr.NewFailedPredicateException(a, b, c) (r)
ensures r != nil
why "antlr runtime: an error value"
trusted func antlr.InitBaseParserRuleContext(p, parent, n)
why "antlr runtime: an empty node"
trusted func iface antlr.ErrorStrategy.Sync(h, p)
modifies ghost moves, ghost perr, ghost la
ensures moves >= old(moves)
ensures old(perr) ==> perr
why "antlr runtime: may skip tokens or note an error; forgets none"
trusted func iface antlr.ErrorStrategy.ReportMatch(h, p)
why "antlr runtime: leaves error recovery"
trusted func iface antlr.ErrorStrategy.RecoverInline(h, p) (r)
modifies ghost moves, ghost perr, ghost la
ensures moves > old(moves)
why "antlr runtime: recovers, or notes an error that the rule recovers from"
trusted func iface antlr.ErrorStrategy.ReportError(h, p, v)
why "antlr runtime: tells the listeners"
trusted func iface antlr.ErrorStrategy.Recover(h, p, v)
modifies ghost moves, ghost perr, ghost la
ensures moves > old(moves)
why "antlr runtime: skips tokens, at least one when it comes back to the same place"
trusted func iface antlr.TokenStream.LA(s, i) (r)
ensures i == 1 ==> r == la
why "antlr runtime: the type of the i-th token ahead"
trusted func iface antlr.TokenStream.LT(s, i) (r)
why "antlr runtime: the i-th token ahead"
trusted func antlr.(*BaseParserRuleContext).SetException(c, x)
why "antlr runtime: notes the error in the node"
trusted func iface antlr.ParserRuleContext.SetStop(c, t)
why "antlr runtime: the last token of the node"
trusted func antlr.(*ParserATNSimulator).AdaptivePredict(s, p, input, decision, ctx) (r)
modifies ghost perr
ensures 0 <= r && (r == 0 ==> perr)
ensures decision == 0 ==> r <= 2
ensures decision == 1 ==> r <= 3
ensures decision == 2 ==> r <= 2
ensures decision == 3 ==> r <= 2
ensures decision == 4 ==> r <= 2
ensures decision == 5 ==> r <= 2
ensures decision == 6 ==> r <= 2
ensures decision == 7 ==> r <= 2
ensures decision == 8 ==> r <= 2
ensures decision == 9 ==> r <= 2
ensures decision == 10 ==> r <= 2
ensures decision == 11 ==> r <= 8
ensures decision == 12 ==> r <= 2
ensures decision == 13 ==> r <= 2
ensures decision == 14 ==> r <= 3
ensures decision == 15 ==> r <= 2
ensures decision == 16 ==> r <= 2
ensures decision == 17 ==> r <= 2
ensures decision == 18 ==> r <= 2
ensures decision == 19 ==> r <= 2
ensures decision == 20 ==> r <= 2
ensures decision == 21 ==> r <= 2
ensures decision == 22 ==> r <= 2
ensures decision == 23 ==> r <= 2
ensures decision == 24 ==> r <= 2
ensures decision == 25 ==> r <= 2
ensures decision == 26 ==> r <= 2
ensures decision == 27 ==> r <= 2
ensures decision == 28 ==> r <= 3
ensures decision == 29 ==> r <= 7
ensures decision == 30 ==> r <= 8
ensures decision == 31 ==> r <= 2
why "antlr runtime: an alternative of the decision, or none and an error is pending"

func kfgrammar.(*KuneiformParser).Source_unit(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Database_directive(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Extension_directive(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Ext_config_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Ext_config(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Annotation_decl(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Annotation_attr_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Annotation_attr(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Table_decl(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Column_def(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Column_def_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Column_type(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Column_constraint(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Literal_value(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Number_value(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Index_def(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Foreign_key_action(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Foreign_key_def(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Action_visibility(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Action_mutability(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Action_auxiliary(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Action_attr_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves >= old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Action_decl(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Param_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves >= old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Parameter(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Database_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Extension_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Ext_config_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Table_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Action_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Column_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Column_name_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Index_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Annotation_target_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Annotation_attr_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Annotation_attr_value(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Ext_config_value(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Init_decl(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Action_stmt_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Action_stmt(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Sql_stmt(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Call_stmt(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Call_receivers(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Call_body(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Variable(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Block_var(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Extension_call_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Fn_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Sfn_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Fn_arg_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves >= old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).Fn_arg_expr(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)

func kfgrammar.(*KuneiformParser).fn_arg_expr(p, prec) (r)
requires p != nil && p.BaseParser != nil
modifies ghost moves, ghost perr, ghost la
ensures r != nil
ensures [C28] moves > old(moves)
ensures [C28] !perr
measure [C28] moves
join
loop any as i
invariant !perr
invariant moves >= old(moves)
invariant moves > old(moves)
bounded [C28] i <= moves - old(moves)
