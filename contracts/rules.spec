// generated by tools/genrules.py from the published grammar
//
// Ghost state of a parse: gs is the stack of the automata of the rules that
// are open, perr whether an error is pending in the parser, bad whether a
// syntax error has been reported, la the type of the current token.
ghost gs: int
ghost perr: bool
ghost bad: bool
ghost la: int
fun push(s: int, q: int): int
fun top(s: int): int
fun pop(s: int): int
axiom topPush = forall s: int, q: int {push(s, q)} :: top(push(s, q)) == q
axiom popPush = forall s: int, q: int {push(s, q)} :: pop(push(s, q)) == s
// step(q, x): the state after x in state q.  x is the number of a token, 1000 +
// the number of a rule, 2000 + n for an expression of precedence n, 3000 + n
// for the test that the precedence allows n.  Nothing is said of a step the
// grammar does not have.
fun step(q: int, x: int): int
pred accepts(q: int)
fun startOf(rule: int): int
def next(s: int, x: int): int = push(pop(s), step(top(s), x))

// source_unit
//   1000 database_directive->1001
//   1001 SCOL->1002
//   1002 EOF->1003  action_decl->1004  extension_directive->1002  init_decl->1004  table_decl->1004
//   1003 accepts 
//   1004 EOF->1003  action_decl->1004  init_decl->1004  table_decl->1004
axiom rule_source_unit = startOf(0) == 1000 && step(1000, 1001) == 1001 && step(1001, 2) == 1002 && step(1002, -1) == 1003 && step(1002, 1022) == 1004 && step(1002, 1002) == 1002 && step(1002, 1037) == 1004 && step(1002, 1008) == 1004 && step(1004, -1) == 1003 && step(1004, 1022) == 1004 && step(1004, 1037) == 1004 && step(1004, 1008) == 1004
axiom ends_source_unit = accepts(1003)
// database_directive
//   2000 DATABASE_->2001
//   2001 database_name->2002
//   2002 accepts 
axiom rule_database_directive = startOf(1) == 2000 && step(2000, 31) == 2001 && step(2001, 1025) == 2002
axiom ends_database_directive = accepts(2002)
// extension_directive
//   3000 USE_->3001
//   3001 extension_name->3002
//   3002 AS_->3003  L_BRACE->3006
//   3003 extension_name->3004
//   3004 SCOL->3005
//   3005 accepts 
//   3006 ext_config_list->3007
//   3007 R_BRACE->3008
//   3008 AS_->3003
axiom rule_extension_directive = startOf(2) == 3000 && step(3000, 32) == 3001 && step(3001, 1026) == 3002 && step(3002, 33) == 3003 && step(3002, 4) == 3006 && step(3003, 1026) == 3004 && step(3004, 2) == 3005 && step(3006, 1003) == 3007 && step(3007, 6) == 3008 && step(3008, 33) == 3003
axiom ends_extension_directive = accepts(3005)
// ext_config_list
//   4000 ext_config->4001
//   4001 accepts COMMA->4000
axiom rule_ext_config_list = startOf(3) == 4000 && step(4000, 1004) == 4001 && step(4001, 7) == 4000
axiom ends_ext_config_list = accepts(4001)
// ext_config
//   5000 ext_config_name->5001
//   5001 COL->5002
//   5002 ext_config_value->5003
//   5003 accepts 
axiom rule_ext_config = startOf(4) == 5000 && step(5000, 1027) == 5001 && step(5001, 1) == 5002 && step(5002, 1036) == 5003
axiom ends_ext_config = accepts(5003)
// annotation_decl
//   6000 annotation_target_name->6001
//   6001 L_PAREN->6002
//   6002 annotation_attr_list->6003
//   6003 R_PAREN->6004
//   6004 accepts 
axiom rule_annotation_decl = startOf(5) == 6000 && step(6000, 1033) == 6001 && step(6001, 3) == 6002 && step(6002, 1006) == 6003 && step(6003, 5) == 6004
axiom ends_annotation_decl = accepts(6004)
// annotation_attr_list
//   7000 annotation_attr->7001
//   7001 accepts COMMA->7000
axiom rule_annotation_attr_list = startOf(6) == 7000 && step(7000, 1007) == 7001 && step(7001, 7) == 7000
axiom ends_annotation_attr_list = accepts(7001)
// annotation_attr
//   8000 annotation_attr_name->8001
//   8001 ASSIGN->8002
//   8002 annotation_attr_value->8003
//   8003 accepts 
axiom rule_annotation_attr = startOf(7) == 8000 && step(8000, 1034) == 8001 && step(8001, 12) == 8002 && step(8002, 1035) == 8003
axiom ends_annotation_attr = accepts(8003)
// table_decl
//   9000 TABLE_->9001
//   9001 table_name->9002
//   9002 L_BRACE->9003
//   9003 column_def_list->9004
//   9004 COMMA->9005  R_BRACE->9006
//   9005 R_BRACE->9006  foreign_key_def->9004  index_def->9004
//   9006 accepts 
axiom rule_table_decl = startOf(8) == 9000 && step(9000, 34) == 9001 && step(9001, 1028) == 9002 && step(9002, 4) == 9003 && step(9003, 1010) == 9004 && step(9004, 7) == 9005 && step(9004, 6) == 9006 && step(9005, 6) == 9006 && step(9005, 1017) == 9004 && step(9005, 1015) == 9004
axiom ends_table_decl = accepts(9006)
// column_def
//   10000 column_name->10001
//   10001 column_type->10002
//   10002 accepts column_constraint->10002
axiom rule_column_def = startOf(9) == 10000 && step(10000, 1030) == 10001 && step(10001, 1011) == 10002 && step(10002, 1012) == 10002
axiom ends_column_def = accepts(10002)
// column_def_list
//   11000 column_def->11001
//   11001 accepts COMMA->11000
axiom rule_column_def_list = startOf(10) == 11000 && step(11000, 1009) == 11001 && step(11001, 7) == 11000
axiom ends_column_def_list = accepts(11001)
// column_type
//   12000 BLOB_->12001  INT_->12001  TEXT_->12001
//   12001 accepts 
axiom rule_column_type = startOf(11) == 12000 && step(12000, 43) == 12001 && step(12000, 41) == 12001 && step(12000, 42) == 12001
axiom ends_column_type = accepts(12001)
// column_constraint
//   13000 DEFAULT_->13001  MAX_->13005  MAX_LEN_->13005  MIN_->13005  MIN_LEN_->13005  NOT_NULL_->13004  PRIMARY_->13004  UNIQUE_->13004
//   13001 L_PAREN->13002
//   13002 literal_value->13003
//   13003 R_PAREN->13004
//   13004 accepts 
//   13005 L_PAREN->13006
//   13006 number_value->13003
axiom rule_column_constraint = startOf(12) == 13000 && step(13000, 50) == 13001 && step(13000, 45) == 13005 && step(13000, 47) == 13005 && step(13000, 44) == 13005 && step(13000, 46) == 13005 && step(13000, 48) == 13004 && step(13000, 49) == 13004 && step(13000, 51) == 13004 && step(13001, 3) == 13002 && step(13002, 1013) == 13003 && step(13003, 5) == 13004 && step(13005, 3) == 13006 && step(13006, 1014) == 13003
axiom ends_column_constraint = accepts(13004)
// literal_value
//   14000 STRING_LITERAL->14001  UNSIGNED_NUMBER_LITERAL->14001
//   14001 accepts 
axiom rule_literal_value = startOf(13) == 14000 && step(14000, 78) == 14001 && step(14000, 77) == 14001
axiom ends_literal_value = accepts(14001)
// number_value
//   15000 UNSIGNED_NUMBER_LITERAL->15001
//   15001 accepts 
axiom rule_number_value = startOf(14) == 15000 && step(15000, 77) == 15001
axiom ends_number_value = accepts(15001)
// index_def
//   16000 index_name->16001
//   16001 INDEX_->16002  PRIMARY_->16002  UNIQUE_->16002
//   16002 L_PAREN->16003
//   16003 column_name_list->16004
//   16004 R_PAREN->16005
//   16005 accepts 
axiom rule_index_def = startOf(15) == 16000 && step(16000, 1032) == 16001 && step(16001, 52) == 16002 && step(16001, 49) == 16002 && step(16001, 51) == 16002 && step(16002, 3) == 16003 && step(16003, 1031) == 16004 && step(16004, 5) == 16005
axiom ends_index_def = accepts(16005)
// foreign_key_action
//   17000 ACTION_ON_DELETE_->17001  ACTION_ON_UPDATE_->17001
//   17001 ACTION_DO_->17002  ACTION_DO_CASCADE_->17003  ACTION_DO_NO_ACTION_->17003  ACTION_DO_RESTRICT_->17003  ACTION_DO_SET_DEFAULT_->17003  ACTION_DO_SET_NULL_->17003
//   17002 ACTION_DO_CASCADE_->17003  ACTION_DO_NO_ACTION_->17003  ACTION_DO_RESTRICT_->17003  ACTION_DO_SET_DEFAULT_->17003  ACTION_DO_SET_NULL_->17003
//   17003 accepts 
axiom rule_foreign_key_action = startOf(16) == 17000 && step(17000, 58) == 17001 && step(17000, 57) == 17001 && step(17001, 59) == 17002 && step(17001, 61) == 17003 && step(17001, 60) == 17003 && step(17001, 64) == 17003 && step(17001, 63) == 17003 && step(17001, 62) == 17003 && step(17002, 61) == 17003 && step(17002, 60) == 17003 && step(17002, 64) == 17003 && step(17002, 63) == 17003 && step(17002, 62) == 17003
axiom ends_foreign_key_action = accepts(17003)
// foreign_key_def
//   18000 FOREIGN_KEY_->18001  FOREIGN_KEY_ABBR_->18001
//   18001 L_PAREN->18002
//   18002 column_name_list->18003
//   18003 R_PAREN->18004
//   18004 REFERENCES_->18005  REFERENCES_ABBR_->18005
//   18005 table_name->18006
//   18006 L_PAREN->18007
//   18007 column_name_list->18008
//   18008 R_PAREN->18009
//   18009 accepts foreign_key_action->18009
axiom rule_foreign_key_def = startOf(17) == 18000 && step(18000, 53) == 18001 && step(18000, 54) == 18001 && step(18001, 3) == 18002 && step(18002, 1031) == 18003 && step(18003, 5) == 18004 && step(18004, 55) == 18005 && step(18004, 56) == 18005 && step(18005, 1028) == 18006 && step(18006, 3) == 18007 && step(18007, 1031) == 18008 && step(18008, 5) == 18009 && step(18009, 1016) == 18009
axiom ends_foreign_key_def = accepts(18009)
// action_visibility
//   19000 PRIVATE_->19001  PUBLIC_->19001
//   19001 accepts 
axiom rule_action_visibility = startOf(18) == 19000 && step(19000, 38) == 19001 && step(19000, 37) == 19001
axiom ends_action_visibility = accepts(19001)
// action_mutability
//   20000 VIEW_->20001
//   20001 accepts 
axiom rule_action_mutability = startOf(19) == 20000 && step(20000, 39) == 20001
axiom ends_action_mutability = accepts(20001)
// action_auxiliary
//   21000 OWNER_->21001
//   21001 accepts 
axiom rule_action_auxiliary = startOf(20) == 21000 && step(21000, 40) == 21001
axiom ends_action_auxiliary = accepts(21001)
// action_attr_list
//   22000 accepts action_auxiliary->22000  action_mutability->22000  action_visibility->22000
axiom rule_action_attr_list = startOf(21) == 22000 && step(22000, 1020) == 22000 && step(22000, 1019) == 22000 && step(22000, 1018) == 22000
axiom ends_action_attr_list = accepts(22000)
// action_decl
//   23000 ACTION_->23001  annotation_decl->23000
//   23001 action_name->23002
//   23002 L_PAREN->23003
//   23003 param_list->23004
//   23004 R_PAREN->23005
//   23005 action_attr_list->23006
//   23006 L_BRACE->23007
//   23007 action_stmt_list->23008
//   23008 R_BRACE->23009
//   23009 accepts 
axiom rule_action_decl = startOf(22) == 23000 && step(23000, 35) == 23001 && step(23000, 1005) == 23000 && step(23001, 1029) == 23002 && step(23002, 3) == 23003 && step(23003, 1023) == 23004 && step(23004, 5) == 23005 && step(23005, 1021) == 23006 && step(23006, 4) == 23007 && step(23007, 1038) == 23008 && step(23008, 6) == 23009
axiom ends_action_decl = accepts(23009)
// param_list
//   24000 accepts COMMA->24001  parameter->24002
//   24001 parameter->24002
//   24002 accepts COMMA->24001
axiom rule_param_list = startOf(23) == 24000 && step(24000, 7) == 24001 && step(24000, 1024) == 24002 && step(24001, 1024) == 24002 && step(24002, 7) == 24001
axiom ends_param_list = accepts(24000) && accepts(24002)
// parameter
//   25000 PARAM_OR_VAR->25001
//   25001 accepts 
axiom rule_parameter = startOf(24) == 25000 && step(25000, 75) == 25001
axiom ends_parameter = accepts(25001)
// database_name
//   26000 IDENTIFIER->26001
//   26001 accepts 
axiom rule_database_name = startOf(25) == 26000 && step(26000, 73) == 26001
axiom ends_database_name = accepts(26001)
// extension_name
//   27000 IDENTIFIER->27001
//   27001 accepts 
axiom rule_extension_name = startOf(26) == 27000 && step(27000, 73) == 27001
axiom ends_extension_name = accepts(27001)
// ext_config_name
//   28000 IDENTIFIER->28001
//   28001 accepts 
axiom rule_ext_config_name = startOf(27) == 28000 && step(28000, 73) == 28001
axiom ends_ext_config_name = accepts(28001)
// table_name
//   29000 IDENTIFIER->29001
//   29001 accepts 
axiom rule_table_name = startOf(28) == 29000 && step(29000, 73) == 29001
axiom ends_table_name = accepts(29001)
// action_name
//   30000 IDENTIFIER->30001
//   30001 accepts 
axiom rule_action_name = startOf(29) == 30000 && step(30000, 73) == 30001
axiom ends_action_name = accepts(30001)
// column_name
//   31000 IDENTIFIER->31001
//   31001 accepts 
axiom rule_column_name = startOf(30) == 31000 && step(31000, 73) == 31001
axiom ends_column_name = accepts(31001)
// column_name_list
//   32000 column_name->32001
//   32001 accepts COMMA->32000
axiom rule_column_name_list = startOf(31) == 32000 && step(32000, 1030) == 32001 && step(32001, 7) == 32000
axiom ends_column_name_list = accepts(32001)
// index_name
//   33000 INDEX_NAME->33001
//   33001 accepts 
axiom rule_index_name = startOf(32) == 33000 && step(33000, 74) == 33001
axiom ends_index_name = accepts(33001)
// annotation_target_name
//   34000 BLOCK_VAR_OR_ANNOTATION->34001
//   34001 accepts 
axiom rule_annotation_target_name = startOf(33) == 34000 && step(34000, 76) == 34001
axiom ends_annotation_target_name = accepts(34001)
// annotation_attr_name
//   35000 IDENTIFIER->35001
//   35001 accepts 
axiom rule_annotation_attr_name = startOf(34) == 35000 && step(35000, 73) == 35001
axiom ends_annotation_attr_name = accepts(35001)
// annotation_attr_value
//   36000 literal_value->36001
//   36001 accepts 
axiom rule_annotation_attr_value = startOf(35) == 36000 && step(36000, 1013) == 36001
axiom ends_annotation_attr_value = accepts(36001)
// ext_config_value
//   37000 literal_value->37001
//   37001 accepts 
axiom rule_ext_config_value = startOf(36) == 37000 && step(37000, 1013) == 37001
axiom ends_ext_config_value = accepts(37001)
// init_decl
//   38000 INIT_->38001
//   38001 L_PAREN->38002
//   38002 R_PAREN->38003
//   38003 L_BRACE->38004
//   38004 action_stmt_list->38005
//   38005 R_BRACE->38006
//   38006 accepts 
axiom rule_init_decl = startOf(37) == 38000 && step(38000, 36) == 38001 && step(38001, 3) == 38002 && step(38002, 5) == 38003 && step(38003, 4) == 38004 && step(38004, 1038) == 38005 && step(38005, 6) == 38006
axiom ends_init_decl = accepts(38006)
// action_stmt_list
//   39000 action_stmt->39001
//   39001 accepts action_stmt->39001
axiom rule_action_stmt_list = startOf(38) == 39000 && step(39000, 1039) == 39001 && step(39001, 1039) == 39001
axiom ends_action_stmt_list = accepts(39001)
// action_stmt
//   40000 call_stmt->40001  sql_stmt->40001
//   40001 accepts 
axiom rule_action_stmt = startOf(39) == 40000 && step(40000, 1041) == 40001 && step(40000, 1040) == 40001
axiom ends_action_stmt = accepts(40001)
// sql_stmt
//   41000 SQL_STMT->41001
//   41001 SCOL->41002
//   41002 accepts 
axiom rule_sql_stmt = startOf(40) == 41000 && step(41000, 80) == 41001 && step(41001, 2) == 41002
axiom ends_sql_stmt = accepts(41002)
// call_stmt
//   42000 call_body->42001  call_receivers->42003
//   42001 SCOL->42002
//   42002 accepts 
//   42003 ASSIGN->42004
//   42004 call_body->42001
axiom rule_call_stmt = startOf(41) == 42000 && step(42000, 1043) == 42001 && step(42000, 1042) == 42003 && step(42001, 2) == 42002 && step(42003, 12) == 42004 && step(42004, 1043) == 42001
axiom ends_call_stmt = accepts(42002)
// call_receivers
//   43000 variable->43001
//   43001 accepts COMMA->43000
axiom rule_call_receivers = startOf(42) == 43000 && step(43000, 1044) == 43001 && step(43001, 7) == 43000
axiom ends_call_receivers = accepts(43001)
// call_body
//   44000 fn_name->44001
//   44001 L_PAREN->44002
//   44002 fn_arg_list->44003
//   44003 R_PAREN->44004
//   44004 accepts 
axiom rule_call_body = startOf(43) == 44000 && step(44000, 1047) == 44001 && step(44001, 3) == 44002 && step(44002, 1049) == 44003 && step(44003, 5) == 44004
axiom ends_call_body = accepts(44004)
// variable
//   45000 PARAM_OR_VAR->45001
//   45001 accepts 
axiom rule_variable = startOf(44) == 45000 && step(45000, 75) == 45001
axiom ends_variable = accepts(45001)
// block_var
//   46000 BLOCK_VAR_OR_ANNOTATION->46001
//   46001 accepts 
axiom rule_block_var = startOf(45) == 46000 && step(46000, 76) == 46001
axiom ends_block_var = accepts(46001)
// extension_call_name
//   47000 IDENTIFIER->47001
//   47001 PERIOD->47002
//   47002 IDENTIFIER->47003
//   47003 accepts 
axiom rule_extension_call_name = startOf(46) == 47000 && step(47000, 73) == 47001 && step(47001, 11) == 47002 && step(47002, 73) == 47003
axiom ends_extension_call_name = accepts(47003)
// fn_name
//   48000 action_name->48001  extension_call_name->48001
//   48001 accepts 
axiom rule_fn_name = startOf(47) == 48000 && step(48000, 1029) == 48001 && step(48000, 1046) == 48001
axiom ends_fn_name = accepts(48001)
// sfn_name
//   49000 IDENTIFIER->49001
//   49001 accepts 
axiom rule_sfn_name = startOf(48) == 49000 && step(49000, 73) == 49001
axiom ends_sfn_name = accepts(49001)
// fn_arg_list
//   50000 accepts COMMA->50001  fn_arg_expr<0>->50002
//   50001 fn_arg_expr<0>->50002
//   50002 accepts COMMA->50001
axiom rule_fn_arg_list = startOf(49) == 50000 && step(50000, 7) == 50001 && step(50000, 2000) == 50002 && step(50001, 2000) == 50002 && step(50002, 7) == 50001
axiom ends_fn_arg_list = accepts(50000) && accepts(50002)
// fn_arg_expr
//   51000 L_PAREN->51001  MINUS->51005  NOT_->51009  PLUS->51005  TILDE->51005  block_var->51003  literal_value->51003  sfn_name->51020  variable->51003
//   51001 fn_arg_expr<0>->51002
//   51002 R_PAREN->51003
//   51003 accepts {10}->51004  {2}->51006  {3}->51008  {5}->51010  {6}->51012  {7}->51014  {8}->51016  {9}->51018
//   51004 PIPE2->51005
//   51005 fn_arg_expr<11>->51003
//   51006 OR_->51007
//   51007 fn_arg_expr<3>->51003
//   51008 AND_->51009
//   51009 fn_arg_expr<4>->51003
//   51010 ASSIGN->51011  EQ->51011  SQL_NOT_EQ1->51011  SQL_NOT_EQ2->51011
//   51011 fn_arg_expr<6>->51003
//   51012 GT->51013  GT_EQ->51013  LT->51013  LT_EQ->51013
//   51013 fn_arg_expr<7>->51003
//   51014 AMP->51015  GT2->51015  LT2->51015  PIPE->51015
//   51015 fn_arg_expr<8>->51003
//   51016 MINUS->51017  PLUS->51017
//   51017 fn_arg_expr<9>->51003
//   51018 DIV->51019  MOD->51019  STAR->51019
//   51019 fn_arg_expr<10>->51003
//   51020 L_PAREN->51021
//   51021 R_PAREN->51003  STAR->51002  fn_arg_expr<0>->51022
//   51022 COMMA->51023  R_PAREN->51003
//   51023 fn_arg_expr<0>->51022
//   51099 {10}->51004  {2}->51006  {3}->51008  {5}->51010  {6}->51012  {7}->51014  {8}->51016  {9}->51018
axiom rule_fn_arg_expr = startOf(50) == 51000 && step(51000, 3) == 51001 && step(51000, 14) == 51005 && step(51000, 70) == 51009 && step(51000, 13) == 51005 && step(51000, 18) == 51005 && step(51000, 1045) == 51003 && step(51000, 1013) == 51003 && step(51000, 1048) == 51020 && step(51000, 1044) == 51003 && step(51001, 2000) == 51002 && step(51002, 5) == 51003 && step(51003, 3010) == 51004 && step(51003, 3002) == 51006 && step(51003, 3003) == 51008 && step(51003, 3005) == 51010 && step(51003, 3006) == 51012 && step(51003, 3007) == 51014 && step(51003, 3008) == 51016 && step(51003, 3009) == 51018 && step(51004, 19) == 51005 && step(51005, 2011) == 51003 && step(51006, 72) == 51007 && step(51007, 2003) == 51003 && step(51008, 71) == 51009 && step(51009, 2004) == 51003 && step(51010, 12) == 51011 && step(51010, 24) == 51011 && step(51010, 29) == 51011 && step(51010, 30) == 51011 && step(51011, 2006) == 51003 && step(51012, 27) == 51013 && step(51012, 28) == 51013 && step(51012, 25) == 51013 && step(51012, 26) == 51013 && step(51013, 2007) == 51003 && step(51014, 22) == 51015 && step(51014, 21) == 51015 && step(51014, 20) == 51015 && step(51014, 23) == 51015 && step(51015, 2008) == 51003 && step(51016, 14) == 51017 && step(51016, 13) == 51017 && step(51017, 2009) == 51003 && step(51018, 16) == 51019 && step(51018, 17) == 51019 && step(51018, 15) == 51019 && step(51019, 2010) == 51003 && step(51020, 3) == 51021 && step(51021, 5) == 51003 && step(51021, 15) == 51002 && step(51021, 2000) == 51022 && step(51022, 7) == 51023 && step(51022, 5) == 51003 && step(51023, 2000) == 51022 && step(51099, 3010) == 51004 && step(51099, 3002) == 51006 && step(51099, 3003) == 51008 && step(51099, 3005) == 51010 && step(51099, 3006) == 51012 && step(51099, 3007) == 51014 && step(51099, 3008) == 51016 && step(51099, 3009) == 51018
axiom ends_fn_arg_expr = accepts(51003)

pred kept(ob: bool, oe: bool) = (ob ==> bad) && (oe ==> perr || bad)
trusted func antlr.(*BaseParser).EnterRule(p, ctx, state, rule)
modifies ghost gs
ensures gs == push(next(old(gs), 1000 + rule), startOf(rule))
why "antlr runtime: opens a node for the rule"
trusted func antlr.(*BaseParser).EnterRecursionRule(p, ctx, state, rule, prec)
modifies ghost gs
ensures gs == push(next(old(gs), 2000 + prec), startOf(rule))
why "antlr runtime: opens a node for the recursive rule"
trusted func antlr.(*BaseParser).PushNewRecursionContext(p, ctx, state, rule)
requires bad || accepts(top(gs))
modifies ghost gs
ensures gs == push(pop(old(gs)), startOf(rule) + 99)
why "antlr runtime: the node so far becomes the first child of a new node of the same rule"
trusted func antlr.(*BaseParser).UnrollRecursionContexts(p, ctx)
requires bad || accepts(top(gs))
modifies ghost gs
ensures gs == pop(old(gs))
why "antlr runtime: closes the nodes of the recursive rule"
trusted func antlr.(*BaseParser).ExitRule(p)
requires bad || accepts(top(gs))
modifies ghost gs
ensures gs == pop(old(gs))
why "antlr runtime: closes the node of the rule"
trusted func antlr.(*BaseParser).EnterOuterAlt(p, ctx, n)
why "antlr runtime: notes the alternative, moves no token"
trusted func antlr.(*BaseParser).TriggerExitRuleEvent(p)
why "antlr runtime: calls parse listeners"
trusted func antlr.(*BaseParser).Match(p, t) (r)
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures kept(old(bad), old(perr))
ensures bad || perr || gs == next(old(gs), t)
ensures gs == old(gs) || gs == next(old(gs), t)
why "antlr runtime: consumes a token of type t, or reports or notes an error"
trusted func antlr.(*BaseParser).Consume(p) (r)
modifies ghost gs, ghost la
ensures gs == next(old(gs), old(la))
why "antlr runtime: consumes the current token as a child of the open node"
trusted func antlr.(*BaseParser).Precpred(p, ctx, n) (r)
modifies ghost gs
ensures r ==> gs == next(old(gs), 3000 + n)
ensures !r ==> gs == old(gs)
why "antlr runtime: compares the precedence of the open rule with n"
trusted func antlr.(*BaseParser).GetErrorHandler(p) (r)
ensures r != nil
why "antlr runtime: the default error strategy"
trusted func antlr.(*BaseParser).GetTokenStream(p) (r)
ensures r != nil
why "antlr runtime"
trusted func antlr.(*BaseParser).GetInterpreter(p) (r)
ensures r != nil
why "antlr runtime"
trusted func antlr.(*BaseParser).GetParserRuleContext(p) (r)
ensures r != nil
why "antlr runtime: the open node"
trusted func antlr.(*BaseParser).GetParseListeners(p) (r)
why "antlr runtime"
trusted func antlr.(*BaseRecognizer).GetState(p) (r)
why "antlr runtime"
trusted func antlr.(*BaseRecognizer).SetState(p, n)
why "antlr runtime: the state used for prediction"
trusted func antlr.(*BaseRecognizer).HasError(p) (r)
ensures r == perr
why "antlr runtime: is an error pending"
trusted func antlr.(*BaseRecognizer).GetError(p) (r)
why "antlr runtime"
trusted func antlr.(*BaseRecognizer).SetError(p, err)
modifies ghost perr
ensures perr == (err != nil)
why "antlr runtime: sets the pending error"
trusted func antlr.NewNoViableAltException(a, b, c, d, e, f) (r)
ensures r != nil
why "antlr runtime"
trusted func antlr.NewFailedPredicateException(a, b, c) (r)
ensures r != nil
why "antlr runtime"
trusted func antlr.InitBaseParserRuleContext(p, parent, n)
why "antlr runtime: an empty node"
trusted func iface antlr.ErrorStrategy.Sync(h, p)
modifies ghost perr, ghost bad, ghost la
ensures kept(old(bad), old(perr))
ensures bad || la == old(la)
why "antlr runtime: skips tokens only after reporting an error"
trusted func iface antlr.ErrorStrategy.ReportMatch(h, p)
why "antlr runtime: leaves error recovery"
trusted func iface antlr.ErrorStrategy.RecoverInline(h, p) (r)
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures kept(old(bad), old(perr))
ensures bad || perr
ensures pop(gs) == pop(old(gs))
why "antlr runtime: reports or notes an error"
trusted func iface antlr.ErrorStrategy.ReportError(h, p, v)
modifies ghost bad
ensures bad
why "antlr runtime: reports the error to the listeners, unless one was reported since the last matched token"
trusted func iface antlr.ErrorStrategy.Recover(h, p, v)
modifies ghost gs, ghost perr, ghost la
why "antlr runtime: skips tokens after a reported error"
trusted func iface antlr.TokenStream.LA(s, i) (r)
ensures i == 1 ==> r == la
why "antlr runtime: the type of the i-th token ahead"
trusted func iface antlr.TokenStream.LT(s, i) (r)
why "antlr runtime: the i-th token ahead"
trusted func antlr.(*BaseParserRuleContext).SetException(c, x)
why "antlr runtime: notes the error in the node"
trusted func iface antlr.ParserRuleContext.SetStop(c, t)
why "antlr runtime: the last token of the node"

trusted func antlr.(*ParserATNSimulator).AdaptivePredict(s, p, input, decision, ctx) (r)
modifies ghost perr, ghost bad
ensures kept(old(bad), old(perr))
ensures 0 <= r && (r == 0 ==> perr)
ensures decision == 0 ==> r <= 2
ensures decision == 1 ==> r <= 3
ensures decision == 2 ==> r <= 2
ensures decision == 3 ==> r <= 2
ensures decision == 4 ==> r <= 2
ensures decision == 5 ==> r <= 2
ensures decision == 6 ==> r <= 2
ensures decision == 7 ==> r <= 2
ensures decision == 8 ==> r <= 2
ensures decision == 9 ==> r <= 2
ensures decision == 10 ==> r <= 2
ensures decision == 11 ==> r <= 8
ensures decision == 12 ==> r <= 2
ensures decision == 13 ==> r <= 2
ensures decision == 14 ==> r <= 3
ensures decision == 15 ==> r <= 2
ensures decision == 16 ==> r <= 2
ensures decision == 17 ==> r <= 2
ensures decision == 18 ==> r <= 2
ensures decision == 19 ==> r <= 2
ensures decision == 20 ==> r <= 2
ensures decision == 21 ==> r <= 2
ensures decision == 22 ==> r <= 2
ensures decision == 23 ==> r <= 2
ensures decision == 24 ==> r <= 2
ensures decision == 25 ==> r <= 2
ensures decision == 26 ==> r <= 2
ensures decision == 27 ==> r <= 2
ensures decision == 28 ==> r <= 3
ensures decision == 29 ==> r <= 7
ensures decision == 30 ==> r <= 8
ensures decision == 31 ==> r <= 2
why "antlr runtime: an alternative of the decision, or none and an error is pending"

func kfgrammar.(*KuneiformParser).Source_unit(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 0)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 0)
invariant bad || top(gs) == 1000
invariant bad || top(gs) == 1001
invariant bad || top(gs) == 1002
invariant bad || top(gs) == 1003
invariant bad || top(gs) == 1004
invariant bad || i == 0 && top(gs) == 1000 || i > 0 && top(gs) == 1001
invariant bad || top(gs) == 1000 || top(gs) == 1001
invariant bad || i == 0 && top(gs) == 1000 || i > 0 && top(gs) == 1002
invariant bad || top(gs) == 1000 || top(gs) == 1002
invariant bad || i == 0 && top(gs) == 1000 || i > 0 && top(gs) == 1003
invariant bad || top(gs) == 1000 || top(gs) == 1003
invariant bad || i == 0 && top(gs) == 1000 || i > 0 && top(gs) == 1004
invariant bad || top(gs) == 1000 || top(gs) == 1004
invariant bad || top(gs) == 1001 || top(gs) == 1002
invariant bad || top(gs) == 1001 || top(gs) == 1003
invariant bad || top(gs) == 1001 || top(gs) == 1004
invariant bad || top(gs) == 1002 || top(gs) == 1003
invariant bad || top(gs) == 1002 || top(gs) == 1004
invariant bad || top(gs) == 1003 || top(gs) == 1004

func kfgrammar.(*KuneiformParser).Database_directive(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 1)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 1)
invariant bad || top(gs) == 2000
invariant bad || top(gs) == 2001
invariant bad || top(gs) == 2002
invariant bad || i == 0 && top(gs) == 2000 || i > 0 && top(gs) == 2001
invariant bad || top(gs) == 2000 || top(gs) == 2001
invariant bad || i == 0 && top(gs) == 2000 || i > 0 && top(gs) == 2002
invariant bad || top(gs) == 2000 || top(gs) == 2002
invariant bad || top(gs) == 2001 || top(gs) == 2002

func kfgrammar.(*KuneiformParser).Extension_directive(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 2)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 2)
invariant bad || top(gs) == 3000
invariant bad || top(gs) == 3001
invariant bad || top(gs) == 3002
invariant bad || top(gs) == 3003
invariant bad || top(gs) == 3004
invariant bad || top(gs) == 3005
invariant bad || top(gs) == 3006
invariant bad || top(gs) == 3007
invariant bad || top(gs) == 3008
invariant bad || i == 0 && top(gs) == 3000 || i > 0 && top(gs) == 3001
invariant bad || top(gs) == 3000 || top(gs) == 3001
invariant bad || i == 0 && top(gs) == 3000 || i > 0 && top(gs) == 3002
invariant bad || top(gs) == 3000 || top(gs) == 3002
invariant bad || i == 0 && top(gs) == 3000 || i > 0 && top(gs) == 3003
invariant bad || top(gs) == 3000 || top(gs) == 3003
invariant bad || i == 0 && top(gs) == 3000 || i > 0 && top(gs) == 3004
invariant bad || top(gs) == 3000 || top(gs) == 3004
invariant bad || i == 0 && top(gs) == 3000 || i > 0 && top(gs) == 3005
invariant bad || top(gs) == 3000 || top(gs) == 3005
invariant bad || i == 0 && top(gs) == 3000 || i > 0 && top(gs) == 3006
invariant bad || top(gs) == 3000 || top(gs) == 3006
invariant bad || i == 0 && top(gs) == 3000 || i > 0 && top(gs) == 3007
invariant bad || top(gs) == 3000 || top(gs) == 3007
invariant bad || i == 0 && top(gs) == 3000 || i > 0 && top(gs) == 3008
invariant bad || top(gs) == 3000 || top(gs) == 3008
invariant bad || top(gs) == 3001 || top(gs) == 3002
invariant bad || top(gs) == 3001 || top(gs) == 3003
invariant bad || top(gs) == 3001 || top(gs) == 3004
invariant bad || top(gs) == 3001 || top(gs) == 3005
invariant bad || top(gs) == 3001 || top(gs) == 3006
invariant bad || top(gs) == 3001 || top(gs) == 3007
invariant bad || top(gs) == 3001 || top(gs) == 3008
invariant bad || top(gs) == 3002 || top(gs) == 3003
invariant bad || top(gs) == 3002 || top(gs) == 3004
invariant bad || top(gs) == 3002 || top(gs) == 3005
invariant bad || top(gs) == 3002 || top(gs) == 3006
invariant bad || top(gs) == 3002 || top(gs) == 3007
invariant bad || top(gs) == 3002 || top(gs) == 3008
invariant bad || top(gs) == 3003 || top(gs) == 3004
invariant bad || top(gs) == 3003 || top(gs) == 3005
invariant bad || top(gs) == 3003 || top(gs) == 3006
invariant bad || top(gs) == 3003 || top(gs) == 3007
invariant bad || top(gs) == 3003 || top(gs) == 3008
invariant bad || top(gs) == 3004 || top(gs) == 3005
invariant bad || top(gs) == 3004 || top(gs) == 3006
invariant bad || top(gs) == 3004 || top(gs) == 3007
invariant bad || top(gs) == 3004 || top(gs) == 3008
invariant bad || top(gs) == 3005 || top(gs) == 3006
invariant bad || top(gs) == 3005 || top(gs) == 3007
invariant bad || top(gs) == 3005 || top(gs) == 3008
invariant bad || top(gs) == 3006 || top(gs) == 3007
invariant bad || top(gs) == 3006 || top(gs) == 3008
invariant bad || top(gs) == 3007 || top(gs) == 3008

func kfgrammar.(*KuneiformParser).Ext_config_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 3)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 3)
invariant bad || top(gs) == 4000
invariant bad || top(gs) == 4001
invariant bad || i == 0 && top(gs) == 4000 || i > 0 && top(gs) == 4001
invariant bad || top(gs) == 4000 || top(gs) == 4001

func kfgrammar.(*KuneiformParser).Ext_config(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 4)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 4)
invariant bad || top(gs) == 5000
invariant bad || top(gs) == 5001
invariant bad || top(gs) == 5002
invariant bad || top(gs) == 5003
invariant bad || i == 0 && top(gs) == 5000 || i > 0 && top(gs) == 5001
invariant bad || top(gs) == 5000 || top(gs) == 5001
invariant bad || i == 0 && top(gs) == 5000 || i > 0 && top(gs) == 5002
invariant bad || top(gs) == 5000 || top(gs) == 5002
invariant bad || i == 0 && top(gs) == 5000 || i > 0 && top(gs) == 5003
invariant bad || top(gs) == 5000 || top(gs) == 5003
invariant bad || top(gs) == 5001 || top(gs) == 5002
invariant bad || top(gs) == 5001 || top(gs) == 5003
invariant bad || top(gs) == 5002 || top(gs) == 5003

func kfgrammar.(*KuneiformParser).Annotation_decl(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 5)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 5)
invariant bad || top(gs) == 6000
invariant bad || top(gs) == 6001
invariant bad || top(gs) == 6002
invariant bad || top(gs) == 6003
invariant bad || top(gs) == 6004
invariant bad || i == 0 && top(gs) == 6000 || i > 0 && top(gs) == 6001
invariant bad || top(gs) == 6000 || top(gs) == 6001
invariant bad || i == 0 && top(gs) == 6000 || i > 0 && top(gs) == 6002
invariant bad || top(gs) == 6000 || top(gs) == 6002
invariant bad || i == 0 && top(gs) == 6000 || i > 0 && top(gs) == 6003
invariant bad || top(gs) == 6000 || top(gs) == 6003
invariant bad || i == 0 && top(gs) == 6000 || i > 0 && top(gs) == 6004
invariant bad || top(gs) == 6000 || top(gs) == 6004
invariant bad || top(gs) == 6001 || top(gs) == 6002
invariant bad || top(gs) == 6001 || top(gs) == 6003
invariant bad || top(gs) == 6001 || top(gs) == 6004
invariant bad || top(gs) == 6002 || top(gs) == 6003
invariant bad || top(gs) == 6002 || top(gs) == 6004
invariant bad || top(gs) == 6003 || top(gs) == 6004

func kfgrammar.(*KuneiformParser).Annotation_attr_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 6)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 6)
invariant bad || top(gs) == 7000
invariant bad || top(gs) == 7001
invariant bad || i == 0 && top(gs) == 7000 || i > 0 && top(gs) == 7001
invariant bad || top(gs) == 7000 || top(gs) == 7001

func kfgrammar.(*KuneiformParser).Annotation_attr(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 7)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 7)
invariant bad || top(gs) == 8000
invariant bad || top(gs) == 8001
invariant bad || top(gs) == 8002
invariant bad || top(gs) == 8003
invariant bad || i == 0 && top(gs) == 8000 || i > 0 && top(gs) == 8001
invariant bad || top(gs) == 8000 || top(gs) == 8001
invariant bad || i == 0 && top(gs) == 8000 || i > 0 && top(gs) == 8002
invariant bad || top(gs) == 8000 || top(gs) == 8002
invariant bad || i == 0 && top(gs) == 8000 || i > 0 && top(gs) == 8003
invariant bad || top(gs) == 8000 || top(gs) == 8003
invariant bad || top(gs) == 8001 || top(gs) == 8002
invariant bad || top(gs) == 8001 || top(gs) == 8003
invariant bad || top(gs) == 8002 || top(gs) == 8003

func kfgrammar.(*KuneiformParser).Table_decl(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 8)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 8)
invariant bad || top(gs) == 9000
invariant bad || top(gs) == 9001
invariant bad || top(gs) == 9002
invariant bad || top(gs) == 9003
invariant bad || top(gs) == 9004
invariant bad || top(gs) == 9005
invariant bad || top(gs) == 9006
invariant bad || i == 0 && top(gs) == 9000 || i > 0 && top(gs) == 9001
invariant bad || top(gs) == 9000 || top(gs) == 9001
invariant bad || i == 0 && top(gs) == 9000 || i > 0 && top(gs) == 9002
invariant bad || top(gs) == 9000 || top(gs) == 9002
invariant bad || i == 0 && top(gs) == 9000 || i > 0 && top(gs) == 9003
invariant bad || top(gs) == 9000 || top(gs) == 9003
invariant bad || i == 0 && top(gs) == 9000 || i > 0 && top(gs) == 9004
invariant bad || top(gs) == 9000 || top(gs) == 9004
invariant bad || i == 0 && top(gs) == 9000 || i > 0 && top(gs) == 9005
invariant bad || top(gs) == 9000 || top(gs) == 9005
invariant bad || i == 0 && top(gs) == 9000 || i > 0 && top(gs) == 9006
invariant bad || top(gs) == 9000 || top(gs) == 9006
invariant bad || top(gs) == 9001 || top(gs) == 9002
invariant bad || top(gs) == 9001 || top(gs) == 9003
invariant bad || top(gs) == 9001 || top(gs) == 9004
invariant bad || top(gs) == 9001 || top(gs) == 9005
invariant bad || top(gs) == 9001 || top(gs) == 9006
invariant bad || top(gs) == 9002 || top(gs) == 9003
invariant bad || top(gs) == 9002 || top(gs) == 9004
invariant bad || top(gs) == 9002 || top(gs) == 9005
invariant bad || top(gs) == 9002 || top(gs) == 9006
invariant bad || top(gs) == 9003 || top(gs) == 9004
invariant bad || top(gs) == 9003 || top(gs) == 9005
invariant bad || top(gs) == 9003 || top(gs) == 9006
invariant bad || top(gs) == 9004 || top(gs) == 9005
invariant bad || top(gs) == 9004 || top(gs) == 9006
invariant bad || top(gs) == 9005 || top(gs) == 9006

func kfgrammar.(*KuneiformParser).Column_def(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 9)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 9)
invariant bad || top(gs) == 10000
invariant bad || top(gs) == 10001
invariant bad || top(gs) == 10002
invariant bad || i == 0 && top(gs) == 10000 || i > 0 && top(gs) == 10001
invariant bad || top(gs) == 10000 || top(gs) == 10001
invariant bad || i == 0 && top(gs) == 10000 || i > 0 && top(gs) == 10002
invariant bad || top(gs) == 10000 || top(gs) == 10002
invariant bad || top(gs) == 10001 || top(gs) == 10002

func kfgrammar.(*KuneiformParser).Column_def_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 10)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 10)
invariant bad || top(gs) == 11000
invariant bad || top(gs) == 11001
invariant bad || i == 0 && top(gs) == 11000 || i > 0 && top(gs) == 11001
invariant bad || top(gs) == 11000 || top(gs) == 11001

func kfgrammar.(*KuneiformParser).Column_type(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 11)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 11)
invariant bad || top(gs) == 12000
invariant bad || top(gs) == 12001
invariant bad || i == 0 && top(gs) == 12000 || i > 0 && top(gs) == 12001
invariant bad || top(gs) == 12000 || top(gs) == 12001

func kfgrammar.(*KuneiformParser).Column_constraint(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 12)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 12)
invariant bad || top(gs) == 13000
invariant bad || top(gs) == 13001
invariant bad || top(gs) == 13002
invariant bad || top(gs) == 13003
invariant bad || top(gs) == 13004
invariant bad || top(gs) == 13005
invariant bad || top(gs) == 13006
invariant bad || i == 0 && top(gs) == 13000 || i > 0 && top(gs) == 13001
invariant bad || top(gs) == 13000 || top(gs) == 13001
invariant bad || i == 0 && top(gs) == 13000 || i > 0 && top(gs) == 13002
invariant bad || top(gs) == 13000 || top(gs) == 13002
invariant bad || i == 0 && top(gs) == 13000 || i > 0 && top(gs) == 13003
invariant bad || top(gs) == 13000 || top(gs) == 13003
invariant bad || i == 0 && top(gs) == 13000 || i > 0 && top(gs) == 13004
invariant bad || top(gs) == 13000 || top(gs) == 13004
invariant bad || i == 0 && top(gs) == 13000 || i > 0 && top(gs) == 13005
invariant bad || top(gs) == 13000 || top(gs) == 13005
invariant bad || i == 0 && top(gs) == 13000 || i > 0 && top(gs) == 13006
invariant bad || top(gs) == 13000 || top(gs) == 13006
invariant bad || top(gs) == 13001 || top(gs) == 13002
invariant bad || top(gs) == 13001 || top(gs) == 13003
invariant bad || top(gs) == 13001 || top(gs) == 13004
invariant bad || top(gs) == 13001 || top(gs) == 13005
invariant bad || top(gs) == 13001 || top(gs) == 13006
invariant bad || top(gs) == 13002 || top(gs) == 13003
invariant bad || top(gs) == 13002 || top(gs) == 13004
invariant bad || top(gs) == 13002 || top(gs) == 13005
invariant bad || top(gs) == 13002 || top(gs) == 13006
invariant bad || top(gs) == 13003 || top(gs) == 13004
invariant bad || top(gs) == 13003 || top(gs) == 13005
invariant bad || top(gs) == 13003 || top(gs) == 13006
invariant bad || top(gs) == 13004 || top(gs) == 13005
invariant bad || top(gs) == 13004 || top(gs) == 13006
invariant bad || top(gs) == 13005 || top(gs) == 13006

func kfgrammar.(*KuneiformParser).Literal_value(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 13)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 13)
invariant bad || top(gs) == 14000
invariant bad || top(gs) == 14001
invariant bad || i == 0 && top(gs) == 14000 || i > 0 && top(gs) == 14001
invariant bad || top(gs) == 14000 || top(gs) == 14001

func kfgrammar.(*KuneiformParser).Number_value(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 14)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 14)
invariant bad || top(gs) == 15000
invariant bad || top(gs) == 15001
invariant bad || i == 0 && top(gs) == 15000 || i > 0 && top(gs) == 15001
invariant bad || top(gs) == 15000 || top(gs) == 15001

func kfgrammar.(*KuneiformParser).Index_def(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 15)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 15)
invariant bad || top(gs) == 16000
invariant bad || top(gs) == 16001
invariant bad || top(gs) == 16002
invariant bad || top(gs) == 16003
invariant bad || top(gs) == 16004
invariant bad || top(gs) == 16005
invariant bad || i == 0 && top(gs) == 16000 || i > 0 && top(gs) == 16001
invariant bad || top(gs) == 16000 || top(gs) == 16001
invariant bad || i == 0 && top(gs) == 16000 || i > 0 && top(gs) == 16002
invariant bad || top(gs) == 16000 || top(gs) == 16002
invariant bad || i == 0 && top(gs) == 16000 || i > 0 && top(gs) == 16003
invariant bad || top(gs) == 16000 || top(gs) == 16003
invariant bad || i == 0 && top(gs) == 16000 || i > 0 && top(gs) == 16004
invariant bad || top(gs) == 16000 || top(gs) == 16004
invariant bad || i == 0 && top(gs) == 16000 || i > 0 && top(gs) == 16005
invariant bad || top(gs) == 16000 || top(gs) == 16005
invariant bad || top(gs) == 16001 || top(gs) == 16002
invariant bad || top(gs) == 16001 || top(gs) == 16003
invariant bad || top(gs) == 16001 || top(gs) == 16004
invariant bad || top(gs) == 16001 || top(gs) == 16005
invariant bad || top(gs) == 16002 || top(gs) == 16003
invariant bad || top(gs) == 16002 || top(gs) == 16004
invariant bad || top(gs) == 16002 || top(gs) == 16005
invariant bad || top(gs) == 16003 || top(gs) == 16004
invariant bad || top(gs) == 16003 || top(gs) == 16005
invariant bad || top(gs) == 16004 || top(gs) == 16005

func kfgrammar.(*KuneiformParser).Foreign_key_action(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 16)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 16)
invariant bad || top(gs) == 17000
invariant bad || top(gs) == 17001
invariant bad || top(gs) == 17002
invariant bad || top(gs) == 17003
invariant bad || i == 0 && top(gs) == 17000 || i > 0 && top(gs) == 17001
invariant bad || top(gs) == 17000 || top(gs) == 17001
invariant bad || i == 0 && top(gs) == 17000 || i > 0 && top(gs) == 17002
invariant bad || top(gs) == 17000 || top(gs) == 17002
invariant bad || i == 0 && top(gs) == 17000 || i > 0 && top(gs) == 17003
invariant bad || top(gs) == 17000 || top(gs) == 17003
invariant bad || top(gs) == 17001 || top(gs) == 17002
invariant bad || top(gs) == 17001 || top(gs) == 17003
invariant bad || top(gs) == 17002 || top(gs) == 17003

func kfgrammar.(*KuneiformParser).Foreign_key_def(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 17)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 17)
invariant bad || top(gs) == 18000
invariant bad || top(gs) == 18001
invariant bad || top(gs) == 18002
invariant bad || top(gs) == 18003
invariant bad || top(gs) == 18004
invariant bad || top(gs) == 18005
invariant bad || top(gs) == 18006
invariant bad || top(gs) == 18007
invariant bad || top(gs) == 18008
invariant bad || top(gs) == 18009
invariant bad || i == 0 && top(gs) == 18000 || i > 0 && top(gs) == 18001
invariant bad || top(gs) == 18000 || top(gs) == 18001
invariant bad || i == 0 && top(gs) == 18000 || i > 0 && top(gs) == 18002
invariant bad || top(gs) == 18000 || top(gs) == 18002
invariant bad || i == 0 && top(gs) == 18000 || i > 0 && top(gs) == 18003
invariant bad || top(gs) == 18000 || top(gs) == 18003
invariant bad || i == 0 && top(gs) == 18000 || i > 0 && top(gs) == 18004
invariant bad || top(gs) == 18000 || top(gs) == 18004
invariant bad || i == 0 && top(gs) == 18000 || i > 0 && top(gs) == 18005
invariant bad || top(gs) == 18000 || top(gs) == 18005
invariant bad || i == 0 && top(gs) == 18000 || i > 0 && top(gs) == 18006
invariant bad || top(gs) == 18000 || top(gs) == 18006
invariant bad || i == 0 && top(gs) == 18000 || i > 0 && top(gs) == 18007
invariant bad || top(gs) == 18000 || top(gs) == 18007
invariant bad || i == 0 && top(gs) == 18000 || i > 0 && top(gs) == 18008
invariant bad || top(gs) == 18000 || top(gs) == 18008
invariant bad || i == 0 && top(gs) == 18000 || i > 0 && top(gs) == 18009
invariant bad || top(gs) == 18000 || top(gs) == 18009
invariant bad || top(gs) == 18001 || top(gs) == 18002
invariant bad || top(gs) == 18001 || top(gs) == 18003
invariant bad || top(gs) == 18001 || top(gs) == 18004
invariant bad || top(gs) == 18001 || top(gs) == 18005
invariant bad || top(gs) == 18001 || top(gs) == 18006
invariant bad || top(gs) == 18001 || top(gs) == 18007
invariant bad || top(gs) == 18001 || top(gs) == 18008
invariant bad || top(gs) == 18001 || top(gs) == 18009
invariant bad || top(gs) == 18002 || top(gs) == 18003
invariant bad || top(gs) == 18002 || top(gs) == 18004
invariant bad || top(gs) == 18002 || top(gs) == 18005
invariant bad || top(gs) == 18002 || top(gs) == 18006
invariant bad || top(gs) == 18002 || top(gs) == 18007
invariant bad || top(gs) == 18002 || top(gs) == 18008
invariant bad || top(gs) == 18002 || top(gs) == 18009
invariant bad || top(gs) == 18003 || top(gs) == 18004
invariant bad || top(gs) == 18003 || top(gs) == 18005
invariant bad || top(gs) == 18003 || top(gs) == 18006
invariant bad || top(gs) == 18003 || top(gs) == 18007
invariant bad || top(gs) == 18003 || top(gs) == 18008
invariant bad || top(gs) == 18003 || top(gs) == 18009
invariant bad || top(gs) == 18004 || top(gs) == 18005
invariant bad || top(gs) == 18004 || top(gs) == 18006
invariant bad || top(gs) == 18004 || top(gs) == 18007
invariant bad || top(gs) == 18004 || top(gs) == 18008
invariant bad || top(gs) == 18004 || top(gs) == 18009
invariant bad || top(gs) == 18005 || top(gs) == 18006
invariant bad || top(gs) == 18005 || top(gs) == 18007
invariant bad || top(gs) == 18005 || top(gs) == 18008
invariant bad || top(gs) == 18005 || top(gs) == 18009
invariant bad || top(gs) == 18006 || top(gs) == 18007
invariant bad || top(gs) == 18006 || top(gs) == 18008
invariant bad || top(gs) == 18006 || top(gs) == 18009
invariant bad || top(gs) == 18007 || top(gs) == 18008
invariant bad || top(gs) == 18007 || top(gs) == 18009
invariant bad || top(gs) == 18008 || top(gs) == 18009

func kfgrammar.(*KuneiformParser).Action_visibility(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 18)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 18)
invariant bad || top(gs) == 19000
invariant bad || top(gs) == 19001
invariant bad || i == 0 && top(gs) == 19000 || i > 0 && top(gs) == 19001
invariant bad || top(gs) == 19000 || top(gs) == 19001

func kfgrammar.(*KuneiformParser).Action_mutability(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 19)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 19)
invariant bad || top(gs) == 20000
invariant bad || top(gs) == 20001
invariant bad || i == 0 && top(gs) == 20000 || i > 0 && top(gs) == 20001
invariant bad || top(gs) == 20000 || top(gs) == 20001

func kfgrammar.(*KuneiformParser).Action_auxiliary(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 20)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 20)
invariant bad || top(gs) == 21000
invariant bad || top(gs) == 21001
invariant bad || i == 0 && top(gs) == 21000 || i > 0 && top(gs) == 21001
invariant bad || top(gs) == 21000 || top(gs) == 21001

func kfgrammar.(*KuneiformParser).Action_attr_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 21)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 21)
invariant bad || top(gs) == 22000

func kfgrammar.(*KuneiformParser).Action_decl(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 22)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 22)
invariant bad || top(gs) == 23000
invariant bad || top(gs) == 23001
invariant bad || top(gs) == 23002
invariant bad || top(gs) == 23003
invariant bad || top(gs) == 23004
invariant bad || top(gs) == 23005
invariant bad || top(gs) == 23006
invariant bad || top(gs) == 23007
invariant bad || top(gs) == 23008
invariant bad || top(gs) == 23009
invariant bad || i == 0 && top(gs) == 23000 || i > 0 && top(gs) == 23001
invariant bad || top(gs) == 23000 || top(gs) == 23001
invariant bad || i == 0 && top(gs) == 23000 || i > 0 && top(gs) == 23002
invariant bad || top(gs) == 23000 || top(gs) == 23002
invariant bad || i == 0 && top(gs) == 23000 || i > 0 && top(gs) == 23003
invariant bad || top(gs) == 23000 || top(gs) == 23003
invariant bad || i == 0 && top(gs) == 23000 || i > 0 && top(gs) == 23004
invariant bad || top(gs) == 23000 || top(gs) == 23004
invariant bad || i == 0 && top(gs) == 23000 || i > 0 && top(gs) == 23005
invariant bad || top(gs) == 23000 || top(gs) == 23005
invariant bad || i == 0 && top(gs) == 23000 || i > 0 && top(gs) == 23006
invariant bad || top(gs) == 23000 || top(gs) == 23006
invariant bad || i == 0 && top(gs) == 23000 || i > 0 && top(gs) == 23007
invariant bad || top(gs) == 23000 || top(gs) == 23007
invariant bad || i == 0 && top(gs) == 23000 || i > 0 && top(gs) == 23008
invariant bad || top(gs) == 23000 || top(gs) == 23008
invariant bad || i == 0 && top(gs) == 23000 || i > 0 && top(gs) == 23009
invariant bad || top(gs) == 23000 || top(gs) == 23009
invariant bad || top(gs) == 23001 || top(gs) == 23002
invariant bad || top(gs) == 23001 || top(gs) == 23003
invariant bad || top(gs) == 23001 || top(gs) == 23004
invariant bad || top(gs) == 23001 || top(gs) == 23005
invariant bad || top(gs) == 23001 || top(gs) == 23006
invariant bad || top(gs) == 23001 || top(gs) == 23007
invariant bad || top(gs) == 23001 || top(gs) == 23008
invariant bad || top(gs) == 23001 || top(gs) == 23009
invariant bad || top(gs) == 23002 || top(gs) == 23003
invariant bad || top(gs) == 23002 || top(gs) == 23004
invariant bad || top(gs) == 23002 || top(gs) == 23005
invariant bad || top(gs) == 23002 || top(gs) == 23006
invariant bad || top(gs) == 23002 || top(gs) == 23007
invariant bad || top(gs) == 23002 || top(gs) == 23008
invariant bad || top(gs) == 23002 || top(gs) == 23009
invariant bad || top(gs) == 23003 || top(gs) == 23004
invariant bad || top(gs) == 23003 || top(gs) == 23005
invariant bad || top(gs) == 23003 || top(gs) == 23006
invariant bad || top(gs) == 23003 || top(gs) == 23007
invariant bad || top(gs) == 23003 || top(gs) == 23008
invariant bad || top(gs) == 23003 || top(gs) == 23009
invariant bad || top(gs) == 23004 || top(gs) == 23005
invariant bad || top(gs) == 23004 || top(gs) == 23006
invariant bad || top(gs) == 23004 || top(gs) == 23007
invariant bad || top(gs) == 23004 || top(gs) == 23008
invariant bad || top(gs) == 23004 || top(gs) == 23009
invariant bad || top(gs) == 23005 || top(gs) == 23006
invariant bad || top(gs) == 23005 || top(gs) == 23007
invariant bad || top(gs) == 23005 || top(gs) == 23008
invariant bad || top(gs) == 23005 || top(gs) == 23009
invariant bad || top(gs) == 23006 || top(gs) == 23007
invariant bad || top(gs) == 23006 || top(gs) == 23008
invariant bad || top(gs) == 23006 || top(gs) == 23009
invariant bad || top(gs) == 23007 || top(gs) == 23008
invariant bad || top(gs) == 23007 || top(gs) == 23009
invariant bad || top(gs) == 23008 || top(gs) == 23009

func kfgrammar.(*KuneiformParser).Param_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 23)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 23)
invariant bad || top(gs) == 24000
invariant bad || top(gs) == 24001
invariant bad || top(gs) == 24002
invariant bad || i == 0 && top(gs) == 24000 || i > 0 && top(gs) == 24001
invariant bad || top(gs) == 24000 || top(gs) == 24001
invariant bad || i == 0 && top(gs) == 24000 || i > 0 && top(gs) == 24002
invariant bad || top(gs) == 24000 || top(gs) == 24002
invariant bad || top(gs) == 24001 || top(gs) == 24002

func kfgrammar.(*KuneiformParser).Parameter(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 24)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 24)
invariant bad || top(gs) == 25000
invariant bad || top(gs) == 25001
invariant bad || i == 0 && top(gs) == 25000 || i > 0 && top(gs) == 25001
invariant bad || top(gs) == 25000 || top(gs) == 25001

func kfgrammar.(*KuneiformParser).Database_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 25)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 25)
invariant bad || top(gs) == 26000
invariant bad || top(gs) == 26001
invariant bad || i == 0 && top(gs) == 26000 || i > 0 && top(gs) == 26001
invariant bad || top(gs) == 26000 || top(gs) == 26001

func kfgrammar.(*KuneiformParser).Extension_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 26)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 26)
invariant bad || top(gs) == 27000
invariant bad || top(gs) == 27001
invariant bad || i == 0 && top(gs) == 27000 || i > 0 && top(gs) == 27001
invariant bad || top(gs) == 27000 || top(gs) == 27001

func kfgrammar.(*KuneiformParser).Ext_config_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 27)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 27)
invariant bad || top(gs) == 28000
invariant bad || top(gs) == 28001
invariant bad || i == 0 && top(gs) == 28000 || i > 0 && top(gs) == 28001
invariant bad || top(gs) == 28000 || top(gs) == 28001

func kfgrammar.(*KuneiformParser).Table_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 28)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 28)
invariant bad || top(gs) == 29000
invariant bad || top(gs) == 29001
invariant bad || i == 0 && top(gs) == 29000 || i > 0 && top(gs) == 29001
invariant bad || top(gs) == 29000 || top(gs) == 29001

func kfgrammar.(*KuneiformParser).Action_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 29)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 29)
invariant bad || top(gs) == 30000
invariant bad || top(gs) == 30001
invariant bad || i == 0 && top(gs) == 30000 || i > 0 && top(gs) == 30001
invariant bad || top(gs) == 30000 || top(gs) == 30001

func kfgrammar.(*KuneiformParser).Column_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 30)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 30)
invariant bad || top(gs) == 31000
invariant bad || top(gs) == 31001
invariant bad || i == 0 && top(gs) == 31000 || i > 0 && top(gs) == 31001
invariant bad || top(gs) == 31000 || top(gs) == 31001

func kfgrammar.(*KuneiformParser).Column_name_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 31)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 31)
invariant bad || top(gs) == 32000
invariant bad || top(gs) == 32001
invariant bad || i == 0 && top(gs) == 32000 || i > 0 && top(gs) == 32001
invariant bad || top(gs) == 32000 || top(gs) == 32001

func kfgrammar.(*KuneiformParser).Index_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 32)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 32)
invariant bad || top(gs) == 33000
invariant bad || top(gs) == 33001
invariant bad || i == 0 && top(gs) == 33000 || i > 0 && top(gs) == 33001
invariant bad || top(gs) == 33000 || top(gs) == 33001

func kfgrammar.(*KuneiformParser).Annotation_target_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 33)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 33)
invariant bad || top(gs) == 34000
invariant bad || top(gs) == 34001
invariant bad || i == 0 && top(gs) == 34000 || i > 0 && top(gs) == 34001
invariant bad || top(gs) == 34000 || top(gs) == 34001

func kfgrammar.(*KuneiformParser).Annotation_attr_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 34)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 34)
invariant bad || top(gs) == 35000
invariant bad || top(gs) == 35001
invariant bad || i == 0 && top(gs) == 35000 || i > 0 && top(gs) == 35001
invariant bad || top(gs) == 35000 || top(gs) == 35001

func kfgrammar.(*KuneiformParser).Annotation_attr_value(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 35)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 35)
invariant bad || top(gs) == 36000
invariant bad || top(gs) == 36001
invariant bad || i == 0 && top(gs) == 36000 || i > 0 && top(gs) == 36001
invariant bad || top(gs) == 36000 || top(gs) == 36001

func kfgrammar.(*KuneiformParser).Ext_config_value(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 36)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 36)
invariant bad || top(gs) == 37000
invariant bad || top(gs) == 37001
invariant bad || i == 0 && top(gs) == 37000 || i > 0 && top(gs) == 37001
invariant bad || top(gs) == 37000 || top(gs) == 37001

func kfgrammar.(*KuneiformParser).Init_decl(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 37)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 37)
invariant bad || top(gs) == 38000
invariant bad || top(gs) == 38001
invariant bad || top(gs) == 38002
invariant bad || top(gs) == 38003
invariant bad || top(gs) == 38004
invariant bad || top(gs) == 38005
invariant bad || top(gs) == 38006
invariant bad || i == 0 && top(gs) == 38000 || i > 0 && top(gs) == 38001
invariant bad || top(gs) == 38000 || top(gs) == 38001
invariant bad || i == 0 && top(gs) == 38000 || i > 0 && top(gs) == 38002
invariant bad || top(gs) == 38000 || top(gs) == 38002
invariant bad || i == 0 && top(gs) == 38000 || i > 0 && top(gs) == 38003
invariant bad || top(gs) == 38000 || top(gs) == 38003
invariant bad || i == 0 && top(gs) == 38000 || i > 0 && top(gs) == 38004
invariant bad || top(gs) == 38000 || top(gs) == 38004
invariant bad || i == 0 && top(gs) == 38000 || i > 0 && top(gs) == 38005
invariant bad || top(gs) == 38000 || top(gs) == 38005
invariant bad || i == 0 && top(gs) == 38000 || i > 0 && top(gs) == 38006
invariant bad || top(gs) == 38000 || top(gs) == 38006
invariant bad || top(gs) == 38001 || top(gs) == 38002
invariant bad || top(gs) == 38001 || top(gs) == 38003
invariant bad || top(gs) == 38001 || top(gs) == 38004
invariant bad || top(gs) == 38001 || top(gs) == 38005
invariant bad || top(gs) == 38001 || top(gs) == 38006
invariant bad || top(gs) == 38002 || top(gs) == 38003
invariant bad || top(gs) == 38002 || top(gs) == 38004
invariant bad || top(gs) == 38002 || top(gs) == 38005
invariant bad || top(gs) == 38002 || top(gs) == 38006
invariant bad || top(gs) == 38003 || top(gs) == 38004
invariant bad || top(gs) == 38003 || top(gs) == 38005
invariant bad || top(gs) == 38003 || top(gs) == 38006
invariant bad || top(gs) == 38004 || top(gs) == 38005
invariant bad || top(gs) == 38004 || top(gs) == 38006
invariant bad || top(gs) == 38005 || top(gs) == 38006

func kfgrammar.(*KuneiformParser).Action_stmt_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 38)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 38)
invariant bad || top(gs) == 39000
invariant bad || top(gs) == 39001
invariant bad || i == 0 && top(gs) == 39000 || i > 0 && top(gs) == 39001
invariant bad || top(gs) == 39000 || top(gs) == 39001

func kfgrammar.(*KuneiformParser).Action_stmt(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 39)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 39)
invariant bad || top(gs) == 40000
invariant bad || top(gs) == 40001
invariant bad || i == 0 && top(gs) == 40000 || i > 0 && top(gs) == 40001
invariant bad || top(gs) == 40000 || top(gs) == 40001

func kfgrammar.(*KuneiformParser).Sql_stmt(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 40)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 40)
invariant bad || top(gs) == 41000
invariant bad || top(gs) == 41001
invariant bad || top(gs) == 41002
invariant bad || i == 0 && top(gs) == 41000 || i > 0 && top(gs) == 41001
invariant bad || top(gs) == 41000 || top(gs) == 41001
invariant bad || i == 0 && top(gs) == 41000 || i > 0 && top(gs) == 41002
invariant bad || top(gs) == 41000 || top(gs) == 41002
invariant bad || top(gs) == 41001 || top(gs) == 41002

func kfgrammar.(*KuneiformParser).Call_stmt(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 41)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 41)
invariant bad || top(gs) == 42000
invariant bad || top(gs) == 42001
invariant bad || top(gs) == 42002
invariant bad || top(gs) == 42003
invariant bad || top(gs) == 42004
invariant bad || i == 0 && top(gs) == 42000 || i > 0 && top(gs) == 42001
invariant bad || top(gs) == 42000 || top(gs) == 42001
invariant bad || i == 0 && top(gs) == 42000 || i > 0 && top(gs) == 42002
invariant bad || top(gs) == 42000 || top(gs) == 42002
invariant bad || i == 0 && top(gs) == 42000 || i > 0 && top(gs) == 42003
invariant bad || top(gs) == 42000 || top(gs) == 42003
invariant bad || i == 0 && top(gs) == 42000 || i > 0 && top(gs) == 42004
invariant bad || top(gs) == 42000 || top(gs) == 42004
invariant bad || top(gs) == 42001 || top(gs) == 42002
invariant bad || top(gs) == 42001 || top(gs) == 42003
invariant bad || top(gs) == 42001 || top(gs) == 42004
invariant bad || top(gs) == 42002 || top(gs) == 42003
invariant bad || top(gs) == 42002 || top(gs) == 42004
invariant bad || top(gs) == 42003 || top(gs) == 42004

func kfgrammar.(*KuneiformParser).Call_receivers(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 42)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 42)
invariant bad || top(gs) == 43000
invariant bad || top(gs) == 43001
invariant bad || i == 0 && top(gs) == 43000 || i > 0 && top(gs) == 43001
invariant bad || top(gs) == 43000 || top(gs) == 43001

func kfgrammar.(*KuneiformParser).Call_body(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 43)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 43)
invariant bad || top(gs) == 44000
invariant bad || top(gs) == 44001
invariant bad || top(gs) == 44002
invariant bad || top(gs) == 44003
invariant bad || top(gs) == 44004
invariant bad || i == 0 && top(gs) == 44000 || i > 0 && top(gs) == 44001
invariant bad || top(gs) == 44000 || top(gs) == 44001
invariant bad || i == 0 && top(gs) == 44000 || i > 0 && top(gs) == 44002
invariant bad || top(gs) == 44000 || top(gs) == 44002
invariant bad || i == 0 && top(gs) == 44000 || i > 0 && top(gs) == 44003
invariant bad || top(gs) == 44000 || top(gs) == 44003
invariant bad || i == 0 && top(gs) == 44000 || i > 0 && top(gs) == 44004
invariant bad || top(gs) == 44000 || top(gs) == 44004
invariant bad || top(gs) == 44001 || top(gs) == 44002
invariant bad || top(gs) == 44001 || top(gs) == 44003
invariant bad || top(gs) == 44001 || top(gs) == 44004
invariant bad || top(gs) == 44002 || top(gs) == 44003
invariant bad || top(gs) == 44002 || top(gs) == 44004
invariant bad || top(gs) == 44003 || top(gs) == 44004

func kfgrammar.(*KuneiformParser).Variable(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 44)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 44)
invariant bad || top(gs) == 45000
invariant bad || top(gs) == 45001
invariant bad || i == 0 && top(gs) == 45000 || i > 0 && top(gs) == 45001
invariant bad || top(gs) == 45000 || top(gs) == 45001

func kfgrammar.(*KuneiformParser).Block_var(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 45)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 45)
invariant bad || top(gs) == 46000
invariant bad || top(gs) == 46001
invariant bad || i == 0 && top(gs) == 46000 || i > 0 && top(gs) == 46001
invariant bad || top(gs) == 46000 || top(gs) == 46001

func kfgrammar.(*KuneiformParser).Extension_call_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 46)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 46)
invariant bad || top(gs) == 47000
invariant bad || top(gs) == 47001
invariant bad || top(gs) == 47002
invariant bad || top(gs) == 47003
invariant bad || i == 0 && top(gs) == 47000 || i > 0 && top(gs) == 47001
invariant bad || top(gs) == 47000 || top(gs) == 47001
invariant bad || i == 0 && top(gs) == 47000 || i > 0 && top(gs) == 47002
invariant bad || top(gs) == 47000 || top(gs) == 47002
invariant bad || i == 0 && top(gs) == 47000 || i > 0 && top(gs) == 47003
invariant bad || top(gs) == 47000 || top(gs) == 47003
invariant bad || top(gs) == 47001 || top(gs) == 47002
invariant bad || top(gs) == 47001 || top(gs) == 47003
invariant bad || top(gs) == 47002 || top(gs) == 47003

func kfgrammar.(*KuneiformParser).Fn_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 47)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 47)
invariant bad || top(gs) == 48000
invariant bad || top(gs) == 48001
invariant bad || i == 0 && top(gs) == 48000 || i > 0 && top(gs) == 48001
invariant bad || top(gs) == 48000 || top(gs) == 48001

func kfgrammar.(*KuneiformParser).Sfn_name(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 48)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 48)
invariant bad || top(gs) == 49000
invariant bad || top(gs) == 49001
invariant bad || i == 0 && top(gs) == 49000 || i > 0 && top(gs) == 49001
invariant bad || top(gs) == 49000 || top(gs) == 49001

func kfgrammar.(*KuneiformParser).Fn_arg_list(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 1000 + 49)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 1000 + 49)
invariant bad || top(gs) == 50000
invariant bad || top(gs) == 50001
invariant bad || top(gs) == 50002
invariant bad || i == 0 && top(gs) == 50000 || i > 0 && top(gs) == 50001
invariant bad || top(gs) == 50000 || top(gs) == 50001
invariant bad || i == 0 && top(gs) == 50000 || i > 0 && top(gs) == 50002
invariant bad || top(gs) == 50000 || top(gs) == 50002
invariant bad || top(gs) == 50001 || top(gs) == 50002

func kfgrammar.(*KuneiformParser).Fn_arg_expr(p) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures [C25] bad || gs == next(old(gs), 2000)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr

func kfgrammar.(*KuneiformParser).fn_arg_expr(p, prec) (r)
requires p != nil && p.BaseParser != nil
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures r != nil
ensures [C25] bad || gs == next(old(gs), 2000 + prec)
ensures [C25] old(bad) ==> bad
ensures [C25] old(perr) ==> bad
ensures [C25] !perr
join
loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), 2000 + prec)
invariant bad || top(gs) == 51000
invariant bad || top(gs) == 51001
invariant bad || top(gs) == 51002
invariant bad || top(gs) == 51003
invariant bad || top(gs) == 51004
invariant bad || top(gs) == 51005
invariant bad || top(gs) == 51006
invariant bad || top(gs) == 51007
invariant bad || top(gs) == 51008
invariant bad || top(gs) == 51009
invariant bad || top(gs) == 51010
invariant bad || top(gs) == 51011
invariant bad || top(gs) == 51012
invariant bad || top(gs) == 51013
invariant bad || top(gs) == 51014
invariant bad || top(gs) == 51015
invariant bad || top(gs) == 51016
invariant bad || top(gs) == 51017
invariant bad || top(gs) == 51018
invariant bad || top(gs) == 51019
invariant bad || top(gs) == 51020
invariant bad || top(gs) == 51021
invariant bad || top(gs) == 51022
invariant bad || top(gs) == 51023
invariant bad || top(gs) == 51099

