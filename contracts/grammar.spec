// The shape of syntax trees built without a syntax error (established by C25,
// used by C09-C14).  conf_X(n): n is a complete tree of grammar rule X.

fun conf_Source_unit(n: node): bool
fun conf_Database_directive(n: node): bool
fun conf_Extension_directive(n: node): bool
fun conf_Ext_config_list(n: node): bool
fun conf_Ext_config(n: node): bool
fun conf_Table_decl(n: node): bool
fun conf_Column_def_list(n: node): bool
fun conf_Column_def(n: node): bool
fun conf_Column_type(n: node): bool
fun conf_Column_constraint(n: node): bool
fun conf_Index_def(n: node): bool
fun conf_Column_name_list(n: node): bool
fun conf_Foreign_key_def(n: node): bool
fun conf_Foreign_key_action(n: node): bool
fun conf_Action_visibility(n: node): bool
fun conf_Action_mutability(n: node): bool
fun conf_Action_auxiliary(n: node): bool
fun conf_Action_attr_list(n: node): bool
fun conf_Action_decl(n: node): bool
fun conf_Param_list(n: node): bool
fun conf_Init_decl(n: node): bool
fun conf_Action_stmt_list(n: node): bool
fun conf_Annotation_decl(n: node): bool
fun conf_Action_name(n: node): bool
fun conf_Action_stmt(n: node): bool
fun conf_Annotation_attr_list(n: node): bool
fun conf_Annotation_target_name(n: node): bool
fun conf_Column_name(n: node): bool
fun conf_Database_name(n: node): bool
fun conf_Ext_config_name(n: node): bool
fun conf_Ext_config_value(n: node): bool
fun conf_Extension_name(n: node): bool
fun conf_Index_name(n: node): bool
fun conf_Parameter(n: node): bool
fun conf_Table_name(n: node): bool

axiom node_Source_unit = forall n: node {conf_Source_unit(n)} :: conf_Source_unit(n) ==> ref(n) > 0
axiom node_Database_directive = forall n: node {conf_Database_directive(n)} :: conf_Database_directive(n) ==> ref(n) > 0
axiom node_Extension_directive = forall n: node {conf_Extension_directive(n)} :: conf_Extension_directive(n) ==> ref(n) > 0
axiom node_Ext_config_list = forall n: node {conf_Ext_config_list(n)} :: conf_Ext_config_list(n) ==> ref(n) > 0
axiom node_Ext_config = forall n: node {conf_Ext_config(n)} :: conf_Ext_config(n) ==> ref(n) > 0
axiom node_Table_decl = forall n: node {conf_Table_decl(n)} :: conf_Table_decl(n) ==> ref(n) > 0
axiom node_Column_def_list = forall n: node {conf_Column_def_list(n)} :: conf_Column_def_list(n) ==> ref(n) > 0
axiom node_Column_def = forall n: node {conf_Column_def(n)} :: conf_Column_def(n) ==> ref(n) > 0
axiom node_Column_type = forall n: node {conf_Column_type(n)} :: conf_Column_type(n) ==> ref(n) > 0
axiom node_Column_constraint = forall n: node {conf_Column_constraint(n)} :: conf_Column_constraint(n) ==> ref(n) > 0
axiom node_Index_def = forall n: node {conf_Index_def(n)} :: conf_Index_def(n) ==> ref(n) > 0
axiom node_Column_name_list = forall n: node {conf_Column_name_list(n)} :: conf_Column_name_list(n) ==> ref(n) > 0
axiom node_Foreign_key_def = forall n: node {conf_Foreign_key_def(n)} :: conf_Foreign_key_def(n) ==> ref(n) > 0
axiom node_Foreign_key_action = forall n: node {conf_Foreign_key_action(n)} :: conf_Foreign_key_action(n) ==> ref(n) > 0
axiom node_Action_visibility = forall n: node {conf_Action_visibility(n)} :: conf_Action_visibility(n) ==> ref(n) > 0
axiom node_Action_mutability = forall n: node {conf_Action_mutability(n)} :: conf_Action_mutability(n) ==> ref(n) > 0
axiom node_Action_auxiliary = forall n: node {conf_Action_auxiliary(n)} :: conf_Action_auxiliary(n) ==> ref(n) > 0
axiom node_Action_attr_list = forall n: node {conf_Action_attr_list(n)} :: conf_Action_attr_list(n) ==> ref(n) > 0
axiom node_Action_decl = forall n: node {conf_Action_decl(n)} :: conf_Action_decl(n) ==> ref(n) > 0
axiom node_Param_list = forall n: node {conf_Param_list(n)} :: conf_Param_list(n) ==> ref(n) > 0
axiom node_Init_decl = forall n: node {conf_Init_decl(n)} :: conf_Init_decl(n) ==> ref(n) > 0
axiom node_Action_stmt_list = forall n: node {conf_Action_stmt_list(n)} :: conf_Action_stmt_list(n) ==> ref(n) > 0
axiom node_Annotation_decl = forall n: node {conf_Annotation_decl(n)} :: conf_Annotation_decl(n) ==> ref(n) > 0
axiom node_Action_name = forall n: node {conf_Action_name(n)} :: conf_Action_name(n) ==> ref(n) > 0
axiom node_Action_stmt = forall n: node {conf_Action_stmt(n)} :: conf_Action_stmt(n) ==> ref(n) > 0
axiom node_Annotation_attr_list = forall n: node {conf_Annotation_attr_list(n)} :: conf_Annotation_attr_list(n) ==> ref(n) > 0
axiom node_Annotation_target_name = forall n: node {conf_Annotation_target_name(n)} :: conf_Annotation_target_name(n) ==> ref(n) > 0
axiom node_Column_name = forall n: node {conf_Column_name(n)} :: conf_Column_name(n) ==> ref(n) > 0
axiom node_Database_name = forall n: node {conf_Database_name(n)} :: conf_Database_name(n) ==> ref(n) > 0
axiom node_Ext_config_name = forall n: node {conf_Ext_config_name(n)} :: conf_Ext_config_name(n) ==> ref(n) > 0
axiom node_Ext_config_value = forall n: node {conf_Ext_config_value(n)} :: conf_Ext_config_value(n) ==> ref(n) > 0
axiom node_Extension_name = forall n: node {conf_Extension_name(n)} :: conf_Extension_name(n) ==> ref(n) > 0
axiom node_Index_name = forall n: node {conf_Index_name(n)} :: conf_Index_name(n) ==> ref(n) > 0
axiom node_Parameter = forall n: node {conf_Parameter(n)} :: conf_Parameter(n) ==> ref(n) > 0
axiom node_Table_name = forall n: node {conf_Table_name(n)} :: conf_Table_name(n) ==> ref(n) > 0

axiom shape_Source_unit = forall n: node {conf_Source_unit(n)} :: conf_Source_unit(n) ==> cnt(n, Database_directive) == 1
   && conf_Database_directive(kid(n, Database_directive))
   && (forall i: int {kid(n, Extension_directive, i)} :: 0 <= i && i < cnt(n, Extension_directive) ==> conf_Extension_directive(kid(n, Extension_directive, i)))
   && (forall i: int {kid(n, Table_decl, i)} :: 0 <= i && i < cnt(n, Table_decl) ==> conf_Table_decl(kid(n, Table_decl, i)))
   && (forall i: int {kid(n, Action_decl, i)} :: 0 <= i && i < cnt(n, Action_decl) ==> conf_Action_decl(kid(n, Action_decl, i)))
   && (forall i: int {kid(n, Init_decl, i)} :: 0 <= i && i < cnt(n, Init_decl) ==> conf_Init_decl(kid(n, Init_decl, i)))
axiom shape_Database_directive = forall n: node {conf_Database_directive(n)} :: conf_Database_directive(n) ==> cnt(n, Database_name) == 1
   && conf_Database_name(kid(n, Database_name))
axiom shape_Extension_directive = forall n: node {conf_Extension_directive(n)} :: conf_Extension_directive(n) ==> cnt(n, Extension_name) == 2
   && conf_Extension_name(kid(n, Extension_name, 0))
   && conf_Extension_name(kid(n, Extension_name, 1))
   && cnt(n, Ext_config_list) <= 1
   && (forall i: int {kid(n, Ext_config_list, i)} :: 0 <= i && i < cnt(n, Ext_config_list) ==> conf_Ext_config_list(kid(n, Ext_config_list, i)))
axiom shape_Ext_config_list = forall n: node {conf_Ext_config_list(n)} :: conf_Ext_config_list(n) ==> cnt(n, Ext_config) >= 1
   && (forall i: int {kid(n, Ext_config, i)} :: 0 <= i && i < cnt(n, Ext_config) ==> conf_Ext_config(kid(n, Ext_config, i)))
axiom shape_Ext_config = forall n: node {conf_Ext_config(n)} :: conf_Ext_config(n) ==> cnt(n, Ext_config_name) == 1
   && conf_Ext_config_name(kid(n, Ext_config_name))
   && cnt(n, Ext_config_value) == 1
   && conf_Ext_config_value(kid(n, Ext_config_value))
axiom shape_Table_decl = forall n: node {conf_Table_decl(n)} :: conf_Table_decl(n) ==> cnt(n, Table_name) == 1
   && conf_Table_name(kid(n, Table_name))
   && cnt(n, Column_def_list) == 1
   && conf_Column_def_list(kid(n, Column_def_list))
   && (forall i: int {kid(n, Index_def, i)} :: 0 <= i && i < cnt(n, Index_def) ==> conf_Index_def(kid(n, Index_def, i)))
   && (forall i: int {kid(n, Foreign_key_def, i)} :: 0 <= i && i < cnt(n, Foreign_key_def) ==> conf_Foreign_key_def(kid(n, Foreign_key_def, i)))
axiom shape_Column_def_list = forall n: node {conf_Column_def_list(n)} :: conf_Column_def_list(n) ==> cnt(n, Column_def) >= 1
   && (forall i: int {kid(n, Column_def, i)} :: 0 <= i && i < cnt(n, Column_def) ==> conf_Column_def(kid(n, Column_def, i)))
axiom shape_Column_def = forall n: node {conf_Column_def(n)} :: conf_Column_def(n) ==> cnt(n, Column_name) == 1
   && conf_Column_name(kid(n, Column_name))
   && cnt(n, Column_type) == 1
   && conf_Column_type(kid(n, Column_type))
   && (forall i: int {kid(n, Column_constraint, i)} :: 0 <= i && i < cnt(n, Column_constraint) ==> conf_Column_constraint(kid(n, Column_constraint, i)))
axiom shape_Column_type = forall n: node {conf_Column_type(n)} :: conf_Column_type(n) ==> cnt(n, INT_) + cnt(n, TEXT_) + cnt(n, BLOB_) == 1 && cnt(n, INT_) >= 0 && cnt(n, TEXT_) >= 0 && cnt(n, BLOB_) >= 0
axiom shape_Column_constraint = forall n: node {conf_Column_constraint(n)} :: conf_Column_constraint(n) ==> cnt(n, PRIMARY_) + cnt(n, NOT_NULL_) + cnt(n, UNIQUE_) + cnt(n, DEFAULT_) + cnt(n, MIN_) + cnt(n, MAX_) + cnt(n, MIN_LEN_) + cnt(n, MAX_LEN_) == 1 && cnt(n, PRIMARY_) >= 0 && cnt(n, NOT_NULL_) >= 0 && cnt(n, UNIQUE_) >= 0 && cnt(n, DEFAULT_) >= 0 && cnt(n, MIN_) >= 0 && cnt(n, MAX_) >= 0 && cnt(n, MIN_LEN_) >= 0 && cnt(n, MAX_LEN_) >= 0
axiom shape_Index_def = forall n: node {conf_Index_def(n)} :: conf_Index_def(n) ==> cnt(n, Index_name) == 1
   && conf_Index_name(kid(n, Index_name))
   && cnt(n, UNIQUE_) + cnt(n, INDEX_) + cnt(n, PRIMARY_) == 1 && cnt(n, UNIQUE_) >= 0 && cnt(n, INDEX_) >= 0 && cnt(n, PRIMARY_) >= 0
   && cnt(n, Column_name_list) == 1
   && conf_Column_name_list(kid(n, Column_name_list))
axiom shape_Column_name_list = forall n: node {conf_Column_name_list(n)} :: conf_Column_name_list(n) ==> cnt(n, Column_name) >= 1
   && (forall i: int {kid(n, Column_name, i)} :: 0 <= i && i < cnt(n, Column_name) ==> conf_Column_name(kid(n, Column_name, i)))
axiom shape_Foreign_key_def = forall n: node {conf_Foreign_key_def(n)} :: conf_Foreign_key_def(n) ==> cnt(n, Column_name_list) == 2
   && conf_Column_name_list(kid(n, Column_name_list, 0))
   && conf_Column_name_list(kid(n, Column_name_list, 1))
   && cnt(n, Table_name) == 1
   && conf_Table_name(kid(n, Table_name))
   && (forall i: int {kid(n, Foreign_key_action, i)} :: 0 <= i && i < cnt(n, Foreign_key_action) ==> conf_Foreign_key_action(kid(n, Foreign_key_action, i)))
axiom shape_Foreign_key_action = forall n: node {conf_Foreign_key_action(n)} :: conf_Foreign_key_action(n) ==> cnt(n, ACTION_ON_UPDATE_) + cnt(n, ACTION_ON_DELETE_) == 1 && cnt(n, ACTION_ON_UPDATE_) >= 0 && cnt(n, ACTION_ON_DELETE_) >= 0
   && cnt(n, ACTION_DO_NO_ACTION_) + cnt(n, ACTION_DO_RESTRICT_) + cnt(n, ACTION_DO_SET_NULL_) + cnt(n, ACTION_DO_SET_DEFAULT_) + cnt(n, ACTION_DO_CASCADE_) == 1 && cnt(n, ACTION_DO_NO_ACTION_) >= 0 && cnt(n, ACTION_DO_RESTRICT_) >= 0 && cnt(n, ACTION_DO_SET_NULL_) >= 0 && cnt(n, ACTION_DO_SET_DEFAULT_) >= 0 && cnt(n, ACTION_DO_CASCADE_) >= 0
axiom shape_Action_visibility = forall n: node {conf_Action_visibility(n)} :: conf_Action_visibility(n) ==> cnt(n, PUBLIC_) + cnt(n, PRIVATE_) == 1 && cnt(n, PUBLIC_) >= 0 && cnt(n, PRIVATE_) >= 0
axiom shape_Action_mutability = forall n: node {conf_Action_mutability(n)} :: conf_Action_mutability(n) ==> cnt(n, VIEW_) == 1
axiom shape_Action_auxiliary = forall n: node {conf_Action_auxiliary(n)} :: conf_Action_auxiliary(n) ==> cnt(n, OWNER_) == 1
axiom shape_Action_attr_list = forall n: node {conf_Action_attr_list(n)} :: conf_Action_attr_list(n) ==> (forall i: int {kid(n, Action_visibility, i)} :: 0 <= i && i < cnt(n, Action_visibility) ==> conf_Action_visibility(kid(n, Action_visibility, i)))
   && (forall i: int {kid(n, Action_mutability, i)} :: 0 <= i && i < cnt(n, Action_mutability) ==> conf_Action_mutability(kid(n, Action_mutability, i)))
   && (forall i: int {kid(n, Action_auxiliary, i)} :: 0 <= i && i < cnt(n, Action_auxiliary) ==> conf_Action_auxiliary(kid(n, Action_auxiliary, i)))
axiom shape_Action_decl = forall n: node {conf_Action_decl(n)} :: conf_Action_decl(n) ==> (forall i: int {kid(n, Annotation_decl, i)} :: 0 <= i && i < cnt(n, Annotation_decl) ==> conf_Annotation_decl(kid(n, Annotation_decl, i)))
   && cnt(n, Action_name) == 1
   && conf_Action_name(kid(n, Action_name))
   && cnt(n, Param_list) == 1
   && conf_Param_list(kid(n, Param_list))
   && cnt(n, Action_attr_list) == 1
   && conf_Action_attr_list(kid(n, Action_attr_list))
   && cnt(n, Action_stmt_list) == 1
   && conf_Action_stmt_list(kid(n, Action_stmt_list))
axiom shape_Param_list = forall n: node {conf_Param_list(n)} :: conf_Param_list(n) ==> (forall i: int {kid(n, Parameter, i)} :: 0 <= i && i < cnt(n, Parameter) ==> conf_Parameter(kid(n, Parameter, i)))
axiom shape_Init_decl = forall n: node {conf_Init_decl(n)} :: conf_Init_decl(n) ==> cnt(n, Action_stmt_list) == 1
   && conf_Action_stmt_list(kid(n, Action_stmt_list))
axiom shape_Action_stmt_list = forall n: node {conf_Action_stmt_list(n)} :: conf_Action_stmt_list(n) ==> cnt(n, Action_stmt) >= 1
   && (forall i: int {kid(n, Action_stmt, i)} :: 0 <= i && i < cnt(n, Action_stmt) ==> conf_Action_stmt(kid(n, Action_stmt, i)))
axiom shape_Annotation_decl = forall n: node {conf_Annotation_decl(n)} :: conf_Annotation_decl(n) ==> cnt(n, Annotation_target_name) == 1
   && conf_Annotation_target_name(kid(n, Annotation_target_name))
   && cnt(n, Annotation_attr_list) == 1
   && conf_Annotation_attr_list(kid(n, Annotation_attr_list))

// keyword tokens are spelled as the lexer defines them
axiom text_visibility = forall n: node {conf_Action_visibility(n)} :: conf_Action_visibility(n) ==> text(n) == ite(tok(n, PUBLIC_), "public", "private")
axiom text_mutability = forall n: node {conf_Action_mutability(n)} :: conf_Action_mutability(n) ==> text(n) == "view"
axiom text_auxiliary = forall n: node {conf_Action_auxiliary(n)} :: conf_Action_auxiliary(n) ==> text(n) == "owner"
axiom text_index = forall n: node {conf_Index_name(n)} :: conf_Index_name(n) ==> len(text(n)) >= 2 && text(n)[0] == 35
axiom text_annotation = forall n: node {conf_Annotation_decl(n)} :: conf_Annotation_decl(n) ==> len(text(n)) >= 2 && text(n)[0] == 64
axiom shape_constraint_literal = forall n: node {conf_Column_constraint(n)} :: conf_Column_constraint(n) && tok(n, DEFAULT_) ==> cnt(n, Literal_value) == 1
axiom shape_constraint_number = forall n: node {conf_Column_constraint(n)} :: conf_Column_constraint(n) && (tok(n, MIN_) || tok(n, MAX_) || tok(n, MIN_LEN_) || tok(n, MAX_LEN_)) ==> cnt(n, Number_value) == 1
