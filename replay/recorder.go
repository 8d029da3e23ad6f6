package main

import (
	"github.com/antlr4-go/antlr/v4"

	"github.com/kwilteam/kuneiform/kfgrammar"
)

// visitRecorder notes which method a node calls.
type visitRecorder struct {
	antlr.BaseParseTreeVisitor
	calls []string
	node  any
}

func (r *visitRecorder) note(k string, n any) any {
	r.calls = append(r.calls, k)
	r.node = n
	return r
}

func (r *visitRecorder) VisitSource_unit(ctx *kfgrammar.Source_unitContext) interface{} {
	return r.note("source_unit", ctx)
}
func (r *visitRecorder) VisitDatabase_directive(ctx *kfgrammar.Database_directiveContext) interface{} {
	return r.note("database_directive", ctx)
}
func (r *visitRecorder) VisitExtension_directive(ctx *kfgrammar.Extension_directiveContext) interface{} {
	return r.note("extension_directive", ctx)
}
func (r *visitRecorder) VisitExt_config_list(ctx *kfgrammar.Ext_config_listContext) interface{} {
	return r.note("ext_config_list", ctx)
}
func (r *visitRecorder) VisitExt_config(ctx *kfgrammar.Ext_configContext) interface{} {
	return r.note("ext_config", ctx)
}
func (r *visitRecorder) VisitAnnotation_decl(ctx *kfgrammar.Annotation_declContext) interface{} {
	return r.note("annotation_decl", ctx)
}
func (r *visitRecorder) VisitAnnotation_attr_list(ctx *kfgrammar.Annotation_attr_listContext) interface{} {
	return r.note("annotation_attr_list", ctx)
}
func (r *visitRecorder) VisitAnnotation_attr(ctx *kfgrammar.Annotation_attrContext) interface{} {
	return r.note("annotation_attr", ctx)
}
func (r *visitRecorder) VisitTable_decl(ctx *kfgrammar.Table_declContext) interface{} {
	return r.note("table_decl", ctx)
}
func (r *visitRecorder) VisitColumn_def(ctx *kfgrammar.Column_defContext) interface{} {
	return r.note("column_def", ctx)
}
func (r *visitRecorder) VisitColumn_def_list(ctx *kfgrammar.Column_def_listContext) interface{} {
	return r.note("column_def_list", ctx)
}
func (r *visitRecorder) VisitColumn_type(ctx *kfgrammar.Column_typeContext) interface{} {
	return r.note("column_type", ctx)
}
func (r *visitRecorder) VisitColumn_constraint(ctx *kfgrammar.Column_constraintContext) interface{} {
	return r.note("column_constraint", ctx)
}
func (r *visitRecorder) VisitLiteral_value(ctx *kfgrammar.Literal_valueContext) interface{} {
	return r.note("literal_value", ctx)
}
func (r *visitRecorder) VisitNumber_value(ctx *kfgrammar.Number_valueContext) interface{} {
	return r.note("number_value", ctx)
}
func (r *visitRecorder) VisitIndex_def(ctx *kfgrammar.Index_defContext) interface{} {
	return r.note("index_def", ctx)
}
func (r *visitRecorder) VisitForeign_key_action(ctx *kfgrammar.Foreign_key_actionContext) interface{} {
	return r.note("foreign_key_action", ctx)
}
func (r *visitRecorder) VisitForeign_key_def(ctx *kfgrammar.Foreign_key_defContext) interface{} {
	return r.note("foreign_key_def", ctx)
}
func (r *visitRecorder) VisitAction_visibility(ctx *kfgrammar.Action_visibilityContext) interface{} {
	return r.note("action_visibility", ctx)
}
func (r *visitRecorder) VisitAction_mutability(ctx *kfgrammar.Action_mutabilityContext) interface{} {
	return r.note("action_mutability", ctx)
}
func (r *visitRecorder) VisitAction_auxiliary(ctx *kfgrammar.Action_auxiliaryContext) interface{} {
	return r.note("action_auxiliary", ctx)
}
func (r *visitRecorder) VisitAction_attr_list(ctx *kfgrammar.Action_attr_listContext) interface{} {
	return r.note("action_attr_list", ctx)
}
func (r *visitRecorder) VisitAction_decl(ctx *kfgrammar.Action_declContext) interface{} {
	return r.note("action_decl", ctx)
}
func (r *visitRecorder) VisitParam_list(ctx *kfgrammar.Param_listContext) interface{} {
	return r.note("param_list", ctx)
}
func (r *visitRecorder) VisitParameter(ctx *kfgrammar.ParameterContext) interface{} {
	return r.note("parameter", ctx)
}
func (r *visitRecorder) VisitDatabase_name(ctx *kfgrammar.Database_nameContext) interface{} {
	return r.note("database_name", ctx)
}
func (r *visitRecorder) VisitExtension_name(ctx *kfgrammar.Extension_nameContext) interface{} {
	return r.note("extension_name", ctx)
}
func (r *visitRecorder) VisitExt_config_name(ctx *kfgrammar.Ext_config_nameContext) interface{} {
	return r.note("ext_config_name", ctx)
}
func (r *visitRecorder) VisitTable_name(ctx *kfgrammar.Table_nameContext) interface{} {
	return r.note("table_name", ctx)
}
func (r *visitRecorder) VisitAction_name(ctx *kfgrammar.Action_nameContext) interface{} {
	return r.note("action_name", ctx)
}
func (r *visitRecorder) VisitColumn_name(ctx *kfgrammar.Column_nameContext) interface{} {
	return r.note("column_name", ctx)
}
func (r *visitRecorder) VisitColumn_name_list(ctx *kfgrammar.Column_name_listContext) interface{} {
	return r.note("column_name_list", ctx)
}
func (r *visitRecorder) VisitIndex_name(ctx *kfgrammar.Index_nameContext) interface{} {
	return r.note("index_name", ctx)
}
func (r *visitRecorder) VisitAnnotation_target_name(ctx *kfgrammar.Annotation_target_nameContext) interface{} {
	return r.note("annotation_target_name", ctx)
}
func (r *visitRecorder) VisitAnnotation_attr_name(ctx *kfgrammar.Annotation_attr_nameContext) interface{} {
	return r.note("annotation_attr_name", ctx)
}
func (r *visitRecorder) VisitAnnotation_attr_value(ctx *kfgrammar.Annotation_attr_valueContext) interface{} {
	return r.note("annotation_attr_value", ctx)
}
func (r *visitRecorder) VisitExt_config_value(ctx *kfgrammar.Ext_config_valueContext) interface{} {
	return r.note("ext_config_value", ctx)
}
func (r *visitRecorder) VisitInit_decl(ctx *kfgrammar.Init_declContext) interface{} {
	return r.note("init_decl", ctx)
}
func (r *visitRecorder) VisitAction_stmt_list(ctx *kfgrammar.Action_stmt_listContext) interface{} {
	return r.note("action_stmt_list", ctx)
}
func (r *visitRecorder) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) interface{} {
	return r.note("action_stmt", ctx)
}
func (r *visitRecorder) VisitSql_stmt(ctx *kfgrammar.Sql_stmtContext) interface{} {
	return r.note("sql_stmt", ctx)
}
func (r *visitRecorder) VisitCall_stmt(ctx *kfgrammar.Call_stmtContext) interface{} {
	return r.note("call_stmt", ctx)
}
func (r *visitRecorder) VisitCall_receivers(ctx *kfgrammar.Call_receiversContext) interface{} {
	return r.note("call_receivers", ctx)
}
func (r *visitRecorder) VisitCall_body(ctx *kfgrammar.Call_bodyContext) interface{} {
	return r.note("call_body", ctx)
}
func (r *visitRecorder) VisitVariable(ctx *kfgrammar.VariableContext) interface{} {
	return r.note("variable", ctx)
}
func (r *visitRecorder) VisitBlock_var(ctx *kfgrammar.Block_varContext) interface{} {
	return r.note("block_var", ctx)
}
func (r *visitRecorder) VisitExtension_call_name(ctx *kfgrammar.Extension_call_nameContext) interface{} {
	return r.note("extension_call_name", ctx)
}
func (r *visitRecorder) VisitFn_name(ctx *kfgrammar.Fn_nameContext) interface{} {
	return r.note("fn_name", ctx)
}
func (r *visitRecorder) VisitSfn_name(ctx *kfgrammar.Sfn_nameContext) interface{} {
	return r.note("sfn_name", ctx)
}
func (r *visitRecorder) VisitFn_arg_list(ctx *kfgrammar.Fn_arg_listContext) interface{} {
	return r.note("fn_arg_list", ctx)
}
func (r *visitRecorder) VisitFn_arg_expr(ctx *kfgrammar.Fn_arg_exprContext) interface{} {
	return r.note("fn_arg_expr", ctx)
}
