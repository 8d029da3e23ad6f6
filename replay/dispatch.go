package main

// generated from the visitor interface

import (
	"fmt"

	"github.com/antlr4-go/antlr/v4"

	"github.com/kwilteam/kuneiform/kfgrammar"
)

type dispatch struct {
	antlr.BaseParseTreeVisitor
	got []string
}

func (d *dispatch) rec(m string, n any) any {
	d.got = append(d.got, fmt.Sprintf("%s %p", m, n))
	return "result of " + m
}

func (d *dispatch) VisitSource_unit(c *kfgrammar.Source_unitContext) any {
	return d.rec("VisitSource_unit", c)
}
func (d *dispatch) VisitDatabase_directive(c *kfgrammar.Database_directiveContext) any {
	return d.rec("VisitDatabase_directive", c)
}
func (d *dispatch) VisitExtension_directive(c *kfgrammar.Extension_directiveContext) any {
	return d.rec("VisitExtension_directive", c)
}
func (d *dispatch) VisitExt_config_list(c *kfgrammar.Ext_config_listContext) any {
	return d.rec("VisitExt_config_list", c)
}
func (d *dispatch) VisitExt_config(c *kfgrammar.Ext_configContext) any {
	return d.rec("VisitExt_config", c)
}
func (d *dispatch) VisitAnnotation_decl(c *kfgrammar.Annotation_declContext) any {
	return d.rec("VisitAnnotation_decl", c)
}
func (d *dispatch) VisitAnnotation_attr_list(c *kfgrammar.Annotation_attr_listContext) any {
	return d.rec("VisitAnnotation_attr_list", c)
}
func (d *dispatch) VisitAnnotation_attr(c *kfgrammar.Annotation_attrContext) any {
	return d.rec("VisitAnnotation_attr", c)
}
func (d *dispatch) VisitTable_decl(c *kfgrammar.Table_declContext) any {
	return d.rec("VisitTable_decl", c)
}
func (d *dispatch) VisitColumn_def(c *kfgrammar.Column_defContext) any {
	return d.rec("VisitColumn_def", c)
}
func (d *dispatch) VisitColumn_def_list(c *kfgrammar.Column_def_listContext) any {
	return d.rec("VisitColumn_def_list", c)
}
func (d *dispatch) VisitColumn_type(c *kfgrammar.Column_typeContext) any {
	return d.rec("VisitColumn_type", c)
}
func (d *dispatch) VisitColumn_constraint(c *kfgrammar.Column_constraintContext) any {
	return d.rec("VisitColumn_constraint", c)
}
func (d *dispatch) VisitLiteral_value(c *kfgrammar.Literal_valueContext) any {
	return d.rec("VisitLiteral_value", c)
}
func (d *dispatch) VisitNumber_value(c *kfgrammar.Number_valueContext) any {
	return d.rec("VisitNumber_value", c)
}
func (d *dispatch) VisitIndex_def(c *kfgrammar.Index_defContext) any {
	return d.rec("VisitIndex_def", c)
}
func (d *dispatch) VisitForeign_key_action(c *kfgrammar.Foreign_key_actionContext) any {
	return d.rec("VisitForeign_key_action", c)
}
func (d *dispatch) VisitForeign_key_def(c *kfgrammar.Foreign_key_defContext) any {
	return d.rec("VisitForeign_key_def", c)
}
func (d *dispatch) VisitAction_visibility(c *kfgrammar.Action_visibilityContext) any {
	return d.rec("VisitAction_visibility", c)
}
func (d *dispatch) VisitAction_mutability(c *kfgrammar.Action_mutabilityContext) any {
	return d.rec("VisitAction_mutability", c)
}
func (d *dispatch) VisitAction_auxiliary(c *kfgrammar.Action_auxiliaryContext) any {
	return d.rec("VisitAction_auxiliary", c)
}
func (d *dispatch) VisitAction_attr_list(c *kfgrammar.Action_attr_listContext) any {
	return d.rec("VisitAction_attr_list", c)
}
func (d *dispatch) VisitAction_decl(c *kfgrammar.Action_declContext) any {
	return d.rec("VisitAction_decl", c)
}
func (d *dispatch) VisitParam_list(c *kfgrammar.Param_listContext) any {
	return d.rec("VisitParam_list", c)
}
func (d *dispatch) VisitParameter(c *kfgrammar.ParameterContext) any {
	return d.rec("VisitParameter", c)
}
func (d *dispatch) VisitDatabase_name(c *kfgrammar.Database_nameContext) any {
	return d.rec("VisitDatabase_name", c)
}
func (d *dispatch) VisitExtension_name(c *kfgrammar.Extension_nameContext) any {
	return d.rec("VisitExtension_name", c)
}
func (d *dispatch) VisitExt_config_name(c *kfgrammar.Ext_config_nameContext) any {
	return d.rec("VisitExt_config_name", c)
}
func (d *dispatch) VisitTable_name(c *kfgrammar.Table_nameContext) any {
	return d.rec("VisitTable_name", c)
}
func (d *dispatch) VisitAction_name(c *kfgrammar.Action_nameContext) any {
	return d.rec("VisitAction_name", c)
}
func (d *dispatch) VisitColumn_name(c *kfgrammar.Column_nameContext) any {
	return d.rec("VisitColumn_name", c)
}
func (d *dispatch) VisitColumn_name_list(c *kfgrammar.Column_name_listContext) any {
	return d.rec("VisitColumn_name_list", c)
}
func (d *dispatch) VisitIndex_name(c *kfgrammar.Index_nameContext) any {
	return d.rec("VisitIndex_name", c)
}
func (d *dispatch) VisitAnnotation_target_name(c *kfgrammar.Annotation_target_nameContext) any {
	return d.rec("VisitAnnotation_target_name", c)
}
func (d *dispatch) VisitAnnotation_attr_name(c *kfgrammar.Annotation_attr_nameContext) any {
	return d.rec("VisitAnnotation_attr_name", c)
}
func (d *dispatch) VisitAnnotation_attr_value(c *kfgrammar.Annotation_attr_valueContext) any {
	return d.rec("VisitAnnotation_attr_value", c)
}
func (d *dispatch) VisitExt_config_value(c *kfgrammar.Ext_config_valueContext) any {
	return d.rec("VisitExt_config_value", c)
}
func (d *dispatch) VisitInit_decl(c *kfgrammar.Init_declContext) any {
	return d.rec("VisitInit_decl", c)
}
func (d *dispatch) VisitAction_stmt_list(c *kfgrammar.Action_stmt_listContext) any {
	return d.rec("VisitAction_stmt_list", c)
}
func (d *dispatch) VisitAction_stmt(c *kfgrammar.Action_stmtContext) any {
	return d.rec("VisitAction_stmt", c)
}
func (d *dispatch) VisitSql_stmt(c *kfgrammar.Sql_stmtContext) any { return d.rec("VisitSql_stmt", c) }
func (d *dispatch) VisitCall_stmt(c *kfgrammar.Call_stmtContext) any {
	return d.rec("VisitCall_stmt", c)
}
func (d *dispatch) VisitCall_receivers(c *kfgrammar.Call_receiversContext) any {
	return d.rec("VisitCall_receivers", c)
}
func (d *dispatch) VisitCall_body(c *kfgrammar.Call_bodyContext) any {
	return d.rec("VisitCall_body", c)
}
func (d *dispatch) VisitVariable(c *kfgrammar.VariableContext) any { return d.rec("VisitVariable", c) }
func (d *dispatch) VisitBlock_var(c *kfgrammar.Block_varContext) any {
	return d.rec("VisitBlock_var", c)
}
func (d *dispatch) VisitExtension_call_name(c *kfgrammar.Extension_call_nameContext) any {
	return d.rec("VisitExtension_call_name", c)
}
func (d *dispatch) VisitFn_name(c *kfgrammar.Fn_nameContext) any   { return d.rec("VisitFn_name", c) }
func (d *dispatch) VisitSfn_name(c *kfgrammar.Sfn_nameContext) any { return d.rec("VisitSfn_name", c) }
func (d *dispatch) VisitFn_arg_list(c *kfgrammar.Fn_arg_listContext) any {
	return d.rec("VisitFn_arg_list", c)
}
func (d *dispatch) VisitFn_arg_expr(c *kfgrammar.Fn_arg_exprContext) any {
	return d.rec("VisitFn_arg_expr", c)
}
