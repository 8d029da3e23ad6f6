package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/antlr4-go/antlr/v4"

	"github.com/kwilteam/kuneiform/kfgrammar"
)

// shapes: the published grammar as regular expressions over the children of a
// node. Rules are written r:name, tokens t:NAME, each followed by a blank.
var shapeSrc = map[string]string{
	"source_unit":            `r:database_directive t:SCOL (r:extension_directive )*(r:table_decl |r:action_decl |r:init_decl )*t:EOF `,
	"database_directive":     `t:DATABASE_ r:database_name `,
	"extension_directive":    `t:USE_ r:extension_name (t:L_BRACE r:ext_config_list t:R_BRACE )?t:AS_ r:extension_name t:SCOL `,
	"ext_config_list":        `r:ext_config (t:COMMA r:ext_config )*`,
	"ext_config":             `r:ext_config_name t:COL r:ext_config_value `,
	"annotation_decl":        `r:annotation_target_name t:L_PAREN r:annotation_attr_list t:R_PAREN `,
	"annotation_attr_list":   `r:annotation_attr (t:COMMA r:annotation_attr )*`,
	"annotation_attr":        `r:annotation_attr_name t:ASSIGN r:annotation_attr_value `,
	"table_decl":             `t:TABLE_ r:table_name t:L_BRACE r:column_def_list (t:COMMA (r:index_def |r:foreign_key_def ))*(t:COMMA )?t:R_BRACE `,
	"column_def":             `r:column_name r:column_type (r:column_constraint )*`,
	"column_def_list":        `r:column_def (t:COMMA r:column_def )*`,
	"column_type":            `(t:INT_ |t:TEXT_ |t:BLOB_ )`,
	"column_constraint":      `(t:PRIMARY_ |t:NOT_NULL_ |t:UNIQUE_ |t:DEFAULT_ t:L_PAREN r:literal_value t:R_PAREN |(t:MIN_ |t:MAX_ |t:MIN_LEN_ |t:MAX_LEN_ )t:L_PAREN r:number_value t:R_PAREN )`,
	"literal_value":          `(t:STRING_LITERAL |t:UNSIGNED_NUMBER_LITERAL )`,
	"number_value":           `t:UNSIGNED_NUMBER_LITERAL `,
	"index_def":              `r:index_name (t:UNIQUE_ |t:INDEX_ |t:PRIMARY_ )t:L_PAREN r:column_name_list t:R_PAREN `,
	"foreign_key_action":     `(t:ACTION_ON_UPDATE_ |t:ACTION_ON_DELETE_ )(t:ACTION_DO_ )?(t:ACTION_DO_NO_ACTION_ |t:ACTION_DO_CASCADE_ |t:ACTION_DO_SET_NULL_ |t:ACTION_DO_SET_DEFAULT_ |t:ACTION_DO_RESTRICT_ )`,
	"foreign_key_def":        `(t:FOREIGN_KEY_ |t:FOREIGN_KEY_ABBR_ )t:L_PAREN r:column_name_list t:R_PAREN (t:REFERENCES_ |t:REFERENCES_ABBR_ )r:table_name t:L_PAREN r:column_name_list t:R_PAREN (r:foreign_key_action )*`,
	"action_visibility":      `(t:PUBLIC_ |t:PRIVATE_ )`,
	"action_mutability":      `t:VIEW_ `,
	"action_auxiliary":       `t:OWNER_ `,
	"action_attr_list":       `(r:action_visibility |r:action_mutability |r:action_auxiliary )*`,
	"action_decl":            `(r:annotation_decl )*t:ACTION_ r:action_name t:L_PAREN r:param_list t:R_PAREN r:action_attr_list t:L_BRACE r:action_stmt_list t:R_BRACE `,
	"param_list":             `(r:parameter )?(t:COMMA r:parameter )*`,
	"parameter":              `t:PARAM_OR_VAR `,
	"database_name":          `t:IDENTIFIER `,
	"extension_name":         `t:IDENTIFIER `,
	"ext_config_name":        `t:IDENTIFIER `,
	"table_name":             `t:IDENTIFIER `,
	"action_name":            `t:IDENTIFIER `,
	"column_name":            `t:IDENTIFIER `,
	"column_name_list":       `r:column_name (t:COMMA r:column_name )*`,
	"index_name":             `t:INDEX_NAME `,
	"annotation_target_name": `t:BLOCK_VAR_OR_ANNOTATION `,
	"annotation_attr_name":   `t:IDENTIFIER `,
	"annotation_attr_value":  `r:literal_value `,
	"ext_config_value":       `r:literal_value `,
	"init_decl":              `t:INIT_ t:L_PAREN t:R_PAREN t:L_BRACE r:action_stmt_list t:R_BRACE `,
	"action_stmt_list":       `(r:action_stmt )+`,
	"action_stmt":            `(r:sql_stmt |r:call_stmt )`,
	"sql_stmt":               `t:SQL_STMT t:SCOL `,
	"call_stmt":              `(r:call_receivers t:ASSIGN )?r:call_body t:SCOL `,
	"call_receivers":         `r:variable (t:COMMA r:variable )*`,
	"call_body":              `r:fn_name t:L_PAREN r:fn_arg_list t:R_PAREN `,
	"variable":               `t:PARAM_OR_VAR `,
	"block_var":              `t:BLOCK_VAR_OR_ANNOTATION `,
	"extension_call_name":    `t:IDENTIFIER t:PERIOD t:IDENTIFIER `,
	"fn_name":                `(r:extension_call_name |r:action_name )`,
	"sfn_name":               `t:IDENTIFIER `,
	"fn_arg_list":            `(r:fn_arg_expr )?(t:COMMA r:fn_arg_expr )*`,
	"fn_arg_expr": `(r:literal_value |r:variable |r:block_var |t:L_PAREN r:fn_arg_expr t:R_PAREN |(t:MINUS |t:PLUS |t:TILDE |t:NOT_ )r:fn_arg_expr ` +
		`|r:sfn_name t:L_PAREN (r:fn_arg_expr (t:COMMA r:fn_arg_expr )*|t:STAR )?t:R_PAREN ` +
		`|r:fn_arg_expr (t:PIPE2 |t:STAR |t:DIV |t:MOD |t:PLUS |t:MINUS |t:LT2 |t:GT2 |t:AMP |t:PIPE |t:LT |t:LT_EQ |t:GT |t:GT_EQ |t:ASSIGN |t:EQ |t:SQL_NOT_EQ1 |t:SQL_NOT_EQ2 |t:AND_ |t:OR_ )r:fn_arg_expr )`,
}

var shapes = map[string]*regexp.Regexp{}

// token types by name, from the published token list
var tokenNames = strings.Fields(`- COL SCOL L_PAREN L_BRACE R_PAREN R_BRACE COMMA DOLLAR HASH AT PERIOD ASSIGN PLUS MINUS STAR DIV MOD TILDE PIPE2 LT2 GT2 AMP PIPE EQ LT LT_EQ GT GT_EQ SQL_NOT_EQ1 SQL_NOT_EQ2 DATABASE_ USE_ AS_ TABLE_ ACTION_ INIT_ PUBLIC_ PRIVATE_ VIEW_ OWNER_ INT_ TEXT_ BLOB_ MIN_ MAX_ MIN_LEN_ MAX_LEN_ NOT_NULL_ PRIMARY_ DEFAULT_ UNIQUE_ INDEX_ FOREIGN_KEY_ FOREIGN_KEY_ABBR_ REFERENCES_ REFERENCES_ABBR_ ACTION_ON_UPDATE_ ACTION_ON_DELETE_ ACTION_DO_ ACTION_DO_NO_ACTION_ ACTION_DO_CASCADE_ ACTION_DO_SET_NULL_ ACTION_DO_SET_DEFAULT_ ACTION_DO_RESTRICT_ SELECT_ INSERT_ UPDATE_ DELETE_ WITH_ NOT_ AND_ OR_ IDENTIFIER INDEX_NAME PARAM_OR_VAR BLOCK_VAR_OR_ANNOTATION UNSIGNED_NUMBER_LITERAL STRING_LITERAL SQL_KEYWORDS SQL_STMT WS TERMINATOR BLOCK_COMMENT LINE_COMMENT`)

func init() {
	for n, s := range shapeSrc {
		shapes[n] = regexp.MustCompile("^(?:" + s + ")$")
	}
}

func tokName(n int) string {
	if n == antlr.TokenEOF {
		return "EOF"
	}
	if n > 0 && n < len(tokenNames) {
		return tokenNames[n]
	}
	return fmt.Sprint(n)
}

// kindOf names a node: by its Go type for rules, by its token for leaves.
func kindOf(t antlr.Tree) string {
	if l, ok := t.(antlr.TerminalNode); ok {
		return "t:" + tokName(l.GetSymbol().GetTokenType())
	}
	n := reflect.TypeOf(t).String()
	n = n[strings.LastIndexByte(n, '.')+1:]
	n = strings.TrimSuffix(n, "Context")
	if n == "" {
		return "r:?"
	}
	return "r:" + strings.ToLower(n[:1]) + n[1:]
}

func checkShapes(t antlr.Tree, add func(string, string, string, ...any)) {
	if _, ok := t.(antlr.TerminalNode); ok {
		return
	}
	k := kindOf(t)
	var b strings.Builder
	for _, c := range t.GetChildren() {
		b.WriteString(kindOf(c) + " ")
		if _, leaf := c.(antlr.TerminalNode); !leaf && c.GetParent() != t { // a token's parent is the embedded part of t
			add("C25", "parent", "a child of a %s node has another parent", k)
		}
	}
	re := shapes[k[2:]]
	if re == nil {
		add("C25", "kind", "unknown kind of node %s", k)
	} else if !re.MatchString(b.String()) {
		add("C25", "shape", "a %s node has children %s", k[2:], b.String())
	}
	if k == "r:fn_arg_expr" {
		checkPrecedence(t, add)
	}
	checkAccessors(t, add)
	for _, c := range t.GetChildren() {
		checkShapes(c, add)
	}
}

var treeIface = reflect.TypeOf((*antlr.Tree)(nil)).Elem()
var termIface = reflect.TypeOf((*antlr.TerminalNode)(nil)).Elem()
var tokIface = reflect.TypeOf((*antlr.Token)(nil)).Elem()

// checkAccessors calls every typed accessor of the node by reflection and
// compares the result with the children of the kind its name says.
func checkAccessors(t antlr.Tree, add func(string, string, string, ...any)) {
	v := reflect.ValueOf(t)
	ty := v.Type()
	isTok := map[string]bool{}
	for _, n := range tokenNames {
		isTok[n] = true
	}
	isTok["EOF"] = true
	for i := 0; i < ty.NumMethod(); i++ {
		m := ty.Method(i)
		name := m.Name
		all := strings.HasPrefix(name, "All")
		base := strings.TrimPrefix(name, "All")
		lname := strings.ToLower(base[:min(1, len(base))]) + base[min(1, len(base)):]
		kind := ""
		if isTok[base] {
			kind = "t:" + base
		} else if shapes[lname] != nil {
			kind = "r:" + lname
		} else {
			continue
		}
		var want []antlr.Tree
		for _, c := range t.GetChildren() {
			if kindOf(c) == kind {
				want = append(want, c)
			}
		}
		isNil := func(r reflect.Value) bool {
			return (r.Kind() == reflect.Interface || r.Kind() == reflect.Ptr) && r.IsNil()
		}
		bad := func(what string) {
			add("C24", "accessor", "%s.%s returns %s", ty, name, what)
		}
		mv := v.Method(i)
		switch {
		case all && mv.Type().NumIn() == 0:
			r := mv.Call(nil)[0]
			if r.Kind() != reflect.Slice {
				continue
			}
			if r.Len() != len(want) {
				bad(fmt.Sprintf("%d children instead of %d", r.Len(), len(want)))
				continue
			}
			for j := range want {
				if r.Index(j).Interface() != any(want[j]) {
					bad(fmt.Sprintf("another child at position %d", j))
				}
			}
		case mv.Type().NumIn() == 0:
			r := mv.Call(nil)[0]
			if len(want) == 0 {
				if !isNil(r) {
					bad("a child although there is none")
				}
			} else if isNil(r) || r.Interface() != any(want[0]) {
				bad("not the first matching child")
			}
		case mv.Type().NumIn() == 1 && mv.Type().In(0).Kind() == reflect.Int:
			for j := 0; j <= len(want); j++ {
				r := mv.Call([]reflect.Value{reflect.ValueOf(j)})[0]
				if j == len(want) {
					if !isNil(r) {
						bad(fmt.Sprintf("a child at position %d although there are only %d", j, len(want)))
					}
				} else if isNil(r) || r.Interface() != any(want[j]) {
					bad(fmt.Sprintf("not the matching child number %d", j))
				}
			}
		}
	}
	// Accept calls the method of the node's own kind, once, with the node
	if a, ok := t.(antlr.ParseTree); ok {
		rec := &visitRecorder{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					add("C24", "accept", "%s.Accept panics: %v", ty, r)
				}
			}()
			out := a.Accept(rec)
			if len(rec.calls) != 1 || rec.calls[0] != kindOf(t)[2:] || rec.node != any(t) {
				add("C24", "accept", "%s.Accept calls %v", ty, rec.calls)
			} else if out != any(rec) {
				add("C24", "accept", "%s.Accept does not return the visitor's result", ty)
			}
		}()
	}
	var _ kfgrammar.KuneiformParserVisitor = &visitRecorder{}
}

// levels: the alternatives of an expression in the published grammar, tightest
// first; all associate to the left.
var levels = map[string]int{"PIPE2": 10, "STAR": 9, "DIV": 9, "MOD": 9, "PLUS": 8, "MINUS": 8, "LT2": 7, "GT2": 7, "AMP": 7, "PIPE": 7,
	"LT": 6, "LT_EQ": 6, "GT": 6, "GT_EQ": 6, "ASSIGN": 5, "EQ": 5, "SQL_NOT_EQ1": 5, "SQL_NOT_EQ2": 5, "AND_": 3, "OR_": 2}

func binaryLevel(t antlr.Tree) int {
	cs := t.GetChildren()
	if len(cs) != 3 || kindOf(cs[0]) != "r:fn_arg_expr" {
		return 0
	}
	return levels[strings.TrimPrefix(kindOf(cs[1]), "t:")]
}

func checkPrecedence(t antlr.Tree, add func(string, string, string, ...any)) {
	cs := t.GetChildren()
	bad := func(op string, c antlr.Tree) {
		add("C25", "precedence", "an operand of %s is an expression of %s", op[2:], kindOf(c.GetChildren()[1])[2:])
	}
	if n := binaryLevel(t); n > 0 {
		if m := binaryLevel(cs[0]); m > 0 && m < n {
			bad(kindOf(cs[1]), cs[0])
		}
		if m := binaryLevel(cs[2]); m > 0 && m <= n {
			bad(kindOf(cs[1]), cs[2])
		}
		return
	}
	if len(cs) == 2 {
		min := 11
		if kindOf(cs[0]) == "t:NOT_" {
			min = 4
		}
		if m := binaryLevel(cs[1]); m > 0 && m < min {
			bad(kindOf(cs[0]), cs[1])
		}
	}
}
