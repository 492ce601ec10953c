// Written by full/tools/syntax_table.py
use super::*;
use air_r_factory as make;

pub fn nodes() -> Vec<NodeEntry> {
    vec![
        NodeEntry {
            name: "RArgument",
            can_cast: <RArgument as AstNode>::can_cast,
            in_set: |k| <RArgument as AstNode>::KIND_SET.matches(k),
            cast: |n| <RArgument as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| { let mut b = make::r_argument(); if let Some(x) = e("name_clause") { b = b.with_name_clause(as_node::<RArgumentNameClause>(x)); } if let Some(x) = e("value") { b = b.with_value(as_node::<AnyRExpression>(x)); } b.build().into_syntax() },
            slots: vec![
                SlotEntry {
                    name: "name_clause",
                    optional: true,
                    get: |n| opt(cast::<RArgument>(n).name_clause().map(|e| node(e))),
                    field: |n| opt(cast::<RArgument>(n).as_fields().name_clause.map(|e| node(e))),
                },
                SlotEntry {
                    name: "value",
                    optional: true,
                    get: |n| opt(cast::<RArgument>(n).value().map(|e| node(e))),
                    field: |n| opt(cast::<RArgument>(n).as_fields().value.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RArgumentNameClause",
            can_cast: <RArgumentNameClause as AstNode>::can_cast,
            in_set: |k| <RArgumentNameClause as AstNode>::KIND_SET.matches(k),
            cast: |n| <RArgumentNameClause as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_argument_name_clause(as_node::<AnyRArgumentName>(e("name").unwrap()), as_token(e("eq_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "name",
                    optional: false,
                    get: |n| req(cast::<RArgumentNameClause>(n).name().map(|e| node(e))),
                    field: |n| req(cast::<RArgumentNameClause>(n).as_fields().name.map(|e| node(e))),
                },
                SlotEntry {
                    name: "eq_token",
                    optional: false,
                    get: |n| req(cast::<RArgumentNameClause>(n).eq_token().map(|e| token(e))),
                    field: |n| req(cast::<RArgumentNameClause>(n).as_fields().eq_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RBinaryExpression",
            can_cast: <RBinaryExpression as AstNode>::can_cast,
            in_set: |k| <RBinaryExpression as AstNode>::KIND_SET.matches(k),
            cast: |n| <RBinaryExpression as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_binary_expression(as_node::<AnyRExpression>(e("left").unwrap()), as_token(e("operator").unwrap()), as_node::<AnyRExpression>(e("right").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "left",
                    optional: false,
                    get: |n| req(cast::<RBinaryExpression>(n).left().map(|e| node(e))),
                    field: |n| req(cast::<RBinaryExpression>(n).as_fields().left.map(|e| node(e))),
                },
                SlotEntry {
                    name: "operator",
                    optional: false,
                    get: |n| req(cast::<RBinaryExpression>(n).operator().map(|e| token(e))),
                    field: |n| req(cast::<RBinaryExpression>(n).as_fields().operator.map(|e| token(e))),
                },
                SlotEntry {
                    name: "right",
                    optional: false,
                    get: |n| req(cast::<RBinaryExpression>(n).right().map(|e| node(e))),
                    field: |n| req(cast::<RBinaryExpression>(n).as_fields().right.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RBracedExpressions",
            can_cast: <RBracedExpressions as AstNode>::can_cast,
            in_set: |k| <RBracedExpressions as AstNode>::KIND_SET.matches(k),
            cast: |n| <RBracedExpressions as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_braced_expressions(as_token(e("l_curly_token").unwrap()), as_node::<RExpressionList>(e("expressions").unwrap()), as_token(e("r_curly_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "l_curly_token",
                    optional: false,
                    get: |n| req(cast::<RBracedExpressions>(n).l_curly_token().map(|e| token(e))),
                    field: |n| req(cast::<RBracedExpressions>(n).as_fields().l_curly_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "expressions",
                    optional: false,
                    get: |n| Got::Is(node(cast::<RBracedExpressions>(n).expressions())),
                    field: |n| Got::Is(node(cast::<RBracedExpressions>(n).as_fields().expressions)),
                },
                SlotEntry {
                    name: "r_curly_token",
                    optional: false,
                    get: |n| req(cast::<RBracedExpressions>(n).r_curly_token().map(|e| token(e))),
                    field: |n| req(cast::<RBracedExpressions>(n).as_fields().r_curly_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RBreakExpression",
            can_cast: <RBreakExpression as AstNode>::can_cast,
            in_set: |k| <RBreakExpression as AstNode>::KIND_SET.matches(k),
            cast: |n| <RBreakExpression as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_break_expression(as_token(e("break_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "break_token",
                    optional: false,
                    get: |n| req(cast::<RBreakExpression>(n).break_token().map(|e| token(e))),
                    field: |n| req(cast::<RBreakExpression>(n).as_fields().break_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RCall",
            can_cast: <RCall as AstNode>::can_cast,
            in_set: |k| <RCall as AstNode>::KIND_SET.matches(k),
            cast: |n| <RCall as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_call(as_node::<AnyRExpression>(e("function").unwrap()), as_node::<RCallArguments>(e("arguments").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "function",
                    optional: false,
                    get: |n| req(cast::<RCall>(n).function().map(|e| node(e))),
                    field: |n| req(cast::<RCall>(n).as_fields().function.map(|e| node(e))),
                },
                SlotEntry {
                    name: "arguments",
                    optional: false,
                    get: |n| req(cast::<RCall>(n).arguments().map(|e| node(e))),
                    field: |n| req(cast::<RCall>(n).as_fields().arguments.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RCallArguments",
            can_cast: <RCallArguments as AstNode>::can_cast,
            in_set: |k| <RCallArguments as AstNode>::KIND_SET.matches(k),
            cast: |n| <RCallArguments as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_call_arguments(as_token(e("l_paren_token").unwrap()), as_node::<RArgumentList>(e("items").unwrap()), as_token(e("r_paren_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "l_paren_token",
                    optional: false,
                    get: |n| req(cast::<RCallArguments>(n).l_paren_token().map(|e| token(e))),
                    field: |n| req(cast::<RCallArguments>(n).as_fields().l_paren_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "items",
                    optional: false,
                    get: |n| Got::Is(node(cast::<RCallArguments>(n).items())),
                    field: |n| Got::Is(node(cast::<RCallArguments>(n).as_fields().items)),
                },
                SlotEntry {
                    name: "r_paren_token",
                    optional: false,
                    get: |n| req(cast::<RCallArguments>(n).r_paren_token().map(|e| token(e))),
                    field: |n| req(cast::<RCallArguments>(n).as_fields().r_paren_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RComplexValue",
            can_cast: <RComplexValue as AstNode>::can_cast,
            in_set: |k| <RComplexValue as AstNode>::KIND_SET.matches(k),
            cast: |n| <RComplexValue as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_complex_value(as_token(e("value_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "value_token",
                    optional: false,
                    get: |n| req(cast::<RComplexValue>(n).value_token().map(|e| token(e))),
                    field: |n| req(cast::<RComplexValue>(n).as_fields().value_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RDotDotI",
            can_cast: <RDotDotI as AstNode>::can_cast,
            in_set: |k| <RDotDotI as AstNode>::KIND_SET.matches(k),
            cast: |n| <RDotDotI as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_dot_dot_i(as_token(e("value_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "value_token",
                    optional: false,
                    get: |n| req(cast::<RDotDotI>(n).value_token().map(|e| token(e))),
                    field: |n| req(cast::<RDotDotI>(n).as_fields().value_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RDots",
            can_cast: <RDots as AstNode>::can_cast,
            in_set: |k| <RDots as AstNode>::KIND_SET.matches(k),
            cast: |n| <RDots as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_dots(as_token(e("value_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "value_token",
                    optional: false,
                    get: |n| req(cast::<RDots>(n).value_token().map(|e| token(e))),
                    field: |n| req(cast::<RDots>(n).as_fields().value_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RDoubleValue",
            can_cast: <RDoubleValue as AstNode>::can_cast,
            in_set: |k| <RDoubleValue as AstNode>::KIND_SET.matches(k),
            cast: |n| <RDoubleValue as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_double_value(as_token(e("value_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "value_token",
                    optional: false,
                    get: |n| req(cast::<RDoubleValue>(n).value_token().map(|e| token(e))),
                    field: |n| req(cast::<RDoubleValue>(n).as_fields().value_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RElseClause",
            can_cast: <RElseClause as AstNode>::can_cast,
            in_set: |k| <RElseClause as AstNode>::KIND_SET.matches(k),
            cast: |n| <RElseClause as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_else_clause(as_token(e("else_token").unwrap()), as_node::<AnyRExpression>(e("alternative").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "else_token",
                    optional: false,
                    get: |n| req(cast::<RElseClause>(n).else_token().map(|e| token(e))),
                    field: |n| req(cast::<RElseClause>(n).as_fields().else_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "alternative",
                    optional: false,
                    get: |n| req(cast::<RElseClause>(n).alternative().map(|e| node(e))),
                    field: |n| req(cast::<RElseClause>(n).as_fields().alternative.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RExtractExpression",
            can_cast: <RExtractExpression as AstNode>::can_cast,
            in_set: |k| <RExtractExpression as AstNode>::KIND_SET.matches(k),
            cast: |n| <RExtractExpression as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_extract_expression(as_node::<AnyRExpression>(e("left").unwrap()), as_token(e("operator").unwrap()), as_node::<AnyRSelector>(e("right").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "left",
                    optional: false,
                    get: |n| req(cast::<RExtractExpression>(n).left().map(|e| node(e))),
                    field: |n| req(cast::<RExtractExpression>(n).as_fields().left.map(|e| node(e))),
                },
                SlotEntry {
                    name: "operator",
                    optional: false,
                    get: |n| req(cast::<RExtractExpression>(n).operator().map(|e| token(e))),
                    field: |n| req(cast::<RExtractExpression>(n).as_fields().operator.map(|e| token(e))),
                },
                SlotEntry {
                    name: "right",
                    optional: false,
                    get: |n| req(cast::<RExtractExpression>(n).right().map(|e| node(e))),
                    field: |n| req(cast::<RExtractExpression>(n).as_fields().right.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RFalseExpression",
            can_cast: <RFalseExpression as AstNode>::can_cast,
            in_set: |k| <RFalseExpression as AstNode>::KIND_SET.matches(k),
            cast: |n| <RFalseExpression as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_false_expression(as_token(e("false_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "false_token",
                    optional: false,
                    get: |n| req(cast::<RFalseExpression>(n).false_token().map(|e| token(e))),
                    field: |n| req(cast::<RFalseExpression>(n).as_fields().false_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RForStatement",
            can_cast: <RForStatement as AstNode>::can_cast,
            in_set: |k| <RForStatement as AstNode>::KIND_SET.matches(k),
            cast: |n| <RForStatement as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_for_statement(as_token(e("for_token").unwrap()), as_token(e("l_paren_token").unwrap()), as_node::<RIdentifier>(e("variable").unwrap()), as_token(e("in_token").unwrap()), as_node::<AnyRExpression>(e("sequence").unwrap()), as_token(e("r_paren_token").unwrap()), as_node::<AnyRExpression>(e("body").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "for_token",
                    optional: false,
                    get: |n| req(cast::<RForStatement>(n).for_token().map(|e| token(e))),
                    field: |n| req(cast::<RForStatement>(n).as_fields().for_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "l_paren_token",
                    optional: false,
                    get: |n| req(cast::<RForStatement>(n).l_paren_token().map(|e| token(e))),
                    field: |n| req(cast::<RForStatement>(n).as_fields().l_paren_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "variable",
                    optional: false,
                    get: |n| req(cast::<RForStatement>(n).variable().map(|e| node(e))),
                    field: |n| req(cast::<RForStatement>(n).as_fields().variable.map(|e| node(e))),
                },
                SlotEntry {
                    name: "in_token",
                    optional: false,
                    get: |n| req(cast::<RForStatement>(n).in_token().map(|e| token(e))),
                    field: |n| req(cast::<RForStatement>(n).as_fields().in_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "sequence",
                    optional: false,
                    get: |n| req(cast::<RForStatement>(n).sequence().map(|e| node(e))),
                    field: |n| req(cast::<RForStatement>(n).as_fields().sequence.map(|e| node(e))),
                },
                SlotEntry {
                    name: "r_paren_token",
                    optional: false,
                    get: |n| req(cast::<RForStatement>(n).r_paren_token().map(|e| token(e))),
                    field: |n| req(cast::<RForStatement>(n).as_fields().r_paren_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "body",
                    optional: false,
                    get: |n| req(cast::<RForStatement>(n).body().map(|e| node(e))),
                    field: |n| req(cast::<RForStatement>(n).as_fields().body.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RFunctionDefinition",
            can_cast: <RFunctionDefinition as AstNode>::can_cast,
            in_set: |k| <RFunctionDefinition as AstNode>::KIND_SET.matches(k),
            cast: |n| <RFunctionDefinition as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_function_definition(as_token(e("name").unwrap()), as_node::<RParameters>(e("parameters").unwrap()), as_node::<AnyRExpression>(e("body").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "name",
                    optional: false,
                    get: |n| req(cast::<RFunctionDefinition>(n).name().map(|e| token(e))),
                    field: |n| req(cast::<RFunctionDefinition>(n).as_fields().name.map(|e| token(e))),
                },
                SlotEntry {
                    name: "parameters",
                    optional: false,
                    get: |n| req(cast::<RFunctionDefinition>(n).parameters().map(|e| node(e))),
                    field: |n| req(cast::<RFunctionDefinition>(n).as_fields().parameters.map(|e| node(e))),
                },
                SlotEntry {
                    name: "body",
                    optional: false,
                    get: |n| req(cast::<RFunctionDefinition>(n).body().map(|e| node(e))),
                    field: |n| req(cast::<RFunctionDefinition>(n).as_fields().body.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RIdentifier",
            can_cast: <RIdentifier as AstNode>::can_cast,
            in_set: |k| <RIdentifier as AstNode>::KIND_SET.matches(k),
            cast: |n| <RIdentifier as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_identifier(as_token(e("name_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "name_token",
                    optional: false,
                    get: |n| req(cast::<RIdentifier>(n).name_token().map(|e| token(e))),
                    field: |n| req(cast::<RIdentifier>(n).as_fields().name_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RIfStatement",
            can_cast: <RIfStatement as AstNode>::can_cast,
            in_set: |k| <RIfStatement as AstNode>::KIND_SET.matches(k),
            cast: |n| <RIfStatement as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| { let mut b = make::r_if_statement(as_token(e("if_token").unwrap()), as_token(e("l_paren_token").unwrap()), as_node::<AnyRExpression>(e("condition").unwrap()), as_token(e("r_paren_token").unwrap()), as_node::<AnyRExpression>(e("consequence").unwrap())); if let Some(x) = e("else_clause") { b = b.with_else_clause(as_node::<RElseClause>(x)); } b.build().into_syntax() },
            slots: vec![
                SlotEntry {
                    name: "if_token",
                    optional: false,
                    get: |n| req(cast::<RIfStatement>(n).if_token().map(|e| token(e))),
                    field: |n| req(cast::<RIfStatement>(n).as_fields().if_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "l_paren_token",
                    optional: false,
                    get: |n| req(cast::<RIfStatement>(n).l_paren_token().map(|e| token(e))),
                    field: |n| req(cast::<RIfStatement>(n).as_fields().l_paren_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "condition",
                    optional: false,
                    get: |n| req(cast::<RIfStatement>(n).condition().map(|e| node(e))),
                    field: |n| req(cast::<RIfStatement>(n).as_fields().condition.map(|e| node(e))),
                },
                SlotEntry {
                    name: "r_paren_token",
                    optional: false,
                    get: |n| req(cast::<RIfStatement>(n).r_paren_token().map(|e| token(e))),
                    field: |n| req(cast::<RIfStatement>(n).as_fields().r_paren_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "consequence",
                    optional: false,
                    get: |n| req(cast::<RIfStatement>(n).consequence().map(|e| node(e))),
                    field: |n| req(cast::<RIfStatement>(n).as_fields().consequence.map(|e| node(e))),
                },
                SlotEntry {
                    name: "else_clause",
                    optional: true,
                    get: |n| opt(cast::<RIfStatement>(n).else_clause().map(|e| node(e))),
                    field: |n| opt(cast::<RIfStatement>(n).as_fields().else_clause.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RInfExpression",
            can_cast: <RInfExpression as AstNode>::can_cast,
            in_set: |k| <RInfExpression as AstNode>::KIND_SET.matches(k),
            cast: |n| <RInfExpression as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_inf_expression(as_token(e("inf_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "inf_token",
                    optional: false,
                    get: |n| req(cast::<RInfExpression>(n).inf_token().map(|e| token(e))),
                    field: |n| req(cast::<RInfExpression>(n).as_fields().inf_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RIntegerValue",
            can_cast: <RIntegerValue as AstNode>::can_cast,
            in_set: |k| <RIntegerValue as AstNode>::KIND_SET.matches(k),
            cast: |n| <RIntegerValue as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_integer_value(as_token(e("value_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "value_token",
                    optional: false,
                    get: |n| req(cast::<RIntegerValue>(n).value_token().map(|e| token(e))),
                    field: |n| req(cast::<RIntegerValue>(n).as_fields().value_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RNaExpression",
            can_cast: <RNaExpression as AstNode>::can_cast,
            in_set: |k| <RNaExpression as AstNode>::KIND_SET.matches(k),
            cast: |n| <RNaExpression as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_na_expression(as_token(e("value").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "value",
                    optional: false,
                    get: |n| req(cast::<RNaExpression>(n).value().map(|e| token(e))),
                    field: |n| req(cast::<RNaExpression>(n).as_fields().value.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RNamespaceExpression",
            can_cast: <RNamespaceExpression as AstNode>::can_cast,
            in_set: |k| <RNamespaceExpression as AstNode>::KIND_SET.matches(k),
            cast: |n| <RNamespaceExpression as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_namespace_expression(as_node::<AnyRSelector>(e("left").unwrap()), as_token(e("operator").unwrap()), as_node::<AnyRSelector>(e("right").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "left",
                    optional: false,
                    get: |n| req(cast::<RNamespaceExpression>(n).left().map(|e| node(e))),
                    field: |n| req(cast::<RNamespaceExpression>(n).as_fields().left.map(|e| node(e))),
                },
                SlotEntry {
                    name: "operator",
                    optional: false,
                    get: |n| req(cast::<RNamespaceExpression>(n).operator().map(|e| token(e))),
                    field: |n| req(cast::<RNamespaceExpression>(n).as_fields().operator.map(|e| token(e))),
                },
                SlotEntry {
                    name: "right",
                    optional: false,
                    get: |n| req(cast::<RNamespaceExpression>(n).right().map(|e| node(e))),
                    field: |n| req(cast::<RNamespaceExpression>(n).as_fields().right.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RNanExpression",
            can_cast: <RNanExpression as AstNode>::can_cast,
            in_set: |k| <RNanExpression as AstNode>::KIND_SET.matches(k),
            cast: |n| <RNanExpression as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_nan_expression(as_token(e("nan_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "nan_token",
                    optional: false,
                    get: |n| req(cast::<RNanExpression>(n).nan_token().map(|e| token(e))),
                    field: |n| req(cast::<RNanExpression>(n).as_fields().nan_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RNextExpression",
            can_cast: <RNextExpression as AstNode>::can_cast,
            in_set: |k| <RNextExpression as AstNode>::KIND_SET.matches(k),
            cast: |n| <RNextExpression as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_next_expression(as_token(e("next_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "next_token",
                    optional: false,
                    get: |n| req(cast::<RNextExpression>(n).next_token().map(|e| token(e))),
                    field: |n| req(cast::<RNextExpression>(n).as_fields().next_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RNullExpression",
            can_cast: <RNullExpression as AstNode>::can_cast,
            in_set: |k| <RNullExpression as AstNode>::KIND_SET.matches(k),
            cast: |n| <RNullExpression as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_null_expression(as_token(e("null_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "null_token",
                    optional: false,
                    get: |n| req(cast::<RNullExpression>(n).null_token().map(|e| token(e))),
                    field: |n| req(cast::<RNullExpression>(n).as_fields().null_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RParameter",
            can_cast: <RParameter as AstNode>::can_cast,
            in_set: |k| <RParameter as AstNode>::KIND_SET.matches(k),
            cast: |n| <RParameter as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| { let mut b = make::r_parameter(as_node::<AnyRParameterName>(e("name").unwrap())); if let Some(x) = e("default") { b = b.with_default(as_node::<RParameterDefault>(x)); } b.build().into_syntax() },
            slots: vec![
                SlotEntry {
                    name: "name",
                    optional: false,
                    get: |n| req(cast::<RParameter>(n).name().map(|e| node(e))),
                    field: |n| req(cast::<RParameter>(n).as_fields().name.map(|e| node(e))),
                },
                SlotEntry {
                    name: "default",
                    optional: true,
                    get: |n| opt(cast::<RParameter>(n).default().map(|e| node(e))),
                    field: |n| opt(cast::<RParameter>(n).as_fields().default.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RParameterDefault",
            can_cast: <RParameterDefault as AstNode>::can_cast,
            in_set: |k| <RParameterDefault as AstNode>::KIND_SET.matches(k),
            cast: |n| <RParameterDefault as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_parameter_default(as_token(e("eq_token").unwrap()), as_node::<AnyRExpression>(e("value").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "eq_token",
                    optional: false,
                    get: |n| req(cast::<RParameterDefault>(n).eq_token().map(|e| token(e))),
                    field: |n| req(cast::<RParameterDefault>(n).as_fields().eq_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "value",
                    optional: false,
                    get: |n| req(cast::<RParameterDefault>(n).value().map(|e| node(e))),
                    field: |n| req(cast::<RParameterDefault>(n).as_fields().value.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RParameters",
            can_cast: <RParameters as AstNode>::can_cast,
            in_set: |k| <RParameters as AstNode>::KIND_SET.matches(k),
            cast: |n| <RParameters as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_parameters(as_token(e("l_paren_token").unwrap()), as_node::<RParameterList>(e("items").unwrap()), as_token(e("r_paren_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "l_paren_token",
                    optional: false,
                    get: |n| req(cast::<RParameters>(n).l_paren_token().map(|e| token(e))),
                    field: |n| req(cast::<RParameters>(n).as_fields().l_paren_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "items",
                    optional: false,
                    get: |n| Got::Is(node(cast::<RParameters>(n).items())),
                    field: |n| Got::Is(node(cast::<RParameters>(n).as_fields().items)),
                },
                SlotEntry {
                    name: "r_paren_token",
                    optional: false,
                    get: |n| req(cast::<RParameters>(n).r_paren_token().map(|e| token(e))),
                    field: |n| req(cast::<RParameters>(n).as_fields().r_paren_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RParenthesizedExpression",
            can_cast: <RParenthesizedExpression as AstNode>::can_cast,
            in_set: |k| <RParenthesizedExpression as AstNode>::KIND_SET.matches(k),
            cast: |n| <RParenthesizedExpression as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_parenthesized_expression(as_token(e("l_paren_token").unwrap()), as_node::<AnyRExpression>(e("body").unwrap()), as_token(e("r_paren_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "l_paren_token",
                    optional: false,
                    get: |n| req(cast::<RParenthesizedExpression>(n).l_paren_token().map(|e| token(e))),
                    field: |n| req(cast::<RParenthesizedExpression>(n).as_fields().l_paren_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "body",
                    optional: false,
                    get: |n| req(cast::<RParenthesizedExpression>(n).body().map(|e| node(e))),
                    field: |n| req(cast::<RParenthesizedExpression>(n).as_fields().body.map(|e| node(e))),
                },
                SlotEntry {
                    name: "r_paren_token",
                    optional: false,
                    get: |n| req(cast::<RParenthesizedExpression>(n).r_paren_token().map(|e| token(e))),
                    field: |n| req(cast::<RParenthesizedExpression>(n).as_fields().r_paren_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RRepeatStatement",
            can_cast: <RRepeatStatement as AstNode>::can_cast,
            in_set: |k| <RRepeatStatement as AstNode>::KIND_SET.matches(k),
            cast: |n| <RRepeatStatement as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_repeat_statement(as_token(e("repeat_token").unwrap()), as_node::<AnyRExpression>(e("body").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "repeat_token",
                    optional: false,
                    get: |n| req(cast::<RRepeatStatement>(n).repeat_token().map(|e| token(e))),
                    field: |n| req(cast::<RRepeatStatement>(n).as_fields().repeat_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "body",
                    optional: false,
                    get: |n| req(cast::<RRepeatStatement>(n).body().map(|e| node(e))),
                    field: |n| req(cast::<RRepeatStatement>(n).as_fields().body.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RRoot",
            can_cast: <RRoot as AstNode>::can_cast,
            in_set: |k| <RRoot as AstNode>::KIND_SET.matches(k),
            cast: |n| <RRoot as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| { let mut b = make::r_root(as_node::<RExpressionList>(e("expressions").unwrap()), as_token(e("eof_token").unwrap())); if let Some(x) = e("bom_token") { b = b.with_bom_token(as_token(x)); } b.build().into_syntax() },
            slots: vec![
                SlotEntry {
                    name: "bom_token",
                    optional: true,
                    get: |n| opt(cast::<RRoot>(n).bom_token().map(|e| token(e))),
                    field: |n| opt(cast::<RRoot>(n).as_fields().bom_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "expressions",
                    optional: false,
                    get: |n| Got::Is(node(cast::<RRoot>(n).expressions())),
                    field: |n| Got::Is(node(cast::<RRoot>(n).as_fields().expressions)),
                },
                SlotEntry {
                    name: "eof_token",
                    optional: false,
                    get: |n| req(cast::<RRoot>(n).eof_token().map(|e| token(e))),
                    field: |n| req(cast::<RRoot>(n).as_fields().eof_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RStringValue",
            can_cast: <RStringValue as AstNode>::can_cast,
            in_set: |k| <RStringValue as AstNode>::KIND_SET.matches(k),
            cast: |n| <RStringValue as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| { let mut b = make::r_string_value(as_token(e("open_token").unwrap()), as_token(e("close_token").unwrap())); if let Some(x) = e("content_token") { b = b.with_content_token(as_token(x)); } b.build().into_syntax() },
            slots: vec![
                SlotEntry {
                    name: "open_token",
                    optional: false,
                    get: |n| req(cast::<RStringValue>(n).open_token().map(|e| token(e))),
                    field: |n| req(cast::<RStringValue>(n).as_fields().open_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "content_token",
                    optional: true,
                    get: |n| opt(cast::<RStringValue>(n).content_token().map(|e| token(e))),
                    field: |n| opt(cast::<RStringValue>(n).as_fields().content_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "close_token",
                    optional: false,
                    get: |n| req(cast::<RStringValue>(n).close_token().map(|e| token(e))),
                    field: |n| req(cast::<RStringValue>(n).as_fields().close_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RSubset",
            can_cast: <RSubset as AstNode>::can_cast,
            in_set: |k| <RSubset as AstNode>::KIND_SET.matches(k),
            cast: |n| <RSubset as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_subset(as_node::<AnyRExpression>(e("function").unwrap()), as_node::<RSubsetArguments>(e("arguments").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "function",
                    optional: false,
                    get: |n| req(cast::<RSubset>(n).function().map(|e| node(e))),
                    field: |n| req(cast::<RSubset>(n).as_fields().function.map(|e| node(e))),
                },
                SlotEntry {
                    name: "arguments",
                    optional: false,
                    get: |n| req(cast::<RSubset>(n).arguments().map(|e| node(e))),
                    field: |n| req(cast::<RSubset>(n).as_fields().arguments.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RSubset2",
            can_cast: <RSubset2 as AstNode>::can_cast,
            in_set: |k| <RSubset2 as AstNode>::KIND_SET.matches(k),
            cast: |n| <RSubset2 as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_subset2(as_node::<AnyRExpression>(e("function").unwrap()), as_node::<RSubset2Arguments>(e("arguments").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "function",
                    optional: false,
                    get: |n| req(cast::<RSubset2>(n).function().map(|e| node(e))),
                    field: |n| req(cast::<RSubset2>(n).as_fields().function.map(|e| node(e))),
                },
                SlotEntry {
                    name: "arguments",
                    optional: false,
                    get: |n| req(cast::<RSubset2>(n).arguments().map(|e| node(e))),
                    field: |n| req(cast::<RSubset2>(n).as_fields().arguments.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RSubset2Arguments",
            can_cast: <RSubset2Arguments as AstNode>::can_cast,
            in_set: |k| <RSubset2Arguments as AstNode>::KIND_SET.matches(k),
            cast: |n| <RSubset2Arguments as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_subset2_arguments(as_token(e("l_brack2_token").unwrap()), as_node::<RArgumentList>(e("items").unwrap()), as_token(e("r_brack2_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "l_brack2_token",
                    optional: false,
                    get: |n| req(cast::<RSubset2Arguments>(n).l_brack2_token().map(|e| token(e))),
                    field: |n| req(cast::<RSubset2Arguments>(n).as_fields().l_brack2_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "items",
                    optional: false,
                    get: |n| Got::Is(node(cast::<RSubset2Arguments>(n).items())),
                    field: |n| Got::Is(node(cast::<RSubset2Arguments>(n).as_fields().items)),
                },
                SlotEntry {
                    name: "r_brack2_token",
                    optional: false,
                    get: |n| req(cast::<RSubset2Arguments>(n).r_brack2_token().map(|e| token(e))),
                    field: |n| req(cast::<RSubset2Arguments>(n).as_fields().r_brack2_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RSubsetArguments",
            can_cast: <RSubsetArguments as AstNode>::can_cast,
            in_set: |k| <RSubsetArguments as AstNode>::KIND_SET.matches(k),
            cast: |n| <RSubsetArguments as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_subset_arguments(as_token(e("l_brack_token").unwrap()), as_node::<RArgumentList>(e("items").unwrap()), as_token(e("r_brack_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "l_brack_token",
                    optional: false,
                    get: |n| req(cast::<RSubsetArguments>(n).l_brack_token().map(|e| token(e))),
                    field: |n| req(cast::<RSubsetArguments>(n).as_fields().l_brack_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "items",
                    optional: false,
                    get: |n| Got::Is(node(cast::<RSubsetArguments>(n).items())),
                    field: |n| Got::Is(node(cast::<RSubsetArguments>(n).as_fields().items)),
                },
                SlotEntry {
                    name: "r_brack_token",
                    optional: false,
                    get: |n| req(cast::<RSubsetArguments>(n).r_brack_token().map(|e| token(e))),
                    field: |n| req(cast::<RSubsetArguments>(n).as_fields().r_brack_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RTrueExpression",
            can_cast: <RTrueExpression as AstNode>::can_cast,
            in_set: |k| <RTrueExpression as AstNode>::KIND_SET.matches(k),
            cast: |n| <RTrueExpression as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_true_expression(as_token(e("true_token").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "true_token",
                    optional: false,
                    get: |n| req(cast::<RTrueExpression>(n).true_token().map(|e| token(e))),
                    field: |n| req(cast::<RTrueExpression>(n).as_fields().true_token.map(|e| token(e))),
                },
            ],
        },
        NodeEntry {
            name: "RUnaryExpression",
            can_cast: <RUnaryExpression as AstNode>::can_cast,
            in_set: |k| <RUnaryExpression as AstNode>::KIND_SET.matches(k),
            cast: |n| <RUnaryExpression as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_unary_expression(as_token(e("operator").unwrap()), as_node::<AnyRExpression>(e("argument").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "operator",
                    optional: false,
                    get: |n| req(cast::<RUnaryExpression>(n).operator().map(|e| token(e))),
                    field: |n| req(cast::<RUnaryExpression>(n).as_fields().operator.map(|e| token(e))),
                },
                SlotEntry {
                    name: "argument",
                    optional: false,
                    get: |n| req(cast::<RUnaryExpression>(n).argument().map(|e| node(e))),
                    field: |n| req(cast::<RUnaryExpression>(n).as_fields().argument.map(|e| node(e))),
                },
            ],
        },
        NodeEntry {
            name: "RWhileStatement",
            can_cast: <RWhileStatement as AstNode>::can_cast,
            in_set: |k| <RWhileStatement as AstNode>::KIND_SET.matches(k),
            cast: |n| <RWhileStatement as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| make::r_while_statement(as_token(e("while_token").unwrap()), as_token(e("l_paren_token").unwrap()), as_node::<AnyRExpression>(e("condition").unwrap()), as_token(e("r_paren_token").unwrap()), as_node::<AnyRExpression>(e("body").unwrap())).into_syntax(),
            slots: vec![
                SlotEntry {
                    name: "while_token",
                    optional: false,
                    get: |n| req(cast::<RWhileStatement>(n).while_token().map(|e| token(e))),
                    field: |n| req(cast::<RWhileStatement>(n).as_fields().while_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "l_paren_token",
                    optional: false,
                    get: |n| req(cast::<RWhileStatement>(n).l_paren_token().map(|e| token(e))),
                    field: |n| req(cast::<RWhileStatement>(n).as_fields().l_paren_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "condition",
                    optional: false,
                    get: |n| req(cast::<RWhileStatement>(n).condition().map(|e| node(e))),
                    field: |n| req(cast::<RWhileStatement>(n).as_fields().condition.map(|e| node(e))),
                },
                SlotEntry {
                    name: "r_paren_token",
                    optional: false,
                    get: |n| req(cast::<RWhileStatement>(n).r_paren_token().map(|e| token(e))),
                    field: |n| req(cast::<RWhileStatement>(n).as_fields().r_paren_token.map(|e| token(e))),
                },
                SlotEntry {
                    name: "body",
                    optional: false,
                    get: |n| req(cast::<RWhileStatement>(n).body().map(|e| node(e))),
                    field: |n| req(cast::<RWhileStatement>(n).as_fields().body.map(|e| node(e))),
                },
            ],
        },
    ]
}

pub fn unions() -> Vec<UnionEntry> {
    vec![
        UnionEntry {
            name: "AnyRArgumentName",
            can_cast: <AnyRArgumentName as AstNode>::can_cast,
            in_set: |k| <AnyRArgumentName as AstNode>::KIND_SET.matches(k),
            cast: |n| <AnyRArgumentName as AstNode>::cast(n).map(|n| n.into_syntax()),
            variant: |n| match cast::<AnyRArgumentName>(n) {
                AnyRArgumentName::RDotDotI(_) => "RDotDotI",
                AnyRArgumentName::RDots(_) => "RDots",
                AnyRArgumentName::RIdentifier(_) => "RIdentifier",
                AnyRArgumentName::RNullExpression(_) => "RNullExpression",
                AnyRArgumentName::RStringValue(_) => "RStringValue",
            },
            narrow: vec![
                ("RDotDotI", |n| cast::<AnyRArgumentName>(n).as_r_dot_dot_i().map(|x| x.clone().into_syntax())),
                ("RDots", |n| cast::<AnyRArgumentName>(n).as_r_dots().map(|x| x.clone().into_syntax())),
                ("RIdentifier", |n| cast::<AnyRArgumentName>(n).as_r_identifier().map(|x| x.clone().into_syntax())),
                ("RNullExpression", |n| cast::<AnyRArgumentName>(n).as_r_null_expression().map(|x| x.clone().into_syntax())),
                ("RStringValue", |n| cast::<AnyRArgumentName>(n).as_r_string_value().map(|x| x.clone().into_syntax())),
            ],
            widen: vec![
                ("RDotDotI", |n| AnyRArgumentName::from(cast::<RDotDotI>(n)).into_syntax()),
                ("RDots", |n| AnyRArgumentName::from(cast::<RDots>(n)).into_syntax()),
                ("RIdentifier", |n| AnyRArgumentName::from(cast::<RIdentifier>(n)).into_syntax()),
                ("RNullExpression", |n| AnyRArgumentName::from(cast::<RNullExpression>(n)).into_syntax()),
                ("RStringValue", |n| AnyRArgumentName::from(cast::<RStringValue>(n)).into_syntax()),
            ],
        },
        UnionEntry {
            name: "AnyRExpression",
            can_cast: <AnyRExpression as AstNode>::can_cast,
            in_set: |k| <AnyRExpression as AstNode>::KIND_SET.matches(k),
            cast: |n| <AnyRExpression as AstNode>::cast(n).map(|n| n.into_syntax()),
            variant: |n| match cast::<AnyRExpression>(n) {
                AnyRExpression::AnyRValue(_) => "AnyRValue",
                AnyRExpression::RBinaryExpression(_) => "RBinaryExpression",
                AnyRExpression::RBogusExpression(_) => "RBogusExpression",
                AnyRExpression::RBracedExpressions(_) => "RBracedExpressions",
                AnyRExpression::RBreakExpression(_) => "RBreakExpression",
                AnyRExpression::RCall(_) => "RCall",
                AnyRExpression::RDotDotI(_) => "RDotDotI",
                AnyRExpression::RDots(_) => "RDots",
                AnyRExpression::RExtractExpression(_) => "RExtractExpression",
                AnyRExpression::RFalseExpression(_) => "RFalseExpression",
                AnyRExpression::RForStatement(_) => "RForStatement",
                AnyRExpression::RFunctionDefinition(_) => "RFunctionDefinition",
                AnyRExpression::RIdentifier(_) => "RIdentifier",
                AnyRExpression::RIfStatement(_) => "RIfStatement",
                AnyRExpression::RInfExpression(_) => "RInfExpression",
                AnyRExpression::RNaExpression(_) => "RNaExpression",
                AnyRExpression::RNamespaceExpression(_) => "RNamespaceExpression",
                AnyRExpression::RNanExpression(_) => "RNanExpression",
                AnyRExpression::RNextExpression(_) => "RNextExpression",
                AnyRExpression::RNullExpression(_) => "RNullExpression",
                AnyRExpression::RParenthesizedExpression(_) => "RParenthesizedExpression",
                AnyRExpression::RRepeatStatement(_) => "RRepeatStatement",
                AnyRExpression::RSubset(_) => "RSubset",
                AnyRExpression::RSubset2(_) => "RSubset2",
                AnyRExpression::RTrueExpression(_) => "RTrueExpression",
                AnyRExpression::RUnaryExpression(_) => "RUnaryExpression",
                AnyRExpression::RWhileStatement(_) => "RWhileStatement",
            },
            narrow: vec![
                ("AnyRValue", |n| cast::<AnyRExpression>(n).as_any_r_value().map(|x| x.clone().into_syntax())),
                ("RBinaryExpression", |n| cast::<AnyRExpression>(n).as_r_binary_expression().map(|x| x.clone().into_syntax())),
                ("RBogusExpression", |n| cast::<AnyRExpression>(n).as_r_bogus_expression().map(|x| x.clone().into_syntax())),
                ("RBracedExpressions", |n| cast::<AnyRExpression>(n).as_r_braced_expressions().map(|x| x.clone().into_syntax())),
                ("RBreakExpression", |n| cast::<AnyRExpression>(n).as_r_break_expression().map(|x| x.clone().into_syntax())),
                ("RCall", |n| cast::<AnyRExpression>(n).as_r_call().map(|x| x.clone().into_syntax())),
                ("RDotDotI", |n| cast::<AnyRExpression>(n).as_r_dot_dot_i().map(|x| x.clone().into_syntax())),
                ("RDots", |n| cast::<AnyRExpression>(n).as_r_dots().map(|x| x.clone().into_syntax())),
                ("RExtractExpression", |n| cast::<AnyRExpression>(n).as_r_extract_expression().map(|x| x.clone().into_syntax())),
                ("RFalseExpression", |n| cast::<AnyRExpression>(n).as_r_false_expression().map(|x| x.clone().into_syntax())),
                ("RForStatement", |n| cast::<AnyRExpression>(n).as_r_for_statement().map(|x| x.clone().into_syntax())),
                ("RFunctionDefinition", |n| cast::<AnyRExpression>(n).as_r_function_definition().map(|x| x.clone().into_syntax())),
                ("RIdentifier", |n| cast::<AnyRExpression>(n).as_r_identifier().map(|x| x.clone().into_syntax())),
                ("RIfStatement", |n| cast::<AnyRExpression>(n).as_r_if_statement().map(|x| x.clone().into_syntax())),
                ("RInfExpression", |n| cast::<AnyRExpression>(n).as_r_inf_expression().map(|x| x.clone().into_syntax())),
                ("RNaExpression", |n| cast::<AnyRExpression>(n).as_r_na_expression().map(|x| x.clone().into_syntax())),
                ("RNamespaceExpression", |n| cast::<AnyRExpression>(n).as_r_namespace_expression().map(|x| x.clone().into_syntax())),
                ("RNanExpression", |n| cast::<AnyRExpression>(n).as_r_nan_expression().map(|x| x.clone().into_syntax())),
                ("RNextExpression", |n| cast::<AnyRExpression>(n).as_r_next_expression().map(|x| x.clone().into_syntax())),
                ("RNullExpression", |n| cast::<AnyRExpression>(n).as_r_null_expression().map(|x| x.clone().into_syntax())),
                ("RParenthesizedExpression", |n| cast::<AnyRExpression>(n).as_r_parenthesized_expression().map(|x| x.clone().into_syntax())),
                ("RRepeatStatement", |n| cast::<AnyRExpression>(n).as_r_repeat_statement().map(|x| x.clone().into_syntax())),
                ("RSubset", |n| cast::<AnyRExpression>(n).as_r_subset().map(|x| x.clone().into_syntax())),
                ("RSubset2", |n| cast::<AnyRExpression>(n).as_r_subset2().map(|x| x.clone().into_syntax())),
                ("RTrueExpression", |n| cast::<AnyRExpression>(n).as_r_true_expression().map(|x| x.clone().into_syntax())),
                ("RUnaryExpression", |n| cast::<AnyRExpression>(n).as_r_unary_expression().map(|x| x.clone().into_syntax())),
                ("RWhileStatement", |n| cast::<AnyRExpression>(n).as_r_while_statement().map(|x| x.clone().into_syntax())),
            ],
            widen: vec![
                ("RBinaryExpression", |n| AnyRExpression::from(cast::<RBinaryExpression>(n)).into_syntax()),
                ("RBogusExpression", |n| AnyRExpression::from(cast::<RBogusExpression>(n)).into_syntax()),
                ("RBracedExpressions", |n| AnyRExpression::from(cast::<RBracedExpressions>(n)).into_syntax()),
                ("RBreakExpression", |n| AnyRExpression::from(cast::<RBreakExpression>(n)).into_syntax()),
                ("RCall", |n| AnyRExpression::from(cast::<RCall>(n)).into_syntax()),
                ("RDotDotI", |n| AnyRExpression::from(cast::<RDotDotI>(n)).into_syntax()),
                ("RDots", |n| AnyRExpression::from(cast::<RDots>(n)).into_syntax()),
                ("RExtractExpression", |n| AnyRExpression::from(cast::<RExtractExpression>(n)).into_syntax()),
                ("RFalseExpression", |n| AnyRExpression::from(cast::<RFalseExpression>(n)).into_syntax()),
                ("RForStatement", |n| AnyRExpression::from(cast::<RForStatement>(n)).into_syntax()),
                ("RFunctionDefinition", |n| AnyRExpression::from(cast::<RFunctionDefinition>(n)).into_syntax()),
                ("RIdentifier", |n| AnyRExpression::from(cast::<RIdentifier>(n)).into_syntax()),
                ("RIfStatement", |n| AnyRExpression::from(cast::<RIfStatement>(n)).into_syntax()),
                ("RInfExpression", |n| AnyRExpression::from(cast::<RInfExpression>(n)).into_syntax()),
                ("RNaExpression", |n| AnyRExpression::from(cast::<RNaExpression>(n)).into_syntax()),
                ("RNamespaceExpression", |n| AnyRExpression::from(cast::<RNamespaceExpression>(n)).into_syntax()),
                ("RNanExpression", |n| AnyRExpression::from(cast::<RNanExpression>(n)).into_syntax()),
                ("RNextExpression", |n| AnyRExpression::from(cast::<RNextExpression>(n)).into_syntax()),
                ("RNullExpression", |n| AnyRExpression::from(cast::<RNullExpression>(n)).into_syntax()),
                ("RParenthesizedExpression", |n| AnyRExpression::from(cast::<RParenthesizedExpression>(n)).into_syntax()),
                ("RRepeatStatement", |n| AnyRExpression::from(cast::<RRepeatStatement>(n)).into_syntax()),
                ("RSubset", |n| AnyRExpression::from(cast::<RSubset>(n)).into_syntax()),
                ("RSubset2", |n| AnyRExpression::from(cast::<RSubset2>(n)).into_syntax()),
                ("RTrueExpression", |n| AnyRExpression::from(cast::<RTrueExpression>(n)).into_syntax()),
                ("RUnaryExpression", |n| AnyRExpression::from(cast::<RUnaryExpression>(n)).into_syntax()),
                ("RWhileStatement", |n| AnyRExpression::from(cast::<RWhileStatement>(n)).into_syntax()),
            ],
        },
        UnionEntry {
            name: "AnyRParameterName",
            can_cast: <AnyRParameterName as AstNode>::can_cast,
            in_set: |k| <AnyRParameterName as AstNode>::KIND_SET.matches(k),
            cast: |n| <AnyRParameterName as AstNode>::cast(n).map(|n| n.into_syntax()),
            variant: |n| match cast::<AnyRParameterName>(n) {
                AnyRParameterName::RDotDotI(_) => "RDotDotI",
                AnyRParameterName::RDots(_) => "RDots",
                AnyRParameterName::RIdentifier(_) => "RIdentifier",
            },
            narrow: vec![
                ("RDotDotI", |n| cast::<AnyRParameterName>(n).as_r_dot_dot_i().map(|x| x.clone().into_syntax())),
                ("RDots", |n| cast::<AnyRParameterName>(n).as_r_dots().map(|x| x.clone().into_syntax())),
                ("RIdentifier", |n| cast::<AnyRParameterName>(n).as_r_identifier().map(|x| x.clone().into_syntax())),
            ],
            widen: vec![
                ("RDotDotI", |n| AnyRParameterName::from(cast::<RDotDotI>(n)).into_syntax()),
                ("RDots", |n| AnyRParameterName::from(cast::<RDots>(n)).into_syntax()),
                ("RIdentifier", |n| AnyRParameterName::from(cast::<RIdentifier>(n)).into_syntax()),
            ],
        },
        UnionEntry {
            name: "AnyRSelector",
            can_cast: <AnyRSelector as AstNode>::can_cast,
            in_set: |k| <AnyRSelector as AstNode>::KIND_SET.matches(k),
            cast: |n| <AnyRSelector as AstNode>::cast(n).map(|n| n.into_syntax()),
            variant: |n| match cast::<AnyRSelector>(n) {
                AnyRSelector::RDotDotI(_) => "RDotDotI",
                AnyRSelector::RDots(_) => "RDots",
                AnyRSelector::RIdentifier(_) => "RIdentifier",
                AnyRSelector::RStringValue(_) => "RStringValue",
            },
            narrow: vec![
                ("RDotDotI", |n| cast::<AnyRSelector>(n).as_r_dot_dot_i().map(|x| x.clone().into_syntax())),
                ("RDots", |n| cast::<AnyRSelector>(n).as_r_dots().map(|x| x.clone().into_syntax())),
                ("RIdentifier", |n| cast::<AnyRSelector>(n).as_r_identifier().map(|x| x.clone().into_syntax())),
                ("RStringValue", |n| cast::<AnyRSelector>(n).as_r_string_value().map(|x| x.clone().into_syntax())),
            ],
            widen: vec![
                ("RDotDotI", |n| AnyRSelector::from(cast::<RDotDotI>(n)).into_syntax()),
                ("RDots", |n| AnyRSelector::from(cast::<RDots>(n)).into_syntax()),
                ("RIdentifier", |n| AnyRSelector::from(cast::<RIdentifier>(n)).into_syntax()),
                ("RStringValue", |n| AnyRSelector::from(cast::<RStringValue>(n)).into_syntax()),
            ],
        },
        UnionEntry {
            name: "AnyRValue",
            can_cast: <AnyRValue as AstNode>::can_cast,
            in_set: |k| <AnyRValue as AstNode>::KIND_SET.matches(k),
            cast: |n| <AnyRValue as AstNode>::cast(n).map(|n| n.into_syntax()),
            variant: |n| match cast::<AnyRValue>(n) {
                AnyRValue::RBogusValue(_) => "RBogusValue",
                AnyRValue::RComplexValue(_) => "RComplexValue",
                AnyRValue::RDoubleValue(_) => "RDoubleValue",
                AnyRValue::RIntegerValue(_) => "RIntegerValue",
                AnyRValue::RStringValue(_) => "RStringValue",
            },
            narrow: vec![
                ("RBogusValue", |n| cast::<AnyRValue>(n).as_r_bogus_value().map(|x| x.clone().into_syntax())),
                ("RComplexValue", |n| cast::<AnyRValue>(n).as_r_complex_value().map(|x| x.clone().into_syntax())),
                ("RDoubleValue", |n| cast::<AnyRValue>(n).as_r_double_value().map(|x| x.clone().into_syntax())),
                ("RIntegerValue", |n| cast::<AnyRValue>(n).as_r_integer_value().map(|x| x.clone().into_syntax())),
                ("RStringValue", |n| cast::<AnyRValue>(n).as_r_string_value().map(|x| x.clone().into_syntax())),
            ],
            widen: vec![
                ("RBogusValue", |n| AnyRValue::from(cast::<RBogusValue>(n)).into_syntax()),
                ("RComplexValue", |n| AnyRValue::from(cast::<RComplexValue>(n)).into_syntax()),
                ("RDoubleValue", |n| AnyRValue::from(cast::<RDoubleValue>(n)).into_syntax()),
                ("RIntegerValue", |n| AnyRValue::from(cast::<RIntegerValue>(n)).into_syntax()),
                ("RStringValue", |n| AnyRValue::from(cast::<RStringValue>(n)).into_syntax()),
            ],
        },
    ]
}

pub fn lists() -> Vec<ListEntry> {
    vec![
        ListEntry {
            name: "RArgumentList",
            can_cast: <RArgumentList as AstNode>::can_cast,
            in_set: |k| <RArgumentList as AstNode>::KIND_SET.matches(k),
            cast: |n| <RArgumentList as AstNode>::cast(n).map(|n| n.into_syntax()),
            items: |n| cast::<RArgumentList>(n).iter().map(|e| e.ok().map(|e| e.into_syntax())).collect(),
            make: |items, separators| make::r_argument_list(items.into_iter().map(|n| cast::<RArgument>(&n)).collect::<Vec<_>>(), separators).into_syntax(),
        },
        ListEntry {
            name: "RExpressionList",
            can_cast: <RExpressionList as AstNode>::can_cast,
            in_set: |k| <RExpressionList as AstNode>::KIND_SET.matches(k),
            cast: |n| <RExpressionList as AstNode>::cast(n).map(|n| n.into_syntax()),
            items: |n| cast::<RExpressionList>(n).iter().map(|e| Some(e.into_syntax())).collect(),
            make: |items, separators| { let _ = separators; make::r_expression_list(items.into_iter().map(|n| cast::<AnyRExpression>(&n)).collect::<Vec<_>>()).into_syntax() },
        },
        ListEntry {
            name: "RParameterList",
            can_cast: <RParameterList as AstNode>::can_cast,
            in_set: |k| <RParameterList as AstNode>::KIND_SET.matches(k),
            cast: |n| <RParameterList as AstNode>::cast(n).map(|n| n.into_syntax()),
            items: |n| cast::<RParameterList>(n).iter().map(|e| e.ok().map(|e| e.into_syntax())).collect(),
            make: |items, separators| make::r_parameter_list(items.into_iter().map(|n| cast::<RParameter>(&n)).collect::<Vec<_>>(), separators).into_syntax(),
        },
    ]
}

pub fn bogus() -> Vec<BogusEntry> {
    vec![
        BogusEntry {
            name: "RBogus",
            can_cast: <RBogus as AstNode>::can_cast,
            in_set: |k| <RBogus as AstNode>::KIND_SET.matches(k),
            items: |n| cast::<RBogus>(n).items().collect(),
            make: |slots| make::r_bogus(slots).into_syntax(),
        },
        BogusEntry {
            name: "RBogusExpression",
            can_cast: <RBogusExpression as AstNode>::can_cast,
            in_set: |k| <RBogusExpression as AstNode>::KIND_SET.matches(k),
            items: |n| cast::<RBogusExpression>(n).items().collect(),
            make: |slots| make::r_bogus_expression(slots).into_syntax(),
        },
        BogusEntry {
            name: "RBogusValue",
            can_cast: <RBogusValue as AstNode>::can_cast,
            in_set: |k| <RBogusValue as AstNode>::KIND_SET.matches(k),
            items: |n| cast::<RBogusValue>(n).items().collect(),
            make: |slots| make::r_bogus_value(slots).into_syntax(),
        },
    ]
}

pub fn macros() -> Vec<(&'static str, K)> {
    vec![
        (";", T![;]),
        (",", T![,]),
        ("{", T!['{']),
        ("}", T!['}']),
        ("[", T!['[']),
        ("]", T![']']),
        ("[[", T!["[["]),
        ("]]", T!["]]"]),
        ("(", T!['(']),
        (")", T![')']),
        ("?", T![?]),
        ("~", T![~]),
        ("<-", T![<-]),
        ("<<-", T![<<-]),
        (":=", T![:=]),
        ("->", T![->]),
        ("->>", T![->>]),
        ("=", T![=]),
        ("|", T![|]),
        ("&", T![&]),
        ("||", T![||]),
        ("&&", T![&&]),
        ("<", T![<]),
        ("<=", T![<=]),
        (">", T![>]),
        (">=", T![>=]),
        ("==", T![==]),
        ("!=", T![!=]),
        ("+", T![+]),
        ("-", T![-]),
        ("*", T![*]),
        ("/", T![/]),
        ("^", T![^]),
        ("**", T![**]),
        ("|>", T![|>]),
        (":", T![:]),
        ("::", T![::]),
        (":::", T![:::]),
        ("$", T![$]),
        ("@", T![@]),
        ("!", T![!]),
        ("...", T![...]),
        ("\\", T!["\\"]),
        ("function", T![function]),
        ("for", T![for]),
        ("in", T![in]),
        ("while", T![while]),
        ("repeat", T![repeat]),
        ("if", T![if]),
        ("else", T![else]),
        ("next", T![next]),
        ("break", T![break]),
        ("true", T![true]),
        ("false", T![false]),
        ("null", T![null]),
        ("inf", T![inf]),
        ("nan", T![nan]),
        ("na_logical", T![na_logical]),
        ("na_integer", T![na_integer]),
        ("na_double", T![na_double]),
        ("na_complex", T![na_complex]),
        ("na_character", T![na_character]),
        ("ident", T![ident]),
        ("EOF", T![EOF]),
        ("UNICODE_BOM", T![UNICODE_BOM]),
    ]
}
