//! The stream of announcements that a visitor receives, each as [name, text, start, end, flag].

use ratel::ast::*;
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel_visitor::{Visitor, ParentNode, ScopeKind};
use dump::{self, text};

pub struct Recorder {
    pub out: String,
    pub count: usize,
}

impl Recorder {
    pub fn new() -> Self {
        Recorder { out: String::new(), count: 0 }
    }

    fn ev(&mut self, name: &str, t: &str, s: u32, e: u32, same: bool) {
        if self.count > 0 {
            self.out.push(',');
        }
        self.count += 1;
        self.out.push_str("{\"v\":\"");
        self.out.push_str(name);
        self.out.push_str("\",\"t\":");
        text(&mut self.out, t);
        self.out.push_str(&format!(",\"s\":{},\"e\":{},\"same\":{}}}", s, e, same));
    }

    fn x<'ast>(&mut self, name: &str, item: Expression<'ast>, node: &ExpressionNode<'ast>) {
        let same = item == node.item;
        self.ev(name, dump::expression_text(&item), node.start, node.end, same);
    }

    fn s<'ast>(&mut self, name: &str, t: &str, same: bool, node: &StatementNode<'ast>) {
        self.ev(name, t, node.start, node.end, same);
    }
}

macro_rules! expressions {
    ($($f:ident $ty:ty => $name:expr;)*) => ($(
        fn $f(&mut self, item: &$ty, node: &'ast ExpressionNode<'ast>) {
            self.x($name, Expression::from(*item), node);
        }
    )*)
}

// the item is the one inside the node itself
macro_rules! statements {
    ($($f:ident $ty:ty, $v:ident => $name:expr;)*) => ($(
        fn $f(&mut self, item: &$ty, node: &'ast StatementNode<'ast>) {
            let same = match node.item {
                Statement::$v(ref x) => x as *const _ as usize == item as *const _ as usize || same_debug(x, item),
                _ => false,
            };
            self.s($name, "", same, node);
        }
    )*)
}

// items whose lifetime is not that of the node can only be compared by what they look like
fn same_debug<A: ::std::fmt::Debug, B: ::std::fmt::Debug>(a: &A, b: &B) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}

impl<'ast> Visitor<'ast> for Recorder {
    fn push_parent(&mut self, node: ParentNode<'ast>) {
        match node {
            ParentNode::Statement(n) => self.ev("push", dump::statement_kind(&n.item), n.start, n.end, true),
            ParentNode::Expression(n) => self.ev("push", dump::expression_kind(&n.item), n.start, n.end, true),
        }
    }
    fn pop_parent(&mut self) {
        self.ev("pop", "", 0, 0, true);
    }
    fn on_statement_list(&mut self, body: StatementList<'ast>) {
        // the number of statements and where the first one starts
        let n = body.iter().count() as u32;
        let s = body.iter().next().map_or(0, |st| st.start);
        self.ev("list", "", s, n, true);
    }
    fn on_enter_scope(&mut self, kind: ScopeKind) {
        let k = match kind { ScopeKind::Function => "function", ScopeKind::Block => "block" };
        self.ev("enter", k, 0, 0, true);
    }
    fn on_leave_scope(&mut self) {
        self.ev("leave", "", 0, 0, true);
    }
    fn on_reference_use(&mut self, ident: &Identifier<'ast>) {
        self.ev("use", ident, 0, 0, true);
    }
    fn on_reference_declaration(&mut self, ident: &Identifier<'ast>) {
        self.ev("decl", ident, 0, 0, true);
    }

    fn on_this_expression(&mut self, node: &'ast ExpressionNode<'ast>) {
        let item = Expression::This(ThisExpression);
        self.x("This", item, node);
    }
    fn on_meta_property(&mut self, item: &MetaPropertyExpression<'ast>, node: &ExpressionNode<'ast>) {
        self.x("Meta", Expression::from(*item), node);
    }
    expressions! {
        on_identifier_expression Identifier<'ast> => "Ident";
        on_literal_expression Literal<'ast> => "Literal";
        on_sequence_expression SequenceExpression<'ast> => "Sequence";
        on_array_expression ArrayExpression<'ast> => "Array";
        on_member_expression MemberExpression<'ast> => "Member";
        on_computed_member_expression ComputedMemberExpression<'ast> => "CMember";
        on_call_expression CallExpression<'ast> => "Call";
        on_binary_expression BinaryExpression<'ast> => "Binary";
        on_prefix_expression PrefixExpression<'ast> => "Prefix";
        on_postfix_expression PostfixExpression<'ast> => "Postfix";
        on_conditional_expression ConditionalExpression<'ast> => "Conditional";
        on_template_literal TemplateLiteral<'ast> => "Template";
        on_tagged_template_expression TaggedTemplateExpression<'ast> => "Tagged";
        on_spread_expression SpreadExpression<'ast> => "Spread";
        on_arrow_expression ArrowExpression<'ast> => "Arrow";
        on_object_expression ObjectExpression<'ast> => "Object";
        on_function_expression FunctionExpression<'ast> => "FunctionExpr";
        on_class_expression ClassExpression<'ast> => "ClassExpr";
    }
    fn on_expression_statement(&mut self, item: &'ast ExpressionNode<'ast>, node: &'ast StatementNode<'ast>) {
        let same = match node.item {
            Statement::Expression(ref x) => x == item && x.start == item.start && x.end == item.end,
            _ => false,
        };
        self.s("Expression", "", same, node);
    }
    statements! {
        on_declaration_statement DeclarationStatement, Declaration => "Declaration";
        on_return_statement ReturnStatement, Return => "Return";
        on_break_statement BreakStatement, Break => "Break";
        on_continue_statement ContinueStatement, Continue => "Continue";
        on_throw_statement ThrowStatement, Throw => "Throw";
        on_if_statement IfStatement, If => "If";
        on_while_statement WhileStatement, While => "While";
        on_do_statement DoStatement, Do => "Do";
        on_for_statement ForStatement, For => "For";
        on_for_in_statement ForInStatement, ForIn => "ForIn";
        on_for_of_statement ForOfStatement, ForOf => "ForOf";
        on_try_statement TryStatement, Try => "Try";
        on_block_statement BlockStatement<'ast>, Block => "Block";
        on_labeled_statement LabeledStatement, Labeled => "Labeled";
        on_switch_statement SwitchStatement, Switch => "Switch";
        on_function_statement FunctionStatement<'ast>, Function => "FunctionDecl";
        on_class_statement ClassStatement<'ast>, Class => "ClassDecl";
        on_import_declaration_statement ImportDeclaration<'ast>, Import => "Import";
    }
}
