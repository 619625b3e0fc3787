//! Syntax trees as JSON in the form of the specification's module Tree: every node is
//! {"k": kind, "t": text, "s": start, "e": end, "c": children}.

use ratel::ast::*;
use ratel::ast::expression::*;
use ratel::ast::statement::*;

pub struct Out {
    pub s: String,
    /// leave positions out (every one is written as 0)
    pub strip: bool,
}

/// A JSON string with one character per byte of the text.
pub fn text(out: &mut String, s: &str) {
    out.push('"');
    for &b in s.as_bytes() {
        match b {
            b'"' => out.push_str("\\\""),
            b'\\' => out.push_str("\\\\"),
            0..=31 | 127 => out.push_str(&format!("\\u{:04x}", b)),
            _ => out.push(b as char),
        }
    }
    out.push('"');
}

pub fn quoted(s: &str) -> String {
    let mut out = String::new();
    text(&mut out, s);
    out
}

impl Out {
    pub fn new(strip: bool) -> Self {
        Out { s: String::new(), strip }
    }

    fn open(&mut self, k: &str, t: &str, s: u32, e: u32) {
        let (s, e) = if self.strip { (0, 0) } else { (s, e) };
        self.s.push_str("{\"k\":\"");
        self.s.push_str(k);
        self.s.push_str("\",\"t\":");
        text(&mut self.s, t);
        self.s.push_str(&format!(",\"s\":{},\"e\":{},\"c\":[", s, e));
    }

    fn close(&mut self) {
        if self.s.ends_with(',') {
            self.s.pop();
        }
        self.s.push_str("]}");
    }

    fn sep(&mut self) {
        self.s.push(',');
    }

    fn leaf(&mut self, k: &str, t: &str, s: u32, e: u32) {
        self.open(k, t, s, e);
        self.close();
        self.sep();
    }

    fn none(&mut self) {
        self.leaf("None", "", 0, 0);
    }

    fn name<'a>(&mut self, n: &IdentifierNode<'a>) {
        self.leaf("Name", n.item, n.start, n.end);
    }

    pub fn module<'a>(&mut self, body: StatementList<'a>) {
        self.open("Module", "", 0, 0);
        self.statements(body);
        self.close();
    }

    fn statements<'a>(&mut self, body: StatementList<'a>) {
        for st in body.iter() {
            self.statement(st);
        }
    }

    fn block<'a>(&mut self, b: &BlockNode<'a, Statement<'a>>) {
        self.open("Block", "", b.start, b.end);
        self.statements(b.body);
        self.close();
        self.sep();
    }

    fn opt_block<'a>(&mut self, b: &Option<BlockNode<'a, Statement<'a>>>) {
        match *b {
            Some(ref b) => self.block(b),
            None => self.none(),
        }
    }

    fn opt_expr<'a>(&mut self, e: &Option<ExpressionNode<'a>>) {
        match *e {
            Some(ref e) => self.expr(e),
            None => self.none(),
        }
    }

    fn declarators(&mut self, d: &DeclarationStatement) {
        for x in d.declarators.iter() {
            self.open("Declarator", "", x.start, x.end);
            self.pattern(&x.id);
            self.opt_expr(&x.init);
            self.close();
            self.sep();
        }
    }

    fn for_init<'a>(&mut self, n: &Node<'a, ForInit<'a>>) {
        match n.item {
            ForInit::Declaration(ref d) => {
                self.open("DeclInit", decl_kind(d.kind), n.start, n.end);
                self.declarators(d);
            }
            ForInit::Expression(ref e) => {
                self.open("ExprInit", "", n.start, n.end);
                self.expr(e);
            }
        }
        self.close();
        self.sep();
    }

    pub fn statement<'a>(&mut self, n: &StatementNode<'a>) {
        let (s, e) = (n.start, n.end);
        self.open(statement_kind(&n.item), &statement_text(&n.item), s, e);
        match n.item {
            Statement::Empty | Statement::Debugger => {}
            Statement::Expression(ref x) => self.expr(x),
            Statement::Declaration(ref d) => self.declarators(d),
            Statement::Return(ref x) => self.opt_expr(&x.value),
            Statement::Break(ref x) => self.opt_name(&x.label),
            Statement::Continue(ref x) => self.opt_name(&x.label),
            Statement::Throw(ref x) => self.expr(&x.value),
            Statement::If(ref x) => {
                self.expr(&x.test);
                self.statement(&x.consequent);
                match x.alternate {
                    Some(ref a) => self.statement(a),
                    None => self.none(),
                }
            }
            Statement::While(ref x) => {
                self.expr(&x.test);
                self.statement(&x.body);
            }
            Statement::Do(ref x) => {
                self.statement(&x.body);
                self.expr(&x.test);
            }
            Statement::For(ref x) => {
                match x.init {
                    Some(ref i) => self.for_init(i),
                    None => self.none(),
                }
                self.opt_expr(&x.test);
                self.opt_expr(&x.update);
                self.statement(&x.body);
            }
            Statement::ForIn(ref x) => {
                self.for_init(&x.left);
                self.expr(&x.right);
                self.statement(&x.body);
            }
            Statement::ForOf(ref x) => {
                self.for_init(&x.left);
                self.expr(&x.right);
                self.statement(&x.body);
            }
            Statement::Try(ref x) => {
                self.block(&x.block);
                match x.handler {
                    Some(ref h) => {
                        self.open("Catch", "", h.start, h.end);
                        self.pattern(&h.param);
                        self.block(&h.body);
                        self.close();
                        self.sep();
                    }
                    None => self.none(),
                }
                self.opt_block(&x.finalizer);
            }
            Statement::Block(ref b) => self.statements(b.body),
            Statement::Labeled(ref x) => self.statement(&x.body),
            Statement::Function(ref f) => {
                self.name(&f.name.0);
                self.function(&f.params, &f.body);
            }
            Statement::Class(ref c) => {
                self.name(&c.name.0);
                self.class(&c.extends, &c.body);
            }
            Statement::Switch(ref x) => {
                self.expr(&x.discriminant);
                self.open("Block", "", x.cases.start, x.cases.end);
                for c in x.cases.body.iter() {
                    self.open("Case", "", c.start, c.end);
                    self.opt_expr(&c.test);
                    self.open("List", "", 0, 0);
                    self.statements(c.consequent);
                    self.close();
                    self.sep();
                    self.close();
                    self.sep();
                }
                self.close();
                self.sep();
            }
            Statement::Import(ref x) => {
                for sp in x.specifiers.iter() {
                    match sp.item {
                        ForImportSpecifier::ImportSpecifier(ref i) => {
                            self.open("ImportSpecifier", "", sp.start, sp.end);
                            self.name(&i.imported);
                            self.name(&i.local);
                        }
                        ForImportSpecifier::ImportDefaultSpecifier(ref i) => {
                            self.open("ImportDefault", "", sp.start, sp.end);
                            self.name(&i.local);
                        }
                        ForImportSpecifier::ImportNamespaceSpecifier(ref i) => {
                            self.open("ImportNs", "", sp.start, sp.end);
                            self.name(&i.local);
                        }
                    }
                    self.close();
                    self.sep();
                }
            }
        }
        self.close();
        self.sep();
    }

    fn opt_name<'a>(&mut self, n: &Option<IdentifierNode<'a>>) {
        match *n {
            Some(ref n) => self.name(n),
            None => self.none(),
        }
    }

    fn function<'a>(&mut self, params: &PatternList<'a>, body: &BlockNode<'a, Statement<'a>>) {
        self.patterns(params);
        self.block(body);
    }

    fn patterns<'a>(&mut self, ps: &PatternList<'a>) {
        self.open("List", "", 0, 0);
        for p in ps.iter() {
            self.pattern(p);
        }
        self.close();
        self.sep();
    }

    fn class<'a>(&mut self, extends: &Option<ExpressionNode<'a>>, body: &BlockNode<'a, ClassMember<'a>>) {
        self.opt_expr(extends);
        self.open("Block", "", body.start, body.end);
        for m in body.body.iter() {
            match m.item {
                ClassMember::Error => self.leaf("ErrorM", "", m.start, m.end),
                ClassMember::Method { is_static, ref key, kind, ref value } => {
                    let mut t = String::new();
                    if is_static {
                        t.push_str("static");
                    }
                    let kind = match kind {
                        MethodKind::Constructor => "constructor",
                        MethodKind::Method => "",
                        MethodKind::Get => "get",
                        MethodKind::Set => "set",
                    };
                    if is_static && kind != "" {
                        t.push(' ');
                    }
                    t.push_str(kind);
                    self.open("MethodM", &t, m.start, m.end);
                    self.key(key);
                    self.method(value);
                    self.close();
                    self.sep();
                }
                ClassMember::Literal { is_static, ref key, ref value } => {
                    self.open("FieldM", if is_static { "static" } else { "" }, m.start, m.end);
                    self.key(key);
                    self.expr(value);
                    self.close();
                    self.sep();
                }
            }
        }
        self.close();
        self.sep();
    }

    fn method<'a>(&mut self, f: &Node<'a, Function<'a, EmptyName>>) {
        self.open("Function", if f.generator { "*" } else { "" }, f.start, f.end);
        self.none();
        self.function(&f.params, &f.body);
        self.close();
        self.sep();
    }

    fn key<'a>(&mut self, k: &Node<'a, PropertyKey<'a>>) {
        match k.item {
            PropertyKey::Literal(t) => self.leaf("Key", t, k.start, k.end),
            PropertyKey::Binary(t) => self.leaf("BinKey", t, k.start, k.end),
            PropertyKey::Computed(ref x) => {
                self.open("Computed", "", k.start, k.end);
                self.expr(x);
                self.close();
                self.sep();
            }
        }
    }

    fn properties<'a>(&mut self, ps: &NodeList<'a, Property<'a>>) {
        for p in ps.iter() {
            match p.item {
                Property::Shorthand(t) => self.leaf("Shorthand", t, p.start, p.end),
                Property::Literal { ref key, ref value } => {
                    self.open("Prop", "", p.start, p.end);
                    self.key(key);
                    self.expr(value);
                    self.close();
                    self.sep();
                }
                Property::Method { ref key, ref value } => {
                    self.open("Method", "", p.start, p.end);
                    self.key(key);
                    self.method(value);
                    self.close();
                    self.sep();
                }
                Property::Spread { ref argument } => {
                    self.open("SpreadProp", "", p.start, p.end);
                    self.expr(argument);
                    self.close();
                    self.sep();
                }
            }
        }
    }

    pub fn pattern<'a>(&mut self, p: &Node<'a, Pattern<'a>>) {
        let (s, e) = (p.start, p.end);
        match p.item {
            Pattern::Void => self.leaf("PVoid", "", s, e),
            Pattern::Identifier(t) => self.leaf("PIdent", t, s, e),
            Pattern::ObjectPattern { ref properties } => {
                self.open("PObject", "", s, e);
                self.properties(properties);
                self.close();
                self.sep();
            }
            Pattern::ArrayPattern { ref elements } => {
                self.open("PArray", "", s, e);
                for x in elements.iter() {
                    self.pattern(x);
                }
                self.close();
                self.sep();
            }
            Pattern::RestElement { ref argument } => {
                self.open("Rest", "", s, e);
                self.name(argument);
                self.close();
                self.sep();
            }
            Pattern::AssignmentPattern { ref left, ref right } => {
                self.open("PAssign", "", s, e);
                self.pattern(left);
                self.expr(right);
                self.close();
                self.sep();
            }
        }
    }

    fn exprs<'a>(&mut self, xs: &ExpressionList<'a>) {
        for x in xs.iter() {
            self.expr(x);
        }
    }

    fn template(&mut self, t: &TemplateLiteral) {
        self.open("List", "", 0, 0);
        for q in t.quasis.iter() {
            self.leaf("Quasi", q.item, q.start, q.end);
        }
        self.close();
        self.sep();
        self.open("List", "", 0, 0);
        self.exprs(&t.expressions);
        self.close();
        self.sep();
    }

    pub fn expr<'a>(&mut self, n: &ExpressionNode<'a>) {
        let (s, e) = (n.start, n.end);
        self.open(expression_kind(&n.item), expression_text(&n.item), s, e);
        match n.item {
            Expression::Void
            | Expression::This(_)
            | Expression::Identifier(_)
            | Expression::Literal(_) => {}
            Expression::Sequence(ref x) => self.exprs(&x.body),
            Expression::Array(ref x) => self.exprs(&x.body),
            Expression::Member(ref x) => {
                self.expr(&x.object);
                self.name(&x.property);
            }
            Expression::ComputedMember(ref x) => {
                self.expr(&x.object);
                self.expr(&x.property);
            }
            Expression::MetaProperty(ref x) => {
                self.name(&x.meta);
                self.name(&x.property);
            }
            Expression::Call(ref x) => {
                self.expr(&x.callee);
                self.exprs(&x.arguments);
            }
            Expression::Binary(ref x) => {
                self.expr(&x.left);
                self.expr(&x.right);
            }
            Expression::Prefix(ref x) => self.expr(&x.operand),
            Expression::Postfix(ref x) => self.expr(&x.operand),
            Expression::Conditional(ref x) => {
                self.expr(&x.test);
                self.expr(&x.consequent);
                self.expr(&x.alternate);
            }
            Expression::Template(ref x) => self.template(x),
            Expression::TaggedTemplate(ref x) => {
                self.expr(&x.tag);
                self.open("Template", "", x.quasi.start, x.quasi.end);
                self.template(&x.quasi);
                self.close();
                self.sep();
            }
            Expression::Spread(ref x) => self.expr(&x.argument),
            Expression::Arrow(ref x) => {
                self.patterns(&x.params);
                match x.body {
                    ArrowBody::Expression(ref b) => self.expr(b),
                    ArrowBody::Block(ref b) => self.block(b),
                }
            }
            Expression::Object(ref x) => self.properties(&x.body),
            Expression::Function(ref f) => {
                self.opt_name(&f.name.0);
                self.function(&f.params, &f.body);
            }
            Expression::Class(ref c) => {
                self.opt_name(&c.name.0);
                self.class(&c.extends, &c.body);
            }
        }
        self.close();
        self.sep();
    }
}

pub fn decl_kind(k: DeclarationKind) -> &'static str {
    match k {
        DeclarationKind::Var => "var",
        DeclarationKind::Let => "let",
        DeclarationKind::Const => "const",
    }
}

pub fn statement_kind(s: &Statement) -> &'static str {
    match *s {
        Statement::Empty => "Empty",
        Statement::Debugger => "Debugger",
        Statement::Expression(_) => "Expression",
        Statement::Declaration(_) => "Declaration",
        Statement::Return(_) => "Return",
        Statement::Break(_) => "Break",
        Statement::Continue(_) => "Continue",
        Statement::Throw(_) => "Throw",
        Statement::If(_) => "If",
        Statement::While(_) => "While",
        Statement::Do(_) => "Do",
        Statement::For(_) => "For",
        Statement::ForIn(_) => "ForIn",
        Statement::ForOf(_) => "ForOf",
        Statement::Try(_) => "Try",
        Statement::Block(_) => "Block",
        Statement::Labeled(_) => "Labeled",
        Statement::Function(_) => "FunctionDecl",
        Statement::Class(_) => "ClassDecl",
        Statement::Switch(_) => "Switch",
        Statement::Import(_) => "Import",
    }
}

fn statement_text(s: &Statement) -> String {
    match *s {
        Statement::Declaration(ref d) => decl_kind(d.kind).into(),
        Statement::Labeled(ref l) => l.label.into(),
        Statement::Function(ref f) => (if f.generator { "*" } else { "" }).into(),
        Statement::Import(ref i) => i.source.into(),
        _ => String::new(),
    }
}

pub fn expression_kind(x: &Expression) -> &'static str {
    match *x {
        Expression::Void => "Void",
        Expression::This(_) => "This",
        Expression::Identifier(_) => "Ident",
        Expression::Literal(ref l) => match *l {
            Literal::Undefined => "Undefined",
            Literal::Null => "Null",
            Literal::True => "True",
            Literal::False => "False",
            Literal::Number(_) => "Number",
            Literal::Binary(_) => "BinaryNum",
            Literal::String(_) => "String",
            Literal::RegEx(_) => "RegEx",
        },
        Expression::Sequence(_) => "Sequence",
        Expression::Array(_) => "Array",
        Expression::Member(_) => "Member",
        Expression::ComputedMember(_) => "CMember",
        Expression::MetaProperty(_) => "Meta",
        Expression::Call(_) => "Call",
        Expression::Binary(_) => "Binary",
        Expression::Prefix(_) => "Prefix",
        Expression::Postfix(_) => "Postfix",
        Expression::Conditional(_) => "Conditional",
        Expression::Template(_) => "Template",
        Expression::TaggedTemplate(_) => "Tagged",
        Expression::Spread(_) => "Spread",
        Expression::Arrow(ref a) => match a.body {
            ArrowBody::Expression(_) => "ArrowE",
            ArrowBody::Block(_) => "ArrowB",
        },
        Expression::Object(_) => "Object",
        Expression::Function(_) => "FunctionExpr",
        Expression::Class(_) => "ClassExpr",
    }
}

pub fn expression_text<'a>(x: &Expression<'a>) -> &'a str {
    match *x {
        Expression::Identifier(t) => t,
        Expression::Literal(ref l) => match *l {
            Literal::Number(t) | Literal::Binary(t) | Literal::String(t) | Literal::RegEx(t) => t,
            _ => "",
        },
        Expression::Binary(ref b) => operator(b.operator),
        Expression::Prefix(ref b) => operator(b.operator),
        Expression::Postfix(ref b) => operator(b.operator),
        Expression::Function(ref f) => if f.generator { "*" } else { "" },
        _ => "",
    }
}

pub fn operator(o: OperatorKind) -> &'static str {
    use ratel::ast::OperatorKind::*;
    match o {
        FatArrow => "=>", New => "new", Increment => "++", Decrement => "--", LogicalNot => "!",
        BitwiseNot => "~", Typeof => "typeof", Void => "void", Delete => "delete",
        Multiplication => "*", Division => "/", Remainder => "%", Exponent => "**",
        Addition => "+", Subtraction => "-", BitShiftLeft => "<<", BitShiftRight => ">>",
        UBitShiftRight => ">>>", Lesser => "<", LesserEquals => "<=", Greater => ">",
        GreaterEquals => ">=", Instanceof => "instanceof", In => "in", StrictEquality => "===",
        StrictInequality => "!==", Equality => "==", Inequality => "!=", BitwiseAnd => "&",
        BitwiseXor => "^", BitwiseOr => "|", LogicalAnd => "&&", LogicalOr => "||",
        Conditional => "?", Assign => "=", AddAssign => "+=", SubtractAssign => "-=",
        ExponentAssign => "**=", MultiplyAssign => "*=", DivideAssign => "/=",
        RemainderAssign => "%=", BSLAssign => "<<=", BSRAssign => ">>=", UBSRAssign => ">>>=",
        BitAndAssign => "&=", BitXorAssign => "^=", BitOrAssign => "|=", Spread => "...",
    }
}
