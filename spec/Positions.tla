------------------------------ MODULE Positions ------------------------------
(* Where in a Rust file something can be written: each production makes one kind *)
(* of syntax (an item, a statement, an expression, a type, a pattern, a bound)   *)
(* around one hole of some kind.  Leaves are what is written in the last hole:   *)
(* those which say "yes" mention an item of the bindings, "no" mention something *)
(* else, "free" are not looked at (the contents of macro invocations).           *)
EXTENDS TLC
P(makes, hole, names) == {[n |-> n, makes |-> makes, hole |-> hole] : n \in names}
L(makes, says, names) == {[n |-> n, makes |-> makes, says |-> says] : n \in names}
Prods == TLCEval(UNION {
    P("item", "stmt", {"fn body", "async fn", "method body", "trait impl body", "trait body"}),
    P("item", "type", {"fn param", "fn return", "fn where", "const fn param", "method param", "method return",
        "impl const type", "trait impl param", "associated type", "impl self", "impl argument",
        "impl where", "trait param", "trait return", "trait const", "field", "tuple field", "enum field",
        "enum named field", "union field", "struct default", "const type", "static type", "type alias",
        "foreign fn"}),
    P("item", "pat", {"fn pattern"}),
    P("item", "bound", {"fn bound", "fn where bound", "impl bound", "supertrait", "associated bound", "struct bound"}),
    P("item", "item", {"module"}),
    P("item", "expr", {"impl const value", "discriminant", "const value", "static value"}),
    P("stmt", "expr", {"let init", "statement", "tail"}),
    P("stmt", "type", {"let type"}),
    P("stmt", "stmt", {"let else"}),
    P("stmt", "pat", {"let pattern"}),
    P("stmt", "item", {"local item"}),
    P("expr", "expr", {"argument", "callee", "array", "left", "right", "negated", "assigned", "assigned to", "added",
        "field of", "index", "indexed", "if", "else if", "if let", "while", "for", "match", "arm", "guard",
        "return", "break", "closure", "await", "try", "tuple", "range start", "range end", "repeat",
        "repeat length", "reference", "raw reference", "cast", "receiver", "method argument",
        "literal field", "literal rest"}),
    P("expr", "stmt", {"then", "else", "while body", "loop", "for body", "block", "labelled", "unsafe", "async",
        "const block"}),
    P("expr", "pat", {"if let pattern", "let chain", "while let", "for pattern", "arm pattern", "closure pattern"}),
    P("expr", "type", {"closure param", "closure return", "cast type", "method turbofish", "turbofish",
        "literal argument", "self type", "self type as", "path argument", "trait argument"}),
    P("type", "type", {"to ref", "to ptr", "array of", "slice of", "tuple of", "fn pointer", "fn pointer return",
        "generic", "second generic", "path generic", "parenthesised", "projection", "projection argument"}),
    P("type", "expr", {"array length", "const generic"}),
    P("type", "bound", {"impl", "dyn"}),
    P("pat", "pat", {"tuple pattern", "slice pattern", "reference pattern", "variant pattern", "field pattern",
        "either", "bound pattern"}),
    P("pat", "type", {"variant argument"}),
    P("bound", "type", {"bound argument", "Fn argument", "Fn return", "bound type", "higher bound"}),
    P("bound", "bound", {"bound bound"})})
Leaves == TLCEval(UNION {
    L("type", "yes", {"type", "type in namespace"}),
    L("expr", "yes", {"function", "call", "call in namespace", "literal"}),
    L("pat", "yes", {"pattern"}),
    L("type", "no", {"other module", "unqualified", "similar module"}),
    L("expr", "no", {"unqualified call", "similar call", "method", "string", "field named so", "label"}),
    L("pat", "no", {"binding", "other pattern"}),
    L("expr", "free", {"macro"}),
    L("type", "free", {"type macro"})})
=============================================================================
