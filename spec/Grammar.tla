------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The syntax of schema files, as a grammar over tokens, and which          *)
(* sequences of tokens belong to it.  Keywords and punctuation are tokens   *)
(* of their own name; the others are ID, DEC (a decimal number), LIT        *)
(* (another number or a truth value) and STR.  Anything else (a character   *)
(* outside the language, an unfinished string) is BAD.                      *)
(*                                                                          *)
(* The rules are those of the zserio language, except that the binary       *)
(* operators are not ranked: their order of precedence decides what an      *)
(* expression means but not whether it is one.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* "x?" at most one x, "x*" any number, "x+" at least one
Rules ==
 [ file      |-> {<<"compat?", "package", "import*", "directive*">>},
   compat    |-> {<<"zserio_compatibility_version", "(", "STR", ")", ";">>},
   package   |-> {<<"package", "name", ";">>},
   name      |-> {<<"ID", "dotid*">>},
   dotid     |-> {<<".", "ID">>},
   import    |-> {<<"import", "ID", ".", "iddot*", "ID", ";">>, <<"import", "ID", ".", "iddot*", "*", ";">>},
   iddot     |-> {<<"ID", ".">>},
   directive |-> {<<"const", "inst", "ID", "=", "expr", ";">>,
                  <<"rule_group", "ID", "{", "rule*", "}", ";">>,
                  <<"subtype", "type", "ID", ";">>,
                  <<"struct", "ID", "tparams?", "params?", "{", "field*", "function*", "}", ";">>,
                  <<"choice", "ID", "tparams?", "params", "on", "expr", "{", "cases*", "default?", "function*", "}", ";">>,
                  <<"union", "ID", "tparams?", "params?", "{", "ufield*", "function*", "}", ";">>,
                  <<"enum", "inst", "ID", "{", "item", "citem*", "comma?", "}", ";">>,
                  <<"bitmask", "inst", "ID", "{", "value", "cvalue*", "comma?", "}", ";">>,
                  <<"sql_table", "ID", "tparams?", "using?", "{", "sqlfield*", "sqlcons?", "sqlrow?", "}", ";">>,
                  <<"sql_database", "ID", "{", "dbfield+", "}", ";">>,
                  <<"service", "ID", "{", "method*", "}", ";">>,
                  <<"pubsub", "ID", "{", "message*", "}", ";">>,
                  <<"instantiate", "type", "ID", ";">>},
   rule      |-> {<<"rule", "expr", ";">>},
   field     |-> {<<"align?", "offset?", "extend?", "optional?", "typeid", "init?", "if?", "constraint?", ";">>},
   align     |-> {<<"align", "(", "expr", ")", ":">>},
   offset    |-> {<<"expr", ":">>},
   extend    |-> {<<"extend">>},
   optional  |-> {<<"optional">>},
   typeid    |-> {<<"packed?", "implicit?", "inst", "ID", "range?">>},
   packed    |-> {<<"packed">>},
   implicit  |-> {<<"implicit">>},
   range     |-> {<<"[", "expr?", "]">>},
   init      |-> {<<"=", "expr">>},
   if        |-> {<<"if", "expr">>},
   constraint |-> {<<":", "expr">>},
   cases     |-> {<<"case+", "cfield?", ";">>},
   case      |-> {<<"case", "expr", ":">>},
   default   |-> {<<"default", ":", "cfield?", ";">>},
   cfield    |-> {<<"typeid", "constraint?">>},
   ufield    |-> {<<"cfield", ";">>},
   item      |-> {<<"mark?", "ID", "init?">>},
   mark      |-> {<<"@deprecated">>, <<"@removed">>},
   citem     |-> {<<",", "item">>},
   comma     |-> {<<",">>},
   value     |-> {<<"ID", "init?">>},
   cvalue    |-> {<<",", "value">>},
   using     |-> {<<"using", "ID">>},
   sqlfield  |-> {<<"virtual?", "inst", "ID", "sqlc?", ";">>},
   virtual   |-> {<<"sql_virtual">>},
   sqlc      |-> {<<"sql", "expr">>},
   sqlcons   |-> {<<"sqlc", ";">>},
   sqlrow    |-> {<<"sql_without_rowid", ";">>},
   dbfield   |-> {<<"inst", "ID", ";">>},
   method    |-> {<<"type", "ID", "(", "type", ")", ";">>},
   message   |-> {<<"way?", "topic", "(", "expr", ")", "type", "ID", ";">>},
   way       |-> {<<"publish">>, <<"subscribe">>},
   function  |-> {<<"function", "type", "ID", "(", ")", "{", "return", "expr", ";", "}">>},
   params    |-> {<<"(", "param", "cparam*", ")">>},
   param     |-> {<<"type", "ID">>},
   cparam    |-> {<<",", "param">>},
   tparams   |-> {<<"<", "ID", "cid*", ">">>},
   cid       |-> {<<",", "ID">>},
   targs     |-> {<<"<", "type", "ctype*", ">">>},
   ctype     |-> {<<",", "type">>},
   type      |-> {<<"builtin">>, <<"name", "targs?">>},
   inst      |-> {<<"type", "args?">>, <<"type", "<", "expr", ">">>},
   args      |-> {<<"(", "arg", "carg*", ")">>},
   arg       |-> {<<"expr">>, <<"explicit", "ID">>},
   carg      |-> {<<",", "arg">>},
   builtin   |-> {<<t>> : t \in {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
                                 "varint", "varint16", "varint32", "varint64", "varsize",
                                 "varuint", "varuint16", "varuint32", "varuint64",
                                 "bool", "string", "float16", "float32", "float64", "extern", "bytes", "bit", "int"}}
                 \cup {<<"bit", ":", "DEC">>, <<"int", ":", "DEC">>},
   expr      |-> {<<"operand", "rest?">>},
   rest      |-> {<<"binary", "expr">>, <<"?", "expr", ":", "expr">>},
   binary    |-> {<<t>> : t \in {"*", "/", "%", "+", "-", "<<", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"}} \cup {<<">", ">">>},
   operand   |-> {<<"+", "operand">>, <<"-", "operand">>, <<"!", "operand">>, <<"~", "operand">>, <<"primary", "postfix*">>},
   postfix   |-> {<<"(", ")">>, <<"[", "expr", "]">>, <<".", "ID">>},
   primary   |-> {<<"(", "expr", ")">>, <<"isset", "(", "expr", ",", "expr", ")">>, <<"lengthof", "(", "expr", ")">>,
                  <<"valueof", "(", "expr", ")">>, <<"numbits", "(", "expr", ")">>,
                  <<"DEC">>, <<"LIT">>, <<"STR">>, <<"ID">>, <<"@index">>} ]

\* the keywords come before the rules: the rule of that name is meant inside of rules only
Keywords == {"package", "import", "rule", "align", "extend", "optional", "packed", "implicit", "if", "case", "default", "function", "using"}
Quantified(q) == [x \in {n \o q : n \in DOMAIN Rules} |-> CHOOSE n \in DOMAIN Rules : n \o q = x]
Maybe == Quantified("?")
Any == Quantified("*")
Some == Quantified("+")

-----------------------------------------------------------------------------
\* Where in the sequence of tokens t something may end that starts at one of the positions S

Token(t, c, S) == {i + 1 : i \in {j \in S : j <= Len(t) /\ t[j] = c}}

RECURSIVE Rule(_, _, _), Body(_, _, _, _), Repeat(_, _, _, _)
\* symbol x of the body of rule r, as its k-th symbol
Symbol(t, r, b, k, S) ==
    LET x == b[k]
    IN IF S = {} THEN {}
       ELSE IF x \in DOMAIN Maybe THEN S \cup Rule(t, Maybe[x], S)
       ELSE IF x \in DOMAIN Any THEN Repeat(t, Any[x], S, S)
       ELSE IF x \in DOMAIN Some THEN LET e == Rule(t, Some[x], S) IN Repeat(t, Some[x], e, e)
       \* a rule that starts with the keyword it is named after, or a keyword of a directive
       ELSE IF x \in DOMAIN Rules /\ ~(x \in Keywords /\ k = 1 /\ r # "file") THEN Rule(t, x, S)
       ELSE Token(t, x, S)
Body(t, r, b, S) ==
    LET RECURSIVE From(_, _)
        From(k, X) == IF k > Len(b) \/ X = {} THEN X ELSE From(k + 1, Symbol(t, r, b, k, X))
    IN From(1, S)
Rule(t, r, S) == IF S = {} THEN {} ELSE UNION {Body(t, r, b, S) : b \in Rules[r]}
Repeat(t, r, new, all) == IF new = {} THEN all
                          ELSE LET e == Rule(t, r, new) \ all IN Repeat(t, r, e, all \cup e)

\* whether a sequence of tokens is a schema file
Sentence(t) == Len(t) + 1 \in Rule(t, "file", {1})
=============================================================================
