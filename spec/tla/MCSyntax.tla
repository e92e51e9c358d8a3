------------------------------ MODULE MCSyntax ------------------------------
\* Places in the grammar to start from.
EXTENDS Syntax
StartTop == <<>>
StartBlock == <<"object", "str", "{", "code", "{">>
StartSegments == <<"object", "str", "{", "code", "{", "}">>
StartExpr == <<"object", "str", "{", "code", "{", "let", "id", ":=">>
StartTyped == <<"object", "str", "{", "code", "{", "let", "id">>
StartAssign == <<"object", "str", "{", "code", "{", "id", ",">>
StartCases == <<"object", "str", "{", "code", "{", "switch", "id">>
StartFunction == <<"object", "str", "{", "code", "{", "function", "id">>
StartFor == <<"object", "str", "{", "code", "{", "for", "{">>
=============================================================================
