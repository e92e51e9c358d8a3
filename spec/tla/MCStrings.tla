----------------------------- MODULE MCStrings -----------------------------
EXTENDS Strings
StartEmpty == <<>>
StartEscape == <<"n", "BS">>
StartHex == <<"n", "BS", "x">>
StartLow == <<"BS", "u", "LB", "d0", "d0">>
StartUnicode == <<"BS", "u", "LB">>
StartSurrogate == <<"BS", "u", "LB", "D">>
StartBlank == <<"BS", "SP">>
=============================================================================
