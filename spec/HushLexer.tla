------------------------------ MODULE HushLexer ------------------------------
(* The lexical structure: source bytes to tokens.  Outside of command blocks, *)
(* source is free form; inside, it's made of arguments, as in a shell.        *)
(* A token is [k |-> kind, v |-> payload, ln |-> line].  The kinds are        *)
(*   id (payload: its bytes), lit (a value), keywords and symbols (their      *)
(*   text); in commands: arg (parts, below), c> c>> c< c<< c? c| c; and }.    *)
(* Any lexical error makes the whole source invalid, so that only whether     *)
(* there is one matters.                                                      *)
EXTENDS HushStd, TLC

IsSpace(b) == b \in {9, 10, 12, 13, 32}
IsAlpha(b) == (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122) \/ b = 95
IsAlnum(b) == IsAlpha(b) \/ IsDigit(b)

Keywords == {"let", "if", "then", "else", "elseif", "end", "for", "in", "do", "while", "function",
             "return", "break", "self", "nil", "true", "false", "not", "and", "or"}
KeywordOf == [b \in {Txt(w) : w \in Keywords} |-> CHOOSE w \in Keywords : Txt(w) = b]

\* The first position from i on, where the bytes stop being in the class; and the lines between.
RECURSIVE WordEnd(_, _), DigitEnd(_, _), LineEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ IsAlnum(s[i]) THEN WordEnd(s, i + 1) ELSE i
DigitEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitEnd(s, i + 1) ELSE i
LineEnd(s, i) == IF i <= Len(s) /\ s[i] # 10 THEN LineEnd(s, i + 1) ELSE i
ByteAt(s, i) == IF i <= Len(s) THEN s[i] ELSE -1

Tok(k, v, ln) == [k |-> k, v |-> v, ln |-> ln]
Bad == [ok |-> FALSE]

\* Escapes: the byte that \b stands for, or -1.
Additional(b) == CASE b = 110 -> 10 [] b = 116 -> 9 [] b = 48 -> 0 [] b = 92 -> 92 [] OTHER -> -1
LitEscape(b) == IF b \in {34, 39} THEN b ELSE Additional(b)
WordEscape(b) == IF b \in {35, 39, 34, 62, 60, 63, 59, 36, 61} \/ IsSpace(b) THEN b ELSE Additional(b)
SingleEscape(b) == IF b = 39 THEN b ELSE Additional(b)
DoubleEscape(b) == IF b \in {34, 36} THEN b ELSE Additional(b)

\* The rest of a string literal from i: [ok, v, i, ln].
RECURSIVE StringLit(_, _, _, _)
StringLit(s, i, ln, acc) ==
  LET b == ByteAt(s, i)
      e == LitEscape(ByteAt(s, i + 1))
  IN CASE b = -1 -> Bad
       [] b = 34 -> [ok |-> TRUE, v |-> acc, i |-> i + 1, ln |-> ln]
       [] b = 92 -> IF e = -1 THEN Bad ELSE StringLit(s, i + 2, ln, Append(acc, e))
       [] OTHER -> StringLit(s, i + 1, IF b = 10 THEN ln + 1 ELSE ln, Append(acc, b))
\* A byte literal: exactly one byte, or escape.
ByteLit(s, i, ln) ==
  LET b == ByteAt(s, i)
      e == LitEscape(ByteAt(s, i + 1))
  IN CASE b \in {-1, 39} -> Bad
       [] b = 92 -> IF e = -1 \/ ByteAt(s, i + 2) # 39 THEN Bad
                    ELSE [ok |-> TRUE, v |-> e, i |-> i + 3, ln |-> ln]
       [] OTHER -> IF ByteAt(s, i + 1) # 39 THEN Bad
                   ELSE [ok |-> TRUE, v |-> b, i |-> i + 2, ln |-> IF b = 10 THEN ln + 1 ELSE ln]

\* A number: digits [. digits] [e digits], and what follows a dot or an exponent has to be a digit.
NumberLit(s, i) ==
  LET j == DigitEnd(s, i)
      dot == ByteAt(s, j) = 46
      k == IF dot THEN DigitEnd(s, j + 1) ELSE j
      exp == ByteAt(s, k) \in {69, 101}
      l == IF exp THEN DigitEnd(s, k + 1) ELSE k
      ip == SubSeq(s, i, j - 1)
      fp == IF dot THEN SubSeq(s, j + 1, k - 1) ELSE <<>>
      n == ParseInt(ip)
  IN IF (dot /\ k = j + 1 /\ ~exp) \/ (exp /\ l = k + 1) THEN Bad
     ELSE IF dot \/ exp
          THEN [ok |-> TRUE, i |-> l,
                v |-> Flt(FDecimal(1, ip \o fp, (IF exp THEN ParseExp(SubSeq(s, k + 1, l - 1)) ELSE 0) - Len(fp)))]
     ELSE IF n = <<>> THEN Bad
     ELSE [ok |-> TRUE, i |-> j, v |-> IntV(n[1])]

Word(b, ln) ==
  IF b \notin DOMAIN KeywordOf THEN Tok("id", b, ln)
  ELSE LET w == KeywordOf[b]
       IN CASE w = "nil" -> Tok("lit", Nil, ln)
            [] w = "true" -> Tok("lit", TrueV, ln)
            [] w = "false" -> Tok("lit", FalseV, ln)
            [] OTHER -> Tok(w, <<>>, ln)

\* Symbols of one and two bytes.
Symbol1 == [b \in {45, 42, 47, 37, 46, 63, 58, 44, 40, 41, 91, 93, 123, 62, 60, 43, 61} |->
  CASE b = 45 -> "-" [] b = 42 -> "*" [] b = 47 -> "/" [] b = 37 -> "%" [] b = 46 -> "." [] b = 63 -> "?"
    [] b = 58 -> ":" [] b = 44 -> "," [] b = 40 -> "(" [] b = 41 -> ")" [] b = 91 -> "[" [] b = 93 -> "]"
    [] b = 123 -> "{" [] b = 62 -> ">" [] b = 60 -> "<" [] b = 43 -> "+" [] b = 61 -> "="]
Symbol2 == [p \in {<<62, 61>>, <<60, 61>>, <<43, 43>>, <<61, 61>>, <<33, 61>>, <<64, 91>>, <<36, 123>>, <<38, 123>>} |->
  CASE p = <<62, 61>> -> ">=" [] p = <<60, 61>> -> "<=" [] p = <<43, 43>> -> "++" [] p = <<61, 61>> -> "=="
    [] p = <<33, 61>> -> "!=" [] p = <<64, 91>> -> "@[" [] p = <<36, 123>> -> "${" [] p = <<38, 123>> -> "&{"]

-----------------------------------------------------------------------------
(* Command blocks.  An argument is a sequence of parts:                       *)
(*   [t |-> "lit", v |-> bytes, q |-> quoted], [t |-> "var", v |-> name, q, ln], *)
(*   [t |-> "home"], [t |-> "star"], [t |-> "pct"], [t |-> "eq"] (an unquoted =). *)
Part(t, v, q, ln) == [t |-> t, v |-> v, q |-> q, ln |-> ln]
ArgWord(b) == b # -1 /\ b \notin {35, 39, 34, 62, 60, 63, 59, 36, 61, 125} /\ ~IsSpace(b)
\* $name or ${name}, from after the dollar: [ok, v, i].
Dollar(s, i) ==
  LET braces == ByteAt(s, i) = 123
      b == IF braces THEN i + 1 ELSE i
      e == WordEnd(s, b)
      name == SubSeq(s, b, e - 1)
  IN IF e = b \/ ~IsAlpha(s[b]) \/ name \in DOMAIN KeywordOf \/ (braces /\ ByteAt(s, e) # 125) THEN Bad
     ELSE [ok |-> TRUE, v |-> name, i |-> IF braces THEN e + 1 ELSE e]
\* Literal text up to a byte that doesn't belong to it: [ok, v, i, ln].
RECURSIVE Single(_, _, _, _), Plain(_, _, _, _), Double(_, _, _, _, _)
Single(s, i, ln, acc) ==
  LET b == ByteAt(s, i)
      e == SingleEscape(ByteAt(s, i + 1))
  IN CASE b = -1 -> Bad
       [] b = 39 -> [ok |-> TRUE, v |-> acc, i |-> i + 1, ln |-> ln]
       [] b = 92 -> IF e = -1 THEN Bad ELSE Single(s, i + 2, ln, Append(acc, e))
       [] OTHER -> Single(s, i + 1, IF b = 10 THEN ln + 1 ELSE ln, Append(acc, b))
Plain(s, i, ln, acc) ==     \* Unquoted; stops before patterns, too.
  LET b == ByteAt(s, i)
      e == WordEscape(ByteAt(s, i + 1))
  IN CASE b = 92 -> IF e = -1 THEN Bad ELSE Plain(s, i + 2, IF e = 10 /\ s[i + 1] = 10 THEN ln + 1 ELSE ln, Append(acc, e))
       [] ArgWord(b) /\ b \notin {91, 123, 42, 37} -> Plain(s, i + 1, ln, Append(acc, b))
       [] OTHER -> [ok |-> TRUE, v |-> acc, i |-> i, ln |-> ln]
\* Inside double quotes: parts; acc is the literal text so far.
Double(s, i, ln, acc, parts) ==
  LET b == ByteAt(s, i)
      e == DoubleEscape(ByteAt(s, i + 1))
      done == IF acc = <<>> THEN parts ELSE Append(parts, Part("lit", acc, TRUE, ln))
      d == Dollar(s, i + 1)
  IN CASE b = -1 -> Bad
       [] b = 34 -> [ok |-> TRUE, i |-> i + 1, ln |-> ln,
                     v |-> IF done = <<>> THEN <<Part("lit", <<>>, TRUE, ln)>> ELSE done]
       [] b = 92 -> IF e = -1 THEN Bad ELSE Double(s, i + 2, ln, Append(acc, e), parts)
       [] b = 36 -> IF ~d.ok THEN Bad ELSE Double(s, d.i, ln, <<>>, Append(done, Part("var", d.v, TRUE, ln)))
       [] OTHER -> Double(s, i + 1, IF b = 10 THEN ln + 1 ELSE ln, Append(acc, b), parts)
\* An argument: [ok, v (parts), i, ln].
RECURSIVE Arg(_, _, _, _)
Arg(s, i, ln, parts) ==
  LET b == ByteAt(s, i)
      q == Single(s, i + 1, ln, <<>>)
      dq == Double(s, i + 1, ln, <<>>, <<>>)
      d == Dollar(s, i + 1)
      p == Plain(s, i, ln, <<>>)
  IN CASE b = 36 -> IF ~d.ok THEN Bad ELSE Arg(s, d.i, ln, Append(parts, Part("var", d.v, FALSE, ln)))
       [] b = 39 -> IF ~q.ok THEN Bad ELSE Arg(s, q.i, q.ln, Append(parts, Part("lit", q.v, TRUE, ln)))
       [] b = 34 -> IF ~dq.ok THEN Bad ELSE Arg(s, dq.i, dq.ln, parts \o dq.v)
       [] b = 61 -> Arg(s, i + 1, ln, Append(parts, Part("eq", <<>>, FALSE, ln)))
       [] b = 42 -> Arg(s, i + 1, ln, Append(parts, Part("star", <<>>, FALSE, ln)))
       [] b = 37 -> Arg(s, i + 1, ln, Append(parts, Part("pct", <<>>, FALSE, ln)))
       [] b \in {91, 123} -> Bad
       [] b = 126 /\ parts = <<>> /\ ByteAt(s, i + 1) = 47 -> Arg(s, i + 2, ln, Append(parts, Part("home", <<>>, FALSE, ln)))
       [] ArgWord(b) -> IF ~p.ok THEN Bad ELSE Arg(s, p.i, p.ln, Append(parts, Part("lit", p.v, FALSE, ln)))
       [] OTHER -> [ok |-> TRUE, v |-> parts, i |-> i, ln |-> ln]

-----------------------------------------------------------------------------
(* The lexer reads one token, or one byte of space, at a time.  Its state is  *)
(* [fin |-> whether it has stopped, ok |-> whether there was no error,        *)
(*  cmd |-> whether it's in a command block, s, i, ln, v |-> the tokens].     *)
Failed(L) == [L EXCEPT !.fin = TRUE, !.ok = FALSE]
Skip(L, i, ln) == [L EXCEPT !.i = i, !.ln = ln]
Emit(L, i, ln, k, v) == [L EXCEPT !.i = i, !.ln = ln, !.v = Append(@, Tok(k, v, L.ln))]
LexCommand(L) ==
  LET s == L.s
      i == L.i
      ln == L.ln
      b == ByteAt(s, i)
      b2 == ByteAt(s, i + 1)
      a == Arg(s, i, ln, <<>>)
  IN CASE b = -1 -> Failed(L)
       [] IsSpace(b) -> Skip(L, i + 1, IF b = 10 THEN ln + 1 ELSE ln)
       [] b = 35 -> Skip(L, LineEnd(s, i), ln)
       [] b = 125 -> [Emit(L, i + 1, ln, "}", <<>>) EXCEPT !.cmd = FALSE]
       [] b = 63 -> Emit(L, i + 1, ln, "c?", <<>>)
       [] b = 124 -> Emit(L, i + 1, ln, "c|", <<>>)
       [] b = 59 -> Emit(L, i + 1, ln, "c;", <<>>)
       [] b = 62 -> IF b2 = 62 THEN Emit(L, i + 2, ln, "c>>", <<>>) ELSE Emit(L, i + 1, ln, "c>", <<>>)
       [] b = 60 -> IF b2 = 60 THEN Emit(L, i + 2, ln, "c<<", <<>>) ELSE Emit(L, i + 1, ln, "c<", <<>>)
       [] OTHER -> IF ~a.ok THEN Failed(L) ELSE Emit(L, a.i, a.ln, "arg", a.v)
LexRoot(L) ==
  LET s == L.s
      i == L.i
      ln == L.ln
      b == ByteAt(s, i)
      str == StringLit(s, i + 1, ln, <<>>)
      byt == ByteLit(s, i + 1, ln)
      num == NumberLit(s, i)
      we == WordEnd(s, i)
      w == Word(SubSeq(s, i, we - 1), ln)
      two == IF i < Len(s) THEN <<s[i], s[i + 1]>> ELSE <<>>
  IN CASE b = -1 -> [L EXCEPT !.fin = TRUE]
       [] IsSpace(b) -> Skip(L, i + 1, IF b = 10 THEN ln + 1 ELSE ln)
       [] b = 35 -> Skip(L, LineEnd(s, i), ln)
       [] b = 34 -> IF ~str.ok THEN Failed(L) ELSE Emit(L, str.i, str.ln, "lit", Str(str.v))
       [] b = 39 -> IF ~byt.ok THEN Failed(L) ELSE Emit(L, byt.i, byt.ln, "lit", Char(byt.v))
       [] IsDigit(b) -> IF ~num.ok THEN Failed(L) ELSE Emit(L, num.i, ln, "lit", num.v)
       [] IsAlpha(b) -> Emit(L, we, ln, w.k, w.v)
       [] two \in DOMAIN Symbol2 ->
            [Emit(L, i + 2, ln, Symbol2[two], <<>>) EXCEPT !.cmd = Symbol2[two] \in {"${", "&{"}]
       [] b \in DOMAIN Symbol1 -> [Emit(L, i + 1, ln, Symbol1[b], <<>>) EXCEPT !.cmd = b = 123]
       [] OTHER -> Failed(L)
\* n steps.  (By halves, because TLC takes time in proportion to the depth of the recursion.)
RECURSIVE LexN(_, _)
LexN(L, n) == IF L.fin THEN L
              ELSE IF n = 1 THEN (IF L.cmd THEN LexCommand(L) ELSE LexRoot(L))
              ELSE LexN(LexN(L, n \div 2), n - (n \div 2))
Lex(s) == LexN([fin |-> FALSE, ok |-> TRUE, cmd |-> FALSE, s |-> s, i |-> 1, ln |-> 1, v |-> <<>>], Len(s) + 1)
=============================================================================
