------------------------------ MODULE Grammar -------------------------------
(***************************************************************************)
(* From program text to syntax trees: lexical and syntactic grammar.       *)
(* Text is a sequence of one-character strings.  Lexing is by maximal      *)
(* munch; parsing by recursive descent over the token sequence, one        *)
(* operator per nonterminal of the C grammar (without what the dialect     *)
(* takes back).  Trees are those of CLang (expressions, statements) and    *)
(* Static (top-level declarations, types).                                 *)
(* Constructs on which the documentation of the dialect is silent and the  *)
(* C grammar is optional or wider are collected in o (open questions).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>
Digits == {DigitSeq[k] : k \in 1..10}
HexVal(c) == CASE c \in Digits -> (CHOOSE k \in 1..10 : DigitSeq[k] = c) - 1
               [] c \in {"a","A"} -> 10 [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12
               [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] c \in {"f","F"} -> 15 [] OTHER -> 99
IdStart == Lower \cup Upper \cup {"_"}
IdChar == IdStart \cup Digits
White == {" ", "\t", "\n", "\r", "\f"}
Keywords == {"auto","break","case","char","const","continue","default","do","double","else","enum","extern","float","for","goto","if","int","long","register",
             "restrict","return","short","signed","sizeof","static","struct","switch","typedef","union","unsigned","void","volatile","while"}
(* identifiers the dialect or its headers give a meaning outside of this grammar *)
Special == {"alignof","offsetof","countof","alloca","generic","_Generic","va_etc","va_arg","static_assert","defined","simd","asm","bool","inline","NULL",
            "E_","TC_","INT_MAX","INT_MIN","HUGE_VAL","true","false"}
Punct3 == {"<<=", ">>=", "..."}
Punct2 == {"->","++","--","<<",">>","<=",">=","==","!=","&&","||","+=","-=","*=","/=","%=","&=","^=","|=","##"}
Punct1 == {"[","]","(",")","{","}",".","&","*","+","-","~","!","/","%","<",">","^","|","?",":",";","=",",","#"}

Tok(k, s) == [k |-> k, s |-> s, v |-> 0, b |-> <<>>]
LexErr == <<[k |-> "err", s |-> "", v |-> 0, b |-> <<>>]>>
RECURSIVE SpanId(_,_), LineEnd(_,_), CommentEnd(_,_), Join(_,_,_)
SpanId(x, i) == IF i <= Len(x) /\ x[i] \in IdChar THEN SpanId(x, i+1) ELSE i
LineEnd(x, i) == IF i > Len(x) \/ x[i] = "\n" THEN i ELSE LineEnd(x, i+1)
CommentEnd(x, i) == IF i + 1 > Len(x) THEN 0 ELSE IF x[i] = "*" /\ x[i+1] = "/" THEN i + 2 ELSE CommentEnd(x, i+1)
Join(x, i, j) == IF i >= j THEN "" ELSE x[i] \o Join(x, i+1, j)
(* preprocessing number: the longest digit-or-letter run (with signs after exponents) *)
RECURSIVE SpanNum(_,_)
SpanNum(x, i) == IF i > Len(x) THEN i
                 ELSE IF x[i] \in IdChar \cup {"."} THEN SpanNum(x, i+1)
                 ELSE IF x[i] \in {"+", "-"} /\ x[i-1] \in {"e", "E", "p", "P"} /\ ~(x[i-1] \in {"e", "E"} /\ \E k \in 1..(i-1) : x[k] \in {"x", "X"} /\ k + 8 > i /\ \A m \in k..(i-1) : x[m] \in IdChar) THEN SpanNum(x, i+1)
                 ELSE i
RECURSIVE Digs(_,_,_), Value(_,_,_,_,_)
Digs(x, i, base) == IF i <= Len(x) /\ HexVal(x[i]) < base THEN Digs(x, i+1, base) ELSE i
Value(x, i, j, base, acc) == IF i >= j THEN acc ELSE IF acc > 100000000 THEN -1 ELSE Value(x, i+1, j, base, (acc * base) + HexVal(x[i]))
Suffixes == {"", "u", "U", "l", "L", "ll", "LL", "ul", "uL", "Ul", "UL", "lu", "lU", "Lu", "LU", "ull", "uLL", "Ull", "ULL", "llu", "llU", "LLu", "LLU"}
(* x[i..j-1] is a preprocessing number *)
NumTok(x, i, j) ==
  LET hex == j > i + 2 /\ x[i] = "0" /\ x[i+1] \in {"x", "X"}
      oct == ~hex /\ x[i] = "0"
      base == IF hex THEN 16 ELSE IF oct THEN 8 ELSE 10
      st == IF hex THEN i + 2 ELSE i
      y == SubSeq(x, 1, j - 1)
      e == Digs(y, st, base)
      suf == Join(x, e, j)
      v == Value(x, st, e, base, 0)
  IN IF \E k \in i..(j-1) : x[k] = "." \/ (x[k] \in {"e", "E"} /\ ~hex) \/ x[k] \in {"p", "P"} THEN Tok("flo", "")
     ELSE IF e > st /\ suf \in Suffixes THEN
       (IF v < 0 THEN Tok("big", "") ELSE [k |-> "num", s |-> (IF suf \in {"", "u", "U"} THEN suf ELSE IF suf \in {"ll", "LL"} THEN "LL"
                        ELSE IF suf \in {"l", "L", "ul", "uL", "Ul", "UL", "lu", "lU", "Lu", "LU"} THEN "L" ELSE "ULL"), v |-> v, b |-> <<>>])
     ELSE Tok("err", "")
Esc == [x \in {"n", "t", "a", "b", "f", "v", "r", "'", "\"", "?"} |-> CASE x = "n" -> 10 [] x = "t" -> 9 [] x = "a" -> 7 [] x = "b" -> 8 [] x = "f" -> 12 [] x = "v" -> 11 [] x = "r" -> 13
                                                    [] x = "'" -> 39 [] x = "\"" -> 34 [] OTHER -> 63]
OctD == {"0", "1", "2", "3", "4", "5", "6", "7"}
RECURSIVE OctEsc(_,_,_,_), HexEsc(_,_,_)
OctEsc(x, i, n, v) == IF n < 3 /\ i <= Len(x) /\ x[i] \in OctD THEN OctEsc(x, i+1, n+1, 8 * v + HexVal(x[i])) ELSE [i |-> i, v |-> v]
HexEsc(x, i, v) == IF i <= Len(x) /\ HexVal(x[i]) < 16 THEN HexEsc(x, i+1, IF v > 4096 THEN v ELSE 16 * v + HexVal(x[i])) ELSE [i |-> i, v |-> v]
(* printable characters and their codes *)
Printable == <<" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/","0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?","@",
  "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","[","\\","]","^","_","`",
  "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","{","|","}","~">>
CodeOf == [c \in {Printable[k] : k \in DOMAIN Printable} |-> (CHOOSE k \in DOMAIN Printable : Printable[k] = c) + 31]
(* quoted text from i up to the quote q: [i |-> index after it (0: malformed), b |-> codes, o |-> escapes left open] *)
RECURSIVE Quoted(_,_,_,_,_)
Quoted(x, i, q, acc, op) ==
  IF i > Len(x) \/ x[i] = "\n" THEN [i |-> 0, b |-> acc, o |-> op]
  ELSE IF x[i] = q THEN [i |-> i + 1, b |-> acc, o |-> op]
  ELSE IF x[i] = "\\" THEN
    (IF i + 1 > Len(x) \/ x[i+1] = "\n" THEN [i |-> 0, b |-> acc, o |-> TRUE]
     ELSE IF x[i+1] \in OctD THEN (LET z == OctEsc(x, i+1, 0, 0) IN Quoted(x, z.i, q, Append(acc, z.v % 256), op \/ z.v > 255))
     ELSE IF x[i+1] = "x" /\ i + 2 <= Len(x) /\ HexVal(x[i+2]) < 16 THEN (LET z == HexEsc(x, i+2, 0) IN Quoted(x, z.i, q, Append(acc, z.v % 256), op \/ z.v > 255))
     ELSE IF x[i+1] \in DOMAIN Esc THEN Quoted(x, i+2, q, Append(acc, Esc[x[i+1]]), op)
     ELSE IF x[i+1] = "\\" THEN Quoted(x, i+2, q, Append(acc, 92), op)
     ELSE Quoted(x, i+2, q, Append(acc, 0), TRUE))
  ELSE IF x[i] \in DOMAIN CodeOf THEN Quoted(x, i+1, q, Append(acc, CodeOf[x[i]]), op)
  ELSE Quoted(x, i+1, q, Append(acc, 0), TRUE)
RECURSIVE Lex(_,_,_)
Lex(x, i, acc) ==
  IF i > Len(x) THEN Append(acc, Tok("eof", ""))
  ELSE LET c == x[i] d == IF i < Len(x) THEN x[i+1] ELSE "" t == IF i + 2 <= Len(x) THEN x[i+2] ELSE "" IN
    IF c \in White THEN Lex(x, i+1, acc)
    ELSE IF c = "/" /\ d = "/" THEN Lex(x, LineEnd(x, i), acc)
    ELSE IF c = "/" /\ d = "*" THEN (LET j == CommentEnd(x, i+2) IN IF j = 0 THEN LexErr ELSE Lex(x, j, acc))
    ELSE IF c \in IdStart THEN
      (LET j == SpanId(x, i) s == Join(x, i, j) IN
       IF s \in {"L", "u", "U", "u8"} /\ j <= Len(x) /\ x[j] \in {"'", "\""} THEN Append(acc, Tok("big", ""))
       ELSE Lex(x, j, Append(acc, Tok(IF s \in Keywords THEN "kw" ELSE IF s \in Special THEN "sp" ELSE "id", s))))
    ELSE IF c \in Digits \/ (c = "." /\ d \in Digits) THEN
      (LET j == SpanNum(x, i) k == NumTok(x, i, j) IN IF k.k = "err" THEN LexErr ELSE Lex(x, j, Append(acc, k)))
    ELSE IF c = "\"" THEN
      (LET q == Quoted(x, i+1, "\"", <<>>, FALSE) IN
       IF q.i = 0 THEN (IF q.o THEN Append(acc, Tok("big", "")) ELSE LexErr) ELSE Lex(x, q.i, Append(acc, IF q.o THEN Tok("big", "") ELSE [Tok("str", "") EXCEPT !.b = q.b])))
    ELSE IF c = "'" THEN
      (LET q == Quoted(x, i+1, "'", <<>>, FALSE) IN
       IF q.i = 0 THEN (IF q.o THEN Append(acc, Tok("big", "")) ELSE LexErr)
       ELSE IF q.o \/ Len(q.b) > 1 \/ (q.b # <<>> /\ q.b[1] > 127) THEN Lex(x, q.i, Append(acc, Tok("big", "")))       \* several characters: implementation-defined
       ELSE IF q.b = <<>> THEN LexErr ELSE Lex(x, q.i, Append(acc, [Tok("chr", "") EXCEPT !.v = q.b[1]])))
    ELSE IF c = "\\" THEN (IF d \in {"\n", ""} THEN Append(acc, Tok("big", "")) ELSE LexErr)
    ELSE IF c = "#" THEN Append(acc, Tok("big", ""))
    ELSE LET s3 == (c \o d) \o t s2 == c \o d IN
      IF t # "" /\ s3 \in Punct3 THEN Lex(x, i+3, Append(acc, Tok("p", s3)))
      ELSE IF d # "" /\ s2 \in Punct2 THEN Lex(x, i+2, Append(acc, Tok("p", s2)))
      ELSE IF c \in Punct1 THEN Lex(x, i+1, Append(acc, Tok("p", c)))
      ELSE LexErr
Tokens(x) == Lex(x, 1, <<>>)

----------------------------------------------------------------------------
(* Parsing.  T: tokens; N: maps the typedef names in scope to their types. *)
(* A result has i (index of the next token, 0 after a syntax error), e     *)
(* (tree) and o (open questions).                                          *)
Err == [i |-> 0, e |-> [k |-> "none"], o |-> {}]
Ok(i, e, o) == [i |-> i, e |-> e, o |-> o]
Bad(r) == r.i = 0
(* what an error leaves open: a syntax error after an open construct is not certain *)
ErrO(o) == [Err EXCEPT !.o = o]
Is(T, i, s) == T[i].k \in {"p", "kw"} /\ T[i].s = s
LitI(v, t) == LET w == IF t \in {"llong", "ullong"} THEN 8 ELSE 4 IN
  [k |-> "lit", t |-> <<t>>, v |-> v, b |-> [j \in 1..w |-> CASE j = 1 -> v % 256 [] j = 2 -> (v \div 256) % 256 [] j = 3 -> (v \div 65536) % 256 [] j = 4 -> v \div 16777216 [] OTHER -> 0]]
TypeKw == {"char","const","double","enum","float","int","long","restrict","short","signed","struct","union","unsigned","void","volatile"}
StoreKw == {"auto","extern","register","static"}
TypeStart(T, i, N) == (T[i].k = "kw" /\ T[i].s \in TypeKw) \/ (T[i].k = "id" /\ T[i].s \in DOMAIN N)
Levels == << {"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"} >>
AsnOps == {"=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=", "&=", "^=", "|="}
OpOf(s) == CASE s = "=" -> "=" [] s = "*=" -> "*" [] s = "/=" -> "/" [] s = "%=" -> "%" [] s = "+=" -> "+" [] s = "-=" -> "-" [] s = "<<=" -> "<<"
             [] s = ">>=" -> ">>" [] s = "&=" -> "&" [] s = "^=" -> "^" [] OTHER -> "|"
MkBin(op, l, r) == CASE op = "||" -> [k |-> "lor", l |-> l, r |-> r] [] op = "&&" -> [k |-> "land", l |-> l, r |-> r] [] OTHER -> [k |-> "bin", op |-> op, l |-> l, r |-> r]

RECURSIVE Primary(_,_,_), Postfix(_,_,_), PostTail(_,_,_,_), ArgList(_,_,_,_), Unary(_,_,_), CastE(_,_,_), BinE(_,_,_,_), BinTail(_,_,_,_,_),
          CondE(_,_,_), AsnE(_,_,_), ExprE(_,_,_), CommaTail(_,_,_,_), StrTail(_,_,_), TypeName(_,_,_),
          Specs(_,_,_,_), Declarator(_,_,_), Direct(_,_,_), DirTail(_,_,_,_), ParamList(_,_,_,_), Quals(_,_,_), Invert(_,_)
StrTail(T, i, b) == IF T[i].k = "str" THEN StrTail(T, i+1, b \o T[i].b) ELSE Ok(i, [k |-> "str", b |-> Append(b, 0)], IF T[i].k \in {"sp", "big"} THEN {"literal continuation"} ELSE {})
Primary(T, i, N) ==
  CASE T[i].k = "num" -> (CASE T[i].s = "" -> Ok(i+1, LitI(T[i].v, "int"), {}) [] T[i].s \in {"u", "U"} -> Ok(i+1, LitI(T[i].v, "uint"), {})
                            [] T[i].s = "LL" -> Ok(i+1, LitI(T[i].v, "llong"), {}) [] T[i].s = "ULL" -> Ok(i+1, LitI(T[i].v, "ullong"), {}) [] OTHER -> ErrO({"literal"}))
    [] T[i].k = "chr" -> Ok(i+1, LitI(T[i].v, "int"), {})
    [] T[i].k = "str" -> StrTail(T, i, <<>>)
    [] T[i].k \in {"big", "flo"} -> ErrO({"literal"})
    [] T[i].k = "sp" -> IF T[i].s = "E_" /\ Is(T, i+1, "(") THEN
                          (LET r == ArgList(T, i+2, N, <<>>) IN
                           IF Bad(r) THEN r ELSE IF Len(r.e) = 1 THEN Ok(r.i, [k |-> "emit", a |-> r.e[1]], r.o) ELSE ErrO(r.o))
                        ELSE ErrO({"special"})
    [] T[i].k = "id" -> IF T[i].s \in DOMAIN N THEN Err ELSE Ok(i+1, [k |-> "var", n |-> T[i].s], {})
    [] Is(T, i, "(") -> LET r == ExprE(T, i+1, N) IN IF Bad(r) THEN r ELSE IF Is(T, r.i, ")") THEN Ok(r.i + 1, r.e, r.o) ELSE ErrO(r.o)
    [] OTHER -> Err
ArgList(T, i, N, acc) ==      \* up to and including ")"
  IF acc = <<>> /\ Is(T, i, ")") THEN Ok(i+1, acc, {})
  ELSE LET r == AsnE(T, i, N) IN
    IF Bad(r) THEN r
    ELSE IF Is(T, r.i, ")") THEN Ok(r.i + 1, Append(acc, r.e), r.o)
    ELSE IF Is(T, r.i, ",") THEN (LET q == ArgList(T, r.i + 1, N, Append(acc, r.e)) IN [q EXCEPT !.o = @ \cup r.o])
    ELSE ErrO(r.o)
Callee(e, as) == CASE e.k = "var" -> [k |-> "call", f |-> e.n, args |-> as]
                   [] e.k = "deref" -> [k |-> "callp", a |-> e.a, t |-> <<"void">>, args |-> as]
                   [] OTHER -> [k |-> "callx", a |-> e, args |-> as]
PostTail(T, i, N, r) ==       \* r: result for the operand, i = r.i
  IF Is(T, i, "[") THEN LET q == ExprE(T, i+1, N) IN
       IF Bad(q) THEN ErrO(q.o \cup r.o) ELSE IF Is(T, q.i, "]") THEN PostTail(T, q.i + 1, N, Ok(q.i + 1, [k |-> "idx", a |-> r.e, i |-> q.e], r.o \cup q.o)) ELSE ErrO(q.o \cup r.o)
  ELSE IF Is(T, i, "(") THEN LET q == ArgList(T, i+1, N, <<>>) IN
       IF Bad(q) THEN ErrO(q.o \cup r.o) ELSE PostTail(T, q.i, N, Ok(q.i, Callee(r.e, q.e), r.o \cup q.o))
  ELSE IF Is(T, i, ".") \/ Is(T, i, "->") THEN
       (IF T[i+1].k = "id" THEN PostTail(T, i+2, N, Ok(i+2, [k |-> IF T[i].s = "." THEN "mem" ELSE "arrow", a |-> r.e, f |-> T[i+1].s], r.o \cup (IF T[i+1].s \in DOMAIN N THEN {"member named as type"} ELSE {})))
        ELSE ErrO(r.o \cup (IF T[i+1].k = "sp" THEN {"special"} ELSE {})))
  ELSE IF Is(T, i, "++") \/ Is(T, i, "--") THEN PostTail(T, i+1, N, Ok(i+1, [k |-> "inc", op |-> IF T[i].s = "++" THEN "+" ELSE "-", post |-> TRUE, a |-> r.e], r.o))
  ELSE r
Postfix(T, i, N) == LET r == Primary(T, i, N) IN IF Bad(r) THEN r ELSE PostTail(T, r.i, N, r)
PostAhead(T, i) == T[i].k = "p" /\ T[i].s \in {"[", "(", ".", "->", "++", "--"}
Unary(T, i, N) ==
  IF Is(T, i, "++") \/ Is(T, i, "--") THEN
    LET r == Unary(T, i+1, N) cst == Is(T, i+1, "(") /\ TypeStart(T, i+2, N) IN
    IF cst THEN Err ELSE IF Bad(r) THEN r ELSE [r EXCEPT !.e = [k |-> "inc", op |-> IF T[i].s = "++" THEN "+" ELSE "-", post |-> FALSE, a |-> r.e]]
  ELSE IF T[i].k = "p" /\ T[i].s \in {"&", "*", "+", "-", "~", "!"} THEN
    LET r == CastE(T, i+1, N) IN
    IF Bad(r) THEN r
    ELSE [r EXCEPT !.e = CASE T[i].s = "&" -> [k |-> "addr", a |-> r.e] [] T[i].s = "*" -> [k |-> "deref", a |-> r.e] [] OTHER -> [k |-> "un", op |-> T[i].s, a |-> r.e]]
  ELSE IF Is(T, i, "sizeof") THEN
    (IF ~Is(T, i+1, "(") THEN (LET r == Unary(T, i+1, N) IN IF Bad(r) THEN r ELSE ErrO({"sizeof without parentheses"}))
     ELSE IF TypeStart(T, i+2, N) THEN
       (LET r == TypeName(T, i+2, N) IN
        IF Bad(r) THEN r ELSE IF ~Is(T, r.i, ")") THEN ErrO(r.o)
        ELSE Ok(r.i + 1, [k |-> "sizeofu", t |-> r.e], r.o \cup (IF PostAhead(T, r.i + 1) \/ Is(T, r.i + 1, "{") THEN {"postfix after sizeof"} ELSE {})))
     ELSE (LET r == ExprE(T, i+2, N) IN
           IF Bad(r) THEN r ELSE IF ~Is(T, r.i, ")") THEN ErrO(r.o)
           ELSE Ok(r.i + 1, [k |-> "sizeofx", a |-> r.e], r.o \cup (IF PostAhead(T, r.i + 1) THEN {"postfix after sizeof"} ELSE {}))))
  ELSE Postfix(T, i, N)
CastE(T, i, N) ==
  IF Is(T, i, "(") /\ TypeStart(T, i+1, N) THEN
    LET r == TypeName(T, i+1, N) IN
    IF Bad(r) THEN r ELSE IF ~Is(T, r.i, ")") THEN ErrO(r.o)
    ELSE IF Is(T, r.i + 1, "{") \/ T[r.i + 1].k = "sp" THEN ErrO({"compound literal"})
    ELSE LET q == CastE(T, r.i + 1, N) IN IF Bad(q) THEN ErrO(q.o \cup r.o) ELSE Ok(q.i, [k |-> "cast", t |-> r.e, a |-> q.e], r.o \cup q.o)
  ELSE Unary(T, i, N)
BinTail(T, i, N, l, r) == IF T[i].k = "p" /\ T[i].s \in Levels[l] THEN
    LET q == BinE(T, i+1, N, l+1) IN IF Bad(q) THEN ErrO(q.o \cup r.o) ELSE BinTail(T, q.i, N, l, Ok(q.i, MkBin(T[i].s, r.e, q.e), r.o \cup q.o))
  ELSE r
BinE(T, i, N, l) == IF l > 10 THEN CastE(T, i, N) ELSE LET r == BinE(T, i, N, l+1) IN IF Bad(r) THEN r ELSE BinTail(T, r.i, N, l, r)
CondE(T, i, N) ==
  LET c == BinE(T, i, N, 1) IN
  IF Bad(c) \/ ~Is(T, c.i, "?") THEN c
  ELSE LET x == ExprE(T, c.i + 1, N) IN
    IF Bad(x) THEN ErrO(x.o \cup c.o) ELSE IF ~Is(T, x.i, ":") THEN ErrO(x.o \cup c.o)
    ELSE LET y == CondE(T, x.i + 1, N) IN
      IF Bad(y) THEN ErrO(x.o \cup c.o \cup y.o) ELSE Ok(y.i, [k |-> "cond", c |-> c.e, a |-> x.e, b |-> y.e], c.o \cup x.o \cup y.o)
(* the left side of an assignment is a unary expression: no binary operator, conditional or cast *)
AsnE(T, i, N) ==
  LET l == CondE(T, i, N) IN
  IF Bad(l) \/ ~(T[l.i].k = "p" /\ T[l.i].s \in AsnOps) THEN l
  ELSE LET u == IF Is(T, i, "(") /\ TypeStart(T, i+1, N) THEN Err ELSE Unary(T, i, N) r == AsnE(T, l.i + 1, N) IN
    IF u.i # l.i THEN ErrO(l.o)
    ELSE IF Bad(r) THEN ErrO(l.o \cup r.o)
    ELSE Ok(r.i, [k |-> "asn", op |-> OpOf(T[l.i].s), l |-> l.e, r |-> r.e], l.o \cup r.o)
CommaTail(T, i, N, r) == IF Is(T, i, ",") THEN
    LET q == AsnE(T, i+1, N) IN IF Bad(q) THEN ErrO(q.o \cup r.o) ELSE CommaTail(T, q.i, N, Ok(q.i, [k |-> "comma", l |-> r.e, r |-> q.e], r.o \cup q.o))
  ELSE r
ExprE(T, i, N) == LET r == AsnE(T, i, N) IN IF Bad(r) THEN r ELSE CommaTail(T, r.i, N, r)

----------------------------------------------------------------------------
(* Types.  Specifiers are collected into a bag of keywords; a tagged or    *)
(* named type ends up in ty.  Definitions of tags are put in d.            *)
Sp0 == [q |-> <<>>, ty |-> <<>>, d |-> <<>>, o |-> {}, i |-> 0]
Count(q, s) == Cardinality({k \in DOMAIN q : q[k] = s})
BasicT(q) ==
  LET n(s) == Count(q, s) L == Len(q) sg == n("signed") + n("unsigned") u == n("unsigned") = 1 IN
  IF \E s \in {"void","char","short","int","signed","unsigned","float","double"} : n(s) > 1 THEN <<>>
  ELSE IF sg > 1 \/ n("long") > 2 THEN <<>>
  ELSE IF n("void") = 1 THEN (IF L = 1 THEN <<"void">> ELSE <<>>)
  ELSE IF n("float") = 1 THEN (IF L = 1 THEN <<"float">> ELSE <<>>)
  ELSE IF n("double") = 1 THEN (IF L = 1 THEN <<"double">> ELSE <<>>)
  ELSE IF n("char") = 1 THEN (IF L = 1 + sg THEN <<IF u THEN "uchar" ELSE "char">> ELSE <<>>)
  ELSE IF n("short") = 1 THEN (IF L = 1 + sg + n("int") THEN <<IF u THEN "ushort" ELSE "short">> ELSE <<>>)
  ELSE IF n("long") = 1 THEN <<IF u THEN "ulong" ELSE "long">>
  ELSE IF n("long") = 2 THEN <<IF u THEN "ullong" ELSE "llong">>
  ELSE <<IF u THEN "uint" ELSE "int">>
RECURSIVE Members(_,_,_,_), Enumers(_,_,_,_), MemDecls(_,_,_,_,_)
TagBody(T, i, N, kw, n) ==       \* T[i] is "{"
  IF kw = "enum" THEN LET r == Enumers(T, i+1, N, <<>>) IN
     [r EXCEPT !.e = [k |-> "enum", n |-> n, es |-> IF Bad(r) THEN <<>> ELSE r.e]]
  ELSE LET r == Members(T, i+1, N, <<>>) IN
     [r EXCEPT !.e = [k |-> "tag", kw |-> IF kw = "struct" THEN "st" ELSE "un", n |-> n, fs |-> IF Bad(r) THEN <<>> ELSE r.e]]
Enumers(T, i, N, acc) ==
  IF T[i].k # "id" THEN ErrO(IF T[i].k = "sp" THEN {"special"} ELSE {})
  ELSE LET nm == T[i].s r == IF Is(T, i+1, "=") THEN CondE(T, i+2, N) ELSE Ok(i+1, [k |-> "none"], {})
           it == [n |-> nm, has |-> Is(T, i+1, "="), e |-> r.e] clash == IF nm \in DOMAIN N THEN {"hidden type name"} ELSE {} IN
    IF Bad(r) THEN r
    ELSE IF Is(T, r.i, "}") THEN Ok(r.i + 1, Append(acc, it), r.o \cup clash)
    ELSE IF ~Is(T, r.i, ",") THEN ErrO(r.o)
    ELSE IF Is(T, r.i + 1, "}") THEN Ok(r.i + 2, Append(acc, it), r.o \cup clash)
    ELSE LET q == Enumers(T, r.i + 1, N, Append(acc, it)) IN [q EXCEPT !.o = @ \cup r.o \cup clash]
MemDecls(T, i, N, t, acc) ==
  LET r == Declarator(T, i, N) IN
  IF Bad(r) THEN r ELSE IF r.n = "" THEN ErrO(r.o \cup (IF Is(T, r.i, ":") THEN {"bit-field"} ELSE {}))
  ELSE LET x == Append(acc, [n |-> r.n, t |-> Invert(r.e, t)]) IN
    IF Is(T, r.i, ";") THEN Ok(r.i + 1, x, r.o) ELSE IF Is(T, r.i, ",") THEN (LET q == MemDecls(T, r.i + 1, N, t, x) IN [q EXCEPT !.o = @ \cup r.o])
    ELSE ErrO(r.o)
Members(T, i, N, acc) ==
  IF Is(T, i, "}") THEN Ok(i+1, acc, IF acc = <<>> THEN {"empty aggregate"} ELSE {})
  ELSE IF ~TypeStart(T, i, N) THEN ErrO(IF T[i].k = "sp" THEN {"special"} ELSE {})
  ELSE LET s == Specs(T, i, N, Sp0) IN
    IF Bad(s) THEN ErrO(s.o)
    ELSE LET o1 == s.o \cup (IF s.d # <<>> THEN {"nested tag"} ELSE {}) IN
      IF Is(T, s.i, ";") THEN (LET q == Members(T, s.i + 1, N, acc) IN IF s.ty # <<>> /\ s.ty[1] \in {"st", "un", "en"} THEN [q EXCEPT !.o = @ \cup {"member without name"}] ELSE ErrO(o1))
      ELSE LET r == MemDecls(T, s.i, N, s.ty, acc) IN
        IF Bad(r) THEN ErrO(r.o \cup o1) ELSE LET q == Members(T, r.i, N, r.e) IN [q EXCEPT !.o = @ \cup o1 \cup r.o]
(* specifiers from i on: result has i (0: error), ty (type), d, o          *)
Specs(T, i, N, S) ==
  IF T[i].k = "kw" /\ T[i].s \in {"const", "volatile"} THEN Specs(T, i+1, N, S)
  ELSE IF Is(T, i, "restrict") THEN Specs(T, i+1, N, [S EXCEPT !.o = @ \cup {"restrict"}])
  ELSE IF T[i].k = "kw" /\ T[i].s \in {"struct", "union", "enum"} THEN
    (IF S.ty # <<>> \/ S.q # <<>> THEN [S EXCEPT !.i = 0]
     ELSE LET nm == IF T[i+1].k = "id" THEN T[i+1].s ELSE "" j == IF nm = "" THEN i + 1 ELSE i + 2 kw == T[i].s
              n == IF nm = "" THEN "$" \o ToString(i) ELSE nm
              ty == <<IF kw = "struct" THEN "st" ELSE IF kw = "union" THEN "un" ELSE "en", n>>
              co == S.o \cup (IF nm \in DOMAIN N THEN {"tag and type name"} ELSE {}) IN
       IF Is(T, j, "{") THEN
         LET r == TagBody(T, j, N, kw, n) IN
         IF Bad(r) THEN [S EXCEPT !.i = 0, !.o = co \cup r.o]
         ELSE Specs(T, r.i, N, [S EXCEPT !.ty = ty, !.d = @ \o <<r.e>>, !.o = co \cup r.o])
       ELSE IF nm = "" THEN [S EXCEPT !.i = 0, !.o = IF T[j].k = "sp" THEN {"special"} ELSE @] ELSE Specs(T, j, N, [S EXCEPT !.ty = ty, !.o = co]))
  ELSE IF T[i].k = "kw" /\ T[i].s \in TypeKw THEN
    (IF S.ty # <<>> THEN [S EXCEPT !.i = 0] ELSE Specs(T, i+1, N, [S EXCEPT !.q = Append(@, T[i].s)]))
  ELSE IF T[i].k = "id" /\ T[i].s \in DOMAIN N THEN
    (IF S.ty = <<>> /\ S.q = <<>> THEN Specs(T, i+1, N, [S EXCEPT !.ty = N[T[i].s]])
     ELSE [S EXCEPT !.i = 0, !.o = @ \cup {"hidden type name"}])         \* redeclares the name, or an error
  ELSE IF T[i].k = "kw" /\ T[i].s \in StoreKw THEN [S EXCEPT !.i = 0, !.o = @ \cup {"storage class after type"}]
  ELSE IF S.ty # <<>> THEN [S EXCEPT !.i = i]
  ELSE LET t == IF S.q = <<>> THEN <<>> ELSE BasicT(S.q) IN
    IF t = <<>> THEN [S EXCEPT !.i = 0, !.o = @ \cup (IF S.q # <<>> /\ Count(S.q, "double") = 1 /\ Count(S.q, "long") = 1 /\ Len(S.q) = 2 THEN {"long double"} ELSE {})
                                                 \cup (IF S.q = <<>> THEN {"no type"} ELSE {})]
    ELSE [S EXCEPT !.i = i, !.ty = t]
(* Declarators: [i, o, n |-> name or "", e |-> list of derivations from the innermost outwards] *)
DRes(i, n, e, o) == [i |-> i, n |-> n, e |-> e, o |-> o]
DErr(o) == DRes(0, "", <<>>, o)
Quals(T, i, o) == IF T[i].k = "kw" /\ T[i].s \in {"const", "volatile"} THEN Quals(T, i+1, o)
                  ELSE IF Is(T, i, "restrict") THEN Quals(T, i+1, o \cup {"restrict"}) ELSE [i |-> i, o |-> o]
Declarator(T, i, N) ==
  IF Is(T, i, "*") THEN
    LET q == Quals(T, i+1, {}) r == Declarator(T, q.i, N) IN
    IF Bad(r) THEN r ELSE [r EXCEPT !.e = Append(@, [k |-> "ptr"]), !.o = @ \cup q.o]
  ELSE Direct(T, i, N)
Direct(T, i, N) ==
  IF T[i].k = "id" THEN DirTail(T, i+1, N, DRes(i+1, T[i].s, <<>>, IF T[i].s \in DOMAIN N THEN {"hidden type name"} ELSE {}))
  ELSE IF Is(T, i, "(") THEN
    (IF Is(T, i+1, ")") \/ TypeStart(T, i+1, N) THEN DErr({"abstract function"})
     ELSE LET r == Declarator(T, i+1, N) IN
       IF Bad(r) THEN r ELSE IF Is(T, r.i, ")") THEN DirTail(T, r.i + 1, N, [r EXCEPT !.i = @ + 1, !.o = @ \cup (IF r.n = "" /\ r.e = <<>> THEN {"abstract function"} ELSE {})]) ELSE DErr(r.o))
  ELSE IF T[i].k = "p" /\ T[i].s \in {",", "[", ")", ":"} THEN DirTail(T, i, N, DRes(i, "", <<>>, {}))
  ELSE DErr(IF T[i].k = "sp" THEN {"special"} ELSE {})
SizeE(e) == CASE e.k = "lit" -> e.v [] OTHER -> 0
DirTail(T, i, N, r) ==
  IF Is(T, i, "[") THEN
    (IF Is(T, i+1, "]") THEN DirTail(T, i+2, N, [r EXCEPT !.i = i+2, !.e = Append(@, [k |-> "arr", n |-> 0]), !.o = @ \cup {"incomplete array"}])
     ELSE LET q == ExprE(T, i+1, N) IN
       IF Bad(q) THEN DErr(q.o \cup r.o \cup (IF Is(T, i+1, "*") \/ (T[i+1].k = "kw") THEN {"array declarator"} ELSE {})) ELSE IF ~Is(T, q.i, "]") THEN DErr(q.o \cup r.o)
       ELSE DirTail(T, q.i + 1, N, [r EXCEPT !.i = q.i + 1, !.e = Append(@, [k |-> "arr", n |-> SizeE(q.e)]), !.o = @ \cup q.o \cup (IF q.e.k # "lit" THEN {"array size expression"} ELSE {})]))
  ELSE IF Is(T, i, "(") THEN
    LET q == ParamList(T, i+1, N, <<>>) IN
    IF Bad(q) THEN DErr(q.o \cup r.o)
    ELSE DirTail(T, q.i, N, [r EXCEPT !.i = q.i, !.e = Append(@, [k |-> "fn", ps |-> q.e, va |-> q.va]), !.o = @ \cup q.o])
  ELSE r
PRes(i, e, va, o) == [i |-> i, e |-> e, va |-> va, o |-> o]
ParamList(T, i, N, acc) ==      \* up to and including ")"
  IF acc = <<>> /\ Is(T, i, ")") THEN PRes(i+1, <<>>, FALSE, {})
  ELSE IF acc = <<>> /\ Is(T, i, "void") /\ Is(T, i+1, ")") THEN PRes(i+2, <<>>, FALSE, {})
  ELSE IF Is(T, i, "...") THEN (IF Is(T, i+1, ")") THEN PRes(i+2, acc, TRUE, IF acc = <<>> THEN {"only ..."} ELSE {}) ELSE PRes(0, <<>>, FALSE, {}))
  ELSE IF Is(T, i, "register") THEN PRes(0, <<>>, FALSE, {"register parameter"})
  ELSE IF ~TypeStart(T, i, N) THEN PRes(0, <<>>, FALSE, IF T[i].k = "sp" THEN {"special"} ELSE IF T[i].k = "id" THEN {"no type"} ELSE {})
  ELSE LET s == Specs(T, i, N, Sp0) IN
    IF Bad(s) THEN PRes(0, <<>>, FALSE, s.o)
    ELSE LET d == Declarator(T, s.i, N) o1 == s.o \cup d.o \cup (IF s.d # <<>> THEN {"tag in parameter"} ELSE {}) IN
      IF Bad(d) THEN PRes(0, <<>>, FALSE, o1)
      ELSE LET x == Append(acc, [n |-> d.n, t |-> Invert(d.e, s.ty)]) IN
        IF Is(T, d.i, ")") THEN PRes(d.i + 1, x, FALSE, o1)
        ELSE IF Is(T, d.i, ",") /\ ~Is(T, d.i + 1, ")") THEN (LET q == ParamList(T, d.i + 1, N, x) IN [q EXCEPT !.o = @ \cup o1])
        ELSE PRes(0, <<>>, FALSE, o1)
(* derivations, innermost first, applied to the base type from the outermost on *)
Invert(e, t) == IF e = <<>> THEN t
  ELSE LET d == e[Len(e)] r == SubSeq(e, 1, Len(e) - 1) IN
    Invert(r, CASE d.k = "ptr" -> <<"ptr", t>> [] d.k = "arr" -> <<"arr", t, d.n>>
                [] OTHER -> <<"fn", t, [j \in DOMAIN d.ps |-> d.ps[j].t], d.va>>)
TypeName(T, i, N) ==
  LET s == Specs(T, i, N, Sp0) IN
  IF Bad(s) THEN ErrO(s.o)
  ELSE LET d == Declarator(T, s.i, N) o1 == s.o \cup d.o \cup (IF s.d # <<>> THEN {"tag in type name"} ELSE {}) IN
    IF Bad(d) THEN ErrO(o1) ELSE IF d.n # "" THEN ErrO(o1) ELSE Ok(d.i, Invert(d.e, s.ty), o1)

----------------------------------------------------------------------------
(* Statements.                                                             *)
RECURSIVE Stmt1(_,_,_), Items1(_,_,_,_), DeclList(_,_,_,_,_), Clauses(_,_,_,_)
Storage(T, i) == IF T[i].k = "kw" /\ T[i].s \in StoreKw THEN 1 ELSE 0
RECURSIVE SkipStore(_,_)
SkipStore(T, i) == IF Storage(T, i) = 1 THEN SkipStore(T, i+1) ELSE i
StoreSet(T, i) == {T[j].s : j \in i..(SkipStore(T, i) - 1)}
(* declarators of a block-level declaration, up to and including ";"       *)
DeclList(T, i, N, t, acc) ==
  LET d == Declarator(T, i, N) IN
  IF Bad(d) THEN ErrO(d.o) ELSE IF d.n = "" THEN ErrO(d.o)
  ELSE LET ini == Is(T, d.i, "=") disp == ini /\ Is(T, d.i + 1, "{")
           r == IF ini THEN AsnE(T, d.i + 1, N) ELSE Ok(d.i, [k |-> "none"], {})
           ty == Invert(d.e, t)
           o1 == d.o \cup r.o \cup (IF ty[1] = "fn" THEN {"local prototype"} ELSE {}) \cup (IF ini /\ ~disp /\ ~Bad(r) /\ r.e.k = "str" THEN {"string initialiser"} ELSE {})
           x == Append(acc, [k |-> "decl", n |-> d.n, t |-> ty, init |-> ini, e |-> r.e]) IN
    IF disp THEN ErrO({"display"}) ELSE IF Bad(r) THEN ErrO(o1)
    ELSE IF Is(T, r.i, ";") THEN Ok(r.i + 1, x, o1)
    ELSE IF Is(T, r.i, ",") THEN (LET q == DeclList(T, r.i + 1, N, t, x) IN [q EXCEPT !.o = @ \cup o1])
    ELSE ErrO(o1)
DeclStmt(T, i, N) ==       \* storage class and specifiers at i
  LET j == SkipStore(T, i) st == StoreSet(T, i)
      so == (IF st \cap {"static", "extern"} # {} THEN {"static local"} ELSE {}) IN
  IF j - i > 1 THEN Err
  ELSE IF ~TypeStart(T, j, N) THEN ErrO(IF T[j].k = "sp" THEN {"special"} ELSE {})
  ELSE LET s == Specs(T, j, N, Sp0) IN
    IF Bad(s) THEN ErrO(s.o \cup so)
    ELSE LET o1 == s.o \cup so \cup (IF s.d # <<>> THEN {"local tag"} ELSE {}) IN
      IF Is(T, s.i, ";") THEN (IF s.ty[1] \in {"st", "un", "en"} THEN ErrO(o1 \cup {"declaration without name"}) ELSE ErrO(o1))
      ELSE LET r == DeclList(T, s.i, N, s.ty, <<>>) IN [r EXCEPT !.o = @ \cup o1]
Items1(T, i, N, acc) ==      \* up to and including "}"
  IF Is(T, i, "}") THEN Ok(i+1, acc, {})
  ELSE IF Is(T, i, "typedef") THEN ErrO({"local typedef"})
  ELSE IF TypeStart(T, i, N) \/ Storage(T, i) = 1 THEN
    LET r == DeclStmt(T, i, N) IN IF Bad(r) THEN r ELSE LET q == Items1(T, r.i, N, acc \o r.e) IN [q EXCEPT !.o = @ \cup r.o]
  ELSE IF T[i].k = "id" /\ Is(T, i+1, ":") THEN
    LET q == Items1(T, IF Is(T, i+2, ";") THEN i + 3 ELSE i + 2, N, Append(acc, [k |-> "label", n |-> T[i].s])) IN q
  ELSE LET r == Stmt1(T, i, N) IN
    IF Bad(r) THEN r ELSE LET q == Items1(T, r.i, N, Append(acc, r.e)) IN [q EXCEPT !.o = @ \cup r.o]
CaseB(e) == IF e.k = "lit" /\ e.t = <<"int">> THEN e.b ELSE <<>>
Clauses(T, i, N, acc) ==
  IF Is(T, i, "}") THEN Ok(i+1, acc, {})
  ELSE IF Is(T, i, "case") THEN
    LET r == CondE(T, i+1, N) IN
    IF Bad(r) THEN r ELSE IF ~Is(T, r.i, ":") THEN ErrO(r.o \cup (IF Is(T, r.i, ",") \/ (T[r.i].k = "p" /\ T[r.i].s \in AsnOps) THEN {"case expression"} ELSE {}))
    ELSE LET q == Clauses(T, r.i + 1, N, Append(acc, [k |-> "case", e |-> r.e, b |-> CaseB(r.e)])) IN [q EXCEPT !.o = @ \cup r.o \cup (IF r.e.k # "lit" THEN {"case expression"} ELSE {})]
  ELSE IF Is(T, i, "default") THEN (IF Is(T, i+1, ":") THEN Clauses(T, i+2, N, Append(acc, [k |-> "default"])) ELSE Err)
  ELSE IF acc = <<>> THEN (LET q == Stmt1(T, i, N) IN ErrO({"statement before case"}))
  ELSE IF TypeStart(T, i, N) \/ Storage(T, i) = 1 THEN ErrO({"declaration in switch"})
  ELSE IF T[i].k = "id" /\ Is(T, i+1, ":") THEN ErrO({"label"})
  ELSE LET r == Stmt1(T, i, N) IN IF Bad(r) THEN r ELSE LET q == Clauses(T, r.i, N, Append(acc, r.e)) IN [q EXCEPT !.o = @ \cup r.o]
ParenE(T, i, N) ==      \* "(" expression ")"
  IF ~Is(T, i, "(") THEN Err ELSE LET r == ExprE(T, i+1, N) IN IF Bad(r) THEN r ELSE IF Is(T, r.i, ")") THEN [r EXCEPT !.i = @ + 1] ELSE ErrO(r.o)
Semi(T, r) == IF Bad(r) THEN r ELSE IF Is(T, r.i, ";") THEN [r EXCEPT !.i = @ + 1] ELSE ErrO(r.o)
Empty == [k |-> "empty"]
LabO(l) == IF \E k \in 2..(Len(l) - 1) : l[k].k = "label" THEN {"label placement"} ELSE {}
Stmt1(T, i, N) ==
  IF Is(T, i, ";") THEN Ok(i+1, Empty, {})
  ELSE IF Is(T, i, "{") THEN LET r == Items1(T, i+1, N, <<>>) IN IF Bad(r) THEN r ELSE [r EXCEPT !.e = [k |-> "block", b |-> r.e], !.o = @ \cup LabO(r.e)]
  ELSE IF Is(T, i, "if") THEN
    LET c == ParenE(T, i+1, N) IN IF Bad(c) THEN c ELSE
    LET a == Stmt1(T, c.i, N) IN IF Bad(a) THEN ErrO(c.o \cup a.o) ELSE
    IF ~Is(T, a.i, "else") THEN Ok(a.i, [k |-> "if", c |-> c.e, a |-> a.e, b |-> Empty], c.o \cup a.o)
    ELSE LET b == Stmt1(T, a.i + 1, N) IN IF Bad(b) THEN ErrO(c.o \cup a.o \cup b.o) ELSE Ok(b.i, [k |-> "if", c |-> c.e, a |-> a.e, b |-> b.e], c.o \cup a.o \cup b.o)
  ELSE IF Is(T, i, "while") THEN
    LET c == ParenE(T, i+1, N) IN IF Bad(c) THEN c ELSE
    LET a == Stmt1(T, c.i, N) IN IF Bad(a) THEN ErrO(c.o \cup a.o) ELSE Ok(a.i, [k |-> "while", c |-> c.e, b |-> a.e], c.o \cup a.o)
  ELSE IF Is(T, i, "do") THEN
    LET a == Stmt1(T, i+1, N) IN IF Bad(a) THEN a ELSE IF ~Is(T, a.i, "while") THEN ErrO(a.o) ELSE
    LET c == Semi(T, ParenE(T, a.i + 1, N)) IN IF Bad(c) THEN ErrO(a.o \cup c.o) ELSE Ok(c.i, [k |-> "do", c |-> c.e, b |-> a.e], c.o \cup a.o)
  ELSE IF Is(T, i, "for") THEN
    IF ~Is(T, i+1, "(") THEN Err ELSE
    LET n == IF Is(T, i+2, ";") THEN Ok(i+3, <<>>, {})
             ELSE IF TypeStart(T, i+2, N) \/ Storage(T, i+2) = 1 THEN DeclStmt(T, i+2, N)
             ELSE LET r == Semi(T, ExprE(T, i+2, N)) IN IF Bad(r) THEN r ELSE [r EXCEPT !.e = <<[k |-> "expr", e |-> r.e]>>] IN
    IF Bad(n) THEN n ELSE
    LET c == IF Is(T, n.i, ";") THEN Ok(n.i + 1, [k |-> "none"], {}) ELSE Semi(T, ExprE(T, n.i, N)) IN IF Bad(c) THEN ErrO(n.o \cup c.o) ELSE
    LET p == IF Is(T, c.i, ")") THEN Ok(c.i + 1, Empty, {}) ELSE LET r == ExprE(T, c.i, N) IN
               IF Bad(r) THEN r ELSE IF Is(T, r.i, ")") THEN Ok(r.i + 1, [k |-> "expr", e |-> r.e], r.o) ELSE ErrO(r.o) IN IF Bad(p) THEN ErrO(n.o \cup c.o \cup p.o) ELSE
    LET b == Stmt1(T, p.i, N) IN IF Bad(b) THEN ErrO(n.o \cup c.o \cup p.o \cup b.o)
      ELSE Ok(b.i, [k |-> "for", init |-> n.e, c |-> c.e, step |-> p.e, b |-> b.e], n.o \cup c.o \cup p.o \cup b.o)
  ELSE IF Is(T, i, "switch") THEN
    LET c == ParenE(T, i+1, N) IN IF Bad(c) THEN c ELSE IF ~Is(T, c.i, "{") THEN (LET r == Stmt1(T, c.i, N) IN ErrO({"switch body"})) ELSE
    LET b == Clauses(T, c.i + 1, N, <<>>) IN IF Bad(b) THEN ErrO(c.o \cup b.o) ELSE Ok(b.i, [k |-> "switch", e |-> c.e, b |-> b.e], c.o \cup b.o)
  ELSE IF Is(T, i, "break") \/ Is(T, i, "continue") THEN Semi(T, Ok(i+1, [k |-> T[i].s], {}))
  ELSE IF Is(T, i, "return") THEN
    (IF Is(T, i+1, ";") THEN Ok(i+2, [k |-> "return", val |-> FALSE, e |-> Empty], {})
     ELSE LET r == Semi(T, ExprE(T, i+1, N)) IN IF Bad(r) THEN r ELSE [r EXCEPT !.e = [k |-> "return", val |-> TRUE, e |-> r.e]])
  ELSE IF Is(T, i, "goto") THEN (IF T[i+1].k = "id" THEN Semi(T, Ok(i+2, [k |-> "goto", n |-> T[i+1].s], {})) ELSE ErrO(IF T[i+1].k = "sp" THEN {"special"} ELSE {}))
  ELSE IF Is(T, i, "case") \/ Is(T, i, "default") THEN ErrO({"nested case"})
  ELSE IF T[i].k = "id" /\ Is(T, i+1, ":") THEN ErrO({"label"})
  ELSE LET r == Semi(T, ExprE(T, i, N)) IN IF Bad(r) THEN r ELSE [r EXCEPT !.e = [k |-> "expr", e |-> r.e]]

----------------------------------------------------------------------------
(* Translation units: [i, e |-> list of top-level declarations, N, o].     *)
URes(i, e, N, o) == [i |-> i, e |-> e, N |-> N, o |-> o]
RECURSIVE Unit(_,_,_,_), Globals(_,_,_,_,_)
(* declarators after the specifiers of a top-level declaration             *)
Globals(T, i, N, t, acc) ==
  LET d == Declarator(T, i, N) IN
  IF Bad(d) THEN ErrO(d.o) ELSE IF d.n = "" THEN ErrO(d.o)
  ELSE LET ini == Is(T, d.i, "=") disp == ini /\ Is(T, d.i + 1, "{")
           r == IF ini THEN AsnE(T, d.i + 1, N) ELSE Ok(d.i, [k |-> "none"], {})
           ty == Invert(d.e, t)
           pr == ty[1] = "fn"
           fnd == d.e[1]
           x == Append(acc, IF pr /\ d.e # <<>> /\ fnd.k = "fn" THEN [k |-> "proto", n |-> d.n, ret |-> ty[2], ps |-> fnd.ps, va |-> fnd.va]
                            ELSE [k |-> "glob", n |-> d.n, t |-> ty, init |-> ini, e |-> r.e])
           o1 == d.o \cup r.o \cup (IF pr /\ (d.e = <<>>) THEN {"function through typedef"} ELSE {}) \cup (IF ini /\ ~disp /\ ~Bad(r) /\ r.e.k = "str" THEN {"string initialiser"} ELSE {}) IN
    IF disp THEN ErrO({"display"}) ELSE IF Bad(r) THEN ErrO(o1) ELSE IF ini /\ pr THEN ErrO(o1)
    ELSE IF Is(T, r.i, ";") THEN Ok(r.i + 1, x, o1)
    ELSE IF Is(T, r.i, ",") THEN (LET q == Globals(T, r.i + 1, N, t, x) IN [q EXCEPT !.o = @ \cup o1])
    ELSE ErrO(o1)
Unit(T, i, N, acc) ==
  IF T[i].k = "eof" THEN URes(i, acc, N, {})
  ELSE IF Is(T, i, "typedef") THEN
    LET s == IF TypeStart(T, i+1, N) THEN Specs(T, i+1, N, Sp0) ELSE [Sp0 EXCEPT !.o = IF Storage(T, i+1) = 0 /\ T[i+1].k = "sp" THEN {"special"} ELSE {}] IN
    IF Bad(s) THEN URes(0, acc, N, s.o)
    ELSE LET d == Declarator(T, s.i, N) o1 == s.o \cup d.o \cup (IF Is(T, s.i, ";") THEN {"declaration without name"} ELSE {}) IN
      IF Bad(d) \/ d.n = "" THEN URes(0, acc, N, o1)
      ELSE IF ~Is(T, d.i, ";") THEN URes(0, acc, N, o1 \cup (IF Is(T, d.i, ",") THEN {"typedef list"} ELSE {}))
      ELSE LET ty == Invert(d.e, s.ty) q == Unit(T, d.i + 1, (d.n :> ty) @@ N, acc \o s.d \o <<[k |-> "typedef", n |-> d.n, t |-> ty]>>) IN [q EXCEPT !.o = @ \cup o1]
  ELSE LET j == SkipStore(T, i) st == StoreSet(T, i) so == (IF st \cap {"auto", "register", "extern"} # {} THEN {"storage class"} ELSE {}) IN
    IF j - i > 1 THEN URes(0, acc, N, {})
    ELSE IF ~TypeStart(T, j, N) THEN URes(0, acc, N, IF T[j].k \in {"sp", "big"} THEN {"special"} ELSE IF Is(T, j, ";") THEN {} ELSE {})
    ELSE LET s == Specs(T, j, N, Sp0) IN
      IF Bad(s) THEN URes(0, acc, N, s.o \cup so)
      ELSE IF Is(T, s.i, ";") THEN
        (IF s.ty[1] \in {"st", "un", "en"} THEN
           (LET q == Unit(T, s.i + 1, N, acc \o s.d) IN [q EXCEPT !.o = @ \cup s.o \cup so \cup (IF s.d = <<>> \/ st # {} THEN {"declaration without name"} ELSE {})])
         ELSE URes(0, acc, N, s.o \cup so))
      ELSE LET d == Declarator(T, s.i, N) ty == Invert(d.e, s.ty) IN
        IF ~Bad(d) /\ d.n # "" /\ Is(T, d.i, "{") THEN
          (IF ty[1] # "fn" THEN URes(0, acc, N, d.o \cup s.o)
           ELSE IF d.e = <<>> \/ d.e[1].k # "fn" THEN URes(0, acc, N, d.o \cup s.o \cup {"function through typedef"})
           ELSE LET b == Items1(T, d.i + 1, N, <<>>) o1 == d.o \cup s.o \cup so \cup b.o \cup (IF ~Bad(b) /\ \E k \in DOMAIN b.e : b.e[k].k = "label" THEN {"label placement"} ELSE {}) \cup (IF \E k \in DOMAIN d.e[1].ps : d.e[1].ps[k].n = "" THEN {"unnamed parameter"} ELSE {}) IN
             IF Bad(b) THEN URes(0, acc, N, o1)
             ELSE LET q == Unit(T, b.i, N, acc \o s.d \o <<[k |-> "func", n |-> d.n, ret |-> ty[2], ps |-> d.e[1].ps, va |-> d.e[1].va, body |-> b.e]>>) IN [q EXCEPT !.o = @ \cup o1])
        ELSE LET r == Globals(T, s.i, N, s.ty, <<>>) IN
          IF Bad(r) THEN URes(0, acc, N, r.o \cup s.o \cup so)
          ELSE LET q == Unit(T, r.i, N, acc \o s.d \o r.e) IN [q EXCEPT !.o = @ \cup r.o \cup s.o \cup so]
Parse(x) == LET T == Tokens(x) IN
  IF \E k \in DOMAIN T : T[k].k = "err" THEN URes(0, <<>>, [z \in {} |-> 0], {})
  ELSE IF T[Len(T)].k # "eof" THEN URes(0, <<>>, [z \in {} |-> 0], {"literal"})
  ELSE Unit(T, 1, [z \in {} |-> 0], <<>>)
=============================================================================
