--------------------------------- MODULE Fold ---------------------------------
(* The value of a constant expression: exact rational arithmetic with the     *)
(* language's operators, strings and null.  Results that single precision      *)
(* cannot hold exactly are marked and may not be used further.                *)
(*                                                                            *)
(* Values (h: the declared type a null carries): num (n/d in lowest terms, d > 0, x: exact in single precision),     *)
(* str, null, path, res(ource), list (of entries [key, hv, v]); err (a diagnosed operand), wait (needs a variable not yet *)
(* evaluated), open (the specification does not say).                         *)
EXTENDS VCommon, Bitwise

V(k, n, d, s, x) == [k |-> k, n |-> n, d |-> d, s |-> s, x |-> x, a |-> <<>>, h |-> ""]
ListV(f, a) == [V("list", 0, 1, f, TRUE) EXCEPT !.a = a]     \* list and the constructors kept as calls
Res(s) == V("res", 0, 1, s, TRUE)
Str(s) == V("str", 0, 1, s, TRUE)
Null == V("null", 0, 1, "", TRUE)
Path(s) == V("path", 0, 1, s, TRUE)
Err == V("err", 0, 1, "", TRUE)
Wait == V("wait", 0, 1, "", TRUE)
OpenV == V("open", 0, 1, "", TRUE)

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Big == 16777216                       \* 2^24
Pow2s == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Rat(n, d) == LET g == Gcd(Abs(n), d) IN
             LET nn == IF n < 0 THEN -(Abs(n) \div g) ELSE n \div g
                 dd == d \div g IN
             V("num", nn, dd, "", dd \in Pow2s /\ Abs(nn) <= Big)
IntV(n) == Rat(n, 1)
Bool(b) == IntV(IF b THEN 1 ELSE 0)

Truthy(v) == CASE v.k = "num" -> v.n # 0 [] v.k = "str" -> v.s # "" [] v.k = "null" -> FALSE [] OTHER -> TRUE
NearZero(v) == v.k = "num" /\ ~v.x /\ v.n = 0     \* a rounded zero may come out as a tiny number
Lit(v) == v.k \in {"num", "str", "null", "path", "res", "list"}

MulOk(a, b) == a = 0 \/ b = 0 \/ Abs(b) <= Big \div Abs(a)
Common(a, b) == MulOk(a.n, b.d) /\ MulOk(b.n, a.d) /\ MulOk(a.d, b.d)
FloorDiv(a, b) == a \div b            \* TLC's \div rounds down for positive divisors
RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE LET r == IPow(b, e - 1) IN IF r = -1 \/ ~MulOk(r, b) THEN -1 ELSE r * b
Cmp(a, b) == a.n * b.d - b.n * a.d
Trunc(v) == v.n \div v.d              \* used for v >= 0 only

Arith(o, a, b) ==
  IF ~(a.x /\ b.x) THEN OpenV
  ELSE CASE o = "+" -> IF Common(a, b) THEN Rat(a.n * b.d + b.n * a.d, a.d * b.d) ELSE OpenV
    [] o = "-" -> IF Common(a, b) THEN Rat(a.n * b.d - b.n * a.d, a.d * b.d) ELSE OpenV
    [] o = "*" -> IF MulOk(a.n, b.n) /\ MulOk(a.d, b.d) THEN Rat(a.n * b.n, a.d * b.d) ELSE OpenV
    [] o = "/" -> IF b.n = 0 \/ ~MulOk(a.n, b.d) \/ ~MulOk(a.d, b.n) THEN OpenV
                  ELSE IF b.n > 0 THEN Rat(a.n * b.d, a.d * b.n) ELSE Rat(-(a.n * b.d), a.d * Abs(b.n))
    [] o = "%" -> IF b.n = 0 \/ a.d # 1 \/ b.d # 1 THEN OpenV       \* whole operands; the sign is the left one's
                  ELSE IF a.n >= 0 THEN IntV(a.n % Abs(b.n)) ELSE IntV(-(Abs(a.n) % Abs(b.n)))
    [] o = "%%" -> IF b.n = 0 \/ ~Common(a, b) \/ Abs(a.n) > 4096 \/ Abs(b.n) > 4096 THEN OpenV   \* the sign is the right one's
                   ELSE LET p == a.n * b.d  r == b.n * a.d
                            q == IF r > 0 THEN FloorDiv(p, r) ELSE FloorDiv(-p, -r) IN
                        Rat(p - q * r, a.d * b.d)
    [] o = "**" -> IF a.d # 1 \/ b.d # 1 \/ b.n > 24 \/ a.n < 0 \/ b.n < -10 THEN OpenV
                   ELSE IF b.n < 0 THEN (IF a.n = 2 THEN Rat(1, IPow(2, -b.n)) ELSE OpenV)
                   ELSE LET r == IPow(a.n, b.n) IN IF r = -1 THEN OpenV ELSE IntV(r)
    [] o \in {"<", "<=", ">", ">="} ->
         IF ~Common(a, b) THEN OpenV
         ELSE LET c == Cmp(a, b) IN Bool(CASE o = "<" -> c < 0 [] o = "<=" -> c <= 0 [] o = ">" -> c > 0 [] o = ">=" -> c >= 0)
    [] o \in {"&", "|", "^"} ->
         IF a.n < 0 \/ b.n < 0 \/ Trunc(a) >= Big \/ Trunc(b) >= Big THEN OpenV
         ELSE IntV(CASE o = "&" -> Trunc(a) & Trunc(b) [] o = "|" -> Trunc(a) | Trunc(b) [] o = "^" -> Trunc(a) ^^ Trunc(b))
    [] o = "<<" -> IF a.n < 0 \/ b.n < 0 \/ Trunc(a) >= Big \/ Trunc(b) > 100 THEN OpenV
                   ELSE IF Trunc(b) >= 32 THEN Err
                   ELSE IF Trunc(b) >= 24 THEN IntV(0)
                   ELSE IntV(((Trunc(a) % (2 ^ (24 - Trunc(b)))) * (2 ^ Trunc(b))) % Big)
    [] o = ">>" -> IF a.n < 0 \/ b.n < 0 \/ Trunc(a) >= Big \/ Trunc(b) > 100 THEN OpenV
                   ELSE IF Trunc(b) >= 32 THEN Err
                   ELSE IF Trunc(b) >= 24 THEN IntV(0) ELSE IntV(Trunc(a) \div (2 ^ Trunc(b)))
    [] OTHER -> Err

Bin(o, a, b) ==
  CASE o \in {"==", "!=", "<>"} ->
         IF (a.k = "num" /\ b.k = "num" /\ ~(a.x /\ b.x)) \/ (a.k = "list" /\ b.k = "list") THEN OpenV
         ELSE Bool(([a EXCEPT !.x = TRUE, !.h = ""] = [b EXCEPT !.x = TRUE, !.h = ""]) = (o = "=="))
    [] o \in {"&&", "||"} /\ NearZero(a) -> OpenV
    [] o = "&&" -> IF Truthy(a) THEN b ELSE a
    [] o = "||" -> IF Truthy(a) THEN a ELSE b
    [] o = "+" /\ a.k = "str" /\ b.k = "str" -> Str(a.s \o b.s)
    [] a.k = "num" /\ b.k = "num" /\ ~(o \in {"==", "!=", "<>", "&&", "||"}) -> Arith(o, a, b)
    [] OTHER -> Err

Un(o, a) ==
  CASE o = "!" /\ NearZero(a) -> OpenV
    [] o = "!" -> Bool(~Truthy(a))
    [] o = "-" /\ a.k = "num" -> [a EXCEPT !.n = -@]
    [] o = "~" /\ a.k = "num" -> IF ~a.x \/ a.n < 0 \/ Trunc(a) >= Big THEN OpenV ELSE IntV(Big - 1 - Trunc(a))
    [] OTHER -> Err

HexD == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex2(n) == HexD[(n \div 16) + 1] \o HexD[(n % 16) + 1]

(* rgb(): components by position or by name, in one of several colour spaces.  *)
RgbSlot(n) == CASE n \in {"r", "red", "h", "hue"} -> 1 [] n \in {"g", "green", "s", "saturation", "c", "chroma"} -> 2
             [] n \in {"b", "blue", "v", "value", "l", "luminance", "y"} -> 3 [] n \in {"a", "alpha"} -> 4 [] n = "space" -> 5 [] OTHER -> 0
Initial(n) == SubSeq(n, 1, 1)
(* Rounded to the nearest; exactly in the middle is left open (-1).            *)
RgbRound(n, d) == IF 2 * (n % d) = d THEN -1 ELSE (2 * n + d) \div (2 * d)
RgbOfHsv(h, s, v, n) == LET k == (60 * n + h) % 360  m == Max2(0, Min2(Min2(k, 240 - k), 60)) IN RgbRound(255 * v * (6000 - s * m), 600000)
RgbOfHsl(h, s, l, n) == LET k == (30 * n + h) % 360  m == Max2(-30, Min2(Min2(k - 90, 270 - k), 30)) IN RgbRound(255 * (3000 * l - s * Min2(l, 100 - l) * m), 300000)
(* args: [name ("" by position), v]                                            *)
Rgb(args) ==
  LET n == Len(args)
      slot(i) == IF args[i].name = "" THEN i ELSE RgbSlot(args[i].name)
      names == {Initial(args[i].name) : i \in {i \in 1..n : args[i].name # "" /\ slot(i) < 4}}
      named == {i \in 1..n : slot(i) = 5}
      sp == IF named # {} THEN LET v == args[CHOOSE i \in named : TRUE].v IN IF v.k = "num" /\ v.d = 1 /\ v.n \in 0..3 THEN v.n ELSE 9
            ELSE IF names \cap {"r", "g", "b"} # {} THEN 0
            ELSE IF "h" \notin names THEN 0
            ELSE IF {"c", "y"} \subseteq names THEN 3
            ELSE IF {"s", "v"} \subseteq names THEN 1
            ELSE IF {"s", "l"} \subseteq names THEN 2 ELSE 9
      comps == {i \in 1..n : slot(i) < 5}
      limit(i) == IF slot(i) = 4 \/ sp = 0 THEN 255 ELSE IF slot(i) = 1 THEN 360 ELSE 100
      at(k) == args[CHOOSE i \in comps : slot(i) = k].v.n
      rgb == IF sp = 0 THEN <<at(1), at(2), at(3)>>
             ELSE IF sp = 1 THEN <<RgbOfHsv(at(1), at(2), at(3), 5), RgbOfHsv(at(1), at(2), at(3), 3), RgbOfHsv(at(1), at(2), at(3), 1)>>
             ELSE <<RgbOfHsl(at(1), at(2), at(3), 0), RgbOfHsl(at(1), at(2), at(3), 8), RgbOfHsl(at(1), at(2), at(3), 4)>> IN
  IF ~(n \in 3..5) \/ (\E i \in 1..n : slot(i) = 0 \/ args[i].v.k # "num") \/ sp = 9 THEN Err
  ELSE IF \E k \in 1..3 : ~\E i \in comps : slot(i) = k THEN Err
  ELSE IF ~(names \subseteq (CASE sp = 0 -> {"r", "g", "b"} [] sp = 1 -> {"h", "s", "v"} [] sp = 2 -> {"h", "s", "l"} [] OTHER -> {"h", "c", "y"})) THEN OpenV
  ELSE IF \E i \in 1..n, j \in 1..n : i # j /\ slot(i) = slot(j) THEN OpenV
  ELSE IF \E i \in comps : args[i].v.n >= 0 /\ Trunc(args[i].v) > limit(i) THEN Err
  ELSE IF \E i \in comps : args[i].v.n < 0 THEN (IF \E i \in comps : args[i].v.n <= -args[i].v.d THEN Err ELSE OpenV)
  ELSE IF \E i \in comps : args[i].v.d # 1 THEN OpenV
  ELSE IF sp = 3 \/ -1 \in {rgb[i] : i \in 1..3} THEN OpenV
  ELSE Str("#" \o Hex2(rgb[1]) \o Hex2(rgb[2]) \o Hex2(rgb[3]) \o (IF \E i \in comps : slot(i) = 4 THEN Hex2(at(4)) ELSE ""))

Trig(f, v) ==          \* in degrees, at the angles with rational results; marked inexact so that it is only compared
  IF v.k # "num" THEN Err
  ELSE IF ~v.x \/ v.d # 1 \/ Abs(v.n) > 720 THEN OpenV
  ELSE LET r(n, d) == [Rat(n, d) EXCEPT !.x = FALSE]
           a == (IF f = "sin" THEN v.n ELSE v.n + 90) % 360 IN
  CASE f \in {"sin", "cos"} /\ a \in {0, 180} -> r(0, 1)
    [] f \in {"sin", "cos"} /\ a = 90 -> r(1, 1)
    [] f \in {"sin", "cos"} /\ a = 270 -> r(-1, 1)
    [] f \in {"sin", "cos"} /\ a \in {30, 150} -> r(1, 2)
    [] f \in {"sin", "cos"} /\ a \in {210, 330} -> r(-1, 2)
    [] f = "arcsin" /\ v.n \in {-1, 0, 1} -> r(90 * v.n, 1)
    [] f = "arccos" /\ v.n \in {-1, 0, 1} -> r(90 - 90 * v.n, 1)
    [] OTHER -> OpenV

(* env.look[x]: the value of the variable named x; env.from[<<p, x>>]: of x on p;       *)
(* env.fld[<<y, x>>]: of y.x.                                                 *)
RECURSIVE Eval(_, _)
RECURSIVE Eager(_, _)
Worst(vs) ==           \* the first operand without a value, if any
  IF \E i \in 1..Len(vs) : ~Lit(vs[i]) THEN vs[CHOOSE i \in 1..Len(vs) : ~Lit(vs[i]) /\ \A j \in 1..(i - 1) : Lit(vs[j])] ELSE Null
AnyBad(vs) == \E i \in 1..Len(vs) : ~Lit(vs[i])
Eager(es, env) == [i \in 1..Len(es) |-> Eval(es[i], env)]
Eval(e, env) ==
  CASE e.k = "num" -> Rat(e.n, e.d)
    [] e.k = "str" -> Str(e.s)
    [] e.k = "null" -> Null
    [] e.k = "path" -> Path(e.s)
    [] e.k = "res" -> Res(e.s)
    [] e.k = "nameof" -> IF Len(e.a) = 1 /\ e.a[1].k = "ref" THEN Str(e.a[1].s) ELSE Err
    [] e.k = "kw" -> Eval(e.a[1], env)
    [] e.k = "call" -> Err                  \* no other function is constant
    [] e.k = "list" ->                      \* entries in order; a bare name before = is a string
         LET ks == [i \in 1..Len(e.a) |-> IF e.a[i].k # "assoc" THEN Eval(e.a[i], env)
                                           ELSE IF e.a[i].a[1].k = "ref" THEN Str(e.a[i].a[1].s) ELSE Eval(e.a[i].a[1], env)]
             xs == [i \in 1..Len(e.a) |-> IF e.a[i].k = "assoc" THEN Eval(e.a[i].a[2], env) ELSE Null]
             all == [i \in 1..(2 * Len(e.a)) |-> IF i % 2 = 1 THEN ks[(i + 1) \div 2] ELSE xs[i \div 2]] IN
         IF AnyBad(all) THEN Worst(all)
         ELSE ListV(e.s, [i \in 1..Len(e.a) |-> [key |-> ks[i], hv |-> e.a[i].k = "assoc", v |-> xs[i]]])
    [] e.k = "ref" -> IF e.s \in DOMAIN env.look THEN env.look[e.s] ELSE Err
    [] e.k = "sref" -> IF <<e.o, e.s>> \in DOMAIN env.from THEN env.from[<<e.o, e.s>>] ELSE Err
    [] e.k = "fld" -> IF <<e.o, e.s>> \in DOMAIN env.fld THEN env.fld[<<e.o, e.s>>] ELSE Err
    [] e.k = "if" ->
         LET c == Eval(e.a[1], env) IN
         IF ~Lit(c) THEN c ELSE IF NearZero(c) THEN OpenV ELSE Eval(e.a[IF Truthy(c) THEN 2 ELSE 3], env)
    [] e.k \in {"un", "bin", "trig", "rgb"} ->
         LET vs == Eager(e.a, env) IN
         IF AnyBad(vs) THEN
           \* whether an operand that is not selected may be faulty is left open
           IF e.k = "bin" /\ e.o \in {"&&", "||"} /\ Lit(vs[1]) THEN
             (IF vs[2].k = "wait" THEN Wait ELSE IF Truthy(vs[1]) = (e.o = "&&") THEN vs[2] ELSE OpenV)
           ELSE Worst(vs)
         ELSE CASE e.k = "un" -> Un(e.o, vs[1])
                [] e.k = "bin" -> Bin(e.o, vs[1], vs[2])
                [] e.k = "trig" -> IF Len(vs) # 1 THEN Err ELSE Trig(e.o, vs[1])
                [] e.k = "rgb" ->
                     Rgb([i \in 1..Len(vs) |-> [name |-> IF e.a[i].k = "kw" THEN e.a[i].o ELSE "", v |-> vs[i]]])

E(k, o, n, d, s, a) == [k |-> k, o |-> o, n |-> n, d |-> d, s |-> s, a |-> a]
==============================================================================
