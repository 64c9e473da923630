------------------------------ MODULE Patterns ------------------------------
(* Patterns: as they are written (s), and as expressions (r).                *)
EXTENDS Regex

B(n) == <<"set", {n}>>
Any == <<"any">>
RECURSIVE Lit(_, _)
Lit(bytes, i) == IF i > Len(bytes) THEN <<"eps">> ELSE IF i = Len(bytes) THEN B(bytes[i]) ELSE <<"cat", B(bytes[i]), Lit(bytes, i + 1)>>
L(bytes) == Lit(bytes, 1)
Cat(q, r) == <<"cat", q, r>>
Alt(q, r) == <<"alt", q, r>>
Star(r) == <<"star", r>>
Lazy(r) == <<"lazy", r>>
Opt(r) == <<"opt", r>>
Grp(r) == <<"grp", r>>
Plus(r) == Cat(r, Star(r))

\* for small buffers: markers are 1 2, other bytes are 3 and 4
Small == <<
  [s |-> "\\x03",                       r |-> B(3)],
  [s |-> "\\x03\\x04",                  r |-> L(<<3, 4>>)],
  [s |-> "\\x04.*\\x03",                r |-> Cat(B(4), Cat(Star(Any), B(3)))],
  [s |-> "\\x03(.*?)\\x04",             r |-> Cat(B(3), Cat(Grp(Lazy(Any)), B(4)))],
  [s |-> "(\\x03)|\\x04",               r |-> Alt(Grp(B(3)), B(4))],
  [s |-> "\\x03\\x01|(\\x03)",          r |-> Alt(L(<<3, 1>>), Grp(B(3)))],
  [s |-> "\\x03(\\x04)?",               r |-> Cat(B(3), Opt(Grp(B(4))))],
  [s |-> "[\\x03\\x04]+",               r |-> Plus(<<"set", {3, 4}>>)],
  [s |-> "([\\x03\\x04]+)\\x04",        r |-> Cat(Grp(Plus(<<"set", {3, 4}>>)), B(4))],
  [s |-> "\\x02(\\x03)",                r |-> Cat(B(2), Grp(B(3)))],
  [s |-> "\\x01\\x02",                  r |-> L(<<1, 2>>)],
  [s |-> "\\x04\\x01\\x02\\x03|\\x04()",r |-> Alt(L(<<4, 1, 2, 3>>), Cat(B(4), Grp(<<"eps">>)))],
  [s |-> "\\x02\\x03\\x03|(\\x03)",     r |-> Alt(L(<<2, 3, 3>>), Grp(B(3)))],
  [s |-> "()\\x03*",                    r |-> Cat(Grp(<<"eps">>), Star(B(3)))],
  [s |-> "(?s-u:(.))\\x01",             r |-> Cat(Grp(<<"set", 0..255>>), B(1))] >>
NotEmpty == {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15}      \* those that need at least one byte

HelloWorld == <<72, 101, 108, 108, 111, 32, 87, 111, 114, 108, 100>>
Hello == SubSeq(HelloWorld, 1, 5)
World == SubSeq(HelloWorld, 6, 11)
HSpaceWorld == Cat(B(72), Cat(Star(Any), L(World)))

\* for DLT buffers
Text == <<
  [s |-> "H.* World",                    r |-> HSpaceWorld],
  [s |-> "Hello World",                  r |-> L(HelloWorld)],
  [s |-> "Hello( World)?",               r |-> Cat(L(Hello), Opt(Grp(L(World))))],
  [s |-> "(Hel+o).*?(?:World|DLT)",      r |-> Cat(Grp(Cat(L(<<72, 101>>), Cat(Plus(B(108)), B(111)))), Cat(Lazy(Any), Alt(L(<<87, 111, 114, 108, 100>>), L(<<68, 76, 84>>))))],
  [s |-> "World|(H)",                    r |-> Alt(L(<<87, 111, 114, 108, 100>>), Grp(B(72)))],
  [s |-> "\\x01(.)",                     r |-> Cat(B(1), Grp(Any))],
  [s |-> "(?-u:([\\x80-\\xff]))(.*)",    r |-> Cat(Grp(<<"set", 128..255>>), Star(Any))],
  [s |-> "ECU(1|2)",                     r |-> Cat(L(<<69, 67, 85>>), Grp(Alt(B(49), B(50))))],
  [s |-> "LT",                           r |-> L(<<76, 84>>)],
  [s |-> "T\\x01|(\\x01)",               r |-> Alt(L(<<84, 1>>), Grp(B(1)))] >>
=============================================================================
