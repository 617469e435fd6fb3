------------------------------ MODULE XmlText ------------------------------
(* Character data: what each way of writing it means. Content is built of   *)
(* forms; every form is decoded once, on its own, and what comes before or  *)
(* after makes no difference.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxForms, Emitting
VARIABLES text, meaning, n, ev
vars == <<text, meaning, n, ev>>
F(t, m) == [t |-> t, m |-> m]
Forms == { F("ab", "ab"), F(" ", " "), F("\n", "\n"), F("lt;", "lt;"), F("#65;", "#65;"), F("&lt;", "<"), F("&amp;", "&"), F("&gt;", ">"), F("&quot;", "\""), F("&apos;", "'"),
           F("&#65;", "A"), F("&#x3c;", "<"), F("&#0038;", "&"), F("]", "]"), F("'", "'"), F("\"", "\""), F("/", "/"), F("=", "="), F("!--", "!--"), F("?", "?"),
           F("<![CDATA[<a>&lt;]]>", "<a>&lt;"), F("<![CDATA[]]>", ""), F("<![CDATA[]]]>", "]"), F("<!-- <a> ' -->", ""), F("<!---->", ""), F("<?p <a> \" ?>", "") }
Init == text = "" /\ meaning = "" /\ n = 0 /\ ev = [op |-> "init"]
Next == n < MaxForms /\ \E f \in Forms :
          /\ text' = text \o f.t /\ meaning' = meaning \o f.m /\ n' = n + 1
          /\ ev' = [op |-> "content", text |-> text', obs |-> [ret |-> "ok", val |-> meaning']]
Spec == Init /\ [][Next]_vars
State == [t |-> text, m |-> meaning, n |-> n]
Emit == Emitting => PrintT(ToJson(<<State, ev', [t |-> text', m |-> meaning', n |-> n']>>))
MCView == <<text, meaning, n>>
=============================================================================
