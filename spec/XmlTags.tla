------------------------------ MODULE XmlTags ------------------------------
(* Markup: a document is accepted just if its tags balance. What follows    *)
(* the root element in the stream is not the reader's concern.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxTokens, Emitting
VARIABLES open,     \* names of the elements not closed yet
          st,       \* "start", "in" the root, "done", or "bad"
          text,
          n, ev
vars == <<open, st, text, n, ev>>
Names == {"r", "a", "ab"}
Attrs == {"", " x='1'", " x = \">\" y='</r>'", "\n"}
Go(t, o, s) == /\ text' = text \o t /\ open' = o /\ st' = s /\ n' = n + 1
               /\ ev' = [op |-> "parse", text |-> text \o t, obs |-> [accepted |-> IF s = "done" THEN <<1>> ELSE <<>>]]
Open(e, a) == st \in {"start", "in"} /\ Go("<" \o e \o a \o ">", Append(open, e), "in")
Empty(e, a) == st \in {"start", "in"} /\ Go("<" \o e \o a \o "/>", open, IF st = "start" THEN "done" ELSE st)
Close(e, w) == \/ /\ st = "in"
                  /\ LET good == Last(open) = e IN
                     Go("</" \o e \o w \o ">", IF good THEN Front(open) ELSE open, IF ~good THEN "bad" ELSE IF Len(open) = 1 THEN "done" ELSE "in")
               \/ st \in {"start", "bad"} /\ Go("</" \o e \o w \o ">", open, "bad")     \* nothing is open
Other(t) == st = "in" /\ Go(t, open, st)
Misc(t) == st \in {"in", "done", "bad"} /\ Go(t, open, st)
\* an unfinished token at the end
Broken(t) == st \in {"in", "start"} /\ Go(t, open, "cut")
Init == open = <<>> /\ st = "start" /\ text = "" /\ n = 0 /\ ev = [op |-> "init"]
Next == n < MaxTokens /\ ( \/ \E e \in Names, a \in Attrs : (a # "" => n <= 2) /\ (Open(e, a) \/ Empty(e, a))
                           \/ \E e \in Names, w \in {"", " "} : (w # "" => n <= 2) /\ Close(e, w)
                           \/ \E t \in {"x", "<![CDATA[</r>]]>"} : Other(t)
                           \/ \E t \in {"<!--</a>-->", "<?p <a>?>"} : Misc(t)
                           \/ \E t \in {"<", "<a", "<a ", "<a/", "<a x", "<a x='>", "<a x=\"/>", "</", "</r", "<!", "<!--", "<!-- -- >", "<![CDATA[", "<![CDATA[ ]]", "<?p", "<?p >"} : Broken(t) )
Spec == Init /\ [][Next]_vars
Balanced == (st = "done") => open = <<>>
State == [o |-> open, s |-> st, t |-> text, n |-> n]
Emit == Emitting => PrintT(ToJson(<<State, ev', [o |-> open', s |-> st', t |-> text', n |-> n']>>))
MCView == <<open, st, text, n>>
=============================================================================
