------------------------------ MODULE MCSchema ------------------------------
(***************************************************************************)
(* The json of a whole program as the published schema describes it:       *)
(* every member with every kind of value, two of them at a time; yes what  *)
(* the schema accepts, js what the schema of the javascript package does   *)
(* ("open" where it promises nothing).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, RtIO

Absent == "absent"
V(text, yes, js) == [text |-> text, yes |-> yes, js |-> js]
Ok(text) == V(text, TRUE, "yes")
No(text) == V(text, FALSE, "no")
Text == {Ok(Absent), Ok("\"some text\""), Ok("\"\""), No("5"), No("[\"a\"]"), No("{}")}
In == "{\"type\": \"Input\", \"id\": \"in\"}"
Link(more) == "[{" \o more \o "}]"
Values(f) ==
  CASE f \in {"title", "description", "author", "license"} -> Text
    [] f = "date" -> {Ok(Absent), Ok("\"2024-02-29\""), V("5", FALSE, "open")}
    [] f = "apiVersion" -> {Ok(Absent), Ok("\"v1\""), No("\"v2\""), No("1"), No("\"\"")}
    [] f = "entryOperator" -> {Ok("\"in\""), V(Absent, FALSE, "open"), V("5", FALSE, "open"), V("[\"in\"]", FALSE, "open")}
    [] f = "output" -> {Ok(Absent), Ok("{}"), Ok("{\"in\": [\"o1\"]}"), Ok("{\"in\": [], \"ma\": [\"o1\", \"o2\"]}"), V("{\"in\": \"o1\"}", FALSE, "open"), V("{\"ma\": [1]}", FALSE, "open"),
                       V("[\"in\"]", FALSE, "open"), V("\"in\"", FALSE, "open")}
    [] f = "operators" -> {Ok("[" \o In \o "]"), Ok("[" \o In \o ", {\"type\": \"MovingAverage\", \"id\": \"ma\", \"n\": 3}]"), Ok("[{\"type\": \"Join\", \"id\": \"in\"}, {\"type\": \"Linear\", \"id\": \"l\", \"coeff\": [1, 2.5]}]"),
                          V(Absent, FALSE, "open"), No("{}"), No("5"), No("[5]"), No("[" \o In \o ", {\"type\": \"MovingAverage\", \"id\": \"ma\"}]"), No("[{\"type\": \"Nothing\", \"id\": \"in\"}]"),
                          No("[{\"type\": \"Input\"}]"), No("[{\"id\": \"in\"}]"), No("[[" \o In \o "]]"), No("[" \o In \o ", {\"type\": \"Linear\", \"id\": \"l\", \"coeff\": [1]}]")}
    [] f = "connections" -> {Ok("[]"), Ok(Link("\"from\": \"in\", \"to\": \"in\"")), Ok(Link("\"from\": \"in\", \"fromPort\": \"o1\", \"to\": \"in\", \"toPort\": \"i1\"")), V(Absent, FALSE, "open"), No("{}"), No("[\"in\"]"), No("[[]]"),
                            No(Link("\"from\": \"in\"")), No(Link("\"to\": \"in\"")), No(Link("\"from\": 5, \"to\": \"in\"")), No(Link("\"from\": \"in\", \"to\": null")), No(Link("\"from\": \"in\", \"to\": \"in\", \"fromPort\": 1")),
                            No(Link("\"from\": \"in\", \"to\": \"in\", \"toPort\": [\"i1\"]")), No(Link("\"from\": \"in\", \"to\": \"in\", \"port\": \"i1\""))}
    [] f = "colour" -> {Ok(Absent), Ok("\"red\""), Ok("7")}
Fields == <<"title", "description", "author", "license", "date", "apiVersion", "entryOperator", "output", "operators", "connections", "colour">>
Base == <<Ok("\"t\""), Ok(Absent), Ok("\"a <a@b.org>\""), Ok(Absent), Ok("\"2024-01-02\""), Ok("\"v1\""), Ok("\"in\""), Ok(Absent), Ok("[" \o In \o "]"), Ok("[]"), Ok(Absent)>>

VARIABLES doc
Init == \E i, j \in 1..Len(Fields) : i < j /\ \E v \in Values(Fields[i]), w \in Values(Fields[j]) : doc = [Base EXCEPT ![i] = v, ![j] = w]
Next == UNCHANGED doc
Spec == Init /\ [][Next]_doc

Yes(d) == \A i \in 1..Len(d) : d[i].yes
Js(d) == IF \E i \in 1..Len(d) : d[i].js = "no" THEN "no" ELSE IF \E i \in 1..Len(d) : d[i].js = "open" THEN "open" ELSE "yes"
Described == Emit([doc |-> [i \in 1..Len(Fields) |-> <<Fields[i], doc[i].text>>], yes |-> Yes(doc), js |-> Js(doc)])
\* the schemas differ only in what the javascript package leaves open
Agree == Js(doc) # "open" => (Js(doc) = "yes") = Yes(doc)
\* the change of one member never makes up for another
NoRepair == \A i \in 1..Len(doc) : ~doc[i].yes => ~Yes([doc EXCEPT ![1] = Base[1]]) \/ i = 1
=============================================================================
