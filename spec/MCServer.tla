------------------------------ MODULE MCServer ------------------------------
(***************************************************************************)
(* The server between a websocket, redis and its clients.                  *)
(*   way      what it is configured with: all of it, no redis, no input    *)
(*   added    the samples that it added to its series, in order            *)
(*   said     how many results redis has published                         *)
(*   clients  each [at, from, till, waits]: at is "live", "stalled" (takes *)
(*            nothing for now) or "gone"; it has got the results from+1 .. *)
(*            till, waits more of them are waiting for it                  *)
(* A message of the websocket is                                           *)
(*   good     it has a time and a value that redis takes                   *)
(*   more     it has further values                                        *)
(*   refused  redis does not take it                                       *)
(*   words, novalue, notime, notjson, ping, binary: it has no time and     *)
(*            value in the places that the configuration says              *)
(***************************************************************************)
EXTENDS RtIO, FiniteSets, TLC

Depth == EnvI("RT_LEN", 5)
Ways == {"all", "noredis", "noinput"}
Sent == {"good", "more", "refused", "words", "novalue", "notime", "notjson", "ping", "binary"}
Paths == <<"/health-check", "/nothing">>
\* many results at once, while someone takes them: there is no bound on what waits for a client
Bursts == IF EnvI("RT_WALK", 0) = 1 THEN {40, 1100} ELSE {20}
VARIABLES way, st, hist
vars == <<way, st, hist>>
Init == /\ way \in Ways
        /\ st = [added |-> <<>>, said |-> 0, clients |-> <<>>]
        /\ hist = <<>>

Clients == 1..Len(st.clients)
\* all the results from the time of its arrival on, as long as it takes them
Published(c, n) == CASE c.at = "live" -> [c EXCEPT !.till = @ + n]
                  [] c.at = "stalled" -> [c EXCEPT !.waits = @ + n]
                  [] OTHER -> c
Resumed(c) == [c EXCEPT !.at = "live", !.till = @ + c.waits, !.waits = 0]
Took(kind, k) == IF kind \in {"good", "more"} THEN << <<kind, k>> >> ELSE <<>>
Publishing(s, n) == [s EXCEPT !.said = @ + n, !.clients = [i \in DOMAIN s.clients |-> Published(s.clients[i], n)]]
Receiving(s, kind, k) == [s EXCEPT !.added = @ \o Took(kind, k)]

Shown(s) == [added |-> s.added, got |-> [i \in DOMAIN s.clients |-> << s.clients[i].from, s.clients[i].till >>], at |-> [i \in DOMAIN s.clients |-> s.clients[i].at]]
Late == 99 + Len(st.added) + 2000
\* in the end all that are still there take what waits for them, and the server still does its work
Ended(s) == LET t == [s EXCEPT !.clients = [i \in DOMAIN s.clients |-> IF s.clients[i].at = "stalled" THEN Resumed(s.clients[i]) ELSE s.clients[i]]]
            IN  IF way = "all" THEN Publishing(Receiving(t, "good", Late), 1) ELSE t
Take(a, s) ==
  /\ st' = s
  /\ hist' = Append(hist, a)
  /\ UNCHANGED way
  /\ Emit([way |-> way, hist |-> hist', now |-> Shown(s), later |-> Shown(Ended(s)), late |-> Late])
\* later than all that was added
Clock == Len(hist) + 1 + Len(st.added)
Many(s, n) == [s EXCEPT !.added = @ \o [i \in 1..n |-> <<"good", Clock + i - 1>>]]
Next ==
  /\ Len(hist) < Depth
  /\ \/ way = "all" /\ \E kind \in Sent : Take(<<"in", kind, Clock>>, Receiving(st, kind, Clock))
     \/ way = "all" /\ \E n \in Bursts : n # 20 /\ Len(st.added) < 30 /\ Take(<<"ins", n, Clock>>, Many(st, n))
     \/ way = "all" /\ Take(<<"pub", 1>>, Publishing(st, 1))
     \/ way = "all" /\ \E n \in Bursts : st.said < 50 /\ (\E i \in Clients : st.clients[i].at = "live") /\ Take(<<"pub", n>>, Publishing(st, n))
     \/ Len(st.clients) < 3 /\ Take(<<"connect">>, [st EXCEPT !.clients = Append(@, [at |-> "live", from |-> st.said, till |-> st.said, waits |-> 0])])
     \/ \E i \in Clients :
          \/ st.clients[i].at = "live" /\ Take(<<"stall", i>>, [st EXCEPT !.clients[i].at = "stalled"])
          \/ st.clients[i].at = "stalled" /\ Take(<<"resume", i>>, [st EXCEPT !.clients[i] = Resumed(@)])
          \/ st.clients[i].at # "gone" /\ Take(<<"leave", i>>, [st EXCEPT !.clients[i].at = "gone", !.clients[i].waits = 0])
     \/ \E k \in 1..2 : Take(<<"get", k>>, st)
Spec == Init /\ [][Next]_vars
View == <<way, st, Len(hist), IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>

\* nobody gets a result twice or from before its arrival, and who is there and takes them has all of them
InOrder == \A i \in Clients : LET c == st.clients[i] IN
             /\ c.from <= c.till /\ c.till + c.waits <= st.said
             /\ c.at = "live" => c.till = st.said
             /\ c.at = "stalled" => c.till + c.waits = st.said
\* samples are in the order of arrival
SamplesInOrder == \A i \in 1..Len(st.added) - 1 : st.added[i][2] < st.added[i + 1][2]
\* one client's doings change nothing for the others, nor the series
Apart == [][hist'[Len(hist')][1] \in {"stall", "resume", "leave"} =>
             /\ st'.added = st.added
             /\ \A i \in Clients : i # hist'[Len(hist')][2] => st'.clients[i] = st.clients[i]]_vars
=============================================================================
