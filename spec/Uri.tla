-------------------------------- MODULE Uri --------------------------------
(***************************************************************************)
(* RFC 3986 for fastgltf::URI / URIView.  A text is a sequence of tokens   *)
(* (single characters or percent-encoded triplets).  Split is the RFC's    *)
(* appendix B splitter plus the authority grammar, Valid the reference     *)
(* grammar, Compose section 5.3.  Percent-decoding happens per component,  *)
(* after splitting.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,       \* length of the enumerated texts
          Mode          \* "texts": all short texts;  "compose": composed URIs

Alphabet == {"a", "1", ":", "/", "?", "#", "@", "[", "]", "%2F", "%3a", "%", "."}
Dec(t) == CASE t = "%2F" -> "/" [] t = "%3a" -> ":" [] t = "%3F" -> "?" [] t = "%23" -> "#" [] t = "%40" -> "@" [] t = "%25" -> "%" [] t = "%20" -> " "
            [] OTHER -> t
RECURSIVE Text(_), DecText(_)
Text(s) == IF s = <<>> THEN "" ELSE Head(s) \o Text(Tail(s))
DecText(s) == IF s = <<>> THEN "" ELSE Dec(Head(s)) \o DecText(Tail(s))

\* first position >= i of a token in set S, or Len(s) + 1
RECURSIVE Find(_, _, _)
Find(s, i, S) == IF i > Len(s) THEN i ELSE IF s[i] \in S THEN i ELSE Find(s, i + 1, S)
Sub(s, i, j) == IF i > j THEN <<>> ELSE SubSeq(s, i, j)

NoAuth == [userinfo |-> <<>>, host |-> <<>>, port |-> <<>>, ok |-> TRUE]
SplitAuth(s) ==
    LET at  == Find(s, 1, {"@"})
        ui  == IF at <= Len(s) THEN Sub(s, 1, at - 1) ELSE <<>>
        hp  == IF at <= Len(s) THEN Sub(s, at + 1, Len(s)) ELSE s
        ip  == hp # <<>> /\ hp[1] = "["
        cl  == Find(hp, 1, {"]"})
        co  == Find(hp, 1, {":"})
        host == IF ip THEN Sub(hp, 2, cl - 1) ELSE Sub(hp, 1, co - 1)
        rest == IF ip THEN Sub(hp, cl + 1, Len(hp)) ELSE Sub(hp, co, Len(hp))
    IN [userinfo |-> ui, host |-> host, port |-> Sub(rest, 2, Len(rest)),
        ok |-> (~ip \/ cl <= Len(hp)) /\ (rest = <<>> \/ rest[1] = ":")]

\* RFC 3986 appendix B:  ^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?
Split(s) ==
    LET c   == Find(s, 1, {":", "/", "?", "#"})
        hasScheme == c > 1 /\ c <= Len(s) /\ s[c] = ":"
        i1  == IF hasScheme THEN c + 1 ELSE 1
        hasAuth == i1 + 1 <= Len(s) /\ s[i1] = "/" /\ s[i1 + 1] = "/"
        ae  == IF hasAuth THEN Find(s, i1 + 2, {"/", "?", "#"}) ELSE i1
        h   == Find(s, ae, {"#"})
        q   == Find(s, ae, {"?", "#"})
        hasQ == q <= Len(s) /\ s[q] = "?"
        auth == IF hasAuth THEN SplitAuth(Sub(s, i1 + 2, ae - 1)) ELSE NoAuth
    IN [scheme |-> IF hasScheme THEN Sub(s, 1, c - 1) ELSE <<>>, hasAuth |-> hasAuth,
        userinfo |-> auth.userinfo, host |-> auth.host, port |-> auth.port, authOk |-> auth.ok,
        path |-> Sub(s, ae, q - 1),
        query |-> IF hasQ THEN Sub(s, q + 1, h - 1) ELSE <<>>,
        fragment |-> Sub(s, h + 1, Len(s))]

Letters == {"a", "b", "x", "scheme", "file", "http", "data", "name"}
Digits == {"1", "80"}
Unres == Letters \cup Digits \cup {".", "-", "_", "~"}
Pct == {"%2F", "%3a", "%3F", "%23", "%40", "%25", "%20"}
SubDelims == {"=", "&", "+", ",", ";", "!"}
PChar == Unres \cup Pct \cup SubDelims \cup {":", "@"}
All(s, S) == \A i \in DOMAIN s : s[i] \in S
IsIp(s) == s # <<>> /\ All(s, {"a", "1", ":", "."})
HostOk(s, bracket) == IF bracket THEN IsIp(s) ELSE All(s, Unres \cup Pct \cup SubDelims)
\* the bracket form is lost by Split; recover it from the text
Bracketed(s) == \E i \in DOMAIN s : s[i] = "["

Valid(s) ==
    LET p == Split(s) IN
    /\ s # <<>>
    /\ p.scheme # <<>> => (p.scheme[1] \in Letters /\ All(p.scheme, Letters \cup Digits \cup {".", "+", "-"}))
    /\ p.authOk
    /\ All(p.userinfo, Unres \cup Pct \cup SubDelims \cup {":"})
    /\ HostOk(p.host, Bracketed(s)) /\ All(p.port, Digits)
    /\ Cardinality({i \in DOMAIN s : s[i] \in {"[", "]"}}) \in {0, 2}
    /\ All(p.path, PChar \cup {"/"}) /\ All(p.query, PChar \cup {"/", "?"}) /\ All(p.fragment, PChar \cup {"/", "?"})
    /\ (p.scheme = <<>> /\ ~p.hasAuth) => LET e == Find(p.path, 1, {"/"}) IN \A i \in 1..(e - 1) : p.path[i] # ":"
    /\ (p.hasAuth /\ p.path # <<>>) => p.path[1] = "/"
    /\ (~p.hasAuth /\ Len(p.path) >= 2) => ~(p.path[1] = "/" /\ p.path[2] = "/")

Expect(s) ==
    LET p == Split(s) IN
    [string |-> DecText(s), scheme |-> DecText(p.scheme), userinfo |-> DecText(p.userinfo), host |-> DecText(p.host),
     port |-> DecText(p.port), path |-> DecText(p.path), query |-> DecText(p.query), fragment |-> DecText(p.fragment),
     valid |-> TRUE, data |-> p.scheme = <<"data">>,
     local |-> p.scheme = <<>> \/ (p.scheme = <<"file">> /\ p.host = <<>>)]
\* the non-decoding URIView shows the raw text
ExpectView(s) ==
    LET p == Split(s) IN
    [string |-> Text(s), scheme |-> Text(p.scheme), userinfo |-> Text(p.userinfo), host |-> Text(p.host),
     port |-> Text(p.port), path |-> Text(p.path), query |-> Text(p.query), fragment |-> Text(p.fragment),
     valid |-> TRUE, data |-> p.scheme = <<"data">>,
     local |-> p.scheme = <<>> \/ (p.scheme = <<"file">> /\ p.host = <<>>)]

----------------------------------------------------------------------------
(* composed URIs: every combination of component variants *)
NONE == <<"none">>
Schemes == {NONE, <<"a">>, <<"scheme", "+", "1">>, <<"file">>}
UserInfos == {NONE, <<>>, <<"a">>, <<"a", ":", "1">>, <<"%40", "b">>}
Hosts == {<<>>, <<"a", ".", "x">>, <<"[", "1", ":", ":", "a", "]">>, <<"%2F">>}
Ports == {NONE, <<>>, <<"80">>, <<"1", "80">>}
Paths == {<<>>, <<"/">>, <<"/", "a">>, <<"a">>, <<"a", "/", "b", ".", "x">>, <<"a", "%3F", "b">>, <<"/", "%23", "%25", "2", "0">>, <<"/", "a", ":", "@">>,
          <<"name", "%20", "x">>}
Queries == {NONE, <<>>, <<"a", "=", "1">>, <<"/", "?", ":">>, <<"%23">>}
Frags == {NONE, <<>>, <<"a">>, <<"?", "/", "a">>, <<"%3F", "@">>}

Comps == [scheme : Schemes, userinfo : UserInfos, host : Hosts \cup {NONE}, port : Ports, path : Paths, query : Queries, fragment : Frags]
Opt(pre, s, post) == IF s = NONE THEN <<>> ELSE pre \o s \o post
Compose(c) ==
    Opt(<<>>, c.scheme, <<":">>)
      \o (IF c.host = NONE THEN <<>> ELSE <<"/", "/">> \o Opt(<<>>, c.userinfo, <<"@">>) \o c.host \o Opt(<<":">>, c.port, <<>>))
      \o c.path \o Opt(<<"?">>, c.query, <<>>) \o Opt(<<"#">>, c.fragment, <<>>)
Unb(s) == IF s # <<>> /\ s[1] = "[" THEN Sub(s, 2, Len(s) - 1) ELSE s
Canon(c) == IF c.host = NONE THEN c.userinfo = NONE /\ c.port = NONE
            ELSE c.path = <<>> \/ c.path[1] = "/"

VARIABLES text, comp
Init == \/ Mode = "texts" /\ text = <<>> /\ comp = <<>>
        \/ Mode = "compose" /\ comp \in {c \in Comps : Canon(c) /\ Valid(Compose(c))} /\ text = Compose(comp)
Extend == Mode = "texts" /\ Len(text) < MaxLen /\ \E t \in Alphabet : text' = Append(text, t) /\ UNCHANGED comp
Next == Extend
Spec == Init /\ [][Next]_<<text, comp>>

\* composing and splitting are inverse (an absent component is exposed as the empty one)
E0(s) == IF s = NONE THEN <<>> ELSE s
RoundTrip == Mode = "compose" =>
    LET p == Split(text) IN
    /\ p.scheme = E0(comp.scheme) /\ p.userinfo = E0(comp.userinfo) /\ p.host = Unb(E0(comp.host)) /\ p.port = E0(comp.port)
    /\ p.path = comp.path /\ p.query = E0(comp.query) /\ p.fragment = E0(comp.fragment)
\* splitting loses nothing but delimiters
Partition == LET p == Split(text) IN p.authOk =>
    Len(p.scheme) + Len(p.userinfo) + Len(p.host) + Len(p.port) + Len(p.path) + Len(p.query) + Len(p.fragment) <= Len(text)

Emit == PrintT("@@" \o ToJson([text |-> Text(text), judged |-> Valid(text),
            exp |-> IF Valid(text) THEN <<Expect(text), ExpectView(text)>> ELSE <<>>]))
============================================================================
