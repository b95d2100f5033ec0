---------------------------------- MODULE CLI ----------------------------------
(***************************************************************************)
(* The three commands as machines that consume their arguments one option  *)
(* at a time.  What a command does is one library call, or a refusal that  *)
(* writes nothing.  An argument list is a Seq of texts.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, k) == SubSeq(s, k, k)
From(s, k) == IF k > Len(s) THEN "" ELSE SubSeq(s, k, Len(s))
RECURSIVE Cut(_, _, _)                      \* the parts of s between commas, from position k
Cut(s, k, start) ==
  IF k > Len(s) THEN <<From(s, start)>>
  ELSE IF Ch(s, k) = "," THEN <<IF k = start THEN "" ELSE SubSeq(s, start, k - 1)>> \o Cut(s, k + 1, k + 1)
  ELSE Cut(s, k + 1, start)
Parts(s) == Cut(s, 1, 1)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsInt(s) == Len(s) > 0 /\ \A k \in 1..Len(s) : Ch(s, k) \in Digits

\* options of the commands: name of the argument of the call, and how its value is meant
Both == ("-i" :> <<"nc_file", "text">> @@ "-v" :> <<"var_ids", "list">> @@ "-f" :> <<"float_format", "text">>
         @@ "-l" :> <<"size_limit", "int">> @@ "-e" :> <<"exclude_vars", "list">> @@ "--ffi" :> <<"requested_ffi", "int">>
         @@ "--overwrite-metadata" :> <<"na_items_to_override", "pairs">>
         @@ "--names-only" :> <<"only_return_file_names", "flag">> @@ "--no-header" :> <<"no_header", "flag">>
         @@ "--annotated" :> <<"annotation", "flag">>)
Options(cmd) ==
  CASE cmd = "nc2na"  -> Both @@ ("-o" :> <<"na_file", "text">> @@ "-d" :> <<"delimiter", "text">>)
    [] cmd = "nc2csv" -> Both @@ ("-o" :> <<"csv_file", "text">>)
    [] cmd = "na2nc"  -> ("-i" :> <<"na_file", "text">> @@ "-o" :> <<"nc_file", "text">> @@ "-m" :> <<"mode", "text">>
                          @@ "-g" :> <<"global_attributes", "tuples">> @@ "-r" :> <<"rename_variables", "pairs">>
                          @@ "-t" :> <<"time_units", "text">> @@ "-n" :> <<"time_warning", "off">>)
    [] cmd = "compare" -> ("-h" :> <<"body", "off">> @@ "--header-only" :> <<"body", "off">> @@ "-b" :> <<"header", "off">>
                           @@ "--body-only" :> <<"header", "off">> @@ "-n" :> <<"number_clever", "off">>
                           @@ "--number-strict" :> <<"number_clever", "off">> @@ "-a" :> <<"approx_equal", "flag">>
                           @@ "--approx-equal" :> <<"approx_equal", "flag">>
                           @@ "-1" :> <<"delimiter_1", "text">> @@ "--delimiter-1" :> <<"delimiter_1", "text">>
                           @@ "-2" :> <<"delimiter_2", "text">> @@ "--delimiter-2" :> <<"delimiter_2", "text">>)
Call(cmd) == CASE cmd = "nc2na" -> "convertNCToNA" [] cmd = "nc2csv" -> "convertNCToCSV" [] cmd = "na2nc" -> "convertNAToNC"
               [] cmd = "compare" -> "compareNA"
Input(cmd) == IF cmd = "na2nc" THEN "na_file" ELSE "nc_file"
TakesValue(o) == o[2] \notin {"flag", "off"}

\* what an option with a value adds to the arguments of the call: <<kind, parts>>, or << >> if it is not meaningful
Meaning(o, val) ==
  CASE o[2] = "text"  -> <<"text", <<val>> >>
    [] o[2] = "list"  -> <<"list", Parts(val)>>
    [] o[2] = "int"   -> IF IsInt(val) THEN <<"int", <<val>> >> ELSE << >>
    [] o[2] \in {"pairs", "tuples"} -> IF Len(Parts(val)) % 2 = 0 THEN <<o[2], Parts(val)>> ELSE << >>
    [] o[2] = "flag"  -> <<"true", << >> >>
    [] o[2] = "off"   -> <<"false", << >> >>

\* ------------------------------------------------------------ the machine
\* rest: what follows the options
Start == [why |-> "", args |-> [a \in {} |-> << >>], rest |-> << >>]
Refuse(st, why) == [st EXCEPT !.why = why]
Give(st, o, val) ==
  LET m == Meaning(o, val)
  IN IF m = << >> THEN Refuse(st, "value") ELSE [st EXCEPT !.args = (o[1] :> m) @@ @]

EqualsAt(s) == LET E == {k \in 1..Len(s) : Ch(s, k) = "="} IN IF E = {} THEN 0 ELSE CHOOSE k \in E : \A j \in E : k <= j
RECURSIVE Consume(_, _, _)
Consume(cmd, st, argv) ==
  LET opts == Options(cmd)
      w == argv[1]
      rest == Tail(argv)
      eq == EqualsAt(w)
      long == IF eq = 0 THEN w ELSE SubSeq(w, 1, eq - 1)
      short == SubSeq(w, 1, 2)
  IN IF st.why # "" \/ argv = << >> THEN st
     ELSE IF w = "--" THEN [st EXCEPT !.rest = rest]
     ELSE IF w = "-" \/ Len(w) = 0 \/ Ch(w, 1) # "-" THEN [st EXCEPT !.rest = argv] \* no more options
     ELSE IF Len(w) > 1 /\ Ch(w, 2) = "-" THEN                                    \* --name or --name=value
            IF long \notin DOMAIN opts THEN Refuse(st, "unknown option")
            ELSE IF ~TakesValue(opts[long])
                 THEN IF eq > 0 THEN Refuse(st, "value not expected") ELSE Consume(cmd, Give(st, opts[long], ""), rest)
            ELSE IF eq > 0 THEN Consume(cmd, Give(st, opts[long], From(w, eq + 1)), rest)
            ELSE IF rest = << >> THEN Refuse(st, "value missing")
            ELSE Consume(cmd, Give(st, opts[long], rest[1]), Tail(rest))
     ELSE IF short \notin DOMAIN opts THEN Refuse(st, "unknown option")
     ELSE IF ~TakesValue(opts[short])                                             \* -n, alone or ahead of others
          THEN Consume(cmd, Give(st, opts[short], ""), (IF Len(w) = 2 THEN << >> ELSE <<"-" \o From(w, 3)>>) \o rest)
     ELSE IF Len(w) > 2 THEN Consume(cmd, Give(st, opts[short], From(w, 3)), rest)
     ELSE IF rest = << >> THEN Refuse(st, "value missing")
     ELSE Consume(cmd, Give(st, opts[short], rest[1]), Tail(rest))

Meant(cmd, argv) ==
  LET st == Consume(cmd, Start, argv)
  IN IF st.why # "" THEN st
     ELSE IF cmd = "compare" THEN
            IF Len(st.rest) # 2 THEN Refuse(st, "number of files")
            ELSE IF {"header", "body"} \subseteq DOMAIN st.args THEN Refuse(st, "nothing to compare") ELSE st
     ELSE IF Input(cmd) \notin DOMAIN st.args \/ st.args[Input(cmd)][2][1] = "" THEN Refuse(st, "no input") ELSE st
=============================================================================
