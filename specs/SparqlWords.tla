----------------------------- MODULE SparqlWords -----------------------------
(* The words of the query language as character codes, and the IRIs that abbreviations stand for. *)
W == [
 prefix |-> <<112,114,101,102,105,120>>,
 select |-> <<115,101,108,101,99,116>>,
 construct |-> <<99,111,110,115,116,114,117,99,116>>,
 distinct |-> <<100,105,115,116,105,110,99,116>>,
 reduced |-> <<114,101,100,117,99,101,100>>,
 count |-> <<99,111,117,110,116>>,
 duplicates |-> <<100,117,112,108,105,99,97,116,101,115>>,
 where |-> <<119,104,101,114,101>>,
 as |-> <<97,115>>,
 from |-> <<102,114,111,109>>,
 group |-> <<103,114,111,117,112>>,
 by |-> <<98,121>>,
 having |-> <<104,97,118,105,110,103>>,
 order |-> <<111,114,100,101,114>>,
 limit |-> <<108,105,109,105,116>>,
 offset |-> <<111,102,102,115,101,116>>,
 asc |-> <<97,115,99>>,
 desc |-> <<100,101,115,99>>,
 optional |-> <<111,112,116,105,111,110,97,108>>,
 filter |-> <<102,105,108,116,101,114>>,
 bind |-> <<98,105,110,100>>,
 values |-> <<118,97,108,117,101,115>>,
 minus |-> <<109,105,110,117,115>>,
 union |-> <<117,110,105,111,110>>,
 true |-> <<116,114,117,101>>,
 false |-> <<102,97,108,115,101>>,
 min |-> <<109,105,110>>,
 max |-> <<109,97,120>>,
 sum |-> <<115,117,109>>,
 avg |-> <<97,118,103>>,
 sample |-> <<115,97,109,112,108,101>>,
 group_concat |-> <<103,114,111,117,112,95,99,111,110,99,97,116>>,
 separator |-> <<115,101,112,97,114,97,116,111,114>>,
 str |-> <<115,116,114>>,
 xsd |-> <<120,115,100>>,
 decimal |-> <<100,101,99,105,109,97,108>>,
 double |-> <<100,111,117,98,108,101>>,
 float |-> <<102,108,111,97,116>>,
 string |-> <<115,116,114,105,110,103>>,
 lang |-> <<108,97,110,103>>,
 contains |-> <<99,111,110,116,97,105,110,115>>,
 langmatches |-> <<108,97,110,103,109,97,116,99,104,101,115>>,
 datatype |-> <<100,97,116,97,116,121,112,101>>,
 bound |-> <<98,111,117,110,100>>,
 sameterm |-> <<115,97,109,101,116,101,114,109>>,
 isiri |-> <<105,115,105,114,105>>,
 isuri |-> <<105,115,117,114,105>>,
 isblank |-> <<105,115,98,108,97,110,107>>,
 isliteral |-> <<105,115,108,105,116,101,114,97,108>>,
 regex |-> <<114,101,103,101,120>>,
 replace |-> <<114,101,112,108,97,99,101>>,
 in |-> <<105,110>>,
 not |-> <<110,111,116>>,
 exists |-> <<101,120,105,115,116,115>>,
 a |-> <<97>>]
RdfType == <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,49,57,57,57,47,48,50,47,50,50,45,114,100,102,45,115,121,110,116,97,120,45,110,115,35,116,121,112,101>>
Xsdinteger == <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,50,48,48,49,47,88,77,76,83,99,104,101,109,97,35,105,110,116,101,103,101,114>>
Xsddecimal == <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,50,48,48,49,47,88,77,76,83,99,104,101,109,97,35,100,101,99,105,109,97,108>>
Xsdboolean == <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,50,48,48,49,47,88,77,76,83,99,104,101,109,97,35,98,111,111,108,101,97,110>>
==============================================================================
