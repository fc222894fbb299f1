-------------------------------- MODULE Editor --------------------------------
(* The environment again, at the level of tokens: one sentence for every      *)
(* production of the language, and somebody who deletes, inserts or replaces  *)
(* tokens in it.  Every state is a text, printed as indices and then given to *)
(* the real program; whether it is still a sentence, what it says or where    *)
(* the first error is, is for Grammar to say (Trace).                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Strs

Kind == IOEnv.KIND          \* te, if, spt or av
Te == <<
  "type a ;", "type a , b ;", "type a , b , c ;", "type a alias b ;", "type a alias { b c } , d ;", "attribute a ;", "bool b ;", "role r ;", "role r types t ;",
  "role r types { t u } ;", "attribute_role ar ;", "class c p ;", "class c { p q } ;", "gen_bool ( b , true )", "gen_tunable ( b , false )", "gen_tunable ( ` b ' , true )",
  "typeattribute t a ;", "typeattribute t a , b ;", "roleattribute r a ;", "roleattribute r a , b ;", "typealias t alias a ;", "typealias t alias { a b } ;",
  "allow a b : c d ;", "allow { a - b } { c d } : { e f } { g h } ;", "allow ~ a ~ { b c } : d * ;", "allow a b ;", "allow * \"q\" : c ~ d ;", "auditallow a b : c d ;", "dontaudit a self : c { d e } ;",
  "neverallow ~ { a b } * : c * ;", "allowxperm a b : c ioctl 0x10 ;", "auditallowxperm a b : c ioctl { 0x10 1 - 2 } ;", "dontauditxperm a b : c ioctl ~ { 0x1 } ;", "neverallowxperm a b : { c d } ioctl ~ 7 ;",
  "type_transition a b : c d ;", "type_transition { a b } c : { d e } f \"g\" ;", "type_member a b : c d ;", "type_change a b : c d ;", "range_transition a b : c s0 ;", "range_transition a b : c s0 - s0 : c0 . c5 ;",
  "range_transition a b : c s0 : c1 - s1 : c2 ;", "role_transition r t n ;", "role_transition r { t u } : c n ;", "call ( )", "call ( a )", "call ( a , b )", "call ( a b , { c d } , ~ e , - f )",
  "call ( ` a b ' , ` ' , \"q\" )", "call ( 12 , 0x1 , { 1 a } )", "word", "optional_policy ( ` ; ' )", "optional_policy ( ` ' )", "optional_policy ( ` #selint-disable:W-001 ; ' , ` ; ; ' )",
  "optional_policy ( ` #selint-disable:W-001 ' )", "require { type a ; }", "require { type a , b ; attribute c ; role r ; attribute_role ar ; bool b ; class c { p } ; #x }",
  "require { #selint-disable:W-001 type a ; #selint-disable:W-002 }", "gen_require ( ` type a ; ' )", "gen_require ( ` class c p ; ifdef ( ` x ' , ` type a ; ' ) ' )", "gen_require ( type a ; )",
  "gen_require ( #selint-disable:W-001 ` #selint-disable:W-002 type a ; ' )", "gen_require ( ` ifdef ( ` x ' , type a ; ) ifndef ( ` y ' , ` bool b ; ' ) ' )", "ifdef ( ` x ' , ` ; ' )", "ifndef ( ` x ' , ` ; ' , ` ; ; ' )",
  "ifdef ( ` x ' , ` ' )", "ifdef ( ` x ' , a )", "ifdef ( ` x ' , , )", "ifelse ( ` a ' , ` b ' , ` ; ' , ` ; ' )", "ifelse ( a , ` ' , , ` ; ' )", "ifelse ( )", "refpolicywarn ( ` a b ' )", "refpolicywarn ( ` a ( b ) { c } , . : ; - ` d ' ' )",
  "userdebug_or_eng ( ` ; ' )", "tunable_policy ( ` x ' , ` ; ' )", "tunable_policy ( ` x && ! y || ( z ^ w ) == v != u ' , ` ; ' , ` ; ' )", "tunable_policy ( x , ` ; ' )", "tunable_policy ( ! x , )", "if ( x ) { ; }",
  "if ( x && ( ! y ) ) { ; } else { ; ; }", "if ( #selint-disable:W-001 x ) { ; } #selint-disable:W-002", "genfscon proc / a:b:c", "genfscon a:b:c", "genfscon proc /x -d gen_context ( a : b : c )", "genfscon 9p /x gen_context ( a : b : c , s0 )", "sid k a : b : c",
  "sid k a : b : c : s0 - s1 : c0", "sid k gen_context ( a : b : c , s0 - s0 : c0 . c1 , c0 )", "sid k gen_context ( a : b : c , s0 , )", "portcon tcp 1 a : b : c", "portcon tcp 1 - 2 a : b : c", "portcon tcp 1-2 gen_context ( a : b : c , s0 )",
  "netifcon lo a : b : c gen_context ( a : b : c )", "nodecon 10.0.0.1 255.0.0.0 a : b : c", "nodecon ::1 ffff:: a : b : c", "fs_use_trans x a : b : c ;", "fs_use_xattr x gen_context ( a : b : c , s0 ) ;", "fs_use_task x a : b : c ;",
  "define ( a )", "define ( ` a ' )", "define ( ` a ' , ` b c ' )", "define ( ` a ' , b )", "define ( a , )", "gen_user ( u , p , r , s0 , s0 )", "gen_user ( u , , r q , s0 , s0 - s1 : c0 , s0 )", "gen_user ( , , r , s0 , s0 )", "permissive t ;",
  "typebounds a b ;", ";", "#comment", "; #selint-disable:S-003 ;", "allow a b : c d ; #selint-disable:C-001" >>
If == <<
  "interface ( ` a ' , ` ; ' )", "template ( ` a ' , ` type b ; ' )", "interface ( ` a ' , ` ' )", "interface ( ` a ' , ` #selint-disable:C-004 ' )", "interface ( ` a ' , ` #selint-disable:C-004 allow a b : c d ; #selint-disable:W-002 ' )",
  "#a interface ( ` a ' , ` ; ' ) #b template ( ` b ' , ` ; ' ) #c", "#a", "interface ( ` a ' , ` optional_policy ( ` ; ' ) if ( x ) { ; } ' )", "interface ( ` a ' , ` gen_require ( ` type a ; ' ) ' )", "template ( ` a ' , ` call ( a , b ) #x ' )" >>
Spt == <<
  "define ( ` a_perms ' , ` { a b } ' )", "define ( ` a_perms ' , ` a ' )", "define ( ` a_perms ' , ` { a } refpolicywarn ( ` x y ' ) ' )", "#a", "define ( ` a_perms ' , ` ~ { a - b } ' ) #c define ( ` b_perms ' , ` { a_perms c } ' )",
  "define ( ` a_perms ' , ` * ' ) define ( ` x ' , ` \"q\" ' )" >>
Av == <<
  "class c { a b }", "class c inherits d", "class c inherits d { a }", "common c { a }", "common c { a #x b } #y class d { #x a }", "class file { read } class dir { write } common x { open }", "class a inherits b class c { d }" >>
Sentences == CASE Kind = "te" -> Te [] Kind = "if" -> If [] Kind = "spt" -> Spt [] OTHER -> Av
\* One of every kind of token.
Vocabulary == <<
  "(", ")", ",", ".", "{", "}", ":", ";", "`", "'", "~", "*", "-", "^", "!", "&&", "||", "!=", "==", "a", "$1", "12", "0x10", "1.0", "10.0.0.1", "::1", "\"q\"", "-d", "#comment", "#selint-disable:W-001", "@", "&", "x-y", "1a:b",
  "policy_module", "module", "type", "typealias", "alias", "attribute", "bool", "typeattribute", "roleattribute", "role", "types", "attribute_role", "allow", "allowxperm", "auditallow", "auditallowxperm", "dontaudit", "dontauditxperm",
  "neverallow", "neverallowxperm", "type_transition", "type_member", "type_change", "range_transition", "role_transition", "optional_policy", "gen_require", "gen_bool", "gen_tunable", "require", "tunable_policy", "ifelse",
  "refpolicywarn", "class", "common", "inherits", "if", "else", "ifdef", "ifndef", "genfscon", "sid", "portcon", "netifcon", "nodecon", "fs_use_trans", "fs_use_xattr", "fs_use_task", "define", "gen_user", "gen_context", "permissive",
  "typebounds", "interface", "template", "userdebug_or_eng" >>
ASSUME PrintT("SENTENCES " \o ToJson([s |-> Sentences, v |-> Vocabulary]))

RECURSIVE Words(_)
Words(s) == LET j == Index(s, " ") IN IF j = 0 THEN 1 ELSE 1 + Words(Drop(s, j))

VARIABLES which, edit       \* edit: <<>>, or <<position, token put there (0: none), tokens taken away>>
Init == which \in 1..Len(Sentences) /\ edit = <<>>
Next ==
  /\ edit = <<>> /\ UNCHANGED which
  /\ LET n == Words(Sentences[which])
     IN \E i \in 1..(n + 1), t \in 0..Len(Vocabulary), gone \in 0..1 :
          /\ gone = 1 => i <= n
          /\ t # 0 \/ gone # 0
          /\ edit' = <<i, t, gone>>
Written == PrintT("TEXT " \o ToString(<<which>> \o edit))
===============================================================================
