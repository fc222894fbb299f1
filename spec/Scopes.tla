-------------------------------- MODULE Scopes --------------------------------
(* Small worlds.  A scope says what an author may write: an alphabet of items  *)
(* (statements, blocks, lines, characters, options), how many of them, how     *)
(* deep; Author explores every text over the alphabet within these bounds.     *)
(* The texts are run through the real program and their runs checked by Trace. *)
(*                                                                            *)
(*   kind   what a text is (see lib/models.py)                                *)
(*   alpha  the items [v, b]: b marks a block, whose contents replace HOLE    *)
(*   len    number of items, depth of open blocks                             *)
(*   inc    items of a block come in the order of the alphabet, each once     *)
(*   head, tail  statements before and after the text in its file             *)
(*   pre    other files of the policy: [path, stmts]                          *)
(* "@" stands for the module of the text.                                     *)
EXTENDS Integers, Sequences, TLC

HOLE == [k |-> "HOLE"]
I(v) == [v |-> v, b |-> FALSE]
B(v) == [v |-> v, b |-> TRUE]
Arg(kids) == [k |-> "M4ARG", kids |-> kids]

Av4(av, s, t, c, p) == [k |-> "AV", av |-> av, src |-> s, tgt |-> t, cls |-> c, perms |-> p]
Av(s, t, c, p) == Av4("allow", s, t, c, p)
Rd(s, t) == Av(<<s>>, <<t>>, <<"file">>, <<"read">>)
Xav(s, t, p) == [k |-> "XAV", av |-> "allow", src |-> <<s>>, tgt |-> <<t>>, cls |-> <<"file">>, perms |-> p]
Call(n, args) == [k |-> "CALL", name |-> n, args |-> args, sp |-> [ i \in 1..Len(args) |-> FALSE ]]
CallSp(n, args, sp) == [k |-> "CALL", name |-> n, args |-> args, sp |-> sp]
Decl(fl, n) == [k |-> "DECL", fl |-> fl, name |-> n, attrs |-> <<>>]
DeclA(fl, n, q) == [k |-> "DECL", fl |-> fl, name |-> n, attrs |-> q]
Alias(n, q) == [k |-> "DECL", fl |-> "type", name |-> n, attrs |-> <<>>, aliases |-> q]
RD(fl, q) == [k |-> "REQDECL", fl |-> fl, names |-> q, attrs |-> <<>>]
RClass(c, q) == [k |-> "REQDECL", fl |-> "class", names |-> <<c>>, attrs |-> q]
Gen(kids) == [k |-> "GENREQ", unq |-> FALSE, kids |-> kids]
GenU(kids) == [k |-> "GENREQ", unq |-> TRUE, kids |-> kids]
Req(kids) == [k |-> "REQUIRE", kids |-> kids]
Tt(s, t, c, d) == [k |-> "TT", src |-> <<s>>, tgt |-> <<t>>, cls |-> <<c>>, def |-> d]
Rt(s, t, c, d) == [k |-> "RT", src |-> <<s>>, tgt |-> <<t>>, cls |-> c, def |-> d]
Rallow(f, t) == [k |-> "RALLOW", from |-> <<f>>, to |-> <<t>>]
Rtypes(r, q) == [k |-> "RTYPES", role |-> r, types |-> q]
Talias(n, q) == [k |-> "TYPEALIAS", str |-> n, aliases |-> q]
Tattr(t, q) == [k |-> "TATTR", type |-> t, attrs |-> q]
Rattr(t, q) == [k |-> "RATTR", type |-> t, attrs |-> q]
Permissive(t) == [k |-> "PERMISSIVE", str |-> t]
Semi == [k |-> "SEMICOLON"]
Wd(n) == [k |-> "WORD", name |-> n]
Comment == [k |-> "COMMENT", _text |-> "# a comment", _node |-> FALSE]
Header(n) == [k |-> "HEADER", name |-> n, bare |-> FALSE]
BareHeader(n) == [k |-> "HEADER", name |-> n, bare |-> TRUE]
Interface(n, kids) == [k |-> "INTERFACE", name |-> n, kids |-> kids]
Template(n, kids) == [k |-> "TEMPLATE", name |-> n, kids |-> kids]
Documented == [k |-> "COMMENT", _text |-> "## <summary>x</summary>"]

\* Blocks and their branches.
Opt(x) == [k |-> "OPTIONAL", kids |-> x]
OptElse(a, x) == [k |-> "OPTIONAL", kids |-> a, else |-> x]
Bool(x) == [k |-> "BOOLEAN", _cond |-> <<"x_bool">>, kids |-> x]
BoolElse(a, x) == [k |-> "BOOLEAN", _cond |-> <<"x_bool">>, kids |-> a, else |-> x]
Tun(x) == [k |-> "TUNABLE", _cond |-> <<"x_bool">>, kids |-> <<Arg(x)>>]
Tun2(a, x) == [k |-> "TUNABLE", _cond |-> <<"x_bool">>, kids |-> <<Arg(a), Arg(x)>>]
Ifdef(x) == [k |-> "IFDEF", kids |-> <<Arg(x)>>]
Ifdef2(a, x) == [k |-> "IFDEF", kids |-> <<Arg(a), Arg(x)>>]
Ifndef(x) == [k |-> "IFDEF", _kw |-> "ifndef", kids |-> <<Arg(x)>>]
Ifelse3(x) == [k |-> "IFELSE", kids |-> <<Arg(<<Wd("a_word")>>), Arg(<<Wd("b_word")>>), Arg(x)>>]
Ifelse4(a, x) == [k |-> "IFELSE", kids |-> <<Arg(<<Wd("a_word")>>), Arg(<<Wd("b_word")>>), Arg(a), Arg(x)>>]
IfdefReq(x) == [k |-> "IFDEF", _req |-> "quoted", kids |-> x]
Userdebug(x) == [k |-> "USERDEBUG", kids |-> x]
H == <<HOLE>>
AllBlocks(s) ==
  << B(Opt(H)), B(OptElse(<<s>>, H)), B(Bool(H)), B(BoolElse(<<s>>, H)), B(Tun(H)), B(Tun2(<<s>>, H)),
     B(Ifdef(H)), B(Ifdef2(<<s>>, H)), B(Ifndef(H)), B(Ifelse3(H)), B(Ifelse4(<<s>>, H)), B(Userdebug(H)) >>

Base == [kind |-> "te", alpha |-> <<>>, len |-> 3, depth |-> 2, inc |-> FALSE, head |-> <<>>, tail |-> <<>>, pre |-> <<>>,
         opts |-> <<>>, order |-> "", fcs |-> <<>>, sups |-> <<>>, fcm |-> <<>>, mod |-> ""]      \* mod: what the names of the modules begin with
File(path, stmts) == [path |-> path, stmts |-> stmts]
Mods(q) == [name |-> "modules.conf", items |-> q]          \* q: <<name, status>> pairs
Spt(q) == [name |-> "obj_perm_sets.spt", items |-> q]      \* q: <<name, permissions>> pairs
Avs(q) == [name |-> "access_vectors", items |-> q]         \* q: <<class, permissions>> pairs

Other == File("other.te", <<Header("other"), Decl("type", "o_t"), Decl("type", "o_x_t"), Decl("attribute", "o_a"), Decl("attribute_role", "o_ra"), Decl("role", "o_r"), Decl("bool", "o_b")>>)

(******************************* the scopes **********************************)
P11a(n) == [Base EXCEPT !.len = n, !.pre = <<Other>>, !.head = <<Header("@"), Decl("type", "@_t")>>,
  !.alpha = << I(Rd("@_t", "o_t")), I(Rd("o_a", "o_x_t")), I(Gen(<<RD("type", <<"o_t">>)>>)), I(Gen(<<RD("attribute", <<"o_a">>), RD("type", <<"o_x_t">>)>>)),
               I(Req(<<RD("attribute", <<"o_t">>)>>)), I(Gen(<<IfdefReq(<<RD("type", <<"o_t">>)>>)>>)) >>
     \o << B(Opt(H)), B(OptElse(<<Gen(<<RD("type", <<"o_t">>)>>)>>, H)), B(Bool(H)), B(Ifdef(H)), B(Ifdef2(<<Gen(<<RD("type", <<"o_t">>)>>)>>, H)), B(Tun2(<<Rd("@_t", "o_t")>>, H)) >>]
\* every kind of statement that names things, after every kind of requirement
P11b(n) == [P11a(n) EXCEPT !.depth = 1,
  !.alpha = << I(Gen(<<RD("type", <<"o_x_t", "o_t">>)>>)), I(Req(<<RD("attribute", <<"o_a">>)>>)), I(Gen(<<RD("attribute_role", <<"o_ra">>)>>)), I(Gen(<<RD("type", <<"o_a">>)>>)),
     I(Av(<<"@_t", "-o_t">>, <<"self">>, <<"file">>, <<"read">>)), I(Av(<<"o_x_t", "o_t">>, <<"o_a">>, <<"file">>, <<"read">>)), I(Xav("@_t", "o_t", <<"0x1">>)), I(Call("no_such", <<"x", "o_t">>)), I(Tt("@_t", "o_a", "file", "o_t")),
     I(Rt("o_r", "o_t", <<"process">>, "o_r")), I(Rallow("o_r", "o_ra")), I(Rtypes("o_r", <<"o_t">>)), I(Talias("o_t", <<"@_al_t">>)), I(Tattr("@_t", <<"o_a">>)),
     I(Rattr("o_r", <<"o_ra">>)), I(Permissive("o_t")), I(DeclA("type", "@_y_t", <<"o_a">>)), I(Alias("@_z_t", <<"@_w_t">>)), I(Decl("type", "@_t")), B(Opt(H)) >>]

P12a(n) == [Base EXCEPT !.kind = "if", !.len = n, !.pre = <<Other, File("own.te", <<Header("own"), Decl("type", "own_t"), Decl("role", "system_rx"), Decl("role", "xsystem_r"), Decl("role", "system_r")>>)>>,
  !.alpha = << I(Gen(<<RD("type", <<"o_t">>)>>)), I(Req(<<RD("attribute", <<"o_a">>), RD("role", <<"o_r">>)>>)), I(Gen(<<RD("type", <<"$1">>), RD("attribute_role", <<"o_ra">>)>>)), I(Rd("$1", "o_t")), I(Rd("o_a", "o_x_t")), I(Rtypes("o_r", <<"$1">>)), I(Call("x_y", <<"o_t">>)),
     I(Rattr("$1", <<"o_ra">>)), B(Opt(H)), B(Ifdef(H)) >>,
  !.head = <<Documented, Interface("@_read", <<[k |-> "DOC"]>>), Documented, Interface("@_stub", <<[k |-> "DOC"]>>), Documented, Template("@_template", <<[k |-> "DOC"]>>)>>]
\* all in one interface, nothing before or after it
P12b(n) == [P12a(n) EXCEPT !.depth = 1,
  !.alpha = << I(Gen(<<RD("type", <<"o_t", "o_x_t">>)>>)), I(Gen(<<IfdefReq(<<RD("type", <<"o_t">>)>>)>>)), I(Gen(<<RD("type", <<"no_such_t">>), RD("bool", <<"o_b">>), RClass("file", <<"read">>)>>)),
     I(Rd("o_t", "o_x_t")), I(Tt("$1", "o_t", "file", "o_x_t")), I(Talias("o_t", <<"al_t">>)), I(Tattr("$1", <<"o_a">>)), I(DeclA("type", "@_q_t", <<"o_a">>)), I(Rallow("system_r", "o_r")), I(Rtypes("system_rx", <<"$1">>)), I(Rtypes("system_r", <<"$1">>)), I(Rallow("xsystem_r", "o_r")), I(Rt("o_r", "o_t", <<>>, "system_r")),
     I(Permissive("o_t")), I(Xav("o_t", "self", <<"0x1">>)), B(BoolElse(<<Rd("$1", "o_t")>>, H)) >>]

ModList == Mods(<<<<"other", "base">>, <<"third", "module">>, <<"gone", "off">>, <<"filesystem", "module">>, <<"my_mod", "module">>>>)
Ifs(m) == File(m \o ".if", <<Documented, Interface(m \o "_read", <<Rd("$1", "self")>>), Documented, Template(m \o "_template", <<Rd("$1", "self")>>), Documented, Interface("z" \o m, <<Rd("$1", "self")>>)>>)
P13a(n) == [Base EXCEPT !.len = n, !.depth = 3, !.opts = <<"s">>, !.sups = <<ModList>>, !.pre = <<Ifs("other"), Ifs("third"), Ifs("gone"), Ifs("unlisted"), Ifs("my_mod")>>, !.head = <<Header("@"), Decl("type", "@_t"), Decl("attribute", "@_a")>>,
  !.alpha = << I(Call("other_read", <<"@_t">>)), I(Call("third_read", <<"@_t">>)), I(Call("zgone", <<"@_t">>)) >> \o AllBlocks(Call("third_read", <<"x">>))]
P13b(n) == [P13a(n) EXCEPT !.depth = 0,
  !.alpha = << I(Call("unlisted_read", <<"@_t">>)), I(Call("third_template", <<"@_t">>)), I(Call("third_nosuch", <<"@_t">>)), I(Call("fs_nosuch", <<"@_t">>)), I(Call("filesystem_nosuch", <<"@_t">>)),
     I(Call("my_mod_nosuch", <<"@_t">>)), I(Call("my_modx_nosuch", <<"@_t">>)), I(Call("my_nosuch", <<"@_t">>)), I(Call("third", <<"@_t">>)), I(Call("thirdx_y", <<"@_t">>)), I(Call("third_", <<"@_t">>)), I(Call("domain_auto_transition_pattern", <<"@_t">>)), I(Call("domain_transition_pattern", <<"@_t">>)), I(Call("gone_x", <<"@_t">>)), I(Call("dev_x", <<"@_t">>)),
     I(Call("other_read", <<>>)), I(Call("third_read", <<>>)) >>]
AbbrCalls == << I(Call("fs_nosuch", <<"@_t">>)), I(Call("corecmd_nosuch", <<"@_t">>)), I(Call("seutil_nosuch", <<"@_t">>)), I(Call("libs_nosuch", <<"@_t">>)), I(Call("dev_nosuch", <<"@_t">>)), I(Call("term_nosuch", <<"@_t">>)), I(Call("corenet_nosuch", <<"@_t">>)), I(Call("auth_nosuch", <<"@_t">>)), I(Call("userdom_nosuch", <<"@_t">>)), I(Call("sysnet_nosuch", <<"@_t">>)),
     I(Call("filesystem_nosuch", <<"@_t">>)), I(Call("corecommands_nosuch", <<"@_t">>)), I(Call("selinuxutil_nosuch", <<"@_t">>)), I(Call("libraries_nosuch", <<"@_t">>)), I(Call("devices_nosuch", <<"@_t">>)), I(Call("terminal_nosuch", <<"@_t">>)), I(Call("corenetwork_nosuch", <<"@_t">>)), I(Call("authlogin_nosuch", <<"@_t">>)), I(Call("userdomain_nosuch", <<"@_t">>)), I(Call("sysnetwork_nosuch", <<"@_t">>)), I(Call("domain_nosuch", <<"@_t">>)),
     I(Call("domain_auto_transition_pattern", <<"@_t">>)), I(Call("domain_transition_pattern", <<"@_t">>)), I(Call("domain_auto_trans", <<"@_t">>)), I(Call("domain_auto_transition_patternx", <<"@_t">>)), I(Call("domain_transition_patterns", <<"@_t">>)), I(Call("domain_transition_patter", <<"@_t">>)), I(Call("domain_xauto_transition_pattern", <<"@_t">>)), I(Call("fs", <<"@_t">>)), I(Call("fsx_nosuch", <<"@_t">>)), I(Call("userdomx_nosuch", <<"@_t">>)), I(Call("dev_", <<"@_t">>)) >>
\* every abbreviated prefix, when its module is enabled and when it is not
P13e(n) == [P13b(n) EXCEPT !.alpha = AbbrCalls, !.sups = <<Mods(<<<<"filesystem", "module">>, <<"corecommands", "base">>, <<"selinuxutil", "module">>, <<"libraries", "base">>, <<"devices", "module">>, <<"terminal", "base">>, <<"corenetwork", "module">>, <<"authlogin", "base">>, <<"userdomain", "module">>, <<"sysnetwork", "base">>, <<"domain", "module">>>>)>>]
P13f(n) == [P13e(n) EXCEPT !.sups = <<Mods(<<<<"other", "base">>, <<"corecommands", "off">>, <<"fs", "module">>, <<"auth", "off">>, <<"dev", "base">>, <<"userdomain", "off">>>>)>>]
\* statuses: those there are, and those that are nearly one of them
Statuses == << "base", "module", "off", "Base", "BASE", "bas", "basee", "xbase", "b", "both", "base-", "Module", "mod", "modules", "on", "o", "of", "offf", "1" >>
P13h(n) == [P13a(n) EXCEPT !.depth = 0,
  !.sups = << Mods([ i \in 1..Len(Statuses) |-> <<"st" \o ToString(i), Statuses[i]>> ] \o << <<"a_module_with_quite_a_long_name_and_a_bit_more_of_it", "module">>, <<"a_module_with_quite_a_long_name_and_a_bit_more", "base">> >>) >>,
  !.pre = << File("all.if", [ i \in 1..2 |-> IF i = 1 THEN Documented ELSE Interface("all_x", <<Rd("$1", "self")>>) ]), Ifs("a_module_with_quite_a_long_name_and_a_bit_more_of_it"), Ifs("a_module_with_quite_a_long_name_and_a_bit_more") >> \o [ i \in 1..Len(Statuses) |-> Ifs("st" \o ToString(i)) ],
  !.alpha = << I(Call("a_module_with_quite_a_long_name_and_a_bit_more_of_it_read", <<"@_t">>)), I(Call("a_module_with_quite_a_long_name_and_a_bit_more_read", <<"@_t">>)), I(Call("a_module_with_quite_a_long_name_and_a_bit_x", <<"@_t">>)), I(Call("a_module_with_quite_a_long_name_and_a_bit_more_of_it_x", <<"@_t">>)), I(Call("m1_y", <<"@_t">>)) >>
    \o [ i \in 1..Len(Statuses) |-> I(Call("st" \o ToString(i) \o "_read", <<"@_t">>)) ] \o [ i \in 1..Len(Statuses) |-> I(Call("st" \o ToString(i) \o "_nosuch", <<"@_t">>)) ]]
P13c(n) == [P13a(n) EXCEPT !.depth = 0, !.head = @ \o <<Decl("role", "@_r"), Decl("attribute_role", "@_ra")>>,
  !.alpha = << I(CallSp("other_read", <<"@_a", "-x">>, <<FALSE, TRUE>>)), I(CallSp("other_read", <<"@_r", "-x">>, <<FALSE, TRUE>>)), I(CallSp("other_read", <<"@_ra", "-x">>, <<FALSE, TRUE>>)), I(CallSp("other_read", <<"system_u", "-x">>, <<FALSE, TRUE>>)),
     I(CallSp("other_read", <<"@_t", "@_t">>, <<FALSE, TRUE>>)), I(CallSp("other_read", <<"x", "@_t">>, <<FALSE, TRUE>>)), I(CallSp("other_read", <<"@_t", "-x">>, <<FALSE, TRUE>>)), I(CallSp("other_read", <<"s0", "-s15">>, <<FALSE, TRUE>>)),
     I(CallSp("other_read", <<"a", "b", "c">>, <<FALSE, FALSE, TRUE>>)), I(CallSp("other_read", <<"a", "b", "c">>, <<FALSE, TRUE, FALSE>>)), I(CallSp("other_read", <<"a", "b", "@_a", "-c">>, <<FALSE, TRUE, FALSE, TRUE>>)), I(CallSp("other_read", <<"a", "s0", "-s1", "x", "y">>, <<FALSE, FALSE, TRUE, FALSE, TRUE>>)) >>]
\* an interface of two modules
P13g(n) == [Base EXCEPT !.kind = "orders", !.len = n, !.depth = 0, !.opts = <<"s">>, !.sups = <<Mods(<<<<"aa", "module">>, <<"bb", "base">>>>)>>,
  !.pre = << File("aa.if", <<Documented, Interface("x_read", <<Rd("$1", "self")>>), Documented, Interface("bb_x", <<Rd("$1", "self")>>)>>), File("bb.if", <<Documented, Interface("x_read", <<Rd("$1", "self")>>), Documented, Interface("aa_x", <<Rd("$1", "self")>>), Documented, Template("bb_x", <<Rd("$1", "self")>>)>>),
             File("cc.te", <<Header("cc"), Decl("type", "cc_t"), Call("x_read", <<"cc_t">>), Call("aa_x", <<"cc_t">>), Call("bb_x", <<"cc_t">>), Opt(<<Call("x_read", <<"cc_t">>)>>), Opt(<<Call("bb_x", <<"cc_t">>)>>)>>) >>,
  !.alpha = << I("aa.if"), I("bb.if"), I("cc.te"), I("modules.conf") >>]
P13d(n) == [P13a(n) EXCEPT !.kind = "if", !.depth = 2, !.head = <<Documented, Interface("@_read", <<[k |-> "DOC"]>>), Documented, Template("@_template", <<[k |-> "DOC"]>>)>>,
  !.alpha = << I(Call("other_read", <<"$1">>)), I(Call("third_read", <<"$1">>)), I(Call("other_template", <<"$1">>)), I(Call("third_nosuch", <<"$1">>)), B(Opt(H)), B(OptElse(<<Call("third_read", <<"$1">>)>>, H)), B(Ifdef(H)), B(Bool(H)) >>]

Known == << Avs(<< <<"file", <<"read", "write", "open", "append">> >>, <<"dir", <<"search">> >> >>), Spt(<< <<"rw_file_perms", <<"read", "write">> >>, <<"all_x_perms", <<"read">> >> >>) >>
\* permission lists, word by word: [k |-> "AV"] with perms the text
P14a(n) == [Base EXCEPT !.kind = "words", !.len = n, !.depth = 0, !.opts = <<"s">>, !.sups = Known, !.head = <<Header("@"), Decl("type", "@_t")>>,
  !.tail = << Av4("allow", <<"@_t">>, <<"self">>, <<"file">>, <<"TEXT">>), Av4("dontaudit", <<"@_t">>, <<"self">>, <<"file">>, <<"TEXT">>), Gen(<<RClass("file", <<"TEXT">>)>>) >>,
  !.alpha = << I("append"), I("open"), I("read"), I("Read"), I("rw_file_perms"), I("all_perms"), I("all_x_perm"), I("nosuch") >>]
P14b(n) == [P14a(n) EXCEPT !.tail = << Xav("@_t", "self", <<"TEXT">>) >>, !.alpha = << I("0x1"), I("0x10"), I("0x2"), I("0xA"), I("9"), I("10") >>]
P14c(n) == [P14a(n) EXCEPT !.tail = << Av4("allow", <<"@_t">>, <<"self">>, <<"TEXT">>, <<"read">>), Tt("@_t", "@_t", "TEXT", "@_t") >>, !.len = 2,
  !.alpha = << I("file"), I("dir"), I("nosuch"), I("x_class_set"), I("class_set"), I("file_class_setx"), I("$1"), I("$x") >>]
P14d(n) == [P14a(n) EXCEPT !.kind = "te", !.len = 2, !.pre = <<Other>>, !.head = <<Header("@"), Decl("type", "@_t"), Decl("attribute", "@_a"), Alias("@_m_t", <<"@_al_t">>)>>, !.tail = <<>>,
  !.alpha = << I(Rd("@_t", "@_t")), I(Rd("@_a", "@_a")), I(Rd("o_t", "o_t")), I(Rd("@_al_t", "@_al_t")), I(Rd("$1", "$1")), I(Rd("$1_t", "$1_t")), I(Rd("x_t", "x_t")), I(Rd("self", "self")), I(Rd("@_t", "self")), I(Rd("@_t", "@_m_t")), I(Xav("@_t", "@_t", <<"0x1">>)),
     I(Av(<<"@_t", "o_t">>, <<"@_t">>, <<"file">>, <<"read">>)), I(Av(<<"@_t">>, <<"@_t", "o_t">>, <<"file">>, <<"read">>)), I(Av4("dontaudit", <<"@_t">>, <<"@_t">>, <<"file">>, <<"read">>)), I(Av4("neverallow", <<"@_t">>, <<"@_t">>, <<"file">>, <<"*">>)),
     I(Av(<<"@_t">>, <<"self">>, <<"file">>, <<"*">>)), I(Av(<<"@_t">>, <<"self">>, <<"file">>, <<"~", "read">>)), I(Av4("auditallow", <<"@_t">>, <<"self">>, <<"file">>, <<"~", "read", "open">>)), I(Rd("o_r", "o_r")), I(Rd("-@_t", "-@_t")) >>]

Macros == Spt(<< <<"getattr_file_perms", <<"getattr">> >>, <<"read_file_perms", <<"getattr", "open", "read", "lock", "ioctl">> >>, <<"mmap_read_file_perms", <<"getattr", "open", "read", "map", "ioctl">> >>,
  <<"rw_file_perms", <<"read_file_perms", "write", "append">> >>, <<"exec_file_perms", <<"getattr", "open", "map", "read", "execute", "ioctl", "execute_no_trans">> >>, <<"create_file_perms", <<"getattr", "create", "open">> >>,
  <<"rename_file_perms", <<"getattr", "rename">> >>, <<"delete_file_perms", <<"getattr", "unlink">> >>, <<"manage_file_perms", <<"create", "open", "getattr", "setattr", "read", "write", "append", "rename", "link", "unlink", "ioctl", "lock">> >>,
  <<"relabel_file_perms", <<"getattr", "relabelfrom", "relabelto">> >>, <<"odd_file_perms", <<"read", "write", "quotaon">> >>, <<"self_file_perms", <<"read", "self_file_perms">> >>,
  <<"search_dir_perms", <<"getattr", "search">> >>, <<"list_dir_perms", <<"getattr", "search", "open", "read", "lock", "ioctl">> >>, <<"rw_dir_perms", <<"list_dir_perms", "add_name", "remove_name", "write">> >>, <<"add_entry_dir_perms", <<"getattr", "search", "add_name">> >>, <<"del_entry_dir_perms", <<"getattr", "search", "write", "remove_name">> >>,
  <<"delete_dir_perms", <<"getattr", "rmdir">> >>, <<"rw_inherited_term_perms", <<"getattr", "read", "write", "append", "ioctl">> >>, <<"rw_chr_file_perms", <<"getattr", "open", "read", "write">> >>, <<"watch_file_perms", <<"watch", "read">> >> >>)
PermWords == << I("getattr"), I("open"), I("read"), I("write"), I("append"), I("lock"), I("ioctl"), I("map"), I("execute"), I("create"), I("setattr"), I("rename"), I("link"), I("unlink"), I("relabelfrom"), I("relabelto"), I("execute_no_trans"),
  I("search"), I("add_name"), I("remove_name"), I("rmdir"), I("reparent"), I("watch"), I("mounton"), I("entrypoint"), I("quotaon"), I("read_file_perms"), I("list_dir_perms"), I("getattr_file_perms") >>
P15a(n) == [Base EXCEPT !.kind = "words", !.len = n, !.depth = 0, !.inc = TRUE, !.opts = <<"s">>, !.sups = <<Macros>>, !.head = <<Header("@"), Decl("type", "@_t")>>,
  !.tail = << Av(<<"@_t">>, <<"self">>, <<"file">>, <<"TEXT">>), Av(<<"@_t">>, <<"self">>, <<"dir">>, <<"TEXT">>), Av(<<"@_t">>, <<"self">>, <<"chr_file">>, <<"TEXT">>) >>, !.alpha = PermWords]
\* every pair of a macro and one or two classes
ClassWords == << I("file"), I("dir"), I("lnk_file"), I("chr_file"), I("blk_file"), I("sock_file"), I("fifo_file"), I("process"), I("tcp_socket"), I("unix_stream_socket"), I("netlink_route_socket"), I("netlink_x"), I("socket"), I("x_class_set"), I("key"), I("filesystem") >>
MacroNames == <<"rw_file_perms", "list_dir_perms", "read_lnk_file_perms", "rw_chr_file_perms", "rw_term_perms", "read_blk_file_perms", "rw_sock_file_perms", "rw_fifo_file_perms", "signal_perms", "signull_perms", "rw_socket_perms", "create_netlink_socket_perms",
  "rw_netlink_route_socket_perms", "r_tcp_socket_perms", "all_key_perms", "file_perms", "dir_perms", "term_perms", "xfile_perms", "process_perms", "rw_process_perms", "rw_stream_socket_perms", "connected_stream_socket_perms", "rw_filesystem_perms", "a_perms", "read">>
P15b(n) == [P15a(n) EXCEPT !.inc = FALSE, !.alpha = ClassWords, !.tail = [ i \in 1..Len(MacroNames) |-> Av(<<"@_t">>, <<"self">>, <<"TEXT">>, <<MacroNames[i]>>) ]]
\* the table of what a permission implies: a macro of a class grants the permissions
\* of a text, and a rule every other permission (kind "macros")
P15c(n) == [P15a(n) EXCEPT !.kind = "macros", !.inc = FALSE, !.sups = <<>>,
  !.alpha = << I("read"), I("write"), I("create"), I("getattr"), I("setattr"), I("lock"), I("relabelfrom"), I("relabelto"), I("append"), I("map"), I("unlink"), I("link"), I("rename"), I("execute"), I("mounton"), I("open"), I("watch"),
               I("add_name"), I("remove_name"), I("reparent"), I("search"), I("rmdir"), I("execute_no_trans"), I("ioctl"), I("entrypoint") >>]

OrderPre == << File("kernel/kern.if", <<Documented, Interface("kern_read", <<Rd("$1", "self")>>)>>), File("kernel/kernel.if", <<Documented, Interface("kernel_read", <<Rd("$1", "self")>>)>>), File("system/sys.if", <<Documented, Interface("sys_read", <<Rd("$1", "self")>>)>>),
  File("apps/app.if", <<Documented, Interface("app_read", <<Rd("$1", "self")>>), Documented, Interface("app_filetrans", <<Rd("$1", "self")>>), Documented, Interface("app_type", <<Tattr("$1", <<"app_attr">>)>>), Documented, Template("app_template", <<Decl("type", "$1_q_t")>>), Documented, Interface("app_role", <<Rtypes("app_r", <<"$1">>)>>)>>), File("apps/bpp.if", <<Documented, Interface("bpp_read", <<Rd("$1", "self")>>)>>),
  File("apps/rel_x.if", <<Documented, Interface("rel_x_read", <<Rd("$1", "self")>>)>>), Other >>
OrderItems == << I(Decl("type", "@_x_t")), I(Decl("attribute", "@_attr")), I(Decl("bool", "@_b")), I(Rd("@_t", "self")), I(Rd("@_t", "@_t")), I(Rd("@_t", "o_t")), I(Call("app_read", <<"@_t">>)), I(Call("bpp_read", <<"@_t">>)), I(Call("kern_read", <<"@_t">>)), I(Call("kernel_read", <<"@_t">>)),
  I(Call("sys_read", <<"@_t">>)), I(Call("rel_x_read", <<"@_t">>)), I(Call("app_filetrans", <<"@_t">>)), I(Call("app_type", <<"@_t">>)), I(Call("app_template", <<"@">>)), I(Call("app_role", <<"@_t">>)), I(Call("unknown_x", <<"@_t">>)), I(Call("app_read", <<"zz_t">>)), I(Rd("a_t", "self")), I(Call("app_read", <<"@_r">>)),
  I(Tt("@_t", "o_t", "file", "@_t")), I(Av4("neverallow", <<"@_t">>, <<"self">>, <<"file">>, <<"read">>)), I(Av(<<"@_t">>, <<"o_t">>, <<"dir">>, <<"mounton">>)), I(Comment), I(Tattr("@_t", <<"@_attr">>)), I(Talias("@_t", <<"@_al_t">>)), I(Wd("stray")),
  I(Opt(<<Call("app_read", <<"@_t">>)>>)), I(Opt(<<Call("bpp_read", <<"@_t">>)>>)), I(Opt(<<Call("kern_read", <<"@_t">>), Call("app_read", <<"@_t">>)>>)), I(Ifdef(<<Rd("@_t", "self")>>)), I(Tun(<<Call("app_read", <<"@_t">>)>>)), I(Bool(<<Rd("@_t", "o_t")>>)), I(Ifelse3(<<Call("app_read", <<"@_t">>)>>)), I(Gen(<<RD("type", <<"o_t">>)>>)) >>
P16a(n) == [Base EXCEPT !.len = n, !.depth = 0, !.opts = <<"s">>, !.pre = OrderPre, !.head = <<Header("@"), Decl("type", "@_t")>>, !.alpha = OrderItems, !.order = "refpolicy"]
P16b(n) == [P16a(n) EXCEPT !.order = "refpolicy-light"]
P16c(n) == [P16a(n) EXCEPT !.order = "refpolicy-lax"]

\* every name that makes an interface with an attribute a declaration of the section
Suffixes == << "_type", "_file", "_domain", "_node", "_agent", "_delivery", "_sender", "_boolean", "_content", "_constrained", "_executable", "_exemption", "_object", "_mountpoint", "_types", "_files", "_typex", "type", "_filename" >>
P16d(n) == [Base EXCEPT !.len = n, !.depth = 0, !.opts = <<"s">>, !.order = "refpolicy",
  !.pre = << File("apps/sfx.if", [ i \in 1..2 * Len(Suffixes) |-> IF i % 2 = 1 THEN Documented ELSE Interface("sfx_x" \o Suffixes[i \div 2], <<Tattr("$1", <<"sfx_a">>)>>) ]),
              File("apps/not.if", [ i \in 1..2 * Len(Suffixes) |-> IF i % 2 = 1 THEN Documented ELSE Interface("not_x" \o Suffixes[i \div 2], <<Rd("$1", "self")>>) ]),
              File("apps/opt.if", [ i \in 1..2 * Len(Suffixes) |-> IF i % 2 = 1 THEN Documented ELSE Interface("opt_x" \o Suffixes[i \div 2], <<Opt(<<Tattr("$1", <<"sfx_a">>)>>)>>) ]),
              File("kernel/mls.if", <<Documented, Interface("mls_x", <<Tattr("$1", <<"mls_a">>)>>), Documented, Interface("mls_y", <<Rd("$1", "self")>>)>>), File("kernel/mcs.if", <<Documented, Interface("mcs_x", <<Tattr("$1", <<"mcs_a">>)>>)>>), File("kernel/mlsx.if", <<Documented, Interface("mlsx_x", <<Tattr("$1", <<"mls_a">>)>>)>>),
              File("apps/ass.if", <<Documented, Interface("ass_x", <<Av(<<"$1">>, <<"ass_t">>, <<"filesystem">>, <<"associate">>)>>), Documented, Interface("ass_y", <<Opt(<<Av(<<"$1">>, <<"ass_t">>, <<"filesystem">>, <<"associate">>)>>)>>), Documented, Interface("ass_z", <<Av(<<"$1">>, <<"ass_t">>, <<"filesystem">>, <<"mount", "associate">>)>>), Documented, Interface("ass_c", <<Call("sfx_x_file", <<"$1">>)>>), Documented, Interface("ass_g", <<Gen(<<RD("type", <<"q_t">>)>>), Call("sfx_x_file", <<"$1">>)>>), Documented, Interface("ass_r", <<Req(<<RD("type", <<"q_t">>)>>), Gen(<<RD("type", <<"q_t">>)>>), Call("ass_g", <<"$1">>)>>), Documented, Interface("ass_l", <<Rd("$1", "self"), Call("sfx_x_file", <<"$1">>)>>), Documented, Interface("ass_cc", <<Call("ass_c", <<"$1">>)>>), Documented, Interface("ass_d", <<Call("not_x_file", <<"$1">>)>>)>>),
              File("apps/trn.if", <<Documented, Interface("trn_f", <<Tt("$1", "trn_t", "file", "$2")>>), Documented, Interface("trn_p", <<Tt("$1", "trn_t", "process", "$2")>>), Documented, Interface("trn_o", <<Opt(<<Tt("$1", "trn_t", "file", "$2")>>)>>), Documented, Interface("trn_c", <<Call("filetrans_pattern", <<"$1">>)>>), Documented, Interface("trn_a", <<Call("filetrans_add_pattern", <<"$1">>)>>), Documented, Interface("trn_x", <<Call("any_filetrans", <<"$1">>)>>), Documented, Interface("trn_y", <<Call("any_filetransx", <<"$1">>)>>), Documented, Interface("trn_q", <<[Tt("$1", "trn_t", "process", "$2") EXCEPT !.cls = <<"process", "file">>]>>), Documented, Interface("trn_v", <<[Tt("$1", "trn_t", "process", "$2") EXCEPT !.cls = <<"dir", "process">>]>>), Documented, Interface("trn_g", <<Gen(<<RD("type", <<"trn_t">>)>>), Rd("$1", "self"), Tt("$1", "trn_t", "file", "$2")>>), Documented, Interface("trn_filetrans", <<Rd("$1", "self")>>)>>),
              File("apps/rol.if", <<Documented, Interface("rol_a", <<Rtypes("$1", <<"a_t">>)>>), Documented, Interface("rol_b", <<Rtypes("b_r", <<"$1">>)>>), Documented, Interface("rol_c", <<Rtypes("b_r", <<"a_t">>)>>), Documented, Interface("rol_d", <<Opt(<<Rtypes("b_r", <<"$1">>)>>)>>), Documented, Interface("rol_e", <<Rattr("b_r", <<"$1">>)>>), Documented, Interface("rol_f", <<Rtypes("b_r", <<"b_t", "$1">>)>>), Documented, Interface("rol_g", <<Rtypes("b_r", <<"b_t", "$1_t">>)>>), Documented, Interface("rol_h", <<Rtypes("b_r", <<"b_t", "x$1">>)>>)>>) >>,
  !.head = <<Header("@"), Decl("type", "@_t"), Rd("@_t", "self")>>,
  !.alpha = << I(Decl("type", "@_x_t")), I(Rd("@_t", "self")), I(Call("mls_x", <<"@_t">>)), I(Call("mls_y", <<"@_t">>)), I(Call("mcs_x", <<"@_t">>)), I(Call("mlsx_x", <<"@_t">>)) >>
     \o [ i \in 1..Len(Suffixes) |-> I(Call("sfx_x" \o Suffixes[i], <<"@_t">>)) ] \o << I(Call("not_x_type", <<"@_t">>)), I(Call("not_x_file", <<"@_t">>)), I(Call("opt_x_type", <<"@_t">>)), I(Call("opt_x_domain", <<"@_t">>)) >>
     \o [ i \in 1..9 |-> I(Call(<<"ass_x", "ass_y", "ass_z", "ass_c", "ass_cc", "ass_d", "ass_g", "ass_r", "ass_l">>[i], <<"@_t">>)) ]
     \o [ i \in 1..11 |-> I(Call(<<"trn_f", "trn_p", "trn_o", "trn_c", "trn_a", "trn_x", "trn_y", "trn_filetrans", "trn_q", "trn_v", "trn_g">>[i], <<"@_t", "@_t">>)) ]
     \o [ i \in 1..8 |-> I(Call(<<"rol_a", "rol_b", "rol_c", "rol_d", "rol_e", "rol_f", "rol_g", "rol_h">>[i], <<"@_t">>)) ]]

\* interface files put into layers: the layer of a module is the directory of its first one
Sites(what, dirs) == [ i \in 1..Len(what) * Len(dirs) |-> I(<<what[(i - 1) \div Len(dirs) + 1], dirs[((i - 1) % Len(dirs)) + 1]>>) ]
P16e(n) == [Base EXCEPT !.kind = "sites", !.len = n, !.depth = 0, !.inc = TRUE, !.opts = <<"s">>, !.order = "refpolicy",
  !.pre = << File("cc.te", <<Header("cc"), Decl("type", "cc_t"), Call("bb_read", <<"cc_t">>), Call("aa_read", <<"cc_t">>)>>), File("dd.te", <<Header("dd"), Decl("type", "dd_t"), Call("aa_read", <<"dd_t">>), Call("cc_read", <<"dd_t">>), Call("bb_read", <<"dd_t">>)>>) >>,
  !.alpha = Sites(<<Ifs("aa"), Ifs("bb"), Ifs("cc")>>, <<"w/kernel/", "w/system/", "w/apps/", "w/apps/system/", "w/">>)]

\* modules and layers whose names are nearly kernel and system, and modules of one family
Named(p, m) == File(p \o m \o ".if", <<Documented, Interface("q" \o m, <<Rd("$1", "self")>>)>>)
NearModules == << "kernel", "kernelx", "kernel_x", "kerne", "xkernel", "Kernel", "system", "mm", "mm_x", "mmx", "m", "zz" >>
NearLayers == << "kernel", "kernels", "kerne", "Kernel", "system", "systemd", "syste", "apps" >>
P16f(n) == [Base EXCEPT !.len = n, !.depth = 0, !.opts = <<"s">>, !.order = "refpolicy",
  !.pre = [ i \in 1..Len(NearModules) |-> Named("apps/", NearModules[i]) ] \o [ i \in 1..Len(NearLayers) |-> Named(NearLayers[i] \o "/", "in" \o ToString(i)) ]
     \o << File("o.te", <<Header("o"), Decl("type", "o_t"), Decl("attribute", "o_a"), Decl("attribute_role", "o_ra"), Decl("role", "o_r")>>) >>,
  !.head = <<Header("@"), Decl("type", "@_t"), Decl("attribute", "@_a"), Decl("role", "@_r")>>,
  !.alpha = [ i \in 1..Len(NearModules) |-> I(Call("q" \o NearModules[i], <<"@_t">>)) ] \o [ i \in 1..Len(NearLayers) |-> I(Call("qin" \o ToString(i), <<"@_t">>)) ]
     \o << I(Rd("@_t", "self")), I(Av(<<"@_t">>, <<"self", "o_t">>, <<"file">>, <<"read">>)), I(Av(<<"@_t">>, <<"o_t", "self">>, <<"file">>, <<"read">>)), I(Av(<<"@_t">>, <<"@_a", "o_a">>, <<"file">>, <<"read">>)), I(Av(<<"@_t">>, <<"@_t", "@_a">>, <<"file">>, <<"read">>)), I(Xav("@_t", "self", <<"0x1">>)), I(Xav("@_t", "@_t", <<"0x1">>)),
            I(Call("read_files_pattern", <<"@_t", "o_a">>)), I(Call("read_files_pattern", <<"@_t", "@_a">>)), I(Call("read_files_pattern", <<"@_t", "o_ra">>)), I(Call("read_files_pattern", <<"@_t", "o_r">>)), I(Call("qmm", <<"@_r">>)), I(Call("qmm", <<"@">>)), I(Call("qmm", <<"@_a">>)), I(Rd("@", "self")), I(Rd("o_t", "@_t")) >>]
P16g(n) == [P16f(n) EXCEPT !.order = "refpolicy-light", !.mod = "mm_"]
P16h(n) == [P16f(n) EXCEPT !.order = "refpolicy-lax", !.mod = "mm_"]

P17a(n) == [Base EXCEPT !.len = n, !.depth = 3, !.head = <<Header("@"), Decl("type", "@_t")>>,
  !.alpha = << I(Semi), I(Comment), I(Wd("stray")), I(Rd("@_t", "self")), B(Opt(H)), B(OptElse(<<Semi>>, H)), B(Ifdef(H)), B(Ifelse3(H)), B(Ifelse4(<<Rd("@_t", "self")>>, H)), B(Tun2(<<Rd("@_t", "self")>>, H)), B(BoolElse(<<Semi>>, H)) >>]
P17b(n) == [Base EXCEPT !.len = n, !.depth = 2, !.head = <<Header("@"), Decl("type", "@_t")>>,
  !.alpha = << B(Gen(H)), B(GenU(H)), B(Req(H)), I(RD("type", <<"b_t">>)), I(RD("type", <<"b">>)), I(RD("type", <<"a_t", "c_t">>)), I(RD("attribute", <<"b_t">>)), I(RD("role", <<"b_r">>)), I(RD("attribute_role", <<"b_r">>)), I(RD("bool", <<"b">>)), I(RClass("file", <<"read">>)), B(IfdefReq(H)) >>]
P17c(n) == [Base EXCEPT !.kind = "if", !.len = n, !.depth = 2, !.head = <<[k |-> "DOC"]>>,
  !.alpha = << I(Documented), I(Interface("@_a", <<Rd("$1", "self")>>)), I(Template("@_b", <<Rd("$1", "self")>>)), I(Semi), B(Interface("@_c", H)), B(Template("@_d", H)) >>]
P17d(n) == [Base EXCEPT !.kind = "if", !.len = n, !.depth = 2, !.head = <<Documented, Interface("@_a", <<[k |-> "DOC"]>>), Documented, Template("@_b", <<[k |-> "DOC"]>>)>>,
  !.alpha = << I(Decl("type", "@_t")), I(Decl("attribute", "@_attr")), I(DeclA("class", "file", <<"read">>)), I(Gen(<<RD("type", <<"@_t">>)>>)), I(Rd("$1", "self")), I(Wd("stray")), I(Semi), I(Talias("@_t", <<"al_t">>)), B(Opt(H)), B(Ifdef(H)), B(Gen(H)) >>]

FcTypes == File("fcm.te", <<Header("fcm"), Decl("type", "f_t"), Decl("role", "f_r")>>)
P18a(n) == [Base EXCEPT !.kind = "chars", !.len = n, !.depth = 0, !.pre = <<FcTypes>>,
  !.alpha = << I("/a"), I(" "), I("\t"), I("--"), I("-d"), I("-"), I("gen_context("), I("u:r:f_t"), I(",s0"), I(")"), I(":s0"), I("<<none>>"), I("#") >>]
P18b(n) == [P18a(n) EXCEPT !.tail = <<"/a -- ">>, !.alpha = << I("gen_context("), I("u:"), I("r:"), I("f_t"), I(":"), I(","), I("s0"), I(")"), I(" ") >>]
P18c(n) == [P18a(n) EXCEPT !.alpha = << I("ifdef("), I("`x'"), I("ifndef"), I("')"), I("', `"), I(",`"), I("mymac("), I("mymac"), I(" "), I("#"), I("/a u:r:f_t") >>]
\* macros of the configuration
P18d(n) == [P18a(n) EXCEPT !.fcm = <<"fc", "my_fc", "m">>, !.alpha = << I("fc"), I("my_"), I("m"), I("("), I("x"), I(")"), I(" ") >>]
\* a name of every flavour in every place of a context
P19b(n) == [P18a(n) EXCEPT !.pre = <<File("fcm.te", <<Header("fcm"), DeclA("type", "f_t", <<"f_a">>), Decl("role", "f_r"), Decl("attribute", "f_a"), Decl("attribute_role", "f_ra"), Decl("bool", "f_b"), Alias("f_n_t", <<"f_al">>), Talias("f_t", <<"f_ta">>), Gen(<<RD("type", <<"f_q_t">>), RD("role", <<"f_q_r">>)>>)>>), Ifs("f_if")>>,
  !.tail = <<"/x\t">>, !.alpha = << I("f_t:"), I("f_r:"), I("system_u:"), I("object_r:"), I("f_t"), I("f_a"), I("f_ra:"), I("f_r"), I("f_b"), I("f_al"), I("f_ta"), I("f_q_t"), I("f_q_r:"), I("f_a:"), I("fcm"), I("f_if_read") >>]
P19a(n) == [P18a(n) EXCEPT !.tail = <<"/", "\tgen_context(system_u:object_r:f_t,s0)">>, !.alpha = << I("a"), I("."), I("*"), I("+"), I("\\"), I("["), I("]"), I("("), I(")"), I("?"), I("^") >>]

P22a(n) == [Base EXCEPT !.kind = "modules", !.len = n, !.depth = 0, !.pre = <<Ifs("aa"), Ifs("bb"), File("cc.te", <<Header("cc"), Decl("type", "cc_t"), Call("aa_read", <<"cc_t">>), Call("bb_read", <<"cc_t">>), Call("aa_nosuch", <<"cc_t">>), Call("bb_nosuch", <<"cc_t">>)>>)>>,
  !.alpha = << I("aa"), I("bb"), I("="), I(" "), I("module"), I("base"), I("#"), I("\n"), I("\t") >>]
\* several of a kind: one of the analysed ones counts, one of the context only where there is none
P22c(n) == [P22a(n) EXCEPT !.kind = "sites", !.inc = TRUE, !.opts = <<"s">>,
  !.alpha = Sites(<<Mods(<<<<"aa", "module">>>>), Mods(<<<<"bb", "module">>, <<"aa", "base">>>>), Mods(<<<<"aa", "off">>, <<"bb", "base">>>>)>>, <<"w/", "w/sub/", "ctx/", "ctx/sub/", "ctxb/">>)]
P22d(n) == [P22c(n) EXCEPT !.pre = <<File("cc.te", <<Header("cc"), Decl("type", "cc_t"), Av(<<"cc_t">>, <<"self">>, <<"file">>, <<"read", "write", "open">>), Av(<<"cc_t">>, <<"self">>, <<"dir">>, <<"open", "read">>), Av(<<"cc_t">>, <<"self">>, <<"file">>, <<"rw_file_perms">>), Av(<<"cc_t">>, <<"self">>, <<"x">>, <<"x_perms">>)>>)>>,
  !.alpha = Sites(<<Avs(<< <<"file", <<"read">> >> >>), Avs(<< <<"dir", <<"read", "write">> >>, <<"x", <<"open">> >> >>), Spt(<< <<"rw_file_perms", <<"read", "write">> >> >>), Spt(<< <<"x_perms", <<"read">> >> >>)>>, <<"w/", "w/sub/", "ctx/", "ctxb/">>)]
P22b(n) == [Base EXCEPT !.kind = "vectors", !.len = n, !.depth = 0, !.inc = FALSE, !.pre = <<File("cc.te", <<Header("cc"), Decl("type", "cc_t"), Av(<<"cc_t">>, <<"self">>, <<"file">>, <<"read", "write", "open">>), Av(<<"cc_t">>, <<"self">>, <<"dir">>, <<"open", "read">>), Av(<<"cc_t">>, <<"self">>, <<"file">>, <<"write">>), Av(<<"cc_t">>, <<"self">>, <<"x">>, <<"r_file_perms">>)>>)>>,
  !.alpha = << I(<<"class file { read write }", "file", "read write", "">>), I(<<"class dir inherits x", "dir", "", "">>), I(<<"class dir\n{ open\n}", "dir", "open", "">>), I(<<"common x { open }", "", "open", "">>), I(<<"class x inherits x { read }", "x", "read", "">>),
     I(<<"# class dir { open }", "#", "", "">>), I(<<"}", "", "", "bad">>), I(<<"class { }", "", "", "bad">>), I(<<"class file", "", "", "bad">>) >>]

P23a(n) == [Base EXCEPT !.len = n, !.depth = 1, !.pre = <<Other>>, !.head = <<Header("@")>>,
  !.tail = << Rd("@_n", "o_t"), Rtypes("@_n", <<"@_n">>), Rd("o_n", "@_n") >>, !.fcs = << "/@ gen_context(system_u:@_n:@_n,s0)" >>,
  !.alpha = << I(Decl("type", "@_n")), I(Decl("attribute", "@_n")), I(Decl("role", "@_n")), I(Decl("attribute_role", "@_n")), I(Decl("bool", "@_n")), I(Alias("@_m", <<"@_n">>)), I(Talias("o_t", <<"@_n">>)), I(Gen(<<RD("type", <<"@_n">>)>>)), I(Req(<<RD("role", <<"@_n">>)>>)),
     B(Opt(H)), B(OptElse(<<Rd("@_n", "self")>>, H)), B(Ifdef2(<<Rd("@_n", "self")>>, H)), B(Bool(H)), B(Tun(H)), B(Userdebug(H)) >>]

Av1 == Rd("@_t", "self")
P24a(n) == [Base EXCEPT !.len = n, !.depth = 4, !.head = <<Header("@"), Decl("type", "@_t")>>, !.alpha = << I(Semi), I(Call("no_args", <<>>)) >> \o AllBlocks(Semi)]
\* every kind of statement, alone and before every other one
Statements == << I(Semi), I(Comment), I(Wd("stray")), I(Rd("@_t", "@_t")), I(Av4("dontaudit", <<"@_t">>, <<"o_t">>, <<"file">>, <<"write", "read">>)), I(Xav("@_t", "@_t", <<"0x1">>)), I(Call("no_args", <<>>)), I(Call("x_y", <<"o_t">>)), I(Tt("@_t", "o_t", "file", "@_t")), I(Rt("o_r", "o_t", <<"process">>, "o_r")),
  I(Rallow("o_r", "o_r")), I(Rtypes("o_r", <<"o_t">>)), I(Talias("o_t", <<"@_al_t">>)), I(Tattr("@_t", <<"o_a">>)), I(Rattr("o_r", <<"o_ra">>)), I(Permissive("o_t")), I(DeclA("type", "@_y_t", <<"o_a">>)), I(Decl("bool", "@_b")), I(Decl("role", "@_r")), I(Gen(<<RD("type", <<"o_t">>)>>)), I(Req(<<RD("type", <<"o_t">>)>>)), I(GenU(<<Comment>>)) >>
P24b(n) == [P24a(n) EXCEPT !.len = n, !.depth = 1, !.pre = <<Other>>, !.alpha = Statements \o << B(Opt(H)), B(Ifdef2(<<Semi>>, H)), B(BoolElse(<<Semi>>, H)) >>]
P24c(n) == [P24a(n) EXCEPT !.kind = "if", !.depth = 3, !.head = <<Documented, Interface("@_read", <<[k |-> "DOC"]>>), Documented, Template("@_template", <<[k |-> "DOC"]>>)>>]

\* disable comments on and around statements
Ex(s, q) == s @@ [ex |-> q]
P02a(n) == [Base EXCEPT !.len = n, !.depth = 1, !.pre = <<Other>>, !.head = <<Header("@"), Decl("type", "@_t")>>,
  !.alpha = << I(Rd("@_t", "@_t")), I(Ex(Rd("@_t", "@_t"), <<"C-007">>)), I(Ex(Rd("@_t", "@_t"), <<"W-001">>)), I(Ex(Av(<<"@_t">>, <<"o_t">>, <<"file">>, <<"write", "read">>), <<"W-001", "C-005">>)), I(Ex(Av(<<"@_t">>, <<"o_t">>, <<"file">>, <<"write", "read">>), <<"C-005">>)),
     I(Ex(Semi, <<"S-003">>)), I(Semi), I(Ex(Call("no_args", <<>>), <<"W-006">>)), I(Ex(Call("no_args", <<>>), <<"W-001">>)), I(Ex(Wd("stray"), <<"E-010">>)), I(Ex(Gen(<<Comment>>), <<"E-009">>)), I(Ex(Gen(<<Comment>>), <<"C-006">>)), I(Ex(Req(<<RD("type", <<"o_t">>)>>), <<"S-001">>)),
     B(Opt(H)), B(Ex(Opt(H), <<"S-003">>)), B(Ex(Opt(H), <<"E-009">>)), B(Ex(Ifdef(H), <<"S-003">>)), B(Ex(Bool(H), <<"S-003">>)) >>]

P02c(n) == [Base EXCEPT !.kind = "if", !.len = n, !.depth = 2, !.head = <<Documented, Interface("@_z", <<Semi>>)>>,
  !.alpha = << I(Documented), I(Interface("@_a", <<>>)), I(Ex(Interface("@_e", <<>>), <<"C-004">>)), I(Ex(Template("@_t", <<>>), <<"C-004">>)), B(Ex(Interface("@_b", H), <<"C-004">>)), B(Interface("@_c", H)), B(Ex(Template("@_d", H), <<"C-004">>)),
     I(Ex(Semi, <<"S-003">>)), I(Semi), I(Ex(Decl("type", "x_t"), <<"S-005">>)), I(Decl("type", "x_t")) >>]

\* templates: what a call declares
P10a(n) == [Base EXCEPT !.kind = "template", !.len = n, !.depth = 1,
  !.pre = << File("callee.if", <<Documented, Template("sub_template", <<Decl("type", "$1_s_t"), Decl("role", "$2_s_r")>>), Documented, Template("deep_template", <<Call("sub_template", <<"$2", "d_$1">>)>>)>>) >>,
  !.alpha = << I(Decl("type", "$1_t")), I(Decl("type", "$2_t")), I(Decl("type", "$1_$2_t")), I(Decl("attribute", "x_$1")), I(Decl("role", "$1$1_r")), I(Decl("bool", "$3_b")), I(Alias("$1_m_t", <<"$1_al_t", "$1_bl_t">>)), I(Decl("attribute_role", "$1_ra")), I(Decl("attribute", "$1_ra")), I(Decl("type", "fix_t")), I(Gen(<<RD("type", <<"$1_t">>)>>)),
     I(Call("sub_template", <<"$1">>)), I(Call("sub_template", <<"$2", "a_$1">>)), I(Call("deep_template", <<"$1", "$2">>)), I(Call("@_template", <<"$1">>)), I(Decl("type", "$_t")), I(Call("sub_template", <<"$x", "y">>)), B(Opt(H)), B(Ifdef(H)) >>]

\* command lines
Op(o, a) == I([o |-> o, a |-> a])
P01a(n) == [Base EXCEPT !.kind = "options", !.len = n, !.depth = 0,
  !.alpha = << Op("d", "S-003"), Op("e", "S-003"), Op("d", "W-006"), Op("e", "W-006"), Op("E", ""), Op("l", "W"), Op("l", "S"), Op("l", "E"), Op("s", ""), Op("e", "E-007"), Op("d", "C-007") >>]
\* every check: enabled, alone and with others, and disabled
Checks == << "C-001", "C-004", "C-005", "C-006", "C-007", "S-001", "S-002", "S-003", "S-004", "S-005", "S-006", "S-007", "S-008", "S-009", "S-010", "W-001", "W-002", "W-003", "W-004", "W-005", "W-006", "W-007", "W-008", "W-009", "W-010", "W-011", "E-002", "E-003", "E-004", "E-005", "E-006", "E-007", "E-008", "E-009", "E-010" >>
Each(o) == [ i \in 1..Len(Checks) |-> Op(o, Checks[i]) ]
P01b(n) == [P01a(n) EXCEPT !.inc = TRUE, !.alpha = << Op("E", ""), Op("s", "") >> \o Each("e")]
P01c(n) == [P01b(n) EXCEPT !.alpha = << Op("s", ""), Op("l", "S") >> \o Each("d")]
\* values of options
Values == << "X", "c", "1", "-", "--", "G", "-W", "-E", "--C", "=W", " W", "W ", "+W", ",E", ":F", "\"C", "0W", "~S", "", "C", "S", "W", "E", "F", "Convention", "convention", "Ex", "WE", "none", "A", "D", "B", "T", "Z" >>
P07b(n) == [P01a(n) EXCEPT !.alpha = [ i \in 1..Len(Values) |-> Op("l", Values[i]) ] \o << Op("color", "on"), Op("color", "off"), Op("color", "auto"), Op("color", "On"), Op("color", "o"), Op("color", "offf"), Op("color", ""), Op("color", "always"), Op("d", ""), Op("e", ""), Op("e", "s-003"), Op("d", "S-03") >>]
P03a(n) == [P01a(n) EXCEPT !.alpha = << Op("S", ""), Op("so", ""), Op("F", ""), Op("d", "S-003"), Op("l", "W"), Op("l", "F"), Op("E", ""), Op("e", "S-003"), Op("e", "C-004"), Op("v", "") >>]
P07a(n) == [P01a(n) EXCEPT !.alpha = << Op("h", ""), Op("V", ""), Op("bad", ""), Op("l", "X"), Op("l", "E"), Op("color", "on"), Op("color", "x"), Op("E", ""), Op("e", "nope"), Op("d", "W-099"), Op("F", ""), Op("so", ""), Op("c", ""), Op("s", "") >>]

\* file trees
TreeFiles == << I("aa.te"), I("aa.if"), I("bb.te"), I("aa.fc"), I("modules.conf"), I("x.tx"), I("bb.tee") >>
P05a(n) == [Base EXCEPT !.kind = "tree", !.len = n, !.depth = 2, !.inc = TRUE, !.alpha = TreeFiles \o << B("dir"), B(".hid"), B("cc.te") >>]

\* who owns what: every file of a small policy is given, context or absent
P06a(n) == [Base EXCEPT !.kind = "placement", !.len = n, !.depth = 0, !.inc = TRUE, !.opts = <<"s">>,
  !.pre = << File("aa.te", <<Header("aa"), Decl("type", "aa_t"), Rd("aa_t", "bb_t"), Call("bb_read", <<"aa_t">>), Call("bb_template", <<"aa">>), Rd("aa_t", "aa_b_t"), Call("cc_read", <<"aa_t">>), Semi>>),
             File("bb.te", <<Header("bb"), Decl("type", "bb_t"), Decl("role", "bb_r"), Rd("bb_t", "aa_t"), Call("cc_read", <<"bb_t">>), Semi>>),
             File("bb.if", <<Documented, Interface("bb_read", <<Gen(<<RD("type", <<"bb_t">>)>>), Rd("$1", "bb_t"), Call("cc_read", <<"$1">>)>>), Documented, Template("bb_template", <<Decl("type", "$1_b_t"), Call("cc_template", <<"$1">>)>>), Interface("bb_undoc", <<Semi>>)>>),
             File("cc.if", <<Documented, Interface("cc_read", <<Gen(<<RD("type", <<"bb_t">>)>>), Rd("$1", "bb_t")>>), Documented, Template("cc_template", <<Decl("type", "$1_c_t")>>)>>),
             File("dd.te", <<Header("dd"), Gen(<<RD("type", <<"bb_t", "aa_c_t">>)>>), Rd("bb_t", "aa_c_t"), Call("bb_template", <<"dd">>)>>) >>,
  !.fcs = << "/x -- gen_context(system_u:bb_r:aa_b_t,s0)", "/y gen_context(system_u:bb_r:aa_c_t,s0)", "/z gen_context(system_u:object_r:bb_t)" >>,
  !.sups = << Mods(<<<<"bb", "module">>, <<"cc", "base">>>>) >>,
  !.alpha = << I(<<"aa.te", "main">>), I(<<"aa.te", "ctx">>), I(<<"bb.te", "main">>), I(<<"bb.te", "ctx">>), I(<<"bb.if", "main">>), I(<<"bb.if", "ctx">>), I(<<"cc.if", "main">>), I(<<"cc.if", "ctx">>), I(<<"dd.te", "main">>), I(<<"dd.te", "ctx">>) >>]
\* the same outside of source mode, where headers and classes come from the system
P06b(n) == [P06a(n) EXCEPT !.opts = <<>>, !.sups = <<>>, !.order = "refpolicy",
  !.alpha = << I(<<"aa.te", "main">>), I(<<"dd.te", "main">>), I(<<"bb.if", "main">>), I(<<"bb.if", "ctx">>), I(<<"bb.if", "sys">>), I(<<"cc.if", "ctx">>), I(<<"cc.if", "sys">>), I(<<"cc.if", "main">>),
              I(<<"aa.te", "sys">>), I(<<"dir", "class">>), I(<<"file", "class">>) >>]
\* the same policy in every order of its files
P09a(n) == [P06a(n) EXCEPT !.kind = "orders", !.inc = FALSE, !.alpha = << I("aa.te"), I("bb.te"), I("bb.if"), I("cc.if"), I("dd.te"), I("modules.conf"), I("all.fc") >>]

\* characters where tokens are told apart: what is a token, and is a text with it a sentence
Chars(q) == [ i \in 1..Len(q) |-> I(q[i]) ]
P04a(n) == [Base EXCEPT !.kind = "letters", !.len = n, !.depth = 0, !.tail = << "if (aTEXTb) { ; }", "tunable_policy(`xTEXT',` ; ')", "if (TEXTa) { ; }" >>, !.alpha = Chars(<<"&", "|", "^", "=", "!", "(", ")", " ", "a", "~", "-", ",">>)]
P04b(n) == [P04a(n) EXCEPT !.tail = << "genfscon proc /xTEXTgen_context(a:b:c)", "genfscon proc /x TEXTa:b:c", "foo(a, TEXTb)" >>, !.alpha = Chars(<<"-", "l", "d", "b", "c", "s", "p", "x", " ", "\t", "--">>)]
P04c(n) == [P04a(n) EXCEPT !.tail = << "foo(\"TEXT\")", "type_transition a b:file c \"TEXT\";", "allow a b:file \"TEXT\";", "foo(TEXT)" >>, !.alpha = Chars(<<"a", ".", "-", ":", "~", "$", "_", " ", "\"", "+", "/", ",", "%", "*", "1", "'", "\n", "#">>)]
P04d(n) == [P04a(n) EXCEPT !.tail = << "foo(TEXT)", "nodecon TEXT ::1 a:b:c", "policy_module(m, TEXT)", "allow TEXT b:file c;", "portcon tcp TEXT a:b:c", "genfscon TEXT / a:b:c", "allowxperm a b:file ioctl TEXT;" >>, !.alpha = Chars(<<"a", "1", "0", ".", ":", "/", "$", "*", "-", "_", "x", "g", "::", "255">>)]
P04e(n) == [P04a(n) EXCEPT !.tail = << "; TEXT", "; #TEXT", "if (a) { ; #selint-disable:TEXT\n }", "foo(a) #selint-disable:TEXT", "TEXT" >>, !.alpha = Chars(<<"#selint-disable:", "selint-disable:", " ", "S-003", ",", "S-001", "s-003", "\t", "x", "#", "-", "W-0", ";">>)]
P04f(n) == [P04a(n) EXCEPT !.tail = << "TEXT", "typeTEXTb;", ";TEXT;" >>, !.alpha = Chars(<<"dnl", "\n", " ", "#", ";", "x", "\r", "\t", "dnlx", "'", ",", "@">>)]
P02b(n) == P04e(n)

\* layout put in front of every token of every statement
P08a(n) == [Base EXCEPT !.kind = "layout", !.len = n, !.depth = 0, !.pre = <<Other>>,
  !.head = <<Header("@"), Decl("type", "@_t"), Semi, Rd("@_t", "o_t"), Call("x_y", <<"@_t", "o_t">>), Av(<<"@_t">>, <<"self">>, <<"file", "dir">>, <<"write", "read">>), Opt(<<Semi, Gen(<<RD("type", <<"o_t", "b_t">>)>>)>>), Ifdef(<<Semi>>),
             BoolElse(<<Semi>>, <<Rd("@_t", "@_t")>>), Tun2(<<Semi>>, <<Semi>>), Ifelse4(<<Semi>>, <<Semi>>), Alias("@_m_t", <<"@_n_t">>), Talias("@_t", <<"@_q_t">>), Tt("@_t", "o_t", "file", "@_t"), Xav("@_t", "o_t", <<"0x2", "0x1">>), Tattr("@_t", <<"o_a">>), Rattr("o_r", <<"o_ra">>), Rtypes("o_r", <<"o_t">>), Wd("stray"), Semi>>,
  !.alpha = << I("\n"), I(" "), I("\t"), I("dnl\n"), I("dnl x; '\n"), I("\n\n"), I("\r\n"), I("dnl # {\n") >>]
\* layout and comments in front of every statement
P08b(n) == [P08a(n) EXCEPT !.kind = "comments", !.alpha = << I("\n"), I("\t"), I("# x\n"), I("#\n"), I("dnl\n"), I("dnl # x; '\n"), I("\n\n"), I("## allow a b:c d;\n"), I("# 'it`s {(\n"), I("\r\n") >>]

\* module headers, and names declared more than once
P20a(n) == [Base EXCEPT !.len = n, !.depth = 1, !.tail = <<Decl("bool", "@_z")>>, !.pre = <<Other, Ifs("p")>>, !.sups = <<>>,
  !.alpha = << I(Header("@")), I(BareHeader("@")), I(Header("x@")), I(Header("other")), I(BareHeader("@x")), I(Comment), I(Documented), I(Semi), I(Decl("type", "p_read")), I(Decl("attribute", "p_template")), I(Decl("role", "zp")), I(Decl("bool", "p_read")), I(Alias("@_t", <<"p_read">>)), I(Decl("type", "p_readx")), I(Talias("o_t", <<"p_template">>)), B(Opt(H)), B(Gen(H)) >>]
P20b(n) == [P20a(n) EXCEPT !.kind = "if", !.tail = <<>>, !.head = <<Documented, Interface("@_read", <<[k |-> "DOC"]>>), Documented, Template("@_template", <<[k |-> "DOC"]>>)>>,
  !.alpha = << I(Decl("type", "@_read")), I(Decl("attribute", "@_template")), I(Decl("type", "p_read")), I(Gen(<<RD("type", <<"@_read", "p_read">>)>>)), I(Rd("@_read", "self")), B(Opt(H)) >>]

Scope(name, n) ==
  CASE name = "P01a" -> P01a(n) [] name = "P02a" -> P02a(n) [] name = "P02c" -> P02c(n) [] name = "P07b" -> P07b(n) [] name = "P03a" -> P03a(n) [] name = "P05a" -> P05a(n) [] name = "P07a" -> P07a(n)
    [] name = "P10a" -> P10a(n) [] name = "P11a" -> P11a(n) [] name = "P11b" -> P11b(n) [] name = "P12a" -> P12a(n) [] name = "P12b" -> P12b(n)
    [] name = "P13a" -> P13a(n) [] name = "P13b" -> P13b(n) [] name = "P13c" -> P13c(n) [] name = "P13d" -> P13d(n) [] name = "P13e" -> P13e(n) [] name = "P13f" -> P13f(n)
    [] name = "P14a" -> P14a(n) [] name = "P14b" -> P14b(n) [] name = "P14c" -> P14c(n) [] name = "P14d" -> P14d(n)
    [] name = "P15a" -> P15a(n) [] name = "P15b" -> P15b(n) [] name = "P15c" -> P15c(n) [] name = "P16d" -> P16d(n) [] name = "P16a" -> P16a(n) [] name = "P16b" -> P16b(n) [] name = "P16c" -> P16c(n)
    [] name = "P17a" -> P17a(n) [] name = "P17b" -> P17b(n) [] name = "P17c" -> P17c(n) [] name = "P17d" -> P17d(n)
    [] name = "P18a" -> P18a(n) [] name = "P18b" -> P18b(n) [] name = "P18c" -> P18c(n) [] name = "P19a" -> P19a(n)
    [] name = "P06a" -> P06a(n) [] name = "P06b" -> P06b(n) [] name = "P08a" -> P08a(n) [] name = "P08b" -> P08b(n) [] name = "P09a" -> P09a(n) [] name = "P20a" -> P20a(n) [] name = "P20b" -> P20b(n)
    [] name = "P22a" -> P22a(n) [] name = "P22b" -> P22b(n) [] name = "P23a" -> P23a(n)
    [] name = "P13g" -> P13g(n)
    [] name = "P16e" -> P16e(n)
    [] name = "P16f" -> P16f(n)
    [] name = "P16g" -> P16g(n) [] name = "P16h" -> P16h(n)
    [] name = "P01b" -> P01b(n)
    [] name = "P01c" -> P01c(n)
    [] name = "P13h" -> P13h(n)
    [] name = "P18d" -> P18d(n)
    [] name = "P19b" -> P19b(n)
    [] name = "P22c" -> P22c(n)
    [] name = "P22d" -> P22d(n)
    [] name = "P04a" -> P04a(n)
    [] name = "P04b" -> P04b(n)
    [] name = "P04c" -> P04c(n)
    [] name = "P04d" -> P04d(n)
    [] name = "P04e" -> P04e(n)
    [] name = "P04f" -> P04f(n)
    [] name = "P02b" -> P02b(n)
    [] name = "P24a" -> P24a(n) [] name = "P24b" -> P24b(n) [] name = "P24c" -> P24c(n)
=============================================================================
