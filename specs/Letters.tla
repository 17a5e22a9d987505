------------------------------ MODULE Letters -------------------------------
(***************************************************************************)
(* C11.  How the words of a statement are spelled and spaced around its    *)
(* parentheses.  The group machine tells which arguments are keywords and  *)
(* flags; then the output is read word by word: the name must be spelled   *)
(* by command_case, keywords and flags by keyword_case, everything else as *)
(* in the source.                                                          *)
(*                                                                         *)
(* Fields besides those of the group machine: nm spelling of the name in   *)
(* the source; t[k].s spelling of a token; y the output; skip number of    *)
(* commands in the output before the statement; cc, kc, sc, sf the         *)
(* options; pc per-command command_case; user[k].sp spelling configured.   *)
(***************************************************************************)
EXTENDS GroupMachine
VARIABLES p,   \* reader position in the output
          q,   \* number of tokens of the statement matched
          e    \* the next element of the output
lvars == <<vars, p, q, e>>
Y == K.y

\* the commands which the database does not spell in lower case
Spelled == <<
  [n |-> "externalproject_add", s |-> "ExternalProject_Add"],
  [n |-> "externalproject_add_step", s |-> "ExternalProject_Add_Step"],
  [n |-> "externalproject_add_stepdependencies", s |-> "ExternalProject_Add_StepDependencies"],
  [n |-> "externalproject_add_steptargets", s |-> "ExternalProject_Add_StepTargets"],
  [n |-> "externalproject_get_property", s |-> "ExternalProject_Get_Property"],
  [n |-> "fetchcontent_declare", s |-> "FetchContent_Declare"],
  [n |-> "fetchcontent_getproperties", s |-> "FetchContent_GetProperties"],
  [n |-> "fetchcontent_makeavailable", s |-> "FetchContent_MakeAvailable"],
  [n |-> "fetchcontent_populate", s |-> "FetchContent_Populate"],
  [n |-> "bison_target_option_defines", s |-> "BISON_TARGET_option_defines"],
  [n |-> "bison_target_option_extraopts", s |-> "BISON_TARGET_option_extraopts"],
  [n |-> "bison_target_option_report_file", s |-> "BISON_TARGET_option_report_file"],
  [n |-> "bison_target_option_verbose", s |-> "BISON_TARGET_option_verbose"],
  [n |-> "check_fortran_compiler_flag", s |-> "CHECK_Fortran_COMPILER_FLAG"],
  [n |-> "check_fortran_libraries", s |-> "Check_Fortran_Libraries"],
  [n |-> "check_fortran_source_compiles", s |-> "CHECK_Fortran_SOURCE_COMPILES"],
  [n |-> "check_lapack_libraries", s |-> "Check_Lapack_Libraries"],
  [n |-> "cmake_force_fortran_compiler", s |-> "CMAKE_FORCE_Fortran_COMPILER"],
  [n |-> "determinevsservicepack", s |-> "DetermineVSServicePack"],
  [n |-> "externaldata_add_target", s |-> "ExternalData_add_target"],
  [n |-> "externaldata_add_test", s |-> "ExternalData_add_test"],
  [n |-> "externaldata_expand_arguments", s |-> "ExternalData_expand_arguments"],
  [n |-> "fortrancinterface_header", s |-> "FortranCInterface_HEADER"],
  [n |-> "fortrancinterface_verify", s |-> "FortranCInterface_VERIFY"],
  [n |-> "getdefaultwindowsprefixbase", s |-> "GetDefaultWindowsPrefixBase"],
  [n |-> "gnuinstalldirs_get_absolute_install_dir", s |-> "GNUInstallDirs_get_absolute_install_dir"],
  [n |-> "mpi_search_mpi_prefix_folder", s |-> "MPI_search_mpi_prefix_folder"],
  [n |-> "printtestcompilerstatus", s |-> "PrintTestCompilerStatus"],
  [n |-> "processorcount", s |-> "ProcessorCount"],
  [n |-> "subversion_wc_info", s |-> "Subversion_WC_INFO"],
  [n |-> "subversion_wc_log", s |-> "Subversion_WC_LOG"]>>

Pick(S) == CHOOSE k \in S : TRUE
CommandCase == LET own == {k \in 1..Len(K.pc) : K.pc[k].name = K.cmd}
               IN IF own = {} THEN K.cc ELSE K.pc[Pick(own)].cc
WantName ==
  LET low == ToLower(K.nm)
      us == {k \in 1..Len(K.user) : K.user[k].name = K.cmd}
      cs == {k \in 1..Len(Spelled) : Spelled[k].n = K.cmd}
  IN CASE CommandCase = "lower" -> low
       [] CommandCase = "upper" -> ToUpper(K.nm)
       [] CommandCase = "unchanged" -> K.nm
       [] OTHER -> IF us # {} THEN K.user[Pick(us)].sp
                   ELSE IF cs # {} THEN Cp(Spelled[Pick(cs)].s) ELSE low
Ctrl == {"if", "elseif", "else", "endif", "while", "endwhile", "foreach", "endforeach",
         "function", "endfunction", "macro", "endmacro"}
WantSpace == IF K.cmd \in Ctrl THEN K.sc ELSE K.sf

WantToken(k, role) ==
  LET s == K.t[k].s
  IN IF role \in {"k", "f"} THEN IF K.kc = "lower" THEN ToLower(s) ELSE IF K.kc = "upper" THEN ToUpper(s) ELSE s
     ELSE s

\* the next element which is not a comment
RECURSIVE Code(_)
Code(pos) == LET v == NextEvent(Y, pos) IN IF IsComment(v) THEN Code(v.e) ELSE v
\* the position after n commands
RECURSIVE After(_, _, _)
After(pos, n, depth) ==
  IF n = 0 THEN pos
  ELSE LET v == Code(pos) IN
       IF v.k \in {"eof", "bad"} THEN v.e
       ELSE IF v.k = "(" THEN After(v.e, n, depth + 1)
       ELSE IF v.k = ")" THEN After(v.e, IF depth = 1 THEN n - 1 ELSE n, depth - 1)
       ELSE After(v.e, n, depth)

Same == UNCHANGED <<p, q, e>>
Say(clause, pos) == Decide(clause, pos) /\ Same

LInit == /\ c \in 1..Len(Cases) /\ i = 1 /\ ev = <<>> /\ st = "start" /\ stk = <<>>
         /\ p = 1 /\ q = 0 /\ e = Ev("eof", 1, 1)
Start == /\ st = "start"
         /\ st' = "run" /\ UNCHANGED <<c, i, ev>> /\ stk' = Frames(Node, {}) /\ Same
Run == /\ st = "run"
       /\ IF Len(stk) > 0 THEN Step /\ Same
          ELSE IF T.k # ")" \/ i # Len(K.t) THEN Say("skip-rest", i)
          ELSE IF K.err = 1 THEN Say("rejected", 0)
          ELSE LET v == Code(After(1, K.skip, 0)) IN
               /\ st' = "name" /\ e' = v /\ p' = v.e /\ q' = 0 /\ ev' = Append(Roles, ")")
               /\ UNCHANGED <<c, i, stk>>
\* the name and the parenthesis after it
Name == /\ st = "name"
        /\ LET v == NextEvent(Y, p) IN
           IF e.k # "u" \/ TextOf(Y, e) # WantName THEN Say("command-case", e.s)
           ELSE IF v.k # "(" \/ v.s # p + WantSpace \/ (WantSpace = 1 /\ Y[p] # SP) THEN Say("paren-space", p)
           ELSE IF Chr(Y, v.e) \in Blank THEN Say("space-after-paren", v.e)
           ELSE LET w == Code(v.e) IN
                st' = "args" /\ q' = 1 /\ e' = w /\ p' = w.e /\ UNCHANGED <<c, i, ev, stk>>
\* one argument per step; ev holds the roles now
Closed == LET b == SkipBack(Y, e.s - 1, Blank) IN b = e.s - 1 \/ Chr(Y, b) = LF
Args == /\ st = "args"
        /\ IF e.k \in {"eof", "bad"} \/ q > Len(K.t) THEN Say("skip-unaligned", q)
           ELSE IF TextOf(Y, e) # WantToken(q, ev[q])
             THEN Say(IF SameNoCase(TextOf(Y, e), K.t[q].s)
                      THEN IF ev[q] \in {"k", "f"} THEN "keyword-case" ELSE "argument-case" ELSE "argument", q)
           ELSE IF q = Len(K.t) THEN Say(IF Closed THEN "ok" ELSE "space-before-paren", q)
           ELSE LET w == Code(e.e) IN
                q' = q + 1 /\ e' = w /\ p' = w.e /\ UNCHANGED <<c, i, ev, stk, st>>
LNext == Start \/ Run \/ Name \/ Args
=============================================================================
