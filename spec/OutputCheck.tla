------------------------------ MODULE OutputCheck ------------------------------
(* Recorded outputs of recorded result trees.                                 *)
(*   out   [tree, fmt, filter, out]   result.output(fmt[, annotations=filter])*)
(*   errs  [tree, ip, k, out]         result.collect_errors(node, keyword)   *)
(*   same  [tree, after]              the tree before and after               *)
EXTENDS TraceLib, Output

FilterOf(e) == IF e.filter = <<>> THEN <<>> ELSE <<{e.filter[1][j] : j \in 1..Len(e.filter[1])}>>

V(hist, e) ==
    IF e.op = "same" THEN Check(e.after = hist.trees[e.tree], "output-changed-result")
    ELSE IF e.op = "errs"
    THEN IF IsErr(e.out) THEN "errors-raised" ELSE Check(SameErrors(e.out[2], hist.trees[e.tree], e.ip, e.k), "collected-errors")
    ELSE IF IsErr(e.out) THEN "output-raised " \o e.fmt
    ELSE LET n == hist.trees[e.tree]
             o == e.out[2]
         IN CASE e.fmt = "flag" -> Check(JEq(o, Flag(n)), "flag")
              [] e.fmt = "basic" -> Check(SameBasic(o, n, FilterOf(e)), IF e.filter = <<>> THEN "basic" ELSE "basic-filter")
              [] e.fmt = "detailed" -> Check(JEq(o, Detailed(n)), "detailed")
              [] e.fmt = "verbose" -> Check(JEq(o, Verbose(n)), "verbose")
              [] e.fmt = "hierarchical" -> SameH(o, n)

ONext == FNext(V)
=============================================================================
