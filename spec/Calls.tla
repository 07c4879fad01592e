------------------------------- MODULE Calls -------------------------------
(* The calls of the low-level writer.                                      *)
(*                                                                         *)
(* Calls: [k, n, ns, v, cx]                                                *)
(*   start   begin an element: name, namespace, cx = <<>> or               *)
(*           <<[prefixes, force]>>: declarations wanted, with the          *)
(*           element's namespace as the default                            *)
(*   attr    attribute: name, namespace, value                             *)
(*   open    end a start tag, content follows                              *)
(*   empty   end a start tag, the element is empty                         *)
(*   str     text                                                          *)
(*   close   end the innermost element                                     *)
EXTENDS Writer

Kinds == {"start", "attr", "open", "empty", "str", "close"}
(* Where the writer stands: "content", "tag" inside of a start tag, "value" *)
(* while an attribute value is being written.                               *)
Legal(mode) == CASE mode = "content" -> {"start", "str", "close"}
                 [] mode = "tag" -> {"attr", "open", "empty"}
                 [] mode = "value" -> {"str"}
After(mode, k) == CASE k = "start" -> "tag" [] k = "attr" -> "tag" [] OTHER -> "content"
=============================================================================
