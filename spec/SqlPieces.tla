----------------------------- MODULE SqlPieces ------------------------------
(***************************************************************************)
(* The pieces of text of which the texts of SqlMC are made.  Written by    *)
(* tools/mksqlpieces.py: do not edit.                                      *)
(***************************************************************************)
FramesOf(p) ==
  CASE p = "C30" -> <<<<<<>>, <<>>>>, <<<<115, 101, 108, 101, 99, 116, 32, 48, 59>>, <<>>>>, <<<<63, 59>>, <<>>>>>>
    [] p = "C31" -> <<<<<<115, 101, 108, 101, 99, 116, 32>>, <<>>>>>>
    [] p = "C32" -> <<<<<<118, 97, 108, 117, 101, 115, 32, 40, 101, 39>>, <<39, 44, 32, 55, 41>>>>, <<<<118, 97, 108, 117, 101, 115, 32, 40, 39>>, <<39, 44, 32, 55, 41>>>>, <<<<118, 97, 108, 117, 101, 115, 32, 40, 98, 39>>, <<39, 44, 32, 55, 41>>>>, <<<<118, 97, 108, 117, 101, 115, 32, 40, 120, 39>>, <<39, 44, 32, 55, 41>>>>, <<<<115, 101, 108, 101, 99, 116, 32, 97, 46, 34>>, <<34, 32, 102, 114, 111, 109, 32, 116>>>>, <<<<118, 97, 108, 117, 101, 115, 32, 40>>, <<44, 32, 39, 122, 39, 41>>>>, <<<<118, 97, 108, 117, 101, 115, 32, 40, 45>>, <<41>>>>>>
    [] p = "C36" -> <<<<<<99, 111, 112, 121, 32, 116, 32, 102, 114, 111, 109, 32, 115, 116, 100, 105, 110>>, <<>>>>, <<<<99, 111, 112, 121, 32, 116, 32, 40, 97, 41, 32, 102, 114, 111, 109, 32, 115, 116, 100, 105, 110, 32, 100, 101, 108, 105, 109, 105, 116, 101, 114, 32, 39, 44, 39>>, <<>>>>, <<<<98, 101, 103, 105, 110, 59, 10, 99, 111, 112, 121, 32, 116, 32, 102, 114, 111, 109, 10, 115, 116, 100, 105, 110>>, <<>>>>, <<<<99, 111, 112, 121, 32, 116, 32, 102, 114, 111, 109, 32, 115, 116, 100, 105, 110, 59, 10>>, <<>>>>>>
    [] p = "C37" -> <<<<<<>>, <<>>>>, <<<<99, 114, 101, 97, 116, 101, 32, 116, 97, 98, 108, 101, 32, 116, 32, 40, 97, 32, 105, 110, 116, 41, 32>>, <<>>>>, <<<<99, 111, 112, 121, 32, 116, 32, 102, 114, 111, 109, 32, 115, 116, 100, 105, 110, 59, 10>>, <<>>>>, <<<<100, 101, 108, 101, 116, 101, 32, 102, 114, 111, 109, 32, 116, 32, 119, 104, 101, 114, 101, 32, 97, 32, 61, 32, 49, 32>>, <<>>>>>>

PiecesOf(p) ==
  CASE p = "C30" -> <<<<115, 101, 108, 101, 99, 116, 32, 49, 59>>, <<115, 101, 108, 101, 99, 116, 32, 40, 59>>, <<59>>, <<32, 105, 110, 115, 101, 114, 116, 32, 105, 110, 116, 111, 32, 116, 32, 118, 97, 108, 117, 101, 115, 32, 40, 49, 41, 44, 32, 40, 50, 41, 59>>, <<63, 59>>, <<98, 101, 103, 105, 110, 59>>, <<99, 114, 101, 97, 116, 101, 32, 116, 97, 98, 108, 101, 32, 116, 32, 40, 97, 32, 105, 110, 116, 44, 32, 97, 32, 105, 110, 116, 41, 59>>, <<118, 97, 108, 117, 101, 115, 32, 40, 49, 41, 44, 32, 40, 49, 44, 32, 50, 41, 59>>, <<115, 101, 108, 101, 99, 116, 32, 97, 32, 63, 32, 98, 32, 99, 59>>, <<45, 45, 32, 120, 10, 59>>, <<115, 101, 108, 101, 99, 116, 32, 39, 120>>, <<99, 111, 109, 109, 105, 116>>, <<115, 101, 108, 101, 99, 116, 32, 49, 32, 49>>, <<115, 101, 116, 32, 97, 32, 61, 32, 39, 98, 39, 59>>, <<99, 114, 101, 97, 116, 101, 32, 100, 97, 116, 97, 98, 97, 115, 101, 32, 100, 32, 119, 105, 116, 104, 32, 97, 32, 61, 32, 49, 59>>, <<99, 114, 101, 97, 116, 101, 32, 100, 97, 116, 97, 98, 97, 115, 101, 32, 100, 32, 119, 105, 116, 104, 32, 98, 32, 61, 32, 50, 32, 99, 32, 51, 59>>, <<99, 114, 101, 97, 116, 101, 32, 116, 97, 98, 108, 101, 32, 117, 32, 40, 98, 32, 105, 110, 116, 44, 32, 112, 114, 105, 109, 97, 114, 121, 32, 107, 101, 121, 32, 40, 98, 32, 100, 101, 115, 99, 41, 41, 59>>, <<115, 101, 108, 101, 99, 116, 32, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 59>>, <<41>>>>
    [] p = "C31" -> <<<<39>>, <<34>>, <<91>>, <<93>>, <<96>>, <<92>>, <<45>>, <<47>>, <<42>>, <<59>>, <<97>>, <<101>>, <<49>>, <<46>>, <<36>>, <<32>>, <<10>>, <<40>>, <<44>>, <<61>>, <<60>>, <<120>>, <<64>>, <<124>>, <<0>>, <<255>>>>
    [] p = "C32" -> <<<<97>>, <<39>>, <<92>>, <<110>>, <<120>>, <<52>>, <<49>>, <<10>>, <<32>>, <<34>>, <<233>>, <<117>>, <<48>>, <<46>>, <<45>>, <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>, <<59>>>>
    [] p = "C36" -> <<<<32>>, <<10>>, <<45, 45, 32, 99, 10>>, <<47, 42, 32, 99, 10, 32, 42, 47>>, <<59>>, <<97, 9, 98>>, <<92, 46>>, <<32, 115, 101, 108, 101, 99, 116, 32, 49, 59>>, <<32, 99, 111, 112, 121, 32, 117, 32, 102, 114, 111, 109, 32, 115, 116, 100, 105, 110>>, <<13>>, <<39>>>>
    [] p = "C37" -> <<<<115, 101, 108, 101, 99, 116, 32, 49, 59>>, <<59>>, <<105, 110, 115, 101, 114, 116, 32, 105, 110, 116, 111, 32, 116, 32, 118, 97, 108, 117, 101, 115, 32, 40, 49, 41>>, <<118, 97, 108, 117, 101, 115, 32, 40, 49, 41, 44, 32, 40, 49, 44, 32, 50, 41, 59>>, <<32, 111, 114>>, <<32, 98>>, <<32, 39, 120, 32, 121, 39>>, <<45>>, <<101, 39, 92, 92, 120, 52, 49, 39>>, <<34, 113, 34>>, <<49, 50, 46, 53>>, <<47, 42, 32, 99, 32, 42, 47>>, <<45, 45, 32, 99, 10>>, <<63>>, <<60>>, <<60, 61>>, <<36, 49>>, <<120, 39, 52, 49, 39>>, <<99, 111, 112, 121, 32, 116, 32, 102, 114, 111, 109, 32, 115, 116, 100, 105, 110, 59>>, <<10>>, <<32, 100, 101, 108, 105, 109, 105, 116, 101, 114>>, <<39, 10, 32, 39, 122, 39>>>>

Sentences == <<
  <<<<115, 101, 108, 101, 99, 116>>, <<97>>, <<46>>, <<42>>, <<44>>, <<45>>, <<49>>, <<43>>, <<39, 120, 39>>, <<102, 114, 111, 109>>, <<116>>, <<59>>, <<99, 111, 109, 109, 105, 116>>, <<59>>>>,
  <<<<105, 110, 115, 101, 114, 116>>, <<105, 110, 116, 111>>, <<116>>, <<40>>, <<97>>, <<41>>, <<118, 97, 108, 117, 101, 115>>, <<40>>, <<49>>, <<60, 61>>, <<98>>, <<44>>, <<120, 39, 52, 49, 39>>, <<41>>, <<59>>>>,
  <<<<99, 114, 101, 97, 116, 101>>, <<116, 97, 98, 108, 101>>, <<34, 116, 34>>, <<40>>, <<97>>, <<105, 110, 116>>, <<110, 111, 116>>, <<110, 117, 108, 108>>, <<44>>, <<233>>, <<116, 101, 120, 116>>, <<41>>, <<59>>>>,
  <<<<115, 101, 108, 101, 99, 116>>, <<99, 111, 117, 110, 116>>, <<40>>, <<42>>, <<41>>, <<102, 114, 111, 109>>, <<116>>, <<64>>, <<105>>, <<119, 104, 101, 114, 101>>, <<97>>, <<47>>, <<50>>, <<124, 124>>, <<50, 46, 53>>, <<61>>, <<98>>, <<45>>, <<49>>, <<59>>>> >>

Gaps == <<<<>>, <<32>>, <<10>>, <<9>>, <<13, 10>>, <<11, 12>>, <<160>>, <<45, 45, 32, 99, 10>>, <<32, 45, 45, 10>>, <<47, 42, 32, 99, 32, 42, 47>>, <<47, 42, 42, 47>>, <<47, 42, 10, 42, 47, 32>>, <<32, 47, 42, 32, 42, 32, 47, 32, 45, 45, 32, 42, 47>>, <<8195>>, <<47, 42, 39, 42, 47>>, <<32, 45, 45, 32, 59, 10>>, <<45, 45, 39, 10>>>>

=============================================================================
