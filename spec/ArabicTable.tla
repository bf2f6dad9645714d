---------------------------- MODULE ArabicTable ----------------------------
(* Arabic letters: joining type (D: both sides, R: to the letter before only, C: on both sides without     *)
(* changing shape, U: not at all) and presentation forms.  Written by tools/mkarabic.py from the Unicode   *)
(* character database.                                                                                    *)
EXTENDS Naturals, Sequences

Letters == <<
  [c |-> 1569, j |-> "U", iso |-> 65152, fin |-> 1569, ini |-> 65152, med |-> 1569],
  [c |-> 1570, j |-> "R", iso |-> 65153, fin |-> 65154, ini |-> 65153, med |-> 65154],
  [c |-> 1571, j |-> "R", iso |-> 65155, fin |-> 65156, ini |-> 65155, med |-> 65156],
  [c |-> 1572, j |-> "R", iso |-> 65157, fin |-> 65158, ini |-> 65157, med |-> 65158],
  [c |-> 1573, j |-> "R", iso |-> 65159, fin |-> 65160, ini |-> 65159, med |-> 65160],
  [c |-> 1574, j |-> "D", iso |-> 65161, fin |-> 65162, ini |-> 65163, med |-> 65164],
  [c |-> 1575, j |-> "R", iso |-> 65165, fin |-> 65166, ini |-> 65165, med |-> 65166],
  [c |-> 1576, j |-> "D", iso |-> 65167, fin |-> 65168, ini |-> 65169, med |-> 65170],
  [c |-> 1577, j |-> "R", iso |-> 65171, fin |-> 65172, ini |-> 65171, med |-> 65172],
  [c |-> 1578, j |-> "D", iso |-> 65173, fin |-> 65174, ini |-> 65175, med |-> 65176],
  [c |-> 1579, j |-> "D", iso |-> 65177, fin |-> 65178, ini |-> 65179, med |-> 65180],
  [c |-> 1580, j |-> "D", iso |-> 65181, fin |-> 65182, ini |-> 65183, med |-> 65184],
  [c |-> 1581, j |-> "D", iso |-> 65185, fin |-> 65186, ini |-> 65187, med |-> 65188],
  [c |-> 1582, j |-> "D", iso |-> 65189, fin |-> 65190, ini |-> 65191, med |-> 65192],
  [c |-> 1583, j |-> "R", iso |-> 65193, fin |-> 65194, ini |-> 65193, med |-> 65194],
  [c |-> 1584, j |-> "R", iso |-> 65195, fin |-> 65196, ini |-> 65195, med |-> 65196],
  [c |-> 1585, j |-> "R", iso |-> 65197, fin |-> 65198, ini |-> 65197, med |-> 65198],
  [c |-> 1586, j |-> "R", iso |-> 65199, fin |-> 65200, ini |-> 65199, med |-> 65200],
  [c |-> 1587, j |-> "D", iso |-> 65201, fin |-> 65202, ini |-> 65203, med |-> 65204],
  [c |-> 1588, j |-> "D", iso |-> 65205, fin |-> 65206, ini |-> 65207, med |-> 65208],
  [c |-> 1589, j |-> "D", iso |-> 65209, fin |-> 65210, ini |-> 65211, med |-> 65212],
  [c |-> 1590, j |-> "D", iso |-> 65213, fin |-> 65214, ini |-> 65215, med |-> 65216],
  [c |-> 1591, j |-> "D", iso |-> 65217, fin |-> 65218, ini |-> 65219, med |-> 65220],
  [c |-> 1592, j |-> "D", iso |-> 65221, fin |-> 65222, ini |-> 65223, med |-> 65224],
  [c |-> 1593, j |-> "D", iso |-> 65225, fin |-> 65226, ini |-> 65227, med |-> 65228],
  [c |-> 1594, j |-> "D", iso |-> 65229, fin |-> 65230, ini |-> 65231, med |-> 65232],
  [c |-> 1600, j |-> "C", iso |-> 1600, fin |-> 1600, ini |-> 1600, med |-> 1600],
  [c |-> 1601, j |-> "D", iso |-> 65233, fin |-> 65234, ini |-> 65235, med |-> 65236],
  [c |-> 1602, j |-> "D", iso |-> 65237, fin |-> 65238, ini |-> 65239, med |-> 65240],
  [c |-> 1603, j |-> "D", iso |-> 65241, fin |-> 65242, ini |-> 65243, med |-> 65244],
  [c |-> 1604, j |-> "D", iso |-> 65245, fin |-> 65246, ini |-> 65247, med |-> 65248],
  [c |-> 1605, j |-> "D", iso |-> 65249, fin |-> 65250, ini |-> 65251, med |-> 65252],
  [c |-> 1606, j |-> "D", iso |-> 65253, fin |-> 65254, ini |-> 65255, med |-> 65256],
  [c |-> 1607, j |-> "D", iso |-> 65257, fin |-> 65258, ini |-> 65259, med |-> 65260],
  [c |-> 1608, j |-> "R", iso |-> 65261, fin |-> 65262, ini |-> 65261, med |-> 65262],
  [c |-> 1609, j |-> "R", iso |-> 65263, fin |-> 65264, ini |-> 65263, med |-> 65264],
  [c |-> 1610, j |-> "D", iso |-> 65265, fin |-> 65266, ini |-> 65267, med |-> 65268],
  [c |-> 1662, j |-> "D", iso |-> 64342, fin |-> 64343, ini |-> 64344, med |-> 64345],
  [c |-> 1670, j |-> "D", iso |-> 64378, fin |-> 64379, ini |-> 64380, med |-> 64381],
  [c |-> 1688, j |-> "R", iso |-> 64394, fin |-> 64395, ini |-> 64394, med |-> 64395],
  [c |-> 1705, j |-> "D", iso |-> 64398, fin |-> 64399, ini |-> 64400, med |-> 64401],
  [c |-> 1711, j |-> "D", iso |-> 64402, fin |-> 64403, ini |-> 64404, med |-> 64405],
  [c |-> 1740, j |-> "D", iso |-> 64508, fin |-> 64509, ini |-> 64510, med |-> 64511]>>

(* the ligatures of lam with an alef *)
LamAlefs == <<
  [c |-> 1575, iso |-> 65275, fin |-> 65276],
  [c |-> 1571, iso |-> 65271, fin |-> 65272]>>
=============================================================================
