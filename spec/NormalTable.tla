---------------------------- MODULE NormalTable ----------------------------
(* The standard normal density and distribution function at k/8, k = 0..48, *)
(* times 10^6.  MC_AcqValues checks the table against itself (symmetry,     *)
(* monotonicity, the distribution is the integral of the density).          *)
EXTENDS Integers, Sequences
DensT == << 398942, 395838, 386668, 371855, 352065, 328161, 301137, 272055, 241971, 211877,
   182649, 155012, 129518, 106538, 86277, 68786, 53991, 41721, 31740, 23772,
   17528, 12724, 9094, 6398, 4432, 3022, 2029, 1341, 873, 559,
   353, 219, 134, 81, 48, 28, 16, 9, 5, 3,
   1, 1, 0, 0, 0, 0, 0, 0, 0 >>
CdfT == << 500000, 549738, 598706, 646170, 691462, 734014, 773373, 809213, 841345, 869705,
   894350, 915434, 933193, 947919, 959941, 969604, 977250, 983207, 987776, 991226,
   993790, 995668, 997020, 997980, 998650, 999111, 999423, 999631, 999767, 999856,
   999912, 999947, 999968, 999981, 999989, 999994, 999997, 999998, 999999, 999999,
   1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000 >>
Scale == 1000000
Mag(k) == IF k < 0 THEN -k ELSE k
Dens(k) == IF Mag(k) > 48 THEN 0 ELSE DensT[Mag(k) + 1]
Cdf(k) == IF k > 48 THEN Scale ELSE IF k < -48 THEN 0 ELSE IF k >= 0 THEN CdfT[k + 1] ELSE Scale - CdfT[1 - k]
=============================================================================
