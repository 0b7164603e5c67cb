----------------------------- MODULE EntropyTable -----------------------------
(* Two candidates for the minimum, the second larger by z deviations of their *)
(* difference (z = -3, -2.5 .. 3), and an evaluation that is correlated with   *)
(* the difference by r (0, 7/25, 3/5, 4/5, 24/25): for 1, 5, 20 equally likely  *)
(* innovations, <<mean of sum p log p, mean of p1>> times 10^6 after the       *)
(* second-order update of log p:  log Phi(+-z) - (r m)^2/2 +- r m w,            *)
(* m = phi(z)/Phi(+-z).  MC_EntropySearch checks it against itself.            *)
EXTENDS Integers, Sequences
EntT == <<
   << << <<-10269, 1350>>, <<-7107, 885>>, <<-1854, 194>>, <<-475, 43>>, <<-118, 9>> >>,
      << <<-37746, 6210>>, <<-29084, 4551>>, <<-11167, 1487>>, <<-4208, 488>>, <<-1549, 159>> >>,
      << <<-108557, 22750>>, <<-91458, 18328>>, <<-48420, 8381>>, <<-25127, 3828>>, <<-12773, 1737>> >>,
      << <<-245301, 66807>>, <<-222067, 58229>>, <<-152492, 35235>>, <<-102592, 21179>>, <<-67718, 12619>> >>,
      << <<-437433, 158655>>, <<-417937, 147266>>, <<-350348, 111842>>, <<-288996, 84236>>, <<-234754, 62856>> >>,
      << <<-617926, 308538>>, <<-610767, 299885>>, <<-583249, 269990>>, <<-553600, 242198>>, <<-522156, 216277>> >>,
      << <<-693147, 500000>>, <<-693147, 500000>>, <<-693147, 500000>>, <<-693147, 500000>>, <<-693147, 500000>> >>,
      << <<-617926, 691462>>, <<-610767, 700115>>, <<-583249, 730010>>, <<-553600, 757802>>, <<-522156, 783723>> >>,
      << <<-437433, 841345>>, <<-417937, 852734>>, <<-350348, 888158>>, <<-288996, 915764>>, <<-234754, 937144>> >>,
      << <<-245301, 933193>>, <<-222067, 941771>>, <<-152492, 964765>>, <<-102592, 978821>>, <<-67718, 987381>> >>,
      << <<-108557, 977250>>, <<-91458, 981672>>, <<-48420, 991619>>, <<-25127, 996172>>, <<-12773, 998263>> >>,
      << <<-37746, 993790>>, <<-29084, 995449>>, <<-11167, 998513>>, <<-4208, 999512>>, <<-1549, 999841>> >>,
      << <<-10269, 998650>>, <<-7107, 999115>>, <<-1854, 999806>>, <<-475, 999957>>, <<-118, 999991>> >> >>,
   << << <<-10269, 1350>>, <<-8157, 1063>>, <<-3397, 414>>, <<-1333, 148>>, <<-494, 50>> >>,
      << <<-37746, 6210>>, <<-31931, 5214>>, <<-17141, 2653>>, <<-8924, 1280>>, <<-4481, 590>> >>,
      << <<-108557, 22750>>, <<-96765, 20169>>, <<-63764, 12792>>, <<-41606, 7885>>, <<-26647, 4721>> >>,
      << <<-245301, 66807>>, <<-228026, 61934>>, <<-176244, 46893>>, <<-136703, 35167>>, <<-105581, 26005>> >>,
      << <<-437433, 158655>>, <<-419502, 152339>>, <<-363321, 131912>>, <<-317367, 114431>>, <<-278455, 99100>> >>,
      << <<-617926, 308538>>, <<-604164, 303823>>, <<-559721, 288241>>, <<-521958, 274424>>, <<-489087, 261815>> >>,
      << <<-693147, 500000>>, <<-682175, 500000>>, <<-646121, 500000>>, <<-614738, 500000>>, <<-586877, 500000>> >>,
      << <<-617926, 691462>>, <<-604164, 696177>>, <<-559721, 711759>>, <<-521958, 725576>>, <<-489087, 738185>> >>,
      << <<-437433, 841345>>, <<-419502, 847661>>, <<-363321, 868088>>, <<-317367, 885569>>, <<-278455, 900900>> >>,
      << <<-245301, 933193>>, <<-228026, 938066>>, <<-176244, 953107>>, <<-136703, 964833>>, <<-105581, 973995>> >>,
      << <<-108557, 977250>>, <<-96765, 979831>>, <<-63764, 987208>>, <<-41606, 992115>>, <<-26647, 995279>> >>,
      << <<-37746, 993790>>, <<-31931, 994786>>, <<-17141, 997347>>, <<-8924, 998720>>, <<-4481, 999410>> >>,
      << <<-10269, 998650>>, <<-8157, 998937>>, <<-3397, 999586>>, <<-1333, 999852>>, <<-494, 999950>> >> >>,
   << << <<-10269, 1350>>, <<-8948, 1203>>, <<-5049, 691>>, <<-2611, 343>>, <<-1255, 154>> >>,
      << <<-37746, 6210>>, <<-33982, 5718>>, <<-22530, 3915>>, <<-14349, 2451>>, <<-8781, 1434>> >>,
      << <<-108557, 22750>>, <<-100408, 21509>>, <<-75256, 16853>>, <<-55903, 12604>>, <<-40988, 9075>> >>,
      << <<-245301, 66807>>, <<-231873, 64508>>, <<-190229, 55835>>, <<-157131, 47418>>, <<-130150, 39673>> >>,
      << <<-437433, 158655>>, <<-420266, 155712>>, <<-367219, 144578>>, <<-324675, 133437>>, <<-289275, 122663>> >>,
      << <<-617926, 308538>>, <<-599741, 306353>>, <<-544330, 298058>>, <<-500462, 289586>>, <<-464135, 281152>> >>,
      << <<-693147, 500000>>, <<-675086, 500000>>, <<-620618, 500000>>, <<-578111, 500000>>, <<-543339, 500000>> >>,
      << <<-617926, 691462>>, <<-599741, 693647>>, <<-544330, 701942>>, <<-500462, 710414>>, <<-464135, 718848>> >>,
      << <<-437433, 841345>>, <<-420266, 844288>>, <<-367219, 855422>>, <<-324675, 866563>>, <<-289275, 877337>> >>,
      << <<-245301, 933193>>, <<-231873, 935492>>, <<-190229, 944165>>, <<-157131, 952582>>, <<-130150, 960327>> >>,
      << <<-108557, 977250>>, <<-100408, 978491>>, <<-75256, 983147>>, <<-55903, 987396>>, <<-40988, 990925>> >>,
      << <<-37746, 993790>>, <<-33982, 994282>>, <<-22530, 996085>>, <<-14349, 997549>>, <<-8781, 998566>> >>,
      << <<-10269, 998650>>, <<-8948, 998797>>, <<-5049, 999309>>, <<-2611, 999657>>, <<-1255, 999846>> >> >> >>
Cosines == << <<0, 1>>, <<7, 25>>, <<3, 5>>, <<4, 5>>, <<24, 25>> >>
Samples == <<1, 5, 20>>
Ent(q, z, r) == EntT[q][z + 7][r][1]
Prob(q, z, r) == EntT[q][z + 7][r][2]
================================================================================
