----------------------------- MODULE NormTable -----------------------------
(* The table of latin variants folded by candidate normalization (fzf's
   normalized runes), transcribed once and cross-checked against the Unicode
   data: 278 entries are the NFD base letter of the character, the remaining
   ones agree with the letter in the character's Unicode name.  It is grouped
   by target letter, unlike the table in the implementation. *)
NormGroups == <<
  <<65, <<192,193,194,195,196,197,570,7424,7844,7846,7848,7850,7852,7854,7856,7858,7860,7862>> >>,
  <<66, <<385,579,665,7427>> >>,
  <<67, <<199,571,7428>> >>,
  <<68, <<393,394,7429>> >>,
  <<69, <<200,201,202,203,398,400,582,7431,7870,7872,7874,7876,7878>> >>,
  <<71, <<403,610,667>> >>,
  <<72, <<668>> >>,
  <<73, <<204,205,206,207,304,407,618>> >>,
  <<74, <<584,7434>> >>,
  <<75, <<7435>> >>,
  <<76, <<573,671,7436>> >>,
  <<77, <<412,7437>> >>,
  <<78, <<209,413,544,628,7438>> >>,
  <<79, <<210,211,212,213,214,216,390,415,7439,7440,7888,7890,7892,7894,7896,7898,7900,7902,7904,7906>> >>,
  <<80, <<7448>> >>,
  <<81, <<586>> >>,
  <<82, <<588,640,641,7449,7450>> >>,
  <<84, <<430,574,7451>> >>,
  <<85, <<217,218,219,220,580,7452,7912,7914,7916,7918,7920>> >>,
  <<86, <<434,581,7456>> >>,
  <<87, <<7457>> >>,
  <<89, <<221,376,590,655>> >>,
  <<90, <<7458>> >>,
  <<97, <<224,225,226,227,228,229,257,259,261,462,513,515,551,592,593,867,7681,7834,7841,7843,7845,7847,7849,7851,7853,7855,7857,7859,7861,7863>> >>,
  <<98, <<384,387,595,7683,7685,7687>> >>,
  <<99, <<231,263,265,267,269,392,572,597,663,872,8580>> >>,
  <<100, <<271,273,396,545,598,599,873,7691,7693,7695,7697,7699>> >>,
  <<101, <<232,233,234,235,275,277,279,281,283,477,517,519,553,583,600,603,604,605,606,666,868,7432,7705,7707,7865,7867,7869,7871,7873,7875,7877,7879>> >>,
  <<102, <<402,7711>> >>,
  <<103, <<285,287,289,291,485,487,501,608,609,7713>> >>,
  <<104, <<293,295,543,613,614,686,874,7715,7717,7719,7721,7723,7830,8341>> >>,
  <<105, <<236,237,238,239,297,299,301,303,305,464,521,523,616,869,7433,7522,7725,7881,7883,8305>> >>,
  <<106, <<309,496,567,585,607,669>> >>,
  <<107, <<311,409,489,670,7729,7731,7733,8342>> >>,
  <<108, <<314,316,318,320,322,410,564,619,620,621,7735,7739,7741,8343>> >>,
  <<109, <<623,624,625,875,7455,7743,7745,7747,8344>> >>,
  <<110, <<241,324,326,328,414,505,565,626,627,7749,7751,7753,7755,8345>> >>,
  <<111, <<242,243,244,245,246,248,333,335,337,417,466,491,525,527,559,596,629,870,7441,7442,7443,7446,7447,7885,7887,7889,7891,7893,7895,7897,7899,7901,7903,7905,7907>> >>,
  <<112, <<421,7765,7767,8346>> >>,
  <<113, <<587,672>> >>,
  <<114, <<341,343,345,529,531,589,633,634,635,636,637,638,639,876,7523,7769,7771,7775>> >>,
  <<115, <<223,347,349,351,353,383,537,575,642,7777,7779,7835,8347>> >>,
  <<116, <<355,357,359,427,429,539,566,647,648,877,7787,7789,7791,7793,7831,8348>> >>,
  <<117, <<249,250,251,252,361,363,365,367,369,371,432,468,533,535,649,871,7453,7454,7524,7795,7797,7799,7909,7911,7913,7915,7917,7919,7921>> >>,
  <<118, <<651,652,878,7525,7805,7807>> >>,
  <<119, <<373,653,7809,7811,7813,7815,7817,7832>> >>,
  <<120, <<879,7819,7821>> >>,
  <<121, <<253,255,375,436,563,591,654,7823,7833,7923,7925,7927,7929>> >>,
  <<122, <<378,380,382,438,549,576,656,657,7825,7827,7829>> >>
>>

(* The ranges of characters spanned by the table: a query character lying in
   one of them is compared with the candidate as it is. *)
NormRanges == << <<192,879>>, <<7424,7929>>, <<8305,8580>> >>
=============================================================================
