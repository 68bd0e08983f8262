---------------------------- MODULE UnicodeData ----------------------------
(* GENERATED by tools/gen_unicode.rs from the Unicode database of Rust's
   standard library, version (17, 0, 0).
   ClassStarts/ClassVals: run-length table of the character class of every
   code point >= 128 (0 white space, 1 non-word, 3 lower, 4 upper, 5 letter,
   6 number).  LowerFrom/LowerTo: the 1:1 lowercase mappings between
   non-ASCII characters, sorted by source. *)
ClassStarts == <<
  128,133,134,160,161,170,171,178,180,181,182,185,186,187,188,191,192,215,216,223,247,248,256,
  257,258,259,260,261,262,263,264,265,266,267,268,269,270,271,272,273,274,275,276,277,278,279,
  280,281,282,283,284,285,286,287,288,289,290,291,292,293,294,295,296,297,298,299,300,301,302,
  303,304,305,306,307,308,309,310,311,313,314,315,316,317,318,319,320,321,322,323,324,325,326,
  327,328,330,331,332,333,334,335,336,337,338,339,340,341,342,343,344,345,346,347,348,349,350,
  351,352,353,354,355,356,357,358,359,360,361,362,363,364,365,366,367,368,369,370,371,372,373,
  374,375,376,378,379,380,381,382,385,387,388,389,390,392,393,396,398,402,403,405,406,409,412,
  414,415,417,418,419,420,421,422,424,425,426,428,429,430,432,433,436,437,438,439,441,443,444,
  445,448,452,453,454,455,456,457,458,459,460,461,462,463,464,465,466,467,468,469,470,471,472,
  473,474,475,476,478,479,480,481,482,483,484,485,486,487,488,489,490,491,492,493,494,495,497,
  498,499,500,501,502,505,506,507,508,509,510,511,512,513,514,515,516,517,518,519,520,521,522,
  523,524,525,526,527,528,529,530,531,532,533,534,535,536,537,538,539,540,541,542,543,544,545,
  546,547,548,549,550,551,552,553,554,555,556,557,558,559,560,561,562,563,570,572,573,575,577,
  578,579,583,584,585,586,587,588,589,590,591,660,662,697,704,706,710,722,736,741,748,749,750,
  751,837,838,867,880,881,882,883,884,885,886,887,888,890,894,895,896,902,903,904,907,908,909,
  910,912,913,930,931,940,975,976,978,981,984,985,986,987,988,989,990,991,992,993,994,995,996,
  997,998,999,1000,1001,1002,1003,1004,1005,1006,1007,1012,1013,1014,1015,1016,1017,1019,1021,
  1072,1120,1121,1122,1123,1124,1125,1126,1127,1128,1129,1130,1131,1132,1133,1134,1135,1136,1137,
  1138,1139,1140,1141,1142,1143,1144,1145,1146,1147,1148,1149,1150,1151,1152,1153,1154,1162,1163,
  1164,1165,1166,1167,1168,1169,1170,1171,1172,1173,1174,1175,1176,1177,1178,1179,1180,1181,1182,
  1183,1184,1185,1186,1187,1188,1189,1190,1191,1192,1193,1194,1195,1196,1197,1198,1199,1200,1201,
  1202,1203,1204,1205,1206,1207,1208,1209,1210,1211,1212,1213,1214,1215,1216,1218,1219,1220,1221,
  1222,1223,1224,1225,1226,1227,1228,1229,1230,1232,1233,1234,1235,1236,1237,1238,1239,1240,1241,
  1242,1243,1244,1245,1246,1247,1248,1249,1250,1251,1252,1253,1254,1255,1256,1257,1258,1259,1260,
  1261,1262,1263,1264,1265,1266,1267,1268,1269,1270,1271,1272,1273,1274,1275,1276,1277,1278,1279,
  1280,1281,1282,1283,1284,1285,1286,1287,1288,1289,1290,1291,1292,1293,1294,1295,1296,1297,1298,
  1299,1300,1301,1302,1303,1304,1305,1306,1307,1308,1309,1310,1311,1312,1313,1314,1315,1316,1317,
  1318,1319,1320,1321,1322,1323,1324,1325,1326,1327,1328,1329,1367,1369,1370,1376,1417,1456,1470,
  1471,1472,1473,1475,1476,1478,1479,1480,1488,1515,1519,1523,1552,1563,1568,1624,1625,1632,1642,
  1646,1748,1749,1757,1761,1769,1773,1776,1786,1789,1791,1792,1808,1856,1869,1970,1984,1994,2027,
  2036,2038,2042,2043,2048,2072,2074,2093,2112,2137,2144,2155,2160,2184,2185,2192,2199,2200,2208,
  2250,2260,2272,2275,2282,2288,2364,2365,2381,2382,2385,2389,2404,2406,2416,2417,2436,2437,2445,
  2447,2449,2451,2473,2474,2481,2482,2483,2486,2490,2493,2501,2503,2505,2507,2509,2510,2511,2519,
  2520,2524,2526,2527,2532,2534,2544,2546,2548,2554,2556,2557,2561,2564,2565,2571,2575,2577,2579,
  2601,2602,2609,2610,2612,2613,2615,2616,2618,2622,2627,2631,2633,2635,2637,2641,2642,2649,2653,
  2654,2655,2662,2672,2678,2689,2692,2693,2702,2703,2706,2707,2729,2730,2737,2738,2740,2741,2746,
  2749,2758,2759,2762,2763,2765,2768,2769,2784,2788,2790,2800,2809,2813,2817,2820,2821,2829,2831,
  2833,2835,2857,2858,2865,2866,2868,2869,2874,2877,2885,2887,2889,2891,2893,2902,2904,2908,2910,
  2911,2916,2918,2928,2929,2930,2936,2946,2948,2949,2955,2958,2961,2962,2966,2969,2971,2972,2973,
  2974,2976,2979,2981,2984,2987,2990,3002,3006,3011,3014,3017,3018,3021,3024,3025,3031,3032,3046,
  3059,3072,3085,3086,3089,3090,3113,3114,3130,3133,3141,3142,3145,3146,3149,3157,3159,3160,3163,
  3164,3166,3168,3172,3174,3184,3192,3199,3200,3204,3205,3213,3214,3217,3218,3241,3242,3252,3253,
  3258,3261,3269,3270,3273,3274,3277,3285,3287,3292,3295,3296,3300,3302,3312,3313,3316,3328,3341,
  3342,3345,3346,3387,3389,3397,3398,3401,3402,3405,3406,3407,3412,3416,3423,3428,3430,3449,3450,
  3456,3457,3460,3461,3479,3482,3506,3507,3516,3517,3518,3520,3527,3535,3541,3542,3543,3544,3552,
  3558,3568,3570,3572,3585,3643,3648,3655,3661,3662,3664,3674,3713,3715,3716,3717,3718,3723,3724,
  3748,3749,3750,3751,3770,3771,3774,3776,3781,3782,3783,3789,3790,3792,3802,3804,3808,3840,3841,
  3872,3892,3904,3912,3913,3949,3953,3972,3976,3992,3993,4029,4096,4151,4152,4153,4155,4160,4170,
  4176,4240,4250,4254,4256,4294,4295,4296,4301,4302,4304,4347,4348,4352,4681,4682,4686,4688,4695,
  4696,4697,4698,4702,4704,4745,4746,4750,4752,4785,4786,4790,4792,4799,4800,4801,4802,4806,4808,
  4823,4824,4881,4882,4886,4888,4955,4969,4989,4992,5008,5024,5110,5112,5118,5121,5741,5743,5760,
  5761,5787,5792,5867,5870,5873,5881,5888,5908,5919,5940,5952,5972,5984,5997,5998,6001,6002,6004,
  6016,6068,6070,6089,6103,6104,6108,6109,6112,6122,6128,6138,6160,6170,6176,6265,6272,6315,6320,
  6390,6400,6431,6432,6444,6448,6457,6470,6480,6510,6512,6517,6528,6572,6576,6602,6608,6619,6656,
  6684,6688,6751,6753,6773,6784,6794,6800,6810,6823,6824,6847,6849,6860,6863,6912,6964,6965,6980,
  6981,6989,6992,7002,7040,7082,7084,7088,7098,7142,7143,7154,7168,7223,7232,7242,7245,7248,7258,
  7294,7296,7305,7306,7307,7312,7355,7357,7360,7401,7405,7406,7412,7413,7415,7418,7419,7424,7616,
  7635,7669,7680,7681,7682,7683,7684,7685,7686,7687,7688,7689,7690,7691,7692,7693,7694,7695,7696,
  7697,7698,7699,7700,7701,7702,7703,7704,7705,7706,7707,7708,7709,7710,7711,7712,7713,7714,7715,
  7716,7717,7718,7719,7720,7721,7722,7723,7724,7725,7726,7727,7728,7729,7730,7731,7732,7733,7734,
  7735,7736,7737,7738,7739,7740,7741,7742,7743,7744,7745,7746,7747,7748,7749,7750,7751,7752,7753,
  7754,7755,7756,7757,7758,7759,7760,7761,7762,7763,7764,7765,7766,7767,7768,7769,7770,7771,7772,
  7773,7774,7775,7776,7777,7778,7779,7780,7781,7782,7783,7784,7785,7786,7787,7788,7789,7790,7791,
  7792,7793,7794,7795,7796,7797,7798,7799,7800,7801,7802,7803,7804,7805,7806,7807,7808,7809,7810,
  7811,7812,7813,7814,7815,7816,7817,7818,7819,7820,7821,7822,7823,7824,7825,7826,7827,7828,7829,
  7838,7839,7840,7841,7842,7843,7844,7845,7846,7847,7848,7849,7850,7851,7852,7853,7854,7855,7856,
  7857,7858,7859,7860,7861,7862,7863,7864,7865,7866,7867,7868,7869,7870,7871,7872,7873,7874,7875,
  7876,7877,7878,7879,7880,7881,7882,7883,7884,7885,7886,7887,7888,7889,7890,7891,7892,7893,7894,
  7895,7896,7897,7898,7899,7900,7901,7902,7903,7904,7905,7906,7907,7908,7909,7910,7911,7912,7913,
  7914,7915,7916,7917,7918,7919,7920,7921,7922,7923,7924,7925,7926,7927,7928,7929,7930,7931,7932,
  7933,7934,7935,7944,7952,7958,7960,7966,7968,7976,7984,7992,8000,8006,8008,8014,8016,8024,8025,
  8026,8027,8028,8029,8030,8031,8032,8040,8048,8062,8064,8072,8080,8088,8096,8104,8112,8117,8118,
  8120,8124,8125,8126,8127,8130,8133,8134,8136,8140,8141,8144,8148,8150,8152,8156,8160,8168,8173,
  8178,8181,8182,8184,8188,8189,8192,8203,8232,8234,8239,8240,8287,8288,8304,8305,8306,8308,8314,
  8319,8320,8330,8336,8349,8450,8451,8455,8456,8458,8459,8462,8464,8467,8468,8469,8470,8473,8478,
  8484,8485,8486,8487,8488,8489,8490,8494,8495,8496,8500,8501,8505,8506,8508,8510,8512,8517,8518,
  8522,8526,8527,8528,8544,8560,8576,8579,8580,8581,8586,9312,9372,9398,9424,9450,9472,10102,
  10132,11264,11312,11360,11361,11362,11365,11367,11368,11369,11370,11371,11372,11373,11377,11378,
  11379,11381,11382,11390,11393,11394,11395,11396,11397,11398,11399,11400,11401,11402,11403,11404,
  11405,11406,11407,11408,11409,11410,11411,11412,11413,11414,11415,11416,11417,11418,11419,11420,
  11421,11422,11423,11424,11425,11426,11427,11428,11429,11430,11431,11432,11433,11434,11435,11436,
  11437,11438,11439,11440,11441,11442,11443,11444,11445,11446,11447,11448,11449,11450,11451,11452,
  11453,11454,11455,11456,11457,11458,11459,11460,11461,11462,11463,11464,11465,11466,11467,11468,
  11469,11470,11471,11472,11473,11474,11475,11476,11477,11478,11479,11480,11481,11482,11483,11484,
  11485,11486,11487,11488,11489,11490,11491,11493,11499,11500,11501,11502,11503,11506,11507,11508,
  11517,11518,11520,11558,11559,11560,11565,11566,11568,11624,11631,11632,11648,11671,11680,11687,
  11688,11695,11696,11703,11704,11711,11712,11719,11720,11727,11728,11735,11736,11743,11744,11776,
  11823,11824,12288,12289,12293,12295,12296,12321,12330,12337,12342,12344,12347,12349,12353,12439,
  12445,12448,12449,12539,12540,12544,12549,12592,12593,12687,12690,12694,12704,12736,12784,12800,
  12832,12842,12872,12880,12881,12896,12928,12938,12977,12992,13312,19904,19968,42125,42192,42238,
  42240,42509,42512,42528,42538,42540,42560,42561,42562,42563,42564,42565,42566,42567,42568,42569,
  42570,42571,42572,42573,42574,42575,42576,42577,42578,42579,42580,42581,42582,42583,42584,42585,
  42586,42587,42588,42589,42590,42591,42592,42593,42594,42595,42596,42597,42598,42599,42600,42601,
  42602,42603,42604,42605,42606,42607,42612,42620,42623,42624,42625,42626,42627,42628,42629,42630,
  42631,42632,42633,42634,42635,42636,42637,42638,42639,42640,42641,42642,42643,42644,42645,42646,
  42647,42648,42649,42650,42651,42654,42726,42736,42775,42784,42786,42787,42788,42789,42790,42791,
  42792,42793,42794,42795,42796,42797,42798,42799,42802,42803,42804,42805,42806,42807,42808,42809,
  42810,42811,42812,42813,42814,42815,42816,42817,42818,42819,42820,42821,42822,42823,42824,42825,
  42826,42827,42828,42829,42830,42831,42832,42833,42834,42835,42836,42837,42838,42839,42840,42841,
  42842,42843,42844,42845,42846,42847,42848,42849,42850,42851,42852,42853,42854,42855,42856,42857,
  42858,42859,42860,42861,42862,42863,42873,42874,42875,42876,42877,42879,42880,42881,42882,42883,
  42884,42885,42886,42887,42888,42889,42891,42892,42893,42894,42895,42896,42897,42898,42899,42902,
  42903,42904,42905,42906,42907,42908,42909,42910,42911,42912,42913,42914,42915,42916,42917,42918,
  42919,42920,42921,42922,42927,42928,42933,42934,42935,42936,42937,42938,42939,42940,42941,42942,
  42943,42944,42945,42946,42947,42948,42952,42953,42954,42955,42957,42958,42959,42960,42961,42962,
  42963,42964,42965,42966,42967,42968,42969,42970,42971,42972,42973,42993,42997,42998,42999,43000,
  43003,43014,43015,43048,43056,43062,43072,43124,43136,43204,43205,43206,43216,43226,43250,43256,
  43259,43260,43261,43264,43274,43307,43312,43347,43360,43389,43392,43443,43444,43456,43471,43472,
  43482,43488,43504,43514,43519,43520,43575,43584,43598,43600,43610,43616,43639,43642,43711,43712,
  43713,43714,43715,43739,43742,43744,43760,43762,43766,43777,43783,43785,43791,43793,43799,43808,
  43815,43816,43823,43824,43867,43868,43882,43888,43968,44011,44016,44026,44032,55204,55216,55239,
  55243,55292,63744,64110,64112,64218,64256,64263,64275,64280,64285,64297,64298,64311,64312,64317,
  64318,64319,64320,64322,64323,64325,64326,64434,64467,64830,64848,64912,64914,64968,65008,65020,
  65136,65141,65142,65277,65296,65306,65313,65339,65345,65371,65382,65471,65474,65480,65482,65488,
  65490,65496,65498,65501,65536,65548,65549,65575,65576,65595,65596,65598,65599,65614,65616,65630,
  65664,65787,65799,65844,65856,65913,65930,65932,66176,66205,66208,66257,66273,66300,66304,66336,
  66340,66349,66369,66370,66378,66379,66384,66427,66432,66462,66464,66500,66504,66512,66513,66518,
  66560,66600,66640,66718,66720,66730,66736,66772,66776,66812,66816,66856,66864,66916,66928,66939,
  66940,66955,66956,66963,66964,66966,66967,66978,66979,66994,66995,67002,67003,67005,67008,67060,
  67072,67383,67392,67414,67424,67432,67456,67457,67459,67462,67463,67505,67506,67515,67584,67590,
  67592,67593,67594,67638,67639,67641,67644,67645,67647,67670,67672,67680,67703,67705,67712,67743,
  67751,67760,67808,67827,67828,67830,67835,67840,67862,67868,67872,67898,67904,67930,67968,68024,
  68028,68030,68032,68048,68050,68096,68100,68101,68103,68108,68116,68117,68120,68121,68150,68160,
  68169,68192,68221,68223,68224,68253,68256,68288,68296,68297,68325,68331,68336,68352,68406,68416,
  68438,68440,68448,68467,68472,68480,68498,68521,68528,68608,68681,68736,68787,68800,68851,68858,
  68864,68904,68912,68922,68928,68938,68944,68966,68969,68970,68975,68976,68998,69216,69247,69248,
  69290,69291,69293,69296,69298,69314,69320,69370,69373,69376,69405,69415,69416,69424,69446,69457,
  69461,69488,69506,69552,69573,69580,69600,69623,69632,69702,69714,69744,69745,69750,69760,69817,
  69826,69827,69840,69865,69872,69882,69888,69939,69942,69952,69956,69960,69968,70003,70006,70007,
  70016,70080,70081,70085,70094,70096,70106,70107,70108,70109,70113,70133,70144,70162,70163,70197,
  70199,70200,70206,70210,70272,70279,70280,70281,70282,70286,70287,70302,70303,70313,70320,70377,
  70384,70394,70400,70404,70405,70413,70415,70417,70419,70441,70442,70449,70450,70452,70453,70458,
  70461,70469,70471,70473,70475,70477,70480,70481,70487,70488,70493,70500,70528,70538,70539,70540,
  70542,70543,70544,70582,70583,70593,70594,70595,70597,70598,70599,70603,70604,70606,70609,70610,
  70611,70612,70656,70722,70723,70726,70727,70731,70736,70746,70751,70754,70784,70850,70852,70854,
  70855,70856,70864,70874,71040,71094,71096,71103,71128,71134,71168,71231,71232,71233,71236,71237,
  71248,71258,71296,71350,71352,71353,71360,71370,71376,71396,71424,71451,71453,71467,71472,71484,
  71488,71495,71680,71737,71840,71872,71904,71923,71935,71943,71945,71946,71948,71956,71957,71959,
  71960,71990,71991,71993,71995,71997,71999,72003,72016,72026,72096,72104,72106,72152,72154,72160,
  72161,72162,72163,72165,72192,72243,72245,72255,72272,72344,72349,72350,72368,72441,72544,72552,
  72640,72673,72688,72698,72704,72713,72714,72759,72760,72767,72768,72769,72784,72813,72818,72848,
  72850,72872,72873,72887,72960,72967,72968,72970,72971,73015,73018,73019,73020,73022,73023,73026,
  73027,73028,73030,73032,73040,73050,73056,73062,73063,73065,73066,73103,73104,73106,73107,73111,
  73112,73113,73120,73130,73136,73180,73184,73194,73440,73463,73472,73489,73490,73531,73534,73537,
  73552,73562,73648,73649,73664,73685,73728,74650,74752,74863,74880,75076,77712,77809,77824,78896,
  78913,78919,78944,82939,82944,83527,90368,90415,90416,90426,92160,92729,92736,92767,92768,92778,
  92784,92863,92864,92874,92880,92910,92928,92976,92992,92996,93008,93018,93019,93026,93027,93048,
  93053,93072,93504,93549,93552,93562,93760,93792,93824,93847,93856,93881,93883,93908,93952,94027,
  94031,94088,94095,94112,94176,94178,94179,94180,94192,94196,94199,94208,101590,101631,101663,
  101760,101875,110576,110580,110581,110588,110589,110591,110592,110883,110898,110899,110928,
  110931,110933,110934,110948,110952,110960,111356,113664,113771,113776,113789,113792,113801,
  113808,113818,113822,113823,118000,118010,119488,119508,119520,119540,119648,119673,119808,
  119834,119860,119886,119893,119894,119912,119938,119964,119965,119966,119968,119970,119971,
  119973,119975,119977,119981,119982,119990,119994,119995,119996,119997,120004,120005,120016,
  120042,120068,120070,120071,120075,120077,120085,120086,120093,120094,120120,120122,120123,
  120127,120128,120133,120134,120135,120138,120145,120146,120172,120198,120224,120250,120276,
  120302,120328,120354,120380,120406,120432,120458,120486,120488,120513,120514,120539,120540,
  120546,120571,120572,120597,120598,120604,120629,120630,120655,120656,120662,120687,120688,
  120713,120714,120720,120745,120746,120771,120772,120778,120779,120780,120782,120832,122624,
  122634,122635,122655,122661,122667,122880,122887,122888,122905,122907,122914,122915,122917,
  122918,122923,122928,122990,123023,123024,123136,123181,123191,123198,123200,123210,123214,
  123215,123536,123566,123584,123628,123632,123642,124112,124140,124144,124154,124368,124398,
  124400,124401,124411,124608,124639,124640,124662,124670,124672,124896,124903,124904,124908,
  124909,124911,124912,124927,124928,125125,125127,125136,125184,125218,125252,125255,125256,
  125259,125260,125264,125274,126065,126124,126125,126128,126129,126133,126209,126254,126255,
  126270,126464,126468,126469,126496,126497,126499,126500,126501,126503,126504,126505,126515,
  126516,126520,126521,126522,126523,126524,126530,126531,126535,126536,126537,126538,126539,
  126540,126541,126544,126545,126547,126548,126549,126551,126552,126553,126554,126555,126556,
  126557,126558,126559,126560,126561,126563,126564,126565,126567,126571,126572,126579,126580,
  126584,126585,126589,126590,126591,126592,126602,126603,126620,126625,126628,126629,126634,
  126635,126652,127232,127245,127280,127306,127312,127338,127344,127370,130032,130042,131072,
  173792,173824,178206,178208,183982,183984,191457,191472,192094,194560,195102,196608,201547,
  201552,210042>>
ClassVals == <<
  1,0,1,0,1,3,1,6,1,3,1,6,3,1,6,1,4,1,4,3,1,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,
  4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,
  4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,
  4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,5,4,
  3,5,4,5,3,4,5,3,4,5,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,
  5,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,
  4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,5,3,5,3,1,5,1,3,1,5,1,5,
  1,3,1,5,4,3,4,3,5,1,4,3,1,3,1,4,1,4,1,4,1,4,1,4,3,4,1,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,
  3,4,3,4,3,4,3,4,3,4,3,4,3,1,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,
  4,3,4,3,4,3,4,3,1,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,
  3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,
  3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,
  3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,1,4,1,5,1,3,1,5,1,5,1,
  5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,6,1,5,1,5,1,5,1,5,6,5,1,5,1,5,1,5,1,6,5,1,5,1,5,1,5,1,5,1,5,1,
  5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,
  5,1,5,1,5,1,6,5,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,6,5,1,5,1,
  5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,
  5,1,5,1,5,1,6,1,5,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,6,1,5,1,5,
  1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,6,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,
  1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,6,5,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,6,
  1,5,1,5,1,5,1,5,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,6,1,5,1,5,1,6,1,5,1,5,1,5,1,5,
  1,5,1,5,1,5,1,5,6,1,5,6,5,1,4,1,4,1,4,1,3,1,3,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,
  1,5,1,5,1,5,1,5,1,6,1,5,1,4,1,3,1,5,1,5,0,5,1,5,1,6,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,
  5,1,6,1,6,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,6,5,1,5,1,5,1,5,1,6,1,5,1,5,1,5,1,6,1,6,1,5,1,5,1,5,
  1,5,1,5,1,5,1,6,1,5,1,5,6,5,1,5,1,5,1,6,1,5,6,5,1,3,4,3,1,4,1,4,1,5,1,5,1,5,1,5,1,3,1,5,1,4,
  3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,
  3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,
  3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,
  3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,
  3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,
  3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,1,4,1,3,4,3,4,3,1,4,1,3,1,4,1,4,1,4,1,4,3,4,3,1,3,5,3,
  5,3,5,3,1,3,4,5,1,3,1,3,1,3,4,5,1,3,1,3,4,1,3,4,1,3,1,3,4,5,1,0,1,0,1,0,1,0,1,6,3,1,6,1,3,6,
  1,3,1,4,1,4,1,3,4,3,4,3,1,4,1,4,1,4,1,4,1,4,1,4,1,3,4,3,5,3,1,3,4,1,4,3,1,3,1,6,4,3,6,4,3,6,
  1,6,1,4,3,6,1,6,1,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,
  3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,
  3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,1,4,3,4,3,1,4,3,1,6,1,
  3,1,3,1,3,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,0,1,5,6,1,6,1,5,1,6,5,1,5,1,
  5,1,5,1,5,1,5,1,5,1,6,1,5,1,5,1,6,1,6,1,6,1,6,1,6,1,5,1,5,1,5,1,5,1,5,6,5,1,4,3,4,3,4,3,4,3,
  4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,5,1,5,1,5,4,3,4,
  3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,5,6,1,5,1,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,
  4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,
  4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,5,1,4,3,4,3,5,4,3,4,3,4,3,4,3,4,3,4,
  3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,3,4,
  3,4,3,4,3,4,1,3,4,3,5,3,5,1,5,1,6,1,5,1,5,1,5,1,6,1,5,1,5,1,5,6,5,1,5,1,5,1,5,1,5,1,5,6,1,5,
  6,5,1,5,1,5,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,3,1,3,1,3,5,1,6,1,5,1,5,1,
  5,1,5,1,5,1,3,1,3,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,6,1,4,1,3,1,5,1,5,1,
  5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,6,1,6,1,6,1,5,1,5,1,6,1,5,6,1,5,6,5,6,1,5,1,5,1,5,1,
  5,1,6,1,4,3,5,1,6,1,4,1,3,1,5,1,5,1,4,1,4,1,4,1,4,1,3,1,3,1,3,1,3,1,5,1,5,1,5,1,5,1,3,5,3,1,
  3,1,3,1,5,1,5,1,5,1,5,1,5,1,5,1,6,5,1,6,5,1,6,1,5,1,5,1,6,5,6,1,5,1,5,1,5,1,6,5,6,1,6,5,1,5,
  1,5,1,5,1,5,1,6,1,5,6,1,5,6,1,5,1,5,1,6,1,5,1,5,1,6,5,1,6,5,1,6,1,5,1,4,1,3,1,6,5,1,6,1,6,5,
  4,1,5,1,5,3,1,6,1,5,1,5,1,5,1,5,1,5,1,5,6,5,1,5,1,6,1,5,1,5,6,1,5,1,5,1,6,1,5,1,5,1,5,1,5,1,
  6,1,5,1,6,1,5,1,5,1,5,1,5,1,5,1,5,6,5,1,5,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,6,1,
  5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,
  5,1,5,1,5,1,5,1,6,1,5,1,5,1,5,1,5,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,6,1,5,1,5,1,6,1,6,1,5,1,5,1,
  6,1,5,1,5,1,4,3,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,
  5,1,5,1,5,1,6,1,5,1,5,1,5,1,5,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,6,1,5,1,5,1,
  5,1,5,1,5,1,5,1,6,1,5,1,6,1,5,1,5,1,5,1,5,1,6,1,5,1,6,1,5,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,
  6,1,5,1,5,1,6,1,5,1,6,1,5,1,5,1,5,1,6,1,6,1,5,1,5,1,5,1,6,1,4,3,6,1,4,1,3,1,5,1,5,1,5,1,5,1,
  5,1,5,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,6,1,6,1,6,1,6,
  1,4,3,4,3,1,3,4,3,4,1,4,1,4,1,4,1,4,1,4,3,1,3,1,3,1,3,4,3,4,1,4,1,4,1,4,1,3,4,1,4,1,4,1,4,1,
  4,1,3,4,3,4,3,4,3,4,3,4,3,4,3,1,4,1,3,1,3,4,1,3,1,3,4,1,3,1,3,4,1,3,1,3,4,1,3,1,3,4,3,1,6,1,
  3,5,3,1,3,1,5,1,5,1,5,1,5,1,5,1,3,1,5,1,5,1,5,1,6,1,5,1,5,1,5,1,6,1,5,1,6,1,5,1,5,6,1,5,1,5,
  1,5,1,5,1,5,1,5,1,5,1,5,1,6,1,4,3,1,5,1,5,1,6,1,6,1,6,1,6,1,6,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,
  5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,
  5,1,5,1,5,1,5,1,6,1,4,1,4,1,4,1,6,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1,5,1>>
LowerFrom == <<
  192,193,194,195,196,197,198,199,200,201,202,203,204,205,206,207,208,209,210,211,212,213,214,
  216,217,218,219,220,221,222,256,258,260,262,264,266,268,270,272,274,276,278,280,282,284,286,
  288,290,292,294,296,298,300,302,306,308,310,313,315,317,319,321,323,325,327,330,332,334,336,
  338,340,342,344,346,348,350,352,354,356,358,360,362,364,366,368,370,372,374,376,377,379,381,
  385,386,388,390,391,393,394,395,398,399,400,401,403,404,406,407,408,412,413,415,416,418,420,
  422,423,425,428,430,431,433,434,435,437,439,440,444,452,453,455,456,458,459,461,463,465,467,
  469,471,473,475,478,480,482,484,486,488,490,492,494,497,498,500,502,503,504,506,508,510,512,
  514,516,518,520,522,524,526,528,530,532,534,536,538,540,542,544,546,548,550,552,554,556,558,
  560,562,570,571,573,574,577,579,580,581,582,584,586,588,590,880,882,886,895,902,904,905,906,
  908,910,911,913,914,915,916,917,918,919,920,921,922,923,924,925,926,927,928,929,931,932,933,
  934,935,936,937,938,939,975,984,986,988,990,992,994,996,998,1000,1002,1004,1006,1012,1015,1017,
  1018,1021,1022,1023,1024,1025,1026,1027,1028,1029,1030,1031,1032,1033,1034,1035,1036,1037,1038,
  1039,1040,1041,1042,1043,1044,1045,1046,1047,1048,1049,1050,1051,1052,1053,1054,1055,1056,1057,
  1058,1059,1060,1061,1062,1063,1064,1065,1066,1067,1068,1069,1070,1071,1120,1122,1124,1126,1128,
  1130,1132,1134,1136,1138,1140,1142,1144,1146,1148,1150,1152,1162,1164,1166,1168,1170,1172,1174,
  1176,1178,1180,1182,1184,1186,1188,1190,1192,1194,1196,1198,1200,1202,1204,1206,1208,1210,1212,
  1214,1216,1217,1219,1221,1223,1225,1227,1229,1232,1234,1236,1238,1240,1242,1244,1246,1248,1250,
  1252,1254,1256,1258,1260,1262,1264,1266,1268,1270,1272,1274,1276,1278,1280,1282,1284,1286,1288,
  1290,1292,1294,1296,1298,1300,1302,1304,1306,1308,1310,1312,1314,1316,1318,1320,1322,1324,1326,
  1329,1330,1331,1332,1333,1334,1335,1336,1337,1338,1339,1340,1341,1342,1343,1344,1345,1346,1347,
  1348,1349,1350,1351,1352,1353,1354,1355,1356,1357,1358,1359,1360,1361,1362,1363,1364,1365,1366,
  4256,4257,4258,4259,4260,4261,4262,4263,4264,4265,4266,4267,4268,4269,4270,4271,4272,4273,4274,
  4275,4276,4277,4278,4279,4280,4281,4282,4283,4284,4285,4286,4287,4288,4289,4290,4291,4292,4293,
  4295,4301,5024,5025,5026,5027,5028,5029,5030,5031,5032,5033,5034,5035,5036,5037,5038,5039,5040,
  5041,5042,5043,5044,5045,5046,5047,5048,5049,5050,5051,5052,5053,5054,5055,5056,5057,5058,5059,
  5060,5061,5062,5063,5064,5065,5066,5067,5068,5069,5070,5071,5072,5073,5074,5075,5076,5077,5078,
  5079,5080,5081,5082,5083,5084,5085,5086,5087,5088,5089,5090,5091,5092,5093,5094,5095,5096,5097,
  5098,5099,5100,5101,5102,5103,5104,5105,5106,5107,5108,5109,7305,7312,7313,7314,7315,7316,7317,
  7318,7319,7320,7321,7322,7323,7324,7325,7326,7327,7328,7329,7330,7331,7332,7333,7334,7335,7336,
  7337,7338,7339,7340,7341,7342,7343,7344,7345,7346,7347,7348,7349,7350,7351,7352,7353,7354,7357,
  7358,7359,7680,7682,7684,7686,7688,7690,7692,7694,7696,7698,7700,7702,7704,7706,7708,7710,7712,
  7714,7716,7718,7720,7722,7724,7726,7728,7730,7732,7734,7736,7738,7740,7742,7744,7746,7748,7750,
  7752,7754,7756,7758,7760,7762,7764,7766,7768,7770,7772,7774,7776,7778,7780,7782,7784,7786,7788,
  7790,7792,7794,7796,7798,7800,7802,7804,7806,7808,7810,7812,7814,7816,7818,7820,7822,7824,7826,
  7828,7838,7840,7842,7844,7846,7848,7850,7852,7854,7856,7858,7860,7862,7864,7866,7868,7870,7872,
  7874,7876,7878,7880,7882,7884,7886,7888,7890,7892,7894,7896,7898,7900,7902,7904,7906,7908,7910,
  7912,7914,7916,7918,7920,7922,7924,7926,7928,7930,7932,7934,7944,7945,7946,7947,7948,7949,7950,
  7951,7960,7961,7962,7963,7964,7965,7976,7977,7978,7979,7980,7981,7982,7983,7992,7993,7994,7995,
  7996,7997,7998,7999,8008,8009,8010,8011,8012,8013,8025,8027,8029,8031,8040,8041,8042,8043,8044,
  8045,8046,8047,8072,8073,8074,8075,8076,8077,8078,8079,8088,8089,8090,8091,8092,8093,8094,8095,
  8104,8105,8106,8107,8108,8109,8110,8111,8120,8121,8122,8123,8124,8136,8137,8138,8139,8140,8152,
  8153,8154,8155,8168,8169,8170,8171,8172,8184,8185,8186,8187,8188,8486,8491,8498,8544,8545,8546,
  8547,8548,8549,8550,8551,8552,8553,8554,8555,8556,8557,8558,8559,8579,9398,9399,9400,9401,9402,
  9403,9404,9405,9406,9407,9408,9409,9410,9411,9412,9413,9414,9415,9416,9417,9418,9419,9420,9421,
  9422,9423,11264,11265,11266,11267,11268,11269,11270,11271,11272,11273,11274,11275,11276,11277,
  11278,11279,11280,11281,11282,11283,11284,11285,11286,11287,11288,11289,11290,11291,11292,11293,
  11294,11295,11296,11297,11298,11299,11300,11301,11302,11303,11304,11305,11306,11307,11308,11309,
  11310,11311,11360,11362,11363,11364,11367,11369,11371,11373,11374,11375,11376,11378,11381,11390,
  11391,11392,11394,11396,11398,11400,11402,11404,11406,11408,11410,11412,11414,11416,11418,11420,
  11422,11424,11426,11428,11430,11432,11434,11436,11438,11440,11442,11444,11446,11448,11450,11452,
  11454,11456,11458,11460,11462,11464,11466,11468,11470,11472,11474,11476,11478,11480,11482,11484,
  11486,11488,11490,11499,11501,11506,42560,42562,42564,42566,42568,42570,42572,42574,42576,42578,
  42580,42582,42584,42586,42588,42590,42592,42594,42596,42598,42600,42602,42604,42624,42626,42628,
  42630,42632,42634,42636,42638,42640,42642,42644,42646,42648,42650,42786,42788,42790,42792,42794,
  42796,42798,42802,42804,42806,42808,42810,42812,42814,42816,42818,42820,42822,42824,42826,42828,
  42830,42832,42834,42836,42838,42840,42842,42844,42846,42848,42850,42852,42854,42856,42858,42860,
  42862,42873,42875,42877,42878,42880,42882,42884,42886,42891,42893,42896,42898,42902,42904,42906,
  42908,42910,42912,42914,42916,42918,42920,42922,42923,42924,42925,42926,42928,42929,42930,42931,
  42932,42934,42936,42938,42940,42942,42944,42946,42948,42949,42950,42951,42953,42955,42956,42958,
  42960,42962,42964,42966,42968,42970,42972,42997,65313,65314,65315,65316,65317,65318,65319,65320,
  65321,65322,65323,65324,65325,65326,65327,65328,65329,65330,65331,65332,65333,65334,65335,65336,
  65337,65338,66560,66561,66562,66563,66564,66565,66566,66567,66568,66569,66570,66571,66572,66573,
  66574,66575,66576,66577,66578,66579,66580,66581,66582,66583,66584,66585,66586,66587,66588,66589,
  66590,66591,66592,66593,66594,66595,66596,66597,66598,66599,66736,66737,66738,66739,66740,66741,
  66742,66743,66744,66745,66746,66747,66748,66749,66750,66751,66752,66753,66754,66755,66756,66757,
  66758,66759,66760,66761,66762,66763,66764,66765,66766,66767,66768,66769,66770,66771,66928,66929,
  66930,66931,66932,66933,66934,66935,66936,66937,66938,66940,66941,66942,66943,66944,66945,66946,
  66947,66948,66949,66950,66951,66952,66953,66954,66956,66957,66958,66959,66960,66961,66962,66964,
  66965,68736,68737,68738,68739,68740,68741,68742,68743,68744,68745,68746,68747,68748,68749,68750,
  68751,68752,68753,68754,68755,68756,68757,68758,68759,68760,68761,68762,68763,68764,68765,68766,
  68767,68768,68769,68770,68771,68772,68773,68774,68775,68776,68777,68778,68779,68780,68781,68782,
  68783,68784,68785,68786,68944,68945,68946,68947,68948,68949,68950,68951,68952,68953,68954,68955,
  68956,68957,68958,68959,68960,68961,68962,68963,68964,68965,71840,71841,71842,71843,71844,71845,
  71846,71847,71848,71849,71850,71851,71852,71853,71854,71855,71856,71857,71858,71859,71860,71861,
  71862,71863,71864,71865,71866,71867,71868,71869,71870,71871,93760,93761,93762,93763,93764,93765,
  93766,93767,93768,93769,93770,93771,93772,93773,93774,93775,93776,93777,93778,93779,93780,93781,
  93782,93783,93784,93785,93786,93787,93788,93789,93790,93791,93856,93857,93858,93859,93860,93861,
  93862,93863,93864,93865,93866,93867,93868,93869,93870,93871,93872,93873,93874,93875,93876,93877,
  93878,93879,93880,125184,125185,125186,125187,125188,125189,125190,125191,125192,125193,125194,
  125195,125196,125197,125198,125199,125200,125201,125202,125203,125204,125205,125206,125207,
  125208,125209,125210,125211,125212,125213,125214,125215,125216,125217>>
LowerTo == <<
  224,225,226,227,228,229,230,231,232,233,234,235,236,237,238,239,240,241,242,243,244,245,246,
  248,249,250,251,252,253,254,257,259,261,263,265,267,269,271,273,275,277,279,281,283,285,287,
  289,291,293,295,297,299,301,303,307,309,311,314,316,318,320,322,324,326,328,331,333,335,337,
  339,341,343,345,347,349,351,353,355,357,359,361,363,365,367,369,371,373,375,255,378,380,382,
  595,387,389,596,392,598,599,396,477,601,603,402,608,611,617,616,409,623,626,629,417,419,421,
  640,424,643,429,648,432,650,651,436,438,658,441,445,454,454,457,457,460,460,462,464,466,468,
  470,472,474,476,479,481,483,485,487,489,491,493,495,499,499,501,405,447,505,507,509,511,513,
  515,517,519,521,523,525,527,529,531,533,535,537,539,541,543,414,547,549,551,553,555,557,559,
  561,563,11365,572,410,11366,578,384,649,652,583,585,587,589,591,881,883,887,1011,940,941,942,
  943,972,973,974,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,961,963,964,
  965,966,967,968,969,970,971,983,985,987,989,991,993,995,997,999,1001,1003,1005,1007,952,1016,
  1010,1019,891,892,893,1104,1105,1106,1107,1108,1109,1110,1111,1112,1113,1114,1115,1116,1117,
  1118,1119,1072,1073,1074,1075,1076,1077,1078,1079,1080,1081,1082,1083,1084,1085,1086,1087,1088,
  1089,1090,1091,1092,1093,1094,1095,1096,1097,1098,1099,1100,1101,1102,1103,1121,1123,1125,1127,
  1129,1131,1133,1135,1137,1139,1141,1143,1145,1147,1149,1151,1153,1163,1165,1167,1169,1171,1173,
  1175,1177,1179,1181,1183,1185,1187,1189,1191,1193,1195,1197,1199,1201,1203,1205,1207,1209,1211,
  1213,1215,1231,1218,1220,1222,1224,1226,1228,1230,1233,1235,1237,1239,1241,1243,1245,1247,1249,
  1251,1253,1255,1257,1259,1261,1263,1265,1267,1269,1271,1273,1275,1277,1279,1281,1283,1285,1287,
  1289,1291,1293,1295,1297,1299,1301,1303,1305,1307,1309,1311,1313,1315,1317,1319,1321,1323,1325,
  1327,1377,1378,1379,1380,1381,1382,1383,1384,1385,1386,1387,1388,1389,1390,1391,1392,1393,1394,
  1395,1396,1397,1398,1399,1400,1401,1402,1403,1404,1405,1406,1407,1408,1409,1410,1411,1412,1413,
  1414,11520,11521,11522,11523,11524,11525,11526,11527,11528,11529,11530,11531,11532,11533,11534,
  11535,11536,11537,11538,11539,11540,11541,11542,11543,11544,11545,11546,11547,11548,11549,11550,
  11551,11552,11553,11554,11555,11556,11557,11559,11565,43888,43889,43890,43891,43892,43893,43894,
  43895,43896,43897,43898,43899,43900,43901,43902,43903,43904,43905,43906,43907,43908,43909,43910,
  43911,43912,43913,43914,43915,43916,43917,43918,43919,43920,43921,43922,43923,43924,43925,43926,
  43927,43928,43929,43930,43931,43932,43933,43934,43935,43936,43937,43938,43939,43940,43941,43942,
  43943,43944,43945,43946,43947,43948,43949,43950,43951,43952,43953,43954,43955,43956,43957,43958,
  43959,43960,43961,43962,43963,43964,43965,43966,43967,5112,5113,5114,5115,5116,5117,7306,4304,
  4305,4306,4307,4308,4309,4310,4311,4312,4313,4314,4315,4316,4317,4318,4319,4320,4321,4322,4323,
  4324,4325,4326,4327,4328,4329,4330,4331,4332,4333,4334,4335,4336,4337,4338,4339,4340,4341,4342,
  4343,4344,4345,4346,4349,4350,4351,7681,7683,7685,7687,7689,7691,7693,7695,7697,7699,7701,7703,
  7705,7707,7709,7711,7713,7715,7717,7719,7721,7723,7725,7727,7729,7731,7733,7735,7737,7739,7741,
  7743,7745,7747,7749,7751,7753,7755,7757,7759,7761,7763,7765,7767,7769,7771,7773,7775,7777,7779,
  7781,7783,7785,7787,7789,7791,7793,7795,7797,7799,7801,7803,7805,7807,7809,7811,7813,7815,7817,
  7819,7821,7823,7825,7827,7829,223,7841,7843,7845,7847,7849,7851,7853,7855,7857,7859,7861,7863,
  7865,7867,7869,7871,7873,7875,7877,7879,7881,7883,7885,7887,7889,7891,7893,7895,7897,7899,7901,
  7903,7905,7907,7909,7911,7913,7915,7917,7919,7921,7923,7925,7927,7929,7931,7933,7935,7936,7937,
  7938,7939,7940,7941,7942,7943,7952,7953,7954,7955,7956,7957,7968,7969,7970,7971,7972,7973,7974,
  7975,7984,7985,7986,7987,7988,7989,7990,7991,8000,8001,8002,8003,8004,8005,8017,8019,8021,8023,
  8032,8033,8034,8035,8036,8037,8038,8039,8064,8065,8066,8067,8068,8069,8070,8071,8080,8081,8082,
  8083,8084,8085,8086,8087,8096,8097,8098,8099,8100,8101,8102,8103,8112,8113,8048,8049,8115,8050,
  8051,8052,8053,8131,8144,8145,8054,8055,8160,8161,8058,8059,8165,8056,8057,8060,8061,8179,969,
  229,8526,8560,8561,8562,8563,8564,8565,8566,8567,8568,8569,8570,8571,8572,8573,8574,8575,8580,
  9424,9425,9426,9427,9428,9429,9430,9431,9432,9433,9434,9435,9436,9437,9438,9439,9440,9441,9442,
  9443,9444,9445,9446,9447,9448,9449,11312,11313,11314,11315,11316,11317,11318,11319,11320,11321,
  11322,11323,11324,11325,11326,11327,11328,11329,11330,11331,11332,11333,11334,11335,11336,11337,
  11338,11339,11340,11341,11342,11343,11344,11345,11346,11347,11348,11349,11350,11351,11352,11353,
  11354,11355,11356,11357,11358,11359,11361,619,7549,637,11368,11370,11372,593,625,592,594,11379,
  11382,575,576,11393,11395,11397,11399,11401,11403,11405,11407,11409,11411,11413,11415,11417,
  11419,11421,11423,11425,11427,11429,11431,11433,11435,11437,11439,11441,11443,11445,11447,11449,
  11451,11453,11455,11457,11459,11461,11463,11465,11467,11469,11471,11473,11475,11477,11479,11481,
  11483,11485,11487,11489,11491,11500,11502,11507,42561,42563,42565,42567,42569,42571,42573,42575,
  42577,42579,42581,42583,42585,42587,42589,42591,42593,42595,42597,42599,42601,42603,42605,42625,
  42627,42629,42631,42633,42635,42637,42639,42641,42643,42645,42647,42649,42651,42787,42789,42791,
  42793,42795,42797,42799,42803,42805,42807,42809,42811,42813,42815,42817,42819,42821,42823,42825,
  42827,42829,42831,42833,42835,42837,42839,42841,42843,42845,42847,42849,42851,42853,42855,42857,
  42859,42861,42863,42874,42876,7545,42879,42881,42883,42885,42887,42892,613,42897,42899,42903,
  42905,42907,42909,42911,42913,42915,42917,42919,42921,614,604,609,620,618,670,647,669,43859,
  42933,42935,42937,42939,42941,42943,42945,42947,42900,642,7566,42952,42954,612,42957,42959,
  42961,42963,42965,42967,42969,42971,411,42998,65345,65346,65347,65348,65349,65350,65351,65352,
  65353,65354,65355,65356,65357,65358,65359,65360,65361,65362,65363,65364,65365,65366,65367,65368,
  65369,65370,66600,66601,66602,66603,66604,66605,66606,66607,66608,66609,66610,66611,66612,66613,
  66614,66615,66616,66617,66618,66619,66620,66621,66622,66623,66624,66625,66626,66627,66628,66629,
  66630,66631,66632,66633,66634,66635,66636,66637,66638,66639,66776,66777,66778,66779,66780,66781,
  66782,66783,66784,66785,66786,66787,66788,66789,66790,66791,66792,66793,66794,66795,66796,66797,
  66798,66799,66800,66801,66802,66803,66804,66805,66806,66807,66808,66809,66810,66811,66967,66968,
  66969,66970,66971,66972,66973,66974,66975,66976,66977,66979,66980,66981,66982,66983,66984,66985,
  66986,66987,66988,66989,66990,66991,66992,66993,66995,66996,66997,66998,66999,67000,67001,67003,
  67004,68800,68801,68802,68803,68804,68805,68806,68807,68808,68809,68810,68811,68812,68813,68814,
  68815,68816,68817,68818,68819,68820,68821,68822,68823,68824,68825,68826,68827,68828,68829,68830,
  68831,68832,68833,68834,68835,68836,68837,68838,68839,68840,68841,68842,68843,68844,68845,68846,
  68847,68848,68849,68850,68976,68977,68978,68979,68980,68981,68982,68983,68984,68985,68986,68987,
  68988,68989,68990,68991,68992,68993,68994,68995,68996,68997,71872,71873,71874,71875,71876,71877,
  71878,71879,71880,71881,71882,71883,71884,71885,71886,71887,71888,71889,71890,71891,71892,71893,
  71894,71895,71896,71897,71898,71899,71900,71901,71902,71903,93792,93793,93794,93795,93796,93797,
  93798,93799,93800,93801,93802,93803,93804,93805,93806,93807,93808,93809,93810,93811,93812,93813,
  93814,93815,93816,93817,93818,93819,93820,93821,93822,93823,93883,93884,93885,93886,93887,93888,
  93889,93890,93891,93892,93893,93894,93895,93896,93897,93898,93899,93900,93901,93902,93903,93904,
  93905,93906,93907,125218,125219,125220,125221,125222,125223,125224,125225,125226,125227,125228,
  125229,125230,125231,125232,125233,125234,125235,125236,125237,125238,125239,125240,125241,
  125242,125243,125244,125245,125246,125247,125248,125249,125250,125251>>
=============================================================================
