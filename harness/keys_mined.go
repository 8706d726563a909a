// Code generated by tools/minekeys; DO NOT EDIT.

package harness

// minedPairs[c]: pairs of n whose keys "k<n>" have hashes sharing exactly c leading bits.
var minedPairs = map[int][][2]uint32{
	0:  {{213550298, 40471046}, {95186719, 258888769}, {26921951, 123798786}},
	1:  {{7315933, 74038343}, {168834326, 145643752}, {95186719, 220441403}},
	2:  {{170412788, 248651565}, {113082399, 123294243}, {235849721, 220565216}, {99452129, 78376899}},
	3:  {{123789529, 204965820}, {40960978, 38226250}, {67504250, 68431386}, {148515254, 205132015}, {72706430, 257903864}, {162140427, 95745204}},
	4:  {{154413999, 218668713}, {224771248, 36847563}, {3927973, 264756733}, {122769490, 132695613}, {186376624, 5292813}, {142494158, 1192757}},
	5:  {{37008687, 211129642}, {87165708, 16947096}, {60548671, 99861768}, {150207868, 161096671}, {52847456, 89070738}, {57017375, 85093880}},
	6:  {{172301866, 71590728}, {5050320, 200360568}, {184545232, 71728197}, {240135443, 26178151}, {140046304, 193100613}, {115593886, 237078500}},
	7:  {{216707341, 105156688}, {110145989, 168715494}, {86440905, 164537339}, {251238327, 163152100}, {248493591, 119839091}, {176768672, 198578587}},
	8:  {{167196907, 52806173}, {16506660, 242125907}, {268202562, 230737267}, {13844826, 78786011}, {12468862, 196239200}, {84995914, 65017758}},
	9:  {{259450259, 160235377}, {197712565, 12305650}, {197301336, 73206893}, {262991007, 91774275}, {236002374, 232521130}, {67493240, 236578690}},
	10: {{79090084, 207785327}, {36370663, 252644593}, {209998317, 251363324}, {22208557, 221768096}, {218231337, 85089235}, {225315475, 228478008}},
	11: {{93150424, 58630760}, {230931380, 150806265}, {91486948, 209877032}, {144978703, 127197569}, {55597891, 157413947}, {217054797, 221498612}},
	12: {{218002779, 5454571}, {127536426, 63917846}, {78442717, 198850317}, {254365541, 65609088}, {152586211, 245486165}, {16771153, 62931631}},
	13: {{164160551, 128481263}, {227895084, 3847007}, {194111538, 228304960}, {135942764, 152145398}, {33070242, 209288582}, {17421151, 161598560}},
	14: {{241296942, 248497414}, {207734904, 151266209}, {85550787, 35407795}, {54547767, 58761039}, {96864430, 250399772}, {39889012, 73478959}},
	15: {{16553978, 85568416}, {52238437, 84022201}, {129506469, 173986254}, {190240872, 167801869}, {222935833, 159823933}, {181372116, 157484164}},
	16: {{175649916, 189415012}, {263977250, 145625498}, {63830353, 156116383}, {122076542, 220045858}, {125908108, 264091417}, {191092130, 138603027}},
	17: {{145306633, 99901112}, {131377947, 222353430}, {101117200, 53533790}, {246057441, 22917936}, {9695556, 116775903}, {163623607, 66904426}},
	18: {{100867080, 222111349}, {251338847, 92987786}, {213356932, 50418741}, {179030608, 189243938}, {104715353, 242236565}, {220868740, 15590385}},
	19: {{246978863, 120466654}, {101746804, 73465484}, {161923292, 240265843}, {70625252, 109245341}, {30287148, 206308079}, {177824368, 123403141}},
	20: {{196131394, 157669747}, {4387573, 231923060}, {256002589, 260677303}, {82578487, 25445786}, {183014397, 70798260}, {43417153, 184817945}},
	21: {{204123888, 40590602}, {222453300, 217569207}, {164458373, 82649252}, {15194129, 2658672}, {240909953, 171917795}, {157171893, 15671535}},
	22: {{205222067, 61814280}, {180176442, 208548300}, {229589945, 165216158}, {10948488, 127125707}, {56834057, 159372123}, {189151756, 69378189}},
	23: {{656400, 250000809}, {17914473, 816130}, {95748979, 198603747}, {237046529, 185291383}, {96295766, 29722325}, {94385184, 185465902}},
	24: {{100213603, 236637081}, {32405520, 219773263}, {218012654, 19741598}, {2373478, 223956651}, {66014737, 5303112}, {34437351, 227609090}},
	25: {{95186719, 222264325}, {218955435, 656400}, {72470950, 130761824}, {135151464, 201663989}, {230399130, 96482307}, {257556969, 218570212}},
	26: {{259962840, 100213603}, {236637081, 18190679}, {77650225, 221135995}, {141609971, 209799377}, {201663989, 99766014}, {96482307, 218012654}},
	27: {{12865492, 77650225}, {221135995, 72470950}, {209799377, 152711491}, {219773263, 135151464}, {172153815, 69338692}, {61814280, 230399130}},
	28: {{222264325, 259962840}, {18190679, 218955435}, {114445844, 120413681}, {152711491, 32405520}, {99766014, 172153815}, {69338692, 205222067}},
	29: {{130761824, 141609971}, {218570212, 152126450}, {223956651, 154599401}, {116037625, 171774210}, {65703757, 243730727}, {57687534, 80055953}},
	30: {{120413681, 12865492}, {152126450, 44288743}, {816130, 35718318}, {112087406, 124871939}, {120443161, 241438624}, {27001145, 205388301}},
	31: {{18151436, 70958625}, {185291383, 103761524}, {105185212, 51736944}, {113518522, 244979917}, {163410913, 260932777}, {192740409, 242094430}},
	32: {{172445119, 114445844}, {103761524, 57687534}, {241438624, 236182920}, {261802131, 9148523}, {259704708, 198734318}, {125999423, 52484119}},
	33: {{148663023, 190957056}, {248188754, 145668609}, {65075093, 229589945}, {199791740, 83495740}, {253774482, 61098306}, {225632543, 166150071}},
	34: {{149611717, 68264417}, {32343290, 53490643}, {36164279, 25815114}, {56383318, 176693673}, {70842166, 51530703}, {144426567, 169069081}},
	35: {{250000809, 172445119}, {209213819, 106576799}, {153553518, 161162842}, {121799298, 186195378}, {71455638, 265114998}, {75932703, 258363423}},
	36: {{242955762, 79477568}, {53745506, 203819720}, {247879079, 14081787}, {4731970, 252589370}, {92241311, 89943659}, {154432470, 138312826}},
	37: {{28017477, 110691358}, {81483666, 234862087}, {25948122, 42804462}, {228563721, 83623590}, {66249011, 65885840}, {229388329, 254731643}},
	38: {{66622523, 163765490}, {179186218, 262523802}, {73932405, 25429093}, {192247384, 124460214}, {1984652, 263028271}, {63144344, 81434551}},
	39: {{190649752, 117910688}, {225948716, 32621309}, {158419215, 88023178}, {239963060, 129809168}, {251756790, 106027777}, {228911470, 89528925}},
	40: {{259678960, 147311719}, {54768251, 78575831}, {258176421, 21044766}, {172401224, 117314610}, {118899301, 62031164}, {28548250, 94258710}},
	41: {{256936899, 216955369}, {53776303, 264045759}, {193489734, 174853175}, {125982211, 71212954}, {169781637, 125084743}, {76640648, 11502540}},
	42: {{114271466, 217587672}, {191762435, 86913722}, {139560606, 11775946}, {255717261, 107920831}, {201204111, 15549197}, {41171356, 254112525}},
	43: {{9751867, 119906953}, {251434761, 20520980}, {264806242, 189461753}, {271139, 140586059}, {52399034, 218223263}, {23989081, 88692218}},
	44: {{249906964, 184471330}, {93572818, 168126851}, {10347218, 136283779}, {64111891, 94579980}, {1344740, 49236961}, {115485317, 30509689}},
	45: {{13759298, 212129028}, {260293458, 21859458}, {50585552, 212155985}, {46229949, 30944414}, {58641679, 82628248}, {68519440, 65037151}},
	46: {{247104117, 38718098}, {16059921, 101258270}, {117241834, 98248342}, {16899049, 125197555}, {9912966, 110968439}, {128518743, 191479418}},
	47: {{14241210, 197718915}, {249805212, 76651473}, {143856845, 176087922}, {55420016, 127180863}, {153565913, 181873294}, {157098349, 254603284}},
	48: {{20862103, 226306682}, {258907148, 178429335}, {41220844, 252274967}, {180861601, 206121514}, {23257066, 141949796}, {226356715, 129584253}},
	49: {{11130256, 87015648}, {10493570, 137066159}, {219535702, 266541845}, {152393781, 134658127}, {195299138, 108655471}, {115376189, 183689051}},
	50: {{41912556, 183218697}, {63899703, 105993501}, {61761715, 160385560}, {137534272, 180944063}, {151367105, 200134448}, {52754253, 213627049}},
	51: {{62736103, 16408046}, {176202163, 203882036}, {244893848, 45248196}, {153928647, 137566346}, {258064737, 225035027}, {85903771, 20313820}},
	52: {{5954687, 177639715}, {71205833, 33367935}},
	53: {{130498167, 9467895}, {185035584, 148191822}},
	54: {{153972370, 154953865}},
}

// minedClusters: neighbouring hashes (all share about 25 leading bits).
var minedClusters = [][]uint32{
	{95186719, 222264325, 259962840, 100213603, 236637081, 18190679, 218955435, 656400},
	{178709503, 215958288, 263556313, 226032563, 64023567, 154588276, 24810957, 221280322},
	{138926731, 102836358, 126747790, 196424725, 241316206, 265419511, 118455561, 175476993},
	{245432172, 240864912, 209656165, 118022145, 123348425, 202884776, 20542136, 178526808},
	{200365749, 90970774, 190615294, 190303162, 171539817, 100109341, 236935457, 124154614},
	{105087757, 172712686, 73920615, 31248034, 44967644, 167905496, 170388866, 242813784},
	{228967053, 109453027, 229402549, 217162086, 126156299, 189894557, 158169106, 128349550},
	{222572643, 261739159, 169051913, 5002221, 231358109, 248062813, 142459428, 124657189},
	{23558397, 62889018, 182881128, 134341065, 200301606, 35393806, 266096605, 20451785},
	{79543556, 155489578, 22772594, 149272557, 75508686, 233349148, 226780887, 34197926},
	{170244472, 230753144, 258650477, 93834209, 141301813, 20376219, 100745781, 120829693},
	{50675162, 130872438, 157242848, 251297116, 79728649, 183345051, 64452586, 156254875},
}
